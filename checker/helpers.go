package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// decide enumerates the results of a specification over the atoms it asks
// for, keeping only the valuations consistent with the facts.
func decide(f *Facts, spec func(ask func(*Term) bool) string) map[string]*Facts {
	out := map[string]*Facts{}
	var run func(g *Facts, depth int)
	run = func(g *Facts, depth int) {
		if depth > 60 {
			panic("specification asks too many questions")
		}
		type need struct{ t *Term }
		res, open := func() (r string, open *Term) {
			defer func() {
				if x := recover(); x != nil {
					if n, ok := x.(need); ok {
						open = n.t
						return
					}
					panic(x)
				}
			}()
			return spec(func(t *Term) bool {
				switch g.eval(t) {
				case yes:
					return true
				case no:
					return false
				}
				panic(need{t})
			}), nil
		}()
		if open == nil {
			if res != "infeasible" {
				out[res] = g
			}
			return
		}
		for _, v := range []bool{true, false} {
			h := g.clone()
			if h.assume(open, v) {
				run(h, depth+1)
			}
		}
	}
	run(f.clone(), 0)
	return out
}

// isNilErr evaluates t == nil.
func isNilT(t *Term) *Term { return mkEq(t, mkNil()) }

// wraps reports that err is inner or an error that wraps it.
func wraps(f *Facts, err, inner *Term) bool {
	if err == inner || f.eval(mkEq(err, inner)) == yes {
		return true
	}
	if err.Op == OpApp && err.Aux == "fmt.Errorf" && len(err.Args) > 1 {
		format, ok := err.Args[0].isStr()
		if !ok {
			return false
		}
		verbs := fmtVerbs(format)
		for i, v := range verbs {
			if v == 'w' && i+1 < len(err.Args) {
				a := err.Args[i+1]
				if wraps(f, a, inner) {
					return true
				}
				if a.Op == OpIface && wraps(f, a.Args[0], inner) {
					return true
				}
			}
		}
	}
	if err.Op == OpIface && len(err.Args) == 1 && err.Args[0] == inner {
		return true
	}
	return false
}

func fmtVerbs(f string) []byte {
	var out []byte
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i < len(f) && f[i] != '%' {
			out = append(out, f[i])
		}
	}
	return out
}

// elemOf splits the element list[idx].
func elemOf(t *Term) (list, idx *Term, ok bool) {
	if t.Op == OpLoad && t.Args[0].Op == OpIndexAddr {
		return t.Args[0].Args[0], t.Args[0].Args[1], true
	}
	return nil, nil, false
}

// fieldOf splits the content of a field.
func fieldOf(t *Term) (base *Term, n int, ok bool) {
	if t.Op == OpLoad && t.Args[0].Op == OpFieldAddr {
		return t.Args[0].Args[0], int(t.Args[0].N), true
	}
	if t.Op == OpField {
		return t.Args[0], int(t.N), true
	}
	return nil, 0, false
}

func ptrTo(t types.Type, n *types.Named) bool {
	p, ok := t.(*types.Pointer)
	return ok && types.Identical(p.Elem(), n)
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

func lookupNamed(p *Prog, rel, name string) *types.Named {
	pk := p.Pkg(rel)
	if pk == nil {
		return nil
	}
	o := pk.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

func fieldIndexByName(t types.Type, name string) int {
	st := structOf(deref(t))
	if st == nil {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// loadField is the content of field i of the object at base.
func loadField(s *State, base *Term, i int) *Term {
	st := structOf(deref(base.Typ))
	ft := st.Field(i).Type()
	return s.load(mkFieldAddr(base, i, types.NewPointer(ft)), ft)
}

// pkgFuncs lists the module functions of a package, without tests.
func pkgFuncs(p *Prog, rel string) []*ssa.Function {
	var out []*ssa.Function
	path := p.Mod + "/" + rel
	if rel == "" {
		path = p.Mod
	}
	for _, f := range p.Funcs {
		if fnPkgPath(f) == path {
			out = append(out, f)
		}
	}
	return out
}

func fnPkgPath(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// staticCallees lists the module functions that fn calls or refers to.
func staticCallees(p *Prog, fn *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				if f, ok := (*op).(*ssa.Function); ok && p.inModule(f) && len(f.Blocks) > 0 && !seen[f] {
					seen[f] = true
					out = append(out, f)
				}
			}
			if mc, ok := ins.(*ssa.MakeClosure); ok {
				f := mc.Fn.(*ssa.Function)
				if !seen[f] && len(f.Blocks) > 0 {
					seen[f] = true
					out = append(out, f)
				}
			}
		}
	}
	return out
}

// reach computes the functions reachable from roots over static references.
func reach(p *Prog, roots ...*ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || out[f] {
			return
		}
		out[f] = true
		for _, g := range staticCallees(p, f) {
			visit(g)
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return out
}

func recursive(p *Prog, f *ssa.Function) bool {
	for _, g := range staticCallees(p, f) {
		if reach(p, g)[f] {
			return true
		}
	}
	return false
}

func sortedKeys(m map[string]*Facts) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Path is a completed path of the abstract interpretation.
type Path struct {
	St     *State
	Rets   []*Term
	Events []*Event
}

func collect(c *Ctx, fn *ssa.Function, cl *Client, params []*Term, init func(*State)) (*Engine, []*Path) {
	var out []*Path
	old := cl.OnReturn
	cl.OnReturn = func(s *State, rets []*Term) {
		out = append(out, &Path{St: s, Rets: rets, Events: s.Events()})
		if old != nil {
			old(s, rets)
		}
	}
	e := c.Run(fn, cl, params, init)
	return e, out
}

// seqCheck verifies that visits of a list are in order: index 0 first, then
// the next one in each further iteration.
type seqCheck struct {
	list  *Term
	first map[*Term]bool            // visited index outside any further iteration
	later map[string]map[*Term]bool // loop -> visited index in further iterations
	loops map[string]bool           // loops whose iterations visit elements
	skips map[string]bool           // loops with an iteration that visits none
}

func newSeq(list *Term) *seqCheck {
	return &seqCheck{list: list, first: map[*Term]bool{}, later: map[string]map[*Term]bool{}, loops: map[string]bool{}, skips: map[string]bool{}}
}

func loopVarIn(t *Term) *Term {
	b, _ := linParts(t)
	if b != nil && b.Op == OpLoopVar {
		return b
	}
	return nil
}

func (q *seqCheck) visit(idx *Term) {
	if lv := loopVarIn(idx); lv != nil {
		k := loopOfVar(lv)
		if q.later[k] == nil {
			q.later[k] = map[*Term]bool{}
		}
		q.later[k][idx] = true
		return
	}
	q.first[idx] = true
}

// verify returns a complaint or "".
func (q *seqCheck) verify(e *Engine) string {
	for i := range q.first {
		if !i.IsInt || i.N != 0 {
			return "the first element visited is " + i.String() + ", not element 0"
		}
	}
	for k, m := range q.later {
		rec := e.Loops[k]
		if rec == nil {
			return "unknown loop"
		}
		if len(m) != 1 {
			return "one iteration visits several elements"
		}
		for idx := range m {
			b, off := linParts(idx)
			vr := rec.Vars[b]
			if vr == nil {
				return "the index is not an induction variable"
			}
			for f := range vr.Firsts {
				if !f.IsInt || f.N+off != 1 {
					return "the second iteration visits element " + mkLin(f, off).String() + ", not element 1"
				}
			}
			for st := range vr.Steps {
				sb, so := linParts(st)
				if sb != b || so != 1 {
					return "the index changes from " + b.String() + " to " + st.String() + " instead of the next element"
				}
			}
		}
	}
	return ""
}

// next is the number of elements visited when the loop with key k is at its
// header after at least one iteration.
func (q *seqCheck) next(k string) *Term {
	for idx := range q.later[k] {
		return idx
	}
	if q.loops[k] {
		return mkInt(1) // the first iteration is the only one that visits
	}
	return nil
}

// back records an iteration of a loop that visits n elements; done: the
// iteration need not visit any.
func (q *seqCheck) back(key string, n int, done bool) {
	if n > 0 {
		q.loops[key] = true
	} else if !done {
		q.skips[key] = true
	}
}

// skipped: an iteration of a visiting loop leaves its element out.
func (q *seqCheck) skipped() bool {
	for k := range q.loops {
		if q.skips[k] {
			return true
		}
	}
	return false
}

// quiet: a call of the function changes no memory that exists when it starts
// (decided from the instructions of the function and of all it calls).
func quiet(p *Prog, fn *ssa.Function) bool {
	for f := range reach(p, fn) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if !quietInstr(p, ins) {
					return false
				}
			}
		}
	}
	return true
}

// quietRun decides the same from the paths of the function: each changes only
// memory made on that path. Calls within the recursion are taken to be quiet,
// which the run of each of these functions shows.
func quietRun(p *Prog, fn *ssa.Function, model func(*State, *CallCtx) ([]*Term, bool), init func(*State)) bool {
	fns := []*ssa.Function{fn}
	for f := range reach(p, fn) {
		if f != fn && p.inModule(f) && len(f.Blocks) > 0 && recursive(p, f) {
			fns = append(fns, f)
		}
	}
	for _, f := range fns {
		ok := true
		cl := &Client{PlainMaps: true, SplitLoops: true, Budget: 100000}
		cl.Model = func(s *State, cc *CallCtx) ([]*Term, bool) {
			if cc.Fn != nil && hasFn(fns, cc.Fn) {
				return s.e.results(s, cc), true
			}
			return model(s, cc)
		}
		cl.OnEvent = func(s *State, ev *Event) bool {
			switch ev.Kind {
			case "store", "write":
				ok = ok && rootOf(ev.Addr).Op == OpAlloc
			case "mapset", "mapdel", "clear", "copy":
				ok = ok && rootOf(ev.Args[0]).Op == OpAlloc
			case "call", "pure":
				name := ""
				if ev.Fn != nil {
					name = ev.Fn.String()
				} else if ev.Method != nil {
					name = ev.Method.FullName()
				}
				ok = ok && readOnlyCall(name)
			case "range", "append", "loop", "conv":
			default:
				ok = false
			}
			return false
		}
		e := NewEngine(p, cl)
		e.Run(f, rootParams(f), init)
		if e.Err != nil || !ok {
			return false
		}
	}
	return true
}

func quietInstr(p *Prog, ins ssa.Instruction) bool {
	switch x := ins.(type) {
	case *ssa.Store:
		return madeHere(x.Addr, map[ssa.Value]bool{})
	case *ssa.MapUpdate:
		return madeHere(x.Map, map[ssa.Value]bool{})
	case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select:
		return false
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "delete", "copy", "clear":
				return madeHere(x.Call.Args[0], map[ssa.Value]bool{})
			}
			return true
		}
		if sc := x.Call.StaticCallee(); sc != nil {
			return p.inModule(sc) && len(sc.Blocks) > 0 || readOnlyCall(sc.String())
		}
		return x.Call.IsInvoke() && readOnlyCall(x.Call.Method.FullName())
	}
	return true
}

// madeHere: the memory behind v was made by the function.
func madeHere(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return true
	case *ssa.FieldAddr:
		return madeHere(x.X, seen)
	case *ssa.IndexAddr:
		return madeHere(x.X, seen)
	case *ssa.Slice:
		return madeHere(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && c.IsNil() {
				continue
			}
			if !madeHere(e, seen) {
				return false
			}
		}
		return true
	}
	return false
}

func hasFn(l []*ssa.Function, f *ssa.Function) bool {
	for _, x := range l {
		if x == f {
			return true
		}
	}
	return false
}
