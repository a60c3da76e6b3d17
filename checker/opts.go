package main

import (
	"go/types"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C30: every option takes effect. The options are the fields of the
// configuration types (of the processors that are registered, of the entries
// and of the pipeline); for each one the value must make a difference.

func init() {
	register("C30", func(c *Ctx) {
		w := newProcWorld(c)
		if w == nil {
			return
		}
		c.Rule("C30-used", "the value of every option of a registered processor, handed to its constructor, decides what Process does: it occurs in what Process reads, writes or returns, or separates paths on which Process does different things; ignore_missing and ignore_failure may instead be reported by Config, from where the pipeline takes them", 10)
		c.Rule("C30-config", "Config of a processor returns the ignore_missing and ignore_failure it was constructed with", 2)
		c.Rule("C30-effect", "in every case that the documentation distinguishes by an option the processor does what the option asks for (which field is read and written, whether an absent field is an error, whether duplicates are stored)", 6)
		c.Rule("C30-entry", "every option of an entry and of the pipeline flows into a decision or a call made when the pipeline is built or run", 6)
		c.Rule("C30-flags", "the options of an entry reach the constructor registered for it unchanged; ignore_missing, ignore_failure and the on_failure lists of processor and pipeline are kept by construction and decide the outcome as documented", 6)
		w.optsOnly = true
		for _, n := range w.names {
			w.optionsOf(w.procs[n])
		}
		w.caseProc("lowercase", "ToLower")
		w.caseProc("uppercase", "ToUpper")
		w.findClones("")
		w.setProc()
		w.appendProc()
		w.removeProc()
		entryOptions(c)
		w.flags()
	})
}

// optName is the name of an option as it appears in a definition.
func optName(st *types.Struct, i int, keys ...string) string {
	tag := reflect.StructTag(st.Tag(i))
	for _, k := range keys {
		if n := strings.Split(tag.Get(k), ",")[0]; n != "" {
			return n
		}
		if strings.Contains(tag.Get(k), ",inline") {
			return "options"
		}
	}
	return strings.ToLower(st.Field(i).Name())
}

// callNo is the number of a call in the name of its result.
var callNo = regexp.MustCompile(`·:?[0-9]+`)

// optCase is what Process does on one path or in one iteration.
type optCase struct {
	f     *Facts
	atoms map[*Term]tri
	terms []*Term // everything that is read, written or returned
	sig   string
}

func (w *procWorld) optionsOf(pr *procRole) {
	c := w.c
	st := structOf(pr.cfg)
	if st == nil {
		c.Bad("anchor", "configuration of "+pr.name, pr.regPos, "the configuration of "+pr.name+" is not a struct")
		return
	}
	e, cfg, paths := w.run(pr)
	var cases []*optCase
	add := func(s *State, evs []*Event, rets []*Term, end string) {
		k := &optCase{f: s.F, atoms: map[*Term]tri{}}
		var sig []string
		note := func(t *Term) {
			k.terms = append(k.terms, t)
			sig = append(sig, callNo.ReplaceAllString(t.String(), ""))
			if r := rootOf(plain(t)); r.Op == OpAlloc {
				var in []string
				for a, v := range s.mem {
					if v != nil && rootOf(a) == r {
						k.terms = append(k.terms, v)
						in = append(in, callNo.ReplaceAllString(v.String(), ""))
					}
				}
				sort.Strings(in)
				sig = append(sig, in...)
			}
		}
		for _, ev := range w.writes(&Path{Events: evs}) {
			sig = append(sig, ev.Kind)
			for _, a := range ev.Args {
				note(a)
			}
			if ev.Addr != nil {
				note(ev.Addr)
			}
			if ev.Val != nil {
				note(ev.Val)
			}
		}
		for _, t := range rets {
			note(t)
		}
		k.sig = end + strings.Join(sig, "\x00")
		for _, a := range aboutTerms(s.F) {
			if b, ok := a.Typ.(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				k.atoms[a] = s.F.eval(a)
				continue
			}
			for _, v := range s.F.constsOf(a) {
				k.atoms[mkEq(a, v)] = s.F.eval(mkEq(a, v))
			}
		}
		cases = append(cases, k)
	}
	for _, p := range paths {
		add(p.St, p.Events, p.Rets, "return ")
	}
	for _, rec := range e.Loops {
		for i := range rec.Iters {
			add(rec.Iters[i].St, rec.Iters[i].Events, nil, "go on ")
		}
	}
	var cfgPaths []*Path
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Embedded() || !f.Exported() && reflect.StructTag(st.Tag(i)).Get("config") == "" {
			continue
		}
		name := optName(st, i, "config")
		construct := pr.name + "." + name
		if !f.Exported() {
			c.Bad("C30-used", construct, c.P.Pos(f.Pos()), "the option "+name+" of "+pr.name+" is an unexported field, which is never set")
			continue
		}
		x := mkField(cfg, i, f.Type())
		used := optInfluence(cases, x)
		if f.Name() == "IgnoreMissing" || f.Name() == "IgnoreFailure" {
			if cfgPaths == nil {
				cfgPaths = w.configPaths(pr)
			}
			why := ""
			if len(cfgPaths) == 0 {
				why = "no result of Config is known"
			}
			for _, p := range cfgPaths {
				got := p.Rets[0]
				if v := p.St.F.resolve(mkField(got, i, f.Type())); v != x && p.St.F.eval(mkEq(v, x)) != yes && got != cfg {
					why = "Config reports " + v.String() + " for " + name
				}
			}
			c.Check(why == "" || used, "C30-config", construct, pr.regPos, why)
			used = used || why == ""
		}
		c.Check(used, "C30-used", construct, c.P.Pos(f.Pos()), "the option "+name+" of "+pr.name+" makes no difference to what Process does")
	}
}

// optInfluence: the option occurs in an effect, or separates two cases with different effects.
func optInfluence(cases []*optCase, x *Term) bool {
	for _, k := range cases {
		for _, t := range k.terms {
			if contains(t, x) {
				return true
			}
		}
	}
	for i, a := range cases {
		for _, b := range cases[i+1:] {
			if a.sig == b.sig {
				continue
			}
			split, clash := false, false
			for t, v := range a.atoms {
				u, ok := b.atoms[t]
				if !ok {
					u = b.f.eval(t)
				}
				if v == u || v == unknown || u == unknown {
					continue
				}
				if contains(t, x) {
					split = true
				} else {
					clash = true
				}
			}
			if split && !clash {
				return true
			}
		}
	}
	return false
}

// constsOf: the constants that t is known to equal or to differ from.
func (f *Facts) constsOf(t *Term) []*Term {
	var out []*Term
	if v, ok := f.eqc[t]; ok {
		out = append(out, v)
	}
	return append(out, f.neqc[t]...)
}

// configPaths analyses Config after the construction of the processor.
func (w *procWorld) configPaths(pr *procRole) []*Path {
	if pr.typ == nil {
		return nil
	}
	m := w.c.P.Prog.LookupMethod(types.NewPointer(pr.typ), pr.typ.Obj().Pkg(), "Config")
	if m == nil || m.Signature.Results().Len() != 1 {
		return nil
	}
	_, _, ps := w.runMethod(pr, m, func(obj *Term) []*Term { return []*Term{obj} })
	return ps
}

// entryOptions follows the options of entries and pipelines.
func entryOptions(c *Ctx) {
	pk := c.P.Pkg(relPipeline)
	fn := c.P.Func(relPipeline, "New")
	if pk == nil || fn == nil || len(fn.Params) == 0 {
		c.Missing("pipeline.New")
		return
	}
	// configuration types: those that the parameter is made of
	var structs []*types.Named
	seen := map[types.Type]bool{}
	var visit func(t types.Type)
	visit = func(t types.Type) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			visit(u.Elem())
		case *types.Slice:
			visit(u.Elem())
		case *types.Map:
			visit(u.Elem())
		case *types.Struct:
			if n := namedOf(t); n != nil && n.Obj().Pkg() == pk.Pkg {
				structs = append(structs, n)
				for i := 0; i < u.NumFields(); i++ {
					visit(u.Field(i).Type())
				}
			}
		}
	}
	visit(fn.Params[0].Type())
	sort.Slice(structs, func(i, j int) bool { return structs[i].Obj().Name() < structs[j].Obj().Name() })
	// functions that run when a pipeline is built, run or measured
	reach := map[*ssa.Function]bool{}
	var mark func(f *ssa.Function)
	mark = func(f *ssa.Function) {
		if f == nil || reach[f] || !c.P.inModule(f) {
			return
		}
		reach[f] = true
		for _, g := range f.AnonFuncs {
			mark(g)
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					mark(ci.Common().StaticCallee())
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						mark(g)
					}
				}
			}
		}
	}
	mark(fn)
	for _, f := range pkgFuncs(c.P, relPipeline) {
		if r := f.Signature.Recv(); r != nil && f.Object() != nil && f.Object().Exported() && (f.Name() == "Process" || f.Name() == "Metrics") {
			mark(f)
		}
	}
	t := &taint{c: c, reach: reach, callers: map[*ssa.Function][]ssa.CallInstruction{}, seen: map[ssa.Value]bool{}, fields: map[string]bool{}}
	var fns []*ssa.Function
	for f := range reach {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, f := range fns {
		c.funcs[f.String()] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if sc := ci.Common().StaticCallee(); sc != nil {
						t.callers[sc] = append(t.callers[sc], ci)
					}
				}
			}
		}
	}
	t.fns = fns
	for _, n := range structs {
		st := n.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if !st.Field(i).Exported() {
				continue
			}
			name := optName(st, i, "yaml", "config", "json")
			if name == "description" || name == "-" {
				continue
			}
			what := "pipeline." + name
			if namedOf(fn.Params[0].Type()) != n {
				if p, ok := fn.Params[0].Type().Underlying().(*types.Pointer); !ok || namedOf(p.Elem()) != n {
					what = "entry." + name
				}
			}
			t.seen, t.fields = map[ssa.Value]bool{}, map[string]bool{}
			c.Check(t.field(n, i), "C30-entry", what, c.P.Pos(st.Field(i).Pos()), "the value of the option "+name+" reaches no decision and no call: it is accepted and ignored")
		}
	}
	c.Assume("the description of a pipeline is documentation and not an option")
}

// taint asks whether a value makes a difference.
type taint struct {
	c       *Ctx
	reach   map[*ssa.Function]bool
	fns     []*ssa.Function
	callers map[*ssa.Function][]ssa.CallInstruction
	seen    map[ssa.Value]bool
	fields  map[string]bool
}

// field: some read of the field makes a difference.
func (t *taint) field(n *types.Named, i int) bool {
	st := n.Underlying().(*types.Struct)
	key := n.String() + "." + st.Field(i).Name()
	if t.fields[key] {
		return false
	}
	t.fields[key] = true
	is := func(x types.Type) bool {
		if p, ok := x.Underlying().(*types.Pointer); ok {
			x = p.Elem()
		}
		return types.Identical(x, n) || types.Identical(x.Underlying(), st) && namedOf(x) != nil && namedOf(x).Obj().Pkg() == n.Obj().Pkg()
	}
	for _, f := range t.fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.FieldAddr:
					if x.Field == i && is(x.X.Type()) && t.loads(x) {
						return true
					}
				case *ssa.Field:
					if x.Field == i && is(x.X.Type()) && t.value(x) {
						return true
					}
				}
			}
		}
	}
	return false
}

// loads: a value read from the address makes a difference.
func (t *taint) loads(a ssa.Value) bool {
	if t.seen[a] {
		return false
	}
	t.seen[a] = true
	for _, ins := range *a.Referrers() {
		switch x := ins.(type) {
		case *ssa.UnOp:
			if t.value(x) {
				return true
			}
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice:
			if t.loads(x.(ssa.Value)) {
				return true
			}
		case *ssa.Store:
			if x.Val == a {
				return true // the address escapes
			}
		case *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

func quietPkg(f *ssa.Function) bool {
	switch fnPkgPath(f) {
	case "fmt", "errors", "log":
		return true
	}
	return false
}

// value: the value makes a difference.
func (t *taint) value(v ssa.Value) bool {
	if t.seen[v] || v.Referrers() == nil {
		return false
	}
	t.seen[v] = true
	for _, ins := range *v.Referrers() {
		switch x := ins.(type) {
		case *ssa.If, *ssa.Send, *ssa.MapUpdate, *ssa.Panic, *ssa.Range, *ssa.MakeClosure:
			return true
		case *ssa.Store:
			if x.Val != v {
				return true
			}
			if t.stored(x.Addr) {
				return true
			}
		case *ssa.Return:
			for i, r := range x.Results {
				if r != v {
					continue
				}
				if isErr(r.Type()) {
					continue
				}
				for _, ci := range t.callers[x.Parent()] {
					cv, ok := ci.(*ssa.Call)
					if !ok {
						continue
					}
					if len(x.Results) == 1 {
						if t.value(cv) {
							return true
						}
						continue
					}
					for _, u := range *cv.Referrers() {
						if ex, ok := u.(*ssa.Extract); ok && ex.Index == i && t.value(ex) {
							return true
						}
					}
				}
				if len(t.callers[x.Parent()]) == 0 {
					return true // the result of an entry point
				}
			}
		case ssa.CallInstruction:
			cc := x.Common()
			if b, ok := cc.Value.(*ssa.Builtin); ok {
				if cv, ok := x.(*ssa.Call); ok && b.Name() != "delete" {
					if t.value(cv) {
						return true
					}
					continue
				}
				return true
			}
			sc := cc.StaticCallee()
			if sc == nil {
				return true
			}
			if quietPkg(sc) {
				if cv, ok := x.(*ssa.Call); ok && !isErr(cv.Type()) && strings.HasPrefix(sc.Name(), "Sprint") && t.value(cv) {
					return true
				}
				continue
			}
			if !t.reach[sc] || len(sc.Blocks) == 0 {
				if cv, ok := x.(*ssa.Call); ok && pureCall(sc) {
					if t.value(cv) {
						return true
					}
					continue
				}
				return true
			}
			for i, a := range cc.Args {
				if a == v && i < len(sc.Params) && t.value(sc.Params[i]) {
					return true
				}
			}
		case *ssa.DebugRef:
		case ssa.Value:
			if t.value(x) {
				return true
			}
		}
	}
	return false
}

func pureCall(f *ssa.Function) bool {
	switch fnPkgPath(f) {
	case "strings", "strconv", "bytes", "unicode", "sort", "path", "path/filepath":
		return true
	}
	return false
}

// stored: what is stored at the address makes a difference.
func (t *taint) stored(a ssa.Value) bool {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		p, ok := x.X.Type().Underlying().(*types.Pointer)
		if !ok {
			return true
		}
		if n := namedOf(p.Elem()); n != nil && n.Obj().Pkg() != nil && t.c.P.isModPath(n.Obj().Pkg().Path()) {
			if _, ok := n.Underlying().(*types.Struct); ok {
				return t.field(n, x.Field)
			}
		}
		return t.stored(x.X)
	case *ssa.IndexAddr:
		return t.stored(x.X)
	case *ssa.Alloc:
		for _, u := range *x.Referrers() {
			switch y := u.(type) {
			case *ssa.UnOp:
				if t.value(y) {
					return true
				}
			case *ssa.Slice:
				if t.value(y) {
					return true
				}
			case *ssa.Store:
				if y.Val == ssa.Value(x) {
					return true
				}
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
			default:
				return true
			}
		}
		return false
	}
	return true
}

// flags takes over what construction and run decide about options.
func (w *procWorld) flags() {
	c := w.c
	take := func(id string, run func(*Ctx), rules ...string) {
		d := newCtx(id, c.Tier)
		d.P = c.P
		run(d)
		for f := range d.funcs {
			c.funcs[f] = true
		}
		for _, r := range rules {
			for k := range d.obs[r] {
				c.Ok("C30-flags", k)
			}
		}
		for _, k := range d.order {
			v := d.bad[k]
			for _, r := range append([]string{"anchor", "undecided"}, rules...) {
				if v.Rule == r {
					c.Bad("C30-flags", v.Construct, v.Pos, v.Msg, v.Details...)
				}
			}
		}
	}
	take("C17", analyseConstruction, "node-fields", "pipeline-fields")
	take("C13", analyseNode, rNodeOutcome, "node-flags")
	take("C12", analysePipeline, rPipeRecovery)
	take("C20", func(d *Ctx) {
		if h := newRegistryHarness(d); h != nil {
			h.outcomes()
		}
	}, "C20-create")
}
