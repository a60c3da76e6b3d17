package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// valueWorld knows the value type of events: its fields and tags.
type valueWorld struct {
	c     *Ctx
	value *types.Named // event.Value
	event *types.Named // event.Event
	vf    map[string]int
	tags  map[string]*Term
}

var valueFields = []string{"Integer", "UnsignedInteger", "Float", "Timestamp", "String", "Array", "Object", "Bool", "Type"}
var tagNames = []string{"NullType", "ArrayType", "BoolType", "FloatType", "IntegerType", "ObjectType", "StringType", "TimestampType", "UnsignedIntegerType"}

// payloadOf is the field that holds the content of the values of a type.
var payloadOf = map[string]string{"ArrayType": "Array", "BoolType": "Bool", "FloatType": "Float", "IntegerType": "Integer", "ObjectType": "Object", "StringType": "String", "TimestampType": "Timestamp", "UnsignedIntegerType": "UnsignedInteger"}

func newValueWorld(c *Ctx) *valueWorld {
	w := &valueWorld{c: c, vf: map[string]int{}, tags: map[string]*Term{}}
	w.value = lookupNamed(c.P, relEvent, "Value")
	w.event = lookupNamed(c.P, relEvent, "Event")
	if w.value == nil || w.event == nil || structOf(w.value) == nil || structOf(w.event) == nil {
		c.Missing("event.Value and event.Event")
		return nil
	}
	vst := structOf(w.value)
	for i := 0; i < vst.NumFields(); i++ {
		w.vf[vst.Field(i).Name()] = i
	}
	for _, n := range valueFields {
		if _, ok := w.vf[n]; !ok {
			c.Missing("field " + n + " of event.Value")
			return nil
		}
	}
	for _, n := range tagNames {
		t := constTerm(c.P, relEvent, n)
		if t == nil {
			c.Missing("constant event." + n)
			return nil
		}
		w.tags[n] = t
	}
	return w
}

// vfield is a field of the value at v.
func (w *valueWorld) vfield(s *State, v *Term, name string) *Term {
	i := w.vf[name]
	ft := structOf(w.value).Field(i).Type()
	return s.load(mkFieldAddr(v, i, types.NewPointer(ft)), ft)
}

// vfieldAddr is the address of a field of the value at v.
func (w *valueWorld) vfieldAddr(v *Term, name string) *Term {
	i := w.vf[name]
	return mkFieldAddr(v, i, types.NewPointer(structOf(w.value).Field(i).Type()))
}

// vfieldAt0 is the content of a field of an existing value when the function
// started.
func (w *valueWorld) vfieldAt0(s *State, v *Term, name string) *Term {
	i := w.vf[name]
	ft := structOf(w.value).Field(i).Type()
	return w.state0(s).load(mkFieldAddr(v, i, types.NewPointer(ft)), ft)
}

// state0 is the memory at the start of the analysis.
func (w *valueWorld) state0(s *State) *State {
	return &State{e: s.e, mem: map[*Term]*Term{}, ver: map[string]*Term{}, gver: mkVer("0", nil), mver: mkVer("0", nil), obj: map[*Term]objState{}, F: s.F, Mon: map[string]string{}, frames: s.frames}
}

// nanos is the content of the timestamp field.
func (w *valueWorld) nanos(s *State, v *Term) *Term {
	t := w.vfieldAt0(s, v, "Timestamp")
	return mkField(t, 0, types.Typ[types.Int64])
}

// caseOf is the case distinction over the type of the value v (as it was at
// the start).
func (w *valueWorld) caseOf(s *State, v *Term, ask func(*Term) bool) string {
	if ask(mkEq(v, mkNil())) {
		return "nil"
	}
	typ := w.vfieldAt0(s, v, "Type")
	for _, n := range tagNames {
		if ask(mkEq(typ, w.tags[n])) {
			return n
		}
	}
	return "invalid type"
}

// isNullValue: t is a value of type null.
func (w *valueWorld) isNullValue(s *State, t *Term) bool {
	if t.Op == OpAlloc {
		return s.F.eval(mkEq(w.vfield(s, t, "Type"), w.tags["NullType"])) == yes
	}
	if t.Op == OpLoad && t.Args[0].Op == OpGlobal {
		if g, ok := t.Args[0].Ref.(*ssa.Global); ok && g.Name() == "NullValue" && fnRel(g.Pkg) == relEvent {
			return true
		}
	}
	return false
}

func fnRel(p *ssa.Package) string {
	if p == nil {
		return ""
	}
	path := p.Pkg.Path()
	for i := range path {
		if len(path)-i >= 4 && path[i:i+4] == "pkg/" {
			return path[i:]
		}
	}
	return path
}

// caseRun analyses fn and decides the cases of its paths.
type caseRun struct {
	c        *Ctx
	rule     string
	fn       *ssa.Function
	e        *Engine
	paths    []*Path
	panics   []*Path
	spec     func(s *State, ask func(*Term) bool) string
	returned map[string]bool
}

func runCases(c *Ctx, rule string, fn *ssa.Function, cl *Client, params []*Term, init func(*State), spec func(s *State, ask func(*Term) bool) string) *caseRun {
	r := &caseRun{c: c, rule: rule, fn: fn, spec: spec, returned: map[string]bool{}}
	cl.KeepIters, cl.PlainMaps, cl.SplitLoops = true, true, true
	if cl.OnEvent == nil {
		cl.OnEvent = func(s *State, ev *Event) bool { return ev.Kind != "pure" && ev.Kind != "range" && ev.Kind != "append" }
	}
	cl.OnPanic = func(s *State, p *ssa.Panic, v *Term) {
		r.panics = append(r.panics, &Path{St: s.clone(), Rets: []*Term{v}, Events: s.Events()})
	}
	r.e, r.paths = collect(c, fn, cl, params, init)
	return r
}

// each calls verify for every case of every path that returns.
func (r *caseRun) each(verify func(p *Path, o string) string) {
	for _, p := range r.paths {
		p := p
		res := decide(p.St.F, func(ask func(*Term) bool) string { return r.spec(p.St, ask) })
		for _, o := range sortedKeys(res) {
			r.returned[o] = true
			if r.c.isBad(r.rule, r.fn.String()+": "+o) {
				continue
			}
			st := p.St.clone()
			st.F = res[o]
			q := &Path{St: st, Rets: p.Rets, Events: p.Events}
			why := verify(q, o)
			if why == "" {
				r.c.Check(true, r.rule, r.fn.String()+": "+o, "", "")
			} else {
				r.c.Bad(r.rule, r.fn.String()+": "+o, r.c.P.Pos(r.fn.Pos()), r.fn.String()+" for "+o+": "+why, traceDetails(p.St)...)
			}
		}
	}
}

// cover: each of the cases returns on some path and panics on none.
func (r *caseRun) cover(cases ...string) {
	for _, o := range cases {
		if !r.returned[o] {
			r.c.Bad(r.rule, r.fn.String()+": "+o, r.c.P.Pos(r.fn.Pos()), r.fn.String()+" does not handle "+o+": no path returns for it")
		}
	}
	want := map[string]bool{}
	for _, o := range cases {
		want[o] = true
	}
	for _, p := range r.panics {
		res := decide(p.St.F, func(ask func(*Term) bool) string { return r.spec(p.St, ask) })
		for _, o := range sortedKeys(res) {
			if want[o] {
				r.c.Bad(r.rule, r.fn.String()+": "+o, r.c.P.Pos(r.fn.Pos()), r.fn.String()+" can panic for "+o, traceDetails(p.St)...)
			}
		}
	}
}

// attempt runs f on a separate account.
func (c *Ctx) attempt(f func(*Ctx)) *Ctx {
	d := newCtx(c.ID, c.Tier)
	d.P, d.rules, d.min = c.P, c.rules, c.min
	f(d)
	return d
}

// merge adds the account d to c.
func (c *Ctx) merge(d *Ctx) {
	for r, m := range d.obs {
		if c.obs[r] == nil {
			c.obs[r] = map[string]int{}
		}
		for k, n := range m {
			c.obs[r][k] += n
		}
	}
	for _, k := range d.order {
		if _, ok := c.bad[k]; !ok {
			c.bad[k] = d.bad[k]
			c.order = append(c.order, k)
		}
	}
	for f := range d.funcs {
		c.funcs[f] = true
	}
	c.steps += d.steps
	c.paths += d.paths
	c.calls += d.calls
	c.roots += d.roots
	c.samples = append(c.samples, d.samples...)
	for _, a := range d.assume {
		c.Assume(a)
	}
}

// choose tries the candidates until one satisfies check and accounts for that
// one, or else for the first.
func (c *Ctx) choose(what string, cands []*ssa.Function, check func(c *Ctx, fn *ssa.Function)) *ssa.Function {
	if len(cands) == 0 {
		c.Missing(what)
		return nil
	}
	sort.Slice(cands, func(i, j int) bool { return cands[i].String() < cands[j].String() })
	var best *Ctx
	for _, fn := range cands {
		fn := fn
		d := c.attempt(func(c *Ctx) { check(c, fn) })
		if len(d.bad) == 0 {
			c.merge(d)
			return fn
		}
		if best == nil || len(d.bad) < len(best.bad) {
			best = d
		}
	}
	c.merge(best)
	return cands[0]
}

// candidates lists the recursive functions of a package with a signature.
func candidates(p *Prog, rel string, from, to types.Type) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range pkgFuncs(p, rel) {
		if f.Parent() == nil && sigIs(f, []types.Type{from}, []types.Type{to}) && recursive(p, f) {
			out = append(out, f)
		}
	}
	return out
}

// sameVal: the terms are equal on the path.
func sameVal(s *State, a, b *Term) bool {
	return a == b || s.F.eval(mkEq(a, b)) == yes
}

// stripConv removes conversions between string and []byte.
func bytesFrom(t *Term) *Term {
	for {
		switch {
		case t.Op == OpConv && t.Typ != nil && isStrBytes(t.Typ) && t.Args[0].Typ != nil && isStrBytes(t.Args[0].Typ):
			t = t.Args[0]
		case t.Op == OpAppendSl && t.Args[0].isNil() && t.Args[1].Typ != nil && isStrBytes(t.Args[1].Typ):
			t = t.Args[1]
		default:
			return t
		}
	}
}

func structTerm(t types.Type) bool { return structOf(t) != nil }
