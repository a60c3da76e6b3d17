package main

import (
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C04: no operation on events and values can panic.
//
// Every operation is interpreted over an arbitrary event, arbitrary values (nil
// or of any type, with nil or empty or any content) and arbitrary arguments.
// Each instruction that can panic (use of a pointer, index, slice bounds, write
// to a map, type assertion, call of a nil function or interface, division) is
// an obligation that must follow from the facts of the path. A recursive
// function is analysed once; what it needs of its arguments is an obligation
// of every call.

type panicWorld struct {
	c     *Ctx
	w     *procWorld
	weak  map[*ssa.Function]int // what the result of a function was not shown to be
	req   map[*ssa.Function][]panicReq
	cw    *convWorld
	impls map[types.Type][]types.Type
	entry map[*Term]*Term
	still map[*ssa.Function]bool
	roots []*panicRoot
	index map[*ssa.Function]*panicRoot
	more  bool
}

// panicReq is a need of a recursive function: one of the conditions on its
// parameters must hold.
type panicReq []*Term

func (q panicReq) key() string {
	var out []string
	for _, t := range q {
		out = append(out, t.String())
	}
	return strings.Join(out, " or ")
}

type panicRoot struct {
	fn     *ssa.Function
	rule   string
	api    bool
	proc   *procRole
	assume func(s *State, ps []*Term)
}

type panicOb struct {
	rule, construct, pos, why string
	details                   []string
}

func (x *panicWorld) add(fn *ssa.Function, rule string, api bool) *panicRoot {
	if fn == nil || len(fn.Blocks) == 0 {
		return nil
	}
	if r := x.index[fn]; r != nil {
		return r
	}
	r := &panicRoot{fn: fn, rule: rule, api: api}
	x.index[fn] = r
	x.roots = append(x.roots, r)
	return r
}

func (x *panicWorld) quiet(f *ssa.Function) bool {
	q, ok := x.still[f]
	if !ok {
		q = quiet(x.c.P, f) || quietRun(x.c.P, f, x.cw.model(nil), x.cw.init)
		x.still[f] = q
	}
	return q
}

// operation: a documented operation (other exported functions on values may
// ask for values that are not nil and are analysed where they are used).
func operation(f *ssa.Function, value *types.Named) bool {
	any := false
	for _, p := range f.Params {
		any = any || ptrTo(p.Type(), value)
	}
	if !any {
		return true
	}
	switch f.Name() {
	case "Put", "TryPut", "Append", "Clone", "Format", "MarshalJSON", "UnmarshalJSON":
		return true
	}
	return false
}

// overParams: t depends on nothing but the parameters ps.
func overParams(t *Term, ps []*Term) bool {
	switch t.Op {
	case OpParam:
		for _, p := range ps {
			if p == t {
				return true
			}
		}
		return false
	case OpLen, OpEq, OpLt, OpNot, OpLin:
	default:
		if len(t.Args) == 0 {
			return t.IsInt || t.isNil() || t.Op == OpConst
		}
		return false
	}
	for _, a := range t.Args {
		if !overParams(a, ps) {
			return false
		}
	}
	return true
}

func (u *panicRun) aboutParams(t *Term) bool {
	for _, p := range u.ps {
		if contains(t, p) {
			return true
		}
	}
	return false
}

type panicRun struct {
	x      *panicWorld
	r      *panicRoot
	ps     []*Term
	ok     map[string]int
	bad    map[string]*panicOb
	calls  map[*Term][]callOf // results of calls
	typeOf map[int]*Term      // types of the values given as arguments
}

func (u *panicRun) oblige(s *State, ins ssa.Instruction, what string, req panicReq, why string) {
	x := u.x
	fn := ins.Parent()
	construct := strings.TrimPrefix(fn.String(), x.c.P.Mod+"/") + ": " + what
	for _, cond := range req {
		if s.F.eval(cond) == yes || u.ensured(s, cond) {
			u.ok[construct]++
			return
		}
	}
	if u.impossible(s) {
		u.ok[construct]++
		return
	}
	if !u.r.api {
		var need panicReq
		for _, cond := range req {
			if overParams(cond, u.ps) && u.aboutParams(cond) {
				need = append(need, cond)
			}
		}
		if len(need) == 0 {
			need = u.excluded(s)
		}
		if len(need) > 0 {
			for _, q := range x.req[u.r.fn] {
				if q.key() == need.key() {
					return
				}
			}
			if os.Getenv("C04DBG") != "" {
				println(u.r.fn.String(), construct, x.c.P.InstrPos(ins), need.key(), why)
			}
			x.req[u.r.fn] = append(x.req[u.r.fn], need)
			x.more = true
			return
		}
	}
	pos := x.c.P.InstrPos(ins)
	if k := construct + pos + why; u.bad[k] == nil {
		u.bad[k] = &panicOb{u.r.rule, construct, pos, why, s.F.describe()}
	}
}

// excluded: conditions on the arguments that cannot hold on this path.
func (u *panicRun) excluded(s *State) panicReq {
	var out panicReq
	w := u.x.cw
	for i, p := range u.ps {
		if !isPointer(p) {
			continue
		}
		if c := mkEq(p, mkNil()); s.F.eval(c) == no {
			out = append(out, c)
		} else {
			continue
		}
		if t := u.typeOf[i]; t != nil {
			for _, n := range tagNames {
				if c := mkEq(t, w.tags[n]); s.F.eval(c) == no {
					out = append(out, c)
				}
			}
		}
	}
	if len(out) < 2 {
		return nil
	}
	return out
}

// impossible: the path is taken only for a value with an undefined type, or for
// a message with a kind that does not exist.
func (u *panicRun) impossible(s *State) bool {
	w := u.x.cw
	tagT := structOf(w.value).Field(w.vf["Type"]).Type()
	seen := map[*Term]bool{}
	for _, t := range aboutTerms(s.F) {
		if seen[t] || t.Typ == nil {
			continue
		}
		seen[t] = true
		if types.Identical(t.Typ, tagT) && !t.isConst() {
			all := true
			for _, n := range tagNames {
				if s.F.eval(mkEq(t, w.tags[n])) != no {
					all = false
					break
				}
			}
			if all {
				return true
			}
		}
		if is := u.x.closed(t.Typ); len(is) > 0 && s.F.eval(mkEq(t, mkNil())) == no {
			all := true
			for _, it := range is {
				if s.F.eval(mkAssertOk(t, it)) != no {
					all = false
					break
				}
			}
			if all {
				return true
			}
		}
	}
	return false
}

// closed lists the types that implement an interface with unexported methods.
func (x *panicWorld) closed(t types.Type) []types.Type {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return nil
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	if is, ok := x.impls[n]; ok {
		return is
	}
	var out []types.Type
	priv := false
	for i := 0; i < it.NumMethods(); i++ {
		priv = priv || !it.Method(i).Exported()
	}
	if priv {
		sc := n.Obj().Pkg().Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) {
				continue
			}
			for _, c := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if types.Implements(c, it) {
					out = append(out, c)
				}
			}
		}
	}
	x.impls[n] = out
	return out
}

// What is shown of a function that returns a pointer, and used where it is
// called: the pointer is never nil, not nil without an error, not nil for an
// argument that is not nil.
const (
	never = 1 << iota
	unlessErr
	ifArg
)

type callOf struct {
	fn       *ssa.Function
	arg, err *Term
}

// ensured: the pointer is the result of a call that cannot be nil.
func (u *panicRun) ensured(s *State, cond *Term) bool {
	if cond.Op != OpNot || cond.Args[0].Op != OpEq {
		return false
	}
	for _, a := range cond.Args[0].Args {
		if u.nonNilResult(s, a) {
			return true
		}
	}
	return false
}

func (u *panicRun) nonNilResult(s *State, t *Term) bool {
	for _, k := range u.calls[t] {
		w := u.x.weak[k.fn]
		if usesReflect(k.fn) {
			w = never | ifArg // C09 decides that a conversion without error gives a value
		}
		if w&never == 0 || k.err != nil && w&unlessErr == 0 && s.F.eval(mkEq(k.err, mkNil())) == yes || k.arg != nil && w&ifArg == 0 && s.F.eval(mkEq(k.arg, mkNil())) == no {
			return true
		}
	}
	return false
}

func returnsPointer(f *ssa.Function) bool {
	rs := f.Signature.Results()
	if rs.Len() == 0 {
		return false
	}
	_, ok := rs.At(0).Type().Underlying().(*types.Pointer)
	return ok
}

func isPointer(t *Term) bool {
	if t.Typ == nil {
		return false
	}
	_, ok := t.Typ.Underlying().(*types.Pointer)
	return ok
}

// result checks what is used of the results of the function.
func (u *panicRun) result(s *State, rets []*Term) {
	x, f := u.x, u.r.fn
	nonNil := func(t *State) bool {
		return t.F.eval(mkEq(rets[0], mkNil())) == no || u.nonNilResult(t, rets[0])
	}
	if nonNil(s) {
		return
	}
	lose := func(k int) {
		if x.weak[f]&k == 0 {
			x.weak[f] |= k
			x.more = true
		}
	}
	lose(never)
	if n := len(rets); n > 1 && types.Identical(f.Signature.Results().At(n-1).Type(), types.Universe.Lookup("error").Type()) {
		err := rets[n-1]
		t := s.clone()
		t.F.assume(mkEq(err, mkNil()), true)
		if s.F.eval(mkEq(err, mkNil())) != no && !nonNil(t) {
			same := false
			for _, k := range u.calls[rets[0]] {
				same = same || k.err == err && x.weak[k.fn]&unlessErr == 0
			}
			if !same {
				lose(unlessErr)
			}
		}
	} else {
		lose(unlessErr)
	}
	if len(u.ps) > 0 && isPointer(u.ps[0]) {
		t := s.clone()
		t.F.assume(mkEq(u.ps[0], mkNil()), false)
		if s.F.eval(mkEq(u.ps[0], mkNil())) != yes && !nonNil(t) {
			lose(ifArg)
		}
	} else {
		lose(ifArg)
	}
}

var derefName = map[string]string{"nil": "use of a pointer", "bounds": "index or slice bounds", "cap": "slice bounds", "nilmap": "write to a map",
	"assert": "type assertion", "nilfunc": "call of a function value", "nilcall": "call of a method of an interface", "div": "division", "makeslice": "size of a new slice"}

func (u *panicRun) onDeref(s *State, d Deref) {
	cond := d.Cond
	if cond == nil {
		cond = mkNot(mkEq(d.Base, mkNil()))
	}
	switch {
	case d.Kind == "nilcall" && typeStr(typeOr(d.Base.Typ)) == "reflect.Type":
		return // C10
	case d.Kind == "nil" && d.Base.Op == OpAssert && len(u.x.closed(typeOr(d.Base.Args[0].Typ))) > 0:
		return // a kind of a message without its content
	}
	u.oblige(s, d.Instr, derefName[d.Kind], panicReq{cond}, "can panic: "+cond.String()+" does not hold on every path")
}

func (u *panicRun) onEvent(s *State, ev *Event) bool {
	if ev.Kind != "call" || ev.Fn == nil {
		return false
	}
	x := u.x
	if x.c.P.inModule(ev.Fn) && len(ev.Fn.Blocks) > 0 && !usesReflect(ev.Fn) {
		r := x.add(ev.Fn, u.r.rule, false)
		m := map[*Term]*Term{}
		for i, p := range rootParams(ev.Fn) {
			m[p] = ev.Args[i]
			if t := x.entryType(p); t != nil && s.F.eval(mkEq(ev.Args[i], mkNil())) == no {
				m[t] = x.cw.vfield(s, ev.Args[i], "Type")
			}
		}
		if r.api && ev.Fn.Signature.Recv() != nil && ptrTo(ev.Args[0].Typ, x.w.event) {
			u.oblige(s, ev.Instr, "call of "+shortFn(ev.Fn), panicReq{mkNot(mkEq(ev.Args[0], mkNil()))}, "calls "+shortFn(ev.Fn)+" of "+ev.Args[0].String()+", which may be nil")
		}
		for _, q := range x.req[r.fn] {
			var c panicReq
			for _, t := range q {
				c = append(c, subst(t, m, map[*Term]*Term{}))
			}
			u.oblige(s, ev.Instr, "call of "+shortFn(ev.Fn), c, "can panic inside "+shortFn(ev.Fn)+": "+c.key()+" does not hold on every path")
		}
	}
	return false
}

// entryType is the type of the value at p when the function starts.
func (x *panicWorld) entryType(p *Term) *Term {
	if p.Typ == nil || !ptrTo(p.Typ, x.w.value) {
		return nil
	}
	return x.entry[p]
}

func shortFn(f *ssa.Function) string {
	if i := strings.LastIndexByte(f.String(), '/'); i >= 0 {
		return strings.TrimPrefix(f.String()[i+1:], "*")
	}
	return f.String()
}

func (x *panicWorld) run(r *panicRoot) *panicRun {
	u := &panicRun{x: x, r: r, ps: rootParams(r.fn), ok: map[string]int{}, bad: map[string]*panicOb{}, calls: map[*Term][]callOf{}, typeOf: map[int]*Term{}}
	cl := &Client{OnDeref: u.onDeref, OnEvent: u.onEvent, PlainMaps: true, SplitLoops: true}
	cl.OnPanic = func(s *State, p *ssa.Panic, v *Term) {
		u.oblige(s, p, "panic", nil, "panics with "+v.String())
	}
	cl.After = func(s *State, ev *Event, res []*Term) {
		if ev.Fn == nil || !x.c.P.inModule(ev.Fn) || !returnsPointer(ev.Fn) || len(res) == 0 {
			return
		}
		k := callOf{fn: ev.Fn}
		if len(res) > 1 {
			k.err = res[len(res)-1]
		}
		if len(ev.Args) > 0 && isPointer(ev.Args[0]) {
			k.arg = ev.Args[0]
		}
		for _, o := range u.calls[res[0]] {
			if o == k {
				return
			}
		}
		u.calls[res[0]] = append(u.calls[res[0]], k)
	}
	if returnsPointer(r.fn) {
		cl.OnReturn = u.result
	}
	base := x.cw.model(nil)
	cl.Model = func(s *State, cc *CallCtx) ([]*Term, bool) {
		switch {
		case cc.Fn == x.cw.parser:
			x.add(cc.Fn, r.rule, true)
			return base(s, cc)
		case cc.Fn != nil && x.c.P.inModule(cc.Fn) && recursive(x.c.P, cc.Fn) && x.quiet(cc.Fn):
			res := s.e.results(s, cc)
			ev := &Event{Kind: "call", Instr: cc.Instr, Fn: cc.Fn, Args: cc.Args, Ctx: s.top().ctx}
			u.onEvent(s, ev)
			cl.After(s, ev, res)
			return res, true
		case cc.Fn != nil && cc.Fn.Name() == "EscapeKey" && fnPkgPath(cc.Fn) == x.c.P.Mod+"/"+relUtil:
			return base(s, cc)
		}
		return nil, false
	}
	cl.Opaque = func(s *State, fn *ssa.Function, args []*Term) bool {
		if q := x.index[fn]; q != nil && q.api && fn != r.fn && fn.Signature.Recv() != nil && fn.Signature.Params().Len() > 0 {
			switch fn.Name() {
			case "Put", "TryPut", "Delete":
				return true // analysed by itself
			}
		}
		return usesReflect(fn) || recursive(x.c.P, fn)
	}
	e := NewEngine(x.c.P, cl)
	if r.proc != nil {
		u.processor(e, cl)
		x.c.account(r.fn, e)
		return u
	}
	e.Run(r.fn, u.ps, func(s *State) {
		x.cw.init(s)
		for i, p := range u.ps {
			if ptrTo(p.Typ, x.w.value) {
				u.typeOf[i] = x.cw.vfield(s, p, "Type")
				x.entry[p] = u.typeOf[i]
			}
		}
		for _, q := range x.req[r.fn] {
			if len(q) == 1 {
				s.F.assume(q[0], true)
			}
		}
		if r.assume != nil {
			r.assume(s, u.ps)
		}
	})
	x.c.account(r.fn, e)
	return u
}

// processor runs the constructor of a processor and then Process.
func (u *panicRun) processor(e *Engine, cl *Client) {
	x, pr := u.x, u.r.proc
	base := cl.Model
	cl.Model = func(s *State, cc *CallCtx) ([]*Term, bool) {
		if res, ok := base(s, cc); ok {
			return res, ok
		}
		if cc.Fn == nil && x.w.eventMethod(cc) != "" {
			return x.w.model(s, cc)
		}
		return nil, false
	}
	type built struct {
		st  *State
		obj *Term
	}
	var bs []built
	cl.OnReturn = func(s *State, rets []*Term) {
		t := s.clone()
		if !t.F.assume(mkEq(rets[1], mkNil()), true) || t.F.eval(mkEq(rets[0], mkNil())) == yes {
			return
		}
		bs = append(bs, built{t, rets[0]})
	}
	cfg := mkT(OpParam, "config", 0, pr.cfg, true, pr.newFn, nil)
	e.Run(pr.newFn, []*Term{cfg}, x.cw.init)
	cl.OnReturn = nil
	evt := mkT(OpParam, "event", 1, x.w.evtI, true, pr.process, nil)
	for _, b := range bs {
		b := b
		e.Run(u.r.fn, []*Term{b.obj, evt}, func(s *State) {
			t := b.st.clone()
			s.mem, s.ver, s.gver, s.mver, s.obj, s.F = t.mem, t.ver, t.gver, t.mver, t.obj, t.F
			s.F.assume(mkEq(evt, mkNil()), false)
			s.F.assume(mkEq(b.obj, mkNil()), false)
		})
	}
}

func init() {
	register("C04", func(c *Ctx) {
		c.Rule("C04-event", "no operation of an event can panic, whatever the event holds", 10)
		c.Rule("C04-value", "no operation of a value can panic, whatever the value holds", 10)
		c.Rule("C04-convert", "no conversion can panic, whatever the event or message holds", 10)
		c.Rule("C04-append", "appending to a field and escaping a name cannot panic", 2)
		c.Rule("C04-processor", "no built-in processor can panic, whatever the event holds", 5)
		analysePanics(c)
	})
}

func analysePanics(c *Ctx) {
	w := newProcWorld(c)
	if w == nil {
		return
	}
	cw := newConvWorld(c, false)
	if cw == nil {
		return
	}
	x := &panicWorld{c: c, w: w, req: map[*ssa.Function][]panicReq{}, cw: cw, impls: map[types.Type][]types.Type{}, entry: map[*Term]*Term{}, still: map[*ssa.Function]bool{}, weak: map[*ssa.Function]int{}, index: map[*ssa.Function]*panicRoot{}}
	for rel, rule := range map[string]string{relEvent: "C04-event", relUtil: "C04-append", relMap: "C04-convert", relProto: "C04-convert"} {
		for _, f := range pkgFuncs(c.P, rel) {
			if f.Parent() != nil || !token.IsExported(f.Name()) || f.Synthetic != "" {
				continue
			}
			if strings.Contains(c.P.Pos(f.Pos()), ".pb.go:") || usesReflect(f) || !operation(f, w.value) {
				continue
			}
			ru := rule
			if rv := f.Signature.Recv(); rv != nil {
				n := namedOf(rv.Type())
				if n == nil || !token.IsExported(n.Obj().Name()) {
					continue
				}
				if rel == relEvent && n.Obj().Name() != "Event" {
					ru = "C04-value"
				}
			}
			r := x.add(f, ru, true)
			if r == nil {
				continue
			}
			// the event itself exists, and so do the arguments of the fmt package
			r.assume = func(s *State, ps []*Term) {
				for i, p := range ps {
					n := namedOf(p.Typ)
					if i == 0 && f.Signature.Recv() != nil && f.Name() != "Clone" || n != nil && (n == w.event || n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "fmt") {
						s.F.assume(mkEq(p, mkNil()), false)
					}
				}
			}
		}
	}
	for _, n := range w.names {
		pr := w.procs[n]
		r := x.add(pr.process, "C04-processor", true)
		if r != nil {
			r.proc = pr
		}
	}
	var runs []*panicRun
	for n := 0; ; n++ {
		x.more = false
		runs = nil
		for i := 0; i < len(x.roots); i++ {
			runs = append(runs, x.run(x.roots[i]))
		}
		if !x.more {
			break
		}
		if n > 20 {
			c.Bad("undecided", "C04", "", "the needs of recursive functions do not settle")
			return
		}
	}
	for _, u := range runs {
		for k := range u.ok {
			c.Ok(u.r.rule, k)
		}
		for _, b := range u.bad {
			c.Bad(b.rule, b.construct, b.pos, b.why, b.details...)
		}
	}
}

// aboutTerms are the terms the facts are about.
func aboutTerms(f *Facts) []*Term {
	var out []*Term
	add := func(t *Term) {
		if t != nil {
			out = append(out, t)
			if t.Op == OpAssertOk || t.Op == OpLin {
				out = append(out, t.Args[0])
			}
		}
	}
	for t := range f.bools {
		add(t)
	}
	for t := range f.eqc {
		add(t)
	}
	for t := range f.neqc {
		add(t)
	}
	for t := range f.dyn {
		add(t)
	}
	for k := range f.zone {
		add(k[0])
		add(k[1])
	}
	return out
}
