package main

import (
	"go/ast"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C29: the entry points for other languages, and what they rely on: a pipeline
// that is missing or an event that is nil is an error of the library.

func init() {
	register("C29", func(c *Ctx) {
		c.Rule("contract", "the library reports a missing configuration, pipeline or event as an error, and gives no pipeline with an error", 4)
		c.Rule("used", "an entry point processes decoded events only, with a pipeline that was built", 2)
		c.Rule("reported", "every failure is the result of the entry point", 3)
		c.Rule("result", "without a failure the result is that of the pipeline", 3)
		c.Rule("crash", "no entry point can panic", 3)
		embedContract(c)
		n := 0
		for _, fn := range cExports(c.P) {
			embedEntry(c, c.P, fn)
			n++
		}
		if len(c.units) > 1 {
			return // other platforms
		}
		if n == 0 {
			c.Missing("entry points for C")
		}
		p, err := LoadCached(c.P.Repo, []string{"GOOS=js", "GOARCH=wasm", "CGO_ENABLED=0"}, "./examples/wasm")
		if err != nil {
			c.Bad("anchor", "load for js/wasm", "", err.Error())
			return
		}
		fns := jsFuncs(p)
		if len(fns) == 0 {
			c.Missing("entry points for JavaScript")
		}
		for _, fn := range fns {
			embedEntry(c, p, fn)
		}
	})
}

// cExports: functions of the module with an export directive.
func cExports(p *Prog) []*ssa.Function {
	var out []*ssa.Function
	for _, pk := range p.Pkgs {
		sp := p.SSA[pk.PkgPath]
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil || sp == nil || fd.Recv != nil {
					continue
				}
				for _, cm := range fd.Doc.List {
					if strings.HasPrefix(cm.Text, "//export ") {
						if fn := sp.Func(fd.Name.Name); fn != nil {
							out = append(out, fn)
						}
						break
					}
				}
			}
		}
	}
	return out
}

// jsFuncs: functions given to js.FuncOf.
func jsFuncs(p *Prog) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil || g.String() != "syscall/js.FuncOf" {
					continue
				}
				v := ci.Common().Args[0]
				for {
					if ct, ok := v.(*ssa.ChangeType); ok {
						v = ct.X
						continue
					}
					break
				}
				switch t := v.(type) {
				case *ssa.Function:
					out = append(out, t)
				case *ssa.MakeClosure:
					if len(t.Bindings) == 0 {
						out = append(out, t.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	return out
}

func embedContract(c *Ctx) {
	newFn, proc := c.P.Func(relPipeline, "New"), c.P.Func(relPipeline, "*Pipeline.Process")
	if newFn == nil || proc == nil {
		c.Missing("pipeline.New and (*Pipeline).Process")
		return
	}
	run := func(what string, fn *ssa.Function, isNil int, opaque bool) {
		why := ""
		var det []string
		fail := func(s *State, y string) {
			if why == "" {
				why, det = y, traceDetails(s)
			}
		}
		n := 0
		cl := &Client{}
		if opaque {
			cl.Opaque = func(s *State, g *ssa.Function, args []*Term) bool { return g != fn }
		}
		cl.OnReturn = func(s *State, rets []*Term) {
			n++
			res, err := rets[0], rets[len(rets)-1]
			switch {
			case isNil >= 0 && (s.F.isNilTri(err) != no):
				fail(s, "no error is certain")
			case opaque && s.F.isNilTri(err) == yes && s.F.isNilTri(res) != no:
				fail(s, "no pipeline is given, without an error")
			case s.F.isNilTri(err) == no && s.F.isNilTri(res) != yes:
				fail(s, "a result is returned with the error")
			case s.F.isNilTri(err) == unknown && s.F.isNilTri(res) != yes:
				f := s.F.clone()
				if f.assume(isNilT(err), false) && f.isNilTri(res) != yes {
					fail(s, "a result is returned with an error")
				}
			}
		}
		if isNil >= 0 {
			cl.OnPanic = func(s *State, p *ssa.Panic, v *Term) { fail(s, "it panics") }
			cl.OnDeref = func(s *State, d Deref) {
				cond := d.Cond
				if cond == nil {
					cond = mkNot(mkEq(d.Base, mkNil()))
				}
				if s.F.eval(cond) == no {
					fail(s, "it panics")
				}
			}
			cl.OnEvent = func(s *State, ev *Event) bool {
				if ev.Kind == "call" && ev.Method != nil && ev.Fn == nil && ev.Method.Name() == "Process" {
					fail(s, "a processor runs")
				}
				return true
			}
		}
		params := rootParams(fn)
		e := c.Run(fn, cl, params, func(s *State) {
			for i, p := range params {
				if ptrLike(p.Typ) && isNil >= 0 {
					s.F.assume(isNilT(p), i == isNil)
				}
			}
		})
		if why == "" && (e.Err != nil || e.Steps > e.budget) {
			why = "the function is not resolved"
		}
		c.Check(why == "", "contract", what, posOf(c.P, fn.Pos()), why, det...)
	}
	run("New without a configuration", newFn, 0, false)
	run("New that fails", newFn, -1, true)
	run("Process without a pipeline", proc, 0, false)
	run("Process without an event", proc, 1, false)
}

type embedRun struct {
	c       *Ctx
	p       *Prog
	e       *Engine
	wrong   map[string]string
	det     map[string][]string
	origin  map[*Term]*Event // what a result comes from
	process bool
}

func (w *embedRun) bad(rule, why string, s *State) {
	if w.wrong[rule] == "" {
		w.wrong[rule] = why
		if s != nil {
			w.det[rule] = traceDetails(s)
		}
	}
}

func strip(t *Term) *Term {
	for t.Op == OpIface || t.Op == OpConv && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t
}

func (w *embedRun) model(s *State, cc *CallCtx) ([]*Term, bool) {
	if cc.Fn == nil {
		return nil, false
	}
	fresh := func(what string, t types.Type) *Term {
		return mkT(OpCallRes, what+"·"+cc.Site, 0, t, false, cc.Instr, s.loopKeys())
	}
	res := func(i int) types.Type { return cc.Sig.Results().At(i).Type() }
	emit := func(kind string, err *Term, val *Term, args ...*Term) {
		ev := &Event{Kind: kind, Instr: cc.Instr, Ctx: s.top().ctx, Args: args, Res: err, Val: val}
		w.origin[val] = ev
		w.origin[err] = ev
		w.e.emit(s, ev)
	}
	known := func(err *Term) bool { return s.F.isNilTri(err) == yes }
	switch name := cc.Fn.String(); {
	case strings.HasPrefix(cc.Fn.Name(), "_Cfunc_") && cc.Sig.Results().Len() == 1:
		return []*Term{mkApp(cc.Fn.Name(), res(0), cc.Args...)}, true
	case name == "encoding/json.Unmarshal":
		dst := strip(cc.Args[1])
		err := fresh("decode error", res(0))
		if !ptrLike(dst.Typ) {
			return nil, false
		}
		t := deref(dst.Typ)
		val := mkApp("decoded", t, cc.Args[0], mkStr(cc.Site))
		s.store(dst, val, t, cc.Site)
		emit("decode", err, val, cc.Args[0])
		return []*Term{err}, true
	case name == "encoding/json.Marshal" || name == "encoding/json.MarshalIndent":
		val, err := mkApp("encoded", res(0), strip(cc.Args[0]), mkStr(cc.Site)), fresh("encode error", res(1))
		emit("encode", err, val, strip(cc.Args[0]))
		return []*Term{val, err}, true
	case fnPkgPath(cc.Fn) == w.p.Mod+"/"+relPipeline && cc.Fn.Name() == "New" && cc.Sig.Recv() == nil:
		o := w.origin[cc.Args[0]]
		if o == nil || o.Kind != "decode" || o.Val != cc.Args[0] {
			w.bad("used", "a pipeline is built from something that is not decoded", s)
		} else if !known(o.Res) {
			w.bad("used", "a pipeline is built from what could not be decoded", s)
		}
		val, err := fresh("pipeline", res(0)), fresh("build error", res(1))
		emit("new", err, val, cc.Args[0])
		return []*Term{val, err}, true
	case fnPkgPath(cc.Fn) == w.p.Mod+"/"+relPipeline && cc.Fn.Name() == "Process" && cc.Sig.Recv() != nil:
		w.process = true
		pipe, evt := cc.Args[0], cc.Args[1]
		if o := w.origin[evt]; o == nil || o.Kind != "decode" || o.Val != evt {
			w.bad("used", "an event is processed that is not decoded", s)
		} else if !known(o.Res) {
			w.bad("used", "an event is processed that could not be decoded", s)
		}
		if o := w.origin[pipe]; o != nil {
			if o.Kind != "new" || o.Val != pipe || !known(o.Res) {
				w.bad("used", "a pipeline is used that could not be built", s)
			}
		} else if g := rootOf(pipe); pipe.Op != OpLoad || g == nil || g.Op != OpGlobal && !(pipe.Args[0].Op == OpGlobal) {
			w.bad("used", "a pipeline is used that is not built here", s)
		}
		val, err := fresh("processed", res(0)), fresh("process error", res(1))
		emit("process", err, val, pipe, evt)
		return []*Term{val, err}, true
	}
	return nil, false
}

// embedEntry interprets an entry point.
func embedEntry(c *Ctx, p *Prog, fn *ssa.Function) {
	w := &embedRun{c: c, p: p, wrong: map[string]string{}, det: map[string][]string{}, origin: map[*Term]*Event{}}
	cl := &Client{Model: w.model}
	n := 0
	cl.OnPanic = func(s *State, pn *ssa.Panic, v *Term) {
		// what was decoded from JSON can be encoded, and that decoded
		if o := w.origin[strip(v)]; o != nil && o.Res == strip(v) {
			if o.Kind == "encode" && w.origin[o.Args[0]] != nil && w.origin[o.Args[0]].Kind == "process" {
				return
			}
			if o.Kind == "decode" && w.origin[o.Args[0]] != nil && w.origin[o.Args[0]].Kind == "encode" {
				return
			}
		}
		w.bad("crash", "the entry point panics", s)
	}
	cl.OnDeref = func(s *State, d Deref) {
		cond := d.Cond
		if cond == nil {
			cond = mkNot(mkEq(d.Base, mkNil()))
		}
		if s.F.eval(cond) != yes {
			w.bad("crash", "can panic: "+cond.String()+" does not hold on every path", s)
		}
	}
	cl.OnEvent = func(s *State, ev *Event) bool {
		if ev.Kind == "store" && ev.Addr != nil && rootOf(ev.Addr) != nil && rootOf(ev.Addr).Op == OpGlobal && ev.Val != nil && ptrLike(ev.Val.Typ) {
			if nt := namedOf(deref(ev.Val.Typ)); nt != nil && nt.Obj().Name() == "Pipeline" && !ev.Val.isNil() {
				if o := w.origin[ev.Val]; o == nil || o.Kind != "new" {
					w.bad("used", "a pipeline is kept that is not built here", s)
				}
			}
		}
		return true
	}
	cl.OnReturn = func(s *State, rets []*Term) {
		if len(rets) != 1 {
			w.bad("reported", "the entry point has no result", s)
			return
		}
		n++
		r := strip(rets[0])
		var failed, out, built *Term
		var kept bool
		for _, ev := range s.Events() {
			switch ev.Kind {
			case "decode", "new", "process", "encode":
				if s.F.isNilTri(ev.Res) != yes && failed == nil {
					failed = ev.Res
				}
				if ev.Kind == "process" {
					out = ev.Val
				}
				if ev.Kind == "new" {
					built = ev.Val
				}
			case "store":
				if ev.Val != nil && ev.Val == built && rootOf(ev.Addr) != nil && rootOf(ev.Addr).Op == OpGlobal {
					kept = true
				}
			}
		}
		if failed != nil {
			if r.IsInt && r.N != 0 || contains(rets[0], failed) {
				return
			}
			w.bad("reported", "a failure is not the result of the entry point", s)
			return
		}
		if out == nil && built == nil {
			// nothing was done: a message
			if x, ok := r.isStr(); ok && x != "" || r.IsInt && r.N != 0 {
				return
			}
			w.bad("result", "nothing is done and no failure is reported", s)
			return
		}
		if out == nil {
			if !r.IsInt || r.N != 0 || !kept {
				w.bad("result", "a pipeline that was built is not kept, or a failure is reported", s)
			}
			return
		}
		if !contains(rets[0], out) && !contains(s.F.resolve(r), out) {
			w.bad("result", "the result is not that of the pipeline", s)
		}
	}
	w.e = NewEngine(p, cl)
	w.e.Run(fn, rootParams(fn), nil)
	c.account(fn, w.e)
	if w.e.Err != nil || w.e.Steps > w.e.budget || n == 0 {
		w.bad("reported", "the entry point is not resolved", nil)
	}
	name := fn.Name()
	pos := posOf(p, fn.Pos())
	for _, rule := range []string{"used", "reported", "result", "crash"} {
		if rule == "used" && !w.process && w.wrong[rule] == "" && len(w.origin) == 0 {
			continue
		}
		c.Check(w.wrong[rule] == "", rule, name, pos, w.wrong[rule], w.det[rule]...)
	}
}
