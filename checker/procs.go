package main

import (
	"go/constant"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// procRole is a built-in processor: a constructor handed to the registry in an
// init function.
type procRole struct {
	name     string
	pkg      *ssa.Package
	newFn    *ssa.Function
	typ      *types.Named
	process  *ssa.Function
	cfg      types.Type
	opts     map[string]int // option name -> field of the configuration
	regPos   string
	regIn    *ssa.Function // where it is registered
	regBlock *ssa.BasicBlock
}

type procWorld struct {
	*valueWorld
	evtI    *types.Named // processor.Event
	procI   *types.Named
	missing *types.Named
	keyF    int
	procs   map[string]*procRole
	names   []string
	regs    map[string]int // registrations of each name
	clones  map[*ssa.Function]bool
	// only what concerns options is reported (C30)
	optsOnly bool
}

// other is a finding that does not concern options.
func (w *procWorld) other(why string) string {
	if w.optsOnly {
		return ""
	}
	return why
}

// rule is the rule under which a finding is reported.
func (w *procWorld) rule(r string) string {
	if w.optsOnly {
		return "C30-effect"
	}
	return r
}

const relRegistry = "pkg/processor/registry"

func newProcWorld(c *Ctx) *procWorld {
	p := c.P
	vw := newValueWorld(c)
	if vw == nil {
		return nil
	}
	w := &procWorld{valueWorld: vw, procs: map[string]*procRole{}, regs: map[string]int{}, clones: map[*ssa.Function]bool{}}
	w.evtI = lookupNamed(p, relProcessor, "Event")
	w.procI = lookupNamed(p, relProcessor, "Processor")
	w.missing = lookupNamed(p, relProcessor, "ErrorKeyMissing")
	if w.evtI == nil || w.procI == nil || w.missing == nil {
		c.Missing("processor.Event, processor.Processor and processor.ErrorKeyMissing")
		return nil
	}
	w.keyF = fieldIndexByName(w.missing, "Key")
	if w.keyF < 0 {
		c.Missing("field Key of processor.ErrorKeyMissing")
		return nil
	}
	w.findProcs()
	return w
}

// findProcs looks for calls that register a constructor.
func (w *procWorld) findProcs() {
	p := w.c.P
	reg := p.Pkg(relRegistry)
	if reg == nil {
		w.c.Missing("package " + relRegistry)
		return
	}
	// functions that pass a name and a constructor on to the registry
	regs := map[*ssa.Function]bool{}
	for _, f := range pkgFuncs(p, relRegistry) {
		sig := f.Signature
		n := sig.Params().Len()
		if n == 2 && isStringType(sig.Params().At(0).Type()) {
			if it, ok := sig.Params().At(1).Type().Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
				regs[f] = true
			}
		}
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := ci.Common().StaticCallee()
				if callee == nil || !regs[callee] {
					continue
				}
				as := ci.Common().Args
				if len(as) < 2 {
					continue
				}
				nc, ok1 := as[len(as)-2].(*ssa.Const)
				var ctor *ssa.Function
				if mi, ok := as[len(as)-1].(*ssa.MakeInterface); ok {
					ctor, _ = mi.X.(*ssa.Function)
				}
				if !ok1 || nc.Value == nil || nc.Value.Kind() != constant.String || ctor == nil {
					if fnPkgPath(fn) != reg.Pkg.Path() {
						w.c.Bad("anchor", "registration in "+fn.String(), p.InstrPos(ins), "a registration whose name or constructor is not a constant cannot be followed")
					}
					continue
				}
				name := constant.StringVal(nc.Value)
				w.regs[name]++
				sig := ctor.Signature
				if sig.Params().Len() != 1 || sig.Results().Len() != 2 {
					w.c.Bad("anchor", "constructor of "+name, p.InstrPos(ins), "the constructor of "+name+" does not have the form func(Config) (*Processor, error)")
					continue
				}
				pr := &procRole{name: name, newFn: ctor, pkg: ctor.Pkg, cfg: sig.Params().At(0).Type(), opts: map[string]int{}, regPos: p.InstrPos(ins), regIn: fn, regBlock: b}
				pr.typ = namedOf(sig.Results().At(0).Type())
				if pr.typ != nil {
					if m := p.Prog.LookupMethod(types.NewPointer(pr.typ), pr.typ.Obj().Pkg(), "Process"); m != nil {
						pr.process = m
					}
				}
				if st := structOf(pr.cfg); st != nil {
					for i := 0; i < st.NumFields(); i++ {
						tag := reflect.StructTag(st.Tag(i)).Get("config")
						if n := strings.Split(tag, ",")[0]; n != "" {
							pr.opts[n] = i
						}
					}
				}
				if pr.process == nil {
					w.c.Missing("method Process of the processor " + name)
					continue
				}
				w.procs[name] = pr
				w.names = append(w.names, name)
			}
		}
	}
	sort.Strings(w.names)
}

// ---- the event as the processors see it ----

func evtVer(s *State) *Term {
	if v := s.Mon["evt"]; v != "" {
		return mkVer(v, nil)
	}
	return mkVer("evt0", nil)
}

func evtAt(typ types.Type, evt, key, ver *Term) *Term {
	return mkT(OpApp, "event.at", 0, typ, false, nil, nil, evt, key, ver)
}

// eventMethod names the event operation of a call.
func (w *procWorld) eventMethod(cc *CallCtx) string {
	if cc.Method == nil {
		return ""
	}
	sig := cc.Method.Type().(*types.Signature)
	if sig.Recv() == nil {
		return ""
	}
	rt := sig.Recv().Type()
	if n := namedOf(rt); n != nil && (n == w.evtI || n == w.event) || types.Identical(rt.Underlying(), w.evtI.Underlying()) {
		switch cc.Method.Name() {
		case "Put", "TryPut", "Get", "Delete", "Cancel", "Drop":
			return cc.Method.Name()
		}
	}
	return ""
}

// model interprets the event operations and the deep copies.
func (w *procWorld) model(s *State, cc *CallCtx) ([]*Term, bool) {
	e := s.e
	vp := types.NewPointer(w.value)
	bump := func() {
		v := mkVer("evt:"+cc.Site, s.loopKeys())
		s.Mon["evt"] = v.Aux
		s.F = s.F.filter(func(t *Term) bool { return !contains(t, v) })
	}
	emit := func(kind string, args []*Term, res *Term) {
		e.emit(s, &Event{Kind: kind, Instr: cc.Instr, Args: args, Res: res, Ctx: s.top().ctx})
	}
	switch m := w.eventMethod(cc); m {
	case "Get":
		if cc.Fn != nil && cc.Args[0].Op != OpParam {
			return nil, false
		}
		r := evtAt(vp, cc.Args[0], cc.Args[1], evtVer(s))
		emit("get", cc.Args[1:], r)
		return []*Term{r}, true
	case "Delete":
		r := evtAt(vp, cc.Args[0], cc.Args[1], evtVer(s))
		emit("del", cc.Args[1:], r)
		bump()
		return []*Term{r}, true
	case "Put", "TryPut":
		res := e.results(s, cc)
		emit(strings.ToLower(m), cc.Args[1:], res[1])
		bump()
		return res, true
	case "Cancel", "Drop":
		emit(strings.ToLower(m), nil, nil)
		return nil, true
	}
	if cc.Fn != nil && w.clones[cc.Fn] {
		x := cc.Args[0]
		if s.F.isNilTri(x) == yes {
			return []*Term{mkNil()}, true
		}
		e.deref(s, "nil", x, nil, cc.Instr)
		return []*Term{w.cloneOf(s, x)}, true
	}
	return nil, false
}

// cloneOf is the deep copy of the value at x.
func (w *procWorld) cloneOf(s *State, x *Term) *Term {
	return mkApp("clone", types.NewPointer(w.value), s.load(x, w.value))
}

// run analyses Process after the construction of the processor.
func (w *procWorld) run(pr *procRole) (e *Engine, cfg *Term, paths []*Path) {
	evt := mkT(OpParam, "event", 1, w.evtI, true, pr.process, nil)
	return w.runMethod(pr, pr.process, func(obj *Term) []*Term { return []*Term{obj, evt} })
}

// runMethod analyses a method of the processor after its construction.
func (w *procWorld) runMethod(pr *procRole, m *ssa.Function, args func(obj *Term) []*Term) (e *Engine, cfg *Term, paths []*Path) {
	c := w.c
	cl := &Client{Model: w.model, KeepIters: true, PlainMaps: true, SplitLoops: true}
	cl.OnEvent = func(s *State, ev *Event) bool {
		switch ev.Kind {
		case "pure", "range", "append", "write":
			return false
		}
		return true
	}
	e = NewEngine(c.P, cl)
	cfg = mkT(OpParam, "config", 0, pr.cfg, true, pr.newFn, nil)
	type built struct {
		st  *State
		obj *Term
	}
	var bs []built
	cl.OnReturn = func(s *State, rets []*Term) {
		if s.F.eval(mkEq(rets[1], mkNil())) == no || s.F.eval(mkEq(rets[0], mkNil())) == yes {
			return
		}
		t := s.clone()
		t.F.assume(mkEq(rets[1], mkNil()), true)
		bs = append(bs, built{t, rets[0]})
	}
	e.Run(pr.newFn, []*Term{cfg}, nil)
	cl.OnReturn = func(s *State, rets []*Term) {
		paths = append(paths, &Path{St: s.clone(), Rets: rets, Events: s.Events()})
	}
	if len(bs) == 0 {
		c.Bad("undecided", pr.newFn.String(), c.P.Pos(pr.newFn.Pos()), "the constructor never returns a processor")
	}
	for _, b := range bs {
		b := b
		e.Run(m, args(b.obj), func(s *State) {
			t := b.st.clone()
			s.mem, s.ver, s.gver, s.mver, s.obj, s.F = t.mem, t.ver, t.gver, t.mver, t.obj, t.F
		})
	}
	c.account(m, e)
	return e, cfg, paths
}

// option is the content of a configuration option.
func (w *procWorld) option(pr *procRole, cfg *Term, name string) *Term {
	i, ok := pr.opts[name]
	if !ok {
		w.c.Bad("anchor", "option "+name+" of "+pr.name, pr.regPos, "the configuration of "+pr.name+" has no option "+name)
		return nil
	}
	return mkField(cfg, i, structOf(pr.cfg).Field(i).Type())
}

func typeOr(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Invalid]
	}
	return t
}

// missingKey recognises an error that matches ErrorKeyMissing and yields the
// key it names.
func (w *procWorld) missingKey(s *State, err *Term) (*Term, bool) {
	switch err.Op {
	case OpIface:
		if types.Identical(err.Typ, w.missing) {
			return s.F.resolve(mkField(err.Args[0], w.keyF, types.Typ[types.String])), true
		}
		if types.Identical(err.Typ, types.NewPointer(w.missing)) {
			return s.F.resolve(loadField(s, err.Args[0], w.keyF)), true
		}
	case OpApp:
		if err.Aux == "fmt.Errorf" {
			if format, ok := err.Args[0].isStr(); ok {
				for i, v := range fmtVerbs(format) {
					if v == 'w' && i+1 < len(err.Args) {
						if k, ok := w.missingKey(s, err.Args[i+1]); ok {
							return k, true
						}
					}
				}
			}
		}
	}
	return nil, false
}

// putResult decides what the function returned for the error of a store.
func (w *procWorld) putResult(s *State, ret, perr *Term) string {
	if ret == perr || s.F.eval(mkEq(ret, perr)) == yes {
		return ""
	}
	switch s.F.eval(mkEq(perr, mkNil())) {
	case yes:
		if s.F.eval(mkEq(ret, mkNil())) != yes {
			return "an error is returned although the store succeeded"
		}
		return ""
	case no:
		if s.F.eval(mkEq(ret, mkNil())) != no {
			return "the failure to store is not returned"
		}
		if !wraps(s.F, ret, perr) {
			return "the returned error does not wrap the failure to store"
		}
		return ""
	}
	return "the result of the store is not what is returned"
}

// writes lists the events of a path that change the event or memory that
// existed before.
func (w *procWorld) writes(p *Path) (out []*Event) {
	for _, ev := range p.Events {
		switch ev.Kind {
		case "put", "tryput", "del", "cancel", "drop", "send", "go", "clear":
			out = append(out, ev)
		case "store":
			if rootOf(ev.Addr).Op != OpAlloc {
				out = append(out, ev)
			}
		case "mapset", "mapdel":
			if rootOf(ev.Args[0]).Op != OpAlloc {
				out = append(out, ev)
			}
		case "call":
			if ev.Fn != nil && w.c.P.inModule(ev.Fn) {
				out = append(out, ev)
			} else if ev.Fn == nil && ev.Method != nil && ev.Method.Pkg() != nil && w.c.P.isModPath(ev.Method.Pkg().Path()) {
				out = append(out, ev)
			}
		}
	}
	return
}

func (w *procWorld) describe(evs []*Event) string {
	var out []string
	for _, ev := range evs {
		out = append(out, describeEvent(w.c.P, ev))
	}
	return strings.Join(out, "; ")
}

// quiet: nothing was changed.
func (w *procWorld) quiet(p *Path) string {
	if ev := w.writes(p); len(ev) > 0 {
		return "the event or other state is changed: " + w.describe(ev)
	}
	return ""
}

// onlyPut: exactly one store into the event, under the key.
func (w *procWorld) onlyPut(p *Path, key *Term, allow func(*Event) bool) (*Event, string) {
	var put *Event
	for _, ev := range w.writes(p) {
		if ev.Kind == "put" && put == nil {
			put = ev
			continue
		}
		if allow != nil && allow(ev) {
			continue
		}
		return nil, "the processor also does: " + describeEvent(w.c.P, ev)
	}
	if put == nil {
		return nil, "nothing is stored in the event"
	}
	if put.Args[0] != key && p.St.F.eval(mkEq(put.Args[0], key)) != yes {
		return nil, "the value is stored under " + put.Args[0].String() + " instead of " + key.String()
	}
	if why := w.putResult(p.St, p.Rets[0], put.Res); why != "" {
		return nil, why
	}
	return put, ""
}

func (w *procWorld) wantMissing(p *Path, key *Term) string {
	if why := w.quiet(p); why != "" {
		return why
	}
	k, ok := w.missingKey(p.St, p.Rets[0])
	if !ok {
		return "the result is " + p.Rets[0].String() + " instead of the missing-key error"
	}
	if k != key && p.St.F.eval(mkEq(k, key)) != yes {
		return "the missing-key error names " + k.String() + " instead of " + key.String()
	}
	return ""
}

func (w *procWorld) wantOtherError(p *Path) string {
	if why := w.quiet(p); why != "" {
		return why
	}
	if _, ok := w.missingKey(p.St, p.Rets[0]); ok {
		return "the error matches the missing-key error although the field exists"
	}
	if p.St.F.eval(mkEq(p.Rets[0], mkNil())) != no {
		return "no error is returned"
	}
	return ""
}

func (w *procWorld) wantNothing(p *Path) string {
	if why := w.quiet(p); why != "" {
		return why
	}
	if p.St.F.eval(mkEq(p.Rets[0], mkNil())) != yes {
		return "the result is " + p.Rets[0].String() + " instead of success"
	}
	return ""
}

// freshString: v is a new string value with content want.
func (w *procWorld) freshValue(s *State, v *Term) string {
	if v.Op != OpAlloc {
		return "the stored value " + v.String() + " is not a new value"
	}
	return ""
}

// conclude runs the specification on every path.
func (w *procWorld) conclude(rule string, pr *procRole, paths []*Path, spec func(p *Path, ask func(*Term) bool) string, verify func(p *Path, outcome string) string) {
	c := w.c
	for _, p := range paths {
		p := p
		res := decide(p.St.F, func(ask func(*Term) bool) string { return spec(p, ask) })
		for _, o := range sortedKeys(res) {
			st := p.St.clone()
			st.F = res[o]
			q := &Path{St: st, Rets: p.Rets, Events: p.Events}
			why := verify(q, o)
			construct := pr.name + ": " + o
			if why == "" {
				c.Ok(rule, construct)
				continue
			}
			pos := c.P.Pos(pr.process.Pos())
			if ev := w.writes(q); len(ev) > 0 && ev[len(ev)-1].Instr != nil {
				pos = c.P.InstrPos(ev[len(ev)-1].Instr)
			}
			c.Bad(rule, construct, pos, pr.process.String()+": "+why, traceDetails(p.St)...)
		}
	}
}

// prefix tells constructs of different processors apart when one rule covers them all.
func (w *procWorld) prefix(s string) string {
	if w.optsOnly {
		return s
	}
	return ""
}
