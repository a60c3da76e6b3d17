package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pipeRoles are the parts of pkg/pipeline, found by type and behaviour.
type pipeRoles struct {
	node     *types.Named // the struct that holds a processor.Processor
	fProc    int
	fKids    int
	evt      *types.Named // implements processor.Event
	dropF    int
	dropV    *Term
	cancelF  int
	cancelV  *Term
	fData    int
	pipe     *types.Named
	fRegular int
	fGlobal  int
	process  *ssa.Function
	runs     map[*ssa.Function]bool // functions that run one node
	invoke   *types.Func            // processor.Processor.Process
	missing  *types.Named           // processor.ErrorKeyMissing
	// from the construction of nodes
	fIgnMissing int
	fIgnFailure int
	counters    map[int]string // node field -> role
	cnames      map[int]string // node field -> metric name
}

const relPipeline = "pkg/pipeline"
const relProcessor = "pkg/processor"

func pipelineRoles(c *Ctx) *pipeRoles {
	p := c.P
	r := &pipeRoles{fProc: -1, fKids: -1, dropF: -1, cancelF: -1, fRegular: -1, fGlobal: -1, fIgnMissing: -1, fIgnFailure: -1, fData: -1, counters: map[int]string{}, cnames: map[int]string{}, runs: map[*ssa.Function]bool{}}
	pk := p.Pkg(relPipeline)
	pr := p.Pkg(relProcessor)
	if pk == nil || pr == nil {
		c.Missing("packages pkg/pipeline and pkg/processor")
		return nil
	}
	procI := lookupNamed(p, relProcessor, "Processor")
	evtI := lookupNamed(p, relProcessor, "Event")
	r.missing = lookupNamed(p, relProcessor, "ErrorKeyMissing")
	r.pipe = lookupNamed(p, relPipeline, "Pipeline")
	if procI == nil || evtI == nil || r.missing == nil || r.pipe == nil {
		c.Missing("processor.Processor, processor.Event, processor.ErrorKeyMissing and pipeline.Pipeline")
		return nil
	}
	if it, ok := procI.Underlying().(*types.Interface); ok {
		for i := 0; i < it.NumMethods(); i++ {
			if it.Method(i).Name() == "Process" {
				r.invoke = it.Method(i)
			}
		}
	}
	for _, n := range pk.Pkg.Scope().Names() {
		tn, ok := pk.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		named, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		st, ok := named.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if types.Identical(st.Field(i).Type(), procI) {
				r.node, r.fProc = named, i
			}
		}
		if types.Implements(types.NewPointer(named), evtI.Underlying().(*types.Interface)) {
			r.evt = named
		}
	}
	if r.node == nil || r.evt == nil || r.invoke == nil {
		c.Missing("the pipeline's processor node and event types")
		return nil
	}
	nst := structOf(r.node)
	kids := types.NewSlice(types.NewPointer(r.node))
	for i := 0; i < nst.NumFields(); i++ {
		if types.Identical(nst.Field(i).Type().Underlying(), kids) {
			r.fKids = i
		}
	}
	if r.fKids < 0 {
		c.Missing("the on_failure list of the pipeline's processor node")
		return nil
	}
	r.dropF, r.dropV = r.flag(c, "Drop")
	r.cancelF, r.cancelV = r.flag(c, "Cancel")
	if r.dropF < 0 || r.cancelF < 0 {
		return nil
	}
	est := structOf(r.evt)
	evNamed := lookupNamed(p, "pkg/event", "Event")
	for i := 0; i < est.NumFields(); i++ {
		if evNamed != nil && ptrTo(est.Field(i).Type(), evNamed) {
			r.fData = i
		}
	}
	r.process = p.Func(relPipeline, "*Pipeline.Process")
	if r.process == nil {
		c.Missing("(*Pipeline).Process")
		return nil
	}
	// functions that run one node: the first functions with a node parameter
	// on the way from Process to the invocation
	invokers := map[*ssa.Function]bool{}
	for _, f := range pkgFuncs(p, relPipeline) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && ci.Common().Method == r.invoke {
					invokers[f] = true
				}
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		if f != r.process && r.nodeParam(f) >= 0 {
			rf := reach(p, f)
			for g := range invokers {
				if rf[g] {
					r.runs[f] = true
					return
				}
			}
			return
		}
		for _, g := range staticCallees(p, f) {
			visit(g)
		}
	}
	visit(r.process)
	if len(r.runs) == 0 {
		c.Missing("the function that runs one processor node for (*Pipeline).Process")
		return nil
	}
	return r
}

func (r *pipeRoles) nodeParam(f *ssa.Function) int {
	for i, p := range f.Params {
		if ptrTo(p.Type(), r.node) {
			return i
		}
	}
	return -1
}

func (r *pipeRoles) evtParam(f *ssa.Function) int {
	for i, p := range f.Params {
		if ptrTo(p.Type(), r.evt) {
			return i
		}
	}
	return -1
}

// flag finds the field that Drop or Cancel sets, and its value. Both can be
// values of one field; Cancel then leaves alone what is already set.
func (r *pipeRoles) flag(c *Ctx, method string) (int, *Term) {
	fn := c.P.Func(relPipeline, "*"+r.evt.Obj().Name()+"."+method)
	if fn == nil {
		c.Missing("method " + method + " of the pipeline's event")
		return -1, nil
	}
	field := -1
	var val *Term
	bad := false
	drops := false // a path that sets the flag can revoke a drop
	params := rootParams(fn)
	cl := &Client{OnEvent: func(s *State, ev *Event) bool {
		if ev.Kind == "store" && ev.Addr.Op == OpFieldAddr && ev.Addr.Args[0] == params[0] && ev.Val.isConst() {
			if field >= 0 && (field != int(ev.Addr.N) || val != ev.Val) {
				bad = true
			}
			field, val = int(ev.Addr.N), ev.Val
			if field == r.dropF && val != r.dropV && s.F.eval(r.dropped(s, params[0])) != no {
				drops = true
			}
		}
		return true
	}}
	_, paths := collect(c, fn, cl, params, nil)
	for _, pth := range paths {
		if len(pth.Events) == 0 && field >= 0 {
			// already set, or dropped
			s := pth.St
			set := s.F.eval(r.flagTerm(s, params[0], field, val)) == yes
			if field == r.dropF {
				set = set || s.F.eval(r.dropped(s, params[0])) == yes || s.F.eval(mkEq(loadField(s, params[0], field), mkInt(0))) == no
			}
			bad = bad || !set
		} else if len(pth.Events) != 1 {
			bad = true
		}
	}
	if bad || drops || field < 0 || len(paths) == 0 || zeroTerm(val) {
		c.Bad("terminate-flag", r.evt.Obj().Name()+"."+method, c.P.Pos(fn.Pos()), method+" does not set exactly one flag of the event on every path")
		return -1, nil
	}
	c.at("C11", "C14").Ok("terminate-flag", r.evt.Obj().Name()+"."+method)
	return field, val
}

func (r *pipeRoles) flagTerm(s *State, evt *Term, field int, val *Term) *Term {
	return mkEq(loadField(s, evt, field), val)
}

func (r *pipeRoles) dropped(s *State, evt *Term) *Term { return r.flagTerm(s, evt, r.dropF, r.dropV) }
func (r *pipeRoles) cancelled(s *State, evt *Term) *Term {
	t := r.flagTerm(s, evt, r.cancelF, r.cancelV)
	if r.cancelF == r.dropF && s.F.eval(t) == unknown {
		// one field: what is set and not dropped is cancelled
		return mkNot(mkEq(loadField(s, evt, r.cancelF), mkInt(0)))
	}
	return t
}

// pin makes the flags explicit memory cells so that what is known about them
// is carried around loops.
func (r *pipeRoles) pin(s *State, evt *Term) {
	for _, i := range []int{r.dropF, r.cancelF} {
		st := structOf(r.evt)
		a := mkFieldAddr(evt, i, types.NewPointer(st.Field(i).Type()))
		s.mem[a] = s.load(a, st.Field(i).Type())
	}
}

func (r *pipeRoles) evtArg(args []*Term) *Term {
	for _, a := range args {
		if a.Op == OpIface {
			a = a.Args[0]
		}
		if a.Typ != nil && ptrTo(a.Typ, r.evt) {
			return a
		}
	}
	return nil
}

func (r *pipeRoles) nodeArg(args []*Term) *Term {
	for _, a := range args {
		if a.Typ != nil && ptrTo(a.Typ, r.node) {
			return a
		}
	}
	return nil
}

// listArg: an argument that is a list of nodes.
func (r *pipeRoles) listArg(args []*Term) *Term {
	for _, a := range args {
		if a.Typ != nil {
			if sl, ok := a.Typ.Underlying().(*types.Slice); ok && ptrTo(sl.Elem(), r.node) {
				return a
			}
		}
	}
	return nil
}

// ---- construction of nodes: roles of the flags and counters ----

var counterRoles = map[string]string{
	"component_received_events_total":  "received",
	"component_sent_events_total":      "sent",
	"component_errors_total":           "errors",
	"component_discarded_events_total": "discarded",
}

type nodeBuild struct {
	fn       *ssa.Function
	alloc    *Term
	fields   map[int]map[*Term]bool
	paths    []*Path
	eng      *Engine
	held     map[*Term]map[int]map[*Term]bool // fields of other objects made
	counters map[*Term]*Term                  // counter -> its options
	reg      []*Event                         // calls into the registry
	recs     []*Event                         // recursive calls
	appends  []*Event
}

// Slots of a node: field i of the node is slot i, field i of the struct that
// field j holds (or points to) is slot (j+1)*slotBase+i.
const slotBase = 1000

func (r *pipeRoles) slotAddr(a *Term) (node *Term, slot int, ok bool) {
	if a.Op != OpFieldAddr {
		return nil, 0, false
	}
	b := a.Args[0]
	if b.Typ != nil && ptrTo(b.Typ, r.node) {
		return b, int(a.N), true
	}
	if b.Op == OpLoad {
		b = b.Args[0]
	}
	if b.Op == OpFieldAddr && b.Args[0].Typ != nil && ptrTo(b.Args[0].Typ, r.node) {
		return b.Args[0], (int(b.N)+1)*slotBase + int(a.N), true
	}
	return nil, 0, false
}

// slotOf finds the node and slot that a value was read from.
func (r *pipeRoles) slotOf(t *Term) (node *Term, slot int, ok bool) {
	switch t.Op {
	case OpLoad:
		return r.slotAddr(t.Args[0])
	case OpField:
		if b, j, ok := fieldOf(t.Args[0]); ok && b.Typ != nil && ptrTo(b.Typ, r.node) {
			return b, (j+1)*slotBase + int(t.N), true
		}
		if t.Args[0].Typ != nil && ptrTo(t.Args[0].Typ, r.node) {
			return t.Args[0], int(t.N), true
		}
	}
	return nil, 0, false
}

func (r *pipeRoles) slotField(slot int) *types.Var {
	st := structOf(r.node)
	if slot < slotBase {
		if slot < 0 || slot >= st.NumFields() {
			return nil
		}
		return st.Field(slot)
	}
	j := slot/slotBase - 1
	if j >= st.NumFields() {
		return nil
	}
	in := structOf(derefOr(st.Field(j).Type()))
	if in == nil || slot%slotBase >= in.NumFields() {
		return nil
	}
	return in.Field(slot % slotBase)
}

func (r *pipeRoles) slotType(slot int) types.Type {
	if f := r.slotField(slot); f != nil {
		return f.Type()
	}
	return nil
}

// slots lists the slots of a node whose type ends in the name.
func (r *pipeRoles) slots(c *Ctx, suffix string) []int {
	var out []int
	st := structOf(r.node)
	for j := 0; j < st.NumFields(); j++ {
		t := st.Field(j).Type()
		if strings.HasSuffix(typeStr(t), suffix) {
			out = append(out, j)
			continue
		}
		n := namedOf(t)
		in := structOf(derefOr(t))
		if in == nil || n == r.node || n != nil && (n.Obj().Pkg() == nil || !c.P.isModPath(n.Obj().Pkg().Path())) {
			continue
		}
		for i := 0; i < in.NumFields(); i++ {
			if strings.HasSuffix(typeStr(in.Field(i).Type()), suffix) {
				out = append(out, (j+1)*slotBase+i)
			}
		}
	}
	return out
}

func (nb *nodeBuild) put(slot int, v *Term) {
	if nb.fields[slot] == nil {
		nb.fields[slot] = map[*Term]bool{}
	}
	nb.fields[slot][v] = true
}

// stored notes what is written into a node under construction and into the
// objects made for it.
func (nb *nodeBuild) stored(r *pipeRoles, s *State, ev *Event) {
	v := s.F.resolve(ev.Val)
	spread := func(v *Term, set func(i int, x *Term)) {
		if st := structOf(v.Typ); st != nil && v.Typ != nil {
			for i := 0; i < st.NumFields(); i++ {
				set(i, s.F.resolve(mkField(v, i, st.Field(i).Type())))
			}
		}
	}
	hold := func(o *Term, i int, v *Term) {
		if nb.held == nil {
			nb.held = map[*Term]map[int]map[*Term]bool{}
		}
		if nb.held[o] == nil {
			nb.held[o] = map[int]map[*Term]bool{}
		}
		if nb.held[o][i] == nil {
			nb.held[o][i] = map[*Term]bool{}
		}
		nb.held[o][i][v] = true
	}
	var fill func(slot int, v *Term)
	fill = func(slot int, v *Term) {
		nb.put(slot, v)
		if slot < slotBase {
			spread(v, func(i int, x *Term) { nb.put((slot+1)*slotBase+i, x) })
		}
	}
	switch {
	case ev.Addr.Op == OpAlloc && ptrTo(ev.Addr.Typ, r.node):
		if v.Op == OpAgg {
			nb.alloc = ev.Addr
			spread(v, fill)
		}
	case ev.Addr.Op == OpAlloc:
		if v.Op == OpAgg {
			spread(v, func(i int, x *Term) { hold(ev.Addr, i, x) })
		}
	default:
		if n, slot, ok := r.slotAddr(ev.Addr); ok && n.Op == OpAlloc {
			nb.alloc = n
			fill(slot, v)
		} else if ev.Addr.Op == OpFieldAddr && ev.Addr.Args[0].Op == OpAlloc {
			hold(ev.Addr.Args[0], int(ev.Addr.N), v)
		}
	}
}

// isCfgList: []ProcessorConfig
func isProcList(c *Ctx, t types.Type) bool {
	pc := lookupNamed(c.P, relPipeline, "ProcessorConfig")
	sl, ok := t.Underlying().(*types.Slice)
	return ok && pc != nil && types.Identical(sl.Elem(), pc)
}

// listBuilder is the function that builds the nodes of a list of processor
// configurations.
func (r *pipeRoles) listBuilders(c *Ctx) []*ssa.Function {
	newFn := c.P.Func(relPipeline, "New")
	if newFn == nil {
		c.Missing("pipeline.New")
		return nil
	}
	var out []*ssa.Function
	for f := range reach(c.P, newFn) {
		if fnPkgPath(f) != c.P.Mod+"/"+relPipeline || f.Parent() != nil {
			continue
		}
		hasList := false
		for _, p := range f.Params {
			if isProcList(c, p.Type()) {
				hasList = true
			}
		}
		if hasList && recursive(c.P, f) {
			out = append(out, f)
		}
	}
	return out
}

// opaqueRegistry keeps the registry and everything reflective out of the
// construction analysis.
func inPkg(p *Prog, fn *ssa.Function, rel string) bool { return fnPkgPath(fn) == p.Mod+"/"+rel }

// build analyses the construction of the nodes of one list.
func (r *pipeRoles) build(c *Ctx) *nodeBuild {
	lbs := r.listBuilders(c)
	if len(lbs) != 1 {
		c.Missing(fmt.Sprintf("the function that builds a list of processors (found %d)", len(lbs)))
		return nil
	}
	nb := &nodeBuild{fn: lbs[0], fields: map[int]map[*Term]bool{}, counters: map[*Term]*Term{}}
	cl := &Client{}
	cl.Opaque = func(s *State, fn *ssa.Function, args []*Term) bool {
		return inPkg(c.P, fn, "pkg/processor/registry")
	}
	cl.OnEvent = func(s *State, ev *Event) bool {
		switch ev.Kind {
		case "store":
			nb.stored(r, s, ev)
			return false
		case "call":
			if ev.Fn != nil && strings.HasSuffix(ev.Fn.String(), "prometheus.NewCounter") {
				nb.counters[ev.Res] = ev.Args[0]
				return false
			}
			return ev.Fn != nil && c.P.inModule(ev.Fn)
		case "append":
			return true
		}
		return false
	}
	nb.eng, nb.paths = collect(c, nb.fn, cl, nil, nil)
	if nb.alloc == nil {
		c.Missing("the construction of a pipeline processor node")
		return nil
	}
	return nb
}

// anyStr reports that a string constant equal to x occurs in t.
func mentionsStr(t *Term, x string) bool {
	return anySub(t, func(u *Term) bool {
		s, ok := u.isStr()
		return ok && s == x
	})
}

// resolveNodeFields finds which node field holds which flag and counter.
func (r *pipeRoles) resolveNodeFields(c *Ctx, nb *nodeBuild) {
	// what the objects held by the node hold
	for j, vals := range nb.fields {
		for v := range vals {
			for i, inner := range nb.held[v] {
				for x := range inner {
					nb.put((j+1)*slotBase+i, x)
				}
			}
		}
	}
	for i, vals := range nb.fields {
		ft := r.slotType(i)
		if ft == nil {
			continue
		}
		for v := range vals {
			if b, ok := ft.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				if mentionsStr(v, "IgnoreMissing") {
					r.fIgnMissing = i
				}
				if mentionsStr(v, "IgnoreFailure") {
					r.fIgnFailure = i
				}
			}
			for res, opts := range nb.counters {
				if v == res || v.Op == OpIface && v.Args[0] == res {
					name := counterName(opts)
					r.cnames[i] = name
					if role := counterRoles[name]; role != "" {
						r.counters[i] = role
					}
				}
			}
		}
	}
}

func counterName(opts *Term) string {
	i := fieldIndexByName(opts.Typ, "Name")
	if i < 0 {
		return ""
	}
	s, _ := mkField(opts, i, types.Typ[types.String]).isStr()
	return s
}
