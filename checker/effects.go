package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C18: what processing writes to, and what processors store in events.
//
// Every function that runs while an event is processed is interpreted (the
// pipeline, each registered processor after its constructor, the operations of
// the event). Each write is traced to the object it changes, each stored value
// to everything that can be reached from it. The origin of a value is followed
// through memory of the call, loops, appends and calls.

type origin struct {
	kind string // fresh, event, shared, null, arg
	desc string
	key  *Term // event: the field the value was read from
}

type effWorld struct {
	c      *Ctx
	w      *procWorld
	nullG  *ssa.Global
	roots  map[*ssa.Function]*effRoot
	queue  []*effRoot
	typeF  int
	allowE func(*Event) bool
}

type effRoot struct {
	fn    *ssa.Function
	rule  string
	kinds []map[string]bool // per parameter
	done  map[string]bool
}

// effRun is one analysed function.
type effRun struct {
	x      *effWorld
	e      *Engine
	rule   string
	name   string
	pre    map[*Term]bool // objects that existed before
	kind   func(*Term) []origin
	stored map[*Term]map[*Term]bool
	calls  map[*Term]*Event
	items  []effItem
	seen   map[string]bool
}

type effItem struct {
	ev   *Event
	F    *Facts
	null tri // store into a field of a value: whether it is a null value
}

func newEffRun(x *effWorld, rule, name string) *effRun {
	return &effRun{x: x, rule: rule, name: name, pre: map[*Term]bool{}, stored: map[*Term]map[*Term]bool{}, calls: map[*Term]*Event{}, seen: map[string]bool{}}
}

func (r *effRun) put(root, v *Term) {
	if r.stored[root] == nil {
		r.stored[root] = map[*Term]bool{}
	}
	r.stored[root][v] = true
}

// record is the OnEvent of the run.
func (r *effRun) record(s *State, ev *Event) bool {
	switch ev.Kind {
	case "store":
		r.put(rootOf(ev.Addr), ev.Val)
	case "mapset":
		r.put(ev.Args[0], ev.Val)
		r.put(ev.Args[0], ev.Args[1])
	case "copy":
		r.put(rootOf(ev.Args[0]), mkT(OpLoad, "", 0, elemType(ev.Args[1].Typ), false, nil, nil, ev.Args[1], mkVer("copied", nil)))
	case "call":
		for _, a := range ev.Args {
			if o := rootOf(a); o.Op == OpAlloc {
				for _, b := range ev.Args {
					if b != a {
						r.put(o, b)
					}
				}
			}
		}
		if ev.Res != nil {
			r.calls[ev.Res] = ev
			if ev.Res.Op == OpTuple {
				for _, t := range ev.Res.Args {
					r.calls[t] = ev
				}
			}
		}
	case "mapdel", "clear", "append", "go", "send", "put", "tryput", "del", "builtin":
	default:
		return false
	}
	it := effItem{ev: ev, F: s.F}
	if v := r.x.valueOf(ev.Addr); ev.Kind == "store" && v != nil {
		tf := mkFieldAddr(v, r.x.typeF, types.NewPointer(types.Typ[types.Uint8]))
		it.null = s.F.eval(mkEq(s.load(tf, r.x.tagType()), r.x.w.tags["NullType"]))
	}
	k := itemKey(ev) + "|" + string(rune('0'+int(it.null)))
	if !r.seen[k] {
		r.seen[k] = true
		it.F = s.F.clone()
		r.items = append(r.items, it)
	}
	return false
}

// valueOf: the value that a store to the address changes.
func (x *effWorld) valueOf(a *Term) *Term {
	for ; a != nil; a = a.Args[0] {
		if ptrTo(a.Typ, x.w.value) {
			return a
		}
		if a.Op != OpFieldAddr {
			break
		}
	}
	return nil
}

func itemKey(ev *Event) string {
	var sb strings.Builder
	sb.WriteString(ev.Kind)
	sb.WriteString(siteName(ev.Instr))
	for _, t := range append(append([]*Term{}, ev.Args...), ev.Addr, ev.Val) {
		sb.WriteByte(',')
		sb.WriteString(itoa(tid(t)))
	}
	return sb.String()
}

func siteName(ins ssa.Instruction) string {
	if ins == nil {
		return ""
	}
	return itoa(siteIDs[ins])
}

func (x *effWorld) tagType() types.Type {
	return structOf(x.w.value).Field(x.typeF).Type()
}

// pointers reports that a value of type t can refer to memory.
func pointers(t types.Type) bool {
	if t == nil {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return pointers(u.Elem())
	}
	return true
}

// origins lists where the object that t refers to comes from; deep: where
// anything that can be reached from t comes from.
func (r *effRun) origins(t *Term, deep bool) []origin {
	var out []origin
	dup := map[origin]bool{}
	seen := map[*Term]bool{}
	add := func(o origin) {
		if !dup[o] {
			dup[o] = true
			out = append(out, o)
		}
	}
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Typ != nil && !pointers(t.Typ) {
			return
		}
		if deep && t.Op != OpAlloc {
			for v := range r.stored[t] {
				visit(v)
			}
		}
		switch t.Op {
		case OpConst, OpNil, OpZero, OpFunc, OpAbsent, OpVer, OpBin, OpLen, OpMapLen, OpCap, OpEq, OpLt, OpNot, OpLin, OpNextOk, OpLookupOk, OpAssertOk:
		case OpParam, OpSym:
			for _, o := range r.kind(t) {
				add(o)
			}
		case OpGlobal:
			add(origin{kind: "shared", desc: "the package variable " + t.String()})
		case OpAlloc:
			if r.pre[t] {
				add(origin{kind: "shared", desc: "the processor"})
				return
			}
			add(origin{kind: "fresh"})
			if deep {
				for v := range r.stored[t] {
					visit(v)
				}
			}
		case OpLoad:
			a := rootOf(t.Args[0])
			if a.Op == OpGlobal && a.Ref == r.x.nullG && a.Ref != nil {
				add(origin{kind: "null"})
				return
			}
			if a.Op == OpAlloc && !r.pre[a] {
				add(origin{kind: "fresh"})
				for v := range r.stored[a] {
					visit(v)
				}
				return
			}
			visit(a)
		case OpFieldAddr, OpIndexAddr, OpMapCell, OpBuilder, OpSlice, OpAssert, OpConv, OpIface, OpMapKey, OpMapVal, OpField, OpLookup, OpRange:
			if t.Op == OpConv && len(t.Args) == 1 && !pointers(t.Args[0].Typ) {
				add(origin{kind: "fresh"})
				return
			}
			b := t.Args[0]
			if (t.Op == OpLookup || t.Op == OpMapVal || t.Op == OpMapKey) && b.Op == OpAlloc && !r.pre[b] {
				add(origin{kind: "fresh"})
				for v := range r.stored[b] {
					visit(v)
				}
				return
			}
			visit(b)
		case OpAppend:
			visit(t.Args[0])
			add(origin{kind: "fresh"})
			for v := range r.stored[t] {
				visit(v)
			}
			if deep {
				for _, a := range t.Args[1:] {
					visit(a)
				}
			}
		case OpAppendSl:
			visit(t.Args[0])
			add(origin{kind: "fresh"})
			if deep && pointers(elemType(t.Args[1].Typ)) {
				visit(t.Args[1])
			}
		case OpAgg, OpTuple, OpSliceLit, OpClosure:
			add(origin{kind: "fresh"})
			for _, a := range t.Args {
				visit(a)
			}
		case OpLoopVar:
			if key, ok := t.Ref.(string); ok {
				if rec := r.e.Loops[key]; rec != nil {
					if vr := rec.Vars[t]; vr != nil {
						for _, m := range []map[*Term]bool{vr.Inits, vr.Firsts, vr.Steps} {
							for v := range m {
								visit(v)
							}
						}
					}
				}
			}
		case OpApp:
			switch t.Aux {
			case "event.at":
				add(origin{kind: "event", desc: "the field " + t.Args[1].String(), key: t.Args[1]})
				return
			case "clone":
				add(origin{kind: "fresh"})
				return
			case "makeslice", "copyof":
				add(origin{kind: "fresh"})
			}
			for _, a := range t.Args {
				visit(a)
			}
		case OpCallRes:
			add(origin{kind: "fresh"})
			if ev := r.calls[t]; ev != nil {
				for _, a := range ev.Args {
					visit(a)
				}
			}
		default:
			add(origin{kind: "shared", desc: t.String()})
		}
	}
	visit(t)
	return out
}

// readOnlyCall: library functions that do not change what they are given, or
// only counters and locks.
func readOnlyCall(name string) bool {
	if foreignEffect(name) == "none" {
		return true
	}
	for _, p := range append([]string{"(*sync.Mutex)", "(*sync.RWMutex)", "sync/atomic.Add", "sync/atomic.Load", "(*sync/atomic.Int64).Add", "(*sync/atomic.Uint64).Add", "(*regexp.Regexp)", "(net.", "net.", "errors.", "fmt.", "reflect.DeepEqual", "slices.Contains", "slices.Index", "slices.Equal", "slices.Clone", "maps.Clone", "sort.Search", "bytes.", "(*time.Location)", "encoding/hex.Encode", "(*encoding/base64.Encoding).EncodeToString", "crypto/"}, purePrefixes...) {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func calleeName(ev *Event) string {
	if ev.Fn != nil {
		return ev.Fn.String()
	}
	if ev.Method != nil {
		return ev.Method.FullName()
	}
	return "a function value"
}

// check decides the recorded events.
func (r *effRun) check() {
	c, p := r.x.c, r.x.c.P
	bad := func(it effItem, what string) {
		c.Bad(r.rule, r.name+": "+describeEvent(p, it.ev), p.InstrPos(it.ev.Instr), r.name+": "+what)
	}
	for _, it := range r.items {
		ev := it.ev
		switch ev.Kind {
		case "store":
			r.write(it, rootOf(ev.Addr), ev.Addr, []*Term{ev.Val}, bad)
		case "mapset":
			r.write(it, ev.Args[0], nil, []*Term{ev.Val}, bad)
		case "mapdel", "clear":
			r.write(it, ev.Args[0], nil, nil, bad)
		case "copy":
			r.write(it, rootOf(ev.Args[0]), nil, nil, bad)
		case "builtin":
			bad(it, "uses "+ev.Eff)
		case "append":
			if len(ev.Args) < 2 || ev.Args[0].isNil() || ev.Args[1].isNil() {
				continue
			}
			if ci, ok := ev.Instr.(ssa.CallInstruction); ok {
				if sl, ok := ci.Common().Args[0].(*ssa.Slice); ok && sl.Max != nil {
					continue
				}
			}
			r.write(it, rootOf(ev.Args[0]), nil, nil, bad)
		case "go":
			bad(it, "starts a goroutine, which may run on after the event was processed")
		case "send":
			for _, o := range r.origins(ev.Args[len(ev.Args)-1], true) {
				if o.kind != "fresh" {
					bad(it, "hands "+ev.Args[len(ev.Args)-1].String()+" to another goroutine")
					break
				}
			}
		case "put", "tryput":
			r.stores(it, ev.Args[0], []*Term{ev.Args[1]}, bad)
		case "call":
			r.call(it, bad)
		}
	}
	c.Ok(r.rule, r.name)
}

// write decides a change of the object at root.
func (r *effRun) write(it effItem, root, addr *Term, vals []*Term, bad func(effItem, string)) {
	for _, o := range r.origins(root, false) {
		switch o.kind {
		case "shared":
			bad(it, "changes memory of "+o.desc)
			return
		case "null":
			bad(it, "changes the shared null value")
			return
		case "arg":
			bad(it, "changes "+o.desc)
			return
		case "event":
			if r.x.valueOf(addr) != nil && it.null != no {
				bad(it, "changes a value of the event that may be the shared null value")
				return
			}
			r.stores(it, o.key, vals, bad)
		}
	}
}

// stores decides what becomes part of the event.
func (r *effRun) stores(it effItem, key *Term, vals []*Term, bad func(effItem, string)) {
	for _, v := range vals {
		for _, o := range r.origins(v, true) {
			switch o.kind {
			case "shared":
				bad(it, "stores memory of "+o.desc+" in the event")
				return
			case "event":
				if o.key != nil && key != nil && o.key != key && it.F.eval(mkEq(o.key, key)) != yes {
					bad(it, "stores memory of "+o.desc+" of the event in another field")
					return
				}
			}
		}
	}
}

func (r *effRun) call(it effItem, bad func(effItem, string)) {
	x, ev := r.x, it.ev
	p := x.c.P
	if ev.Fn != nil && p.inModule(ev.Fn) {
		// analysed by itself
		if x.w.clones[ev.Fn] {
			return
		}
		root := x.root(ev.Fn, r.rule)
		for i, a := range ev.Args {
			if i >= len(root.kinds) {
				break
			}
			for _, o := range r.origins(a, false) {
				k := o.kind
				if k == "shared" {
					k = "shared " + o.desc
				}
				root.kinds[i][k] = true
			}
		}
		return
	}
	if ev.Fn == nil && ev.Method != nil && ev.Method.Pkg() != nil && p.isModPath(ev.Method.Pkg().Path()) {
		return // an implementation of an interface of the module
	}
	name := calleeName(ev)
	if readOnlyCall(name) {
		return
	}
	if ev.Fn == nil && ev.Method == nil {
		if ev.Addr == nil {
			return
		}
		for _, o := range r.origins(ev.Addr, false) {
			if o.kind != "fresh" {
				bad(it, "calls a function that cannot be followed")
				return
			}
		}
	}
	for _, a := range ev.Args {
		if a.Typ != nil && !pointers(a.Typ) {
			continue
		}
		for _, o := range r.origins(a, true) {
			switch o.kind {
			case "shared":
				bad(it, "hands memory of "+o.desc+" to "+name+", which may change it")
				return
			case "null":
				bad(it, "hands the shared null value to "+name+", which may change it")
				return
			}
		}
	}
}

func (x *effWorld) root(fn *ssa.Function, rule string) *effRoot {
	if q := x.roots[fn]; q != nil {
		return q
	}
	q := &effRoot{fn: fn, rule: rule, done: map[string]bool{}}
	for range fn.Params {
		q.kinds = append(q.kinds, map[string]bool{})
	}
	for range fn.FreeVars {
		q.kinds = append(q.kinds, map[string]bool{})
	}
	x.roots[fn] = q
	x.queue = append(x.queue, q)
	return q
}

func hasLoop(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

func (q *effRoot) key() string {
	var out []string
	for _, m := range q.kinds {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		out = append(out, strings.Join(ks, "+"))
	}
	return strings.Join(out, ",")
}

// runRoot analyses a function whose parameters are of the recorded kinds.
func (x *effWorld) runRoot(q *effRoot) {
	k := q.key()
	if q.done[k] {
		return
	}
	q.done[k] = true
	if len(q.fn.Blocks) == 0 {
		return
	}
	c := x.c
	r := newEffRun(x, q.rule, strings.TrimPrefix(q.fn.String(), c.P.Mod+"/"))
	ps := rootParams(q.fn)
	r.kind = func(t *Term) []origin {
		for i, p := range ps {
			if p != t || i >= len(q.kinds) {
				continue
			}
			var out []origin
			for k := range q.kinds[i] {
				o := origin{kind: k}
				if strings.HasPrefix(k, "shared ") {
					o = origin{kind: "shared", desc: k[7:]}
				}
				if k == "arg" {
					o.desc = "the argument " + t.Aux
				}
				out = append(out, o)
			}
			return out
		}
		return []origin{{kind: "shared", desc: t.String()}}
	}
	cl := &Client{OnEvent: r.record, PlainMaps: true, SplitLoops: true}
	cl.Model = func(s *State, cc *CallCtx) ([]*Term, bool) {
		if cc.Fn != nil && x.w.clones[cc.Fn] {
			return x.w.model(s, cc)
		}
		return nil, false
	}
	// functions with loops are analysed by themselves
	cl.Opaque = func(s *State, fn *ssa.Function, args []*Term) bool {
		return fn != q.fn && len(fn.FreeVars) == 0 && c.P.inModule(fn) && hasLoop(fn)
	}
	r.e = NewEngine(c.P, cl)
	r.e.Run(q.fn, ps, nil)
	c.account(q.fn, r.e)
	r.check()
}

func init() {
	register("C18", func(c *Ctx) {
		c.Rule("C18-pipeline", "running the pipeline writes only to memory of the call and of the event, and to counters", 2)
		c.Rule("C18-processor", "a processor writes only to memory of the call and, through its operations, to the event; what it stores shares no memory with its configuration, package variables or another field", 5)
		c.Rule("C18-event", "the operations of the event write only to memory of the call and the maps and objects of that event; null values are never changed", 6)
		c.Rule("C18-copy", "the copy of a value shares no memory with it", 1)
		analyseEffects(c)
	})
}

func analyseEffects(c *Ctx) {
	w := newProcWorld(c)
	if w == nil {
		return
	}
	x := &effWorld{c: c, w: w, roots: map[*ssa.Function]*effRoot{}, typeF: fieldIndexByName(w.value, "Type")}
	if pk := c.P.Pkg(relEvent); pk != nil {
		x.nullG, _ = pk.Members["NullValue"].(*ssa.Global)
	}
	w.findClones("C18-copy")
	if x.nullG != nil {
		for _, ins := range globalWrites(c.P, x.nullG) {
			if _, ok := ins.(*ssa.Store); ok && len(ins.Operands(nil)) > 0 && *ins.Operands(nil)[0] == ssa.Value(x.nullG) {
				c.Bad("C18-event", "event.NullValue", c.P.InstrPos(ins), "the variable NullValue is assigned in "+ins.Parent().String())
			}
		}
	}
	// the pipeline
	fn := c.P.Func(relPipeline, "*Pipeline.Process")
	if fn == nil {
		c.Missing("Pipeline.Process")
		return
	}
	q := x.root(fn, "C18-pipeline")
	q.kinds[0]["shared the pipeline"] = true
	for i := 1; i < len(q.kinds); i++ {
		q.kinds[i]["event"] = true
	}
	// the operations of the event
	it := w.evtI.Underlying().(*types.Interface)
	impl := 0
	for _, pk := range c.P.SSA {
		if pk == nil || !c.P.isModPath(pk.Pkg.Path()) {
			continue
		}
		for _, n := range pk.Pkg.Scope().Names() {
			tn, ok := pk.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nm, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(nm) || !types.Implements(types.NewPointer(nm), it) {
				continue
			}
			impl++
			for i := 0; i < it.NumMethods(); i++ {
				m := c.P.Prog.LookupMethod(types.NewPointer(nm), nm.Obj().Pkg(), it.Method(i).Name())
				if m == nil || len(m.Blocks) == 0 {
					continue
				}
				q := x.root(m, "C18-event")
				q.kinds[0]["event"] = true
				for j := 1; j < len(q.kinds); j++ {
					q.kinds[j]["arg"] = true
				}
			}
		}
	}
	if impl == 0 {
		c.Missing("an implementation of processor.Event")
	}
	// the processors
	for _, n := range w.names {
		x.processor(w.procs[n])
	}
	for len(x.queue) > 0 {
		q := x.queue[0]
		x.queue = x.queue[1:]
		x.runRoot(q)
		// new kinds of arguments
		for _, q := range x.roots {
			if !q.done[q.key()] {
				x.queue = append(x.queue, q)
			}
		}
	}
}

// processor analyses Process after the construction of the processor.
func (x *effWorld) processor(pr *procRole) {
	c := x.c
	r := newEffRun(x, "C18-processor", pr.name)
	cl := &Client{Model: x.w.model, PlainMaps: true, SplitLoops: true}
	r.e = NewEngine(c.P, cl)
	cfg := mkT(OpParam, "config", 0, pr.cfg, true, pr.newFn, nil)
	evt := mkT(OpParam, "event", 1, x.w.evtI, true, pr.process, nil)
	r.kind = func(t *Term) []origin {
		switch t {
		case evt:
			return []origin{{kind: "event", desc: "the event"}}
		case cfg:
			return []origin{{kind: "shared", desc: "the configuration"}}
		}
		return []origin{{kind: "shared", desc: t.String()}}
	}
	type built struct {
		st  *State
		obj *Term
	}
	var bs []built
	cl.OnReturn = func(s *State, rets []*Term) {
		if s.F.eval(mkEq(rets[1], mkNil())) == no || s.F.eval(mkEq(rets[0], mkNil())) == yes {
			return
		}
		t := s.clone()
		t.F.assume(mkEq(rets[1], mkNil()), true)
		bs = append(bs, built{t, rets[0]})
	}
	r.e.Run(pr.newFn, []*Term{cfg}, nil)
	cl.OnReturn = nil
	cl.OnEvent = r.record
	for _, b := range bs {
		b := b
		for o := range b.st.obj {
			r.pre[o] = true
		}
		r.e.Run(pr.process, []*Term{b.obj, evt}, func(s *State) {
			t := b.st.clone()
			s.mem, s.ver, s.gver, s.mver, s.obj, s.F = t.mem, t.ver, t.gver, t.mver, t.obj, t.F
		})
	}
	if len(bs) == 0 {
		c.Bad("undecided", pr.newFn.String(), c.P.Pos(pr.newFn.Pos()), "the constructor never returns a processor")
	}
	c.account(pr.process, r.e)
	r.check()
}
