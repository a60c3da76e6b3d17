package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Deref describes an operation that panics for some values.
type Deref struct {
	Kind  string // nil, bounds, assert, nilmap, nilfunc, nilcall
	Base  *Term
	Cond  *Term // must hold
	Instr ssa.Instruction
}

type LoopVarRec struct {
	Var    *Term
	Inits  map[*Term]bool
	Firsts map[*Term]bool // values after the first iteration
	Steps  map[*Term]bool // values after a later iteration, in terms of Var
}

type LoopRec struct {
	Key   string
	Fn    *ssa.Function
	Hdr   *ssa.BasicBlock
	Ctx   string
	Vars  map[*Term]*LoopVarRec
	Back  int
	Iters []Iter
}

// Iter is one iteration that reached the loop header again.
type Iter struct {
	First  bool
	Events []*Event
	St     *State
	Start  map[*Term]*Term // loop variables at the start and at the end
	End    map[*Term]*Term
	Mem    map[*Term][2]*Term // memory that the iteration changed: its value before and after (nil: unknown)
}

type Client struct {
	Opaque     func(s *State, fn *ssa.Function, args []*Term) bool
	Model      func(s *State, c *CallCtx) (res []*Term, handled bool)
	OnEvent    func(s *State, ev *Event) bool         // true: keep in the trace
	After      func(s *State, ev *Event, res []*Term) // after the effects of a call
	OnBack     func(s *State, lp *LoopRec, first bool, iter []*Event)
	OnLoop     func(s *State, lp *LoopRec, entry bool, vals map[*Term]*Term) // values of the loop variables
	OnReturn   func(s *State, rets []*Term)
	OnPanic    func(s *State, p *ssa.Panic, v *Term)
	OnExit     func(s *State, name string, args []*Term) // the program ends
	OnDeref    func(s *State, d Deref)
	OnCut      func(s *State, t *Transition) // a loop header or the end is reached
	KeepIters  bool
	SplitLoops bool // separate loop variables for each distinct state at loop entry
	PlainMaps  bool // treat every map iteration alike, whatever is known about its length
	Budget     int
	NoDup      bool
	Distinct   func(a, b *Term) bool // objects that are assumed to be different
	NeverNil   func(t *Term) bool    // values that are known not to be nil
	KeepSlices bool                  // loop variables that are parts of a list remain lists

	// LoopSum describes a loop by what it computes; it is then not run.
	LoopSum func(e *Engine, s *State, h *ssa.BasicBlock) *LoopSum
}

// LoopSum is the effect of a loop: the ways out of it with the values that are
// known there.
type LoopSum struct{ Exits []LoopExit }

type LoopExit struct {
	From, To *ssa.BasicBlock
	Env      map[ssa.Value]*Term
	Then     func(s *State)
}

// Cut is the arrival at a loop header: the values of the loop variables and of
// the memory there.
type Cut struct {
	Key    string
	Vals   map[*Term]*Term
	Mem    map[*Term]*Term
	Parent *Cut // of the enclosing loop
	id     int
}

// Transition leads from one cut (nil: the start) to the next (or a return).
type Transition struct {
	From, Parent *Cut
	To           string // "": return
	Vals, Mem    map[*Term]*Term
	Rets         []*Term
	St           *State
}

// cutAt notes the arrival at a loop header: vals are the values that arrive,
// keep those that are known from then on.
func (e *Engine) cutTo(s *State, key string, vals map[*Term]*Term) *Cut {
	if e.C.OnCut == nil {
		return nil
	}
	active := map[string]bool{}
	for _, f := range s.frames {
		for _, l := range f.loops {
			active[l.key] = true
		}
	}
	p := s.cut
	for p != nil && (p.Key == key || !active[p.Key]) {
		p = p.Parent
	}
	e.C.OnCut(s, &Transition{From: s.cut, Parent: p, To: key, Vals: vals, Mem: copyMem(s.mem), St: s.clone()})
	return p
}

func (e *Engine) arrive(s *State, key string, vals map[*Term]*Term, parent *Cut) {
	if e.C.OnCut == nil {
		return
	}
	c := &Cut{Key: key, Vals: vals, Mem: copyMem(s.mem), Parent: parent}
	k := key
	var ks []string
	for _, m := range []map[*Term]*Term{c.Vals, c.Mem} {
		for a, v := range m {
			ks = append(ks, fmt.Sprintf("%d=%d", a.ID, v.ID))
		}
	}
	sort.Strings(ks)
	k += strings.Join(ks, ",")
	if parent != nil {
		k += fmt.Sprint("/", parent.id)
	}
	if e.cuts == nil {
		e.cuts = map[string]*Cut{}
	}
	if old := e.cuts[k]; old != nil {
		c = old
	} else {
		c.id = len(e.cuts) + 1
		e.cuts[k] = c
	}
	s.cut = c
}

func copyMem(m map[*Term]*Term) map[*Term]*Term {
	out := make(map[*Term]*Term, len(m))
	for k, v := range m {
		out[k] = v
	}
	return out
}

type CallCtx struct {
	Instr  ssa.CallInstruction
	Fn     *ssa.Function
	Method *types.Func
	FnVal  *Term
	Args   []*Term
	Site   string
	Sig    *types.Signature
	Name   string
}

type loopInfo struct {
	headers map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	live    map[*ssa.BasicBlock]map[ssa.Value]bool
}

type Engine struct {
	P        *Prog
	C        *Client
	infos    map[*ssa.Function]*loopInfo
	work     []*State
	visited  map[string]bool
	Loops    map[string]*LoopRec
	widen    map[*Term][4]int64 // lo, hasLo, hi, hasHi
	relWiden map[[2]*Term]int64
	cuts     map[string]*Cut
	copyVer  map[*Term]*Term // lists copied by append -> version of the elements then, nil if several
	events   map[string]*Event
	traces   map[string]*Trace
	Cells    map[*Term]*Term // the addresses of loop variables in memory
	entries  map[string]int
	Steps    int
	Paths    int
	Blocks   map[*ssa.BasicBlock]bool
	Funcs    map[*ssa.Function]bool
	Calls    int
	Err      error
	budget   int
}

func NewEngine(p *Prog, c *Client) *Engine {
	e := &Engine{P: p, C: c, infos: map[*ssa.Function]*loopInfo{}, visited: map[string]bool{}, Loops: map[string]*LoopRec{},
		widen: map[*Term][4]int64{}, relWiden: map[[2]*Term]int64{}, copyVer: map[*Term]*Term{}, events: map[string]*Event{}, traces: map[string]*Trace{},
		Blocks: map[*ssa.BasicBlock]bool{}, Funcs: map[*ssa.Function]bool{}}
	e.budget = c.Budget
	if e.budget == 0 {
		e.budget = 600000
	}
	return e
}

func (e *Engine) stable(class string) bool { return e.P.stable(class) }

func (e *Engine) inModuleType(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return true
	}
	return n.Obj().Pkg() != nil && e.P.isModPath(n.Obj().Pkg().Path())
}

// siteIDs numbers instructions across all analyses of a run, because terms
// are shared.
var siteIDs = map[ssa.Instruction]int{}

func (e *Engine) site(i ssa.Instruction) string {
	if n, ok := siteIDs[i]; ok {
		return strconv.Itoa(n)
	}
	n := len(siteIDs) + 1
	siteIDs[i] = n
	return strconv.Itoa(n)
}

func (e *Engine) info(fn *ssa.Function) *loopInfo {
	if li, ok := e.infos[fn]; ok {
		return li
	}
	li := &loopInfo{headers: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, p := range b.Preds {
			if b.Dominates(p) {
				body := li.headers[b]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{b: true}
					li.headers[b] = body
				}
				st := []*ssa.BasicBlock{p}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if body[x] {
						continue
					}
					body[x] = true
					st = append(st, x.Preds...)
				}
			}
		}
	}
	li.live = liveness(fn)
	e.infos[fn] = li
	return li
}

// liveness computes the values live at the entry of each block.
func liveness(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	track := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s] {
					live[v] = true
				}
				for _, ins := range s.Instrs {
					phi, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, phi)
					for j, p := range s.Preds {
						if p == b && track(phi.Edges[j]) {
							live[phi.Edges[j]] = true
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if v, ok := ins.(ssa.Value); ok {
					if _, isPhi := ins.(*ssa.Phi); !isPhi {
						delete(live, v)
					}
				}
				if _, isPhi := ins.(*ssa.Phi); isPhi {
					live[ins.(ssa.Value)] = true // phis are bound on entry
					continue
				}
				var ops []*ssa.Value
				for _, op := range ins.Operands(ops) {
					if op != nil && *op != nil && track(*op) {
						live[*op] = true
					}
				}
			}
			if len(live) != len(in[b]) {
				in[b] = live
				changed = true
			}
		}
	}
	return in
}

// Run analyses fn as a root with the given parameter values.
func (e *Engine) Run(fn *ssa.Function, params []*Term, init func(*State)) {
	if len(fn.Blocks) == 0 {
		e.Err = fmt.Errorf("%s has no body", fn)
		return
	}
	s := &State{e: e, mem: map[*Term]*Term{}, ver: map[string]*Term{}, gver: mkVer("0", nil), mver: mkVer("0", nil), obj: map[*Term]objState{}, F: newFacts(), Mon: map[string]string{}}
	f := &Frame{fn: fn, env: map[ssa.Value]*Term{}, block: fn.Blocks[0]}
	if params == nil {
		params = rootParams(fn)
	}
	for i, p := range fn.Params {
		f.env[p] = params[i]
	}
	for _, fv := range fn.FreeVars {
		f.env[fv] = mkT(OpParam, "free "+fv.Name(), 0, fv.Type(), true, fv, nil)
	}
	s.frames = []*Frame{f}
	if init != nil {
		init(s)
	}
	e.Funcs[fn] = true
	if !e.enter(s, fn.Blocks[0], nil) {
		return
	}
	e.work = append(e.work, s)
	e.drain(fn)
}

func (e *Engine) drain(fn *ssa.Function) {
	for len(e.work) > 0 && e.Err == nil {
		st := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		e.exec(st)
		if e.Steps > e.budget {
			e.Err = fmt.Errorf("analysis of %s exceeds the budget of %d steps", fn, e.budget)
		}
	}
}

// RunAfter analyses fn as a later call: in state s, in which another function
// has returned.
func (e *Engine) RunAfter(s *State, fn *ssa.Function, params []*Term, ctx string) {
	if len(fn.Blocks) == 0 {
		e.Err = fmt.Errorf("%s has no body", fn)
		return
	}
	s = s.clone()
	f := &Frame{fn: fn, ctx: ctx, env: map[ssa.Value]*Term{}, block: fn.Blocks[0]}
	for i, p := range fn.Params {
		f.env[p] = params[i]
	}
	s.frames = []*Frame{f}
	e.Funcs[fn] = true
	if e.enter(s, fn.Blocks[0], nil) {
		e.work = append(e.work, s)
		e.drain(fn)
	}
}

func rootParams(fn *ssa.Function) []*Term {
	var out []*Term
	for i, p := range fn.Params {
		name := p.Name()
		if name == "" || name == "_" {
			name = fmt.Sprintf("arg%d", i)
		}
		out = append(out, mkT(OpParam, name, int64(i), p.Type(), true, p, nil))
	}
	return out
}

func (e *Engine) val(s *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return mkConst(x)
	case *ssa.Global:
		return mkT(OpGlobal, x.Pkg.Pkg.Name()+"."+x.Name(), 0, x.Type(), false, x, nil)
	case *ssa.Function:
		return mkT(OpFunc, x.String(), 0, x.Type(), false, x, nil)
	case *ssa.Builtin:
		return mkT(OpFunc, "builtin "+x.Name(), 0, x.Type(), false, x, nil)
	}
	if t, ok := s.top().env[v]; ok {
		return t
	}
	// Not computed on this path (dead value).
	return mkT(OpSym, "undef "+v.Name(), 0, v.Type(), false, v, nil)
}

func (e *Engine) bind(s *State, v ssa.Value, t *Term) {
	s.top().env[v] = t
}

func (e *Engine) deref(s *State, kind string, base, cond *Term, i ssa.Instruction) {
	if e.C.OnDeref != nil {
		e.C.OnDeref(s, Deref{Kind: kind, Base: base, Cond: cond, Instr: i})
	}
	// Execution continues only if the operation did not panic.
	if cond != nil {
		s.F.assume(cond, true)
	}
}

func (e *Engine) emit(s *State, ev *Event) *Event {
	var sb strings.Builder
	sb.WriteString(ev.Kind + "|" + ev.Ctx + "|" + ev.Loop + "|" + ev.Eff)
	if ev.Instr != nil {
		sb.WriteString("|" + e.site(ev.Instr))
	}
	for _, a := range ev.Args {
		fmt.Fprintf(&sb, ",%d", a.ID)
	}
	for _, a := range []*Term{ev.Res, ev.Addr, ev.Val} {
		if a != nil {
			fmt.Fprintf(&sb, ";%d", a.ID)
		}
	}
	ev.key = sb.String()
	ev.Facts = s.F
	if e.C.OnEvent != nil && !e.C.OnEvent(s, ev) {
		return ev
	}
	if e.C.OnEvent == nil {
		return ev
	}
	s.tr = e.push(s.tr, ev)
	return ev
}

func (e *Engine) push(t *Trace, ev *Event) *Trace {
	pid, n := 0, 0
	if t != nil {
		pid, n = t.id, t.n
	}
	k := strconv.Itoa(pid) + "#" + ev.key
	if x, ok := e.traces[k]; ok {
		return x
	}
	cp := *ev
	if ev.Facts != nil {
		cp.Facts = ev.Facts.clone()
	}
	x := &Trace{Ev: &cp, Parent: t, id: len(e.traces) + 1, n: n + 1}
	e.traces[k] = x
	return x
}

// enter moves s to block b; it reports false if the state was seen before or
// the path ends there.
func (e *Engine) enter(s *State, b, from *ssa.BasicBlock) bool {
	f := s.top()
	li := e.info(f.fn)
	e.Blocks[b] = true
	for len(f.loops) > 0 {
		l := f.loops[len(f.loops)-1]
		if li.headers[l.hdr][b] {
			break
		}
		f.loops = f.loops[:len(f.loops)-1]
	}
	// parallel assignment of phis
	var phis []*ssa.Phi
	var vals, raws []*Term
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		for j, p := range b.Preds {
			if p == from {
				phis = append(phis, phi)
				raw := e.val(s, phi.Edges[j])
				raws = append(raws, raw)
				vals = append(vals, s.F.resolve(raw))
				break
			}
		}
	}
	if body, isHdr := li.headers[b]; isHdr {
		if e.C.LoopSum != nil && (from == nil || !body[from]) {
			for i, p := range phis {
				f.env[p] = vals[i]
			}
			if ls := e.C.LoopSum(e, s, b); ls != nil {
				for i, x := range ls.Exits {
					t := s
					if i < len(ls.Exits)-1 {
						t = s.clone()
					}
					tf := t.top()
					for v := range tf.env {
						if ins, ok := v.(ssa.Instruction); ok && body[ins.Block()] {
							delete(tf.env, v)
						}
					}
					for v, x := range x.Env {
						tf.env[v] = x
					}
					if x.Then != nil {
						x.Then(t)
					}
					ok := e.enter(t, x.To, x.From)
					if i == len(ls.Exits)-1 {
						return ok
					}
					if ok {
						e.work = append(e.work, t)
					}
				}
				return false
			}
		}
		if from != nil && body[from] && e.lastNext(s, b) {
			for i, p := range phis {
				f.env[p] = vals[i]
			}
		} else if from != nil && body[from] {
			if !e.backEdge(s, b, body, phis, vals, raws) {
				return false
			}
			f = s.top()
		} else {
			key := f.ctx + "@" + strconv.Itoa(e.blockID(b))
			al := &activeLoop{hdr: b, key: key, entryPhis: map[*ssa.Phi]*Term{}, entryMem: map[*Term]*Term{}, entryTrace: s.tr, first: true, mark: s.tr}
			if e.C.KeepIters {
				al.startMem = al.entryMem
			}
			for k, v := range s.mem {
				al.entryMem[k] = v
			}
			var ids []string
			for i, p := range phis {
				al.entryPhis[p] = vals[i]
				ids = append(ids, strconv.Itoa(vals[i].ID))
			}
			if s.tr != nil {
				ids = append(ids, "T"+strconv.Itoa(s.tr.id))
			}
			var ms []string
			for k, v := range s.mem {
				ms = append(ms, fmt.Sprintf("%d=%d", k.ID, v.ID))
			}
			sort.Strings(ms)
			if e.C.SplitLoops {
				ek := key + "|"
				for _, v := range vals {
					ek += strconv.Itoa(v.ID) + ","
				}
				ek += strings.Join(ms, ",")
				if e.entries == nil {
					e.entries = map[string]int{}
				}
				n, ok := e.entries[ek]
				if !ok {
					n = len(e.entries) + 1
					e.entries[ek] = n
				}
				key += "~" + strconv.Itoa(n)
				al.key = key
			}
			al.id = strings.Join(ids, ",") + "/" + strings.Join(ms, ",")
			f.loops = append(f.loops, al)
			for i, p := range phis {
				f.env[p] = vals[i]
			}
			rec := e.loopRec(key, f, b)
			al.start = map[*Term]*Term{}
			for i, p := range phis {
				al.start[e.loopVar(key, p.Name(), p.Comment, p.Type())] = vals[i]
			}
			lv := map[*Term]*Term{}
			for i, p := range phis {
				v := e.loopVar(key, p.Name(), p.Comment, p.Type())
				e.varRec(rec, v).Inits[vals[i]] = true
				lv[v] = raws[i]
			}
			if e.C.OnLoop != nil {
				e.C.OnLoop(s, rec, true, lv)
			}
			if e.C.OnCut != nil {
				e.arrive(s, key, al.start, e.cutTo(s, key, lv))
			}
		}
	} else {
		for i, p := range phis {
			f.env[p] = vals[i]
		}
	}
	f.block, f.prev, f.pc = b, from, len(phis)
	// drop dead values
	live := li.live[b]
	for v := range f.env {
		if !live[v] {
			delete(f.env, v)
		}
	}
	if len(b.Preds) > 1 {
		k := s.key()
		if e.visited[k] {
			return false
		}
		e.visited[k] = true
	}
	return true
}

var blockIDs = map[*ssa.BasicBlock]int{}

func (e *Engine) blockID(b *ssa.BasicBlock) int {
	if n, ok := blockIDs[b]; ok {
		return n
	}
	n := len(blockIDs) + 1
	blockIDs[b] = n
	return n
}

func (e *Engine) loopRec(key string, f *Frame, b *ssa.BasicBlock) *LoopRec {
	r := e.Loops[key]
	if r == nil {
		r = &LoopRec{Key: key, Fn: f.fn, Hdr: b, Ctx: f.ctx, Vars: map[*Term]*LoopVarRec{}}
		e.Loops[key] = r
	}
	return r
}

func (e *Engine) varRec(r *LoopRec, v *Term) *LoopVarRec {
	vr := r.Vars[v]
	if vr == nil {
		vr = &LoopVarRec{Var: v, Inits: map[*Term]bool{}, Firsts: map[*Term]bool{}, Steps: map[*Term]bool{}}
		r.Vars[v] = vr
	}
	return vr
}

func (e *Engine) loopVar(key, name, comment string, t types.Type) *Term {
	n := name
	if comment != "" {
		n = comment + "(" + name + ")"
	}
	return mkT(OpLoopVar, n+"@"+key, 0, t, false, key, []string{key})
}

func (e *Engine) backEdge(s *State, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, phis []*ssa.Phi, vals, raws []*Term) bool {
	f := s.top()
	// inner loops are left
	for len(f.loops) > 0 && f.loops[len(f.loops)-1].hdr != h {
		f.loops = f.loops[:len(f.loops)-1]
	}
	if len(f.loops) == 0 {
		e.Err = fmt.Errorf("irreducible loop in %s", f.fn)
		return false
	}
	old := f.loops[len(f.loops)-1]
	key := old.key
	rec := e.loopRec(key, f, h)
	rec.Back++
	iter := traceSince(s.tr, old.mark)
	if e.C.KeepIters || e.C.OnBack != nil {
		if e.C.KeepIters {
			it := Iter{First: old.first, Events: iter, St: s.clone(), Start: old.start, End: map[*Term]*Term{}, Mem: map[*Term][2]*Term{}}
			for i, p := range phis {
				it.End[e.loopVar(key, p.Name(), p.Comment, p.Type())] = raws[i]
			}
			for a, v := range old.startMem {
				if s.mem[a] != v {
					it.Mem[a] = [2]*Term{v, s.mem[a]}
				}
			}
			for a, v := range s.mem {
				if _, ok := old.startMem[a]; !ok && v != nil && s.zeroInit(a) && !hasStr(rootOf(a).loops, key) {
					if z := zeroOf(cellType(a)); z != v {
						it.Mem[a] = [2]*Term{z, v}
					}
				}
			}
			rec.Iters = append(rec.Iters, it)
		}
		if e.C.OnBack != nil {
			e.C.OnBack(s, rec, old.first, iter)
		}
	}
	if e.C.OnLoop != nil {
		lv := map[*Term]*Term{}
		for i, p := range phis {
			lv[e.loopVar(key, p.Name(), p.Comment, p.Type())] = raws[i]
		}
		e.C.OnLoop(s, rec, false, lv)
	}
	isLocal := func(t *Term) bool { return hasStr(t.loops, key) }
	var outer *Cut
	if e.C.OnCut != nil {
		lv := map[*Term]*Term{}
		for i, p := range phis {
			lv[e.loopVar(key, p.Name(), p.Comment, p.Type())] = raws[i]
		}
		outer = e.cutTo(s, key, lv)
	}

	oldF := s.F
	newF := oldF.filter(func(t *Term) bool { return !isLocal(t) })

	var carry func(v, raw *Term, entry *Term, lv *Term, constOnly bool) *Term
	carry = func(v, raw *Term, entry *Term, lv *Term, constOnly bool) *Term {
		if v.Op == OpSlice && !e.C.KeepSlices && !isLocal(v.Args[0]) && v.Args[2] == mkLen(v.Args[0]) && lv.Op == OpLoopVar {
			// the rest of a list: only the position changes
			k := mkT(OpLoopVar, "from·"+lv.Aux, 0, types.Typ[types.Int], false, key, []string{key})
			lo := v.Args[1]
			return mkSlice(v.Args[0], carry(lo, lo, nil, k, false), v.Args[2], v.Typ)
		}
		rv := v
		if raw.Op == OpLin || raw.Op == OpLoopVar {
			rv = raw
		}
		vr := e.varRec(rec, lv)
		if old.first {
			vr.Firsts[v] = true
		} else {
			vr.Steps[rv] = true
		}
		if v == entry && !isLocal(v) {
			return v
		}
		if v.isNil() || v.isTrue() || v.isFalse() {
			return v
		}
		if v.isConst() && constOnly {
			return v
		}
		// new value bound to the loop variable, with its abstract properties
		n := lv
		if nilable(v.Typ) || nilable(lv.Typ) {
			switch oldF.isNilTri(v) {
			case yes:
				return mkNil()
			case no:
				newF.assume(mkEq(n, mkNil()), false)
			}
		}
		if _, enum := lv.Typ.(*types.Named); enum && isIntType(lv.Typ) {
			// the values that an enumeration does not have
			for _, c := range oldF.neqc[v] {
				newF.assume(mkEq(n, c), false)
			}
		}
		if isIntTerm(v) || isIntType(lv.Typ) {
			lo, hasLo, hi, hasHi := oldF.bounds(v)
			w, seen := e.widen[n]
			b2i := func(b bool) int64 {
				if b {
					return 1
				}
				return 0
			}
			if !seen {
				w = [4]int64{lo, b2i(hasLo), hi, b2i(hasHi)}
			} else {
				if w[1] == 1 && !hasLo {
					w[1] = 0
				} else if w[1] == 1 && lo < w[0] {
					// widen to the next threshold
					switch {
					case lo >= 1:
						w[0] = 1
					case lo >= 0:
						w[0] = 0
					case lo >= -1:
						w[0] = -1
					default:
						w[1] = 0
					}
				}
				if w[3] == 1 && (!hasHi || hi > w[2]) {
					w[3] = 0
				}
			}
			e.widen[n] = w
			if w[1] == 1 {
				newF.addDiff(nil, n, -w[0])
			}
			if w[3] == 1 {
				newF.addDiff(n, nil, w[2])
			}
			// upper bounds relative to values of before the loop
			b, o := linParts(raw)
			xs := map[*Term]bool{}
			for k := range oldF.zone {
				for _, x := range k {
					if x != nil && x != b && !isLocal(x) {
						xs[x] = true
					}
				}
			}
			for x := range xs {
				d, ok := oldF.dist(b, x)
				if !ok {
					continue
				}
				d += o
				wk := [2]*Term{n, x}
				if w, seen := e.relWiden[wk]; !seen {
					e.relWiden[wk] = d
				} else if d > w {
					continue
				} else {
					d = w
				}
				newF.addDiff(n, x, d)
			}
		}
		if isStrBytesOrSlice(lv.Typ) {
			lo, hasLo, hi, hasHi := oldF.bounds(mkLen(v))
			switch {
			case hasHi && hi <= 0:
				newF.addDiff(mkLen(n), nil, 0)
			case hasLo && lo >= 1:
				newF.addDiff(nil, mkLen(n), -1)
			}
		}
		return n
	}

	// phis
	newPhi := make([]*Term, len(phis))
	for i, p := range phis {
		lv := e.loopVar(key, p.Name(), p.Comment, p.Type())
		newPhi[i] = carry(vals[i], raws[i], old.entryPhis[p], lv, constPhi(p))
	}
	// memory
	newMem := map[*Term]*Term{}
	newObj := map[*Term]objState{}
	mapLens := map[*Term]bool{}
	for i := range phis {
		if mapTypeOf(phis[i].Type()) != nil && newPhi[i].Op == OpLoopVar {
			ml := s.mapLen(vals[i])
			if _, _, hi, ok := oldF.bounds(ml); ok && hi <= 0 {
				mapLens[newPhi[i]] = true
			}
		}
	}
	addrs := make([]*Term, 0, len(s.mem))
	for a := range s.mem {
		addrs = append(addrs, a)
	}
	sort.Slice(addrs, func(i, j int) bool { return addrs[i].ID < addrs[j].ID })
	for _, a := range addrs {
		v := s.mem[a]
		if isLocal(a) {
			continue
		}
		ent, had := old.entryMem[a]
		if had && ent == v {
			newMem[a] = v
			continue
		}
		if v.Op == OpAbsent {
			newMem[a] = v
			continue
		}
		lv := e.loopVar(key, "mem:"+strconv.Itoa(a.ID), strings.TrimPrefix(a.String(), "&"), cellType(a))
		if e.Cells == nil {
			e.Cells = map[*Term]*Term{}
		}
		e.Cells[lv] = a
		if !had {
			// the content at loop entry: what a load there gave
			ent = nil
		}
		r := e.varRec(rec, lv)
		if ent != nil {
			r.Inits[ent] = true
		} else if o, ok := s.obj[rootOf(a)]; ok && o.zero && a.Op != OpMapCell {
			r.Inits[zeroOf(cellType(a))] = true
		}
		newMem[a] = carry(s.F.resolve(v), v, ent, lv, false)
	}
	for o, st := range s.obj {
		if !isLocal(o) {
			if mapTypeOf(o.Typ) != nil && st.complete {
				// members added in the loop under loop-local keys are unknown
				for c := range s.mem {
					if c.Op == OpMapCell && c.Args[0] == o && isLocal(c) {
						st.complete = false
					}
				}
			}
			newObj[o] = st
		}
	}
	// versions
	newVer := map[string]*Term{}
	loopV := func(c string) *Term { return mkVer("loop "+key+" "+c, []string{key}) }
	for c, v := range s.ver {
		if strings.HasPrefix(c, "O:") {
			id, _ := strconv.Atoi(c[2:])
			if isLocal(tt.list[id]) {
				continue
			}
		}
		if isLocal(v) {
			v = loopV(c)
		}
		newVer[c] = v
	}
	gver, mver := s.gver, s.mver
	if isLocal(gver) {
		gver = loopV("*")
	}
	if isLocal(mver) {
		mver = loopV("*")
	}
	s.mem, s.obj, s.ver, s.gver, s.mver, s.F = newMem, newObj, newVer, gver, mver, newF
	for m := range mapLens {
		s.F.addDiff(s.mapLen(m), nil, 0)
	}
	// environment
	nf := f.clone()
	for v := range nf.env {
		if ins, ok := v.(ssa.Instruction); ok && body[ins.Block()] {
			delete(nf.env, v)
		}
	}
	for i, p := range phis {
		nf.env[p] = newPhi[i]
	}
	mark := e.push(old.entryTrace, &Event{Kind: "loop", Loop: key, key: "loop|" + key})
	nl := *old
	nl.first = false
	nl.start = map[*Term]*Term{}
	for i, p := range phis {
		nl.start[e.loopVar(key, p.Name(), p.Comment, p.Type())] = newPhi[i]
	}
	nl.mark = mark
	if e.C.KeepIters {
		nl.startMem = copyMem(newMem)
	}
	nf.loops[len(nf.loops)-1] = &nl
	s.frames = append(append([]*Frame(nil), s.frames[:len(s.frames)-1]...), nf)
	s.tr = mark
	e.arrive(s, key, nl.start, outer)
	return true
}

// purge of facts in frames below the top is not needed: their values were
// computed before the loop was entered.

func isStrBytesOrSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Slice:
		return true
	}
	return isStringType(t)
}

// constPhi: every value that flows into the phi is a constant.
func constPhi(p *ssa.Phi) bool {
	seen := map[*ssa.Phi]bool{}
	var ok func(p *ssa.Phi) bool
	ok = func(p *ssa.Phi) bool {
		if seen[p] {
			return true
		}
		seen[p] = true
		for _, x := range p.Edges {
			switch y := x.(type) {
			case *ssa.Const:
			case *ssa.Phi:
				if !ok(y) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return ok(p)
}

func (e *Engine) exec(s *State) {
	for {
		if e.Err != nil {
			return
		}
		f := s.top()
		if f.pc >= len(f.block.Instrs) {
			e.Err = fmt.Errorf("fell off block in %s", f.fn)
			return
		}
		ins := f.block.Instrs[f.pc]
		e.Steps++
		if e.Steps > e.budget {
			return
		}
		switch x := ins.(type) {
		case *ssa.If:
			c := e.val(s, x.Cond)
			if e.C.NeverNil != nil {
				anySub(c, func(t *Term) bool {
					if t.Op == OpEq && (t.Args[0].isNil() && e.C.NeverNil(t.Args[1]) || t.Args[1].isNil() && e.C.NeverNil(t.Args[0])) {
						s.F.assume(t, false)
					}
					return false
				})
			}
			switch s.F.eval(c) {
			case yes:
				if !e.enter(s, f.block.Succs[0], f.block) {
					return
				}
				continue
			case no:
				if !e.enterFalse(s, f) {
					return
				}
				continue
			}
			t := s.clone()
			okT := s.F.assume(c, true)
			okF := t.F.assume(c, false)
			if okF {
				if e.enterFalse(t, t.top()) {
					e.work = append(e.work, t)
				}
			}
			if okT {
				if !e.enter(s, f.block.Succs[0], f.block) {
					return
				}
				continue
			}
			return
		case *ssa.Jump:
			if !e.enter(s, f.block.Succs[0], f.block) {
				return
			}
			continue
		case *ssa.Return:
			var rets []*Term
			for _, r := range x.Results {
				rets = append(rets, e.val(s, r))
			}
			if len(s.frames) == 1 {
				e.Paths++
				if e.C.OnReturn != nil {
					e.C.OnReturn(s, rets)
				}
				return
			}
			e.ret(s, rets)
			continue
		case *ssa.Panic:
			e.Paths++
			if e.C.OnPanic != nil {
				e.C.OnPanic(s, x, e.val(s, x.X))
			}
			return
		case *ssa.RunDefers:
			if len(f.defers) == 0 {
				f.pc++
				continue
			}
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			// stay at this instruction until all ran
			e.call(s, d.instr, d.fn, d.args, true)
			if s.exited {
				return
			}
			continue
		default:
			e.instr(s, ins)
			if s.exited {
				return
			}
			if u, ok := ins.(*ssa.MapUpdate); ok && e.val(s, u.Map).isNil() {
				// panics
				e.Paths++
				return
			}
		}
	}
}

func (e *Engine) enterFalse(s *State, f *Frame) bool { return e.enter(s, f.block.Succs[1], f.block) }

func (e *Engine) ret(s *State, rets []*Term) {
	f := s.top()
	frames := append([]*Frame(nil), s.frames[:len(s.frames)-1]...)
	frames[len(frames)-1] = frames[len(frames)-1].clone()
	s.frames = frames
	if f.noRet {
		return
	}
	g := s.top()
	if v, ok := f.call.(ssa.Value); ok {
		e.setResult(g, v, rets)
	}
	g.pc++
}

func (e *Engine) setResult(g *Frame, v ssa.Value, rets []*Term) {
	if tup, ok := v.Type().(*types.Tuple); ok {
		if tup.Len() > 0 {
			g.env[v] = mkT(OpTuple, "", 0, v.Type(), false, nil, nil, rets...)
		}
		return
	}
	if len(rets) == 1 {
		g.env[v] = rets[0]
	}
}

func (e *Engine) instr(s *State, ins ssa.Instruction) {
	f := s.top()
	siteID := f.ctx + ":" + e.site(ins)
	f.pc++
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		a := mkT(OpAlloc, siteID, 0, x.Type(), false, x, s.loopKeys())
		e.dropObj(s, a)
		s.obj[a] = objState{zero: true}
		e.bind(s, x, a)
	case *ssa.MakeMap:
		a := mkT(OpAlloc, siteID, 0, x.Type(), false, x, s.loopKeys())
		e.dropObj(s, a)
		s.obj[a] = objState{zero: true, complete: true}
		e.bind(s, x, a)
	case *ssa.MakeSlice:
		n, cp := e.val(s, x.Len), e.val(s, x.Cap)
		e.deref(s, "makeslice", n, mkNot(mkLt(n, mkInt(0))), ins)
		if cp != n {
			e.deref(s, "makeslice", cp, mkNot(mkLt(cp, n)), ins)
		}
		a := mkT(OpAlloc, siteID, 0, x.Type(), false, x, s.loopKeys(), n)
		e.dropObj(s, a)
		s.obj[a] = objState{zero: true}
		e.bind(s, x, mkSlice(a, mkInt(0), n, x.Type()))
	case *ssa.MakeChan:
		a := mkT(OpAlloc, siteID, 0, x.Type(), false, x, s.loopKeys())
		s.obj[a] = objState{zero: true}
		e.bind(s, x, a)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, e.val(s, b))
		}
		fn := x.Fn.(*ssa.Function)
		e.bind(s, x, mkT(OpClosure, fn.String(), 0, x.Type(), false, fn, nil, bs...))
	case *ssa.MakeInterface:
		e.bind(s, x, mkIface(e.val(s, x.X), x.X.Type()))
	case *ssa.BinOp:
		a, b := e.val(s, x.X), e.val(s, x.Y)
		a, b = e.derived(s, a), e.derived(s, b)
		if x.Op == token.QUO || x.Op == token.REM {
			if isIntType(x.X.Type()) {
				e.deref(s, "div", b, mkNot(mkEq(b, mkInt(0))), ins)
			}
		}
		e.bind(s, x, mkBin(x.Op, a, b, x.Type(), x.X.Type()))
	case *ssa.UnOp:
		e.unop(s, x)
	case *ssa.ChangeType:
		e.bind(s, x, e.val(s, x.X))
	case *ssa.ChangeInterface:
		e.bind(s, x, e.val(s, x.X))
	case *ssa.Convert:
		e.bind(s, x, mkConv(e.val(s, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		e.bind(s, x, mkConv(e.val(s, x.X), x.X.Type(), x.Type()))
	case *ssa.SliceToArrayPointer:
		e.bind(s, x, mkT(OpConv, typeStr(x.Type()), 0, x.Type(), false, nil, nil, e.val(s, x.X)))
	case *ssa.FieldAddr:
		b := e.val(s, x.X)
		e.deref(s, "nil", b, mkNot(mkEq(b, mkNil())), ins)
		e.bind(s, x, mkFieldAddr(b, x.Field, x.Type()))
	case *ssa.Field:
		e.bind(s, x, mkField(e.val(s, x.X), x.Field, x.Type()))
	case *ssa.IndexAddr:
		b, i := e.val(s, x.X), e.derived(s, e.val(s, x.Index))
		if _, isPtr := x.X.Type().Underlying().(*types.Pointer); isPtr {
			e.deref(s, "nil", b, mkNot(mkEq(b, mkNil())), ins)
			n := derefOr(x.X.Type()).Underlying().(*types.Array).Len()
			e.deref(s, "bounds", b, mkLt(i, mkInt(n)), ins)
		} else {
			e.deref(s, "bounds", b, mkLt(i, mkLen(b)), ins)
		}
		e.deref(s, "bounds", b, mkNot(mkLt(i, mkInt(0))), ins)
		e.bind(s, x, mkIndexAddr(b, i, x.Type()))
	case *ssa.Index:
		b, i := e.val(s, x.X), e.derived(s, e.val(s, x.Index))
		n := mkLen(b)
		if a := arrayLen(x.X.Type()); a >= 0 {
			n = mkInt(int64(a))
		}
		e.deref(s, "bounds", b, mkLt(i, n), ins)
		e.deref(s, "bounds", b, mkNot(mkLt(i, mkInt(0))), ins)
		if b.Op == OpSliceLit && i.IsInt && i.N >= 0 && int(i.N) < len(b.Args) {
			e.bind(s, x, b.Args[i.N])
		} else {
			e.bind(s, x, mkIndex(b, i, x.Type()))
		}
	case *ssa.Lookup:
		m, k := e.val(s, x.X), e.val(s, x.Index)
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			v, okT := s.lookup(m, k, mt.Elem())
			if x.CommaOk {
				e.bind(s, x, mkT(OpTuple, "", 0, x.Type(), false, nil, nil, v, okT))
			} else {
				e.bind(s, x, v)
			}
		} else {
			k = e.derived(s, k)
			e.deref(s, "bounds", m, mkLt(k, mkLen(m)), ins)
			e.deref(s, "bounds", m, mkNot(mkLt(k, mkInt(0))), ins)
			e.bind(s, x, mkIndex(m, k, x.Type()))
		}
	case *ssa.Slice:
		e.sliceInstr(s, x)
	case *ssa.TypeAssert:
		e.typeAssert(s, x)
	case *ssa.Extract:
		t := e.val(s, x.Tuple)
		switch t.Op {
		case OpTuple:
			e.bind(s, x, t.Args[x.Index])
		case OpZero:
			e.bind(s, x, zeroOf(x.Type()))
		default:
			e.bind(s, x, mkT(OpCallRes, t.Aux, int64(x.Index), x.Type(), false, t.Ref, t.loops))
		}
	case *ssa.Range:
		m := e.val(s, x.X)
		ev := &Event{Kind: "range", Instr: ins, Ctx: f.ctx, Args: []*Term{m}}
		e.emit(s, ev)
		var v *Term
		if mapTypeOf(x.X.Type()) != nil {
			v = s.verOfMap(m)
		} else {
			v = mkVer("s", nil)
		}
		it := mkT(OpRange, siteID, 0, x.Type(), false, x, nil, m, v)
		delete(s.Mon, nextKey(it))
		e.bind(s, x, it)
	case *ssa.Next:
		it := e.val(s, x.Iter)
		lk := s.loopKeys()
		if more, known := e.mapMore(s, it); known && !more {
			e.bind(s, x, mkT(OpTuple, "", 0, x.Type(), false, nil, nil, mkBool(false), zeroOf(x.Type().(*types.Tuple).At(1).Type()), zeroOf(x.Type().(*types.Tuple).At(2).Type())))
			return
		}
		okT := mkT(OpNextOk, siteID, 0, types.Typ[types.Bool], false, x, lk, it)
		tup := x.Type().(*types.Tuple)
		k := mkT(OpMapKey, siteID, 0, tup.At(1).Type(), false, x, lk, it.Args[0])
		v := mkT(OpMapVal, siteID, 0, tup.At(2).Type(), false, x, lk, it.Args[0])
		if mt := mapTypeOf(it.Args[0].Typ); mt != nil {
			k.Typ, v.Typ = mt.Key(), mt.Elem()
		}
		// a new member: forget what is known about the previous one
		s.F = s.F.filter(func(t *Term) bool { return !contains(t, okT) && !contains(t, k) && !contains(t, v) })
		if more, known := e.mapMore(s, it); known && more {
			s.F.assume(okT, true)
		}
		if n := s.Mon[nextKey(it)]; n == "" {
			s.Mon[nextKey(it)] = "1"
		} else {
			s.Mon[nextKey(it)] = "2"
		}
		if m := it.Args[0]; mapTypeOf(m.Typ) != nil && m.Op != OpAlloc {
			s.mem[mkT(OpMapCell, "", 0, nil, false, nil, nil, m, k)] = v
		}
		e.bind(s, x, mkT(OpTuple, "", 0, x.Type(), false, nil, nil, okT, k, v))
	case *ssa.Store:
		a, v := e.val(s, x.Addr), e.val(s, x.Val)
		e.deref(s, "nil", a, mkNot(mkEq(a, mkNil())), ins)
		e.emit(s, &Event{Kind: "store", Instr: ins, Ctx: f.ctx, Addr: a, Val: v})
		s.store(a, v, derefOr(x.Addr.Type()), siteID)
	case *ssa.MapUpdate:
		m, k, v := e.val(s, x.Map), e.val(s, x.Key), e.val(s, x.Value)
		e.deref(s, "nilmap", m, mkNot(mkEq(m, mkNil())), ins)
		eff := ""
		if mt := mapTypeOf(m.Typ); mt != nil {
			if _, ok := s.lookup(m, k, mt.Elem()); ok.isFalse() || s.F.eval(ok) == no {
				eff = "new" // no member is overwritten
			}
		}
		e.emit(s, &Event{Kind: "mapset", Instr: ins, Ctx: f.ctx, Args: []*Term{m, k}, Val: v, Eff: eff})
		if !m.isNil() {
			s.mapSet(m, k, v, siteID)
		}
	case *ssa.Send:
		e.emit(s, &Event{Kind: "send", Instr: ins, Ctx: f.ctx, Args: []*Term{e.val(s, x.Chan), e.val(s, x.X)}})
		s.escape(e.val(s, x.X))
	case *ssa.Select:
		e.bind(s, x, mkT(OpCallRes, siteID, -1, x.Type(), false, x, s.loopKeys()))
		s.havocAll(siteID)
	case *ssa.Go:
		fn, args := e.callee(s, &x.Call)
		e.emit(s, &Event{Kind: "go", Instr: ins, Ctx: f.ctx, Args: append([]*Term{fn}, args...)})
		for _, a := range args {
			s.escape(a)
		}
		s.escape(fn)
	case *ssa.Defer:
		fn, args := e.callee(s, &x.Call)
		for i, d := range f.defers { // in a loop: the last one stands for all
			if d.instr == x {
				f.defers = append(append([]*deferred(nil), f.defers[:i]...), f.defers[i+1:]...)
				break
			}
		}
		f.defers = append(f.defers, &deferred{instr: x, fn: fn, args: args})
	case *ssa.Call:
		f.pc--
		fn, args := e.callee(s, &x.Call)
		e.call(s, x, fn, args, false)
	default:
		e.Err = fmt.Errorf("%s: unsupported instruction %T", f.fn, ins)
	}
}

func nextKey(it *Term) string { return "next:" + strconv.Itoa(it.ID) }

// mapMore decides the first two steps of a map iteration where the length of
// the map is known and the map was not modified.
func (e *Engine) mapMore(s *State, it *Term) (more, known bool) {
	if it.Op == OpRange && len(it.Args) == 2 && s.F.eval(mkEq(it.Args[0], mkNil())) == yes {
		return false, true
	}
	if e.C.PlainMaps {
		return false, false
	}
	if it.Op != OpRange || len(it.Args) != 2 || mapTypeOf(it.Args[0].Typ) == nil || s.verOfMap(it.Args[0]) != it.Args[1] {
		return false, false
	}
	lo, hasLo, hi, hasHi := s.F.bounds(s.mapLen(it.Args[0]))
	switch s.Mon[nextKey(it)] {
	case "":
		if hasHi && hi <= 0 {
			return false, true
		}
		return true, hasLo && lo >= 1
	case "1":
		return false, hasHi && hi <= 1
	}
	return false, false
}

// lastNext: the loop header at b asks a map iteration that is known to be over
// for its next member, so that the loop is certainly left.
func (e *Engine) lastNext(s *State, b *ssa.BasicBlock) bool {
	for _, ins := range b.Instrs {
		if n, ok := ins.(*ssa.Next); ok {
			it, bound := s.top().env[n.Iter]
			if !bound {
				return false
			}
			more, known := e.mapMore(s, it)
			return known && !more
		}
		if _, ok := ins.(*ssa.Phi); !ok {
			return false
		}
	}
	return false
}

// derived replaces a lookup that is known to miss by the zero value.
func (e *Engine) derived(s *State, t *Term) *Term {
	if t.Op == OpLookup && s.F.eval(mkT(OpLookupOk, "", 0, types.Typ[types.Bool], false, nil, nil, t.Args...)) == no && t.Typ != nil {
		return zeroOf(t.Typ)
	}
	return t
}

// dropObj removes what is known about a previous object of the same site.
func (e *Engine) dropObj(s *State, a *Term) {
	if _, ok := s.obj[a]; !ok {
		return
	}
	for k := range s.mem {
		if rootOf(k) == a {
			delete(s.mem, k)
		}
	}
}

func (e *Engine) callee(s *State, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	if c.IsInvoke() {
		args = append(args, e.val(s, c.Value))
	}
	for _, a := range c.Args {
		args = append(args, e.val(s, a))
	}
	if c.IsInvoke() {
		return nil, args
	}
	return e.val(s, c.Value), args
}

func (e *Engine) unop(s *State, x *ssa.UnOp) {
	v := e.val(s, x.X)
	switch x.Op {
	case token.MUL:
		e.deref(s, "nil", v, mkNot(mkEq(v, mkNil())), x)
		if g, ok := x.X.(*ssa.Global); ok && g.Name() != "init$guard" {
			if t := e.P.globalInit(g); t != nil {
				e.bind(s, x, t)
				return
			}
		}
		t := s.load(v, x.Type())
		if g, ok := x.X.(*ssa.Global); ok && nilable(x.Type()) && e.P.globalNonNil(g) {
			s.F.assume(mkEq(t, mkNil()), false)
		}
		e.bind(s, x, t)
	case token.NOT:
		e.bind(s, x, mkNot(v))
	case token.SUB:
		if v.IsInt {
			e.bind(s, x, mkInt(-v.N))
			return
		}
		e.bind(s, x, mkT(OpBin, "neg", 0, x.Type(), false, nil, nil, v))
	case token.ARROW:
		s.havocAll(e.site(x))
		e.bind(s, x, mkT(OpCallRes, s.top().ctx+":"+e.site(x), -1, x.Type(), false, x, s.loopKeys()))
	default:
		e.bind(s, x, mkT(OpBin, x.Op.String(), 0, x.Type(), false, nil, nil, v))
	}
}

func (e *Engine) sliceInstr(s *State, x *ssa.Slice) {
	b := e.val(s, x.X)
	var lo, hi *Term
	if x.Low != nil {
		lo = e.derived(s, e.val(s, x.Low))
	}
	if x.High != nil {
		hi = e.derived(s, e.val(s, x.High))
	}
	if _, isPtr := x.X.Type().Underlying().(*types.Pointer); isPtr {
		e.deref(s, "nil", b, mkNot(mkEq(b, mkNil())), x)
	}
	n := mkLen(b)
	if hi != nil && x.Max == nil {
		if isStringType(x.X.Type()) {
			e.deref(s, "bounds", b, mkNot(mkLt(n, hi)), x)
		} else if s.F.eval(mkLt(n, hi)) != no {
			e.deref(s, "cap", b, mkNot(mkLt(mkT(OpCap, "", 0, types.Typ[types.Int], false, nil, nil, b), hi)), x)
		}
		if lo != nil {
			e.deref(s, "bounds", b, mkNot(mkLt(hi, lo)), x)
		} else {
			e.deref(s, "bounds", b, mkNot(mkLt(hi, mkInt(0))), x)
		}
	} else if lo != nil && hi == nil {
		e.deref(s, "bounds", b, mkNot(mkLt(n, lo)), x)
	}
	if lo != nil {
		e.deref(s, "bounds", b, mkNot(mkLt(lo, mkInt(0))), x)
	}
	e.bind(s, x, mkSlice(b, lo, hi, x.Type()))
}

func mkAssert(x *Term, t types.Type) *Term {
	return mkT(OpAssert, "", 0, t, true, nil, nil, x)
}

func mkAssertOk(x *Term, t types.Type) *Term {
	return mkT(OpAssertOk, "", 0, t, true, nil, nil, x)
}

func (e *Engine) typeAssert(s *State, x *ssa.TypeAssert) {
	v := e.val(s, x.X)
	_, toI := x.AssertedType.Underlying().(*types.Interface)
	var okT, val *Term
	switch {
	case v.isNil():
		okT, val = mkBool(false), zeroOf(x.AssertedType)
	case v.Op == OpIface:
		if assertHolds(v.Typ, x.AssertedType) {
			okT = mkBool(true)
			val = v.Args[0]
			if toI {
				val = v
			}
		} else {
			okT, val = mkBool(false), zeroOf(x.AssertedType)
		}
	default:
		okT = mkAssertOk(v, x.AssertedType)
		if toI && types.Identical(x.X.Type(), x.AssertedType) {
			okT = mkNot(mkEq(v, mkNil()))
		}
		val = mkAssert(v, x.AssertedType)
		if toI {
			val = v
		}
		if s.F.eval(okT) == no {
			val = zeroOf(x.AssertedType)
		}
	}
	if x.CommaOk {
		e.bind(s, x, mkT(OpTuple, "", 0, x.Type(), false, nil, nil, val, okT))
		return
	}
	e.deref(s, "assert", v, okT, x)
	e.bind(s, x, val)
}
