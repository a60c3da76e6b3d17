package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// rules of the pipeline properties
const (
	rNodeOutcome  = "node-outcome"
	rNodeOrder    = "node-order"
	rNodeGuard    = "no-run-after-drop-or-cancel"
	rNodeCount    = "node-counters"
	rPipeOutcome  = "process-outcome"
	rPipeOrder    = "process-order"
	rPipeRecovery = "process-recovery"
)

func init() {
	register("C11", func(c *Ctx) {
		c.Rule(rPipeOutcome, "Pipeline.Process returns (the event, nil), (nil, nil) exactly if dropped, or (nil, error)", 1)
		c.Rule("terminate-flag", "Drop and Cancel each set exactly one flag of the event", 0)
		c.Rule("event-identity", "the wrapped event is the argument of Process and is never replaced", 1)
		analysePipeline(c)
	})
	register("C12", func(c *Ctx) {
		c.Rule(rPipeOrder, "Process runs the regular processors in order from the first, and starts the next one only if the previous one succeeded", 2)
		c.Rule(rPipeRecovery, "global on_failure processors run from the first one, in order, exactly after a regular processor failed; the result is that of the last one run", 1)
		analysePipeline(c)
	})
	register("C13", func(c *Ctx) {
		c.Rule(rNodeOutcome, "the result of running a processor is the one the documented order ignore_missing, on_failure, ignore_failure gives", 1)
		c.Rule(rNodeOrder, "the processor runs once; its on_failure processors run in order from the first, only after a failure that is not ignored as missing", 1)
		c.Rule("node-flags", "the flags and the failure processors consulted are those of the processor itself", 3)
		analyseNode(c)
	})
	register("C14", func(c *Ctx) {
		c.Rule(rNodeGuard, "a processor is started only on paths on which the event is known to be neither dropped nor cancelled", 3)
		c.Rule("dropped-result", "a dropped event is reported as dropped: the run returns no error and Process returns no event and no error", 2)
		c.Rule("terminate-flag", "Drop and Cancel each set exactly one flag of the event", 2)
		analyseNode(c)
		analysePipeline(c)
	})
	register("C15", func(c *Ctx) {
		c.Rule(rNodeCount, "every path counts the event once as received and once as discarded, errors or sent, as its outcome requires", 1)
		c.Rule("counter-roles", "the four counters of a processor are created with the four documented names", 4)
		analyseNode(c)
	})
}

// at returns a context that records only if the property under check is one of ids.
func (c *Ctx) at(ids ...string) *Ctx {
	for _, id := range ids {
		if id == c.ID {
			return c
		}
	}
	return newCtx("", "")
}

type runInfo struct {
	r      *pipeRoles
	isRun  func(ev *Event) bool
	evt    *Term
	deferd []func()
}

func (r *pipeRoles) resolveAll(c *Ctx) bool {
	nb := r.build(c)
	if nb == nil {
		return false
	}
	r.resolveNodeFields(c, nb)
	if r.fIgnMissing < 0 || r.fIgnFailure < 0 {
		c.Missing("the node fields that hold ignore_missing and ignore_failure")
		return false
	}
	have := map[string]bool{}
	for _, role := range r.counters {
		have[role] = true
	}
	for n, role := range counterRoles {
		if !have[role] {
			c.at("C15", "C16").Bad("counter-roles", n, c.P.Pos(nb.fn.Pos()), "no processor counter is created with the name "+n)
		} else {
			c.at("C15", "C16").Ok("counter-roles", n)
		}
	}
	return true
}

// resolveLists finds which field of Pipeline holds which list.
func (r *pipeRoles) resolveLists(c *Ctx) bool {
	lbs := r.listBuilders(c)
	newFn := c.P.Func(relPipeline, "New")
	if newFn == nil || len(lbs) == 0 {
		c.Missing("pipeline.New and the list builder")
		return false
	}
	cfg := lookupNamed(c.P, relPipeline, "Config")
	fp, fo := fieldIndexByName(cfg, "Processors"), fieldIndexByName(cfg, "OnFailure")
	cl := &Client{}
	cl.Opaque = func(s *State, fn *ssa.Function, args []*Term) bool { return fn == lbs[0] }
	src := map[*Term]int{}
	cl.OnEvent = func(s *State, ev *Event) bool {
		if ev.Kind == "call" && ev.Fn == lbs[0] {
			for _, a := range ev.Args {
				if base, n, ok := fieldOf(a); ok && base.Op == OpParam && n == fp || ok && base.Op == OpParam && n == fo {
					if ev.Res.Op == OpTuple {
						src[ev.Res.Args[0]] = n
					} else {
						src[ev.Res] = n
					}
				}
			}
		}
		if ev.Kind == "store" && ev.Addr.Op == OpFieldAddr && ptrTo(ev.Addr.Args[0].Typ, r.pipe) {
			if n, ok := src[ev.Val]; ok {
				if n == fp {
					r.fRegular = int(ev.Addr.N)
				} else {
					r.fGlobal = int(ev.Addr.N)
				}
			}
		}
		return false
	}
	c.Run(newFn, cl, nil, nil)
	if r.fRegular < 0 || r.fGlobal < 0 {
		c.Missing("the fields of Pipeline that hold the regular and the on_failure processors")
		return false
	}
	return true
}

func (r *pipeRoles) fieldTerm(base *Term, i int) *Term {
	st := structOf(deref(base.Typ))
	ft := st.Field(i).Type()
	return mkT(OpLoad, "", 0, ft, false, nil, nil, mkFieldAddr(base, i, types.NewPointer(ft)), mkVer("s", nil))
}

// slotTerm is the value in a slot of a node (which nothing changes).
func (r *pipeRoles) slotTerm(node *Term, slot int) *Term {
	if slot < slotBase {
		return r.fieldTerm(node, slot)
	}
	j, ft := slot/slotBase-1, r.slotType(slot)
	in := structOf(r.node).Field(j).Type()
	a := mkFieldAddr(node, j, types.NewPointer(in))
	if isPointer(r.fieldTerm(node, j)) {
		a = r.fieldTerm(node, j)
	}
	return mkT(OpLoad, "", 0, ft, false, nil, nil, mkFieldAddr(a, slot%slotBase, types.NewPointer(ft)), mkVer("s", nil))
}

func (r *pipeRoles) loadSlot(s *State, node *Term, slot int) *Term {
	if slot < slotBase {
		return loadField(s, node, slot)
	}
	v := loadField(s, node, slot/slotBase-1)
	if isPointer(v) {
		return loadField(s, v, slot%slotBase)
	}
	return mkField(v, slot%slotBase, r.slotType(slot))
}

// slotClasses are the classes of memory a slot is read from.
func (r *pipeRoles) slotClasses(slot int) []string {
	key := structKey(types.NewPointer(r.node))
	if slot < slotBase {
		return []string{"F:" + key + "." + fmt.Sprint(slot)}
	}
	j := slot/slotBase - 1
	in := structOf(r.node).Field(j).Type()
	return []string{"F:" + key + "." + fmt.Sprint(j), "F:" + structKey(in) + "." + fmt.Sprint(slot%slotBase)}
}

// analyseNode decides the node-level rules.
func analyseNode(c *Ctx) {
	r := pipelineRoles(c)
	if r == nil || !r.resolveAll(c) {
		return
	}
	p := c.P
	for run := range r.runs {
		construct := run.String()
		pos := p.Pos(run.Pos())
		params := rootParams(run)
		ni, ei := r.nodeParam(run), r.evtParam(run)
		if ei < 0 {
			c.Missing("the event parameter of " + construct)
			continue
		}
		node, evt := params[ni], params[ei]
		cKids := "F:" + structKey(node.Typ) + "." + fmt.Sprint(r.fKids)
		for _, fi := range []int{r.fKids, r.fIgnMissing, r.fIgnFailure, r.fProc} {
			name := r.slotField(fi).Name()
			for _, cl := range r.slotClasses(fi) {
				c.at("C13").Check(p.stable(cl), "node-flags", name, p.unst[cl], "the field "+name+" of a processor is changed after construction")
			}
		}
		if !p.stable(cKids) {
			continue
		}
		kids := r.fieldTerm(node, r.fKids)
		seq := newSeq(kids)
		isKid := func(ev *Event) bool {
			if ev.Kind != "call" || ev.Fn == nil {
				return false
			}
			n := r.nodeArg(ev.Args)
			return n != nil && p.inModule(ev.Fn) && reachesInvoke(p, ev.Fn, r)
		}
		isInv := func(ev *Event) bool { return ev.Kind == "call" && ev.Method == r.invoke }
		ignMiss := r.slotTerm(node, r.fIgnMissing)
		ignFail := r.slotTerm(node, r.fIgnFailure)
		missZero := mkIface(zeroOf(r.missing), r.missing)
		missTerm := func(err *Term) *Term {
			return mkApp("errors.Is", types.Typ[types.Bool], err, missZero)
		}
		resErr := func(ev *Event) *Term {
			if ev.Res == nil {
				return nil
			}
			if ev.Res.Op == OpTuple {
				return ev.Res.Args[len(ev.Res.Args)-1]
			}
			return ev.Res
		}
		// the lists of processors hold no nil (C17)
		cl := &Client{NeverNil: func(t *Term) bool {
			l, _, ok := elemOf(t)
			return ok && l == kids
		}}
		cl.After = func(s *State, ev *Event, res []*Term) {
			if isKid(ev) || isInv(ev) {
				r.pin(s, evt)
			}
		}
		cl.OnEvent = func(s *State, ev *Event) bool {
			switch {
			case isInv(ev):
				s.Mon["inv"] += "1"
				c.at("C13").Check(s.Mon["inv"] == "1", rNodeOrder, construct+" runs the processor once", p.InstrPos(ev.Instr), "the processor is run more than once for an event", traceDetails(s)...)
				base, n, ok := fieldOf(ev.Args[0])
				c.at("C13").Check(ok && base == node && n == r.fProc, "node-flags", construct+" runs its own processor", p.InstrPos(ev.Instr), "the processor that is run is "+ev.Args[0].String()+", not the node's own")
				ea := r.evtArg(ev.Args[1:])
				c.at("C13").Check(ea == evt, rNodeOrder, construct+" passes its event", p.InstrPos(ev.Instr), "the processor gets "+fmt.Sprint(ea)+" instead of the event")
				return true
			case isKid(ev):
				kn := r.nodeArg(ev.Args)
				k := p.InstrPos(ev.Instr)
				list, idx, ok := elemOf(kn)
				if !ok || list != kids {
					c.at("C13").Bad(rNodeOrder, construct+" on_failure", k, "the processor run on failure is "+kn.String()+", not an element of the node's own on_failure list", traceDetails(s)...)
					return true
				}
				seq.visit(idx)
				c.at("C13").Check(r.evtArg(ev.Args) == evt, rNodeOrder, construct+" on_failure gets the event", k, "an on_failure processor gets another event")
				// must be after a failure that is not ignored as missing
				var inv *Event
				for _, e2 := range s.Events() {
					if isInv(e2) {
						inv = e2
					}
				}
				if inv == nil {
					c.at("C13").Bad(rNodeOrder, construct+" on_failure after failure", k, "on_failure processors run before the processor itself", traceDetails(s)...)
					return true
				}
				e0 := resErr(inv)
				c.at("C13").Check(s.F.eval(isNilT(e0)) == no, rNodeOrder, construct+" on_failure after failure", k, "on_failure processors run although the processor did not fail", traceDetails(s)...)
				miss := decide(s.F, func(ask func(*Term) bool) string {
					if ask(ignMiss) && ask(missTerm(e0)) {
						return "ignored"
					}
					return "failed"
				})
				c.at("C13").Check(miss["ignored"] == nil, rNodeOrder, construct+" ignore_missing before on_failure", k, "on_failure processors run although the missing key is to be ignored", traceDetails(s)...)
				d, cc := r.dropped(s, evt), r.cancelled(s, evt)
				c.at("C14").Check(s.F.eval(d) == no && s.F.eval(cc) == no, rNodeGuard, construct+" on_failure", k, "an on_failure processor can start after the event was dropped or cancelled", traceDetails(s)...)
				return true
			case ev.Kind == "call" && ev.Method != nil && ev.Method.FullName() == "(github.com/prometheus/client_golang/prometheus.Counter).Inc":
				return true
			case ev.Kind == "call" && ev.Method != nil && ev.Method.FullName() == "(github.com/prometheus/client_golang/prometheus.Counter).Add":
				return true
			}
			return false
		}
		cl.OnBack = func(s *State, lp *LoopRec, first bool, iter []*Event) {
			n := 0
			for _, ev := range iter {
				if isKid(ev) {
					n++
					c.at("C13").Check(s.F.eval(isNilT(resErr(ev))) == yes, rNodeOrder, construct+" stops at the first failing on_failure processor", p.InstrPos(ev.Instr), "the next on_failure processor runs although the previous one may have failed", traceDetails(s)...)
				}
				if isInv(ev) {
					c.at("C13").Bad(rNodeOrder, construct+" runs the processor once", p.InstrPos(ev.Instr), "the processor runs in a loop")
				}
				if n == 0 && ev.Method != nil && ev.Method.Name() == "Inc" {
					c.at("C15").Bad(rNodeCount, construct+" counts in a loop", p.InstrPos(ev.Instr), "a counter is incremented in a loop")
				}
			}
			seq.back(lp.Key, n, s.F.eval(r.dropped(s, evt)) == yes || s.F.eval(r.cancelled(s, evt)) == yes)
		}
		e, paths := collect(c, run, cl, params, nil)
		if msg := seq.verify(e); msg != "" {
			c.at("C13").Bad(rNodeOrder, construct+" on_failure order", pos, msg)
		} else if seq.skipped() {
			c.at("C13").Bad(rNodeOrder, construct+" on_failure order", pos, "an on_failure processor can be left out")
		} else {
			c.at("C13").Check(len(seq.first)+len(seq.later) > 0, rNodeOrder, construct+" on_failure order", pos, "no on_failure processor is ever run")
		}
		for _, pth := range paths {
			s, F := pth.St, pth.St.F
			var inv, lastKid *Event
			marker := ""
			inc := map[string]int{}
			for _, ev := range pth.Events {
				switch {
				case isInv(ev):
					inv = ev
				case isKid(ev):
					lastKid = ev
				case ev.Kind == "loop":
					if seq.next(ev.Loop) != nil {
						marker = ev.Loop
						lastKid = nil
					}
				case ev.Method != nil && ev.Method.Name() == "Inc":
					base, n, ok := r.slotOf(ev.Args[0])
					if !ok || base != node || r.counters[n] == "" {
						c.at("C15").Bad(rNodeCount, construct, p.InstrPos(ev.Instr), "a counter other than the processor's own is incremented: "+ev.Args[0].String(), traceDetails(s)...)
						continue
					}
					inc[r.counters[n]]++
				case ev.Method != nil && ev.Method.Name() == "Add":
					base, n, ok := r.slotOf(ev.Args[0])
					if !ok || base != node || ev.Args[1].Aux != "f:1" {
						c.at("C15").Bad(rNodeCount, construct, p.InstrPos(ev.Instr), "a counter grows by something other than one", traceDetails(s)...)
						continue
					}
					inc[r.counters[n]]++
				}
			}
			if inv == nil {
				c.at("C13").Bad(rNodeOrder, construct+" runs the processor once", pos, "a path does not run the processor at all", traceDetails(s)...)
				continue
			}
			kidsRan := lastKid != nil || marker != ""
			e0 := resErr(inv)
			D, C := r.dropped(s, evt), r.cancelled(s, evt)
			hasKids := mkLt(mkInt(0), mkLen(kids))
			lastErr := mkNil()
			if lastKid != nil {
				lastErr = resErr(lastKid)
			}
			ret := pth.Rets[len(pth.Rets)-1]
			outcomes := decide(F, func(ask func(*Term) bool) string {
				if ask(D) {
					return "discarded"
				}
				if ask(isNilT(e0)) {
					if kidsRan {
						return "infeasible"
					}
					return "sent"
				}
				if !kidsRan && ask(ignMiss) && ask(missTerm(e0)) {
					return "sent"
				}
				if kidsRan || ask(hasKids) && !ask(C) {
					if !kidsRan {
						return "skipped-on-failure"
					}
					if ask(isNilT(lastErr)) {
						// complete?
						if lastKid != nil {
							_, idx, _ := elemOf(r.nodeArg(lastKid.Args))
							if idx != nil && !ask(C) && ask(mkLt(mkLin(idx, 1), mkLen(kids))) {
								return "incomplete-on-failure"
							}
						} else if nx := seq.next(marker); nx != nil && !ask(C) && ask(mkLt(nx, mkLen(kids))) {
							return "incomplete-on-failure"
						}
						return "sent"
					}
					if ask(ignFail) {
						return "sent"
					}
					return "errors-last"
				}
				if ask(ignFail) {
					return "sent"
				}
				return "errors-first"
			})
			for _, want := range sortedKeys(outcomes) {
				g := outcomes[want]
				okRet, role := false, want
				desc := ""
				switch want {
				case "discarded", "sent":
					okRet = g.eval(isNilT(ret)) == yes
					desc = "no error must be returned"
				case "errors-last":
					okRet, role = wraps(g, ret, lastErr) && g.eval(isNilT(ret)) == no, "errors"
					desc = "the error of the last on_failure processor must be returned"
				case "errors-first":
					okRet, role = wraps(g, ret, e0) && g.eval(isNilT(ret)) == no, "errors"
					desc = "the error of the processor must be returned"
				case "skipped-on-failure":
					c.at("C13").Bad(rNodeOutcome, construct+": on_failure", pos, "a failure that is not ignored does not run the on_failure processors", traceDetails(s)...)
					continue
				case "incomplete-on-failure":
					c.at("C13").Bad(rNodeOutcome, construct+": on_failure", pos, "not all on_failure processors run although none failed", traceDetails(s)...)
					continue
				}
				if want == "discarded" {
					c.at("C14").Check(okRet, "dropped-result", construct, pos, "a dropped event is reported as an error: "+ret.String()+" is returned", traceDetails(s)...)
				}
				c.at("C13").Check(okRet, rNodeOutcome, construct+": "+want, pos, fmt.Sprintf("outcome %s: %s, but %s is returned", want, desc, ret), append(traceDetails(s), "case: "+fmt.Sprint(g.describe()))...)
				ok := inc["received"] == 1 && inc[role] == 1
				for k, n := range inc {
					if k != "received" && k != role && n != 0 {
						ok = false
					}
				}
				c.at("C15").Check(ok, rNodeCount, construct+": "+want, pos, fmt.Sprintf("outcome %s must count received once and %s once, but the counters grow by %v", want, role, inc), append(traceDetails(s), "case: "+fmt.Sprint(g.describe()))...)
			}
		}
	}
}

func reachesInvoke(p *Prog, fn *ssa.Function, r *pipeRoles) bool {
	rf := reach(p, fn)
	for g := range r.runs {
		if rf[g] {
			return true
		}
	}
	return false
}

// analysePipeline decides the rules about Pipeline.Process.
func analysePipeline(c *Ctx) {
	r := pipelineRoles(c)
	if r == nil || !r.resolveLists(c) {
		return
	}
	p := c.P
	fn := r.process
	construct := fn.String()
	pos := p.Pos(fn.Pos())
	params := rootParams(fn)
	pipe, in := params[0], params[1]
	pst := structOf(r.pipe)
	for _, fi := range []int{r.fRegular, r.fGlobal} {
		cl := "F:" + structKey(pipe.Typ) + "." + fmt.Sprint(fi)
		if !p.stable(cl) {
			c.Bad("anchor", "lists", p.unst[cl], "the list "+pst.Field(fi).Name()+" of a pipeline is changed after construction")
			return
		}
	}
	dataCl := "F:" + structKey(types.NewPointer(r.evt)) + "." + fmt.Sprint(r.fData)
	c.at("C11").Check(r.fData >= 0 && p.stable(dataCl), "event-identity", r.evt.Obj().Name(), p.unst[dataCl], "the event wrapped for the processors can be replaced while it is processed")
	reg, glob := r.fieldTerm(pipe, r.fRegular), r.fieldTerm(pipe, r.fGlobal)
	seqR, seqG := newSeq(reg), newSeq(glob)
	isRun := func(ev *Event) bool { return ev.Kind == "call" && ev.Fn != nil && r.runs[ev.Fn] }
	resErr := func(ev *Event) *Term {
		if ev.Res.Op == OpTuple {
			return ev.Res.Args[len(ev.Res.Args)-1]
		}
		return ev.Res
	}
	which := func(ev *Event) (string, *Term) {
		l, idx, ok := elemOf(r.nodeArg(ev.Args))
		switch {
		case ok && l == reg:
			return "regular", idx
		case ok && l == glob:
			return "on_failure", idx
		}
		return "", nil
	}
	var evtT *Term
	// the lists of processors hold no nil (C17)
	cl := &Client{NeverNil: func(t *Term) bool {
		l, _, ok := elemOf(t)
		return ok && (l == reg || l == glob)
	}}
	cl.Opaque = func(s *State, f *ssa.Function, args []*Term) bool { return r.runs[f] }
	cl.After = func(s *State, ev *Event, res []*Term) {
		if isRun(ev) {
			r.pin(s, r.evtArg(ev.Args))
			// contract of the node (decided under C14): a dropped event gives no error
		}
	}
	lastOf := func(evs []*Event, kind string) (last *Event, marker string) {
		for _, ev := range evs {
			if ev.Kind == "loop" {
				// which list does the loop run over?
				if kind == "regular" && seqR.next(ev.Loop) != nil || kind == "on_failure" && seqG.next(ev.Loop) != nil {
					marker, last = ev.Loop, nil
				}
			}
			if isRun(ev) {
				if k, _ := which(ev); k == kind {
					last = ev
				}
			}
		}
		return
	}
	type guard struct {
		s    *State
		evs  []*Event
		ev   *Event
		kind string
	}
	var guards []guard
	cl.OnEvent = func(s *State, ev *Event) bool {
		if !isRun(ev) {
			return false
		}
		k := p.InstrPos(ev.Instr)
		evt := r.evtArg(ev.Args)
		if evt == nil {
			c.Missing("the event handed to a processor by Process")
			return true
		}
		evtT = evt
		kind, idx := which(ev)
		if kind == "" {
			c.at("C12").Bad(rPipeOrder, construct+" list", k, "Process runs "+r.nodeArg(ev.Args).String()+", which is not an element of the pipeline's lists", traceDetails(s)...)
			return true
		}
		if kind == "regular" {
			seqR.visit(idx)
		} else {
			seqG.visit(idx)
		}
		c.at("C11").Check(loadField(s, evt, r.fData) == in, "event-identity", construct, k, "the processors get another event than the one passed to Process", traceDetails(s)...)
		c.at("C14").Check(s.F.eval(r.dropped(s, evt)) == no && s.F.eval(r.cancelled(s, evt)) == no, rNodeGuard, construct+" "+kind, k, "a processor of the "+kind+" list can start after the event was dropped or cancelled", traceDetails(s)...)
		guards = append(guards, guard{s.clone(), s.Events(), ev, kind})
		return true
	}
	type back struct {
		s    *State
		iter []*Event
		key  string
	}
	cl.OnBack = func(s *State, lp *LoopRec, first bool, iter []*Event) {
		n := map[string]int{}
		for _, ev := range iter {
			if isRun(ev) {
				kind, _ := which(ev)
				n[kind]++
				c.at("C12").Check(s.F.eval(isNilT(resErr(ev))) == yes, map[bool]string{true: rPipeOrder, false: rPipeRecovery}[kind == "regular"], construct+" "+kind+" stops at a failure", p.InstrPos(ev.Instr), "the next processor of the "+kind+" list runs although the previous one may have failed", traceDetails(s)...)
			}
		}
		done := evtT != nil && (s.F.eval(r.dropped(s, evtT)) == yes || s.F.eval(r.cancelled(s, evtT)) == yes)
		seqR.back(lp.Key, n["regular"], done)
		seqG.back(lp.Key, n["on_failure"], done)
	}
	e, paths := collect(c, fn, cl, params, nil)
	if evtT == nil {
		c.Missing("the runs of processors in Process")
		return
	}
	for i, q := range []*seqCheck{seqR, seqG} {
		rule := []string{rPipeOrder, rPipeRecovery}[i]
		msg := q.verify(e)
		if msg == "" && len(q.first) == 0 {
			msg = "the processors of the list are never run"
		}
		if msg == "" && q.skipped() {
			msg = "a processor of the list can be left out"
		}
		c.at("C12").Check(msg == "", rule, construct+" "+[]string{"regular", "on_failure"}[i]+" order", pos, msg)
	}
	// global on_failure starts exactly after a failure of a regular processor
	for _, g := range guards {
		if g.kind == "regular" {
			gl, gm := lastOf(g.evs, "on_failure")
			c.at("C12").Check(gl == nil && gm == "", rPipeOrder, construct+" regular before on_failure", p.InstrPos(g.ev.Instr), "a regular processor runs after on_failure processors", traceDetails(g.s)...)
			continue
		}
		last, _ := lastOf(g.evs, "regular")
		ok := last != nil && g.s.F.eval(isNilT(resErr(last))) == no
		c.at("C12").Check(ok, rPipeRecovery, construct+" on_failure only after a failure", p.InstrPos(g.ev.Instr), "global on_failure processors run although no regular processor failed", traceDetails(g.s)...)
	}
	for _, pth := range paths {
		s, F := pth.St, pth.St.F
		lastR, mR := lastOf(pth.Events, "regular")
		lastG, mG := lastOf(pth.Events, "on_failure")
		ran := lastR != nil || mR != "" || lastG != nil || mG != ""
		gRan := lastG != nil || mG != ""
		ret0, ret1 := pth.Rets[0], pth.Rets[1]
		D, C := mkBool(false), mkBool(false)
		evt := evtT
		if ran {
			D, C = r.dropped(s, evt), r.cancelled(s, evt)
		}
		errR, errG := mkNil(), mkNil()
		if lastR != nil {
			errR = resErr(lastR)
		}
		if lastG != nil {
			errG = resErr(lastG)
		}
		complete := func(ask func(*Term) bool, last *Event, marker string, q *seqCheck) bool {
			if last != nil {
				_, idx := which(last)
				return !ask(mkLt(mkLin(idx, 1), mkLen(q.list)))
			}
			if marker != "" {
				return !ask(mkLt(q.next(marker), mkLen(q.list)))
			}
			return !ask(mkLt(mkInt(0), mkLen(q.list)))
		}
		outcomes := decide(F, func(ask func(*Term) bool) string {
			if ask(isNilT(pipe)) {
				return "error-nil-pipeline"
			}
			if ask(isNilT(in)) {
				if ran {
					return "nil-event-processed"
				}
				return "error-nil-event"
			}
			last := errR
			if gRan {
				last = errG
			}
			if ask(D) {
				if !ask(isNilT(last)) {
					return "infeasible" // contract of the node, decided under C14
				}
				return "dropped"
			}
			if !gRan {
				if ask(isNilT(errR)) {
					if !ask(C) && !complete(ask, lastR, mR, seqR) {
						return "incomplete"
					}
					return "event"
				}
				if ask(mkLt(mkInt(0), mkLen(glob))) && !ask(C) {
					return "skipped-on-failure"
				}
				return "error-regular"
			}
			if ask(isNilT(errG)) {
				if !ask(C) && !complete(ask, lastG, mG, seqG) {
					return "incomplete-on-failure"
				}
				return "event"
			}
			return "error-on-failure"
		})
		for _, want := range sortedKeys(outcomes) {
			g := outcomes[want]
			ok := false
			desc := ""
			retNil0 := g.eval(isNilT(ret0))
			retNil1 := g.eval(isNilT(ret1))
			det := append(traceDetails(s), "case: "+fmt.Sprint(g.describe()))
			got := fmt.Sprintf("(%s, %s)", ret0, ret1)
			switch want {
			case "nil-event-processed":
				c.at("C11").Bad(rPipeOutcome, construct+": "+want, pos, "a nil event is processed", det...)
				continue
			case "incomplete":
				c.at("C12").Bad(rPipeOrder, construct+": complete", pos, "Process ends before all processors ran although none failed, dropped or cancelled", det...)
				continue
			case "incomplete-on-failure":
				c.at("C12").Bad(rPipeRecovery, construct+": complete", pos, "Process ends before all on_failure processors ran although none failed, dropped or cancelled", det...)
				continue
			case "skipped-on-failure":
				c.at("C12").Bad(rPipeRecovery, construct+": skipped", pos, "an unrecovered failure does not run the pipeline's on_failure processors", det...)
				continue
			case "error-nil-event", "error-nil-pipeline":
				ok, desc = retNil0 == yes && retNil1 == no, "(nil, error)"
			case "dropped":
				ok, desc = retNil0 == yes && retNil1 == yes, "(nil, nil)"
				c.at("C14").Check(ok, "dropped-result", construct, pos, "a dropped event must give (nil, nil), not "+got, det...)
			case "event":
				ok, desc = (ret0 == in || g.eval(mkEq(ret0, in)) == yes) && retNil1 == yes, "(event, nil)"
			case "error-regular":
				ok, desc = retNil0 == yes && retNil1 == no && wraps(g, ret1, errR), "(nil, the error of the failing processor)"
				c.at("C12").Check(wraps(g, ret1, errR), rPipeRecovery, construct+": error of the failing processor", pos, "the error returned is not that of the failing processor: "+got, det...)
			case "error-on-failure":
				ok, desc = retNil0 == yes && retNil1 == no && wraps(g, ret1, errG), "(nil, the error of the failing on_failure processor)"
				c.at("C12").Check(wraps(g, ret1, errG), rPipeRecovery, construct+": error of the failing on_failure processor", pos, "the error returned is not that of the failing on_failure processor: "+got, det...)
			}
			c.at("C11").Check(ok, rPipeOutcome, construct+": "+want, pos, fmt.Sprintf("outcome %s must be returned as %s, but it is %s", want, desc, got), det...)
			if want == "event" && gRan {
				c.at("C12").Check(retNil1 == yes, rPipeRecovery, construct+": recovered", pos, "a recovered event is reported as an error", det...)
			}
		}
	}
}
