package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C16", func(c *Ctx) {
		c.Rule("collectors", "Metrics collects the four counters of a processor, each once, for the processors of both lists, and recurses into the on_failure processors of each", 3)
		c.Rule("collector-list", "no collected counter is lost from the returned list", 1)
		c.Rule("counter-roles", "the four counters of a processor are created with four distinct documented names", 4)
		c.Rule("component-id", "the id label of the counters contains the position of the processor: base id, index, type; lists nested below or beside it have distinct base ids", 3)
		c.Rule("registration", "metrics.Register registers every collector it is given", 1)
		analyseMetrics(c)
	})
	register("C17", func(c *Ctx) {
		c.Rule("config-check", "a nil configuration or an empty id is rejected", 1)
		c.Rule("entry-check", "a processor is constructed only for an entry that names exactly one, from the name and options of that entry", 1)
		c.Rule("entry-order", "the entries are constructed in order, one node for each", 1)
		c.Rule("error-returned", "every failure of the construction is returned as an error", 2)
		c.Rule("node-fields", "a node holds the constructed processor, its own on_failure processors and the flags of the processor's configuration", 4)
		c.Rule("pipeline-fields", "the pipeline holds both lists and the configured id", 1)
		analyseConstruction(c)
	})
}

// flatten lists the pieces of a string concatenation.
func flatten(t *Term) []*Term {
	if t.Op == OpApp && t.Aux == "concat" {
		return append(flatten(t.Args[0]), flatten(t.Args[1])...)
	}
	return []*Term{t}
}

func isDigit(b byte) bool { return b >= '0' && b <= '9' }

// positional: base, then decimal(idx) that is delimited from what surrounds it.
func positional(pieces []*Term, base *Term, idx func(*Term) bool) bool {
	bi := -1
	for i, p := range pieces {
		if p == base && bi < 0 {
			bi = i
		}
		if bi >= 0 && i > bi+1 && p.Op == OpApp && p.Aux == "decimal" && idx(p.Args[0]) {
			before, ok1 := pieces[i-1].isStr()
			if !ok1 || before == "" || isDigit(before[len(before)-1]) {
				return false
			}
			if i+1 < len(pieces) {
				after, ok2 := pieces[i+1].isStr()
				if !ok2 || after == "" || isDigit(after[0]) {
					return false
				}
			}
			return true
		}
		if s, ok := p.isStr(); ok && bi >= 0 && i > bi+1 && s != "" && s[0] >= '0' && s[0] <= '9' && pieces[i-1] == base {
			return false
		}
		// first iteration: the index is the constant 0 and folded into the text
		if bi >= 0 && i == bi+1 {
			if s, ok := p.isStr(); ok {
				for j := 1; j+1 < len(s); j++ {
					if s[j] == '0' && !isDigit(s[j-1]) && !isDigit(s[j+1]) && idx(mkInt(0)) {
						return true
					}
				}
			}
		}
	}
	return false
}

type entryInfo struct {
	cfgs   *Term
	seq    *seqCheck
	nbFn   *ssa.Function
	r      *pipeRoles
	baseID *Term
}

// analyseBuild analyses the list builder and reports to the property under
// check. It is shared by C16 and C17.
func analyseBuild(c *Ctx, r *pipeRoles) *nodeBuild {
	p := c.P
	lbs := r.listBuilders(c)
	if len(lbs) != 1 {
		c.Missing(fmt.Sprintf("the function that builds a list of processors (found %d)", len(lbs)))
		return nil
	}
	fn := lbs[0]
	construct := fn.String()
	pos := p.Pos(fn.Pos())
	params := rootParams(fn)
	var cfgs, base *Term
	for _, q := range params {
		if isProcList(c, q.Typ) {
			cfgs = q
		}
		if isStringType(q.Typ) && base == nil {
			base = q
		}
	}
	if base == nil {
		c.Missing("the base id parameter of " + construct)
		return nil
	}
	optT := lookupNamed(p, relPipeline, "ProcessorOptionConfig")
	fCfg, fKids := fieldIndexByName(optT, "Config"), fieldIndexByName(optT, "OnFailure")
	newProc := p.Func("pkg/processor/registry", "NewProcessor")
	if optT == nil || fCfg < 0 || fKids < 0 || newProc == nil {
		c.Missing("ProcessorOptionConfig.Config, .OnFailure and registry.NewProcessor")
		return nil
	}
	seq := newSeq(cfgs)
	nb := &nodeBuild{fn: fn, fields: map[int]map[*Term]bool{}, counters: map[*Term]*Term{}}
	// entry of the current iteration, found from the name handed to the registry
	entryOf := func(name *Term) (m, idx *Term) {
		if name.Op == OpMapKey {
			m = name.Args[0]
			if l, i, ok := elemOf(m); ok && l == cfgs {
				return m, i
			}
		}
		return nil, nil
	}
	type nodeEv struct {
		s  *State
		ev *Event
	}
	var nodes []nodeEv
	isRec := func(ev *Event) bool { return ev.Kind == "call" && ev.Fn == fn }
	isReg := func(ev *Event) bool { return ev.Kind == "call" && ev.Fn == newProc }
	tupErr := func(ev *Event) *Term { return ev.Res.Args[len(ev.Res.Args)-1] }
	curReg := func(evs []*Event) *Event {
		var out *Event
		for _, e := range evs {
			if isReg(e) {
				out = e
			}
			if e.Kind == "loop" {
				out = nil
			}
		}
		return out
	}
	optsTerm := func(name *Term) *Term {
		// the value that belongs to the key
		for i := len(tt.list) - 1; i >= 0; i-- {
			t := tt.list[i]
			if t.Op == OpMapVal && t.Aux == name.Aux && t.Args[0] == name.Args[0] {
				return t
			}
		}
		return nil
	}
	isOpt := func(s *State, name, v *Term, field int) bool {
		// v is options.field, or the zero value where the options are nil
		ov := optsTerm(name)
		b, n, ok := fieldOf(v)
		if ok && n == field && ov != nil && b == ov {
			return true
		}
		if ov != nil && s.F.isNilTri(ov) == yes && (v.isNil()) {
			return true
		}
		return false
	}
	cl := &Client{}
	cl.Opaque = func(s *State, f *ssa.Function, args []*Term) bool { return inPkg(p, f, "pkg/processor/registry") }
	cl.OnEvent = func(s *State, ev *Event) bool {
		k := ""
		if ev.Instr != nil {
			k = p.InstrPos(ev.Instr)
		}
		switch ev.Kind {
		case "store":
			nb.stored(r, s, ev)
			if ev.Addr.Op == OpIndexAddr && ptrTo(ev.Val.Typ, r.node) && !arrayAlloc(ev.Addr.Args[0]) {
				nodes = append(nodes, nodeEv{s.clone(), ev})
				return true
			}
			return false
		case "append":
			if sl, ok := ev.Res.Typ.Underlying().(*types.Slice); ok && ptrTo(sl.Elem(), r.node) {
				nodes = append(nodes, nodeEv{s.clone(), ev})
				return true
			}
			return false
		case "call":
			if ev.Fn != nil && strings.HasSuffix(ev.Fn.String(), "prometheus.NewCounter") {
				nb.counters[ev.Res] = ev.Args[0]
				// identity of the counter
				i := fieldIndexByName(ev.Args[0].Typ, "ConstLabels")
				var id *Term
				if i >= 0 {
					lt := mkField(ev.Args[0], i, nil)
					if v, ok := s.lookup(lt, mkStr("component_id"), types.Typ[types.String]); s.F.eval(ok) == yes {
						id = v
					}
				}
				reg := curReg(s.Events())
				ok := false
				if id != nil && reg != nil {
					_, idx := entryOf(reg.Args[0])
					ok = positional(flatten(id), base, func(t *Term) bool { return idx != nil && (t == idx || s.F.eval(mkEq(t, idx)) == yes) })
				} else if id != nil {
					ok = positional(flatten(id), base, func(t *Term) bool { return true })
				}
				c.at("C16").Check(ok, "component-id", "label of "+counterName(ev.Args[0]), k, fmt.Sprintf("the component id label %v does not contain the base id and the position of the processor", id), traceDetails(s)...)
				return false
			}
			if isReg(ev) {
				m, idx := entryOf(ev.Args[0])
				if m == nil {
					c.at("C17").Bad("entry-check", construct, k, "the processor type "+ev.Args[0].String()+" is not the name in the entry", traceDetails(s)...)
					return true
				}
				seq.visit(idx)
				single := false
				for _, ml := range tt.list {
					if ml.Op == OpMapLen && ml.Args[0] == m {
						if _, _, hi, hok := s.F.bounds(ml); hok && hi <= 1 {
							single = true
						}
					}
				}
				c.at("C17").Check(single, "entry-check", construct+" one name", k, "an entry that names several processors is accepted", traceDetails(s)...)
				c.at("C17").Check(isOpt(s, ev.Args[0], ev.Args[1], fCfg), "entry-check", construct+" options", k, "the processor is constructed with "+ev.Args[1].String()+", not with the options of its entry", traceDetails(s)...)
				return true
			}
			if isRec(ev) {
				reg := curReg(s.Events())
				var rb *Term
				for i, q := range fn.Params {
					if isStringType(q.Type()) && params[i] == base {
						rb = ev.Args[i]
					}
					if isProcList(c, q.Type()) {
						name := (*Term)(nil)
						if reg != nil {
							name = reg.Args[0]
						} else {
							// the children may be built before the processor
							for _, a := range ev.Args {
								anySub(a, func(t *Term) bool {
									if t.Op == OpMapKey {
										name = t
									}
									if t.Op == OpMapVal {
										for _, u := range tt.list {
											if u.Op == OpMapKey && u.Aux == t.Aux && u.Args[0] == t.Args[0] {
												name = u
											}
										}
									}
									return false
								})
							}
						}
						c.at("C17").Check(name != nil && isOpt(s, name, ev.Args[i], fKids), "node-fields", construct+" on_failure entries", k, "the on_failure processors are built from "+ev.Args[i].String()+", not from the entry's own on_failure list", traceDetails(s)...)
					}
				}
				if rb != nil {
					ok := positional(flatten(rb), base, func(t *Term) bool { return true })
					c.at("C16").Check(ok, "component-id", "base id of on_failure", k, "the base id "+rb.String()+" of the on_failure processors does not contain the position of their processor", traceDetails(s)...)
				}
				nb.recs = append(nb.recs, ev)
				return true
			}
			return false
		}
		return false
	}
	cl.OnBack = func(s *State, lp *LoopRec, first bool, iter []*Event) {
		if lp.Fn != fn && !strings.Contains(lp.Fn.String(), relPipeline) {
			return
		}
		regs, adds := 0, 0
		for _, ev := range iter {
			if isReg(ev) {
				regs++
				c.at("C17").Check(s.F.eval(isNilT(tupErr(ev))) == yes, "error-returned", construct+" constructor", p.InstrPos(ev.Instr), "the next entry is constructed although the processor of this one failed", traceDetails(s)...)
			}
			if isRec(ev) {
				c.at("C17").Check(s.F.eval(isNilT(tupErr(ev))) == yes, "error-returned", construct+" on_failure", p.InstrPos(ev.Instr), "the next entry is constructed although an on_failure processor failed", traceDetails(s)...)
			}
			if ev.Kind == "append" && len(ev.Res.Args) == 2 || ev.Kind == "store" {
				adds++
			}
		}
		if lp.Fn == fn || regs > 0 {
			c.at("C17").Check(regs == 1 && adds == 1, "entry-order", construct+" one node for each entry", pos, fmt.Sprintf("an entry gives %d constructed processors and %d nodes", regs, adds), traceDetails(s)...)
		}
	}
	var e *Engine
	e, nb.paths = collect(c, fn, cl, params, nil)
	nb.eng = e
	if nb.alloc == nil {
		c.Missing("the construction of a pipeline processor node")
		return nil
	}
	r.resolveNodeFields(c, nb)
	if msg := seq.verify(e); msg != "" || len(seq.first) == 0 {
		if msg == "" {
			msg = "no entry is constructed"
		}
		c.at("C17").Bad("entry-order", construct+" order", pos, msg)
	}
	// what a node holds
	for _, n := range nodes {
		var nd *Term
		if n.ev.Kind == "append" {
			if len(n.ev.Res.Args) < 2 || n.ev.Res.Op != OpAppend {
				continue
			}
			nd = n.ev.Res.Args[len(n.ev.Res.Args)-1]
		} else {
			nd = n.ev.Val
		}
		s := n.s
		k := p.InstrPos(n.ev.Instr)
		reg := curReg(s.Events())
		if reg == nil || nd.Op != OpAlloc {
			c.at("C17").Bad("node-fields", construct+" processor", k, "a node is added that was not constructed from its entry", traceDetails(s)...)
			continue
		}
		if n.ev.Kind == "store" {
			_, ri := entryOf(reg.Args[0])
			c.at("C17").Check(ri != nil && s.F.eval(mkEq(n.ev.Addr.Args[1], ri)) == yes, "entry-order", construct+" position", k, "the node is stored at another position than its entry", traceDetails(s)...)
		}
		c.at("C17").Check(s.F.eval(isNilT(tupErr(reg))) == yes, "error-returned", construct+" constructor", k, "a node is built although the construction of its processor failed", traceDetails(s)...)
		c.at("C17").Check(loadField(s, nd, r.fProc) == reg.Res.Args[0], "node-fields", construct+" processor", k, "the node holds "+loadField(s, nd, r.fProc).String()+" instead of the constructed processor", traceDetails(s)...)
		var rec *Event
		for _, ev := range s.Events() {
			if ev.Kind == "loop" {
				rec = nil
			}
			if isRec(ev) {
				rec = ev
			}
		}
		kv := loadField(s, nd, r.fKids)
		okK := rec != nil && kv == rec.Res.Args[0]
		if rec == nil {
			// no recursion: only right if the entry has no on_failure processors
			if ov := optsTerm(reg.Args[0]); ov != nil {
				kl := mkT(OpLoad, "", 0, nil, false, nil, nil, mkFieldAddr(ov, fKids, nil), mkVer("s", nil))
				okK = kv.isNil() && (s.F.isNilTri(ov) == yes || s.F.eval(mkLt(mkInt(0), mkLen(kl))) == no)
			}
		}
		c.at("C17").Check(okK, "node-fields", construct+" on_failure", k, "the node's on_failure list is "+kv.String()+", not the one built from its entry", traceDetails(s)...)
		if rec != nil {
			c.at("C17").Check(s.F.eval(isNilT(tupErr(rec))) == yes, "error-returned", construct+" on_failure", k, "a node is built although one of its on_failure processors failed", traceDetails(s)...)
		}
		for _, fl := range []struct {
			name  string
			field int
		}{{"IgnoreMissing", r.fIgnMissing}, {"IgnoreFailure", r.fIgnFailure}} {
			if fl.field < 0 {
				c.at("C17").Bad("node-fields", construct+" "+fl.name, k, "no field of the node is set from the processor's "+fl.name)
				continue
			}
			v := s.F.resolve(r.loadSlot(s, nd, fl.field))
			ok, why := flagFromConfig(s, v, fl.name, reg.Res.Args[0])
			c.at("C17").Check(ok, "node-fields", construct+" "+fl.name, k, why, traceDetails(s)...)
		}
	}
	if len(nodes) == 0 {
		c.at("C17").Bad("node-fields", construct+" processor", pos, "no node is added to the list")
	}
	// results
	for _, pth := range nb.paths {
		s, F := pth.St, pth.St.F
		rv, re := pth.Rets[0], pth.Rets[len(pth.Rets)-1]
		var reg, rec *Event
		marker := ""
		for _, ev := range pth.Events {
			switch {
			case ev.Kind == "loop" && seq.later[ev.Loop] != nil:
				marker, reg, rec = ev.Loop, nil, nil
			case isReg(ev):
				reg = ev
			case isRec(ev):
				rec = ev
			}
		}
		ok := F.eval(isNilT(re))
		if ok == no {
			c.at("C17").Ok("error-returned", construct)
			continue
		}
		// success must be claimed only if everything was built
		if reg != nil {
			c.at("C17").Check(F.eval(isNilT(tupErr(reg))) == yes, "error-returned", construct+" constructor", pos, "the failure of a constructor is not returned", traceDetails(s)...)
		}
		if rec != nil {
			c.at("C17").Check(F.eval(isNilT(tupErr(rec))) == yes, "error-returned", construct+" on_failure", pos, "the failure of an on_failure processor is not returned", traceDetails(s)...)
		}
		next := mkInt(0)
		if reg != nil {
			_, idx := entryOf(reg.Args[0])
			if idx != nil {
				next = mkLin(idx, 1)
			}
		} else if marker != "" {
			next = seq.next(marker)
		}
		c.at("C17").Check(F.eval(mkLt(next, mkLen(cfgs))) == no, "entry-order", construct+" complete", pos, "the list is returned before all entries were constructed", traceDetails(s)...)
		okv := F.eval(mkLt(mkInt(0), mkLen(cfgs))) == no || accOf(e, rv, nil, nil)
		c.at("C17").Check(okv, "entry-order", construct+" result", pos, "the returned list "+rv.String()+" is not the list of the constructed processors", traceDetails(s)...)
	}
	return nb
}

// accOf: t accumulates elements: it is an empty or new list extended by
// appends only.
// accOf: t is a list that was only ever appended to, starting from an empty
// one. recs maps the result of a recursive visit to the lists handed to it.
func accOf(e *Engine, t *Term, recs map[*Term][]*Term, extra map[*Term]bool) bool {
	return grows(e, t, nil, recs, extra, map[[2]*Term]bool{})
}

func grows(e *Engine, t, from *Term, recs map[*Term][]*Term, extra map[*Term]bool, seen map[[2]*Term]bool) bool {
	if t == from || extra[t] || seen[[2]*Term{t, from}] {
		return true
	}
	seen[[2]*Term{t, from}] = true
	for _, a := range recs[t] {
		if grows(e, a, from, recs, extra, seen) {
			return true
		}
	}
	switch t.Op {
	case OpNil:
		return from == nil
	case OpSlice:
		return from == nil && t.Args[0].Op == OpAlloc
	case OpAlloc:
		return from == nil
	case OpAppend:
		return grows(e, t.Args[0], from, recs, extra, seen)
	case OpAppendSl:
		x, y := grows(e, t.Args[0], from, recs, extra, seen), grows(e, t.Args[1], from, recs, extra, seen)
		if from == nil {
			return x && y
		}
		return x && grows(e, t.Args[1], nil, recs, extra, seen) || y && grows(e, t.Args[0], nil, recs, extra, seen)
	case OpLoopVar:
		rec := e.Loops[loopOfVar(t)]
		if rec == nil || rec.Vars[t] == nil {
			return false
		}
		vr := rec.Vars[t]
		for x := range vr.Inits {
			if !grows(e, x, from, recs, extra, seen) {
				return false
			}
		}
		for x := range vr.Firsts {
			ok := len(vr.Inits) == 0
			for i := range vr.Inits {
				if i.isNil() || i.Op == OpSlice {
					i = nil
				}
				ok = ok || grows(e, x, i, recs, extra, seen)
			}
			if !ok {
				return false
			}
		}
		for x := range vr.Steps {
			if !grows(e, x, t, recs, extra, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// flagFromConfig: v is the boolean field name of the processor's config, or
// false where the config has no such field.
func flagFromConfig(s *State, v *Term, name string, proc *Term) (bool, string) {
	named := func(t *Term) bool {
		n, ok := t.isStr()
		return ok && n == name
	}
	// the description of the field, found by its name
	isDescr := func(t *Term, n string) bool {
		return isLib(t, "(reflect.Type).FieldByName"+n) && len(t.Args) == 2 && named(t.Args[1])
	}
	isIndex := func(t *Term) bool {
		b, i, ok := fieldOf(t)
		return ok && isDescr(b, "#0") && structOf(b.Typ) != nil && structOf(b.Typ).Field(i).Name() == "Index"
	}
	isFV := func(t *Term) bool {
		if isLib(t, "(reflect.Value).FieldByName") && len(t.Args) == 2 {
			return named(t.Args[1])
		}
		return (isLib(t, "(reflect.Value).FieldByIndex") || isLib(t, "(reflect.Value).FieldByIndexErr#0")) && len(t.Args) == 2 && isIndex(t.Args[1])
	}
	// the field is missing
	missing := false
	for k, b := range s.F.bools {
		if !b && isDescr(k, "#1") && v.isFalse() {
			return true, ""
		}
	}
	for k := range s.F.neqc {
		anySub(k, func(t *Term) bool {
			if v.isFalse() && isLib(t, "(reflect.Value).FieldByIndexErr#1") && len(t.Args) == 2 && isIndex(t.Args[1]) && s.F.eval(mkEq(t, mkNil())) == no {
				missing = true
			}
			return false
		})
	}
	if missing {
		return true, ""
	}
	if v.Op == OpApp && v.Aux == "(reflect.Value).Bool" && isFV(v.Args[0]) {
		return true, ""
	}
	if !v.isFalse() {
		return false, name + " of the node is " + v.String() + ", not the " + name + " setting of the processor"
	}
	// false: the field must be missing or of another kind
	var fv *Term
	for k := range s.F.bools {
		anySub(k, func(t *Term) bool {
			if isFV(t) {
				fv = t
			}
			return false
		})
	}
	for _, m := range []map[*Term]*Term{s.F.eqc} {
		for k := range m {
			anySub(k, func(t *Term) bool {
				if isFV(t) {
					fv = t
				}
				return false
			})
		}
	}
	for k := range s.F.neqc {
		anySub(k, func(t *Term) bool {
			if isFV(t) {
				fv = t
			}
			return false
		})
	}
	if fv == nil {
		return false, name + " of the node is false on a path that does not look at the processor's configuration"
	}
	g := s.F.clone()
	okC := g.assume(mkEq(fv, mkT(OpZero, "", 0, fv.Typ, true, nil, nil)), false) &&
		g.assume(mkApp("(reflect.Value).IsValid", types.Typ[types.Bool], fv), true) &&
		g.assume(mkEq(mkApp("(reflect.Value).Kind", nil, fv), mkInt(1)), true)
	if okC && g.eval(mkEq(mkApp("(reflect.Value).Kind", nil, fv), mkInt(1))) == yes {
		b := mkApp("(reflect.Value).Bool", types.Typ[types.Bool], fv)
		if g.eval(b) == no {
			return true, ""
		}
		return false, name + " of the node stays false although the processor's configuration has a boolean field " + name
	}
	return true, ""
}

func analyseConstruction(c *Ctx) {
	r := pipelineRoles(c)
	if r == nil || !r.resolveLists(c) {
		return
	}
	if analyseBuild(c, r) == nil {
		return
	}
	p := c.P
	newFn := p.Func(relPipeline, "New")
	construct := newFn.String()
	pos := p.Pos(newFn.Pos())
	lbs := r.listBuilders(c)
	params := rootParams(newFn)
	cfg := params[0]
	cfgT := lookupNamed(p, relPipeline, "Config")
	fID, fP, fO := fieldIndexByName(cfgT, "ID"), fieldIndexByName(cfgT, "Processors"), fieldIndexByName(cfgT, "OnFailure")
	isBuild := func(ev *Event) bool { return ev.Kind == "call" && ev.Fn == lbs[0] }
	cl := &Client{}
	cl.Opaque = func(s *State, f *ssa.Function, args []*Term) bool { return f == lbs[0] }
	cl.OnEvent = func(s *State, ev *Event) bool { return isBuild(ev) }
	_, paths := collect(c, newFn, cl, params, nil)
	for _, pth := range paths {
		s, F := pth.St, pth.St.F
		re := pth.Rets[1]
		isOK := F.eval(isNilT(re))
		if F.isNilTri(cfg) != no {
			c.Check(isOK == no, "config-check", construct+" nil config", pos, "a nil configuration is not rejected", traceDetails(s)...)
			continue
		}
		id := loadField(s, cfg, fID)
		if isOK == no {
			c.Check(F.isNilTri(pth.Rets[0]) == yes, "error-returned", construct+" no pipeline", pos, "a pipeline is returned together with an error", traceDetails(s)...)
			continue
		}
		c.Check(F.eval(mkEq(id, mkStr(""))) == no, "config-check", construct+" empty id", pos, "a configuration without id is not rejected", traceDetails(s)...)
		pl := pth.Rets[0]
		if pl.Op != OpAlloc {
			c.Bad("pipeline-fields", construct, pos, "New returns "+pl.String()+" instead of a new pipeline", traceDetails(s)...)
			continue
		}
		got := map[int]*Event{}
		for _, ev := range pth.Events {
			for _, a := range ev.Args {
				if b, n, ok := fieldOf(a); ok && b == cfg && (n == fP || n == fO) {
					got[n] = ev
				}
			}
		}
		for _, x := range []struct {
			cf, pf int
			name   string
		}{{fP, r.fRegular, "processors"}, {fO, r.fGlobal, "on_failure"}} {
			ev := got[x.cf]
			v := loadField(s, pl, x.pf)
			if ev == nil {
				list := loadField(s, cfg, x.cf)
				c.Check(v.isNil() && F.eval(mkLt(mkInt(0), mkLen(list))) == no, "pipeline-fields", construct+" "+x.name, pos, "the "+x.name+" of the configuration are not built", traceDetails(s)...)
				continue
			}
			c.Check(v == ev.Res.Args[0], "pipeline-fields", construct+" "+x.name, pos, "the pipeline's "+x.name+" are "+v.String()+", not those built from the configuration", traceDetails(s)...)
			c.Check(F.eval(isNilT(ev.Res.Args[1])) == yes, "error-returned", construct+" "+x.name, pos, "a failure to build the "+x.name+" is not returned", traceDetails(s)...)
		}
		idOK := false
		st := structOf(r.pipe)
		for i := 0; i < st.NumFields(); i++ {
			if isStringType(st.Field(i).Type()) && loadField(s, pl, i) == id {
				idOK = true
			}
		}
		c.Check(idOK, "pipeline-fields", construct+" id", pos, "the pipeline does not keep the configured id", traceDetails(s)...)
	}
}

func analyseMetrics(c *Ctx) {
	r := pipelineRoles(c)
	if r == nil || !r.resolveLists(c) {
		return
	}
	nb := analyseBuild(c, r)
	if nb == nil {
		return
	}
	p := c.P
	have := map[string]int{}
	counterFields := r.slots(c, "prometheus.Counter")
	for _, i := range counterFields {
		have[r.cnames[i]]++
	}
	for n := range counterRoles {
		c.Check(have[n] == 1, "counter-roles", n, p.Pos(nb.fn.Pos()), fmt.Sprintf("%d counters of a processor have the name %s, not one", have[n], n))
	}
	c.Check(len(counterFields) == len(nb.counters), "counter-roles", "one counter for each field", p.Pos(nb.fn.Pos()), fmt.Sprintf("%d counter fields but %d counters are created", len(counterFields), len(nb.counters)))
	// distinct base ids of the two lists
	newFn := p.Func(relPipeline, "New")
	bases := map[*Term]string{}
	cfgT := lookupNamed(p, relPipeline, "Config")
	lbs := r.listBuilders(c)
	{
		cl := &Client{}
		cl.Opaque = func(s *State, f *ssa.Function, args []*Term) bool { return f == lbs[0] }
		cl.OnEvent = func(s *State, ev *Event) bool {
			if ev.Kind == "call" && ev.Fn == lbs[0] {
				for i, q := range lbs[0].Params {
					if isStringType(q.Type()) {
						bases[ev.Args[i]] = p.InstrPos(ev.Instr)
						break
					}
				}
			}
			return false
		}
		c.Run(newFn, cl, nil, nil)
	}
	_ = cfgT
	ok := len(bases) == 2
	if ok {
		var bs [][]*Term
		for b := range bases {
			bs = append(bs, flatten(b))
		}
		ok = len(bs[0]) == len(bs[1]) && len(bs[0]) >= 2
		if ok {
			x, ok1 := bs[0][len(bs[0])-1].isStr()
			y, ok2 := bs[1][len(bs[1])-1].isStr()
			ok = ok1 && ok2 && !strings.HasPrefix(x, y) && !strings.HasPrefix(y, x)
		}
	}
	c.Check(ok, "component-id", "base ids of the two lists", p.Pos(newFn.Pos()), fmt.Sprintf("the base ids of the regular and the on_failure processors are not distinct: %v", keysOf(bases)))

	// Metrics
	fn := p.Func(relPipeline, "*Pipeline.Metrics")
	if fn == nil {
		c.Missing("(*Pipeline).Metrics")
		return
	}
	construct := fn.String()
	pos := p.Pos(fn.Pos())
	params := rootParams(fn)
	pipe := params[0]
	lists := map[*Term]string{r.fieldTerm(pipe, r.fRegular): "processors", r.fieldTerm(pipe, r.fGlobal): "on_failure"}
	seqs := map[*Term]*seqCheck{}
	// visits of a node: counters appended and recursion into its children
	isRec := func(ev *Event) bool {
		return ev.Kind == "call" && ev.Rec && r.nodeArg(ev.Args) != nil
	}
	isListRec := func(ev *Event) bool {
		return ev.Kind == "call" && ev.Rec && r.nodeArg(ev.Args) == nil && r.listArg(ev.Args) != nil
	}
	after := map[*Term][]*Term{}
	cl := &Client{}
	cl.After = func(s *State, ev *Event, res []*Term) {
		if isRec(ev) || isListRec(ev) {
			for _, t := range res {
				for _, a := range ev.Args {
					if t.Typ != nil && a.Typ != nil && types.Identical(t.Typ, a.Typ) {
						after[t] = append(after[t], a)
					}
				}
				if len(after[t]) == 0 {
					after[t] = []*Term{mkNil()} // a list of its own
				}
			}
		}
	}
	colElems := func(ev *Event) []*Term {
		if ev.Kind == "append" && ev.Res.Op == OpAppend && strings.HasSuffix(typeStr(ev.Res.Typ), "prometheus.Collector") {
			n := len(ev.Res.Args) - 1
			// only the newly appended ones
			m := n
			if ev.Args[0].Op == OpAppend {
				m = n - (len(ev.Args[0].Args) - 1)
			}
			return ev.Res.Args[1+n-m:]
		}
		return nil
	}
	cl.OnEvent = func(s *State, ev *Event) bool {
		if ev.Kind == "append" && strings.HasSuffix(typeStr(ev.Res.Typ), "prometheus.Collector") {
			return true
		}
		return isRec(ev) || isListRec(ev)
	}
	nodeOf := func(el *Term) (*Term, int) {
		if el.Op == OpIface {
			el = el.Args[0]
		}
		if b, n, ok := r.slotOf(el); ok {
			return b, n
		}
		return nil, -1
	}
	check := func(s *State, evs []*Event, where string) map[*Term]bool {
		v := map[*Term]map[int]int{}
		for _, ev := range evs {
			for _, el := range colElems(ev) {
				n, f := nodeOf(el)
				if n == nil || r.cnames[f] == "" {
					c.Bad("collectors", construct, p.InstrPos(ev.Instr), "something other than a processor's counter is collected: "+el.String())
					continue
				}
				if v[n] == nil {
					v[n] = map[int]int{}
				}
				v[n][f]++
			}
		}
		out := map[*Term]bool{}
		for n, m := range v {
			out[n] = true
			for _, f := range counterFields {
				c.Check(m[f] == 1, "collectors", fmt.Sprintf("counter %s", r.slotField(f).Name()), pos, fmt.Sprintf("the counter %s of a processor is collected %d times", r.slotField(f).Name(), m[f]), traceDetails(s)...)
			}
		}
		return out
	}
	kidSeq := map[*Term]*seqCheck{}
	listRec, noListRec := map[*Term]int{}, map[*Term]int{}
	kidsOf := func(node *Term) *Term { return r.fieldTerm(node, r.fKids) }
	addVisit := func(s *State, node *Term) {
		l, idx, ok := elemOf(node)
		if !ok {
			return
		}
		if seqs[l] == nil {
			seqs[l] = newSeq(l)
		}
		seqs[l].visit(idx)
	}
	cl.OnBack = func(s *State, lp *LoopRec, first bool, iter []*Event) {
		lrec := map[*Term]int{}
		for _, ev := range iter {
			if isListRec(ev) {
				lrec[r.listArg(ev.Args)]++
			}
		}
		for n := range check(s, iter, "loop") {
			addVisit(s, n)
			l, _, _ := elemOf(n)
			switch {
			case lrec[kidsOf(n)] == 1 || len(lrec) == 0 && s.F.eval(mkLt(mkInt(0), mkLen(kidsOf(n)))) == no:
				listRec[l]++
			default:
				noListRec[l]++
			}
			delete(lrec, kidsOf(n))
		}
		for l := range lrec {
			c.Bad("collectors", construct+" recursion", pos, "the recursion visits "+l.String(), traceDetails(s)...)
		}
		for _, ev := range iter {
			if isRec(ev) {
				k := r.nodeArg(ev.Args)
				l, idx, ok := elemOf(k)
				if !ok {
					c.Bad("collectors", construct+" recursion", p.InstrPos(ev.Instr), "the recursion visits "+k.String(), traceDetails(s)...)
					continue
				}
				if kidSeq[l] == nil {
					kidSeq[l] = newSeq(l)
				}
				kidSeq[l].visit(idx)
			}
		}
	}
	e, paths := collect(c, fn, cl, params, nil)
	for _, pth := range paths {
		s, F := pth.St, pth.St.F
		// every list is exhausted
		for l, name := range lists {
			q := seqs[l]
			next := mkInt(0)
			if q != nil {
				for _, ev := range pth.Events {
					if ev.Kind == "loop" && q.later[ev.Loop] != nil {
						next = q.next(ev.Loop)
					}
				}
				for n := range visited(pth.Events, colElems, nodeOf) {
					if nl, idx, ok := elemOf(n); ok && nl == l {
						next = mkLin(idx, 1)
					}
				}
			}
			c.Check(F.eval(mkLt(next, mkLen(l))) == no, "collectors", "all of "+name, pos, "Metrics returns before all processors of the "+name+" list were visited", traceDetails(s)...)
		}
		c.Check(accOfRec(e, pth.Rets[0], after), "collector-list", construct, pos, "the returned list "+pth.Rets[0].String()+" may miss collected counters", traceDetails(s)...)
	}
	for l, name := range lists {
		q := seqs[l]
		if q == nil {
			c.Bad("collectors", "all of "+name, pos, "the counters of the "+name+" list are never collected")
			continue
		}
		msg := q.verify(e)
		c.Check(msg == "", "collectors", "each of "+name, pos, msg)
		// children of the visited nodes
		for _, idxs := range []map[*Term]bool{q.first} {
			for idx := range idxs {
				node := mkT(OpLoad, "", 0, types.NewPointer(r.node), false, nil, nil, mkIndexAddr(l, idx, nil), mkVer("s", nil))
				kl := kidsOf(node)
				kq := kidSeq[kl]
				if kq == nil && listRec[l] > 0 && noListRec[l] == 0 {
					c.Ok("collectors", "children of "+name)
					continue
				}
				if kq == nil {
					c.Bad("collectors", "children of "+name, pos, "the on_failure processors of the "+name+" list are never collected")
					continue
				}
				msg := kq.verify(e)
				c.Check(msg == "", "collectors", "children of "+name, pos, msg)
			}
		}
	}
	// the recursive part: complete over the children
	analyseMetricsRec(c, r, counterFields)
	// registration
	reg := p.Func("pkg/metrics", "Register")
	if reg == nil {
		c.Missing("metrics.Register")
		return
	}
	rp := rootParams(reg)
	isReg := func(ev *Event) bool {
		return ev.Kind == "call" && ev.Method != nil && (ev.Method.Name() == "Register" || ev.Method.Name() == "MustRegister")
	}
	seen := 0
	rc := &Client{KeepIters: true}
	rc.OnEvent = func(s *State, ev *Event) bool {
		if !isReg(ev) {
			return false
		}
		seen++
		a := ev.Args[len(ev.Args)-1]
		if l, _, ok := elemOf(a); !ok || l != rp[0] {
			c.Bad("registration", reg.String(), p.InstrPos(ev.Instr), "registers "+a.String()+" instead of the collectors it is given")
		}
		return true
	}
	re, rpaths := collect(c, reg, rc, rp, nil)
	c.Check(seen > 0, "registration", reg.String(), p.Pos(reg.Pos()), "no collector is registered")
	for _, pth := range rpaths {
		if pth.St.F.eval(mkLt(mkInt(0), mkLen(rp[0]))) == no {
			c.Ok("registration", reg.String()+" complete")
			continue
		}
		why := "returns without registering the collectors"
		for _, ev := range pth.Events {
			if ev.Kind != "loop" || re.Loops[ev.Loop] == nil {
				continue
			}
			first, later, skipped := map[*Term]bool{}, map[*Term]bool{}, false
			for _, it := range re.Loops[ev.Loop].Iters {
				n := 0
				for _, x := range it.Events {
					if !isReg(x) {
						continue
					}
					n++
					if _, idx, ok := elemOf(x.Args[len(x.Args)-1]); ok && it.First {
						first[idx] = true
					} else if ok {
						later[idx] = true
					}
				}
				skipped = skipped || n != 1
			}
			if len(first) == 0 {
				continue
			}
			if skipped {
				why = "a collector is skipped"
			} else {
				why = covers(re, pth.St, sliceSrc(rp[0]), ev.Loop, first, later)
			}
			break
		}
		c.Check(why == "", "registration", reg.String()+" complete", p.Pos(reg.Pos()), why, traceDetails(pth.St)...)
	}
}

func visited(evs []*Event, colElems func(*Event) []*Term, nodeOf func(*Term) (*Term, int)) map[*Term]bool {
	out := map[*Term]bool{}
	for _, ev := range evs {
		for _, el := range colElems(ev) {
			if n, _ := nodeOf(el); n != nil {
				out[n] = true
			}
		}
	}
	return out
}

// accOfRec: like accOf; the list may also be one the recursive call extended.
func accOfRec(e *Engine, t *Term, recs map[*Term][]*Term) bool {
	extra := map[*Term]bool{}
	for _, u := range tt.list {
		if u.Op == OpLoad && (u.Args[0].Op == OpAlloc) {
			extra[u] = true // the captured list after a recursive visit
		}
	}
	return accOf(e, t, recs, extra)
}

// analyseMetricsRec decides that the recursive visit of a node covers all of
// its children and counters.
func analyseMetricsRec(c *Ctx, r *pipeRoles, counterFields []int) {
	p := c.P
	fn := p.Func(relPipeline, "*Pipeline.Metrics")
	n := 0
	for f := range reach(p, fn) {
		if r.nodeParam(f) < 0 || !recursive(p, f) {
			continue
		}
		n++
		params := rootParams(f)
		node := params[r.nodeParam(f)]
		kids := r.fieldTerm(node, r.fKids)
		q := newSeq(kids)
		isRec := func(ev *Event) bool { return ev.Kind == "call" && ev.Rec && ev.Fn == f }
		cl := &Client{}
		cl.OnEvent = func(s *State, ev *Event) bool {
			if isRec(ev) {
				k := r.nodeArg(ev.Args)
				if l, idx, ok := elemOf(k); ok && l == kids {
					q.visit(idx)
				} else {
					c.Bad("collectors", f.String()+" recursion", p.InstrPos(ev.Instr), "the recursion visits "+k.String()+" instead of the on_failure processors of the node")
				}
				for i, a := range ev.Args {
					if i != r.nodeParam(f) && f.Params[i].Type().Underlying() != nil {
						if _, isF := f.Params[i].Type().Underlying().(*types.Signature); isF {
							c.Check(a == params[i], "collectors", f.String()+" visitor", p.InstrPos(ev.Instr), "the recursion uses another visitor")
						}
					}
				}
				return true
			}
			return false
		}
		cl.OnBack = func(s *State, lp *LoopRec, first bool, iter []*Event) {
			k := 0
			for _, ev := range iter {
				if isRec(ev) {
					k++
				}
			}
			c.Check(k == 1, "collectors", f.String()+" each child", p.Pos(f.Pos()), "an on_failure processor is skipped", traceDetails(s)...)
		}
		e, paths := collect(c, f, cl, params, nil)
		msg := q.verify(e)
		c.Check(msg == "" && len(q.first) > 0, "collectors", f.String()+" children", p.Pos(f.Pos()), "the children are not visited in order: "+msg)
		for _, pth := range paths {
			next := mkInt(0)
			for _, ev := range pth.Events {
				if ev.Kind == "loop" && q.next(ev.Loop) != nil {
					next = q.next(ev.Loop)
				} else if isRec(ev) {
					_, idx, _ := elemOf(r.nodeArg(ev.Args))
					if idx != nil {
						next = mkLin(idx, 1)
					}
				}
			}
			c.Check(pth.St.F.eval(mkLt(next, mkLen(kids))) == no, "collectors", f.String()+" all children", p.Pos(f.Pos()), "the visit ends before all on_failure processors were visited", traceDetails(pth.St)...)
		}
	}
	for f := range reach(p, fn) {
		for _, q := range f.Params {
			if sl, ok := q.Type().Underlying().(*types.Slice); ok && ptrTo(sl.Elem(), r.node) && recursive(p, f) {
				n++
			}
		}
	}
	if n == 0 {
		c.Bad("collectors", "recursion", p.Pos(fn.Pos()), "Metrics does not visit the on_failure processors of the processors at every nesting level")
	}
}

func keysOf(m map[*Term]string) []string {
	var out []string
	for k := range m {
		out = append(out, k.String())
	}
	return out
}

// arrayAlloc: the backing array of a list of variadic arguments.
func arrayAlloc(t *Term) bool {
	if t.Op != OpAlloc || t.Typ == nil {
		return false
	}
	_, ok := deref(t.Typ).Underlying().(*types.Array)
	return ok
}
