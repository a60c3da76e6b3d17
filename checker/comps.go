package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Comprehensions: proofs that a list (map) built by loops holds exactly one
// result for each element of a source list (map), in order.

// listSrc describes the elements of a source list.
type listSrc struct {
	Len   *Term
	Name  string
	Whole *Term // set if the elements themselves are kept: the list as a whole
	// Zero: what must be stored for the element with this index is the zero value.
	Zero func(s *State, idx *Term) bool
}

func sliceSrc(t *Term) listSrc { return listSrc{Len: mkLen(t), Name: t.String()} }

// elemFn recognises the term that must be put in the result for one element
// and yields the index of that element.
func wholeSrc(t *Term) listSrc { return listSrc{Len: mkLen(t), Name: t.String(), Whole: t} }

type elemFn func(got *Term) (idx *Term, ok bool)

func appendParts(t *Term) (base *Term, elems []*Term, ok bool) {
	switch t.Op {
	case OpAppend:
		return t.Args[0], t.Args[1:], true
	case OpAppendSl:
		if t.Args[1].Op == OpSliceLit {
			return t.Args[0], t.Args[1].Args, true
		}
	case OpSliceLit:
		if len(t.Args) > 0 {
			return mkNil(), t.Args, true
		}
	}
	return nil, nil, false
}

func emptyList(f *Facts, t *Term) bool {
	if t.isNil() {
		return true
	}
	if t.Op == OpSliceLit && len(t.Args) == 0 {
		return true
	}
	return f.eval(mkEq(mkLen(t), mkInt(0))) == yes
}

// ownEmpty: a list without elements that shares no memory with another, so that
// appending to it changes nothing else.
func ownEmpty(s *State, t *Term) bool {
	if !emptyList(s.F, t) {
		return false
	}
	if t.isNil() || s.F.isNilTri(t) == yes {
		return true
	}
	r := rootOf(t)
	return r.Op == OpAlloc || r.Op == OpSliceLit || r.Op == OpApp && r.Aux == "makeslice"
}

// coverage of a source list by the visits of a loop: the element with index
// 0 in the first iteration, the next one in each further iteration, and all of
// them when the loop is left in state s.
func covers(e *Engine, s *State, src listSrc, key string, first, later map[*Term]bool) string {
	for i := range first {
		if !i.IsInt || i.N != 0 {
			return "the first iteration handles element " + i.String() + " of " + src.Name
		}
	}
	rec := e.Loops[key]
	if rec == nil {
		return "unknown loop"
	}
	if len(later) == 0 {
		if s != nil && len(first) > 0 && s.F.eval(mkLt(mkInt(1), src.Len)) != no {
			return "the loop ends before the second element of " + src.Name
		}
		return ""
	}
	var next *Term
	for idx := range later {
		b, off := linParts(idx)
		if b == nil {
			return "every iteration handles element " + idx.String() + " of " + src.Name
		}
		vr := rec.Vars[b]
		if vr == nil {
			return "the index " + idx.String() + " is not an induction variable of the loop"
		}
		for f := range vr.Firsts {
			if !f.IsInt || f.N+off != 1 {
				return "the second iteration handles element " + mkLin(f, off).String() + " of " + src.Name
			}
		}
		for st := range vr.Steps {
			sb, so := linParts(st)
			if sb != b || so != 1 {
				return "the index changes from " + b.String() + " to " + st.String() + " instead of the next one"
			}
		}
		if next != nil && next != idx {
			return "one iteration handles several elements of " + src.Name
		}
		next = idx
	}
	if s != nil && s.F.eval(mkLt(next, src.Len)) != no {
		return "the loop can end before the last element of " + src.Name
	}
	return ""
}

// listOf proves that res is base followed by one element for each element of
// src, in order.
func listOf(e *Engine, s *State, res *Term, src listSrc, elem elemFn, base func(*Term) bool) string {
	zero := mkInt(0)
	srcEmpty := s.F.eval(mkLt(zero, src.Len)) == no
	if base(res) {
		if srcEmpty {
			return ""
		}
		if res.Op != OpLoopVar && !(res.Op == OpAlloc || res.Op == OpSlice) {
			return "the elements of " + src.Name + " are not added"
		}
	}
	if srcEmpty && res.Op != OpLoopVar {
		if b, el, ok := appendParts(res); ok && len(el) == 0 && base(b) {
			return ""
		}
	}
	switch res.Op {
	case OpAppendSl:
		if base(res.Args[0]) && src.Whole != nil && res.Args[1] == src.Whole {
			return ""
		}
		if base(res.Args[0]) {
			return listOf(e, s, res.Args[1], src, elem, func(t *Term) bool { return ownEmpty(s, t) })
		}
	case OpLoopVar:
		key := loopOfVar(res)
		rec := e.Loops[key]
		if rec == nil || rec.Vars[res] == nil {
			return "the list " + res.String() + " cannot be resolved"
		}
		vr := rec.Vars[res]
		for i := range vr.Inits {
			if !base(i) {
				return "before the loop the list is " + i.String()
			}
		}
		first, later := map[*Term]bool{}, map[*Term]bool{}
		one := func(t *Term, isBase func(*Term) bool, into map[*Term]bool) string {
			b, el, ok := appendParts(t)
			if !ok {
				if isBase(t) {
					return "an iteration can leave the list unchanged"
				}
				return "an iteration makes the list " + t.String()
			}
			if !isBase(b) {
				return "an iteration appends to " + b.String() + " instead of the list so far"
			}
			if len(el) != 1 {
				return "an iteration appends several elements"
			}
			idx, ok := elem(el[0])
			if !ok {
				return "an iteration appends " + el[0].String()
			}
			into[idx] = true
			return ""
		}
		for f := range vr.Firsts {
			if w := one(f, base, first); w != "" {
				return w
			}
		}
		for f := range vr.Steps {
			if w := one(f, func(t *Term) bool { return t == res }, later); w != "" {
				return w
			}
		}
		if len(later) == 0 && len(first) > 0 {
			// at most one iteration
			return covers(e, s, src, key, first, later)
		}
		return covers(e, s, src, key, first, later)
	case OpAlloc, OpSlice:
		return filled(e, s, res, src, elem)
	}
	if b, el, ok := appendParts(res); ok && base(b) && len(el) == 1 {
		if idx, ok := elem(el[0]); ok && idx.IsInt && idx.N == 0 && s.F.eval(mkEq(src.Len, mkInt(1))) == yes {
			return ""
		}
	}
	return "the list is " + res.String()
}

// filled: a list made with the length of the source and filled by index.
func filled(e *Engine, s *State, res *Term, src listSrc, elem elemFn) string {
	return filledPart(e, s, res, src, elem, 0)
}

// filledPart is filled for a list with extra further elements after the ones of src.
func filledPart(e *Engine, s *State, res *Term, src listSrc, elem elemFn, extra int64) string {
	if want := mkLin(src.Len, extra); s.F.eval(mkEq(mkLen(res), want)) != yes && mkLen(res) != want {
		return "the list has length " + mkLen(res).String() + " instead of " + want.String()
	}
	root := rootOf(res)
	if src.Whole != nil {
		for k, v := range s.mem {
			if k.Op == OpIndexAddr && k.Args[0] == root && v.Op == OpApp && v.Aux == "copyof" && v.Args[0] == src.Whole {
				return ""
			}
		}
	}
	isStore := func(ev *Event) (idx *Term, ok bool) {
		if ev.Kind == "store" && ev.Addr.Op == OpIndexAddr && (ev.Addr.Args[0] == res || rootOf(ev.Addr) == root) {
			return ev.Addr.Args[1], true
		}
		return nil, false
	}
	var loops []string
	for _, ev := range s.Events() {
		if ev.Kind == "loop" {
			loops = append(loops, ev.Loop)
		}
		if idx, ok := isStore(ev); ok && s.F.eval(mkLt(idx, src.Len)) != no {
			return "the element at index " + idx.String() + " is also stored outside the loop"
		}
	}
	if s.F.eval(mkLt(mkInt(0), src.Len)) == no {
		return ""
	}
	for _, k := range loops {
		rec := e.Loops[k]
		first, later := map[*Term]bool{}, map[*Term]bool{}
		n, bad := 0, ""
		var skipped []Iter
		for _, it := range rec.Iters {
			cnt := 0
			for _, ev := range it.Events {
				idx, ok := isStore(ev)
				if !ok {
					continue
				}
				n++
				cnt++
				i2, ok := elem(ev.Val)
				if !ok {
					bad = "an iteration stores " + ev.Val.String()
				} else if i2 != idx {
					bad = "element " + i2.String() + " is stored at index " + idx.String()
				}
				if it.First {
					first[idx] = true
				} else {
					later[idx] = true
				}
			}
			if cnt == 0 && src.Zero != nil && (root.Op == OpAlloc || root.Op == OpApp && root.Aux == "makeslice") {
				skipped = append(skipped, it)
				continue
			}
			if cnt != 1 && bad == "" {
				bad = "an iteration does not store exactly one element"
			}
		}
		// An iteration may leave an element of a new list as it is, if that is
		// what it had to store.
		for _, it := range skipped {
			at := later
			if it.First {
				at = map[*Term]bool{mkInt(0): true}
			}
			if bad == "" && len(at) != 1 {
				bad = "an iteration does not store exactly one element"
			}
			for idx := range at {
				if bad == "" && !src.Zero(it.St, idx) {
					bad = "an iteration does not store the element " + idx.String()
				}
				if it.First {
					first[idx] = true
				}
			}
		}
		if n == 0 {
			continue
		}
		if bad != "" {
			return bad
		}
		return covers(e, s, src, k, first, later)
	}
	return "the list is not filled from " + src.Name
}

// lastElem is the last element of a list made with its final length.
func lastElem(s *State, l *Term) *Term {
	if l.Op != OpSlice || l.Args[0].Op != OpAlloc {
		return nil
	}
	et := elemType(l.Args[0].Typ)
	if et == nil {
		return nil
	}
	return s.load(mkIndexAddr(l, mkLin(mkLen(l), -1), types.NewPointer(et)), et)
}

// mapEnd: the iteration over src has ended, or src has no members.
func mapEnd(s *State, src *Term) bool {
	for k, v := range s.F.bools {
		if k.Op == OpNextOk && !v && len(k.Args) > 0 && k.Args[0].Op == OpRange && k.Args[0].Args[0] == src {
			return true
		}
	}
	return s.F.eval(mkEq(s.mapLen(src), mkInt(0))) == yes || src.isNil() || s.F.eval(mkEq(src, mkNil())) == yes
}

// mapOf proves that the map res gets exactly one entry for each member of src.
// entry decides whether (key, value) is right for the member (k, v).
func mapOf(e *Engine, s *State, res, src *Term, entry func(st *State, k, v, gotK, gotV *Term) string) string {
	return mapOfEv(e, s, res, src, func(st *State, ev *Event, k, v, gotK, gotV *Term) string { return entry(st, k, v, gotK, gotV) })
}

func mapOfEv(e *Engine, s *State, res, src *Term, entry func(st *State, ev *Event, k, v, gotK, gotV *Term) string) string {
	if res.isNil() || src.isNil() || s.F.eval(mkEq(src, mkNil())) == yes {
		if s.F.eval(mkEq(s.mapLen(src), mkInt(0))) == yes || src.isNil() || s.F.eval(mkEq(src, mkNil())) == yes {
			return ""
		}
		return "the members are dropped"
	}
	if res.Op != OpAlloc {
		return "the map is " + res.String() + " instead of a new map"
	}
	if !mapEnd(s, src) {
		return "the iteration over " + src.String() + " can end early"
	}
	var loops []string
	for _, ev := range s.Events() {
		switch ev.Kind {
		case "loop":
			loops = append(loops, ev.Loop)
		case "mapset", "mapdel":
			if ev.Args[0] == res {
				return "the map is also changed outside the iteration over " + src.String()
			}
		}
	}
	sort.Strings(loops)
	n := 0
	for _, key := range loops {
		rec := e.Loops[key]
		if rec == nil {
			continue
		}
		touched := false
		for _, it := range rec.Iters {
			var k, v *Term
			var set *Event
			cnt := 0
			for _, ev := range it.Events {
				if (ev.Kind == "mapset" || ev.Kind == "mapdel") && ev.Args[0] == res {
					cnt++
					touched = true
					if ev.Kind == "mapdel" {
						return "a member is removed from the result"
					}
					k, v, set = ev.Args[1], ev.Val, ev
				}
			}
			mk, mv := memberOf(it.St, src)
			if cnt == 0 && mk != nil && rangesOver(rec, src, it.St) {
				return "an iteration can skip a member of " + src.String()
			}
			if cnt == 0 {
				continue
			}
			if cnt > 1 {
				return "an iteration stores several members"
			}
			n++
			if mk == nil {
				return "the loop does not iterate over " + src.String()
			}
			if w := entry(it.St, set, mk, mv, k, v); w != "" {
				return w
			}
		}
		_ = touched
	}
	return ""
}

// memberOf finds the current member of the iteration over src.
func memberOf(s *State, src *Term) (k, v *Term) {
	for b, val := range s.F.bools {
		if b.Op == OpNextOk && val && b.Args[0].Op == OpRange && b.Args[0].Args[0] == src {
			k, v = memberTerms(b)
			return
		}
	}
	return nil, nil
}

// memberTerms builds the key and value terms that belong to an iteration
// step.
func memberTerms(okT *Term) (k, v *Term) {
	src := okT.Args[0].Args[0]
	mt := mapTypeOf(src.Typ)
	if mt == nil {
		return nil, nil
	}
	k = mkT(OpMapKey, okT.Aux, 0, mt.Key(), false, okT.Ref, okT.loops, src)
	v = mkT(OpMapVal, okT.Aux, 0, mt.Elem(), false, okT.Ref, okT.loops, src)
	return
}

func rangesOver(rec *LoopRec, src *Term, s *State) bool {
	for b, val := range s.F.bools {
		if b.Op == OpNextOk && val && b.Args[0].Op == OpRange && b.Args[0].Args[0] == src && hasStr(b.loops, rec.Key) {
			return true
		}
	}
	return false
}

// convApp names the result of a modelled recursive converter.
func convApp(fn *ssa.Function, i int, args []*Term) *Term {
	r := fn.Signature.Results()
	n := "conv:" + fn.String()
	if r.Len() > 1 {
		n += "#" + string(rune('0'+i))
	}
	return mkApp(n, r.At(i).Type(), args...)
}

func convModel(fns map[*ssa.Function]bool) func(s *State, c *CallCtx) ([]*Term, bool) {
	return func(s *State, c *CallCtx) ([]*Term, bool) {
		if c.Fn == nil || !fns[c.Fn] {
			return nil, false
		}
		var out []*Term
		for i := 0; i < c.Fn.Signature.Results().Len(); i++ {
			out = append(out, convApp(c.Fn, i, c.Args))
		}
		s.e.emit(s, &Event{Kind: "conv", Instr: c.Instr, Fn: c.Fn, Args: c.Args, Ctx: s.top().ctx})
		return out, true
	}
}

// isConv recognises conv:fn(x).
func isConv(t *Term, fn *ssa.Function) (arg *Term, ok bool) {
	if t.Op == OpApp && len(t.Args) > 0 && (t.Aux == "conv:"+fn.String() || t.Aux == "conv:"+fn.String()+"#0") {
		return t.Args[0], true
	}
	return nil, false
}

func sigIs(fn *ssa.Function, params []types.Type, results []types.Type) bool {
	if len(fn.Params) != len(params) || fn.Signature.Results().Len() != len(results) {
		return false
	}
	for i, p := range params {
		if !types.Identical(fn.Params[i].Type(), p) {
			return false
		}
	}
	for i, r := range results {
		if !types.Identical(fn.Signature.Results().At(i).Type(), r) {
			return false
		}
	}
	return true
}
