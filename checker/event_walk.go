package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const relEvent = "pkg/event"

// walk interprets the access to nested objects along a parsed key: the depth
// of a map is the number of segments that lead to it.
type walk struct {
	c                       *Ctx
	fn                      *ssa.Function
	construct, pos          string
	evt                     *Term
	path, n                 *Term
	fFields, fObject, fType int
	objTag                  *Term
	valueT                  *types.Named
	eventT                  *types.Named
	parser                  *ssa.Function
	snaps                   []walkSnap
	inv                     map[*Term]*Term // loop variable -> its depth
	pending                 []func()
	val                     *Term
	nowhere                 map[string][]func() bool
}

type walkSnap struct {
	rec   *LoopRec
	entry bool
	s     *State
	vals  map[*Term]*Term
}

// eventParser finds the function that splits a key.
func eventParser(c *Ctx) *ssa.Function {
	p := c.P
	var out []*ssa.Function
	var roots []*ssa.Function
	for _, n := range []string{"*Event.Put", "*Event.TryPut", "*Event.Get", "*Event.Delete"} {
		if f := p.Func(relEvent, n); f != nil {
			roots = append(roots, f)
		} else {
			c.Missing("event." + n)
			return nil
		}
	}
	for f := range reach(p, roots...) {
		sig := f.Signature
		if fnPkgPath(f) == p.Mod+"/"+relEvent && f.Parent() == nil && sig.Recv() == nil && sig.Params().Len() == 1 && sig.Results().Len() == 1 && isStringType(sig.Params().At(0).Type()) && isSegList(sig.Results().At(0).Type()) {
			out = append(out, f)
		}
	}
	if len(out) > 1 {
		// helpers of the parser with the same signature
		var outer []*ssa.Function
		for _, f := range out {
			for g := range reach(p, roots...) {
				if g != f && hasFn(staticCallees(p, g), f) && !hasFn(out, g) {
					outer = append(outer, f)
					break
				}
			}
		}
		out = outer
	}
	if len(out) != 1 {
		c.Missing(fmt.Sprintf("the function that splits a key into its segments (found %d)", len(out)))
		return nil
	}
	return out[0]
}

func constTerm(p *Prog, rel, name string) *Term {
	pk := p.Pkg(rel)
	if pk == nil {
		return nil
	}
	cn, ok := pk.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return nil
	}
	if n, exact := constant.Int64Val(constant.ToInt(cn.Val())); exact {
		return mkInt(n)
	}
	return nil
}

func newWalk(c *Ctx, name string) *walk {
	p := c.P
	w := &walk{c: c, inv: map[*Term]*Term{}, nowhere: map[string][]func() bool{}}
	w.parser = eventParser(c)
	w.fn = p.Func(relEvent, name)
	w.eventT = lookupNamed(p, relEvent, "Event")
	w.valueT = lookupNamed(p, relEvent, "Value")
	w.objTag = constTerm(p, relEvent, "ObjectType")
	if w.parser == nil || w.fn == nil || w.eventT == nil || w.valueT == nil || w.objTag == nil {
		c.Missing("event." + name + ", Event, Value, ObjectType and the key parser")
		return nil
	}
	w.fFields = -1
	st := structOf(w.eventT)
	for i := 0; i < st.NumFields(); i++ {
		if mt := mapTypeOf(st.Field(i).Type()); mt != nil && ptrTo(mt.Elem(), w.valueT) {
			w.fFields = i
		}
	}
	w.fObject = fieldIndexByName(w.valueT, "Object")
	w.fType = fieldIndexByName(w.valueT, "Type")
	if w.fFields < 0 || w.fObject < 0 || w.fType < 0 {
		c.Missing("the fields of Event and Value")
		return nil
	}
	w.construct = w.fn.String()
	w.pos = p.Pos(w.fn.Pos())
	return w
}

// pureModel treats the key parser and the path formatter as pure functions.
func (w *walk) pureModel(s *State, cc *CallCtx) ([]*Term, bool) {
	if cc.Fn == nil {
		return nil, false
	}
	if cc.Fn == w.parser {
		return []*Term{mkApp("segments", cc.Sig.Results().At(0).Type(), cc.Args[0])}, true
	}
	sig := cc.Sig
	if fnPkgPath(cc.Fn) == w.c.P.Mod+"/"+relEvent && sig.Params().Len() == 1 && sig.Results().Len() == 1 && isSegList(sig.Params().At(0).Type()) && isStringType(sig.Results().At(0).Type()) {
		return []*Term{mkApp("text", sig.Results().At(0).Type(), cc.Args[0])}, true
	}
	return nil, false
}

func isSegList(t types.Type) bool { return t != nil && typeStr(t.Underlying()) == "[]string" }

// off is the number of segments before the list t of remaining segments.
func (w *walk) off(t *Term) *Term {
	switch {
	case t == w.path:
		return mkInt(0)
	case t.Op == OpSlice && isSegList(t.Args[0].Typ):
		o := w.off(t.Args[0])
		if o == nil || t.Args[1] == nil {
			return o
		}
		return mkAdd(o, t.Args[1])
	case t.Op == OpLoopVar && isSegList(t.Typ):
		return mkApp("off", types.Typ[types.Int], t)
	case isIntTerm(t) || t.Typ != nil && isIntType(t.Typ):
		return t
	}
	return nil
}

// gap is the number of segments after the list, -1 if unknown.
func (w *walk) gap(s *State, t *Term, seen map[*Term]bool) int64 {
	const any = 1 << 40
	var g func(s *State, t *Term) int64
	g = func(s *State, t *Term) int64 {
		if t == w.path {
			return 0
		}
		if seen[t] {
			return any
		}
		switch t.Op {
		case OpSlice:
			in := g(s, t.Args[0])
			hi, n := t.Args[2], mkLen(t.Args[0])
			if in < 0 || hi == nil || hi == n {
				return in
			}
			bh, oh := linParts(hi)
			bn, on := linParts(n)
			if bh == bn && on >= oh {
				if in == any {
					return -1
				}
				return in + on - oh
			}
			if s.F.eval(mkEq(hi, n)) == yes {
				return in
			}
		case OpLoopVar:
			seen[t] = true
			res := int64(any)
			for _, sn := range w.snaps {
				if v, ok := sn.vals[t]; ok {
					x := g(sn.s, v)
					switch {
					case x < 0:
						return -1
					case x == any:
					case res == any:
						res = x
					case res != x:
						return -1
					}
				}
			}
			delete(seen, t)
			if res == any && len(seen) == 0 {
				return -1
			}
			return res
		}
		return -1
	}
	return g(s, t)
}

// norm expresses a position with the number of segments where possible.
func (w *walk) norm(s *State, x *Term) *Term {
	if x == nil {
		return nil
	}
	b, c := linParts(x)
	if b == nil || b.Op != OpApp || b.Aux != "off" {
		return x
	}
	lo, ok1, hi, ok2 := s.F.bounds(mkLen(b.Args[0]))
	if !ok1 || !ok2 || lo != hi {
		return x
	}
	if g := w.gap(s, b.Args[0], map[*Term]bool{}); g >= 0 {
		return mkLin(mkLen(w.path), c-lo-g)
	}
	return x
}

// seg gives the position of a segment and whether it is the last one.
func (w *walk) seg(s *State, k *Term) (pos *Term, last, before tri) {
	l, idx, ok := elemOf(k)
	if !ok {
		return nil, unknown, unknown
	}
	o := w.off(l)
	if o == nil {
		return nil, unknown, unknown
	}
	pos = w.norm(s, mkAdd(o, idx))
	g := w.gap(s, l, map[*Term]bool{})
	if g < 0 {
		return pos, unknown, unknown
	}
	end := mkLin(mkLen(l), g-1)
	return pos, s.F.eval(mkEq(idx, end)), s.F.eval(mkLt(idx, end))
}

// depth of a map, nil if unknown.
func (w *walk) depth(s *State, m *Term, d int) *Term {
	return w.norm(s, w.depth0(s, m, d))
}

func (w *walk) depth0(s *State, m *Term, d int) *Term {
	if d > 8 || m == nil {
		return nil
	}
	if x := w.inv[m]; x != nil {
		return x
	}
	switch m.Op {
	case OpLoad:
		b, f, ok := fieldOf(m)
		if !ok {
			return nil
		}
		if b == w.evt && f == w.fFields {
			return mkInt(0)
		}
		if f == w.fObject && ptrTo(b.Typ, w.valueT) {
			if vd := w.valDepth(s, b, d+1); vd != nil {
				return mkLin(vd, 1)
			}
		}
	case OpAlloc:
		if s.mem[mkFieldAddr(w.evt, w.fFields, nil)] == m {
			return mkInt(0)
		}
		for a, v := range s.mem {
			if v != m {
				continue
			}
			if a.Op == OpFieldAddr && int(a.N) == w.fObject {
				if vd := w.valDepth(s, a.Args[0], d+1); vd != nil {
					return mkLin(vd, 1)
				}
			}
		}
	}
	return nil
}

// valDepth: the position of the segment that leads to the value.
func (w *walk) valDepth(s *State, v *Term, d int) *Term {
	return w.norm(s, w.valDepth0(s, v, d))
}

func (w *walk) valDepth0(s *State, v *Term, d int) *Term {
	if d > 8 {
		return nil
	}
	if x := w.inv[v]; x != nil {
		return x
	}
	switch v.Op {
	case OpLookup:
		return w.lookupDepth(s, v, d+1)
	case OpAlloc:
		for a, x := range s.mem {
			if x == v && a.Op == OpMapCell {
				md := w.depth(s, a.Args[0], d+1)
				p, _, _ := w.seg(s, a.Args[1])
				if md != nil && p != nil && s.F.eval(mkEq(md, p)) == yes {
					return md
				}
			}
		}
		// a value made for the root object
		o := s.mem[mkFieldAddr(v, w.fObject, nil)]
		if o != nil && o.Op == OpLoad {
			if b, f, ok := fieldOf(o); ok && b == w.evt && f == w.fFields {
				return mkInt(-1)
			}
		}
	}
	return nil
}

// lookupDepth is the position of the segment a lookup is for, nil if the
// lookup is not one along the path.
func (w *walk) lookupDepth(s *State, t *Term, d int) *Term {
	md := w.depth(s, t.Args[0], d+1)
	p, _, _ := w.seg(s, t.Args[1])
	if md != nil && p != nil && s.F.eval(mkEq(md, p)) == yes {
		return md
	}
	return nil
}

// solve finds the depth of the loop variables from the loop entries and checks
// that every iteration keeps it.
func (w *walk) solve() {
	var order []*Term
	byVar := map[*Term][]walkSnap{}
	for _, sn := range w.snaps {
		for lv := range sn.vals {
			if len(byVar[lv]) == 0 {
				order = append(order, lv)
			}
			byVar[lv] = append(byVar[lv], sn)
		}
	}
	get := func(s *State, lv, v *Term) *Term {
		if mapTypeOf(lv.Typ) != nil {
			return w.depth(s, v, 0)
		}
		return w.valDepth(s, v, 0)
	}
	for round := 0; round < 4; round++ {
		changed := false
		for _, lv := range order {
			isMap := mapTypeOf(lv.Typ) != nil && ptrTo(mapTypeOf(lv.Typ).Elem(), w.valueT)
			if w.inv[lv] != nil || !isMap && !ptrTo(lv.Typ, w.valueT) {
				continue
			}
			for _, cand := range order {
				if loopOfVar(cand) != loopOfVar(lv) || !isSegList(cand.Typ) && !isIntType(cand.Typ) {
					continue
				}
				// constant from an entry
				var k *Term
				for _, sn := range byVar[lv] {
					if sn.entry && k == nil {
						dv, ov := get(sn.s, lv, sn.vals[lv]), w.norm(sn.s, w.off(sn.vals[cand]))
						if dv != nil && ov != nil {
							k = mkSub(dv, ov)
						}
					}
				}
				if k == nil || !k.IsInt {
					continue
				}
				w.inv[lv] = mkLin(w.off(cand), k.N)
				ok := true
				for _, sn := range byVar[lv] {
					dv, ov := get(sn.s, lv, sn.vals[lv]), w.norm(sn.s, w.off(sn.vals[cand]))
					if dv == nil || ov == nil || sn.s.F.eval(mkEq(dv, mkLin(ov, k.N))) != yes {
						ok = false
					}
				}
				if ok {
					changed = true
					break
				}
				delete(w.inv, lv)
			}
		}
		if !changed {
			break
		}
	}
}

// absent: the state proves that some segment of the path leads nowhere.
func (w *walk) absent(s *State) bool {
	F := s.F
	if id := s.Mon["nowhere"]; id != "" {
		ok := true
		for _, f := range w.nowhere[id] {
			ok = ok && f()
		}
		if ok {
			return true
		}
	}
	for _, t := range tt.list {
		switch t.Op {
		case OpLoopVar:
			if ptrTo(t.Typ, w.valueT) && w.inv[t] != nil && F.isNilTri(t) == yes {
				return true
			}
		case OpLookupOk:
			if F.eval(t) == no && w.lookupDepth(s, t, 0) != nil {
				return true
			}
		case OpLookup:
			if !ptrTo(t.Typ, w.valueT) {
				continue
			}
			if F.isNilTri(t) == yes && w.lookupDepth(s, t, 0) != nil {
				return true
			}
		case OpLoad:
			b, f, ok := fieldOf(t)
			if !ok {
				continue
			}
			if b == w.evt && f == w.fFields && (F.isNilTri(t) == yes || F.eval(mkLt(mkInt(0), s.lenAny(t))) == no) {
				return true
			}
			if !ptrTo(b.Typ, w.valueT) || w.valDepth(s, b, 0) == nil {
				continue
			}
			if f == w.fObject && (F.isNilTri(t) == yes || F.eval(mkLt(mkInt(0), s.lenAny(t))) == no) {
				if _, last, _ := w.segOf(s, b); last != yes {
					return true
				}
			}
			if f == w.fType && F.eval(mkEq(t, w.objTag)) == no {
				if _, last, _ := w.segOf(s, b); last != yes {
					return true
				}
			}
		case OpMapLen:
			if F.eval(mkLt(mkInt(0), t)) == no && mapTypeOf(t.Args[0].Typ) != nil && w.depth(s, t.Args[0], 0) != nil && w.shallow(s, t.Args[0]) {
				return true
			}
		}
	}
	return false
}

// atPath: the value is the one that the whole path leads to.
func (w *walk) atPath(s *State, v *Term) bool {
	switch v.Op {
	case OpLookup:
		_, last, _ := w.seg(s, v.Args[1])
		return last == yes && w.lookupDepth(s, v, 0) != nil
	case OpLoopVar:
		d := w.inv[v]
		return d != nil && s.F.eval(mkEq(d, mkLin(w.n, -1))) == yes
	}
	return false
}

// shallow: the map is the root or belongs to a segment before the last.
func (w *walk) shallow(s *State, m *Term) bool {
	d := w.depth(s, m, 0)
	if d == nil {
		return false
	}
	if d.IsInt && d.N == 0 || s.F.eval(mkLt(d, w.n)) == yes {
		return true
	}
	// as many segments remain as the list of remaining segments has
	if b, c := linParts(d); b != nil && b.Op == OpApp && b.Aux == "off" {
		if g := w.gap(s, b.Args[0], map[*Term]bool{}); g >= 0 {
			return s.F.eval(mkLt(mkInt(c), mkLin(mkLen(b.Args[0]), g))) == yes
		}
	}
	return false
}

func (w *walk) segOf(s *State, v *Term) (*Term, tri, tri) {
	if v.Op == OpLookup {
		return w.seg(s, v.Args[1])
	}
	return nil, unknown, unknown
}

func (s *State) lenAny(m *Term) *Term { return s.mapLen(m) }

// nonEmpty/other facts

func (w *walk) client() *Client {
	cl := &Client{KeepSlices: true}
	cl.Model = w.pureModel
	cl.OnLoop = func(s *State, lp *LoopRec, entry bool, vals map[*Term]*Term) {
		t := s.clone()
		w.snaps = append(w.snaps, walkSnap{lp, entry, t, vals})
		if entry {
			return
		}
		// a cursor that became nil: the segment leads nowhere
		for _, v := range vals {
			if v.Op == OpLookup && ptrTo(v.Typ, w.valueT) && s.F.isNilTri(v) == yes {
				id := fmt.Sprint(v.ID)
				s.Mon["nowhere"] = id
				w.nowhere[id] = append(w.nowhere[id], func() bool { return w.lookupDepth(t, v, 0) != nil })
			}
		}
	}
	return cl
}

func (w *walk) later(f func()) { w.pending = append(w.pending, f) }

func (w *walk) run(cl *Client) []*Path {
	params := rootParams(w.fn)
	w.evt = params[0]
	w.path = mkApp("segments", types.NewSlice(types.Typ[types.String]), params[1])
	w.n = mkLen(w.path)
	if len(params) > 2 {
		w.val = params[2]
	}
	_, paths := collect(w.c, w.fn, cl, params, func(s *State) {
		s.F.assume(mkEq(w.evt, mkNil()), false)
	})
	w.solve()
	for _, f := range w.pending {
		f()
	}
	return paths
}

// isFreshObject: v is a new object value without members.
func (w *walk) isFreshObject(s *State, v *Term) bool {
	if v.Op != OpAlloc || !ptrTo(v.Typ, w.valueT) {
		return false
	}
	o := loadField(s, v, w.fObject)
	return loadField(s, v, w.fType) == w.objTag && o.Op == OpAlloc && w.emptyMap(s, o)
}

func (w *walk) emptyMap(s *State, m *Term) bool {
	return m.Op == OpAlloc && s.F.eval(mkLt(mkInt(0), s.mapLen(m))) == no
}

func (w *walk) isValueMap(m *Term) bool {
	mt := mapTypeOf(m.Typ)
	return mt != nil && ptrTo(mt.Elem(), w.valueT)
}

func init() {
	register("C01", func(c *Ctx) {
		c.Rule("final-store", "the value is stored exactly once, in the map that the segments before the last lead to, under the last segment", 2)
		c.Rule("intermediate", "the only other additions are new, empty objects for absent segments before the last, and an empty member map for an object without one", 2)
		c.Rule("previous", "the value returned is the one stored under the key before, or nil if the key is absent", 2)
		c.Rule("exists", "TryPut stores only if the key is absent and otherwise returns the existing value with ErrKeyExists", 2)
		c.Rule("errors", "each failure has its documented cause and wraps its sentinel", 4)
		c.Rule("no-partial", "a put that fails or puts nil has changed nothing", 4)
		for _, n := range []string{"*Event.Put", "*Event.TryPut"} {
			analysePut(c, n)
		}
		facade(c, "Put", "TryPut")
	})
	register("C02", func(c *Ctx) {
		c.Rule("value", "the value returned is the one found by following exactly the segments of the key", 1)
		c.Rule("absent", "nil is returned only if some segment leads nowhere", 1)
		c.Rule("root", "the empty path gives the root object", 1)
		c.Rule("pure", "a lookup changes nothing", 1)
		analyseGet(c)
		facade(c, "Get")
	})
	register("C03", func(c *Ctx) {
		c.Rule("delete", "exactly the last segment is removed, from the map the segments before it lead to", 1)
		c.Rule("result", "the value that was stored there is returned, nil only if there was none", 1)
		c.Rule("absent", "nothing is removed only if the key is absent", 1)
		c.Rule("pure", "nothing else is changed", 1)
		analyseDelete(c)
		facade(c, "Delete")
	})
}

// effects reports every change of event memory other than those allowed.
func (w *walk) watch(cl *Client, rule string, allowed func(s *State, ev *Event) bool) {
	p := w.c.P
	old := cl.OnEvent
	cl.OnEvent = func(s *State, ev *Event) bool {
		keep := false
		if old != nil {
			keep = old(s, ev)
		}
		switch ev.Kind {
		case "store":
			if r := rootOf(ev.Addr); r.Op == OpAlloc {
				if _, ok := s.obj[r]; ok {
					return keep
				}
			}
		case "mapset", "mapdel", "mapclear":
			if ev.Args[0].Op == OpAlloc && !w.isValueMap(ev.Args[0]) {
				return keep
			}
		case "call":
			if ev.Fn != nil && p.inModule(ev.Fn) {
				w.c.Bad(rule, w.construct, p.InstrPos(ev.Instr), "the effect of the call of "+ev.Fn.String()+" cannot be bounded", traceDetails(s)...)
			}
			return keep
		case "go", "send":
		default:
			return keep
		}
		if !allowed(s, ev) {
			w.c.Bad(rule, w.construct, p.InstrPos(ev.Instr), "changes something else: "+describeEvent(p, ev), traceDetails(s)...)
		} else {
			w.c.Ok(rule, w.construct)
		}
		return keep
	}
}

func analysePut(c *Ctx, name string) {
	w := newWalk(c, name)
	if w == nil {
		return
	}
	p := c.P
	try := strings.Contains(name, "Try")
	cl := w.client()
	w.watch(cl, "intermediate", func(s *State, ev *Event) bool {
		k := p.InstrPos(ev.Instr)
		switch ev.Kind {
		case "store":
			v := s.F.resolve(ev.Val)
			if ev.Addr.Op != OpFieldAddr {
				return false
			}
			b := ev.Addr.Args[0]
			if b == w.evt && int(ev.Addr.N) == w.fFields {
				old := s.load(ev.Addr, cellType(ev.Addr))
				return w.emptyMap(s, v) && (s.F.isNilTri(old) == yes || s.F.eval(mkLt(mkInt(0), s.mapLen(old))) == no)
			}
			if int(ev.Addr.N) == w.fObject && ptrTo(b.Typ, w.valueT) {
				old := s.load(ev.Addr, cellType(ev.Addr))
				if !(w.emptyMap(s, v) && (s.F.isNilTri(old) == yes || s.F.eval(mkLt(mkInt(0), s.mapLen(old))) == no)) || s.F.resolve(loadField(s, b, w.fType)) != w.objTag {
					return false
				}
				s.Mon["mut"] = "1"
				t := s.clone()
				w.later(func() {
					_, _, before := w.segOf(t, b)
					c.Check(w.valDepth(t, b, 0) != nil && before == yes, "intermediate", w.construct+" member map", k, "members are added to an object that is not on the path", traceDetails(t)...)
				})
				return true
			}
			return false
		case "mapset":
			if !w.isValueMap(ev.Args[0]) {
				return false
			}
			m, key, v := ev.Args[0], ev.Args[1], s.F.resolve(ev.Val)
			if v == w.val {
				if s.Mon["put"] == "1" {
					return false
				}
				s.Mon["put"] = "1"
				t := s.clone()
				w.later(func() {
					d := w.depth(t, m, 0)
					ps, last, _ := w.seg(t, key)
					c.Check(d != nil && ps != nil && t.F.eval(mkEq(d, ps)) == yes && last == yes, "final-store", w.construct, k, fmt.Sprintf("the value is stored under %v of %v, which is not the map and segment that the key addresses", key, m), traceDetails(t)...)
					if try {
						c.Check(w.absent(t), "exists", w.construct+" stores only an absent key", k, "the value is stored although the key may exist", traceDetails(t)...)
					}
				})
				return true
			}
			if w.isFreshObject(s, v) {
				_, okT := s.lookup(m, key, mapTypeOf(m.Typ).Elem())
				missing := s.F.eval(okT) == no
				s.Mon["mut"] = "1"
				t := s.clone()
				w.later(func() {
					d := w.depth(t, m, 0)
					ps, _, before := w.seg(t, key)
					c.Check(missing && d != nil && ps != nil && t.F.eval(mkEq(d, ps)) == yes && before == yes, "intermediate", w.construct+" new object", k, fmt.Sprintf("a new object replaces or adds %v of %v, which is not an absent segment before the last", key, m), traceDetails(t)...)
				})
				return true
			}
			return false
		}
		return false
	})
	paths := w.run(cl)
	sentinel := func(n string) *Term {
		g := p.Pkg(relEvent).Var(n)
		if g == nil {
			c.Missing("event." + n)
			return nil
		}
		for _, t := range tt.list {
			if t.Op == OpLoad && t.Args[0].Op == OpGlobal && t.Args[0].Ref == ssa.Value(g) {
				return t
			}
		}
		return nil
	}
	for _, pth := range paths {
		s, F := pth.St, pth.St.F
		ret, err := F.resolve(pth.Rets[0]), F.resolve(pth.Rets[1])
		put, mut := s.Mon["put"] == "1", s.Mon["mut"] == "1"
		det := traceDetails(s)
		switch F.isNilTri(err) {
		case yes:
			if F.isNilTri(w.val) == yes {
				c.Check(!put && !mut, "no-partial", w.construct+" nil value", w.pos, "putting a nil value changes the event", det...)
				c.Check(ret.isNil(), "previous", w.construct+" nil value", w.pos, "putting a nil value returns "+ret.String(), det...)
				continue
			}
			c.Check(put, "final-store", w.construct+" success", w.pos, "success is returned but the value was not stored", det...)
			ok := false
			if w.atPath(s, ret) {
				ok = true
			} else if F.isNilTri(ret) == yes {
				ok = w.absent(s)
			}
			c.Check(ok, "previous", w.construct, w.pos, "returns "+ret.String()+", which is not proven to be the previous value", det...)
		case no:
			c.Check(!put && !mut, "no-partial", w.construct, w.pos, "an error is returned after the event was changed", det...)
			n := 0
			for _, x := range []struct {
				name  string
				cause func() bool
			}{
				{"ErrEmptyKey", func() bool { return F.eval(mkLt(mkInt(0), w.n)) == no }},
				{"ErrKeyExists", func() bool {
					okr := w.atPath(s, ret) && F.isNilTri(ret) == no
					if okr {
						c.Ok("exists", w.construct+" returns the existing value")
					}
					return try && okr
				}},
				{"ErrTargetKeyNotObject", func() bool { return w.notObject(s) }},
			} {
				g := sentinel(x.name)
				if g == nil || !wraps(F, err, g) {
					continue
				}
				n++
				c.Check(x.cause(), "errors", w.construct+" "+x.name, w.pos, x.name+" is returned for another cause", det...)
			}
			c.Check(n == 1, "errors", w.construct+" sentinel", w.pos, "the error "+err.String()+" wraps none of the documented sentinels", det...)
		default:
			c.Bad("errors", w.construct, w.pos, "the error returned is "+err.String(), det...)
		}
	}
}

// notObject: a segment before the last is present but not an object.
func (w *walk) notObject(s *State) bool {
	F := s.F
	for _, t := range tt.list {
		if t.Op != OpLookup || !ptrTo(t.Typ, w.valueT) {
			continue
		}
		okT := mkT(OpLookupOk, "", 0, types.Typ[types.Bool], false, nil, nil, t.Args...)
		if F.eval(okT) != yes && F.isNilTri(t) != no {
			continue
		}
		bad := F.isNilTri(t) == yes
		if !bad {
			tv := mkFieldAddr(t, w.fType, nil)
			for _, u := range tt.list {
				if u.Op == OpLoad && u.Args[0] == tv && F.eval(mkEq(u, w.objTag)) == no {
					bad = true
				}
			}
		}
		if !bad || w.lookupDepth(s, t, 0) == nil {
			continue
		}
		if _, _, before := w.seg(s, t.Args[1]); before == yes {
			return true
		}
	}
	return false
}

func analyseGet(c *Ctx) {
	w := newWalk(c, "*Event.Get")
	if w == nil {
		return
	}
	cl := w.client()
	c.Ok("pure", w.construct)
	w.watch(cl, "pure", func(s *State, ev *Event) bool { return false })
	for _, pth := range w.run(cl) {
		s, F := pth.St, pth.St.F
		ret := F.resolve(pth.Rets[0])
		det := traceDetails(s)
		switch {
		case F.eval(mkLt(mkInt(0), w.n)) == no:
			ok := F.isNilTri(ret) == yes && w.absent(s)
			if ret.Op == OpAlloc {
				o := loadField(s, ret, w.fObject)
				b, f, isF := fieldOf(o)
				ok = isF && b == w.evt && f == w.fFields && loadField(s, ret, w.fType) == w.objTag
			}
			c.Check(ok, "root", w.construct, w.pos, "the empty path gives "+ret.String(), det...)
		case ret.Op == OpLookup || ret.Op == OpLoopVar:
			c.Check(w.atPath(s, ret), "value", w.construct, w.pos, "returns "+ret.String()+", which is not the value at the path", det...)
		case F.isNilTri(ret) == yes:
			c.Check(w.absent(s), "absent", w.construct, w.pos, "returns nil although no segment is proven to be absent", det...)
		default:
			c.Bad("value", w.construct, w.pos, "returns "+ret.String(), det...)
		}
	}
}

func analyseDelete(c *Ctx) {
	w := newWalk(c, "*Event.Delete")
	if w == nil {
		return
	}
	p := c.P
	cl := w.client()
	dels := map[*Term]bool{}
	cl.OnEvent = func(s *State, ev *Event) bool { return ev.Kind == "mapdel" }
	w.watch(cl, "pure", func(s *State, ev *Event) bool {
		if ev.Kind != "mapdel" || !w.isValueMap(ev.Args[0]) || s.Mon["del"] != "" {
			return false
		}
		s.Mon["del"] = "1"
		m, key := ev.Args[0], ev.Args[1]
		if m.isNil() {
			s.Mon["del"] = ""
			return true
		}
		t := s.clone()
		k := p.InstrPos(ev.Instr)
		dels[m] = true
		w.later(func() {
			d := w.depth(t, m, 0)
			ps, last, _ := w.seg(t, key)
			c.Check(d != nil && ps != nil && t.F.eval(mkEq(d, ps)) == yes && last == yes, "delete", w.construct, k, fmt.Sprintf("removes %v from %v, which is not what the key addresses", key, m), traceDetails(t)...)
		})
		return true
	})
	for _, pth := range w.run(cl) {
		s, F := pth.St, pth.St.F
		ret := F.resolve(pth.Rets[0])
		det := traceDetails(s)
		var del *Event
		for _, ev := range pth.Events {
			if ev.Kind == "mapdel" {
				del = ev
			}
		}
		if del == nil || s.Mon["del"] == "" {
			c.Check(F.isNilTri(ret) == yes && (w.absent(s) || F.eval(mkLt(mkInt(0), w.n)) == no), "absent", w.construct, w.pos, "nothing is removed although the key is not proven to be absent", det...)
			continue
		}
		ok := ret.Op == OpLookup && ret.Args[0] == del.Args[0] && ret.Args[1] == del.Args[1]
		if ret.Op != OpLookup && F.isNilTri(ret) == yes {
			ok = w.absent(s)
			if del.Val != nil && F.isNilTri(del.Val) == yes {
				ok = true
			}
		}
		c.Check(ok, "result", w.construct, w.pos, "returns "+ret.String()+" instead of the value that was removed", det...)
	}
}
