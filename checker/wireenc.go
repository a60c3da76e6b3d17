package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The encoders: what is written, from the end of the buffer to its start.

// isSizeOfNumber: a function from a number to its size.
func isNumberSize(p *Prog, fn *ssa.Function) bool {
	sig := fn.Signature
	return fnPkgPath(fn) == p.Mod+"/"+relWire && sig.Recv() == nil && sig.Params().Len() == 1 && types.Identical(sig.Params().At(0).Type(), types.Typ[types.Uint64]) &&
		sig.Results().Len() == 1 && isInt(sig.Results().At(0).Type()) && len(fn.Blocks) > 0
}

// isNumberWriter: a function that writes a number before a position and gives
// where it starts.
func isNumberWriter(p *Prog, fn *ssa.Function) bool {
	sig := fn.Signature
	return fnPkgPath(fn) == p.Mod+"/"+relWire && sig.Recv() == nil && sig.Params().Len() == 3 && isBytes(sig.Params().At(0).Type()) &&
		isInt(sig.Params().At(1).Type()) && types.Identical(sig.Params().At(2).Type(), types.Typ[types.Uint64]) &&
		sig.Results().Len() == 1 && isInt(sig.Results().At(0).Type()) && len(fn.Blocks) > 0
}

// encRun interprets an encoder; nested sizes and encoders are what their own
// checks show: the size, and the message at the end of the buffer.
type encRun struct {
	c      *Ctx
	fn     *ssa.Function
	m, buf *Term
	fields []*wireField // with their own tag
	groups []int        // fields with alternatives
	un     int          // what was not known
	eng    *Engine

	why     string
	loops   map[string]*encLoop
	entries map[string]map[*Term]*Term

	sizes, writers map[*ssa.Function]bool // checked functions
}

type encLoop struct {
	field *wireField
	pos   *Term // the loop variable with the position or sum
	entry *Term
	idx   *Term // the index of the element in later iterations
	down  bool
}

type encSeg struct {
	lo, hi *Term
	kind   string // byte, number, fixed64, bytes, msg, alt
	t      *Term
	st     *State
}

var errTyp = types.Universe.Lookup("error").Type()

func (w *encRun) fail(why string) {
	if w.why == "" {
		w.why = why
	}
}

func (w *encRun) model(cl *Client) {
	p := w.c.P
	cl.Budget = 60000
	cl.OnEvent = func(s *State, ev *Event) bool { return true }
	cl.Model = func(s *State, cc *CallCtx) ([]*Term, bool) {
		name := cc.Name
		if cc.Fn == w.fn {
			return nil, false
		}
		if cc.Fn != nil {
			name = cc.Fn.Name()
			switch {
			case w.sizes[cc.Fn]:
				return []*Term{mkApp("sov", types.Typ[types.Int], cc.Args[0])}, true
			case w.writers[cc.Fn]:
				s.e.emit(s, &Event{Kind: "number", Args: cc.Args, Ctx: s.top().ctx})
				return []*Term{mkSub(cc.Args[1], mkApp("sov", types.Typ[types.Int], cc.Args[2]))}, true
			case cc.Fn.String() == "math.Float64bits":
				return []*Term{mkApp("f64bits", types.Typ[types.Uint64], cc.Args[0])}, true
			case fnPkgPath(cc.Fn) == "math/bits" && (name == "Len64" || name == "Len"):
				return []*Term{mkApp("len64", types.Typ[types.Int], cc.Args[0])}, true
			case name == "PutUint64" && fnPkgPath(cc.Fn) == "encoding/binary" && strings.Contains(cc.Fn.String(), "littleEndian"):
				s.e.emit(s, &Event{Kind: "fixed64", Args: cc.Args[len(cc.Args)-2:], Ctx: s.top().ctx})
				return []*Term{}, true
			}
			if fnPkgPath(cc.Fn) != p.Mod+"/"+relWire {
				return nil, false
			}
		} else if cc.Method == nil || cc.Method.Pkg() == nil || cc.Method.Pkg().Path() != p.Mod+"/"+relWire {
			return nil, false
		} else {
			name = cc.Method.Name()
		}
		if len(cc.Args) == 0 {
			return nil, false
		}
		switch name {
		case "Size":
			if len(cc.Args) == 1 {
				return []*Term{mkApp("size", types.Typ[types.Int], cc.Args[0])}, true
			}
		case "MarshalToSizedBuffer", "MarshalTo":
			if len(cc.Args) == 2 {
				err := mkT(OpSym, fmt.Sprint("err", cc.Site), 0, errTyp, false, nil, s.loopKeys())
				s.e.emit(s, &Event{Kind: name, Args: cc.Args, Res: err, Ctx: s.top().ctx})
				return []*Term{mkApp("size", types.Typ[types.Int], cc.Args[0]), err}, true
			}
		}
		return nil, false
	}
}

// bounds of a part of the buffer.
func (w *encRun) part(t *Term) (lo, hi *Term, ok bool) {
	if t == w.buf {
		return mkInt(0), mkLen(w.buf), true
	}
	if t.Op == OpSlice {
		l, _, ok := w.part(t.Args[0])
		return mkAdd(l, t.Args[1]), mkAdd(l, t.Args[2]), ok
	}
	return nil, nil, false
}

func sinceLoop(evs []*Event) (out []*Event, key string) {
	for i := len(evs) - 1; i >= 0; i-- {
		if evs[i].Kind == "loop" {
			return evs[i+1:], evs[i].Loop
		}
	}
	return evs, ""
}

// segs lists what is written.
func (w *encRun) segs(st *State, evs []*Event) []*encSeg {
	var out []*encSeg
	add := func(ok bool, lo, hi *Term, kind string, t *Term) {
		if !ok {
			w.fail("something else than the buffer is written")
			return
		}
		out = append(out, &encSeg{lo: lo, hi: hi, kind: kind, t: t, st: st})
	}
	for _, ev := range evs {
		switch ev.Kind {
		case "store":
			if ev.Addr.Op == OpIndexAddr {
				l, _, ok := w.part(ev.Addr.Args[0])
				if ok {
					l = mkAdd(l, ev.Addr.Args[1])
					add(true, l, mkAdd(l, mkInt(1)), "byte", ev.Val)
					continue
				}
			}
			if r := rootOf(ev.Addr); r == w.m || r == w.buf {
				w.fail("the message changes")
			}
		case "mapset":
			w.fail("a map changes")
		case "copy":
			l, _, ok := w.part(ev.Args[0])
			if ok {
				add(true, l, mkAdd(l, mkLen(ev.Args[1])), "bytes", ev.Args[1])
			}
		case "fixed64":
			l, _, ok := w.part(ev.Args[0])
			if ok {
				add(true, l, mkAdd(l, mkInt(8)), "fixed64", ev.Args[1])
			}
		case "number":
			l, _, ok := w.part(ev.Args[0])
			if ok {
				hi := mkAdd(l, ev.Args[1])
				add(true, mkSub(hi, mkApp("sov", types.Typ[types.Int], ev.Args[2])), hi, "number", ev.Args[2])
			}
		case "MarshalToSizedBuffer", "MarshalTo":
			l, h, ok := w.part(ev.Args[1])
			if !ok {
				w.fail("a message is encoded to another buffer")
				continue
			}
			if st.F.isNilTri(ev.Res) != yes {
				w.fail("the failure to encode a message is ignored")
			}
			n := mkApp("size", types.Typ[types.Int], ev.Args[0])
			if ev.Kind == "MarshalTo" {
				add(true, l, mkAdd(l, n), "msg", ev.Args[0])
			} else {
				add(true, mkSub(h, n), h, "msg", ev.Args[0])
			}
		}
	}
	return out
}

// chain orders what is written from top down; all of it must join.
func (w *encRun) chain(st *State, evs []*Event, top *Term) (out []*encSeg, end *Term) {
	segs := w.segs(st, evs)
	for len(segs) > 0 {
		found := -1
		for i, s := range segs {
			if linEq(s.hi, top) {
				found = i
			}
		}
		if found < 0 {
			w.fail("what is written does not join")
			return nil, nil
		}
		s := segs[found]
		segs = append(segs[:found:found], segs[found+1:]...)
		out = append([]*encSeg{s}, out...)
		top = s.lo
	}
	return out, top
}

func (w *encRun) old(t *Term, i int) bool { return isOld(w.eng, t, w.m, i) }

// number: t is x, not cut.
func plainInt(t *Term) *Term {
	for t.Op == OpConv && len(t.Args) == 1 && t.Typ != nil && isIntType(t.Typ) && t.Args[0].Typ != nil && isIntType(t.Args[0].Typ) && intBits(t.Typ) >= intBits(t.Args[0].Typ) {
		t = t.Args[0]
	}
	return t
}

// readTag takes a tag off the start of segs.
func readTag(segs []*encSeg) (num, wt int, rest []*encSeg, ok bool) {
	var x, shift uint64
	for i, s := range segs {
		if s.kind == "number" && i == 0 {
			n := plainInt(s.t)
			return int(n.N >> 3), int(n.N & 7), segs[1:], n.IsInt
		}
		if s.kind != "byte" || !s.t.IsInt || shift > 28 {
			return
		}
		x |= uint64(s.t.N&0x7f) << shift
		shift += 7
		if s.t.N&0x80 == 0 {
			return int(x >> 3), int(x & 7), segs[i+1:], true
		}
	}
	return
}

func numberIs(s *encSeg, want *Term) bool {
	return s.kind == "number" && linEq(s.t, want)
}

// delimited: the length of a value and the value, for a message, a string or
// bytes.
func delimited(segs []*encSeg) (x *Term, rest []*encSeg, why string) {
	if len(segs) < 2 {
		return nil, nil, "a length or value is missing"
	}
	l, v := segs[0], segs[1]
	if v.kind != "msg" && v.kind != "bytes" || !numberIs(l, mkSub(v.hi, v.lo)) {
		return nil, nil, "the length that is written is not that of the value"
	}
	return v.t, segs[2:], ""
}

// fieldValue checks what follows the tag of f, for the value that is accepted by is.
func (w *encRun) fieldValue(f *wireField, segs []*encSeg, is func(*Term) bool) (rest []*encSeg, why string) {
	const bad = "what is written is not the value of the field"
	if len(segs) == 0 {
		return nil, bad
	}
	s := segs[0]
	switch f.kind {
	case "varint":
		if b, ok := f.typ.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			x := loadField(s.st, w.m, f.field)
			v := s.st.F.eval(x)
			if s.kind != "byte" && s.kind != "number" {
				return nil, bad
			}
			n := plainInt(s.t)
			if !n.IsInt || !(v == yes && n.N == 1 || v == no && n.N == 0) {
				return nil, bad
			}
			return segs[1:], ""
		}
		if s.kind != "number" || !is(plainInt(s.t)) {
			return nil, bad
		}
		return segs[1:], ""
	case "fixed64":
		if s.kind != "fixed64" {
			return nil, bad
		}
		t := plainInt(s.t)
		if t.Op == OpApp && t.Aux == "f64bits" {
			t = t.Args[0]
		} else if b, ok := f.typ.Underlying().(*types.Basic); !ok || b.Info()&types.IsFloat != 0 {
			return nil, bad
		}
		for t.Op == OpConv && t.Typ != nil && t.Args[0].Typ != nil && types.Identical(t.Typ.Underlying(), t.Args[0].Typ.Underlying()) {
			t = t.Args[0]
		}
		if !is(t) {
			return nil, bad
		}
		return segs[1:], ""
	}
	x, rest, why := delimited(segs)
	if why != "" {
		return nil, why
	}
	if !is(x) || (f.kind == "bytes") != (segs[1].kind == "bytes") {
		return nil, bad
	}
	return rest, ""
}

// units reads fields, alternatives and unknown fields off segs.
func (w *encRun) units(segs []*encSeg, seen map[string]bool) string {
	for len(segs) > 0 {
		s := segs[0]
		u := ""
		switch {
		case s.kind == "bytes" && w.un >= 0 && w.old(s.t, w.un):
			u = "unknown"
			segs = segs[1:]
		case s.kind == "msg":
			for _, g := range w.groups {
				if w.old(s.t, g) {
					u = fmt.Sprint("group", g)
				}
			}
			if u == "" {
				return "a message is written that is not a field"
			}
			segs = segs[1:]
		default:
			num, wt, rest, ok := readTag(segs)
			if !ok {
				return "what is written does not start with a tag"
			}
			var f *wireField
			for _, x := range w.fields {
				if x.num == num {
					f = x
				}
			}
			if f == nil || f.kind == "list" || f.kind == "map" {
				return fmt.Sprintf("field %d is written, which the message does not have", num)
			}
			if f.wt != wt {
				return fmt.Sprintf("field %d is written with another type", num)
			}
			var why string
			rest, why = w.fieldValue(f, rest, func(t *Term) bool { return w.old(t, f.field) })
			if why != "" {
				return why
			}
			u = fmt.Sprint("field", f.num)
			segs = rest
		}
		if seen[u] {
			return "a field is written twice"
		}
		seen[u] = true
	}
	return ""
}

// absent: the field has no value in the state.
func (w *encRun) absent(st *State, i int, emptyToo bool) tri {
	x := loadField(st, w.m, i)
	if r := st.F.isNilTri(x); r != unknown {
		if r == yes || !emptyToo {
			return r
		}
	}
	if !emptyToo {
		return unknown
	}
	if mapTypeOf(x.Typ) != nil {
		return st.F.eval(mkEq(st.mapLen(x), mkInt(0)))
	}
	return st.F.eval(mkEq(mkLen(x), mkInt(0)))
}

func (w *encRun) absentField(st *State, f *wireField) tri {
	switch f.kind {
	case "list", "map":
		return w.absent(st, f.field, true)
	case "msg":
		return w.absent(st, f.field, false)
	case "bytes":
		return w.absent(st, f.field, f.oneof < 0)
	}
	if f.oneof >= 0 {
		return no
	}
	return st.F.eval(mkEq(loadField(st, w.m, f.field), zeroOf(f.typ)))
}

// elem is the value of one iteration of the loop over f.
func (w *encRun) elem(f *wireField, first bool, lp *encLoop, x *Term, start, end map[*Term]*Term) string {
	list, idx, ok := elemOf(x)
	if !ok {
		if b := w.eng.Cells[x]; b != nil && b.Op == OpIndexAddr {
			list, idx, ok = b.Args[0], b.Args[1], true
		}
	}
	if !ok || !w.old(list, f.field) {
		return "the value is not an element of the list"
	}
	n := mkLen(list)
	lin := map[*Term]int64{}
	if first {
		switch {
		case linEq(idx, mkInt(0)):
			lp.down = false
		case linEq(idx, mkSub(n, mkInt(1))):
			lp.down = true
		default:
			return "the first element is neither the first nor the last of the list"
		}
		return ""
	}
	linOf(idx, 1, lin)
	var d int64
	for v, s := range start {
		if k := lin[v]; k != 0 && s == v {
			step := map[*Term]int64{}
			linOf(end[v], 1, step)
			linOf(v, -1, step)
			for x, n := range step {
				if x != nil && n != 0 {
					return "the index does not change by one"
				}
			}
			d += k * step[nil]
		}
	}
	if lp.down && d != -1 || !lp.down && d != 1 {
		return "the index does not change by one"
	}
	if lp.idx != nil && !linEq(lp.idx, idx) {
		return "one iteration handles several elements"
	}
	lp.idx = idx
	return ""
}

// ended: the loop over f handled all of it.
func (w *encRun) ended(st *State, f *wireField, lp *encLoop) string {
	x := loadField(st, w.m, f.field)
	if f.kind == "map" {
		if !mapEnd(st, x) && !mapEnd(st, st.F.resolve(x)) {
			return "the loop can end before the last member of the map"
		}
		return ""
	}
	if lp.idx == nil {
		return "the list is not iterated"
	}
	i := st.F.resolve(lp.idx)
	if lp.down {
		if st.F.eval(mkLt(i, mkInt(0))) == yes {
			return ""
		}
		// n+c-v < 0
		lin := map[*Term]int64{}
		linOf(i, 1, lin)
		for v, k := range lin {
			if k == -1 && v != nil && lin[mkLen(x)] == 1 && st.F.eval(mkLt(mkAdd(mkLen(x), mkInt(lin[nil])), v)) == yes {
				return ""
			}
		}
		return "the loop can end before the first element of the list"
	}
	if st.F.eval(mkLt(i, mkLen(x))) != no {
		return "the loop can end before the last element of the list"
	}
	return ""
}

// encodeIter checks one iteration: one element or member.
func (w *encRun) encodeIter(st *State, lp *encLoop, first bool, evs []*Event, start, end map[*Term]*Term) string {
	segs, at := w.chain(st, evs, start[lp.pos])
	if w.why != "" {
		return w.why
	}
	if !linEq(at, end[lp.pos]) {
		return "the position after an element is not where it starts"
	}
	num, wt, rest, ok := readTag(segs)
	if !ok {
		return "what is written does not start with a tag"
	}
	var f *wireField
	for _, x := range w.fields {
		if x.num == num {
			f = x
		}
	}
	if f == nil || f.kind != "list" && f.kind != "map" {
		return fmt.Sprintf("field %d is written many times", num)
	}
	if f.wt != wt {
		return fmt.Sprintf("field %d is written with another type", num)
	}
	if lp.field != nil && lp.field != f {
		return "a loop writes several fields"
	}
	lp.field = f
	if f.kind == "list" {
		x, rest, why := delimited(rest)
		if why != "" {
			return why
		}
		if len(rest) > 0 {
			return "one iteration writes several elements"
		}
		why = w.elem(f, first, lp, x, start, end)
		if why == "" && !first && !lp.down {
			why = "the elements are written in the wrong order"
		}
		return why
	}
	if len(rest) < 2 || !numberIs(rest[0], mkSub(rest[len(rest)-1].hi, rest[1].lo)) {
		return "the length of an entry is not that of its parts"
	}
	k, v := memberOf(st, loadField(st, w.m, f.field))
	if k == nil {
		return "the entry is not a member of the map"
	}
	seen := map[int]bool{}
	rest = rest[1:]
	for len(rest) > 0 {
		num, wt, r, ok := readTag(rest)
		if !ok || wt != 2 || num != f.key && num != f.val || seen[num] {
			return "the entry has a wrong tag"
		}
		seen[num] = true
		x, r, why := delimited(r)
		if why != "" {
			return why
		}
		for x.Op == OpConv && len(x.Args) == 1 {
			x = x.Args[0]
		}
		if num == f.key && x != k || num == f.val && x != v {
			return "the entry has another key or value"
		}
		rest = r
	}
	if !seen[f.key] || !seen[f.val] && st.F.isNilTri(v) != yes {
		return "the key or value of an entry is not written"
	}
	return ""
}

func (w *encRun) setup(cl *Client, onEntry func(st *State, key string, vals map[*Term]*Term), onIter func(st *State, lp *encLoop, first bool, evs []*Event, start, end map[*Term]*Term) string) []*Term {
	w.loops = map[string]*encLoop{}
	w.model(cl)
	cl.SplitLoops = true
	var evs []*Event
	var first bool
	cl.OnBack = func(s *State, lp *LoopRec, fst bool, ev []*Event) { evs, first = ev, fst }
	cl.OnLoop = func(s *State, lp *LoopRec, entry bool, vals map[*Term]*Term) {
		if w.eng == nil {
			w.eng = s.e
		}
		if n, _ := loopDepth(s); n > 1 {
			w.fail("the loops are nested")
			return
		}
		if w.why != "" {
			return
		}
		if entry {
			onEntry(s, lp.Key, vals)
			return
		}
		l := w.loops[lp.Key]
		if l == nil {
			w.fail("the loop is not known")
			return
		}
		al := s.top().loops[len(s.top().loops)-1]
		if why := onIter(s, l, first, evs, al.start, vals); why != "" {
			w.fail(why)
		}
	}
	params := rootParams(w.fn)
	w.m = params[0]
	if len(params) > 1 {
		w.buf = params[1]
	}
	return params
}

func (w *encRun) start(cl *Client, params []*Term) string {
	e := w.c.Run(w.fn, cl, params, func(s *State) {
		w.eng = s.e
		s.F.assume(isNilT(w.m), false)
	})
	if e.Err != nil || e.Steps > e.budget {
		w.fail("the function is not resolved")
	}
	return w.why
}

// encode: the encoder writes the layout of the message to the end of the
// buffer and gives its length.
func (w *encRun) encode() string {
	cl := &Client{}
	returns := 0
	anchor := func(key string) *Term {
		if l := w.loops[key]; l != nil {
			return l.pos
		}
		return mkLen(w.buf)
	}
	params := w.setup(cl, func(st *State, key string, vals map[*Term]*Term) {
		evs, before := sinceLoop(st.Events())
		segs, at := w.chain(st, evs, anchor(before))
		if w.why != "" {
			return
		}
		if why := w.units(segs, map[string]bool{}); why != "" {
			w.fail(why)
			return
		}
		for v, x := range vals {
			if isInt(v.Typ) && linEq(x, at) {
				if l := w.loops[key]; l != nil && l.pos != v {
					w.fail("the position is in two places")
				}
				if w.loops[key] == nil {
					w.loops[key] = &encLoop{pos: v, entry: x}
				}
				return
			}
		}
		w.fail("the position is not kept")
	}, w.encodeIter)
	cl.OnReturn = func(st *State, rets []*Term) {
		r := &wireRet{st: st, rets: rets}
		if w.why != "" || r.surelyErr() {
			return
		}
		if st.F.isNilTri(rets[1]) != yes {
			// the error of what is encoded
			if rets[1].Op == OpSym {
				return
			}
			w.fail("the error is not known")
			return
		}
		returns++
		seen := map[string]bool{}
		all := st.Events()
		var piece []*Event
		at := mkLen(w.buf)
		for i := 0; i <= len(all); i++ {
			if i < len(all) && all[i].Kind != "loop" {
				piece = append(piece, all[i])
				continue
			}
			segs, end := w.chain(st, piece, at)
			if w.why != "" {
				return
			}
			if why := w.units(segs, seen); why != "" {
				w.fail(why)
				return
			}
			at = end
			piece = nil
			if i < len(all) {
				l := w.loops[all[i].Loop]
				if l == nil || l.field == nil {
					w.fail("the loop is not known")
					return
				}
				if why := w.ended(st, l.field, l); why != "" {
					w.fail(why)
					return
				}
				u := fmt.Sprint("field", l.field.num)
				if seen[u] {
					w.fail("a field is written twice")
					return
				}
				seen[u] = true
				at = l.pos
			}
		}
		if !linEq(rets[0], mkSub(mkLen(w.buf), at)) {
			w.fail("the length that is returned is not that of what is written")
			return
		}
		for _, f := range w.fields {
			if !seen[fmt.Sprint("field", f.num)] && w.absentField(st, f) != yes {
				w.fail(fmt.Sprintf("field %d can be left out", f.num))
			}
		}
		for _, g := range w.groups {
			if !seen[fmt.Sprint("group", g)] && w.absent(st, g, false) != yes {
				w.fail("the alternative can be left out")
			}
		}
		if w.un >= 0 && !seen["unknown"] && w.absent(st, w.un, true) != yes {
			w.fail("the fields that were not known can be left out")
		}
	}
	if why := w.start(cl, params); why != "" {
		return why
	}
	if returns == 0 {
		return "the encoder does not return"
	}
	return ""
}

func sov(t *Term) *Term { return mkApp("sov", types.Typ[types.Int], t) }

func varintLen(n int) int64 {
	k := int64(1)
	for n >= 0x80 {
		n >>= 7
		k++
	}
	return k
}

// linear sums with numbers of bytes of lengths, compared up to conversions

type linSum map[string]int64

func (w *encRun) sum(t *Term) linSum {
	m := map[*Term]int64{}
	linOf(t, 1, m)
	out := linSum{}
	for x, n := range m {
		if n != 0 {
			out[w.sumKey(x)] += n
		}
	}
	for k, n := range out {
		if n == 0 {
			delete(out, k)
		}
	}
	return out
}

func (w *encRun) sumKey(x *Term) string {
	if x == nil {
		return "1"
	}
	if x.Op == OpApp && x.Aux == "sov" {
		return "sov(" + w.sum(plainInt(x.Args[0])).String() + ")"
	}
	x = plainInt(x)
	return fmt.Sprint("#", x.ID)
}

func (l linSum) String() string {
	var ks []string
	for k, n := range l {
		ks = append(ks, fmt.Sprintf("%d*%s", n, k))
	}
	sort.Strings(ks)
	return strings.Join(ks, "+")
}

func (w *encRun) sameSum(a, b *Term) bool { return w.sum(a).String() == w.sum(b).String() }

// delimitedSize is the size of a field with a length.
func delimitedSize(num int, n *Term) *Term {
	return mkAdd(mkAdd(mkInt(varintLen(num<<3)), n), sov(n))
}

func sizeApp(x *Term) *Term { return mkApp("size", types.Typ[types.Int], x) }

// size: Size gives the length of what the encoder writes.
func (w *encRun) size() string {
	cl := &Client{}
	returns := 0
	params := w.setup(cl, func(st *State, key string, vals map[*Term]*Term) {
		if w.loops[key] == nil {
			w.loops[key] = &encLoop{}
		}
		w.entries[key] = vals
	}, w.sizeIter)
	w.entries = map[string]map[*Term]*Term{}
	cl.OnReturn = func(st *State, rets []*Term) {
		if w.why != "" {
			return
		}
		returns++
		n := rets[0]
		got := map[*Term]int64{}
		linOf(n, 1, got)
		seen := map[int]bool{}
		for _, ev := range st.Events() {
			if ev.Kind != "loop" {
				continue
			}
			l := w.loops[ev.Loop]
			if l == nil || l.field == nil || l.pos == nil {
				w.fail("the loop does not add the size of a field")
				return
			}
			if why := w.ended(st, l.field, l); why != "" {
				w.fail(why)
				return
			}
			seen[l.field.num] = true
		}
		// the sums of loops start where the loops start
		for i := 0; i < 10; i++ {
			for _, l := range w.loops {
				if l.pos == nil || got[l.pos] == 0 {
					continue
				}
				k := got[l.pos]
				if k != 1 {
					w.fail("the size is not a sum")
					return
				}
				delete(got, l.pos)
				linOf(l.entry, 1, got)
			}
		}
		want := mkInt(0)
		for _, f := range w.fields {
			x := loadField(st, w.m, f.field)
			a := w.absentField(st, f)
			if f.kind == "list" || f.kind == "map" {
				if !seen[f.num] && a != yes {
					w.fail(fmt.Sprintf("field %d can be left out of the size", f.num))
				}
				continue
			}
			if a == yes {
				continue
			}
			if a == unknown {
				w.fail(fmt.Sprintf("the size does not depend on whether field %d is present", f.num))
				return
			}
			switch f.kind {
			case "varint":
				want = mkAdd(want, mkInt(varintLen(f.num<<3)))
				if b, ok := f.typ.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					want = mkAdd(want, mkInt(1))
				} else {
					want = mkAdd(want, sov(x))
				}
			case "fixed64":
				want = mkAdd(want, mkInt(varintLen(f.num<<3)+8))
			case "bytes":
				want = mkAdd(want, delimitedSize(f.num, mkLen(x)))
			case "msg":
				want = mkAdd(want, delimitedSize(f.num, sizeApp(x)))
			}
		}
		for _, g := range w.groups {
			switch w.absent(st, g, false) {
			case yes:
			case no:
				want = mkAdd(want, sizeApp(loadField(st, w.m, g)))
			default:
				w.fail("the size does not depend on whether the alternative is present")
				return
			}
		}
		if w.un >= 0 && w.absent(st, w.un, true) != yes {
			want = mkAdd(want, mkLen(loadField(st, w.m, w.un)))
		}
		sum := mkInt(0)
		for x, n := range got {
			switch {
			case x == nil:
				sum = mkAdd(sum, mkInt(n))
			case n == 1:
				sum = mkAdd(sum, x)
			case n != 0:
				w.fail("the size is not a sum")
				return
			}
		}
		if !w.sameSum(sum, want) {
			w.fail("the size is not that of the fields that are present")
		}
	}
	if why := w.start(cl, params); why != "" {
		return why
	}
	if returns == 0 {
		return "the function does not return"
	}
	return ""
}

func (w *encRun) sizeIter(st *State, lp *encLoop, first bool, evs []*Event, start, end map[*Term]*Term) string {
	why := "an iteration does not add the size of an element"
	for v, s := range start {
		if !isInt(v.Typ) {
			continue
		}
		d := mkSub(end[v], s)
		m := map[*Term]int64{}
		linOf(d, 1, m)
		konst := true
		for x, n := range m {
			if x != nil && n != 0 {
				konst = false
			}
		}
		if konst {
			continue
		}
		for _, f := range w.fields {
			if lp.field != nil && lp.field != f {
				continue
			}
			switch f.kind {
			case "list":
				for x := range m {
					if x == nil || x.Op != OpApp || x.Aux != "size" {
						continue
					}
					if !w.sameSum(d, delimitedSize(f.num, sizeApp(x.Args[0]))) {
						continue
					}
					if why := w.elem(f, first, lp, x.Args[0], start, end); why != "" {
						return why
					}
					lp.field, lp.pos, lp.entry, why = f, v, w.entries[w.keyOf(lp)][v], ""
				}
			case "map":
				k, val := memberOf(st, loadField(st, w.m, f.field))
				if k == nil {
					continue
				}
				n := delimitedSize(f.key, mkLen(k))
				switch st.F.isNilTri(val) {
				case no:
					n = mkAdd(n, delimitedSize(f.val, sizeApp(val)))
				case unknown:
					return "the size does not depend on whether the value is present"
				}
				if w.sameSum(d, delimitedSize(f.num, n)) {
					lp.field, lp.pos, lp.entry, why = f, v, w.entries[w.keyOf(lp)][v], ""
				}
			}
		}
	}
	return why
}

func (w *encRun) keyOf(lp *encLoop) string {
	for k, l := range w.loops {
		if l == lp {
			return k
		}
	}
	return ""
}

// numberSize: the function gives the number of groups of seven bits.
func numberSize(c *Ctx, fn *ssa.Function) string {
	w := &encRun{c: c, fn: fn}
	cl := &Client{}
	w.model(cl)
	why, n := "", 0
	params := rootParams(fn)
	x := params[0]
	groups := func(t *Term) (*Term, bool) {
		// (len64(y)+6)/7
		if t.Op != OpBin || t.Aux != "/" || !t.Args[1].IsInt || t.Args[1].N != 7 {
			return nil, false
		}
		m := map[*Term]int64{}
		linOf(t.Args[0], 1, m)
		if m[nil] != 6 {
			return nil, false
		}
		for y, k := range m {
			if y != nil && k == 1 && len(m) == 2 && y.Op == OpApp && y.Aux == "len64" {
				return y.Args[0], true
			}
		}
		return nil, false
	}
	cl.OnReturn = func(s *State, rets []*Term) {
		n++
		r := rets[0]
		zero := s.F.eval(mkEq(x, mkInt(0)))
		if r.IsInt && r.N == 1 && zero == yes {
			return
		}
		if y, ok := groups(r); ok {
			if y == x && zero == no {
				return
			}
			if y.Op == OpBin && y.Aux == "|" && (y.Args[0] == x && y.Args[1].IsInt && y.Args[1].N == 1 || y.Args[1] == x && y.Args[0].IsInt && y.Args[0].N == 1) {
				return
			}
		}
		why = "the size is not the number of groups of seven bits: " + r.String()
	}
	e := c.Run(fn, cl, params, nil)
	if e.Err != nil || e.Steps > e.budget || n == 0 {
		return "the function is not resolved"
	}
	return why
}

// numberWriter: the function writes a number as the wire format says.
func numberWriter(c *Ctx, fn *ssa.Function, sizes map[*ssa.Function]bool) string {
	w := &encRun{c: c, fn: fn, sizes: sizes}
	cl := &Client{}
	w.model(cl)
	params := rootParams(fn)
	buf, off, val := params[0], params[1], params[2]
	w.buf = buf
	base := mkSub(off, sov(val))
	n := 0
	konst := func(t *Term, op string, k int64) *Term {
		if t != nil && t.Op == OpBin && t.Aux == op {
			for i := 0; i < 2; i++ {
				if t.Args[i].IsInt && t.Args[i].N == k && (i == 1 || op == "|" || op == "&") {
					return t.Args[1-i]
				}
			}
		}
		return nil
	}
	// group is the number whose low seven bits a byte has, and whether the
	// byte has the mark.
	group := func(t *Term) (v *Term, mark bool) {
		masked := false
		for {
			if t.Op == OpConv && len(t.Args) == 1 && isIntTerm(t.Args[0]) {
				t = t.Args[0]
			} else if x := konst(t, "|", 0x80); x != nil && !masked {
				t, mark = x, true
			} else if x := konst(t, "&", 0x7f); x != nil {
				t, masked = x, true
			} else if x := konst(t, "&", 0xff); x != nil {
				t = x
			} else {
				return t, mark
			}
		}
	}
	store := func(evs []*Event) (at, v *Term) {
		for _, ev := range evs {
			if ev.Kind != "store" || ev.Addr.Op != OpIndexAddr || ev.Addr.Args[0] != buf || at != nil {
				return nil, nil
			}
			at, v = ev.Addr.Args[1], ev.Val
		}
		return
	}
	var pos, num *Term
	var evs []*Event
	cl.OnBack = func(s *State, lp *LoopRec, fst bool, ev []*Event) { evs = ev }
	cl.OnLoop = func(s *State, lp *LoopRec, entry bool, vals map[*Term]*Term) {
		if entry {
			for v, x := range vals {
				if linEq(x, base) {
					pos = v
				} else if x == val {
					num = v
				}
			}
			return
		}
		al := s.top().loops[len(s.top().loops)-1]
		if pos == nil || num == nil {
			w.fail("the position and the number are not kept")
			return
		}
		p, v := al.start[pos], al.start[num]
		at, b := store(evs)
		if at == nil || !linEq(at, p) || !linEq(vals[pos], mkAdd(p, mkInt(1))) {
			w.fail("the bytes are not written one after the other")
			return
		}
		if konst(vals[num], ">>", 7) != v {
			w.fail("the next group is not the next seven bits")
		}
		if s.F.eval(mkLt(v, mkInt(128))) != no {
			w.fail("a last group can be marked as followed by another")
		}
		if y, mark := group(b); y != v || !mark {
			w.fail("the byte is not the group and the mark")
		}
	}
	cl.OnReturn = func(s *State, rets []*Term) {
		n++
		ev, key := sinceLoop(s.Events())
		p, v := base, val
		if key != "" {
			p, v = pos, num
		}
		at, b := store(ev)
		if at == nil || !linEq(at, p) {
			w.fail("the last group is not written")
			return
		}
		if y, mark := group(b); y != v || mark {
			w.fail("the last group is not what is written last")
		}
		if s.F.eval(mkLt(v, mkInt(128))) != yes {
			w.fail("the last group can have more than seven bits")
		}
		if !linEq(rets[0], base) {
			w.fail("the position that is returned is not where the number starts")
		}
	}
	e := c.Run(fn, cl, params, nil)
	if e.Err != nil || e.Steps > e.budget || n == 0 {
		w.fail("the function is not resolved")
	}
	return w.why
}

// wireEncode checks the encoders.
func wireEncode(c *Ctx) {
	c.Rule("encode", "a message is written as its fields, each with its declared tag", 1)
	c.Rule("size", "the size of a message is that of what is written", 1)
	c.Rule("number", "numbers are written in groups of seven bits", 1)
	sizes, writers := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	why, pos := "there is no function for this", ""
	for _, f := range pkgFuncs(c.P, relWire) {
		if isNumberSize(c.P, f) {
			if y := numberSize(c, f); y == "" {
				sizes[f] = true
			} else if why[0] == 't' {
				why, pos = y, posOf(c.P, f.Pos())
			}
		}
	}
	c.Check(len(sizes) > 0, "number", "size of a number", pos, why)
	why, pos = "there is no function for this", ""
	for _, f := range pkgFuncs(c.P, relWire) {
		if isNumberWriter(c.P, f) {
			if y := numberWriter(c, f, sizes); y == "" {
				writers[f] = true
			} else {
				why, pos = y, posOf(c.P, f.Pos())
			}
		}
	}
	c.Check(len(writers) > 0, "number", "encoding of a number", pos, why)
	if len(sizes) == 0 || len(writers) == 0 {
		return
	}
	byOwner := map[*types.Named]*encRun{}
	for _, f := range wireMethods(c.P, "Unmarshal") {
		msg := namedOf(deref(f.Signature.Recv().Type()))
		fields, why := wireSchema(c.P, msg)
		if why != "" {
			continue
		}
		w := &encRun{un: -1}
		byOwner[msg] = w
		st := msg.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "XXX_unrecognized" {
				w.un = i
			}
		}
		for _, x := range fields {
			if x.oneof < 0 {
				w.fields = append(w.fields, x)
				continue
			}
			has := false
			for _, g := range w.groups {
				has = has || g == x.oneof
			}
			if !has {
				w.groups = append(w.groups, x.oneof)
			}
			byOwner[x.owner] = &encRun{un: -1, fields: []*wireField{x}}
		}
	}
	done := map[*types.Named]bool{}
	each := func(name, rule string, check func(w *encRun) string) {
		for _, f := range wireMethods(c.P, name) {
			owner := namedOf(deref(f.Signature.Recv().Type()))
			o := byOwner[owner]
			if o == nil {
				continue
			}
			w := &encRun{c: c, fn: f, un: o.un, fields: o.fields, groups: o.groups, sizes: sizes, writers: writers}
			why := check(w)
			c.Check(why == "", rule, owner.Obj().Name()+" "+name, posOf(c.P, f.Pos()), why)
			if name == "MarshalToSizedBuffer" {
				done[owner] = true
			}
		}
	}
	each("MarshalToSizedBuffer", "encode", (*encRun).encode)
	each("Size", "size", (*encRun).size)
	c.Rule("call", "the entry points encode and decode the whole message", 1)
	for _, name := range []string{"Marshal", "MarshalTo", "XXX_Size", "XXX_Marshal", "XXX_Unmarshal"} {
		name := name
		each(name, "call", func(w *encRun) string { return w.wrapper(name) })
	}
	for o := range byOwner {
		if !done[o] {
			c.Missing("the encoder of " + o.Obj().Name())
		}
	}
}

// wrapper: the entry points encode and decode the whole message.
func (w *encRun) wrapper(name string) string {
	cl := &Client{}
	w.model(cl)
	self := w.fn
	params := rootParams(w.fn)
	w.m = params[0]
	size := sizeApp(w.m)
	var sizes []*Term
	cl.OnDeref = func(s *State, d Deref) {
		if d.Kind == "makeslice" {
			sizes = append(sizes, d.Base)
		}
	}
	cl.Opaque = func(s *State, fn *ssa.Function, args []*Term) bool { return fn != self && fn.Name() == "Unmarshal" }
	n := 0
	cl.OnReturn = func(st *State, rets []*Term) {
		if w.why != "" {
			return
		}
		var enc, dec *Event
		for _, ev := range st.Events() {
			switch {
			case ev.Kind == "MarshalToSizedBuffer" || ev.Kind == "MarshalTo":
				if enc != nil {
					w.fail("the message is encoded twice")
					return
				}
				enc = ev
			case ev.Kind == "call" && ev.Fn != nil && ev.Fn.Name() == "Unmarshal":
				if dec != nil {
					w.fail("the message is decoded twice")
					return
				}
				dec = ev
			}
		}
		last := rets[len(rets)-1]
		switch name {
		case "XXX_Size":
			n++
			if !linEq(rets[0], size) {
				w.fail("the size is not that of the message")
			}
			return
		case "XXX_Unmarshal":
			n++
			if dec == nil || dec.Args[0] != w.m || dec.Args[1] != params[1] || last != dec.Res && st.F.eval(mkEq(last, dec.Res)) != yes {
				w.fail("the bytes are not decoded into the message")
			}
			return
		}
		if name == "XXX_Marshal" && st.F.eval(params[2]) == yes {
			n++
			return
		}
		if enc == nil {
			w.fail("the message is not encoded")
			return
		}
		n++
		if last != enc.Res && (last.isNil() || st.F.isNilTri(last) == yes) != (st.F.isNilTri(enc.Res) == yes) {
			w.fail("the failure to encode the message is ignored")
			return
		}
		if enc.Args[0] != w.m {
			w.fail("something else is encoded")
			return
		}
		b := enc.Args[1]
		switch name {
		case "MarshalTo":
			if b.Op != OpSlice || b.Args[0] != params[1] || !linEq(b.Args[1], mkInt(0)) || !linEq(b.Args[2], size) {
				w.fail("the message is not encoded to the start of the buffer")
			} else if !linEq(rets[0], size) && st.F.isNilTri(enc.Res) != no {
				w.fail("the length that is returned is not that of the message")
			}
			return
		case "XXX_Marshal":
			if st.F.isNilTri(enc.Res) != yes {
				return
			}
			b0, lo, hi := b, mkInt(0), mkLen(b)
			if b.Op == OpSlice {
				b0, lo, hi = b.Args[0], b.Args[1], b.Args[2]
			}
			if b0 != params[1] || !linEq(lo, mkInt(0)) || hi.Op != OpCap && !linEq(hi, size) {
				w.fail("the message is not encoded to the buffer")
			}
			r := rets[0]
			if r.Op != OpSlice || r.Args[0] != params[1] || !linEq(mkSub(r.Args[2], r.Args[1]), size) {
				w.fail("what is returned is not what is encoded")
			}
			return
		}
		// Marshal
		if st.F.isNilTri(enc.Res) != yes {
			return
		}
		made := false
		for _, x := range sizes {
			made = made || linEq(x, size)
		}
		if !made || b.Op != OpSlice || b.Args[0].Op != OpAlloc || !linEq(b.Args[1], mkInt(0)) || !linEq(b.Args[2], size) {
			w.fail("the buffer is not that of the size of the message")
			return
		}
		r := rets[0]
		if r.Op != OpSlice || r.Args[0] != b.Args[0] || !linEq(r.Args[1], mkInt(0)) || !linEq(r.Args[2], size) {
			w.fail("what is returned is not what is encoded")
		}
	}
	if why := w.start(cl, params); why != "" {
		return why
	}
	if n == 0 {
		return "the function does not return"
	}
	return ""
}
