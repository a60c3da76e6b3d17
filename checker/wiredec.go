package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// wireField is a field of a message on the wire, from the struct tags.
type wireField struct {
	msg     *types.Named
	owner   *types.Named // the struct with the field: msg or the wrapper of an alternative
	oneof   int          // field of msg that holds the alternative, or -1
	field   int          // field of owner
	num, wt int
	kind    string // varint, fixed64, bytes, msg, list, map
	typ     types.Type
	key     int // tags of the parts of map entries
	val     int
}

func (f *wireField) name() string {
	return f.msg.Obj().Name() + " field " + strconv.Itoa(f.num)
}

var wireTypes = map[string]int{"varint": 0, "fixed64": 1, "bytes": 2, "fixed32": 5}

func parseWireTag(tag string) (wt, num int, rep, ok bool) {
	p := strings.Split(tag, ",")
	if len(p) < 3 {
		return
	}
	wt, ok = wireTypes[p[0]]
	num, err := strconv.Atoi(p[1])
	return wt, num, p[2] == "rep", ok && err == nil
}

// wireSchema reads the fields of a message.
func wireSchema(p *Prog, msg *types.Named) ([]*wireField, string) {
	var out []*wireField
	st, ok := msg.Underlying().(*types.Struct)
	if !ok {
		return nil, "not a struct"
	}
	add := func(owner *types.Named, ost *types.Struct, i, oneof int, tag reflect.StructTag) string {
		wt, num, rep, ok := parseWireTag(tag.Get("protobuf"))
		if !ok {
			return "unknown encoding " + tag.Get("protobuf")
		}
		f := &wireField{msg: msg, owner: owner, oneof: oneof, field: i, num: num, wt: wt, typ: ost.Field(i).Type()}
		u := f.typ.Underlying()
		switch {
		case tag.Get("protobuf_key") != "":
			f.kind = "map"
			_, k, _, ok1 := parseWireTag(tag.Get("protobuf_key"))
			_, v, _, ok2 := parseWireTag(tag.Get("protobuf_val"))
			if !ok1 || !ok2 {
				return "unknown map encoding"
			}
			f.key, f.val = k, v
		case rep:
			f.kind = "list"
		case wt == 0:
			f.kind = "varint"
		case wt == 1:
			f.kind = "fixed64"
		case wt == 2 && (isBytes(u) || isStringType(u)):
			f.kind = "bytes"
		case wt == 2:
			f.kind = "msg"
		default:
			return "unknown encoding"
		}
		out = append(out, f)
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		tag := reflect.StructTag(st.Tag(i))
		switch {
		case tag.Get("protobuf_oneof") != "":
			it, ok := st.Field(i).Type().Underlying().(*types.Interface)
			if !ok {
				return nil, "unknown alternatives"
			}
			scope := msg.Obj().Pkg().Scope()
			for _, n := range scope.Names() {
				tn, ok := scope.Lookup(n).(*types.TypeName)
				if !ok {
					continue
				}
				w, ok := tn.Type().(*types.Named)
				if !ok {
					continue
				}
				ws, ok := w.Underlying().(*types.Struct)
				if !ok || !types.Implements(types.NewPointer(w), it) || ws.NumFields() == 0 {
					continue
				}
				if why := add(w, ws, 0, i, reflect.StructTag(ws.Tag(0))); why != "" {
					return nil, why
				}
			}
		case tag.Get("protobuf") != "":
			if why := add(msg, st, i, -1, tag); why != "" {
				return nil, why
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].num < out[j].num })
	return out, ""
}

// linear form of an integer term

func linOf(t *Term, sign int64, m map[*Term]int64) {
	switch {
	case t.IsInt:
		m[nil] += sign * t.N
	case t.Op == OpLin:
		m[nil] += sign * t.N
		linOf(t.Args[0], sign, m)
	case t.Op == OpBin && t.Aux == "+":
		linOf(t.Args[0], sign, m)
		linOf(t.Args[1], sign, m)
	case t.Op == OpBin && t.Aux == "-":
		linOf(t.Args[0], sign, m)
		linOf(t.Args[1], -sign, m)
	case t.Op == OpConv && isIntTerm(t.Args[0]) && t.Typ != nil && isIntType(t.Typ) && wordSized(t.Typ) && t.Args[0].Typ != nil && wordSized(t.Args[0].Typ):
		linOf(t.Args[0], sign, m)
	default:
		m[t] += sign
	}
}

func wordSized(t types.Type) bool { return intBits(t) == 64 }

func intBits(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr:
		return 64
	}
	return 0
}

func linEq(a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	m := map[*Term]int64{}
	linOf(a, 1, m)
	linOf(b, -1, m)
	for _, n := range m {
		if n != 0 {
			return false
		}
	}
	return true
}

// wireRun interprets a decoder on messages whose fields (and the fields of
// whose map entries) all have the given tags.
type wireRun struct {
	c          *Ctx
	fn         *ssa.Function
	m, buf     *Term
	outer, in  int64
	loops      map[*ssa.BasicBlock]*varintLoop
	iters      []*wireIter
	rets       []*wireRet
	inner      []*wireIter
	old        []*Term // loads of the fields on entry
	unresolved bool
}

type wireIter struct {
	st         *State
	events     []*Event
	start, end map[*Term]*Term
	loop       string
}

type wireRet struct {
	st     *State
	rets   []*Term
	events []*Event // since the start of the last iteration of the outermost loop
}

func varApp(t types.Type, buf, idx *Term) *Term {
	return mkApp("varint"+strconv.Itoa(intBits(t)), t, buf, idx)
}
func afterApp(buf, idx *Term) *Term {
	return mkApp("after", types.Typ[types.Int], buf, idx)
}

// depth counts the loops that run, and finds where the innermost iteration
// started.
func loopDepth(s *State) (n int, mark *Trace) {
	for _, f := range s.frames {
		for _, l := range f.loops {
			n++
			mark = l.mark
		}
	}
	return
}

func (w *wireRun) run() {
	var iter []*Event
	cl := &Client{Budget: 60000}
	cl.OnEvent = func(s *State, ev *Event) bool { return true }
	cl.LoopSum = func(e *Engine, s *State, h *ssa.BasicBlock) *LoopSum {
		v := w.loops[h]
		if v == nil {
			return nil
		}
		f := s.top()
		var at *Term
		// the position on entry
		at = s.F.resolve(f.env[v.idx])
		buf := e.val(s, v.buf)
		for buf.Op == OpSlice && buf.Args[2] == mkLen(buf.Args[0]) {
			at = mkAdd(buf.Args[1], at)
			buf = buf.Args[0]
		}
		typ := types.Type(types.Typ[types.Uint64])
		if v.acc != nil {
			typ = v.acc.Type()
		}
		val := varApp(typ, buf, at)
		next := afterApp(buf, at)
		n, mark := loopDepth(s)
		isTag := n > 0
		for _, ev := range traceSince(s.tr, mark) {
			if ev.Kind == "varint" {
				isTag = false
			}
		}
		read := val
		fork := false
		if isTag && w.m == nil {
			fork = true
		} else if isTag {
			tag := w.outer
			if n > 1 {
				tag = w.in
			}
			read = mkConstVal(constant.MakeInt64(tag), typ)
		}
		rel := next
		if b := e.val(s, v.buf); b.Op == OpSlice {
			rel = mkSub(next, b.Args[1])
		}
		env := map[ssa.Value]*Term{v.idxNext: rel}
		if v.acc != nil {
			env[v.accNext] = read
		}
		sum := &LoopSum{}
		for _, x := range v.errs {
			sum.Exits = append(sum.Exits, LoopExit{From: x[0], To: x[1], Then: func(t *State) {
				e.emit(t, &Event{Kind: "badvarint", Args: []*Term{buf, at}, Ctx: t.top().ctx})
			}})
		}
		exit := func(env map[ssa.Value]*Term, eff string) {
			sum.Exits = append(sum.Exits, LoopExit{From: v.out[0], To: v.out[1], Env: env, Then: func(t *State) {
				t.F.addDiff(at, next, -1)
				t.F.addDiff(next, mkLen(buf), 0)
				e.emit(t, &Event{Kind: "varint", Args: []*Term{buf, at}, Res: val, Val: next, Eff: eff, Ctx: t.top().ctx})
			}})
		}
		if !fork {
			eff := ""
			if isTag {
				eff = "tag"
			}
			exit(env, eff)
			return sum
		}
		for wt := int64(0); wt < 8; wt++ {
			en := map[ssa.Value]*Term{v.idxNext: rel}
			if v.acc != nil {
				en[v.accNext] = mkConstVal(constant.MakeInt64(2<<3|wt), typ)
			}
			exit(en, strconv.FormatInt(wt, 10))
		}
		return sum
	}
	cl.OnBack = func(s *State, lp *LoopRec, first bool, ev []*Event) { iter = ev }
	cl.OnLoop = func(s *State, lp *LoopRec, entry bool, vals map[*Term]*Term) {
		if entry {
			return
		}
		al := s.top().loops[len(s.top().loops)-1]
		it := &wireIter{st: s.clone(), events: iter, start: al.start, end: vals, loop: al.key}
		if n, _ := loopDepth(s); n > 1 {
			w.inner = append(w.inner, it)
		} else {
			w.iters = append(w.iters, it)
		}
	}
	cl.OnReturn = func(s *State, rets []*Term) {
		evs := s.Events()
		last := 0
		for i, ev := range evs {
			if ev.Kind == "loop" {
				last = i + 1
			}
		}
		w.rets = append(w.rets, &wireRet{st: s, rets: rets, events: evs[last:]})
	}
	cl.Opaque = func(s *State, fn *ssa.Function, args []*Term) bool {
		if fn == w.fn || fn.Name() == "Unmarshal" {
			return true
		}
		return isSkipFn(w.c.P, fn)
	}
	cl.Model = func(s *State, cc *CallCtx) ([]*Term, bool) {
		if cc.Fn == nil {
			return nil, false
		}
		switch {
		case cc.Fn.String() == "math.Float64frombits":
			return []*Term{mkApp("f64", types.Typ[types.Float64], cc.Args[0])}, true
		case cc.Fn.Name() == "Uint64" && fnPkgPath(cc.Fn) == "encoding/binary" && strings.Contains(cc.Fn.String(), "littleEndian"):
			return []*Term{mkApp("le64", types.Typ[types.Uint64], cc.Args[len(cc.Args)-1])}, true
		}
		return nil, false
	}
	params := rootParams(w.fn)
	if w.fn.Signature.Recv() != nil {
		w.m, w.buf = params[0], params[1]
	} else {
		w.buf = params[0]
	}
	e := w.c.Run(w.fn, cl, params, func(s *State) {
		if w.m != nil {
			s.F.assume(isNilT(w.m), false)
			st, _ := deref(w.m.Typ).Underlying().(*types.Struct)
			for i := 0; st != nil && i < st.NumFields(); i++ {
				w.old = append(w.old, loadField(s, w.m, i))
			}
		}
	})
	if e.Err != nil || e.Steps > e.budget {
		w.unresolved = true
	}
}

// isSkipFn: a function that says how long the field at the start of its input is.
func isSkipFn(p *Prog, fn *ssa.Function) bool {
	sig := fn.Signature
	return fnPkgPath(fn) == p.Mod+"/"+relWire && sig.Recv() == nil && sig.Params().Len() == 1 && isBytes(sig.Params().At(0).Type()) &&
		sig.Results().Len() == 2 && isInt(sig.Results().At(0).Type()) && sig.Results().At(1).Type().String() == "error" && len(fn.Blocks) > 0
}

func (r *wireRet) isErr() bool {
	t := r.rets[len(r.rets)-1]
	return !t.isNil() && r.st.F.isNilTri(t) != yes
}

func (r *wireRet) surelyErr() bool {
	t := r.rets[len(r.rets)-1]
	if r.st.F.isNilTri(t) == no {
		return true
	}
	// errors of the library
	return t.Op == OpLoad && t.Args[0].Op == OpGlobal && strings.HasPrefix(t.Args[0].Aux, "io.")
}

// position is the loop variable that holds the position: the one where the
// first number of the iteration is read.
func (w *wireRun) position(it *wireIter) (start, end *Term, first *Event) {
	for _, ev := range it.events {
		if ev.Kind != "varint" {
			continue
		}
		for v, s := range it.start {
			if ev.Args[0] == w.buf && linEq(ev.Args[1], it.st.F.resolve(s)) || ev.Args[1] == s {
				return s, it.end[v], ev
			}
		}
		return nil, nil, ev
	}
	return nil, nil, nil
}

// payload is what a length-delimited field holds: the bytes after its length.
func payload(buf, p *Term) func(t *Term) (lo, hi *Term, ok bool) {
	lo := afterApp(buf, p)
	return func(t *Term) (*Term, *Term, bool) {
		for {
			if t.Op == OpConv && len(t.Args) == 1 {
				t = t.Args[0]
				continue
			}
			break
		}
		if t.Op != OpSlice || t.Args[0] != buf || !linEq(t.Args[1], lo) {
			return nil, nil, false
		}
		m := map[*Term]int64{}
		linOf(t.Args[2], 1, m)
		linOf(lo, -1, m)
		n := 0
		for x, k := range m {
			if k == 0 {
				continue
			}
			if x == nil || k != 1 || !isVarint(x, buf, p, 64) {
				return nil, nil, false
			}
			n++
		}
		return lo, t.Args[2], n == 1
	}
}

// isVarint: t is the number at p, of which at least bits are kept.
func isVarint(t, buf, p *Term, bits int) bool {
	for t.Op == OpConv && len(t.Args) == 1 && t.Typ != nil && isIntType(t.Typ) {
		if intBits(t.Typ) < bits {
			return false
		}
		t = t.Args[0]
	}
	if t.Op != OpApp || !strings.HasPrefix(t.Aux, "varint") || t.Args[0] != buf || !linEq(t.Args[1], p) {
		return false
	}
	n, err := strconv.Atoi(t.Aux[len("varint"):])
	return err == nil && n >= bits
}

// wireDecode: each decoder takes each field with its declared number and type
// as declared, keeps other fields, and rejects what is malformed.
func wireDecode(c *Ctx, fn *ssa.Function, loops map[*ssa.BasicBlock]*varintLoop) {
	msg := namedOf(deref(fn.Signature.Recv().Type()))
	fields, why := wireSchema(c.P, msg)
	if why != "" {
		c.Bad("schema", msg.Obj().Name(), posOf(c.P, msg.Obj().Pos()), why)
		return
	}
	c.Ok("schema", msg.Obj().Name())
	pos := posOf(c.P, fn.Pos())
	max := 0
	known := map[int]*wireField{}
	for _, f := range fields {
		if known[f.num] != nil {
			c.Bad("schema", f.name(), pos, "two fields have this number")
		}
		known[f.num] = f
		if f.num > max {
			max = f.num
		}
	}
	mk := func(num, wt int) *wireRun {
		w := &wireRun{c: c, fn: fn, outer: int64(num<<3 | wt), loops: loops}
		return w
	}
	var nums []int
	for num := 0; num <= max+1; num++ {
		nums = append(nums, num)
	}
	// large numbers that agree with those of fields in some bits
	for _, f := range fields {
		for k := uint(3); k < 29; k++ {
			if n := f.num + 1<<k; n > max+1 && n < 1<<29 {
				nums = append(nums, n)
			}
		}
	}
	for _, num := range nums {
		for wt := 0; wt <= 5; wt++ {
			f := known[num]
			if num > max+1 && (known[num&7] == nil || wt != known[num&7].wt) {
				continue
			}
			w := mk(num, wt)
			switch {
			case f != nil && f.wt == wt && f.kind == "map":
				wireMap(c, fn, loops, f, pos)
				continue
			}
			w.run()
			what := fmt.Sprintf("%s tag %d/%d", msg.Obj().Name(), num, wt)
			if w.unresolved {
				c.Bad("field", what, pos, "the decoder is not resolved")
				return
			}
			switch {
			case num == 0 || f != nil && f.wt != wt || wt == 4:
				why := w.rejected()
				c.Check(why == "", "reject", what, pos, why)
			case f == nil:
				why := w.unknown(msg)
				c.Check(why == "", "unknown", what, pos, why)
			default:
				why := w.accepted(f)
				c.Check(why == "", "field", f.name(), pos, why)
			}
		}
	}
}

// rejected: no iteration is completed, and the decoder fails.
func (w *wireRun) rejected() string {
	if len(w.iters) > 0 {
		return "a field with this tag is accepted"
	}
	return w.failures()
}

// failures: all returns within an iteration are errors, and the end of the
// input is a success.
func (w *wireRun) failures() string {
	ok := false
	for _, r := range w.rets {
		read := false
		for _, ev := range r.events {
			if ev.Kind == "varint" || ev.Kind == "call" {
				read = true
			}
		}
		if read && !r.surelyErr() {
			return "the decoder can return no error within a field"
		}
		if !read && !r.isErr() {
			ok = true
		}
	}
	if !ok {
		return "the end of the input is not a success"
	}
	return ""
}

// fromZero: the position of the first iteration is that of the first byte.
func (w *wireRun) fromZero(it *wireIter, start *Term) bool {
	for v, s := range it.start {
		if s == start {
			return s == v || linEq(it.st.F.resolve(s), mkInt(0))
		}
	}
	return false
}

// within: an iteration of the loop over the parts of an entry starts before the
// end of the entry.
func (w *wireRun) within(it *wireIter, start *Term) bool {
	var evs []*Event
	for _, ev := range it.st.Events() {
		if ev.Kind == "loop" && ev.Loop == it.loop {
			break
		}
		evs = append(evs, ev)
	}
	for i := len(evs) - 1; i >= 0; i-- {
		ev := evs[i]
		if ev.Kind != "varint" || ev.Eff == "tag" {
			continue
		}
		for _, n := range []*Term{ev.Res, mkT(OpConv, "int", 0, types.Typ[types.Int], false, nil, nil, ev.Res)} {
			if it.st.F.eval(mkLt(start, mkAdd(ev.Val, n))) == yes {
				return true
			}
		}
		return false
	}
	return false
}

// wasNil: the field was nil when the iteration started.
func (w *wireRun) wasNil(it *wireIter, field int) bool {
	for v, s := range it.start {
		if isOld(it.st.e, v, w.m, field) && (it.st.F.isNilTri(s) == yes || it.st.F.isNilTri(v) == yes) {
			return true
		}
	}
	return field < len(w.old) && it.st.F.isNilTri(w.old[field]) == yes
}

// justified: an error that is not that of a callee, or of a number that does
// not end, is due to a field that goes beyond the end of the input.
func (w *wireRun) justified() string {
	for _, r := range w.rets {
		if !r.isErr() {
			continue
		}
		if why := w.malformed(r); why != "" {
			return why
		}
	}
	return ""
}

func (w *wireRun) malformed(r *wireRet) string {
	for _, ev := range r.events {
		if ev.Kind == "badvarint" {
			return ""
		}
	}
	read := false
	last := r.rets[len(r.rets)-1]
	for _, ev := range r.events {
		if ev.Kind == "varint" {
			read = true
		}
		if ev.Kind != "call" || ev.Res == nil {
			continue
		}
		res := []*Term{ev.Res}
		if ev.Res.Op == OpTuple {
			res = ev.Res.Args
		}
		for _, t := range res {
			if t == last && r.st.F.isNilTri(t) != yes {
				return ""
			}
		}
	}
	evs := r.st.Events()
	if !read {
		// the end of the input
		return ""
	}
	// what holds if the message is well-formed
	var wf [][2]*Term // the first is at most the second
	ends := []*Term{mkLen(w.buf)}
	le := func(a, b *Term) { wf = append(wf, [2]*Term{a, b}) }
	field := func(lo, n *Term) {
		le(mkInt(0), n)
		hi := mkAdd(lo, n)
		le(mkInt(0), hi)
		for _, e := range ends {
			le(hi, e)
			le(n, mkSub(e, lo))
		}
	}
	tag, inside := w.outer, false
	for _, ev := range evs {
		if ev.Kind == "call" && ev.Fn != nil && isSkipFn(w.c.P, ev.Fn) {
			if n := callResult(ev, 0); n != nil {
				at := ev.Args[0]
				lo := mkInt(0)
				if at.Op == OpSlice {
					lo = at.Args[1]
				}
				field(lo, n)
			}
			continue
		}
		if ev.Kind != "varint" {
			continue
		}
		if ev.Eff == "tag" {
			if tag&7 == 1 {
				field(ev.Val, mkInt(8))
			}
			continue
		}
		if tag&7 != 2 {
			continue
		}
		n := ev.Res
		for _, n := range []*Term{n, mkT(OpConv, "int", 0, types.Typ[types.Int], false, nil, nil, n)} {
			field(ev.Val, n)
		}
		if w.in != 0 && !inside {
			inside = true
			ends = append(ends, mkAdd(ev.Val, n), mkAdd(ev.Val, mkT(OpConv, "int", 0, types.Typ[types.Int], false, nil, nil, n)))
			tag = w.in
		}
	}
	for _, c := range wf {
		if r.st.F.eval(mkLt(c[1], c[0])) == yes {
			return ""
		}
		f := r.st.F.clone()
		if !f.assume(mkLt(c[1], c[0]), false) {
			return ""
		}
	}
	return "a field that ends before the end of the input can be rejected"
}

// stored lists what an iteration changes in the message.
func (w *wireRun) stored(it *wireIter) (out []*Event) {
	for _, ev := range it.events {
		switch ev.Kind {
		case "store":
			if ev.Addr != nil && rootOf(ev.Addr) == w.m {
				out = append(out, ev)
			}
		case "mapset":
			out = append(out, ev)
		}
	}
	return
}

func (w *wireRun) unknown(msg *types.Named) string {
	if why := w.failures(); why != "" {
		return why
	}
	if why := w.justified(); why != "" {
		return why
	}
	if len(w.iters) == 0 {
		return "a field that is not known is not accepted"
	}
	st := msg.Underlying().(*types.Struct)
	un := -1
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "XXX_unrecognized" {
			un = i
		}
	}
	for _, it := range w.iters {
		start, end, _ := w.position(it)
		if start == nil {
			return "the tag is not read at the position"
		}
		if !w.fromZero(it, start) {
			return "decoding does not start at the first byte"
		}
		why, _ := w.skipped(it, start, end)
		kept := false
		if why == "" {
			for _, ev := range w.stored(it) {
				b, i, ok := addrField(ev.Addr)
				if !ok || b != w.m || i != un {
					return "another field of the message changes"
				}
				v := ev.Val
				if v.Op == OpAppendSl && v.Args[1].Op == OpSlice && v.Args[1].Args[0] == w.buf && linEq(v.Args[1].Args[1], start) && linEq(v.Args[1].Args[2], end) && isOld(it.st.e, v.Args[0], w.m, un) {
					kept = true
				}
			}
			if un >= 0 && !kept {
				why = "the field is not kept"
			}
		}
		if why != "" {
			return why
		}
	}
	return ""
}

// skipped: the iteration goes on after the field that starts at start.
func (w *wireRun) skipped(it *wireIter, start, end *Term) (string, *Event) {
	for _, ev := range it.events {
		if ev.Kind != "call" || ev.Fn == nil || !isSkipFn(w.c.P, ev.Fn) {
			continue
		}
		a := ev.Args[0]
		if a != w.buf && (a.Op != OpSlice || a.Args[0] != w.buf || !linEq(a.Args[1], start) || a.Args[2] != mkLen(w.buf)) || a == w.buf && !linEq(start, mkInt(0)) {
			return "the field that is skipped does not start at its tag", nil
		}
		n, err := callResult(ev, 0), callResult(ev, 1)
		if n == nil || it.st.F.isNilTri(err) != yes {
			return "the failure to find the end of the field is ignored", nil
		}
		if !linEq(end, mkAdd(start, n)) {
			return "decoding does not go on after the field", nil
		}
		return "", ev
	}
	return "the length of the field is not found", nil
}

// nested is the call that decodes a message.
func (w *wireRun) nested(it *wireIter) (*Event, string) {
	var call *Event
	for _, ev := range it.events {
		if ev.Kind == "call" && ev.Fn != nil && ev.Fn.Name() == "Unmarshal" {
			if call != nil {
				return nil, "two messages are decoded"
			}
			call = ev
		}
	}
	if call == nil {
		return nil, "the message is not decoded"
	}
	if it.st.F.isNilTri(call.Res) != yes {
		return nil, "the failure to decode the message is ignored"
	}
	return call, ""
}

func addrField(a *Term) (base *Term, n int, ok bool) {
	if a.Op == OpFieldAddr {
		return a.Args[0], int(a.N), true
	}
	return nil, 0, false
}

// isOld: t is a load of the field of the message.
func isOld(e *Engine, t, m *Term, i int) bool {
	if a := e.Cells[t]; a != nil {
		b, n, ok := addrField(a)
		return ok && b == m && n == i
	}
	if t.Op == OpLoad {
		b, n, ok := fieldOf(t)
		return ok && b == m && n == i
	}
	return false
}

func callResult(ev *Event, i int) *Term {
	r := ev.Res
	if r == nil {
		return nil
	}
	if r.Op == OpTuple {
		if i < len(r.Args) {
			return r.Args[i]
		}
		return nil
	}
	if i == 0 {
		return r
	}
	return nil
}

func (w *wireRun) accepted(f *wireField) string {
	if why := w.failures(); why != "" {
		return why
	}
	if why := w.justified(); why != "" {
		return why
	}
	if len(w.iters) == 0 {
		return "the field is not accepted"
	}
	for _, it := range w.iters {
		if why := w.value(f, it); why != "" {
			return why
		}
	}
	return ""
}

// content resolves what an object or list holds that was filled by copying.
func content(it *wireIter, t *Term) *Term {
	switch {
	case t.Op == OpAppendSl && (t.Args[0].isNil() || emptySlice(it.st, t.Args[0])):
		return t.Args[1]
	case t.Op == OpConv && len(t.Args) == 1:
		return content(it, t.Args[0])
	}
	for _, ev := range it.events {
		if ev.Kind == "copy" && ev.Args[0] == t && linEq(it.lenOf(t), mkLen(ev.Args[1])) {
			return ev.Args[1]
		}
	}
	return t
}

func (it *wireIter) lenOf(t *Term) *Term {
	if n := sliceLen(t); n != nil {
		return n
	}
	return mkLen(t)
}

func sliceLen(t *Term) *Term {
	if t.Op == OpApp && t.Aux == "makeslice" && len(t.Args) > 0 {
		return t.Args[0]
	}
	return nil
}

func emptySlice(s *State, t *Term) bool {
	return t.Op == OpSlice && linEq(t.Args[1], t.Args[2]) || s.F.eval(mkEq(mkLen(t), mkInt(0))) == yes
}

func (w *wireRun) value(f *wireField, it *wireIter) string {
	start, end, tag := w.position(it)
	if start == nil {
		return "the tag is not read at the position"
	}
	if !w.fromZero(it, start) {
		return "decoding does not start at the first byte"
	}
	p := tag.Val
	st := w.stored(it)
	// what is stored: the value of the field
	var v *Term
	var obj *Term // the message that is decoded into
	index := f.field
	if f.oneof >= 0 {
		index = f.oneof
	}
	for _, ev := range st {
		if ev.Kind != "store" {
			return "a map changes"
		}
		b, i, ok := addrField(ev.Addr)
		if !ok || b != w.m || i != index {
			return "another field of the message changes"
		}
		v = ev.Val
	}
	if f.oneof >= 0 {
		if v == nil {
			return "the field is not stored"
		}
		for v.Op == OpIface {
			v = v.Args[0]
		}
		if !ptrTo(v.Typ, f.owner) {
			return "another alternative is stored"
		}
		v = loadField(it.st, v, f.field)
	}
	pay := payload(w.buf, p)
	switch f.kind {
	case "varint":
		if v == nil {
			return "the field is not stored"
		}
		bits := intBits(f.typ)
		if b, ok := f.typ.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			x, ok := notZero(v)
			if !ok || !isVarint(x, w.buf, p, 1) {
				return "the value is not that of the number"
			}
		} else if !isVarint(v, w.buf, p, bits) {
			return "the value is not that of the number"
		}
		if !linEq(end, afterApp(w.buf, p)) {
			return "decoding does not go on after the field"
		}
	case "fixed64":
		if v == nil {
			return "the field is not stored"
		}
		x := v
		for x.Op == OpConv {
			x = x.Args[0]
		}
		if b, ok := f.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			if x.Op != OpApp || x.Aux != "f64" {
				return "the value is not that of the bytes"
			}
			x = x.Args[0]
			for x.Op == OpConv {
				x = x.Args[0]
			}
		}
		if x.Op != OpApp || x.Aux != "le64" || x.Args[0].Op != OpSlice || x.Args[0].Args[0] != w.buf || !linEq(x.Args[0].Args[1], p) {
			return "the value is not that of the bytes"
		}
		if !linEq(end, mkAdd(p, mkInt(8))) {
			return "decoding does not go on after the field"
		}
	case "bytes":
		if v == nil {
			return "the field is not stored"
		}
		_, hi, ok := pay(content(it, v))
		if !ok {
			return "the value is not the bytes of the field"
		}
		if isBytes(f.typ) && v.Op == OpSlice && v.Args[0] == w.buf {
			return "the value shares the memory of the input"
		}
		if !linEq(end, hi) {
			return "decoding does not go on after the field"
		}
	case "msg", "list":
		call, why := w.nested(it)
		if why != "" {
			return why
		}
		_, hi, ok := pay(call.Args[1])
		if !ok {
			return "the bytes of the message are not those of the field"
		}
		obj = call.Args[0]
		if !linEq(end, hi) {
			return "decoding does not go on after the field"
		}
		if f.kind == "msg" {
			if v != nil && v != obj {
				return "the message that is decoded is not stored"
			}
			if v == nil && !isOld(it.st.e, obj, w.m, f.field) {
				return "the message that is decoded is not that of the field"
			}
			if it.st.F.isNilTri(obj) != no {
				return "the message that is decoded into can be nil"
			}
		} else {
			if v == nil || v.Op != OpAppend || len(v.Args) != 2 || !isOld(it.st.e, v.Args[0], w.m, f.field) {
				return "the message is not appended to the list"
			}
			// the last element
			if obj.Op == OpLoad && obj.Args[0].Op == OpIndexAddr && obj.Args[0].Args[0] == v && linEq(obj.Args[0].Args[1], mkLen(v.Args[0])) {
				obj = v.Args[1]
			}
			if v.Args[1] != obj {
				return "the message that is appended is not the one that is decoded"
			}
		}
		if obj.Op == OpAlloc {
			return ""
		}
		if f.kind == "list" || f.oneof >= 0 {
			return "the message that is decoded into is not new"
		}
	}
	return ""
}

// notZero: t says that x is not zero.
func notZero(t *Term) (*Term, bool) {
	if t.Op == OpNot && t.Args[0].Op == OpEq {
		e := t.Args[0]
		for i := 0; i < 2; i++ {
			if e.Args[i].IsInt && e.Args[i].N == 0 {
				return e.Args[1-i], true
			}
		}
	}
	return nil, false
}

// wireMap: an entry of a map is a message of a key and a value; the last ones
// are stored, and fields that are not known are skipped.
func wireMap(c *Ctx, fn *ssa.Function, loops map[*ssa.BasicBlock]*varintLoop, f *wireField, pos string) {
	run := func(num, wt int) *wireRun {
		w := &wireRun{c: c, fn: fn, outer: int64(f.num<<3 | f.wt), in: int64(num<<3 | wt), loops: loops}
		w.run()
		return w
	}
	check := func(what string, w *wireRun, why string) {
		if w.unresolved {
			why = "the decoder is not resolved"
		}
		c.Check(why == "", "field", f.name()+" "+what, pos, why)
	}
	mt := f.typ.Underlying().(*types.Map)
	for i, num := range []int{f.key, f.val} {
		w := run(num, 2)
		what := "key"
		if i == 1 {
			what = "value"
		}
		check(what, w, w.entry(f, i, mt))
	}
	last := f.key
	if f.val > last {
		last = f.val
	}
	for _, wt := range []int{0, 2} {
		w := run(last+1, wt)
		check("unknown", w, w.entry(f, 2, mt))
	}
}

// zeroTerm: the zero value of a type.
func zeroTerm(t *Term) bool {
	if s, ok := t.isStr(); ok {
		return s == ""
	}
	return t.isNil() || t.IsInt && t.N == 0 || t.Op == OpZero
}

// entry: part 0 is the key, part 1 the value, part 2 other fields.
func (w *wireRun) entry(f *wireField, part int, mt *types.Map) string {
	if why := w.failures(); why != "" {
		return why
	}
	if why := w.justified(); why != "" {
		return why
	}
	if len(w.inner) == 0 {
		return "the field of the entry is not accepted"
	}
	if len(w.iters) == 0 {
		return "the entry is not accepted"
	}
	var slot *Term // the variable that holds the part
	for _, it := range w.inner {
		start, end, tag := w.position(it)
		if start == nil {
			return "the tag of the field of the entry is not read at the position"
		}
		if st := w.stored(it); len(st) > 0 {
			return "the message changes before the entry is complete"
		}
		if !w.within(it, start) {
			return "what follows the entry can be taken for a part of it"
		}
		var got *Term
		for v, s := range it.start {
			e := it.end[v]
			if s == start && e == end {
				continue
			}
			if s != v && !zeroTerm(s) {
				return "a part of the entry does not start as zero"
			}
			if e == s {
				continue
			}
			if got != nil {
				return "two parts of the entry change"
			}
			got = v
		}
		if part == 2 {
			if got != nil {
				return "a field that is not known changes the entry"
			}
			if why, _ := w.skipped(it, start, end); why != "" {
				return why
			}
			continue
		}
		if got == nil {
			return "the field of the entry is not stored"
		}
		if slot != nil && slot != got {
			return "a part of the entry is stored in two places"
		}
		slot = got
		p := tag.Val
		pay := payload(w.buf, p)
		e := it.end[got]
		var hi *Term
		var ok bool
		if part == 0 || isBytes(mt.Elem()) || isStringType(mt.Elem()) {
			_, hi, ok = pay(content(it, e))
			if !ok {
				return "what is stored is not the bytes of the field"
			}
		} else {
			call, why := w.nested(it)
			if why != "" {
				return why
			}
			_, hi, ok = pay(call.Args[1])
			if !ok {
				return "the bytes of the message are not those of the field"
			}
			if call.Args[0] != e || e.Op != OpAlloc {
				return "the message that is stored is not a new one that is decoded"
			}
		}
		if !linEq(end, hi) {
			return "decoding does not go on after the field of the entry"
		}
	}
	found := false
	for _, it := range w.iters {
		start, end, tag := w.position(it)
		if start == nil {
			return "the tag is not read at the position"
		}
		if !w.fromZero(it, start) {
			return "decoding does not start at the first byte"
		}
		n := 0
		for _, ev := range w.stored(it) {
			if ev.Kind == "store" {
				b, i, ok := addrField(ev.Addr)
				if !ok || b != w.m || i != f.field {
					return "another field of the message changes"
				}
				if ev.Val.Op == OpAlloc && !w.wasNil(it, f.field) {
					return "the entries so far are dropped"
				}
				continue
			}
			m := ev.Args[0]
			if m.Op != OpAlloc && !isOld(it.st.e, m, w.m, f.field) {
				return "another map changes"
			}
			if it.st.F.isNilTri(m) != no {
				return "an entry can be stored in a nil map"
			}
			n++
			if part == 2 {
				continue
			}
			v := ev.Args[1]
			if part == 1 {
				v = ev.Val
			}
			switch {
			case v == slot:
				found = true
			case zeroTerm(v), v.Op == OpAlloc:
			default:
				return "what is stored is not the part of the entry"
			}
		}
		if n != 1 {
			return "not one entry is stored"
		}
		lo := afterApp(w.buf, tag.Val)
		m := map[*Term]int64{}
		linOf(end, 1, m)
		linOf(lo, -1, m)
		k := 0
		for x, n := range m {
			if n == 0 {
				continue
			}
			if x == nil || n != 1 || !isVarint(x, w.buf, tag.Val, 64) {
				return "decoding does not go on after the entry"
			}
			k++
		}
		if k != 1 {
			return "decoding does not go on after the entry"
		}
	}
	if part < 2 && !found {
		return "the part of the entry is not stored"
	}
	return ""
}

// wireVarints finds the loops that read numbers; every other loop that reads
// single bytes is a finding.
func wireVarints(c *Ctx, fns []*ssa.Function) (map[*ssa.BasicBlock]*varintLoop, bool) {
	all := true
	out := map[*ssa.BasicBlock]*varintLoop{}
	for _, f := range fns {
		l := naturalLoops(f)
		n := 0
		for _, h := range l.order {
			inner := true
			for _, g := range l.order {
				if g != h && l.body[h][g] {
					inner = false
				}
			}
			reads := false
			for b := range l.body[h] {
				for _, ins := range b.Instrs {
					if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.MUL {
						if a, ok := u.X.(*ssa.IndexAddr); ok && isBytes(a.X.Type()) {
							reads = true
						}
					}
				}
			}
			if !inner || !reads {
				continue
			}
			n++
			v, why := findVarint(h, l.body[h])
			if v == nil {
				pos := f.Pos()
				for b := range l.body[h] {
					for _, ins := range b.Instrs {
						if ins.Pos().IsValid() && (pos == f.Pos() || ins.Pos() < pos) {
							pos = ins.Pos()
						}
					}
				}
				c.Bad("varint", wireName(f)+" number", posOf(c.P, pos), "a number is not read as the wire format says: "+why)
				all = false
				continue
			}
			c.Ok("varint", fmt.Sprintf("%s number %d", wireName(f), n))
			out[h] = v
		}
	}
	return out, all
}

// wireSkip: the length of a field that is not known is that of its wire type;
// a group ends with its own end.
func wireSkip(c *Ctx, fn *ssa.Function, loops map[*ssa.BasicBlock]*varintLoop) {
	pos := posOf(c.P, fn.Pos())
	w := &wireRun{c: c, fn: fn, loops: loops}
	w.run()
	for wt := 0; wt < 8; wt++ {
		why := "the function is not resolved"
		if !w.unresolved {
			why = w.skips(wt)
		}
		c.Check(why == "", "skip", fmt.Sprintf("wire type %d", wt), pos, why)
	}
}

func tagOf(evs []*Event) int {
	for _, ev := range evs {
		if ev.Kind == "varint" {
			if n, err := strconv.Atoi(ev.Eff); err == nil {
				return n
			}
			return -1
		}
	}
	return -1
}

func (w *wireRun) skips(wt int) string {
	// after is the end of what an iteration reads
	after := func(evs []*Event) (*Term, string) {
		var nums []*Event
		for _, ev := range evs {
			if ev.Kind == "varint" {
				nums = append(nums, ev)
			}
		}
		want := 1
		if wt == 0 || wt == 2 {
			want = 2
		}
		if len(nums) != want || want == 2 && !linEq(nums[1].Args[1], nums[0].Val) {
			return nil, "the numbers of the field are not read"
		}
		end := nums[len(nums)-1].Val
		switch wt {
		case 1:
			end = mkAdd(end, mkInt(8))
		case 5:
			end = mkAdd(end, mkInt(4))
		case 2:
			end = mkAdd(end, nums[1].Res)
		}
		return end, ""
	}
	// the loop has the position and the depth
	var pos, depth *Term
	for _, it := range w.iters {
		for v, s := range it.start {
			if s != v {
				continue
			}
			for _, ev := range it.events {
				if ev.Kind == "varint" {
					if linEq(ev.Args[1], v) {
						pos = v
					} else {
						depth = v
					}
					break
				}
			}
		}
	}
	if pos == nil || depth == nil {
		return "the position and the depth of the groups are not kept"
	}
	delta := map[int]int64{3: 1, 4: -1}[wt]
	accepted := false
	for _, it := range w.iters {
		if tagOf(it.events) != wt {
			continue
		}
		accepted = true
		start, end := it.start[depth], it.end[depth]
		if start == nil || end == nil || len(it.start) != 2 {
			return "the position and the depth of the groups are not kept"
		}
		if start != depth && !linEq(start, mkInt(0)) || it.start[pos] != pos && !linEq(it.start[pos], mkInt(0)) {
			return "the position and the depth do not start as zero"
		}
		want, why := after(it.events)
		if why != "" {
			return why
		}
		if !linEq(it.end[pos], want) {
			return "the end of the field is not that of its type"
		}
		if !linEq(end, mkAdd(start, mkInt(delta))) && it.st.F.eval(mkEq(end, mkAdd(start, mkInt(delta)))) != yes && !linEq(end, mkAdd(it.st.F.resolve(start), mkInt(delta))) {
			return "the depth of the groups is not right"
		}
		if it.st.F.eval(mkEq(end, mkInt(0))) == yes || delta <= 0 && it.st.F.eval(mkEq(end, mkInt(0))) != no {
			return "the field does not end where its groups end"
		}
		if wt == 4 && it.st.F.eval(mkEq(start, mkInt(0))) != no {
			return "the end of a group that did not start is accepted"
		}
	}
	for _, r := range w.rets {
		if tagOf(r.events) != wt {
			continue
		}
		if r.surelyErr() {
			good := wt >= 6
			for _, ev := range r.events {
				good = good || ev.Kind == "badvarint"
			}
			if wt == 4 && r.st.F.eval(mkEq(depth, mkInt(0))) == yes {
				good = true
			}
			if end, why := after(r.events); !good && why == "" {
				var n *Term
				for _, ev := range r.events {
					if ev.Kind == "varint" {
						n = ev.Res
					}
				}
				for _, x := range []*Term{end, n} {
					good = good || r.st.F.eval(mkLt(x, mkInt(0))) == yes
				}
				if first := r.events; !good && wt == 4 {
					for _, ev := range first {
						if ev.Kind == "varint" {
							good = linEq(ev.Args[1], mkInt(0))
							break
						}
					}
				}
			}
			if !good {
				return "a field that is well-formed can be rejected"
			}
			continue
		}
		accepted = true
		want, why := after(r.events)
		if why != "" {
			return why
		}
		if !linEq(r.rets[0], want) {
			return "the end of the field is not that of its type"
		}
		first := true
		for _, ev := range r.events {
			if ev.Kind == "varint" {
				first = linEq(ev.Args[1], mkInt(0))
				break
			}
		}
		d := depth
		if first {
			d = mkInt(0)
		}
		if d = mkAdd(d, mkInt(delta)); r.st.F.eval(mkEq(d, mkInt(0))) != yes {
			return "the field ends before its groups end"
		}
		if wt == 4 && !first && r.st.F.eval(mkEq(depth, mkInt(0))) != no {
			return "the end of a group that did not start is accepted"
		}
	}
	if accepted != (wt < 6) {
		return map[bool]string{true: "a field of this type is accepted", false: "a field of this type is not accepted"}[accepted]
	}
	return ""
}
