package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C05: the key syntax.
//
// The functions that take a key apart and that escape a name are compared with
// reference automata that read one character at a time. The loops are closed
// by a simulation relation: at each loop header some variables hold the
// position, the finished segments, the current segment and whether the last
// character was a backslash. The relation is searched among the variables; it
// must hold at the first arrival and be preserved by every transition from one
// header to the next, however many characters it reads, and give the result at
// each return.

// seq is a sequence of atoms: "b<n>" a constant byte, "k<id>" a byte of the
// key, "?<id>" an unknown string.
type seq []string

func (q seq) String() string { return strings.Join(q, " ") }

type keyState struct {
	list []string // finished segments: "*<id>" an unknown list, else the atoms of one segment
	cur  seq
	esc  bool
	pos  *Term
}

// flush finishes the current segment.
func (st keyState) flush() keyState {
	if len(st.cur) > 0 {
		st.list = append(append([]string(nil), st.list...), "["+st.cur.String()+"]")
		st.cur = nil
	}
	return st
}

type keyRun struct {
	c     *Ctx
	rule  string
	fn    *ssa.Function
	key   *Term
	esc   bool // escape a name
	trans []*Transition
	terms map[int]*Term
	f     *Facts
}

// cell is a place that holds a part of the state at a loop header.
type keyCell struct {
	kind string // "const", "var", "mem", "prev"
	v    *Term
}

func (x keyCell) String() string {
	if x.v != nil {
		return x.v.String()
	}
	return x.kind
}

func (x keyCell) at(s *State, own map[*Term]*Term, mem map[*Term]*Term, outer *Cut) *Term {
	if kind := strings.TrimPrefix(x.kind, "rest·"); kind != x.kind {
		// the position of the rest of the key
		t := keyCell{kind, x.v}.at(s, own, mem, outer)
		if t == nil {
			return nil
		}
		t = bytesFrom(t)
		if t.Op == OpSlice && t.Args[2] == mkLen(t.Args[0]) {
			if b := bytesFrom(t.Args[0]); b.Op == OpParam {
				return t.Args[1]
			}
		}
		if t.Op == OpParam {
			return mkInt(0)
		}
		if s.F.eval(mkEq(mkLen(t), mkInt(0))) == yes {
			return nothingLeft // nothing is left
		}
		return nil
	}
	switch x.kind {
	case "var":
		if t, ok := own[x.v]; ok {
			return t
		}
		for p := outer; p != nil; p = p.Parent {
			if t, ok := p.Vals[x.v]; ok {
				return t
			}
		}
	case "mem":
		if t, ok := mem[x.v]; ok {
			return t
		}
		if s.zeroInit(x.v) {
			return zeroOf(cellType(x.v))
		}
	}
	return nil
}

// nothingLeft stands for the position at the end of the key.
var nothingLeft = mkT(OpSym, "end of the key", 0, types.Typ[types.Int], false, nil, nil)

type keyRel struct {
	list, cur, esc keyCell
	pos            []keyCell // their sum
	off            int64
}

func (r keyRel) String() string {
	var ps []string
	for _, p := range r.pos {
		ps = append(ps, p.String())
	}
	return fmt.Sprintf("segments %s, current %s, escape %s, position %s+%d", r.list, r.cur, r.esc, strings.Join(ps, "+"), r.off)
}

// indexOf recognises a character of the key and yields its position.
func (k *keyRun) indexOf(t *Term) *Term {
	var x, i *Term
	switch {
	case t.Op == OpApp && t.Aux == "index" && len(t.Args) >= 2:
		x, i = t.Args[0], t.Args[1]
	case t.Op == OpLoad && t.Args[0].Op == OpIndexAddr:
		x, i = t.Args[0].Args[0], t.Args[0].Args[1]
	case t.Op == OpConv && len(t.Args) == 1 && isIntType(t.Typ) && t.Args[0].Typ != nil && isByte(t.Args[0].Typ):
		return k.indexOf(t.Args[0])
	default:
		return nil
	}
	if i.Typ == nil && !i.IsInt {
		return nil
	}
	x = bytesFrom(x)
	for x.Op == OpSlice {
		i = mkAdd(x.Args[1], i)
		x = bytesFrom(x.Args[0])
	}
	if x != k.key {
		return nil
	}
	return k.norm(i)
}

// norm replaces a position by its value if that is known.
func (k *keyRun) norm(i *Term) *Term {
	if k.f != nil && !i.IsInt {
		if lo, ok1, hi, ok2 := k.f.bounds(i); ok1 && ok2 && lo == hi {
			return mkInt(lo)
		}
	}
	return i
}

// facts of a path, with what is known about each character under one name; nil
// if the path is infeasible.
func (k *keyRun) facts(f *Facts) *Facts {
	k.f = f
	g := f.clone()
	for _, t := range aboutTerms(f) {
		if p := k.indexOf(t); p != nil && t != k.at(p) {
			for _, n := range []int64{'.', '\\'} {
				switch f.eval(mkEq(t, mkInt(n))) {
				case yes:
					if !g.assume(mkEq(k.at(p), mkInt(n)), true) {
						return nil
					}
				case no:
					if !g.assume(mkEq(k.at(p), mkInt(n)), false) {
						return nil
					}
				}
			}
		}
	}
	return g
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (k *keyRun) at(pos *Term) *Term {
	return mkApp("index", types.Typ[types.Byte], k.key, pos)
}

func (k *keyRun) atom(t *Term) string {
	if k.terms == nil {
		k.terms = map[int]*Term{}
	}
	k.terms[t.ID] = t
	return fmt.Sprint("?", t.ID)
}

// char gives the atom of the byte t.
func (k *keyRun) char(t *Term, ask func(*Term) bool) (string, bool) {
	if t.IsInt {
		return fmt.Sprint("b", t.N), true
	}
	if p := k.indexOf(t); p != nil {
		c := k.at(p)
		for _, n := range []int64{'.', '\\'} {
			if ask(mkEq(c, mkInt(n))) {
				return fmt.Sprint("b", n), true
			}
		}
		return fmt.Sprint("k", p.ID), true
	}
	return "", false
}

// str gives the atoms of a string or list of bytes.
func (k *keyRun) str(t *Term, ask func(*Term) bool) seq {
	if t.isNil() {
		return nil
	}
	if c, ok := t.isStr(); ok {
		var q seq
		for i := 0; i < len(c); i++ {
			q = append(q, fmt.Sprint("b", c[i]))
		}
		return q
	}
	chars := func(ts []*Term) (q seq, ok bool) {
		for _, x := range ts {
			a, ok := k.char(x, ask)
			if !ok {
				return nil, false
			}
			q = append(q, a)
		}
		return q, true
	}
	switch t.Op {
	case OpZero:
		return nil
	case OpConv:
		a := t.Args[0]
		if a.isNil() {
			return nil
		}
		if a.Typ != nil && isStrBytes(a.Typ) {
			return k.str(a, ask)
		}
		// a character as a string: a byte of its own only if it is ASCII
		if a.Typ != nil && isIntType(a.Typ) {
			if q, ok := chars([]*Term{a}); ok && len(q) == 1 && (q[0] == "b46" || q[0] == "b92") {
				return q
			}
		}
	case OpSliceLit:
		if q, ok := chars(t.Args); ok {
			return q
		}
	case OpAppend:
		if q, ok := chars(t.Args[1:]); ok {
			return append(k.str(t.Args[0], ask), q...)
		}
	case OpAppendSl:
		return append(k.str(t.Args[0], ask), k.str(t.Args[1], ask)...)
	case OpSlice:
		if t.Args[1] == t.Args[2] {
			return nil
		}
		d := mkSub(t.Args[2], t.Args[1])
		if b := bytesFrom(t.Args[0]); b == k.key && d.IsInt && d.N >= 0 && d.N < 8 {
			var ts []*Term
			for i := int64(0); i < d.N; i++ {
				ts = append(ts, k.at(k.norm(mkLin(t.Args[1], i))))
			}
			if q, ok := chars(ts); ok {
				return q
			}
		}
		if b, o := linParts(t.Args[1]); b == nil && o == 0 && t.Args[2] == mkLen(t.Args[0]) {
			return k.str(t.Args[0], ask)
		}
	case OpApp:
		switch t.Aux {
		case "concat":
			var q seq
			for _, a := range t.Args {
				q = append(q, k.str(a, ask)...)
			}
			return q
		case "bytestring":
			if q, ok := chars(t.Args[:1]); ok {
				return q
			}
		case "makeslice":
			if t.Args[0].IsInt && t.Args[0].N == 0 {
				return nil
			}
		}
	}
	if t.Typ != nil {
		switch t.Typ.Underlying().(type) {
		case *types.Slice, *types.Basic:
			if !ask(mkLt(mkInt(0), mkLen(t))) {
				return nil
			}
		}
	}
	return seq{k.atom(t)}
}

// segs gives the segments of a list.
func (k *keyRun) segs(s *State, t *Term, ask func(*Term) bool) []string {
	if t.isNil() || t.Op == OpZero {
		return nil
	}
	if b, els, ok := appendParts(t); ok {
		l := k.segs(s, b, ask)
		for _, x := range els {
			l = append(l, "["+k.str(x, ask).String()+"]")
		}
		return l
	}
	switch {
	case t.Op == OpApp && t.Aux == "makeslice" && t.Args[0].IsInt && t.Args[0].N == 0:
		return nil
	case t.Op == OpSlice && t.Args[1] == t.Args[2]:
		return nil
	case t.Op == OpSlice && t.Args[1].IsInt && t.Args[1].N == 0 && t.Args[2].IsInt && t.Args[0].Op == OpAlloc:
		var l []string
		for i := int64(0); i < t.Args[2].N && i < 8; i++ {
			l = append(l, "["+k.str(s.load(mkIndexAddr(t.Args[0], mkInt(i), types.NewPointer(types.Typ[types.String])), types.Typ[types.String]), ask).String()+"]")
		}
		return l
	}
	if !ask(mkLt(mkInt(0), mkLen(t))) {
		return nil
	}
	return []string{"*" + fmt.Sprint(t.ID)}
}

func (k *keyRun) read(tr *Transition, r keyRel, to bool, ask func(*Term) bool) (keyState, string) {
	var own, mem map[*Term]*Term
	var outer *Cut
	if to {
		own, mem, outer = tr.Vals, tr.Mem, tr.Parent
	} else {
		own, mem, outer = tr.From.Vals, tr.From.Mem, tr.From.Parent
	}
	var st keyState
	get := func(c keyCell) *Term { return c.at(tr.St, own, mem, outer) }
	if r.list.kind != "const" {
		t := get(r.list)
		if t == nil {
			return st, "the segments are not known"
		}
		st.list = k.segs(tr.St, t, ask)
	}
	if r.cur.kind != "const" {
		t := get(r.cur)
		if t == nil {
			return st, "the current segment is not known"
		}
		st.cur = k.str(t, ask)
	}
	st.pos = mkInt(0)
	for _, p := range r.pos {
		t := get(p)
		if t == nil {
			return st, "the position is not known"
		}
		if t == nothingLeft {
			t = mkLen(k.key)
		}
		st.pos = mkAdd(st.pos, t)
	}
	st.pos = k.norm(mkLin(st.pos, r.off))
	switch r.esc.kind {
	case "const":
	case "prev":
		if !to && !ask(mkLt(st.pos, mkInt(1))) {
			st.esc = ask(mkEq(k.at(k.norm(mkLin(st.pos, -1))), mkInt('\\')))
		}
	default:
		t := get(r.esc)
		if t == nil {
			return st, "the escape state is not known"
		}
		st.esc = ask(boolOf(t))
	}
	return st, ""
}

// boolOf is the condition that a state variable is set.
func boolOf(t *Term) *Term {
	if isIntTerm(t) {
		return mkEq(t, mkInt('\\'))
	}
	return t
}

// step reads one character.
func (k *keyRun) step(st keyState, ask func(*Term) bool) (keyState, string) {
	if !ask(mkLt(st.pos, mkLen(k.key))) {
		return st, "reads beyond the end of the key"
	}
	c := k.at(st.pos)
	n := keyState{list: st.list, cur: append(seq(nil), st.cur...), pos: k.norm(mkLin(st.pos, 1))}
	switch {
	case ask(mkEq(c, mkInt('.'))):
		switch {
		case k.esc:
			n.cur = append(n.cur, "b92", "b46")
		case st.esc:
			n.cur = append(n.cur, "b46")
		case len(st.cur) > 0:
			n.list = st.flush().list
			n.cur = nil
		}
	case ask(mkEq(c, mkInt('\\'))):
		if k.esc {
			return n, "infeasible" // names without backslashes
		}
		n.esc = true
	default:
		n.cur = append(n.cur, fmt.Sprint("k", st.pos.ID))
	}
	return n, ""
}

// has: a search for a character in the key has the given outcome.
func (k *keyRun) has(f *Facts, ch byte) tri {
	for _, t := range aboutTerms(f) {
		if t.Op != OpApp || len(t.Args) < 2 || t.Args[0] != k.key {
			continue
		}
		var set string
		if s, ok := t.Args[1].isStr(); ok {
			set = s
		} else if t.Args[1].IsInt {
			set = string(rune(t.Args[1].N))
		}
		single := set == string(rune(ch))
		switch t.Aux {
		case "strings.IndexByte", "strings.IndexRune", "strings.Index", "strings.IndexAny", "strings.LastIndexByte", "strings.LastIndex", "strings.LastIndexAny":
			any := strings.HasSuffix(t.Aux, "Any")
			if !single && !(any && strings.IndexByte(set, ch) >= 0) {
				continue
			}
			if f.eval(mkLt(t, mkInt(0))) == yes {
				return no
			}
			if single && f.eval(mkLt(t, mkInt(0))) == no {
				return yes
			}
		case "strings.Contains", "strings.ContainsRune", "strings.ContainsAny":
			if !single && !(t.Aux == "strings.ContainsAny" && strings.IndexByte(set, ch) >= 0) {
				continue
			}
			if f.eval(t) == no {
				return no
			}
			if single && f.eval(t) == yes {
				return yes
			}
		case "strings.Count":
			if !single {
				continue
			}
			if f.eval(mkLt(mkInt(0), t)) == no {
				return no
			}
		}
	}
	return unknown
}

// check decides one transition under a choice of relations.
func (k *keyRun) check(tr *Transition, rel map[string]keyRel) string {
	f := k.facts(tr.St.F)
	if f == nil {
		return ""
	}
	res := decide(f, func(ask func(*Term) bool) string {
		var st keyState
		if tr.From != nil {
			var why string
			if st, why = k.read(tr, rel[tr.From.Key], false, ask); why != "" {
				return why
			}
		} else {
			st.pos = mkInt(0)
		}
		start := st.pos
		if tr.To == "" {
			return k.finish(tr, st, ask)
		}
		r := rel[tr.To]
		end, why := k.read(tr, r, true, ask)
		if why != "" {
			return why
		}
		n := k.advance(start, end.pos)
		if l := mkLen(k.key); !n.IsInt && (tr.From == nil || tr.From.Key != tr.To) && !ask(mkLt(start, l)) && !ask(mkLt(end.pos, l)) {
			n = mkInt(0) // nothing is left
		}
		if !n.IsInt || n.N < 0 || n.N > 4 {
			return fmt.Sprintf("the position goes from %s to %s", start, end.pos)
		}
		if n.N == 0 && tr.From != nil && tr.From.Key == tr.To && len(r.pos) > 0 {
			return "the position does not change"
		}
		for i := int64(0); i < n.N; i++ {
			if st, why = k.step(st, ask); why != "" {
				return why
			}
		}
		if !k.esc && strings.Join(st.list, "") != strings.Join(end.list, "") && !ask(mkLt(st.pos, mkLen(k.key))) {
			st, end = st.flush(), end.flush() // at the end a segment is finished, sooner or later
		}
		if a, b := strings.Join(st.list, ""), strings.Join(end.list, ""); a != b {
			return k.differ("segments", a, b)
		}
		if a, b := st.cur.String(), end.cur.String(); a != b {
			return k.differ("current segment", a, b)
		}
		if !k.esc && r.esc.kind != "prev" && st.esc != end.esc {
			// the state matters only if a dot follows
			if ask(mkLt(st.pos, mkLen(k.key))) && ask(mkEq(k.at(st.pos), mkInt('.'))) {
				if st.esc {
					return "a backslash does not escape the dot after it"
				}
				return "a dot without a backslash before it is escaped"
			}
		}
		return ""
	})
	return firstWhy(res)
}

// advance is the number of characters between two positions.
func (k *keyRun) advance(from, to *Term) *Term {
	n := mkSub(to, from)
	if !n.IsInt {
		x, cx := linParts(to)
		y, cy := linParts(from)
		if a, ok := k.f.dist(x, y); ok {
			if b, ok := k.f.dist(y, x); ok && a == -b {
				return mkInt(a + cx - cy)
			}
		}
	}
	return n
}

func (k *keyRun) differ(what, want, got string) string {
	return fmt.Sprintf("the %s must be %s but is %s", what, k.show(want), k.show(got))
}

// show makes atoms readable.
func (k *keyRun) show(q string) string {
	if q == "" {
		return "empty"
	}
	f := strings.FieldsFunc(q, func(r rune) bool { return r == ' ' || r == '[' || r == ']' })
	for i, a := range f {
		var n int
		switch {
		case strings.HasPrefix(a, "b"):
			fmt.Sscan(a[1:], &n)
			f[i] = fmt.Sprintf("%q", rune(n))
		case strings.HasPrefix(a, "k"):
			f[i] = "the character"
		case strings.HasPrefix(a, "*"):
			f[i] = "the segments so far,"
		default:
			fmt.Sscan(a[1:], &n)
			f[i] = "what was collected"
			if t := k.terms[n]; t != nil && t.Op != OpLoopVar {
				f[i] = t.String()
			}
		}
	}
	return strings.Join(f, " ")
}

func firstWhy(res map[string]*Facts) string {
	for _, o := range sortedKeys(res) {
		if o != "" {
			return o
		}
	}
	return ""
}

// finish decides a return.
func (k *keyRun) finish(tr *Transition, st keyState, ask func(*Term) bool) string {
	ret := tr.Rets[0]
	f := tr.St.F
	if tr.From == nil {
		// without a loop
		if k.esc {
			if escapesDots(ret, k.key) {
				return ""
			}
			if ret == k.key && k.has(f, '.') == no {
				return ""
			}
		} else if k.has(f, '.') == no && k.has(f, '\\') == no {
			if !ask(mkLt(mkInt(0), mkLen(k.key))) {
				if len(k.segs(tr.St, ret, ask)) > 0 {
					return "the empty key gives segments"
				}
				return ""
			}
			want := "[" + k.str(k.key, ask).String() + "]"
			if got := strings.Join(k.segs(tr.St, ret, ask), ""); got != want {
				return k.differ("segments", want, got)
			}
			return ""
		}
	}
	for i := 0; ; i++ {
		if !ask(mkLt(st.pos, mkLen(k.key))) {
			break
		}
		if i == 3 {
			return "the result is returned before the end of the key: " + ret.String()
		}
		var why string
		if st, why = k.step(st, ask); why != "" {
			return why
		}
	}
	if k.esc {
		if f.eval(mkLt(mkInt(0), mkLen(k.key))) == no {
			return ""
		}
		if got, want := k.str(ret, ask).String(), st.cur.String(); got != want {
			return k.differ("result", want, got)
		}
		return ""
	}
	if len(st.cur) > 0 {
		st.list = append(append([]string(nil), st.list...), "["+st.cur.String()+"]")
	}
	if got, want := strings.Join(k.segs(tr.St, ret, ask), ""), strings.Join(st.list, ""); got != want {
		return k.differ("result", want, got)
	}
	return ""
}

// escapesDots: t is the string with each dot escaped.
func escapesDots(t, key *Term) bool {
	is := func(t *Term, s string) bool { c, ok := t.isStr(); return ok && c == s }
	if t.Op != OpApp {
		return false
	}
	switch t.Aux {
	case "strings.ReplaceAll":
		return t.Args[0] == key && is(t.Args[1], ".") && is(t.Args[2], `\.`)
	case "strings.Replace":
		return t.Args[0] == key && is(t.Args[1], ".") && is(t.Args[2], `\.`) && t.Args[3].IsInt && t.Args[3].N < 0
	case "strings.Join":
		l := t.Args[0]
		return is(t.Args[1], `\.`) && l.Op == OpApp && l.Aux == "strings.Split" && l.Args[0] == key && is(l.Args[1], ".")
	}
	return false
}

func (k *keyRun) run() {
	c := k.c
	pos := c.P.Pos(k.fn.Pos())
	cl := &Client{OnCut: func(s *State, t *Transition) { k.trans = append(k.trans, t) }}
	cl.OnReturn = func(s *State, rets []*Term) {
		k.trans = append(k.trans, &Transition{From: s.cut, Mem: s.mem, Rets: rets, St: s.clone()})
	}
	e := c.Run(k.fn, cl, []*Term{k.key}, nil)
	if e == nil || e.Err != nil {
		return
	}
	rel := k.search(e)
	seen := map[string]bool{}
	for _, tr := range k.trans {
		what := "first arrival"
		switch {
		case tr.To == "" && tr.From == nil:
			what = "return without a loop"
		case tr.To == "":
			what = "return"
		case tr.From != nil:
			what = "iteration"
		}
		why := k.check(tr, rel)
		seen[what] = true
		c.Check(why == "", k.rule, what, pos, why, append([]string{"relation: " + k.relation(rel)}, traceDetails(tr.St)...)...)
	}
	if !seen["return"] && !seen["return without a loop"] {
		c.Bad(k.rule, "return", pos, k.fn.String()+" does not return")
	}
}

func (k *keyRun) relation(rel map[string]keyRel) string {
	var out []string
	for _, h := range sortedRel(rel) {
		out = append(out, h+": "+rel[h].String())
	}
	if len(out) > 3 {
		out = out[:3]
	}
	return strings.Join(out, "; ")
}

func sortedRel(m map[string]keyRel) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

type keyHeader struct {
	key     string
	depth   int
	parents map[string]bool
	cells   []keyCell
}

// search finds the relations.
func (k *keyRun) search(e *Engine) map[string]keyRel {
	hs := map[string]*keyHeader{}
	for _, tr := range k.trans {
		if tr.To == "" {
			continue
		}
		h := hs[tr.To]
		if h == nil {
			h = &keyHeader{key: tr.To, parents: map[string]bool{}}
			hs[tr.To] = h
		}
		have := map[keyCell]bool{}
		for _, c := range h.cells {
			have[c] = true
		}
		add := func(kind string, v *Term) {
			if c := (keyCell{kind, v}); !have[c] {
				have[c] = true
				h.cells = append(h.cells, c)
			}
		}
		for v := range tr.Vals {
			add("var", v)
		}
		for a := range tr.Mem {
			if a.Op == OpIndexAddr || rootOf(a).Op != OpAlloc {
				continue
			}
			add("mem", a)
		}
		d := 0
		for p := tr.Parent; p != nil; p = p.Parent {
			d++
			h.parents[p.Key] = true
			for v := range p.Vals {
				add("var", v)
			}
		}
		if d > h.depth {
			h.depth = d
		}
	}
	var order []*keyHeader
	for _, h := range hs {
		sort.Slice(h.cells, func(i, j int) bool {
			a, b := h.cells[i], h.cells[j]
			if a.kind != b.kind {
				return a.kind > b.kind // variables before memory
			}
			return a.v.ID < b.v.ID
		})
		order = append(order, h)
	}
	sort.Slice(order, func(i, j int) bool {
		if order[i].depth != order[j].depth {
			return order[i].depth < order[j].depth
		}
		return order[i].key < order[j].key
	})
	rel := map[string]keyRel{}
	// options for a header: the relations that all transitions between known
	// headers preserve, or else the one that most of them do.
	var solve func(i int) bool
	best := map[string]keyRel{}
	deepest := -1
	solve = func(i int) bool {
		if i > deepest {
			deepest = i
			best = map[string]keyRel{}
			for h, r := range rel {
				best[h] = r
			}
		}
		if i == len(order) {
			return true
		}
		h := order[i]
		found, nearest := k.options(h, rel)
		for _, r := range found {
			rel[h.key] = r
			if solve(i + 1) {
				return true
			}
		}
		delete(rel, h.key)
		if len(found) == 0 && i == deepest {
			best[h.key] = nearest
		}
		return false
	}
	if !solve(0) {
		for _, h := range order {
			if _, ok := best[h.key]; !ok {
				_, best[h.key] = k.options(h, best)
			}
		}
		return best
	}
	return rel
}

// options gives the relations at a header that fit the known ones, and the one
// that comes closest.
func (k *keyRun) options(h *keyHeader, rel map[string]keyRel) (found []keyRel, nearest keyRel) {
	{
		var lists, curs, escs, poss []keyCell
		for _, c := range h.cells {
			t := c.v.Typ
			if c.kind == "mem" {
				t = cellType(c.v)
			}
			if t == nil {
				continue
			}
			switch u := t.Underlying().(type) {
			case *types.Basic:
				switch {
				case u.Info()&types.IsString != 0:
					curs = append(curs, c)
					poss = append(poss, keyCell{"rest·" + c.kind, c.v})
				case u.Info()&types.IsBoolean != 0:
					escs = append(escs, c)
				case u.Info()&types.IsInteger != 0:
					if u.Kind() == types.Uint8 || u.Kind() == types.Int32 {
						escs = append(escs, c)
					} else {
						poss = append(poss, c)
					}
				}
			case *types.Slice:
				switch {
				case isStringType(u.Elem()):
					lists = append(lists, c)
				case isByte(u.Elem()):
					curs = append(curs, c)
					poss = append(poss, keyCell{"rest·" + c.kind, c.v})
				}
			}
		}
		none := keyCell{kind: "const"}
		curs = append(curs, none)
		if k.esc {
			lists, escs = []keyCell{none}, []keyCell{none}
		} else {
			lists = append(lists, none)
			escs = append(escs, none, keyCell{kind: "prev"})
		}
		var where [][]keyCell
		for _, p := range poss {
			where = append(where, []keyCell{p})
		}
		for i, p := range poss {
			for j, q := range poss {
				if i < j && len(h.parents) > 0 {
					where = append(where, []keyCell{p, q})
				}
			}
		}
		where = append(where, nil)
		var trs []*Transition
		for _, tr := range k.trans {
			ok := tr.To == h.key || tr.From != nil && tr.From.Key == h.key
			for _, key := range []string{tr.To, fromKey(tr)} {
				if _, known := rel[key]; key != "" && key != h.key && !known {
					ok = false
				}
			}
			if ok {
				trs = append(trs, tr)
			}
		}
		bestN := -1
		for _, w := range where {
			for off := int64(0); off < 2; off++ {
				if len(w) == 0 && off > 0 {
					continue
				}
				for _, l := range lists {
					for _, cu := range curs {
						for _, es := range escs {
							r := keyRel{list: l, cur: cu, esc: es, pos: w, off: off}
							rel[h.key] = r
							n := 0
							for _, tr := range trs {
								if k.check(tr, rel) != "" {
									n++
									if bestN >= 0 && n > bestN {
										break
									}
								}
							}
							if bestN < 0 || n < bestN {
								nearest, bestN = r, n
							}
							if n == 0 {
								if found = append(found, r); len(found) == 32 {
									delete(rel, h.key)
									return
								}
							}
						}
					}
				}
			}
		}
		delete(rel, h.key)
	}
	return
}

func fromKey(tr *Transition) string {
	if tr.From == nil {
		return ""
	}
	return tr.From.Key
}

func init() {
	register("C05", func(c *Ctx) {
		c.Rule("C05-parse", "a key gives its non-empty segments separated by dots, in order; a dot after a backslash belongs to the segment, a backslash never does, every other character does", 3)
		c.Rule("C05-escape", "escaping a name puts a backslash before each dot and changes nothing else", 1)
		if fn := eventParser(c); fn != nil {
			(&keyRun{c: c, rule: "C05-parse", fn: fn, key: mkT(OpParam, "key", 0, fn.Params[0].Type(), true, fn.Params[0], nil)}).run()
		}
		if fn := c.P.Func(relUtil, "EscapeKey"); fn != nil && len(fn.Params) == 1 {
			(&keyRun{c: c, rule: "C05-escape", fn: fn, esc: true, key: mkT(OpParam, "key", 0, fn.Params[0].Type(), true, fn.Params[0], nil)}).run()
		} else {
			c.Missing("eventutil.EscapeKey")
		}
	})
}
