package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"
)

// Facts is the abstract constraint of a path partition: truth of atoms,
// (dis)equality with constants, dynamic types, and a zone domain (bounds on
// differences of integer values).
type Facts struct {
	bools map[*Term]bool
	eqc   map[*Term]*Term
	neqc  map[*Term][]*Term
	dyn   map[*Term]types.Type
	zone  map[[2]*Term]int64 // x - y <= c; a nil term is zero
	zi    *zoneIdx           // compact form of zone
}

func newFacts() *Facts {
	return &Facts{bools: map[*Term]bool{}, eqc: map[*Term]*Term{}, neqc: map[*Term][]*Term{}, dyn: map[*Term]types.Type{}, zone: map[[2]*Term]int64{}}
}

func (f *Facts) clone() *Facts {
	g := newFacts()
	for k, v := range f.bools {
		g.bools[k] = v
	}
	for k, v := range f.eqc {
		g.eqc[k] = v
	}
	for k, v := range f.neqc {
		g.neqc[k] = v
	}
	for k, v := range f.dyn {
		g.dyn[k] = v
	}
	for k, v := range f.zone {
		g.zone[k] = v
	}
	g.zi = f.zi
	return g
}

func tid(t *Term) int {
	if t == nil {
		return -1
	}
	return t.ID
}

func (f *Facts) key(sb *strings.Builder) {
	var s []string
	for k, v := range f.bools {
		s = append(s, fmt.Sprintf("b%d=%v", k.ID, v))
	}
	for k, v := range f.eqc {
		s = append(s, fmt.Sprintf("e%d=%d", k.ID, v.ID))
	}
	for k, v := range f.neqc {
		x := make([]int, len(v))
		for i := range v {
			x[i] = v[i].ID
		}
		sort.Ints(x)
		s = append(s, fmt.Sprintf("n%d=%v", k.ID, x))
	}
	for k, v := range f.dyn {
		s = append(s, fmt.Sprintf("d%d=%s", k.ID, typeStr(v)))
	}
	for k, v := range f.zone {
		s = append(s, fmt.Sprintf("z%d,%d=%d", tid(k[0]), tid(k[1]), v))
	}
	sort.Strings(s)
	for _, x := range s {
		sb.WriteString(x)
		sb.WriteByte(';')
	}
}

// filter keeps the facts about terms for which keep holds.
func (f *Facts) filter(keep func(*Term) bool) *Facts {
	g := newFacts()
	for k, v := range f.bools {
		if keep(k) {
			g.bools[k] = v
		}
	}
	for k, v := range f.eqc {
		if keep(k) && keep(v) {
			g.eqc[k] = v
		}
	}
	for k, v := range f.neqc {
		if keep(k) {
			var w []*Term
			for _, x := range v {
				if keep(x) {
					w = append(w, x)
				}
			}
			if len(w) > 0 {
				g.neqc[k] = w
			}
		}
	}
	for k, v := range f.dyn {
		if keep(k) {
			g.dyn[k] = v
		}
	}
	for k, v := range f.zone {
		if (k[0] == nil || keep(k[0])) && (k[1] == nil || keep(k[1])) {
			g.zone[k] = v
			g.zi = nil
		}
	}
	return g
}

func nonNegTerm(t *Term) bool {
	if t == nil {
		return false
	}
	switch t.Op {
	case OpLen, OpMapLen, OpCap:
		return true
	}
	return isUnsigned(t.Typ)
}

// zoneIdx is a compact form of the difference constraints.
type zoneIdx struct {
	id    map[*Term]int
	edges []zoneEdge // a - b <= c
}

type zoneEdge struct {
	a, b int
	c    int64
}

func (f *Facts) zoneIndex() *zoneIdx {
	if f.zi != nil {
		return f.zi
	}
	z := &zoneIdx{id: make(map[*Term]int, 2*len(f.zone)+1)}
	z.id[nil] = 0
	node := func(t *Term) int {
		n, ok := z.id[t]
		if !ok {
			n = len(z.id)
			z.id[t] = n
			if nonNegTerm(t) {
				z.edges = append(z.edges, zoneEdge{0, n, 0})
			}
		}
		return n
	}
	for k, c := range f.zone {
		a, b := node(k[0]), node(k[1])
		z.edges = append(z.edges, zoneEdge{a, b, c})
	}
	f.zi = z
	return z
}

// dist returns the tightest derivable bound c with x - y <= c.
func (f *Facts) dist(x, y *Term) (int64, bool) {
	if x == y {
		return 0, true
	}
	d, ok := f.dist0(x, y)
	if x == nil && y != nil && isSum(y) {
		// the sum of two numbers that are not negative and bounded by lengths
		if p, q := y.Args[0], y.Args[1]; f.nonNeg(p) && f.nonNeg(q) && f.lengthBound(p, 2) && f.lengthBound(q, 2) {
			dp, okp := f.dist0(nil, p)
			dq, okq := f.dist0(nil, q)
			if !okp || dp > 0 {
				dp = 0
			}
			if !okq || dq > 0 {
				dq = 0
			}
			if !ok || dp+dq < d {
				d, ok = dp+dq, true
			}
		}
	}
	// p + q - y is p - (y - q), and x - (p + q) is (x - q) - p
	if x != nil && y != nil && (isSum(x) || isSum(y)) {
		sum, other := x, y
		if !isSum(x) {
			sum, other = y, x
		}
		for i := 0; i < 2; i++ {
			p, q := sum.Args[i], sum.Args[1-i]
			if !f.nonNeg(p) || !f.nonNeg(q) || !f.nonNeg(other) {
				break
			}
			r, o := linParts(mkSub(other, q))
			if r == nil || r.Op != OpBin || r.Aux != "-" {
				continue
			}
			var d2 int64
			var ok2 bool
			if sum == x {
				d2, ok2 = f.dist0(p, r)
				d2 -= o
			} else {
				d2, ok2 = f.dist0(r, p)
				d2 += o
			}
			if ok2 && (!ok || d2 < d) {
				d, ok = d2, true
			}
		}
	}
	if p, q, is := f.difference(x, y); is {
		if d2, ok2 := f.dist0(p, q); ok2 && (!ok || d2 < d) {
			return d2, true
		}
	}
	return d, ok
}

// lengthBound: t is at most the length of something, give or take a constant,
// so that two such numbers can be added without overflow.
func (f *Facts) lengthBound(t *Term, depth int) bool {
	t, _ = linParts(t)
	if t == nil || t.Op == OpLen {
		return true
	}
	if t.Op == OpBin && t.Aux == "-" && !isUnsigned(t.Typ) && f.nonNeg(t.Args[1]) && depth > 0 {
		return f.lengthBound(t.Args[0], depth-1)
	}
	if depth == 0 {
		return false
	}
	for k, c := range f.zone {
		if k[0] == t && c < 1<<32 && (k[1] == nil || f.lengthBound(k[1], depth-1)) {
			return true
		}
	}
	return false
}

func isSum(t *Term) bool {
	return t.Op == OpBin && t.Aux == "+" && len(t.Args) == 2 && t.Args[0].Op != OpLin && t.Args[1].Op != OpLin && !t.Args[0].IsInt && !t.Args[1].IsInt
}

func (f *Facts) nonNeg(a *Term) bool {
	if nonNegTerm(a) {
		return true
	}
	b, o := linParts(a)
	if b == nil {
		return o >= 0
	}
	d, ok := f.dist0(nil, b)
	return ok && d-o <= 0
}

// difference: x - y is p - q, where one of x and y is a difference of numbers
// that are not negative (so that it cannot overflow) and the other is zero.
func (f *Facts) difference(x, y *Term) (p, q *Term, ok bool) {
	t := x
	if x == nil {
		t = y
	} else if y != nil {
		return
	}
	if t == nil || t.Op != OpBin || t.Aux != "-" || t.Typ == nil || isUnsigned(t.Typ) {
		return
	}
	for _, a := range t.Args[:2] {
		if !f.nonNeg(a) {
			return nil, nil, false
		}
	}
	p, q = t.Args[0], t.Args[1]
	if pb, o := linParts(p); o != 0 || pb == nil {
		return nil, nil, false
	}
	if qb, o := linParts(q); o != 0 || qb == nil {
		return nil, nil, false
	}
	if x == nil {
		p, q = q, p
	}
	return p, q, true
}

func (f *Facts) dist0(x, y *Term) (int64, bool) {
	z := f.zoneIndex()
	edges := z.edges
	n := len(z.id)
	xi, okx := z.id[x]
	yi, oky := z.id[y]
	if !okx {
		return 0, false // nothing bounds x from above
	}
	if !oky {
		if !nonNegTerm(y) {
			return 0, false
		}
		yi = n
		n++
		edges = append(edges[:len(edges):len(edges)], zoneEdge{0, yi, 0})
	}
	const inf = int64(1) << 62
	var buf [64]int64
	d := buf[:0]
	for i := 0; i < n; i++ {
		d = append(d, inf)
	}
	d[yi] = 0
	for i := 0; i <= n; i++ {
		changed := false
		for _, e := range edges {
			if d[e.b] != inf && d[e.b]+e.c < d[e.a] {
				d[e.a] = d[e.b] + e.c
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	return d[xi], d[xi] != inf
}

// addDiff records x - y <= c and reports consistency.
func (f *Facts) addDiff(x, y *Term, c int64) bool {
	if x == y {
		return c >= 0
	}
	if d, ok := f.dist(y, x); ok && d+c < 0 {
		return false
	}
	if d, ok := f.dist(x, y); ok && d <= c {
		return true // implied
	}
	f.zone[[2]*Term{x, y}] = c
	f.zi = nil
	if p, q, is := f.difference(x, y); is && !f.addDiff(p, q, c) {
		return false
	}
	// sharpen disequalities at a bound
	for _, t := range []*Term{x, y} {
		if t == nil || len(f.neqc[t]) == 0 {
			continue
		}
		hi, hasHi := f.dist(t, nil)
		lo, hasLo := f.dist(nil, t)
		for _, n := range f.neqc[t] {
			if n.IsInt && (hasHi && hi == n.N || hasLo && lo == -n.N) {
				if !f.sharpen(t, n) {
					return false
				}
			}
		}
	}
	return true
}

func (f *Facts) sharpen(t, n *Term) bool {
	if !n.IsInt {
		return true
	}
	if d, ok := f.dist(t, nil); ok && d == n.N {
		if !f.addDiff(t, nil, n.N-1) {
			return false
		}
	}
	if d, ok := f.dist(nil, t); ok && d == -n.N {
		if !f.addDiff(nil, t, -n.N-1) {
			return false
		}
	}
	return true
}

// bounds returns the known interval of an integer term.
func (f *Facts) bounds(t *Term) (lo int64, hasLo bool, hi int64, hasHi bool) {
	b, o := linParts(t)
	if b == nil {
		return o, true, o, true
	}
	if d, ok := f.dist(b, nil); ok {
		hi, hasHi = d+o, true
	}
	if d, ok := f.dist(nil, b); ok {
		lo, hasLo = -d+o, true
	}
	return
}

func isIntTerm(t *Term) bool {
	return t.IsInt || t.Op == OpLin || t.Op == OpLen || t.Op == OpMapLen || t.Op == OpCap || isIntType(t.Typ)
}

type tri int

const (
	unknown tri = iota
	yes
	no
)

func triOf(b bool) tri {
	if b {
		return yes
	}
	return no
}

func (t tri) not() tri {
	switch t {
	case yes:
		return no
	case no:
		return yes
	}
	return unknown
}

func (f *Facts) eval(c *Term) tri {
	switch {
	case c.isTrue():
		return yes
	case c.isFalse():
		return no
	}
	if v, ok := f.bools[c]; ok {
		return triOf(v)
	}
	switch c.Op {
	case OpNot:
		return f.eval(c.Args[0]).not()
	case OpEq:
		return f.evalEq(c.Args[0], c.Args[1])
	case OpLt:
		xa, ca := linParts(c.Args[0])
		xb, cb := linParts(c.Args[1])
		// xa + ca < xb + cb  <=>  xa - xb <= cb - ca - 1
		if d, ok := f.dist(xa, xb); ok && d <= cb-ca-1 {
			return yes
		}
		if d, ok := f.dist(xb, xa); ok && d <= ca-cb {
			return no
		}
	case OpAssertOk:
		if d, ok := f.dyn[c.Args[0]]; ok {
			return triOf(assertHolds(d, c.Typ))
		}
		if f.isNilTri(c.Args[0]) == yes {
			return no
		}
		if f.reflectHas(c.Args[0], c.Typ) {
			return yes
		}
	case OpLookupOk:
		if f.isNilTri(c.Args[0]) == yes {
			return no
		}
		if _, _, hi, ok := f.bounds(mkT(OpMapLen, "", 0, types.Typ[types.Int], false, nil, nil, c.Args[0], c.Args[2])); ok && hi <= 0 {
			return no
		}
	}
	return unknown
}

func assertHolds(dyn, to types.Type) bool {
	if it, ok := to.Underlying().(*types.Interface); ok {
		return types.Implements(dyn, it)
	}
	return types.Identical(dyn, to)
}

func (f *Facts) isNilTri(t *Term) tri {
	if t.isNil() {
		return yes
	}
	if nonNil(t) {
		return no
	}
	return f.eval(mkEq(t, mkNil()))
}

func (f *Facts) evalEq(a, b *Term) tri {
	if b.isConst() {
		if v, ok := f.eqc[a]; ok {
			return triOf(v == b)
		}
		for _, n := range f.neqc[a] {
			if n == b {
				return no
			}
		}
		if b.isNil() {
			if _, ok := f.dyn[a]; ok {
				return no
			}
			if a.Op == OpLookup {
				if f.eval(mkT(OpLookupOk, "", 0, types.Typ[types.Bool], false, nil, nil, a.Args...)) == no {
					return yes
				}
			}
			if isSliceTerm(a) {
				if lo, ok, _, _ := f.bounds(mkLen(a)); ok && lo > 0 {
					return no
				}
			}
			if a.Op == OpAppend {
				return no
			}
		}
	}
	if isIntTerm(a) && isIntTerm(b) {
		xa, ca := linParts(a)
		xb, cb := linParts(b)
		d1, ok1 := f.dist(xa, xb)
		d2, ok2 := f.dist(xb, xa)
		if ok1 && ok2 && d1 == cb-ca && d2 == ca-cb {
			return yes
		}
		if ok1 && d1 < cb-ca || ok2 && d2 < ca-cb {
			return no
		}
	}
	if b.Op == OpIface {
		if d, ok := f.dyn[a]; ok && !types.Identical(d, b.Typ) {
			return no
		}
		if f.isNilTri(a) == yes {
			return no
		}
	}
	if !b.isConst() {
		va, oka := f.eqc[a]
		vb, okb := f.eqc[b]
		if oka && okb {
			return triOf(va == vb)
		}
		if oka && !okb {
			if r := f.eval(mkEq(b, va)); r == no {
				return no
			}
		}
		if okb && !oka {
			if r := f.eval(mkEq(a, vb)); r == no {
				return no
			}
		}
		// distinct interface constants of one opaque value
		if b.Op == OpIface {
			for k, v := range f.bools {
				if v && k.Op == OpEq && k.Args[0] == a && k.Args[1].Op == OpIface && k.Args[1] != b &&
					types.Identical(k.Args[1].Typ, b.Typ) && k.Args[1].Args[0].isConst() && b.Args[0].isConst() {
					return no
				}
			}
		}
	}
	return unknown
}

func isSliceTerm(t *Term) bool {
	if t.Typ == nil {
		return false
	}
	_, ok := t.Typ.Underlying().(*types.Slice)
	return ok
}

// assume adds that c has the given truth value. It reports false if that
// contradicts what is known.
func (f *Facts) assume(c *Term, v bool) bool {
	if c.Op == OpNot {
		return f.assume(c.Args[0], !v)
	}
	switch f.eval(c) {
	case yes:
		return v
	case no:
		return !v
	}
	switch c.Op {
	case OpEq:
		return f.assumeEq(c, v)
	case OpLt:
		xa, ca := linParts(c.Args[0])
		xb, cb := linParts(c.Args[1])
		if v {
			return f.addDiff(xa, xb, cb-ca-1)
		}
		return f.addDiff(xb, xa, ca-cb)
	case OpAssertOk:
		f.bools[c] = v
		if v {
			x := c.Args[0]
			if _, isI := c.Typ.Underlying().(*types.Interface); !isI {
				f.dyn[x] = c.Typ
			}
			if !f.assume(mkEq(x, mkNil()), false) {
				return false
			}
			// consistency with failed assertions to interfaces it implements
			for k, b := range f.bools {
				if k.Op == OpAssertOk && k.Args[0] == x && !b {
					if d, ok := f.dyn[x]; ok && assertHolds(d, k.Typ) {
						return false
					}
				}
			}
		}
		return true
	case OpLookupOk:
		f.bools[c] = v
		if v {
			if !f.assume(mkEq(c.Args[0], mkNil()), false) {
				return false
			}
			return f.addDiff(nil, mkT(OpMapLen, "", 0, types.Typ[types.Int], false, nil, nil, c.Args[0], c.Args[2]), -1)
		}
		return true
	}
	f.bools[c] = v
	if v && c.Op == OpApp && len(c.Args) >= 2 && !c.Args[1].IsInt {
		switch c.Aux {
		case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "bytes.HasPrefix", "bytes.HasSuffix", "bytes.Contains":
			n := mkLen(c.Args[0])
			x, o := linParts(n)
			y, p := linParts(mkLen(c.Args[1]))
			if x != nil && !f.addDiff(y, x, o-p) {
				return false
			}
		}
	}
	if v && isLib(c, "(reflect.Type).Implements") {
		for k, b := range f.bools {
			if !b && k.Op == OpAssertOk && f.reflectHas(k.Args[0], k.Typ) {
				return false
			}
		}
	}
	if c.Op == OpNextOk && v && c.Args[0].Op == OpRange && len(c.Args[0].Args) == 2 {
		m := c.Args[0].Args[0]
		if mapTypeOf(m.Typ) != nil {
			if !f.assume(mkEq(m, mkNil()), false) {
				return false
			}
		}
	}
	return true
}

// reflectHas: x is the content of a reflect value whose type is known to
// implement t (and it is not a nil interface).
func (f *Facts) reflectHas(x *Term, t types.Type) bool {
	if !isLib(x, "(reflect.Value).Interface") {
		return false
	}
	if _, ok := t.Underlying().(*types.Interface); !ok {
		return false
	}
	rv := x.Args[0]
	has := false
	for k, b := range f.bools {
		if b && isLib(k, "(reflect.Type).Implements") && isLib(k.Args[0], "(reflect.Value).Type") && k.Args[0].Args[0] == rv && isTypeof(k.Args[1], t) {
			has = true
		}
	}
	if !has {
		return false
	}
	for k, b := range f.bools {
		if !b && isLib(k, "(reflect.Value).IsNil") && k.Args[0] == rv {
			return true
		}
	}
	kind := mkT(OpApp, "(reflect.Value).Kind", 0, nil, false, nil, nil, rv)
	for _, k := range factTerms(f, func(k *Term) bool { return isLib(k, "(reflect.Value).Kind") && k.Args[0] == rv }) {
		kind = k
	}
	return f.eval(mkEq(kind, mkInt(int64(reflect.Interface)))) == no
}

func (f *Facts) assumeEq(c *Term, v bool) bool {
	a, b := c.Args[0], c.Args[1]
	if isIntTerm(a) && isIntTerm(b) {
		xa, ca := linParts(a)
		xb, cb := linParts(b)
		if v {
			if b.IsInt {
				for _, n := range f.neqc[a] {
					if n == b {
						return false
					}
				}
				f.eqc[a] = b
			}
			return f.addDiff(xa, xb, cb-ca) && f.addDiff(xb, xa, ca-cb)
		}
		if b.IsInt {
			f.neqc[a] = append(append([]*Term{}, f.neqc[a]...), b)
			return f.sharpen(a, b)
		}
		if d, ok := f.dist(xa, xb); ok && d == cb-ca {
			return f.addDiff(xa, xb, d-1)
		}
		if d, ok := f.dist(xb, xa); ok && d == ca-cb {
			return f.addDiff(xb, xa, d-1)
		}
		f.bools[c] = false
		return true
	}
	if b.isConst() {
		if v {
			f.eqc[a] = b
			if b.isNil() {
				if isSliceTerm(a) {
					return f.addDiff(mkLen(a), nil, 0)
				}
				if mapTypeOf(a.Typ) != nil && f.hasMembers(a) {
					return false
				}
				if a.Op == OpAppendSl {
					return true
				}
			}
			if s, ok := b.isStr(); ok {
				n := mkLen(a)
				x, o := linParts(n)
				return f.addDiff(x, nil, int64(len(s))-o) && f.addDiff(nil, x, o-int64(len(s)))
			}
			return true
		}
		f.neqc[a] = append(append([]*Term{}, f.neqc[a]...), b)
		if b.isNil() && a.Op == OpLookup {
			return f.assume(mkT(OpLookupOk, "", 0, types.Typ[types.Bool], false, nil, nil, a.Args...), true)
		}
		return true
	}
	f.bools[c] = v
	if v && b.Op == OpIface {
		f.dyn[a] = b.Typ
		return f.assume(mkEq(a, mkNil()), false)
	}
	return true
}

// resolve replaces a term by the constant it is known to equal.
// hasMembers reports that some number of members of the map m is known to be positive.
func (f *Facts) hasMembers(m *Term) bool {
	is := func(t *Term) bool {
		return t != nil && t.Op == OpMapLen && t.Args[0] == m && f.eval(mkEq(t, mkInt(0))) == no
	}
	for t := range f.neqc {
		if is(t) {
			return true
		}
	}
	for k := range f.zone {
		if is(k[0]) || is(k[1]) {
			return true
		}
	}
	return false
}

func (f *Facts) resolve(t *Term) *Term {
	if t.isConst() {
		return t
	}
	if v, ok := f.eqc[t]; ok {
		return v
	}
	if t.Typ != nil {
		if b, ok := t.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			switch f.eval(t) {
			case yes:
				return mkBool(true)
			case no:
				return mkBool(false)
			}
			return t
		}
	}
	switch t.Op {
	case OpEq, OpLt, OpNot, OpAssertOk, OpLookupOk, OpNextOk:
		switch f.eval(t) {
		case yes:
			return mkBool(true)
		case no:
			return mkBool(false)
		}
		return t
	}
	if t.Op == OpLookup && f.evalEq(t, mkNil()) == yes && nilable(t.Typ) {
		return mkNil()
	}
	if isIntTerm(t) {
		if lo, okl, hi, okh := f.bounds(t); okl && okh && lo == hi {
			return mkInt(lo)
		}
	}
	return t
}

func nilable(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return true
	}
	return false
}

func mapTypeOf(t types.Type) *types.Map {
	if t == nil {
		return nil
	}
	m, _ := t.Underlying().(*types.Map)
	return m
}

// describe lists the facts for reports.
func (f *Facts) describe() []string {
	var s []string
	for k, v := range f.bools {
		if v {
			s = append(s, k.String())
		} else {
			s = append(s, mkNot(k).String())
		}
	}
	for k, v := range f.eqc {
		s = append(s, k.String()+" == "+v.String())
	}
	for k, v := range f.neqc {
		for _, x := range v {
			s = append(s, k.String()+" != "+x.String())
		}
	}
	for k, c := range f.zone {
		switch {
		case k[1] == nil:
			s = append(s, fmt.Sprintf("%v <= %d", k[0], c))
		case k[0] == nil:
			s = append(s, fmt.Sprintf("%v >= %d", k[1], -c))
		default:
			s = append(s, fmt.Sprintf("%v - %v <= %d", k[0], k[1], c))
		}
	}
	sort.Strings(s)
	return s
}
