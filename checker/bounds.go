package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A demand-driven prover of differences between the integers of a program
// (x - y <= c), with the wrap-around of machine arithmetic taken into account.
// It looks at definitions, at the conditions that hold where the question is
// asked, and at all arrivals of a loop variable (by induction).

// opnd is an operand of a difference: a value, the length of a slice or string,
// or zero.
type opnd struct {
	v     ssa.Value
	lenOf bool
}

type failKey struct {
	x, y opnd
	c    int64
	at   *ssa.BasicBlock
	call *bframe
}

// bframe is a call whose result is being looked into.
type bframe struct {
	call *ssa.Call
	fn   *ssa.Function
	open map[bgoal]int64
	up   *bframe
}

type bgoal struct{ x, y opnd }

type bprover struct {
	p      *Prog
	funcs  []*ssa.Function // where the callers of unexported functions are
	open   map[bgoal]int64
	steps  int
	failed map[failKey]bool
	gets   map[*ssa.Function][]ssa.CallInstruction
	fact   map[*ssa.BasicBlock][]diff
	frame  *bframe
}

// diff: x - y <= c
type diff struct {
	x, y opnd
	c    int64
}

func newBounds(p *Prog, funcs []*ssa.Function) *bprover {
	b := &bprover{p: p, funcs: funcs, open: map[bgoal]int64{}, gets: map[*ssa.Function][]ssa.CallInstruction{}, fact: map[*ssa.BasicBlock][]diff{}}
	for _, f := range funcs {
		for _, blk := range f.Blocks {
			for _, ins := range blk.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						b.gets[g] = append(b.gets[g], ci)
					}
				}
			}
		}
	}
	return b
}

// operand normalises a value: x = o + c.
func operand(v ssa.Value) (opnd, int64) {
	switch t := v.(type) {
	case *ssa.Const:
		if t.Value == nil {
			return opnd{}, 0
		}
		if n, ok := constant.Int64Val(constant.ToInt(t.Value)); ok {
			return opnd{}, n
		}
	case *ssa.Call:
		if bi, ok := t.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			return opnd{v: t.Call.Args[0], lenOf: true}, 0
		}
	case *ssa.ChangeType:
		return operand(t.X)
	case *ssa.BinOp:
		return opnd{v: sameExpr(t)}, 0
	}
	return opnd{v: v}, 0
}

type exprKey struct {
	op   token.Token
	x, y opnd
	cx   int64
	cy   int64
}

var exprs = map[*ssa.Function]map[exprKey]ssa.Value{}

// sameExpr is the first operation of the function on the same operands.
func sameExpr(t *ssa.BinOp) ssa.Value {
	fn := t.Parent()
	m := exprs[fn]
	if m == nil {
		m = map[exprKey]ssa.Value{}
		exprs[fn] = m
		for _, b := range fn.DomPreorder() {
			for _, ins := range b.Instrs {
				if bo, ok := ins.(*ssa.BinOp); ok && isInt(bo.Type()) {
					if k := keyOf(bo); m[k] == nil {
						m[k] = bo
					}
				}
			}
		}
	}
	if !isInt(t.Type()) {
		return t
	}
	if v := m[keyOf(t)]; v != nil && types.Identical(v.Type(), t.Type()) {
		return v
	}
	return t
}

func keyOf(t *ssa.BinOp) exprKey {
	raw := func(v ssa.Value) (opnd, int64) {
		if _, ok := v.(*ssa.BinOp); ok {
			return opnd{v: v}, 0
		}
		return operand(v)
	}
	x, cx := raw(t.X)
	y, cy := raw(t.Y)
	return exprKey{t.Op, x, y, cx, cy}
}

func (o opnd) block() *ssa.BasicBlock {
	if ins, ok := o.v.(ssa.Instruction); ok {
		return ins.Block()
	}
	return nil
}

func (o opnd) str() string {
	if o.v == nil {
		return "0"
	}
	if o.lenOf {
		return "len(" + o.v.Name() + ")"
	}
	return o.v.Name()
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isInt64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int || b.Kind() == types.Int64)
}

// condFacts: the differences that hold when v has the value want.
func condFacts(v ssa.Value, want bool) []diff {
	switch t := v.(type) {
	case *ssa.UnOp:
		if t.Op == token.NOT {
			return condFacts(t.X, !want)
		}
	case *ssa.BinOp:
		if !isInt(t.X.Type()) {
			return nil
		}
		x, cx := operand(t.X)
		y, cy := operand(t.Y)
		le := func(a opnd, ca int64, b opnd, cb int64, k int64) diff { // a+ca <= b+cb+k
			return diff{a, b, cb - ca + k}
		}
		op := t.Op
		if !want {
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.LEQ:
				op = token.GTR
			case token.GTR:
				op = token.LEQ
			case token.GEQ:
				op = token.LSS
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			default:
				return nil
			}
		}
		switch op {
		case token.LSS:
			return derived(le(x, cx, y, cy, -1))
		case token.LEQ:
			return derived(le(x, cx, y, cy, 0))
		case token.GTR:
			return derived(le(y, cy, x, cx, -1))
		case token.GEQ:
			return derived(le(y, cy, x, cx, 0))
		case token.EQL:
			return []diff{le(x, cx, y, cy, 0), le(y, cy, x, cx, 0)}
		}
	}
	return nil
}

// derived adds what is known of q if p - q is not negative, where p is a
// length: a difference that had wrapped around would be.
func derived(d diff) []diff {
	out := []diff{d}
	if p, q, ok := rest(d.y); ok && d.x.v == nil && d.c <= 0 {
		out = append(out, diff{q, p, d.c})
	}
	return out
}

// rest: o is p - q, where p is a length.
func rest(o opnd) (p, q opnd, ok bool) {
	if o.v == nil || o.lenOf {
		return
	}
	s, isOp := o.v.(*ssa.BinOp)
	if !isOp || s.Op != token.SUB || !isInt64(s.Type()) {
		return
	}
	p, kp := operand(s.X)
	q, kq := operand(s.Y)
	return p, q, p.lenOf && kp == 0 && q.v != nil && kq == 0
}

// edgeConds lists the conditions with their values that hold at the end of the
// edge from p to s.
func edgeCond(p, s *ssa.BasicBlock) (ssa.Value, bool, bool) {
	if len(p.Instrs) == 0 {
		return nil, false, false
	}
	i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok || p.Succs[0] == p.Succs[1] {
		return nil, false, false
	}
	return i.Cond, p.Succs[0] == s, true
}

// conds visits the conditions that hold at the start of b.
func conds(b *ssa.BasicBlock, f func(c ssa.Value, want bool)) {
	for s := b; s != nil; s = s.Idom() {
		if len(s.Preds) != 1 {
			continue
		}
		if c, want, ok := edgeCond(s.Preds[0], s); ok {
			f(c, want)
		}
	}
}

func (b *bprover) facts(at *ssa.BasicBlock) []diff {
	if d, ok := b.fact[at]; ok {
		return d
	}
	var out []diff
	conds(at, func(c ssa.Value, want bool) { out = append(out, condFacts(c, want)...) })
	b.fact[at] = out
	return out
}

const wide = int64(1) << 40 // no length comes near to overflow

// Le proves vx - vy <= c at the end of block at.
func (b *bprover) Le(vx, vy ssa.Value, c int64, at *ssa.BasicBlock) bool {
	var x, y opnd
	var cx, cy int64
	if vx != nil {
		x, cx = operand(vx)
	}
	if vy != nil {
		y, cy = operand(vy)
	}
	b.fresh()
	r := b.le(x, y, c-cx+cy, at, nil, 0)
	return r
}

func (b *bprover) fresh() {
	b.steps = 0
	b.open = map[bgoal]int64{}
	b.failed = map[failKey]bool{}
}

func (b *bprover) nonNeg(o opnd, at *ssa.BasicBlock, extra []diff, d int) bool {
	return b.le(opnd{}, o, 0, at, extra, d+1)
}

// small: o does not come near to overflow
func (b *bprover) small(o opnd, at *ssa.BasicBlock, extra []diff, d int) bool {
	if o.lenOf || o.v == nil {
		return true
	}
	ls := lens(o)
	for _, s := range ls {
		if b.le(o, s, wide, at, extra, d+1) {
			return true
		}
	}
	return len(ls) == 0 && b.le(o, opnd{}, wide, at, extra, d+1)
}

// lens lists the lengths of the parameters of the function of o.
func lens(o opnd) []opnd {
	var fn *ssa.Function
	switch t := o.v.(type) {
	case *ssa.Parameter:
		fn = t.Parent()
	case ssa.Instruction:
		fn = t.Parent()
	}
	if fn == nil {
		return nil
	}
	var out []opnd
	for _, p := range fn.Params {
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			out = append(out, opnd{v: p, lenOf: true})
		}
	}
	return out
}

func (b *bprover) le(x, y opnd, c int64, at *ssa.BasicBlock, extra []diff, depth int) (res bool) {
	if x == y {
		return c >= 0
	}
	if x.v == nil && y.lenOf && c >= 0 {
		return true // a length is not negative
	}
	if x.lenOf && y.v == nil {
		for _, d := range append(append([]diff(nil), extra...), b.facts(at)...) {
			if d.x == x && d.y == y && d.c <= c {
				return true
			}
		}
		return false
	}
	fk := failKey{x, y, c, at, b.frame}
	if b.failed[fk] {
		return false
	}
	defer func() {
		if !res {
			b.failed[fk] = true
		}
	}()
	if b.steps++; b.steps > 20000 || depth > 300 {
		return false
	}
	g := bgoal{x, y}
	if c0, ok := b.open[g]; ok {
		// being shown for c0 at the loop header: holds here for at least that
		return c >= c0
	}
	// what conditions say
	try := func(ds []diff) bool {
		for _, d := range ds {
			if d.x == x && d.y == y && d.c <= c {
				return true
			}
		}
		for _, d := range ds {
			if d.x == x && d.y != x && b.once(d, func() bool { return b.le(d.y, y, c-d.c, at, extra, depth+1) }) {
				return true
			}
			if d.y == y && d.x != y && b.once(d, func() bool { return b.le(x, d.x, c-d.c, at, extra, depth+1) }) {
				return true
			}
		}
		return false
	}
	if len(extra) > 0 && try(extra) {
		return true
	}
	if try(b.facts(at)) {
		return true
	}
	// the definition of x
	if x.v != nil && !x.lenOf {
		switch t := x.v.(type) {
		case *ssa.BinOp:
			if !isInt64(t.Type()) {
				break
			}
			if t.Op == token.ADD {
				// q + n <= p + k if n <= p - q + k
				m, km := operand(t.X)
				n, kn := operand(t.Y)
				for _, d := range append(append([]diff(nil), extra...), b.facts(at)...) {
					p, q, ok := rest(d.y)
					if !ok || km != 0 || kn != 0 || !(d.x == n && q == m || d.x == m && q == n) {
						continue
					}
					if b.nonNeg(q, at, extra, depth) && b.le(p, y, c-d.c, at, extra, depth+1) {
						return true
					}
				}
			}
			p, k, ok := addConst(t)
			if ok {
				q, kq := operand(p)
				if k >= 0 || b.le(opnd{}, q, wide, at, extra, depth+1) {
					if b.le(q, y, c-k-kq, at, extra, depth+1) {
						return true
					}
				}
			}
			if t.Op == token.SUB {
				// m - n <= m if n is not negative and m is not
				m, km := operand(t.X)
				n, kn := operand(t.Y)
				if kn == 0 && b.nonNeg(n, at, extra, depth) && b.nonNeg(m, at, extra, depth) && b.le(m, y, c-km, at, extra, depth+1) {
					return true
				}
			}
			if t.Op == token.AND {
				for _, m := range []ssa.Value{t.X, t.Y} {
					if o, k := operand(m); o.v == nil && k >= 0 && b.le(opnd{}, y, c-k, at, extra, depth+1) {
						return true
					}
				}
			}
		case *ssa.Phi:
			if b.phi(t, x, y, c, at, extra, depth, true) {
				return true
			}
		case *ssa.Extract:
			if b.result(t, y, c, at, depth, true) {
				return true
			}
		case *ssa.Convert:
			if n := unsignedBits(t.X.Type()); n > 0 && n < 32 && isInt(t.Type()) && b.le(opnd{}, y, c-(1<<n-1), at, extra, depth+1) {
				return true
			}
		case *ssa.Parameter:
			if b.param(t, c, y, depth, true) {
				return true
			}
		}
	}
	if y.v != nil && !y.lenOf {
		switch t := y.v.(type) {
		case *ssa.BinOp:
			if !isInt64(t.Type()) {
				break
			}
			if p, k, ok := addConst(t); ok {
				q, kq := operand(p)
				if k <= 0 && b.le(opnd{}, q, wide, at, extra, depth+1) || k > 0 && b.small(q, at, extra, depth) {
					if b.le(x, q, c+k+kq, at, extra, depth+1) {
						return true
					}
				}
			}
			if t.Op == token.ADD {
				// a sum that is not negative, of numbers that are not, did not wrap
				m, km := operand(t.X)
				n, kn := operand(t.Y)
				if m.v != nil && n.v != nil && km == 0 && kn == 0 && b.nonNeg(m, at, extra, depth) && b.nonNeg(n, at, extra, depth) && b.sumOK(t, at, extra, depth) {
					if b.le(x, m, c, at, extra, depth+1) || b.le(x, n, c, at, extra, depth+1) {
						return true
					}
					if c < 0 {
						// by how much the other number makes it larger
						if b.le(opnd{}, n, c, at, extra, depth+1) && b.le(x, m, 0, at, extra, depth+1) ||
							b.le(opnd{}, m, c, at, extra, depth+1) && b.le(x, n, 0, at, extra, depth+1) {
							return true
						}
					}
				}
			}
		case *ssa.Phi:
			if b.phi(t, x, y, c, at, extra, depth, false) {
				return true
			}
		case *ssa.Extract:
			if b.result(t, x, c, at, depth, false) {
				return true
			}
		case *ssa.Convert:
			if n := unsignedBits(t.X.Type()); n > 0 && n < 64 && isInt64(t.Type()) && x.v == nil && c >= 0 {
				return true
			}
		case *ssa.Parameter:
			if b.param(t, c, x, depth, false) {
				return true
			}
		}
	}
	return false
}

// sumOK: a sum of numbers that are not negative did not wrap, because the
// program knows that it (or the same sum) is not negative.
func (b *bprover) sumOK(t *ssa.BinOp, at *ssa.BasicBlock, extra []diff, depth int) bool {
	ds := append(append([]diff(nil), extra...), b.facts(at)...)
	for _, d := range ds {
		if d.y.v == nil || d.y.lenOf {
			continue
		}
		s, ok := d.y.v.(*ssa.BinOp)
		if !ok || s != t && !sameSum(s, t) {
			continue
		}
		if d.x.v == nil && d.c <= 0 {
			return true
		}
		if d.x.v != nil && d.x != d.y && d.c <= 0 && b.nonNeg(d.x, at, extra, depth) {
			return true
		}
	}
	return false
}

func sameSum(s, t *ssa.BinOp) bool {
	return s.Op == token.ADD && t.Op == token.ADD && (sameOperand(s.X, t.X) && sameOperand(s.Y, t.Y) || sameOperand(s.X, t.Y) && sameOperand(s.Y, t.X))
}

func sameOperand(a, b ssa.Value) bool {
	x, cx := operand(a)
	y, cy := operand(b)
	return x == y && cx == cy
}

// once keeps a condition from being used twice in a chain of conditions.
func (b *bprover) once(d diff, f func() bool) bool {
	k := bgoal{opnd{v: d.x.v, lenOf: d.x.lenOf}, opnd{v: d.y.v, lenOf: d.y.lenOf}}
	if _, ok := b.busy()[k]; ok {
		return false
	}
	b.busy()[k] = true
	defer delete(b.busy(), k)
	return f()
}

var busyFacts = map[*bprover]map[bgoal]bool{}

func (b *bprover) busy() map[bgoal]bool {
	m := busyFacts[b]
	if m == nil {
		m = map[bgoal]bool{}
		busyFacts[b] = m
	}
	return m
}

func unsignedBits(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Uint8:
		return 8
	case types.Uint16:
		return 16
	case types.Uint32:
		return 32
	}
	return 0
}

// addConst: t = p + k
func addConst(t *ssa.BinOp) (ssa.Value, int64, bool) {
	switch t.Op {
	case token.ADD:
		if o, k := operand(t.Y); o.v == nil {
			return t.X, k, true
		}
		if o, k := operand(t.X); o.v == nil {
			return t.Y, k, true
		}
	case token.SUB:
		if o, k := operand(t.Y); o.v == nil {
			return t.X, -k, true
		}
	}
	return nil, 0, false
}

// phi shows the difference for each value that arrives, assuming it for the
// arrivals before (the other side does not change in the loop).
func (b *bprover) phi(t *ssa.Phi, x, y opnd, c int64, at *ssa.BasicBlock, extra []diff, depth int, left bool) bool {
	other := y
	if !left {
		other = x
	}
	if ob := other.block(); ob != nil && (ob.Parent() != t.Parent() || !ob.Dominates(t.Block()) || ob == t.Block()) {
		return false
	}
	g := bgoal{x, y}
	b.open[g] = c
	saved := busyFacts[b]
	busyFacts[b] = nil
	defer func() { delete(b.open, g); busyFacts[b] = saved }()
	for i, p := range t.Block().Preds {
		o, k := operand(t.Edges[i])
		var ex []diff
		if cv, want, ok := edgeCond(p, t.Block()); ok {
			ex = condFacts(cv, want)
		}
		ex = append(ex, about(t, append(append([]diff(nil), extra...), b.facts(at)...), o, k)...)
		ok := false
		if left {
			ok = b.le(o, y, c-k, p, ex, depth+1)
		} else {
			ok = b.le(x, o, c+k, p, ex, depth+1)
		}
		if !ok {
			return false
		}
	}
	return true
}

// about: what is known of the merged value t, said of the value o + k that
// arrives.
func about(t *ssa.Phi, ds []diff, o opnd, k int64) []diff {
	self := opnd{v: t}
	fixed := func(z opnd) bool {
		zb := z.block()
		return z != self && (zb == nil || zb != t.Block() && zb.Dominates(t.Block()))
	}
	var out []diff
	for _, d := range ds {
		if d.x == self && fixed(d.y) {
			out = append(out, diff{o, d.y, d.c - k})
		}
		if d.y == self && fixed(d.x) {
			out = append(out, diff{d.x, o, d.c + k})
		}
	}
	return out
}

// param shows the difference between a parameter and another one, its length or
// zero at each call.
func (b *bprover) param(t *ssa.Parameter, c int64, other opnd, depth int, left bool) bool {
	fn := t.Parent()
	inside := b.frame != nil && b.frame.fn == fn
	if !inside && (fn.Object() == nil || fn.Object().Exported() || len(b.gets[fn]) == 0) {
		return false
	}
	idx := func(p ssa.Value) int {
		for i, q := range fn.Params {
			if ssa.Value(q) == p {
				return i
			}
		}
		return -1
	}
	if other.v != nil && idx(other.v) < 0 {
		return false
	}
	saved, open, frame := busyFacts[b], b.open, b.frame
	busyFacts[b], b.open = nil, map[bgoal]int64{}
	defer func() { busyFacts[b], b.open, b.frame = saved, open, frame }()
	calls := b.gets[fn]
	if inside {
		// the call that is looked into
		calls = []ssa.CallInstruction{frame.call}
		busyFacts[b], b.open, b.frame = nil, frame.open, frame.up
	}
	for _, ci := range calls {
		args := ci.Common().Args
		a, k := operand(args[idx(t)])
		var o opnd
		var ko int64
		if other.v != nil {
			if other.lenOf {
				o = opnd{v: args[idx(other.v)], lenOf: true}
			} else {
				o, ko = operand(args[idx(other.v)])
			}
		}
		if ci.Parent() == fn {
			return false
		}
		ok := false
		if left {
			ok = b.le(a, o, c-k+ko, ci.Block(), nil, depth+1)
		} else {
			ok = b.le(o, a, c+k-ko, ci.Block(), nil, depth+1)
		}
		if !ok {
			return false
		}
	}
	return true
}

// result shows the difference between a number that a function of the package
// returns and zero, another result or an argument, in the returns that the
// conditions leave: t - other <= c (left), or other - t <= c.
func (b *bprover) result(t *ssa.Extract, other opnd, c int64, at *ssa.BasicBlock, depth int, left bool) bool {
	call, ok := t.Tuple.(*ssa.Call)
	if !ok {
		return false
	}
	fn := call.Call.StaticCallee()
	if fn == nil || len(fn.Blocks) == 0 || !b.p.inModule(fn) || fn == at.Parent() {
		return false
	}
	type side struct {
		o   opnd
		k   int64
		res int // of a result
	}
	var sides []side
	switch {
	case other.v == nil:
		sides = append(sides, side{res: -1})
	default:
		if ex, ok := other.v.(*ssa.Extract); ok && !other.lenOf && ex.Tuple == t.Tuple {
			sides = append(sides, side{res: ex.Index})
		}
		for j, a := range call.Call.Args {
			if j >= len(fn.Params) {
				break
			}
			if other.lenOf {
				if a == other.v {
					sides = append(sides, side{o: opnd{v: fn.Params[j], lenOf: true}, res: -1})
				}
				continue
			}
			if o, k := operand(a); o == other && isInt64(a.Type()) {
				sides = append(sides, side{o: opnd{v: fn.Params[j]}, k: -k, res: -1})
			}
		}
	}
	noErr := false
	res := fn.Signature.Results()
	conds(at, func(cv ssa.Value, want bool) {
		if x, ok := nilTest(cv, want); ok && !saysNotNil(cv, want) {
			if ex, ok := x.(*ssa.Extract); ok && ex.Tuple == t.Tuple && ex.Index == res.Len()-1 {
				noErr = true
			}
		}
	})
	for f := b.frame; f != nil; f = f.up {
		if f.fn == fn {
			return false
		}
	}
	saved, open, frame := busyFacts[b], b.open, b.frame
	b.frame = &bframe{call: call, fn: fn, open: open, up: frame}
	defer func() { busyFacts[b], b.open, b.frame = saved, open, frame }()
	inner := b.frame
	show := func(sd side, c int64) bool {
		defer func() { b.frame = inner }()
		for _, blk := range fn.Blocks {
			r, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			if noErr && failsAt(r.Results[len(r.Results)-1], blk) {
				continue
			}
			busyFacts[b], b.open, b.frame = nil, map[bgoal]int64{}, inner
			o, k := operand(r.Results[t.Index])
			z, kz := sd.o, sd.k
			if sd.res >= 0 {
				z, kz = operand(r.Results[sd.res])
			}
			if left && !b.le(o, z, c-k+kz, blk, nil, depth+1) || !left && !b.le(z, o, c+k-kz, blk, nil, depth+1) {
				return false
			}
		}
		return true
	}
	for _, sd := range sides {
		if show(sd, c) {
			return true
		}
	}
	if left || other.v == nil {
		return false
	}
	// by way of an argument that the result is not less than
	for j, a := range call.Call.Args {
		if j >= len(fn.Params) || !isInt64(a.Type()) {
			continue
		}
		for _, e := range []int64{-1, 0} {
			if !show(side{o: opnd{v: fn.Params[j]}, res: -1}, e) {
				continue
			}
			busyFacts[b], b.open, b.frame = saved, open, frame
			o, k := operand(a)
			if o != other && b.le(other, o, c-e+k, at, nil, depth+1) {
				return true
			}
			break
		}
	}
	return false
}

// nilTest: the condition compares x with nil.
func nilTest(cv ssa.Value, want bool) (ssa.Value, bool) {
	bo, ok := cv.(*ssa.BinOp)
	if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
		return nil, false
	}
	for _, pr := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
		if k, ok := pr[1].(*ssa.Const); ok && k.IsNil() {
			return pr[0], true
		}
	}
	return nil, false
}

// saysNotNil: a test for nil says that the value is not nil.
func saysNotNil(cv ssa.Value, want bool) bool {
	bo, ok := cv.(*ssa.BinOp)
	return ok && (bo.Op == token.NEQ) == want
}

// failsAt: an error that is certainly one where it is returned.
func failsAt(v ssa.Value, blk *ssa.BasicBlock) bool {
	if notNilErr(v) {
		return true
	}
	fails := false
	conds(blk, func(cv ssa.Value, want bool) {
		if x, ok := nilTest(cv, want); ok && x == v && saysNotNil(cv, want) {
			fails = true
		}
	})
	return fails
}

// notNilErr: an error that is certainly one: a package variable that holds a
// constant error, or a new error.
func notNilErr(v ssa.Value) bool {
	switch t := v.(type) {
	case *ssa.UnOp:
		g, ok := t.X.(*ssa.Global)
		return ok && t.Op == token.MUL && (g.Pkg.Pkg.Path() == "io" || globalNotNil(g))
	case *ssa.Call:
		f := t.Call.StaticCallee()
		return f != nil && (f.String() == "fmt.Errorf" || f.String() == "errors.New")
	case *ssa.MakeInterface:
		return true
	}
	return false
}

// globalNotNil: all that the package stores in g are new errors.
func globalNotNil(g *ssa.Global) bool {
	n := 0
	for _, mem := range g.Pkg.Members {
		fn, ok := mem.(*ssa.Function)
		if !ok {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok && st.Addr == g {
					n++
					if !notNilErr(st.Val) {
						return false
					}
				}
			}
		}
	}
	return n > 0
}
