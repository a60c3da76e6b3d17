package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// varintLoop is a loop that reads a base 128 number from buf at idx: seven bits
// of each byte, the lowest first, up to a byte below 0x80; it gives up at the
// end of the input and after ten bytes.
type varintLoop struct {
	buf     ssa.Value
	idx     *ssa.Phi
	acc     *ssa.Phi // nil: the number is skipped
	shift   *ssa.Phi
	accNext ssa.Value
	idxNext ssa.Value
	out     [2]*ssa.BasicBlock // the edge that leaves with the number
	errs    [][2]*ssa.BasicBlock
}

// lin: v = base + k
func linVal(v ssa.Value) (ssa.Value, int64) {
	var k int64
	for {
		bo, ok := v.(*ssa.BinOp)
		if !ok {
			return v, k
		}
		p, n, ok := addConst(bo)
		if !ok {
			return v, k
		}
		v, k = p, k+n
	}
}

func constVal(v ssa.Value) (int64, bool) {
	for {
		c, ok := v.(*ssa.Convert)
		if !ok {
			break
		}
		v = c.X
	}
	if c, ok := v.(*ssa.Const); !ok || c.Value == nil {
		return 0, false
	}
	o, k := operand(v)
	return k, o.v == nil
}

func stripConv(v ssa.Value) ssa.Value {
	for {
		switch t := v.(type) {
		case *ssa.Convert:
			if !isInt(t.X.Type()) || !isInt(t.Type()) {
				return v
			}
			v = t.X
		case *ssa.ChangeType:
			v = t.X
		default:
			return v
		}
	}
}

// findVarint recognises the loop with header h, or says what is missing.
func findVarint(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) (*varintLoop, string) {
	w := &varintLoop{}
	latches := 0
	var latch int
	for i, p := range h.Preds {
		if body[p] {
			latches++
			latch = i
		}
	}
	// the byte: buf[idx], where idx advances by one
	type read struct {
		buf, idx ssa.Value
		k        int64
		load     ssa.Value
	}
	var reads []read
	for b := range body {
		for _, ins := range b.Instrs {
			switch t := ins.(type) {
			case *ssa.Phi, *ssa.BinOp, *ssa.IndexAddr, *ssa.Convert, *ssa.ChangeType, *ssa.If, *ssa.Jump, *ssa.DebugRef:
			case *ssa.UnOp:
				if t.Op == token.MUL {
					if a, ok := t.X.(*ssa.IndexAddr); ok && isBytes(a.X.Type()) {
						v, k := linVal(a.Index)
						reads = append(reads, read{a.X, v, k, t})
						continue
					}
					return nil, "other memory is read"
				}
			case *ssa.Call:
				if bi, ok := t.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					continue
				}
				return nil, "a call"
			default:
				return nil, "other operations"
			}
		}
	}
	if latches != 1 || len(reads) == 0 {
		return nil, "no single path back"
	}
	var load []ssa.Value
	for _, r := range reads {
		phi, ok := r.idx.(*ssa.Phi)
		if !ok || phi.Block() != h || r.k != 0 || w.idx != nil && (w.idx != phi || w.buf != r.buf) {
			return nil, "the byte is not the one at the position"
		}
		w.idx, w.buf = phi, r.buf
		load = append(load, r.load)
	}
	if v, k := linVal(w.idx.Edges[latch]); v != ssa.Value(w.idx) || k != 1 {
		return nil, "the position does not advance by one"
	}
	w.idxNext = w.idx.Edges[latch]
	isByte := func(v ssa.Value) bool {
		v = stripConv(v)
		for _, l := range load {
			if v == l {
				return true
			}
		}
		return false
	}
	masked := func(v ssa.Value, mask int64) bool {
		bo, ok := stripConv(v).(*ssa.BinOp)
		if !ok || bo.Op != token.AND {
			return false
		}
		if k, ok := constVal(bo.Y); ok && k == mask {
			return isByte(bo.X)
		}
		if k, ok := constVal(bo.X); ok && k == mask {
			return isByte(bo.Y)
		}
		return false
	}
	for _, ins := range h.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if phi == w.idx {
			continue
		}
		init := int64(-1)
		for i, e := range phi.Edges {
			if i == latch {
				continue
			}
			k, ok := constVal(e)
			if !ok || init >= 0 && init != k {
				k = -2
			}
			init = k
		}
		if v, k := linVal(phi.Edges[latch]); v == ssa.Value(phi) && k == 7 {
			if init != 0 || w.shift != nil {
				return nil, "the shift does not start at zero"
			}
			w.shift = phi
			continue
		}
		bo, ok := phi.Edges[latch].(*ssa.BinOp)
		if !ok || bo.Op != token.OR && bo.Op != token.ADD && bo.Op != token.XOR || init != 0 || w.acc != nil {
			return nil, "another variable changes"
		}
		add := bo.Y
		if bo.X != ssa.Value(phi) {
			add = bo.X
			if bo.Y != ssa.Value(phi) {
				return nil, "the number is not collected"
			}
		}
		sh, ok := add.(*ssa.BinOp)
		if !ok || sh.Op != token.SHL || !masked(sh.X, 0x7f) || !types.Identical(sh.Type(), phi.Type()) {
			return nil, "not the low seven bits of each byte are collected"
		}
		w.acc, w.accNext = phi, bo
		// shifted by the shift
		if s := stripConv(sh.Y); !isPhiOf(s, h) {
			return nil, "the bits are not shifted by the shift"
		} else if w.shift != nil && s != ssa.Value(w.shift) {
			return nil, "the bits are not shifted by the shift"
		}
	}
	if w.shift == nil {
		return nil, "the shift does not grow by seven"
	}
	if w.acc != nil {
		bo := w.accNext.(*ssa.BinOp)
		sh, ok := bo.Y.(*ssa.BinOp)
		if !ok || sh.Op != token.SHL {
			sh = bo.X.(*ssa.BinOp)
		}
		if stripConv(sh.Y) != ssa.Value(w.shift) {
			return nil, "the bits are not shifted by the shift"
		}
	}
	// ways out
	limit, eof := false, false
	for b := range body {
		for _, s := range b.Succs {
			if body[s] {
				continue
			}
			c, want, ok := edgeCond(b, s)
			if !ok {
				return nil, "a way out without a condition"
			}
			bo, ok := c.(*ssa.BinOp)
			if !ok {
				return nil, "a way out"
			}
			switch {
			case lastByte(bo, want, isByte, masked):
				if w.out[0] != nil {
					return nil, "two ways out"
				}
				w.out = [2]*ssa.BasicBlock{b, s}
			default:
				w.errs = append(w.errs, [2]*ssa.BasicBlock{b, s})
				for _, d := range condFacts(bo, want) {
					// 0 - shift <= -limit
					if d.x.v == nil && d.y.v == ssa.Value(w.shift) && d.c < -63 && d.c >= -70 {
						limit = true
						if w.out[0] != nil && !b.Dominates(w.out[0]) {
							return nil, "the length is checked too late"
						}
					} else if d.x == (opnd{v: w.buf, lenOf: true}) {
						if v, k := linVal(d.y.v); d.y.v != nil && v == ssa.Value(w.idx) && d.c-k == 0 {
							eof = true
						}
					}
				}
			}
		}
	}
	switch {
	case w.out[0] == nil:
		return nil, "a byte below 0x80 does not end it"
	case !limit:
		return nil, "it is not limited to ten bytes"
	case !eof:
		return nil, "it does not fail at exactly the end of the input"
	case len(w.errs) != 2:
		return nil, "other ways out"
	}
	for _, e := range w.errs {
		if body[e[1]] {
			return nil, "a way out"
		}
	}
	return w, ""
}

func isPhiOf(v ssa.Value, h *ssa.BasicBlock) bool {
	p, ok := v.(*ssa.Phi)
	return ok && p.Block() == h
}

// lastByte: the condition says that the byte is below 0x80.
func lastByte(bo *ssa.BinOp, want bool, isByte func(ssa.Value) bool, masked func(ssa.Value, int64) bool) bool {
	k, ok := constVal(bo.Y)
	if !ok {
		return false
	}
	op := bo.Op
	if isByte(bo.X) {
		switch {
		case op == token.LSS && k == 0x80, op == token.LEQ && k == 0x7f:
			return want
		case op == token.GEQ && k == 0x80, op == token.GTR && k == 0x7f:
			return !want
		}
	}
	if masked(bo.X, 0x80) {
		switch {
		case op == token.EQL && k == 0, op == token.NEQ && k == 0x80:
			return want
		case op == token.NEQ && k == 0, op == token.EQL && k == 0x80, op == token.GTR && k == 0:
			return !want
		}
	}
	return false
}
