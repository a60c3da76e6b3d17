package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// C34: the protobuf wire codec.

const relWire = "pkg/serialization/protobuf"

// wireMethods finds the methods called name of the message types.
func wireMethods(p *Prog, name string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range pkgFuncs(p, relWire) {
		if f.Name() == name && f.Signature.Recv() != nil {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func recvName(f *ssa.Function) string {
	if n := namedOf(deref(f.Signature.Recv().Type())); n != nil {
		return n.Obj().Name()
	}
	return ""
}

// decoderOf: the functions of the package that the decoders reach.
func decoderFuncs(p *Prog, roots []*ssa.Function) []*ssa.Function {
	seen := reach(p, roots...)
	var out []*ssa.Function
	for _, f := range pkgFuncs(p, relWire) {
		if seen[f] {
			out = append(out, f)
		}
	}
	return out
}

// wireBounds: no decoder indexes or slices outside its input, allocates more
// than its input is long, loops without progress or panics.
func wireBounds(c *Ctx, roots []*ssa.Function) {
	fns := decoderFuncs(c.P, roots)
	b := newBounds(c.P, fns)
	for _, f := range fns {
		c.touch(f)
		name := wireName(f)
		n := map[string]int{}
		report := func(ok bool, rule, kind string, pos token.Pos, msg string) {
			n[rule+kind]++
			cons := fmt.Sprintf("%s %s %d", name, kind, n[rule+kind])
			if ok {
				c.Ok(rule, cons)
				return
			}
			c.Bad(rule, name+" "+kind, posOf(c.P, pos), msg)
		}
		for _, blk := range f.Blocks {
			for _, ins := range blk.Instrs {
				switch t := ins.(type) {
				case *ssa.IndexAddr:
					if !isBytes(t.X.Type()) {
						continue
					}
					report(b.leLen(t.Index, t.X, -1, blk) && b.Le(nil, t.Index, 0, blk), "read", "index", t.Pos(), "the index is not shown to be within the input")
				case *ssa.Slice:
					if !isBytes(t.X.Type()) && !isStringType(t.X.Type()) {
						continue
					}
					report(b.slice(t), "read", "slice", t.Pos(), "the bounds of the slice are not shown to be ordered and within the input")
				case *ssa.MakeSlice:
					report(b.alloc(t.Len, blk) && b.alloc(t.Cap, blk), "alloc", "make", t.Pos(), "the size is not shown to be at most the length of the input")
				case *ssa.MakeMap:
					if t.Reserve != nil {
						report(b.alloc(t.Reserve, blk), "alloc", "make map", t.Pos(), "the size is not shown to be at most the length of the input")
					}
				case *ssa.TypeAssert:
					if !t.CommaOk {
						report(false, "read", "assertion", t.Pos(), "a type assertion can panic")
					}
				case *ssa.Panic:
					report(false, "read", "panic", t.Pos(), "the decoder panics")
				case *ssa.BinOp:
					if (t.Op == token.QUO || t.Op == token.REM) && isInt(t.Type()) {
						if o, k := operand(t.Y); o.v != nil || k == 0 {
							report(false, "read", "division", t.Pos(), "a division by what may be zero")
						}
					}
				case *ssa.Call:
					g := t.Call.StaticCallee()
					if g == nil {
						continue
					}
					if want, ok := fixedReads[g.Name()]; ok && g.Signature.Recv() != nil && fnPkgPath(g) == "encoding/binary" {
						src := t.Call.Args[len(t.Call.Args)-1]
						report(b.longEnough(src, want, blk), "read", "fixed", t.Pos(), fmt.Sprintf("the %d bytes are not shown to be within the input", want))
					}
				}
			}
		}
		// progress
		li := naturalLoops(f)
		for i, h := range li.order {
			ok := b.progress(h, li.body[h])
			cons := fmt.Sprintf("%s loop %d", name, i+1)
			if ok {
				c.Ok("progress", cons)
			} else {
				pos := f.Pos()
				for _, ins := range h.Instrs {
					if ins.Pos().IsValid() {
						pos = ins.Pos()
						break
					}
				}
				c.Bad("progress", name+" loop", posOf(c.P, pos), "no position is shown to advance in each iteration and to be bounded by the length of the input")
			}
		}
	}
}

var fixedReads = map[string]int64{"Uint16": 2, "Uint32": 4, "Uint64": 8}

func wireName(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Signature.Recv() != nil {
		return recvName(f) + "." + f.Name()
	}
	return f.Name()
}

// leLen: v - len(x) <= c
func (b *bprover) leLen(v ssa.Value, x ssa.Value, c int64, at *ssa.BasicBlock) bool {
	var o opnd
	var k int64
	if v != nil {
		o, k = operand(v)
	}
	b.fresh()
	return b.leSlice(o, k, x, c, at)
}

// leSlice: o + k - len(x) <= c, where x may be a part of another slice
func (b *bprover) leSlice(o opnd, k int64, x ssa.Value, c int64, at *ssa.BasicBlock) bool {
	if b.le(o, opnd{v: x, lenOf: true}, c-k, at, nil, 0) {
		return true
	}
	if s, ok := x.(*ssa.Slice); ok && o.v == nil {
		// len(x) = high - low
		if s.High == nil {
			if lo, kl := low(s); lo.v != nil || kl != 0 {
				return b.leSlice(lo, kl+k, s.X, c, at)
			}
			return b.leSlice(o, k, s.X, c, at)
		}
		hi, kh := operand(s.High)
		lo, kl := low(s)
		return b.le(lo, hi, c-k-kl+kh, at, nil, 0)
	}
	return false
}

func low(s *ssa.Slice) (opnd, int64) {
	if s.Low == nil {
		return opnd{}, 0
	}
	return operand(s.Low)
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	e, ok := s.Elem().Underlying().(*types.Basic)
	return ok && e.Kind() == types.Uint8
}

func (b *bprover) slice(s *ssa.Slice) bool {
	at := s.Block()
	if s.Low == nil && s.High == nil && s.Max == nil {
		return true
	}
	if s.Max != nil {
		return false
	}
	if s.Low != nil && !b.Le(nil, s.Low, 0, at) {
		return false
	}
	if s.High == nil {
		return s.Low == nil || b.leLen(s.Low, s.X, 0, at)
	}
	if _, k := operand(s.High); isZeroVal(s.High) && k == 0 {
		return s.Low == nil || isZeroVal(s.Low)
	}
	return b.leLen(s.High, s.X, 0, at) && b.Le(s.Low, s.High, 0, at)
}

func isZeroVal(v ssa.Value) bool {
	o, k := operand(v)
	return o.v == nil && k == 0
}

// longEnough: len(x) >= n
func (b *bprover) longEnough(x ssa.Value, n int64, at *ssa.BasicBlock) bool {
	return b.leLen(nil, x, -n, at)
}

// alloc: 0 <= n <= the length of the input
func (b *bprover) alloc(n ssa.Value, at *ssa.BasicBlock) bool {
	o, k := operand(n)
	if o.v == nil {
		return k >= 0 && k <= 1<<16
	}
	// high - low of positions in the input
	if d, ok := n.(*ssa.BinOp); ok && d.Op == token.SUB {
		for _, l := range lens(o) {
			if b.leLen(d.X, l.v, 0, at) && b.Le(nil, d.Y, 0, at) && b.Le(d.Y, d.X, 0, at) {
				return true
			}
		}
	}
	for _, l := range lens(o) {
		if b.leLen(n, l.v, 0, at) && b.Le(nil, n, 0, at) {
			return true
		}
	}
	return false
}

type natLoops struct {
	order []*ssa.BasicBlock
	body  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

func naturalLoops(fn *ssa.Function) *natLoops {
	l := &natLoops{body: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			body := l.body[s]
			if body == nil {
				body = map[*ssa.BasicBlock]bool{s: true}
				l.body[s] = body
				l.order = append(l.order, s)
			}
			var add func(x *ssa.BasicBlock)
			add = func(x *ssa.BasicBlock) {
				if body[x] {
					return
				}
				body[x] = true
				for _, p := range x.Preds {
					add(p)
				}
			}
			add(b)
		}
	}
	return l
}

// progress: some variable of the loop grows by at least one in each iteration
// and is less than the length of the input (or a fixed number) whenever an
// iteration is completed; or the loop ranges over something.
func (b *bprover) progress(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	for blk := range body {
		for _, ins := range blk.Instrs {
			if _, ok := ins.(*ssa.Next); ok {
				return true
			}
		}
	}
	for _, ins := range h.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if !isInt(phi.Type()) {
			continue
		}
		good := true
		for i, p := range h.Preds {
			if !body[p] {
				continue
			}
			o, k := operand(phi.Edges[i])
			b.fresh()
			// next >= phi + 1
			grows := b.le(opnd{v: phi}, o, k-1, p, nil, 0)
			if !grows && !isInt64(phi.Type()) {
				if bo, ok := phi.Edges[i].(*ssa.BinOp); ok {
					if q, kk, ok := addConst(bo); ok && q == ssa.Value(phi) && kk >= 1 {
						grows = true
					}
				}
			}
			if !grows {
				good = false
				break
			}
			bounded := false
			for _, l := range append(lens(opnd{v: phi}), opnd{}) {
				b.fresh()
				if b.le(opnd{v: phi}, l, 1<<20, p, nil, 0) {
					bounded = true
					break
				}
			}
			if !bounded {
				good = false
				break
			}
		}
		if good {
			return true
		}
	}
	return false
}

func init() {
	register("C34", func(c *Ctx) {
		c.Rule("read", "every index and slice of the input is within it", 1)
		c.Rule("alloc", "no allocation is larger than the input", 0)
		c.Rule("progress", "every loop advances in the input", 1)
		roots := wireMethods(c.P, "Unmarshal")
		if len(roots) == 0 {
			c.Missing("Unmarshal of the messages")
			return
		}
		wireBounds(c, roots)
		c.Rule("varint", "every number is read as the wire format says: seven bits of each byte, at most ten bytes, within the input", 1)
		c.Rule("schema", "the messages have a known layout", 1)
		c.Rule("field", "a field with its declared tag is stored as it was sent, and decoding goes on after it", 1)
		c.Rule("unknown", "a field with another number is kept", 1)
		c.Rule("reject", "a tag with another type, the number zero or a group end is an error", 1)
		loops, ok := wireVarints(c, decoderFuncs(c.P, roots))
		if !ok {
			return
		}
		for _, f := range roots {
			wireDecode(c, f, loops)
		}
		wireEncode(c)
		wireDefinition(c, roots)
		c.Rule("skip", "the length of a field that is not known is that of its wire type", 0)
		for _, f := range decoderFuncs(c.P, roots) {
			if isSkipFn(c.P, f) {
				wireSkip(c, f, loops)
			}
		}
	})
}
