package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the operator of an abstract value (a hash-consed value number).
type Op uint8

const (
	OpConst     Op = iota // Aux = canonical text; N = value for small ints
	OpNil                 // untyped nil
	OpZero                // zero value of a struct or array type (Typ)
	OpParam               // root parameter
	OpSym                 // named unknown
	OpAlloc               // object allocated at Ref in context Aux
	OpGlobal              // address of a package variable
	OpFunc                // function value
	OpClosure             // closure over Args
	OpFieldAddr           // address of field N of Args[0]
	OpIndexAddr           // address of element Args[1] of Args[0]
	OpMapCell             // pseudo address of entry Args[1] of map Args[0]
	OpBuilder             // pseudo address of the content of a strings.Builder at Args[0]
	OpField               // field N of struct value Args[0]
	OpLoad                // content of address Args[0] at memory version Args[1]
	OpLookup              // map Args[0] at key Args[1], version Args[2]
	OpLookupOk            //
	OpLen                 // length of a string, slice or array value
	OpMapLen              // number of members of map Args[0] at version Args[1]
	OpCap                 //
	OpApp                 // pure function Aux applied to Args
	OpCallRes             // result N of an opaque call
	OpIface               // interface holding Args[0] with dynamic type Typ
	OpAssert              // Args[0].(Typ)
	OpAssertOk            //
	OpSlice               // Args[0][Args[1]:Args[2]]
	OpAppend              // append(Args[0], Args[1:]...)
	OpAppendSl            // append(Args[0], Args[1]...)
	OpSliceLit            // []T{Args...}
	OpBin                 // Aux operator
	OpConv                // conversion to Typ
	OpLin                 // Args[0] + N
	OpLoopVar             // value carried around a loop
	OpMapKey              // key of the current member of a range loop over map Args[0]
	OpMapVal              // value of the current member
	OpNextOk              // the range loop over a map has another member
	OpRange               // map or string iterator
	OpTuple               //
	OpAgg                 // struct value of type Typ with fields Args
	OpVer                 // memory version
	OpEq                  // Args[0] == Args[1]
	OpLt                  // Args[0] < Args[1] (integers)
	OpNot                 //
	OpAbsent              // marker: map entry is absent
	OpRunning             // unused
)

type Term struct {
	ID    int
	Op    Op
	Typ   types.Type
	Args  []*Term
	Aux   string
	N     int64
	IsInt bool // integer constant with value N
	Ref   interface{}
	loops []string
}

type termTable struct {
	m    map[string]*Term
	list []*Term
	tstr map[types.Type]string
}

var tt = newTermTable()

func newTermTable() *termTable {
	return &termTable{m: map[string]*Term{}, tstr: map[types.Type]string{}}
}

func typeStr(t types.Type) string {
	if t == nil {
		return ""
	}
	if s, ok := tt.tstr[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	tt.tstr[t] = s
	return s
}

func unionLoops(extra []string, args []*Term) []string {
	var out []string
	for _, l := range extra {
		out = addStr(out, l)
	}
	for _, a := range args {
		for _, l := range a.loops {
			out = addStr(out, l)
		}
	}
	return out
}

func addStr(s []string, x string) []string {
	i := sort.SearchStrings(s, x)
	if i < len(s) && s[i] == x {
		return s
	}
	out := make([]string, 0, len(s)+1)
	out = append(out, s[:i]...)
	out = append(out, x)
	out = append(out, s[i:]...)
	return out
}

func hasStr(s []string, x string) bool {
	i := sort.SearchStrings(s, x)
	return i < len(s) && s[i] == x
}

func mkT(op Op, aux string, n int64, typ types.Type, keyTyp bool, ref interface{}, loops []string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteByte(byte(op) + 'A')
	sb.WriteString(aux)
	sb.WriteByte('|')
	sb.WriteString(strconv.FormatInt(n, 10))
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	if keyTyp {
		sb.WriteByte('|')
		sb.WriteString(typeStr(typ))
	}
	k := sb.String()
	if t, ok := tt.m[k]; ok {
		return t
	}
	t := &Term{ID: len(tt.list), Op: op, Typ: typ, Args: args, Aux: aux, N: n, Ref: ref, loops: unionLoops(loops, args)}
	tt.m[k] = t
	tt.list = append(tt.list, t)
	return t
}

func mkInt(n int64) *Term {
	t := mkT(OpConst, strconv.FormatInt(n, 10), n, nil, false, nil, nil)
	t.IsInt = true
	return t
}

func mkStr(s string) *Term {
	return mkT(OpConst, strconv.Quote(s), 0, types.Typ[types.String], false, nil, nil)
}

func mkBool(b bool) *Term {
	if b {
		return mkT(OpConst, "true", 0, types.Typ[types.Bool], false, nil, nil)
	}
	return mkT(OpConst, "false", 0, types.Typ[types.Bool], false, nil, nil)
}

func mkNil() *Term { return mkT(OpNil, "", 0, nil, false, nil, nil) }

func (t *Term) isConst() bool { return t.Op == OpConst || t.Op == OpNil }
func (t *Term) isTrue() bool  { return t.Op == OpConst && t.Aux == "true" }
func (t *Term) isFalse() bool { return t.Op == OpConst && t.Aux == "false" }
func (t *Term) isNil() bool   { return t.Op == OpNil }
func (t *Term) isStr() (string, bool) {
	if t.Op == OpConst && len(t.Aux) > 0 && t.Aux[0] == '"' {
		s, err := strconv.Unquote(t.Aux)
		return s, err == nil
	}
	return "", false
}

// mkConst converts an SSA constant.
func mkConst(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	return mkConstVal(c.Value, c.Type())
}

func mkConstVal(v constant.Value, typ types.Type) *Term {
	switch v.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(v))
	case constant.String:
		return mkStr(constant.StringVal(v))
	case constant.Int:
		if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return mkT(OpConst, "f:"+v.ExactString(), 0, typ, false, nil, nil)
		}
		if n, ok := constant.Int64Val(v); ok {
			return mkInt(n)
		}
	}
	return mkT(OpConst, "n:"+v.ExactString(), 0, typ, false, nil, nil)
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkBool(false)
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer:
			return mkNil()
		default:
			return mkT(OpConst, "f:0", 0, t, false, nil, nil)
		}
	case *types.Struct, *types.Array:
		return mkT(OpZero, "", 0, t, true, nil, nil)
	case *types.Tuple:
		return mkT(OpZero, "", 0, t, true, nil, nil)
	}
	return mkNil()
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// linParts splits an integer term into base and offset; base is nil for a
// constant.
func linParts(t *Term) (*Term, int64) {
	if t.IsInt {
		return nil, t.N
	}
	if t.Op == OpLin {
		return t.Args[0], t.N
	}
	return t, 0
}

func mkLin(t *Term, c int64) *Term {
	b, o := linParts(t)
	if b == nil {
		return mkInt(o + c)
	}
	if o+c == 0 {
		return b
	}
	return mkT(OpLin, "", o+c, b.Typ, false, nil, nil, b)
}

func mkAdd(a, b *Term) *Term {
	if a.IsInt {
		return mkLin(b, a.N)
	}
	if b.IsInt {
		return mkLin(a, b.N)
	}
	// (x - y) + y
	x, cx := linParts(a)
	y, cy := linParts(b)
	if x.Op == OpBin && x.Aux == "-" && x.Args[1] == y {
		return mkLin(x.Args[0], cx+cy)
	}
	if y.Op == OpBin && y.Aux == "-" && y.Args[1] == x {
		return mkLin(y.Args[0], cx+cy)
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	return mkLin(mkT(OpBin, "+", 0, a.Typ, false, nil, nil, x, y), cx+cy)
}

func mkSub(a, b *Term) *Term {
	if b.IsInt {
		return mkLin(a, -b.N)
	}
	x, cx := linParts(a)
	y, cy := linParts(b)
	if x == y {
		return mkInt(cx - cy)
	}
	if x == nil {
		x = mkInt(cx)
		cx = 0
	}
	return mkLin(mkT(OpBin, "-", 0, b.Typ, false, nil, nil, x, y), cx-cy)
}

func mkNot(t *Term) *Term {
	if t.isTrue() {
		return mkBool(false)
	}
	if t.isFalse() {
		return mkBool(true)
	}
	if t.Op == OpNot {
		return t.Args[0]
	}
	return mkT(OpNot, "", 0, types.Typ[types.Bool], false, nil, nil, t)
}

// nonNil reports that the value is never nil by construction.
func nonNil(t *Term) bool {
	switch t.Op {
	case OpAlloc, OpGlobal, OpFunc, OpClosure, OpFieldAddr, OpIndexAddr, OpIface, OpSliceLit, OpAgg, OpZero:
		return true
	case OpAppend:
		return len(t.Args) > 1
	case OpApp:
		switch t.Aux {
		case "fmt.Errorf", "errors.New", "makeslice":
			return true
		}
	case OpSlice:
		return nonNil(t.Args[0])
	}
	return false
}

func mkEq(a, b *Term) *Term {
	if a == b {
		if bt, ok := typBasic(a); ok && bt.Info()&types.IsFloat != 0 {
			return mkApp("feq", types.Typ[types.Bool], a, b)
		}
		return mkBool(true)
	}
	if a.isConst() && b.isConst() {
		return mkBool(false)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.Op == OpZero && b.Op != OpZero {
		a, b = b, a
	}
	if b.isTrue() {
		return a
	}
	if b.isFalse() {
		return mkNot(a)
	}
	if b.isNil() {
		if nonNil(a) {
			return mkBool(false)
		}
		if a.Op == OpAppendSl && len(a.Args) == 2 {
			// nil only if both are empty
			return mkT(OpEq, "", 0, types.Typ[types.Bool], false, nil, nil, a, b)
		}
	}
	if s, ok := b.isStr(); ok && s == "" {
		return mkEq(mkLen(a), mkInt(0))
	}
	if b.IsInt && a.Op == OpLin {
		return mkEq(a.Args[0], mkInt(b.N-a.N))
	}
	if a.Op == OpIface && b.Op == OpIface {
		if !types.Identical(a.Typ, b.Typ) {
			return mkBool(false)
		}
		return mkEq(a.Args[0], b.Args[0])
	}
	if b.Op == OpIface && a.Op != OpIface || a.Op == OpIface {
		if a.Op == OpIface {
			a, b = b, a
		}
		return mkT(OpEq, "", 0, types.Typ[types.Bool], false, nil, nil, a, b)
	}
	if a.Op == OpAlloc && b.Op == OpAlloc {
		return mkBool(false)
	}
	xa, ca := linParts(a)
	xb, cb := linParts(b)
	if (a.Op == OpLin || b.Op == OpLin) && xa != nil && xb != nil {
		if xa == xb {
			return mkBool(ca == cb)
		}
		// x + ca == y + cb
		if xa.ID > xb.ID {
			xa, xb, ca, cb = xb, xa, cb, ca
		}
		return mkT(OpEq, "", 0, types.Typ[types.Bool], false, nil, nil, mkLin(xa, ca-cb), xb)
	}
	if !b.isConst() && b.Op != OpZero && a.ID > b.ID {
		a, b = b, a
	}
	return mkT(OpEq, "", 0, types.Typ[types.Bool], false, nil, nil, a, b)
}

func typBasic(t *Term) (*types.Basic, bool) {
	if t.Typ == nil {
		return nil, false
	}
	b, ok := t.Typ.Underlying().(*types.Basic)
	return b, ok
}

func mkLt(a, b *Term) *Term {
	xa, ca := linParts(a)
	xb, cb := linParts(b)
	if xa == xb {
		return mkBool(ca < cb)
	}
	if xa == nil {
		return mkT(OpLt, "", 0, types.Typ[types.Bool], false, nil, nil, mkInt(ca-cb), xb)
	}
	if xb == nil {
		return mkT(OpLt, "", 0, types.Typ[types.Bool], false, nil, nil, xa, mkInt(cb-ca))
	}
	return mkT(OpLt, "", 0, types.Typ[types.Bool], false, nil, nil, mkLin(xa, ca-cb), xb)
}

func mkApp(name string, typ types.Type, args ...*Term) *Term {
	switch name {
	case "concat":
		if s, ok := args[0].isStr(); ok {
			if s == "" {
				return args[1]
			}
			if s2, ok := args[1].isStr(); ok {
				return mkStr(s + s2)
			}
		}
		if s, ok := args[1].isStr(); ok && s == "" {
			return args[0]
		}
		// left-associate
		if args[1].Op == OpApp && args[1].Aux == "concat" {
			return mkApp("concat", typ, mkApp("concat", typ, args[0], args[1].Args[0]), args[1].Args[1])
		}
		if s2, ok := args[1].isStr(); ok && args[0].Op == OpApp && args[0].Aux == "concat" {
			if s1, ok := args[0].Args[1].isStr(); ok {
				return mkApp("concat", typ, args[0].Args[0], mkStr(s1+s2))
			}
		}
	}
	return mkT(OpApp, name, 0, typ, false, nil, nil, args...)
}

func mkBin(op token.Token, a, b *Term, typ types.Type, opTyp types.Type) *Term {
	isInt := isIntType(opTyp)
	switch op {
	case token.ADD:
		if isStringType(opTyp) {
			return mkApp("concat", typ, a, b)
		}
		if isInt {
			return mkAdd(a, b)
		}
	case token.SUB:
		if isInt {
			return mkSub(a, b)
		}
	case token.EQL:
		return mkEq(a, b)
	case token.NEQ:
		return mkNot(mkEq(a, b))
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if isInt {
			switch op {
			case token.LSS:
				return mkLt(a, b)
			case token.GTR:
				return mkLt(b, a)
			case token.LEQ:
				return mkNot(mkLt(b, a))
			default:
				return mkNot(mkLt(a, b))
			}
		}
		if op == token.GTR {
			return mkT(OpBin, "<", 0, typ, false, nil, nil, b, a)
		}
		if op == token.GEQ {
			return mkT(OpBin, "<=", 0, typ, false, nil, nil, b, a)
		}
	}
	if a.IsInt && b.IsInt && isInt {
		switch op {
		case token.MUL:
			return mkInt(a.N * b.N)
		case token.AND:
			return mkInt(a.N & b.N)
		case token.OR:
			return mkInt(a.N | b.N)
		case token.SHL:
			if b.N >= 0 && b.N < 62 {
				return mkInt(a.N << uint(b.N))
			}
		case token.SHR:
			if b.N >= 0 && b.N < 63 {
				return mkInt(a.N >> uint(b.N))
			}
		}
	}
	return mkT(OpBin, op.String(), 0, typ, false, nil, nil, a, b)
}

func mkLen(x *Term) *Term {
	switch x.Op {
	case OpConst:
		if s, ok := x.isStr(); ok {
			return mkInt(int64(len(s)))
		}
	case OpNil:
		return mkInt(0)
	case OpSlice:
		return mkSub(x.Args[2], x.Args[1])
	case OpAppend:
		return mkLin(mkLen(x.Args[0]), int64(len(x.Args)-1))
	case OpAppendSl:
		return mkAdd(mkLen(x.Args[0]), mkLen(x.Args[1]))
	case OpSliceLit:
		return mkInt(int64(len(x.Args)))
	case OpConv:
		if isStrBytes(x.Typ) && x.Args[0].Typ != nil && isStrBytes(x.Args[0].Typ) {
			return mkLen(x.Args[0])
		}
	case OpAlloc:
		if x.Typ != nil {
			if p, ok := x.Typ.Underlying().(*types.Pointer); ok {
				if a, ok := p.Elem().Underlying().(*types.Array); ok {
					return mkInt(a.Len())
				}
			}
		}
	case OpApp:
		if x.Aux == "makeslice" {
			return x.Args[0]
		}
		if x.Aux == "concat" {
			a, b := mkLen(x.Args[0]), mkLen(x.Args[1])
			if a.IsInt || b.IsInt {
				return mkAdd(a, b)
			}
		}
	}
	return mkT(OpLen, "", 0, types.Typ[types.Int], false, nil, nil, x)
}

func isStrBytes(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	return false
}

func mkSlice(x, lo, hi *Term, typ types.Type) *Term {
	if lo == nil {
		lo = mkInt(0)
	}
	if hi == nil {
		hi = mkLen(x)
	}
	if lo.IsInt && lo.N == 0 && hi == mkLen(x) && x.Op != OpAlloc {
		return x
	}
	if x.isNil() {
		return x
	}
	if x.Op == OpSlice {
		return mkSlice(x.Args[0], mkAdd(x.Args[1], lo), mkAdd(x.Args[1], hi), typ)
	}
	return mkT(OpSlice, "", 0, typ, false, nil, nil, x, lo, hi)
}

// mkIndex is a character of a string or an element of an array value.
func mkIndex(x, i *Term, typ types.Type) *Term {
	for x.Op == OpSlice {
		i = mkAdd(x.Args[1], i)
		x = x.Args[0]
	}
	if c, ok := x.isStr(); ok && i.IsInt && i.N >= 0 && i.N < int64(len(c)) {
		return mkInt(int64(c[i.N]))
	}
	return mkApp("index", typ, x, i)
}

func mkIndexAddr(base, idx *Term, typ types.Type) *Term {
	if base.Op == OpSlice {
		return mkIndexAddr(base.Args[0], mkAdd(base.Args[1], idx), typ)
	}
	return mkT(OpIndexAddr, "", 0, typ, false, nil, nil, base, idx)
}

func mkFieldAddr(base *Term, idx int, typ types.Type) *Term {
	return mkT(OpFieldAddr, "", int64(idx), typ, false, nil, nil, base)
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func mkField(v *Term, idx int, typ types.Type) *Term {
	switch v.Op {
	case OpAgg:
		return v.Args[idx]
	case OpZero:
		if s := structOf(v.Typ); s != nil {
			return zeroOf(s.Field(idx).Type())
		}
	}
	return mkT(OpField, "", int64(idx), typ, false, nil, nil, v)
}

func mkAgg(typ types.Type, fields []*Term) *Term {
	s := structOf(typ)
	if s == nil || len(fields) != s.NumFields() {
		panic("mkAgg")
	}
	if len(fields) > 0 {
		var v *Term
		if fields[0].Op == OpField && fields[0].N == 0 {
			v = fields[0].Args[0]
		}
		allZero := true
		for i, f := range fields {
			if v != nil && !(f.Op == OpField && f.N == int64(i) && f.Args[0] == v) {
				v = nil
			}
			if f != zeroOf(s.Field(i).Type()) {
				allZero = false
			}
		}
		if v != nil {
			return v
		}
		if allZero {
			return zeroOf(typ)
		}
	} else {
		return zeroOf(typ)
	}
	return mkT(OpAgg, "", 0, typ, true, nil, nil, fields...)
}

func mkConv(x *Term, from, to types.Type) *Term {
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	if x.IsInt && isIntType(to) {
		return x
	}
	if s, ok := x.isStr(); ok && isStringType(to) {
		return mkStr(s)
	}
	if x.isNil() && isStringType(to) && isStrBytes(from) {
		return mkStr("")
	}
	// string(bytes(s)) and bytes(string(b)) keep the content
	if x.Op == OpConv && isStrBytes(x.Typ) && isStrBytes(to) && isStrBytes(from) && x.Args[0].Typ != nil &&
		types.Identical(x.Args[0].Typ.Underlying(), to.Underlying()) && isStringType(to) {
		return x.Args[0]
	}
	return mkT(OpConv, typeStr(to.Underlying()), 0, to, false, nil, nil, x)
}

func mkIface(x *Term, typ types.Type) *Term {
	return mkT(OpIface, "", 0, typ, true, nil, nil, x)
}

func mkVer(name string, loops []string) *Term { return mkT(OpVer, name, 0, nil, false, nil, loops) }

// subst replaces terms and rebuilds with normalisation.
func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	changed := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = subst(a, m, memo)
		if args[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case OpLin:
		return mkLin(args[0], t.N)
	case OpEq:
		return mkEq(args[0], args[1])
	case OpLt:
		return mkLt(args[0], args[1])
	case OpNot:
		return mkNot(args[0])
	case OpLen:
		return mkLen(args[0])
	case OpSlice:
		return mkSlice(args[0], args[1], args[2], t.Typ)
	case OpIndexAddr:
		return mkIndexAddr(args[0], args[1], t.Typ)
	case OpFieldAddr:
		return mkFieldAddr(args[0], int(t.N), t.Typ)
	case OpField:
		return mkField(args[0], int(t.N), t.Typ)
	case OpAgg:
		return mkAgg(t.Typ, args)
	case OpApp:
		return mkApp(t.Aux, t.Typ, args...)
	case OpBin:
		switch t.Aux {
		case "+":
			return mkAdd(args[0], args[1])
		case "-":
			return mkSub(args[0], args[1])
		}
		return mkT(OpBin, t.Aux, 0, t.Typ, false, nil, nil, args...)
	case OpAppend:
		return mkAppend(args[0], args[1:], t.Typ)
	}
	keyTyp := t.Op == OpIface || t.Op == OpAssert || t.Op == OpAssertOk || t.Op == OpAgg || t.Op == OpZero
	return mkT(t.Op, t.Aux, t.N, t.Typ, keyTyp, t.Ref, nil, args...)
}

func mkAppend(base *Term, elems []*Term, typ types.Type) *Term {
	if len(elems) == 0 {
		return base
	}
	if base.Op == OpAppend {
		return mkT(OpAppend, "", 0, typ, false, nil, nil, append(append([]*Term{}, base.Args...), elems...)...)
	}
	return mkT(OpAppend, "", 0, typ, false, nil, nil, append([]*Term{base}, elems...)...)
}

// contains reports whether x occurs in t.
func contains(t, x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.Args {
		if contains(a, x) {
			return true
		}
	}
	return false
}

func anySub(t *Term, f func(*Term) bool) bool {
	if f(t) {
		return true
	}
	for _, a := range t.Args {
		if anySub(a, f) {
			return true
		}
	}
	return false
}

func fieldName(t *Term) string {
	// t is a FieldAddr
	b := t.Args[0]
	if b.Typ != nil {
		if p, ok := b.Typ.Underlying().(*types.Pointer); ok {
			if s := structOf(p.Elem()); s != nil && int(t.N) < s.NumFields() {
				return s.Field(int(t.N)).Name()
			}
		}
	}
	return fmt.Sprintf("#%d", t.N)
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 9 {
		return "…"
	}
	a := func(i int) string { return t.Args[i].str(d + 1) }
	all := func(from int) string {
		var s []string
		for i := from; i < len(t.Args); i++ {
			s = append(s, a(i))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case OpConst:
		return t.Aux
	case OpNil:
		return "nil"
	case OpZero:
		return shortType(t.Typ) + "{}"
	case OpParam, OpSym:
		return t.Aux
	case OpAlloc:
		return "new(" + shortType(deref(t.Typ)) + ")"
	case OpGlobal:
		return "&" + t.Aux
	case OpFunc, OpClosure:
		return "func " + t.Aux
	case OpFieldAddr:
		return "&" + a(0) + "." + fieldName(t)
	case OpIndexAddr:
		return "&" + a(0) + "[" + a(1) + "]"
	case OpMapCell:
		return "&" + a(0) + "[" + a(1) + "]"
	case OpField:
		n := fmt.Sprintf("#%d", t.N)
		if s := structOf(t.Args[0].Typ); s != nil {
			n = s.Field(int(t.N)).Name()
		}
		return a(0) + "." + n
	case OpLoad:
		s := a(0)
		if strings.HasPrefix(s, "&") {
			return s[1:]
		}
		return "*" + s
	case OpLookup:
		return a(0) + "[" + a(1) + "]"
	case OpLookupOk:
		return "present(" + a(0) + "[" + a(1) + "])"
	case OpLen, OpMapLen:
		return "len(" + a(0) + ")"
	case OpApp:
		return t.Aux + "(" + all(0) + ")"
	case OpCallRes:
		return fmt.Sprintf("%s#%d", t.Aux, t.N)
	case OpIface:
		return "(" + shortType(t.Typ) + ")(" + a(0) + ")"
	case OpAssert:
		return a(0) + ".(" + shortType(t.Typ) + ")"
	case OpAssertOk:
		return a(0) + " is " + shortType(t.Typ)
	case OpSlice:
		return a(0) + "[" + a(1) + ":" + a(2) + "]"
	case OpAppend, OpAppendSl:
		return "append(" + all(0) + ")"
	case OpSliceLit:
		return "{" + all(0) + "}"
	case OpBin:
		return "(" + a(0) + t.Aux + a(1) + ")"
	case OpConv:
		return shortType(t.Typ) + "(" + a(0) + ")"
	case OpLin:
		return fmt.Sprintf("%s%+d", a(0), t.N)
	case OpLoopVar:
		return t.Aux
	case OpMapKey:
		return "key of " + a(0)
	case OpMapVal:
		return "value of " + a(0)
	case OpNextOk:
		return "more(" + a(0) + ")"
	case OpEq:
		return "(" + a(0) + " == " + a(1) + ")"
	case OpLt:
		return "(" + a(0) + " < " + a(1) + ")"
	case OpNot:
		return "!" + a(0)
	case OpAgg:
		return shortType(t.Typ) + "{" + all(0) + "}"
	case OpTuple:
		return "(" + all(0) + ")"
	case OpVer:
		return "@" + t.Aux
	}
	return fmt.Sprintf("op%d(%s|%s)", t.Op, t.Aux, all(0))
}

func deref(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}
