package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// reflGuard decides that the preconditions of reflective operations hold
// wherever they are used.
type reflGuard struct {
	c     *Ctx
	rule  string
	inner func(s *State, cc *CallCtx) ([]*Term, bool)
	convs map[*ssa.Function]bool // take a valid, exported value; verified separately
	rvT   types.Type
	typeT types.Type
	given map[*Term]bool // values assumed to be valid and exported
	ptrs  map[*Term]bool // result of Elem -> the pointer was not nil on all paths
	later []laterOb
	seen  map[string]bool
}

type laterOb struct {
	construct, pos string
	why            func(e *Engine) string
	key            string
}

func newReflGuard(c *Ctx, rule string) *reflGuard {
	g := &reflGuard{c: c, rule: rule, given: map[*Term]bool{}, ptrs: map[*Term]bool{}, seen: map[string]bool{}, convs: map[*ssa.Function]bool{}}
	p := c.P.Prog.ImportedPackage("reflect")
	if p == nil {
		c.Missing("package reflect")
		return nil
	}
	g.rvT, g.typeT = p.Type("Value").Type(), p.Type("Type").Type()
	return g
}

const (
	vPrefix = "(reflect.Value)."
	tPrefix = "(reflect.Type)."
)

// typ is the symbolic type of a reflect value.
func (g *reflGuard) typ(v *Term) *Term {
	switch {
	case isLib(v, "reflect.New"):
		return mkApp("reflect.PtrTo", g.typeT, v.Args[0])
	case isLib(v, vPrefix+"Elem") && isLib(v.Args[0], "reflect.New"):
		return v.Args[0].Args[0]
	case isLib(v, "reflect.Zero"):
		return v.Args[0]
	case isLib(v, vPrefix+"Convert"):
		return v.Args[1]
	}
	if l, idx, ok := elemOf(v); ok && isLib(l, "reflect.called") && idx.IsInt {
		return mkApp(tPrefix+"Out", g.typeT, g.typ(l.Args[0]), idx)
	}
	if isLib(v, "reflect.ValueOf") && v.Args[0].Op == OpIface {
		return typeofTerm(g.typeT, v.Args[0].Typ)
	}
	if isLib(v, "reflect.ValueOf") {
		return mkApp("typeof", g.typeT, v.Args[0])
	}
	return mkApp(vPrefix+"Type", g.typeT, v)
}

func (g *reflGuard) kindT() types.Type {
	return g.c.P.Prog.ImportedPackage("reflect").Type("Kind").Type()
}

// kindOfType is the kind of a symbolic type.
func (g *reflGuard) kindOfType(t *Term) *Term {
	if isLib(t, "reflect.PtrTo") {
		return mkInt(int64(reflect.Ptr))
	}
	if isLib(t, "typeof") && t.Args[0].Op == OpSym {
		if ty, ok := t.Args[0].Ref.(types.Type); ok {
			if k := staticKind(ty); k != reflect.Invalid {
				return mkInt(int64(k))
			}
		}
	}
	return libApp(tPrefix+"Kind", g.kindT(), []*Term{t})
}

func (g *reflGuard) kind(v *Term) *Term { return g.kindOfType(g.typ(v)) }

func staticKind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		m := map[types.BasicKind]reflect.Kind{types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16, types.Int32: reflect.Int32, types.Int64: reflect.Int64,
			types.Uint: reflect.Uint, types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64, types.Uintptr: reflect.Uintptr,
			types.Float32: reflect.Float32, types.Float64: reflect.Float64, types.Complex64: reflect.Complex64, types.Complex128: reflect.Complex128, types.String: reflect.String, types.UnsafePointer: reflect.UnsafePointer}
		return m[u.Kind()]
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Struct:
		return reflect.Struct
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid // interfaces: the kind of a value is that of its content
}

var kindSets = map[string][]reflect.Kind{
	"Bool": {reflect.Bool}, "Int": {reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64},
	"Uint":  {reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr},
	"Float": {reflect.Float32, reflect.Float64}, "Complex": {reflect.Complex64, reflect.Complex128},
	"Len": {reflect.Array, reflect.Chan, reflect.Map, reflect.Slice, reflect.String}, "Cap": {reflect.Array, reflect.Chan, reflect.Slice},
	"Index": {reflect.Array, reflect.Slice, reflect.String}, "Elem": {reflect.Ptr, reflect.Interface},
	"IsNil":    {reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice, reflect.UnsafePointer},
	"MapRange": {reflect.Map}, "MapKeys": {reflect.Map}, "MapIndex": {reflect.Map},
	"NumField": {reflect.Struct}, "Field": {reflect.Struct}, "FieldByName": {reflect.Struct}, "FieldByIndex": {reflect.Struct}, "FieldByIndexErr": {reflect.Struct},
	"Call": {reflect.Func}, "Bytes": {reflect.Slice}, "Pointer": {reflect.Chan, reflect.Func, reflect.Map, reflect.Ptr, reflect.Slice, reflect.UnsafePointer},
}

var typeKindSets = map[string][]reflect.Kind{
	"Elem": {reflect.Array, reflect.Chan, reflect.Map, reflect.Ptr, reflect.Slice}, "Key": {reflect.Map}, "Len": {reflect.Array},
	"NumField": {reflect.Struct}, "Field": {reflect.Struct}, "FieldByName": {reflect.Struct}, "FieldByIndex": {reflect.Struct},
	"NumIn": {reflect.Func}, "In": {reflect.Func}, "NumOut": {reflect.Func}, "Out": {reflect.Func}, "IsVariadic": {reflect.Func},
}

var valueTotal = map[string]bool{"Kind": true, "IsValid": true, "String": true, "CanAddr": true, "CanSet": true}
var valueValid = map[string]bool{"Type": true, "CanConvert": true, "CanInterface": true, "IsZero": true, "Interface": true, "NumMethod": true, "MethodByName": true, "Convert": true,
	"CanInt": true, "CanUint": true, "CanFloat": true, "Comparable": true}
var typeTotal = map[string]bool{"Kind": true, "Name": true, "String": true, "PkgPath": true, "Size": true, "NumMethod": true, "Implements": true, "AssignableTo": true, "ConvertibleTo": true, "MethodByName": true, "Comparable": true, "Align": true, "Bits": false}

// kindIn: the kind is known to be one of ks.
func kindIn(f *Facts, k *Term, ks []reflect.Kind) bool {
	in := map[reflect.Kind]bool{}
	for _, x := range ks {
		in[x] = true
	}
	for i := range kindNames {
		if !in[reflect.Kind(i)] && f.eval(mkEq(k, mkInt(int64(i)))) != no {
			return false
		}
	}
	return true
}

func kindList(ks []reflect.Kind) string {
	var out []string
	for _, k := range ks {
		out = append(out, kindNames[k])
	}
	return strings.Join(out, ", ")
}

// valid: the value is not the zero reflect.Value.
func (g *reflGuard) valid(s *State, v *Term) (bool, func(e *Engine) string) {
	F := s.F
	if g.given[v] {
		return true, nil
	}
	if F.eval(mkApp(vPrefix+"IsValid", types.Typ[types.Bool], v)) == yes || F.eval(mkEq(v, mkT(OpZero, "", 0, g.rvT, true, nil, nil))) == no {
		return true, nil
	}
	if F.eval(mkEq(g.kind(v), mkInt(0))) == no {
		return true, nil
	}
	if v.Op == OpLoopVar {
		return true, func(e *Engine) string { return g.loopValue(e, v, g.validLate) }
	}
	switch {
	case isLib(v, "reflect.ValueOf"):
		x := v.Args[0]
		return nonNil(x) || F.isNilTri(x) == no || x.Op == OpIface, nil
	case isLib(v, vPrefix+"Elem"):
		x := v.Args[0]
		if isLib(x, "reflect.New") {
			return true, nil
		}
		return F.eval(mkApp(vPrefix+"IsNil", types.Typ[types.Bool], x)) == no, nil
	case isLib(v, "reflect.New"), isLib(v, "reflect.Zero"), isLib(v, vPrefix+"Convert"), isLib(v, vPrefix+"Index"), isLib(v, vPrefix+"Field"):
		return true, nil
	case isLib(v, vPrefix+"FieldByName"):
		return g.ownField(s, v.Args[0], v.Args[1])
	case isLib(v, vPrefix+"FieldByIndexErr#0"):
		return F.eval(mkEq(mkApp(vPrefix+"FieldByIndexErr#1", nil, v.Args...), mkNil())) == yes || g.errNil(s, v), nil
	case isLib(v, vPrefix+"FieldByIndex"):
		return true, nil
	}
	if l, _, ok := elemOf(v); ok && isLib(l, "reflect.called") {
		return true, nil
	}
	if g.member(v) != nil {
		return true, nil
	}
	return false, nil
}

func (g *reflGuard) errNil(s *State, v *Term) bool {
	for _, t := range factTerms(s.F, func(t *Term) bool {
		return isLib(t, vPrefix+"FieldByIndexErr#1") && len(t.Args) == 2 && t.Args[0] == v.Args[0] && t.Args[1] == v.Args[1]
	}) {
		if s.F.eval(mkEq(t, mkNil())) == yes {
			return true
		}
	}
	return false
}

// member: the map a key or value of an iteration belongs to.
func (g *reflGuard) member(v *Term) *Term {
	if v.Op != OpMapKey && v.Op != OpMapVal {
		return nil
	}
	var m *Term
	anySub(v, func(t *Term) bool {
		if isLib(t, "reflect.members") {
			m = t.Args[0]
		}
		return m != nil
	})
	return m
}

func (g *reflGuard) validLate(e *Engine, v *Term) string {
	switch {
	case g.given[v]:
		return ""
	case v.Op == OpLoopVar:
		return ""
	case isLib(v, vPrefix+"Elem"):
		if ok, seen := g.ptrs[v]; seen && ok {
			return ""
		}
		return "the content of a pointer that may be nil is used"
	case isLib(v, "reflect.ValueOf"):
		if nonNil(v.Args[0]) || v.Args[0].Op == OpIface {
			return ""
		}
	case isLib(v, "reflect.New"), isLib(v, "reflect.Zero"), isLib(v, vPrefix+"Convert"), isLib(v, vPrefix+"Index"), isLib(v, vPrefix+"Field"):
		return ""
	}
	return "the value " + v.String() + " may be invalid"
}

// loopValue: every value the variable takes satisfies ok.
func (g *reflGuard) loopValue(e *Engine, v *Term, ok func(e *Engine, v *Term) string) string {
	key, _ := v.Ref.(string)
	rec := e.Loops[key]
	if rec == nil || rec.Vars[v] == nil {
		return "unknown loop variable"
	}
	vr := rec.Vars[v]
	for _, m := range []map[*Term]bool{vr.Inits, vr.Firsts, vr.Steps} {
		for t := range m {
			if t == v {
				continue
			}
			if why := ok(e, t); why != "" {
				return why
			}
		}
	}
	return ""
}

// ownField: name is the name of a field of the struct type of v itself.
func (g *reflGuard) ownField(s *State, v, name *Term) (bool, func(e *Engine) string) {
	d := g.fieldNamed(name)
	if d == nil {
		return false, nil
	}
	if isLib(d, tPrefix+"Field") && d.Args[0] == g.typ(v) {
		return true, nil
	}
	if l, _, ok := elemOf(d); ok {
		return true, func(e *Engine) string { return g.fieldsOf(e, l, v) }
	}
	return false, nil
}

// fieldNamed: t is the Name of a field description.
func (g *reflGuard) fieldNamed(t *Term) *Term {
	if b, i, ok := fieldOf(t); ok && b.Typ != nil {
		if st := structOf(b.Typ); st != nil && st.Field(i).Name() == "Name" && strings.HasSuffix(typeStr(b.Typ), "reflect.StructField") {
			return b
		}
	}
	return nil
}

// fieldsOf: the list holds exported fields of the struct type of v only.
func (g *reflGuard) fieldsOf(e *Engine, l, v *Term) string {
	if l.Op != OpLoopVar {
		return "the fields in " + l.String() + " may belong to another struct"
	}
	key, _ := l.Ref.(string)
	rec := e.Loops[key]
	if rec == nil || rec.Vars[l] == nil {
		return "unknown loop variable"
	}
	for t := range rec.Vars[l].Inits {
		if !t.isNil() && !(t.Op == OpSlice || t.Op == OpAlloc || mkLen(t) == mkInt(0)) {
			return "the list of fields starts as " + t.String()
		}
	}
	for _, it := range rec.Iters {
		end, start := it.End[l], it.Start[l]
		if end == nil || end == start {
			continue
		}
		_, el, ok := appendParts(end)
		if !ok {
			return "the list of fields becomes " + end.String()
		}
		for _, d := range el {
			if !isLib(d, tPrefix+"Field") || d.Args[0] != g.typ(v) {
				return "the list of fields gets " + d.String()
			}
			if !g.exportedField(it.St, d) {
				return "the list of fields can get an unexported field"
			}
		}
	}
	return ""
}

func (g *reflGuard) exportedField(s *State, d *Term) bool {
	i := fieldIndexByName(d.Typ, "PkgPath")
	if i < 0 {
		return false
	}
	pk := mkField(d, i, types.Typ[types.String])
	return s.F.eval(mkEq(pk, mkStr(""))) == yes
}

// exported: Interface may be called.
func (g *reflGuard) exported(s *State, v *Term) (bool, func(e *Engine) string) {
	if g.given[v] {
		return true, nil
	}
	if s.F.eval(mkApp(vPrefix+"CanInterface", types.Typ[types.Bool], v)) == yes {
		return true, nil
	}
	if v.Op == OpLoopVar {
		return true, func(e *Engine) string {
			return g.loopValue(e, v, func(e *Engine, t *Term) string {
				for isLib(t, vPrefix+"Elem") || isLib(t, vPrefix+"Convert") {
					t = t.Args[0]
				}
				if t == v || g.given[t] || isLib(t, "reflect.ValueOf") {
					return ""
				}
				return "the value " + t.String() + " may come from an unexported field"
			})
		}
	}
	switch {
	case isLib(v, "reflect.ValueOf"), isLib(v, "reflect.New"), isLib(v, "reflect.Zero"), isLib(v, vPrefix+"MethodByName"):
		return true, nil
	case isLib(v, vPrefix+"Elem"), isLib(v, vPrefix+"Convert"), isLib(v, vPrefix+"Index"):
		return g.exported(s, v.Args[0])
	case isLib(v, vPrefix+"Field"):
		ok, l := g.exported(s, v.Args[0])
		if !ok {
			return false, nil
		}
		d := mkApp(tPrefix+"Field", g.fieldDescT(), g.typ(v.Args[0]), v.Args[1])
		if g.exportedField(s, d) {
			return true, l
		}
		// the index of an element of a list of exported fields
		return false, nil
	case isLib(v, vPrefix+"FieldByName"):
		ok, l := g.exported(s, v.Args[0])
		if !ok {
			return false, nil
		}
		if n, c := v.Args[1].isStr(); c {
			return n != "" && n[0] >= 'A' && n[0] <= 'Z', l
		}
		d := g.fieldNamed(v.Args[1])
		if d == nil {
			return false, nil
		}
		if g.exportedField(s, d) {
			return true, l
		}
		if list, _, ok := elemOf(d); ok {
			return true, func(e *Engine) string {
				if l != nil {
					if why := l(e); why != "" {
						return why
					}
				}
				return g.fieldsOf(e, list, v.Args[0])
			}
		}
		return false, nil
	}
	if l, _, ok := elemOf(v); ok && isLib(l, "reflect.called") {
		return true, nil
	}
	if m := g.member(v); m != nil {
		return g.exported(s, m)
	}
	return false, nil
}

func (g *reflGuard) fieldDescT() types.Type {
	return g.c.P.Prog.ImportedPackage("reflect").Type("StructField").Type()
}

// nonNilType: the reflect.Type is not nil.
func (g *reflGuard) nonNilType(s *State, t *Term) bool {
	if isLib(t, vPrefix+"Type") || isLib(t, "reflect.PtrTo") || strings.HasPrefix(t.Aux, tPrefix) && t.Op == OpApp {
		return true
	}
	if isLib(t, "typeof") {
		return t.Args[0].Op == OpSym || s.F.isNilTri(t.Args[0]) == no || s.F.eval(mkEq(g.kindOfType(t), mkInt(0))) == no
	}
	if b, i, ok := fieldOf(t); ok && b.Typ != nil {
		if st := structOf(b.Typ); st != nil && st.Field(i).Name() == "Type" && strings.HasSuffix(typeStr(b.Typ), "reflect.StructField") {
			return true
		}
	}
	return nonNil(t) || s.F.isNilTri(t) == no
}

func (g *reflGuard) site(ins ssa.Instruction, op string) (construct, pos string) {
	return strings.TrimPrefix(ins.Parent().String(), g.c.P.Mod+"/") + ": " + op, g.c.P.InstrPos(ins)
}

// verdict records the decision for one use in one state.
func (g *reflGuard) verdict(s *State, ins ssa.Instruction, op, why string, late func(e *Engine) string) {
	construct, pos := g.site(ins, op)
	if why != "" {
		g.c.Bad(g.rule, construct, pos, why, s.F.describe()...)
		return
	}
	if late != nil {
		key := construct + pos
		if !g.seen[key] {
			g.seen[key] = true
			g.later = append(g.later, laterOb{construct: construct, pos: pos, why: late, key: key})
		}
		return
	}
	g.c.Ok(g.rule, construct)
}

// finish decides what depends on all iterations of a loop.
func (g *reflGuard) finish(e *Engine) {
	for _, o := range g.later {
		if why := o.why(e); why != "" {
			g.c.Bad(g.rule, o.construct, o.pos, why)
		} else {
			g.c.Ok(g.rule, o.construct)
		}
	}
	g.later = nil
	g.seen = map[string]bool{}
}

func (g *reflGuard) model(s *State, cc *CallCtx) ([]*Term, bool) {
	switch {
	case strings.HasPrefix(cc.Name, vPrefix):
		g.valueOp(s, cc, strings.TrimPrefix(cc.Name, vPrefix))
	case strings.HasPrefix(cc.Name, tPrefix):
		g.typeOp(s, cc, strings.TrimPrefix(cc.Name, tPrefix))
	case cc.Name == "reflect.Zero" || cc.Name == "reflect.New":
		why := ""
		if !g.nonNilType(s, cc.Args[0]) {
			why = "the type may be nil"
		}
		g.verdict(s, cc.Instr, cc.Name, why, nil)
	case strings.HasPrefix(cc.Name, "reflect.") && cc.Name != "reflect.ValueOf" && cc.Name != "reflect.TypeOf" && cc.Name != "reflect.DeepEqual" && cc.Name != "reflect.Indirect" && cc.Name != "reflect.PtrTo" && cc.Name != "reflect.PointerTo":
		g.verdict(s, cc.Instr, cc.Name, "the operation can panic", nil)
	case cc.Name == "(*reflect.MapIter).Key" || cc.Name == "(*reflect.MapIter).Value":
		why := "Key or Value is called on an iterator that is not at a member"
		if isLib(cc.Args[0], "reflect.iter") {
			if n := s.Mon["riter:"+cc.Args[0].String()]; n != "" {
				for t, b := range s.F.bools {
					if b && t.Op == OpNextOk && n == t.String()+strings.Join(t.loops, ",") {
						why = ""
					}
				}
			}
		}
		g.verdict(s, cc.Instr, cc.Name, why, nil)
	case cc.Fn != nil && g.convs[cc.Fn]:
		for _, a := range cc.Args {
			if a.Typ == nil || !types.Identical(a.Typ, g.rvT) {
				continue
			}
			ok, l1 := g.valid(s, a)
			ex, l2 := g.exported(s, a)
			why := ""
			if !ok {
				why = "the conversion is called for a value that may be invalid"
			} else if !ex {
				why = "the conversion is called for a value that may come from an unexported field"
			}
			g.verdict(s, cc.Instr, "conversion", why, both(l1, l2))
		}
	}
	if cc.Method != nil && cc.Fn == nil && len(cc.Args) > 0 {
		r := cc.Args[0]
		for r.Op == OpAssert {
			r = r.Args[0]
		}
		if isLib(r, vPrefix+"Interface") {
			g.method(s, cc, r.Args[0])
		}
	}
	return g.step(s, cc)
}

func both(a, b func(e *Engine) string) func(e *Engine) string {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	return func(e *Engine) string {
		if why := a(e); why != "" {
			return why
		}
		return b(e)
	}
}

// method: a method of the content of a reflect value is called; it must not be
// a nil pointer.
func (g *reflGuard) method(s *State, cc *CallCtx, rv *Term) {
	if !isLib(rv, vPrefix+"FieldByName") && !isLib(rv, vPrefix+"Field") && !g.given[rv] && rv.Op != OpLoopVar && g.member(rv) == nil && !isLib(rv, vPrefix+"Index") {
		return
	}
	why := "a method of a value is called that may be a nil pointer"
	k := g.kind(rv)
	nilKind := s.F.eval(mkEq(k, mkInt(int64(reflect.Ptr)))) == no && s.F.eval(mkEq(k, mkInt(int64(reflect.Interface)))) == no
	if nilKind || s.F.eval(mkApp(vPrefix+"IsNil", types.Typ[types.Bool], rv)) == no {
		why = ""
	}
	// the conversion of a nil pointer or interface is null
	for _, t := range factTerms(s.F, func(t *Term) bool {
		return t.Op == OpLoad && t.Args[0].Op == OpFieldAddr && t.Args[0].Args[0].Op == OpApp && strings.HasPrefix(t.Args[0].Args[0].Aux, "conv:") && len(t.Args[0].Args[0].Args) == 1 && t.Args[0].Args[0].Args[0] == rv
	}) {
		fa := t.Args[0]
		st := structOf(deref(fa.Args[0].Typ))
		if st == nil || st.Field(int(fa.N)).Name() != "Type" {
			continue
		}
		if n := constTerm(g.c.P, relEvent, "NullType"); n != nil && s.F.eval(mkEq(t, n)) == no {
			why = ""
		}
	}
	g.verdict(s, cc.Instr, "call of "+cc.Method.Name(), why, nil)
}

func (g *reflGuard) valueOp(s *State, cc *CallCtx, op string) {
	v := cc.Args[0]
	if valueTotal[op] {
		return
	}
	why := ""
	var late func(e *Engine) string
	if ks := kindSets[op]; ks != nil {
		if !kindIn(s.F, g.kind(v), ks) && !g.method0(s, v, ks) {
			why = op + " is applied to a value that may have a kind other than " + kindList(ks)
		}
	} else if valueValid[op] {
		ok, l := g.valid(s, v)
		if !ok {
			why = op + " is applied to a value that may be invalid"
		}
		late = l
	} else {
		why = op + " is applied, whose preconditions are not known"
	}
	if why == "" {
		switch op {
		case "Interface":
			ok, l := g.exported(s, v)
			if !ok {
				why = "Interface is applied to a value that may come from an unexported field"
			}
			late = both(late, l)
		case "Elem":
			r := mkApp(vPrefix+"Elem", g.rvT, v)
			nn := s.F.eval(mkApp(vPrefix+"IsNil", types.Typ[types.Bool], v)) == no
			if old, seen := g.ptrs[r]; seen {
				nn = nn && old
			}
			g.ptrs[r] = nn
		case "Index":
			why = bounds(s, cc.Args[1], mkApp(vPrefix+"Len", types.Typ[types.Int], v), "elements")
		case "Field":
			n := mkApp(tPrefix+"NumField", types.Typ[types.Int], g.typ(v))
			why = bounds(s, cc.Args[1], n, "fields")
			if why != "" && bounds(s, cc.Args[1], mkApp(vPrefix+"NumField", types.Typ[types.Int], v), "fields") == "" {
				why = ""
			}
		case "FieldByName":
			ok, l := g.ownField(s, v, cc.Args[1])
			if !ok {
				why = "FieldByName is applied, which panics if the field is found in an embedded pointer that is nil"
			}
			late = both(late, l)
		case "FieldByIndex":
			why = "FieldByIndex is applied, which panics if the field is in an embedded pointer that is nil"
		case "FieldByIndexErr":
			b, _, ok := fieldOf(cc.Args[1])
			if !ok || !isLib(b, tPrefix+"FieldByName#0") || b.Args[0] != g.typ(v) || s.F.eval(mkApp(tPrefix+"FieldByName#1", types.Typ[types.Bool], b.Args...)) != yes {
				why = "FieldByIndexErr is applied to an index that may not be one of the struct type"
			}
		case "Convert":
			if s.F.eval(mkApp(vPrefix+"CanConvert", types.Typ[types.Bool], v, cc.Args[1])) != yes {
				why = "Convert is applied to a value that may not be convertible"
			}
		case "CanConvert":
			if !g.nonNilType(s, cc.Args[1]) {
				why = "the type may be nil"
			}
		case "Call":
			why = g.callable(s, v, cc)
		}
	}
	g.verdict(s, cc.Instr, "Value."+op, why, late)
}

// method0: v is a method value that was found; functions are allowed.
func (g *reflGuard) method0(s *State, v *Term, ks []reflect.Kind) bool {
	if !isLib(v, vPrefix+"MethodByName") && !isLib(v, vPrefix+"Method") {
		return false
	}
	for _, k := range ks {
		if k == reflect.Func {
			ok, _ := g.valid(s, v)
			return ok
		}
	}
	return false
}

func bounds(s *State, i, n *Term, what string) string {
	if s.F.eval(mkLt(i, n)) != yes || s.F.eval(mkLt(i, mkInt(0))) != no {
		return "the index " + i.String() + " may be outside the " + what
	}
	return ""
}

func (g *reflGuard) typeOp(s *State, cc *CallCtx, op string) {
	t := cc.Args[0]
	why := ""
	if !g.nonNilType(s, t) {
		why = op + " is applied to a type that may be nil"
	} else if ks := typeKindSets[op]; ks != nil {
		if !kindIn(s.F, g.kindOfType(t), ks) && !(isLib(t, vPrefix+"Type") && g.method0(s, t.Args[0], ks)) {
			why = op + " is applied to a type that may have a kind other than " + kindList(ks)
		}
	} else if !typeTotal[op] {
		why = op + " is applied, whose preconditions are not known"
	}
	if why == "" {
		in := types.Typ[types.Int]
		switch op {
		case "Field":
			why = bounds(s, cc.Args[1], mkApp(tPrefix+"NumField", in, t), "fields")
			if isLib(t, vPrefix+"Type") && why != "" && bounds(s, cc.Args[1], mkApp(vPrefix+"NumField", in, t.Args[0]), "fields") == "" {
				why = ""
			}
		case "In":
			why = bounds(s, cc.Args[1], mkApp(tPrefix+"NumIn", in, t), "parameters")
		case "Out":
			why = bounds(s, cc.Args[1], mkApp(tPrefix+"NumOut", in, t), "results")
		case "Implements", "AssignableTo", "ConvertibleTo":
			u := cc.Args[1]
			if !g.nonNilType(s, u) {
				why = "the type to compare with may be nil"
			} else if op == "Implements" {
				it, ok := u.Args[0].Ref.(types.Type)
				if !isLib(u, "typeof") || !ok {
					why = "the type to implement may be no interface"
				} else if _, isI := it.Underlying().(*types.Interface); !isI {
					why = "the type to implement is no interface"
				}
			}
		}
	}
	g.verdict(s, cc.Instr, "Type."+op, why, nil)
}

// callable: the function is not nil and takes exactly the arguments.
func (g *reflGuard) callable(s *State, v *Term, cc *CallCtx) string {
	in := types.Typ[types.Int]
	if !isLib(v, vPrefix+"MethodByName") && !isLib(v, vPrefix+"Method") && s.F.eval(mkApp(vPrefix+"IsNil", types.Typ[types.Bool], v)) != no {
		return "the function that is called may be nil"
	}
	t := g.typ(v)
	args := s.e.elems(s, cc.Args[1])
	if cc.Args[1].isNil() {
		args = nil
	}
	n := mkApp(tPrefix+"NumIn", in, t)
	if s.F.eval(mkEq(n, mkInt(int64(len(args))))) != yes {
		return "the function is called with " + itoa(len(args)) + " arguments, which may not be the number it takes"
	}
	if len(args) > 0 {
		last := g.kindOfType(mkApp(tPrefix+"In", g.typeT, t, mkInt(int64(len(args)-1))))
		if s.F.eval(mkEq(last, mkInt(int64(reflect.Slice)))) != no && s.F.eval(mkApp(tPrefix+"IsVariadic", types.Typ[types.Bool], t)) != no {
			return "the function that is called may be variadic"
		}
	}
	for i, a := range args {
		want := mkApp(tPrefix+"In", g.typeT, t, mkInt(int64(i)))
		at := g.typ(a)
		if at != want && s.F.eval(mkApp(tPrefix+"AssignableTo", types.Typ[types.Bool], at, want)) != yes {
			return "the function is called with a value of type " + at.String() + " for its parameter " + itoa(i)
		}
		if ok, _ := g.valid(s, a); !ok {
			return "the function is called with a value that may be invalid"
		}
	}
	return ""
}

func itoa(n int) string { return constant.MakeInt64(int64(n)).String() }

// step models reflective operations on symbolic types.
func (g *reflGuard) step(s *State, cc *CallCtx) ([]*Term, bool) {
	if g.inner != nil {
		if r, ok := g.inner(s, cc); ok {
			return r, ok
		}
	}
	one := func(t *Term) ([]*Term, bool) { return []*Term{t}, true }
	switch cc.Name {
	case tPrefix + "NumIn", tPrefix + "NumOut", tPrefix + "NumField", vPrefix + "NumField", vPrefix + "Len":
		t := mkApp(cc.Name, types.Typ[types.Int], cc.Args[0])
		s.F.addDiff(nil, t, 0)
		return one(t)
	case "reflect.Indirect":
		switch s.F.eval(mkEq(g.kind(cc.Args[0]), mkInt(int64(reflect.Ptr)))) {
		case yes:
			return one(mkApp(vPrefix+"Elem", g.rvT, cc.Args[0]))
		case no:
			return one(cc.Args[0])
		}
	case "reflect.New":
		t := mkT(OpApp, "reflect.New", 0, g.rvT, false, nil, s.loopKeys(), cc.Args[0], mkT(OpSym, "new"+cc.Site, 0, nil, false, nil, nil))
		s.e.emit(s, &Event{Kind: "rnew", Instr: cc.Instr, Args: cc.Args, Res: t, Ctx: s.top().ctx})
		return one(t)
	case vPrefix + "Type":
		return one(g.typ(cc.Args[0]))
	case vPrefix + "Kind":
		return one(g.kind(cc.Args[0]))
	case tPrefix + "Kind":
		return one(g.kindOfType(cc.Args[0]))
	case vPrefix + "Call":
		args := s.e.elems(s, cc.Args[1])
		if cc.Args[1].isNil() {
			args = nil
		}
		all := append([]*Term{cc.Args[0]}, args...)
		all = append(all, mkT(OpSym, "call"+cc.Site, 0, nil, false, nil, nil))
		l := mkT(OpApp, "reflect.called", 0, types.NewSlice(g.rvT), false, nil, s.loopKeys(), all...)
		s.e.emit(s, &Event{Kind: "rcall", Instr: cc.Instr, Args: all, Res: l, Ctx: s.top().ctx})
		s.F.assume(mkEq(mkLen(l), mkApp(tPrefix+"NumOut", types.Typ[types.Int], g.typ(cc.Args[0]))), true)
		return one(l)
	}
	return nil, false
}

// onDeref decides assertions and indexing.
func (g *reflGuard) onDeref(s *State, d Deref) {
	if d.Kind == "nilcall" || d.Kind == "nilfunc" || d.Cond == nil {
		return
	}
	if d.Kind == "nil" && (d.Base.Op == OpParam || strings.HasPrefix(d.Base.Aux, "conv:")) {
		return // the receiver exists; C09 decides that a conversion without error gives a value
	}
	why := ""
	if d.Cond != nil && s.F.eval(d.Cond) != yes {
		why = "the operation can panic: " + d.Cond.String() + " is not known"
		if d.Kind == "assert" && g.asserted(s, d) {
			why = ""
		}
	}
	g.verdict(s, d.Instr, d.Kind, why, nil)
}

// asserted: the type of the value is known to implement the interface.
func (g *reflGuard) asserted(s *State, d Deref) bool {
	if d.Cond.Op != OpAssertOk || !isLib(d.Cond.Args[0], vPrefix+"Interface") {
		return false
	}
	v := d.Cond.Args[0].Args[0]
	if isTypeof(g.typ(v), d.Cond.Typ) && !types.IsInterface(d.Cond.Typ) {
		return true
	}
	impl := false
	for t, b := range s.F.bools {
		if b && isLib(t, tPrefix+"Implements") && t.Args[0] == g.typ(v) && isTypeof(t.Args[1], d.Cond.Typ) {
			impl = true
		}
	}
	if !impl {
		return false
	}
	k := g.kind(v)
	return s.F.eval(mkEq(k, mkInt(int64(reflect.Interface)))) == no || s.F.eval(mkApp(vPrefix+"IsNil", types.Typ[types.Bool], v)) == no
}

// usesReflect: the function handles reflect values or types.
func usesReflect(f *ssa.Function) bool {
	isR := func(t types.Type) bool {
		n := namedOf(t)
		return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect"
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok && isR(v.Type()) {
				return true
			}
			if c, ok := ins.(ssa.CallInstruction); ok {
				if sc := c.Common().StaticCallee(); sc != nil && sc.Pkg != nil && sc.Pkg.Pkg.Path() == "reflect" {
					return true
				}
			}
		}
	}
	return false
}

// reflRoots are the functions of a package that use reflection and are not
// called by others of them.
func reflRoots(p *Prog, rel string) []*ssa.Function {
	use := map[*ssa.Function]bool{}
	for _, f := range pkgFuncs(p, rel) {
		if f.Name() != "init" && f.Parent() == nil && usesReflect(f) {
			use[f] = true
		}
	}
	// dead code is left out
	var api []*ssa.Function
	for _, f := range pkgFuncs(p, rel) {
		if token.IsExported(f.Name()) {
			api = append(api, f)
		}
	}
	live := reach(p, api...)
	for f := range use {
		if !live[f] {
			delete(use, f)
		}
	}
	called := map[*ssa.Function]bool{}
	for f := range use {
		for _, g := range staticCallees(p, f) {
			if g != f {
				called[g] = true
			}
		}
	}
	var out []*ssa.Function
	for f := range use {
		if !called[f] {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func (g *reflGuard) client() *Client {
	return &Client{KeepIters: true, SplitLoops: true, PlainMaps: true, Model: g.model, OnDeref: g.onDeref,
		OnEvent: func(s *State, ev *Event) bool { return ev.Kind != "pure" && ev.Kind != "range" && ev.Kind != "append" }}
}

func init() {
	register("C10", func(c *Ctx) {
		c.Rule("C10-convert", "in the conversion of Go values every reflective operation is applied only to values for which it is defined", 20)
		c.Rule("C10-registry", "in the registration of constructors and the creation of processors every reflective operation is applied only to values for which it is defined", 12)
		c.Rule("C10-pipeline", "in the construction of pipelines every reflective operation is applied only to values for which it is defined", 8)
		c.Assume("methods of caller-supplied types (Error, String, Config, constructors) do not panic themselves; a constructor that returns no error returns a processor")
		convertSafe(c)
		registrySafe(c)
		pipelineSafe(c)
	})
}

func convertSafe(c *Ctx) {
	w := newReflWorld(c)
	if w == nil {
		return
	}
	ok := w.resolve(c, func(c *Ctx) {
		g := newReflGuard(c, "C10-convert")
		if g == nil {
			return
		}
		convs := map[*ssa.Function]bool{w.in: true, w.rv: true}
		g.convs, g.inner = convs, w.model(convs)
		rv := rootParams(w.rv)[0]
		g.given[rv] = true
		e := c.Run(w.rv, g.client(), []*Term{rv}, func(s *State) { w.init(s); w.validRv(s, rv) })
		g.finish(e)
		e = c.Run(w.in, g.client(), nil, w.init)
		g.finish(e)
	})
	if !ok {
		return
	}
	// the functions that use the conversion
	g := newReflGuard(c, "C10-convert")
	convs := map[*ssa.Function]bool{w.in: true, w.rv: true}
	g.convs, g.inner = convs, w.model(convs)
	done := reach(c.P, w.in, w.rv)
	for _, rel := range []string{relUtil, "pkg/config"} {
		for _, f := range reflRoots(c.P, rel) {
			if done[f] {
				continue
			}
			e := c.Run(f, g.client(), nil, w.init)
			g.finish(e)
		}
	}
}

func registrySafe(c *Ctx) {
	g := newReflGuard(c, "C10-registry")
	h := newRegistryHarness(c)
	if g == nil || h == nil {
		return
	}
	h.run(g)
}

func pipelineSafe(c *Ctx) {
	g := newReflGuard(c, "C10-pipeline")
	w := newReflWorld(c)
	if g == nil || w == nil {
		return
	}
	roots := reflRoots(c.P, "pkg/pipeline")
	if len(roots) == 0 {
		c.Missing("the use of reflection in pkg/pipeline")
	}
	for _, f := range roots {
		ps := rootParams(f)
		e := c.Run(f, g.client(), ps, func(s *State) {
			for g, of := range w.globals {
				s.mem[s.e.val(s, g)] = typeofTerm(deref(g.Type()), of)
			}
			for _, p := range ps {
				if p.Typ != nil && types.IsInterface(p.Typ) {
					s.F.assume(mkEq(p, mkNil()), false)
				}
			}
		})
		g.finish(e)
	}
}

// ---- the registry ----

type registryHarness struct {
	c        *Ctx
	reg      *types.Named
	register *ssa.Function
	create   *ssa.Function
	w        *reflWorld
	procs    int // the field that maps names to constructors
}

func newRegistryHarness(c *Ctx) *registryHarness {
	h := &registryHarness{c: c, procs: -1}
	h.w = newReflWorld(c)
	h.reg = lookupNamed(c.P, "pkg/processor/registry", "Registry")
	if h.reg == nil || h.w == nil {
		c.Missing("registry.Registry")
		return nil
	}
	h.register = c.P.Func("pkg/processor/registry", "*Registry.Register")
	h.create = c.P.Func("pkg/processor/registry", "*Registry.NewProcessor")
	if h.register == nil || h.create == nil {
		c.Missing("Registry.Register and Registry.NewProcessor")
		return nil
	}
	st := structOf(h.reg)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if m := mapTypeOf(st.Field(i).Type()); m != nil {
			h.procs = i
		}
	}
	if h.procs < 0 {
		c.Missing("the map of constructors in registry.Registry")
		return nil
	}
	return h
}

type registryPath struct {
	reg *Path // Register
	new *Path // NewProcessor, after it
}

// run analyses Register and, for every constructor that it accepts, the
// creation of a processor under the same name.
func (h *registryHarness) run(g *reflGuard) (e *Engine, paths []*registryPath) {
	c := h.c
	cl := g.client()
	cl.PlainMaps = false
	var accepted []*Path
	phase := 0
	var cur *Path
	cl.OnReturn = func(s *State, rets []*Term) {
		p := &Path{St: s.clone(), Rets: rets, Events: s.Events()}
		if phase == 0 {
			paths = append(paths, &registryPath{reg: p})
			if s.F.eval(mkEq(rets[0], mkNil())) != no {
				accepted = append(accepted, p)
			}
			return
		}
		paths = append(paths, &registryPath{reg: cur, new: p})
	}
	ps := rootParams(h.register)
	e = NewEngine(c.P, cl)
	e.Run(h.register, ps, func(s *State) {
		for g, of := range h.w.globals {
			s.mem[s.e.val(s, g)] = typeofTerm(deref(g.Type()), of)
		}
		s.F.assume(mkEq(loadField(s, ps[0], h.procs), mkNil()), false)
	})
	cps := rootParams(h.create)
	cps[0], cps[1] = ps[0], ps[1]
	phase = 1
	for i, a := range accepted {
		cur = a
		st := a.St.clone()
		st.tr = nil
		e.RunAfter(st, h.create, cps, "later"+itoa(i))
	}
	c.account(h.register, e)
	g.finish(e)
	return e, paths
}

// ---- C20: what is registered and built ----

func init() {
	register("C20", func(c *Ctx) {
		c.Rule("C20-accept", "Register stores the constructor under its name exactly if the name is new and the constructor is a function from a config struct to a pointer to a processor and an error; otherwise it returns an error and changes nothing", 9)
		c.Rule("C20-create", "NewProcessor calls the constructor registered under the name with a new config into which the options were unpacked, and returns its processor or the first error", 4)
		c.Rule("C20-unknown", "NewProcessor returns an error and no processor for a name that is not registered", 1)
		c.Rule("C20-global", "the functions of the package act on one registry", 3)
		h := newRegistryHarness(c)
		if h == nil {
			return
		}
		h.outcomes()
		h.globalRegistry()
	})
}

// quietGuard is a guard that reports nothing (the operations are C10's).
func (h *registryHarness) quietGuard() *reflGuard {
	c := newCtx(h.c.ID, h.c.Tier)
	c.P = h.c.P
	return newReflGuard(c, "quiet")
}

func (h *registryHarness) outcomes() {
	c := h.c
	g := h.quietGuard()
	e, paths := h.run(g)
	ps := rootParams(h.register)
	f := mkApp("reflect.ValueOf", g.rvT, ps[2])
	t := g.typ(f)
	in := types.Typ[types.Int]
	cfgT := mkApp(tPrefix+"In", g.typeT, t, mkInt(0))
	out := func(i int64) *Term { return mkApp(tPrefix+"Out", g.typeT, t, mkInt(i)) }
	procT := lookupNamed(c.P, "pkg/processor", "Processor")
	if procT == nil {
		c.Missing("processor.Processor")
		return
	}
	impl := func(t *Term, it types.Type) *Term {
		return mkApp(tPrefix+"Implements", types.Typ[types.Bool], t, typeofTerm(g.typeT, it))
	}
	errT := types.Universe.Lookup("error").Type()
	kindIs := func(t *Term, k reflect.Kind) *Term { return mkEq(g.kindOfType(t), mkInt(int64(k))) }
	pos := c.P.Pos(h.register.Pos())
	for _, rp := range paths {
		if rp.new != nil {
			continue
		}
		p := rp.reg
		F := p.St.F
		procs := h.procsOf(p.St, ps[0])
		dup := mkT(OpLookupOk, "", 0, types.Typ[types.Bool], false, nil, nil, procs, ps[1], mkVer("0", nil))
		for _, x := range factTerms(F, func(x *Term) bool { return x.Op == OpLookupOk && x.Args[0] == procs && x.Args[1] == ps[1] }) {
			dup = x
		}
		conds := []struct {
			name string
			v    tri
		}{
			{"a name that is not registered yet", notTri(F.eval(dup))},
			{"a function", F.eval(kindIs(t, reflect.Func))},
			{"a function that is not nil", notTri(F.eval(mkApp(vPrefix+"IsNil", types.Typ[types.Bool], f)))},
			{"one parameter", F.eval(mkEq(mkApp(tPrefix+"NumIn", in, t), mkInt(1)))},
			{"a struct as parameter", F.eval(kindIs(cfgT, reflect.Struct))},
			{"two results", F.eval(mkEq(mkApp(tPrefix+"NumOut", in, t), mkInt(2)))},
			{"a pointer as first result", F.eval(kindIs(out(0), reflect.Ptr))},
			{"a processor as first result", F.eval(impl(out(0), procT))},
			{"an error as second result", F.eval(impl(out(1), errT))},
		}
		nilable := kindIn(F, g.kindOfType(out(1)), []reflect.Kind{reflect.Ptr, reflect.Interface})
		notNilable := F.eval(kindIs(out(1), reflect.Ptr)) == no && F.eval(kindIs(out(1), reflect.Interface)) == no
		var sets []*Event
		changed := false
		for _, ev := range p.Events {
			switch ev.Kind {
			case "mapset":
				if ev.Args[0] == procs {
					sets = append(sets, ev)
				}
			case "mapdel", "mapclear":
				changed = changed || ev.Args[0] == procs
			case "store":
				if ev.Addr != nil && rootOf(ev.Addr) == ps[0] {
					changed = true
				}
			}
		}
		err := F.eval(mkEq(p.Rets[0], mkNil()))
		for _, cd := range conds {
			construct := "Register: " + cd.name
			why := ""
			if err != no && cd.v != yes {
				why = "a constructor is accepted without " + cd.name
			}
			c.Check(why == "", "C20-accept", construct, pos, why, F.describe()...)
		}
		why := ""
		switch {
		case changed:
			why = "the registry is changed other than by storing the new constructor"
		case err == no && len(sets) > 0:
			why = "a constructor is stored although an error is returned"
		case err == no:
			bad := notNilable
			for _, cd := range conds {
				bad = bad || cd.v == no
			}
			if !bad {
				why = "a well-formed constructor is rejected"
			}
		case len(sets) != 1:
			why = "no error is returned but " + itoa(len(sets)) + " constructors are stored"
		case sets[0].Args[1] != ps[1]:
			why = "the constructor is stored under " + sets[0].Args[1].String() + " instead of its name"
		case !nilable:
			why = "a constructor is accepted whose second result cannot be nil"
		}
		c.Check(why == "", "C20-accept", "Register: outcome", pos, why, F.describe()...)
	}
	// creation
	cpos := c.P.Pos(h.create.Pos())
	cps := rootParams(h.create)
	n := 0
	for _, rp := range paths {
		if rp.new == nil {
			continue
		}
		n++
		what, why := h.created(g, e, rp.new, f, cfgT, cps[2])
		c.Check(why == "", "C20-create", "NewProcessor: "+what, cpos, why, rp.new.St.F.describe()...)
	}
	if n == 0 {
		c.Bad("C20-create", "NewProcessor", cpos, "no registered constructor reaches NewProcessor")
	}
	c.account(h.register, e)
	// unknown names
	cl := g.client()
	_, ups := collect(c, h.create, cl, cps, func(s *State) {
		for g, of := range h.w.globals {
			s.mem[s.e.val(s, g)] = typeofTerm(deref(g.Type()), of)
		}
	})
	seen := false
	for _, p := range ups {
		procs := h.procsOf(p.St, cps[0])
		unknownName := false
		for _, x := range factTerms(p.St.F, func(x *Term) bool { return x.Op == OpLookupOk && x.Args[0] == procs }) {
			if p.St.F.eval(x) == no {
				unknownName = true
				if x.Args[1] != cps[1] {
					c.Bad("C20-unknown", "NewProcessor", cpos, "the constructor is looked up under "+x.Args[1].String()+" instead of the name")
				}
			}
		}
		if !unknownName {
			continue
		}
		seen = true
		why := ""
		if p.St.F.eval(mkEq(p.Rets[1], mkNil())) != no {
			why = "an unknown processor type gives no error"
		} else if p.St.F.eval(mkEq(p.Rets[0], mkNil())) != yes {
			why = "an unknown processor type gives a processor"
		}
		c.Check(why == "", "C20-unknown", "NewProcessor", cpos, why, p.St.F.describe()...)
	}
	if !seen {
		c.Bad("C20-unknown", "NewProcessor", cpos, "a name that is not registered is not treated separately")
	}
}

func notTri(t tri) tri {
	switch t {
	case yes:
		return no
	case no:
		return yes
	}
	return unknown
}

// procsOf is the map of constructors when the function started.
func (h *registryHarness) procsOf(s *State, r *Term) *Term {
	return loadField(h.w.state0(s), r, h.procs)
}

// created decides one path of NewProcessor for a registered constructor.
func (h *registryHarness) created(g *reflGuard, e *Engine, p *Path, f, cfgT, config *Term) (what, why string) {
	F := p.St.F
	err := F.eval(mkEq(p.Rets[1], mkNil()))
	// the steps taken, in order
	var cfg, conf, called *Term
	var newErr, unpackErr *Term
	for _, ev := range p.Events {
		switch {
		case ev.Kind == "rnew":
			if len(ev.Args) > 0 && ev.Args[0] == cfgT && cfg == nil {
				cfg = ev.Res
			}
		case ev.Kind == "call" && evName(ev) == "github.com/elastic/go-ucfg.NewFrom":
			x := ev.Args[0]
			if x.Op == OpIface {
				x = x.Args[0]
			}
			if x != config {
				return "options", "the options are taken from " + x.String()
			}
			conf, newErr = resOf(ev, 0), resOf(ev, 1)
		case ev.Kind == "call" && evName(ev) == "(*github.com/elastic/go-ucfg.Config).Unpack":
			if conf == nil || ev.Args[0] != conf {
				return "options", "something other than the options is unpacked"
			}
			x := ev.Args[1]
			if !isLib(x, vPrefix+"Interface") || cfg == nil || x.Args[0] != cfg {
				return "options", "the options are unpacked into " + x.String() + " instead of a new config"
			}
			unpackErr = resOf(ev, 0)
		case ev.Kind == "rcall":
			if ev.Args[0] != f {
				return "constructor", ev.Args[0].String() + " is called instead of the registered constructor"
			}
			if called != nil {
				return "constructor", "the constructor is called twice"
			}
			if unpackErr == nil || F.eval(mkEq(unpackErr, mkNil())) != yes {
				return "constructor", "the constructor is called without the options having been unpacked"
			}
			a := ev.Args[1]
			if len(ev.Args) != 3 || !isLib(a, vPrefix+"Elem") || a.Args[0] != cfg {
				return "constructor", "the constructor is called with " + a.String() + " instead of the new config"
			}
			called = ev.Res
		case ev.Kind == "mapset" || ev.Kind == "mapdel" || ev.Kind == "store" && ev.Addr != nil && !p.St.isFreshUnescaped(rootOf(ev.Addr)) && rootOf(ev.Addr).Op != OpAlloc:
			return "registry", "the registry is changed"
		}
	}
	nilProc := F.eval(mkEq(p.Rets[0], mkNil())) == yes
	switch {
	case newErr != nil && F.eval(mkEq(newErr, mkNil())) == no:
		if err != no || !wraps(F, p.Rets[1], newErr) || !nilProc {
			return "invalid options", "the error for invalid options is not returned"
		}
		return "invalid options", ""
	case unpackErr != nil && F.eval(mkEq(unpackErr, mkNil())) == no:
		if err != no || !wraps(F, p.Rets[1], unpackErr) || !nilProc {
			return "options that do not fit", "the error for options that do not fit the config is not returned"
		}
		return "options that do not fit", ""
	case called == nil:
		return "constructor", "the constructor is not called"
	}
	elem := func(i int64) *Term {
		for _, t := range factTerms(F, func(t *Term) bool {
			l, idx, ok := elemOf(t)
			return ok && l == called && idx.IsInt && idx.N == i
		}) {
			return t
		}
		return nil
	}
	res := elem(1)
	if res == nil {
		return "constructor", "the error of the constructor is not looked at"
	}
	isElem := func(t *Term, i int64) bool {
		for t.Op == OpAssert || t.Op == OpIface {
			t = t.Args[0]
		}
		if !isLib(t, vPrefix+"Interface") {
			return false
		}
		l, idx, ok := elemOf(t.Args[0])
		return ok && l == called && idx.IsInt && idx.N == i
	}
	switch F.eval(mkApp(vPrefix+"IsNil", types.Typ[types.Bool], res)) {
	case yes:
		if !isElem(p.Rets[0], 0) || err != yes {
			return "success", "the processor of the constructor is not returned: " + p.Rets[0].String() + ", " + p.Rets[1].String()
		}
		return "success", ""
	case no:
		good := isElem(p.Rets[1], 1)
		if isLib(p.Rets[1], "fmt.Errorf") {
			for _, a := range p.Rets[1].Args[1:] {
				good = good || isElem(a, 1)
			}
		}
		if !good || !nilProc {
			return "constructor error", "the error of the constructor is not returned"
		}
		return "constructor error", ""
	}
	return "constructor", "the error of the constructor is not looked at"
}

func evName(ev *Event) string {
	if ev.Method != nil {
		return ev.Method.FullName()
	}
	if ev.Fn != nil {
		return ev.Fn.String()
	}
	return ""
}

// resOf is result i of a call.
func resOf(ev *Event, i int) *Term {
	if ev.Res == nil {
		return nil
	}
	if ev.Res.Op == OpTuple {
		if i < len(ev.Res.Args) {
			return ev.Res.Args[i]
		}
		return nil
	}
	if i == 0 {
		return ev.Res
	}
	return nil
}

// globalRegistry: NewRegistry gives an empty registry; the functions of the
// package pass their arguments to one and the same registry.
func (h *registryHarness) globalRegistry() {
	c := h.c
	const rel = "pkg/processor/registry"
	nr, mr, np := c.P.Func(rel, "NewRegistry"), c.P.Func(rel, "MustRegister"), c.P.Func(rel, "NewProcessor")
	if nr == nil || mr == nil || np == nil {
		c.Missing("registry.NewRegistry, MustRegister and NewProcessor")
		return
	}
	_, paths := collect(c, nr, &Client{}, nil, nil)
	for _, p := range paths {
		why := ""
		r := p.Rets[0]
		if r.Op != OpAlloc {
			why = "the registry is " + r.String() + " instead of a new one"
		} else if m := loadField(p.St, r, h.procs); p.St.F.isNilTri(m) != no || m.Op != OpAlloc || p.St.mapLen(m) != mkInt(0) {
			why = "the new registry has no empty map of constructors"
		}
		c.Check(why == "", "C20-global", "NewRegistry", c.P.Pos(nr.Pos()), why)
	}
	regs := map[string]bool{}
	deleg := func(fn, target *ssa.Function, isMust bool) {
		var bad string
		n := 0
		cl := &Client{Opaque: func(s *State, f *ssa.Function, args []*Term) bool { return f == h.register || f == h.create },
			OnEvent: func(s *State, ev *Event) bool { return ev.Kind == "call" }}
		pan := 0
		cl.OnPanic = func(s *State, p *ssa.Panic, v *Term) {
			pan++
			if r := h.delegated(s.Events(), target); r == nil || s.F.eval(mkEq(resOf(r, 0), mkNil())) != no {
				bad = "it panics although the registration may have succeeded"
			}
		}
		ps := rootParams(fn)
		_, paths := collect(c, fn, cl, ps, nil)
		for _, p := range paths {
			n++
			r := h.delegated(p.Events, target)
			if r == nil {
				bad = "the registry is not used exactly once"
				continue
			}
			regs[r.Args[0].String()] = true
			for i := range ps {
				if i+1 >= len(r.Args) || r.Args[i+1] != ps[i] {
					bad = "the arguments are not passed on"
				}
			}
			if isMust {
				if p.St.F.eval(mkEq(resOf(r, 0), mkNil())) != yes {
					bad = "a failed registration is ignored"
				}
				continue
			}
			for i, t := range p.Rets {
				x := resOf(r, i)
				if t != x && !(i == 0 && p.St.F.eval(mkEq(resOf(r, 1), mkNil())) == no) && !(i == 1 && wraps(p.St.F, t, x)) && !(x.isNil() && p.St.F.isNilTri(t) == yes) && !(p.St.F.isNilTri(x) == yes && p.St.F.isNilTri(t) == yes) {
					bad = "result " + itoa(i) + " is " + t.String()
				}
			}
		}
		if n == 0 {
			bad = "it never returns"
		}
		c.Check(bad == "", "C20-global", fn.Name(), c.P.Pos(fn.Pos()), bad)
	}
	deleg(mr, h.register, true)
	deleg(np, h.create, false)
	c.Check(len(regs) == 1, "C20-global", "one registry", c.P.Pos(mr.Pos()), "the functions of the package use different registries")
}

func (h *registryHarness) delegated(evs []*Event, target *ssa.Function) *Event {
	var r *Event
	for _, ev := range evs {
		if ev.Kind == "call" && ev.Fn == target {
			if r != nil {
				return nil
			}
			r = ev
		}
	}
	return r
}
