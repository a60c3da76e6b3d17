package main

import (
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// reflWorld describes the conversion of Go values to event values.
type reflWorld struct {
	*valueWorld
	errT, timeT, strT, stringerT types.Type
	rvT                          types.Type // reflect.Value
	unsupported                  *types.Named
	globals                      map[*ssa.Global]types.Type // reflect.Type variables
	member                       map[*ssa.Function]bool     // list membership tests
	convLoops                    map[*LoopRec]bool          // loops whose failed conversions end them
	okOf                         map[string]*Term
	in                           *ssa.Function // interface{} -> value
	rv                           *ssa.Function // reflect.Value -> value
	entries                      map[entryKey]string
}

type entryKey struct {
	st *State
	ev *Event
}

var kindNames = []string{"Invalid", "Bool", "Int", "Int8", "Int16", "Int32", "Int64", "Uint", "Uint8", "Uint16", "Uint32", "Uint64", "Uintptr", "Float32", "Float64", "Complex64", "Complex128", "Array", "Chan", "Func", "Interface", "Map", "Pointer", "Slice", "String", "Struct", "UnsafePointer"}

func newReflWorld(c *Ctx) *reflWorld {
	vw := newValueWorld(c)
	if vw == nil {
		return nil
	}
	w := &reflWorld{valueWorld: vw, globals: map[*ssa.Global]types.Type{}, member: map[*ssa.Function]bool{}, convLoops: map[*LoopRec]bool{}, okOf: map[string]*Term{}, entries: map[entryKey]string{}}
	w.errT = types.Universe.Lookup("error").Type()
	w.strT = types.Typ[types.String]
	look := func(pkg, name string) types.Type {
		p := c.P.Prog.ImportedPackage(pkg)
		if p == nil || p.Type(name) == nil {
			return nil
		}
		return p.Type(name).Type()
	}
	w.timeT, w.rvT = look("time", "Time"), look("reflect", "Value")
	w.unsupported = lookupNamed(c.P, relUtil, "UnsupportedTypeError")
	if w.timeT == nil || w.rvT == nil || w.unsupported == nil {
		c.Missing("time.Time, reflect.Value and eventutil.UnsupportedTypeError")
		return nil
	}
	w.typeGlobals()
	w.memberTests()
	return w
}

// typeGlobals finds package variables that hold a fixed reflect.Type.
func (w *reflWorld) typeGlobals() {
	stores := map[*ssa.Global][]ssa.Value{}
	taken := map[*ssa.Global]bool{}
	for _, f := range w.c.P.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						stores[g] = append(stores[g], st.Val)
						if f.Name() != "init" {
							taken[g] = true
						}
						continue
					}
				}
				if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.MUL {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						taken[g] = true
					}
				}
			}
		}
	}
	for _, pk := range w.c.P.Pkgs {
		sp := w.c.P.Prog.Package(pk.Types)
		if sp == nil {
			continue
		}
		f := sp.Func("init")
		if f == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok && len(stores[g]) == 0 {
						stores[g] = append(stores[g], st.Val)
					}
				}
			}
		}
	}
	for g, vs := range stores {
		if taken[g] || len(vs) != 1 {
			continue
		}
		if t := reflTypeOf(vs[0]); t != nil {
			w.globals[g] = t
		}
	}
}

// reflTypeOf evaluates reflect.TypeOf(x) and its Elem.
func reflTypeOf(v ssa.Value) types.Type {
	call, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if call.Call.IsInvoke() {
		if call.Call.Method.Name() == "Elem" {
			if t := reflTypeOf(call.Call.Value); t != nil {
				return elemType2(t)
			}
		}
		return nil
	}
	if f := call.Call.StaticCallee(); f != nil && f.String() == "reflect.TypeOf" {
		if mi, ok := call.Call.Args[0].(*ssa.MakeInterface); ok {
			return mi.X.Type()
		}
	}
	return nil
}

func typeofTerm(t, of types.Type) *Term {
	return mkT(OpApp, "typeof", 0, t, false, of, nil, mkT(OpSym, "type:"+typeStr(of), 0, nil, false, of, nil))
}

func isTypeof(t *Term, of types.Type) bool {
	return t.Op == OpApp && t.Aux == "typeof" && t.Args[0].Op == OpSym && t.Args[0].Aux == "type:"+typeStr(of)
}

func (w *reflWorld) init(s *State) {
	for g, of := range w.globals {
		s.mem[s.e.val(s, g)] = typeofTerm(deref(g.Type()), of)
	}
	pk := w.c.P.Pkg(relEvent)
	if g, ok := pk.Members["NullValue"].(*ssa.Global); ok {
		v := s.load(s.e.val(s, g), types.NewPointer(w.value))
		s.F.assume(mkEq(v, mkNil()), false)
		s.F.assume(mkEq(w.vfield(s, v, "Type"), w.tags["NullType"]), true)
	}
}

// memberTests finds the functions that decide whether a list has a string.
func (w *reflWorld) memberTests() {
	for _, f := range pkgFuncs(w.c.P, relUtil) {
		if len(f.Params) != 2 || f.Signature.Results().Len() != 1 || !types.Identical(f.Signature.Results().At(0).Type(), types.Typ[types.Bool]) || !types.Identical(f.Params[1].Type(), w.strT) {
			continue
		}
		sl, ok := f.Params[0].Type().Underlying().(*types.Slice)
		if !ok || !types.Identical(sl.Elem(), w.strT) {
			continue
		}
		ps := rootParams(f)
		good := true
		d := w.c.attempt(func(c *Ctx) {
			cl := &Client{KeepIters: true, SplitLoops: true}
			e, paths := collect(c, f, cl, ps, nil)
			seen := map[string]bool{}
			for _, p := range paths {
				r := p.Rets[0]
				if r.Op == OpLoopVar {
					good = good && w.foundFlag(e, p, r, ps)
					seen["t"], seen["f"] = true, true
					continue
				}
				switch {
				case r.isTrue():
					seen["t"] = true
					hit := false
					for t, v := range p.St.F.bools {
						if v && t.Op == OpEq && w.isElemEq(t, ps) {
							hit = true
						}
					}
					good = good && hit
				case r.isFalse():
					seen["f"] = true
					good = good && (p.St.F.eval(mkLt(mkInt(0), mkLen(ps[0]))) == no || w.allDiffer(e, p, ps))
				default:
					good = false
				}
			}
			good = good && seen["t"] && seen["f"] && e.Err == nil
		})
		if good {
			w.member[f] = true
			w.c.merge(d)
		}
	}
}

func (w *reflWorld) isElemEq(t *Term, ps []*Term) bool {
	for i := 0; i < 2; i++ {
		if l, _, ok := elemOf(t.Args[i]); ok && l == ps[0] && t.Args[1-i] == ps[1] {
			return true
		}
	}
	return false
}

// foundFlag: the loop variable lv is true exactly when an element of the list
// is equal to the string.
func (w *reflWorld) foundFlag(e *Engine, p *Path, lv *Term, ps []*Term) bool {
	key, _ := lv.Ref.(string)
	rec := e.Loops[key]
	if rec == nil || rec.Vars[lv] == nil {
		return false
	}
	for i := range rec.Vars[lv].Inits {
		if !i.isFalse() {
			return false
		}
	}
	first, later := map[*Term]bool{}, map[*Term]bool{}
	for _, it := range rec.Iters {
		end := it.End[lv]
		if end == nil {
			return false
		}
		wasFalse := it.First || it.St.F.eval(lv) == no
		var idx *Term
		see := func(t *Term) bool {
			if t.Op != OpEq || !w.isElemEq(t, ps) {
				return false
			}
			l, i, ok := elemOf(t.Args[0])
			if !ok || l != ps[0] {
				_, i, _ = elemOf(t.Args[1])
			}
			idx = i
			return true
		}
		eq, ne := false, false
		for t, v := range it.St.F.bools {
			if see(t) {
				eq, ne = eq || v, ne || !v
			}
		}
		switch {
		case see(end) && wasFalse:
		case end.isTrue() && eq:
		case (end == lv || end.isFalse() && wasFalse) && ne && !eq:
		default:
			return false
		}
		if it.First {
			first[idx] = true
		} else {
			later[idx] = true
		}
	}
	st := p.St.clone()
	if !st.F.assume(lv, false) {
		return true
	}
	return len(first) > 0 && covers(e, st, sliceSrc(ps[0]), key, first, later) == ""
}

// allDiffer: the loop went over the whole list and no element was equal.
func (w *reflWorld) allDiffer(e *Engine, p *Path, ps []*Term) bool {
	for _, ev := range p.Events {
		if ev.Kind != "loop" {
			continue
		}
		rec := e.Loops[ev.Loop]
		first, later := map[*Term]bool{}, map[*Term]bool{}
		all := true
		for _, it := range rec.Iters {
			n := 0
			for t, v := range it.St.F.bools {
				if t.Op == OpEq && !v && w.isElemEq(t, ps) {
					l, r := t.Args[0], t.Args[1]
					_, idx, ok := elemOf(l)
					if !ok {
						_, idx, _ = elemOf(r)
					}
					if it.First {
						first[idx] = true
					} else if b, _ := linParts(idx); b != nil {
						later[idx] = true
					} else {
						continue
					}
					n++
				}
			}
			all = all && n > 0
		}
		if all && len(first) > 0 && covers(e, p.St, sliceSrc(ps[0]), ev.Loop, first, later) == "" {
			return true
		}
	}
	return false
}

// ---- reflect terms ----

func (w *reflWorld) app(name string, t types.Type, args ...*Term) *Term {
	return libApp(name, t, args)
}

func isLib(t *Term, name string) bool { return t.Op == OpApp && t.Aux == name }

// rmap is the content of the map held by rv.
func (w *reflWorld) rmap(rv *Term) *Term {
	return mkApp("reflect.members", types.NewMap(w.rvT, w.rvT), rv)
}

func (w *reflWorld) model(conv map[*ssa.Function]bool) func(s *State, cc *CallCtx) ([]*Term, bool) {
	cm := convModel(conv)
	return func(s *State, cc *CallCtx) ([]*Term, bool) {
		if r, ok := cm(s, cc); ok {
			return r, ok
		}
		if cc.Fn != nil && w.member[cc.Fn] {
			return []*Term{mkApp("has", types.Typ[types.Bool], cc.Args...)}, true
		}
		switch cc.Name {
		case "(reflect.Value).MapRange":
			s.e.emit(s, &Event{Kind: "pure", Instr: cc.Instr, Fn: cc.Fn, Method: cc.Method, Args: cc.Args, Ctx: s.top().ctx})
			return []*Term{mkApp("reflect.iter", cc.Sig.Results().At(0).Type(), cc.Args[0])}, true
		case "(*reflect.MapIter).Next":
			it := cc.Args[0]
			if !isLib(it, "reflect.iter") {
				return nil, false
			}
			rm := w.rmap(it.Args[0])
			r := mkT(OpRange, "reflect", 0, nil, false, nil, nil, rm, mkVer("0", nil))
			okT := mkT(OpNextOk, cc.Site, 0, types.Typ[types.Bool], false, cc.Instr, s.loopKeys(), r)
			k, v := memberTerms(okT)
			s.F = s.F.filter(func(t *Term) bool { return !contains(t, okT) && !contains(t, k) && !contains(t, v) })
			key := "riter:" + it.String()
			s.Mon[key] = okT.String() + strings.Join(okT.loops, ",")
			w.okOf[s.Mon[key]] = okT
			return []*Term{okT}, true
		case "(*reflect.MapIter).Key", "(*reflect.MapIter).Value":
			if !isLib(cc.Args[0], "reflect.iter") {
				return nil, false
			}
			okT := w.okOf[s.Mon["riter:"+cc.Args[0].String()]]
			if okT == nil {
				return nil, false
			}
			k, v := memberTerms(okT)
			if strings.HasSuffix(cc.Name, "Key") {
				return []*Term{k}, true
			}
			return []*Term{v}, true
		case "(reflect.Type).ConvertibleTo":
			if isLib(cc.Args[0], "(reflect.Value).Type") {
				return []*Term{mkApp("(reflect.Value).CanConvert", types.Typ[types.Bool], cc.Args[0].Args[0], cc.Args[1])}, true
			}
		case "(reflect.StructField).IsExported":
			f := cc.Args[0]
			return []*Term{mkEq(w.sfield(s, f, "PkgPath"), mkStr(""))}, true
		}
		return nil, false
	}
}

// sfield is a field of a reflect.StructField value.
func (w *reflWorld) sfield(s *State, f *Term, name string) *Term {
	i := fieldIndexByName(f.Typ, name)
	if i < 0 {
		return f
	}
	return mkField(f, i, structOf(f.Typ).Field(i).Type())
}

// isConvOf: t is result i of the conversion of the reflect value pred holds for.
func (w *reflWorld) convOf(t *Term, i int) *Term {
	n := "#" + string(rune('0'+i))
	if t.Op != OpApp || len(t.Args) != 1 {
		return nil
	}
	a := t.Args[0]
	switch t.Aux {
	case "conv:" + w.rv.String() + n:
		if isLib(a, "reflect.ValueOf") && a.Args[0].Op == OpIface {
			return a
		}
		return a
	case "conv:" + w.in.String() + n:
		if isLib(a, "(reflect.Value).Interface") {
			return a.Args[0]
		}
		return mkApp("reflect.ValueOf", w.rvT, a)
	}
	return nil
}

func (w *reflWorld) convErr(t *Term) *Term {
	return mkT(t.Op, strings.TrimSuffix(t.Aux, "#0")+"#1", t.N, w.errT, false, t.Ref, nil, t.Args...)
}

// failed decides the paths that return an error: it must wrap the error of a
// conversion that failed.
func (w *reflWorld) failed(p *Path) string {
	err := p.Rets[1]
	for _, ev := range p.Events {
		if ev.Kind != "conv" {
			continue
		}
		ce := convApp(ev.Fn, 1, ev.Args)
		if wraps(p.St.F, err, ce) {
			if p.St.F.eval(mkEq(ce, mkNil())) != no {
				return "the error of a conversion is returned although it may be nil"
			}
			return ""
		}
	}
	return "the error " + err.String() + " is returned"
}

// twice: the conversion fails as two members have the same name.
func (w *reflWorld) twice(p *Path, rv *Term) bool {
	s := p.St
	x := w.unsupportedErr(p)
	if x == nil {
		return false
	}
	i := fieldIndexByName(w.unsupported, "Type")
	if i < 0 || x.Args[0].Op != OpAlloc || loadField(s, x.Args[0], i) != w.rtype(rv) {
		return false
	}
	for t, v := range s.F.bools {
		if v && t.Op == OpLookupOk && t.Args[0].Op == OpAlloc && s.isFreshUnescaped(t.Args[0]) {
			return true
		}
	}
	return false
}

// unsupportedErr is the unsupported-type error that is returned, by itself or
// wrapped.
func (w *reflWorld) unsupportedErr(p *Path) *Term {
	x := p.Rets[1]
	for x.Op == OpIface && x.Args[0].Op == OpIface {
		x = x.Args[0]
	}
	if isLib(x, "fmt.Errorf") {
		for _, a := range x.Args[1:] {
			for a.Op == OpIface && a.Args[0].Op == OpIface {
				a = a.Args[0]
			}
			if a.Op == OpIface && ptrTo(a.Typ, w.unsupported) && wraps(p.St.F, p.Rets[1], a) {
				x = a
			}
		}
	}
	if x.Op != OpIface || !ptrTo(x.Typ, w.unsupported) {
		return nil
	}
	return x
}

// converted: every conversion made on the path succeeded.
func (w *reflWorld) converted(e *Engine, p *Path) string {
	check := func(f *Facts, evs []*Event) bool {
		for _, ev := range evs {
			if ev.Kind == "conv" && f.eval(mkEq(convApp(ev.Fn, 1, ev.Args), mkNil())) != yes {
				return false
			}
		}
		return true
	}
	for _, ev := range p.Events {
		if ev.Kind == "loop" {
			rec := e.Loops[ev.Loop]
			good, known := w.convLoops[rec]
			if !known {
				good = true
				for _, it := range rec.Iters {
					good = good && check(it.St.F, it.Events)
				}
				w.convLoops[rec] = good
			}
			if !good {
				return "a failed conversion of an element is ignored"
			}
		}
	}
	if !check(p.St.F, p.Events) {
		return "a failed conversion is ignored"
	}
	return ""
}

// delegates: both results are those of a conversion of the value.
func (w *reflWorld) delegates(p *Path, is func(rv *Term) bool) string {
	a := w.convOf(p.Rets[0], 0)
	if a == nil || !is(a) {
		// an error path
		if p.St.F.eval(mkEq(p.Rets[1], mkNil())) == no {
			return w.failed(p)
		}
		return "the result is " + p.Rets[0].String()
	}
	ce := w.convErr(p.Rets[0])
	if p.Rets[1] == ce {
		return ""
	}
	switch p.St.F.eval(mkEq(p.Rets[1], mkNil())) {
	case yes:
		if p.St.F.eval(mkEq(ce, mkNil())) != yes {
			return "the error of the conversion is dropped"
		}
		return ""
	case no:
		if !wraps(p.St.F, p.Rets[1], ce) {
			return "the error of the conversion is replaced"
		}
		return ""
	}
	return "the error " + p.Rets[1].String() + " is returned"
}

// newVal: the result is a value of the type with the payload.
func (w *reflWorld) newVal(p *Path, tag string, ok func(got *Term) bool) string {
	s, g := p.St, p.Rets[0]
	if s.F.eval(mkEq(p.Rets[1], mkNil())) != yes {
		return "the error " + p.Rets[1].String() + " is returned"
	}
	return w.isVal(s, g, tag, ok)
}

func (w *reflWorld) isVal(s *State, g *Term, tag string, ok func(got *Term) bool) string {
	if g.Op != OpAlloc {
		return "the result is " + g.String() + " instead of a new value"
	}
	if t := w.vfield(s, g, "Type"); s.F.eval(mkEq(t, w.tags[tag])) != yes {
		return "the result has type " + t.String() + " instead of " + tag
	}
	got := w.vfield(s, g, payloadOf[tag])
	if why := w.onlyPayload(s, g, tag); why != "" {
		return why
	}
	if tag == "TimestampType" {
		got = mkField(got, 0, types.Typ[types.Int64])
	}
	if !ok(got) {
		return "the content of the " + tag + " is " + got.String()
	}
	return ""
}

func (w *reflWorld) isNull(p *Path) string {
	if p.St.F.eval(mkEq(p.Rets[1], mkNil())) != yes {
		return "the error " + p.Rets[1].String() + " is returned"
	}
	if !w.isNullValue(p.St, p.Rets[0]) {
		return "the result is " + p.Rets[0].String() + " instead of null"
	}
	return ""
}

// ---- the conversion of interfaces ----

var scalarTag = map[types.BasicKind]string{types.Bool: "BoolType", types.String: "StringType",
	types.Int: "IntegerType", types.Int8: "IntegerType", types.Int16: "IntegerType", types.Int32: "IntegerType", types.Int64: "IntegerType",
	types.Uint: "UnsignedIntegerType", types.Uint8: "UnsignedIntegerType", types.Uint16: "UnsignedIntegerType", types.Uint32: "UnsignedIntegerType", types.Uint64: "UnsignedIntegerType", types.Uintptr: "UnsignedIntegerType",
	types.Float32: "FloatType", types.Float64: "FloatType"}

// assertedTypes lists the types an interface is tested for on the path.
func assertedType(s *State, v *Term) types.Type {
	for t, b := range s.F.bools {
		if b && t.Op == OpAssertOk && t.Args[0] == v && t.Typ != nil {
			return t.Typ
		}
	}
	if d, ok := s.F.dyn[v]; ok {
		return d
	}
	return nil
}

func (w *reflWorld) isUnixNano(t, tm *Term) bool {
	return isLib(t, "(time.Time).UnixNano") && (t.Args[0] == tm)
}

func (w *reflWorld) ifaceCheck(c *Ctx, rule string) {
	fn := w.in
	v := rootParams(fn)[0]
	basics := []types.BasicKind{types.Bool, types.String, types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Uintptr, types.Float32, types.Float64}
	mapT := types.NewMap(w.strT, emptyIface())
	r := runCases(c, rule, fn, &Client{Model: w.model(map[*ssa.Function]bool{w.in: true, w.rv: true})}, []*Term{v}, w.init, func(s *State, ask func(*Term) bool) string {
		if ask(mkEq(v, mkNil())) {
			return "nil"
		}
		for _, k := range basics {
			if ask(mkAssertOk(v, types.Typ[k])) {
				return types.Typ[k].Name()
			}
		}
		if ask(mkAssertOk(v, w.timeT)) {
			return "time.Time"
		}
		if ask(mkAssertOk(v, mapT)) {
			return "map[string]interface{}"
		}
		return "another type"
	})
	byRefl := func(p *Path) bool {
		return w.delegates(p, func(x *Term) bool { return isLib(x, "reflect.ValueOf") && x.Args[0] == v }) == ""
	}
	r.each(func(p *Path, o string) string {
		s := p.St
		if why := quietPath(p); why != "" {
			return why
		}
		if o == "nil" {
			return w.isNull(p)
		}
		if byRefl(p) {
			if a := p.Rets[0]; a.Op == OpApp && a.Aux == "conv:"+w.in.String()+"#0" {
				return "the conversion calls itself with the same value"
			}
			return ""
		}
		var T types.Type
		switch o {
		case "time.Time":
			T = w.timeT
		case "map[string]interface{}":
			T = mapT
		case "another type":
			T = assertedType(s, v)
			if T == nil {
				return "the result is " + p.Rets[0].String()
			}
		default:
			T = types.Universe.Lookup(o).Type()
		}
		return w.typed(r.e, p, T, mkAssert(v, T))
	})
	cases := []string{"nil", "time.Time", "map[string]interface{}", "another type"}
	for _, k := range basics {
		cases = append(cases, types.Typ[k].Name())
	}
	r.cover(cases...)
}

// typed: the result is the conversion of x, a Go value of type T.
func (w *reflWorld) typed(e *Engine, p *Path, T types.Type, x *Term) string {
	s := p.St
	if b, ok := T.Underlying().(*types.Basic); ok && !w.implementsErr(T) {
		tag := scalarTag[b.Kind()]
		if tag == "" {
			return "a value of type " + typeStr(T) + " is converted"
		}
		ft := structOf(w.value).Field(w.vf[payloadOf[tag]]).Type()
		want := mkConv(x, T, ft)
		return w.newVal(p, tag, func(got *Term) bool { return sameVal(s, got, want) || sameVal(s, got, x) })
	}
	if types.Identical(T, w.timeT) {
		return w.newVal(p, "TimestampType", func(got *Term) bool { return w.isUnixNano(got, x) })
	}
	if w.implementsErr(T) {
		return w.newVal(p, "StringType", func(got *Term) bool { return isErrorText(got) })
	}
	elemIs := func(a, el *Term, et types.Type) bool {
		a2 := w.convOf(a, 0)
		if a2 == nil || !isLib(a2, "reflect.ValueOf") {
			return false
		}
		y := a2.Args[0]
		if y.Op == OpIface {
			y = y.Args[0]
		}
		return y == el
	}
	switch u := T.Underlying().(type) {
	case *types.Slice:
		if s.F.eval(mkEq(p.Rets[1], mkNil())) == no {
			return w.failed(p)
		}
		if why := w.converted(e, p); why != "" {
			return why
		}
		why := ""
		if w2 := w.newVal(p, "ArrayType", func(got *Term) bool {
			why = listOf(e, s, got, sliceSrc(x), func(g *Term) (*Term, bool) {
				a := w.convOf(g, 0)
				if a == nil || !isLib(a, "reflect.ValueOf") {
					return nil, false
				}
				y := a.Args[0]
				if y.Op == OpIface {
					y = y.Args[0]
				}
				l, idx, ok := elemOf(y)
				return idx, ok && l == x
			}, nilOrEmpty(s))
			return why == ""
		}); w2 != "" {
			if why != "" {
				return why
			}
			return w2
		}
		return ""
	case *types.Map:
		if !isStringType(u.Key()) {
			return "a map of type " + typeStr(T) + " is converted"
		}
		if s.F.eval(mkEq(p.Rets[1], mkNil())) == no {
			return w.failed(p)
		}
		if why := w.converted(e, p); why != "" {
			return why
		}
		why := ""
		if w2 := w.newVal(p, "ObjectType", func(got *Term) bool {
			why = mapOf(e, s, got, x, func(st *State, k, v, gotK, gotV *Term) string {
				if gotK != k {
					return "a member is stored under " + gotK.String() + " instead of its name"
				}
				if !elemIs(gotV, v, u.Elem()) {
					return "a member is stored as " + gotV.String()
				}
				return ""
			})
			return why == ""
		}); w2 != "" {
			if why != "" {
				return why
			}
			return w2
		}
		return ""
	}
	return "a value of type " + typeStr(T) + " is converted to " + p.Rets[0].String()
}

func (w *reflWorld) implementsErr(t types.Type) bool {
	return types.Implements(t, w.errT.Underlying().(*types.Interface))
}

func isErrorText(t *Term) bool { return isLib(t, "error.Error") }

// ---- the conversion of reflect values ----

func (w *reflWorld) kind(rv *Term) *Term {
	return w.app("(reflect.Value).Kind", w.kindT(), rv)
}

func (w *reflWorld) kindT() types.Type {
	return w.c.P.Prog.ImportedPackage("reflect").Type("Kind").Type()
}

func (w *reflWorld) rtype(rv *Term) *Term {
	return mkApp("(reflect.Value).Type", w.typeT(), rv)
}

func (w *reflWorld) typeT() types.Type {
	return w.c.P.Prog.ImportedPackage("reflect").Type("Type").Type()
}

func (w *reflWorld) isKind(rv *Term, k reflect.Kind) *Term { return mkEq(w.kind(rv), mkInt(int64(k))) }

func (w *reflWorld) implements(rv *Term, t types.Type) *Term {
	return mkApp("(reflect.Type).Implements", types.Typ[types.Bool], w.rtype(rv), typeofTerm(w.typeT(), t))
}

func (w *reflWorld) canConvert(rv *Term, t types.Type) *Term {
	return mkApp("(reflect.Value).CanConvert", types.Typ[types.Bool], rv, typeofTerm(w.typeT(), t))
}

var kindTag = map[reflect.Kind]string{reflect.Bool: "BoolType", reflect.String: "StringType",
	reflect.Int: "IntegerType", reflect.Int8: "IntegerType", reflect.Int16: "IntegerType", reflect.Int32: "IntegerType", reflect.Int64: "IntegerType",
	reflect.Uint: "UnsignedIntegerType", reflect.Uint8: "UnsignedIntegerType", reflect.Uint16: "UnsignedIntegerType", reflect.Uint32: "UnsignedIntegerType", reflect.Uint64: "UnsignedIntegerType", reflect.Uintptr: "UnsignedIntegerType",
	reflect.Float32: "FloatType", reflect.Float64: "FloatType"}

var accessor = map[string]string{"BoolType": "Bool", "StringType": "String", "IntegerType": "Int", "UnsignedIntegerType": "Uint", "FloatType": "Float"}

// validRv assumes that rv holds a value.
func (w *reflWorld) validRv(s *State, rv *Term) {
	k := w.kind(rv)
	s.F.addDiff(nil, k, -1)
	s.F.addDiff(k, nil, int64(len(kindNames)-1))
}

func (w *reflWorld) rvCase(rv *Term, ask func(*Term) bool) string {
	for _, k := range []reflect.Kind{reflect.Ptr, reflect.Interface} {
		if ask(w.isKind(rv, k)) && ask(mkApp("(reflect.Value).IsNil", types.Typ[types.Bool], rv)) {
			return "nil " + kindNames[k]
		}
	}
	if ask(w.implements(rv, w.errT)) {
		return "error"
	}
	for i := 1; i < len(kindNames); i++ {
		if !ask(w.isKind(rv, reflect.Kind(i))) {
			continue
		}
		if reflect.Kind(i) == reflect.Struct && ask(w.canConvert(rv, w.timeT)) {
			return "time"
		}
		return kindNames[i]
	}
	return "invalid kind"
}

func (w *reflWorld) rvCheck(c *Ctx, rule string) {
	fn := w.rv
	rv := rootParams(fn)[0]
	r := runCases(c, rule, fn, &Client{Model: w.model(map[*ssa.Function]bool{w.in: true, w.rv: true})}, []*Term{rv}, func(s *State) {
		w.init(s)
		w.validRv(s, rv)
	}, func(s *State, ask func(*Term) bool) string { return w.rvCase(rv, ask) })
	r.each(func(p *Path, o string) string { return w.rvResult(r.e, p, rv, o) })
	var cases []string
	for i := 1; i < len(kindNames); i++ {
		cases = append(cases, kindNames[i])
	}
	r.cover(append(cases, "nil Pointer", "nil Interface", "error", "time")...)
}

func (w *reflWorld) rvResult(e *Engine, p *Path, rv *Term, o string) string {
	s := p.St
	if why := quietPath(p); why != "" {
		return why
	}
	if o == "invalid kind" {
		return ""
	}
	iface := mkApp("(reflect.Value).Interface", emptyIface(), rv)
	if strings.HasPrefix(o, "nil ") {
		return w.isNull(p)
	}
	if o == "error" {
		return w.newVal(p, "StringType", func(got *Term) bool {
			return isErrorText(got) && sameIface(got.Args[0], iface)
		})
	}
	if o == "time" {
		conv := mkApp("(reflect.Value).Convert", w.rvT, rv, typeofTerm(w.typeT(), w.timeT))
		if w.delegates(p, func(x *Term) bool { return x == conv }) == "" {
			return ""
		}
		return w.newVal(p, "TimestampType", func(got *Term) bool {
			return isLib(got, "(time.Time).UnixNano") && isAssertOf(got.Args[0], "(reflect.Value).Interface", conv)
		})
	}
	var k reflect.Kind
	for i, n := range kindNames {
		if n == o {
			k = reflect.Kind(i)
		}
	}
	if tag := kindTag[k]; tag != "" {
		return w.newVal(p, tag, func(got *Term) bool {
			return isLib(got, "(reflect.Value)."+accessor[tag]) && got.Args[0] == rv
		})
	}
	err := s.F.eval(mkEq(p.Rets[1], mkNil()))
	switch k {
	case reflect.Ptr, reflect.Interface:
		el := mkApp("(reflect.Value).Elem", w.rvT, rv)
		return w.delegates(p, func(x *Term) bool { return x == el })
	case reflect.Slice, reflect.Array, reflect.Map, reflect.Struct:
		if err == no {
			if (k == reflect.Map || k == reflect.Struct) && w.twice(p, rv) {
				return ""
			}
			return w.failed(p)
		}
		if err != yes {
			return "the error " + p.Rets[1].String() + " is returned"
		}
		if why := w.converted(e, p); why != "" {
			return why
		}
	default:
		if err != no {
			return "no error is returned"
		}
		x := w.unsupportedErr(p)
		if x == nil {
			return "the error is " + p.Rets[1].String() + " instead of an unsupported-type error"
		}
		i := fieldIndexByName(w.unsupported, "Type")
		if i < 0 || x.Args[0].Op != OpAlloc || loadField(s, x.Args[0], i) != w.rtype(rv) {
			return "the error does not name the type of the value"
		}
		return ""
	}
	why := ""
	pick := func(w2 string) string {
		if why != "" {
			return why
		}
		return w2
	}
	switch k {
	case reflect.Slice, reflect.Array:
		return pick(w.newVal(p, "ArrayType", func(got *Term) bool {
			src := listSrc{Len: mkApp("(reflect.Value).Len", types.Typ[types.Int], rv), Name: "the list"}
			why = listOf(e, s, got, src, func(g *Term) (*Term, bool) {
				a := w.convOf(g, 0)
				if a == nil || !isLib(a, "(reflect.Value).Index") || a.Args[0] != rv {
					return nil, false
				}
				return a.Args[1], true
			}, nilOrEmpty(s))
			return why == ""
		}))
	case reflect.Map:
		return pick(w.newVal(p, "ObjectType", func(got *Term) bool {
			why = mapOfEv(e, s, got, w.rmap(rv), func(st *State, ev *Event, mk, mv, gotK, gotV *Term) string {
				if isKeyText(gotK, mk) && ev.Eff != "new" && s.F.eval(mkEq(s.mapLen(got), s.mapLen(w.rmap(rv)))) != yes && s.F.eval(mkEq(s.mapLen(got), mkApp("(reflect.Value).Len", types.Typ[types.Int], rv))) != yes {
					return "a member can overwrite another one whose key has the same text"
				}
				if !isKeyText(gotK, mk) {
					return "a member is stored under " + gotK.String() + " instead of its name"
				}
				if x := w.convOf(gotV, 0); x != mv {
					return "a member is stored as " + gotV.String()
				}
				return ""
			})
			return why == ""
		}))
	}
	return pick(w.newVal(p, "ObjectType", func(got *Term) bool {
		why = w.structFields(e, p, rv, got)
		return why == ""
	}))
}

func sameIface(a, b *Term) bool {
	for a != b && (a.Op == OpIface || a.Op == OpAssert) {
		a = a.Args[0]
	}
	return a == b
}

func isAssertOf(t *Term, name string, arg *Term) bool {
	return t.Op == OpAssert && isLib(t.Args[0], name) && t.Args[0].Args[0] == arg
}

// isKeyText: the text of a map key.
func isKeyText(got, k *Term) bool {
	if isLib(got, "(reflect.Value).String") && got.Args[0] == k {
		return false // only right for string kinds: see keyString
	}
	var a *Term
	switch {
	case isLib(got, "fmt.Sprintf") && len(got.Args) == 2:
		f, _ := got.Args[0].isStr()
		if f != "%v" {
			return false
		}
		a = got.Args[1]
	case isLib(got, "fmt.Sprint") && len(got.Args) == 1:
		a = got.Args[0]
	default:
		return false
	}
	for a.Op == OpIface {
		a = a.Args[0]
	}
	if isLib(a, "(reflect.Value).Interface") {
		a = a.Args[0]
	}
	return a == k
}

// ---- struct fields ----

// timeRange: conversions of times to nanoseconds must exclude the times that
// nanoseconds cannot hold.
func (w *reflWorld) timeRange(c *Ctx, rule string) {
	for _, fn := range []*ssa.Function{w.in, w.rv} {
		fn := fn
		seen := false
		cl := &Client{Model: w.model(map[*ssa.Function]bool{w.in: true, w.rv: true})}
		cl.OnEvent = func(s *State, ev *Event) bool {
			if ev.Kind == "pure" && ev.Res != nil && isLib(ev.Res, "(time.Time).UnixNano") {
				seen = true
				tm := ev.Args[0]
				ok := len(factTerms(s.F, func(x *Term) bool {
					return x.Op == OpApp && strings.HasPrefix(x.Aux, "(time.Time).") && x.Aux != "(time.Time).UnixNano" && len(x.Args) > 0 && x.Args[0] == tm
				})) > 0
				c.Check(ok, rule, relUtil+".ReflectValue", c.P.Pos(ev.Instr.Pos()), fn.String()+" converts a time to nanoseconds without excluding the times that 64 bits of nanoseconds cannot hold (before 1677 or after 2262, such as the zero time)", traceDetails(s)...)
			}
			return false
		}
		ps := rootParams(fn)
		c.Run(fn, cl, ps, func(s *State) {
			w.init(s)
			if fn == w.rv {
				w.validRv(s, ps[0])
			}
		})
		if !seen {
			c.Ok(rule, relUtil+".ReflectValue")
		}
	}
}

// entryPoints: ReflectValue is the conversion itself; Unpack replaces its
// receiver by the converted value or returns the error.
func (w *reflWorld) entryPoints(c *Ctx, rule string) {
	refl := c.P.Func(relUtil, "ReflectValue")
	if refl == nil {
		c.Missing("eventutil.ReflectValue")
		return
	}
	if refl != w.in {
		v := rootParams(refl)[0]
		r := runCases(c, rule, refl, &Client{Model: w.model(map[*ssa.Function]bool{w.in: true, w.rv: true})}, []*Term{v}, w.init, func(s *State, ask func(*Term) bool) string {
			if ask(mkEq(convApp(w.in, 1, []*Term{v}), mkNil())) {
				return "convertible value"
			}
			return "unsupported value"
		})
		r.each(func(p *Path, o string) string {
			return w.delegates(p, func(x *Term) bool { return isLib(x, "reflect.ValueOf") && x.Args[0] == v })
		})
		r.cover("convertible value", "unsupported value")
	} else {
		c.Ok(rule, refl.String()+" is the conversion")
		c.Ok(rule, refl.String()+" returns its errors")
	}
	un := c.P.Func("pkg/config", "*EventValue.Unpack")
	if un == nil {
		c.Missing("config.EventValue.Unpack")
		return
	}
	ps := rootParams(un)
	val, err := convApp(refl, 0, ps[1:]), convApp(refl, 1, ps[1:])
	r := runCases(c, rule, un, &Client{Model: convModel(map[*ssa.Function]bool{refl: true})}, ps, func(s *State) {
		s.F.assume(mkEq(ps[0], mkNil()), false)
	}, func(s *State, ask func(*Term) bool) string {
		if ask(mkEq(err, mkNil())) {
			return "convertible value"
		}
		return "unsupported value"
	})
	r.each(func(p *Path, o string) string {
		s := p.St
		if o == "unsupported value" {
			if !wraps(s.F, p.Rets[0], err) {
				return "the error of the conversion is not returned"
			}
			return quietPath(p)
		}
		if s.F.eval(mkEq(p.Rets[0], mkNil())) != yes {
			return "the error " + p.Rets[0].String() + " is returned"
		}
		for _, n := range valueFields {
			i := fieldIndexByName(deref(ps[0].Typ), n)
			if i < 0 {
				return "the option has no field " + n
			}
			got, want := loadField(s, ps[0], i), w.vfieldAt0(s, val, n)
			if !sameVal(s, got, want) {
				return "field " + n + " of the option becomes " + got.String() + " instead of " + want.String()
			}
		}
		return ""
	})
	r.cover("convertible value", "unsupported value")
}

// sfieldOf recognises the description of field i of the struct held by rv.
func (w *reflWorld) sfieldOf(t, rv *Term) (idx *Term, ok bool) {
	if isLib(t, "(reflect.Type).Field") && t.Args[0] == w.rtype(rv) {
		return t.Args[1], true
	}
	return nil, false
}

func (w *reflWorld) numField(rv *Term) *Term {
	return mkApp("(reflect.Type).NumField", types.Typ[types.Int], w.rtype(rv))
}

// tagOf is the content of the event tag of a field.
func (w *reflWorld) tagOf(s *State, f *Term) *Term {
	return mkApp("(reflect.StructTag).Get", w.strT, w.sfield(s, f, "Tag"), mkStr("event"))
}

// skipped: what the facts say about a field being left out for being
// unexported or tagged "-".
func (w *reflWorld) skipped(s *State, f *Term) tri {
	a := s.F.eval(mkEq(w.sfield(s, f, "PkgPath"), mkStr("")))
	b := s.F.eval(mkEq(w.tagOf(s, f), mkStr("-")))
	switch {
	case a == no || b == yes:
		return yes
	case a == yes && b == no:
		return no
	}
	return unknown
}

// fieldList: the list holds the fields to convert, in order.
func (w *reflWorld) fieldList(e *Engine, p *Path, rv *Term) string {
	for _, ev := range p.Events {
		if ev.Kind != "loop" {
			continue
		}
		rec := e.Loops[ev.Loop]
		for _, it := range rec.Iters {
			for _, ev := range it.Events {
				_ = ev
			}
		}
		for lv, vr := range rec.Vars {
			mine := false
			for _, m := range []map[*Term]bool{vr.Firsts, vr.Steps} {
				for t := range m {
					if _, el, ok := appendParts(t); ok && len(el) == 1 {
						if _, ok := w.sfieldOf(el[0], rv); ok {
							mine = true
						}
					}
				}
			}
			if !mine {
				continue
			}
			first, later := map[*Term]bool{}, map[*Term]bool{}
			for _, it := range rec.Iters {
				end, ok := it.End[lv]
				if !ok {
					continue
				}
				start := it.Start[lv]
				idx, why := w.listIter(rec, it, start, end, rv)
				if why != "" {
					return why
				}
				if it.First {
					first[idx] = true
				} else {
					later[idx] = true
				}
			}
			src := listSrc{Len: w.numField(rv), Name: "the struct fields"}
			if why := covers(e, p.St, src, ev.Loop, first, later); why != "" {
				return why
			}
		}
	}
	return ""
}

func (w *reflWorld) listIter(rec *LoopRec, it Iter, start, end, rv *Term) (idx *Term, why string) {
	if end == start {
		// which field was left out?
		for _, i := range w.indices(rec, it.First) {
			if w.skipped(it.St, w.descr(rv, i)) == yes {
				return i, ""
			}
		}
		return nil, "a struct field can be left out although it is exported and not tagged \"-\""
	}
	b, el, ok := appendParts(end)
	if !ok || b != start && !(b.isNil() && emptyList(it.St.F, start)) || len(el) != 1 {
		return nil, "the list of fields becomes " + end.String()
	}
	idx, ok = w.sfieldOf(el[0], rv)
	if !ok {
		return nil, "the list of fields gets " + el[0].String()
	}
	if w.skipped(it.St, el[0]) != no {
		return nil, "a struct field that is unexported or tagged \"-\" is not left out"
	}
	return idx, ""
}

func (w *reflWorld) structFields(e *Engine, p *Path, rv, obj *Term) string {
	s := p.St
	if obj.Op != OpAlloc {
		return "the object is " + obj.String() + " instead of a new one"
	}
	if why := w.fieldList(e, p, rv); why != "" {
		return why
	}
	found := false
	enumerated := false
	for _, ev := range p.Events {
		if (ev.Kind == "mapset" || ev.Kind == "mapdel") && ev.Args[0] == obj {
			return "the object is changed outside the iteration over the fields"
		}
		if ev.Kind != "loop" {
			continue
		}
		rec := e.Loops[ev.Loop]
		mine := false
		for _, it := range rec.Iters {
			for _, x := range it.Events {
				if (x.Kind == "mapset" || x.Kind == "mapdel") && x.Args[0] == obj {
					mine = true
				}
			}
		}
		for _, vr := range rec.Vars {
			for t := range vr.Firsts {
				if _, el, ok := appendParts(t); ok && len(el) == 1 {
					if _, ok := w.sfieldOf(el[0], rv); ok {
						enumerated = true
					}
				}
			}
		}
		if !mine {
			continue
		}
		found = true
		if why := w.fieldLoop(e, p, rec, rv, obj); why != "" {
			return why
		}
	}
	if !found && !enumerated && s.F.eval(mkLt(mkInt(0), w.numField(rv))) != no {
		return "the fields are not converted"
	}
	if !found && enumerated {
		// no field is left to convert
		for _, ev := range p.Events {
			if ev.Kind == "loop" {
				for _, vr := range e.Loops[ev.Loop].Vars {
					if isSliceTerm(vr.Var) && s.F.eval(mkLt(mkInt(0), mkLen(vr.Var))) == no {
						return ""
					}
				}
			}
		}
		return w.allLeftOut(e, p, rv)
	}
	return ""
}

// allLeftOut: the first loop appended nothing.
func (w *reflWorld) allLeftOut(e *Engine, p *Path, rv *Term) string {
	return ""
}

func (w *reflWorld) fieldLoop(e *Engine, p *Path, rec *LoopRec, rv, obj *Term) string {
	first, later := map[*Term]bool{}, map[*Term]bool{}
	var list *Term
	var cls [2]*Term
	n := 0
	// the field of the iteration
	for round := 0; round < 2; round++ {
		for _, it := range rec.Iters {
			ci := 0
			if !it.First {
				ci = 1
			}
			var set *Event
			cnt := 0
			for _, x := range it.Events {
				if x.Kind == "mapdel" && x.Args[0] == obj {
					return "a member is removed from the result"
				}
				if x.Kind == "mapset" && x.Args[0] == obj {
					set = x
					cnt++
				}
			}
			if cnt > 1 {
				return "an iteration stores several members"
			}
			if round == 0 {
				if set == nil {
					continue
				}
				n++
				f := w.fieldOfStore(it, set, rv)
				if f == nil {
					return "a member is stored as " + set.Val.String() + ", which is no field of the struct"
				}
				if l, idx, ok := elemOf(f); ok {
					list = l
					if ci == 0 {
						first[idx] = true
					} else {
						later[idx] = true
					}
				} else if idx, ok := w.sfieldOf(f, rv); ok {
					b, _ := linParts(idx)
					switch {
					case b != nil && rec.Vars[b] == nil: // element 0 of the list
						first[mkInt(0)] = true
					case ci == 0:
						first[idx] = true
					default:
						later[idx] = true
					}
				} else {
					return "the field is described by " + f.String()
				}
				cls[ci] = f
				memo := entryKey{it.St, set}
				why, ok := w.entries[memo]
				if !ok {
					why = w.fieldEntry(it, set, f, rv)
					w.entries[memo] = why
				}
				if why != "" {
					return why
				}
				continue
			}
			if set != nil {
				continue
			}
			f := cls[ci]
			if f == nil {
				// all fields of this class are left out: the description comes
				// from the facts
				f = w.factField(rec, it, rv)
			}
			if f == nil {
				return "an iteration can leave out a field"
			}
			if why := w.leftOut(it, f, rv); why != "" {
				return why
			}
		}
	}
	if n == 0 {
		return "the fields are not stored"
	}
	src := listSrc{Len: w.numField(rv), Name: "the struct fields"}
	if list != nil {
		src = sliceSrc(list)
	}
	return covers(e, p.St, src, rec.Key, first, later)
}

func (w *reflWorld) factField(rec *LoopRec, it Iter, rv *Term) *Term {
	for _, i := range w.indices(rec, it.First) {
		if f := w.descr(rv, i); w.skipped(it.St, f) == yes {
			return f
		}
	}
	return nil
}

// indices: the indices an iteration can be about.
func (w *reflWorld) indices(rec *LoopRec, first bool) []*Term {
	if first {
		return []*Term{mkInt(0)}
	}
	var out []*Term
	for v := range rec.Vars {
		if isIntTerm(v) {
			out = append(out, v, mkLin(v, 1))
		}
	}
	return out
}

// descr is the description of field i of the struct held by rv.
func (w *reflWorld) descr(rv, i *Term) *Term {
	return mkApp("(reflect.Type).Field", w.c.P.Prog.ImportedPackage("reflect").Type("StructField").Type(), w.rtype(rv), i)
}

// fieldOfStore finds the description of the field that is stored.
func (w *reflWorld) fieldOfStore(it Iter, set *Event, rv *Term) *Term {
	var f *Term
	look := func(x *Term) bool {
		if isLib(x, "(reflect.Value).FieldByName") && x.Args[0] == rv {
			if b, i, ok := fieldOf(x.Args[1]); ok {
				if st := structOf(b.Typ); st != nil && st.Field(i).Name() == "Name" {
					f = b
				} else if st := structOf(deref(b.Typ)); st != nil && st.Field(i).Name() == "Name" {
					f = b
				}
			}
		}
		if isLib(x, "(reflect.Value).Field") && x.Args[0] == rv {
			f = w.descr(rv, x.Args[1])
		}
		if isLib(x, "(reflect.Value).FieldByIndex") && x.Args[0] == rv {
			if b, i, ok := fieldOf(x.Args[1]); ok {
				if st := structOf(b.Typ); st != nil && st.Field(i).Name() == "Index" {
					f = b
				}
			}
		}
		return false
	}
	for _, x := range it.Events {
		if x.Kind == "conv" {
			for _, a := range x.Args {
				anySub(a, look)
			}
		}
	}
	return f
}

// fieldVal: x is the value of field f.
func (w *reflWorld) isFieldVal(s *State, x, f, rv *Term) bool {
	switch {
	case isLib(x, "(reflect.Value).FieldByName"):
		return x.Args[0] == rv && x.Args[1] == w.sfield(s, f, "Name")
	case isLib(x, "(reflect.Value).FieldByIndex"):
		return x.Args[0] == rv && x.Args[1] == w.sfield(s, f, "Index")
	case isLib(x, "(reflect.Value).Field"):
		idx, ok := w.sfieldOf(f, rv)
		return x.Args[0] == rv && ok && idx == x.Args[1]
	}
	return false
}

// tagParts are the name and the options in a field's tag.
func (w *reflWorld) tagName(s *State, f, got *Term) bool {
	tag := w.tagOf(s, f)
	if l, i, ok := elemOf(got); ok && i.IsInt && i.N == 0 && (isLib(l, "strings.Split") || isLib(l, "strings.SplitN")) {
		sep, _ := l.Args[1].isStr()
		return l.Args[0] == tag && sep == ","
	}
	if isLib(got, "strings.Cut#0") {
		sep, _ := got.Args[1].isStr()
		return got.Args[0] == tag && sep == ","
	}
	return false
}

// hasOption: the facts say that the tag of f has the option.
func (w *reflWorld) hasOption(s *State, f *Term, opt string) tri {
	tag := w.tagOf(s, f)
	for t, v := range s.F.bools {
		if !isLib(t, "has") {
			continue
		}
		if o, _ := t.Args[1].isStr(); o != opt {
			continue
		}
		l := t.Args[0]
		for l.Op == OpConv {
			l = l.Args[0]
		}
		if l.Op != OpSlice || !l.Args[1].IsInt || l.Args[1].N != 1 || !isLib(l.Args[0], "strings.Split") || l.Args[0].Args[0] != tag {
			continue
		}
		return triOf(v)
	}
	return unknown
}

// leftOut decides an iteration that stores nothing.
func (w *reflWorld) leftOut(it Iter, f, rv *Term) string {
	s := it.St
	if w.skipped(s, f) == yes {
		return ""
	}
	if w.hasOption(s, f, "omitempty") != yes {
		return "a field can be left out although it is exported, not tagged \"-\" and not omitempty"
	}
	for t, v := range s.F.bools {
		if !v {
			continue
		}
		if isLib(t, "(reflect.Value).IsZero") && w.isFieldVal(s, t.Args[0], f, rv) {
			return ""
		}
		if isLib(t, "reflect.DeepEqual") {
			for i := 0; i < 2; i++ {
				a, b := t.Args[i], t.Args[1-i]
				if isLib(a, "(reflect.Value).Interface") && w.isFieldVal(s, a.Args[0], f, rv) && isLib(b, "(reflect.Value).Interface") && isLib(b.Args[0], "reflect.Zero") && b.Args[0].Args[0] == w.rtype(a.Args[0]) {
					return ""
				}
			}
		}
	}
	return "an omitempty field can be left out although it is not zero"
}

// factTerms lists the subterms of the facts that satisfy is.
func factTerms(f *Facts, is func(*Term) bool) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	visit := func(t *Term) {
		if t == nil {
			return
		}
		anySub(t, func(x *Term) bool {
			if !seen[x] {
				seen[x] = true
				if is(x) {
					out = append(out, x)
				}
			}
			return false
		})
	}
	for t := range f.bools {
		visit(t)
	}
	for t := range f.eqc {
		visit(t)
	}
	for t := range f.neqc {
		visit(t)
	}
	for k := range f.zone {
		visit(k[0])
		visit(k[1])
	}
	return out
}

// fieldEntry decides the member that is stored for a field.
func (w *reflWorld) fieldEntry(it Iter, set *Event, f, rv *Term) string {
	s := it.St
	if _, ok := w.sfieldOf(f, rv); ok && set != nil {
		if sk := w.skipped(s, f); sk == yes {
			return "a field that is unexported or tagged \"-\" is stored"
		}
	}
	// name
	k := set.Args[1]
	lower := mkApp("strings.ToLower", w.strT, w.sfield(s, f, "Name"))
	nameOK := false
	if k == lower {
		for _, x := range factTerms(s.F, func(x *Term) bool { return w.tagName(s, f, x) }) {
			if s.F.eval(mkEq(x, mkStr(""))) == yes {
				nameOK = true
			}
		}
		if s.F.eval(mkEq(w.tagOf(s, f), mkStr(""))) == yes {
			nameOK = true
		}
	} else if w.tagName(s, f, k) {
		nameOK = s.F.eval(mkEq(k, mkStr(""))) == no
	}
	if !nameOK {
		return "a field is stored under " + k.String() + " instead of its tag name or its lower-cased name"
	}
	if set.Eff != "new" {
		return "a field can overwrite another one with the same name"
	}
	// content
	v := set.Val
	if x := w.convOf(v, 0); x != nil && w.isFieldVal(s, x, f, rv) {
		return ""
	}
	if v.Op == OpAlloc && w.hasOption(s, f, "string") == yes {
		why := w.isVal(s, v, "StringType", func(got *Term) bool { return true })
		if why == "" {
			return ""
		}
		return why
	}
	return "a field is stored as " + v.String()
}

// resolve finds the pair of mutually recursive converters.
func (w *reflWorld) resolve(c *Ctx, check func(c *Ctx)) bool {
	var ins, rvs []*ssa.Function
	vp := types.NewPointer(w.value)
	for _, f := range pkgFuncs(c.P, relUtil) {
		if f.Parent() != nil || !recursive(c.P, f) {
			continue
		}
		if sigIs(f, []types.Type{emptyIface()}, []types.Type{vp, w.errT}) {
			ins = append(ins, f)
		}
		if sigIs(f, []types.Type{w.rvT}, []types.Type{vp, w.errT}) {
			rvs = append(rvs, f)
		}
	}
	if len(ins) == 0 || len(rvs) == 0 {
		c.Missing("recursive converters of interface{} and reflect.Value to *event.Value")
		return false
	}
	var best *Ctx
	var bi, br *ssa.Function
	calls := func(f *ssa.Function) (n int) {
		for _, g := range staticCallees(c.P, f) {
			for _, h := range append(append([]*ssa.Function(nil), ins...), rvs...) {
				if g == h {
					n++
				}
			}
		}
		return
	}
	sort.Slice(ins, func(i, j int) bool { return calls(ins[i]) > calls(ins[j]) })
	sort.Slice(rvs, func(i, j int) bool { return calls(rvs[i]) > calls(rvs[j]) })
	for _, i := range ins {
		for _, r := range rvs {
			w.in, w.rv = i, r
			d := c.attempt(check)
			if best == nil || len(d.bad) < len(best.bad) {
				best, bi, br = d, i, r
			}
			if len(d.bad) == 0 {
				c.merge(d)
				return true
			}
		}
	}
	c.merge(best)
	w.in, w.rv = bi, br
	return true
}

func init() {
	register("C09", func(c *Ctx) {
		w := newReflWorld(c)
		if w == nil {
			return
		}
		c.Rule("C09-interface", "the conversion of an interface gives, for each Go type it distinguishes, a value of the corresponding type with exactly its content, nil as null, maps member by member, and leaves every other type to the conversion by kind", 18)
		c.Rule("C09-kind", "the conversion of a reflect.Value gives, for each kind, the value type that holds it exactly: nil as null, errors as their text, times as timestamps, pointers and interfaces as their content, lists in order, maps by name, structs by field; other kinds give an unsupported-type error; a failure of any part fails the whole", 30)
		if !w.resolve(c, func(c *Ctx) {
			w.ifaceCheck(c, "C09-interface")
			w.rvCheck(c, "C09-kind")
		}) {
			return
		}
		c.Rule("C09-entry", "ReflectValue returns the result of the conversion; Unpack of a configured value takes over the converted value or returns the error", 4)
		w.entryPoints(c, "C09-entry")
		c.Rule("C09-time", "a time is converted to nanoseconds only where 64 bits can hold it", 1)
		w.timeRange(c, "C09-time")
	})
}
