package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	relProto = "pkg/serialization/protobuf"
	relMap   = "pkg/serialization/mapinterface"
	relUtil  = "pkg/eventutil"
)

// wrapperOf names the protobuf kind of each value type.
var wrapperOf = map[string]string{"NullType": "Value_Null", "ArrayType": "Value_Array", "BoolType": "Value_Boolean", "FloatType": "Value_Float", "IntegerType": "Value_Integer", "ObjectType": "Value_Object", "StringType": "Value_String_", "TimestampType": "Value_Timestamp", "UnsignedIntegerType": "Value_UnsignedInteger"}

type convWorld struct {
	*valueWorld
	pb      map[string]*types.Named
	parser  *ssa.Function
	fFields int
	nullG   *Term
}

func newConvWorld(c *Ctx, pb bool) *convWorld {
	vw := newValueWorld(c)
	if vw == nil {
		return nil
	}
	w := &convWorld{valueWorld: vw, pb: map[string]*types.Named{}, fFields: -1}
	if pb {
		names := []string{"Value", "ValueArray", "ValueObject", "Log", "MessageWrapper", "MessageWrapper_Log"}
		for _, n := range tagNames {
			names = append(names, wrapperOf[n])
		}
		for _, n := range names {
			if w.pb[n] = lookupNamed(c.P, relProto, n); w.pb[n] == nil {
				c.Missing("protobuf." + n)
				return nil
			}
		}
	}
	st := structOf(w.event)
	for i := 0; i < st.NumFields(); i++ {
		if mt := mapTypeOf(st.Field(i).Type()); mt != nil && ptrTo(mt.Elem(), w.value) {
			w.fFields = i
		}
	}
	if w.fFields < 0 {
		c.Missing("the member map of event.Event")
		return nil
	}
	if w.parser = eventParser(c); w.parser == nil {
		return nil
	}
	return w
}

// init makes known that NullValue is a null value (C18 decides that nothing
// changes it).
func (w *convWorld) init(s *State) {
	pk := w.c.P.Pkg(relEvent)
	if pk == nil {
		return
	}
	g, ok := pk.Members["NullValue"].(*ssa.Global)
	if !ok {
		return
	}
	v := s.load(s.e.val(s, g), types.NewPointer(w.value))
	s.F.assume(mkEq(v, mkNil()), false)
	s.F.assume(mkEq(w.vfield(s, v, "Type"), w.tags["NullType"]), true)
	for _, n := range valueFields {
		if n == "Type" {
			continue
		}
		got := w.vfield(s, v, n)
		zero := zeroOf(structOf(w.value).Field(w.vf[n]).Type())
		if n == "Timestamp" {
			got, zero = mkField(got, 0, types.Typ[types.Int64]), mkInt(0)
		}
		s.F.assume(mkEq(got, zero), true)
	}
}

// splitKey is the specified meaning of a key.
func splitKey(k string) []string {
	var out []string
	var cur []byte
	esc := false
	for i := 0; i < len(k); i++ {
		switch {
		case k[i] == '\\':
			esc = true
			continue
		case k[i] == '.' && !esc:
			if len(cur) > 0 {
				out = append(out, string(cur))
				cur = nil
			}
		default:
			cur = append(cur, k[i])
		}
		esc = false
	}
	if len(cur) > 0 {
		out = append(out, string(cur))
	}
	return out
}

func (w *convWorld) model(conv map[*ssa.Function]bool) func(s *State, cc *CallCtx) ([]*Term, bool) {
	cm := convModel(conv)
	return func(s *State, cc *CallCtx) ([]*Term, bool) {
		if r, ok := cm(s, cc); ok {
			return r, ok
		}
		if cc.Fn == nil {
			return nil, false
		}
		if cc.Fn == w.parser {
			if k, ok := cc.Args[0].isStr(); ok {
				typ := cc.Sig.Results().At(0).Type()
				segs := splitKey(k)
				if len(segs) == 0 {
					return []*Term{mkNil()}, true
				}
				var ts []*Term
				for _, x := range segs {
					ts = append(ts, mkStr(x))
				}
				return []*Term{mkT(OpSliceLit, "", 0, typ, false, nil, nil, ts...)}, true
			}
			return []*Term{mkApp("segments", cc.Sig.Results().At(0).Type(), cc.Args[0])}, true
		}
		if rc := cc.Fn.Signature.Recv(); rc != nil && ptrTo(rc.Type(), w.event) && (cc.Fn.Name() == "Put" || cc.Fn.Name() == "TryPut") {
			res := s.e.results(s, cc)
			s.e.emit(s, &Event{Kind: strings.ToLower(cc.Fn.Name()), Instr: cc.Instr, Args: cc.Args, Res: res[1], Ctx: s.top().ctx})
			s.escape(cc.Args[2])
			return res, true
		}
		if fnPkgPath(cc.Fn) == w.c.P.Mod+"/"+relUtil && cc.Fn.Name() == "EscapeKey" {
			return []*Term{mkApp("escape", types.Typ[types.String], cc.Args[0])}, true
		}
		return nil, false
	}
}

// quietPath: no memory that existed before is changed.
func quietPath(p *Path) string {
	for _, ev := range p.Events {
		switch ev.Kind {
		case "store":
			if rootOf(ev.Addr).Op != OpAlloc {
				return "existing memory is changed at " + ev.Addr.String()
			}
		case "mapset", "mapdel":
			if rootOf(ev.Args[0]).Op != OpAlloc {
				return "the existing map " + ev.Args[0].String() + " is changed"
			}
		}
	}
	return ""
}

func (w *convWorld) elemConv(fn *ssa.Function, arr *Term) elemFn {
	return func(got *Term) (*Term, bool) {
		x, ok := isConv(got, fn)
		if !ok {
			return nil, false
		}
		l, idx, ok := elemOf(x)
		return idx, ok && l == arr
	}
}

func (w *convWorld) entryConv(fn *ssa.Function) func(st *State, k, v, gotK, gotV *Term) string {
	return func(st *State, k, v, gotK, gotV *Term) string {
		if gotK != k {
			return "a member is stored under " + gotK.String() + " instead of its name"
		}
		if x, ok := isConv(gotV, fn); !ok || x != v {
			return "a member is stored as " + gotV.String() + " instead of its conversion"
		}
		return ""
	}
}

func nilOrEmpty(s *State) func(*Term) bool {
	return func(t *Term) bool { return ownEmpty(s, t) }
}

// payload checks the scalar content got for the type.
func (w *convWorld) payload(s *State, v *Term, tag string, got *Term) string {
	var want *Term
	switch tag {
	case "TimestampType":
		want = w.nanos(s, v)
	default:
		want = w.vfieldAt0(s, v, payloadOf[tag])
	}
	if tag == "StringType" {
		got = bytesFrom(got)
	}
	if !sameVal(s, got, want) {
		return "the content is " + got.String() + " instead of " + want.String()
	}
	return ""
}

// ---- protobuf ----

func (w *convWorld) pbKind(s *State, r *Term) (wrapper *types.Named, payload *Term, why string) {
	if r.Op != OpAlloc || !ptrTo(r.Typ, w.pb["Value"]) {
		return nil, nil, "the result " + r.String() + " is not a new protobuf value"
	}
	k := loadField(s, r, fieldIndexByName(w.pb["Value"], "Kind"))
	if k.Op != OpIface || k.Args[0].Op != OpAlloc {
		return nil, nil, "the kind of the result is " + k.String()
	}
	n := namedOf(k.Typ)
	return n, loadField(s, k.Args[0], 0), ""
}

func (w *convWorld) protoFrom(c *Ctx, rule string, fn *ssa.Function) {
	v := rootParams(fn)[0]
	r := runCases(c, rule, fn, &Client{Model: w.model(map[*ssa.Function]bool{fn: true})}, []*Term{v}, w.init, func(s *State, ask func(*Term) bool) string { return w.caseOf(s, v, ask) })
	r.each(func(p *Path, o string) string {
		s := p.St
		if o == "invalid type" {
			return ""
		}
		if why := quietPath(p); why != "" {
			return why
		}
		wr, pay, why := w.pbKind(s, p.Rets[0])
		if why != "" {
			return why
		}
		tag := o
		if o == "nil" {
			tag = "NullType"
		}
		if wr != w.pb[wrapperOf[tag]] {
			return "the kind of the result is " + typeStr(wr) + " instead of " + wrapperOf[tag]
		}
		switch tag {
		case "NullType":
			return ""
		case "ArrayType":
			arr := w.vfieldAt0(s, v, "Array")
			if pay.Op != OpAlloc {
				return "the array is " + pay.String()
			}
			return listOf(r.e, s, loadField(s, pay, fieldIndexByName(w.pb["ValueArray"], "Items")), sliceSrc(arr), w.elemConv(fn, arr), nilOrEmpty(s))
		case "ObjectType":
			return w.pbObject(r.e, s, pay, w.vfieldAt0(s, v, "Object"), fn)
		}
		return w.payload(s, v, tag, pay)
	})
	r.cover(append([]string{"nil"}, tagNames...)...)
}

// pbObject: pay is an object message with the members of src.
func (w *convWorld) pbObject(e *Engine, s *State, pay, src *Term, fn *ssa.Function) string {
	if pay.Op != OpAlloc {
		return "the object is " + pay.String() + " instead of a new one"
	}
	return mapOf(e, s, loadField(s, pay, fieldIndexByName(w.pb["ValueObject"], "Fields")), src, w.entryConv(fn))
}

func (w *convWorld) protoTo(c *Ctx, rule string, fn *ssa.Function) {
	v := rootParams(fn)[0]
	kind := func(s *State) *Term {
		return loadField(w.state0(s), v, fieldIndexByName(w.pb["Value"], "Kind"))
	}
	pay := func(s *State, wr string) *Term {
		return loadField(w.state0(s), mkAssert(kind(s), types.NewPointer(w.pb[wr])), 0)
	}
	r := runCases(c, rule, fn, &Client{Model: w.model(map[*ssa.Function]bool{fn: true})}, []*Term{v}, w.init, func(s *State, ask func(*Term) bool) string {
		if ask(mkEq(v, mkNil())) {
			return "nil"
		}
		k := kind(s)
		if ask(mkEq(k, mkNil())) {
			return "no kind"
		}
		for _, n := range tagNames {
			if ask(mkAssertOk(k, types.NewPointer(w.pb[wrapperOf[n]]))) {
				if (n == "ArrayType" || n == "ObjectType") && ask(mkEq(pay(s, wrapperOf[n]), mkNil())) {
					return wrapperOf[n] + " without content"
				}
				return n
			}
		}
		return "other kind"
	})
	r.each(func(p *Path, o string) string {
		s := p.St
		if why := quietPath(p); why != "" {
			return why
		}
		g := p.Rets[0]
		null := "the result is " + g.String() + " instead of a null value"
		tag := o
		switch o {
		case "other kind":
			return ""
		case "nil", "no kind", "NullType":
			if w.isNullValue(s, g) {
				return ""
			}
			return null
		case "Value_Array without content":
			tag = "ArrayType"
		case "Value_Object without content":
			tag = "ObjectType"
		}
		if g.Op != OpAlloc {
			return "the result " + g.String() + " is not a new value"
		}
		if t := w.vfield(s, g, "Type"); s.F.eval(mkEq(t, w.tags[tag])) != yes {
			return "the result has type " + t.String() + " instead of " + tag
		}
		got := w.vfield(s, g, payloadOf[tag])
		if why := w.onlyPayload(s, g, tag); why != "" {
			return why
		}
		if o != tag {
			switch tag {
			case "ArrayType":
				if !emptyList(s.F, got) {
					return "the array is " + got.String() + " instead of empty"
				}
			case "ObjectType":
				if !got.isNil() && s.F.eval(mkEq(s.mapLen(got), mkInt(0))) != yes {
					return "the object is not empty"
				}
			}
			return ""
		}
		want := pay(s, wrapperOf[tag])
		switch tag {
		case "ArrayType":
			arr := loadField(w.state0(s), want, fieldIndexByName(w.pb["ValueArray"], "Items"))
			return listOf(r.e, s, got, sliceSrc(arr), w.elemConv(fn, arr), nilOrEmpty(s))
		case "ObjectType":
			obj := loadField(w.state0(s), want, fieldIndexByName(w.pb["ValueObject"], "Fields"))
			return mapOf(r.e, s, got, obj, w.entryConv(fn))
		case "TimestampType":
			got = mkField(got, 0, types.Typ[types.Int64])
		case "StringType":
			got = bytesFrom(got)
		}
		if !sameVal(s, got, want) {
			return "the content is " + got.String() + " instead of " + want.String()
		}
		return ""
	})
	cases := []string{"nil", "no kind", "Value_Array without content", "Value_Object without content"}
	r.cover(append(cases, tagNames...)...)
}

// onlyPayload: no field but that of the type is set.
func (w *valueWorld) onlyPayload(s *State, v *Term, tag string) string {
	for _, n := range valueFields {
		if n == "Type" || n == payloadOf[tag] {
			continue
		}
		got := w.vfield(s, v, n)
		zero := zeroOf(structOf(w.value).Field(w.vf[n]).Type())
		if n == "Timestamp" {
			got, zero = mkField(got, 0, types.Typ[types.Int64]), mkInt(0)
		}
		if s.F.eval(mkEq(got, zero)) == yes || got == zero || zero.Op == OpConst && got.Op == OpConst && got.Aux == zero.Aux {
			continue
		}
		return "field " + n + " of a value of type " + tag + " is set to " + got.String()
	}
	return ""
}

func (w *convWorld) protoFromEvent(c *Ctx, rule string, conv *ssa.Function) {
	fn := c.P.Func(relProto, "FromEvent")
	if fn == nil {
		c.Missing("protobuf.FromEvent")
		return
	}
	evt := rootParams(fn)[0]
	src := func(s *State) *Term { return loadField(w.state0(s), evt, w.fFields) }
	r := runCases(c, rule, fn, &Client{Model: w.model(map[*ssa.Function]bool{conv: true})}, []*Term{evt}, func(s *State) {
		s.F.assume(mkEq(evt, mkNil()), false)
		w.init(s)
	}, func(s *State, ask func(*Term) bool) string {
		if ask(mkEq(w.state0(s).mapLen(src(s)), mkInt(0))) {
			return "empty event"
		}
		return "event"
	})
	r.each(func(p *Path, o string) string {
		s := p.St
		if why := quietPath(p); why != "" {
			return why
		}
		m := p.Rets[0]
		if m.Op != OpAlloc || !ptrTo(m.Typ, w.pb["MessageWrapper"]) {
			return "the result " + m.String() + " is not a new message"
		}
		k := loadField(s, m, fieldIndexByName(w.pb["MessageWrapper"], "Message"))
		if k.Op != OpIface || k.Args[0].Op != OpAlloc || !ptrTo(k.Typ, w.pb["MessageWrapper_Log"]) {
			return "the message is " + k.String() + " instead of a log"
		}
		l := loadField(s, k.Args[0], 0)
		if l.Op != OpAlloc {
			return "the log is " + l.String()
		}
		return w.pbObject(r.e, s, loadField(s, l, fieldIndexByName(w.pb["Log"], "Object")), src(s), conv)
	})
	r.cover("empty event", "event")
}

func (w *convWorld) protoToEvent(c *Ctx, rule string, conv *ssa.Function) {
	fn := c.P.Func(relProto, "ToLogEvent")
	if fn == nil {
		c.Missing("protobuf.ToLogEvent")
		return
	}
	l := rootParams(fn)[0]
	obj := func(s *State) *Term {
		return loadField(w.state0(s), l, fieldIndexByName(w.pb["Log"], "Object"))
	}
	r := runCases(c, rule, fn, &Client{Model: w.model(map[*ssa.Function]bool{conv: true})}, []*Term{l}, w.init, func(s *State, ask func(*Term) bool) string {
		if ask(mkEq(l, mkNil())) || ask(mkEq(obj(s), mkNil())) {
			return "no log"
		}
		return "log"
	})
	r.each(func(p *Path, o string) string {
		s := p.St
		if why := quietPath(p); why != "" {
			return why
		}
		if o == "no log" {
			return ""
		}
		ev := p.Rets[0]
		if ev.Op != OpAlloc || !ptrTo(ev.Typ, w.event) {
			return "the result " + ev.String() + " is not a new event"
		}
		for _, x := range p.Events {
			if x.Kind == "put" || x.Kind == "tryput" {
				return "members are stored through keys: names that are empty or contain backslashes are lost"
			}
		}
		for _, rec := range r.e.Loops {
			for _, it := range rec.Iters {
				for _, x := range it.Events {
					if x.Kind == "put" || x.Kind == "tryput" {
						return "members are stored through keys: names that are empty or contain backslashes are lost"
					}
				}
			}
		}
		src := loadField(w.state0(s), obj(s), fieldIndexByName(w.pb["ValueObject"], "Fields"))
		return mapOf(r.e, s, loadField(s, ev, w.fFields), src, w.entryConv(conv))
	})
	r.cover("log")
}

func (w *convWorld) protoBoth(c *Ctx, from, to string) (f, t *ssa.Function) {
	vp, pp := types.NewPointer(w.value), types.NewPointer(w.pb["Value"])
	f = c.choose("a recursive func(*event.Value) *protobuf.Value", candidates(c.P, relProto, vp, pp), func(c *Ctx, fn *ssa.Function) { w.protoFrom(c, from, fn) })
	t = c.choose("a recursive func(*protobuf.Value) *event.Value", candidates(c.P, relProto, pp, vp), func(c *Ctx, fn *ssa.Function) { w.protoTo(c, to, fn) })
	return
}

// ---- maps ----

var goTypeOf = map[string]types.Type{"BoolType": types.Typ[types.Bool], "FloatType": types.Typ[types.Float64], "IntegerType": types.Typ[types.Int64], "StringType": types.Typ[types.String], "UnsignedIntegerType": types.Typ[types.Uint64]}

func emptyIface() types.Type { return types.NewInterfaceType(nil, nil).Complete() }

func isGoTime(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

// isUTC: t is the time of the nanoseconds n in UTC.
func isUTC(s *State, t, n *Term) bool {
	if t.Op != OpApp || t.Aux != "(time.Time).UTC" {
		return false
	}
	u := t.Args[0]
	if u.Op != OpApp || u.Aux != "time.Unix" {
		return false
	}
	sec, rest := u.Args[0], u.Args[1]
	if sec.IsInt && sec.N == 0 {
		return sameVal(s, rest, n)
	}
	// whole seconds and the nanoseconds that remain
	billion := mkInt(1e9)
	i64 := types.Typ[types.Int64]
	if q := mkBin(token.QUO, n, billion, i64, i64); !sameVal(s, sec, q) {
		return false
	}
	return rest == mkBin(token.REM, n, billion, i64, i64) || rest == mkSub(n, mkBin(token.MUL, sec, billion, i64, i64)) || rest == mkBin(token.SUB, n, mkBin(token.MUL, sec, billion, i64, i64), i64, i64)
}

func (w *convWorld) mapFrom(c *Ctx, rule string, fn *ssa.Function) {
	v := rootParams(fn)[0]
	r := runCases(c, rule, fn, &Client{Model: w.model(map[*ssa.Function]bool{fn: true})}, []*Term{v}, w.init, func(s *State, ask func(*Term) bool) string { return w.caseOf(s, v, ask) })
	r.each(func(p *Path, o string) string {
		s := p.St
		if o == "invalid type" {
			return ""
		}
		if why := quietPath(p); why != "" {
			return why
		}
		g := p.Rets[0]
		if o == "nil" || o == "NullType" {
			if !g.isNil() && s.F.eval(mkEq(g, mkNil())) != yes {
				return "the result is " + g.String() + " instead of nil"
			}
			return ""
		}
		if g.Op != OpIface {
			return "the result is " + g.String()
		}
		x := g.Args[0]
		switch o {
		case "ArrayType":
			if typeStr(g.Typ) != "[]interface{}" {
				return "the result is of type " + typeStr(g.Typ)
			}
			arr := w.vfieldAt0(s, v, "Array")
			return listOf(r.e, s, x, sliceSrc(arr), w.elemConv(fn, arr), nilOrEmpty(s))
		case "ObjectType":
			if typeStr(g.Typ) != "map[string]interface{}" {
				return "the result is of type " + typeStr(g.Typ)
			}
			return mapOf(r.e, s, x, w.vfieldAt0(s, v, "Object"), w.entryConv(fn))
		case "TimestampType":
			if !isGoTime(g.Typ) || !isUTC(s, x, w.nanos(s, v)) {
				return "the result is " + g.String() + " instead of the time in UTC"
			}
			return ""
		}
		if !types.Identical(g.Typ, goTypeOf[o]) {
			return "the result is of type " + typeStr(g.Typ) + " instead of " + typeStr(goTypeOf[o])
		}
		return w.payload(s, v, o, x)
	})
	r.cover(append([]string{"nil"}, tagNames...)...)
}

func (w *convWorld) mapFromEvent(c *Ctx, rule string, conv *ssa.Function) {
	fn := c.P.Func(relMap, "FromEvent")
	if fn == nil {
		c.Missing("mapinterface.FromEvent")
		return
	}
	evt := rootParams(fn)[0]
	src := func(s *State) *Term { return loadField(w.state0(s), evt, w.fFields) }
	r := runCases(c, rule, fn, &Client{Model: w.model(map[*ssa.Function]bool{conv: true})}, []*Term{evt}, func(s *State) {
		s.F.assume(mkEq(evt, mkNil()), false)
		w.init(s)
	}, func(s *State, ask func(*Term) bool) string {
		if ask(mkEq(w.state0(s).mapLen(src(s)), mkInt(0))) {
			return "empty event"
		}
		return "event"
	})
	r.each(func(p *Path, o string) string {
		if why := quietPath(p); why != "" {
			return why
		}
		return mapOf(r.e, p.St, p.Rets[0], src(p.St), w.entryConv(conv))
	})
	r.cover("empty event", "event")
}

// toEvent decides mapinterface.ToEvent.
func (w *convWorld) mapToEvent(c *Ctx, rule, names string) {
	fn := c.P.Func(relMap, "ToEvent")
	refl := c.P.Func(relUtil, "ReflectValue")
	if fn == nil || refl == nil {
		c.Missing("mapinterface.ToEvent and eventutil.ReflectValue")
		return
	}
	m := rootParams(fn)[0]
	arg := []*Term{mkIface(m, fn.Params[0].Type())}
	val, verr := convApp(refl, 0, arg), convApp(refl, 1, arg)
	r := runCases(c, rule, fn, &Client{Model: w.model(map[*ssa.Function]bool{refl: true})}, []*Term{m}, func(s *State) {
		w.init(s)
		// the conversion of a map is an object or an error (C09)
		s.F.assume(mkEq(val, mkNil()), false)
	}, func(s *State, ask func(*Term) bool) string {
		if ask(mkEq(verr, mkNil())) {
			return "convertible map"
		}
		return "unsupported value"
	})
	keyed := false
	r.each(func(p *Path, o string) string {
		s := p.St
		if why := quietPath(p); why != "" {
			return why
		}
		ev, err := p.Rets[0], p.Rets[1]
		if o == "unsupported value" {
			if !wraps(s.F, err, verr) {
				return "the error of the conversion is not returned"
			}
			return ""
		}
		src := w.vfieldAt0(s, val, "Object")
		entry := func(st *State, x *Event) string {
			k, v := memberOf(st, src)
			if k == nil {
				return "a value that is no member of the map is stored"
			}
			if x.Args[0] != ev && s.F.eval(mkEq(err, mkNil())) == yes {
				return "a member is stored in another event"
			}
			if !isEscaped(x.Args[1], k) {
				return "a member is stored under " + x.Args[1].String() + " instead of the escaped name"
			}
			if x.Args[2] != v {
				return "a member is stored as " + x.Args[2].String()
			}
			return ""
		}
		// a failed store
		for _, x := range p.Events {
			if x.Kind == "put" || x.Kind == "tryput" {
				keyed = true
				if why := entry(s, x); why != "" {
					return why
				}
				if s.F.eval(mkEq(x.Res, mkNil())) != yes {
					if s.F.eval(mkEq(x.Res, mkNil())) == no && wraps(s.F, err, x.Res) {
						return ""
					}
					return "a failure to store a member is ignored"
				}
			}
		}
		if s.F.eval(mkEq(err, mkNil())) != yes {
			return "the error " + err.String() + " is returned"
		}
		if ev.Op != OpAlloc || !ptrTo(ev.Typ, w.event) {
			return "the result " + ev.String() + " is not a new event"
		}
		n := 0
		for _, x := range p.Events {
			if x.Kind != "loop" {
				continue
			}
			rec := r.e.Loops[x.Loop]
			for _, it := range rec.Iters {
				cnt := 0
				for _, y := range it.Events {
					if y.Kind != "put" && y.Kind != "tryput" {
						continue
					}
					keyed = true
					cnt++
					if why := entry(it.St, y); why != "" {
						return why
					}
					if it.St.F.eval(mkEq(y.Res, mkNil())) != yes {
						return "a failure to store a member is ignored"
					}
				}
				if cnt > 0 {
					n++
				}
				if k, _ := memberOf(it.St, src); cnt != 1 && k != nil && rangesOver(rec, src, it.St) && keyed {
					return "an iteration does not store exactly one member"
				}
			}
		}
		if n > 0 || s.F.eval(mkEq(s.mapLen(src), mkInt(0))) == yes {
			if !mapEnd(s, src) {
				return "the iteration over the members can end early"
			}
			return ""
		}
		if mapEnd(s, src) && loadField(s, ev, w.fFields).isNil() {
			for _, x := range p.Events {
				if x.Kind == "loop" {
					return "the members are not stored"
				}
			}
			return ""
		}
		if loadField(s, ev, w.fFields) == src {
			return ""
		}
		return mapOf(r.e, s, loadField(s, ev, w.fFields), src, func(st *State, k, v, gotK, gotV *Term) string {
			if gotK != k || gotV != v {
				return "a member is stored under " + gotK.String() + " as " + gotV.String()
			}
			return ""
		})
	})
	r.cover("convertible map", "unsupported value")
	c.Check(!keyed, names, fn.String(), c.P.Pos(fn.Pos()), fn.String()+" stores members through keys: a backslash in the name of a top-level member is lost")
}

func isEscaped(got, k *Term) bool {
	if got.Op == OpApp && got.Aux == "escape" && got.Args[0] == k {
		return true
	}
	if got.Op == OpApp && got.Aux == "strings.ReplaceAll" && got.Args[0] == k {
		a, ok1 := got.Args[1].isStr()
		b, ok2 := got.Args[2].isStr()
		return ok1 && ok2 && a == "." && b == `\.`
	}
	return false
}

func init() {
	register("C07", func(c *Ctx) {
		w := newConvWorld(c, true)
		if w == nil {
			return
		}
		c.Rule("C07-from", "the conversion of a value to protobuf gives, for each value type (and nil as null), the message kind of that type with exactly the value's content: arrays and objects of any size hold the conversion of each element in order and of each member under its name", 10)
		c.Rule("C07-to", "the conversion from protobuf gives, for each message kind, a value of that type with exactly the message's content and no other field set; an unset kind gives null; kinds without content give an empty array or object; no case panics", 13)
		c.Rule("C07-event", "FromEvent puts the conversion of every member of the root object in a non-nil object message, also for an empty event; ToLogEvent returns an event with the conversion of every member under its own name", 3)
		f, t := w.protoBoth(c, "C07-from", "C07-to")
		if f != nil {
			w.protoFromEvent(c, "C07-event", f)
		}
		if t != nil {
			w.protoToEvent(c, "C07-event", t)
		}
	})
	register("C08", func(c *Ctx) {
		w := newConvWorld(c, false)
		if w == nil {
			return
		}
		c.Rule("C08-from", "the conversion of a value to Go gives, for each value type, the plain Go value (nil for null, UTC time for timestamps) with exactly the value's content; arrays and objects hold the conversion of each element in order and of each member under its name", 10)
		c.Rule("C08-event", "FromEvent gives one entry for each member of the event; ToEvent stores each converted member once under its escaped name and returns the error of the conversion or of a store", 4)
		c.Rule("C08-names", "members are stored under their own name", 1)
		f := c.choose("a recursive func(*event.Value) interface{}", candidates(c.P, relMap, types.NewPointer(w.value), emptyIface()), func(c *Ctx, fn *ssa.Function) { w.mapFrom(c, "C08-from", fn) })
		if f != nil {
			w.mapFromEvent(c, "C08-event", f)
		}
		w.mapToEvent(c, "C08-event", "C08-names")
		c.Rule("C08-members", "the conversion of Go values (C09) keeps every member and element of maps and lists with the corresponding value, or returns an error", 48)
		if rw := newReflWorld(c); rw != nil {
			rw.resolve(c, func(c *Ctx) {
				rw.ifaceCheck(c, "C08-members")
				rw.rvCheck(c, "C08-members")
			})
		}
	})
}
