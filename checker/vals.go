package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C06 (every type of value in every consumer) and C32 (JSON).

const (
	jsonPkg     = "encoding/json."
	rfc3339Nano = "2006-01-02T15:04:05.999999999Z07:00"
)

type jsonWorld struct {
	*convWorld
	timeT *types.Named
}

func newJSONWorld(c *Ctx) *jsonWorld {
	cw := newConvWorld(c, false)
	if cw == nil {
		return nil
	}
	return &jsonWorld{convWorld: cw, timeT: lookupNamed(c.P, relEvent, "Time")}
}

// afterInit analyses the initialisation of a package and yields the states
// in which it has ended.
func afterInit(c *Ctx, rel string, cl *Client) (*Engine, []*State) {
	pk := c.P.Pkg(rel)
	if pk == nil || pk.Func("init") == nil {
		c.Missing("package " + rel)
		return nil, nil
	}
	var out []*State
	init := true
	user, ret := cl.Model, cl.OnReturn
	cl.Model = func(s *State, cc *CallCtx) ([]*Term, bool) {
		if init && cc.Fn != nil && cc.Fn.Name() == "init" && cc.Fn.Synthetic != "" {
			return nil, true
		}
		if user != nil {
			return user(s, cc)
		}
		return nil, false
	}
	cl.OnReturn = func(s *State, rets []*Term) {
		if init {
			out = append(out, s.clone())
		} else if ret != nil {
			ret(s, rets)
		}
	}
	e := NewEngine(c.P, cl)
	e.Run(pk.Func("init"), nil, func(s *State) {
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok && g.Name() == "init$guard" {
				s.mem[e.val(s, g)] = mkBool(false)
			}
		}
	})
	init = false
	for _, s := range out {
		s.tr = nil
	}
	return e, out
}

// globalWrites lists the places outside of the package initialisation that
// assign the variable, write to the map, slice or memory it holds directly, or
// pass its content on.
func globalWrites(p *Prog, g *ssa.Global) (out []ssa.Instruction) {
	for _, f := range p.Funcs {
		if f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					if ia, ok := ins.(*ssa.IndexAddr); ok && ia.X == ssa.Value(g) {
						for _, r := range *ia.Referrers() {
							if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
								out = append(out, r)
							}
						}
						continue
					}
					u, ok := ins.(*ssa.UnOp)
					if !ok || u.Op != token.MUL {
						out = append(out, ins)
						continue
					}
					for _, r := range *u.Referrers() {
						switch r := r.(type) {
						case *ssa.Lookup, *ssa.Range, *ssa.DebugRef, *ssa.Index:
						case *ssa.Call:
							if b, ok := r.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
								continue
							}
							out = append(out, r)
						case *ssa.IndexAddr:
							for _, r2 := range *r.Referrers() {
								if u2, ok := r2.(*ssa.UnOp); !ok || u2.Op != token.MUL {
									out = append(out, r2)
								}
							}
						default:
							out = append(out, r)
						}
					}
				}
			}
		}
	}
	return
}

// typeNames decides the name of each value type.
func (w *jsonWorld) typeNames(rule string) map[string]string {
	c := w.c
	vt := lookupNamed(c.P, relEvent, "ValueType")
	fn := c.P.Func(relEvent, "ValueType.String")
	if vt == nil || fn == nil {
		c.Missing("event.ValueType.String")
		return nil
	}
	var got map[string]bool
	var used map[*ssa.Global]bool
	bad := ""
	cl := &Client{PlainMaps: true}
	cl.OnReturn = func(s *State, rets []*Term) {
		if x, ok := rets[0].isStr(); ok {
			got[x] = true
		} else {
			bad = "the name is " + rets[0].String()
		}
	}
	e, sts := afterInit(c, relEvent, cl)
	if e == nil {
		return nil
	}
	names := map[string]string{}
	owner := map[string]string{}
	last := int64(0)
	for _, n := range tagNames {
		if t := w.tags[n]; t.IsInt && t.N > last {
			last = t.N
		}
	}
	// what an undefined value type is called is the name of none
	got = map[string]bool{}
	for i, s := range sts {
		e.RunAfter(s, fn, []*Term{mkInt(last + 1)}, "name"+itoa(i))
	}
	for x := range got {
		owner[x] = "an undefined value type"
	}
	for _, n := range tagNames {
		got, bad, used = map[string]bool{}, "", map[*ssa.Global]bool{}
		for i, s := range sts {
			e.RunAfter(s, fn, []*Term{w.tags[n]}, "name"+n+itoa(i))
		}
		var name string
		for x := range got {
			name = x
		}
		switch {
		case bad != "":
		case len(got) != 1:
			bad = "the name depends on " + itoa(len(got)) + " cases"
		case name == "":
			bad = "the name is empty"
		case owner[name] != "":
			bad = "the name " + name + " is that of " + owner[name]
		}
		owner[name] = n
		names[n] = name
		c.Check(bad == "", rule, n, c.P.Pos(fn.Pos()), "the name of "+n+": "+bad)
	}
	for f := range e.Funcs {
		if f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						used[g] = true
					}
				}
			}
		}
	}
	for g := range used {
		for _, ins := range globalWrites(c.P, g) {
			c.Bad(rule, "variable "+g.Name(), c.P.InstrPos(ins), "the names of value types can change: "+g.Name()+" is written or passed on in "+ins.Parent().String())
		}
	}
	c.account(fn, e)
	return names
}

var constructorOf = map[string]string{"ArrayType": "Array", "BoolType": "Bool", "FloatType": "Float", "IntegerType": "Integer", "ObjectType": "Object", "StringType": "String", "TimestampType": "Timestamp", "UnsignedIntegerType": "UnsignedInteger"}

func (w *jsonWorld) constructors(rule string) {
	c := w.c
	known := map[*ssa.Function]string{}
	for tag, n := range constructorOf {
		fn := c.P.Func(relEvent, n)
		if fn == nil || len(fn.Params) != 1 || !sigResults(fn, types.NewPointer(w.value)) {
			c.Missing("event." + n)
			continue
		}
		known[fn] = tag
	}
	for _, fn := range pkgFuncs(c.P, relEvent) {
		if fn.Parent() != nil || fn.Signature.Recv() != nil || !sigResults(fn, types.NewPointer(w.value)) || known[fn] == "" && !token.IsExported(fn.Name()) {
			continue
		}
		fn := fn
		ps := rootParams(fn)
		tag := known[fn]
		r := runCases(c, rule, fn, &Client{Model: w.model(nil)}, ps, w.init, func(s *State, ask func(*Term) bool) string { return "every call" })
		r.each(func(p *Path, o string) string {
			s, v := p.St, p.Rets[0]
			if why := quietPath(p); why != "" {
				return why
			}
			if v.Op != OpAlloc {
				return "the result is " + v.String() + " instead of a new value"
			}
			typ := w.vfield(s, v, "Type")
			is := tag
			for _, n := range tagNames {
				if typ == w.tags[n] && (tag == "" || tag == n) {
					is = n
				}
			}
			if is == "" || typ != w.tags[is] {
				return "the type is " + typ.String()
			}
			if why := w.onlyPayload(s, v, is); why != "" {
				return why
			}
			if tag == "" {
				return ""
			}
			got := w.vfield(s, v, payloadOf[tag])
			if tag == "TimestampType" {
				got = mkField(got, 0, types.Typ[types.Int64])
			}
			if sameVal(s, got, ps[0]) {
				return ""
			}
			switch tag {
			case "ArrayType":
				return listOf(r.e, s, got, wholeSrc(ps[0]), elemIs(ps[0]), nilOrEmpty(s))
			case "ObjectType":
				return mapOf(r.e, s, got, ps[0], func(st *State, k, v, gotK, gotV *Term) string {
					if gotK != k || gotV != v {
						return "a member is stored as " + gotK.String() + ": " + gotV.String()
					}
					return ""
				})
			}
			return "the content is " + got.String() + " instead of the argument"
		})
		r.cover("every call")
	}
	// the shared null value
	g, ok := c.P.Pkg(relEvent).Members["NullValue"].(*ssa.Global)
	if !ok {
		c.Missing("event.NullValue")
		return
	}
	e, sts := afterInit(c, relEvent, &Client{PlainMaps: true})
	for _, s := range sts {
		v := s.load(e.val(s, g), types.NewPointer(w.value))
		why := ""
		if v.Op != OpAlloc || w.vfield(s, v, "Type") != w.tags["NullType"] {
			why = "NullValue is " + v.String()
		} else {
			why = w.onlyPayload(s, v, "NullType")
		}
		c.Check(why == "", rule, "event.NullValue", c.P.Pos(g.Pos()), "the shared null value: "+why)
	}
}

func sigResults(fn *ssa.Function, ts ...types.Type) bool {
	r := fn.Signature.Results()
	if r.Len() != len(ts) {
		return false
	}
	for i, t := range ts {
		if !types.Identical(r.At(i).Type(), t) {
			return false
		}
	}
	return true
}

// payloadsIn lists the contents of the value v that t depends on.
func (w *jsonWorld) payloadsIn(s *State, v, t *Term, into map[string]bool) {
	anySub(t, func(x *Term) bool {
		for _, n := range valueFields {
			if x == w.vfieldAt0(s, v, n) || n == "Timestamp" && x == w.nanos(s, v) {
				into[n] = true
			}
		}
		return false
	})
}

// format decides what the text form of a value is made of.
func (w *jsonWorld) format(rule string, names map[string]string) {
	c := w.c
	fn := c.P.Func(relEvent, "*Value.Format")
	str := c.P.Func(relEvent, "ValueType.String")
	if fn == nil || str == nil {
		c.Missing("event.Value.Format")
		return
	}
	ps := rootParams(fn)
	v := ps[0]
	inner := w.model(nil)
	model := func(s *State, cc *CallCtx) ([]*Term, bool) {
		if cc.Fn == str {
			return []*Term{mkApp("typename", types.Typ[types.String], cc.Args[0])}, true
		}
		return inner(s, cc)
	}
	r := runCases(c, rule, fn, &Client{Model: model}, ps, func(s *State) {
		w.init(s)
		s.F.assume(mkEq(v, mkNil()), false)
	}, func(s *State, ask func(*Term) bool) string { return w.caseOf(s, v, ask) })
	r.each(func(p *Path, o string) string {
		if o == "invalid type" {
			return ""
		}
		s := p.St
		used := map[string]bool{}
		name := false
		for _, ev := range p.Events {
			if ev.Kind != "call" {
				continue
			}
			toF := false
			var parts []*Term
			for _, a := range ev.Args {
				if a == ps[1] || a.Op == OpIface && a.Args[0] == ps[1] {
					toF = true
					continue
				}
				parts = append(parts, a)
				parts = append(parts, r.e.elems(s, a)...)
			}
			if !toF {
				continue
			}
			for _, a := range parts {
				w.payloadsIn(s, v, a, used)
				anySub(a, func(x *Term) bool {
					if x.Op == OpApp && x.Aux == "typename" && (x.Args[0] == w.tags[o] || x.Args[0] == w.vfieldAt0(s, v, "Type")) {
						name = true
					}
					if lit, ok := x.isStr(); ok && names[o] != "" && strings.Contains(lit, names[o]) {
						name = true
					}
					if x.Op == OpIface && x.Args[0] == w.tags[o] && types.Identical(x.Typ, structOf(w.value).Field(w.vf["Type"]).Type()) {
						name = true
					}
					return false
				})
			}
		}
		if used["Type"] {
			name = true
		}
		if !name {
			return "the name of the type is not written"
		}
		for _, n := range valueFields {
			if n == "Type" {
				continue
			}
			if used[n] != (n == payloadOf[o]) {
				if used[n] {
					return "the content of field " + n + " is written"
				}
				return "the content of field " + n + " is not written"
			}
		}
		return ""
	})
	r.cover(tagNames...)
}

// ---- JSON ----

// jsonModel models the JSON package on the document kind (for decoding).
func (w *jsonWorld) jsonModel(data *Term, kind string) func(s *State, cc *CallCtx) ([]*Term, bool) {
	inner := w.model(nil)
	errT := types.Universe.Lookup("error").Type()
	return func(s *State, cc *CallCtx) ([]*Term, bool) {
		name := cc.Name
		switch name {
		case jsonPkg + "Marshal":
			return []*Term{mkApp("json", types.NewSlice(types.Typ[types.Byte]), cc.Args[0]), mkApp("jsonerr", errT, cc.Args[0])}, true
		case "bytes.NewReader", "strings.NewReader", "bytes.NewBuffer", "bytes.NewBufferString":
			if bytesFrom(cc.Args[0]) == data {
				return []*Term{mkApp("reader", cc.Sig.Results().At(0).Type(), data)}, true
			}
		case "bytes.TrimSpace":
			if data != nil && bytesFrom(cc.Args[0]) == data {
				return []*Term{data}, true
			}
		case "bytes.Equal":
			for i, a := range cc.Args {
				if x, ok := bytesFrom(cc.Args[1-i]).isStr(); ok && data != nil && bytesFrom(a) == data && x == "null" {
					return []*Term{mkBool(kind == "null")}, true
				}
			}
		case jsonPkg + "NewDecoder":
			x := cc.Args[0]
			if x.Op == OpIface {
				x = x.Args[0]
			}
			if x.Op == OpApp && x.Aux == "reader" {
				return []*Term{mkApp("decoder", cc.Sig.Results().At(0).Type(), x)}, true
			}
		case "(*" + jsonPkg + "Decoder).UseNumber":
			s.Mon["usenumber"] = "yes"
			return nil, true
		case "(*" + jsonPkg + "Decoder).Token":
			if cc.Args[0].Op == OpApp && cc.Args[0].Aux == "decoder" {
				return []*Term{w.token(s, cc, data, kind), mkApp("tokenerr", errT, data)}, true
			}
		case "(*" + jsonPkg + "Decoder).Decode":
			if cc.Args[0].Op == OpApp && cc.Args[0].Aux == "decoder" {
				return []*Term{w.decode(s, cc, data, kind, cc.Args[1])}, true
			}
		case jsonPkg + "Unmarshal":
			if bytesFrom(cc.Args[0]) == data {
				return []*Term{w.decode(s, cc, data, kind, cc.Args[1])}, true
			}
		case jsonPkg + "Valid":
			return []*Term{mkApp("jsonvalid", types.Typ[types.Bool], data)}, true
		case "(" + jsonPkg + "Number).Int64", "(" + jsonPkg + "Number).Float64":
			return []*Term{mkApp("num"+cc.Fn.Name(), cc.Sig.Results().At(0).Type(), cc.Args[0]), mkApp("numerr"+cc.Fn.Name(), errT, cc.Args[0])}, true
		case "(" + jsonPkg + "Number).String":
			return []*Term{mkConv(cc.Args[0], cc.Args[0].Typ, types.Typ[types.String])}, true
		}
		return inner(s, cc)
	}
}

var jsonKinds = []string{"string", "number", "bool", "null", "array", "object"}

func (w *jsonWorld) token(s *State, cc *CallCtx, data *Term, kind string) *Term {
	var delim types.Type
	if n := w.jsonType("Delim"); n != nil {
		delim = n
	}
	switch kind {
	case "array":
		return mkIface(mkInt('['), delim)
	case "object":
		return mkIface(mkInt('{'), delim)
	case "null":
		return mkNil()
	}
	return w.scalar(s, data, kind)
}

func (w *jsonWorld) jsonType(name string) types.Type {
	if p := w.c.P.Prog.ImportedPackage("encoding/json"); p != nil {
		if t := p.Type(name); t != nil {
			return t.Type()
		}
	}
	return nil
}

func (w *jsonWorld) scalar(s *State, data *Term, kind string) *Term {
	var t types.Type
	switch kind {
	case "string":
		t = types.Typ[types.String]
	case "bool":
		t = types.Typ[types.Bool]
	case "number":
		if t = types.Typ[types.Float64]; s.Mon["usenumber"] == "yes" {
			t = w.jsonType("Number")
		}
	case "array":
		t = types.NewSlice(emptyIface())
	case "object":
		t = types.NewMap(types.Typ[types.String], emptyIface())
	}
	return mkIface(decoded(data, t), t)
}

func decoded(data *Term, t types.Type) *Term {
	return mkT(OpApp, "decoded "+typeStr(t), 0, t, false, nil, nil, data)
}

func isDecoded(t, data *Term) bool {
	return t.Op == OpApp && strings.HasPrefix(t.Aux, "decoded ") && t.Args[0] == data
}

// decode stores the content of the document and returns the error.
func (w *jsonWorld) decode(s *State, cc *CallCtx, data *Term, kind string, into *Term) *Term {
	errT := types.Universe.Lookup("error").Type()
	p := into
	if p.Op == OpIface {
		p = p.Args[0]
	}
	fails := mkT(OpApp, "errors.New", 0, errT, false, cc.Instr, s.loopKeys(), mkStr("json"), mkT(OpSym, "site"+cc.Site, 0, nil, false, nil, nil))
	t := deref(p.Typ)
	old := s.load(p, t)
	// what was stored before stays part of the result
	merged := func(x *Term) *Term {
		if old.Op == OpAlloc && mapTypeOf(t) != nil && s.mapLen(old) == mkInt(0) {
			return x
		}
		if s.F.eval(mkEq(old, zeroOf(t))) == yes || old == zeroOf(t) || old.isNil() || s.F.eval(mkEq(old, mkNil())) == yes {
			return x
		}
		return mkT(OpApp, "decoded into "+typeStr(t), 0, t, false, nil, nil, old, data)
	}
	ok := false
	var x *Term
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if ok = u.NumMethods() == 0; kind == "null" {
			x = mkNil()
		} else {
			x = w.scalar(s, data, kind)
		}
		if !(old.isNil() || old == zeroOf(t) || s.F.eval(mkEq(old, mkNil())) == yes) {
			x = merged(x)
		}
	case *types.Slice:
		ok, x = kind == "array", merged(decoded(data, t))
		if kind == "null" {
			ok, x = true, mkNil()
		}
	case *types.Map:
		ok, x = kind == "object", merged(decoded(data, t))
		if kind == "null" {
			ok, x = true, mkNil()
		}
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			ok = kind == "string" || kind == "number" && types.Identical(t, w.jsonType("Number"))
		case u.Info()&types.IsBoolean != 0:
			ok = kind == "bool"
		case u.Info()&types.IsNumeric != 0:
			ok = kind == "number"
		}
		x = decoded(data, t)
		if kind == "null" {
			ok, x = true, old
		}
	default:
		return w.unknownDecode(s, cc, p, errT)
	}
	if !ok {
		return fails
	}
	s.store(p, x, t, cc.Site)
	return mkT(OpApp, "decodeerr "+typeStr(t), 0, errT, false, nil, nil, data)
}

func (w *jsonWorld) unknownDecode(s *State, cc *CallCtx, p *Term, errT types.Type) *Term {
	s.escape(p)
	s.havocAt(p, cc.Site)
	return mkT(OpCallRes, "json·"+cc.Site, 0, errT, false, cc.Instr, s.loopKeys())
}

// textParts splits a text into constant and other parts.
func textParts(s *State, t *Term) (out []*Term) {
	add := func(x *Term) {
		if a, ok := x.isStr(); ok && len(out) > 0 {
			if b, ok := out[len(out)-1].isStr(); ok {
				out[len(out)-1] = mkStr(b + a)
				return
			}
		}
		out = append(out, x)
	}
	char := func(x *Term) *Term {
		if x.IsInt && x.N >= 0 && x.N < 128 {
			return mkStr(string(rune(x.N)))
		}
		return x
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		t = bytesFrom(t)
		switch {
		case t.isNil(), t.Op == OpSliceLit && len(t.Args) == 0:
		case t.Op == OpApp && t.Aux == "concat":
			walk(t.Args[0])
			walk(t.Args[1])
		case t.Op == OpApp && (t.Aux == "(time.Time).AppendFormat" || strings.HasPrefix(t.Aux, "strconv.Append")):
			base := 0
			if t.Aux == "(time.Time).AppendFormat" {
				base = 1
			}
			walk(t.Args[base])
			switch t.Aux {
			case "(time.Time).AppendFormat":
				add(mkApp("(time.Time).Format", types.Typ[types.String], t.Args[0], t.Args[2]))
			case "strconv.AppendInt", "strconv.AppendUint":
				if t.Args[2].IsInt && t.Args[2].N == 10 {
					add(mkApp("decimal", types.Typ[types.String], t.Args[1]))
					return
				}
				add(t)
			default:
				add(t)
			}
		case t.Op == OpAppendSl:
			walk(t.Args[0])
			walk(t.Args[1])
		case t.Op == OpAppend:
			walk(t.Args[0])
			for _, x := range t.Args[1:] {
				add(char(x))
			}
		case t.Op == OpSliceLit:
			for _, x := range t.Args {
				add(char(x))
			}
		case t.Op == OpSlice && mkLen(t).IsInt && mkLen(t).N == 0:
		case t.Op == OpSlice && mkLen(t).IsInt && rootOf(t).Op == OpAlloc:
			for _, x := range s.e.elems(s, t) {
				add(char(x))
			}
		case t.Op == OpAlloc && s.F.eval(mkEq(mkLen(t), mkInt(0))) == yes:
		case t.Op == OpApp && t.Aux == "strconv.FormatUint" && t.Args[1].IsInt && t.Args[1].N == 10:
			add(mkApp("decimal", types.Typ[types.String], t.Args[0]))
		default:
			if x, ok := t.isStr(); ok && x == "" {
				return
			}
			add(t)
		}
	}
	walk(t)
	return
}

func constText(s *State, t *Term) (string, bool) {
	ps := textParts(s, t)
	if len(ps) == 0 {
		return "", true
	}
	if len(ps) == 1 {
		return ps[0].isStr()
	}
	return "", false
}

// isTimeText: t is the RFC 3339 form of the time in UTC n nanoseconds after
// the epoch, with quotes.
func isTimeText(s *State, t, n *Term) bool {
	isForm := func(f *Term) bool {
		if f.Op != OpApp {
			return false
		}
		var tm, layout *Term
		switch f.Aux {
		case "(time.Time).Format":
			tm, layout = f.Args[0], f.Args[1]
		default:
			return false
		}
		l, ok := layout.isStr()
		if !ok || !isUTC(s, tm, n) {
			return false
		}
		switch l {
		case rfc3339Nano, "2006-01-02T15:04:05.999999999Z", "2006-01-02T15:04:05.000000000Z07:00", "2006-01-02T15:04:05.000000000Z":
			return true
		}
		return false
	}
	x := bytesFrom(t)
	if x.Op == OpApp && x.Aux == "(time.Time).MarshalJSON#0" && isUTC(s, x.Args[0], n) {
		return true
	}
	ps := textParts(s, t)
	if len(ps) == 3 {
		a, ok1 := ps[0].isStr()
		b, ok2 := ps[2].isStr()
		return ok1 && ok2 && a == `"` && b == `"` && isForm(ps[1])
	}
	if len(ps) == 1 && ps[0].Op == OpApp && ps[0].Aux == "strconv.Quote" {
		return isForm(ps[0].Args[0])
	}
	return false
}

// encodes finds the Go value whose JSON form is returned with its error;
// failed: the path returns the error of encoding it.
func encodes(p *Path) (x *Term, failed bool, why string) {
	s := p.St
	data, err := p.Rets[0], p.Rets[1]
	d := bytesFrom(data)
	errOf := func(e *Term) *Term {
		var got *Term
		anySub(e, func(t *Term) bool {
			if t.Op == OpApp && (t.Aux == "jsonerr" || t.Aux == "(time.Time).MarshalJSON#1") {
				got = t
			}
			return false
		})
		return got
	}
	if s.F.eval(mkEq(err, mkNil())) == no {
		if je := errOf(err); je != nil && s.F.eval(mkEq(je, mkNil())) == no {
			return nil, true, ""
		}
		return nil, false, "the error " + err.String() + " is returned although nothing failed"
	}
	if d.Op == OpApp && d.Aux == "json" {
		je := mkApp("jsonerr", err.Typ, d.Args[0])
		for _, t := range factTerms(s.F, func(t *Term) bool { return t.Op == OpApp && t.Aux == "jsonerr" && t.Args[0] == d.Args[0] }) {
			je = t
		}
		if err == je || err.Op == OpApp && err.Aux == "jsonerr" && err.Args[0] == d.Args[0] || s.F.eval(mkEq(je, mkNil())) == yes {
			return d.Args[0], false, ""
		}
		return nil, false, "the error of encoding " + d.Args[0].String() + " is lost"
	}
	for _, t := range factTerms(s.F, func(t *Term) bool { return t.Op == OpApp && t.Aux == "jsonerr" }) {
		if s.F.eval(mkEq(t, mkNil())) == no {
			return nil, false, "an error of encoding is lost"
		}
	}
	if d.Op == OpApp && d.Aux == "(time.Time).MarshalJSON#0" {
		if !(err.Op == OpApp && err.Aux == "(time.Time).MarshalJSON#1") {
			return nil, false, "the error of encoding the time is lost"
		}
		return nil, false, ""
	}
	if !err.isNil() && s.F.eval(mkEq(err, mkNil())) != yes {
		return nil, false, "the error is " + err.String()
	}
	return nil, false, ""
}

// valueJSON decides MarshalJSON of values.
func (w *jsonWorld) valueJSON(rule string) {
	c := w.c
	fn := c.P.Func(relEvent, "*Value.MarshalJSON")
	if fn == nil {
		c.Missing("event.Value.MarshalJSON")
		return
	}
	v := rootParams(fn)[0]
	r := runCases(c, rule, fn, &Client{Model: w.jsonModel(nil, "")}, []*Term{v}, func(s *State) {
		w.init(s)
		s.F.assume(mkEq(v, mkNil()), false)
	}, func(s *State, ask func(*Term) bool) string {
		o := w.caseOf(s, v, ask)
		if o == "ArrayType" || o == "ObjectType" {
			if ask(mkEq(w.vfieldAt0(s, v, payloadOf[o]), mkNil())) {
				return o + " without content"
			}
		}
		return o
	})
	r.each(func(p *Path, o string) string {
		s := p.St
		if o == "invalid type" {
			return ""
		}
		if why := quietPath(p); why != "" {
			return why
		}
		return w.isJSONOf(s, p, v, o)
	})
	r.cover(append([]string{"ArrayType without content", "ObjectType without content"}, tagNames...)...)
}

func (w *jsonWorld) isJSONOf(s *State, p *Path, v *Term, o string) string {
	x, failed, why := encodes(p)
	if why != "" || failed {
		return why
	}
	text, isText := "", false
	if x == nil {
		text, isText = constText(s, p.Rets[0])
	}
	is := func(want string) string {
		if !isText || text != want {
			return "the JSON form is " + bytesFrom(p.Rets[0]).String() + " instead of " + want
		}
		return ""
	}
	tag := strings.TrimSuffix(o, " without content")
	isPayload := func(x *Term) bool {
		if x == nil || x.Op != OpIface {
			return false
		}
		y := x.Args[0]
		want := w.vfieldAt0(s, v, payloadOf[tag])
		if tag == "TimestampType" {
			return isGoTime(x.Typ) && isUTC(s, y, w.nanos(s, v)) || w.timeT != nil && types.Identical(x.Typ, w.timeT) && (y == want || mkField(y, 0, types.Typ[types.Int64]) == w.nanos(s, v))
		}
		return types.Identical(x.Typ, want.Typ) && sameVal(s, y, want)
	}
	switch tag {
	case "NullType":
		if x != nil {
			if x.isNil() || s.F.eval(mkEq(x, mkNil())) == yes {
				return ""
			}
			return "the JSON form is that of " + x.String() + " instead of null"
		}
		return is("null")
	case "ArrayType", "ObjectType":
		pay := w.vfieldAt0(s, v, payloadOf[tag])
		empty := map[string]string{"ArrayType": "[]", "ObjectType": "{}"}[tag]
		size := mkLen(pay)
		if tag == "ObjectType" {
			size = w.state0(s).mapLen(pay)
		}
		if o != tag || isText {
			if s.F.eval(mkEq(size, mkInt(0))) != yes && s.F.eval(mkEq(pay, mkNil())) != yes {
				return "the JSON form of a value with content is " + text
			}
			if x != nil && x.Op == OpIface && types.Identical(x.Typ, pay.Typ) && s.F.eval(mkEq(x.Args[0], mkNil())) == no && x.Args[0].Op == OpAlloc {
				if tag == "ArrayType" && emptyList(s.F, x.Args[0]) || tag == "ObjectType" && s.F.eval(mkEq(s.mapLen(x.Args[0]), mkInt(0))) == yes {
					return ""
				}
			}
			if x != nil {
				return "the JSON form of a value without content is that of " + x.String() + ", which is null"
			}
			return is(empty)
		}
		if !isPayload(x) {
			return "the JSON form is " + bytesFrom(p.Rets[0]).String() + " instead of that of the content"
		}
		return ""
	case "TimestampType":
		if isPayload(x) || x == nil && isTimeText(s, p.Rets[0], w.nanos(s, v)) {
			return ""
		}
	case "BoolType":
		if isText {
			return is(map[tri]string{yes: "true", no: "false"}[s.F.eval(w.vfieldAt0(s, v, "Bool"))])
		}
		if isPayload(x) {
			return ""
		}
	case "IntegerType", "UnsignedIntegerType":
		if isPayload(x) {
			return ""
		}
		if ps := textParts(s, p.Rets[0]); x == nil && len(ps) == 1 && ps[0].Op == OpApp && ps[0].Aux == "decimal" && ps[0].Args[0] == w.vfieldAt0(s, v, payloadOf[tag]) {
			return ""
		}
	default:
		if isPayload(x) {
			return ""
		}
	}
	return "the JSON form is " + bytesFrom(p.Rets[0]).String() + " instead of that of the content"
}

// encoders: the types encode themselves through the methods that were
// decided.
func (w *jsonWorld) marshalers(rule string) {
	c := w.c
	by := types.NewSlice(types.Typ[types.Byte])
	errT := types.Universe.Lookup("error").Type()
	for _, x := range []struct {
		name, method string
		t            types.Type
	}{
		{"*event.Value", "MarshalJSON", types.NewPointer(w.value)}, {"*event.Event", "MarshalJSON", types.NewPointer(w.event)},
		{"event.Time", "MarshalJSON", w.timeT}, {"*event.Value", "UnmarshalJSON", types.NewPointer(w.value)}, {"*event.Event", "UnmarshalJSON", types.NewPointer(w.event)},
	} {
		ok := false
		if sel := types.NewMethodSet(x.t).Lookup(nil, x.method); sel != nil {
			sig := sel.Type().(*types.Signature)
			if x.method == "MarshalJSON" {
				ok = sig.Params().Len() == 0 && sig.Results().Len() == 2 && types.Identical(sig.Results().At(0).Type(), by) && types.Identical(sig.Results().At(1).Type(), errT)
			} else {
				ok = sig.Params().Len() == 1 && types.Identical(sig.Params().At(0).Type(), by) && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), errT)
			}
		}
		c.Check(ok, rule, x.name+"."+x.method, "", x.name+" has no method "+x.method+" that encoding/json uses")
	}
	c.Check(types.NewMethodSet(types.NewPointer(w.value)).Lookup(nil, "MarshalText") == nil, rule, "*event.Value has no text form", "", "*event.Value has a method MarshalText")
}

func (w *jsonWorld) eventJSON(rule string) {
	c := w.c
	fn := c.P.Func(relEvent, "*Event.MarshalJSON")
	if fn == nil {
		c.Missing("event.Event.MarshalJSON")
		return
	}
	evt := rootParams(fn)[0]
	fields := func(s *State) *Term { return loadField(w.state0(s), evt, w.fFields) }
	r := runCases(c, rule, fn, &Client{Model: w.jsonModel(nil, "")}, []*Term{evt}, func(s *State) {
		w.init(s)
		s.F.assume(mkEq(evt, mkNil()), false)
	}, func(s *State, ask func(*Term) bool) string {
		if ask(mkEq(fields(s), mkNil())) {
			return "an event without members"
		}
		return "an event"
	})
	r.each(func(p *Path, o string) string {
		s := p.St
		for _, ev := range p.Events {
			if ev.Kind == "store" && rootOf(ev.Addr).Op != OpAlloc && !(ev.Addr.Op == OpFieldAddr && ev.Addr.Args[0] == evt) || ev.Kind == "mapset" || ev.Kind == "mapdel" {
				return "the event is changed"
			}
		}
		x, failed, why := encodes(p)
		if why != "" || failed {
			return why
		}
		none := s.F.eval(mkEq(fields(s), mkNil())) == yes || s.F.eval(mkEq(w.state0(s).mapLen(fields(s)), mkInt(0))) == yes
		if x == nil {
			if text, ok := constText(s, p.Rets[0]); ok && none && text == "{}" {
				return ""
			}
			return "the JSON form is " + bytesFrom(p.Rets[0]).String()
		}
		if x.Op != OpIface {
			return "the JSON form is that of " + x.String()
		}
		y := x.Args[0]
		m := y
		if ptrTo(x.Typ, w.value) {
			if y.Op != OpAlloc || w.vfield(s, y, "Type") != w.tags["ObjectType"] {
				return "the JSON form is that of " + y.String() + " instead of an object"
			}
			m = w.vfield(s, y, "Object")
			if m.isNil() && none {
				return ""
			}
		} else if mt := mapTypeOf(x.Typ); mt == nil || !ptrTo(mt.Elem(), w.value) {
			return "the JSON form is that of " + x.String()
		} else if s.F.eval(mkEq(m, mkNil())) != no && m.Op != OpAlloc {
			return "the JSON form of an event without members is null"
		}
		if m == fields(s) || m.Op == OpAlloc && none && s.F.eval(mkEq(s.mapLen(m), mkInt(0))) == yes {
			return ""
		}
		return "the JSON form is that of " + m.String() + " instead of the members"
	})
	r.cover("an event", "an event without members")
}

func (w *jsonWorld) timeJSON(rule string) {
	c := w.c
	fn := c.P.Func(relEvent, "Time.MarshalJSON")
	if fn == nil || w.timeT == nil {
		c.Missing("event.Time.MarshalJSON")
		return
	}
	t := rootParams(fn)[0]
	r := runCases(c, rule, fn, &Client{Model: w.jsonModel(nil, "")}, []*Term{t}, w.init, func(s *State, ask func(*Term) bool) string { return "every time" })
	r.each(func(p *Path, o string) string {
		s := p.St
		x, failed, why := encodes(p)
		if why != "" || failed {
			return why
		}
		n := mkField(t, 0, types.Typ[types.Int64])
		if x != nil {
			if x.Op == OpIface && isGoTime(x.Typ) && isUTC(s, x.Args[0], n) {
				return ""
			}
			if x.Op == OpIface && isStringType(x.Typ) && isTimeText(s, mkApp("concat", types.Typ[types.String], mkApp("concat", types.Typ[types.String], mkStr(`"`), x.Args[0]), mkStr(`"`)), n) {
				return ""
			}
			return "the JSON form is that of " + x.String()
		}
		if !isTimeText(s, p.Rets[0], n) {
			return "the JSON form is " + bytesFrom(p.Rets[0]).String() + " instead of the RFC 3339 form in UTC with nanoseconds"
		}
		return ""
	})
	r.cover("every time")
}

// ---- decoding ----

var tagOfJSON = map[string]string{"string": "StringType", "number": "FloatType", "bool": "BoolType", "null": "NullType", "array": "ArrayType", "object": "ObjectType"}

// document: data is a JSON document of the kind.
func (w *jsonWorld) document(s *State, data *Term, kind string) {
	s.F.assume(mkLt(mkInt(0), mkLen(data)), true)
	by := types.Typ[types.Byte]
	at := mkIndexAddr(data, mkInt(0), types.NewPointer(by))
	firsts := map[string]byte{"string": '"', "null": 'n', "array": '[', "object": '{'}
	if b, ok := firsts[kind]; ok {
		s.mem[at] = mkInt(int64(b))
	} else {
		x := s.load(at, by)
		for _, b := range firsts {
			s.F.assume(mkEq(x, mkInt(int64(b))), false)
		}
		if kind == "number" {
			s.F.assume(mkEq(x, mkInt('t')), false)
			s.F.assume(mkEq(x, mkInt('f')), false)
		}
	}
	s.F.assume(mkEq(mkConv(data, data.Typ, types.Typ[types.String]), mkStr("null")), kind == "null")
}

// decodeFailed: the path knows of an error; it must be returned.
func decodeFailed(p *Path, err *Term) (failed bool, why string) {
	s := p.St
	for _, t := range factTerms(s.F, func(t *Term) bool {
		return t.Op == OpApp && (t.Aux == "tokenerr" || strings.HasPrefix(t.Aux, "decodeerr "))
	}) {
		if s.F.eval(mkEq(t, mkNil())) == no {
			if s.F.eval(mkEq(err, mkNil())) != no && err != t {
				return true, "the error of decoding is lost"
			}
			return true, ""
		}
	}
	return false, ""
}

func (w *jsonWorld) valueDecode(rule, numbers string) {
	c := w.c
	fn := c.P.Func(relEvent, "*Value.UnmarshalJSON")
	if fn == nil {
		c.Missing("event.Value.UnmarshalJSON")
		return
	}
	ps := rootParams(fn)
	v, data := ps[0], ps[1]
	for _, kind := range jsonKinds {
		kind := kind
		r := runCases(c, rule, fn, &Client{Model: w.jsonModel(data, kind)}, ps, func(s *State) {
			w.init(s)
			s.F.assume(mkEq(v, mkNil()), false)
			w.document(s, data, kind)
		}, func(s *State, ask func(*Term) bool) string { return "JSON " + kind })
		good := 0
		r.each(func(p *Path, o string) string {
			s := p.St
			err := p.Rets[0]
			if failed, why := decodeFailed(p, err); failed {
				return why
			}
			if s.F.eval(mkEq(err, mkNil())) == no && !isDecodeErr(err) {
				return "decoding fails with " + err.String()
			}
			if !isDecodeErr(err) && s.F.eval(mkEq(err, mkNil())) != yes {
				return "the error is " + err.String()
			}
			if why := w.unchecked(p, data, err, v); why != "" {
				return why
			}
			good++
			tag := tagOfJSON[kind]
			typ := w.vfield(s, v, "Type")
			if kind == "number" {
				return w.number(c, r, numbers, s, v, data)
			}
			if !sameVal(s, typ, w.tags[tag]) {
				return "the type is " + typ.String() + " instead of " + tag
			}
			if why := w.onlyPayload(s, v, tag); why != "" {
				return why
			}
			switch kind {
			case "null":
				return ""
			case "array":
				return w.nullsIn(r.e, s, w.vfield(s, v, "Array"), data)
			case "object":
				return w.nullMembers(r.e, s, w.vfield(s, v, "Object"), data)
			}
			got := w.vfield(s, v, payloadOf[tag])
			if !isDecoded(got, data) || !types.Identical(got.Typ.Underlying(), structOf(w.value).Field(w.vf[payloadOf[tag]]).Type().Underlying()) {
				return "the content is " + got.String()
			}
			return ""
		})
		if good == 0 {
			c.Bad(rule, fn.String()+": JSON "+kind, c.P.Pos(fn.Pos()), "decoding a JSON "+kind+" never succeeds")
		}
		r.cover("JSON " + kind)
	}
}

func isDecodeErr(err *Term) bool {
	return err.Op == OpApp && (strings.HasPrefix(err.Aux, "decodeerr ") || err.Aux == "tokenerr")
}

// unchecked: what was decoded is used only if its error is nil or returned.
func (w *jsonWorld) unchecked(p *Path, data, err, v *Term) string {
	s := p.St
	why := ""
	need := func(t *Term) {
		anySub(t, func(x *Term) bool {
			if isDecoded(x, data) {
				known := false
				for _, e := range factTerms(s.F, func(e *Term) bool { return isDecodeErr(e) }) {
					if s.F.eval(mkEq(e, mkNil())) == yes {
						known = true
					}
				}
				if !known && !isDecodeErr(err) {
					why = "the decoded content is used although decoding can have failed"
				}
			}
			return false
		})
	}
	for _, n := range valueFields {
		need(w.vfield(s, v, n))
	}
	return why
}

// number: the content of a number must be exact.
func (w *jsonWorld) number(c *Ctx, r *caseRun, rule string, s *State, v, data *Term) string {
	typ := w.vfield(s, v, "Type")
	var tag string
	for _, n := range []string{"FloatType", "IntegerType", "UnsignedIntegerType"} {
		if sameVal(s, typ, w.tags[n]) {
			tag = n
		}
	}
	if tag == "" {
		return "the type is " + typ.String()
	}
	if why := w.onlyPayload(s, v, tag); why != "" {
		return why
	}
	got := w.vfield(s, v, payloadOf[tag])
	src := false
	anySub(got, func(x *Term) bool {
		if isDecoded(x, data) || x == data {
			src = true
		}
		return false
	})
	if !src {
		return "the content is " + got.String()
	}
	exact := true
	switch {
	case isDecoded(got, data) && types.Identical(got.Typ, types.Typ[types.Float64]):
		exact = false
	case isDecoded(got, data):
	case got.Op == OpApp && (got.Aux == "numInt64" || got.Aux == "strconv.ParseInt#0" || got.Aux == "strconv.ParseUint#0"):
		if !w.parsed(s, got) {
			return "the content is used although the number does not have that form"
		}
	case got.Op == OpApp && (got.Aux == "numFloat64" || got.Aux == "strconv.ParseFloat#0"):
		if !w.parsed(s, got) {
			return "the content is used although the number does not have that form"
		}
		exact = false
		for _, t := range factTerms(s.F, func(t *Term) bool {
			return t.Op == OpApp && (t.Aux == "numerrInt64" || t.Aux == "strconv.ParseInt#1")
		}) {
			if s.F.eval(mkEq(t, mkNil())) == no {
				exact = true
			}
		}
	default:
		return "the content is " + got.String()
	}
	c.Check(exact, rule, "JSON numbers", c.P.Pos(r.fn.Pos()), "every JSON number becomes a float64: integers beyond 2^53 change their value")
	return ""
}

func (w *jsonWorld) parsed(s *State, got *Term) bool {
	aux := map[string]string{"numInt64": "numerrInt64", "numFloat64": "numerrFloat64", "strconv.ParseInt#0": "strconv.ParseInt#1", "strconv.ParseUint#0": "strconv.ParseUint#1", "strconv.ParseFloat#0": "strconv.ParseFloat#1"}[got.Aux]
	for _, t := range factTerms(s.F, func(t *Term) bool { return t.Op == OpApp && t.Aux == aux && t.Args[0] == got.Args[0] }) {
		if s.F.eval(mkEq(t, mkNil())) == yes {
			return true
		}
	}
	return false
}

// nullsIn: the list is the decoded one with a null value in place of each
// element that is missing.
func (w *jsonWorld) nullsIn(e *Engine, s *State, l, data *Term) string {
	if l.Op == OpSlice && l.Args[0].Op == OpApp {
		l = l.Args[0]
	}
	if !isDecoded(l, data) || typeStr(l.Typ) != typeStr(structOf(w.value).Field(w.vf["Array"]).Type()) {
		return "the array is " + l.String() + " instead of the decoded elements"
	}
	elT := types.NewPointer(w.value)
	if s.F.eval(mkLt(mkInt(0), mkLen(l))) == no {
		return ""
	}
	isElem := func(t *Term) (*Term, bool) {
		if t.Op == OpLoad && t.Args[0].Op == OpIndexAddr && t.Args[0].Args[0] == l {
			return t.Args[0].Args[1], true
		}
		return nil, false
	}
	for _, ev := range s.Events() {
		if ev.Kind == "store" && rootOf(ev.Addr) == l {
			return "the elements are also changed outside a loop over them"
		}
	}
	var why string
	for _, ev := range s.Events() {
		if ev.Kind != "loop" {
			continue
		}
		rec := e.Loops[ev.Loop]
		first, later := map[*Term]bool{}, map[*Term]bool{}
		ok := true
		for _, it := range rec.Iters {
			seen := map[*Term]*Term{} // index -> element
			for _, t := range factTerms(it.St.F, func(t *Term) bool { _, ok := isElem(t); return ok }) {
				i, _ := isElem(t)
				if it.First == (i.IsInt) || !it.First && loopVarIn(i) != nil {
					if it.First || hasStr(i.loops, rec.Key) {
						seen[i] = t
					}
				}
			}
			if len(seen) == 0 {
				ok = false
				break
			}
			for i, t := range seen {
				end := it.St.load(mkIndexAddr(l, i, types.NewPointer(elT)), elT)
				nilT := it.St.F.eval(mkEq(t, mkNil()))
				switch {
				case end == t && nilT == no:
				case end != t && nilT == yes && w.isNullValue(it.St, end):
				default:
					why = "an iteration leaves the element " + end.String()
				}
				if it.First {
					first[i] = true
				} else {
					later[i] = true
				}
			}
			n := 0
			for _, x := range it.Events {
				if x.Kind == "store" && rootOf(x.Addr) == l {
					n++
				}
			}
			if n > 1 {
				why = "an iteration changes several elements"
			}
		}
		if !ok {
			continue
		}
		if why != "" {
			return why
		}
		return covers(e, s, sliceSrc(l), ev.Loop, first, later)
	}
	return "null elements of the array stay nil"
}

func (w *jsonWorld) nullMembers(e *Engine, s *State, m, data *Term) string {
	if !isDecoded(m, data) || mapTypeOf(m.Typ) == nil || !ptrTo(mapTypeOf(m.Typ).Elem(), w.value) {
		return "the object is " + m.String() + " instead of the decoded members"
	}
	if s.F.eval(mkEq(s.mapLen(m), mkInt(0))) == yes {
		return ""
	}
	for _, ev := range s.Events() {
		if (ev.Kind == "mapset" || ev.Kind == "mapdel") && ev.Args[0] == m {
			return "the members are also changed outside a loop over them"
		}
	}
	for _, ev := range s.Events() {
		if ev.Kind != "loop" {
			continue
		}
		rec := e.Loops[ev.Loop]
		over := false
		for _, it := range rec.Iters {
			k, v := memberOf(it.St, m)
			if k == nil || !rangesOver(rec, m, it.St) {
				continue
			}
			over = true
			var set *Event
			for _, x := range it.Events {
				if x.Kind == "mapdel" && x.Args[0] == m {
					return "a member is removed"
				}
				if x.Kind == "mapset" && x.Args[0] == m {
					if set != nil {
						return "an iteration changes several members"
					}
					set = x
				}
			}
			nilT := it.St.F.eval(mkEq(v, mkNil()))
			switch {
			case set == nil && nilT == no:
			case set != nil && set.Args[1] == k && (nilT == yes && w.isNullValue(it.St, set.Val) || nilT == no && set.Val == v):
			case set == nil:
				return "a null member stays nil"
			default:
				return "an iteration stores " + set.Val.String() + " as " + set.Args[1].String()
			}
		}
		if over {
			if !mapEnd(s, m) {
				return "the iteration over the members can end early"
			}
			return ""
		}
	}
	if mapEnd(s, m) {
		return ""
	}
	return "null members of the object stay nil"
}

func (w *jsonWorld) eventDecode(rule string) {
	c := w.c
	fn := c.P.Func(relEvent, "*Event.UnmarshalJSON")
	if fn == nil {
		c.Missing("event.Event.UnmarshalJSON")
		return
	}
	ps := rootParams(fn)
	evt, data := ps[0], ps[1]
	for _, kind := range jsonKinds {
		kind := kind
		r := runCases(c, rule, fn, &Client{Model: w.jsonModel(data, kind)}, ps, func(s *State) {
			w.init(s)
			s.F.assume(mkEq(evt, mkNil()), false)
			w.document(s, data, kind)
		}, func(s *State, ask func(*Term) bool) string { return "JSON " + kind })
		good := 0
		r.each(func(p *Path, o string) string {
			s := p.St
			err := p.Rets[0]
			if failed, why := decodeFailed(p, err); failed {
				return why
			}
			if s.F.eval(mkEq(err, mkNil())) == no && !isDecodeErr(err) {
				if kind == "object" {
					return "decoding fails with " + err.String()
				}
				return ""
			}
			if kind != "object" && kind != "null" {
				return "a JSON " + kind + " becomes an event"
			}
			if !isDecodeErr(err) && s.F.eval(mkEq(err, mkNil())) != yes {
				return "the error is " + err.String()
			}
			good++
			m := loadField(s, evt, w.fFields)
			if kind == "null" {
				if m.isNil() || m.Op == OpAlloc && s.F.eval(mkEq(s.mapLen(m), mkInt(0))) == yes {
					return ""
				}
				return "null becomes an event with members " + m.String()
			}
			known := isDecodeErr(err)
			for _, e := range factTerms(s.F, isDecodeErr) {
				if s.F.eval(mkEq(e, mkNil())) == yes {
					known = true
				}
			}
			if !known {
				return "the decoded content is used although decoding can have failed"
			}
			return w.nullMembers(r.e, s, m, data)
		})
		if good == 0 && kind == "object" {
			c.Bad(rule, fn.String()+": JSON "+kind, c.P.Pos(fn.Pos()), "decoding a JSON "+kind+" never succeeds")
		}
		r.cover("JSON " + kind)
	}
}

func init() {
	register("C06", func(c *Ctx) {
		w := newJSONWorld(c)
		if w == nil {
			return
		}
		c.Rule("C06-names", "each value type has a name of its own, which never changes", 9)
		c.Rule("C06-construct", "each constructor returns a new value with the type tag and, in the field of that type and in no other, its argument; NullValue is a null value without content", 9)
		c.Rule("C06-format", "the text form of a value is made of the name of its type and the content of that type and no other", 9)
		c.Rule("C06-json", "the JSON form of a value is made of the content of its type and no other, for every type", 11)
		c.Rule("C06-clone", "the copy of a value has its type and content, for every type", 1)
		c.Rule("C06-proto", "the conversions to and from protobuf handle every type with the content of that type and no other", 23)
		c.Rule("C06-map", "the conversion to maps handles every type with the content of that type and no other", 10)
		names := w.typeNames("C06-names")
		w.constructors("C06-construct")
		w.format("C06-format", names)
		w.valueJSON("C06-json")
		pw := &procWorld{valueWorld: w.valueWorld, clones: map[*ssa.Function]bool{}}
		pw.findClones("C06-clone")
		if pb := newConvWorld(c, true); pb != nil {
			pb.protoBoth(c, "C06-proto", "C06-proto")
		}
		c.choose("a recursive func(*event.Value) interface{}", candidates(c.P, relMap, types.NewPointer(w.value), emptyIface()), func(c *Ctx, fn *ssa.Function) { w.mapFrom(c, "C06-map", fn) })
	})
	register("C32", func(c *Ctx) {
		w := newJSONWorld(c)
		if w == nil {
			return
		}
		c.Rule("C32-methods", "values, events and times encode and decode themselves through the methods that encoding/json looks for", 6)
		c.Rule("C32-value", "MarshalJSON of a value returns the JSON form of its content: null, true, numbers, strings, the array or object itself, [] and {} without content; an error of encoding is returned", 11)
		c.Rule("C32-event", "MarshalJSON of an event returns the JSON object of its members, {} without members", 2)
		c.Rule("C32-time", "MarshalJSON of a time returns its RFC 3339 form in UTC with nanoseconds in quotes", 1)
		c.Rule("C32-decode", "UnmarshalJSON of a value sets the type that corresponds to the JSON type, the decoded content in the field of that type, all elements and members with null values in place of nil, and resets every other field; or it returns the error", 6)
		c.Rule("C32-decode-event", "UnmarshalJSON of an event sets exactly the decoded members, with null values in place of nil, or returns the error", 6)
		c.Rule("C32-number", "the content of a decoded number is exact", 1)
		w.marshalers("C32-methods")
		w.valueJSON("C32-value")
		w.eventJSON("C32-event")
		w.timeJSON("C32-time")
		w.valueDecode("C32-decode", "C32-number")
		w.eventDecode("C32-decode-event")
	})
}
