package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C19: pipeline definitions in YAML and in JSON.

type cfgField struct {
	i          int
	name       string // Go name
	yaml, json string
	inline     bool
	odd        string // an option of the tag that changes the form
	pos        string
}

type cfgWorld struct {
	c      *Ctx
	conf   *types.Named
	opts   *types.Named
	inline int            // the field that takes the other options
	names  map[string]int // JSON name -> field of the options
	errs   map[*Term]bool // the errors of decoding the document
	floats string         // where numbers are decoded as float64
	folded string         // where members are matched with fields regardless of case
}

func tagName(tag, key, def string) (string, []string) {
	v, ok := reflect.StructTag(tag).Lookup(key)
	if !ok {
		return def, nil
	}
	parts := strings.Split(v, ",")
	if parts[0] == "" {
		parts[0] = def
	}
	return parts[0], parts[1:]
}

func cfgFields(p *Prog, n *types.Named) []cfgField {
	st := structOf(n)
	var out []cfgField
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() {
			continue
		}
		x := cfgField{i: i, name: f.Name(), pos: p.Pos(f.Pos())}
		var yo []string
		x.yaml, yo = tagName(st.Tag(i), "yaml", strings.ToLower(f.Name()))
		var jo []string
		x.json, jo = tagName(st.Tag(i), "json", f.Name())
		for _, o := range append(append([]string{}, yo...), jo...) {
			if o != "omitempty" && o != "omitzero" && o != "flow" && o != "inline" {
				x.odd = o
			}
		}
		x.inline = hasStr(yo, "inline")
		out = append(out, x)
	}
	return out
}

// methodOf finds a declared method of a type or of the pointer to it.
func methodOf(p *Prog, t types.Type, pkg *types.Package, name string) *ssa.Function {
	sel := types.NewMethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return p.Prog.MethodValue(sel)
}

func analyseConfigForms(c *Ctx) {
	w := &cfgWorld{c: c, inline: -1, names: map[string]int{}, errs: map[*Term]bool{}}
	w.conf = lookupNamed(c.P, relPipeline, "Config")
	w.opts = lookupNamed(c.P, relPipeline, "ProcessorOptionConfig")
	if w.conf == nil || structOf(w.conf) == nil {
		c.Missing("the struct pipeline.Config")
		return
	}
	if w.opts == nil || structOf(w.opts) == nil {
		c.Missing("the struct pipeline.ProcessorOptionConfig")
		return
	}
	for _, n := range []*types.Named{w.conf, w.opts} {
		want := map[string]bool{"id": true, "description": true, "processors": true, "on_failure": true}
		if n == w.opts {
			want = map[string]bool{"id": true, "if": true, "on_failure": true}
		}
		tn := n.Obj().Name()
		byYAML := map[string]string{}
		for _, f := range cfgFields(c.P, n) {
			id := tn + "." + f.name
			if f.inline {
				mt := mapTypeOf(structOf(n).Field(f.i).Type())
				if c.Check(mt != nil && isStringType(mt.Key()) && w.inline < 0 && n == w.opts, "C19-names", id, f.pos, "the field "+f.name+" does not take all other options") {
					w.inline = f.i
				}
				continue
			}
			why := ""
			switch {
			case f.odd != "":
				why = "the tag option " + f.odd + " gives the field " + f.name + " another form"
			case f.yaml == "-" && f.json == "-":
				continue
			case f.yaml != f.json:
				why = fmt.Sprintf("the field %s is called %q in YAML, but %q in JSON", f.name, f.yaml, f.json)
			case byYAML[f.yaml] != "":
				why = fmt.Sprintf("the fields %s and %s are both called %q", byYAML[f.yaml], f.name, f.yaml)
			}
			byYAML[f.yaml] = f.name
			delete(want, f.yaml)
			c.Check(why == "", "C19-names", id, f.pos, why)
			if n == w.opts {
				w.names[f.json] = f.i
			}
		}
		for k := range want {
			c.Bad("C19-names", tn+": "+k, c.P.Pos(n.Obj().Pos()), "no field of "+tn+" takes the documented key "+k)
		}
	}
	for _, n := range configTypes(c.P, w.conf, w.opts) {
		for _, m := range []string{"UnmarshalYAML", "MarshalYAML", "UnmarshalJSON", "MarshalJSON", "UnmarshalText", "MarshalText", "UnmarshalJSONFrom", "MarshalJSONTo"} {
			if n == w.opts && (m == "UnmarshalJSON" || m == "MarshalJSON") {
				continue
			}
			if methodOf(c.P, types.NewPointer(n), n.Obj().Pkg(), m) != nil {
				c.Bad("undecided", n.Obj().Name()+"."+m, c.P.Pos(n.Obj().Pos()), "the form of "+n.Obj().Name()+" in a definition is not given by its type and tags")
			}
		}
	}
	if w.inline < 0 {
		c.Missing("the field of pipeline.ProcessorOptionConfig that takes all other options")
		return
	}
	w.decoding()
	w.encoding()
}

// configTypes lists the named types of the module that definitions consist of.
func configTypes(p *Prog, roots ...*types.Named) []*types.Named {
	var out []*types.Named
	seen := map[types.Type]bool{}
	var walk func(t types.Type)
	walk = func(t types.Type) {
		if seen[t] {
			return
		}
		seen[t] = true
		if n := namedOf(t); n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), p.Mod) {
			out = append(out, n)
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			walk(u.Elem())
		case *types.Slice:
			walk(u.Elem())
		case *types.Array:
			walk(u.Elem())
		case *types.Map:
			walk(u.Key())
			walk(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type())
			}
		}
	}
	for _, r := range roots {
		walk(r)
	}
	return out
}

// model of encoding/json for a document data and the types of the module.
func (w *cfgWorld) model(data *Term) func(s *State, cc *CallCtx) ([]*Term, bool) {
	errT := types.Universe.Lookup("error").Type()
	decode := func(s *State, cc *CallCtx, into *Term) []*Term {
		p, t := into, deref(into.Typ)
		if p.Op == OpIface {
			// the type in the interface, which need not be the declared one
			p, t = p.Args[0], deref(p.Typ)
		}
		if n := namedOf(t); n != nil && methodOf(w.c.P, types.NewPointer(n), n.Obj().Pkg(), "UnmarshalJSON") != nil {
			w.c.Bad("C19-decode", "recursion", w.c.P.InstrPos(cc.Instr), "decoding into "+n.Obj().Name()+" calls UnmarshalJSON again, without end")
		}
		err := mkT(OpApp, "decodeerr "+typeStr(t), 0, errT, false, nil, nil, data)
		if structOf(t) != nil {
			w.errs[err] = true
			w.decodeStruct(s, cc, data, p, t)
			return []*Term{err}
		}
		if mt := mapTypeOf(t); mt != nil && isStringType(mt.Key()) {
			old := s.load(p, t)
			x := decoded(data, t)
			if !(old == zeroOf(t) || old.isNil() || s.F.eval(mkEq(old, mkNil())) == yes || old.Op == OpAlloc && s.mapLen(old) == mkInt(0)) {
				x = mkT(OpApp, "decoded into "+typeStr(t), 0, t, false, nil, nil, old, data)
			}
			s.store(p, x, t, cc.Site)
			if s.Mon["usenumber"] == "" {
				w.floats = w.c.P.InstrPos(cc.Instr)
			}
			return []*Term{err}
		}
		s.escape(p)
		s.havocAt(p, cc.Site)
		return []*Term{mkT(OpCallRes, "json·"+cc.Site, 0, errT, false, cc.Instr, s.loopKeys())}
	}
	return func(s *State, cc *CallCtx) ([]*Term, bool) {
		switch cc.Name {
		case jsonPkg + "Marshal":
			return []*Term{mkApp("json", types.NewSlice(types.Typ[types.Byte]), cc.Args[0]), mkApp("jsonerr", errT, cc.Args[0])}, true
		case "bytes.NewReader", "bytes.NewBuffer":
			if data != nil && bytesFrom(cc.Args[0]) == data {
				return []*Term{mkApp("reader", cc.Sig.Results().At(0).Type(), data)}, true
			}
		case jsonPkg + "NewDecoder":
			x := cc.Args[0]
			if x.Op == OpIface {
				x = x.Args[0]
			}
			if x.Op == OpApp && x.Aux == "reader" {
				return []*Term{mkApp("decoder", cc.Sig.Results().At(0).Type(), x)}, true
			}
		case "(*" + jsonPkg + "Decoder).UseNumber":
			s.Mon["usenumber"] = "1"
			return nil, true
		case "(*" + jsonPkg + "Decoder).Decode":
			if cc.Args[0].Op == OpApp && cc.Args[0].Aux == "decoder" {
				return decode(s, cc, cc.Args[1]), true
			}
		case jsonPkg + "Unmarshal":
			if data != nil && bytesFrom(cc.Args[0]) == data {
				return decode(s, cc, cc.Args[1]), true
			}
		}
		return nil, false
	}
}

// decodeStruct stores the members of the document in the fields of a struct.
func (w *cfgWorld) decodeStruct(s *State, cc *CallCtx, data, p *Term, t types.Type) {
	st := structOf(t)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		_, tagged := reflect.StructTag(st.Tag(i)).Lookup("json")
		if f.Anonymous() && !tagged {
			a := mkFieldAddr(p, i, types.NewPointer(f.Type()))
			ft := f.Type()
			if _, ok := ft.Underlying().(*types.Pointer); ok {
				a, ft = s.load(a, ft), deref(ft)
				if s.F.eval(mkEq(a, mkNil())) != no {
					continue
				}
			}
			if structOf(ft) != nil {
				w.decodeStruct(s, cc, data, a, ft)
				continue
			}
		}
		if !f.Exported() {
			continue
		}
		n, _ := tagName(st.Tag(i), "json", f.Name())
		if n == "-" {
			continue
		}
		s.store(mkFieldAddr(p, i, types.NewPointer(f.Type())), jsonField(data, n, f.Type()), f.Type(), cc.Site)
		w.folded = w.c.P.InstrPos(cc.Instr)
	}
}

func jsonField(data *Term, name string, t types.Type) *Term {
	return mkT(OpApp, "jsonfield "+name, 0, t, false, nil, nil, data)
}

// isField: t is the field x, as it is or converted to a type with the same JSON form.
func isField(t, x *Term) bool {
	if t.Op == OpIface {
		t = t.Args[0]
	}
	for t.Op == OpConv && t != x {
		t = t.Args[0]
	}
	return t == x
}

func (w *cfgWorld) decoding() {
	c := w.c
	fn := methodOf(c.P, types.NewPointer(w.opts), w.opts.Obj().Pkg(), "UnmarshalJSON")
	if fn == nil {
		c.Bad("C19-decode", "ProcessorOptionConfig", c.P.Pos(w.opts.Obj().Pos()), "no UnmarshalJSON: decoding JSON loses all options but those with a field of their own")
		return
	}
	pos := c.P.Pos(fn.Pos())
	ps := rootParams(fn)
	if len(ps) != 2 {
		return
	}
	if _, ok := ps[0].Typ.Underlying().(*types.Pointer); !ok {
		c.Bad("C19-decode", "ProcessorOptionConfig", pos, "UnmarshalJSON fills a copy")
		return
	}
	self, data := ps[0], ps[1]
	wrong := map[string]string{}
	var det []string
	bad := func(what, why string, s *State) {
		if wrong[what] == "" {
			wrong[what], det = why, traceDetails(s)
		}
	}
	st := structOf(w.opts)
	var e *Engine
	good := 0
	cl := &Client{Model: w.model(data), PlainMaps: true, KeepIters: true, OnEvent: mapEvents}
	cl.OnReturn = func(s *State, rets []*Term) {
		s = s.clone()
		err := rets[0]
		fails := false
		for _, t := range aboutTerms(s.F) {
			if t.Op == OpApp && strings.HasPrefix(t.Aux, "decodeerr ") && t.Args[0] == data && s.F.eval(mkEq(t, mkNil())) == no {
				fails = true
			}
		}
		decodes := err.Op == OpApp && strings.HasPrefix(err.Aux, "decodeerr ")
		isNil := s.F.eval(mkEq(err, mkNil()))
		switch {
		case isNil == no && (fails || decodes):
			return
		case isNil == no:
			bad("errors", "a document is rejected although it was decoded", s)
			return
		case isNil == unknown && !decodes:
			if !fails {
				bad("errors", "returns "+err.String()+" although the document was decoded", s)
			}
			return
		}
		if !s.F.assume(mkEq(err, mkNil()), true) {
			return
		}
		for t := range w.errs {
			if s.F.eval(mkEq(t, mkNil())) != yes {
				fails = true
			}
		}
		if fails {
			bad("errors", "a document that cannot be decoded is accepted", s)
			return
		}
		good++
		for n, i := range w.names {
			ft := st.Field(i).Type()
			got := s.load(mkFieldAddr(self, i, types.NewPointer(ft)), ft)
			if got != jsonField(data, n, ft) && !isField(got, jsonField(data, n, got.Typ)) {
				bad(n, "the field "+st.Field(i).Name()+" becomes "+got.String()+" instead of the member "+n+" of the document", s)
			}
		}
		mt := st.Field(w.inline).Type()
		got := s.load(mkFieldAddr(self, w.inline, types.NewPointer(mt)), mt)
		if why := w.otherOptions(e, s, got, decoded(data, mt)); why != "" {
			bad("options", why, s)
		}
	}
	e = NewEngine(c.P, cl)
	e.Run(fn, ps, func(s *State) {
		s.F.assume(mkEq(self, mkNil()), false)
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			s.store(mkFieldAddr(self, i, types.NewPointer(ft)), zeroOf(ft), ft, "new")
		}
	})
	c.account(fn, e)
	if good == 0 {
		bad("errors", "no document is accepted", nil)
	}
	keys := []string{"errors", "options"}
	for n := range w.names {
		keys = append(keys, n)
	}
	sort.Strings(keys)
	for _, k := range keys {
		c.Check(wrong[k] == "", "C19-decode", k, pos, wrong[k], det...)
	}
	c.Check(w.floats == "", "C19-decode", "numbers", w.floats, "every number among the options becomes a float64: an integer that is an integer in YAML is not one in JSON, and loses digits beyond 2^53")
	c.Check(w.folded == "", "C19-decode", "case", w.folded, "encoding/json matches the fields of a struct regardless of case: a member ID is taken for id (and stays an option as well), unlike in YAML")
}

// otherOptions: got holds the members of the document all without the ones that
// have a field of their own.
func (w *cfgWorld) otherOptions(e *Engine, s *State, got, all *Term) string {
	src := all
	acc := map[*Term]bool{got: true}
	if why := accumulates(e, got, acc); why != "" {
		return why
	}
	delete(acc, src)
	loops := loopsOf(e, s)
	gone := map[string]bool{}
	remove := func(k string) string {
		if _, known := w.names[k]; !known {
			return "the option " + k + " is removed"
		}
		gone[k] = true
		return ""
	}
	for _, ev := range s.Events() {
		if ev.Kind == "mapdel" && (ev.Args[0] == src || ev.Args[0] == got) {
			k, ok := ev.Args[1].isStr()
			if !ok {
				return "an option whose name is not known is removed"
			}
			if why := remove(k); why != "" {
				return why
			}
		}
	}
	over := false
	for _, rec := range loops {
		for _, it := range rec.Iters {
			over = over || rangesOver(rec, src, it.St)
		}
		list, why := removedList(e, s, rec, src)
		if why != "" {
			return why
		}
		for _, k := range list {
			if why := remove(k); why != "" {
				return why
			}
		}
	}
	stays := func() string {
		for n := range w.names {
			if !gone[n] {
				return "the member " + n + " stays among the other options"
			}
		}
		return ""
	}
	if got.isNil() || got == zeroOf(got.Typ) || s.F.eval(mkEq(got, mkNil())) == yes {
		if s.F.eval(mkEq(s.mapLen(src), mkInt(0))) == yes || s.F.eval(mkEq(src, mkNil())) == yes || mapEnd(s, src) && !over {
			return ""
		}
		for _, rec := range loops {
			for t := range rec.Vars {
				if mapTypeOf(t.Typ) != nil && types.Identical(t.Typ.Underlying(), all.Typ.Underlying()) {
					acc[t] = true
					accumulates(e, t, acc)
				}
			}
		}
		delete(acc, src)
		if len(acc) < 2 {
			return "the other options are lost"
		}
	}
	if got == src {
		return stays()
	}
	if got.Op != OpAlloc && len(acc) < 2 {
		return "the other options are " + got.String()
	}
	if !mapEnd(s, src) {
		return "options are lost: the iteration over the document can end early or does not take place"
	}
	for _, ev := range s.Events() {
		if ev.Kind == "mapset" && acc[ev.Args[0]] {
			return "an option is also set outside the iteration over the document"
		}
	}
	for _, rec := range loops {
		for _, it := range rec.Iters {
			k, v := memberOf(it.St, src)
			if k == nil || !rangesOver(rec, src, it.St) {
				for _, ev := range it.Events {
					if ev.Kind == "mapset" && acc[ev.Args[0]] {
						return "an option is set that is not in the document"
					}
				}
				continue
			}
			ends := true
			steps := [][2]*Term{}
			for v, end := range it.End {
				if acc[v] {
					steps = append(steps, [2]*Term{it.Start[v], end})
				}
			}
			for a, m := range it.Mem {
				if a.Op == OpMapCell || m[0] == nil || m[1] == nil || mapTypeOf(m[0].Typ) == nil && mapTypeOf(m[1].Typ) == nil {
					continue
				}
				if acc[m[0]] || acc[m[1]] {
					steps = append(steps, m)
				}
			}
			for _, st := range steps {
				from, to := st[0], st[1]
				if from == to || from == nil || it.St.F.eval(mkEq(from, to)) == yes {
					continue
				}
				if it.St.F.eval(mkEq(from, mkNil())) != yes {
					return "the options of earlier iterations are lost"
				}
				ends = ends && !to.isNil()
			}
			is, not := "", map[string]bool{}
			for n := range w.names {
				switch it.St.F.eval(mkEq(k, mkStr(n))) {
				case yes:
					is = n
				case no:
					not[n] = true
				}
			}
			set := 0
			for _, ev := range it.Events {
				switch {
				case ev.Kind == "mapset" && acc[ev.Args[0]]:
					if ev.Args[1] != k || ev.Val != v {
						return "an option becomes " + ev.Args[1].String() + " = " + ev.Val.String()
					}
					set++
				case ev.Kind == "mapdel" && (acc[ev.Args[0]] || ev.Args[0] == src && ev.Args[1] != k):
					return "an option is removed while the document is copied"
				}
			}
			switch {
			case set > 0 && !ends:
				return "the other options are lost"
			case set > 0 && is != "":
				return "the member " + is + " is also one of the other options"
			case set > 0:
				for n := range w.names {
					if !not[n] && !gone[n] {
						return "the member " + n + " stays among the other options"
					}
				}
			case is == "":
				return "an option can be left out"
			}
		}
	}
	return ""
}

// accumulates collects the values of a loop variable that holds no map or one
// made in the loop.
func accumulates(e *Engine, t *Term, acc map[*Term]bool) string {
	for _, rec := range e.Loops {
		v := rec.Vars[t]
		if v == nil {
			continue
		}
		for _, set := range []map[*Term]bool{v.Inits, v.Firsts, v.Steps} {
			for x := range set {
				if x.isNil() || x.Op == OpZero || acc[x] {
					continue
				}
				acc[x] = true
				if x.Op == OpAlloc {
					continue
				}
				if why := accumulates(e, x, acc); why != "" {
					return why
				}
			}
		}
		return ""
	}
	return ""
}

// removedList: the loop removes the members of a list of names from the map.
func removedList(e *Engine, s *State, rec *LoopRec, src *Term) ([]string, string) {
	first, later := map[*Term]bool{}, map[*Term]bool{}
	var arr *Term
	for _, it := range rec.Iters {
		if rangesOver(rec, src, it.St) {
			continue
		}
		n := 0
		for _, ev := range it.Events {
			if ev.Kind != "mapdel" || ev.Args[0] != src {
				continue
			}
			n++
			k := ev.Args[1]
			if it.First {
				if _, ok := k.isStr(); ok {
					first[mkInt(0)] = true
					continue
				}
			}
			if k.Op != OpLoad || k.Args[0].Op != OpIndexAddr {
				return nil, "an option whose name is not known is removed"
			}
			arr = k.Args[0].Args[0]
			(map[bool]map[*Term]bool{true: first, false: later})[it.First][k.Args[0].Args[1]] = true
		}
		if n == 0 && arr != nil {
			return nil, "a name can be left in the document"
		}
	}
	if arr == nil {
		return nil, ""
	}
	at, ok := deref(arr.Typ).Underlying().(*types.Array)
	if !ok || arr.Op != OpAlloc {
		return nil, "an option whose name is not known is removed"
	}
	if why := covers(e, s, listSrc{Len: mkInt(at.Len()), Name: arr.String()}, rec.Key, first, later); why != "" {
		return nil, why
	}
	var out []string
	for i := int64(0); i < at.Len(); i++ {
		k, ok := s.load(mkIndexAddr(arr, mkInt(i), types.NewPointer(at.Elem())), at.Elem()).isStr()
		if !ok {
			return nil, "an option whose name is not known is removed"
		}
		out = append(out, k)
	}
	return out, ""
}

func mapEvents(s *State, ev *Event) bool {
	switch ev.Kind {
	case "mapset", "mapdel", "clear", "loop":
		return true
	}
	return false
}

// loopsOf lists the loops on the path to s.
func loopsOf(e *Engine, s *State) []*LoopRec {
	var out []*LoopRec
	seen := map[string]bool{}
	for _, ev := range s.Events() {
		if ev.Kind == "loop" && !seen[ev.Loop] {
			seen[ev.Loop] = true
			if r := e.Loops[ev.Loop]; r != nil {
				out = append(out, r)
			}
		}
	}
	return out
}

func (w *cfgWorld) encoding() {
	c := w.c
	fn := methodOf(c.P, w.opts, w.opts.Obj().Pkg(), "MarshalJSON")
	if fn == nil {
		c.Bad("C19-encode", "ProcessorOptionConfig", c.P.Pos(w.opts.Obj().Pos()), "no MarshalJSON for values: encoding loses all options but those with a field of their own")
		return
	}
	pos := c.P.Pos(fn.Pos())
	ps := rootParams(fn)
	self := ps[0]
	st := structOf(w.opts)
	wrong := map[string]string{}
	var det []string
	bad := func(what, why string, s *State) {
		if wrong[what] == "" {
			wrong[what], det = why, traceDetails(s)
		}
	}
	var e *Engine
	good := 0
	cl := &Client{Model: w.model(nil), PlainMaps: true, KeepIters: true, OnEvent: mapEvents}
	cl.OnReturn = func(s *State, rets []*Term) {
		s = s.clone()
		out, err := rets[0], rets[1]
		if out.Op != OpApp || out.Aux != "json" {
			if s.F.eval(mkEq(err, mkNil())) != no {
				bad("result", "returns "+out.String()+" instead of the JSON form of the options", s)
				return
			}
			for _, t := range aboutTerms(s.F) {
				if t.Op == OpApp && t.Aux == "jsonerr" && s.F.eval(mkEq(t, mkNil())) == no {
					return
				}
			}
			bad("result", "options are not encoded although they can be", s)
			return
		}
		if e := mkApp("jsonerr", err.Typ, out.Args[0]); err != e && s.F.eval(mkEq(e, mkNil())) != yes {
			bad("result", "an error of the encoding is lost", s)
			return
		}
		good++
		m := out.Args[0]
		if m.Op == OpIface {
			m = m.Args[0]
		}
		if m.Op != OpAlloc || mapTypeOf(m.Typ) == nil && mapTypeOf(deref(m.Typ)) == nil {
			bad("result", "what is encoded is "+m.String(), s)
			return
		}
		set := map[string]*Term{}
		for _, ev := range s.Events() {
			switch ev.Kind {
			case "mapset":
				if ev.Args[0] != m {
					continue
				}
				k, ok := ev.Args[1].isStr()
				if !ok {
					bad("options", "an option "+ev.Args[1].String()+" is written", s)
					continue
				}
				set[k] = ev.Val
			case "mapdel":
				if ev.Args[0] == m {
					bad("options", "an option is removed before the encoding", s)
				}
			}
		}
		for n, i := range w.names {
			ft := st.Field(i).Type()
			x := mkField(self, i, ft)
			v := set[n]
			switch {
			case v == nil:
				if !emptyValue(s, x) {
					bad(n, "the field "+st.Field(i).Name()+" is not written", s)
				}
			case !isField(v, x):
				bad(n, "the member "+n+" is written as "+v.String(), s)
			}
		}
		for k := range set {
			if _, ok := w.names[k]; !ok {
				bad("options", "a member "+k+" is added", s)
			}
		}
		src := mkField(self, w.inline, st.Field(w.inline).Type())
		if why := copiedInto(e, s, m, src); why != "" {
			bad("options", why, s)
		}
	}
	e = NewEngine(c.P, cl)
	e.Run(fn, ps, nil)
	c.account(fn, e)
	if good == 0 {
		bad("result", "never returns the JSON form of the options", nil)
	}
	keys := []string{"result", "options"}
	for n := range w.names {
		keys = append(keys, n)
	}
	sort.Strings(keys)
	for _, k := range keys {
		c.Check(wrong[k] == "", "C19-encode", k, pos, wrong[k], det...)
	}
}

func emptyValue(s *State, x *Term) bool {
	if s.F.eval(mkEq(x, zeroOf(x.Typ))) == yes {
		return true
	}
	if isStringType(x.Typ) || isSliceTerm(x) {
		return s.F.eval(mkLt(mkInt(0), mkLen(x))) == no
	}
	return false
}

// copiedInto: each member of src becomes a member of the map m.
func copiedInto(e *Engine, s *State, m, src *Term) string {
	if !mapEnd(s, src) {
		return "options are lost: the iteration over them can end early or does not take place"
	}
	for _, rec := range loopsOf(e, s) {
		for _, it := range rec.Iters {
			k, v := memberOf(it.St, src)
			over := k != nil && rangesOver(rec, src, it.St)
			set := 0
			for _, ev := range it.Events {
				if ev.Args == nil || ev.Args[0] != m {
					continue
				}
				switch ev.Kind {
				case "mapset":
					if !over || ev.Args[1] != k || ev.Val != v {
						return "an option is written as " + ev.Args[1].String() + ": " + ev.Val.String()
					}
					set++
				case "mapdel":
					return "an option is removed before the encoding"
				}
			}
			if over && set == 0 {
				return "an option can be left out"
			}
		}
	}
	return ""
}

func init() {
	register("C19", func(c *Ctx) {
		c.Rule("C19-names", "each field of a configuration has the same name in YAML and in JSON, and the documented names have a field", 7)
		c.Rule("C19-decode", "decoding JSON fills the named fields and passes on all other options, or returns an error", 5)
		c.Rule("C19-encode", "encoding as JSON writes every field that is set and every option under its name", 5)
		analyseConfigForms(c)
	})
}
