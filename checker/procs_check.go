package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C22", func(c *Ctx) {
		w := newProcWorld(c)
		if w == nil {
			return
		}
		c.Rule("C22-case", "on every path of lowercase and uppercase (constructor and Process together): an absent or null field returns ErrorKeyMissing naming the field, another type returns a different error, both without any write; a string writes exactly one new string value, strings.ToLower (ToUpper) of the field, to target_field or else field, and returns the result of that write", 6)
		w.caseProc("lowercase", "ToLower")
		w.caseProc("uppercase", "ToUpper")
	})
	register("C23", func(c *Ctx) {
		w := newProcWorld(c)
		if w == nil {
			return
		}
		w.findClones("C23-clone")
		w.setProc()
	})
	register("C24", func(c *Ctx) {
		w := newProcWorld(c)
		if w == nil {
			return
		}
		w.appendProc()
		w.appendUtil()
	})
	register("C25", func(c *Ctx) {
		w := newProcWorld(c)
		if w == nil {
			return
		}
		w.removeProc()
	})
	register("C26", func(c *Ctx) {
		w := newProcWorld(c)
		if w == nil {
			return
		}
		w.findClones("")
		w.missingErrors()
	})
}

func (w *procWorld) proc(name string) *procRole {
	pr := w.procs[name]
	if pr == nil {
		w.c.Missing("the registered processor " + name)
	}
	return pr
}

func (w *procWorld) evtParam(pr *procRole) *Term {
	return mkT(OpParam, "event", 1, w.evtI, true, pr.process, nil)
}

// get is the content of a field before the processor changed anything.
func (w *procWorld) get(pr *procRole, key *Term) *Term {
	return evtAt(types.NewPointer(w.value), w.evtParam(pr), key, mkVer("evt0", nil))
}

// ---- C22 ----

func (w *procWorld) caseProc(name, conv string) {
	pr := w.proc(name)
	if pr == nil {
		return
	}
	_, cfg, paths := w.run(pr)
	field, target := w.option(pr, cfg, "field"), w.option(pr, cfg, "target_field")
	if field == nil || target == nil {
		return
	}
	src := w.get(pr, field)
	w.conclude(w.rule("C22-case"), pr, paths, func(p *Path, ask func(*Term) bool) string {
		if ask(mkEq(src, mkNil())) {
			return "absent field"
		}
		typ := w.vfield(p.St, src, "Type")
		if ask(mkEq(typ, w.tags["NullType"])) {
			return "null field"
		}
		if !ask(mkEq(typ, w.tags["StringType"])) {
			return "field of another type"
		}
		if ask(mkEq(target, mkStr(""))) {
			return "string field, no target_field"
		}
		return "string field, target_field set"
	}, func(p *Path, o string) string {
		switch o {
		case "absent field", "null field":
			return w.other(w.wantMissing(p, field))
		case "field of another type":
			return w.other(w.wantOtherError(p))
		}
		key := field
		if strings.HasSuffix(o, "target_field set") {
			key = target
		}
		put, why := w.onlyPut(p, key, nil)
		if why != "" {
			return why
		}
		if w.optsOnly {
			return ""
		}
		v := put.Args[1]
		if why := w.freshValue(p.St, v); why != "" {
			return why
		}
		if t := w.vfield(p.St, v, "Type"); p.St.F.eval(mkEq(t, w.tags["StringType"])) != yes {
			return "the stored value has type tag " + t.String()
		}
		got := w.vfield(p.St, v, "String")
		in := w.vfield(p.St, src, "String")
		if !isCase(got, in, conv) {
			return "the stored string is " + got.String() + " instead of strings." + conv + "(" + in.String() + ")"
		}
		return ""
	})
}

func isCase(got, in *Term, conv string) bool {
	if got.Op != OpApp {
		return false
	}
	switch got.Aux {
	case "strings." + conv:
		return got.Args[0] == in
	case "strings.Map":
		return got.Args[1] == in && got.Args[0].Op == OpFunc && got.Args[0].Aux == "unicode."+conv
	case "strings." + conv + "Special":
		return false
	}
	return false
}

// ---- deep copies ----

// findClones finds the functions that return a deep copy of a value and
// verifies them (under rule, unless it is empty).
func (w *procWorld) findClones(rule string) {
	c := w.c
	vp := types.NewPointer(w.value)
	for _, f := range pkgFuncs(c.P, relEvent) {
		if sigIs(f, []types.Type{vp}, []types.Type{vp}) && recursive(c.P, f) {
			w.clones[f] = true
		}
	}
	if rule == "" {
		return
	}
	c.Rule(rule, "the deep copy of a value is a new object with equal scalar fields, whose array holds a deep copy of each element in order and whose object holds a deep copy of each member under the same name", 1)
	for f := range w.clones {
		w.verifyClone(rule, f)
	}
	if len(w.clones) == 0 {
		c.Missing("a recursive func(*event.Value) *event.Value that copies a value")
	}
}

func (w *procWorld) verifyClone(rule string, fn *ssa.Function) {
	c := w.c
	v := rootParams(fn)[0]
	cl := &Client{KeepIters: true, PlainMaps: true, SplitLoops: true, Model: convModel(w.clones)}
	cl.OnEvent = func(s *State, ev *Event) bool { return ev.Kind != "pure" && ev.Kind != "range" && ev.Kind != "append" }
	e, paths := collect(c, fn, cl, []*Term{v}, nil)
	pos := c.P.Pos(fn.Pos())
	for _, p := range paths {
		s := p.St
		why := w.clonePath(e, p, fn, v)
		c.Check(why == "", rule, fn.String(), pos, fn.String()+": "+why, traceDetails(s)...)
	}
}

func (w *procWorld) isClone(t *Term) (*Term, bool) {
	for f := range w.clones {
		if x, ok := isConv(t, f); ok {
			return x, true
		}
	}
	return nil, false
}

func (w *procWorld) clonePath(e *Engine, p *Path, fn *ssa.Function, v *Term) string {
	s := p.St
	r := p.Rets[0]
	if s.F.eval(mkEq(v, mkNil())) == yes {
		if s.F.eval(mkEq(r, mkNil())) != yes {
			return "the copy of nil is " + r.String()
		}
		return ""
	}
	for _, ev := range p.Events {
		if ev.Kind == "store" && rootOf(ev.Addr).Op != OpAlloc {
			return "existing memory is changed: " + describeEvent(e.P, ev)
		}
	}
	if r.Op != OpAlloc {
		return "the result " + r.String() + " is not a new value"
	}
	typ := w.vfield(s, v, "Type")
	if got := w.vfield(s, r, "Type"); s.F.eval(mkEq(got, typ)) != yes && got != typ {
		return "the copy has type " + got.String()
	}
	other := func(tag string) bool { return s.F.eval(mkEq(typ, w.tags[tag])) == no }
	for _, n := range []string{"Integer", "UnsignedInteger", "Float", "String", "Bool", "Timestamp"} {
		if other(n + "Type") {
			continue
		}
		got, want := w.vfield(s, r, n), w.vfield(s, v, n)
		if got != want && s.F.eval(mkEq(got, want)) != yes {
			return "field " + n + " of the copy is " + got.String()
		}
	}
	arr := w.vfield(s, v, "Array")
	ga := w.vfield(s, r, "Array")
	if !(other("ArrayType") && emptyList(s.F, ga)) {
		if !(ga == arr && s.F.eval(mkEq(arr, mkNil())) == yes) {
			from := sliceSrc(arr)
			from.Zero = func(st *State, idx *Term) bool {
				pt := types.NewPointer(w.value)
				el := st.load(mkIndexAddr(arr, idx, types.NewPointer(pt)), pt)
				return st.F.eval(mkEq(el, mkNil())) == yes
			}
			if why := listOf(e, s, ga, from, func(got *Term) (*Term, bool) {
				x, ok := w.isClone(got)
				if !ok {
					return nil, false
				}
				l, idx, ok := elemOf(x)
				if !ok || l != arr {
					return nil, false
				}
				return idx, true
			}, func(t *Term) bool { return ownEmpty(s, t) }); why != "" {
				return "array: " + why
			}
		}
	}
	obj := w.vfield(s, v, "Object")
	gobj := w.vfield(s, r, "Object")
	if !(other("ObjectType") && gobj.isNil()) {
		if !(s.F.eval(mkEq(obj, mkNil())) == yes && (gobj == obj || gobj.isNil())) {
			if why := mapOf(e, s, gobj, obj, func(st *State, k, mv, gotK, gotV *Term) string {
				if gotK != k {
					return "a member is stored under " + gotK.String()
				}
				if x, ok := w.isClone(gotV); !ok || x != mv {
					return "a member is stored as " + gotV.String() + " instead of a copy of it"
				}
				return ""
			}); why != "" {
				return "object: " + why
			}
		}
	}
	return ""
}

// ---- C23 ----

func (w *procWorld) setProc() {
	c := w.c
	if !w.optsOnly {
		c.Rule("C23-set", "on every path of set: a configured value is stored as a deep copy in target_field; otherwise a deep copy of the field copy_from, or ErrorKeyMissing naming copy_from without any write if it is absent; with neither option nothing changes; the result of the write is returned", 4)
	}
	pr := w.proc("set")
	if pr == nil {
		return
	}
	_, cfg, paths := w.run(pr)
	value, from, target := w.option(pr, cfg, "value"), w.option(pr, cfg, "copy_from"), w.option(pr, cfg, "target_field")
	if value == nil || from == nil || target == nil {
		return
	}
	src := w.get(pr, from)
	w.conclude(w.rule("C23-set"), pr, paths, func(p *Path, ask func(*Term) bool) string {
		typ := mkField(value, w.vf["Type"], structOf(w.value).Field(w.vf["Type"]).Type())
		if !ask(mkEq(typ, w.tags["NullType"])) {
			return "value configured"
		}
		if ask(mkEq(from, mkStr(""))) {
			return "neither option"
		}
		if ask(mkEq(src, mkNil())) {
			return "absent source"
		}
		return "source present"
	}, func(p *Path, o string) string {
		switch o {
		case "neither option":
			if len(w.writes(p)) == 0 {
				return ""
			}
			put, why := w.onlyPut(p, target, nil)
			if why == "" && p.St.F.eval(mkEq(put.Args[1], mkNil())) != yes {
				why = "something is stored although neither value nor copy_from is set"
			}
			return why
		case "absent source":
			return w.other(w.wantMissing(p, from))
		}
		put, why := w.onlyPut(p, target, nil)
		if why != "" {
			return why
		}
		want := mkApp("clone", types.NewPointer(w.value), value)
		if o == "source present" {
			want = w.cloneOf(p.St, src)
		}
		if w.optsOnly && anySub(put.Args[1], func(x *Term) bool { return x == value || x == src }) {
			return ""
		}
		if put.Args[1] != want {
			return "the stored value is " + put.Args[1].String() + " instead of " + want.String()
		}
		return ""
	})
}

// ---- C24 ----

func (w *procWorld) appendProc() {
	c := w.c
	if !w.optsOnly {
		c.Rule("C24-append", "on every path of append: absent or null with ignore_missing changes nothing; an object is refused without a write; otherwise the stored value is an array with the previous elements (the scalar itself, none if absent or null) followed by the new string, stored under the field, and the result of the write is returned; nothing is written only if allow_duplicates is off and an equal string element exists, and something only if none exists or duplicates are allowed", 6)
	}
	pr := w.proc("append")
	if pr == nil {
		return
	}
	e, cfg, paths := w.run(pr)
	field, value, dup, ign := w.option(pr, cfg, "field"), w.option(pr, cfg, "value"), w.option(pr, cfg, "allow_duplicates"), w.option(pr, cfg, "ignore_missing")
	if field == nil || value == nil || dup == nil || ign == nil {
		return
	}
	src := w.get(pr, field)
	w.conclude(w.rule("C24-append"), pr, paths, func(p *Path, ask func(*Term) bool) string {
		absent := ask(mkEq(src, mkNil()))
		typ := w.vfield(p.St, src, "Type")
		if absent || ask(mkEq(typ, w.tags["NullType"])) {
			if ask(ign) {
				return "absent or null, ignored"
			}
			return "absent or null"
		}
		if ask(mkEq(typ, w.tags["ObjectType"])) {
			return "object"
		}
		d := ", duplicates refused"
		if ask(dup) {
			d = ", duplicates allowed"
		}
		if ask(mkEq(typ, w.tags["ArrayType"])) {
			return "array" + d
		}
		return "scalar" + d
	}, func(p *Path, o string) string {
		s := p.St
		switch o {
		case "absent or null, ignored":
			return w.wantNothing(p)
		case "object":
			return w.other(w.wantOtherError(p))
		}
		arr := w.vfieldAt0(s, src, "Array")
		refused := strings.HasSuffix(o, "refused")
		isEq := func(f *Facts, st *State, el *Term) tri { return w.strEq(f, st, el, value) }
		if len(w.writes(p)) == 0 && refused {
			if s.F.eval(mkEq(p.Rets[0], mkNil())) != yes {
				return w.other("an error is returned")
			}
			switch {
			case strings.HasPrefix(o, "array"):
				if w.witness(e, p, arr, isEq) {
					return ""
				}
				return "nothing is stored although no equal element was found on this path"
			case strings.HasPrefix(o, "scalar"):
				if isEq(s.F, s, src) == yes {
					return ""
				}
				if w.witnessIn(e, p, func(l *Term) bool { return w.single(s, l, src) }, isEq) {
					return ""
				}
				return "nothing is stored although the field was not shown to equal the value"
			}
		}
		put, why := w.onlyPut(p, field, func(ev *Event) bool {
			// the array of the field is extended in place
			return ev.Kind == "store" && ev.Addr == mkFieldAddr(src, w.vf["Array"], types.NewPointer(structOf(w.value).Field(w.vf["Array"]).Type()))
		})
		if why != "" {
			return why
		}
		v := put.Args[1]
		if t := w.vfield(s, v, "Type"); s.F.eval(mkEq(t, w.tags["ArrayType"])) != yes {
			return w.other("the stored value has type tag " + t.String())
		}
		if v.Op != OpAlloc && v != src {
			return w.other("the stored value is " + v.String())
		}
		got := w.vfield(s, v, "Array")
		newEl := func(t *Term) bool {
			return t.Op == OpAlloc && s.F.eval(mkEq(w.vfield(s, t, "Type"), w.tags["StringType"])) == yes && w.vfield(s, t, "String") == value
		}
		b, els, ok := appendParts(got)
		if !ok && got.Op == OpSlice && got.Args[1].IsInt && got.Args[2].IsInt {
			b, els, ok = mkNil(), s.e.elems(s, got), true
		}
		if last := lastElem(s, got); ok && b.isNil() && len(els) == 2 && els[0] != src && newEl(last) && strings.HasPrefix(o, "scalar") {
			one := listSrc{Len: mkInt(1), Name: "the previous value"}
			if why := filledPart(e, s, got, one, func(got *Term) (*Term, bool) { return mkInt(0), got == src }, 1); why != "" {
				return w.other("the previous value is not kept: " + why)
			}
			els = []*Term{src, last}
		} else if !ok && last != nil && newEl(last) && strings.HasPrefix(o, "array") {
			if why := filledPart(e, s, got, wholeSrc(arr), elemIs(arr), 1); why != "" {
				return w.other("the previous elements are not kept: " + why)
			}
			if refused {
				return w.noneEqual(e, p, arr, isEq)
			}
			return ""
		}
		if !ok || len(els) == 0 || !newEl(els[len(els)-1]) {
			return "the stored array is " + got.String() + ", which does not end with one new element with the configured value"
		}
		els = els[:len(els)-1]
		switch {
		case strings.HasPrefix(o, "array"):
			if len(els) > 0 {
				return w.other("the stored array is " + got.String())
			}
			if b != arr {
				if why := listOf(e, s, b, wholeSrc(arr), elemIs(arr), func(t *Term) bool { return ownEmpty(s, t) }); why != "" {
					return w.other("the previous elements are not kept: " + why)
				}
			}
			if refused {
				if why := w.noneEqual(e, p, arr, isEq); why != "" {
					return why
				}
			}
		case strings.HasPrefix(o, "scalar"):
			if !(len(els) == 1 && els[0] == src && emptyList(s.F, b) || len(els) == 0 && w.single(s, b, src)) {
				return w.other("the stored array is " + got.String() + " instead of the previous value followed by the new one")
			}
			if refused && isEq(s.F, s, src) != no {
				if why := w.noneEqualIn(e, p, func(l *Term) bool { return w.single(s, l, src) }, mkInt(1), isEq); why != "" {
					return why
				}
			}
		default:
			if len(els) > 0 || !emptyList(s.F, b) {
				return w.other("the stored array is " + got.String() + " instead of just the new value")
			}
		}
		return ""
	})
}

// single: l is a list with the only element v.
func (w *procWorld) single(s *State, l, v *Term) bool {
	if b, el, ok := appendParts(l); ok {
		return len(el) == 1 && el[0] == v && emptyList(s.F, b)
	}
	if l.Op == OpSlice || l.Op == OpAlloc {
		els := s.e.elems(s, l)
		return len(els) == 1 && els[0] == v
	}
	return false
}

func elemIs(arr *Term) elemFn {
	return func(got *Term) (*Term, bool) {
		l, idx, ok := elemOf(got)
		if !ok || l != arr {
			return nil, false
		}
		return idx, true
	}
}

// strEq: el is a string value equal to want.
func (w *procWorld) strEq(f *Facts, s *State, el, want *Term) tri {
	a := f.eval(mkEq(el, mkNil()))
	t := f.eval(mkEq(w.vfield(s, el, "Type"), w.tags["StringType"]))
	q := f.eval(mkEq(w.vfield(s, el, "String"), want))
	if a == yes || t == no || q == no {
		return no
	}
	if a == no && t == yes && q == yes {
		return yes
	}
	// the loads of el imply that it is not nil
	if t == yes && q == yes {
		return yes
	}
	return unknown
}

// elemsIn lists the elements of the lists that occur in the facts.
func elemsIn(f *Facts, isList func(*Term) bool) map[*Term]bool {
	out := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if l, _, ok := elemOf(t); ok && isList(l) {
			out[t] = true
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for k := range f.bools {
		walk(k)
	}
	for k := range f.eqc {
		walk(k)
	}
	for k := range f.neqc {
		walk(k)
	}
	for k := range f.zone {
		walk(k[0])
		walk(k[1])
	}
	return out
}

func (w *procWorld) witness(e *Engine, p *Path, arr *Term, eq func(*Facts, *State, *Term) tri) bool {
	return w.witnessIn(e, p, func(l *Term) bool { return l == arr }, eq)
}

// witnessIn: some element of the list satisfies eq on this path.
func (w *procWorld) witnessIn(e *Engine, p *Path, isList func(*Term) bool, eq func(*Facts, *State, *Term) tri) bool {
	for el := range elemsIn(p.St.F, isList) {
		if eq(p.St.F, p.St, el) == yes {
			return true
		}
	}
	// a flag that a loop sets only for such an element
	for _, ev := range p.Events {
		if ev.Kind != "loop" {
			continue
		}
		rec := e.Loops[ev.Loop]
		for lv := range rec.Vars {
			set, all := 0, true
			for _, it := range rec.Iters {
				end, start := it.End[lv], it.Start[lv]
				if end == nil || !end.isTrue() || start != nil && start.isTrue() {
					continue
				}
				set++
				ok := false
				for el := range elemsIn(it.St.F, isList) {
					if eq(it.St.F, it.St, el) == yes {
						ok = true
					}
				}
				all = all && ok
			}
			if set > 0 && all {
				return true
			}
		}
	}
	return false
}

func (w *procWorld) noneEqual(e *Engine, p *Path, arr *Term, eq func(*Facts, *State, *Term) tri) string {
	return w.noneEqualIn(e, p, func(l *Term) bool { return l == arr }, mkLen(arr), eq)
}

// noneEqualIn: every element of the list was compared and differs.
func (w *procWorld) noneEqualIn(e *Engine, p *Path, isList func(*Term) bool, length *Term, eq func(*Facts, *State, *Term) tri) string {
	s := p.St
	if s.F.eval(mkLt(mkInt(0), length)) == no {
		return ""
	}
	why := "an equal element may exist: the elements are not compared on this path"
	for _, ev := range p.Events {
		if ev.Kind != "loop" {
			continue
		}
		rec := e.Loops[ev.Loop]
		first, later := map[*Term]bool{}, map[*Term]bool{}
		okAll := len(rec.Iters) > 0
		for _, it := range rec.Iters {
			found := false
			for el := range elemsIn(it.St.F, isList) {
				if eq(it.St.F, it.St, el) == no {
					_, idx, _ := elemOf(el)
					if (loopVarIn(idx) != nil) == it.First {
						continue
					}
					if it.First {
						first[idx] = true
					} else {
						later[idx] = true
					}
					found = true
				}
			}
			// iterations that set a flag are for paths on which it is set
			flag := false
			for lv, end := range it.End {
				if end.isTrue() && rec.Vars[lv] != nil {
					flag = true
				}
			}
			if !found && !flag {
				okAll = false
			}
		}
		if !okAll {
			why = "an iteration goes on although the element may be equal"
			continue
		}
		if wy := covers(e, s, listSrc{Len: length, Name: "the array"}, rec.Key, first, later); wy != "" {
			why = wy
			continue
		}
		return ""
	}
	return why
}

// appendUtil decides eventutil.Append.
func (w *procWorld) appendUtil() {
	c := w.c
	c.Rule("C24-util", "on every path of eventutil.Append: a nil item changes nothing; otherwise one store under the key of an array with the previous elements (the previous value itself if it is no array, none if absent) followed by the item, or by the elements of the item in order if it is an array; the result of the store is returned", 4)
	fn := c.P.Func("pkg/eventutil", "Append")
	if fn == nil || len(fn.Params) != 3 {
		c.Missing("eventutil.Append")
		return
	}
	ps := rootParams(fn)
	evt, key, item := ps[0], ps[1], ps[2]
	cl := &Client{Model: w.model, KeepIters: true, PlainMaps: true, SplitLoops: true}
	cl.OnEvent = func(s *State, ev *Event) bool {
		switch ev.Kind {
		case "pure", "range", "append", "write":
			return false
		}
		return true
	}
	// The item is not the value that the event holds (appending a list to itself).
	cl.Distinct = func(a, b *Term) bool { return (a == item) != (b == item) }
	c.Assume("eventutil.Append is not given the very value that the event holds under the key")
	itemArr := w.vfieldAddr(item, "Array")
	e, paths := collect(c, fn, cl, ps, func(s *State) { s.mem[itemArr] = s.load(itemArr, itemArr.Typ.Underlying().(*types.Pointer).Elem()) })
	src := evtAt(types.NewPointer(w.value), evt, key, mkVer("evt0", nil))
	pr := &procRole{name: "eventutil.Append", process: fn}
	w.conclude("C24-util", pr, paths, func(p *Path, ask func(*Term) bool) string {
		if ask(mkEq(item, mkNil())) {
			return "nil item"
		}
		o := ""
		if ask(mkEq(src, mkNil())) {
			o = "absent"
		} else {
			typ := w.vfieldAt0(p.St, src, "Type")
			switch {
			case ask(mkEq(typ, w.tags["ArrayType"])):
				o = "array"
			case ask(mkEq(typ, w.tags["NullType"])):
				o = "null"
			default:
				o = "scalar or object"
			}
		}
		if ask(mkEq(w.vfieldAt0(p.St, item, "Type"), w.tags["ArrayType"])) {
			return o + " + array item"
		}
		return o + " + item"
	}, func(p *Path, o string) string {
		s := p.St
		if o == "nil item" {
			return w.wantNothing(p)
		}
		put, why := w.onlyPut(p, key, func(ev *Event) bool {
			return ev.Kind == "store" && ev.Addr == mkFieldAddr(src, w.vf["Array"], types.NewPointer(structOf(w.value).Field(w.vf["Array"]).Type()))
		})
		if why != "" {
			return why
		}
		v := put.Args[1]
		if t := w.vfield(s, v, "Type"); s.F.eval(mkEq(t, w.tags["ArrayType"])) != yes {
			return "the stored value has type tag " + t.String()
		}
		if v.Op != OpAlloc && v != src {
			return "the stored value is " + v.String()
		}
		arr := w.vfieldAt0(s, src, "Array")
		base := func(t *Term) bool {
			switch {
			case strings.HasPrefix(o, "array"):
				return t == arr || listOf(e, s, t, wholeSrc(arr), elemIs(arr), func(t *Term) bool { return ownEmpty(s, t) }) == ""
			case strings.HasPrefix(o, "absent"):
				return emptyList(s.F, t)
			case strings.HasPrefix(o, "null"):
				return emptyList(s.F, t) || w.single(s, t, src)
			}
			return w.single(s, t, src)
		}
		got := w.vfield(s, v, "Array")
		if strings.HasSuffix(o, "array item") {
			items := w.vfieldAt0(s, item, "Array")
			if why := listOf(e, s, got, wholeSrc(items), elemIs(items), base); why != "" {
				return why
			}
			return ""
		}
		b, els, ok := appendParts(got)
		if !ok || len(els) == 0 || els[len(els)-1] != item {
			return "the stored array is " + got.String() + ", which does not end with the item"
		}
		rest := b
		if len(els) > 1 {
			rest = mkAppend(b, els[:len(els)-1], got.Typ)
			if b.isNil() {
				rest = mkT(OpSliceLit, "", 0, got.Typ, false, nil, nil, els[:len(els)-1]...)
			}
		}
		if !base(rest) {
			return "the stored array is " + got.String() + ": the elements before the item are not the previous ones"
		}
		return ""
	})
}

// ---- C25 ----

func (w *procWorld) removeProc() {
	c := w.c
	rule := w.rule("C25-remove")
	if !w.optsOnly {
		c.Rule(rule, "remove calls Delete exactly once for each configured field, in order; it stops with ErrorKeyMissing naming the field only if that Delete found nothing and ignore_missing is off, goes on otherwise, succeeds only after the last field, and changes nothing else", 3)
	}
	pr := w.proc("remove")
	if pr == nil {
		return
	}
	e, cfg, paths := w.run(pr)
	fields, ign := w.option(pr, cfg, "fields"), w.option(pr, cfg, "ignore_missing")
	if fields == nil || ign == nil {
		return
	}
	pos := c.P.Pos(pr.process.Pos())
	// segment: the writes since the last iteration began
	segment := func(evs []*Event, f *Facts) (del *Event, idx *Term, why string) {
		p := &Path{Events: evs}
		for _, ev := range w.writes(p) {
			if ev.Kind != "del" || del != nil {
				return nil, nil, "the processor also does: " + describeEvent(c.P, ev)
			}
			l, i, ok := elemOf(ev.Args[0])
			if !ok || l != fields {
				return nil, nil, "the deleted key is " + ev.Args[0].String() + ", not a configured field"
			}
			del, idx = ev, i
		}
		return
	}
	keys := map[string]bool{}
	first, later := map[string]map[*Term]bool{}, map[string]map[*Term]bool{}
	for key, rec := range e.Loops {
		for _, it := range rec.Iters {
			hasDel := false
			for _, ev := range it.Events {
				if ev.Kind == "del" {
					hasDel = true
				}
			}
			del, idx, why := segment(it.Events, it.St.F)
			if why != "" {
				c.Bad(rule, w.prefix("remove: ")+"iteration", pos, why)
				continue
			}
			if !hasDel {
				// was the field known to be absent?
				idx = w.absentElem(it.St.F, fields, it.First)
				if idx == nil {
					if usesList(it.St.F, fields, rec) {
						c.Bad(rule, w.prefix("remove: ")+"iteration", pos, "an iteration goes on to the next field without deleting its own", traceDetails(it.St)...)
					}
					continue
				}
			}
			keys[key] = true
			m := later
			if it.First {
				m = first
			}
			if m[key] == nil {
				m[key] = map[*Term]bool{}
			}
			m[key][idx] = true
			if hasDel {
				absent := it.St.F.eval(mkEq(del.Res, mkNil()))
				if absent != no && it.St.F.eval(ign) != yes {
					c.Bad(rule, w.prefix("remove: ")+"iteration", pos, "the next field is handled although the field may be absent and ignore_missing may be off", traceDetails(it.St)...)
					continue
				}
			} else if it.St.F.eval(ign) != yes {
				c.Bad(rule, w.prefix("remove: ")+"iteration", pos, "an absent field is skipped although ignore_missing may be off", traceDetails(it.St)...)
				continue
			}
			c.Ok(rule, w.prefix("remove: ")+"iteration")
		}
	}
	for _, p := range paths {
		s := p.St
		last := 0
		var loop string
		for i, ev := range p.Events {
			if ev.Kind == "loop" {
				last, loop = i+1, ev.Loop
			}
		}
		if n := len(w.writes(&Path{Events: p.Events[:last]})); n > 0 {
			c.Bad(rule, w.prefix("remove: ")+"before the fields", pos, "something else is changed: "+w.describe(w.writes(&Path{Events: p.Events[:last]})))
			continue
		}
		del, idx, why := segment(p.Events[last:], s.F)
		if why != "" {
			c.Bad(rule, w.prefix("remove: ")+"path", pos, why, traceDetails(s)...)
			continue
		}
		nilRet := s.F.eval(mkEq(p.Rets[0], mkNil()))
		if nilRet == yes {
			if del != nil {
				// the last field may be handled without reaching the header again
				c.Bad(rule, w.prefix("remove: ")+"success", pos, "the processor can succeed right after deleting "+del.Args[0].String()+" although further fields may follow", traceDetails(s)...)
				continue
			}
			if s.F.eval(mkLt(mkInt(0), mkLen(fields))) == no {
				c.Ok(rule, w.prefix("remove: ")+"success")
				continue
			}
			why := "the fields are not iterated"
			if keys[loop] {
				why = covers(e, s, sliceSrc(fields), loop, first[loop], later[loop])
			}
			c.Check(why == "", rule, w.prefix("remove: ")+"success", pos, why, traceDetails(s)...)
			continue
		}
		k, ok := w.missingKey(s, p.Rets[0])
		if nilRet != no || !ok {
			c.Bad(rule, w.prefix("remove: ")+"failure", pos, "the result is "+p.Rets[0].String()+" instead of the missing-key error", traceDetails(s)...)
			continue
		}
		l, i, isEl := elemOf(k)
		if !isEl || l != fields || del != nil && i != idx {
			c.Bad(rule, w.prefix("remove: ")+"failure", pos, "the missing-key error names "+k.String(), traceDetails(s)...)
			continue
		}
		absent := false
		if del != nil {
			absent = s.F.eval(mkEq(del.Res, mkNil())) == yes
		} else {
			absent = w.absentElem(s.F, fields, loopVarIn(i) == nil) == i
		}
		if !absent {
			c.Bad(rule, w.prefix("remove: ")+"failure", pos, "the missing-key error is returned although the field may exist", traceDetails(s)...)
			continue
		}
		if s.F.eval(ign) != no {
			c.Bad(rule, w.prefix("remove: ")+"failure", pos, "the missing-key error is returned although ignore_missing may be set", traceDetails(s)...)
			continue
		}
		if loopVarIn(i) != nil {
			if later[loopOfVar(loopVarIn(i))] == nil {
				later[loopOfVar(loopVarIn(i))] = map[*Term]bool{}
			}
			later[loopOfVar(loopVarIn(i))][i] = true
		} else if !i.IsInt || i.N != 0 {
			c.Bad(rule, w.prefix("remove: ")+"failure", pos, "the first field handled is "+k.String())
			continue
		}
		c.Ok(rule, w.prefix("remove: ")+"failure")
	}
	for k := range keys {
		why := covers(e, nil, sliceSrc(fields), k, first[k], later[k])
		c.Check(why == "", rule, w.prefix("remove: ")+"order", pos, why)
	}
}

// absentElem: an element of list whose field is known to be absent.
func (w *procWorld) absentElem(f *Facts, list *Term, first bool) *Term {
	var out *Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OpApp && t.Aux == "event.at" && f.eval(mkEq(t, mkNil())) == yes {
			if l, i, ok := elemOf(t.Args[1]); ok && l == list && (loopVarIn(i) == nil) == first {
				out = i
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for k := range f.bools {
		walk(k)
	}
	for k := range f.eqc {
		walk(k)
	}
	return out
}

func usesList(f *Facts, list *Term, rec *LoopRec) bool {
	for k := range f.zone {
		for _, t := range k {
			if t != nil && contains(t, mkLen(list)) {
				return true
			}
		}
	}
	return false
}

// ---- C26 ----

func (w *procWorld) missingErrors() {
	c := w.c
	c.Rule("C26-is", "ErrorKeyMissing.Is holds exactly for targets of type ErrorKeyMissing, its message contains the key, and no other error type of the module claims to match it", 2)
	c.Rule("C26-source", "on every path of every registered processor, an error that is or wraps ErrorKeyMissing names a key that the event was asked for and did not have (or held null), and a source that was found absent is reported by such an error, by success, or by falling back", len(w.names))
	// Is
	is := c.P.Prog.LookupMethod(w.missing, w.missing.Obj().Pkg(), "Is")
	if is == nil {
		c.Bad("C26-is", "ErrorKeyMissing.Is", c.P.Pos(w.missing.Obj().Pos()), "ErrorKeyMissing has no method Is: errors.Is with another key does not match")
	} else {
		_, paths := collect(c, is, &Client{}, nil, nil)
		target := rootParams(is)[1]
		for _, p := range paths {
			dyn := mkAssertOk(target, w.missing)
			ptr := mkAssertOk(target, types.NewPointer(w.missing))
			res := decide(p.St.F, func(ask func(*Term) bool) string {
				if ask(dyn) {
					return "target is ErrorKeyMissing"
				}
				if ask(ptr) {
					return "pointer"
				}
				return "other target"
			})
			for o, f := range res {
				got := f.eval(p.Rets[0])
				switch o {
				case "target is ErrorKeyMissing":
					c.Check(got == yes, "C26-is", o, c.P.Pos(is.Pos()), "ErrorKeyMissing.Is does not hold for a target of its own type: result "+p.Rets[0].String(), traceDetails(p.St)...)
				case "other target":
					c.Check(got == no, "C26-is", o, c.P.Pos(is.Pos()), "ErrorKeyMissing.Is can hold for another error: result "+p.Rets[0].String(), traceDetails(p.St)...)
				}
			}
		}
	}
	if m := c.P.Prog.LookupMethod(w.missing, w.missing.Obj().Pkg(), "Error"); m != nil {
		_, paths := collect(c, m, &Client{}, nil, nil)
		key := mkField(rootParams(m)[0], w.keyF, types.Typ[types.String])
		for _, p := range paths {
			c.Check(contains(p.Rets[0], key), "C26-is", "message names the key", c.P.Pos(m.Pos()), "the message "+p.Rets[0].String()+" does not contain the key")
		}
	}
	// other types
	for _, pk := range c.P.SSA {
		if pk == nil || !c.P.isModPath(pk.Pkg.Path()) {
			continue
		}
		for _, n := range pk.Pkg.Scope().Names() {
			tn, ok := pk.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nm, ok := tn.Type().(*types.Named)
			if !ok || nm == w.missing {
				continue
			}
			if st := structOf(nm); st != nil {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Embedded() && namedOf(st.Field(i).Type()) == w.missing {
						c.Bad("C26-is", nm.String(), c.P.Pos(tn.Pos()), nm.String()+" embeds ErrorKeyMissing and so matches it")
					}
				}
			}
			for i := 0; i < nm.NumMethods(); i++ {
				m := nm.Method(i)
				sig := m.Type().(*types.Signature)
				if m.Name() != "Is" || sig.Params().Len() != 1 || sig.Results().Len() != 1 {
					continue
				}
				f := c.P.Prog.FuncValue(m)
				if f == nil {
					continue
				}
				_, paths := collect(c, f, &Client{}, nil, nil)
				for _, p := range paths {
					t := rootParams(f)[1]
					g := p.St.F.clone()
					if !g.assume(mkAssertOk(t, w.missing), true) {
						continue
					}
					c.Check(g.eval(p.Rets[0]) == no, "C26-is", nm.String()+".Is", c.P.Pos(f.Pos()), nm.String()+" can match ErrorKeyMissing")
				}
			}
		}
	}
	for _, name := range w.names {
		pr := w.procs[name]
		_, _, paths := w.run(pr)
		for _, p := range paths {
			s := p.St
			k, ok := w.missingKey(s, p.Rets[0])
			pos := c.P.Pos(pr.process.Pos())
			if !ok {
				if s.F.eval(mkEq(p.Rets[0], mkNil())) != no && s.F.eval(mkEq(p.Rets[0], mkNil())) != yes || s.F.eval(mkEq(p.Rets[0], mkNil())) == no {
					// an error of another kind: no source may be known to be absent
					if key := w.absentSource(p); key != nil {
						c.Bad("C26-source", name, pos, pr.process.String()+" returns "+p.Rets[0].String()+" although "+key.String()+" is absent: the error does not match ErrorKeyMissing", traceDetails(s)...)
						continue
					}
				}
				c.Ok("C26-source", name)
				continue
			}
			just := false
			for _, ev := range p.Events {
				if (ev.Kind == "get" || ev.Kind == "del") && (ev.Args[0] == k || s.F.eval(mkEq(ev.Args[0], k)) == yes) {
					if s.F.eval(mkEq(ev.Res, mkNil())) == yes || ev.Kind == "get" && s.F.eval(mkEq(w.vfield(s, ev.Res, "Type"), w.tags["NullType"])) == yes {
						just = true
					}
				}
			}
			c.Check(just, "C26-source", name, pos, pr.process.String()+" returns ErrorKeyMissing for "+k.String()+" although that field was not found to be absent", traceDetails(s)...)
		}
	}
}

// absentSource: a field that was read on the path and is known to be absent,
// without any store afterwards.
func (w *procWorld) absentSource(p *Path) *Term {
	for _, ev := range p.Events {
		if ev.Kind == "put" || ev.Kind == "tryput" {
			return nil
		}
	}
	for _, ev := range p.Events {
		if ev.Kind == "get" && p.St.F.eval(mkEq(ev.Res, mkNil())) == yes {
			return ev.Args[0]
		}
	}
	return nil
}
