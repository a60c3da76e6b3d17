package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxDepth = 40

func (e *Engine) call(s *State, ins ssa.CallInstruction, fnT *Term, args []*Term, isDefer bool) {
	f := s.top()
	e.Calls++
	common := ins.Common()
	site := f.ctx + ":" + e.site(ins)
	finish := func(res []*Term) {
		if isDefer {
			return
		}
		g := s.top()
		if v, ok := ins.(ssa.Value); ok {
			e.setResult(g, v, res)
		}
		g.pc++
	}
	cc := &CallCtx{Instr: ins, Args: args, Site: site, Sig: common.Signature(), FnVal: fnT}
	var bindings []*Term
	if common.IsInvoke() {
		cc.Method = common.Method
		cc.Name = common.Method.FullName()
		recv := args[0]
		e.deref(s, "nilcall", recv, mkNot(mkEq(recv, mkNil())), ins)
		dyn := types.Type(nil)
		if recv.Op == OpIface {
			dyn = recv.Typ
		} else if d, ok := s.F.dyn[recv]; ok {
			dyn = d
		}
		if dyn != nil {
			if m := e.P.Prog.LookupMethod(dyn, common.Method.Pkg(), common.Method.Name()); m != nil {
				cc.Fn = m
				cc.Method = nil
				a := append([]*Term(nil), args...)
				if recv.Op == OpIface {
					a[0] = recv.Args[0]
				} else {
					a[0] = mkAssert(recv, dyn)
				}
				cc.Args = a
			}
		}
	} else {
		switch fnT.Op {
		case OpFunc:
			if b, ok := fnT.Ref.(*ssa.Builtin); ok {
				finish(e.builtin(s, ins, b, cc))
				return
			}
			cc.Fn = fnT.Ref.(*ssa.Function)
		case OpClosure:
			cc.Fn = fnT.Ref.(*ssa.Function)
			bindings = fnT.Args
		default:
			e.deref(s, "nilfunc", fnT, mkNot(mkEq(fnT, mkNil())), ins)
		}
	}
	if cc.Fn != nil {
		if o, ok := cc.Fn.Object().(*types.Func); ok {
			cc.Method = o
			cc.Name = o.FullName()
		} else {
			cc.Name = cc.Fn.String()
		}
	}
	if e.C.Model != nil {
		if res, ok := e.C.Model(s, cc); ok {
			finish(res)
			return
		}
	}
	if endsProgram(cc.Name) {
		e.Paths++
		s.exited = true
		if e.C.OnExit != nil {
			e.C.OnExit(s, cc.Name, cc.Args)
		}
		return
	}
	fn := cc.Fn
	if fn != nil && len(fn.Blocks) > 0 && e.P.inModule(fn) {
		rec := false
		for _, fr := range s.frames {
			if fr.fn == fn {
				rec = true
			}
		}
		if !rec && len(s.frames) < maxDepth && (e.C.Opaque == nil || !e.C.Opaque(s, fn, cc.Args)) {
			e.push2(s, fn, cc.Args, bindings, ins, isDefer, site)
			return
		}
		finish(e.opaque(s, cc, rec, "all"))
		return
	}
	finish(e.foreign(s, cc))
}

// endsProgram: library functions that do not return.
func endsProgram(name string) bool {
	switch name {
	case "os.Exit", "runtime.Goexit":
		return true
	}
	return strings.HasPrefix(name, "log.Fatal") || strings.HasPrefix(name, "(*log.Logger).Fatal")
}

// push2 starts the analysis of a callee in the context of the call.
func (e *Engine) push2(s *State, fn *ssa.Function, args, bindings []*Term, ins ssa.CallInstruction, isDefer bool, site string) {
	caller := s.top()
	ctx := site
	if isDefer {
		ctx += "d" + strconv.Itoa(len(caller.defers))
	}
	g := &Frame{fn: fn, ctx: ctx, env: map[ssa.Value]*Term{}, block: fn.Blocks[0], call: ins, noRet: isDefer}
	for i, p := range fn.Params {
		if i < len(args) {
			g.env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bindings) {
			g.env[fv] = bindings[i]
		}
	}
	e.Funcs[fn] = true
	s.frames = append(append([]*Frame(nil), s.frames...), g)
	e.enter(s, fn.Blocks[0], nil)
}

// results makes unknown results of an opaque call.
func (e *Engine) results(s *State, cc *CallCtx) []*Term {
	var out []*Term
	lk := s.loopKeys()
	name := cc.Name
	if i := strings.LastIndex(name, "/"); i >= 0 {
		name = name[i+1:]
	}
	r := cc.Sig.Results()
	for i := 0; i < r.Len(); i++ {
		out = append(out, mkT(OpCallRes, name+"·"+cc.Site, int64(i), r.At(i).Type(), false, cc.Instr, lk))
	}
	// a new call: forget what was known about the results of the previous one
	if len(out) > 0 {
		stale := false
		for k := range s.F.bools {
			for _, o := range out {
				if contains(k, o) {
					stale = true
				}
			}
		}
		_ = stale
		s.F = s.F.filter(func(t *Term) bool {
			for _, o := range out {
				if contains(t, o) {
					return false
				}
			}
			return true
		})
	}
	return out
}

// opaque treats a call as having unknown results and effect.
func (e *Engine) opaque(s *State, cc *CallCtx, rec bool, effect string) []*Term {
	res := e.results(s, cc)
	var r *Term
	if len(res) == 1 {
		r = res[0]
	} else if len(res) > 1 {
		r = mkT(OpTuple, "", 0, nil, false, nil, nil, res...)
	}
	ev := &Event{Kind: "call", Instr: cc.Instr, Fn: cc.Fn, Method: cc.Method, Args: cc.Args, Res: r, Ctx: s.top().ctx, Rec: rec, Addr: cc.FnVal}
	if cc.FnVal != nil && cc.FnVal.Op == OpFunc {
		ev.Addr = nil
	}
	e.emit(s, ev)
	switch effect {
	case "none":
	case "args":
		e.havocArgs(s, cc)
	default:
		for _, a := range cc.Args {
			s.escape(a)
		}
		if cc.FnVal != nil {
			s.escape(cc.FnVal)
		}
		s.havocAll(cc.Site)
	}
	if e.C.After != nil {
		e.C.After(s, ev, res)
	}
	return res
}

// havocArgs: the callee may write through its pointer arguments only.
func (e *Engine) havocArgs(s *State, cc *CallCtx) {
	for _, a := range cc.Args {
		x := a
		if x.Op == OpIface {
			x = x.Args[0]
		}
		s.escape(a)
		if ptrLike(x.Typ) {
			s.havocAt(x, cc.Site)
		}
		if x.Op == OpSlice && x.Args[0].Op == OpAlloc { // variadic interface args
			for k, v := range s.mem {
				if rootOf(k) == x.Args[0] && v.Op == OpIface && ptrLike(v.Args[0].Typ) {
					defer s.havocAt(v.Args[0], cc.Site)
				}
			}
		}
	}
}

// foreign models calls of functions outside the module.
func (e *Engine) foreign(s *State, cc *CallCtx) []*Term {
	if res, ok := e.libModel(s, cc); ok {
		return res
	}
	if cc.Fn == nil && cc.Method == nil {
		return e.opaque(s, cc, false, "all")
	}
	if cc.Method != nil && cc.Method.Pkg() != nil && e.P.isModPath(cc.Method.Pkg().Path()) {
		// interface of the module, implementation unknown
		return e.opaque(s, cc, false, "all")
	}
	if cc.Name == "(error).Error" {
		return []*Term{mkApp("error.Error", types.Typ[types.String], cc.Args...)}
	}
	if writesLists(cc.Name) {
		for _, a := range cc.Args {
			e.rewriteList(s, a, cc)
		}
	}
	switch foreignEffect(cc.Name) {
	case "none":
		return e.opaque(s, cc, false, "none")
	case "all":
		return e.opaque(s, cc, false, "all")
	}
	return e.opaque(s, cc, false, "args")
}

// writesLists: library functions that change the elements of a list in place.
func writesLists(name string) bool {
	switch {
	case strings.HasPrefix(name, "sort.Search"), strings.HasSuffix(name, "AreSorted"), strings.HasSuffix(name, "IsSorted"), name == "sort.Reverse":
		return false
	case strings.HasPrefix(name, "sort."), strings.HasPrefix(name, "slices.Sort"), strings.HasPrefix(name, "(sort."), name == "slices.Reverse", name == "io.ReadFull", name == "io.ReadAtLeast":
		return true
	case strings.HasPrefix(name, "encoding/hex."), strings.HasPrefix(name, "(*encoding/base64.Encoding)."):
		return !strings.Contains(name, "String")
	}
	i := strings.LastIndexByte(name, '.')
	return name[i+1:] == "Read" || name[i+1:] == "ReadAt"
}

// rewriteList: the elements of the list x become unknown. Lists are values for
// the analysis, so that what refers to x refers to another list from now on.
func (e *Engine) rewriteList(s *State, x *Term, cc *CallCtx) {
	for x.Op == OpIface || x.Op == OpConv && len(x.Args) == 1 {
		x = x.Args[0]
	}
	if x.Op == OpApp && x.Aux == "sort.Reverse" && len(x.Args) == 1 {
		e.rewriteList(s, x.Args[0], cc)
		return
	}
	if !isSliceTerm(x) || x.isNil() {
		return
	}
	et := elemType(x.Typ)
	root := rootOf(x)
	for k := range s.mem {
		if k.Op == OpIndexAddr && (rootOf(k) == root || rootOf(k) == x || !s.rootsDistinct(rootOf(k), root) && elemType(k.Args[0].Typ) != nil && types.Identical(elemType(k.Args[0].Typ), et)) {
			delete(s.mem, k)
		}
	}
	s.ver["E:"+typeStr(et)] = mkVer(cc.Site, s.loopKeys())
	if o, ok := s.obj[root]; ok {
		o.zero, o.complete = false, false
		s.obj[root] = o
	}
	y := mkT(OpCallRes, "reordered·"+cc.Site, 0, x.Typ, true, cc.Instr, s.loopKeys(), x)
	s.F.assume(mkEq(mkLen(y), mkLen(x)), true)
	if s.F.eval(mkEq(x, mkNil())) == no {
		s.F.assume(mkEq(y, mkNil()), false)
	}
	m := map[*Term]*Term{x: y}
	memo := map[*Term]*Term{}
	for i, f := range s.frames {
		g := f.clone()
		for v, t := range g.env {
			if t != nil {
				g.env[v] = subst(t, m, memo)
			}
		}
		s.frames[i] = g
	}
	for k, v := range s.mem {
		if v != nil {
			s.mem[k] = subst(v, m, memo)
		}
	}
}

// foreignEffect: library functions that do not write memory of the module.
func foreignEffect(name string) string {
	for _, p := range []string{
		"encoding/json.Marshal", "(*encoding/json.Encoder).", "log.", "fmt.Print", "fmt.Fprint", "os.",
		"(github.com/prometheus/client_golang/prometheus.", "(*github.com/prometheus/client_golang/prometheus.", "github.com/prometheus/",
		"io/ioutil.", "io.", "(*os.File).", "go/", "flag.", "runtime", "net/http.", "(*net/http", "(*log.Logger)", "encoding/json.NewDecoder",
		"encoding/json.NewEncoder", "(*bufio.", "bufio.", "bytes.NewReader", "gopkg.in/yaml.v3.NewDecoder", "(*text/template.Template)", "text/template.",
		"github.com/elastic/go-ucfg.NewFrom", "(*bytes.Buffer).Bytes",
	} {
		if strings.HasPrefix(name, p) {
			return "none"
		}
	}
	return "args"
}

var purePrefixes = []string{
	"strings.", "strconv.", "unicode.", "unicode/utf8.", "path/filepath.", "path.", "math.", "reflect.", "(reflect.", "(*reflect.rtype)",
	"(time.", "time.Unix", "time.Date", "time.Parse", "errors.Is", "errors.New", "errors.Unwrap", "fmt.Sprint", "fmt.Errorf", "bytes.Equal", "bytes.Trim",
	"bytes.Join", "bytes.Compare", "bytes.HasPrefix", "github.com/mitchellh/go-wordwrap.",
}

func (e *Engine) libModel(s *State, cc *CallCtx) ([]*Term, bool) {
	name := cc.Name
	one := func(t *Term) ([]*Term, bool) { return []*Term{t}, true }
	args := cc.Args
	// string builders
	if (strings.HasPrefix(name, "(*strings.Builder).") || strings.HasPrefix(name, "(*bytes.Buffer).")) && len(args) > 0 {
		cell := mkT(OpBuilder, "", 0, types.NewPointer(types.Typ[types.String]), false, nil, nil, args[0])
		cur := func() *Term {
			if v, ok := s.mem[cell]; ok {
				return v
			}
			if s.zeroInit(args[0]) {
				return mkStr("")
			}
			return mkT(OpLoad, "", 0, types.Typ[types.String], false, nil, nil, cell, s.gver)
		}
		switch cc.Fn.Name() {
		case "WriteString", "WriteByte", "WriteRune", "Write":
			v := args[1]
			if cc.Fn.Name() == "WriteByte" || cc.Fn.Name() == "WriteRune" {
				v = mkConv(v, types.Typ[types.Int32], types.Typ[types.String])
				if v == args[1] { // constant character
					v = mkT(OpConv, "string", 0, types.Typ[types.String], false, nil, nil, args[1])
				}
				switch {
				case args[1].IsInt && (args[1].N < 128 || cc.Fn.Name() == "WriteRune"):
					v = mkStr(string(rune(args[1].N)))
				case cc.Fn.Name() == "WriteByte":
					v = mkApp("bytestring", types.Typ[types.String], args[1])
				}
			} else if cc.Fn.Name() == "Write" {
				v = mkConv(v, types.NewSlice(types.Typ[types.Byte]), types.Typ[types.String])
			}
			nv := mkApp("concat", types.Typ[types.String], cur(), v)
			e.emit(s, &Event{Kind: "write", Instr: cc.Instr, Ctx: s.top().ctx, Addr: cell, Val: v})
			s.mem[cell] = nv
			if cc.Fn.Name() == "WriteByte" {
				return []*Term{mkNil()}, true
			}
			return []*Term{mkLen(v), mkNil()}, true
		case "String":
			return one(cur())
		case "Len":
			return one(mkLen(cur()))
		case "Reset":
			s.mem[cell] = mkStr("")
			return nil, true
		case "Grow":
			return nil, true
		case "Truncate":
			if args[1].IsInt && args[1].N == 0 {
				s.mem[cell] = mkStr("")
				return nil, true
			}
		}
	}
	switch name {
	case "errors.New":
		t := mkT(OpApp, "errors.New", 0, cc.Sig.Results().At(0).Type(), false, cc.Instr, s.loopKeys(), args[0], mkT(OpSym, "site"+cc.Site, 0, nil, false, nil, nil))
		return one(t)
	case "fmt.Errorf":
		as := append([]*Term{args[0]}, e.elems(s, args[1])...)
		return one(mkT(OpApp, "fmt.Errorf", 0, cc.Sig.Results().At(0).Type(), false, cc.Instr, nil, as...))
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		var as []*Term
		for i, a := range args {
			if i == len(args)-1 {
				as = append(as, e.elems(s, a)...)
			} else {
				as = append(as, a)
			}
		}
		if name == "fmt.Sprintf" && len(as) > 0 {
			if f, ok := as[0].isStr(); ok {
				if t := sprintf(f, as[1:]); t != nil {
					return one(t)
				}
			}
		}
		return one(mkApp(name, types.Typ[types.String], as...))
	case "errors.Is":
		if args[0].isNil() {
			return one(mkEq(args[1], mkNil()))
		}
		return one(mkApp("errors.Is", types.Typ[types.Bool], args...))
	case "errors.As":
		t := args[1]
		if t.Op == OpIface {
			t = t.Args[0]
		}
		ok := mkT(OpApp, "errors.As", 0, types.Typ[types.Bool], true, nil, nil, args[0], mkT(OpSym, "as:"+typeStr(t.Typ), 0, nil, false, nil, nil))
		s.havocAt(t, cc.Site)
		return one(ok)
	case "strings.Split", "strings.SplitN":
		t := mkApp(name, cc.Sig.Results().At(0).Type(), args...)
		s.F.addDiff(nil, mkLen(t), -1)
		return one(t)
	case "reflect.TypeOf":
		if args[0].Op == OpIface {
			return one(mkT(OpApp, "typeof", 0, cc.Sig.Results().At(0).Type(), false, args[0].Typ, nil, mkT(OpSym, "type:"+typeStr(args[0].Typ), 0, nil, false, args[0].Typ, nil)))
		}
		return one(mkApp("typeof", cc.Sig.Results().At(0).Type(), args[0]))
	case "reflect.ValueOf":
		return one(mkApp("reflect.ValueOf", cc.Sig.Results().At(0).Type(), args[0]))
	}
	if strings.HasPrefix(name, "(reflect.Value).Set") || name == "(reflect.Value).Call" || strings.HasPrefix(name, "(*reflect.MapIter)") {
		res := e.opaque(s, cc, false, map[bool]string{true: "all", false: "none"}[name == "(reflect.Value).Call"])
		return res, true
	}
	isPure := false
	for _, p := range purePrefixes {
		if strings.HasPrefix(name, p) && !strings.HasPrefix(name, "reflect.Copy") && name != "reflect.Append" && !strings.HasPrefix(name, "strings.NewRe") {
			isPure = true
		}
	}
	if !isPure {
		return nil, false
	}
	r := cc.Sig.Results()
	// make variadic arguments explicit
	if cc.Sig.Variadic() && len(args) > 0 {
		args = append(append([]*Term(nil), args[:len(args)-1]...), e.elems(s, args[len(args)-1])...)
	}
	ev := &Event{Kind: "pure", Instr: cc.Instr, Fn: cc.Fn, Method: cc.Method, Args: args, Ctx: s.top().ctx}
	var res []*Term
	for i := 0; i < r.Len(); i++ {
		n := name
		if r.Len() > 1 {
			n += "#" + strconv.Itoa(i)
		}
		res = append(res, libApp(n, r.At(i).Type(), args))
	}
	if len(res) == 1 {
		ev.Res = res[0]
	}
	s.libBounds(name, args, res)
	e.emit(s, ev)
	return res, true
}

// libBounds records what the documentation of a library function says about
// the size of its results.
func (s *State) libBounds(name string, args, res []*Term) {
	i := strings.LastIndexByte(name, '.')
	pkg, fn := name[:i], name[i+1:]
	if len(res) == 0 || len(args) == 0 {
		return
	}
	le := func(a, b *Term, c int64) { // a - b <= c
		xa, ca := linParts(a)
		if b == nil {
			s.F.addDiff(xa, nil, c-ca)
			return
		}
		xb, cb := linParts(b)
		s.F.addDiff(xa, xb, c-ca+cb)
	}
	ge := func(a *Term, c int64) { // a >= c
		if x, o := linParts(a); x != nil {
			s.F.addDiff(nil, x, o-c)
		}
	}
	switch pkg {
	case "strings", "bytes":
		switch {
		case strings.HasPrefix(fn, "Index") || strings.HasPrefix(fn, "LastIndex"):
			ge(res[0], -1)
			d := int64(-1)
			if fn == "Index" || fn == "LastIndex" {
				d = 0
				if c, ok := args[1].isStr(); ok {
					d = -int64(len(c))
				}
			}
			// not found gives -1, which is below the length as well
			if d < -1 {
				d = -1
			}
			le(res[0], mkLen(args[0]), d)
		case fn == "Count":
			ge(res[0], 0)
			d := int64(1)
			if c, ok := args[1].isStr(); ok && len(c) > 0 {
				d = 0
			}
			le(res[0], mkLen(args[0]), d)
		case strings.HasPrefix(fn, "Trim"):
			le(mkLen(res[0]), mkLen(args[0]), 0)
		case fn == "Cut":
			le(mkLen(res[0]), mkLen(args[0]), 0)
			le(mkLen(res[1]), mkLen(args[0]), 0)
		}
	case "unicode/utf8":
		switch fn {
		case "RuneCount", "RuneCountInString":
			ge(res[0], 0)
			le(res[0], mkLen(args[0]), 0)
		case "DecodeRune", "DecodeRuneInString", "DecodeLastRune", "DecodeLastRuneInString":
			ge(res[1], 0)
			le(res[1], nil, 4)
			le(res[1], mkLen(args[0]), 0)
		}
	}
}

// libApp builds a pure library application with some normalisation.
func libApp(n string, t types.Type, args []*Term) *Term {
	switch n {
	case "(reflect.Value).IsValid":
		if args[0].Op == OpZero {
			return mkBool(false)
		}
	case "(reflect.Value).Kind":
		if args[0].Op == OpZero {
			return mkInt(0)
		}
	case "(reflect.Type).Kind":
		if args[0].Op == OpApp && args[0].Aux == "(reflect.Value).Type" {
			return mkApp("(reflect.Value).Kind", t, args[0].Args[0])
		}
	case "(reflect.Type).Elem":
		if args[0].Op == OpApp && args[0].Aux == "typeof" && args[0].Args[0].Op == OpSym {
			if typ, ok := args[0].Args[0].Ref.(types.Type); ok {
				if et := elemType2(typ); et != nil {
					return mkT(OpApp, "typeof", 0, t, false, et, nil, mkT(OpSym, "type:"+typeStr(et), 0, nil, false, et, nil))
				}
			}
		}
	case "strconv.FormatInt":
		if len(args) == 2 && args[1].IsInt && args[1].N == 10 {
			return mkApp("decimal", t, args[0])
		}
	case "strconv.Itoa":
		return mkApp("decimal", t, args[0])
	}
	return mkApp(n, t, args...)
}

func elemType2(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	}
	return nil
}

// sprintf expands simple formats into concatenations.
func sprintf(f string, args []*Term) *Term {
	out := mkStr("")
	str := types.Typ[types.String]
	i := 0
	for len(f) > 0 {
		j := strings.IndexByte(f, '%')
		if j < 0 {
			out = mkApp("concat", str, out, mkStr(f))
			break
		}
		out = mkApp("concat", str, out, mkStr(f[:j]))
		if j+1 >= len(f) {
			return nil
		}
		verb := f[j+1]
		f = f[j+2:]
		if verb == '%' {
			out = mkApp("concat", str, out, mkStr("%"))
			continue
		}
		if i >= len(args) {
			return nil
		}
		a := args[i]
		i++
		if a.Op != OpIface {
			return nil
		}
		x := a.Args[0]
		bt, _ := a.Typ.(*types.Basic)
		switch {
		case (verb == 's' || verb == 'v') && bt != nil && bt.Info()&types.IsString != 0:
		case (verb == 'd' || verb == 'v') && bt != nil && bt.Info()&types.IsInteger != 0:
			if x.IsInt {
				x = mkStr(strconv.FormatInt(x.N, 10))
			} else {
				x = mkApp("decimal", str, x)
			}
		default:
			return nil
		}
		out = mkApp("concat", str, out, x)
	}
	if i != len(args) {
		return nil
	}
	return out
}

// elems lists the elements of a variadic argument slice.
func (e *Engine) elems(s *State, t *Term) []*Term {
	if t.isNil() {
		return nil
	}
	if t.Op == OpSlice && t.Args[0].Op == OpAlloc && t.Args[1].IsInt && t.Args[2].IsInt {
		var out []*Term
		arr := t.Args[0]
		et := elemType(arr.Typ)
		for i := t.Args[1].N; i < t.Args[2].N; i++ {
			out = append(out, s.load(mkIndexAddr(arr, mkInt(i), types.NewPointer(et)), et))
		}
		return out
	}
	if t.Op == OpSliceLit {
		return t.Args
	}
	return []*Term{mkApp("spread", t.Typ, t)}
}

func (e *Engine) builtin(s *State, ins ssa.CallInstruction, b *ssa.Builtin, cc *CallCtx) []*Term {
	args := cc.Args
	typ := cc.Sig.Results()
	var rt types.Type
	if v, ok := ins.(ssa.Value); ok {
		rt = v.Type()
	}
	_ = typ
	switch b.Name() {
	case "len":
		x := args[0]
		at := ins.Common().Args[0].Type()
		if mapTypeOf(at) != nil {
			return []*Term{s.mapLen(x)}
		}
		if _, ok := at.Underlying().(*types.Chan); ok {
			return []*Term{mkT(OpCallRes, "len·"+cc.Site, 0, types.Typ[types.Int], false, nil, s.loopKeys())}
		}
		if p, ok := at.Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return []*Term{mkInt(a.Len())}
			}
		}
		return []*Term{s.F.resolveLen(x)}
	case "cap":
		return []*Term{mkT(OpCap, "", 0, types.Typ[types.Int], false, nil, nil, args[0])}
	case "append":
		base := args[0]
		if s.F.isNilTri(base) == yes {
			base = mkNil()
		}
		var res *Term
		if len(args) == 1 {
			res = base
		} else {
			more := args[1]
			if more.Op == OpSlice && more.Args[0].Op == OpAlloc && more.Args[1].IsInt && more.Args[2].IsInt && derefIsArray(more.Args[0].Typ) {
				els := e.elems(s, more)
				if len(els) == 0 {
					res = base
				} else {
					res = mkAppend(base, els, rt)
				}
			} else if more.isNil() {
				res = base
			} else {
				res = mkT(OpAppendSl, "", 0, rt, false, nil, nil, base, more)
				e.copied(s, res)
			}
		}
		if res.Typ == nil {
			res.Typ = rt
		}
		e.emit(s, &Event{Kind: "append", Instr: ins, Ctx: s.top().ctx, Args: args, Res: res})
		return []*Term{res}
	case "delete":
		et := elemType(ins.Common().Args[0].Type())
		old, _ := s.lookup(args[0], args[1], et)
		e.emit(s, &Event{Kind: "mapdel", Instr: ins, Ctx: s.top().ctx, Args: args, Val: old})
		if !args[0].isNil() {
			s.mapSet(args[0], args[1], mkT(OpAbsent, "", 0, nil, false, nil, nil), cc.Site)
		}
		return nil
	case "clear":
		e.emit(s, &Event{Kind: "clear", Instr: ins, Ctx: s.top().ctx, Args: args})
		s.havocAll(cc.Site)
		return nil
	case "copy":
		e.emit(s, &Event{Kind: "copy", Instr: ins, Ctx: s.top().ctx, Args: args})
		r := rootOf(args[0])
		for k := range s.mem {
			if rootOf(k) == r {
				delete(s.mem, k)
			}
		}
		if o, ok := s.obj[r]; ok {
			o.zero = false
			s.obj[r] = o
		}
		if !s.isFreshUnescaped(r) {
			s.ver["E:"+typeStr(elemType(args[0].Typ))] = mkVer(cc.Site, s.loopKeys())
		} else {
			s.mem[mkT(OpIndexAddr, "", 0, nil, false, nil, nil, r, mkT(OpSym, "copied", 0, types.Typ[types.Int], false, nil, nil))] = mkApp("copyof", nil, args[1])
		}
		return []*Term{mkT(OpCallRes, "copy·"+cc.Site, 0, types.Typ[types.Int], false, nil, s.loopKeys())}
	case "ssa:wrapnilchk":
		return []*Term{args[0]}
	case "recover":
		return []*Term{mkT(OpCallRes, "recover·"+cc.Site, 0, rt, false, nil, s.loopKeys())}
	case "print", "println":
		e.emit(s, &Event{Kind: "print", Instr: ins, Ctx: s.top().ctx, Args: args})
		return nil
	case "min", "max":
		return []*Term{mkApp(b.Name(), rt, args...)}
	}
	e.emit(s, &Event{Kind: "builtin", Eff: b.Name(), Instr: ins, Ctx: s.top().ctx, Args: args})
	if rt == nil {
		return nil
	}
	if tup, ok := rt.(*types.Tuple); ok && tup.Len() == 0 {
		return nil
	}
	return []*Term{mkT(OpCallRes, b.Name()+"·"+cc.Site, 0, rt, false, nil, s.loopKeys())}
}

func derefIsArray(t types.Type) bool {
	if t == nil {
		return false
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Array)
	return ok
}

func (f *Facts) resolveLen(x *Term) *Term {
	if f.isNilTri(x) == yes {
		return mkInt(0)
	}
	return mkLen(x)
}
