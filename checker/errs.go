package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C27: no error is lost. Every call of the module that gives an error is a
// source. On every path to the end of the function (or of a loop iteration)
// the error is known to be nil, or is passed on (returned, stored where the
// caller sees it, given to another function that is more than a question about
// it), or the function fails anyway, or what is asked about the error is one
// of the documented reasons to go on.

type errWorld struct {
	c      *Ctx
	evP    string
	procP  string
	never  map[*ssa.Function]bool // their error is always nil
	absorb map[*ssa.Function]bool // unexported helpers that deal with errors themselves: analysed at their callers
	inl    map[*ssa.Function]bool
	seen   map[string]bool
	obs    int
	event  *types.Interface
}

var errorType = types.Universe.Lookup("error").Type()

func isErr(t types.Type) bool { return t != nil && types.Identical(t, errorType) }

func errResult(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if isErr(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

func errParam(sig *types.Signature) bool {
	for i := 0; i < sig.Params().Len(); i++ {
		if isErr(sig.Params().At(i).Type()) {
			return true
		}
	}
	return false
}

func newErrWorld(c *Ctx) *errWorld {
	w := &errWorld{c: c, evP: c.P.Mod + "/" + relEvent, procP: c.P.Mod + "/" + relProcessor, never: map[*ssa.Function]bool{}, absorb: map[*ssa.Function]bool{}, inl: map[*ssa.Function]bool{}, seen: map[string]bool{}}
	if pk := c.P.Pkg(relProcessor); pk != nil && pk.Type("Event") != nil {
		w.event, _ = pk.Type("Event").Type().Underlying().(*types.Interface)
	}
	if w.event == nil {
		c.Missing("interface Event of " + relProcessor)
	}
	for _, f := range c.P.Funcs {
		w.neverFails(f)
	}
	// Helpers without an error result that get errors from calls.
	used := map[*ssa.Function]bool{} // as a value
	calls := map[*ssa.Function][]*ssa.Function{}
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var callee ssa.Value
				if ci, ok := ins.(ssa.CallInstruction); ok {
					callee = ci.Common().Value
					if sc := ci.Common().StaticCallee(); sc != nil {
						if _, isGo := ins.(*ssa.Go); isGo {
							used[sc] = true
						}
						calls[sc] = append(calls[sc], f)
					}
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && *op != callee {
						used[g] = true
					}
				}
			}
		}
	}
	for _, f := range c.P.Funcs {
		if !c.P.inModule(f) || len(f.Blocks) == 0 || f.Parent() != nil || used[f] || len(calls[f]) == 0 || errResult(f.Signature) >= 0 {
			continue
		}
		if o := f.Object(); o == nil || o.Exported() || f.Name() == "main" || f.Name() == "init" {
			continue
		}
		if f.Signature.Recv() != nil && c.P.Repo == "" {
			continue
		}
		if !recursive(c.P, f) && w.hasSource(f) {
			w.absorb[f] = true
		}
	}
	return w
}

func (w *errWorld) hasSource(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if ci, ok := ins.(ssa.CallInstruction); ok && errResult(ci.Common().Signature()) >= 0 {
				if sc := ci.Common().StaticCallee(); sc == nil || !w.never[sc] {
					return true
				}
			}
		}
	}
	return false
}

// neverFails notes functions all of whose returns give a nil error.
func (w *errWorld) neverFails(f *ssa.Function) {
	i := errResult(f.Signature)
	if i < 0 || len(f.Blocks) == 0 || !w.c.P.inModule(f) {
		return
	}
	n := 0
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if r, ok := ins.(*ssa.Return); ok {
				n++
				if k, isC := r.Results[i].(*ssa.Const); !isC || !k.IsNil() {
					return
				}
			}
		}
	}
	w.never[f] = n > 0
}

// noError: library functions whose error is nil by contract, or that only make
// or examine errors.
func noError(name string, args []*Term) bool {
	switch {
	case strings.HasPrefix(name, "errors."), name == "fmt.Errorf", strings.HasPrefix(name, "(*strings.Builder)."), strings.HasPrefix(name, "(*bytes.Buffer).Write") && name != "(*bytes.Buffer).WriteTo",
		strings.HasPrefix(name, "(hash.Hash"), strings.HasPrefix(name, "log."), strings.HasPrefix(name, "(*log.Logger)"), strings.HasPrefix(name, "(fmt.State)."), strings.HasPrefix(name, "go.uber.org/multierr."):
		return true
	case strings.HasPrefix(name, "fmt.Fprint") || name == "io.WriteString":
		w := plain(args[0])
		if isStdFile(w, "Stderr") {
			return true
		}
		switch t := typeStr(typeOr(w.Typ)); t {
		case "*strings.Builder", "*bytes.Buffer", "fmt.State":
			return true
		}
	case name == "(io.Writer).Write":
		switch t := typeStr(typeOr(plain(args[0]).Typ)); t {
		case "*strings.Builder", "*bytes.Buffer", "fmt.State":
			return true
		}
	}
	return false
}

// question: functions that only examine an error.
func question(name string) bool {
	switch name {
	case "errors.Is", "errors.As", "errors.Unwrap", "os.IsNotExist", "os.IsExist", "os.IsPermission", "os.IsTimeout":
		return true
	}
	return false
}

func (w *errWorld) hasErr(t *Term) bool {
	return t != nil && anySub(t, func(x *Term) bool { return isSource(x) })
}

func isSource(x *Term) bool {
	return x.Op == OpCallRes && isErr(x.Typ) || x.Op == OpApp && x.Aux == "scanerr"
}

type errRun struct {
	w     *errWorld
	fn    *ssa.Function
	e     *Engine
	what  map[*Term]string
	found func(err *Term, s *State, why string)
}

func (r *errRun) model(s *State, cc *CallCtx) ([]*Term, bool) {
	w := r.w
	e := s.e
	args := cc.Args
	if cc.Sig.Variadic() && len(args) > 0 {
		args = append(append([]*Term(nil), args[:len(args)-1]...), e.elems(s, args[len(args)-1])...)
	}
	inModule := cc.Fn != nil && w.c.P.inModule(cc.Fn) && len(cc.Fn.Blocks) > 0
	inlined := inModule && r.inlines(cc.Fn)
	if !inlined && !question(cc.Name) {
		for _, a := range args {
			if w.hasErr(a) || a.Op == OpIface && w.hasErr(a.Args[0]) {
				e.emit(s, &Event{Kind: "use", Instr: cc.Instr, Ctx: s.top().ctx, Args: args})
				break
			}
		}
	}
	switch cc.Name {
	case "os.IsNotExist":
		return []*Term{mkApp("notexist", types.Typ[types.Bool], cc.Args[0])}, true
	case "errors.Is":
		if t := cc.Args[1]; t.Op == OpLoad && t.Args[0].Op == OpGlobal && strings.HasSuffix(t.Args[0].Aux, ".ErrNotExist") {
			return []*Term{mkApp("notexist", types.Typ[types.Bool], cc.Args[0])}, true
		}
		return nil, false
	case "(*bufio.Scanner).Scan":
		res := e.opaque(s, cc, false, "none")
		e.emit(s, &Event{Kind: "err", Instr: cc.Instr, Ctx: s.top().ctx, Args: []*Term{mkApp("scanerr", errorType, cc.Args[0])}})
		return res, true
	case "(*bufio.Scanner).Err":
		read := false
		for _, ev := range s.Events() {
			read = read || ev.Kind == "err" && ev.Args[0].Op == OpApp && ev.Args[0].Args[0] == cc.Args[0]
		}
		if !read {
			return []*Term{mkNil()}, true // nothing was read yet
		}
		return []*Term{mkApp("scanerr", errorType, cc.Args[0])}, true
	case "(*bufio.Scanner).Text", "(*bufio.Scanner).Bytes", "(*bufio.Scanner).Buffer", "(*bufio.Scanner).Split":
		return e.opaque(s, cc, false, "none"), true
	}
	i := errResult(cc.Sig)
	if i < 0 || inlined || cc.Fn != nil && w.never[cc.Fn] || noError(cc.Name, cc.Args) {
		return nil, false
	}
	eff := "all"
	if !inModule && cc.Method != nil && !(cc.Method.Pkg() != nil && e.P.isModPath(cc.Method.Pkg().Path())) {
		eff = foreignEffect(cc.Name)
	}
	old := e.results(s, cc)[i] // (the same term: an earlier call of this instruction)
	_ = old
	res := e.opaque(s, cc, false, eff)
	err := res[i]
	if w.harmless(s, cc) {
		return res, true
	}
	e.emit(s, &Event{Kind: "err", Instr: cc.Instr, Fn: cc.Fn, Method: cc.Method, Ctx: s.top().ctx, Args: append([]*Term{err}, cc.Args...)})
	r.what[err] = errName(w.c.P, cc)
	return res, true
}

func errName(p *Prog, cc *CallCtx) string {
	n := cc.Name
	if cc.Fn == nil && cc.Method == nil {
		n = "a function value"
	}
	return strings.ReplaceAll(n, p.Mod+"/", "")
}

// harmless: the error cannot occur or is of no interest.
func (w *errWorld) harmless(s *State, cc *CallCtx) bool {
	if fnPkgPath(s.top().fn) == w.c.P.Mod+"/"+relPipeline {
		for _, a := range cc.Args {
			if w.event != nil && a.Typ != nil && types.Implements(plain(a).Typ, w.event) {
				return true // what becomes of the failures of processors is decided by C12 to C15
			}
		}
	}
	switch cc.Name {
	case "(*os.File).Close":
		// of a file that is only read
		f := cc.Args[0]
		return f.Op == OpCallRes && strings.HasPrefix(f.Aux, "os.Open·")
	case "(reflect.Value).FieldByIndexErr":
		return true // asks whether the field can be reached
	case "runtime/pprof.StartCPUProfile":
		return true // fails only if a profile is being taken already
	case "(*github.com/prometheus/client_golang/prometheus.Registry).Register":
		// the standard collectors in a registry of their own
		return s.frames[0].fn.Name() == "init" || strings.HasPrefix(s.frames[0].fn.Name(), "init#")
	case "fmt.Println", "fmt.Printf", "fmt.Print":
		for _, a := range s.e.elems(s, cc.Args[len(cc.Args)-1]) {
			if w.hasErr(a) {
				return true // a report
			}
		}
	case "(*" + w.evP + ".Event).Put", "(*" + w.evP + ".Event).TryPut":
		return w.freshPut(s, cc.Args)
	}
	return false
}

// freshPut: the event was made here and the (constant) key cannot be in
// conflict with what was stored in it before.
func (w *errWorld) freshPut(s *State, args []*Term) bool {
	ev := args[0]
	if !(ev.Op == OpCallRes && strings.HasPrefix(ev.Aux, "event.New·")) {
		return false
	}
	key, ok := args[1].isStr()
	if !ok || !plainKey(key) {
		return false
	}
	for _, x := range s.Events() {
		if x.Kind == "put" && x.Args[0] == ev {
			k, ok := x.Args[1].isStr()
			if !ok || k == key || strings.HasPrefix(k, key+".") || strings.HasPrefix(key, k+".") {
				return false
			}
		}
	}
	s.e.emit(s, &Event{Kind: "put", Ctx: s.top().ctx, Args: args[:2]})
	return true
}

func plainKey(k string) bool {
	if k == "" || strings.Contains(k, "\\") {
		return false
	}
	for _, p := range strings.Split(k, ".") {
		if p == "" {
			return false
		}
	}
	return true
}

// inlines: the function is followed into.
func (r *errRun) inlines(fn *ssa.Function) bool {
	if fn.Parent() != nil {
		return true
	}
	return r.w.absorb[fn] || errParam(fn.Signature)
}

// documented: the error belongs to a class that the function may go on with.
func (r *errRun) documented(s *State, err *Term) bool {
	for _, t := range aboutTerms(s.F) {
		if t.Op != OpApp || s.F.eval(t) != yes {
			continue
		}
		switch t.Aux {
		case "notexist":
			if t.Args[0] == err {
				return true
			}
		case "errors.Is":
			if t.Args[0] != err {
				continue
			}
			x := t.Args[1]
			if n := namedOf(typeOr(x.Typ)); x.Op == OpIface {
				if n = namedOf(typeOr(x.Args[0].Typ)); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == r.w.procP && n.Obj().Name() == "ErrorKeyMissing" {
					return true
				}
			}
		}
	}
	return false
}

// lost: why the error of the event is lost at the end of the path; uses are
// the terms that are passed on.
func (r *errRun) lost(s *State, err *Term, uses []*Term) string {
	if s.F.eval(mkEq(err, mkNil())) == yes {
		return ""
	}
	for _, u := range uses {
		if contains(u, err) {
			return ""
		}
	}
	if r.documented(s, err) {
		return ""
	}
	if s.F.eval(mkEq(err, mkNil())) == no {
		return "is turned into success"
	}
	return "is never looked at"
}

func (r *errRun) usesOf(s *State, evs []*Event) []*Term {
	var us []*Term
	for _, ev := range evs {
		switch ev.Kind {
		case "use", "send", "go":
			us = append(us, ev.Args...)
		case "mapset":
			us = append(us, ev.Val)
		case "store":
			if root := rootOf(ev.Addr); root.Op != OpAlloc || !s.isFreshUnescaped(root) && r.e != nil && !localCell(root) {
				us = append(us, ev.Val)
			}
		}
	}
	return us
}

// localCell: a variable of the function (and not an object made by it).
func localCell(root *Term) bool {
	a, ok := root.Ref.(*ssa.Alloc)
	return ok && (a.Comment == "" || !strings.HasPrefix(a.Comment, "new") && !strings.HasPrefix(a.Comment, "complit") && !strings.HasPrefix(a.Comment, "slicelit"))
}

func (r *errRun) report(err *Term, ev *Event, s *State, why string) {
	if r.found != nil {
		r.found(err, s, why)
		return
	}
	c := r.w.c
	fn := strings.ReplaceAll(fnName(r.fn), c.P.Mod+"/", "")
	what := r.what[err]
	if what == "" {
		what = describeEvent(c.P, ev)
		if err.Op == OpApp {
			what = "(*bufio.Scanner).Scan"
		}
	}
	key := fn + " " + what
	if r.w.seen[key] {
		return
	}
	r.w.seen[key] = true
	c.Bad("C27-lost", key, c.P.InstrPos(ev.Instr), "the error of "+what+" "+why, traceDetails(s)...)
}

func fnName(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.String()
}

func (w *errWorld) analyse(fn *ssa.Function) {
	w.lostIn(fn, nil)
}

// lostIn analyses one function; found gets what is lost (nil: it is reported).
func (w *errWorld) lostIn(fn *ssa.Function, found func(err *Term, s *State, why string)) {
	c := w.c
	r := &errRun{w: w, fn: fn, what: map[*Term]string{}, found: found}
	cl := &Client{Model: r.model, KeepIters: true, PlainMaps: true}
	cl.Opaque = func(s *State, f *ssa.Function, args []*Term) bool { return !r.inlines(f) }
	cl.OnEvent = func(s *State, ev *Event) bool {
		switch ev.Kind {
		case "err", "use", "put":
			return true
		case "store", "mapset":
			return ev.Val != nil && w.hasErr(ev.Val)
		case "send", "go":
			for _, a := range ev.Args {
				if w.hasErr(a) {
					return true
				}
			}
		}
		return false
	}
	check := func(s *State, evs []*Event, uses []*Term, inLoop bool) {
		for i, ev := range evs {
			if ev.Kind != "err" {
				continue
			}
			err := ev.Args[0]
			if inLoop && err.Op == OpApp || remade(evs[i+1:], ev) {
				continue
			}
			w.obs++
			if why := r.lost(s, err, uses); why != "" {
				r.report(err, ev, s, why)
			}
		}
	}
	ei := errResult(fn.Signature)
	cl.OnReturn = func(s *State, rets []*Term) {
		if ei >= 0 && s.F.eval(mkEq(rets[ei], mkNil())) == no {
			return // the function fails
		}
		evs := s.Events()
		uses := append(r.usesOf(s, evs), rets...)
		for _, t := range rets { // what the results refer to
			if root := rootOf(plain(t)); root.Op == OpAlloc {
				for a, v := range s.mem {
					if rootOf(a) == root && v != nil {
						uses = append(uses, v)
					}
				}
			}
		}
		check(s, evs, uses, false)
	}
	cl.OnExit = func(s *State, name string, args []*Term) {
		if name == "os.Exit" && s.F.eval(mkEq(args[0], mkInt(0))) != no || name == "runtime.Goexit" {
			check(s, s.Events(), r.usesOf(s, s.Events()), false)
		}
	}
	r.e = NewEngine(c.P, cl)
	r.e.Run(fn, nil, nil)
	c.account(fn, r.e)
	for _, rec := range r.e.Loops {
		kept := map[*Term]bool{}
		for i := range rec.Iters {
			it := &rec.Iters[i]
			uses := r.usesOf(it.St, it.Events)
			for v, end := range it.End {
				if w.hasErr(end) && (!isErr(v.Typ) || r.retained(rec, v)) {
					uses = append(uses, end)
				}
			}
			for a, m := range it.Mem {
				if m[1] != nil && w.hasErr(m[1]) && !(isErr(m[1].Typ) && localCell(rootOf(a)) && rootOf(a) == a) {
					uses = append(uses, m[1])
				}
			}
			check(it.St, it.Events, uses, true)
		}
		_ = kept
	}
}

// remade: the call looks at a file that is written anew afterwards, whatever
// was found.
func remade(later []*Event, ev *Event) bool {
	switch libName(ev) {
	case "io/ioutil.ReadFile", "os.ReadFile", "os.Stat", "os.Lstat", "os.Open":
	default:
		return false
	}
	for _, x := range later {
		if x.Kind != "err" || len(x.Args) < 2 || x.Args[1] != ev.Args[1] {
			continue
		}
		switch libName(x) {
		case "io/ioutil.WriteFile", "os.WriteFile", "os.Create", "os.MkdirAll", "os.Mkdir":
			return true
		}
	}
	return false
}

func libName(ev *Event) string {
	if ev.Fn == nil {
		return ""
	}
	return ev.Fn.String()
}

// retained: the loop goes on only while the variable is nil, or keeps it.
func (r *errRun) retained(rec *LoopRec, v *Term) bool {
	for i := range rec.Iters {
		it := &rec.Iters[i]
		if it.First {
			continue
		}
		st := it.Start[v]
		if st == nil {
			st = v
		}
		if it.St.F.eval(mkEq(st, mkNil())) != yes && it.End[v] != st && !contains(it.End[v], st) {
			return false
		}
	}
	return true
}

func init() {
	register("C27", func(c *Ctx) {
		c.Rule("C27-lost", "on every path each error is nil, passed on, reported, or of a class that may be ignored", 20)
		w := newErrWorld(c)
		fns := append([]*ssa.Function(nil), c.P.Funcs...)
		sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					g, ok := ins.(*ssa.Go)
					if !ok || errResult(g.Call.Signature()) < 0 || !c.P.inModule(f) {
						continue
					}
					if sc := g.Call.StaticCallee(); sc == nil || !w.never[sc] {
						w.obs++
						c.Bad("C27-lost", strings.ReplaceAll(fnName(f), c.P.Mod+"/", "")+" go "+g.Call.Value.Name(), c.P.InstrPos(ins), "the error of a function that is started as a goroutine is discarded")
					}
				}
			}
			if len(f.Blocks) == 0 || !c.P.inModule(f) || strings.Contains(c.P.Pos(f.Pos()), ".pb.go:") || w.absorb[f] || f.Synthetic != "" && f.Name() != "init" {
				continue
			}
			before := len(w.seen)
			n := w.obs
			w.analyse(f)
			if w.obs > n && len(w.seen) == before {
				c.Ok("C27-lost", strings.ReplaceAll(f.String(), c.P.Mod+"/", ""))
			}
		}
		if w.obs == 0 {
			c.Missing("calls that give an error")
		}
		_ = fmt.Sprint
	})
}

// reusedBytes: uses of the bytes that a scanner gives for one token which live
// on when the next token is read (and overwritten by it).
func reusedBytes(fn *ssa.Function) (bad ssa.Instruction) {
	seen := map[ssa.Value]bool{}
	var follow func(v ssa.Value)
	follow = func(v ssa.Value) {
		if seen[v] || bad != nil || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, ins := range *v.Referrers() {
			switch x := ins.(type) {
			case *ssa.Store:
				if x.Val == v {
					if a, ok := x.Addr.(*ssa.Alloc); ok && !a.Heap {
						for _, u := range *a.Referrers() {
							if l, ok := u.(*ssa.UnOp); ok {
								follow(l)
							}
						}
						continue
					}
					if inert(x.Addr) {
						continue
					}
					bad = ins
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.MakeClosure:
				bad = ins
			case *ssa.Return:
				bad = ins
			case *ssa.Phi, *ssa.Slice, *ssa.ChangeType:
				follow(ins.(ssa.Value))
			case *ssa.MakeInterface:
				follow(x)
			case *ssa.Convert:
				if _, ok := x.Type().Underlying().(*types.Slice); ok {
					follow(x)
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok {
					if b.Name() == "append" && x.Call.Args[0] == v {
						follow(x)
					}
					continue
				}
				if sc := x.Call.StaticCallee(); sc != nil && sc.Pkg != nil && (sc.Pkg.Pkg.Path() == "bytes" || len(sc.Blocks) > 0) {
					if t, ok := x.Type().Underlying().(*types.Slice); ok && types.Identical(t.Elem(), types.Typ[types.Byte]) && sc.Name() != "Clone" && sc.Name() != "Repeat" && !strings.HasPrefix(sc.Name(), "To") && !strings.HasPrefix(sc.Name(), "Replace") && sc.Name() != "Join" {
						follow(x)
					}
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(*ssa.Call); ok {
				if sc := c.Call.StaticCallee(); sc != nil && sc.String() == "(*bufio.Scanner).Bytes" {
					follow(c)
				}
			}
		}
	}
	return
}

// inert: the address of an argument list that only a function that prints or
// formats gets.
func inert(a ssa.Value) bool {
	ia, ok := a.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	al, ok := ia.X.(*ssa.Alloc)
	if !ok || al.Comment != "varargs" {
		return false
	}
	for _, u := range *al.Referrers() {
		sl, ok := u.(*ssa.Slice)
		if !ok {
			continue
		}
		for _, v := range *sl.Referrers() {
			c, ok := v.(*ssa.Call)
			if !ok {
				return false
			}
			sc := c.Call.StaticCallee()
			if sc == nil || sc.Pkg == nil || (sc.Pkg.Pkg.Path() != "fmt" && sc.Pkg.Pkg.Path() != "log") {
				return false
			}
		}
	}
	return true
}
