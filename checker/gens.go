package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

// C31: the generators.
//
// main of each generator is interpreted with its helpers. What it renders,
// formats and writes is followed through models of the library functions; each
// write must be of a complete rendering, and each failure must end the program
// with a failing status.

const relTemplate = "internal/proctemplate"

type genWorld struct {
	c     *Ctx
	e     *Engine
	rel   string
	code  bool // writes Go code, one file per processor
	stub  string
	wrong map[string]string
	det   map[string][]string
	insp  map[*ssa.Function]map[int]string
	wrote int
	done  map[*Iter]bool
	lists map[*Term]bool           // lists of processors, in iterations of the loop that makes them
	temp  map[ssa.Instruction]bool // writes of files that are renamed later
	dbg   bool
}

func (w *genWorld) bad(what, why string, s *State) {
	if w.wrong[what] == "" {
		w.wrong[what] = why
		if s != nil {
			w.det[what] = traceDetails(s)
		}
	}
}

// text strips conversions between strings and bytes, and interfaces.
func text(t *Term) *Term {
	for t.Op == OpIface || t.Op == OpConv && len(t.Args) == 1 && t.Typ != nil && isStrBytesOrSlice(t.Typ) {
		t = t.Args[0]
	}
	return t
}

// pathTokens takes a path apart: names, separators and pieces of names.
func pathTokens(t *Term) []*Term {
	sep := mkStr("/")
	t = text(t)
	if v, ok := t.isStr(); ok {
		var out []*Term
		for i, p := range strings.Split(v, "/") {
			if i > 0 {
				out = append(out, sep)
			}
			if p != "" {
				out = append(out, mkStr(p))
			}
		}
		return out
	}
	switch {
	case t.Op == OpBin && t.Aux == "+":
		return append(pathTokens(t.Args[0]), pathTokens(t.Args[1])...)
	case t.Op == OpApp && t.Aux == "concat":
		var out []*Term
		for _, a := range t.Args {
			out = append(out, pathTokens(a)...)
		}
		return out
	case t.Op == OpApp && t.Aux == "join":
		var out []*Term
		for i, a := range t.Args {
			if i > 0 {
				out = append(out, sep)
			}
			out = append(out, pathTokens(a)...)
		}
		return out
	case t.Op == OpApp && (t.Aux == "abs" || t.Aux == "clean"):
		return pathTokens(t.Args[0])
	case t.Op == OpApp && t.Aux == "dir":
		in := pathTokens(t.Args[0])
		for i := len(in) - 1; i > 0; i-- {
			if in[i] == sep {
				return in[:i]
			}
		}
	}
	return []*Term{t}
}

func samePath(a, b *Term) bool {
	x, y := pathTokens(a), pathTokens(b)
	norm := func(l []*Term) string {
		var b strings.Builder
		for _, t := range l {
			if v, ok := t.isStr(); ok {
				b.WriteString(v)
			} else {
				fmt.Fprintf(&b, "\x00%d\x00", t.ID)
			}
		}
		return strings.ReplaceAll(b.String(), "//", "/")
	}
	return norm(x) == norm(y)
}

func (w *genWorld) model(s *State, cc *CallCtx) ([]*Term, bool) {
	e := w.e
	str := types.Typ[types.String]
	errT := types.Universe.Lookup("error").Type()
	fresh := func(what string, i int, t types.Type) *Term {
		return mkT(OpCallRes, what+"·"+cc.Site, int64(i), t, false, cc.Instr, s.loopKeys())
	}
	emit := func(kind string, res *Term, args ...*Term) {
		e.emit(s, &Event{Kind: kind, Instr: cc.Instr, Ctx: s.top().ctx, Args: args, Res: res})
	}
	rest := func(from int) []*Term {
		var as []*Term
		for i, a := range cc.Args[from:] {
			if cc.Sig.Variadic() && from+i == len(cc.Args)-1 {
				as = append(as, e.elems(s, a)...)
			} else {
				as = append(as, a)
			}
		}
		return as
	}
	resT := func(i int) types.Type { return cc.Sig.Results().At(i).Type() }
	// failing emits an event of an operation that gives only an error.
	failing := func(kind string, args ...*Term) ([]*Term, bool) {
		var rs []*Term
		for i := 0; i < cc.Sig.Results().Len(); i++ {
			rs = append(rs, fresh(kind, i, resT(i)))
		}
		var err *Term
		if len(rs) > 0 {
			err = rs[len(rs)-1]
		}
		emit(kind, err, args...)
		return rs, true
	}
	if cc.Fn != nil && e.P.inModule(cc.Fn) {
		if r := cc.Sig.Results(); r.Len() == 2 && types.Identical(r.At(1).Type(), errT) && cc.Fn.Pkg != nil && cc.Fn.Pkg.Pkg.Path() == e.P.Mod+"/"+relTemplate && len(cc.Args) == 1 {
			p, err := fresh("definitions", 0, r.At(0).Type()), fresh("definitions", 1, errT)
			emit("read", err, cc.Args[0], p)
			return []*Term{p, err}, true
		}
		return nil, false
	}
	switch cc.Name {
	case "(*text/template.Template).Execute":
		return failing("render", plain(cc.Args[1]), w.value(s, cc.Args[2]))
	case "(*text/template.Template).ExecuteTemplate":
		return failing("render", plain(cc.Args[1]), w.value(s, cc.Args[3]))
	case "(*bytes.Buffer).Reset", "(*strings.Builder).Reset":
		emit("reset", nil, cc.Args[0])
		return nil, true
	case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*strings.Builder).String":
		c := fresh("content", 0, resT(0))
		emit("content", c, cc.Args[0])
		return []*Term{c}, true
	case "(*bytes.Buffer).WriteTo":
		c := fresh("content", 9, resT(0))
		emit("content", c, cc.Args[0])
		return failing("filewrite", plain(cc.Args[1]), c)
	case "(*bytes.Buffer).Len", "(*bytes.Buffer).Cap", "(*bytes.Buffer).Grow", "(*strings.Builder).Len", "(*strings.Builder).Grow":
		return nil, false
	case "go/format.Source":
		return failing("format", text(cc.Args[0]), fresh("format", 0, resT(0)))
	case "os.ReadFile", "io/ioutil.ReadFile":
		return failing("readfile", cc.Args[0], fresh("readfile", 0, resT(0)))
	case "os.Stat", "os.Lstat":
		return failing("stat", cc.Args[0])
	case "os.WriteFile", "io/ioutil.WriteFile":
		return failing("write", cc.Args[0], text(cc.Args[1]))
	case "os.MkdirAll", "os.Mkdir":
		return failing("mkdir", cc.Args[0])
	case "os.Create":
		return failing("open", cc.Args[0], fresh("open", 0, resT(0)))
	case "os.OpenFile":
		if f := cc.Args[1]; f.IsInt && f.N&(int64(os.O_WRONLY)|int64(os.O_RDWR)) == 0 {
			return nil, false
		}
		if f := cc.Args[1]; f.IsInt && f.N&(int64(os.O_TRUNC)|int64(os.O_EXCL)) == 0 {
			w.bad("complete", "a file is opened for writing without removing its old content", s)
		}
		return failing("open", cc.Args[0], fresh("open", 0, resT(0)))
	case "os.CreateTemp", "io/ioutil.TempFile":
		return failing("open", mkApp("tempfile", str, fresh("open", 0, resT(0))), fresh("open", 0, resT(0)))
	case "(*os.File).Name":
		for _, ev := range s.Events() {
			if ev.Kind == "open" && ev.Args[1] == cc.Args[0] {
				return []*Term{ev.Args[0]}, true
			}
		}
		return nil, false
	case "(*os.File).Write", "(*os.File).WriteString":
		return failing("filewrite", cc.Args[0], text(cc.Args[1]))
	case "io.WriteString":
		if _, _, ok := w.buffer(cc.Args[0]); !ok {
			return failing("filewrite", plain(cc.Args[0]), text(cc.Args[1]))
		}
	case "io.Copy":
		if b, _, ok := w.buffer(cc.Args[1]); ok {
			c := fresh("content", 9, types.NewSlice(types.Typ[types.Byte]))
			emit("content", c, b)
			return failing("filewrite", plain(cc.Args[0]), c)
		}
	case "(*os.File).Close":
		return failing("close", cc.Args[0])
	case "os.Rename":
		return failing("rename", cc.Args[0], cc.Args[1])
	case "os.Remove", "os.RemoveAll", "os.Truncate", "(*os.File).Truncate", "(*os.File).Seek", "(*os.File).WriteAt":
		return failing("remove", cc.Args[0])
	case "go/parser.ParseFile":
		f := fresh("parse", 0, resT(0))
		path, src := cc.Args[1], text(cc.Args[2])
		for _, ev := range s.Events() {
			if ev.Kind == "readfile" && ev.Args[1] == src {
				path, src = ev.Args[0], mkNil()
			}
		}
		if !src.isNil() {
			path = src
		}
		if m := cc.Args[3]; !m.IsInt || m.N&3 != 0 {
			w.bad("detection", "the existing file is not parsed completely", s)
		}
		rs, ok := failing("parse", path, f)
		return rs, ok
	case "go/ast.Inspect":
		return nil, w.inspect(s, cc.Args[0], cc.Args[1])
	case "os.IsNotExist":
		return []*Term{mkApp("notexist", types.Typ[types.Bool], cc.Args[0])}, true
	case "errors.Is":
		if t := cc.Args[1]; t.Op == OpLoad && t.Args[0].Op == OpGlobal && strings.HasSuffix(t.Args[0].Aux, ".ErrNotExist") {
			return []*Term{mkApp("notexist", types.Typ[types.Bool], cc.Args[0])}, true
		}
	case "bytes.Equal":
		return []*Term{mkApp("bytes.Equal", types.Typ[types.Bool], text(cc.Args[0]), text(cc.Args[1]))}, true
	case "path/filepath.Join", "path.Join":
		return []*Term{mkApp("join", str, rest(0)...)}, true
	case "path/filepath.Dir", "path.Dir":
		return []*Term{mkApp("dir", str, cc.Args[0])}, true
	case "path/filepath.Clean", "path.Clean", "path/filepath.FromSlash", "path/filepath.ToSlash":
		return []*Term{mkApp("clean", str, cc.Args[0])}, true
	case "path/filepath.Abs":
		err := fresh("abs", 1, errT)
		emit("abs", err, cc.Args[0])
		return []*Term{mkApp("abs", str, cc.Args[0]), err}, true
	case "fmt.Sprintf":
		if f, ok := cc.Args[0].isStr(); ok {
			if t := joinFormat(f, rest(1)); t != nil {
				return []*Term{t}, true
			}
		}
	}
	// Other calls that have a buffer may change it.
	for _, a := range cc.Args {
		if b, _, ok := w.buffer(a); ok {
			emit("bufwrite", nil, b)
		}
	}
	return nil, false
}

// joinFormat is the concatenation that a format of strings gives.
func joinFormat(f string, as []*Term) *Term {
	var parts []*Term
	for f != "" {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			parts = append(parts, mkStr(f))
			break
		}
		if i > 0 {
			parts = append(parts, mkStr(f[:i]))
		}
		if i+1 >= len(f) || f[i+1] != 's' && f[i+1] != 'v' || len(as) == 0 {
			return nil
		}
		a := text(as[0])
		if a.Typ == nil || !isStringType(a.Typ) {
			return nil
		}
		parts = append(parts, a)
		f, as = f[i+2:], as[1:]
	}
	return mkApp("concat", types.Typ[types.String], parts...)
}

// buffer: the term is a buffer of bytes.
func (w *genWorld) buffer(t *Term) (*Term, types.Type, bool) {
	t = plain(t)
	if t.Typ == nil {
		return nil, nil, false
	}
	switch types.TypeString(t.Typ, nil) {
	case "*bytes.Buffer", "*strings.Builder":
		return t, t.Typ, true
	}
	return nil, nil, false
}

// value is the struct behind the data given to a template.
func (w *genWorld) value(s *State, t *Term) *Term {
	t = plain(t)
	if p, ok := t.Typ.Underlying().(*types.Pointer); ok {
		if _, ok := p.Elem().Underlying().(*types.Struct); ok {
			return s.load(t, p.Elem())
		}
	}
	return t
}

func (w *genWorld) isTemp(open *Event) bool {
	return w.temp[open.Instr] || open.Args[0].Op == OpApp && open.Args[0].Aux == "tempfile"
}

const funcDecl, fileNode = "*go/ast.FuncDecl", "*go/ast.File"

// isProcess: the node is the declaration of a function Process.
// either: it has no receiver.
func isProcess(F *Facts, n *Term) (is tri, either bool) {
	is = unknown
	known := no
	for _, t := range aboutTerms(F) {
		if t.Op == OpAssertOk && t.Args[0] == n {
			v := F.eval(t)
			if types.TypeString(t.Typ, nil) == funcDecl {
				known = v
				if v == no {
					return no, false
				}
			} else if v == yes && !types.IsInterface(t.Typ) {
				return no, false
			}
		}
	}
	if d := F.dyn[n]; d != nil && types.TypeString(d, nil) != funcDecl {
		return no, false
	}
	if F.eval(mkEq(n, mkNil())) == yes {
		return no, false
	}
	_ = known
	for _, t := range aboutTerms(F) {
		switch {
		case t.Op == OpLoad && t.Args[0].Op == OpFieldAddr && fieldName(t.Args[0]) == "Recv" && isDecl(t.Args[0].Args[0], n):
			if F.eval(mkEq(t, mkNil())) == yes {
				either = true
			}
		case isNameOf(t, n):
			if v := F.eval(mkEq(t, mkStr("Process"))); v != unknown {
				is = v
			}
		}
	}
	return is, either
}

// isNameOf: the term is the name of the function that n declares.
func isNameOf(t, n *Term) bool {
	for i := 0; i < 2; i++ {
		if t.Op != OpLoad || t.Args[0].Op != OpFieldAddr || fieldName(t.Args[0]) != "Name" {
			return false
		}
		t = t.Args[0].Args[0]
	}
	return isDecl(t, n)
}

func isDecl(t, n *Term) bool {
	return t.Op == OpAssert && t.Args[0] == n && types.TypeString(t.Typ, nil) == funcDecl
}

// inspect: the closure given to ast.Inspect finds out in one of the variables
// it shares whether there is a function Process.
func (w *genWorld) inspect(s *State, root, f *Term) bool {
	fn, _ := f.Ref.(*ssa.Function)
	if fn == nil || f.Op != OpClosure {
		return false
	}
	res := w.insp[fn]
	if res == nil {
		res = map[int]string{}
		w.insp[fn] = res
		cells := map[int]*Term{}
		for i, fv := range fn.FreeVars {
			if p, ok := fv.Type().(*types.Pointer); ok && types.Identical(p.Elem(), types.Typ[types.Bool]) {
				cells[i] = mkT(OpParam, "free "+fv.Name(), 0, fv.Type(), true, fv, nil)
			} else {
				return false
			}
		}
		olds := map[int]*Term{}
		params := rootParams(fn)
		n := params[0]
		cl := &Client{}
		cl.OnReturn = func(s *State, rets []*Term) {
			is, either := isProcess(s.F, n)
			for i, cell := range cells {
				now, old := s.load(cell, types.Typ[types.Bool]), olds[i]
				was := s.F.eval(mkEq(now, old)) == yes
				ok := false
				switch {
				case was && s.F.eval(old) == yes:
					ok = true
				case either:
					ok = was || s.F.eval(now) == yes
				case is == yes:
					ok = s.F.eval(now) == yes
				case is == no:
					ok = was
				case s.F.eval(old) == no && now.Op == OpEq:
					for j, a := range now.Args {
						v, _ := now.Args[1-j].isStr()
						ok = ok || isNameOf(a, n) && v == "Process"
					}
				}
				if !ok {
					res[i] = "a node of the existing file is not looked at as it should be: a function Process can be missed or seen where there is none"
				}
				if v := s.F.eval(rets[0]); v != yes && s.F.eval(now) != yes && s.F.eval(mkEq(rets[0], mkNot(now))) != yes && !notFile(s.F, n) {
					res[i] = "the declarations of the existing file can be skipped"
				}
			}
		}
		eng := NewEngine(w.c.P, cl)
		eng.Run(fn, params, func(s *State) {
			for i, c := range cells {
				olds[i] = s.load(c, types.Typ[types.Bool])
			}
		})
		if eng.Err != nil {
			return false
		}
		w.c.account(fn, eng)
	}
	for i, b := range f.Args {
		if res[i] == "" {
			s.store(b, mkApp("declares Process", types.Typ[types.Bool], plain(root)), types.Typ[types.Bool], "inspect")
		} else {
			w.bad("detection", res[i], s)
		}
	}
	return true
}

func notFile(F *Facts, n *Term) bool {
	for _, t := range aboutTerms(F) {
		if t.Op == OpAssertOk && t.Args[0] == n {
			v, file := F.eval(t), types.TypeString(t.Typ, nil) == fileNode
			if file && v == no || !file && v == yes && !types.IsInterface(t.Typ) {
				return true
			}
		}
	}
	return F.eval(mkEq(n, mkNil())) == yes
}

// declares: does the parsed file declare a function Process, as far as the
// path knows?
func (w *genWorld) declares(s *State, file *Term) tri {
	F := s.F
	app := mkApp("declares Process", types.Typ[types.Bool], file)
	if v := F.eval(app); v != unknown {
		return v
	}
	decls := func(l *Term) bool {
		return l.Op == OpLoad && l.Args[0].Op == OpFieldAddr && fieldName(l.Args[0]) == "Decls" && l.Args[0].Args[0] == file
	}
	declOf := func(F *Facts) map[*Term]*Term { // declaration -> index
		out := map[*Term]*Term{}
		for _, t := range aboutTerms(F) {
			if t.Op != OpAssertOk {
				continue
			}
			if l, i, ok := elemOf(t.Args[0]); ok && decls(l) {
				out[t.Args[0]] = i
			}
		}
		return out
	}
	for n := range declOf(F) {
		if is, _ := isProcess(F, n); is == yes {
			return yes
		}
	}
	for _, t := range aboutTerms(F) {
		if t.Op == OpLen && decls(t.Args[0]) && F.eval(mkLt(mkInt(0), t)) == no {
			return no
		}
	}
	for _, rec := range loopsOf(w.e, s) {
		first, later := map[*Term]bool{}, map[*Term]bool{}
		var list *Term
		ok := true
		for _, it := range rec.Iters {
			found := false
			for n, i := range declOf(it.St.F) {
				l, _, _ := elemOf(n)
				if lv := loopVarIn(i); it.First != (lv == nil) || lv != nil && loopOfVar(lv) != rec.Key {
					continue
				}
				list = l
				if is, either := isProcess(it.St.F, n); is == no || either {
					found = true
					if it.First {
						first[i] = true
					} else {
						later[i] = true
					}
				}
			}
			ok = ok && found
		}
		if ok && list != nil && covers(w.e, s, sliceSrc(list), rec.Key, first, later) == "" {
			return no
		}
	}
	return unknown
}

// guardField is the field of the template data that decides whether the stub
// of the method Process is rendered.
func guardField(file, method string) (string, error) {
	src, err := os.ReadFile(file)
	if err != nil {
		return "", err
	}
	tr := parse.New("t")
	tr.Mode = parse.SkipFuncCheck
	trees := map[string]*parse.Tree{}
	if _, err := tr.Parse(string(src), "", "", trees); err != nil {
		return "", err
	}
	found, outside := "", false
	var visit func(n parse.Node, guard string)
	visit = func(n parse.Node, guard string) {
		switch n := n.(type) {
		case *parse.ListNode:
			if n == nil {
				return
			}
			for _, x := range n.Nodes {
				visit(x, guard)
			}
		case *parse.TextNode:
			if strings.Contains(string(n.Text), method) {
				if guard == "" {
					outside = true
				}
				found = guard
			}
		case *parse.IfNode:
			g := ""
			if len(n.Pipe.Cmds) == 1 && len(n.Pipe.Cmds[0].Args) == 1 {
				if f, ok := n.Pipe.Cmds[0].Args[0].(*parse.FieldNode); ok && len(f.Ident) == 1 {
					g = f.Ident[0]
				}
			}
			visit(n.List, g)
			if n.ElseList != nil {
				visit(n.ElseList, "")
			}
		case *parse.RangeNode:
			visit(n.List, guard)
		case *parse.WithNode:
			visit(n.List, guard)
		}
	}
	for _, t := range trees {
		visit(t.Root, "")
	}
	if outside || found == "" {
		return "", fmt.Errorf("no condition guards the stub")
	}
	return found, nil
}

func fieldNamed(v *Term, name string) *Term {
	st, _ := v.Typ.Underlying().(*types.Struct)
	if st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return mkField(v, i, st.Field(i).Type())
		}
	}
	return nil
}

// segment checks what one iteration or the end of a path does. how is how it
// ends; fails: with a failing status.
func (w *genWorld) segment(evs []*Event, s *State, key, how string, fails bool) (wrote bool) {
	F := s.F
	type buf struct{ parts []*Event }
	bufs := map[*Term]*buf{}
	get := func(b *Term) *buf {
		if bufs[b] == nil {
			bufs[b] = &buf{}
			if key != "" && !hasStr(b.loops, key) {
				bufs[b].parts = append(bufs[b].parts, nil) // content of earlier iterations
			}
		}
		return bufs[b]
	}
	content := map[*Term]*Event{} // to the rendering it is
	formatted := map[*Term]*Event{}
	var reads, parses, stats, renders []*Event
	files := map[*Term]*Event{} // open
	full := map[*Term]bool{}
	writes := 0
	var checkData func(d *Term) *Event
	checkData = func(d *Term) *Event {
		if f := formatted[d]; f != nil {
			if F.eval(mkEq(f.Res, mkNil())) != yes {
				w.bad("complete", "a file is written although formatting its content may have failed", s)
			}
			return content[f.Args[0]]
		}
		if w.code {
			w.bad("complete", "what is written is not the formatted code but "+d.String(), s)
		}
		return content[d]
	}
	var target func(path *Term, r *Event)
	write := func(path, d *Term, final bool) {
		r := checkData(d)
		if r == nil {
			w.bad("complete", "what is written is not exactly what was rendered: "+d.String(), s)
			return
		}
		if F.eval(mkEq(r.Res, mkNil())) != yes {
			w.bad("complete", "a file is written although rendering its content may have failed", s)
		}
		if final {
			writes++
			target(path, r)
		}
	}
	target = func(path *Term, r *Event) {
		if !w.code {
			for _, ev := range reads {
				if anySub(path, func(x *Term) bool { return x == ev.Args[0] }) {
					w.bad("target", "the output is written to "+path.String(), s)
				}
			}
			return
		}
		w.forProcessor(s, path, r.Args[1], reads, append(append([]*Event{}, parses...), stats...))
	}
	ignored := map[string]string{"read": "read the definitions", "render": "render a template", "format": "format code", "mkdir": "make a directory",
		"write": "write a file", "open": "open a file for writing", "filewrite": "write a file", "close": "close a written file", "rename": "rename a file", "abs": "find the directory of the output"}
	for _, ev := range evs {
		switch ev.Kind {
		case "read":
			reads = append(reads, ev)
		case "render":
			if _, _, ok := w.buffer(ev.Args[0]); !ok {
				w.bad("complete", "a template is rendered directly to "+ev.Args[0].String(), s)
			}
			b := get(ev.Args[0])
			b.parts = append(b.parts, ev)
			renders = append(renders, ev)
		case "bufwrite":
			b := get(ev.Args[0])
			b.parts = append(b.parts, nil)
		case "reset":
			get(ev.Args[0]).parts = nil
		case "content":
			if p := get(ev.Args[0]).parts; len(p) == 1 && p[0] != nil {
				content[ev.Res] = p[0]
			}
		case "format":
			formatted[ev.Args[1]] = ev
		case "parse":
			parses = append(parses, ev)
		case "stat", "readfile":
			stats = append(stats, ev)
		case "write":
			write(ev.Args[0], ev.Args[1], !w.temp[ev.Instr])
		case "open":
			files[ev.Args[1]] = ev
		case "filewrite":
			o := files[ev.Args[0]]
			if o == nil {
				if isStdFile(ev.Args[0], "Stdout") || isStdFile(ev.Args[0], "Stderr") {
					continue
				}
				w.bad("complete", "something is written to "+ev.Args[0].String(), s)
				continue
			}
			if full[ev.Args[0]] {
				w.bad("complete", "a file is written in several pieces", s)
			}
			full[ev.Args[0]] = true
			write(o.Args[0], ev.Args[1], !w.isTemp(o))
		case "rename":
			ok := false
			for _, x := range evs {
				var d *Term
				switch {
				case x == ev:
				case x.Kind == "write" && samePath(x.Args[0], ev.Args[0]):
					d = x.Args[1]
				case x.Kind == "filewrite" && files[x.Args[0]] != nil && samePath(files[x.Args[0]].Args[0], ev.Args[0]):
					d = x.Args[1]
				default:
					continue
				}
				if x == ev {
					break
				}
				if r := checkData(d); r != nil && F.eval(mkEq(x.Res, mkNil())) == yes {
					ok = true
					writes++
					target(ev.Args[1], r)
				}
			}
			if !ok {
				w.bad("complete", "a file is renamed to "+ev.Args[1].String(), s)
			}
		case "remove":
			if !fails {
				w.bad("complete", "a file is removed or truncated", s)
			}
		}
		if what := ignored[ev.Kind]; what != "" && !fails && F.eval(mkEq(ev.Res, mkNil())) != yes {
			w.bad("fail", "the program "+how+" although it may have failed to "+what, s)
		}
	}
	for f, o := range files {
		if !full[f] && F.eval(mkEq(o.Res, mkNil())) != no && !w.isTemp(o) {
			w.bad("complete", "a file is opened for writing before its content is complete", s)
		}
	}
	w.wrote += writes
	if fails {
		return
	}
	wrote = writes > 0
	if !wrote {
		for _, t := range aboutTerms(F) {
			wrote = wrote || t.Op == OpApp && t.Aux == "bytes.Equal" && F.eval(t) == yes
		}
		if !w.code && key == "" && !wrote {
			w.bad("fail", "the program "+how+" without writing its output", s)
		}
	}
	if writes > 1 {
		w.bad("target", "several files are written in one step", s)
	}
	return
}

// forProcessor: path is the file of the processor whose definition data holds.
func (w *genWorld) forProcessor(s *State, path, data *Term, reads, looks []*Event) {
	F := s.F
	name, proc, include := fieldNamed(data, "Name"), fieldNamed(data, "Processor"), fieldNamed(data, w.stub)
	if name == nil || proc == nil || include == nil {
		w.bad("target", "what is rendered has no name, definition and "+w.stub, s)
		return
	}
	if name.Op != OpMapKey {
		w.bad("target", "the name of what is rendered is "+name.String(), s)
		return
	}
	mt := mapTypeOf(name.Args[0].Typ)
	val := mkT(OpMapVal, name.Aux, 0, mt.Elem(), false, name.Ref, name.loops, name.Args[0])
	if !ownDefinition(s, proc, val) {
		w.bad("target", "the file of a processor is rendered from "+proc.String(), s)
	}
	if l, _, ok := elemOf(name.Args[0]); !ok || l.Op != OpLoad && l.Op != OpField {
		w.bad("target", "the processors are taken from "+name.Args[0].String(), s)
	}
	var src *Term
	for _, ev := range s.Events() {
		if ev.Kind == "read" {
			src = ev.Args[0]
		}
	}
	if src == nil {
		w.bad("target", "the definitions are not read", s)
		return
	}
	want := mkApp("join", types.Typ[types.String], mkApp("dir", types.Typ[types.String], src), name, mkApp("concat", types.Typ[types.String], name, mkStr(".go")))
	if !samePath(path, want) {
		w.bad("target", "the code of a processor is written to "+path.String(), s)
	}
	// The stub.
	var parsed *Event
	absent := false
	for _, ev := range looks {
		if !samePath(ev.Args[0], want) {
			w.bad("stub", "the existing implementation is looked for in "+ev.Args[0].String(), s)
			continue
		}
		if F.eval(mkEq(ev.Res, mkNil())) != yes {
			if F.eval(mkApp("notexist", types.Typ[types.Bool], ev.Res)) == yes {
				absent = true
			}
			if ev.Kind == "parse" {
				parsed = nil
			}
			continue
		}
		if ev.Kind == "parse" {
			parsed = ev
		}
	}
	has := unknown
	switch {
	case parsed != nil:
		has = w.declares(s, parsed.Args[1])
	case absent:
		has = yes
	}
	inc := F.eval(include)
	if parsed != nil && has == unknown && F.eval(mkEq(include, mkApp("declares Process", types.Typ[types.Bool], parsed.Args[1]))) == yes {
		return
	}
	switch {
	case inc == unknown:
		w.bad("stub", "the stub is rendered if "+include.String(), s)
	case has == unknown && inc == yes:
		w.bad("stub", "the stub is added without knowing that the existing file has one or does not exist", s)
	case has == unknown:
		w.bad("stub", "the stub is left out without knowing that the existing file has none", s)
	case has == yes && inc == no:
		w.bad("stub", "the stub is left out although the processor has no other implementation", s)
	case has == no && inc == yes:
		w.bad("stub", "a stub is added for a processor whose implementation was moved out of the file", s)
	}
}

// ownDefinition: proc is the definition val; its options may be in another order.
func ownDefinition(s *State, proc, val *Term) bool {
	if proc == val || s.F.eval(mkEq(proc, val)) == yes {
		return true
	}
	st, _ := val.Typ.Underlying().(*types.Struct)
	if st == nil || proc.Typ == nil || !types.Identical(proc.Typ, val.Typ) {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		a, b := mkField(proc, i, st.Field(i).Type()), mkField(val, i, st.Field(i).Type())
		for a.Op == OpCallRes && strings.HasPrefix(a.Aux, "reordered·") && len(a.Args) == 1 {
			a = a.Args[0]
		}
		if a != b {
			return false
		}
	}
	return true
}

func (w *genWorld) run() {
	c := w.c
	main := c.P.Func(w.rel, "main")
	if main == nil {
		c.Missing("main of " + w.rel)
		return
	}
	pkg := main.Pkg
	cl := &Client{Model: w.model, KeepIters: true, PlainMaps: true}
	cl.Opaque = func(s *State, fn *ssa.Function, args []*Term) bool {
		root := fn
		for root.Parent() != nil {
			root = root.Parent()
		}
		return root.Pkg != pkg
	}
	cl.OnEvent = func(s *State, ev *Event) bool {
		switch ev.Kind {
		case "read", "render", "reset", "content", "format", "readfile", "stat", "write", "mkdir", "open", "filewrite", "close", "rename", "remove", "parse", "abs", "bufwrite", "loop":
			return true
		}
		return false
	}
	type ending struct {
		s     *State
		evs   []*Event
		how   string
		fails bool
	}
	var endings []ending
	end := func(s *State, how string, fails bool) {
		if w.dbg {
			fmt.Println("END", how, fails)
			for _, ev := range s.Events() {
				fmt.Println("   ", ev.Kind, ev.Args, ev.Res)
			}
		}
		endings = append(endings, ending{s, s.Events(), how, fails})
	}
	cl.OnReturn = func(s *State, _ []*Term) { end(s, "returns", false) }
	cl.OnPanic = func(s *State, _ *ssa.Panic, _ *Term) { end(s, "panics", true) }
	cl.OnExit = func(s *State, name string, args []*Term) {
		fails := true
		if name == "os.Exit" {
			fails = s.F.eval(mkEq(args[0], mkInt(0))) == no
		}
		if name == "runtime.Goexit" {
			fails = false
		}
		end(s, "ends in "+name, fails)
	}
	w.e = NewEngine(c.P, cl)
	w.e.Run(main, nil, nil)
	c.account(main, w.e)
	note := func(evs []*Event) {
		for i, ev := range evs {
			if ev.Kind != "rename" {
				continue
			}
			for _, x := range evs[:i] {
				if (x.Kind == "write" || x.Kind == "open") && samePath(x.Args[0], ev.Args[0]) {
					w.temp[x.Instr] = true
				}
			}
		}
	}
	for _, n := range endings {
		note(n.evs)
	}
	for _, rec := range w.e.Loops {
		for i := range rec.Iters {
			note(rec.Iters[i].Events)
		}
	}
	for _, rec := range w.e.Loops {
		for i := range rec.Iters {
			it := &rec.Iters[i]
			if w.dbg {
				fmt.Println("ITER", rec.Key, it.First)
				for _, ev := range it.Events {
					fmt.Println("   ", ev.Kind, ev.Args, ev.Res)
				}
				for a, m := range it.Mem {
					fmt.Println("    mem", a, m)
				}
			}
			w.done[it] = w.segment(it.Events, it.St, rec.Key, "goes on", false)
		}
	}
	good := 0
	for _, n := range endings {
		if w.segment(n.evs, n.s, "", n.how, n.fails); !n.fails {
			good++
			w.covered(n.s, n.evs)
		}
	}
	if w.wrote == 0 {
		w.bad("complete", "no output is written", nil)
	}
	if good == 0 {
		w.bad("fail", "the program never ends successfully", nil)
	}
	pos := c.P.Pos(main.Pos())
	rules := map[string]string{"complete": "C31-complete", "fail": "C31-fail", "target": "C31-target", "stub": "C31-stub", "detection": "C31-stub", "covered": "C31-complete"}
	for _, k := range []string{"complete", "covered", "fail", "target", "stub", "detection"} {
		if !w.code && (k == "stub" || k == "detection") {
			continue
		}
		c.Check(w.wrong[k] == "", rules[k], w.rel+" "+k, pos, w.wrong[k], w.det[k]...)
	}
}

// member is a processor that an iteration handles.
type genMember struct {
	m, idx, k, v *Term
	more         bool
}

// members lists the entries of the definitions that the path knows about.
func (w *genWorld) members(F *Facts, p *Term) []genMember {
	var out []genMember
	for b, more := range F.bools {
		if b.Op != OpNextOk || b.Args[0].Op != OpRange {
			continue
		}
		m := b.Args[0].Args[0]
		l, i, ok := elemOf(m)
		if !ok || !isProcessors(l, p) {
			continue
		}
		k, v := memberTerms(b)
		out = append(out, genMember{m, i, k, v, more})
	}
	return out
}

func isProcessors(l, p *Term) bool {
	if l.Op == OpField && l.Args[0].Op == OpLoad && l.Args[0].Args[0] == p {
		return fieldName(l) == "Processors"
	}
	return l.Op == OpLoad && l.Args[0].Op == OpFieldAddr && fieldName(l.Args[0]) == "Processors" && l.Args[0].Args[0] == p
}

// handled: the iteration writes the file of the processor or puts it on a list.
func (w *genWorld) handled(it *Iter, k, v *Term) bool {
	if w.code {
		return w.done[it]
	}
	appends := func(old, now *Term) bool {
		if now == nil {
			return false
		}
		b, el, ok := appendParts(now)
		if !ok || len(el) != 1 || b != old {
			return false
		}
		name := fieldNamed(el[0], "Name")
		proc := fieldNamed(el[0], "Processor")
		if name == k && proc != nil && ownDefinition(it.St, proc, v) {
			w.lists[old] = true
			return true
		}
		return false
	}
	for _, m := range it.Mem {
		if m[0] != nil && appends(m[0], m[1]) {
			return true
		}
	}
	for lv, end := range it.End {
		if appends(it.Start[lv], end) || appends(lv, end) {
			w.lists[lv] = true
			return true
		}
	}
	return false
}

// covered: at the end every processor of the definitions has been handled.
func (w *genWorld) covered(s *State, evs []*Event) {
	var p *Term
	for _, ev := range evs {
		if ev.Kind == "read" {
			p = ev.Args[1]
		}
	}
	if p == nil {
		w.bad("covered", "the definitions are not read", s)
		return
	}
	// The loop over the list of the definitions.
	outer := ""
	var list *Term
	for _, rec := range w.e.Loops {
		for _, it := range rec.Iters {
			for _, m := range w.members(it.St.F, p) {
				list, _, _ = elemOf(m.m)
				if lv := loopVarIn(m.idx); lv != nil {
					outer = loopOfVar(lv)
				}
			}
		}
	}
	if list == nil || outer == "" {
		w.bad("covered", "there is no loop over all processors of the definitions", s)
		return
	}
	onPath := false
	for _, rec := range loopsOf(w.e, s) {
		onPath = onPath || rec.Key == outer
	}
	if !onPath {
		if s.F.eval(mkLt(mkInt(0), mkLen(list))) != no {
			w.bad("covered", "the program can end without a look at the processors", s)
		}
		return
	}
	first, later := map[*Term]bool{}, map[*Term]bool{}
	inner := map[*Term]bool{} // maps all of whose entries are handled in a loop
	for _, rec := range w.e.Loops {
		if rec.Key == outer {
			continue
		}
		for i := range rec.Iters {
			it := &rec.Iters[i]
			for _, m := range w.members(it.St.F, p) {
				if !m.more || !rangesOver(rec, m.m, it.St) {
					continue
				}
				inner[m.m] = true
				if !w.handled(it, m.k, m.v) {
					w.bad("covered", "a processor can be left out", it.St)
				}
			}
		}
	}
	rec := w.e.Loops[outer]
	for i := range rec.Iters {
		it := &rec.Iters[i]
		ok := false
		for _, m := range w.members(it.St.F, p) {
			if m.more && (w.code || !inner[m.m]) && !w.handled(it, m.k, m.v) {
				continue
			}
			if m.more && w.code && inner[m.m] {
				continue // the other names of the entry are left out
			}
			ok = true
			if it.First {
				first[m.idx] = true
			} else {
				later[m.idx] = true
			}
		}
		if !ok {
			w.bad("covered", "an entry of the definitions can be left out", it.St)
		}
	}
	if why := covers(w.e, s, sliceSrc(list), outer, first, later); why != "" {
		w.bad("covered", "not all processors are handled: "+why, s)
	}
	if w.code {
		return
	}
	for _, ev := range evs {
		if ev.Kind != "render" {
			continue
		}
		l := fieldNamed(ev.Args[1], "Processors")
		for l != nil && l.Op == OpCallRes && strings.HasPrefix(l.Aux, "reordered·") && len(l.Args) == 1 {
			l = l.Args[0]
		}
		if l == nil || !w.lists[l] {
			w.bad("covered", "what is rendered is not the list of all processors", s)
		}
	}
}

// readers checks the functions that read the definitions: everything in the
// named file, or an error.
func (w *genWorld) readers() {
	c := w.c
	errT := types.Universe.Lookup("error").Type()
	n := 0
	for _, fn := range pkgFuncs(c.P, relTemplate) {
		sig := fn.Signature
		if fn.Object() == nil || !fn.Object().Exported() || sig.Recv() != nil || sig.Params().Len() != 1 || sig.Results().Len() != 2 || !types.Identical(sig.Results().At(1).Type(), errT) || !isStringType(sig.Params().At(0).Type()) {
			continue
		}
		n++
		why := ""
		var det []string
		bad := func(s *State, m string) {
			if why == "" {
				why, det = m, traceDetails(s)
			}
		}
		decoded := func(src *Term, t types.Type) *Term { return mkT(OpApp, "decoded", 0, t, true, nil, nil, src) }
		cl := &Client{PlainMaps: true}
		cl.Model = func(s *State, cc *CallCtx) ([]*Term, bool) {
			fresh := func(what string, i int) *Term {
				return mkT(OpCallRes, what+"·"+cc.Site, int64(i), cc.Sig.Results().At(i).Type(), false, cc.Instr, s.loopKeys())
			}
			fail := func(what string, err *Term) *Term {
				s.e.emit(s, &Event{Kind: "may fail", Instr: cc.Instr, Ctx: s.top().ctx, Args: []*Term{mkStr(what)}, Res: err})
				return err
			}
			decode := func(src, to *Term) *Term {
				if to = plain(to); to.Typ != nil {
					if pt, ok := to.Typ.Underlying().(*types.Pointer); ok {
						s.store(to, decoded(src, pt.Elem()), pt.Elem(), cc.Site)
					}
				}
				return fail("decode", fresh("decode", 0))
			}
			switch cc.Name {
			case "os.Open":
				err := fail("open", fresh("open", 1))
				return []*Term{mkApp("contents", cc.Sig.Results().At(0).Type(), cc.Args[0]), err}, true
			case "os.ReadFile", "io/ioutil.ReadFile":
				err := fail("read", fresh("read", 1))
				return []*Term{mkApp("contents", cc.Sig.Results().At(0).Type(), cc.Args[0]), err}, true
			case "bufio.NewReader", "bufio.NewReaderSize", "bytes.NewReader", "bytes.NewBuffer":
				return []*Term{text(plain(cc.Args[0]))}, true
			case "io.ReadAll", "io/ioutil.ReadAll":
				err := fail("read", fresh("read", 1))
				return []*Term{plain(cc.Args[0]), err}, true
			case "gopkg.in/yaml.v3.NewDecoder":
				return []*Term{mkApp("decoder", cc.Sig.Results().At(0).Type(), text(plain(cc.Args[0])))}, true
			case "(*gopkg.in/yaml.v3.Decoder).KnownFields":
				return nil, true
			case "(*gopkg.in/yaml.v3.Decoder).Decode":
				d := cc.Args[0]
				if d.Op != OpApp || d.Aux != "decoder" {
					return nil, false
				}
				return []*Term{decode(d.Args[0], cc.Args[1])}, true
			case "gopkg.in/yaml.v3.Unmarshal":
				return []*Term{decode(text(cc.Args[0]), cc.Args[1])}, true
			}
			return nil, false
		}
		cl.OnEvent = func(s *State, ev *Event) bool { return ev.Kind == "may fail" }
		params := rootParams(fn)
		good := 0
		cl.OnReturn = func(s *State, rets []*Term) {
			isNil := s.F.eval(mkEq(rets[1], mkNil()))
			for _, ev := range s.Events() {
				if s.F.eval(mkEq(ev.Res, mkNil())) != yes && isNil != no && !(isNil == unknown && wraps(s.F, rets[1], ev.Res)) {
					what, _ := ev.Args[0].isStr()
					bad(s, "a failure to "+what+" the definitions is not reported")
				}
			}
			if isNil == no {
				return
			}
			v := rets[0]
			if v.Op != OpApp {
				if pt, ok := v.Typ.Underlying().(*types.Pointer); ok {
					v = s.load(v, pt.Elem())
				}
			}
			src := func(t *Term) bool {
				return t.Op == OpApp && t.Aux == "contents" && t.Args[0] == params[0]
			}
			if v.Op != OpApp || v.Aux != "decoded" || !src(v.Args[0]) {
				bad(s, "the definitions are "+v.String()+" instead of the contents of the file")
				return
			}
			good++
		}
		e := NewEngine(c.P, cl)
		e.Run(fn, params, nil)
		c.account(fn, e)
		if good == 0 && why == "" {
			why = "the definitions are never read"
		}
		c.Check(why == "", "C31-fail", "reading the definitions", c.P.Pos(fn.Pos()), why, det...)
	}
	if n == 0 {
		c.Missing("reader of the definitions in " + relTemplate)
	}
}

// genTexts checks the functions that produce parts of the output: they use all
// of a text or fail.
func genTexts(c *Ctx) {
	ew := newErrWorld(c)
	for _, rel := range []string{relTemplate, "pkg/processor/generate", "docs/generate"} {
		for _, f := range pkgFuncs(c.P, rel) {
			scans := false
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if ci, ok := ins.(ssa.CallInstruction); ok {
						if sc := ci.Common().StaticCallee(); sc != nil && sc.String() == "(*bufio.Scanner).Scan" {
							scans = true
						}
					}
				}
			}
			if !scans {
				continue
			}
			name := rel + " text"
			bad := reusedBytes(f)
			if bad != nil {
				c.Bad("C31-complete", name, c.P.InstrPos(bad), "bytes of a scanner are kept although the next token overwrites them")
				continue
			}
			lost := ""
			ew.lostIn(f, func(err *Term, s *State, why string) {
				if err.Op == OpApp && lost == "" {
					lost = "a text can be cut off: the error of the scanner " + why
				}
			})
			c.Check(lost == "", "C31-complete", name, c.P.Pos(f.Pos()), lost)
		}
	}
}

func init() {
	register("C31", func(c *Ctx) {
		c.Rule("C31-complete", "a file is written only with the complete result of a rendering (and formatting) that succeeded", 2)
		c.Rule("C31-fail", "every failure ends the generator with a failing status", 2)
		c.Rule("C31-target", "what is rendered for a processor is written to the file of that processor", 2)
		c.Rule("C31-stub", "the stub is rendered exactly if the existing file has a function Process or does not exist", 2)
		dbg := os.Getenv("GENDBG") != ""
		f, err := guardField(filepath.Join(c.P.Repo, "pkg/processor/generate/assets/processor.go.gotmpl"), "Process(")
		c.Check(err == nil, "C31-stub", "template of the stub", "pkg/processor/generate/assets/processor.go.gotmpl", fmt.Sprint(err))
		for _, rel := range []string{"pkg/processor/generate", "docs/generate"} {
			w := &genWorld{c: c, rel: rel, code: rel != "docs/generate", stub: f, wrong: map[string]string{}, det: map[string][]string{}, insp: map[*ssa.Function]map[int]string{}, done: map[*Iter]bool{}, temp: map[ssa.Instruction]bool{}, lists: map[*Term]bool{}, dbg: dbg}
			w.run()
			if w.code {
				w.readers()
			}
		}
		genTexts(c)
	})
}
