package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C28: the line loop of the command-line tool.
//
// main is interpreted with its helpers; the packages it uses are modelled at
// the level of what they do for one line: the scanner's lines, the event that
// is made and what is put in it, its processing, and what is written or
// reported.

const (
	lineNumberKey = "@metadata.line_number"
	lineKey       = "event.original"
)

type cliWorld struct {
	c      *Ctx
	e      *Engine
	evP    string
	pipeP  string
	wrong  map[string]string
	det    []string
	where  map[string]string
	ok     map[string]bool
	ends   int
	failed int
}

func (w *cliWorld) bad(what, why string, s *State) {
	if w.wrong[what] == "" {
		w.wrong[what] = why
		if s != nil {
			w.det = traceDetails(s)
		}
	}
}

// plain strips interfaces and conversions between integers.
func plain(t *Term) *Term {
	for {
		switch {
		case t.Op == OpIface:
			t = t.Args[0]
		case t.Op == OpConv && isIntType(t.Typ) && len(t.Args) == 1 && t.Args[0].Typ != nil && isIntType(t.Args[0].Typ):
			t = t.Args[0]
		default:
			return t
		}
	}
}

func isStdFile(t *Term, name string) bool {
	t = plain(t)
	return t.Op == OpLoad && t.Args[0].Op == OpGlobal && t.Args[0].Aux == "os."+name || t.Op == OpGlobal && t.Aux == "os."+name
}

func (w *cliWorld) model(s *State, cc *CallCtx) ([]*Term, bool) {
	e := w.e
	str := types.Typ[types.String]
	bytesT := types.NewSlice(types.Typ[types.Byte])
	errT := types.Universe.Lookup("error").Type()
	emit := func(kind string, res *Term, args ...*Term) *Term {
		e.emit(s, &Event{Kind: kind, Instr: cc.Instr, Ctx: s.top().ctx, Args: args, Res: res})
		return res
	}
	fresh := func(what string, i int, t types.Type) *Term {
		return mkT(OpCallRes, what+"·"+cc.Site, int64(i), t, false, cc.Instr, s.loopKeys())
	}
	res0 := func() types.Type { return cc.Sig.Results().At(0).Type() }
	rest := func(from int) []*Term {
		var as []*Term
		for i, a := range cc.Args[from:] {
			if cc.Sig.Variadic() && from+i == len(cc.Args)-1 {
				as = append(as, e.elems(s, a)...)
			} else {
				as = append(as, a)
			}
		}
		return as
	}
	// current is the line of the last scan.
	current := func() *Term {
		return mkT(OpApp, "line", 0, str, false, nil, s.loopKeys())
	}
	switch cc.Name {
	case "bufio.NewReader", "bufio.NewReaderSize":
		return []*Term{plain(cc.Args[0])}, true
	case "bufio.NewScanner":
		sc := fresh("scanner", 0, res0())
		s.F.assume(mkEq(sc, mkNil()), false)
		return []*Term{emit("scanner", sc, plain(cc.Args[0]))}, true
	case "(*bufio.Scanner).Scan":
		return []*Term{emit("scan", fresh("scan", 0, types.Typ[types.Bool]), cc.Args[0])}, true
	case "(*bufio.Scanner).Text":
		return []*Term{current()}, true
	case "(*bufio.Scanner).Bytes":
		return []*Term{mkConv(current(), str, bytesT)}, true
	case "(*bufio.Scanner).Err":
		return []*Term{mkApp("scanerr", errT, cc.Args[0])}, true
	case "(*bufio.Scanner).Buffer":
		return nil, true
	case "(*bufio.Scanner).Split":
		if f := cc.Args[1]; f.Op != OpFunc || f.Ref.(*ssa.Function).String() != "bufio.ScanLines" {
			w.bad("lines", "the input is not split into lines", s)
		}
		return nil, true
	case "strings.TrimSpace":
		return []*Term{mkApp("trimmed", str, cc.Args[0])}, true
	case "bytes.TrimSpace":
		return []*Term{mkConv(mkApp("trimmed", str, mkConv(cc.Args[0], bytesT, str)), str, bytesT)}, true
	case w.evP + ".New":
		ev := fresh("event", 0, res0())
		s.F.assume(mkEq(ev, mkNil()), false)
		return []*Term{emit("new", ev)}, true
	case "(*" + w.evP + ".Event).Put", "(*" + w.evP + ".Event).TryPut":
		var rs []*Term
		for i := 0; i < cc.Sig.Results().Len(); i++ {
			rs = append(rs, fresh("put", i, cc.Sig.Results().At(i).Type()))
		}
		emit("put", rs[len(rs)-1], cc.Args...)
		return rs, true
	case w.evP + ".UnsignedInteger", w.evP + ".Integer", w.evP + ".String":
		return []*Term{mkApp("value "+cc.Name[strings.LastIndexByte(cc.Name, '.')+1:], res0(), cc.Args...)}, true
	case "(*" + w.pipeP + ".Pipeline).Process":
		out := fresh("output", 0, res0())
		err := fresh("failure", 1, errT)
		emit("process", err, cc.Args[0], cc.Args[1], out)
		return []*Term{out, err}, true
	case "bufio.NewWriter", "bufio.NewWriterSize":
		return []*Term{mkApp("buffered", res0(), plain(cc.Args[0]), mkT(OpSym, cc.Site, 0, nil, false, nil, s.loopKeys()))}, true
	case "(*bufio.Writer).Flush":
		return []*Term{emit("flush", fresh("flush", 0, errT), plain(cc.Args[0]))}, true
	case "encoding/json.NewEncoder":
		return []*Term{mkApp("encoder", res0(), plain(cc.Args[0]))}, true
	case "(*encoding/json.Encoder).SetEscapeHTML":
		return nil, true
	case "(*encoding/json.Encoder).Encode":
		to := cc.Args[0]
		if to.Op == OpApp && to.Aux == "encoder" {
			to = to.Args[0]
		}
		return []*Term{emit("output", fresh("encode", 0, errT), to, plain(cc.Args[1]))}, true
	case "encoding/json.Marshal":
		x := plain(cc.Args[0])
		return []*Term{mkT(OpApp, "json", 0, bytesT, false, nil, s.loopKeys(), x), mkT(OpApp, "jsonerr", 0, errT, false, nil, s.loopKeys(), x)}, true
	case "fmt.Print", "fmt.Println", "fmt.Printf", "fmt.Fprint", "fmt.Fprintln", "fmt.Fprintf":
		n, to, fn := 0, mkNil(), strings.TrimPrefix(cc.Name, "fmt.")
		if strings.HasPrefix(fn, "F") {
			n, to, fn = 1, plain(cc.Args[0]), "P"+fn[2:]
		}
		as := rest(n)
		rs := []*Term{fresh("n", 0, types.Typ[types.Int]), fresh("writeerr", 1, errT)}
		if n == 1 && isStdFile(to, "Stderr") {
			emit("report", nil, as...)
			return rs, true
		}
		if x := jsonLine(fn, as); x != nil {
			emit("output", mkT(OpApp, "jsonerr", 0, errT, false, nil, x.loops, x.Args[0]), to, x.Args[0])
		} else {
			emit("write", nil, append([]*Term{to}, as...)...)
		}
		return rs, true
	}
	if strings.HasPrefix(cc.Name, "log.Print") || strings.HasPrefix(cc.Name, "(*log.Logger).Print") {
		n := 0
		if strings.HasPrefix(cc.Name, "(") {
			n = 1
		}
		emit("report", nil, rest(n)...)
		return nil, true
	}
	if strings.HasPrefix(cc.Name, "(*os.File).Write") {
		emit("write", nil, cc.Args...)
		return nil, false
	}
	if cc.Name == "(*encoding/json.Encoder).SetIndent" {
		w.bad("output", "the output of an event takes more than one line", s)
	}
	return nil, false
}

// jsonLine recognises the printing of a JSON form followed by the end of the line.
func jsonLine(fn string, as []*Term) *Term {
	is := func(t *Term) *Term {
		t = plain(t)
		if t.Op == OpConv && isStringType(t.Typ) {
			t = t.Args[0]
		}
		if t.Op == OpApp && t.Aux == "json" {
			return t
		}
		return nil
	}
	switch {
	case fn == "Println" && len(as) == 1 && isStringType(plain(as[0]).Typ):
		return is(as[0])
	case fn == "Printf" && len(as) == 2:
		if f, ok := as[0].isStr(); ok && f == "%s\n" {
			return is(as[1])
		}
	}
	return nil
}

func (w *cliWorld) toStdout(t *Term) bool {
	if t.isNil() { // fmt.Print
		return true
	}
	if t.Op == OpApp && t.Aux == "buffered" {
		t = t.Args[0]
	}
	return isStdFile(t, "Stdout")
}

func (w *cliWorld) run() {
	c := w.c
	main := c.P.Func(relTool, "main")
	if main == nil {
		c.Missing("main of " + relTool)
		return
	}
	pkg := main.Pkg
	cl := &Client{Model: w.model, KeepIters: true, PlainMaps: true}
	cl.Opaque = func(s *State, fn *ssa.Function, args []*Term) bool {
		root := fn
		for root.Parent() != nil {
			root = root.Parent()
		}
		return root.Pkg != pkg
	}
	cl.OnEvent = func(s *State, ev *Event) bool {
		switch ev.Kind {
		case "scanner", "scan", "new", "put", "process", "output", "report", "write", "flush", "go", "loop":
			return true
		}
		return false
	}
	cl.OnReturn = func(s *State, _ []*Term) { w.end(s, "returns", false) }
	cl.OnExit = func(s *State, name string, args []*Term) {
		fails := true
		if name == "os.Exit" {
			fails = s.F.eval(mkEq(args[0], mkInt(0))) == no
		}
		if name == "runtime.Goexit" {
			fails = false
		}
		w.end(s, "ends in "+name, fails)
	}
	w.e = NewEngine(c.P, cl)
	w.e.Run(main, nil, nil)
	c.account(main, w.e)
	pos := c.P.Pos(main.Pos())
	n := 0
	for _, rec := range w.e.Loops {
		scans := false
		for _, it := range rec.Iters {
			for _, ev := range it.Events {
				scans = scans || ev.Kind == "scan"
			}
		}
		if !scans {
			for _, it := range rec.Iters {
				for _, ev := range it.Events {
					if ev.Kind == "process" || ev.Kind == "output" {
						w.bad("once", "events are processed or written in another loop", it.St)
					}
				}
			}
			continue
		}
		n++
		for i := range rec.Iters {
			w.line(rec, &rec.Iters[i])
		}
		w.number(rec)
	}
	if n != 1 {
		w.bad("lines", fmt.Sprintf("%d loops over the lines of the input instead of one", n), nil)
	}
	if w.ends == 0 {
		w.bad("end", "the program never ends successfully", nil)
	}
	if w.failed == 0 {
		w.bad("read error", "a failure to read the input is never noticed", nil)
	}
	for _, k := range []string{"lines", "blank", "event", "number", "once", "output", "dropped", "report", "end", "read error"} {
		rule := "C28-line"
		if k == "end" || k == "read error" {
			rule = "C28-end"
		}
		c.Check(w.wrong[k] == "", rule, k, pos, w.wrong[k], w.det...)
	}
}

// line checks one iteration of the loop over the lines.
func (w *cliWorld) line(rec *LoopRec, it *Iter) {
	s, F := it.St, it.St.F
	line := mkT(OpApp, "line", 0, types.Typ[types.String], false, nil, nil)
	var scan *Term
	made := map[*Term]bool{}
	type put struct{ evt, key, val *Term }
	var puts []put
	var process, output []*Event
	var reports []*Event
	flushed := true
	for _, ev := range it.Events {
		switch ev.Kind {
		case "scan":
			if scan != nil {
				w.bad("lines", "an iteration reads several lines", s)
			}
			scan = ev.Res
		case "new":
			made[ev.Res] = true
		case "put":
			puts = append(puts, put{ev.Args[0], ev.Args[1], ev.Args[2]})
			if len(process) > 0 {
				w.bad("output", "an event is changed after it was processed", s)
			}
		case "process":
			process = append(process, ev)
		case "output":
			output = append(output, ev)
			if !w.toStdout(ev.Args[0]) {
				w.bad("output", "the event is written to "+ev.Args[0].String(), s)
			}
			flushed = ev.Args[0].Op != OpApp
		case "flush":
			flushed = true
		case "report":
			reports = append(reports, ev)
		case "write":
			w.bad("output", "something else is written to the output", s)
		case "go":
			w.bad("once", "lines are handled concurrently", s)
		case "loop":
			// an inner loop
			if r := w.e.Loops[ev.Loop]; r != nil {
				for _, in := range r.Iters {
					for _, x := range in.Events {
						switch x.Kind {
						case "process", "output", "put", "scan":
							w.bad("once", "a line is handled several times", s)
						}
					}
				}
			}
		}
	}
	_ = flushed
	if scan == nil || F.eval(scan) != yes {
		w.bad("lines", "an iteration goes on after the end of the input", s)
		return
	}
	line = mkT(OpApp, "line", 0, types.Typ[types.String], false, nil, scan.loops)
	trimmed := mkApp("trimmed", types.Typ[types.String], line)
	switch F.eval(mkEq(trimmed, mkStr(""))) {
	case yes:
		if len(process)+len(output)+len(reports) > 0 {
			w.bad("blank", "a blank line has an effect", s)
		}
		return
	case unknown:
		if len(process) == 0 {
			w.bad("once", "a line that is not blank can be skipped", s)
		} else {
			w.bad("blank", "a blank line can be processed", s)
		}
		return
	}
	if len(process) != 1 {
		w.bad("once", fmt.Sprintf("a line is processed %d times", len(process)), s)
		return
	}
	evt, out, failure := process[0].Args[1], process[0].Args[2], process[0].Res
	if !made[evt] {
		w.bad("event", "the processed event is "+evt.String()+" instead of a new one", s)
	}
	var text, number *Term
	for _, p := range puts {
		if p.evt != evt {
			continue
		}
		k, ok := p.key.isStr()
		switch {
		case !ok:
			w.bad("event", "a value is stored under "+p.key.String(), s)
		case k == lineKey:
			text = p.val
		case k == lineNumberKey:
			number = p.val
		case strings.HasPrefix(lineKey, k+".") || strings.HasPrefix(lineNumberKey, k+"."):
			text, number = nil, nil
		}
	}
	if text == nil || text.Op != OpApp || text.Aux != "value String" || text.Args[0] != trimmed && F.eval(mkEq(text.Args[0], trimmed)) != yes {
		w.bad("event", "the event does not hold the trimmed line under "+lineKey, s)
	}
	if number == nil || number.Op != OpApp || number.Aux != "value UnsignedInteger" {
		w.bad("number", "the event does not hold the number of the line under "+lineNumberKey, s)
		return
	}
	n := plain(number.Args[0])
	if it.First {
		if !n.IsInt || n.N != 1 {
			w.bad("number", "the first line has the number "+n.String(), s)
		}
	} else if v, off := linParts(n); rec.Vars[v] == nil {
		w.bad("number", "the number of a line is "+n.String(), s)
	} else {
		for f := range rec.Vars[v].Firsts {
			if f = plain(f); !f.IsInt || f.N+off != 2 {
				w.bad("number", "the second line has the number "+mkLin(f, off).String(), s)
			}
		}
	}
	reported := func(err *Term) bool {
		for _, r := range reports {
			num, what := false, false
			for _, a := range r.Args {
				if plain(a) == n {
					num = true
				}
				if plain(a) == err || wraps(F, a, err) {
					what = true
				}
			}
			if num && what {
				return true
			}
		}
		return false
	}
	switch F.eval(mkEq(failure, mkNil())) {
	case unknown:
		w.bad("report", "the error of processing a line is ignored", s)
		return
	case no:
		if len(output) > 0 {
			w.bad("output", "something is written for a line that failed", s)
		}
		if !reported(failure) {
			w.bad("report", "a failing line is not reported with its number and its error", s)
		}
		return
	}
	switch F.eval(mkEq(out, mkNil())) {
	case yes:
		if len(output) > 0 {
			w.bad("dropped", "something is written for a dropped event", s)
		}
		return
	case unknown:
		w.bad("dropped", "dropped events are not told from others", s)
		return
	}
	for _, t := range aboutTerms(F) {
		if t.Op == OpApp && t.Aux == "jsonerr" && t.Args[0] == out && F.eval(mkEq(t, mkNil())) == no {
			if !reported(t) {
				w.bad("report", "an event that cannot be encoded is not reported", s)
			}
			return
		}
	}
	if len(output) != 1 || output[0].Args[1] != out {
		w.bad("output", "an event that was processed is not written exactly once", s)
		return
	}
	switch err := output[0].Res; F.eval(mkEq(err, mkNil())) {
	case unknown:
		w.bad("report", "a failure to write an event is ignored", s)
	case no:
		if !reported(err) {
			w.bad("report", "a failure to write an event is not reported with the number of its line", s)
		}
	}
}

// number: every iteration counts one line.
func (w *cliWorld) number(rec *LoopRec) {
	found := false
	for v, r := range rec.Vars {
		if !isIntType(v.Typ) {
			continue
		}
		used := false
		for _, it := range rec.Iters {
			for _, ev := range it.Events {
				if ev.Kind == "put" && ev.Args[2].Op == OpApp && strings.HasPrefix(ev.Args[2].Aux, "value ") {
					if b, _ := linParts(plain(ev.Args[2].Args[0])); b == v {
						used = true
					}
				}
			}
		}
		if !used {
			continue
		}
		found = true
		for st := range r.Steps {
			if b, off := linParts(plain(st)); b != v || off != 1 {
				w.bad("number", "the line counter goes from "+v.String()+" to "+st.String()+" in an iteration", nil)
			}
		}
	}
	if !found {
		w.bad("number", "the lines are not counted", nil)
	}
}

// end checks a path on which the program ends.
func (w *cliWorld) end(s *State, how string, fails bool) {
	var scan *Term
	var sc *Term
	late := map[string]bool{}
	var buffered *Term
	flushed := false
	for _, ev := range s.Events() {
		switch ev.Kind {
		case "scanner":
			if !isStdFile(ev.Args[0], "Stdin") {
				w.bad("lines", "reads "+ev.Args[0].String()+" instead of the standard input", s)
			}
			sc = ev.Res
		case "scan":
			scan = ev.Res
			late, flushed = map[string]bool{}, false
		case "flush":
			flushed = true
		case "loop":
			if r := w.e.Loops[ev.Loop]; r != nil {
				for _, it := range r.Iters {
					for _, x := range it.Events {
						if x.Kind == "output" && x.Args[0].Op == OpApp {
							buffered = x.Args[0]
						}
					}
				}
			}
		default:
			late[ev.Kind] = true
		}
	}
	switch {
	case scan == nil && !fails:
		w.bad("lines", "the program "+how+" without reading the input", s)
		return
	case scan == nil:
		return
	case s.F.eval(scan) == yes:
		w.bad("end", "the program "+how+" before the end of the input because of one line", s)
		return
	}
	if late["process"] || late["output"] || late["write"] {
		w.bad("once", "something is processed or written after the end of the input", s)
	}
	if buffered != nil && !flushed {
		w.bad("output", "the program "+how+" and output that is still buffered is lost", s)
	}
	err := mkApp("scanerr", types.Universe.Lookup("error").Type(), sc)
	switch s.F.eval(mkEq(err, mkNil())) {
	case yes:
		if !fails {
			w.ends++
		}
	case no:
		w.failed++
		if !fails {
			w.bad("read error", "the program "+how+" with success although reading the input failed", s)
		}
	default:
		if !fails {
			w.bad("read error", "the program "+how+" without looking for a failure to read the input", s)
		}
	}
}

func init() {
	register("C28", func(c *Ctx) {
		c.Rule("C28-line", "each line that is not blank becomes one new event with its text and number, is processed once, and is written once or reported", 8)
		c.Rule("C28-end", "the program ends only at the end of the input, and fails if the input cannot be read", 2)
		w := &cliWorld{c: c, evP: c.P.Mod + "/" + relEvent, pipeP: c.P.Mod + "/" + relPipeline, wrong: map[string]string{}}
		w.run()
	})
}
