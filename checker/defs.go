package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
	"gopkg.in/yaml.v3"
)

// C21: the definition file, the configurations, the registration, the tool and
// the documentation agree.

const (
	definitionFile = "pkg/processor/processors.yml"
	readmeFile     = "docs/README.md"
	relTool        = "cmd/sawmill"
)

type optionDef struct {
	Name     string
	Type     string
	Required bool
	Optional bool
	Default  interface{}
}

type procDef struct {
	name    string
	pos     string
	options []optionDef
}

// definitions reads the definition file.
func definitions(c *Ctx) []procDef {
	data, err := os.ReadFile(filepath.Join(c.P.Repo, definitionFile))
	if err != nil {
		c.Missing("the definition file " + definitionFile)
		return nil
	}
	var doc struct {
		Processors []yaml.Node
	}
	if err := yaml.Unmarshal(data, &doc); err != nil {
		c.Bad("C21-registered", definitionFile, definitionFile, "the definition file cannot be read: "+err.Error())
		return nil
	}
	var out []procDef
	for i := range doc.Processors {
		n := &doc.Processors[i]
		pos := fmt.Sprintf("%s:%d", definitionFile, n.Line)
		if n.Kind != yaml.MappingNode || len(n.Content) != 2 {
			c.Bad("C21-registered", fmt.Sprintf("entry %d", i), pos, "the entry does not define exactly one processor")
			continue
		}
		d := procDef{name: n.Content[0].Value, pos: pos}
		var body struct {
			Configuration []optionDef
		}
		if err := n.Content[1].Decode(&body); err != nil {
			c.Bad("C21-registered", d.name, pos, "the definition cannot be read: "+err.Error())
			continue
		}
		d.options = body.Configuration
		out = append(out, d)
	}
	return out
}

// optionField is a field of a configuration that takes an option.
type optionField struct {
	path     []int
	typ      types.Type
	required bool
	other    string // validators other than "required"
	pos      string
}

// optionFields gives the options a configuration accepts, as go-ucfg reads the tags.
func optionFields(p *Prog, t types.Type, path []int, out map[string][]optionField) {
	st := structOf(t)
	if st == nil {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() {
			continue
		}
		tag := reflect.StructTag(st.Tag(i))
		parts := strings.Split(tag.Get("config"), ",")
		name, inline, ignore := parts[0], false, false
		for _, o := range parts[1:] {
			switch o {
			case "squash", "inline":
				inline = true
			case "ignore":
				ignore = true
			}
		}
		at := append(append([]int(nil), path...), i)
		switch {
		case ignore:
		case inline:
			optionFields(p, f.Type(), at, out)
		default:
			if name == "" {
				name = strings.ToLower(f.Name())
			}
			o := optionField{path: at, typ: f.Type(), pos: p.Pos(f.Pos())}
			for _, v := range strings.Split(tag.Get("validate"), ",") {
				switch v = strings.TrimSpace(v); v {
				case "":
				case "required":
					o.required = true
				default:
					o.other = v
				}
			}
			out[name] = append(out[name], o)
		}
	}
}

// sameTypeName: the Go type takes values of the defined type.
func sameTypeName(t types.Type, def string) bool {
	t = types.Unalias(t)
	if types.TypeString(t, nil) == def || strings.ReplaceAll(types.TypeString(t, nil), "any", "interface{}") == def {
		return true
	}
	// another name for a plain type
	if n, ok := t.(*types.Named); ok && n.NumMethods() == 0 {
		return sameTypeName(n.Underlying(), def)
	}
	if s, ok := t.(*types.Slice); ok && strings.HasPrefix(def, "[]") {
		return sameTypeName(s.Elem(), def[2:])
	}
	return false
}

// constOfDefault gives the term of a default in the definition file.
func constOfDefault(v interface{}, t types.Type) *Term {
	switch x := v.(type) {
	case nil:
		return zeroOf(t)
	case bool:
		return mkBool(x)
	case int:
		if isIntType(t) {
			return mkInt(int64(x))
		}
	case string:
		return mkStr(x)
	}
	return nil
}

func analyseDefinitions(c *Ctx) {
	defs := definitions(c)
	w := newProcWorld(c)
	if w == nil {
		return
	}
	if len(defs) == 0 {
		c.Missing("definitions of processors in " + definitionFile)
		return
	}
	byName := map[string]procDef{}
	tool := toolImports(c)
	for _, d := range defs {
		if _, twice := byName[d.name]; twice {
			c.Bad("C21-registered", d.name, d.pos, "the processor "+d.name+" is defined twice")
			continue
		}
		byName[d.name] = d
		pr := w.procs[d.name]
		if pr == nil {
			c.Bad("C21-registered", d.name, d.pos, "the processor "+d.name+" is defined, but no constructor is registered under that name")
			continue
		}
		why := ""
		if n := w.regs[d.name]; n != 1 {
			why = fmt.Sprintf("the processor %s is registered %d times", d.name, n)
		} else if !w.atInit(pr) {
			why = "the registration of " + d.name + " is not executed by every initialisation of its package"
		}
		c.Check(why == "", "C21-registered", d.name, pr.regPos, why)
		if tool != nil {
			path := pr.regIn.Pkg.Pkg.Path()
			c.Check(tool[path], "C21-tool", d.name, pr.regPos, "the command-line tool does not import "+path+", which registers the processor "+d.name)
		}
		checkOptions(c, w, d, pr)
	}
	for _, n := range w.names {
		if _, ok := byName[n]; !ok {
			c.Bad("C21-registered", n, w.procs[n].regPos, "the registered processor "+n+" is not defined in "+definitionFile)
		}
	}
	checkReadme(c, defs, byName)
}

// atInit: the registration is executed whenever the package is initialised.
func (w *procWorld) atInit(pr *procRole) bool {
	fn, blk := pr.regIn, pr.regBlock
	for depth := 0; depth < 8; depth++ {
		if fn.Name() == "init" && fn.Synthetic != "" {
			return true // a variable of the package is initialised with it
		}
		for _, b := range fn.Blocks {
			if n := len(b.Instrs); n > 0 {
				if _, ok := b.Instrs[n-1].(*ssa.Return); ok && !blk.Dominates(b) && b != blk {
					return false
				}
			}
		}
		if strings.HasPrefix(fn.Name(), "init") && fn.Signature.Recv() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")) {
			return true
		}
		// its only caller
		var site ssa.Instruction
		for _, f := range w.c.P.Funcs {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn {
						if site != nil {
							return false
						}
						site = ins
					}
				}
			}
		}
		if site == nil {
			return false
		}
		fn, blk = site.Parent(), site.Block()
	}
	return false
}

// toolImports lists the packages linked into the command-line tool.
func toolImports(c *Ctx) map[string]bool {
	pk := c.P.Pkg(relTool)
	if pk == nil {
		c.Missing("the command-line tool " + relTool)
		return nil
	}
	seen := map[string]bool{}
	var walk func(p *types.Package)
	walk = func(p *types.Package) {
		if seen[p.Path()] {
			return
		}
		seen[p.Path()] = true
		for _, q := range p.Imports() {
			walk(q)
		}
	}
	walk(pk.Pkg)
	return seen
}

func checkOptions(c *Ctx, w *procWorld, d procDef, pr *procRole) {
	fields := map[string][]optionField{}
	optionFields(c.P, pr.cfg, nil, fields)
	defined := map[string]bool{}
	var required [][]int
	for _, o := range d.options {
		id := d.name + "." + o.Name
		if o.Name == "" {
			c.Bad("C21-option", d.name, d.pos, "an option without a name is defined")
			continue
		}
		if defined[o.Name] {
			c.Bad("C21-option", id, d.pos, "the option "+o.Name+" is defined twice")
			continue
		}
		defined[o.Name] = true
		fs := fields[o.Name]
		if len(fs) != 1 {
			c.Bad("C21-option", id, d.pos, fmt.Sprintf("%d fields of %s take the option %s", len(fs), typeStr(pr.cfg), o.Name))
			continue
		}
		f := fs[0]
		why := ""
		switch {
		case !sameTypeName(f.typ, o.Type):
			why = fmt.Sprintf("the option %s is of type %s, but is defined as %s", o.Name, types.TypeString(f.typ, nil), o.Type)
		case f.other != "":
			why = fmt.Sprintf("the option %s is restricted by %q, which the definition does not mention", o.Name, f.other)
		case f.required && !o.Required:
			why = "the option " + o.Name + " is required, but not defined as required"
		case !f.required && o.Required && !validates(c, pr, f):
			why = "the option " + o.Name + " is defined as required, but a configuration without it is accepted"
		}
		c.Check(why == "", "C21-option", id, f.pos, why)
		if o.Required {
			required = append(required, f.path)
		}
	}
	for n, fs := range fields {
		if !defined[n] {
			c.Bad("C21-option", d.name+"."+n, fs[0].pos, "the option "+n+" is accepted, but not defined")
		}
	}
	checkDefaults(c, d, pr, fields)
	checkAccepts(c, d, pr, required)
}

func (pr *procRole) method(c *Ctx, name string) *ssa.Function {
	n := namedOf(pr.cfg)
	if n == nil {
		return nil
	}
	sel := types.NewMethodSet(types.NewPointer(n)).Lookup(n.Obj().Pkg(), name)
	if sel == nil {
		return nil
	}
	fn, _ := sel.Obj().(*types.Func)
	if fn == nil {
		return nil
	}
	return c.P.Prog.FuncValue(fn)
}

// fieldAt gives the place of a field below the pointer p.
func fieldAt(p *Term, t types.Type, path []int) (*Term, types.Type) {
	for _, i := range path {
		ft := structOf(t).Field(i).Type()
		p = mkFieldAddr(p, i, types.NewPointer(ft))
		t = ft
	}
	return p, t
}

// checkDefaults: InitDefaults sets exactly the defined defaults.
func checkDefaults(c *Ctx, d procDef, pr *procRole, fields map[string][]optionField) {
	fn := pr.method(c, "InitDefaults")
	if fn == nil || len(fn.Blocks) == 0 || fn.Signature.Params().Len() != 0 {
		for _, o := range d.options {
			fs := fields[o.Name]
			if len(fs) != 1 {
				continue
			}
			want := constOfDefault(o.Default, fs[0].typ)
			c.Check(want != nil && want == zeroOf(fs[0].typ), "C21-default", d.name+"."+o.Name, d.pos,
				fmt.Sprintf("the option %s has the default %v, but the configuration has no InitDefaults", o.Name, o.Default))
		}
		return
	}
	ps := rootParams(fn)
	self := ps[0]
	if _, ok := self.Typ.Underlying().(*types.Pointer); !ok {
		c.Bad("C21-default", d.name, c.P.Pos(fn.Pos()), "InitDefaults sets the defaults of a copy of the configuration")
		return
	}
	wrong := map[string]string{}
	returns := 0
	cl := &Client{OnReturn: func(s *State, rets []*Term) {
		returns++
		for _, o := range d.options {
			fs := fields[o.Name]
			if len(fs) != 1 {
				continue
			}
			a, t := fieldAt(self, pr.cfg, fs[0].path)
			got := s.load(a, t)
			want := constOfDefault(o.Default, t)
			switch {
			case want == nil:
				wrong[o.Name] = fmt.Sprintf("the default %v of %s cannot be a value of type %s", o.Default, o.Name, types.TypeString(t, nil))
			case got == want || s.F.eval(mkEq(got, want)) == yes:
			default:
				wrong[o.Name] = fmt.Sprintf("the default of %s is %s, but is defined as %v", o.Name, got, o.Default)
				if o.Default == nil {
					wrong[o.Name] = fmt.Sprintf("the default of %s is %s, but none is defined", o.Name, got)
				}
			}
		}
	}}
	e := NewEngine(c.P, cl)
	e.Run(fn, ps, func(s *State) {
		s.F.assume(mkEq(self, mkNil()), false)
		// go-ucfg calls it on a zero value
		for _, fs := range fields {
			for _, f := range fs {
				a, t := fieldAt(self, pr.cfg, f.path)
				s.store(a, zeroOf(t), t, "default")
			}
		}
	})
	c.account(fn, e)
	for _, o := range d.options {
		if len(fields[o.Name]) == 1 && returns > 0 {
			c.Check(wrong[o.Name] == "", "C21-default", d.name+"."+o.Name, c.P.Pos(fn.Pos()), wrong[o.Name])
		}
	}
}

// validates: a Validate method rejects configurations without the option.
func validates(c *Ctx, pr *procRole, f optionField) bool {
	fn := pr.method(c, "Validate")
	if fn == nil || len(fn.Blocks) == 0 || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 {
		return false
	}
	ok, n := true, 0
	ps := rootParams(fn)
	cl := &Client{OnReturn: func(s *State, rets []*Term) {
		n++
		if s.F.eval(mkEq(rets[0], mkNil())) != no {
			ok = false
		}
	}}
	e := NewEngine(c.P, cl)
	e.Run(fn, ps, func(s *State) {
		if _, isP := ps[0].Typ.Underlying().(*types.Pointer); isP {
			s.F.assume(mkEq(ps[0], mkNil()), false)
			a, t := fieldAt(ps[0], pr.cfg, f.path)
			s.store(a, zeroOf(t), t, "default")
			return
		}
		s.F.assume(mkEq(fieldValue(ps[0], pr.cfg, f.path), zeroOf(f.typ)), true)
	})
	return ok && n > 0 && e.Err == nil
}

func fieldValue(v *Term, t types.Type, path []int) *Term {
	for _, i := range path {
		ft := structOf(t).Field(i).Type()
		v = mkField(v, i, ft)
		t = ft
	}
	return v
}

// checkAccepts: a configuration is rejected only if a required option is missing.
func checkAccepts(c *Ctx, d procDef, pr *procRole, required [][]int) {
	check := func(fn *ssa.Function, what string) {
		ps := rootParams(fn)
		if len(ps) != 1 {
			return
		}
		_, isPtr := ps[0].Typ.Underlying().(*types.Pointer)
		var fields []*Term
		why := ""
		var det []string
		cl := &Client{OnReturn: func(s *State, rets []*Term) {
			err := rets[len(rets)-1]
			if s.F.eval(mkEq(err, mkNil())) == yes {
				if len(rets) == 2 && s.F.eval(mkEq(rets[0], mkNil())) != no {
					why, det = what+" returns neither a processor nor an error", traceDetails(s)
				}
				return
			}
			for _, f := range fields {
				if s.F.eval(mkEq(f, zeroOf(f.Typ))) == yes || (isStringType(f.Typ) || isSliceTerm(f)) && s.F.eval(mkLt(mkInt(0), mkLen(f))) == no {
					return // a required option is missing
				}
			}
			why, det = what+" rejects a configuration although all required options are set", traceDetails(s)
		}}
		e := NewEngine(c.P, cl)
		e.Run(fn, ps, func(s *State) {
			if isPtr {
				s.F.assume(mkEq(ps[0], mkNil()), false)
			}
			for _, path := range required {
				if isPtr {
					a, t := fieldAt(ps[0], pr.cfg, path)
					fields = append(fields, s.load(a, t))
				} else {
					fields = append(fields, fieldValue(ps[0], pr.cfg, path))
				}
			}
		})
		c.account(fn, e)
		c.Check(why == "", "C21-accepts", d.name+": "+what, c.P.Pos(fn.Pos()), why, det...)
	}
	check(pr.newFn, "the constructor")
	if fn := pr.method(c, "Validate"); fn != nil && len(fn.Blocks) > 0 && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 {
		check(fn, "Validate")
	}
}

// ---- the documentation ----

func checkReadme(c *Ctx, defs []procDef, byName map[string]procDef) {
	data, err := os.ReadFile(filepath.Join(c.P.Repo, readmeFile))
	if err != nil {
		c.Missing("the documentation " + readmeFile)
		return
	}
	type section struct {
		line int
		rows map[string][]string
		at   map[string]int
		cols []string
	}
	secs := map[string]*section{}
	listed := map[string]int{}
	var cur *section
	inList, fence := false, ""
	var block []string
	blockLine := 0
	for i, l := range strings.Split(string(data), "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "```") {
			if fence == "" {
				fence, block, blockLine = t, nil, i+2
			} else {
				if lang := strings.ToLower(strings.TrimPrefix(fence, "```")); lang == "yaml" || lang == "yml" {
					checkExample(c, strings.Join(block, "\n"), blockLine, byName)
				}
				fence = ""
			}
			continue
		}
		if fence != "" {
			block = append(block, l)
			continue
		}
		switch {
		case strings.HasPrefix(t, "## "):
			inList, cur = strings.TrimSpace(t[3:]) == "Processors", nil
		case strings.HasPrefix(t, "### ") && inList:
			n := strings.TrimSpace(t[4:])
			if secs[n] != nil {
				c.Bad("C21-docs", n, fmt.Sprintf("%s:%d", readmeFile, i+1), "the processor "+n+" is documented twice")
			}
			cur = &section{line: i + 1, rows: map[string][]string{}, at: map[string]int{}}
			secs[n] = cur
		case strings.HasPrefix(t, "- [") && inList && cur == nil:
			if j := strings.Index(t, "]"); j > 3 {
				listed[t[3:j]] = i + 1
			}
		case strings.HasPrefix(t, "|") && cur != nil:
			var cells []string
			for _, x := range strings.Split(strings.Trim(t, "|"), "|") {
				cells = append(cells, strings.TrimSpace(x))
			}
			switch {
			case cur.cols == nil:
				cur.cols = cells
			case strings.HasPrefix(cells[0], "--"):
			default:
				if cur.rows[cells[0]] != nil {
					c.Bad("C21-docs", "option "+cells[0], fmt.Sprintf("%s:%d", readmeFile, i+1), "the option "+cells[0]+" is documented twice")
				}
				cur.rows[cells[0]], cur.at[cells[0]] = cells, i+1
			}
		}
	}
	if len(secs) == 0 {
		c.Missing("sections of processors in " + readmeFile)
		return
	}
	for _, d := range defs {
		s := secs[d.name]
		if s == nil {
			c.Bad("C21-docs", d.name, readmeFile, "the processor "+d.name+" is not documented")
			continue
		}
		pos := fmt.Sprintf("%s:%d", readmeFile, s.line)
		if len(listed) > 0 {
			c.Check(listed[d.name] > 0, "C21-docs", d.name, pos, "the processor "+d.name+" is missing in the list of processors")
		}
		known := map[string]bool{}
		for _, o := range d.options {
			known[o.Name] = true
			row := s.rows[o.Name]
			if row == nil {
				c.Bad("C21-docs", d.name+"."+o.Name, pos, "the option "+o.Name+" of "+d.name+" is not documented")
				continue
			}
			c.Check(true, "C21-docs", d.name+"."+o.Name, pos, "")
			for j, col := range s.cols {
				if j >= len(row) {
					break
				}
				want, ok := []string{}, true
				switch strings.ToLower(col) {
				case "required":
					want = []string{mark(o.Required)}
				case "optional":
					want = []string{mark(o.Optional)}
				case "type":
					want = []string{docType(o.Type)}
				case "default":
					switch x := o.Default.(type) {
					case nil:
						want = []string{""}
					default:
						want = []string{fmt.Sprint(x)}
						if x == false || x == 0 || x == "" {
							want = append(want, "")
						}
					}
				default:
					ok = false
				}
				if !ok {
					continue
				}
				got := strings.Trim(row[j], "`")
				found := false
				for _, x := range want {
					found = found || x == got
				}
				c.Check(found, "C21-docs", d.name+"."+o.Name+" "+strings.ToLower(col), fmt.Sprintf("%s:%d", readmeFile, s.at[o.Name]),
					fmt.Sprintf("the documentation of %s.%s says %s %q, but the definition says %q", d.name, o.Name, strings.ToLower(col), got, want[0]))
			}
		}
		for n := range s.rows {
			if !known[n] {
				c.Bad("C21-docs", d.name+"."+n, fmt.Sprintf("%s:%d", readmeFile, s.at[n]), "the documented option "+n+" of "+d.name+" does not exist")
			}
		}
	}
	for n, s := range secs {
		if _, ok := byName[n]; !ok {
			c.Bad("C21-docs", n, fmt.Sprintf("%s:%d", readmeFile, s.line), "the documented processor "+n+" does not exist")
		}
	}
	for n, l := range listed {
		if _, ok := byName[n]; !ok {
			c.Bad("C21-docs", n, fmt.Sprintf("%s:%d", readmeFile, l), "the listed processor "+n+" does not exist")
		}
	}
}

func mark(b bool) string {
	if b {
		return "x"
	}
	return ""
}

func docType(t string) string {
	switch {
	case strings.HasSuffix(t, ".EventValue"):
		return "any"
	case t == "map[string]interface{}":
		return "map"
	}
	return t
}

// checkExample: an example of a pipeline uses existing processors and options.
func checkExample(c *Ctx, text string, line int, byName map[string]procDef) {
	var doc yaml.Node
	if err := yaml.Unmarshal([]byte(text), &doc); err != nil {
		c.Bad("C21-example", fmt.Sprintf("example at line %d", line), fmt.Sprintf("%s:%d", readmeFile, line), "the example is not valid YAML: "+err.Error())
		return
	}
	if len(doc.Content) == 0 || doc.Content[0].Kind != yaml.MappingNode {
		return
	}
	top, entry := yamlNames(c, "Config"), yamlNames(c, "ProcessorOptionConfig")
	if top == nil || entry == nil {
		return
	}
	at := func(n *yaml.Node) string { return fmt.Sprintf("%s:%d", readmeFile, line+n.Line-1) }
	var list func(n *yaml.Node)
	proc := func(name *yaml.Node, opts *yaml.Node) {
		d, ok := byName[name.Value]
		c.Check(ok, "C21-example", "processor "+name.Value, at(name), "the example uses the processor "+name.Value+", which does not exist")
		if !ok || opts.Kind != yaml.MappingNode {
			return
		}
		set := map[string]bool{}
		for i := 0; i+1 < len(opts.Content); i += 2 {
			o := opts.Content[i]
			set[o.Value] = true
			if o.Value == "on_failure" {
				list(opts.Content[i+1])
			}
			if entry[o.Value] {
				continue
			}
			known := false
			for _, x := range d.options {
				known = known || x.Name == o.Value
			}
			c.Check(known, "C21-example", "option "+name.Value+"."+o.Value, at(o), "the example uses the option "+o.Value+" of "+name.Value+", which does not exist")
		}
		for _, x := range d.options {
			if x.Required && !set[x.Name] {
				c.Bad("C21-example", "processor "+name.Value, at(name), "the example leaves out the option "+x.Name+" of "+name.Value+", which is required")
			}
		}
	}
	list = func(n *yaml.Node) {
		if n.Kind != yaml.SequenceNode {
			return
		}
		for _, x := range n.Content {
			if x.Kind == yaml.MappingNode {
				for i := 0; i+1 < len(x.Content); i += 2 {
					proc(x.Content[i], x.Content[i+1])
				}
			}
		}
	}
	m := doc.Content[0]
	isPipeline := false
	for i := 0; i+1 < len(m.Content); i += 2 {
		isPipeline = isPipeline || m.Content[i].Value == "processors"
	}
	if !isPipeline {
		return
	}
	for i := 0; i+1 < len(m.Content); i += 2 {
		k := m.Content[i]
		c.Check(top[k.Value], "C21-example", "key "+k.Value, at(k), "the example uses the key "+k.Value+" of a pipeline, which does not exist")
		if k.Value == "processors" || k.Value == "on_failure" {
			list(m.Content[i+1])
		}
	}
}

// yamlNames lists the names a configuration type of the pipeline has in YAML.
func yamlNames(c *Ctx, typ string) map[string]bool {
	n := lookupNamed(c.P, relPipeline, typ)
	st := structOf(n)
	if n == nil || st == nil {
		c.Missing("pipeline." + typ)
		return nil
	}
	out := map[string]bool{}
	for i := 0; i < st.NumFields(); i++ {
		tag := strings.Split(reflect.StructTag(st.Tag(i)).Get("yaml"), ",")
		switch {
		case tag[0] == "-" || len(tag) > 1 && tag[1] == "inline":
		case tag[0] != "":
			out[tag[0]] = true
		default:
			out[strings.ToLower(st.Field(i).Name())] = true
		}
	}
	return out
}

func init() {
	register("C21", func(c *Ctx) {
		c.Rule("C21-registered", "each defined processor is registered once, by the initialisation of a package, under its name, and no other is", 6)
		c.Rule("C21-tool", "the command-line tool links the package that registers each defined processor", 6)
		c.Rule("C21-option", "the configuration of a processor takes exactly the defined options, each with the defined type and required exactly if so defined", 20)
		c.Rule("C21-default", "the options have the defined defaults", 20)
		c.Rule("C21-accepts", "a configuration is rejected only if a required option is missing", 6)
		c.Rule("C21-docs", "the documentation lists the defined processors and options with their type, default, required and optional", 20)
		c.Rule("C21-example", "the examples use existing processors and options, with all that are required", 4)
		analyseDefinitions(c)
	})
}
