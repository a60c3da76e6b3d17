package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the resolved program under analysis.
type Prog struct {
	Repo    string
	Mod     string
	Pkgs    []*packages.Package
	Prog    *ssa.Program
	SSA     map[string]*ssa.Package
	Fset    *token.FileSet
	Funcs   []*ssa.Function // all functions of the module with a body
	unst    map[string]string
	ginit   map[*ssa.Global]*Term
	gstores map[*ssa.Global][]ssa.Instruction
}

func Load(repo string, env []string, patterns ...string) (*Prog, error) {
	base := os.Environ()
	var e []string
	for _, v := range base {
		if strings.HasPrefix(v, "GOFLAGS=") || strings.HasPrefix(v, "GOWORK=") || strings.HasPrefix(v, "GOOS=") || strings.HasPrefix(v, "GOARCH=") {
			continue
		}
		e = append(e, v)
	}
	e = append(e, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=1")
	e = append(e, env...)
	cfg := &packages.Config{
		Dir: repo,
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesInfo |
			packages.NeedSyntax | packages.NeedDeps | packages.NeedExportFile | packages.NeedModule | packages.NeedTypesSizes,
		Env: e,
	}
	if r, err := filepath.Abs(repo); err == nil {
		cfg.ParseFile = (&normaliser{repo: r, preds: map[string]map[string]bool{}}).parseFile
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, x := range p.Errors {
			errs = append(errs, x.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-check failed: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{Repo: repo, Pkgs: pkgs, Prog: prog, SSA: map[string]*ssa.Package{}, Fset: prog.Fset, ginit: map[*ssa.Global]*Term{}, gstores: map[*ssa.Global][]ssa.Instruction{}}
	for _, pk := range pkgs {
		if pk.Module != nil {
			p.Mod = pk.Module.Path
		}
		if sp := prog.Package(pk.Types); sp != nil {
			p.SSA[pk.PkgPath] = sp
		}
	}
	if p.Mod == "" {
		return nil, fmt.Errorf("no module found in %s", repo)
	}
	for fn := range ssautil.AllFunctions(prog) {
		if p.inModule(fn) && len(fn.Blocks) > 0 {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		if a, b := p.Funcs[i].String(), p.Funcs[j].String(); a != b {
			return a < b
		}
		return p.Funcs[i].Pos() < p.Funcs[j].Pos()
	})
	p.computeStable()
	return p, nil
}

func (p *Prog) isModPath(path string) bool {
	return path == p.Mod || strings.HasPrefix(path, p.Mod+"/")
}

func (p *Prog) inModule(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return p.isModPath(fn.Pkg.Pkg.Path())
	}
	if fn.Parent() != nil {
		return p.inModule(fn.Parent())
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return p.isModPath(o.Pkg().Path())
	}
	return false
}

func (p *Prog) Pkg(rel string) *ssa.Package { return p.SSA[p.Mod+"/"+rel] }

func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.Repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (p *Prog) InstrPos(i ssa.Instruction) string {
	if i == nil {
		return "?"
	}
	if i.Pos().IsValid() {
		return p.Pos(i.Pos())
	}
	b := i.Block()
	best := token.NoPos
	if b != nil {
		for _, x := range b.Instrs {
			if x.Pos().IsValid() {
				best = x.Pos()
			}
			if x == i && best.IsValid() {
				break
			}
		}
	}
	if !best.IsValid() && i.Parent() != nil {
		best = i.Parent().Pos()
	}
	return p.Pos(best)
}

// computeStable finds the memory classes that are only written while the
// object is under construction.
func (p *Prog) computeStable() {
	p.unst = map[string]string{}
	mark := func(c, why string) {
		if _, ok := p.unst[c]; !ok {
			p.unst[c] = why
		}
	}
	for _, fn := range p.Funcs {
		isInit := fn.Synthetic != "" && fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					switch a := x.Addr.(type) {
					case *ssa.FieldAddr:
						if freshBase(a.X) {
							break
						}
						mark("F:"+structKey(a.X.Type())+"."+fmt.Sprint(a.Field), p.InstrPos(ins))
					case *ssa.IndexAddr:
						if freshBase(a.X) {
							break
						}
						mark("E:"+typeStr(elemType(a.X.Type())), p.InstrPos(ins))
					case *ssa.Global:
						p.gstores[a] = append(p.gstores[a], ins)
						if !isInit {
							mark("G:"+a.Pkg.Pkg.Name()+"."+a.Name(), p.InstrPos(ins))
						}
					case *ssa.Alloc:
					default:
						// *ptr = v
						t := derefOr(x.Addr.Type())
						if st := structOf(t); st != nil {
							p.markStruct(t, mark, p.InstrPos(ins))
						}
						mark("P:"+typeStr(t), p.InstrPos(ins))
					}
					// whole struct stores through fields or elements
					if st := structOf(derefOr(x.Addr.Type())); st != nil && !freshBase(x.Addr) {
						p.markStruct(derefOr(x.Addr.Type()), mark, p.InstrPos(ins))
					}
				default:
				}
				// address of a field or global passed on: may be written elsewhere
				if v, ok := ins.(ssa.Value); ok {
					switch a := v.(type) {
					case *ssa.FieldAddr:
						if addrLeaks(a) {
							mark("F:"+structKey(a.X.Type())+"."+fmt.Sprint(a.Field), p.InstrPos(ins))
						}
					case *ssa.IndexAddr:
						if addrLeaks(a) {
							mark("E:"+typeStr(elemType(a.X.Type())), p.InstrPos(ins))
						}
					}
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						switch y := ins.(type) {
						case *ssa.Store:
							if y.Addr != g {
								mark("G:"+g.Pkg.Pkg.Name()+"."+g.Name(), p.InstrPos(ins))
							}
						case *ssa.UnOp:
						case *ssa.FieldAddr, *ssa.IndexAddr:
						default:
							if !isInit || !p.inModule(fn) {
								mark("G:"+g.Pkg.Pkg.Name()+"."+g.Name(), p.InstrPos(ins))
							} else if _, ok := ins.(*ssa.Call); ok {
								// flag.StringVar(&g): written by library code
								mark("G:"+g.Pkg.Pkg.Name()+"."+g.Name(), p.InstrPos(ins))
							}
						}
					}
				}
			}
		}
	}
}

func (p *Prog) markStruct(t types.Type, mark func(string, string), why string) {
	st := structOf(t)
	if st == nil {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		mark("F:"+typeStr(t.Underlying())+"."+fmt.Sprint(i), why)
		p.markStruct(st.Field(i).Type(), mark, why)
	}
}

// freshBase: the object is a local allocation of the same function.
func freshBase(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.MakeSlice:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return false
		}
	}
}

// addrLeaks: an address is used other than to load, store or project.
func addrLeaks(v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if x.Val == v {
				return true
			}
		case *ssa.FieldAddr, *ssa.IndexAddr:
			if addrLeaks(r.(ssa.Value)) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

func (p *Prog) stable(class string) bool {
	switch {
	case strings.HasPrefix(class, "F:"), strings.HasPrefix(class, "G:"):
	case strings.HasPrefix(class, "E:"):
	default:
		return false
	}
	_, bad := p.unst[class]
	return !bad
}

// globalInit evaluates the initial value of a variable that is never
// reassigned, if it is a constant expression over pure functions.
func (p *Prog) globalInit(g *ssa.Global) *Term {
	if g.Pkg == nil || !p.isModPath(g.Pkg.Pkg.Path()) {
		return nil
	}
	if t, ok := p.ginit[g]; ok {
		return t
	}
	p.ginit[g] = nil
	if !p.stable("G:" + g.Pkg.Pkg.Name() + "." + g.Name()) {
		return nil
	}
	st := p.gstores[g]
	if len(st) != 1 {
		return nil
	}
	s := st[0].(*ssa.Store)
	t := p.evalPure(s.Val, 0)
	p.ginit[g] = t
	return t
}

// globalNonNil: the variable is assigned once, when it is initialised, with
// a new error or object; or it is a sentinel error of the standard library.
func (p *Prog) globalNonNil(g *ssa.Global) bool {
	if g.Pkg == nil {
		return false
	}
	if !p.isModPath(g.Pkg.Pkg.Path()) {
		switch g.Pkg.Pkg.Path() + "." + g.Name() {
		case "io.EOF", "io.ErrUnexpectedEOF", "os.ErrNotExist", "os.ErrExist", "io/fs.ErrNotExist", "io/fs.ErrExist":
			return true
		}
		return false
	}
	if !p.stable("G:"+g.Pkg.Pkg.Name()+"."+g.Name()) || len(p.gstores[g]) != 1 {
		return false
	}
	v := p.gstores[g][0].(*ssa.Store).Val
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface, *ssa.MakeMap, *ssa.Alloc, *ssa.MakeClosure, *ssa.Function:
			return true
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.Call:
			if fn := x.Call.StaticCallee(); fn != nil {
				switch fn.String() {
				case "errors.New", "fmt.Errorf":
					return true
				}
			}
		}
		return false
	}
}

func (p *Prog) evalPure(v ssa.Value, d int) *Term {
	if d > 10 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		return mkConst(x)
	case *ssa.MakeInterface:
		if t := p.evalPure(x.X, d+1); t != nil {
			return mkIface(t, x.X.Type())
		}
	case *ssa.ChangeType:
		return p.evalPure(x.X, d+1)
	case *ssa.Call:
		var args []*Term
		if x.Call.IsInvoke() {
			t := p.evalPure(x.Call.Value, d+1)
			if t == nil {
				return nil
			}
			args = append(args, t)
		}
		for _, a := range x.Call.Args {
			t := p.evalPure(a, d+1)
			if t == nil {
				return nil
			}
			args = append(args, t)
		}
		name := ""
		if x.Call.IsInvoke() {
			name = x.Call.Method.FullName()
		} else if fn := x.Call.StaticCallee(); fn != nil && fn.Object() != nil {
			name = fn.Object().(*types.Func).FullName()
		}
		switch name {
		case "reflect.TypeOf":
			if args[0].Op == OpIface {
				return mkT(OpApp, "typeof", 0, x.Type(), false, args[0].Typ, nil, mkT(OpSym, "type:"+typeStr(args[0].Typ), 0, nil, false, args[0].Typ, nil))
			}
		case "(reflect.Type).Elem":
			t := libApp(name, x.Type(), args)
			if t.Aux == "typeof" {
				return t
			}
		}
	}
	return nil
}

// Func finds a package function or method ("T.M" or "*T.M" or "f").
func (p *Prog) Func(rel, name string) *ssa.Function {
	pk := p.Pkg(rel)
	if pk == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		tn := name[:i]
		m := name[i+1:]
		ptr := strings.HasPrefix(tn, "*")
		tn = strings.TrimPrefix(tn, "*")
		ty := pk.Type(tn)
		if ty == nil {
			return nil
		}
		var t types.Type = ty.Type()
		if ptr {
			t = types.NewPointer(t)
		}
		sel := p.Prog.MethodSets.MethodSet(t).Lookup(pk.Pkg, m)
		if sel == nil {
			sel = p.Prog.MethodSets.MethodSet(types.NewPointer(ty.Type())).Lookup(pk.Pkg, m)
		}
		if sel == nil {
			return nil
		}
		return p.Prog.MethodValue(sel)
	}
	return pk.Func(name)
}
