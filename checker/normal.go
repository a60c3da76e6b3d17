package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
	"sync"
)

// Two forms of a loop are rewritten to an equivalent one before the analyses
// see them:
//
//	func f(l []T, x U) R { ... return f(l[1:], y) ... }
//
// a function whose calls of itself are all tail calls that advance a list or
// a position becomes a loop over its parameters, and
//
//	for i := 0; i < n && cond; i++ { body }
//
// where cond has no effect and does not depend on i, becomes
//
//	if cond { for i := 0; i < n; i++ { body; if !cond { break } } }
//
// The rewritten nodes keep the positions of the original ones.
type normaliser struct {
	repo  string
	mu    sync.Mutex
	preds map[string]map[string]bool // directory -> names of plain predicates
}

func (n *normaliser) parseFile(fset *token.FileSet, name string, src []byte) (*ast.File, error) {
	f, err := parser.ParseFile(fset, name, src, parser.AllErrors|parser.ParseComments)
	if err != nil || f == nil || strings.HasSuffix(name, ".pb.go") {
		return f, err
	}
	if r, e := filepath.Rel(n.repo, name); e != nil || strings.HasPrefix(r, "..") {
		return f, err
	}
	preds := n.predicates(filepath.Dir(name))
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			tailLoop(fd)
			rotate(fd.Body, preds)
		}
	}
	return f, err
}

// predicates finds the functions and methods of a directory that only return
// an expression without calls; a name counts only if it is declared once.
func (n *normaliser) predicates(dir string) map[string]bool {
	n.mu.Lock()
	defer n.mu.Unlock()
	if m, ok := n.preds[dir]; ok {
		return m
	}
	m := map[string]bool{}
	n.preds[dir] = m
	count := map[string]int{}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, e.Name()), nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(f, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.Field: // methods of interfaces, fields of function type
				for _, id := range x.Names {
					count[id.Name]++
				}
			case *ast.FuncDecl:
				count[x.Name.Name]++
				if x.Body == nil || len(x.Body.List) != 1 || x.Type.Params.NumFields() > 0 {
					return true
				}
				if r, ok := x.Body.List[0].(*ast.ReturnStmt); ok && len(r.Results) == 1 && plainExpr(r.Results[0], nil) {
					m[x.Name.Name] = true
				}
			}
			return true
		})
	}
	for k := range m {
		if count[k] != 1 {
			delete(m, k)
		}
	}
	return m
}

// plainExpr: evaluating x changes nothing.
func plainExpr(x ast.Expr, preds map[string]bool) bool {
	switch x := x.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.ParenExpr:
		return plainExpr(x.X, preds)
	case *ast.SelectorExpr:
		return plainExpr(x.X, preds)
	case *ast.UnaryExpr:
		return x.Op == token.NOT && plainExpr(x.X, preds)
	case *ast.BinaryExpr:
		switch x.Op {
		case token.LAND, token.LOR, token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return plainExpr(x.X, preds) && plainExpr(x.Y, preds)
		}
	case *ast.CallExpr:
		if len(x.Args) != 0 {
			return false
		}
		switch f := x.Fun.(type) {
		case *ast.SelectorExpr:
			return preds[f.Sel.Name] && plainExpr(f.X, preds)
		}
	}
	return false
}

func copyExpr(x ast.Expr) ast.Expr {
	switch x := x.(type) {
	case *ast.Ident:
		c := *x
		return &c
	case *ast.BasicLit:
		c := *x
		return &c
	case *ast.ParenExpr:
		c := *x
		c.X = copyExpr(x.X)
		return &c
	case *ast.SelectorExpr:
		c := *x
		c.X = copyExpr(x.X)
		c.Sel = copyExpr(x.Sel).(*ast.Ident)
		return &c
	case *ast.UnaryExpr:
		c := *x
		c.X = copyExpr(x.X)
		return &c
	case *ast.BinaryExpr:
		c := *x
		c.X, c.Y = copyExpr(x.X), copyExpr(x.Y)
		return &c
	case *ast.CallExpr:
		c := *x
		c.Fun = copyExpr(x.Fun)
		return &c
	}
	return x
}

func mentions(x ast.Node, names map[string]bool) bool {
	found := false
	ast.Inspect(x, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && names[id.Name] {
			found = true
		}
		return !found
	})
	return found
}

func conjuncts(x ast.Expr) []ast.Expr {
	switch b := x.(type) {
	case *ast.ParenExpr:
		return conjuncts(b.X)
	case *ast.BinaryExpr:
		if b.Op == token.LAND {
			return append(conjuncts(b.X), conjuncts(b.Y)...)
		}
	}
	return []ast.Expr{x}
}

func conj(l []ast.Expr) ast.Expr {
	x := l[0]
	for _, y := range l[1:] {
		x = &ast.BinaryExpr{X: x, OpPos: y.Pos(), Op: token.LAND, Y: y}
	}
	return x
}

// rotate rewrites the loops in the lists of statements below x.
func rotate(x ast.Node, preds map[string]bool) {
	ast.Inspect(x, func(n ast.Node) bool {
		var list []ast.Stmt
		switch b := n.(type) {
		case *ast.BlockStmt:
			list = b.List
		case *ast.CaseClause:
			list = b.Body
		}
		for i, st := range list {
			if f, ok := st.(*ast.ForStmt); ok {
				if r := rotated(f, preds); r != nil {
					list[i] = r
				}
			}
		}
		return true
	})
}

func rotated(f *ast.ForStmt, preds map[string]bool) ast.Stmt {
	if f.Cond == nil || f.Post == nil {
		return nil
	}
	moved := map[string]bool{}
	assigned := func(st ast.Stmt) bool {
		switch st := st.(type) {
		case nil:
		case *ast.IncDecStmt:
			id, ok := st.X.(*ast.Ident)
			if !ok {
				return false
			}
			moved[id.Name] = true
		case *ast.AssignStmt:
			for _, l := range st.Lhs {
				id, ok := l.(*ast.Ident)
				if !ok {
					return false
				}
				moved[id.Name] = true
			}
		default:
			return false
		}
		return true
	}
	if !assigned(f.Init) || !assigned(f.Post) {
		return nil
	}
	var head, tail []ast.Expr
	for _, c := range conjuncts(f.Cond) {
		if plainExpr(c, preds) && !mentions(c, moved) {
			tail = append(tail, c)
		} else {
			head = append(head, c)
		}
	}
	if len(head) == 0 || len(tail) == 0 {
		return nil
	}
	// the test at the end must be reached by every iteration that goes on
	skips := false
	var scan func(n ast.Node, inner bool)
	scan = func(n ast.Node, inner bool) {
		ast.Inspect(n, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ForStmt:
				if x != n {
					scan(x.Body, true)
					return false
				}
			case *ast.RangeStmt:
				if x != n {
					scan(x.Body, true)
					return false
				}
			case *ast.BranchStmt:
				if x.Label != nil || x.Tok == token.CONTINUE && !inner {
					skips = true
				}
			case *ast.LabeledStmt:
				skips = true
			}
			return true
		})
	}
	scan(f.Body, false)
	if skips {
		return nil
	}
	c1, c2 := conj(tail), copyExpr(conj(tail))
	end := f.Body.Rbrace
	stop := &ast.IfStmt{If: end, Cond: &ast.UnaryExpr{OpPos: end, Op: token.NOT, X: &ast.ParenExpr{Lparen: end, X: c2, Rparen: end}},
		Body: &ast.BlockStmt{Lbrace: end, List: []ast.Stmt{&ast.BranchStmt{TokPos: end, Tok: token.BREAK}}, Rbrace: end}}
	f.Cond = conj(head)
	f.Body = &ast.BlockStmt{Lbrace: f.Body.Lbrace, List: []ast.Stmt{f.Body, stop}, Rbrace: end}
	return &ast.IfStmt{If: f.For, Cond: c1, Body: &ast.BlockStmt{Lbrace: f.For, List: []ast.Stmt{f}, Rbrace: end}}
}

// tailLoop turns tail recursion into a loop.
func tailLoop(fd *ast.FuncDecl) {
	if fd.Type.Results.NumFields() == 0 || fd.Type.TypeParams != nil {
		return
	}
	for _, r := range fd.Type.Results.List {
		if len(r.Names) > 0 {
			return
		}
	}
	recv := ""
	if fd.Recv != nil {
		if len(fd.Recv.List) != 1 || len(fd.Recv.List[0].Names) != 1 {
			return
		}
		recv = fd.Recv.List[0].Names[0].Name
	}
	var params []*ast.Ident
	for _, p := range fd.Type.Params.List {
		if _, ok := p.Type.(*ast.Ellipsis); ok || len(p.Names) == 0 {
			return
		}
		params = append(params, p.Names...)
	}
	own := map[string]*ast.Object{}
	for _, p := range params {
		own[p.Name] = p.Obj
	}
	if recv != "" {
		own[recv] = fd.Recv.List[0].Names[0].Obj
	}
	isSelf := func(c *ast.CallExpr) bool {
		switch f := c.Fun.(type) {
		case *ast.Ident:
			return fd.Recv == nil && f.Name == fd.Name.Name
		case *ast.SelectorExpr:
			id, ok := f.X.(*ast.Ident)
			return fd.Recv != nil && f.Sel.Name == fd.Name.Name && ok && id.Name == recv
		}
		return false
	}
	bad, selves, tails := false, 0, 0
	advances := func(a ast.Expr) bool {
		switch a := a.(type) {
		case *ast.SliceExpr:
			id, ok := a.X.(*ast.Ident)
			return ok && own[id.Name] != nil
		case *ast.BinaryExpr:
			id, ok := a.X.(*ast.Ident)
			lit, okL := a.Y.(*ast.BasicLit)
			return ok && okL && a.Op == token.ADD && lit.Value == "1" && own[id.Name] != nil
		}
		return false
	}
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit, *ast.DeferStmt, *ast.GoStmt, *ast.LabeledStmt:
			bad = true
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				if id, ok := x.X.(*ast.Ident); ok && own[id.Name] != nil {
					bad = true
				}
			}
		case *ast.Ident:
			if o, ok := own[x.Name]; ok && x.Obj != nil && x.Obj != o {
				bad = true // another variable of the same name
			}
		case *ast.CallExpr:
			if isSelf(x) {
				selves++
			}
		case *ast.ReturnStmt:
			if len(x.Results) == 1 {
				if c, ok := x.Results[0].(*ast.CallExpr); ok && isSelf(c) && len(c.Args) == len(params) {
					adv := false
					for _, a := range c.Args {
						adv = adv || advances(a)
					}
					if adv {
						tails++
					}
				}
			}
		}
		return !bad
	})
	for _, p := range params {
		bad = bad || p.Name == "_"
	}
	if bad || selves == 0 || selves != tails {
		return
	}
	const label = "again"
	var stmt func(st ast.Stmt) ast.Stmt
	list := func(l []ast.Stmt) {
		for i := range l {
			l[i] = stmt(l[i])
		}
	}
	stmt = func(st ast.Stmt) ast.Stmt {
		switch x := st.(type) {
		case *ast.ReturnStmt:
			if len(x.Results) != 1 {
				return st
			}
			c, ok := x.Results[0].(*ast.CallExpr)
			if !ok || !isSelf(c) {
				return st
			}
			pos := x.Return
			as := &ast.AssignStmt{TokPos: pos, Tok: token.ASSIGN}
			for i, a := range c.Args {
				if id, ok := a.(*ast.Ident); ok && id.Name == params[i].Name {
					continue
				}
				as.Lhs = append(as.Lhs, &ast.Ident{NamePos: pos, Name: params[i].Name, Obj: params[i].Obj})
				as.Rhs = append(as.Rhs, a)
			}
			return &ast.BlockStmt{Lbrace: pos, List: []ast.Stmt{as, &ast.BranchStmt{TokPos: pos, Tok: token.CONTINUE, Label: &ast.Ident{NamePos: pos, Name: label}}}, Rbrace: pos}
		case *ast.BlockStmt:
			list(x.List)
		case *ast.IfStmt:
			list(x.Body.List)
			if x.Else != nil {
				x.Else = stmt(x.Else)
			}
		case *ast.ForStmt:
			list(x.Body.List)
		case *ast.RangeStmt:
			list(x.Body.List)
		case *ast.SwitchStmt:
			list(x.Body.List)
		case *ast.TypeSwitchStmt:
			list(x.Body.List)
		case *ast.SelectStmt:
			list(x.Body.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		}
		return st
	}
	list(fd.Body.List)
	pos := fd.Body.Lbrace
	loop := &ast.ForStmt{For: pos, Body: &ast.BlockStmt{Lbrace: pos, List: fd.Body.List, Rbrace: fd.Body.Rbrace}}
	fd.Body.List = []ast.Stmt{&ast.LabeledStmt{Label: &ast.Ident{NamePos: pos, Name: label}, Colon: pos, Stmt: loop}}
}
