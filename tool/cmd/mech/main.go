// mech rewrites a tree mechanically, everywhere at once, without changing what
// it does: edits for the self test of the comparison.
//
//	mech DIR KIND [SEED]	rewrites the Go files of DIR in place
//	mech kinds		lists the kinds
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"hash/fnv"
	"os"
	"sort"
	"strconv"
	"strings"

	"verif/load"
)

type rewriter struct {
	p    *load.Package
	file *ast.File
	fn   *ast.FuncDecl
	n    int
	add  []ast.Decl
	done int
	seed int
}

var kinds = map[string]func(*rewriter){}

func main() {
	if os.Args[1] == "kinds" {
		var ks []string
		for k := range kinds {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Println(strings.Join(ks, "\n"))
		return
	}
	prog, err := load.Load(os.Args[1])
	if err != nil {
		panic(err)
	}
	seed := 0
	if len(os.Args) > 3 {
		seed, _ = strconv.Atoi(os.Args[3])
	}
	total := 0
	for _, p := range prog.Packages {
		for _, f := range p.Files {
			name := prog.Fset.Position(f.Pos()).Filename
			if strings.HasSuffix(name, "_test.go") {
				continue
			}
			r := &rewriter{p: p, file: f, seed: seed}
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
					r.fn = fd
					r.n = 0
					kinds[os.Args[2]](r)
				}
			}
			f.Decls = append(f.Decls, r.add...)
			total += r.done
			if r.done == 0 {
				continue
			}
			f.Comments = nil
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					d.Doc = nil
				case *ast.GenDecl:
					d.Doc = nil
				}
			}
			var b bytes.Buffer
			if err := format.Node(&b, prog.Fset, f); err != nil {
				panic(err)
			}
			if err := os.WriteFile(name, b.Bytes(), 0644); err != nil {
				panic(err)
			}
		}
	}
	fmt.Println(os.Args[2], total, "edits")
}

// pick: with a seed, only about a third of the places.
func (r *rewriter) pick() bool {
	r.n++
	if r.seed != 0 {
		h := fnv.New32a()
		fmt.Fprintf(h, "%s %d %d", r.fn.Name.Name, r.n, r.seed)
		if h.Sum32()%3 != 0 {
			return false
		}
	}
	r.done++
	return true
}

func (r *rewriter) fresh(s string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("%s%d_", s, r.n))
}

// lists calls f on all statement lists, innermost first; f may replace them.
func (r *rewriter) lists(f func(l []ast.Stmt) []ast.Stmt) {
	var visit func(n ast.Node)
	visit = func(n ast.Node) {
		ast.Inspect(n, func(c ast.Node) bool {
			if c == n || c == nil {
				return true
			}
			switch c := c.(type) {
			case *ast.BlockStmt:
				visit(c)
				return false
			case *ast.CaseClause:
				visit(c)
				return false
			}
			return true
		})
		switch n := n.(type) {
		case *ast.BlockStmt:
			if len(n.List) > 0 {
				if _, ok := n.List[0].(*ast.CaseClause); !ok {
					n.List = f(n.List)
				}
			}
		case *ast.CaseClause:
			n.Body = f(n.Body)
		}
	}
	visit(r.fn.Body)
}

func (r *rewriter) each(f func(s ast.Stmt) []ast.Stmt) {
	r.lists(func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			if x := f(s); x != nil {
				out = append(out, x...)
			} else {
				out = append(out, s)
			}
		}
		return out
	})
}

func define(id ast.Expr, e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
}

func not(e ast.Expr) ast.Expr {
	return &ast.UnaryExpr{Op: token.NOT, X: paren(e)}
}

func paren(e ast.Expr) ast.Expr {
	switch e.(type) {
	case *ast.Ident, *ast.CallExpr, *ast.ParenExpr, *ast.SelectorExpr, *ast.IndexExpr:
		return e
	}
	return &ast.ParenExpr{X: e}
}

func block(l ...ast.Stmt) *ast.BlockStmt { return &ast.BlockStmt{List: l} }

func ends(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	switch s := l[len(l)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.ExprStmt:
		c, ok := s.X.(*ast.CallExpr)
		if !ok {
			return false
		}
		id, ok := c.Fun.(*ast.Ident)
		return ok && id.Name == "panic"
	}
	return false
}

func hasCall(n ast.Node) bool {
	y := false
	ast.Inspect(n, func(c ast.Node) bool {
		switch c := c.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			y = true
		case *ast.UnaryExpr:
			y = y || c.Op == token.ARROW
		}
		return true
	})
	return y
}

func has(n ast.Node, f func(ast.Node) bool) bool {
	y := false
	ast.Inspect(n, func(c ast.Node) bool {
		if c != nil && f(c) {
			y = true
		}
		return !y
	})
	return y
}

func isFuncLit(n ast.Node) bool { _, ok := n.(*ast.FuncLit); return ok }

func declares(l []ast.Stmt) bool {
	for _, s := range l {
		switch s := s.(type) {
		case *ast.DeclStmt:
			return true
		case *ast.AssignStmt:
			if s.Tok == token.DEFINE {
				return true
			}
		}
	}
	return false
}

// escapes: jumps out of the statements.
func escapes(n ast.Node) bool {
	y := false
	var visit func(n ast.Node, loop, sw bool)
	visit = func(n ast.Node, loop, sw bool) {
		ast.Inspect(n, func(c ast.Node) bool {
			if c == n {
				return true
			}
			switch c := c.(type) {
			case *ast.ReturnStmt, *ast.LabeledStmt, *ast.DeferStmt, *ast.GoStmt:
				y = true
			case *ast.BranchStmt:
				if c.Label != nil || c.Tok == token.GOTO || c.Tok == token.CONTINUE && !loop || c.Tok == token.BREAK && !loop && !sw || c.Tok == token.FALLTHROUGH {
					y = true
				}
			case *ast.ForStmt, *ast.RangeStmt:
				visit(c, true, true)
				return false
			case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				visit(c, loop, true)
				return false
			}
			return true
		})
	}
	switch n.(type) {
	case *ast.ForStmt, *ast.RangeStmt:
		visit(n, true, true)
	default:
		visit(n, false, false)
	}
	return y
}

// free are the local variables that are used in the nodes but declared outside,
// and those among them that are assigned to.
func (r *rewriter) free(ns ...ast.Node) (vars, set []*types.Var) {
	in := map[*types.Var]bool{}
	for _, n := range ns {
		ast.Inspect(n, func(c ast.Node) bool {
			if id, ok := c.(*ast.Ident); ok {
				if v, ok := r.p.Info.Defs[id].(*types.Var); ok {
					in[v] = true
				}
			}
			if cc, ok := c.(*ast.CaseClause); ok {
				if v, ok := r.p.Info.Implicits[cc].(*types.Var); ok {
					in[v] = true
				}
			}
			return true
		})
	}
	seen, assigned := map[*types.Var]bool{}, map[*types.Var]bool{}
	v := func(e ast.Expr) *types.Var {
		for {
			if p, ok := e.(*ast.ParenExpr); ok {
				e = p.X
				continue
			}
			// a field or element of a variable of struct or array type
			if s, ok := e.(*ast.SelectorExpr); ok {
				if t := r.p.Info.TypeOf(s.X); t != nil {
					if _, ok := t.Underlying().(*types.Struct); ok {
						e = s.X
						continue
					}
				}
			}
			break
		}
		id, ok := e.(*ast.Ident)
		if !ok {
			return nil
		}
		x, ok := r.p.Info.Uses[id].(*types.Var)
		if !ok || in[x] || x.IsField() || x.Parent() == r.p.Types.Scope() || x.Pkg() != r.p.Types {
			return nil
		}
		return x
	}
	mark := func(e ast.Expr) {
		if x := v(e); x != nil && !assigned[x] {
			assigned[x] = true
			set = append(set, x)
		}
	}
	for _, n := range ns {
		ast.Inspect(n, func(c ast.Node) bool {
			switch c := c.(type) {
			case *ast.Ident:
				if x := v(c); x != nil && !seen[x] {
					seen[x] = true
					vars = append(vars, x)
				}
			case *ast.AssignStmt:
				for _, l := range c.Lhs {
					mark(l)
				}
			case *ast.IncDecStmt:
				mark(c.X)
			case *ast.UnaryExpr:
				if c.Op == token.AND {
					mark(c.X)
				}
			case *ast.RangeStmt:
				if c.Tok == token.ASSIGN {
					mark(c.Key)
					mark(c.Value)
				}
			}
			return true
		})
	}
	return
}

// typeExpr is the type as the file writes it; nil if it cannot.
func (r *rewriter) typeExpr(t types.Type) ast.Expr {
	ok := true
	s := types.TypeString(t, func(p *types.Package) string {
		if p == r.p.Types {
			return ""
		}
		for _, im := range r.file.Imports {
			if strings.Trim(im.Path.Value, `"`) == p.Path() {
				if im.Name != nil {
					return im.Name.Name
				}
				return p.Name()
			}
		}
		ok = false
		return p.Name()
	})
	if !ok || strings.Contains(s, "untyped") {
		return nil
	}
	for _, w := range strings.FieldsFunc(s, func(c rune) bool {
		return c != '_' && (c < '0' || c > '9') && (c < 'A' || c > 'Z') && (c < 'a' || c > 'z')
	}) {
		if has(r.fn, func(n ast.Node) bool { // shadowed
			id, ok := n.(*ast.Ident)
			return ok && id.Name == w && r.p.Info.Defs[id] != nil && id != r.fn.Name
		}) {
			return nil
		}
	}
	return ast.NewIdent(s)
}

// helper makes a function of the statements and gives the call.
func (r *rewriter) helper(what string, body []ast.Stmt, vars []*types.Var, results *ast.FieldList) *ast.CallExpr {
	r.n++
	name := fmt.Sprintf("%s_%s%d", strings.Title(r.fn.Name.Name), what, r.n)
	name = strings.ToLower(name[:1]) + name[1:]
	fd := &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}, Results: results}, Body: block(body...)}
	call := &ast.CallExpr{Fun: ast.NewIdent(name)}
	var recv *types.Var
	if r.fn.Recv != nil && len(r.fn.Recv.List[0].Names) == 1 {
		recv, _ = r.p.Info.Defs[r.fn.Recv.List[0].Names[0]].(*types.Var)
	}
	if recv != nil {
		fd.Recv = r.fn.Recv
		call.Fun = &ast.SelectorExpr{X: ast.NewIdent(recv.Name()), Sel: ast.NewIdent(name)}
	} else if r.fn.Recv != nil {
		name = fmt.Sprintf("%s_%d", name, r.fn.Pos())
		fd.Name, call.Fun = ast.NewIdent(name), ast.NewIdent(name)
	}
	for _, v := range vars {
		if v == recv {
			continue
		}
		t := r.typeExpr(v.Type())
		if t == nil {
			return nil
		}
		fd.Type.Params.List = append(fd.Type.Params.List, &ast.Field{Names: []*ast.Ident{ast.NewIdent(v.Name())}, Type: t})
		call.Args = append(call.Args, ast.NewIdent(v.Name()))
	}
	r.add = append(r.add, fd)
	return call
}

func nodes(l []ast.Stmt) []ast.Node {
	var out []ast.Node
	for _, s := range l {
		out = append(out, s)
	}
	return out
}

func (r *rewriter) namedResults() bool {
	return r.fn.Type.Results != nil && len(r.fn.Type.Results.List) > 0 && len(r.fn.Type.Results.List[0].Names) > 0
}

func (r *rewriter) str(n ast.Node) string {
	var b bytes.Buffer
	format.Node(&b, token.NewFileSet(), n)
	return b.String()
}
