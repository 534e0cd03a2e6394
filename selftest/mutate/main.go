// mutate lists and applies mechanical changes of a Go file.
//
//	mutate FILE            number of mutants
//	mutate FILE N          description of mutant N; writes it to stdout
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	pos   token.Pos
	desc  string
	apply func()
}

var swapOp = map[token.Token][]token.Token{
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL},
	token.LSS: {token.LEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ}, token.GEQ: {token.GTR},
	token.ADD: {token.SUB}, token.SUB: {token.ADD},
	token.LAND: {token.LOR}, token.LOR: {token.LAND},
}

func main() {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], nil, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var ms []mut
	add := func(p token.Pos, d string, a func()) { ms = append(ms, mut{p, d, a}) }
	stmts := func(l *[]ast.Stmt) {
		for i, s := range *l {
			i := i
			switch s := s.(type) {
			case *ast.ExprStmt:
				add(s.Pos(), "delete call", func() { *l = append(append([]ast.Stmt{}, (*l)[:i]...), (*l)[i+1:]...) })
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					add(s.Pos(), "delete assignment", func() { *l = append(append([]ast.Stmt{}, (*l)[:i]...), (*l)[i+1:]...) })
				}
			case *ast.IncDecStmt:
				add(s.Pos(), "delete step", func() { *l = append(append([]ast.Stmt{}, (*l)[:i]...), (*l)[i+1:]...) })
			case *ast.BranchStmt:
				if s.Tok == token.BREAK && s.Label == nil {
					add(s.Pos(), "break to continue", func() { s.Tok = token.CONTINUE })
				}
			case *ast.IfStmt:
				if s.Else == nil {
					add(s.Pos(), "delete if", func() { *l = append(append([]ast.Stmt{}, (*l)[:i]...), (*l)[i+1:]...) })
				}
			}
			if i+1 < len(*l) {
				_, a := s.(*ast.ExprStmt)
				_, b := (*l)[i+1].(*ast.ExprStmt)
				as, c := s.(*ast.AssignStmt)
				if (a || c && as.Tok != token.DEFINE) && b {
					add(s.Pos(), "swap statements", func() { (*l)[i], (*l)[i+1] = (*l)[i+1], (*l)[i] })
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			return n.Tok == token.VAR
		case *ast.BlockStmt:
			stmts(&n.List)
		case *ast.CaseClause:
			stmts(&n.Body)
			if len(n.List) > 1 {
				add(n.Pos(), "drop last case value", func() { n.List = n.List[:len(n.List)-1] })
			}
		case *ast.BinaryExpr:
			for _, op := range swapOp[n.Op] {
				old := n.Op
				op := op
				add(n.OpPos, old.String()+" to "+op.String(), func() { n.Op = op })
			}
		case *ast.BasicLit:
			switch n.Kind {
			case token.INT:
				v, _ := strconv.Atoi(n.Value)
				add(n.Pos(), "constant +1", func() { n.Value = strconv.Itoa(v + 1) })
				if v > 0 {
					add(n.Pos(), "constant -1", func() { n.Value = strconv.Itoa(v - 1) })
				}
			case token.STRING:
				s, _ := strconv.Unquote(n.Value)
				if s != "" {
					add(n.Pos(), "shorter string", func() { n.Value = strconv.Quote(s[:len(s)-1]) })
				}
			}
		case *ast.Ident:
			switch n.Name {
			case "true":
				add(n.Pos(), "true to false", func() { n.Name = "false" })
			case "false":
				add(n.Pos(), "false to true", func() { n.Name = "true" })
			}
		case *ast.IfStmt:
			add(n.Cond.Pos(), "negate condition", func() { n.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: n.Cond}} })
		case *ast.CallExpr:
			for i := 0; i+1 < len(n.Args); i++ {
				i := i
				add(n.Args[i].Pos(), "swap arguments", func() { n.Args[i], n.Args[i+1] = n.Args[i+1], n.Args[i] })
			}
		case *ast.ReturnStmt:
			if len(n.Results) == 1 {
				if id, ok := n.Results[0].(*ast.Ident); !ok || id.Name != "nil" {
					add(n.Pos(), "return nil", func() { n.Results[0] = ast.NewIdent("nil") })
				}
			}
		case *ast.KeyValueExpr:
			add(n.Pos(), "drop field", func() { n.Value = &ast.CallExpr{Fun: ast.NewIdent("zz"), Args: nil} })
		}
		return true
	})
	if len(os.Args) == 2 {
		fmt.Println(len(ms))
		return
	}
	k, _ := strconv.Atoi(os.Args[2])
	m := ms[k]
	fmt.Fprintf(os.Stderr, "%s %s\n", fset.Position(m.pos), m.desc)
	m.apply()
	var b bytes.Buffer
	if err := format.Node(&b, fset, f); err != nil {
		panic(err)
	}
	os.Stdout.Write(b.Bytes())
}
