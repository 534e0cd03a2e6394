package main

import (
	"go/ast"
	"go/token"
	"go/types"
)

func plainIf(s ast.Stmt) *ast.IfStmt {
	x, ok := s.(*ast.IfStmt)
	if !ok || x.Init != nil {
		return nil
	}
	return x
}

func isRecover(r *rewriter) bool {
	return has(r.fn.Body, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		return ok && id.Name == "recover"
	})
}

func init() {
	kinds["hoistcond"] = func(r *rewriter) {
		r.each(func(s ast.Stmt) []ast.Stmt {
			x := plainIf(s)
			if x == nil || !r.pick() {
				return nil
			}
			id := r.fresh("ok")
			d := define(id, x.Cond)
			x.Cond = ast.NewIdent(id.Name)
			return []ast.Stmt{d, x}
		})
	}
	kinds["invert"] = func(r *rewriter) {
		r.each(func(s ast.Stmt) []ast.Stmt {
			x := plainIf(s)
			if x == nil || x.Else == nil || !r.pick() {
				return nil
			}
			b, ok := x.Else.(*ast.BlockStmt)
			if !ok {
				b = block(x.Else)
			}
			return []ast.Stmt{&ast.IfStmt{Cond: not(x.Cond), Body: b, Else: x.Body}}
		})
	}
	kinds["nestelse"] = func(r *rewriter) {
		ast.Inspect(r.fn.Body, func(n ast.Node) bool {
			if x, ok := n.(*ast.IfStmt); ok {
				if e, ok := x.Else.(*ast.IfStmt); ok && r.pick() {
					x.Else = block(e)
				}
			}
			return true
		})
	}
	kinds["splitand"] = func(r *rewriter) {
		r.each(func(s ast.Stmt) []ast.Stmt {
			x := plainIf(s)
			if x == nil || x.Else != nil {
				return nil
			}
			b, ok := x.Cond.(*ast.BinaryExpr)
			if !ok || b.Op != token.LAND || !r.pick() {
				return nil
			}
			return []ast.Stmt{&ast.IfStmt{Cond: b.X, Body: block(&ast.IfStmt{Cond: b.Y, Body: x.Body})}}
		})
	}
	kinds["joinand"] = func(r *rewriter) {
		r.each(func(s ast.Stmt) []ast.Stmt {
			x := plainIf(s)
			if x == nil || x.Else != nil || len(x.Body.List) != 1 {
				return nil
			}
			y := plainIf(x.Body.List[0])
			if y == nil || y.Else != nil || !r.pick() {
				return nil
			}
			return []ast.Stmt{&ast.IfStmt{Cond: &ast.BinaryExpr{X: paren(x.Cond), Op: token.LAND, Y: paren(y.Cond)}, Body: y.Body}}
		})
	}
	kinds["loopbreak"] = func(r *rewriter) {
		ast.Inspect(r.fn.Body, func(n ast.Node) bool {
			x, ok := n.(*ast.ForStmt)
			if !ok || x.Cond == nil || r.str(x.Cond) == "true" || !r.pick() {
				return true
			}
			x.Body.List = append([]ast.Stmt{&ast.IfStmt{Cond: not(x.Cond), Body: block(&ast.BranchStmt{Tok: token.BREAK})}}, x.Body.List...)
			x.Cond = nil
			return true
		})
	}
	kinds["retvar"] = func(r *rewriter) {
		r.each(func(s ast.Stmt) []ast.Stmt {
			x, ok := s.(*ast.ReturnStmt)
			if !ok || len(x.Results) != 1 {
				return nil
			}
			tv := r.p.Info.Types[x.Results[0]]
			if _, ok := tv.Type.(*types.Tuple); ok || tv.Value != nil || tv.IsNil() {
				return nil
			}
			if _, ok := x.Results[0].(*ast.Ident); ok || !r.pick() {
				return nil
			}
			id := r.fresh("ret")
			return []ast.Stmt{define(id, x.Results[0]), &ast.ReturnStmt{Results: []ast.Expr{ast.NewIdent(id.Name)}}}
		})
	}
	kinds["elsereturn"] = func(r *rewriter) {
		r.lists(func(l []ast.Stmt) []ast.Stmt {
			for i := len(l) - 2; i >= 0; i-- {
				x := plainIf(l[i])
				if x == nil || x.Else != nil || !ends(x.Body.List) || !ends(l[len(l)-1:]) && i > len(l)-2 || !r.pick() {
					continue
				}
				if r.fn.Type.Results != nil && !ends(l) {
					if _, ok := l[len(l)-1].(*ast.IfStmt); !ok || i == 0 {
						continue
					}
				}
				x.Else = block(append([]ast.Stmt{}, l[i+1:]...)...)
				l = l[:i+1]
			}
			return l
		})
	}
	kinds["unelse"] = func(r *rewriter) {
		r.each(func(s ast.Stmt) []ast.Stmt {
			x := plainIf(s)
			if x == nil || x.Else == nil || !ends(x.Body.List) || !r.pick() {
				return nil
			}
			e := x.Else
			x.Else = nil
			if b, ok := e.(*ast.BlockStmt); ok && !declares(b.List) {
				return append([]ast.Stmt{x}, b.List...)
			}
			return []ast.Stmt{x, e}
		})
	}
	swap := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
	kinds["flip"] = func(r *rewriter) {
		ast.Inspect(r.fn.Body, func(n ast.Node) bool {
			x, ok := n.(*ast.BinaryExpr)
			if !ok || swap[x.Op] == 0 || hasCall(x.X) && hasCall(x.Y) || !r.pick() {
				return true
			}
			x.X, x.Y, x.Op = x.Y, x.X, swap[x.Op]
			return true
		})
	}
	kinds["demorgan"] = func(r *rewriter) {
		r.each(func(s ast.Stmt) []ast.Stmt {
			x := plainIf(s)
			if x == nil {
				return nil
			}
			b, ok := x.Cond.(*ast.BinaryExpr)
			if !ok || b.Op != token.LAND && b.Op != token.LOR || !r.pick() {
				return nil
			}
			op := token.LOR
			if b.Op == token.LOR {
				op = token.LAND
			}
			x.Cond = not(&ast.BinaryExpr{X: not(b.X), Op: op, Y: not(b.Y)})
			return []ast.Stmt{x}
		})
	}
	kinds["incdec"] = func(r *rewriter) {
		r.each(func(s ast.Stmt) []ast.Stmt {
			if x, ok := s.(*ast.IncDecStmt); ok && r.pick() {
				op := token.ADD_ASSIGN
				if x.Tok == token.DEC {
					op = token.SUB_ASSIGN
				}
				return []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{x.X}, Tok: op, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "1"}}}}
			}
			if x, ok := s.(*ast.AssignStmt); ok && x.Tok == token.ADD_ASSIGN && !hasCall(x.Lhs[0]) && r.pick() {
				return []ast.Stmt{&ast.AssignStmt{Lhs: x.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: x.Lhs[0], Op: token.ADD, Y: paren(x.Rhs[0])}}}}
			}
			return nil
		})
	}
	kinds["rename"] = func(r *rewriter) {
		ren := func(id *ast.Ident, o types.Object) {
			if v, ok := o.(*types.Var); ok && !v.IsField() && v.Parent() != r.p.Types.Scope() && v.Pkg() == r.p.Types && id.Name != "_" {
				id.Name += "X"
				r.done++
			}
		}
		ast.Inspect(r.fn, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if o := r.p.Info.Defs[id]; o != nil {
					ren(id, o)
				} else if o := r.p.Info.Uses[id]; o != nil {
					ren(id, o)
				} else if id.Name != "_" { // of a type switch
					for cc, o := range r.p.Info.Implicits {
						if _, ok := cc.(*ast.CaseClause); ok && o.Name() == id.Name && o.Pos() == id.Pos() {
							id.Name += "X"
							break
						}
					}
				}
			}
			return true
		})
	}
	kinds["define"] = func(r *rewriter) {
		r.each(func(s ast.Stmt) []ast.Stmt {
			d, ok := s.(*ast.DeclStmt)
			if !ok {
				return nil
			}
			g := d.Decl.(*ast.GenDecl)
			if g.Tok != token.VAR || len(g.Specs) != 1 {
				return nil
			}
			v := g.Specs[0].(*ast.ValueSpec)
			if len(v.Values) == 0 || v.Type != nil || v.Names[0].Name == "_" || !r.pick() {
				return nil
			}
			var l []ast.Expr
			for _, n := range v.Names {
				l = append(l, n)
			}
			return []ast.Stmt{&ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: v.Values}}
		})
	}
	kinds["declfirst"] = func(r *rewriter) { // var x T; x = e
		r.each(func(s ast.Stmt) []ast.Stmt {
			var id *ast.Ident
			var e ast.Expr
			switch s := s.(type) {
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE || len(s.Lhs) != 1 {
					return nil
				}
				id, e = s.Lhs[0].(*ast.Ident), s.Rhs[0]
			case *ast.DeclStmt:
				g := s.Decl.(*ast.GenDecl)
				if g.Tok != token.VAR || len(g.Specs) != 1 {
					return nil
				}
				v := g.Specs[0].(*ast.ValueSpec)
				if len(v.Values) != 1 || len(v.Names) != 1 {
					return nil
				}
				id, e = v.Names[0], v.Values[0]
			default:
				return nil
			}
			o := r.p.Info.Defs[id]
			if o == nil || id.Name == "_" {
				return nil
			}
			if has(e, func(n ast.Node) bool { x, ok := n.(*ast.Ident); return ok && x.Name == id.Name }) {
				return nil
			}
			t := r.typeExpr(o.Type())
			if t == nil || !r.pick() {
				return nil
			}
			return []ast.Stmt{
				&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent(id.Name)}, Type: t}}}},
				&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(id.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{e}},
			}
		})
	}
	tail := func(at func(n int) int) func(r *rewriter) {
		return func(r *rewriter) {
			l := r.fn.Body.List
			if len(l) < 3 || r.namedResults() || has(r.fn, isFuncLit) || isRecover(r) || r.fn.Name.Name == "init" || r.fn.Name.Name == "main" || !r.pick() {
				return
			}
			if has(r.fn, func(n ast.Node) bool {
				switch n.(type) {
				case *ast.LabeledStmt, *ast.DeferStmt:
					return true
				}
				return false
			}) {
				return
			}
			k := at(len(l))
			t := append([]ast.Stmt{}, l[k:]...)
			vars, _ := r.free(nodes(t)...)
			call := r.helper("tail", t, vars, r.fn.Type.Results)
			if call == nil {
				return
			}
			var s ast.Stmt = &ast.ExprStmt{X: call}
			if r.fn.Type.Results != nil && len(r.fn.Type.Results.List) > 0 {
				s = &ast.ReturnStmt{Results: []ast.Expr{call}}
			}
			r.fn.Body.List = append(append([]ast.Stmt{}, l[:k]...), s)
		}
	}
	kinds["tail"] = tail(func(n int) int { return n / 2 })
	kinds["tail1"] = tail(func(n int) int { return 1 })
	kinds["taillast"] = tail(func(n int) int { return n - 2 })
	kinds["body"] = func(r *rewriter) {
		r.each(func(s ast.Stmt) []ast.Stmt {
			x := plainIf(s)
			if x == nil || len(x.Body.List) < 2 || escapes(x.Body) || has(x.Body, isFuncLit) {
				return nil
			}
			vars, set := r.free(x.Body)
			if len(set) > 0 || !r.pick() {
				return nil
			}
			if c := r.helper("then", x.Body.List, vars, nil); c != nil {
				x.Body = block(&ast.ExprStmt{X: c})
			}
			return []ast.Stmt{x}
		})
	}
	kinds["cond"] = func(r *rewriter) {
		ast.Inspect(r.fn.Body, func(n ast.Node) bool {
			x, ok := n.(*ast.IfStmt)
			if !ok || x.Init != nil || has(x.Cond, isFuncLit) {
				return true
			}
			b, ok := x.Cond.(*ast.BinaryExpr)
			if !ok || b.Op != token.LAND && b.Op != token.LOR && r.seed == 0 {
				return true
			}
			vars, set := r.free(x.Cond)
			if len(set) > 0 || !r.pick() {
				return true
			}
			c := r.helper("cond", []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{x.Cond}}}, vars, &ast.FieldList{List: []*ast.Field{{Type: ast.NewIdent("bool")}}})
			if c != nil {
				x.Cond = c
			}
			return true
		})
	}
	kinds["loopfn"] = func(r *rewriter) {
		r.each(func(s ast.Stmt) []ast.Stmt {
			switch s.(type) {
			case *ast.ForStmt, *ast.RangeStmt:
			default:
				return nil
			}
			if escapes(s) || has(s, isFuncLit) {
				return nil
			}
			vars, set := r.free(s)
			if len(set) > 1 || !r.pick() {
				return nil
			}
			if len(set) == 0 {
				if c := r.helper("loop", []ast.Stmt{s}, vars, nil); c != nil {
					return []ast.Stmt{&ast.ExprStmt{X: c}}
				}
				return nil
			}
			t := r.typeExpr(set[0].Type())
			if t == nil {
				return nil
			}
			c := r.helper("loop", []ast.Stmt{s, &ast.ReturnStmt{Results: []ast.Expr{ast.NewIdent(set[0].Name())}}}, vars, &ast.FieldList{List: []*ast.Field{{Type: t}}})
			if c == nil {
				return nil
			}
			return []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(set[0].Name())}, Tok: token.ASSIGN, Rhs: []ast.Expr{c}}}
		})
	}
	kinds["rangeidx"] = func(r *rewriter) {
		r.each(func(s ast.Stmt) []ast.Stmt {
			x, ok := s.(*ast.RangeStmt)
			if !ok || x.Tok != token.DEFINE || hasCall(x.X) || x.Value == nil {
				return nil
			}
			if _, ok := r.p.Info.TypeOf(x.X).Underlying().(*types.Slice); !ok || !r.pick() {
				return nil
			}
			xs := r.fresh("xs")
			k := x.Key.(*ast.Ident).Name
			if k == "_" {
				k = r.fresh("i").Name
			}
			id := func(s string) *ast.Ident { return ast.NewIdent(s) }
			body := x.Body
			if v := x.Value.(*ast.Ident); v.Name != "_" {
				body.List = append([]ast.Stmt{define(id(v.Name), &ast.IndexExpr{X: id(xs.Name), Index: id(k)})}, body.List...)
			}
			return []ast.Stmt{define(xs, x.X), &ast.ForStmt{Init: define(id(k), &ast.BasicLit{Kind: token.INT, Value: "0"}),
				Cond: &ast.BinaryExpr{X: id(k), Op: token.LSS, Y: &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{id(xs.Name)}}},
				Post: &ast.IncDecStmt{X: id(k), Tok: token.INC}, Body: body}}
		})
	}
	kinds["switchif"] = func(r *rewriter) {
		r.each(func(s ast.Stmt) []ast.Stmt {
			x, ok := s.(*ast.SwitchStmt)
			if !ok || x.Init != nil || len(x.Body.List) == 0 {
				return nil
			}
			for _, c := range x.Body.List {
				if y := escapesSwitch(c); y {
					return nil
				}
			}
			if !r.pick() {
				return nil
			}
			var out []ast.Stmt
			var tag ast.Expr
			if x.Tag != nil {
				t := r.fresh("tag")
				out = append(out, define(t, x.Tag))
				tag = t
			}
			var def ast.Stmt
			var first, last *ast.IfStmt
			for _, c := range x.Body.List {
				cc := c.(*ast.CaseClause)
				if cc.List == nil {
					def = block(cc.Body...)
					continue
				}
				var cond ast.Expr
				for _, e := range cc.List {
					if tag != nil {
						e = &ast.BinaryExpr{X: ast.NewIdent(tag.(*ast.Ident).Name), Op: token.EQL, Y: paren(e)}
					}
					if cond == nil {
						cond = e
					} else {
						cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: e}
					}
				}
				i := &ast.IfStmt{Cond: cond, Body: block(cc.Body...)}
				if first == nil {
					first = i
				} else {
					last.Else = i
				}
				last = i
			}
			if first == nil {
				return nil
			}
			last.Else = def
			return append(out, first)
		})
	}
	kinds["ifswitch"] = func(r *rewriter) {
		r.each(func(s ast.Stmt) []ast.Stmt {
			x := plainIf(s)
			if x == nil || x.Else == nil {
				return nil
			}
			if has(x, func(n ast.Node) bool { b, ok := n.(*ast.BranchStmt); return ok && b.Tok == token.BREAK }) {
				return nil
			}
			if _, ok := x.Else.(*ast.IfStmt); !ok {
				return nil
			}
			for y := x; y != nil; {
				if y.Init != nil {
					return nil
				}
				y, _ = y.Else.(*ast.IfStmt)
			}
			if !r.pick() {
				return nil
			}
			sw := &ast.SwitchStmt{Body: block()}
			var e ast.Stmt = x
			for e != nil {
				if y, ok := e.(*ast.IfStmt); ok {
					sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{y.Cond}, Body: y.Body.List})
					e = y.Else
				} else {
					sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: e.(*ast.BlockStmt).List})
					break
				}
			}
			return []ast.Stmt{sw}
		})
	}
	kinds["complit"] = func(r *rewriter) {
		r.each(func(s ast.Stmt) []ast.Stmt {
			x, ok := s.(*ast.AssignStmt)
			if !ok || len(x.Lhs) != 1 || x.Tok != token.DEFINE {
				return nil
			}
			u, ok := x.Rhs[0].(*ast.UnaryExpr)
			if !ok || u.Op != token.AND {
				return nil
			}
			c, ok := u.X.(*ast.CompositeLit)
			if !ok || len(c.Elts) == 0 {
				return nil
			}
			if _, ok := c.Elts[0].(*ast.KeyValueExpr); !ok {
				return nil
			}
			if _, ok := r.p.Info.TypeOf(c).Underlying().(*types.Struct); !ok || !r.pick() {
				return nil
			}
			out := []ast.Stmt{s}
			for _, e := range c.Elts {
				kv := e.(*ast.KeyValueExpr)
				out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(x.Lhs[0].(*ast.Ident).Name), Sel: ast.NewIdent(kv.Key.(*ast.Ident).Name)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{kv.Value}})
			}
			c.Elts = nil
			return out
		})
	}
	kinds["retlit"] = func(r *rewriter) { // return &T{..} by a variable that is filled
		r.each(func(s ast.Stmt) []ast.Stmt {
			x, ok := s.(*ast.ReturnStmt)
			if !ok || len(x.Results) != 1 {
				return nil
			}
			u, ok := x.Results[0].(*ast.UnaryExpr)
			if !ok || u.Op != token.AND {
				return nil
			}
			c, ok := u.X.(*ast.CompositeLit)
			if !ok || len(c.Elts) == 0 {
				return nil
			}
			if _, ok := c.Elts[0].(*ast.KeyValueExpr); !ok || !r.pick() {
				return nil
			}
			id := r.fresh("n")
			out := []ast.Stmt{define(id, &ast.CallExpr{Fun: ast.NewIdent("new"), Args: []ast.Expr{c.Type}})}
			for _, e := range c.Elts {
				kv := e.(*ast.KeyValueExpr)
				out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(id.Name), Sel: ast.NewIdent(kv.Key.(*ast.Ident).Name)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{kv.Value}})
			}
			return append(out, &ast.ReturnStmt{Results: []ast.Expr{ast.NewIdent(id.Name)}})
		})
	}
	kinds["swapstores"] = func(r *rewriter) {
		r.lists(func(l []ast.Stmt) []ast.Stmt {
			for i := 0; i+1 < len(l); i++ {
				a, ok1 := l[i].(*ast.AssignStmt)
				b, ok2 := l[i+1].(*ast.AssignStmt)
				if !ok1 || !ok2 || a.Tok != token.ASSIGN || b.Tok != token.ASSIGN || len(a.Lhs) != 1 || len(b.Lhs) != 1 || hasCall(a) || hasCall(b) {
					continue
				}
				x, ok1 := a.Lhs[0].(*ast.SelectorExpr)
				y, ok2 := b.Lhs[0].(*ast.SelectorExpr)
				if !ok1 || !ok2 || x.Sel.Name == y.Sel.Name {
					continue
				}
				mentions := func(n ast.Node, f string) bool {
					return has(n, func(n ast.Node) bool { s, ok := n.(*ast.SelectorExpr); return ok && s.Sel.Name == f })
				}
				if mentions(b.Rhs[0], x.Sel.Name) || mentions(a.Rhs[0], y.Sel.Name) || mentions(y.X, x.Sel.Name) || mentions(x.X, y.Sel.Name) || !r.pick() {
					continue
				}
				l[i], l[i+1] = l[i+1], l[i]
				i++
			}
			return l
		})
	}
	kinds["argtemp"] = func(r *rewriter) {
		r.each(func(s ast.Stmt) []ast.Stmt {
			var c *ast.CallExpr
			switch s := s.(type) {
			case *ast.ExprStmt:
				c, _ = s.X.(*ast.CallExpr)
			case *ast.ReturnStmt:
				if len(s.Results) == 1 {
					c, _ = s.Results[0].(*ast.CallExpr)
				}
			case *ast.AssignStmt:
				if id, ok := s.Lhs[0].(*ast.Ident); len(s.Rhs) == 1 && len(s.Lhs) == 1 && ok && id.Name != "" {
					c, _ = s.Rhs[0].(*ast.CallExpr)
				}
			}
			if c == nil || c.Ellipsis.IsValid() || !has1(c.Args, hasCall) || hasCall(c.Fun) || !r.pick() {
				return nil
			}
			var out []ast.Stmt
			for i, a := range c.Args {
				tv := r.p.Info.Types[a]
				if tv.Value != nil || tv.IsNil() || tv.IsType() {
					continue
				}
				if _, ok := tv.Type.(*types.Tuple); ok || isFuncLit(a) {
					return nil
				}
				id := r.fresh("arg")
				out = append(out, define(id, a))
				c.Args[i] = ast.NewIdent(id.Name)
			}
			return append(out, s)
		})
	}
	kinds["condtemp"] = func(r *rewriter) {
		r.each(func(s ast.Stmt) []ast.Stmt {
			x := plainIf(s)
			if x == nil {
				return nil
			}
			e := &x.Cond
			for {
				if b, ok := (*e).(*ast.BinaryExpr); ok {
					e = &b.X
				} else if u, ok := (*e).(*ast.UnaryExpr); ok {
					e = &u.X
				} else if p, ok := (*e).(*ast.ParenExpr); ok {
					e = &p.X
				} else {
					break
				}
			}
			if _, ok := (*e).(*ast.CallExpr); !ok || !r.pick() {
				return nil
			}
			id := r.fresh("v")
			d := define(id, *e)
			*e = ast.NewIdent(id.Name)
			return []ast.Stmt{d, x}
		})
	}
	kinds["splitor"] = func(r *rewriter) {
		r.each(func(s ast.Stmt) []ast.Stmt {
			x := plainIf(s)
			if x == nil || x.Else != nil || !ends(x.Body.List) || has(x.Body, isFuncLit) {
				return nil
			}
			b, ok := x.Cond.(*ast.BinaryExpr)
			if !ok || b.Op != token.LOR || !r.pick() {
				return nil
			}
			return []ast.Stmt{&ast.IfStmt{Cond: b.X, Body: x.Body}, &ast.IfStmt{Cond: b.Y, Body: x.Body}}
		})
	}
	kinds["duptail"] = func(r *rewriter) {
		r.lists(func(l []ast.Stmt) []ast.Stmt {
			n := len(l)
			if n < 2 || !ends(l) {
				return l
			}
			x := plainIf(l[n-2])
			if x == nil || has(l[n-1], isFuncLit) {
				return l
			}
			var leaves []*ast.BlockStmt
			for y := x; ; {
				leaves = append(leaves, y.Body)
				if y.Else == nil {
					y.Else = block()
				}
				if b, ok := y.Else.(*ast.BlockStmt); ok {
					leaves = append(leaves, b)
					break
				}
				y = y.Else.(*ast.IfStmt)
				if y.Init != nil {
					return l
				}
			}
			for _, b := range leaves {
				if declares(b.List) {
					return l
				}
			}
			if !r.pick() {
				return l
			}
			for _, b := range leaves {
				if !ends(b.List) {
					b.List = append(b.List, l[n-1])
				}
			}
			return l[:n-1]
		})
	}
	kinds["fortrue"] = func(r *rewriter) {
		ast.Inspect(r.fn.Body, func(n ast.Node) bool {
			if x, ok := n.(*ast.ForStmt); ok && x.Cond != nil && r.str(x.Cond) == "true" && r.pick() {
				x.Cond = nil
			}
			return true
		})
	}
	kinds["continue"] = func(r *rewriter) { // the last if of a loop body becomes a guard
		ast.Inspect(r.fn.Body, func(n ast.Node) bool {
			var b *ast.BlockStmt
			switch x := n.(type) {
			case *ast.ForStmt:
				b = x.Body
			case *ast.RangeStmt:
				b = x.Body
			default:
				return true
			}
			if len(b.List) == 0 {
				return true
			}
			x := plainIf(b.List[len(b.List)-1])
			if x == nil || x.Else != nil || !r.pick() {
				return true
			}
			b.List = append(b.List[:len(b.List)-1], &ast.IfStmt{Cond: not(x.Cond), Body: block(&ast.BranchStmt{Tok: token.CONTINUE})}, block(x.Body.List...))
			return true
		})
	}
	kinds["flag"] = func(r *rewriter) { // breaks of a loop set a flag
		r.each(func(s ast.Stmt) []ast.Stmt {
			x, ok := s.(*ast.ForStmt)
			if !ok || len(x.Body.List) == 0 || x.Cond != nil && r.str(x.Cond) != "true" || x.Post != nil || x.Init != nil {
				return nil
			}
			// for { a; if c { b; break }; d }: for !done { a; if c { b; done = true } else { d } }
			k := -1
			for i, s := range x.Body.List {
				y := plainIf(s)
				if y != nil && y.Else == nil && len(y.Body.List) > 0 {
					if b, ok := y.Body.List[len(y.Body.List)-1].(*ast.BranchStmt); ok && b.Tok == token.BREAK && b.Label == nil {
						k = i
						break
					}
				}
			}
			if k < 0 || !r.pick() {
				return nil
			}
			id := r.fresh("done")
			y := x.Body.List[k].(*ast.IfStmt)
			y.Body.List[len(y.Body.List)-1] = &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(id.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent("true")}}
			if k+1 < len(x.Body.List) {
				y.Else = block(append([]ast.Stmt{}, x.Body.List[k+1:]...)...)
			}
			x.Body.List = x.Body.List[:k+1]
			x.Cond = not(ast.NewIdent(id.Name))
			return []ast.Stmt{define(id, ast.NewIdent("false")), x}
		})
	}
	kinds["alias"] = func(r *rewriter) { // self.reader by a local variable
		if r.fn.Recv == nil || len(r.fn.Recv.List[0].Names) == 0 || len(r.fn.Body.List) == 0 {
			return
		}
		self := r.fn.Recv.List[0].Names[0].Name
		set := has(r.fn.Body, func(n ast.Node) bool {
			a, ok := n.(*ast.AssignStmt)
			if !ok {
				return false
			}
			for _, l := range a.Lhs {
				if s, ok := l.(*ast.SelectorExpr); ok && (s.Sel.Name == "reader" || s.Sel.Name == "tokenizer") {
					return true
				}
			}
			return false
		})
		if set || !r.pick() {
			return
		}
		used := map[string]bool{}
		ast.Inspect(r.fn.Body, func(n ast.Node) bool {
			s, ok := n.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			x, ok := s.X.(*ast.SelectorExpr)
			if !ok || x.Sel.Name != "reader" && x.Sel.Name != "tokenizer" {
				return true
			}
			if id, ok := x.X.(*ast.Ident); ok && id.Name == self {
				used[x.Sel.Name] = true
				s.X = ast.NewIdent(x.Sel.Name + "_")
			}
			return true
		})
		for _, f := range []string{"reader", "tokenizer"} {
			if used[f] {
				r.fn.Body.List = append([]ast.Stmt{define(ast.NewIdent(f+"_"), &ast.SelectorExpr{X: ast.NewIdent(self), Sel: ast.NewIdent(f)})}, r.fn.Body.List...)
			}
		}
	}
}

func has1(es []ast.Expr, f func(ast.Node) bool) bool {
	for _, e := range es {
		if f(e) {
			return true
		}
	}
	return false
}

// escapesSwitch: a break of the switch, or fallthrough.
func escapesSwitch(n ast.Node) bool {
	y := false
	ast.Inspect(n, func(c ast.Node) bool {
		switch c := c.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
			return false
		case *ast.BranchStmt:
			if c.Tok == token.BREAK && c.Label == nil || c.Tok == token.FALLTHROUGH {
				y = true
			}
		}
		return true
	})
	return y
}
