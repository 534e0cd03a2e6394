package rel

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"verif/load"
)

// Datum is the initial value of a package variable, as far as its initialiser
// tells: literals, constants and calls are evaluated structurally.
type Datum struct {
	Kind  string // const, nil, ptr, struct, list, map, call, var, func, other
	Text  string
	Keys  []string // of struct fields and map entries, sorted
	Elems []*Datum
	Pos   token.Pos
}

// DataVar is a package variable.
type DataVar struct {
	Name string // package.var:name
	Obj  *types.Var
	Val  *Datum
	Pos  string
}

type dataEval struct {
	prog *load.Program
	pkg  *load.Package
	rel  string
	deps map[*types.Var]ast.Expr
	busy map[ast.Expr]bool
	// initialisers of package variables that nobody assigns
	fns map[*types.Func]*ast.FuncDecl
	env map[types.Object]*Datum
}

// Data evaluates the initialisers of all package variables.
func Data(prog *load.Program) []*DataVar {
	var out []*DataVar
	for _, p := range prog.Packages {
		e := &dataEval{prog: prog, pkg: p, rel: relPath(prog, p), deps: map[*types.Var]ast.Expr{}, busy: map[ast.Expr]bool{}, fns: map[*types.Func]*ast.FuncDecl{}}
		for _, f := range p.Files {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					if o, ok := p.Info.Defs[fd.Name].(*types.Func); ok {
						e.fns[o] = fd
					}
				}
			}
		}
		seen := map[*types.Var]*Datum{}
		for _, in := range p.Info.InitOrder {
			if len(in.Lhs) == 1 {
				e.deps[in.Lhs[0]] = in.Rhs
			}
		}
		for _, in := range p.Info.InitOrder {
			for i, v := range in.Lhs {
				d := e.eval(in.Rhs)
				if len(in.Lhs) > 1 {
					d = &Datum{Kind: "result", Text: fmt.Sprint(i), Elems: []*Datum{d}, Pos: in.Rhs.Pos()}
				}
				seen[v] = d
			}
		}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			v, ok := sc.Lookup(n).(*types.Var)
			if !ok {
				continue
			}
			d := seen[v]
			if d == nil {
				d = e.zero(v.Type(), v.Pos())
			}
			out = append(out, &DataVar{Name: e.rel + ".var:" + n, Obj: v, Val: d, Pos: prog.Pos(v.Pos())})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

func relPath(prog *load.Program, p *load.Package) string {
	return strings.TrimPrefix(strings.TrimPrefix(p.Path, prog.Module), "/")
}

func (e *dataEval) zero(t types.Type, pos token.Pos) *Datum {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return &Datum{Kind: "const", Text: `""`, Pos: pos}
		case u.Info()&types.IsBoolean != 0:
			return &Datum{Kind: "const", Text: "false", Pos: pos}
		case u.Info()&types.IsNumeric != 0:
			return &Datum{Kind: "const", Text: "0", Pos: pos}
		}
	case *types.Struct:
		return &Datum{Kind: "struct", Text: t.String(), Pos: pos}
	case *types.Array:
		return &Datum{Kind: "list", Text: fmt.Sprint(u.Len()), Pos: pos}
	}
	return &Datum{Kind: "nil", Pos: pos}
}

func (d *Datum) isZero() bool {
	switch d.Kind {
	case "nil":
		return true
	case "const":
		return d.Text == `""` || d.Text == "false" || d.Text == "0"
	case "struct":
		return len(d.Elems) == 0
	case "list":
		return d.Text != "" && len(d.Elems) == 0 && d.Text != "slice"
	}
	return false
}

func constText(v constant.Value) string {
	if v.Kind() == constant.Float {
		if i := constant.ToInt(v); i.Kind() == constant.Int {
			v = i
		}
	}
	return v.ExactString()
}

func (e *dataEval) eval(x ast.Expr) *Datum {
	x = ast.Unparen(x)
	pos := x.Pos()
	tv := e.pkg.Info.Types[x]
	if tv.Value != nil {
		return &Datum{Kind: "const", Text: constText(tv.Value), Pos: pos}
	}
	if tv.IsNil() {
		return &Datum{Kind: "nil", Pos: pos}
	}
	switch x := x.(type) {
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			return &Datum{Kind: "ptr", Elems: []*Datum{e.eval(x.X)}, Pos: pos}
		}
		return &Datum{Kind: "op", Text: x.Op.String(), Elems: []*Datum{e.eval(x.X)}, Pos: pos}
	case *ast.BinaryExpr:
		return &Datum{Kind: "op", Text: x.Op.String(), Elems: []*Datum{e.eval(x.X), e.eval(x.Y)}, Pos: pos}
	case *ast.CompositeLit:
		return e.lit(x, tv.Type)
	case *ast.Ident:
		o := e.pkg.Info.Uses[x]
		if d := e.env[o]; d != nil {
			return d
		}
		switch o := o.(type) {
		case *types.Var:
			if rhs := e.deps[o]; rhs != nil && !e.busy[rhs] && isData(o.Type()) {
				e.busy[rhs] = true
				d := e.eval(rhs)
				delete(e.busy, rhs)
				return &Datum{Kind: "alias", Elems: []*Datum{d}, Pos: pos}
			}
			return &Datum{Kind: "var", Text: o.String(), Pos: pos}
		case *types.Func:
			return &Datum{Kind: "func", Text: o.FullName(), Pos: pos}
		}
	case *ast.SelectorExpr:
		if o := e.pkg.Info.Uses[x.Sel]; o != nil {
			switch o := o.(type) {
			case *types.Func:
				return &Datum{Kind: "func", Text: o.FullName(), Pos: pos}
			case *types.Var:
				if !o.IsField() {
					return &Datum{Kind: "var", Text: o.Pkg().Path() + "." + o.Name(), Pos: pos}
				}
			}
			return &Datum{Kind: "sel", Text: o.Name(), Elems: []*Datum{e.eval(x.X)}, Pos: pos}
		}
	case *ast.CallExpr:
		if e.pkg.Info.Types[x.Fun].IsType() { // conversion
			d := e.eval(x.Args[0])
			if d.Kind == "const" || d.Kind == "list" || d.Kind == "map" || d.Kind == "nil" {
				return d
			}
			return &Datum{Kind: "conv", Text: e.pkg.Info.Types[x.Fun].Type.String(), Elems: []*Datum{d}, Pos: pos}
		}
		return e.call(x, tv.Type)
	case *ast.FuncLit:
		return &Datum{Kind: "func", Text: "literal", Pos: pos}
	}
	return &Datum{Kind: "other", Text: fmt.Sprintf("%T", x), Pos: pos}
}

func isData(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Array, *types.Struct, *types.Basic:
		return true
	}
	return false
}

func (e *dataEval) call(x *ast.CallExpr, t types.Type) *Datum {
	pos := x.Pos()
	var name string
	var callee *types.Func
	switch f := ast.Unparen(x.Fun).(type) {
	case *ast.Ident:
		switch o := e.pkg.Info.Uses[f].(type) {
		case *types.Builtin:
			name = o.Name()
		case *types.Func:
			callee = o
			name = o.FullName()
		}
	case *ast.SelectorExpr:
		if o, ok := e.pkg.Info.Uses[f.Sel].(*types.Func); ok {
			name = o.FullName()
		}
	}
	switch name {
	case "make":
		switch t.Underlying().(type) {
		case *types.Map:
			return &Datum{Kind: "map", Pos: pos}
		case *types.Slice:
			if n := e.pkg.Info.Types[x.Args[1]].Value; n != nil && constText(n) == "0" {
				return &Datum{Kind: "list", Text: "slice", Pos: pos}
			}
		}
	case "new":
		if p, ok := t.Underlying().(*types.Pointer); ok {
			return &Datum{Kind: "ptr", Elems: []*Datum{e.zero(p.Elem(), pos)}, Pos: pos}
		}
	case "append":
		d := e.eval(x.Args[0])
		for d.Kind == "alias" {
			d = d.Elems[0]
		}
		if d.Kind == "list" || d.Kind == "nil" {
			out := &Datum{Kind: "list", Text: "slice", Elems: append([]*Datum{}, d.Elems...), Pos: pos}
			if x.Ellipsis.IsValid() {
				r := e.eval(x.Args[1])
				for r.Kind == "alias" {
					r = r.Elems[0]
				}
				if r.Kind == "list" {
					out.Elems = append(out.Elems, r.Elems...)
					return out
				}
			} else {
				for _, a := range x.Args[1:] {
					out.Elems = append(out.Elems, e.eval(a))
				}
				return out
			}
		}
	}
	// a function of the package that only returns an expression
	if fd := e.fns[callee]; fd != nil && callee != nil && fd.Body != nil && len(fd.Body.List) == 1 && fd.Recv == nil && !x.Ellipsis.IsValid() {
		if r, ok := fd.Body.List[0].(*ast.ReturnStmt); ok && len(r.Results) == 1 && !e.busy[r.Results[0]] {
			old := e.env
			env := map[types.Object]*Datum{}
			i := 0
			for _, f := range fd.Type.Params.List {
				for _, n := range f.Names {
					if i < len(x.Args) {
						env[e.pkg.Info.Defs[n]] = e.eval(x.Args[i])
					}
					i++
				}
			}
			if i == len(x.Args) {
				e.busy[r.Results[0]] = true
				e.env = env
				d := e.eval(r.Results[0])
				e.env = old
				delete(e.busy, r.Results[0])
				return d
			}
		}
	}
	d := &Datum{Kind: "call", Text: name, Pos: pos}
	for _, a := range x.Args {
		d.Elems = append(d.Elems, e.eval(a))
	}
	return d
}

func (e *dataEval) lit(x *ast.CompositeLit, t types.Type) *Datum {
	ptr := false
	if p, ok := t.Underlying().(*types.Pointer); ok { // elided &T in a list
		t, ptr = p.Elem(), true
	}
	d := &Datum{Pos: x.Pos()}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		d.Kind, d.Text = "struct", t.String()
		m := map[string]*Datum{}
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				m[kv.Key.(*ast.Ident).Name] = e.eval(kv.Value)
			} else {
				m[u.Field(i).Name()] = e.eval(el)
			}
		}
		for k, v := range m {
			if v.isZero() {
				delete(m, k)
			}
		}
		d.fill(m)
	case *types.Map:
		d.Kind = "map"
		m := map[string]*Datum{}
		for _, el := range x.Elts {
			kv := el.(*ast.KeyValueExpr)
			k := e.eval(kv.Key)
			for k.Kind == "alias" { // what counts is the value when the map is made
				k = k.Elems[0]
			}
			m[k.String()] = e.eval(kv.Value)
		}
		d.fill(m)
	case *types.Slice, *types.Array:
		d.Kind, d.Text = "list", "slice"
		var et types.Type
		var n int64 = -1
		if a, ok := u.(*types.Array); ok {
			et, n = a.Elem(), a.Len()
			d.Text = "array"
		} else {
			et = u.(*types.Slice).Elem()
		}
		var i, max int64
		m := map[int64]*Datum{}
		for _, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if c := e.pkg.Info.Types[kv.Key].Value; c != nil {
					i, _ = constant.Int64Val(c)
				}
				el = kv.Value
			}
			m[i] = e.eval(el)
			i++
			if i > max {
				max = i
			}
		}
		if n < 0 || n < max {
			n = max
		}
		for j := int64(0); j < n; j++ {
			if m[j] == nil {
				m[j] = e.zero(et, x.Pos())
			}
			d.Elems = append(d.Elems, m[j])
		}
	default:
		d.Kind, d.Text = "other", t.String()
	}
	if ptr {
		return &Datum{Kind: "ptr", Elems: []*Datum{d}, Pos: x.Pos()}
	}
	return d
}

func (d *Datum) fill(m map[string]*Datum) {
	for k := range m {
		d.Keys = append(d.Keys, k)
	}
	sort.Strings(d.Keys)
	for _, k := range d.Keys {
		d.Elems = append(d.Elems, m[k])
	}
}

func (d *Datum) String() string {
	switch d.Kind {
	case "const":
		return d.Text
	}
	var b strings.Builder
	b.WriteString(d.Kind + ":" + d.Text)
	if len(d.Elems) > 0 {
		b.WriteByte('{')
		for i, x := range d.Elems {
			if i > 0 {
				b.WriteString(", ")
			}
			if i < len(d.Keys) {
				b.WriteString(d.Keys[i] + ": ")
			}
			b.WriteString(x.String())
		}
		b.WriteByte('}')
	}
	return b.String()
}

// Diff is a difference of two initial values.
type Diff struct {
	Path string
	A, B *Datum // nil if absent
}

// DiffData compares initial values; the second is the reference.
func DiffData(a, b *Datum, path string, out *[]Diff) {
	if len(*out) > 20 {
		return
	}
	if a.Kind == "alias" && b.Kind != "alias" {
		DiffData(a.Elems[0], b, path, out)
		return
	}
	if b.Kind == "alias" && a.Kind != "alias" {
		DiffData(a, b.Elems[0], path, out)
		return
	}
	if a.isZero() && b.isZero() && (a.Kind == "list" || b.Kind == "list") {
		return
	}
	if a.Kind == "list" && b.Kind == "list" {
		if len(a.Elems) != len(b.Elems) {
			*out = append(*out, Diff{path + ".len", &Datum{Kind: "const", Text: fmt.Sprint(len(a.Elems)), Pos: a.Pos}, &Datum{Kind: "const", Text: fmt.Sprint(len(b.Elems)), Pos: b.Pos}})
		}
		for i := range a.Elems {
			if i < len(b.Elems) {
				DiffData(a.Elems[i], b.Elems[i], fmt.Sprintf("%s[%d]", path, i), out)
			}
		}
		return
	}
	if a.Kind != b.Kind || a.Text != b.Text || a.Kind == "other" || a.Text == "literal" {
		*out = append(*out, Diff{path, a, b})
		return
	}
	if a.Keys != nil || b.Keys != nil {
		am := map[string]*Datum{}
		bm := map[string]*Datum{}
		for i, k := range a.Keys {
			am[k] = a.Elems[i]
		}
		for i, k := range b.Keys {
			bm[k] = b.Elems[i]
			if am[k] == nil {
				*out = append(*out, Diff{path + "." + k, nil, b.Elems[i]})
			}
		}
		for i, k := range a.Keys {
			if bm[k] == nil {
				*out = append(*out, Diff{path + "." + k, a.Elems[i], nil})
			} else {
				DiffData(a.Elems[i], bm[k], path+"."+k, out)
			}
		}
		return
	}
	if len(a.Elems) != len(b.Elems) {
		*out = append(*out, Diff{path, a, b})
		return
	}
	for i := range a.Elems {
		p := path
		if len(a.Elems) > 1 {
			p = fmt.Sprintf("%s/%d", path, i)
		}
		DiffData(a.Elems[i], b.Elems[i], p, out)
	}
}

// Harmless reports whether a function changes nothing that exists in the
// reference.
func (g *GoGo) Harmless(n string) bool {
	s := g.Side[0]
	f := s.fns[n]
	if f == nil {
		return false
	}
	e := s.eff.Sum[f]
	return e != nil && len(e.Mod) == 0 && !e.Throws
}
