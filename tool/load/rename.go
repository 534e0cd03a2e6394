package load

import (
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// Place is where an identifier stands.
type Place struct {
	File   string
	Offset int
}

func (p *Program) place(id *ast.Ident) Place {
	q := p.Fset.Position(id.Pos())
	return Place{q.Filename, q.Offset}
}

// Align gives what has another name than in ref the name it has there: struct
// fields, types, functions and methods that stand in the place of ones that
// are gone. That the pairing is one to one is enough for a program and the one
// with the names replaced to do the same; it need not be the pairing the author
// had in mind. If nothing is to be renamed, or the result does not type-check,
// p itself is returned.
func (p *Program) Align(ref *Program) *Program {
	r := &renamer{p: p, ref: ref, objs: map[types.Object]string{}}
	for _, a := range p.Packages {
		if b := ref.ByPath[a.Path]; b != nil {
			r.types(a, b)
		}
	}
	for _, a := range p.Packages {
		if b := ref.ByPath[a.Path]; b != nil {
			r.fields(a, b)
		}
	}
	for _, a := range p.Packages {
		if b := ref.ByPath[a.Path]; b != nil {
			r.funcs(a, b)
		}
	}
	if len(r.objs) == 0 {
		return p
	}
	names := map[Place]string{}
	note := func(id *ast.Ident, o types.Object) {
		if v, ok := o.(*types.Var); ok && v.Embedded() {
			// goes by the name of its type
			t := v.Type()
			if pt, ok := t.(*types.Pointer); ok {
				t = pt.Elem()
			}
			if nt, ok := t.(*types.Named); ok && r.objs[nt.Obj()] != "" {
				names[p.place(id)] = r.objs[nt.Obj()]
			}
			return
		}
		if s := r.objs[o]; s != "" {
			names[p.place(id)] = s
		}
	}
	for _, a := range p.Packages {
		for id, o := range a.Info.Defs {
			if o != nil {
				note(id, o)
			}
		}
		for id, o := range a.Info.Uses {
			note(id, o)
		}
	}
	q, err := p.list.load(names)
	if err != nil {
		return p
	}
	return q
}

type renamer struct {
	p, ref *Program
	objs   map[types.Object]string // new names
}

// text is the type with the names it will have.
func (r *renamer) text(t types.Type) string {
	// type names are unique enough as text: the old name is put in its place
	s := types.TypeString(t, nil)
	for o, n := range r.objs {
		if _, ok := o.(*types.TypeName); ok {
			s = replaceName(s, o.Pkg().Path()+"."+o.Name(), o.Pkg().Path()+"."+n)
		}
	}
	return s
}

func replaceName(s, old, new string) string {
	var b strings.Builder
	for {
		i := strings.Index(s, old)
		if i < 0 {
			b.WriteString(s)
			return b.String()
		}
		j := i + len(old)
		b.WriteString(s[:i])
		if j < len(s) && (s[j] == '_' || s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z') {
			b.WriteString(old)
		} else {
			b.WriteString(new)
		}
		s = s[j:]
	}
}

func (r *renamer) types(a, b *Package) {
	as, bs := a.Types.Scope(), b.Types.Scope()
	type cand struct {
		o     *types.TypeName
		shape string
	}
	only := func(x, y *types.Scope) []cand {
		var out []cand
		for _, n := range x.Names() {
			o, ok := x.Lookup(n).(*types.TypeName)
			if !ok || o.IsAlias() || y.Lookup(n) != nil {
				continue
			}
			out = append(out, cand{o, ""})
		}
		for i, c := range out {
			s := types.TypeString(c.o.Type().Underlying(), nil)
			ms := methodNames(c.o)
			for _, d := range out {
				s = replaceName(s, d.o.Pkg().Path()+"."+d.o.Name(), "?")
			}
			out[i].shape = s + " " + strings.Join(ms, " ")
		}
		return out
	}
	l, m := only(as, bs), only(bs, as)
	for _, full := range []bool{true, false} {
		key := func(c cand) string {
			if full {
				return c.shape
			}
			return strings.Join(fieldTypes(c.o), " ")
		}
		for _, x := range l {
			if r.objs[x.o] != "" {
				continue
			}
			var same []cand
			n := 0
			for _, y := range l {
				if key(x) == key(y) {
					n++
				}
			}
			for _, y := range m {
				if key(x) == key(y) && !r.taken(y.o.Name(), a.Path) {
					same = append(same, y)
				}
			}
			if n == 1 && len(same) == 1 && key(x) != "" {
				r.objs[x.o] = same[0].o.Name()
			}
		}
	}
}

func (r *renamer) taken(name, path string) bool {
	for o, n := range r.objs {
		if _, ok := o.(*types.TypeName); ok && n == name && o.Pkg().Path() == path {
			return true
		}
	}
	return false
}

func methodNames(o *types.TypeName) []string {
	nt, ok := o.Type().(*types.Named)
	if !ok {
		return nil
	}
	var out []string
	for i := 0; i < nt.NumMethods(); i++ {
		out = append(out, nt.Method(i).Name())
	}
	sort.Strings(out)
	return out
}

func fieldTypes(o *types.TypeName) []string {
	st, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []string
	for i := 0; i < st.NumFields(); i++ {
		out = append(out, st.Field(i).Type().String())
	}
	return out
}

func (r *renamer) fields(a, b *Package) {
	for _, n := range a.Types.Scope().Names() {
		o, ok := a.Types.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		rn := n
		if s := r.objs[o]; s != "" {
			rn = s
		}
		ro, ok := b.Types.Scope().Lookup(rn).(*types.TypeName)
		if !ok {
			continue
		}
		st, ok1 := o.Type().Underlying().(*types.Struct)
		rt, ok2 := ro.Type().Underlying().(*types.Struct)
		if !ok1 || !ok2 {
			continue
		}
		x, y := onlyFields(st, rt), onlyFields(rt, st)
		used := map[*types.Var]bool{}
		for _, f := range x {
			for _, g := range y {
				if !used[g] && r.text(f.Type()) == types.TypeString(g.Type(), nil) && f.Exported() == g.Exported() {
					used[g] = true
					r.objs[f] = g.Name()
					break
				}
			}
		}
	}
}

func onlyFields(x, y *types.Struct) []*types.Var {
	has := map[string]bool{}
	for i := 0; i < y.NumFields(); i++ {
		has[y.Field(i).Name()] = true
	}
	var out []*types.Var
	for i := 0; i < x.NumFields(); i++ {
		if f := x.Field(i); !has[f.Name()] && !f.Embedded() {
			out = append(out, f)
		}
	}
	return out
}

type fun struct {
	o    *types.Func
	recv string
	sig  string
	size int
}

// funcsOf are the functions of the package, by receiver and name.
func (r *renamer) funcsOf(p *Package, text func(types.Type) string) map[string]fun {
	m := map[string]fun{}
	for _, f := range p.Files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				continue
			}
			o, ok := p.Info.Defs[fd.Name].(*types.Func)
			if !ok || fd.Name.Name == "init" || fd.Name.Name == "_" {
				continue
			}
			sig := o.Type().(*types.Signature)
			x := fun{o: o, sig: text(types.NewSignatureType(nil, nil, nil, noNames(sig.Params()), noNames(sig.Results()), sig.Variadic()))}
			if v := sig.Recv(); v != nil {
				x.recv = text(v.Type())
			}
			ast.Inspect(fd, func(n ast.Node) bool {
				if n != nil {
					x.size++
				}
				return true
			})
			m[strings.TrimPrefix(x.recv, "*")+"."+o.Name()] = x
		}
	}
	return m
}

func noNames(t *types.Tuple) *types.Tuple {
	var vs []*types.Var
	for i := 0; i < t.Len(); i++ {
		vs = append(vs, types.NewVar(token.NoPos, nil, "", t.At(i).Type()))
	}
	return types.NewTuple(vs...)
}

func (r *renamer) funcs(a, b *Package) {
	fa := r.funcsOf(a, r.text)
	fb := r.funcsOf(b, func(t types.Type) string { return types.TypeString(t, nil) })
	sorted := func(m, but map[string]fun) []string {
		var out []string
		for k, f := range m {
			if _, ok := but[k]; !ok && !f.o.Exported() {
				out = append(out, k)
			}
		}
		sort.Strings(out)
		return out
	}
	x, y := sorted(fa, fb), sorted(fb, fa)
	near := func(f, g fun) bool {
		return f.recv == g.recv && f.sig == g.sig && f.size*4 >= g.size*3 && g.size*4 >= f.size*3
	}
	for _, k := range x {
		var same []string
		n := 0
		for _, l := range y {
			if near(fa[k], fb[l]) {
				same = append(same, l)
				for _, j := range x {
					if near(fa[j], fb[l]) {
						n++
					}
				}
			}
		}
		if len(same) == 1 && n == 1 {
			r.objs[fa[k].o] = fb[same[0]].o.Name()
		}
	}
}
