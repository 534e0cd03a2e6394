package lint

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// treeTypes are the structures of which a parsed tree is made.
func (g *Prog) treeTypes() map[string]bool {
	m := map[string]bool{}
	var add func(t types.Type)
	add = func(t types.Type) {
		n, ok := t.(*types.Named)
		if ok {
			if _, in := g.Rel(n.Obj().Pkg()); !in && n.Obj().Pkg() != nil {
				return
			}
		}
		k := types.TypeString(t, nil)
		if m[k] {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			add(u.Elem())
		case *types.Slice:
			m[k] = true
			add(u.Elem())
		case *types.Map:
			m[k] = true
			add(u.Elem())
		case *types.Struct:
			m[k] = true
			for i := 0; i < u.NumFields(); i++ {
				add(u.Field(i).Type())
			}
		}
	}
	if p := g.Pkg("ast"); p != nil {
		for _, n := range p.Types.Scope().Names() {
			if tn, ok := p.Types.Scope().Lookup(n).(*types.TypeName); ok {
				if _, ok := tn.Type().Underlying().(*types.Struct); ok {
					add(tn.Type())
				}
			}
		}
	}
	if p := g.Pkg("go"); p != nil {
		if o := p.Types.Scope().Lookup("VimNode"); o != nil {
			add(o.Type())
		}
	}
	return m
}

// ReadOnly: what is given a tree does not modify it.
func ReadOnly(g *Prog) (fs []*Finding, sites int, samples []string) {
	tree := g.treeTypes()
	isTree := func(t types.Type) bool {
		for {
			p, ok := t.Underlying().(*types.Pointer)
			if !ok {
				break
			}
			t = p.Elem()
		}
		if sl, ok := t.Underlying().(*types.Slice); ok {
			if it, ok := sl.Elem().Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
				return true
			}
		}
		if it, ok := t.Underlying().(*types.Interface); ok {
			return it.NumMethods() == 0 || implementedBy(g, it, tree)
		}
		if tu, ok := t.(*types.Tuple); ok {
			for i := 0; i < tu.Len(); i++ {
				e := tu.At(i).Type()
				if p, ok := e.Underlying().(*types.Pointer); ok {
					e = p.Elem()
				}
				if tree[types.TypeString(e, nil)] || types.IsInterface(e) {
					return true
				}
			}
			return strings.Contains(types.TypeString(t, nil), "iter")
		}
		return tree[types.TypeString(t, nil)] || types.TypeString(t, nil) == "iter"
	}
	consumer := func(f *ssa.Function) bool {
		p, ok := g.pkgOf(f)
		if !ok || isInit(f) {
			return false
		}
		switch p {
		case "printer", "compiler", "ast", "cmd/vimlparser":
			return true
		case "go":
			h := f
			for h.Parent() != nil {
				h = h.Parent()
			}
			if strings.HasPrefix(g.Name(h), "go.Compiler.") {
				return true
			}
			// the conversion: from VimNode to ast
			res := h.Signature.Results()
			for i := 0; i < res.Len(); i++ {
				if n := named(res.At(i).Type()); n != nil {
					if r, ok := g.Rel(n.Obj().Pkg()); ok && r == "ast" {
						return true
					}
				}
			}
		}
		return false
	}
	var roots []*ssa.Function
	for _, f := range g.Fns {
		if consumer(f) {
			roots = append(roots, f)
		}
	}
	// the parser makes the tree, what follows looks at it
	maker := func(f *ssa.Function) bool {
		for f.Parent() != nil {
			f = f.Parent()
		}
		if p, ok := g.pkgOf(f); !ok || p != "go" || f.Signature.Recv() == nil {
			return false
		}
		n := named(f.Signature.Recv().Type())
		return n != nil && n.Obj().Name() != "Compiler" && n.Obj().Name() != "VimNode" && n.Obj().Name() != "ExArg"
	}
	var keep []*ssa.Function
	for _, f := range roots {
		if !maker(f) {
			keep = append(keep, f)
		}
	}
	roots = keep
	t := NewTaint(g, g.reachBut(maker, roots...), isTree)
	called := map[*ssa.Function]bool{} // by name, and in no other way
	asValue := map[*ssa.Function]bool{}
	for _, f := range g.Fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Function
				if c, ok := in.(ssa.CallInstruction); ok {
					callee = c.Common().StaticCallee()
				}
				n := 0
				for _, op := range in.Operands(nil) {
					h, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if n++; h == callee && n == 1 {
						called[h] = !asValue[h] && !token.IsExported(h.Name())
						continue
					}
					asValue[h] = true
					called[h] = false
				}
			}
		}
	}
	for _, f := range roots {
		if f.Parent() != nil {
			continue
		}
		for _, p := range f.Params {
			if types.IsInterface(p.Type()) && p.Type().Underlying().(*types.Interface).NumMethods() == 0 {
				continue
			}
			if _, ok := p.Type().Underlying().(*types.Slice); ok && called[f] {
				continue // what its callers hand to it counts
			}
			if isTree(p.Type()) && !types.IsInterface(p.Type()) || isNodeIface(g, p.Type()) {
				t.Mark(p)
				samples = append(samples, g.Name(f)+" "+p.Name())
			}
		}
	}
	t.Run()
	ws, n := t.Writes()
	sites = n
	for _, w := range ws {
		fs = append(fs, g.finding(w.In, "%s modifies the tree that is looked at", w.What))
	}
	return
}

func named(t types.Type) *types.Named {
	for {
		switch u := t.(type) {
		case *types.Named:
			return u
		case *types.Pointer:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		default:
			return nil
		}
	}
}

func isNodeIface(g *Prog, t types.Type) bool {
	n := named(t)
	if n == nil || !types.IsInterface(n) {
		return false
	}
	r, ok := g.Rel(n.Obj().Pkg())
	return ok && r == "ast" && n.Obj().Name() != "Visitor"
}

func implementedBy(g *Prog, it *types.Interface, tree map[string]bool) bool {
	for _, p := range g.Packages {
		for _, n := range p.Types.Scope().Names() {
			tn, ok := p.Types.Scope().Lookup(n).(*types.TypeName)
			if ok && tree[types.TypeString(tn.Type(), nil)] && types.Implements(types.NewPointer(tn.Type()), it) {
				return true
			}
		}
	}
	return false
}
