package lint

import (
	"go/ast"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// library lists the functions that run when the library is used: what can be
// reached from outside without package initialisation.
func (g *Prog) library() map[*ssa.Function]bool {
	var roots []*ssa.Function
	initOnly := map[*ssa.Function]bool{}
	for _, f := range g.Fns {
		if isInit(f) {
			initOnly[f] = true
		}
	}
	for _, f := range g.Fns {
		if p, ok := g.pkgOf(f); !ok || p == "" && f.Name() == "main" || isMain(f) || isInit(f) || f.Parent() != nil {
			continue
		}
		if ast.IsExported(f.Name()) || f.Signature.Recv() != nil {
			roots = append(roots, f)
		}
	}
	return g.Reach(roots...)
}

func isInit(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Signature.Recv() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#"))
}

func isMain(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg != nil && f.Pkg.Pkg.Name() == "main"
}

func (g *Prog) pkgOf(f *ssa.Function) (string, bool) {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return g.Rel(f.Pkg.Pkg)
	}
	if o := f.Object(); o != nil {
		return g.Rel(o.Pkg())
	}
	return "", false
}

// shared follows what package variables refer to.
func (g *Prog) shared() (t *Taint, globals []*ssa.Global) {
	fns := g.library()
	// types of objects in package state
	hold := map[string]bool{}
	var add func(t types.Type)
	add = func(t types.Type) {
		k := types.TypeString(t, nil)
		if hold[k] {
			return
		}
		hold[k] = true
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			add(u.Elem())
		case *types.Slice:
			add(u.Elem())
		case *types.Array:
			add(u.Elem())
			hold[types.TypeString(types.NewSlice(u.Elem()), nil)] = true
		case *types.Map:
			add(u.Key())
			add(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				add(u.Field(i).Type())
			}
		}
	}
	for _, p := range g.Packages {
		if p.Types.Name() == "main" {
			continue
		}
		for _, m := range p.SSA.Members {
			if v, ok := m.(*ssa.Global); ok && v.Name() != "init$guard" {
				globals = append(globals, v)
				add(v.Type().Underlying().(*types.Pointer).Elem())
			}
		}
	}
	t = NewTaint(g, fns, func(t types.Type) bool {
		if types.IsInterface(t) {
			return true
		}
		if tu, ok := t.(*types.Tuple); ok {
			for i := 0; i < tu.Len(); i++ {
				k := types.TypeString(tu.At(i).Type(), nil)
				if hold[k] || types.IsInterface(tu.At(i).Type()) {
					return true
				}
			}
			return strings.Contains(types.TypeString(t, nil), "iter")
		}
		if p, ok := t.(*types.Pointer); ok && hold[types.TypeString(p.Elem(), nil)] {
			return true
		}
		k := types.TypeString(t, nil)
		return hold[k] || k == "iter"
	})
	for _, v := range globals {
		t.Mark(v)
	}
	t.Run()
	return
}

// OwnTree: what is returned shares nothing with package variables.
func OwnTree(g *Prog) (fs []*Finding, sites int, samples []string) {
	t, _ := g.shared()
	pub := g.Pkg("ast")
	if pub == nil {
		return
	}
	public := func(t types.Type) bool {
		n := named(t)
		return n != nil && n.Obj().Pkg() == pub.Types
	}
	for _, f := range g.Fns {
		if !t.Fns[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					a, ok := in.Addr.(*ssa.FieldAddr)
					if !ok || !public(a.X.Type()) {
						continue
					}
					sites++
					if t.Of(in.Val) {
						fs = append(fs, g.finding(in, "%s is set to what package variables refer to", describe(a)))
					} else if len(samples) < 8 {
						samples = append(samples, g.At(in)+" "+describe(a))
					}
				case *ssa.Return:
					for _, r := range in.Results {
						if !public(r.Type()) {
							continue
						}
						sites++
						if t.Of(r) {
							fs = append(fs, g.finding(in, "a %s that package variables refer to is returned", types.TypeString(r.Type(), nil)))
						}
					}
				}
			}
		}
	}
	return
}

// PackageState: nothing but package initialisation modifies package-level
// variables or what they refer to.
func PackageState(g *Prog) (fs []*Finding, sites int, samples []string) {
	t, globals := g.shared()
	fns := t.Fns
	for _, v := range globals {
		samples = append(samples, "variable "+v.String())
	}
	ws, n := t.Writes()
	sites = n + len(globals)
	for _, w := range ws {
		fs = append(fs, g.finding(w.In, "%s modifies state that outlives the call", w.What))
	}
	// variables of other packages
	for f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if v, ok := root(s.Addr).(*ssa.Global); ok && g.ByPath[v.Pkg.Pkg.Path()] == nil {
						fs = append(fs, g.finding(in, "a store to %s modifies state of the process", v))
					}
				}
			}
		}
	}
	return
}

func root(a ssa.Value) ssa.Value {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		default:
			return a
		}
	}
}
