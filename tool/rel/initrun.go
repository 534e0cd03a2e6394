package rel

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/load"
	"verif/mach"
)

// SameInit reports whether the initialisation of a package leaves the same in
// some of its variables (named as in SSA) on both sides, whatever part of it
// is done by initialisers and what by init functions. The stores to all other
// variables are left out, as are the init functions that do not touch these.
func (g *GoGo) SameInit(a, b *load.Package, vars map[string]bool) bool {
	fs := [2]*ssa.Function{a.SSA.Func("init"), b.SSA.Func("init")}
	var sides [2]mach.Side
	for i, s := range g.Side {
		if fs[i] == nil {
			return false
		}
		s.initVars = vars
		s.ctx.SkipGlobal = func(n string) bool { return !vars[n] }
		defer func(s *goside) { s.initVars, s.ctx.SkipGlobal = nil, nil }(s)
		sides[i] = mach.NewGo(s.ctx, mach.NewState(), fs[i], nil)
	}
	p := &mach.Product{U: g.U, Trace: g.Trace}
	p.Run(sides[0], sides[1], mach.NewFacts())
	return len(p.Divs) == 0 && p.Paths > 0
}

// touches reports whether f, or what it calls, has to do with the variables
// that SameInit is about.
func (s *goside) touches(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if gl, ok := (*op).(*ssa.Global); ok && s.initVars[gl.String()] {
					return true
				}
			}
		}
	}
	for h := range s.refs(f) {
		if s.touches(h, seen) {
			return true
		}
	}
	return false
}

// SetInInit reports whether an init function may change the package variable
// or what it refers to.
func (g *GoGo) SetInInit(name string, p *load.Package) bool {
	gl, ok := p.SSA.Members[name].(*ssa.Global)
	if !ok {
		return false
	}
	for _, s := range g.Side {
		for _, f := range s.all {
			if f.Pkg != p.SSA || !initFunc(f) || f.Synthetic != "" {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if *op == ssa.Value(gl) && !onlyRead(in) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// onlyRead: a load of a map or a basic value that is only looked at.
func onlyRead(in ssa.Instruction) bool {
	ld, ok := in.(*ssa.UnOp)
	if !ok {
		return false
	}
	switch ld.Type().Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Map:
		for _, r := range *ld.Referrers() {
			switch r.(type) {
			case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	return false
}
