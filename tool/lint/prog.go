// Package lint holds rules decided on the SSA form of the tree alone.
package lint

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/load"
)

// Finding is a violation of a rule.
type Finding struct {
	Where, Pos, Msg string
}

// Prog is a program with its functions and an over-approximation of its call
// graph.
type Prog struct {
	*load.Program
	Fns   []*ssa.Function
	known map[*ssa.Function]bool
	taken map[string][]*ssa.Function // functions used as values, by signature
	calls map[*ssa.Function][]*ssa.Function
}

// New collects the functions.
func New(p *load.Program) *Prog {
	g := &Prog{Program: p, known: map[*ssa.Function]bool{}, taken: map[string][]*ssa.Function{}, calls: map[*ssa.Function][]*ssa.Function{}}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || g.known[f] || len(f.Blocks) == 0 {
			return
		}
		g.known[f] = true
		g.Fns = append(g.Fns, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, pk := range p.Packages {
		var names []string
		for n := range pk.SSA.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := pk.SSA.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				if types.IsInterface(m.Type()) {
					continue
				}
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := p.SSA.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						add(p.SSA.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	for _, f := range g.Fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var skip ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					skip = c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					h, ok := (*op).(*ssa.Function)
					if !ok || *op == skip && !isArg(in, h) || seen[h] {
						continue
					}
					seen[h] = true
					k := types.TypeString(h.Signature, nil)
					g.taken[k] = append(g.taken[k], h)
				}
			}
		}
	}
	return g
}

func isArg(in ssa.Instruction, f *ssa.Function) bool {
	for _, a := range in.(ssa.CallInstruction).Common().Args {
		if a == f {
			return true
		}
	}
	return false
}

// Callees lists what a call may reach in the program.
func (g *Prog) Callees(c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		return g.implementers(c)
	}
	switch v := c.Value.(type) {
	case *ssa.Function:
		if g.known[v] {
			return []*ssa.Function{v}
		}
		return nil
	case *ssa.MakeClosure:
		return []*ssa.Function{v.Fn.(*ssa.Function)}
	case *ssa.Builtin:
		return nil
	}
	sig, ok := c.Value.Type().Underlying().(*types.Signature)
	if !ok {
		return nil
	}
	return g.taken[types.TypeString(sig, nil)]
}

func (g *Prog) implementers(c *ssa.CallCommon) []*ssa.Function {
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, p := range g.Packages {
		for _, n := range p.Types.Scope().Names() {
			tn, ok := p.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if !types.Implements(t, it) {
					continue
				}
				ms := g.SSA.MethodSets.MethodSet(t)
				if sel := ms.Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
					if f := g.SSA.MethodValue(sel); f != nil && g.known[f] {
						out = append(out, f)
					}
				}
			}
		}
	}
	return out
}

// From lists the functions a function may call or hand out.
func (g *Prog) From(f *ssa.Function) []*ssa.Function {
	if r, ok := g.calls[f]; ok {
		return r
	}
	m := map[*ssa.Function]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				for _, h := range g.Callees(c.Common()) {
					m[h] = true
				}
			}
			for _, op := range in.Operands(nil) {
				if h, ok := (*op).(*ssa.Function); ok && g.known[h] {
					m[h] = true
				}
			}
		}
	}
	var out []*ssa.Function
	for h := range m {
		out = append(out, h)
	}
	sort.Slice(out, func(i, j int) bool { return g.Name(out[i]) < g.Name(out[j]) })
	g.calls[f] = out
	return out
}

// Reach is the set of functions that may run when one of the roots runs.
func (g *Prog) Reach(roots ...*ssa.Function) map[*ssa.Function]bool {
	return g.reachBut(func(*ssa.Function) bool { return false }, roots...)
}

// reachBut does not enter the functions for which but holds.
func (g *Prog) reachBut(but func(*ssa.Function) bool, roots ...*ssa.Function) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if m[f] || but(f) {
			return
		}
		m[f] = true
		for _, h := range g.From(f) {
			visit(h)
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return m
}

// Match lists the functions for which ok holds.
func (g *Prog) Match(ok func(name string, f *ssa.Function) bool) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range g.Fns {
		if ok(g.Name(f), f) {
			out = append(out, f)
		}
	}
	return out
}

// Name is the name of a function relative to the module.
func (g *Prog) Name(f *ssa.Function) string {
	if f.Parent() != nil {
		return g.Name(f.Parent()) + "$" + f.Name()[strings.LastIndexByte(f.Name(), '$')+1:]
	}
	pkg := ""
	if f.Pkg != nil {
		pkg = strings.TrimPrefix(strings.TrimPrefix(f.Pkg.Pkg.Path(), g.Module), "/")
	} else if o := f.Object(); o != nil && o.Pkg() != nil {
		pkg = strings.TrimPrefix(strings.TrimPrefix(o.Pkg().Path(), g.Module), "/")
	}
	n := f.Name()
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if nt, ok := t.(*types.Named); ok {
			n = nt.Obj().Name() + "." + n
		}
	}
	return pkg + "." + n
}

// Rel is the module-relative path of a package, ok if it is part of it.
func (g *Prog) Rel(p *types.Package) (string, bool) {
	if p == nil || g.ByPath[p.Path()] == nil {
		return "", false
	}
	return strings.TrimPrefix(strings.TrimPrefix(p.Path(), g.Module), "/"), true
}

// At is the position of an instruction, or of its function.
func (g *Prog) At(in ssa.Instruction) string {
	if p := in.Pos(); p.IsValid() {
		return g.Pos(p)
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && (*op).Pos().IsValid() {
			if _, ok := (*op).(*ssa.Function); !ok {
				return g.Pos((*op).Pos())
			}
		}
	}
	return g.Pos(in.Parent().Pos())
}

func (g *Prog) finding(in ssa.Instruction, f string, a ...interface{}) *Finding {
	return &Finding{Where: g.Name(in.Parent()), Pos: g.At(in), Msg: fmt.Sprintf(f, a...)}
}

// isTaken: the function is used as a value.
func (g *Prog) isTaken(f *ssa.Function) bool {
	for _, h := range g.taken[types.TypeString(f.Signature, nil)] {
		if h == f {
			return true
		}
	}
	return false
}
