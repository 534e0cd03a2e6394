package lint

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// outside lists functions and packages whose results are not determined by
// the arguments.
var outside = map[string]bool{"time": true, "math/rand": true, "math/rand/v2": true, "crypto/rand": true, "runtime": true, "os/exec": true, "net": true, "unsafe": true, "plugin": true, "os/user": true, "hash/maphash": true}

var outsideFn = map[string]bool{"os.Getenv": true, "os.LookupEnv": true, "os.Environ": true, "os.Getpid": true, "os.Getwd": true, "os.Hostname": true, "os.Args": true, "os.Stdin": true}

// Deterministic: the library uses no source of results other than its
// arguments, no goroutines, and no order of map entries.
func Deterministic(g *Prog) (fs []*Finding, sites int, samples []string) {
	for f := range g.library() {
		if isMain(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Go:
					sites++
					fs = append(fs, g.finding(in, "starts a goroutine"))
				case *ssa.Select, *ssa.Send, *ssa.MakeChan:
					sites++
					fs = append(fs, g.finding(in, "communicates between goroutines"))
				case *ssa.Range:
					if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
						continue
					}
					sites++
					samples = append(samples, g.At(in))
					if why := orderMatters(g, in); why != "" {
						fs = append(fs, g.finding(in, "the order of the entries of a map decides: %s", why))
					}
				case ssa.CallInstruction:
					h := in.Common().StaticCallee()
					if h == nil || len(h.Blocks) > 0 || h.Object() == nil || h.Object().Pkg() == nil {
						continue
					}
					sites++
					p := h.Object().Pkg().Path()
					if outside[p] || outsideFn[p+"."+h.Name()] {
						fs = append(fs, g.finding(in, "calls %s.%s", p, h.Name()))
					}
				case *ssa.UnOp:
					if v, ok := in.X.(*ssa.Global); ok && outsideFn[v.Pkg.Pkg.Path()+"."+v.Name()] {
						fs = append(fs, g.finding(in, "reads %s", v))
					}
				}
			}
		}
	}
	return
}

// orderMatters: what a loop over a map leaves behind that depends on the
// order of its entries.
func orderMatters(g *Prog, r *ssa.Range) string {
	f := r.Parent()
	var next *ssa.Next
	for _, u := range *r.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return ""
	}
	head := next.Block()
	in := loopBlocks(head)
	if len(in) == 0 {
		return ""
	}
	// values of an entry
	dep := map[ssa.Value]bool{next: true}
	for changed := true; changed; {
		changed = false
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				v, ok := i.(ssa.Value)
				if !ok || dep[v] || !in[b] {
					continue
				}
				for _, op := range i.Operands(nil) {
					if *op != nil && dep[*op] {
						dep[v] = true
						changed = true
					}
				}
			}
		}
	}
	sorted := func(v ssa.Value) bool { // the value is handed to a sort
		seen := map[ssa.Value]bool{}
		var visit func(v ssa.Value) bool
		visit = func(v ssa.Value) bool {
			if seen[v] || v.Referrers() == nil {
				return false
			}
			seen[v] = true
			for _, u := range *v.Referrers() {
				switch u := u.(type) {
				case ssa.CallInstruction:
					if h := u.Common().StaticCallee(); h != nil && h.Object() != nil && h.Object().Pkg() != nil {
						if p := h.Object().Pkg().Path(); p == "sort" || p == "slices" {
							return true
						}
					}
				case *ssa.Phi, *ssa.MakeInterface, *ssa.ChangeType:
					if visit(u.(ssa.Value)) {
						return true
					}
				}
			}
			return false
		}
		return visit(v)
	}
	ok := extract(next, 0)
	for b := range in {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Store:
				if _, local := i.Addr.(*ssa.Alloc); !local && dep[i.Val] {
					return "a value is stored"
				}
			case *ssa.Return, *ssa.Panic:
				return "the loop is left early"
			case *ssa.If:
				if i.Cond == ok {
					continue
				}
				for _, s := range b.Succs {
					if !in[s] && dep[i.Cond] {
						return "the loop is left early"
					}
				}
			case ssa.CallInstruction:
				c := i.Common()
				if bi, isb := c.Value.(*ssa.Builtin); isb {
					if bi.Name() == "append" && !sorted(i.Value()) {
						return "entries are appended to a list"
					}
					continue
				}
				if len(g.Callees(c)) > 0 && c.Signature().Results().Len() == 0 {
					return "a function is called for every entry"
				}
			}
		}
	}
	for _, i := range head.Instrs {
		p, isphi := i.(*ssa.Phi)
		if !isphi {
			continue
		}
		for _, e := range p.Edges {
			if bo, isb := e.(*ssa.BinOp); isb && dep[bo] {
				if t, isb := p.Type().Underlying().(*types.Basic); isb && t.Info()&types.IsString != 0 {
					return "a string is put together"
				}
			}
		}
	}
	return ""
}

func extract(v ssa.Value, n int) ssa.Value {
	for _, u := range *v.Referrers() {
		if e, ok := u.(*ssa.Extract); ok && e.Index == n {
			return e
		}
	}
	return nil
}

// loopBlocks is the natural loop with this head.
func loopBlocks(head *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock)
	back = func(b *ssa.BasicBlock) {
		if in[b] {
			return
		}
		in[b] = true
		if b == head {
			return
		}
		for _, p := range b.Preds {
			back(p)
		}
	}
	for _, p := range head.Preds {
		if head.Dominates(p) {
			in[head] = true
			back(p)
		}
	}
	return in
}
