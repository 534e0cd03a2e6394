package rel

import (
	"golang.org/x/tools/go/ssa"
)

// lookahead finds the functions that call another one with their own
// parameters, return what it returns and put everything back: what they return
// is what the other one would return here.
func (g *GoGo) lookahead() {
	g.ahead = map[string]string{}
	for _, n := range g.Pairs {
		e := g.Eff[n]
		if !g.opaqueName(n) || len(e.Mod) > 0 || e.Throws || e.Fresh {
			continue
		}
		for _, s := range g.Side {
			c := s.lookahead(s.fns[n])
			if c == nil {
				continue
			}
			t := s.name(c)
			if x := g.Eff[t]; t != n && g.opaqueName(t) && g.ahead[t] == "" && !x.Throws && !x.Fresh && len(x.Mod) > 0 {
				g.ahead[n] = t
				break
			}
		}
	}
}

// lookahead returns the function whose result fn returns, called in the state
// that fn is called in.
func (s *goside) lookahead(fn *ssa.Function) *ssa.Function {
	if len(fn.Blocks) != 1 {
		return nil
	}
	b := fn.Blocks[0]
	ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) != 1 {
		return nil
	}
	call, ok := ret.Results[0].(*ssa.Call)
	if !ok || call.Common().StaticCallee() == nil || len(call.Common().Args) != len(fn.Params) {
		return nil
	}
	for i, a := range call.Common().Args {
		if a != ssa.Value(fn.Params[i]) {
			return nil
		}
	}
	for _, in := range b.Instrs {
		if in == ssa.Instruction(call) {
			return call.Common().StaticCallee()
		}
		switch in := in.(type) {
		case *ssa.FieldAddr, *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Call:
			f := in.Common().StaticCallee()
			if f == nil || s.eff.Sum[f] == nil || len(s.eff.Sum[f].Mod) > 0 || s.eff.Sum[f].Throws {
				return nil
			}
		default:
			return nil
		}
	}
	return nil
}
