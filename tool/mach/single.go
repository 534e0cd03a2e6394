package mach

// Explore follows all paths of one side until they return, raise an error or
// reach a loop, and calls f there. Calls are passed.
func Explore(s Side, facts *Facts, max int, f func(s Side, st *Stall, facts *Facts)) {
	type item struct {
		s     Side
		facts *Facts
	}
	stack := []item{{s, facts}}
	for n := 0; len(stack) > 0; n++ {
		it := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if n > max {
			f(it.s, &Stall{Kind: SFail, Msg: "too many paths", Pos: it.s.Where()}, it.facts)
			return
		}
		st := it.s.Run(it.facts)
		switch st.Kind {
		case SBranch:
			l2, f2 := it.s.Clone(), it.facts.Clone()
			u := univ(it.s)
			if f2.Assume(u, st.T, false) {
				stack = append(stack, item{l2, f2})
			}
			f1 := it.facts.Clone()
			if f1.Assume(u, st.T, true) {
				stack = append(stack, item{it.s, f1})
			}
		case SEvent:
			it.s.Continue(SEvent)
			stack = append(stack, it)
		default:
			f(it.s, st, it.facts)
		}
	}
}

func univ(s Side) *Universe {
	switch s := s.(type) {
	case *GoSide:
		return s.C.U
	case *VimSide:
		return s.C.U
	}
	return nil
}

// Has is "k is a key of the map x".
func (g *GoSide) Has(x, k *Term) *Term {
	u := g.C.U
	return g.st.Has(u, x, k)
}
