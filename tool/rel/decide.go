package rel

import (
	"golang.org/x/tools/go/ssa"

	"verif/mach"
)

// How a pair was decided.
const (
	ByJoin    = "equal at every point of the product, loops joined"
	ByPaths   = "no difference on the paths with bounded loops"
	ByExpand  = "equal with small callees expanded"
	ByCallers = "compared in its callers"
	Differs   = "differs"
)

// Verdict is what is known of a pair.
type Verdict struct {
	How string
	P   *mach.Product // the exploration that counts
	// Proof: the exploration covers all rounds of all loops, those of both
	// programs side by side, so that one ends where the other does.
	Proof bool
}

const (
	maxRounds = 3
	stepBound = 40000  // to find a difference
	sameBound = 6000   // to find that there is none
	deepBound = 150000 // to find a difference, while there are steps left
	deepTotal = 1000000
)

// Decide compares a pair. A join at a loop head that loses a relation, or a
// loop without counterpart, says nothing about the two programs; so what the
// first pass could not prove is looked at once more, with loops passed a
// bounded number of times, and only a difference that is seen there counts.
func (g *GoGo) Decide(n string) *Verdict {
	p := g.Check(n)
	if len(p.Divs) == 0 {
		return &Verdict{ByJoin, p, true}
	}
	w := p
	if !synced(p) {
		steps := stepBound
		if g.spent < deepTotal {
			steps = deepBound
		}
		w = g.ladder(n, steps)
		if len(w.Divs) == 0 {
			return &Verdict{ByPaths, w, false}
		}
	}
	for t := 0; t < tiers; t++ {
		keep := g.extra
		g.UseTier(t, n)
		ok, q := g.same(n)
		g.extra = keep
		if ok {
			return &Verdict{ByExpand, q, q.Cut == 0}
		}
	}
	return &Verdict{Differs, w, false}
}

// synced keeps the differences that are no artefact of a join, if any.
func synced(p *mach.Product) bool {
	var ds []*mach.Divergence
	for _, d := range p.Divs {
		if d.Sync {
			ds = append(ds, d)
		}
	}
	if len(ds) == 0 {
		return false
	}
	p.Divs = ds
	return true
}

// ladder looks for a difference, with more and more rounds of the loops.
func (g *GoGo) ladder(n string, steps int) *mach.Product {
	var last *mach.Product
	for k := 1; k <= maxRounds; k++ {
		w := g.Witness(n, k, steps)
		g.spent += w.Steps()
		if len(w.Divs) > 0 {
			return w
		}
		if last == nil || w.Full {
			last = w
		}
		if !w.Full || w.Cut == 0 {
			break
		}
	}
	return last
}

// same reports whether the pair is equal, without benefit of doubt.
func (g *GoGo) same(n string) (bool, *mach.Product) {
	p := g.Check(n)
	if len(p.Divs) == 0 {
		return p.Paths > 0, p
	}
	if synced(p) {
		return false, p
	}
	w := g.ladder(n, sameBound)
	return len(w.Divs) == 0 && w.Full && w.Paths > 0, w
}

const tiers = 3

// tier is a set of functions that are expanded to compare their callers: one
// block of code, functions that change nothing, small internal functions.
func (g *GoGo) tier(t int) map[string]bool {
	if g.tierSet[t] != nil {
		return g.tierSet[t]
	}
	m := map[string]bool{}
	for n := range g.pair {
		if g.inl[n] || g.ahead[n] != "" {
			continue
		}
		ok := true
		for _, s := range g.Side {
			f := s.fns[n]
			if f.Name() == "init" || f.Name() == "main" {
				ok = false
				break
			}
			size := 0
			for _, b := range f.Blocks {
				size += len(b.Instrs)
			}
			e := g.Eff[n]
			wrapper := len(f.Blocks) == 1 && size <= 40
			pure := len(e.Mod) == 0 && !e.Throws && len(f.Blocks) <= 30
			sm := len(f.Blocks) <= 14 && size <= 90
			if !(wrapper || t >= 1 && pure || t >= 2 && sm) {
				ok = false
			}
		}
		if ok {
			m[n] = true
		}
	}
	g.tierSet[t] = m
	return m
}

// UseTier expands the functions of the tier, but for n itself.
func (g *GoGo) UseTier(t int, n string) {
	g.extra = map[string]bool{}
	for k := range g.tier(t) {
		if k != n && !g.Side[0].recursive(k, n) && !g.Side[1].recursive(k, n) {
			g.extra[k] = true
		}
	}
}

// recursive reports whether the function called k can call itself, other than
// by the one called n.
func (s *goside) recursive(k, n string) bool {
	key := k + " " + n
	if r, ok := s.recur[key]; ok {
		return r
	}
	r := s.recursive1(s.fns[k], s.fns[n])
	if s.recur == nil {
		s.recur = map[string]bool{}
	}
	s.recur[key] = r
	return r
}

func (s *goside) recursive1(f, but *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(h *ssa.Function) bool
	visit = func(h *ssa.Function) bool {
		for c := range s.refs(h) {
			if c == but {
				continue
			}
			if c == f {
				return true
			}
			if !seen[c] {
				seen[c] = true
				if visit(c) {
					return true
				}
			}
		}
		return false
	}
	return visit(f)
}

// Callees expanded: only callers without them have to be looked at.
func (g *GoGo) CheckDemoted(n string) (bool, *mach.Product) { return g.same(n) }
