package rel

import (
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Unpaired lists the functions of the reference that have no counterpart in
// the tree, and the other way round.
func (g *GoGo) Unpaired() (gone, new []string) {
	for n := range g.Side[1].fns {
		if !g.pair[n] {
			gone = append(gone, n)
		}
	}
	for n := range g.Side[0].fns {
		if !g.pair[n] {
			new = append(new, n)
		}
	}
	sort.Strings(gone)
	sort.Strings(new)
	return
}

// refs lists the functions a function mentions.
func (s *goside) refs(fn *ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					h, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					switch {
					case h.Parent() != nil, h.Synthetic != "" && s.names[h] == "":
						visit(h)
					case s.names[h] != "":
						out[h] = true
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					for _, h := range implementers(s.prog, ci.Common()) {
						if s.names[h] != "" {
							out[h] = true
						}
					}
				}
			}
		}
	}
	visit(fn)
	return out
}

func (g *GoGo) graph() [2]map[string]map[string]bool {
	if g.callers[0] != nil {
		return g.callers
	}
	for i, s := range g.Side {
		m := map[string]map[string]bool{}
		for n, f := range s.fns {
			for h := range s.refs(f) {
				c := s.names[h]
				if m[c] == nil {
					m[c] = map[string]bool{}
				}
				m[c][n] = true
			}
		}
		g.callers[i] = m
	}
	return g.callers
}

// Callers lists the pairs that call n, directly or through functions that are
// expanded.
func (g *GoGo) Callers(n string) []string {
	out := map[string]bool{}
	for _, m := range g.graph() {
		seen := map[string]bool{}
		var up func(n string)
		up = func(n string) {
			for c := range m[n] {
				if seen[c] {
					continue
				}
				seen[c] = true
				if g.pair[c] {
					out[c] = true
				}
				if !g.opaqueName(c) {
					up(c)
				}
			}
		}
		up(n)
	}
	var l []string
	for c := range out {
		l = append(l, c)
	}
	sort.Strings(l)
	return l
}

// CanInline reports whether only callers in the same package see n.
func (g *GoGo) CanInline(n string) bool {
	for _, s := range g.Side {
		f := s.fns[n]
		if f == nil || token.IsExported(f.Name()) || f.Name() == "init" || f.Name() == "main" || g.inl[n] {
			return false
		}
		if s.refs(f)[f] {
			return false
		}
	}
	return true
}

// Demote expands n in its callers.
func (g *GoGo) Demote(n string, on bool) { g.inl[n] = on }

// Around lists the pairs that show what n does: those it is expanded in, and
// with them all that these call.
func (g *GoGo) Around(n string) (own, all []string) {
	if i := strings.IndexByte(n, '$'); i >= 0 {
		n = n[:i]
	}
	if g.pair[n] {
		own = []string{n}
	} else {
		own = g.Callers(n)
	}
	down := map[string][]string{}
	for _, m := range g.graph() {
		for c, by := range m {
			for b := range by {
				down[b] = append(down[b], c)
			}
		}
	}
	seen := map[string]bool{n: true}
	work := append([]string{n}, own...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		next := append([]string{}, down[x]...)
		for _, c := range down[x] {
			if !g.pair[c] {
				next = append(next, g.Callers(c)...)
			}
		}
		for _, c := range next {
			if !seen[c] {
				seen[c] = true
				work = append(work, c)
			}
		}
	}
	for c := range seen {
		if g.pair[c] {
			all = append(all, c)
		}
	}
	sort.Strings(all)
	return own, all
}
