package rel

import (
	"fmt"
	"regexp/syntax"
	"sort"
	"unicode/utf8"
)

// SameLanguage reports whether two patterns match (somewhere) in exactly the
// same texts: both automata are run in lockstep over all texts.
func SameLanguage(x, y string) bool {
	px, err1 := prog(x)
	py, err2 := prog(y)
	if err1 != nil || err2 != nil {
		return x == y
	}
	// one rune for each class that neither pattern tells apart
	cut := map[rune]bool{0: true, '\n': true, '\n' + 1: true, '0': true, '9' + 1: true, 'A': true, 'Z' + 1: true, '_': true, '_' + 1: true, 'a': true, 'z' + 1: true, utf8.RuneError: true, utf8.RuneError + 1: true}
	for _, p := range []*syntax.Prog{px, py} {
		for i := range p.Inst {
			in := &p.Inst[i]
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1:
				if len(in.Rune) == 1 {
					r := in.Rune[0]
					if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
						return x == y
					}
					cut[r], cut[r+1] = true, true
					continue
				}
				for j := 0; j+1 < len(in.Rune); j += 2 {
					cut[in.Rune[j]], cut[in.Rune[j+1]+1] = true, true
				}
			}
		}
	}
	var alpha []rune
	for r := range cut {
		if r >= 0 && r <= utf8.MaxRune {
			alpha = append(alpha, r)
		}
	}
	sort.Slice(alpha, func(i, j int) bool { return alpha[i] < alpha[j] })
	type state struct {
		a, b   []uint32 // nil and done: matched
		da, db bool
		prev   rune
	}
	class := func(r rune) rune { // what assertions can tell of the rune before
		switch {
		case r < 0 || r == '\n':
			return r
		case syntax.IsWordChar(r):
			return 'a'
		}
		return ' '
	}
	key := func(s *state) string { return fmt.Sprint(s.a, s.b, s.da, s.db, s.prev) }
	start := &state{prev: -1}
	seen := map[string]bool{key(start): true}
	work := []*state{start}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		// end of the text here
		ea := s.da || ends(px, s.a, s.prev)
		eb := s.db || ends(py, s.b, s.prev)
		if ea != eb {
			return false
		}
		for _, r := range alpha {
			n := &state{prev: class(r), da: s.da, db: s.db}
			if !n.da {
				n.a, n.da = step(px, s.a, s.prev, r)
			}
			if !n.db {
				n.b, n.db = step(py, s.b, s.prev, r)
			}
			if n.da {
				n.a = nil
			}
			if n.db {
				n.b = nil
			}
			if n.da && n.db {
				continue
			}
			if k := key(n); !seen[k] {
				if len(seen) > 20000 {
					return x == y
				}
				seen[k] = true
				work = append(work, n)
			}
		}
	}
	return true
}

func prog(s string) (*syntax.Prog, error) {
	r, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		return nil, err
	}
	return syntax.Compile(r.Simplify())
}

// closure is the set of instructions reached without reading; a new match may
// start anywhere.
func closure(p *syntax.Prog, from []uint32, prev, next rune) (map[uint32]bool, bool) {
	flag := syntax.EmptyOpContext(prev, next)
	set := map[uint32]bool{}
	match := false
	var add func(pc uint32)
	add = func(pc uint32) {
		if set[pc] {
			return
		}
		set[pc] = true
		in := &p.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(in.Out)
			add(in.Arg)
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(in.Arg)&^flag == 0 {
				add(in.Out)
			}
		case syntax.InstNop, syntax.InstCapture:
			add(in.Out)
		case syntax.InstMatch:
			match = true
		}
	}
	for _, pc := range from {
		add(pc)
	}
	add(uint32(p.Start))
	return set, match
}

func ends(p *syntax.Prog, from []uint32, prev rune) bool {
	_, m := closure(p, from, prev, -1)
	return m
}

func step(p *syntax.Prog, from []uint32, prev, next rune) ([]uint32, bool) {
	set, m := closure(p, from, prev, next)
	if m {
		return nil, true
	}
	out := map[uint32]bool{}
	for pc := range set {
		in := &p.Inst[pc]
		switch in.Op {
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			if in.MatchRune(next) {
				out[in.Out] = true
			}
		}
	}
	var l []uint32
	for pc := range out {
		l = append(l, pc)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l, false
}
