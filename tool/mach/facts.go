package mach

import "sort"

// Facts is the conjunction of atoms known on a path: equalities with
// constants, disequalities, integer bounds and truth values.
type Facts struct {
	truth map[*Term]bool           // other atoms
	eq    map[*Term]*Term          // x == const
	ne    map[*Term]map[*Term]bool // x != const
	lo    map[*Term]int64          // lo <= x
	hi    map[*Term]int64          // x <= hi
	subst map[*Term]*Term          // x == y, rewriting x to y
	memo  map[*Term]*Term
}

func NewFacts() *Facts {
	return &Facts{truth: map[*Term]bool{}, eq: map[*Term]*Term{}, ne: map[*Term]map[*Term]bool{}, lo: map[*Term]int64{}, hi: map[*Term]int64{}, subst: map[*Term]*Term{}, memo: map[*Term]*Term{}}
}

func (f *Facts) Clone() *Facts {
	g := NewFacts()
	for k, v := range f.truth {
		g.truth[k] = v
	}
	for k, v := range f.eq {
		g.eq[k] = v
	}
	for k, v := range f.ne {
		m := map[*Term]bool{}
		for x := range v {
			m[x] = true
		}
		g.ne[k] = m
	}
	for k, v := range f.lo {
		g.lo[k] = v
	}
	for k, v := range f.hi {
		g.hi[k] = v
	}
	for k, v := range f.subst {
		g.subst[k] = v
	}
	return g
}

// Norm rewrites t with what is known.
func (f *Facts) Norm(u *Universe, t *Term) *Term {
	return u.Rewrite(t, func(x *Term) *Term { return f.lookup(u, x) }, f.memo)
}

func (f *Facts) lookup(u *Universe, x *Term) *Term {
	if x.IsConst() {
		return nil
	}
	if c := f.eq[x]; c != nil {
		return c
	}
	if y := f.subst[x]; y != nil {
		return f.Norm(u, y)
	}
	switch x.Op {
	case "concat":
		var as []*Term
		for i, a := range x.Args {
			if c := f.eq[u.Len(a)]; c != nil && c.IsInt() && c.N == 0 && !a.IsConst() {
				if as == nil {
					as = append([]*Term{}, x.Args[:i]...)
				}
			} else if as != nil {
				as = append(as, a)
			}
		}
		if as != nil {
			return u.Concat(as...)
		}
	case "repeat":
		if n := x.Args[1]; !n.IsInt() {
			if hi, ok := f.hiOf(u, u.toLin(n), 1); ok && hi <= 0 {
				return u.Str("")
			}
		}
	case "trimright":
		if y := x.Args[0]; x.Args[1].IsStr() && !y.IsConst() {
			l := u.Len(y)
			if c := f.eq[l]; l.IsInt() && l.N == 0 || c != nil && c.IsInt() && c.N == 0 {
				return u.Str("")
			}
			b := f.Norm(u, u.Index(y, u.Sub(l, u.Int(1))))
			in, out := f.eq[b], true
			for i := 0; i < len(x.Args[1].S); i++ {
				c := u.Str(x.Args[1].S[i : i+1])
				if b == c || in == c {
					return f.Norm(u, u.App("trimright", "", u.Substr(y, u.Int(0), u.Sub(l, u.Int(1))), x.Args[1]))
				}
				if !b.IsConst() && !f.ne[b][c] {
					out = false
				}
			}
			if out {
				return y
			}
		}
	case "eq":
		a, b := x.Args[0], x.Args[1]
		if a.Op == "stridx" && b.IsInt() && b.N == 0 && a.Args[0].IsStr() {
			if p, ok := f.prefixOf(u, a.Args[1]); ok {
				lo, hi := f.lenBounds(u, a.Args[1])
				if n := lcp(p, a.Args[0].S); lo > n {
					return u.Int(0)
				} else if hi <= n {
					return u.Int(1)
				}
			}
		}
		if b.IsConst() {
			if c := f.eq[a]; c != nil { // a is new after the rewriting below
				return u.Eq(c, b)
			}
			if f.ne[a][b] {
				return u.Int(0)
			}
			if b.IsInt() {
				if lo, ok := f.lo[a]; ok && b.N < lo {
					return u.Int(0)
				}
				if hi, ok := f.hi[a]; ok && b.N > hi {
					return u.Int(0)
				}
			}
		}
	case "lt":
		a, k := x.Args[0], x.Args[1].N
		if c := f.eq[a]; c != nil && c.IsInt() {
			return u.Bool(c.N < k)
		}
		if hi, ok := f.hi[a]; ok && hi < k {
			return u.Int(1)
		}
		if lo, ok := f.lo[a]; ok && lo >= k {
			return u.Int(0)
		}
		if a.Op == "lin" && len(f.lo)+len(f.hi) <= 24 {
			l := u.toLin(a)
			if hi, ok := f.hiOf(u, l, 2); ok && hi < k {
				return u.Int(1)
			}
			if hi, ok := f.hiOf(u, lin{c: map[*Term]int64{}}.add(l, -1), 2); ok && -hi >= k {
				return u.Int(0)
			}
		}
	}
	if v, ok := f.truth[x]; ok {
		return u.Bool(v)
	}
	// the truth value of a non-boolean
	return nil
}

// hiOf is an upper bound of x that follows from up to n+1 of the bounds known.
func (f *Facts) hiOf(u *Universe, x lin, n int) (int64, bool) {
	if len(x.c) == 0 {
		return x.k, true
	}
	zero := lin{c: map[*Term]int64{}}
	d := x
	d.k = 0
	t := u.fromLin(d)
	if hi, ok := f.hi[t]; ok {
		return hi + x.k, true
	}
	if c := f.eq[t]; c != nil && c.IsInt() {
		return c.N + x.k, true
	}
	neg := u.fromLin(zero.add(d, -1))
	if lo, ok := f.lo[neg]; ok {
		return x.k - lo, true
	}
	if len(x.c) == 1 && nonNeg(neg) {
		return x.k, true
	}
	if n == 0 {
		return 0, false
	}
	best, found := int64(0), false
	try := func(r lin, k int64) {
		if len(r.c) > len(x.c) && len(r.c) > 2 {
			return
		}
		if h, ok := f.hiOf(u, r, n-1); ok && (!found || h+k < best) {
			best, found = h+k, true
		}
	}
	share := func(y lin) bool {
		for a := range y.c {
			if x.c[a] != 0 {
				return true
			}
		}
		return false
	}
	for y, hi := range f.hi {
		if l := u.toLin(y); share(l) {
			try(x.add(l, -1), hi)
		}
	}
	for y, lo := range f.lo {
		if l := u.toLin(y); share(l) {
			try(x.add(l, 1), -lo)
		}
	}
	for a, c := range x.c {
		if c == -1 && nonNeg(a) {
			try(x.add(u.toLin(a), 1), 0)
		}
	}
	return best, found
}

// Decide evaluates a condition: 1 true, 0 false, -1 unknown. The returned
// term is the normalised condition.
func (f *Facts) Decide(u *Universe, c *Term) (int, *Term) {
	n := f.Norm(u, c)
	neg := false
	for n.Op == "not" {
		n = n.Args[0]
		neg = !neg
	}
	v := -1
	switch n.Op {
	case "int":
		v = 0
		if n.N != 0 {
			v = 1
		}
	case "nil":
		v = 0
	case "str", "list", "new", "rec", "fn", "closure":
		v = 1
	default:
		if f.ne[n] != nil && f.ne[n][u.Int(0)] && !isBool(n) {
			v = 1
		}
	}
	if v >= 0 {
		if neg {
			v = 1 - v
		}
		return v, nil
	}
	if neg {
		return -1, u.Not(n)
	}
	return -1, n
}

// Assume adds a normalised condition; it returns false if that is impossible.
// What was known is rewritten with the new equality.
func (f *Facts) Assume(u *Universe, c *Term, val bool) bool {
	for depth := 0; ; depth++ {
		n := len(f.eq) + len(f.subst)
		if !f.assume(u, c, val) {
			return false
		}
		if len(f.eq)+len(f.subst) == n || depth > 20 {
			ok, more := f.prefixes(u)
			if !ok || !more || depth > 20 {
				return ok
			}
		}
		// congruence
		var pend []*Term
		for _, at := range f.atoms(u) {
			if f.isDef(at) {
				if a := at.Args[0]; f.eq[a] == at.Args[1] && len(a.Args) > 0 {
					if r := f.inner(u, a); r != a && !r.IsConst() && f.Norm(u, r) != at.Args[1] {
						pend = append(pend, u.Eq(r, at.Args[1]))
					}
				}
				continue
			}
			if m := f.Norm(u, at); m != at && !m.IsConst() {
				if m2 := f.Norm(u, f.strip(u, at)); m2.IsInt() {
					continue
				}
				pend = append(pend, at)
			}
		}
		again := false
		for _, at := range pend {
			g := f.strip(u, at)
			if g.IsInt() {
				if g.N == 0 {
					return false
				}
				continue
			}
			if d, m := f.Decide(u, g); d == 0 {
				return false
			} else if d < 0 {
				n := len(f.eq) + len(f.subst)
				if !f.assume(u, m, true) {
					return false
				}
				if len(f.eq)+len(f.subst) != n {
					again = true
				}
			}
		}
		if !again {
			if ok, more := f.prefixes(u); !ok {
				return false
			} else if !more {
				return f.consistent(u)
			}
		}
		c, val = u.Int(1), true
		n = -1
	}
}

func lcp(a, b string) int64 {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return int64(n)
}

// prefixOf is the constant k is known to begin, from stridx(const, k) == 0.
func (f *Facts) prefixOf(u *Universe, k *Term) (string, bool) {
	for x, c := range f.eq {
		if x.Op == "stridx" && x.Args[0].IsStr() && x.Args[1] == k && c.IsInt() && c.N == 0 {
			return x.Args[0].S, true
		}
	}
	return "", false
}

// lenBounds are the known bounds of len(k).
func (f *Facts) lenBounds(u *Universe, k *Term) (int64, int64) {
	l := u.Len(k)
	lo, hi := int64(0), int64(1)<<40
	if v, ok := f.lo[l]; ok {
		lo = v
	}
	if v, ok := f.hi[l]; ok {
		hi = v
	}
	for lo < hi && f.ne[l][u.Int(lo)] {
		lo++
	}
	if c := f.eq[l]; c != nil && c.IsInt() {
		lo, hi = c.N, c.N
	}
	return lo, hi
}

// prefixes draws conclusions from k being a prefix of constants. The second
// result is true if something new is known.
func (f *Facts) prefixes(u *Universe) (bool, bool) {
	more := false
	var ks []*Term
	for x, c := range f.eq {
		if x.Op == "stridx" && x.Args[0].IsStr() && !x.Args[1].IsConst() && c.IsInt() && c.N == 0 {
			ks = append(ks, x)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	for _, x := range ks {
		k, a := x.Args[1], x.Args[0].S
		if f.eq[k] != nil {
			continue
		}
		lo, hi := f.lenBounds(u, k)
		nlo, nhi := lo, hi
		if n := int64(len(a)); n < nhi {
			nhi = n
		}
		for y, c := range f.eq {
			if y != x && y.Op == "stridx" && y.Args[0].IsStr() && y.Args[1] == k && c.IsInt() && c.N == 0 {
				if n := lcp(a, y.Args[0].S); n < nhi {
					nhi = n
				}
			}
		}
		for y, m := range f.ne {
			if y.Op == "stridx" && y.Args[0].IsStr() && y.Args[1] == k && m[u.Int(0)] {
				if n := lcp(a, y.Args[0].S) + 1; n > nlo {
					nlo = n
				}
			}
		}
		if nlo > nhi {
			return false, false
		}
		if nlo == nhi {
			if !f.assume(u, u.Eq(k, u.Str(a[:nlo])), true) {
				return false, false
			}
			f.eq[k] = u.Str(a[:nlo])
			f.memo = map[*Term]*Term{}
			more = true
			continue
		}
		l := u.Len(k)
		if nlo > lo {
			if !f.assume(u, u.Lt(l, u.Int(nlo)), false) {
				return false, false
			}
			more = true
		}
		if nhi < hi {
			if !f.assume(u, u.Lt(l, u.Int(nhi+1)), true) {
				return false, false
			}
			more = true
		}
	}
	return true, more
}

// isDef reports whether the atom is one of the rewriting rules themselves.
func (f *Facts) isDef(at *Term) bool {
	return at.Op == "eq" && (f.eq[at.Args[0]] != nil && f.eq[at.Args[0]] == at.Args[1] || f.subst[at.Args[0]] == at.Args[1] || f.subst[at.Args[1]] == at.Args[0])
}

// inner rewrites the arguments of a.
func (f *Facts) inner(u *Universe, a *Term) *Term {
	as := make([]*Term, len(a.Args))
	for i, x := range a.Args {
		as[i] = f.Norm(u, x)
	}
	return u.Rebuild(a, as)
}

// strip rewrites the arguments of an atom, not the atom itself.
func (f *Facts) strip(u *Universe, at *Term) *Term {
	neg := false
	if at.Op == "not" {
		at, neg = at.Args[0], true
	}
	if len(at.Args) == 0 {
		if neg {
			return u.Not(at)
		}
		return at
	}
	as := make([]*Term, len(at.Args))
	for i, a := range at.Args {
		as[i] = f.Norm(u, a)
	}
	r := u.Rebuild(at, as)
	if neg {
		r = u.Not(r)
	}
	return r
}

func (f *Facts) consistent(u *Universe) bool {
	for k, v := range f.eq {
		as := make([]*Term, len(k.Args))
		if len(as) == 0 {
			continue
		}
		for i, a := range k.Args {
			as[i] = f.Norm(u, a)
		}
		r := u.Rebuild(k, as)
		if r.IsConst() && r != v {
			return false
		}
	}
	return true
}

func (f *Facts) assume(u *Universe, c *Term, val bool) bool {
	for c.Op == "not" {
		c = c.Args[0]
		val = !val
	}
	f.memo = map[*Term]*Term{}
	switch c.Op {
	case "int":
		return (c.N != 0) == val
	case "nil":
		return !val
	case "eq":
		a, b := c.Args[0], c.Args[1]
		if b.IsConst() {
			if val {
				f.setEq(u, a, b)
			} else {
				if f.ne[a] == nil {
					f.ne[a] = map[*Term]bool{}
				}
				f.ne[a][b] = true
				if b.IsInt() {
					if lo, ok := f.lo[a]; (ok && lo == b.N) || (!ok && b.N == 0 && nonNeg(a)) {
						f.lo[a] = b.N + 1
					}
					if hi, ok := f.hi[a]; ok && hi == b.N {
						f.hi[a] = b.N - 1
					}
					return f.bounds(u, a)
				}
			}
			return true
		}
		if val {
			// rewrite the younger term to the older
			x, y := a, b
			if x.ID < y.ID {
				x, y = y, x
			}
			if !y.Contains(x) {
				f.subst[x] = y
			}
			return true
		}
		f.truth[c] = false
		return true
	case "lt":
		a, k := c.Args[0], c.Args[1].N
		if val {
			if hi, ok := f.hi[a]; !ok || hi > k-1 {
				f.hi[a] = k - 1
			}
		} else {
			if lo, ok := f.lo[a]; !ok || lo < k {
				f.lo[a] = k
			}
		}
		return f.bounds(u, a)
	}
	if !val && !isBool(c) {
		// a non-boolean that is false: 0, as booleans are 0 or 1
		f.truth[c] = false
		return true
	}
	f.truth[c] = val
	return true
}

func (f *Facts) bounds(u *Universe, a *Term) bool {
	lo, ok1 := f.lo[a]
	if !ok1 && nonNeg(a) {
		lo, ok1 = 0, true
	}
	hi, ok2 := f.hi[a]
	if ok1 && ok2 {
		for lo <= hi && f.ne[a][u.Int(lo)] {
			lo++
		}
		for lo <= hi && f.ne[a][u.Int(hi)] {
			hi--
		}
		if lo > hi {
			return false
		}
		if lo == hi {
			f.setEq(u, a, u.Int(lo))
		}
	}
	return true
}

func (f *Facts) setEq(u *Universe, a, b *Term) {
	f.eq[a] = b
}

// Intersect keeps the facts of f that g also has.
func (f *Facts) Intersect(g *Facts) bool {
	changed := false
	for k, v := range f.truth {
		if w, ok := g.truth[k]; !ok || w != v {
			delete(f.truth, k)
			changed = true
		}
	}
	for k, v := range f.eq {
		if g.eq[k] != v {
			delete(f.eq, k)
			changed = true
		}
	}
	for k, v := range f.subst {
		if g.subst[k] != v {
			delete(f.subst, k)
			changed = true
		}
	}
	for k, v := range f.ne {
		for c := range v {
			if !g.ne[k][c] && !(g.eq[k] != nil && g.eq[k] != c) {
				delete(v, c)
				changed = true
			}
		}
	}
	for k, v := range f.lo {
		w, ok := g.lo[k]
		if c := g.eq[k]; c != nil && c.IsInt() {
			w, ok = c.N, true
		}
		if !ok || w < v {
			delete(f.lo, k)
			changed = true
		}
	}
	for k, v := range f.hi {
		w, ok := g.hi[k]
		if c := g.eq[k]; c != nil && c.IsInt() {
			w, ok = c.N, true
		}
		if !ok || w > v {
			delete(f.hi, k)
			changed = true
		}
	}
	f.memo = map[*Term]*Term{}
	return changed
}

// Strings lists the facts, sorted.
func (f *Facts) Strings() []string {
	var out []string
	for k, v := range f.truth {
		if v {
			out = append(out, k.String())
		} else {
			out = append(out, "!"+k.String())
		}
	}
	for k, v := range f.eq {
		out = append(out, k.String()+" == "+v.String())
	}
	for k, v := range f.ne {
		for c := range v {
			out = append(out, k.String()+" != "+c.String())
		}
	}
	for k, v := range f.subst {
		out = append(out, k.String()+" == "+v.String())
	}
	sort.Strings(out)
	return out
}
