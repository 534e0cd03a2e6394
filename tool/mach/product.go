package mach

import (
	"fmt"
	"sort"
	"strings"
)

// Divergence is a difference between the two programs, or a place where the
// analysis cannot decide.
type Divergence struct {
	Kind   string // call result error state undecided
	Field  string
	Left   string // position in the left program
	Right  string
	Detail string
	Facts  []string
	LT, RT *Term
	Raise  bool // one raises an error, the other does not
	// Sync: at the loops before it every unknown of one program is one of the
	// other, so that no relation was lost there
	Sync bool
}

func (d *Divergence) String() string {
	s := fmt.Sprintf("%s: %s [%s | %s]", d.Kind, d.Detail, d.Left, d.Right)
	return s
}

// Product explores two programs in lock step.
type Product struct {
	U         *Universe
	Ignore    map[string]bool // fields not compared
	MaxPaths  int
	MaxDivs   int
	ZeroEq    bool
	NoState   bool
	CmpReturn func(l, r *Term) bool
	// Unroll > 0 looks for a witness of a difference: loops are not joined but
	// passed that many times, and paths that go on are cut.
	Unroll int
	Cut    int    // paths cut
	Full   bool   // all paths were seen, up to the cuts
	Undec  string // why some path was given up, in that mode

	Divs     []*Divergence
	Paths    int
	Branches int
	Events   int
	Joins    int
	Trace    func(string)

	loops       map[string]*loopRec
	last        *loopRec                   // of the last join
	parts       map[string]map[string]bool // loop head -> flags
	seen        map[string]bool
	iters       int
	generalised int
	stack       []work
}

type loopRec struct {
	l, r   Side
	facts  *Facts
	objs   map[*Term]bool
	syms   map[*Term]bool
	n      int
	unsync bool
	// what a fact that did not survive a join said something about
	dropped map[*Term]bool
}

// subject is what a condition says something about.
func subject(c *Term) *Term {
	for c.Op == "not" {
		c = c.Args[0]
	}
	if (c.Op == "eq" || c.Op == "lt") && len(c.Args) == 2 {
		if c.Args[1].IsConst() {
			return c.Args[0]
		}
		if c.Args[0].IsConst() {
			return c.Args[1]
		}
	}
	return c
}

// near reports whether two conditions compare the same with numbers of which
// one is next to the other.
func near(a, b *Term) bool {
	for a.Op == "not" {
		a = a.Args[0]
	}
	for b.Op == "not" {
		b = b.Args[0]
	}
	if len(a.Args) != 2 || len(b.Args) != 2 || a.Op != "eq" && a.Op != "lt" || b.Op != "eq" && b.Op != "lt" {
		return false
	}
	num := func(c *Term) (int64, bool) {
		for _, x := range c.Args {
			if x.IsInt() {
				return x.N, true
			}
		}
		return 0, false
	}
	x, ok1 := num(a)
	y, ok2 := num(b)
	return ok1 && ok2 && subject(a) == subject(b) && a != b && x-y <= 1 && y-x <= 1
}

// lost reports whether a fact about what c says something about did not
// survive a join on the way.
func (w *work) lost(c *Term) bool {
	c = subject(c)
	for r := range w.since {
		if r.dropped[c] {
			return true
		}
	}
	return false
}

// about reports whether c is about a value that a join on the way gave a name.
func (w *work) about(c *Term) bool {
	for r := range w.since {
		for s := range r.syms {
			if c.Contains(s) {
				return true
			}
		}
	}
	return false
}

type work struct {
	l, r   Side
	facts  *Facts
	passes int // loop heads of one program alone
	solo   int // of these, since both went on together
	forks  int
	visits map[string][3]int // loop heads passed: number, fork number of the last
	since  map[*loopRec]int  // loop heads passed: which version of the state
	sig    map[string]uint64 // loop heads passed: the state there
	unsync bool
	paired *Term // a condition of the right program that the left one has too, with a number next to it
}

// stale reports whether a more general state of a loop this comes from is
// explored instead.
func (w *work) stale() bool {
	for r, n := range w.since {
		if r.n > n {
			return true
		}
	}
	return false
}

// synced reports whether the unknowns made at this loop are the same on both
// sides.
func (r *loopRec) synced(w work) bool {
	var m [2]map[*Term]bool
	for i, s := range []Side{w.l, w.r} {
		m[i] = map[*Term]bool{}
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if r.syms[t] {
				m[i][t] = true
			}
			for _, a := range t.Args {
				walk(a)
			}
		}
		s.Slots(func(_ string, t *Term, _ func(*Term)) { walk(t) })
		for _, v := range s.St().heap {
			walk(v)
		}
		for _, v := range s.St().ver {
			walk(v)
		}
	}
	if len(m[0]) != len(m[1]) {
		return false
	}
	for t := range m[0] {
		if !m[1][t] {
			return false
		}
	}
	return true
}

func (w *work) through(r *loopRec) {
	m := map[*loopRec]int{}
	for k, v := range w.since {
		m[k] = v
	}
	m[r] = r.n
	w.since = m
}

// pass counts a visit of a loop head; it is false if there were too many. A
// round in which nothing had to be decided is free, and so are those of a loop
// with a known number of rounds.
func (w *work) pass(key string, max int, counted bool) bool {
	m := map[string][3]int{}
	for k, v := range w.visits {
		m[k] = v
	}
	w.visits = m
	v, seen := m[key]
	if !seen || v[1] != w.forks {
		if v[2] = 0; !counted {
			v[0]++
		}
	}
	v[2]++
	v[1] = w.forks
	m[key] = v
	return v[0] <= max+1
}

// maxFree bounds the rounds in a row in which nothing has to be decided: no
// loop over constants is that long.
const maxFree = 800

// moves notes the state at a loop head; it is false if the state is that of
// the last time, or if the loop goes on and on with nothing to decide.
func (w *work) moves(key string, s Side) bool {
	var sig uint64
	add := func(name string, ids ...int) { // in any order
		h := uint64(14695981039346656037)
		for i := 0; i < len(name); i++ {
			h = (h ^ uint64(name[i])) * 1099511628211
		}
		for _, d := range ids {
			h = (h ^ uint64(d)) * 1099511628211
			h ^= h >> 29
		}
		sig += h * 0x9E3779B97F4A7C15
	}
	s.Slots(func(name string, t *Term, _ func(*Term)) { add(name, t.ID) })
	st := s.St()
	for k, v := range st.heap {
		n := 0
		if k.k != nil {
			n = k.k.ID
		}
		add(k.f, k.o.ID, n, v.ID)
	}
	for f, v := range st.ver {
		add(f, -1, v.ID)
	}
	m := map[string]uint64{}
	for k, v := range w.sig {
		m[k] = v
	}
	m[key] = sig
	was, ok := w.sig[key]
	w.sig = m
	return (!ok || was != sig) && w.visits[key][2] < maxFree
}

func endless(yes bool, s *Stall) string {
	if yes {
		return "loops for ever"
	}
	return kindName[s.Kind] + show(s.T)
}

func (p *Product) report(d *Divergence, w *work) {
	k := d.Kind + d.Field + d.Left + d.Right
	if p.seen[k] {
		return
	}
	p.seen[k] = true
	d.Facts = w.facts.Strings()
	d.Sync = !w.unsync && d.Kind != "undecided"
	p.Divs = append(p.Divs, d)
}

// Run explores the product from the given states.
func (p *Product) Run(l, r Side, facts *Facts) {
	p.loops = map[string]*loopRec{}
	p.seen = map[string]bool{}
	if p.MaxPaths == 0 {
		p.MaxPaths = 20000
	}
	if p.MaxDivs == 0 {
		p.MaxDivs = 12
	}
	p.stack = []work{{l: l, r: r, facts: facts}}
	p.Full = true
	if !p.explore() {
		return
	}
	// What was given up on the way was covered by states that have changed
	// since. The states at the loops are right if what follows from each of
	// them, up to the next loops, is covered by the states there.
	for changed := true; changed && len(p.Divs) == 0; {
		changed = false
		for _, k := range keysOf(p.loops) {
			rec := p.loops[k]
			n := rec.n
			w := work{l: rec.l.Clone(), r: rec.r.Clone(), facts: rec.facts.Clone(), unsync: rec.unsync}
			w.through(rec)
			w.l.Continue(SLoop)
			w.r.Continue(SLoop)
			p.stack = append(p.stack, w)
			before := p.generalised
			if !p.explore() || len(p.Divs) > 0 {
				return
			}
			if p.generalised != before || rec.n != n {
				changed = true
			}
		}
	}
}

func keysOf(m map[string]*loopRec) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Steps is the number of steps taken.
func (p *Product) Steps() int { return p.iters }

const (
	maxForks  = 600      // on one path
	maxWeight = 30000000 // of the terms that an exploration makes
)

// explore works off the stack; it is false if it gives up.
func (p *Product) explore() bool {
	start := p.U.weight
	for len(p.stack) > 0 {
		w := p.stack[len(p.stack)-1]
		p.stack = p.stack[:len(p.stack)-1]
		p.iters++
		if p.Unroll > 0 && (w.forks > maxForks || p.U.weight-start > maxWeight) {
			p.Full = false
			p.Undec = "too long paths"
			return false
		}
		if p.iters > p.MaxPaths {
			p.Full = false
			if p.Unroll > 0 {
				p.Undec = "too many paths"
				return false
			}
			p.report(&Divergence{Kind: "undecided", Detail: fmt.Sprintf("more than %d steps", p.MaxPaths), Left: w.l.Where(), Right: w.r.Where()}, &w)
			return false
		}
		if len(p.Divs) >= p.MaxDivs {
			return false
		}
		p.stack = append(p.stack, p.advance(w)...)
	}
	return true
}

var kindName = map[StallKind]string{SBranch: "branches", SLoop: "loops", SEvent: "calls", SReturn: "returns", SThrow: "raises", SFail: "is not understood"}

// toLoop runs to the next point where there is something to decide. A loop that
// goes straight into another one is cut there.
func toLoop(s *Side, facts *Facts) *Stall {
	a := (*s).Run(facts)
	for n := 0; a.Kind == SLoop && n < 4; n++ {
		c := (*s).Clone()
		c.Continue(SLoop)
		b := c.Run(facts)
		if b.Kind != SLoop || b.Key == a.Key {
			break
		}
		*s, a = c, b
	}
	return a
}

func (p *Product) advance(w work) []work {
	u := p.U
	for {
		a := toLoop(&w.l, w.facts)
		if a.Kind == SBranch {
			if !w.unsync && (w.about(a.T) || w.lost(a.T)) {
				// only one program asks about a value a join made, or of
				// which a join does not know all that is known
				b := w.r.Run(w.facts)
				if b.Kind == SBranch && near(a.T, b.T) {
					w.paired = b.T
				} else if b.Kind != SBranch || b.T != a.T {
					w.unsync = true
				}
			}
			return p.fork(w, a.T)
		}
		b := toLoop(&w.r, w.facts)
		if p.Trace != nil {
			p.Trace(fmt.Sprintf("L %s %s%s   R %s %s%s", a.Pos, kindName[a.Kind], show(a.T), b.Pos, kindName[b.Kind], show(b.T)))
		}
		if b.Kind == SBranch {
			if w.paired != b.T && (w.about(b.T) || w.lost(b.T)) {
				w.unsync = true
			}
			return p.fork(w, b.T)
		}
		if (a.Kind == SFail || b.Kind == SFail) && p.Unroll > 0 {
			p.Full = false
			p.Undec = a.Msg + b.Msg
			return nil
		}
		if a.Kind == SFail || b.Kind == SFail {
			d := &Divergence{Kind: "undecided", Left: a.Pos, Right: b.Pos}
			if a.Kind == SFail {
				d.Detail = "left: " + a.Msg
			} else {
				d.Detail = "right: " + b.Msg
			}
			p.report(d, &w)
			return nil
		}
		switch {
		case p.Unroll > 0 && (a.Kind == SLoop || b.Kind == SLoop):
			// a loop that comes back to the same state never ends
			ends := []bool{true, true}
			for i, x := range []*Stall{a, b} {
				if x.Kind == SLoop {
					s := []Side{w.l, w.r}[i]
					if !w.pass("LR"[i:i+1]+x.Key, p.Unroll, x.Counted) {
						p.Cut++
						return nil
					}
					ends[i] = w.moves("LR"[i:i+1]+x.Key, s)
					s.Continue(SLoop)
				}
			}
			switch {
			case !ends[0] && !ends[1]:
				p.Cut++
				return nil
			case !ends[0] && b.Kind != SLoop || !ends[1] && a.Kind != SLoop:
				p.report(&Divergence{Kind: "call", Left: a.Pos, Right: b.Pos, LT: a.T, RT: b.T,
					Detail: "one " + endless(!ends[0], a) + " where the other " + endless(!ends[1], b)}, &w)
				return nil
			}
			continue
		case a.Kind == SLoop && b.Kind == SLoop:
			if !p.settle(a, b, &w) {
				return nil
			}
			w.solo = 0
			n, ok := p.join(w, a.Key, b.Key, a, b)
			if !ok {
				return nil
			}
			w = n
			rec := p.last
			w.through(rec)
			if !rec.synced(w) {
				w.unsync = true
			}
			rec.unsync = w.unsync
			w.l.Continue(SLoop)
			w.r.Continue(SLoop)
			continue
		case a.Kind == SLoop || b.Kind == SLoop:
			w.unsync = true
			if x := other(a, b); x.Kind == SEvent && p.quiet(&w) {
				// one program comes to a loop while the other waits with a
				// call: the two places are joined like two loop heads
				if w.solo++; w.solo <= 5 {
					n, ok := p.join(w, a.Key+"@"+w.l.Key(), b.Key+"@"+w.r.Key(), a, b)
					if !ok {
						return nil
					}
					w = n
					w.through(p.last)
					w.unsync = true
					p.last.unsync = true
					if a.Kind == SLoop {
						w.l.Continue(SLoop)
					} else {
						w.r.Continue(SLoop)
					}
					continue
				}
			}
			w.passes++
			if w.passes > 5 || w.solo > 5 {
				p.report(&Divergence{Kind: "undecided", Left: a.Pos, Right: b.Pos, Detail: "a loop of one program has no counterpart in the other"}, &w)
				return nil
			}
			if a.Kind == SLoop {
				w.l.Continue(SLoop)
			} else {
				w.r.Continue(SLoop)
			}
			continue
		case a.Kind == SEvent && b.Kind == SEvent:
			x, y := w.facts.Norm(u, a.T), w.facts.Norm(u, b.T)
			if x != y {
				p.diff("call", a, b, x, y, &w)
				return nil
			}
			if !p.settle(a, b, &w) {
				return nil
			}
			p.Events++
			w.solo = 0
			w.l.Continue(SEvent)
			w.r.Continue(SEvent)
			continue
		case a.Kind == SThrow && b.Kind == SThrow:
			p.Paths++
			norm := func(t *Term) *Term { return w.facts.Norm(u, t) }
			x := norm(w.l.St().Freeze(u, a.T, norm, nil))
			y := norm(w.r.St().Freeze(u, b.T, norm, nil))
			if x != y {
				p.diff("error", a, b, x, y, &w)
				return nil
			}
			p.settle(a, b, &w)
			return nil
		case a.Kind == SReturn && b.Kind == SReturn:
			p.Paths++
			if p.settle(a, b, &w) {
				p.compareExit(w, a, b)
			}
			return nil
		}
		p.report(&Divergence{Kind: "call", Left: a.Pos, Right: b.Pos, LT: a.T, RT: b.T, Raise: (a.Kind == SThrow) != (b.Kind == SThrow),
			Detail: fmt.Sprintf("one %s%s where the other %s%s", kindName[a.Kind], show(a.T), kindName[b.Kind], show(b.T))}, &w)
		return nil
	}
}

// settle compares the calls that may raise an error but change nothing.
func (p *Product) settle(a, b *Stall, w *work) bool {
	l, r := w.l.St(), w.r.St()
	if len(l.pend) == 0 && len(r.pend) == 0 {
		return true
	}
	norm := func(m map[*Term]bool) map[*Term]bool {
		n := map[*Term]bool{}
		for t := range m {
			n[w.facts.Norm(p.U, t)] = true
		}
		return n
	}
	only := func(x, y map[*Term]bool) *Term {
		var d *Term
		for t := range x {
			if !y[t] && (d == nil || t.ID < d.ID) {
				d = t
			}
		}
		return d
	}
	x, y := norm(l.pend), norm(r.pend)
	l.pend, r.pend = map[*Term]bool{}, map[*Term]bool{}
	p.Events += len(x)
	s, t := only(x, y), only(y, x)
	switch {
	case s == nil && t == nil:
		return true
	case s != nil && t != nil:
		p.diff("call", a, b, s, t, w)
	default:
		d := &Divergence{Kind: "call", Left: a.Pos, Right: b.Pos, LT: s, RT: t, Raise: true}
		if s != nil {
			d.Detail = "only here there is a call of" + show(s)
		} else {
			d.Detail = "missing here is the call of" + show(t)
		}
		p.report(d, w)
	}
	return false
}

// other is what the program does that is not at a loop head.
func other(a, b *Stall) *Stall {
	if a.Kind == SLoop {
		return b
	}
	return a
}

// quiet: no calls are left to be compared.
func (p *Product) quiet(w *work) bool {
	for _, m := range []map[*Term]bool{w.l.St().pend, w.r.St().pend} {
		if len(m) > 0 {
			return false
		}
	}
	return true
}

func show(t *Term) string {
	if t == nil {
		return ""
	}
	return " " + t.str(4)
}

func (p *Product) diff(kind string, a, b *Stall, x, y *Term, w *work) {
	p.report(&Divergence{Kind: kind, Left: a.Pos, Right: b.Pos, LT: x, RT: y, Detail: explain(kind, x, y)}, w)
}

// Path lists the record fields on the way to the difference, without types.
func (d *Divergence) Path() []string {
	out := d.path()
	for i, s := range out {
		out[i] = s[strings.LastIndexByte(s, '.')+1:]
	}
	return out
}

func (d *Divergence) path() []string {
	var out []string
	if d.Field != "" {
		out = append(out, d.Field)
	}
	x, y := d.LT, d.RT
	for n := 0; x != nil && y != nil && n < 60; n++ {
		if x.Op != y.Op || len(x.Args) != len(y.Args) {
			if x.Op == "field" && x.S != "" {
				out = append(out, x.S)
			}
			return out
		}
		if x.Op == "ent" || x.Op == "st" || x.Op == "field" {
			out = append(out, x.S)
		}
		if x.S != y.S {
			return out
		}
		k, m := -1, 0
		for i := range x.Args {
			if x.Args[i] != y.Args[i] {
				if k < 0 {
					k = i
				}
				m++
			}
		}
		if k < 0 {
			return out
		}
		if x.Op == "rec" {
			out = append(out, x.Args[k-k%2].S)
		}
		x, y = x.Args[k], y.Args[k]
	}
	return out
}

// explain describes the smallest difference of two terms.
func explain(kind string, x, y *Term) string {
	path := ""
	for d := 0; d < 30; d++ {
		if x.Op == "pure" && y.Op == "pure" && x.S == y.S && x.N == y.N && len(x.Args) != len(y.Args) {
			if fmt.Sprint(x.Args[:x.N]) == fmt.Sprint(y.Args[:x.N]) {
				return fmt.Sprintf("%s differs%s: %s is called in different states: %s", kind, path, x.S, stateDiff(x.Args[x.N:], y.Args[x.N:]))
			}
		}
		if x.Op != y.Op || x.S != y.S || x.N != y.N || len(x.Args) != len(y.Args) {
			break
		}
		k, n := -1, 0
		if x.Op == "pure" && int(x.N) < len(x.Args) {
			if d := stateDiff(x.Args[x.N:], y.Args[x.N:]); d != "" && fmt.Sprint(x.Args[:x.N]) == fmt.Sprint(y.Args[:x.N]) {
				return fmt.Sprintf("%s differs%s: %s is called in different states: %s", kind, path, x.S, d)
			}
		}
		for i := range x.Args {
			if x.Args[i] != y.Args[i] {
				if k < 0 {
					k = i
				}
				n++
			}
		}
		if k < 0 || n > 3 {
			break
		}
		if x.Op == "rec" {
			path += "." + x.Args[k-k%2].S
		} else {
			path += fmt.Sprintf("/%s%s#%d", x.Op, x.S, k)
		}
		x, y = x.Args[k], y.Args[k]
	}
	return fmt.Sprintf("%s differs%s: %s versus %s", kind, func() string {
		if path == "" {
			return ""
		}
		return " at " + path
	}(), x.str(4), y.str(4))
}

// stateDiff describes how two digests of the heap differ.
func stateDiff(a, b []*Term) string {
	in := func(t *Term, l []*Term) bool {
		for _, x := range l {
			if x == t {
				return true
			}
		}
		return false
	}
	var l, r []string
	var lt, rt *Term
	for _, t := range a {
		if !in(t, b) {
			lt = t
			l = append(l, t.str(4))
		}
	}
	for _, t := range b {
		if !in(t, a) {
			rt = t
			r = append(r, t.str(4))
		}
	}
	if len(l)+len(r) == 0 {
		return ""
	}
	if len(l) == 1 && len(r) == 1 && l[0] == r[0] {
		return explain("its history", lt, rt)
	}
	return strings.Join(l, "; ") + " versus " + strings.Join(r, "; ")
}

// nilTest recognises a test of a pointer; isnil is the outcome for nil.
func nilTest(c *Term) (x *Term, isnil bool) {
	isnil = true
	for c.Op == "not" {
		c, isnil = c.Args[0], !isnil
	}
	if c.Op == "eq" && c.Args[1].Op == "nil" {
		return c.Args[0], isnil
	}
	return nil, false
}

func (p *Product) fork(w work, c *Term) []work {
	p.Branches++
	if p.Trace != nil {
		p.Trace(fmt.Sprintf("fork %s %d %s", w.l.Where(), c.ID, c.str(5)))
	}
	var out []work
	// a pointer that was followed is not nil
	if x, isnil := nilTest(c); x != nil {
		norm := func(t *Term) *Term { return w.facts.Norm(p.U, t) }
		dl, dr := w.l.St().Accessed(x, norm), w.r.St().Accessed(x, norm)
		if dl && dr {
			f := w.facts.Clone()
			if !f.Assume(p.U, c, !isnil) {
				return nil
			}
			w.facts = f
			return []work{w}
		}
		if dl || dr {
			a := w
			a.facts = w.facts.Clone()
			if a.facts.Assume(p.U, c, !isnil) {
				a.l, a.r = w.l.Clone(), w.r.Clone()
				out = append(out, a)
			}
			b := w
			b.facts = w.facts.Clone()
			b.forks++
			s := b.l
			if dr {
				s = b.r
			}
			if g, ok := s.(*GoSide); ok && !g.catching() && b.facts.Assume(p.U, c, isnil) {
				g.Crash()
				out = append(out, b)
			}
			return out
		}
	}
	l2, r2, f2 := w.l.Clone(), w.r.Clone(), w.facts.Clone()
	if f2.Assume(p.U, c, false) {
		out = append(out, work{l2, r2, f2, w.passes, w.solo, w.forks + 1, w.visits, w.since, w.sig, w.unsync, w.paired})
	}
	f1 := w.facts.Clone()
	if f1.Assume(p.U, c, true) {
		out = append(out, work{w.l, w.r, f1, w.passes, w.solo, w.forks + 1, w.visits, w.since, w.sig, w.unsync, w.paired})
	}
	return out
}

// compareExit compares results and the visible state.
func (p *Product) compareExit(w work, a, b *Stall) {
	u := p.U
	norm := func(t *Term) *Term { return w.facts.Norm(u, t) }
	x := norm(w.l.St().Freeze(u, a.T, norm, nil))
	y := norm(w.r.St().Freeze(u, b.T, norm, nil))
	if x != y && !(isZero(x) && isZero(y)) {
		p.diff("result", a, b, x, y, &w)
		return
	}
	if p.NoState {
		return
	}
	p.compareState(w, a, b, nil)
}

type ent struct {
	o *Term
	f string
	k *Term
}

// entries is the visible state of a side in comparable form.
func entries(u *Universe, st *State, norm func(*Term) *Term) map[ent]*Term {
	m := map[ent]*Term{}
	for k, v := range st.heap {
		if st.hidden(k.o) || k.o.Op == "rec" || u.isValue(k.o) {
			continue
		}
		if k.o.isNew() && k.o.S == "slice" && st.sliceList(u, k.o, norm, func(t *Term) *Term { return t }) != nil {
			continue // a value, compared where it is used
		}
		e := ent{norm(k.o), k.f, k.k}
		if k.k != nil {
			e.k = norm(k.k)
		}
		m[e] = norm(st.Freeze(u, v, norm, func(t *Term) bool { return false }))
	}
	return m
}

func (p *Product) compareState(w work, a, b *Stall, skip func(ent) bool) {
	u := p.U
	norm := func(t *Term) *Term { return w.facts.Norm(u, t) }
	ls, rs := w.l.St(), w.r.St()
	le, re := entries(u, ls, norm), entries(u, rs, norm)
	var all []ent
	for e := range le {
		all = append(all, e)
	}
	for e := range re {
		if _, ok := le[e]; !ok {
			all = append(all, e)
		}
	}
	sort.Slice(all, func(i, j int) bool {
		if all[i].f != all[j].f {
			return all[i].f < all[j].f
		}
		return all[i].o.ID < all[j].o.ID
	})
	dflt := func(st *State, e ent) *Term {
		if e.o.isNew() {
			return u.Nil()
		}
		if e.k != nil {
			return norm(st.LoadKey(u, e.o, e.k, u.Nil()))
		}
		return norm(st.Load(u, e.o, e.f, u.Nil()))
	}
	for _, e := range all {
		if p.Ignore[e.f] {
			continue
		}
		x, y := le[e], re[e]
		if x == nil {
			x = dflt(ls, e)
		}
		if y == nil {
			y = dflt(rs, e)
		}
		if x == y || (isZero(x) && isZero(y)) {
			continue
		}
		what := "state " + e.o.str(3) + "." + e.f
		p.report(&Divergence{Kind: "state", Field: e.f, Left: a.Pos, Right: b.Pos, LT: x, RT: y, Detail: explain(what, x, y)}, &w)
		return
	}
	for _, f := range verFields(ls, rs) {
		if p.Ignore[f] {
			continue
		}
		x, y := verOf(u, ls, f), verOf(u, rs, f)
		x, y = norm(x), norm(y)
		if x != y {
			p.report(&Divergence{Kind: "state", Field: f, Left: a.Pos, Right: b.Pos, LT: x, RT: y, Detail: explain("history of field "+f, x, y)}, &w)
			return
		}
	}
}

func verFields(a, b *State) []string {
	m := map[string]bool{}
	for f := range a.ver {
		m[f] = true
	}
	for f := range b.ver {
		m[f] = true
	}
	return keys(m)
}

func verOf(u *Universe, s *State, f string) *Term {
	if v := s.ver[f]; v != nil {
		return v
	}
	return u.Named("v0")
}

// joins ----------------------------------------------------------------------

// normalise rewrites a side with what is known.
func normSide(u *Universe, s Side, f *Facts) {
	norm := func(t *Term) *Term { return f.Norm(u, t) }
	s.Slots(func(_ string, t *Term, set func(*Term)) { set(norm(t)) })
	st := s.St()
	h := map[hkey]*Term{}
	for k, v := range st.heap {
		nk := hkey{norm(k.o), k.f, k.k}
		if k.k != nil {
			nk.k = norm(k.k)
		}
		h[nk] = norm(v)
	}
	st.heap = h
	for k, v := range st.ver {
		st.ver[k] = norm(v)
	}
}

func objectsOf(s Side) map[*Term]bool {
	m := map[*Term]bool{}
	add := func(t *Term) {
		for _, o := range newIn(t) {
			m[o] = true
		}
	}
	s.Slots(func(_ string, t *Term, _ func(*Term)) { add(t) })
	for k, v := range s.St().heap {
		if k.o.isNew() {
			m[k.o] = true
		}
		add(v)
	}
	return m
}

// fold replaces the objects for which keep fails by their contents.
func fold(u *Universe, s Side, f *Facts, keep func(*Term) bool) {
	norm := func(t *Term) *Term { return f.Norm(u, t) }
	st := s.St()
	has := func(t *Term) bool {
		for _, o := range newIn(t) {
			if !keep(o) {
				return true
			}
		}
		return false
	}
	fz := func(t *Term) *Term {
		if !has(t) {
			return t
		}
		return st.Freeze(u, t, norm, keep)
	}
	s.Slots(func(_ string, t *Term, set func(*Term)) { set(fz(t)) })
	h := map[hkey]*Term{}
	for k, v := range st.heap {
		b := k.o
		for b.Op == "faddr" {
			b = b.Args[0]
		}
		if b.isNew() && !keep(b) {
			continue
		}
		h[k] = fz(v)
	}
	st.heap = h
	for o := range st.esc {
		if !keep(o) {
			delete(st.esc, o)
		}
	}
}

// collectGarbage drops objects made here that nothing refers to any more.
func collectGarbage(s Side) {
	st := s.St()
	base := func(o *Term) *Term {
		for o.Op == "faddr" {
			o = o.Args[0]
		}
		return o
	}
	reach := map[*Term]bool{}
	var todo []*Term
	add := func(t *Term) {
		for _, o := range newIn(t) {
			if !reach[o] {
				reach[o] = true
				todo = append(todo, o)
			}
		}
	}
	s.Slots(func(_ string, t *Term, _ func(*Term)) { add(t) })
	byObj := map[*Term][]hkey{}
	for k, v := range st.heap {
		b := base(k.o)
		byObj[b] = append(byObj[b], k)
		if !b.isNew() {
			add(v)
		}
	}
	for o := range st.esc {
		add(o)
	}
	for len(todo) > 0 {
		o := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, k := range byObj[o] {
			add(st.heap[k])
			if k.k != nil {
				add(k.k)
			}
		}
	}
	for k := range st.heap {
		if b := base(k.o); b.isNew() && !reach[b] {
			delete(st.heap, k)
		}
	}
}

// align renames objects of the state that play the part of an object of the
// recorded state, where that object is gone.
func (p *Product) align(rec *loopRec, w work) {
	u := p.U
	occurs := func(o *Term) bool {
		hit := false
		for _, s := range []Side{w.l, w.r} {
			s.Slots(func(_ string, t *Term, _ func(*Term)) { hit = hit || t.Contains(o) })
			st := s.St()
			for k, v := range st.heap {
				hit = hit || k.o.Contains(o) || v.Contains(o) || k.k != nil && k.k.Contains(o)
			}
			for _, v := range st.ver {
				hit = hit || v.Contains(o)
			}
		}
		if !hit {
			for _, a := range w.facts.atoms(u) {
				hit = hit || a.Contains(o)
			}
		}
		return hit
	}
	rename := func(n, o *Term) {
		memo := map[*Term]*Term{}
		re := func(t *Term) *Term {
			return u.Rewrite(t, func(x *Term) *Term {
				if x == n {
					return o
				}
				return nil
			}, memo)
		}
		for _, s := range []Side{w.l, w.r} {
			s.Slots(func(_ string, t *Term, set func(*Term)) { set(re(t)) })
			st := s.St()
			h := map[hkey]*Term{}
			for k, v := range st.heap {
				nk := hkey{re(k.o), k.f, k.k}
				if k.k != nil {
					nk.k = re(k.k)
				}
				h[nk] = re(v)
			}
			st.heap = h
			for k, v := range st.ver {
				st.ver[k] = re(v)
			}
			if at, ok := st.esc[n]; ok {
				delete(st.esc, n)
				st.esc[o] = at
			}
		}
		f := NewFacts()
		for _, a := range w.facts.atoms(u) {
			f.Assume(u, re(a), true)
		}
		*w.facts = *f
	}
	for changed := true; changed; {
		changed = false
		try := func(o, n *Term) bool {
			if o == nil || n == nil || o == n || o.Op != "new" || n.Op != "new" || o.S != n.S || !rec.objs[o] || rec.objs[n] {
				return false
			}
			if fmt.Sprint(o.Args[1:]) != fmt.Sprint(n.Args[1:]) || occurs(o) {
				return false
			}
			rename(n, o)
			return true
		}
		for _, pr := range [][2]Side{{rec.l, w.l}, {rec.r, w.r}} {
			om := map[string]*Term{}
			pr[0].Slots(func(name string, t *Term, _ func(*Term)) { om[name] = t })
			var cand [][2]*Term
			pr[1].Slots(func(name string, t *Term, _ func(*Term)) { cand = append(cand, [2]*Term{om[name], t}) })
			var ks []hkey
			for k := range pr[1].St().heap {
				ks = append(ks, k)
			}
			sortKeys(ks)
			for _, k := range ks {
				cand = append(cand, [2]*Term{pr[0].St().heap[k], pr[1].St().heap[k]})
			}
			for _, c := range cand {
				if try(c[0], c[1]) {
					changed = true
					break
				}
			}
		}
	}
}

func sortKeys(hk []hkey) {
	sort.Slice(hk, func(i, j int) bool {
		if hk[i].o.ID != hk[j].o.ID {
			return hk[i].o.ID < hk[j].o.ID
		}
		if hk[i].f != hk[j].f {
			return hk[i].f < hk[j].f
		}
		if hk[i].k == nil || hk[j].k == nil {
			return hk[i].k == nil && hk[j].k != nil
		}
		return hk[i].k.ID < hk[j].k.ID
	})
}

const maxParts = 4

// flags are the boolean variables of a side whose value is known.
func flags(s Side) string {
	g, ok := s.(*GoSide)
	if !ok {
		return ""
	}
	return g.Flags()
}

// join merges the state with what reached this pair of loop heads before. It
// returns false if nothing new came.
func (p *Product) join(w work, at, bt string, a, b *Stall) (work, bool) {
	u := p.U
	key := at + "|" + bt
	normSide(u, w.l, w.facts)
	normSide(u, w.r, w.facts)
	collectGarbage(w.l)
	collectGarbage(w.r)
	// states with different flags are kept apart, unless there are too many
	if f := flags(w.l) + "|" + flags(w.r); f != "|" {
		if p.parts == nil {
			p.parts = map[string]map[string]bool{}
		}
		m := p.parts[key]
		if m == nil {
			m = map[string]bool{}
			p.parts[key] = m
		}
		if m[f] || len(m) < maxParts {
			m[f] = true
			key += "|" + f
		}
	}
	rec := p.loops[key]
	p.last = rec
	if rec == nil {
		rec = &loopRec{objs: objectsOf(w.l), syms: map[*Term]bool{}}
		for o := range objectsOf(w.r) {
			rec.objs[o] = true
		}
		p.loops[key] = rec
		p.last = rec
		for _, s := range []Side{w.l, w.r} {
			s.St().epoch = key
			s.St().cnt = map[string]int{}
			s.St().deref = map[*Term]bool{}
		}
		rec.l, rec.r, rec.facts = w.l.Clone(), w.r.Clone(), w.facts.Clone()
		return w, true
	}
	p.Joins++
	if rec.n > 60 {
		p.report(&Divergence{Kind: "undecided", Left: a.Pos, Right: b.Pos, Detail: "no fixed point at this loop"}, &w)
		return w, false
	}
	for _, s := range []Side{w.l, w.r} {
		s.St().deref = map[*Term]bool{}
	}
	p.align(rec, w)
	keep := func(o *Term) bool { return rec.objs[o] }
	fold(u, w.l, w.facts, keep)
	fold(u, w.r, w.facts, keep)
	normSide(u, w.l, w.facts)
	normSide(u, w.r, w.facts)
	for _, s := range []Side{w.l, w.r} {
		s.St().epoch = key
		s.St().cnt = map[string]int{}
	}
	g := p.generalise(rec, w)
	covered := true
	for {
		any, old := forget(u, rec, w, g)
		if !any {
			break
		}
		covered = covered && !old
		g = p.generalise(rec, w)
	}
	for _, s := range g.slots {
		t := g.au(s.o, s.n)
		if t != s.o {
			covered = false
			if p.Trace != nil {
				p.Trace(fmt.Sprintf("join %d %s: %s  ~  %s  =>  %s", rec.n, s.name, s.o.str(3), s.n.str(3), t.str(3)))
			}
		}
		s.set(t)
	}
	if !g.sameEsc(rec, w) {
		covered = false
	}
	if rec.dropped == nil {
		rec.dropped = map[*Term]bool{}
	}
	facts, same := g.facts(rec.facts, w.facts, rec.dropped)
	if covered && same {
		return w, false
	}
	p.generalised++
	if p.Trace != nil && covered {
		p.Trace(fmt.Sprintf("join %d: facts", rec.n))
	}
	w.facts = facts
	rec.n++
	// What waits with a less general state of this loop is given up.
	var live []work
	for _, x := range p.stack {
		if !x.stale() {
			live = append(live, x)
		}
	}
	p.stack = live
	rec.l, rec.r, rec.facts = w.l.Clone(), w.r.Clone(), facts.Clone()
	return w, true
}

// lasting reports whether t stands for the same in all rounds of the loop.
func (r *loopRec) lasting(t *Term) bool {
	seen := map[*Term]bool{}
	var ok func(t *Term) bool
	ok = func(t *Term) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		if r.syms[t] || t.Op == "new" {
			return false
		}
		for _, a := range t.Args {
			if !ok(a) {
				return false
			}
		}
		return true
	}
	return ok(t)
}

// generalise pairs the values of the recorded state with those of the new one
// and names what differs.
func (p *Product) generalise(rec *loopRec, w work) *gen {
	u := p.U
	g := &gen{u: u, syms: rec.syms, pairs: map[[2]*Term]*Term{}, debug: p.Trace}
	// a value that is known to be the other one in one of the states
	alike := func(x, y *Term) (*Term, *Term) {
		if x == y || !(rec.lasting(x) && rec.lasting(y)) {
			return x, y
		}
		if w.facts.Norm(u, x) == y {
			return x, x
		}
		if rec.facts.Norm(u, y) == x {
			return y, y
		}
		return x, y
	}
	collect := func(side string, o, n Side) {
		om := map[string]*Term{}
		o.Slots(func(name string, t *Term, _ func(*Term)) { om[name] = t })
		n.Slots(func(name string, t *Term, set func(*Term)) {
			if om[name] == nil {
				// not set on the other path: of no use
				return
			}
			x, y := alike(om[name], t)
			g.slots = append(g.slots, slot{side + name, x, y, set})
		})
		os, ns := o.St(), n.St()
		var hk []hkey
		for k := range ns.heap {
			hk = append(hk, k)
		}
		for k := range os.heap {
			if _, ok := ns.heap[k]; !ok {
				hk = append(hk, k)
			}
		}
		sortKeys(hk)
		for _, k := range hk {
			k := k
			get := func(s *State) *Term {
				if v := s.heap[k]; v != nil {
					return v
				}
				if k.o.isNew() {
					return u.Nil()
				}
				if k.k != nil {
					return s.LoadKey(u, k.o, k.k, u.Nil())
				}
				return s.Load(u, k.o, k.f, u.Nil())
			}
			x, y := get(os), get(ns)
			if isZero(x) && isZero(y) {
				x = y
			}
			x, y = alike(x, y)
			g.slots = append(g.slots, slot{fmt.Sprintf("%s%s.%s", side, k.o, k.f), x, y, func(t *Term) { ns.heap[k] = t }})
		}
		for _, f := range verFields(os, ns) {
			f := f
			g.slots = append(g.slots, slot{side + "ver " + f, verOf(u, os, f), verOf(u, ns, f), func(t *Term) {
				if t == u.Named("v0") {
					delete(ns.ver, f)
				} else {
					ns.ver[f] = t
				}
			}})
		}
	}
	collect("L ", rec.l, w.l)
	collect("R ", rec.r, w.r)
	for _, s := range g.slots {
		g.au(s.o, s.n)
	}
	g.name()
	return g
}

type slot struct {
	name string
	o, n *Term
	set  func(*Term)
}

// forget drops the entries of the heap whose object or key is not the same
// thing in both states, though it has the same name. They become part of the
// history of the field. old is true if the recorded state had some.
func forget(u *Universe, rec *loopRec, w work, g *gen) (any, old bool) {
	moved := map[*Term]bool{}
	for _, k := range g.list {
		if rec.syms[k[0]] && (k[0] != k[1] || g.pairs[k] != k[0]) {
			moved[k[0]] = true
		}
	}
	if len(moved) == 0 {
		return false, false
	}
	memo := map[*Term]bool{}
	var has func(t *Term) bool
	has = func(t *Term) bool {
		if r, ok := memo[t]; ok {
			return r
		}
		r := moved[t]
		for _, a := range t.Args {
			r = r || has(a)
		}
		memo[t] = r
		return r
	}
	for i, s := range []Side{rec.l, rec.r, w.l, w.r} {
		st := s.St()
		var hk []hkey
		for k := range st.heap {
			if has(k.o) || k.k != nil && has(k.k) {
				hk = append(hk, k)
			}
		}
		sortKeys(hk)
		for _, k := range hk {
			any = true
			old = old || i < 2
			v := st.heap[k]
			delete(st.heap, k)
			if k.k != nil && !has(k.o) && st.heap[hkey{k.o, "[]#", nil}] != nil {
				continue // in the history of the table
			}
			as := []*Term{verOf(u, st, k.f), k.o, v}
			if k.k != nil {
				as = append(as, k.k)
			}
			st.clock++
			st.ver[k.f] = u.App("wr", "", as...)
			st.verAt[k.f] = st.clock
		}
	}
	return any, old
}

// sameEsc merges what is known of objects made here and seen outside; it is
// false if less is known than before.
func (g *gen) sameEsc(rec *loopRec, w work) bool {
	same := true
	for _, pr := range [][2]Side{{rec.l, w.l}, {rec.r, w.r}} {
		os, ns := pr[0].St(), pr[1].St()
		for o, at := range os.esc {
			if _, ok := ns.esc[o]; !ok {
				ns.esc[o] = at
			}
		}
		for o, at := range ns.esc {
			was, ok := os.esc[o]
			if !ok {
				same = false
				continue
			}
			if was < 0 {
				ns.esc[o] = -1
				continue
			}
			for f, v := range ns.verAt {
				if (v > at) != (os.verAt[f] > was) {
					ns.esc[o] = -1
					same = false
				}
			}
		}
	}
	return same
}

// gen is anti-unification with names shared by both sides.
type gen struct {
	u     *Universe
	syms  map[*Term]bool // symbols made at this head
	pairs map[[2]*Term]*Term
	list  [][2]*Term
	named bool
	ints  map[int64][3]*Term // difference -> base old, base new, symbol
	memo  map[[2]*Term]*Term
	debug func(string)
	slots []slot
}

func (g *gen) pair(o, n *Term) *Term {
	k := [2]*Term{o, n}
	// what a zero value is called does not matter
	if isZero(o) {
		k[0] = g.u.Int(0)
	}
	if isZero(n) {
		k[1] = g.u.Int(0)
	}
	if g.named {
		return g.pairs[k]
	}
	if _, ok := g.pairs[k]; !ok {
		g.pairs[k] = nil
		g.list = append(g.list, k)
	}
	return o
}

func (g *gen) hasSym(t *Term) bool {
	if g.syms[t] {
		return true
	}
	for _, a := range t.Args {
		if g.hasSym(a) {
			return true
		}
	}
	return false
}

func (g *gen) au(o, n *Term) *Term {
	if g.memo == nil {
		g.memo = map[[2]*Term]*Term{}
	}
	k := [2]*Term{o, n}
	if r, ok := g.memo[k]; ok {
		return r
	}
	r := g.au1(o, n)
	g.memo[k] = r
	return r
}

func (g *gen) au1(o, n *Term) *Term {
	u := g.u
	if o.Op == "nil" && n.IsInt() {
		o = u.Int(0)
	}
	if n.Op == "nil" && o.IsInt() {
		n = u.Int(0)
	}
	if g.syms[o] {
		return g.pair(o, n)
	}
	if o == n {
		if !g.hasSym(o) {
			return o
		}
	}
	// o = s + c
	if o.Op == "lin" && len(o.Args) == 1 && o.S == "1" && g.syms[o.Args[0]] {
		return u.Add(g.au(o.Args[0], u.Sub(n, u.Int(o.N))), u.Int(o.N))
	}
	// o = s + rest
	if o.Op == "lin" && !(isZero(n) && !n.IsInt()) && n.Op != "new" {
		var sym *Term
		k := 0
		cs := strings.Split(o.S, ",")
		for i, a := range o.Args {
			if g.hasSym(a) {
				k++
				if g.syms[a] && cs[i] == "1" {
					sym = a
				}
			}
		}
		if k == 1 && sym != nil {
			rest := u.Sub(o, sym)
			return u.Add(g.au(sym, u.Sub(n, rest)), rest)
		}
	}
	lo, ln := u.toLin(o), u.toLin(n)
	if (o.Op == "lin" || o.IsInt()) && (n.Op == "lin" || n.IsInt()) || (o.Op == "lin" || n.Op == "lin") {
		d := ln.add(lo, -1)
		if len(d.c) == 0 && d.k != 0 { // n = o + d
			base := u.Sub(o, u.Int(lo.k))
			if !g.hasSym(base) {
				return u.Add(base, g.intPair(u.Int(lo.k), u.Int(ln.k), d.k))
			}
		}
	}
	if o.Op == n.Op && o.S == n.S && o.N == n.N && len(o.Args) == len(n.Args) && len(o.Args) > 0 && o.Op != "new" {
		as := make([]*Term, len(o.Args))
		for i := range as {
			as[i] = g.au(o.Args[i], n.Args[i])
		}
		if !g.named {
			return o
		}
		return u.Rebuild(o, as)
	}
	return g.pair(o, n)
}

func (g *gen) intPair(o, n *Term, d int64) *Term {
	if g.ints == nil {
		g.ints = map[int64][3]*Term{}
	}
	e, ok := g.ints[d]
	if !ok {
		e = [3]*Term{o, n, nil}
		g.ints[d] = e
	}
	if !g.named {
		return o
	}
	if e[2] == nil {
		e[2] = g.u.Sym("φ")
		g.syms[e[2]] = true
		g.ints[d] = e
	}
	return g.u.Add(e[2], g.u.Int(o.N-e[0].N))
}

// name chooses a symbol for every pair.
func (g *gen) name() {
	count := map[*Term]int{}
	for _, k := range g.list {
		count[k[0]]++
	}
	for _, k := range g.list {
		switch {
		case g.syms[k[0]] && (count[k[0]] == 1 || k[0] == k[1]):
			g.pairs[k] = k[0]
		default:
			s := g.u.Sym("φ")
			g.syms[s] = true
			g.pairs[k] = s
		}
	}
	g.named = true
	g.memo = nil
}

// facts keeps what holds of both states. The second result is true if the
// old facts are unchanged.
func (g *gen) facts(old, new *Facts, dropped map[*Term]bool) (*Facts, bool) {
	u := g.u
	// old term -> general term, for pairs that are unambiguous
	gmap := map[*Term]*Term{}
	nmap := map[*Term]*Term{} // general -> new
	dup := map[*Term]bool{}
	for _, k := range g.list {
		s := g.pairs[k]
		nmap[s] = k[1]
		if k[0].IsConst() {
			continue
		}
		if _, ok := gmap[k[0]]; ok {
			dup[k[0]] = true
		}
		gmap[k[0]] = s
	}
	for d, e := range g.ints {
		_ = d
		if e[2] != nil {
			nmap[e[2]] = e[1]
		}
	}
	res := NewFacts()
	same := true
	memo := map[*Term]*Term{}
	toGen := func(t *Term) *Term {
		return u.Rewrite(t, func(x *Term) *Term {
			if dup[x] {
				return nil
			}
			return gmap[x]
		}, memo)
	}
	nm := map[*Term]*Term{}
	toNew := func(t *Term) *Term {
		return u.Rewrite(t, func(x *Term) *Term { return nmap[x] }, nm)
	}
	for _, at := range old.atoms(u) {
		gt := toGen(at)
		kept := false
		if gt != at && !g.hasSym(at) {
			// of values that are the same in both states
			if d, _ := new.Decide(u, at); d == 1 {
				kept = true
				if d2, n2 := res.Decide(u, at); d2 < 0 {
					res.Assume(u, n2, true)
				}
			}
		}
		if d, _ := new.Decide(u, toNew(gt)); d == 1 {
			if d2, n2 := res.Decide(u, gt); d2 < 0 {
				res.Assume(u, n2, true)
			}
			if gt != at && !kept {
				same = false
				if g.debug != nil {
					g.debug("moved " + at.str(4) + " to " + gt.str(4))
				}
			}
		} else if !kept {
			if g.debug != nil {
				g.debug("dropped " + at.str(4))
			}
			dropped[subject(at)] = true
			same = false
		}
	}
	// lower bounds of counters
	for _, e := range g.ints {
		if e[2] != nil && e[0].N < e[1].N {
			res.Assume(u, u.Not(u.Lt(e[2], e[0])), true)
		} else if e[2] != nil {
			res.Assume(u, u.Not(u.Lt(e[0], e[2])), true)
		}
	}
	return res, same
}

// atoms lists the facts as conditions.
func (f *Facts) atoms(u *Universe) []*Term {
	var out []*Term
	for k, v := range f.truth {
		if v {
			out = append(out, k)
		} else {
			out = append(out, u.Not(k))
		}
	}
	for k, v := range f.eq {
		out = append(out, u.Eq(k, v))
	}
	for k, m := range f.ne {
		for c := range m {
			out = append(out, u.Not(u.Eq(k, c)))
		}
	}
	for k, v := range f.lo {
		out = append(out, u.Not(u.Lt(k, u.Int(v))))
	}
	for k, v := range f.hi {
		out = append(out, u.Lt(k, u.Int(v+1)))
	}
	for k, v := range f.subst {
		out = append(out, u.Eq(k, v))
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// Summary of the exploration.
func (p *Product) Summary() string {
	return fmt.Sprintf("%d paths, %d branches, %d calls, %d loop joins", p.Paths, p.Branches, p.Events, p.Joins)
}

var _ = strings.Join
