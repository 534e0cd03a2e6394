// Package mach is an abstract machine over value numbers ("terms"). Two front
// ends drive it: Go SSA (goside.go) and the Vim script reference source
// (vimside.go). It is the common engine of the relational analysis
// (product.go), which computes Herbrand equivalences over the product of two
// control flow graphs, and of the single-program analyses (single.go).
package mach

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// A Term is a hash-consed value number: two terms are the same value iff they
// are the same pointer.
type Term struct {
	ID   int
	Op   string
	S    string // symbol name, field name, string constant
	N    int64  // integer constant
	Args []*Term
}

// Universe interns terms.
type Universe struct {
	tab    map[string]*Term
	next   int
	syms   int
	weight int // of all terms
	// Impl says whether the type named t implements the interface named i.
	Impl func(i, t string) bool
	// Value says whether the objects of the type named t are values: they do
	// not change once made, and nothing looks at which object one is.
	Value func(t string) bool
	// NonNil says whether the result of the function of that name is never nil.
	NonNil func(fn string) bool
	// Table is the contents of a package variable that is an array of strings
	// and never changes.
	Table map[string][]string
}

// entry is the place in a table that t is, if it is one.
func (u *Universe) entry(t *Term) ([]string, *Term) {
	if t.Op != "index" || len(t.Args) != 2 || t.Args[0].Op != "gaddr" {
		return nil, nil
	}
	return u.Table[t.Args[0].S], t.Args[1]
}

// eqEntry is t == b for an entry t of a table: which one it is.
func (u *Universe) eqEntry(t, b *Term) *Term {
	is := func(s string) bool { return s == b.S }
	if t.Op == "len" && b.IsInt() {
		t = t.Args[0]
		is = func(s string) bool { return int64(len(s)) == b.N }
	} else if !b.IsStr() {
		return nil
	}
	tab, i := u.entry(t)
	if tab == nil {
		return nil
	}
	var at []int
	for k, s := range tab {
		if is(s) {
			at = append(at, k)
		}
	}
	switch len(at) {
	case 0:
		return u.Int(0)
	case 1:
		return u.Eq(i, u.Int(int64(at[0])))
	}
	return nil
}

func NewUniverse() *Universe { return &Universe{tab: map[string]*Term{}} }

func (u *Universe) mk(op, s string, n int64, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte(0)
	b.WriteString(s)
	b.WriteByte(0)
	b.WriteString(strconv.FormatInt(n, 36))
	for _, a := range args {
		b.WriteByte(0)
		b.WriteString(strconv.Itoa(a.ID))
	}
	k := b.String()
	if t := u.tab[k]; t != nil {
		return t
	}
	u.next++
	u.weight += len(args) + 1
	t := &Term{ID: u.next, Op: op, S: s, N: n, Args: append([]*Term(nil), args...)}
	u.tab[k] = t
	return t
}

func (u *Universe) Str(s string) *Term { return u.mk("str", s, 0) }
func (u *Universe) Int(n int64) *Term  { return u.mk("int", "", n) }
func (u *Universe) Nil() *Term         { return u.mk("nil", "", 0) }
func (u *Universe) Bool(b bool) *Term {
	if b {
		return u.Int(1)
	}
	return u.Int(0)
}

// Sym returns a new unknown value.
func (u *Universe) Sym(name string) *Term {
	u.syms++
	return u.mk("sym", name, int64(u.syms))
}

// Named returns the unknown value called name.
func (u *Universe) Named(name string) *Term { return u.mk("sym", name, 0) }

func (t *Term) IsConst() bool {
	return t.Op == "str" || t.Op == "int" || t.Op == "nil"
}
func (t *Term) IsStr() bool { return t.Op == "str" }
func (t *Term) IsInt() bool { return t.Op == "int" }

func (t *Term) String() string { return t.str(6) }

// Full prints without depth limit.
func (t *Term) Full() string { return t.str(100) }

func (t *Term) str(d int) string {
	switch t.Op {
	case "str":
		return strconv.Quote(t.S)
	case "int":
		return strconv.FormatInt(t.N, 10)
	case "nil":
		return "nil"
	case "sym":
		if t.N == 0 {
			return t.S
		}
		return fmt.Sprintf("%s#%d", t.S, t.N)
	}
	if d == 0 {
		return "…"
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, a.str(d-1))
	}
	switch t.Op {
	case "field":
		return as[0] + "." + t.S
	case "index":
		return as[0] + "[" + as[1] + "]"
	case "eq":
		return "(" + as[0] + " == " + as[1] + ")"
	case "lt":
		return "(" + as[0] + " < " + as[1] + ")"
	case "not":
		return "!" + as[0]
	case "lin":
		// S holds coefficients
		cs := strings.Split(t.S, ",")
		r := ""
		for i, c := range cs {
			if c == "1" {
				r += "+" + as[i]
			} else if c == "-1" {
				r += "-" + as[i]
			} else {
				r += "+" + c + "*" + as[i]
			}
		}
		if t.N != 0 {
			r += fmt.Sprintf("%+d", t.N)
		}
		return "(" + strings.TrimPrefix(r, "+") + ")"
	case "concat":
		return strings.Join(as, "++")
	case "list":
		return "[" + strings.Join(as, ", ") + "]"
	case "new":
		if t.N != 0 {
			return fmt.Sprintf("new %s#%d(%s)", t.S, t.N, strings.Join(as, ","))
		}
		return "new " + t.S + "(" + strings.Join(as, ",") + ")"
	case "pure":
		// trailing version arguments are not shown
		var vs []string
		for _, a := range t.Args[:t.N] {
			vs = append(vs, a.str(d-1))
		}
		return t.S + "(" + strings.Join(vs, ", ") + ")"
	}
	n := t.Op
	if t.S != "" {
		n += ":" + t.S
	}
	return n + "(" + strings.Join(as, ", ") + ")"
}

// linear forms --------------------------------------------------------------

type lin struct {
	c map[*Term]int64
	k int64
}

func (u *Universe) toLin(t *Term) lin {
	l := lin{c: map[*Term]int64{}}
	switch t.Op {
	case "int":
		l.k = t.N
	case "lin":
		for i, s := range strings.Split(t.S, ",") {
			n, _ := strconv.ParseInt(s, 10, 64)
			l.c[t.Args[i]] = n
		}
		l.k = t.N
	default:
		l.c[t] = 1
	}
	return l
}

func (l lin) add(m lin, f int64) lin {
	r := lin{c: map[*Term]int64{}, k: l.k + f*m.k}
	for t, c := range l.c {
		r.c[t] = c
	}
	for t, c := range m.c {
		r.c[t] += f * c
		if r.c[t] == 0 {
			delete(r.c, t)
		}
	}
	return r
}

func (u *Universe) fromLin(l lin) *Term {
	if len(l.c) == 0 {
		return u.Int(l.k)
	}
	var ts []*Term
	for t := range l.c {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	if len(ts) == 1 && l.k == 0 && l.c[ts[0]] == 1 {
		return ts[0]
	}
	var cs []string
	for _, t := range ts {
		cs = append(cs, strconv.FormatInt(l.c[t], 10))
	}
	return u.mk("lin", strings.Join(cs, ","), l.k, ts...)
}

func (u *Universe) Add(a, b *Term) *Term { return u.fromLin(u.toLin(a).add(u.toLin(b), 1)) }
func (u *Universe) Sub(a, b *Term) *Term { return u.fromLin(u.toLin(a).add(u.toLin(b), -1)) }
func (u *Universe) Mul(a, b *Term) *Term {
	if a.IsInt() && b.IsInt() {
		return u.Int(a.N * b.N)
	}
	if b.IsInt() {
		a, b = b, a
	}
	if a.IsInt() {
		return u.fromLin(lin{c: map[*Term]int64{}}.add(u.toLin(b), a.N))
	}
	return u.mk("mul", "", 0, order(a, b)...)
}

func order(a, b *Term) []*Term {
	if a.ID > b.ID {
		a, b = b, a
	}
	return []*Term{a, b}
}

// IntLike reports whether t is certainly an integer.
func intLike(t *Term) bool {
	return t.Op == "int" || t.Op == "lin" || t.Op == "len" || t.Op == "stridx" || t.Op == "mul"
}

// Eq is structural equality of values.
func (u *Universe) Eq(a, b *Term) *Term {
	if a == b {
		return u.Int(1)
	}
	if a.IsConst() && b.IsConst() {
		return u.Int(0)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.Op == "nil" && a.Op == "pure" && u.NonNil != nil && u.NonNil(a.S) {
		return u.Int(0)
	}
	// booleans: x == 1, x == 0
	if b.IsInt() && isBool(a) {
		switch b.N {
		case 1:
			return a
		case 0:
			return u.Not(a)
		default:
			return u.Int(0)
		}
	}
	if r := u.eqEntry(a, b); r != nil {
		return r
	}
	if b.IsStr() {
		if b.S == "" {
			return u.Eq(u.Len(a), u.Int(0))
		}
		if a.Op == "list" || a.Op == "new" || a.Op == "rec" {
			return u.Int(0)
		}
		if r := u.eqConcatConst(a, b.S); r != nil {
			return r
		}
	}
	if b.Op == "nil" && (a.Op == "static" || a.Op == "cmap" || a.Op == "new" || a.Op == "rec" || a.Op == "list" || a.Op == "concat" || a.Op == "lin" || a.Op == "fn" || a.Op == "closure" || a.Op == "addr" || a.Op == "iface") {
		return u.Int(0)
	}
	if (a.Op == "new" || a.Op == "static") && (b.Op == "new" || b.Op == "static") {
		return u.Int(0)
	}
	if a.Op == "iface" && b.Op == "iface" {
		if a.S != b.S {
			return u.Int(0)
		}
		return u.Eq(a.Args[0], b.Args[0])
	}
	if intLike(a) || intLike(b) {
		d := u.toLin(a).add(u.toLin(b), -1)
		k := -d.k
		d.k = 0
		if len(d.c) == 0 {
			return u.Bool(k == 0)
		}
		if u.leadNeg(d) {
			d = lin{c: map[*Term]int64{}}.add(d, -1)
			k = -k
		}
		return u.mk("eq", "", 0, u.fromLin(d), u.Int(k))
	}
	if b.IsConst() {
		return u.mk("eq", "", 0, a, b)
	}
	return u.mk("eq", "", 0, order(a, b)...)
}

// eqConcatConst decides simple comparisons of a concatenation with a constant.
func (u *Universe) eqConcatConst(a *Term, s string) *Term {
	if a.Op != "concat" {
		return nil
	}
	f, l := a.Args[0], a.Args[len(a.Args)-1]
	if f.IsStr() {
		if !strings.HasPrefix(s, f.S) {
			return u.Int(0)
		}
		return u.Eq(u.Concat(a.Args[1:]...), u.Str(s[len(f.S):]))
	}
	if l.IsStr() {
		if !strings.HasSuffix(s, l.S) {
			return u.Int(0)
		}
		return u.Eq(u.Concat(a.Args[:len(a.Args)-1]...), u.Str(s[:len(s)-len(l.S)]))
	}
	return nil
}

func (u *Universe) leadNeg(d lin) bool {
	var best *Term
	for t := range d.c {
		if best == nil || t.ID < best.ID {
			best = t
		}
	}
	return d.c[best] < 0
}

// Lt is a < b on integers.
func (u *Universe) Lt(a, b *Term) *Term {
	if a.IsStr() && b.IsStr() {
		return u.Bool(a.S < b.S)
	}
	d := u.toLin(a).add(u.toLin(b), -1) // d < 0
	k := -d.k                           // d' < k
	d.k = 0
	if len(d.c) == 0 {
		return u.Bool(0 < k)
	}
	neg := false
	if u.leadNeg(d) { // -e < k  <=>  e > -k  <=>  !(e < -k+1)
		d = lin{c: map[*Term]int64{}}.add(d, -1)
		k = -k + 1
		neg = true
	}
	dt := u.fromLin(d)
	var r *Term
	if nonNeg(dt) && k <= 0 || dt.Op == "stridx" && k < 0 {
		r = u.Int(0)
	} else if dt.Op == "stridx" && k == 0 {
		r = u.Eq(dt, u.Int(-1))
	} else if nonNeg(dt) && k == 1 {
		r = u.Eq(dt, u.Int(0))
	} else {
		r = u.mk("lt", "", 0, dt, u.Int(k))
	}
	if neg {
		return u.Not(r)
	}
	return r
}
func (u *Universe) Le(a, b *Term) *Term { return u.Not(u.Lt(b, a)) }

func nonNeg(t *Term) bool {
	return t.Op == "len"
}

func isBool(t *Term) bool {
	switch t.Op {
	case "eq", "lt", "not", "match", "has", "is", "eqci", "contains", "impl":
		return true
	}
	return false
}

func (u *Universe) Not(a *Term) *Term {
	if !isBool(a) && !a.IsConst() {
		return u.Eq(a, u.Int(0))
	}
	switch a.Op {
	case "int":
		return u.Bool(a.N == 0)
	case "not":
		return a.Args[0]
	case "nil":
		return u.Int(1)
	}
	return u.mk("not", "", 0, a)
}

func (u *Universe) Concat(ts ...*Term) *Term {
	var out []*Term
	var push func(t *Term)
	push = func(t *Term) {
		if t.Op == "concat" {
			for _, a := range t.Args {
				push(a)
			}
			return
		}
		if t.IsStr() {
			if t.S == "" {
				return
			}
			if n := len(out); n > 0 && out[n-1].IsStr() {
				out[n-1] = u.Str(out[n-1].S + t.S)
				return
			}
		}
		out = append(out, t)
	}
	for _, t := range ts {
		push(t)
	}
	switch len(out) {
	case 0:
		return u.Str("")
	case 1:
		return out[0]
	}
	return u.mk("concat", "", 0, out...)
}

func (u *Universe) Len(t *Term) *Term {
	switch t.Op {
	case "str":
		return u.Int(int64(len(t.S)))
	case "nil":
		return u.Int(0)
	case "list":
		return u.Int(int64(len(t.Args)))
	case "append":
		return u.Add(u.Len(t.Args[0]), u.Int(int64(len(t.Args)-1)))
	case "setelem":
		return u.Len(t.Args[0])
	case "cmap":
		return u.Int(int64(len(t.Args) / 2))
	case "substr": // Go: the bounds are in range, or there is a panic
		if len(t.Args) == 3 {
			return u.Sub(t.Args[2], t.Args[1])
		}
		return u.Sub(u.Len(t.Args[0]), t.Args[1])
	case "range": // as a bound of an index
		return u.Add(u.Sub(t.Args[1], t.Args[0]), u.Int(1))
	case "concat":
		r := u.Int(0)
		for _, a := range t.Args {
			r = u.Add(r, u.Len(a))
		}
		return r
	}
	return u.mk("len", "", 0, t)
}

// Append returns list with elems appended.
func (u *Universe) Append(list *Term, elems ...*Term) *Term {
	if len(elems) == 0 {
		return list
	}
	switch list.Op {
	case "nil":
		return u.List(elems...)
	case "list":
		return u.List(append(append([]*Term(nil), list.Args...), elems...)...)
	case "append":
		return u.mk("append", "", 0, append(append([]*Term(nil), list.Args...), elems...)...)
	}
	return u.mk("append", "", 0, append([]*Term{list}, elems...)...)
}

func (u *Universe) List(elems ...*Term) *Term {
	if len(elems) == 0 {
		return u.Nil() // an empty list is a nil slice
	}
	return u.mk("list", "", 0, elems...)
}

// App is an uninterpreted pure operation.
func (u *Universe) App(op, s string, args ...*Term) *Term { return u.mk(op, s, 0, args...) }

// Pure is a call of a pure function; only the first n arguments are shown.
func (u *Universe) Pure(name string, n int, args ...*Term) *Term {
	return u.mk("pure", name, int64(n), args...)
}

// Substr is s[a:b]; b may be nil (to the end). On lists, a sublist.
func (u *Universe) Substr(s, a, b *Term) *Term {
	if b != nil && b.Op == "len" && b.Args[0] == s {
		b = nil
	}
	if a.IsInt() && a.N == 0 && b == nil {
		return s
	}
	if a.IsInt() && a.N == 0 && b != nil && b.Op == "len" && b.Args[0].Op == "trimright" && b.Args[0].Args[0] == s {
		return b.Args[0]
	}
	if s.IsStr() && a.IsInt() && a.N >= 0 && a.N <= int64(len(s.S)) {
		if b == nil {
			return u.Str(s.S[a.N:])
		}
		if b.IsInt() && b.N >= a.N && b.N <= int64(len(s.S)) {
			return u.Str(s.S[a.N:b.N])
		}
	}
	if s.Op == "list" && a.IsInt() && a.N >= 0 && a.N <= int64(len(s.Args)) {
		if b == nil {
			return u.List(s.Args[a.N:]...)
		}
		if b.IsInt() && b.N >= a.N && b.N <= int64(len(s.Args)) {
			return u.List(s.Args[a.N:b.N]...)
		}
	}
	if s.Op == "nil" && a.IsInt() && a.N == 0 && b != nil && b.IsInt() && b.N == 0 {
		return s
	}
	if s.Op == "substr" { // a part of a part
		base := s.Args[1]
		hi := b
		if b != nil {
			hi = u.Add(base, b)
		} else if len(s.Args) == 3 {
			hi = s.Args[2]
		}
		return u.Substr(s.Args[0], u.Add(base, a), hi)
	}
	if b == nil {
		return u.mk("substr", "", 0, s, a)
	}
	return u.mk("substr", "", 0, s, a, b)
}

// Rewrite replaces subterms bottom-up by f and re-simplifies.
func (u *Universe) Rewrite(t *Term, f func(*Term) *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	r := t
	if len(t.Args) > 0 {
		changed := false
		as := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			as[i] = u.Rewrite(a, f, memo)
			if as[i] != a {
				changed = true
			}
		}
		if changed {
			r = u.Rebuild(t, as)
		}
	}
	if q := f(r); q != nil {
		r = q
	}
	memo[t] = r
	return r
}

// Rebuild is t with its arguments replaced, simplified.
func (u *Universe) Rebuild(t *Term, as []*Term) *Term {
	switch t.Op {
	case "eq":
		return u.Eq(as[0], as[1])
	case "lt":
		return u.Lt(as[0], as[1])
	case "not":
		return u.Not(as[0])
	case "concat":
		return u.Concat(as...)
	case "len":
		return u.Len(as[0])
	case "lin":
		r := u.Int(t.N)
		for i, s := range strings.Split(t.S, ",") {
			n, _ := strconv.ParseInt(s, 10, 64)
			r = u.Add(r, u.Mul(u.Int(n), as[i]))
		}
		return r
	case "mul":
		return u.Mul(as[0], as[1])
	case "append":
		return u.Append(as[0], as[1:]...)
	case "substr":
		if len(as) == 2 {
			return u.Substr(as[0], as[1], nil)
		}
		return u.Substr(as[0], as[1], as[2])
	case "stridx":
		return u.Stridx(as[0], as[1])
	case "index":
		return u.Index(as...)
	case "iface":
		return u.Iface(t.S, as[0])
	case "val":
		return u.Val(t.S, as[0])
	case "typeof":
		return u.TypeOf(as[0])
	case "impl":
		return u.Implements(t.S, as[0])
	case "byte":
		return u.Byte(as[0], as[1])
	case "join":
		return Join(u, as[0], as[1])
	case "repeat":
		return Repeat(u, as[0], as[1])
	case "lcat":
		return ListCat(u, as[0], as[1])
	}
	return u.mk(t.Op, t.S, t.N, as...)
}

// Iface is x of static type t as an interface value.
func (u *Universe) Iface(t string, x *Term) *Term {
	if x.Op == "val" && x.S == t {
		return x.Args[0]
	}
	return u.mk("iface", t, 0, x)
}

// Val is the value of type t in the interface value x.
func (u *Universe) Val(t string, x *Term) *Term {
	if x.Op == "iface" && x.S == t {
		return x.Args[0]
	}
	return u.mk("val", t, 0, x)
}

// TypeOf is the name of the dynamic type of an interface value.
func (u *Universe) TypeOf(x *Term) *Term {
	switch x.Op {
	case "iface":
		return u.Str(x.S)
	case "nil":
		return u.Str("<nil>")
	}
	return u.mk("typeof", "", 0, x)
}

// Implements says whether the type called t implements the interface i.
func (u *Universe) Implements(i string, t *Term) *Term {
	if t.IsStr() && u.Impl != nil {
		return u.Bool(t.S != "<nil>" && u.Impl(i, t.S))
	}
	return u.mk("impl", i, 0, t)
}

func (u *Universe) Stridx(a, b *Term) *Term {
	if a.IsStr() && b.IsStr() {
		return u.Int(int64(strings.Index(a.S, b.S)))
	}
	return u.mk("stridx", "", 0, a, b)
}

// Index is coll[idx] with version arguments.
func (u *Universe) Index(as ...*Term) *Term {
	c, i := as[0], as[1]
	if c.Op == "range" {
		return u.Add(c.Args[0], i)
	}
	if c.Op == "gaddr" && i.IsInt() && len(as) == 2 {
		if t := u.Table[c.S]; i.N >= 0 && i.N < int64(len(t)) {
			return u.Str(t[i.N])
		}
	}
	if c.Op == "setelem" && c.Args[1] == i {
		return c.Args[2]
	}
	if c.Op == "substr" && len(as) == 2 && !(i.IsInt() && i.N < 0) {
		return u.Index(c.Args[0], u.Add(c.Args[1], i))
	}
	if i.IsInt() && i.N >= 0 {
		switch c.Op {
		case "list":
			if i.N < int64(len(c.Args)) {
				return c.Args[i.N]
			}
		}
	}
	if c.Op == "rec" && i.IsStr() {
		for k := 0; k+1 < len(c.Args); k += 2 {
			if c.Args[k] == i {
				return c.Args[k+1]
			}
		}
	}
	return u.mk("index", "", 0, as...)
}

// Rec is a record value with sorted keys.
func (u *Universe) Rec(m map[string]*Term) *Term {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var as []*Term
	for _, k := range ks {
		as = append(as, u.Str(k), m[k])
	}
	return u.mk("rec", "", 0, as...)
}

// Contains reports whether t has sub as a subterm.
func (t *Term) Contains(sub *Term) bool {
	if t == sub {
		return true
	}
	for _, a := range t.Args {
		if a.Contains(sub) {
			return true
		}
	}
	return false
}
