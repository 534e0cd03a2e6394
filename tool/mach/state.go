package mach

import (
	"fmt"
	"sort"
	"strings"
)

type hkey struct {
	o *Term
	f string
	k *Term // key of a map entry
}

// State is the heap of one side: what is known about object fields.
type State struct {
	heap   map[hkey]*Term
	ver    map[string]*Term // version of a field name after opaque calls
	verAt  map[string]int
	esc    map[*Term]int // escaped new objects
	cnt    map[string]int
	epoch  string
	clock  int
	ignore map[string]bool
	deref  map[*Term]bool // pointers whose target was accessed
	pend   map[*Term]bool // calls that may raise and change nothing, since the last event
}

func NewState() *State {
	return &State{heap: map[hkey]*Term{}, ver: map[string]*Term{}, verAt: map[string]int{}, esc: map[*Term]int{}, cnt: map[string]int{}, deref: map[*Term]bool{}, pend: map[*Term]bool{}}
}

func (s *State) Clone() *State {
	n := NewState()
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.ver {
		n.ver[k] = v
	}
	for k, v := range s.verAt {
		n.verAt[k] = v
	}
	for k, v := range s.esc {
		n.esc[k] = v
	}
	for k, v := range s.cnt {
		n.cnt[k] = v
	}
	for k, v := range s.deref {
		n.deref[k] = v
	}
	for k, v := range s.pend {
		n.pend[k] = v
	}
	n.epoch, n.clock = s.epoch, s.clock
	return n
}

// New allocates an object. Objects of both sides get the same name when they
// are the n-th of that kind since the same point.
func (s *State) New(u *Universe, kind string, args ...*Term) *Term {
	k := kind
	for _, a := range args {
		k += fmt.Sprintf(",%d", a.ID)
	}
	s.cnt[k]++
	as := append([]*Term{u.Named("epoch:" + s.epoch)}, args...)
	return u.mk("new", kind, int64(s.cnt[k]), as...)
}

func (t *Term) isNew() bool { return t.Op == "new" }

// epochOf is the epoch in which a new object was made.
func epochOf(t *Term) string { return t.Args[0].S[len("epoch:"):] }

func (s *State) hidden(o *Term) bool {
	for o.Op == "faddr" {
		o = o.Args[0]
	}
	if !o.isNew() {
		return false
	}
	_, ok := s.esc[o]
	return !ok
}

// Load is the value of field f of o; zero is the value of a field that was
// never set in an object made here.
func (s *State) Load(u *Universe, o *Term, f string, zero *Term) *Term {
	if v := s.heap[hkey{o, f, nil}]; v != nil {
		return v
	}
	switch o.Op {
	case "rec":
		for i := 0; i+1 < len(o.Args); i += 2 {
			if o.Args[i].S == f {
				return o.Args[i+1]
			}
		}
		return zero
	case "static": // initial contents, of a type nobody else changes
		if s.ver[f] == nil {
			return s.Load(u, o.Args[0], f, zero)
		}
	case "faddr": // a struct stored by value in a field
		v := s.Load(u, o.Args[0], o.S, nil)
		if v == nil {
			return zero
		}
		return s.Load(u, v, f, zero)
	case "new":
		at, esc := s.esc[o]
		if !esc || s.verAt[f] <= at {
			return zero
		}
	}
	if v := s.ver[f]; v != nil {
		return u.App("field", f, o, v)
	}
	return u.App("field", f, o)
}

func (s *State) Store(u *Universe, o *Term, f string, v *Term) {
	if o.Op != "faddr" {
		// a struct overwritten by value
		for k := range s.heap {
			if k.o.Op == "faddr" && k.o.S == f && k.o.Args[0] == o {
				delete(s.heap, k)
			}
		}
	}
	s.heap[hkey{o, f, nil}] = v
	if !s.hidden(o) {
		s.Escape(v)
	}
}

// Fixed reports whether t is a map that does not change.
func (t *Term) Fixed() bool { return t.Op == "sym" && strings.HasPrefix(t.S, "fixed:") }

// LoadKey is the map entry o[k].
func (s *State) LoadKey(u *Universe, o, k, zero *Term) *Term {
	if k.IsStr() {
		return s.Load(u, o, k.S, zero)
	}
	if v := s.heap[hkey{o, "[]", k}]; v != nil {
		return v
	}
	h := s.heap[hkey{o, "[]#", nil}]
	if o.isNew() && s.hidden(o) {
		if h != nil {
			return u.App("sel", "", h, k)
		}
		return zero
	}
	as := []*Term{o, k}
	if h != nil {
		as = append(as, h)
	}
	if v := s.ver["[]"]; v != nil && !o.Fixed() {
		as = append(as, v)
	}
	return u.Index(as...)
}

// Has is "k is a key of the table o".
func (s *State) Has(u *Universe, o, k *Term) *Term {
	if s.heap[hkey{o, "[]", k}] != nil {
		return u.Int(1)
	}
	h := s.heap[hkey{o, "[]#", nil}]
	if o.isNew() && s.hidden(o) {
		if h != nil {
			return u.App("has", "", h, k)
		}
		if k.IsStr() {
			return u.Bool(s.heap[hkey{o, k.S, nil}] != nil)
		}
		for e := range s.heap {
			if e.o == o {
				return u.App("has", "", o, k)
			}
		}
		return u.Int(0)
	}
	as := []*Term{o, k}
	if h != nil {
		as = append(as, h)
	}
	if v := s.ver["[]"]; v != nil && !o.Fixed() {
		as = append(as, v)
	}
	return u.App("has", "", as...)
}

func (s *State) StoreKey(u *Universe, o, k, v *Term) {
	if k.IsStr() {
		s.Store(u, o, k.S, v)
		return
	}
	for h := range s.heap {
		if h.f == "[]" && h.o == o && h.k != k && !(h.k.IsConst() && k.IsConst()) {
			delete(s.heap, h)
		}
	}
	if !k.IsConst() { // the history of the table
		h := s.heap[hkey{o, "[]#", nil}]
		if h == nil {
			h = u.Nil()
		}
		s.heap[hkey{o, "[]#", nil}] = u.App("upd", "", h, k, v)
	}
	s.heap[hkey{o, "[]", k}] = v
	if !s.hidden(o) {
		s.Escape(v)
		s.Escape(k)
	}
}

// Escape marks the objects reachable from v as known outside.
func (s *State) Escape(v *Term) {
	for _, o := range newIn(v) {
		if _, ok := s.esc[o]; ok {
			continue
		}
		s.esc[o] = s.clock
		for k, w := range s.heap {
			b := k.o
			for b.Op == "faddr" {
				b = b.Args[0]
			}
			if b == o {
				s.Escape(w)
			}
		}
	}
}

// newIn lists the objects in a value. Arguments of pure calls are not part
// of the value.
func newIn(v *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case "new":
			out = append(out, t)
			return
		case "pure", "str", "int", "field", "eq", "lt", "len", "not":
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	if v != nil {
		walk(v)
	}
	return out
}

// Effect is what a function reads and writes of existing objects, by field.
type Effect struct {
	Read, Mod map[string]bool
	Throws    bool
	Fresh     bool // returns a new object
}

func keys(m map[string]bool) []string {
	var ks []string
	for k, v := range m {
		if v {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return ks
}

// Opaque applies an opaque call to the state and returns the value number of
// the call.
func (s *State) Opaque(u *Universe, name string, e *Effect, args []*Term, norm func(*Term) *Term) *Term {
	for _, a := range args {
		s.Escape(a)
	}
	as := append([]*Term(nil), args...)
	for i := range as {
		as[i] = s.lists(u, norm(as[i]), norm)
	}
	n := len(as)
	var rest []*Term
	for _, f := range keys(e.Read) {
		if v := s.ver[f]; v != nil {
			rest = append(rest, u.App("st", f, norm(v)))
		}
	}
	for k, v := range s.heap {
		if !e.Read[k.f] || s.hidden(k.o) || k.o.Op == "faddr" || u.isValue(k.o) {
			continue
		}
		if s.isDefault(u, k, v) {
			continue
		}
		o, w := norm(k.o), s.lists(u, norm(v), norm)
		if isZero(w) && k.o.isNew() {
			continue
		}
		if w.Op == "new" && w.S == "empty" && s.blank(w) {
			continue // like nil
		}
		if k.k != nil {
			rest = append(rest, u.App("ent", k.f, o, norm(k.k), w))
		} else {
			rest = append(rest, u.App("ent", k.f, o, w))
		}
	}
	sort.Slice(rest, func(i, j int) bool { return rest[i].ID < rest[j].ID })
	call := u.Pure(name, n, append(as, rest...)...)
	if e.Fresh { // every call gives another object
		k := fmt.Sprintf("call:%d", call.ID)
		s.cnt[k]++
		call = u.Pure(name, n, append(append(as, rest...), u.App("nth", s.epoch, u.Int(int64(s.cnt[k]))))...)
	}
	s.clock++
	for f := range e.Mod {
		s.ver[f] = u.App("ver", f, call)
		s.verAt[f] = s.clock
		for k := range s.heap {
			if k.f == f && !s.hidden(k.o) {
				delete(s.heap, k)
			}
		}
	}
	return call
}

// isDefault reports whether v is what a load would give without the entry.
func (s *State) isDefault(u *Universe, k hkey, v *Term) bool {
	if k.k != nil || k.o.isNew() || k.o.Op == "rec" || k.o.Op == "faddr" {
		return false
	}
	if w := s.ver[k.f]; w != nil {
		return v == u.App("field", k.f, k.o, w)
	}
	return v == u.App("field", k.f, k.o)
}

func isZero(t *Term) bool {
	switch t.Op {
	case "nil":
		return true
	case "int":
		return t.N == 0
	case "str":
		return t.S == ""
	case "list":
		return len(t.Args) == 0
	case "substr": // nothing of it
		return len(t.Args) == 3 && t.Args[1] == t.Args[2]
	case "rec":
		for i := 1; i < len(t.Args); i += 2 {
			if !isZero(t.Args[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// Freeze replaces the objects made here by their contents, so that values of
// the two sides can be compared whatever the objects are called. keep says
// which objects keep their name.
func (s *State) Freeze(u *Universe, t *Term, norm func(*Term) *Term, keep func(*Term) bool) *Term {
	active := map[*Term]bool{}
	memo := map[*Term]*Term{}
	var fz func(t *Term) *Term
	fz = func(t *Term) *Term {
		if r := memo[t]; r != nil {
			return r
		}
		var r *Term
		switch {
		case t.Op == "new":
			if active[t] || (keep != nil && keep(t)) {
				return t
			}
			active[t] = true
			if t.S == "slice" {
				if l := s.sliceList(u, t, norm, fz); l != nil {
					delete(active, t)
					memo[t] = l
					return l
				}
			}
			m := map[string]*Term{}
			for k, v := range s.heap {
				if k.o != t {
					continue
				}
				w := fz(v)
				if isZero(w) {
					continue
				}
				f := k.f
				if k.k != nil {
					f += "[" + norm(k.k).Full() + "]"
				}
				m[f] = w
			}
			for f, at := range s.verAt {
				if e, ok := s.esc[t]; ok && at > e && m[f] == nil && s.heap[hkey{t, f, nil}] == nil {
					// possibly written by a callee: same on both sides if the versions agree
					_ = f
				}
			}
			r = u.Rec(m)
			delete(active, t)
		case t.Op == "pure" || len(t.Args) == 0:
			r = norm(t)
		default:
			as := make([]*Term, len(t.Args))
			ch := false
			for i, a := range t.Args {
				as[i] = fz(a)
				ch = ch || as[i] != a
			}
			r = t
			if ch {
				r = u.Rebuild(t, as)
			}
			if r.Op == "rec" { // zero fields do not matter
				m := map[string]*Term{}
				for i := 0; i+1 < len(r.Args); i += 2 {
					if !isZero(r.Args[i+1]) {
						m[r.Args[i].S] = r.Args[i+1]
					}
				}
				r = u.Rec(m)
			}
			r = norm(r)
		}
		if r.Op == "list" && len(r.Args) == 0 {
			r = u.Nil()
		}
		memo[t] = r
		return r
	}
	return fz(t)
}

// sliceList is the contents of the slice o made here, if they are known.
func (s *State) sliceList(u *Universe, o *Term, norm, fz func(*Term) *Term) *Term {
	l := s.heap[hkey{o, "#len", nil}]
	if l == nil {
		return nil
	}
	if l = norm(l); !l.IsInt() || l.N < 0 || l.N > 64 {
		return nil
	}
	zero := u.Nil()
	if len(o.Args) > 1 {
		switch o.Args[1].S {
		case "[]string":
			zero = u.Str("")
		case "[]int", "[]bool", "[]byte":
			zero = u.Int(0)
		}
	}
	es := make([]*Term, l.N)
	for i := range es {
		es[i] = zero
	}
	for k, v := range s.heap {
		if k.o != o || k.f == "#len" {
			continue
		}
		if k.f != "[]" || k.k == nil {
			return nil
		}
		i := norm(k.k)
		if !i.IsInt() || i.N < 0 || i.N >= l.N {
			return nil
		}
		es[i.N] = fz(v)
	}
	if len(es) == 0 {
		return u.Nil()
	}
	return u.List(es...)
}

// Lists is t with the slices made here that are known replaced by lists.
func (s *State) Lists(u *Universe, t *Term, norm func(*Term) *Term) *Term { return s.lists(u, t, norm) }

// lists is t with such slices replaced.
func (s *State) lists(u *Universe, t *Term, norm func(*Term) *Term) *Term {
	for _, o := range newIn(t) {
		if u.isValue(o) {
			r := s.valueRec(u, o, norm)
			t = norm(u.Rewrite(t, func(x *Term) *Term {
				if x == o {
					return r
				}
				return nil
			}, map[*Term]*Term{}))
			continue
		}
		if o.S != "slice" {
			continue
		}
		if l := s.sliceList(u, o, norm, func(t *Term) *Term { return s.lists(u, norm(t), norm) }); l != nil {
			t = norm(u.Rewrite(t, func(x *Term) *Term {
				if x == o {
					return l
				}
				return nil
			}, map[*Term]*Term{}))
		}
	}
	return t
}

// setElem is the list x with element k replaced, if that can be said.
func setElem(u *Universe, x, k, v *Term) *Term {
	if x.Op != "list" || !k.IsInt() || k.N < 0 || k.N >= int64(len(x.Args)) {
		return nil
	}
	as := append([]*Term(nil), x.Args...)
	as[k.N] = v
	return u.List(as...)
}

// holds reports whether some other place of the heap has the list x.
func (s *State) holds(x *Term, but hkey) bool {
	for k, v := range s.heap {
		if k != but && v.Contains(x) {
			return true
		}
	}
	return false
}

// blank reports whether nothing was stored in the object.
func (s *State) blank(o *Term) bool {
	for k, v := range s.heap {
		if k.o == o && !isZero(v) {
			return false
		}
	}
	return true
}

// isValue reports whether t was made here and is a value.
func (u *Universe) isValue(t *Term) bool {
	return u.Value != nil && t.Op == "new" && t.S == "obj" && len(t.Args) > 1 && u.Value(t.Args[1].S)
}

// valueRec is the contents of such an object.
func (s *State) valueRec(u *Universe, o *Term, norm func(*Term) *Term) *Term {
	m := map[string]*Term{"#type": o.Args[1]}
	for k, v := range s.heap {
		if k.o == o && k.k == nil {
			if w := s.lists(u, norm(v), norm); !isZero(w) {
				m[k.f] = w
			}
		}
	}
	return u.Rec(m)
}
