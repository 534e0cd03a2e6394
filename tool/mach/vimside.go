package mach

import (
	"fmt"
	"sort"
	"strings"

	"verif/viml"
)

// VimCtx is shared by all Vim script machines of an analysis.
type VimCtx struct {
	U      *Universe
	File   *viml.File
	Opaque func(name string) *Effect       // nil: inline
	Const  func(name string) *Term         // script variables
	Global func(class, field string) *Term // fields of class objects
	Class  func(field string) string       // class of the object in a field
	Base   map[string]string               // super classes
	codes  map[string]*viml.Code
	live   map[string]map[int]map[string]bool
}

type vimFrame struct {
	code   *viml.Code
	class  string
	block  int
	pc     int
	regs   map[string]*Term
	dst    string
	loopOK bool
	evOK   bool
}

type VimSide struct {
	C      *VimCtx
	st     *State
	frames []*vimFrame
	cond   *Term
	done   *Stall
	classs map[*Term]string
	Steps  int
}

// NewVim starts function name on args; for methods the first is self.
func NewVim(c *VimCtx, st *State, fn *viml.Func, args []*Term) (*VimSide, error) {
	if c.codes == nil {
		c.codes = map[string]*viml.Code{}
		c.live = map[string]map[int]map[string]bool{}
	}
	v := &VimSide{C: c, st: st}
	return v, v.push(fn, fn.Class, args, "")
}

func (v *VimSide) St() *State { return v.st }

func (c *VimCtx) code(fn *viml.Func) (*viml.Code, error) {
	k := fn.Name
	if r := c.codes[k]; r != nil {
		return r, nil
	}
	r, err := viml.Lower(fn)
	if err != nil {
		return nil, err
	}
	c.codes[k] = r
	return r, nil
}

func (v *VimSide) push(fn *viml.Func, class string, args []*Term, dst string) error {
	code, err := v.C.code(fn)
	if err != nil {
		return err
	}
	f := &vimFrame{code: code, class: class, regs: map[string]*Term{}, dst: dst}
	i := 0
	if fn.Class != "" {
		f.regs["v:self"] = args[0]
		i = 1
	}
	if len(args)-i != len(fn.Params) {
		return fmt.Errorf("%s called with %d arguments", fn.Name, len(args)-i)
	}
	for _, p := range fn.Params {
		f.regs["v:"+p] = args[i]
		i++
	}
	v.frames = append(v.frames, f)
	return nil
}

func (v *VimSide) Clone() Side {
	n := &VimSide{C: v.C, st: v.st.Clone(), cond: v.cond, done: v.done, Steps: v.Steps}
	for _, f := range v.frames {
		h := *f
		h.regs = make(map[string]*Term, len(f.regs))
		for k, x := range f.regs {
			h.regs[k] = x
		}
		n.frames = append(n.frames, &h)
	}
	return n
}

func (v *VimSide) top() *vimFrame { return v.frames[len(v.frames)-1] }

func (v *VimSide) Where() string {
	f := v.top()
	ins := f.code.Blocks[f.block]
	ln := f.code.Fn.Line
	if f.pc < len(ins) {
		ln = ins[f.pc].Line
	} else if len(ins) > 0 {
		ln = ins[len(ins)-1].Line
	}
	return fmt.Sprintf("%s:%d", v.C.File.Name, ln)
}

func (v *VimSide) fail(f string, a ...interface{}) { panic(unsupported(fmt.Sprintf(f, a...))) }

func (v *VimSide) Run(facts *Facts) (st *Stall) {
	if v.done != nil {
		return v.done
	}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				st = &Stall{Kind: SFail, Msg: string(u), Pos: v.Where()}
				v.done = st
				return
			}
			panic(r)
		}
	}()
	if v.cond != nil {
		d, n := facts.Decide(v.C.U, v.cond)
		if d < 0 {
			return &Stall{Kind: SBranch, T: n, Pos: v.Where()}
		}
		v.Branch(d == 1)
	}
	for {
		if s := v.step(facts); s != nil {
			if s.Pos == "" {
				s.Pos = v.Where()
			}
			return s
		}
	}
}

func (v *VimSide) Branch(b bool) {
	f := v.top()
	in := f.code.Blocks[f.block][f.pc]
	v.cond = nil
	if in.Op != "br" {
		return
	}
	if b {
		v.enter(f, in.T)
	} else {
		v.enter(f, in.F)
	}
}

func (v *VimSide) enter(f *vimFrame, b int) {
	f.block, f.pc = b, 0
	f.loopOK, f.evOK = false, false
}

func (v *VimSide) Continue(k StallKind) {
	if k == SLoop {
		v.top().loopOK = true
	} else {
		v.top().evOK = true
	}
}

func (v *VimSide) classOf(t *Term) string {
	switch t.Op {
	case "pure":
		if strings.HasSuffix(t.S, ".new") {
			return strings.TrimSuffix(t.S, ".new")
		}
	case "sym":
		for i := len(v.frames) - 1; i >= 0; i-- {
			f := v.frames[i]
			if f.regs["v:self"] == t {
				return f.class
			}
		}
		if strings.HasPrefix(t.S, "p:") {
			return v.C.Class(t.S[2:])
		}
	case "field":
		return v.C.Class(t.S)
	}
	return ""
}

func (v *VimSide) step(facts *Facts) *Stall {
	u := v.C.U
	f := v.top()
	v.Steps++
	if v.Steps > 200000 {
		v.fail("too many steps")
	}
	if f.pc == 0 && !f.loopOK && f.code.Loop[f.block] {
		return &Stall{Kind: SLoop, Key: v.Key()}
	}
	in := f.code.Blocks[f.block][f.pc]
	get := func(i int) *Term {
		t := f.regs[in.A[i]]
		if t == nil {
			v.fail("no value for %s", in.A[i])
		}
		return t
	}
	set := func(t *Term) *Stall {
		f.regs[in.Dst] = t
		f.pc++
		f.loopOK, f.evOK = false, false
		return nil
	}
	next := func() *Stall {
		f.pc++
		f.loopOK, f.evOK = false, false
		return nil
	}
	switch in.Op {
	case "str":
		return set(u.Str(in.S))
	case "num":
		return set(u.Int(in.N))
	case "nil":
		return set(u.Nil())
	case "copy":
		return set(get(0))
	case "script":
		t := v.C.Const(in.S)
		if t == nil {
			v.fail("unknown variable %s", in.S)
		}
		return set(t)
	case "field":
		o := get(0)
		if o.Op == "class" || (o == f.regs["v:self"]) {
			cl := f.class
			if o.Op == "class" {
				cl = o.S
			}
			if t := v.C.Global(cl, in.S); t != nil {
				return set(t)
			}
		}
		return set(v.st.Load(u, o, in.S, u.Nil()))
	case "setfield":
		if x := get(1); x.Op == "new" && x.S == "empty" && in.S == "attr" {
			// the constructor of nodes made one
			if old := v.st.Load(u, get(0), in.S, u.Nil()); old.Op == "new" {
				for k, e := range v.st.heap {
					if k.o == x {
						v.st.Store(u, old, k.f, e)
						delete(v.st.heap, k)
					}
				}
				return next()
			}
		}
		v.st.Store(u, get(0), in.S, get(1))
		return next()
	case "index":
		return set(v.index(get(0), facts.Norm(u, get(1))))
	case "setindex":
		v.st.StoreKey(u, get(0), facts.Norm(u, get(1)), get(2))
		return next()
	case "setelem":
		o, k := get(0), facts.Norm(u, get(1))
		x := v.st.Load(u, o, in.S, u.Nil())
		if y := setElem(u, x, k, get(2)); y != nil {
			if v.st.holds(x, hkey{o, in.S, nil}) {
				v.fail("change of a shared list")
			}
			v.st.Store(u, o, in.S, y)
			return next()
		}
		v.st.StoreKey(u, x, k, get(2))
		return next()
	case "slice":
		x := get(0)
		lo := u.Int(0)
		if in.A[1] != "" {
			lo = v.negIdx(x, get(1))
		}
		var hi *Term
		if in.A[2] != "" {
			e := get(2)
			if e.IsInt() && e.N == -1 {
				hi = nil
			} else {
				hi = u.Add(v.negIdx(x, e), u.Int(1))
			}
		}
		return set(u.Substr(x, lo, hi))
	case "bin":
		return set(v.bin(in.S, get(0), get(1)))
	case "un":
		switch in.S {
		case "-":
			return set(u.Sub(u.Int(0), get(0)))
		case "+":
			return set(get(0))
		case "!":
			return set(u.Not(Truth(u, get(0))))
		}
		v.fail("operator %s", in.S)
	case "list":
		var es []*Term
		for i := range in.A {
			es = append(es, get(i))
		}
		return set(u.List(es...))
	case "dict":
		kind := "anon"
		if in.S == "field" {
			kind = "empty"
		}
		o := v.st.New(u, kind)
		for i := 0; i+1 < len(in.A); i += 2 {
			v.st.StoreKey(u, o, get(i), get(i+1))
		}
		return set(o)
	case "append":
		return set(u.Append(get(0), get(1)))
	case "insert":
		return set(ListCat(u, u.List(get(1)), get(0)))
	case "remove":
		switch k := get(1); {
		case k.IsInt() && k.N == 0:
			return set(u.Substr(get(0), u.Int(1), nil))
		case k.IsInt() && k.N == -1:
			return set(u.Substr(get(0), u.Int(0), u.Sub(u.Len(get(0)), u.Int(1))))
		}
		v.fail("remove of an inner element")
	case "len":
		return set(u.Len(get(0)))
	case "jump":
		v.enter(f, in.T)
		return nil
	case "br":
		c := Truth(u, get(0))
		d, n := facts.Decide(u, c)
		v.cond = c
		if d < 0 {
			return &Stall{Kind: SBranch, T: n}
		}
		v.Branch(d == 1)
		return nil
	case "ret":
		t := u.Nil()
		if len(in.A) > 0 {
			t = get(0)
		}
		if len(v.frames) == 1 {
			v.done = &Stall{Kind: SReturn, T: t, Pos: v.Where()}
			return v.done
		}
		v.frames = v.frames[:len(v.frames)-1]
		up := v.top()
		up.regs[f.dst] = t
		up.pc++
		up.loopOK, up.evOK = false, false
		return nil
	case "throw":
		v.done = &Stall{Kind: SThrow, T: get(0), Pos: v.Where()}
		return v.done
	case "callf":
		return v.callf(f, in, get, set, facts)
	case "callm":
		recv := get(0)
		var args []*Term
		for i := 1; i < len(in.A); i++ {
			args = append(args, get(i))
		}
		class := ""
		if recv.Op == "class" {
			if in.S == "new" {
				return set(u.Pure(recv.S+".new", len(args), args...))
			}
			class = recv.S
		} else {
			class = v.classOf(facts.Norm(u, recv))
			if class == "" {
				class = v.classOf(recv)
			}
		}
		if class == "" {
			v.fail("method %s of %s: class unknown", in.S, recv)
		}
		for c := class; c != ""; c = v.C.Base[c] {
			if fn := v.C.File.Funcs[c+"."+in.S]; fn != nil {
				return v.invoke(fn, class, append([]*Term{recv}, args...), in, set, facts)
			}
		}
		v.fail("no method %s.%s", class, in.S)
	default:
		v.fail("instruction %s", in.Op)
	}
	return nil
}

func (v *VimSide) invoke(fn *viml.Func, class string, args []*Term, in viml.Ins, set func(*Term) *Stall, facts *Facts) *Stall {
	f := v.top()
	name := fn.Short
	if fn.Class != "" {
		name = fn.Class + "." + fn.Short
	}
	norm := func(t *Term) *Term { return facts.Norm(v.C.U, t) }
	if e := v.C.Opaque(name); e != nil {
		if e.Throws && !f.evOK {
			return &Stall{Kind: SEvent, T: v.st.Clone().Opaque(v.C.U, name, e, args, norm)}
		}
		return set(v.st.Opaque(v.C.U, name, e, args, norm))
	}
	for _, g := range v.frames {
		if g.code.Fn == fn {
			v.fail("recursive call of %s", fn.Name)
		}
	}
	f.loopOK, f.evOK = false, false
	if err := v.push(fn, class, args, in.Dst); err != nil {
		v.fail("%v", err)
	}
	return nil
}

func (v *VimSide) negIdx(x, i *Term) *Term {
	u := v.C.U
	if i.IsInt() && i.N < 0 {
		return u.Add(u.Len(x), i)
	}
	return i
}

func (v *VimSide) index(x, i *Term) *Term {
	u := v.C.U
	if i.IsStr() {
		return v.st.Load(u, x, i.S, u.Nil())
	}
	if x.isNew() {
		return v.st.LoadKey(u, x, i, u.Nil())
	}
	if h := v.st.heap[hkey{x, "[]", i}]; h != nil {
		return h
	}
	if i.IsInt() && i.N < 0 {
		i = v.negIdx(x, i)
	}
	return u.Index(x, i)
}

func (v *VimSide) bin(op string, x, y *Term) *Term {
	u := v.C.U
	switch op {
	case "+":
		return u.Add(x, y)
	case "-":
		return u.Sub(x, y)
	case "*":
		return u.Mul(x, y)
	case ".":
		return u.Concat(x, y)
	case "==#", "==", "is", "is#":
		return u.Eq(x, y)
	case "!=#", "!=", "isnot", "isnot#":
		return u.Not(u.Eq(x, y))
	case "==?":
		return EqCI(u, x, y)
	case "!=?":
		return u.Not(EqCI(u, x, y))
	case "=~#":
		return Match(u, x, y)
	case "!~#":
		return u.Not(Match(u, x, y))
	case "<":
		return u.Lt(x, y)
	case ">":
		return u.Lt(y, x)
	case "<=":
		return u.Not(u.Lt(y, x))
	case ">=":
		return u.Not(u.Lt(x, y))
	}
	v.fail("operator %s", op)
	return nil
}

// Match is "x matches the Vim regular expression re".
func Match(u *Universe, x, re *Term) *Term { return u.App("match", "", x, re) }

func EqCI(u *Universe, x, y *Term) *Term {
	if x.IsStr() && y.IsStr() {
		return u.Bool(strings.EqualFold(x.S, y.S))
	}
	return u.App("eqci", "", order(x, y)...)
}

// Printf is the formatted string.
func Printf(u *Universe, f *Term, args []*Term) *Term {
	if f.IsStr() {
		var parts []*Term
		s, k, ok := f.S, 0, true
		for s != "" {
			i := strings.IndexByte(s, '%')
			if i < 0 {
				parts = append(parts, u.Str(s))
				break
			}
			parts = append(parts, u.Str(s[:i]))
			if i+1 >= len(s) {
				ok = false
				break
			}
			switch s[i+1] {
			case '%':
				parts = append(parts, u.Str("%"))
			case 's', 'v':
				if k >= len(args) {
					ok = false
				} else {
					parts = append(parts, args[k])
					k++
				}
			case 'd':
				if k >= len(args) {
					ok = false
				} else {
					parts = append(parts, u.App("itoa", "", args[k]))
					k++
				}
			default:
				ok = false
			}
			s = s[i+2:]
		}
		if ok && k == len(args) {
			return u.Concat(parts...)
		}
	}
	return u.App("printf", "", append([]*Term{f}, args...)...)
}

// Repeat is n times x.
func Repeat(u *Universe, x, n *Term) *Term {
	if n.IsInt() && n.N >= 0 && n.N <= 8 {
		ps := make([]*Term, n.N)
		for i := range ps {
			ps[i] = x
		}
		return u.Concat(ps...)
	}
	return u.App("repeat", "", x, n)
}

// Join is the elements of a list separated by sep.
func Join(u *Universe, l, sep *Term) *Term {
	if l.Op == "list" {
		var ps []*Term
		for i, e := range l.Args {
			if i > 0 {
				ps = append(ps, sep)
			}
			ps = append(ps, e)
		}
		return u.Concat(ps...)
	}
	if l.Op == "nil" {
		return u.Str("")
	}
	return u.App("join", "", l, sep)
}

func (v *VimSide) callf(f *vimFrame, in viml.Ins, get func(int) *Term, set func(*Term) *Stall, facts *Facts) *Stall {
	u := v.C.U
	var args []*Term
	for i := range in.A {
		args = append(args, get(i))
	}
	if strings.HasPrefix(in.S, "s:") {
		short := in.S[2:]
		switch short {
		case "Node":
			return set(MakeNode(u, v.st, facts.Norm(u, args[0])))
		case "Err":
			return set(u.Pure("Err", len(args), args...))
		}
		fn := v.C.File.Funcs[short]
		if fn == nil {
			v.fail("no function %s", in.S)
		}
		return v.invoke(fn, f.class, args, in, set, facts)
	}
	switch in.S {
	case "len", "strlen":
		return set(u.Len(args[0]))
	case "empty":
		return set(u.Eq(u.Len(args[0]), u.Int(0)))
	case "copy":
		return set(args[0])
	case "printf":
		return set(Printf(u, args[0], args[1:]))
	case "join":
		sep := u.Str(" ")
		if len(args) > 1 {
			sep = args[1]
		}
		return set(Join(u, args[0], sep))
	case "stridx":
		return set(u.Stridx(args[0], args[1]))
	case "has_key":
		x, k := args[0], facts.Norm(u, args[1])
		return set(v.st.Has(u, x, k))
	case "escape", "split", "string", "char2nr", "nr2char", "tolower", "toupper":
		return set(u.App("op:"+in.S, "", args...))
	case "str2nr":
		if len(args) == 1 {
			args = append(args, u.Int(10))
		}
		return set(u.App("op:str2nr", "", args...))
	}
	v.fail("function %s", in.S)
	return nil
}

// MakeNode is the constructor of syntax nodes on both sides.
func MakeNode(u *Universe, st *State, typ *Term) *Term {
	if typ.IsInt() && typ.N == -1 {
		return u.Nil()
	}
	o := st.New(u, "Node", typ)
	st.Store(u, o, "type", typ)
	st.Store(u, o, "attr", st.New(u, "attr"))
	return o
}

// Key names the place where the program is.
func (v *VimSide) Key() string {
	var b strings.Builder
	for _, f := range v.frames {
		fmt.Fprintf(&b, "%s.%d.%d/", f.code.Fn.Name, f.block, f.pc)
	}
	return b.String()
}

func (v *VimSide) Slots(fn func(name string, t *Term, set func(*Term))) {
	for i, fr := range v.frames {
		fr := fr
		live := v.C.liveAt(fr.code, fr.block, fr.pc, i < len(v.frames)-1)
		var ns []string
		for n := range fr.regs {
			if live[n] {
				ns = append(ns, n)
			} else {
				delete(fr.regs, n)
			}
		}
		sort.Strings(ns)
		for _, n := range ns {
			n := n
			fn(fmt.Sprintf("%d.%s", i, n), fr.regs[n], func(t *Term) { fr.regs[n] = t })
		}
	}
}

func (c *VimCtx) liveAt(code *viml.Code, b, pc int, inCall bool) map[string]bool {
	k := code.Fn.Name
	in := c.live[k]
	if in == nil {
		in = map[int]map[string]bool{}
		for ch := true; ch; {
			ch = false
			for i := len(code.Blocks) - 1; i >= 0; i-- {
				n := liveFrom(code, in, i, 0, false)
				if len(n) != len(in[i]) {
					in[i] = n
					ch = true
				}
			}
		}
		c.live[k] = in
	}
	return liveFrom(code, in, b, pc, inCall)
}

func liveFrom(code *viml.Code, in map[int]map[string]bool, b, pc int, inCall bool) map[string]bool {
	live := map[string]bool{}
	ins := code.Blocks[b]
	for i := len(ins) - 1; i >= pc; i-- {
		x := ins[i]
		switch x.Op {
		case "jump":
			live = map[string]bool{}
			for n := range in[x.T] {
				live[n] = true
			}
		case "br":
			live = map[string]bool{}
			for n := range in[x.T] {
				live[n] = true
			}
			for n := range in[x.F] {
				live[n] = true
			}
		case "ret", "throw":
			live = map[string]bool{}
		}
		if x.Dst != "" {
			delete(live, x.Dst)
		}
		if i == pc && inCall {
			break
		}
		for _, a := range x.A {
			if a != "" {
				live[a] = true
			}
		}
	}
	live["v:self"] = true
	return live
}
