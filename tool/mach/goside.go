package mach

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// StallKind says why a side stopped.
type StallKind int

const (
	SBranch StallKind = iota // undecided condition
	SLoop                    // at a loop head
	SEvent                   // call that may raise an error
	SReturn
	SThrow
	SFail // outside of what the analysis understands
)

type Stall struct {
	Kind StallKind
	T    *Term   // condition, call, result, error value
	Args []*Term // results
	Key  string  // loop head
	Msg  string
	Pos  string

	Counted bool // the rounds of the loop are bounded by a known number
}

// Side is one of the two programs of a product.
type Side interface {
	Run(f *Facts) *Stall
	Branch(v bool)        // continue after SBranch
	Continue(k StallKind) // continue after SLoop or SEvent
	Clone() Side
	Key() string // the place
	St() *State
	Slots(f func(name string, t *Term, set func(*Term)))
	Where() string
}

// GoCtx is shared by all Go machines of an analysis.
type GoCtx struct {
	setlike map[ssa.Value]ssa.Value
	U       *Universe
	Pos     func(token.Pos) string
	InRepo  func(*ssa.Function) bool
	Opaque  func(fn *ssa.Function) (name string, eff *Effect) // "" to inline
	Intrin  func(g *GoSide, fn *ssa.Function, name string, args []*Term, facts *Facts) (*Term, bool)
	Global  func(g *ssa.Global) *Term
	// GlobalNamed is the constant value of a package variable, or nil
	GlobalNamed func(name string) *Term
	Invoke      func(g *GoSide, c *ssa.CallCommon, recv *Term, args []*Term) (*Term, bool)
	// Event makes inlined or intrinsic calls events; may be nil
	Depth int
	Loops map[*ssa.Function]map[*ssa.BasicBlock]bool
	// SkipGlobal: stores to the package variable are left out
	SkipGlobal func(name string) bool
	counts     map[*ssa.BasicBlock][]count
	live       map[*ssa.Function]*liveness
	closure    map[string]*ssa.Function
	fnID       map[*ssa.Function]string
	// TypeSwitch: how assertions on interface values are treated
	Assert  func(g *GoSide, x *Term, t types.Type, facts *Facts) *Term
	NoLoops bool // do not stop at loop heads
	// Typed: interface values carry their type, globals are state
	Typed bool
	// Method finds the method of the type called t
	Method func(t, name string) *ssa.Function
	// Known interface methods that only read: their effects
	InvokeEff func(c *ssa.CallCommon) *Effect
	// Std is the meaning of functions without body, in typed mode
	Std    func(g *GoSide, c *ssa.CallCommon, fn *ssa.Function, args []*Term, facts *Facts) (*Term, bool)
	Throws func(eff *Effect) bool
}

type goFrame struct {
	fn        *ssa.Function
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	pc        int
	regs      map[ssa.Value]*Term
	call      ssa.Value // value that receives the result in the caller; nil for none
	loopOK    bool      // passed this loop head
	evOK      bool      // passed this event
	defers    []deferred
	inDefer   bool  // started by a defer statement
	panicking *Term // a panic passes this frame
	recovered bool
}

type deferred struct {
	common *ssa.CallCommon
	fn     *Term // function value
	args   []*Term
}

type GoSide struct {
	C      *GoCtx
	st     *State
	frames []*goFrame
	cond   *Term // pending branch
	pend   func(v bool)
	done   *Stall
	Steps  int
}

func (c *GoCtx) init() {
	if c.Loops == nil {
		c.Loops = map[*ssa.Function]map[*ssa.BasicBlock]bool{}
		c.live = map[*ssa.Function]*liveness{}
		c.closure = map[string]*ssa.Function{}
		c.fnID = map[*ssa.Function]string{}
		if c.Depth == 0 {
			c.Depth = 8
		}
	}
}

// NewGo starts fn on args.
func NewGo(c *GoCtx, st *State, fn *ssa.Function, args []*Term) *GoSide {
	c.init()
	g := &GoSide{C: c, st: st}
	g.push(fn, args, nil, nil)
	return g
}

func (g *GoSide) St() *State { return g.st }

func (g *GoSide) push(fn *ssa.Function, args []*Term, free []*Term, call ssa.Value) {
	fr := &goFrame{fn: fn, block: fn.Blocks[0], regs: map[ssa.Value]*Term{}, call: call}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.regs[p] = free[i]
	}
	g.frames = append(g.frames, fr)
}

func (g *GoSide) Clone() Side {
	n := &GoSide{C: g.C, st: g.st.Clone(), cond: g.cond, pend: nil, done: g.done, Steps: g.Steps}
	for _, f := range g.frames {
		h := *f
		h.defers = nil
		for _, d := range f.defers {
			d.args = append([]*Term(nil), d.args...)
			h.defers = append(h.defers, d)
		}
		h.regs = make(map[ssa.Value]*Term, len(f.regs))
		for k, v := range f.regs {
			h.regs[k] = v
		}
		n.frames = append(n.frames, &h)
	}
	return n
}

func (g *GoSide) top() *goFrame { return g.frames[len(g.frames)-1] }

func (g *GoSide) Where() string {
	if len(g.frames) == 0 {
		return "?"
	}
	for i := len(g.frames) - 1; i >= 0; i-- {
		f := g.frames[i]
		for j := f.pc; j >= 0; j-- {
			if j < len(f.block.Instrs) {
				if p := f.block.Instrs[j].Pos(); p.IsValid() {
					return g.C.Pos(p)
				}
			}
		}
		for j := f.pc; j < len(f.block.Instrs); j++ {
			if p := f.block.Instrs[j].Pos(); p.IsValid() {
				return g.C.Pos(p)
			}
		}
		if f.prev != nil {
			for j := len(f.prev.Instrs) - 1; j >= 0; j-- {
				if p := f.prev.Instrs[j].Pos(); p.IsValid() {
					return g.C.Pos(p)
				}
			}
		}
	}
	return g.C.Pos(g.top().fn.Pos())
}

type unsupported string

func (g *GoSide) fail(f string, a ...interface{}) { panic(unsupported(fmt.Sprintf(f, a...))) }

func loopHeads(fn *ssa.Function) map[*ssa.BasicBlock]bool {
	m := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				m[s] = true
			}
		}
	}
	// a loop that does nothing but go into another is cut by that one's head
	for b := range m {
		for c, n := next(b), 0; c != nil && n < 8; c, n = next(c), n+1 {
			if c != b && m[c] {
				delete(m, b)
				break
			}
		}
	}
	return m
}

// next is the block that follows on one in which nothing happens.
func next(b *ssa.BasicBlock) *ssa.BasicBlock {
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			return b.Succs[0]
		case *ssa.If:
			if c, ok := in.Cond.(*ssa.Const); ok && c.Value != nil {
				if constant.BoolVal(c.Value) {
					return b.Succs[0]
				}
				return b.Succs[1]
			}
			return nil
		default:
			return nil
		}
	}
	return nil
}

// counted reports whether a way out of the loop at whose head the frame stands
// compares numbers that are known.
func (g *GoSide) counted(fr *goFrame) bool {
	if g.C.counts == nil {
		g.C.counts = map[*ssa.BasicBlock][]count{}
	}
	cs, ok := g.C.counts[fr.block]
	if !ok {
		cs = loopCounts(fr.block)
		g.C.counts[fr.block] = cs
	}
	for _, c := range cs {
		known := true
		num := func(v ssa.Value) int64 {
			if k, ok := v.(*ssa.Const); ok && k.Value != nil {
				return k.Int64()
			}
			if t := fr.regs[v]; t != nil && t.IsInt() {
				return t.N
			}
			known = false
			return 0
		}
		d := num(c.limit) - num(c.v)
		if known && (c.up && d >= 0 || !c.up && d <= 0) { // nearer in each round
			return true
		}
	}
	return false
}

// count is a comparison of a counter of a loop with what does not change in it.
type count struct {
	v, limit ssa.Value
	up       bool
}

// loopCounts are the comparisons of numbers that leave the loop, where one of
// the numbers changes from round to round and the other does not.
func loopCounts(head *ssa.BasicBlock) []count {
	in := map[*ssa.BasicBlock]bool{head: true}
	var todo []*ssa.BasicBlock
	for _, b := range head.Preds {
		if head.Dominates(b) {
			todo = append(todo, b)
		}
	}
	for len(todo) > 0 {
		b := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if !in[b] {
			in[b] = true
			todo = append(todo, b.Preds...)
		}
	}
	counter := func(v ssa.Value) (up, ok bool) {
		x, isPhi := v.(*ssa.Phi)
		if !isPhi || x.Block() != head {
			return false, false
		}
		n := 0
		for i, e := range x.Edges {
			if !in[head.Preds[i]] {
				continue
			}
			b, isOp := e.(*ssa.BinOp)
			if !isOp || b.Op != token.ADD && b.Op != token.SUB || b.X != v {
				return false, false
			}
			k, isConst := b.Y.(*ssa.Const)
			if !isConst || k.Value == nil || k.Value.Kind() != constant.Int || k.Int64() == 0 {
				return false, false
			}
			u := (k.Int64() > 0) == (b.Op == token.ADD)
			if n++; n > 1 && u != up {
				return false, false
			}
			up = u
		}
		return up, n > 0
	}
	fixed := func(v ssa.Value) bool {
		switch v := v.(type) {
		case *ssa.Const, *ssa.Parameter:
			return true
		case ssa.Instruction:
			return !in[v.Block()]
		}
		return false
	}
	var out []count
	for _, b := range head.Parent().Blocks {
		if !in[b] {
			continue
		}
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || in[b.Succs[0]] && in[b.Succs[1]] {
			continue
		}
		c, ok := br.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		if t, ok := c.X.Type().Underlying().(*types.Basic); !ok || t.Info()&types.IsInteger == 0 {
			continue
		}
		if up, ok := counter(c.X); ok && fixed(c.Y) {
			out = append(out, count{c.X, c.Y, up})
		} else if up, ok := counter(c.Y); ok && fixed(c.X) {
			out = append(out, count{c.Y, c.X, up})
		}
	}
	return out
}

func (g *GoSide) isLoop(fn *ssa.Function, b *ssa.BasicBlock) bool {
	m := g.C.Loops[fn]
	if m == nil {
		m = loopHeads(fn)
		g.C.Loops[fn] = m
	}
	return m[b]
}

// Run executes until something needs a decision.
func (g *GoSide) Run(facts *Facts) (st *Stall) {
	if g.done != nil {
		return g.done
	}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				st = &Stall{Kind: SFail, Msg: string(u), Pos: g.Where()}
				g.done = st
				return
			}
			panic(r)
		}
	}()
	if g.cond != nil { // was waiting for a decision
		v, n := facts.Decide(g.C.U, g.cond)
		if v < 0 {
			return &Stall{Kind: SBranch, T: n, Pos: g.Where()}
		}
		g.Branch(v == 1)
	}
	for {
		if s := g.step(facts); s != nil {
			if s.Pos == "" {
				s.Pos = g.Where()
			}
			return s
		}
	}
}

// Branch decides the pending condition.
func (g *GoSide) Branch(v bool) {
	fr := g.top()
	g.cond = nil
	if br, ok := fr.block.Instrs[fr.pc].(*ssa.If); ok {
		_ = br
		if v {
			g.enter(fr, fr.block.Succs[0])
		} else {
			g.enter(fr, fr.block.Succs[1])
		}
		return
	}
}

// Continue passes a loop head or an event.
func (g *GoSide) Continue(k StallKind) {
	if k == SLoop {
		g.top().loopOK = true
	} else {
		g.top().evOK = true
	}
}

func (g *GoSide) enter(fr *goFrame, b *ssa.BasicBlock) {
	prev := fr.block
	fr.prev, fr.block, fr.pc = prev, b, 0
	fr.loopOK, fr.evOK = false, false
	idx := -1
	for i, p := range b.Preds {
		if p == prev {
			idx = i
			break
		}
	}
	var vals []*Term
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, g.val(fr, phi.Edges[idx]))
	}
	for i, p := range phis {
		fr.regs[p] = vals[i]
	}
	fr.pc = len(phis)
}

func zeroOf(u *Universe, t types.Type) *Term {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsString != 0:
			return u.Str("")
		case t.Info()&(types.IsInteger|types.IsBoolean) != 0:
			return u.Int(0)
		}
	case *types.Struct:
		return u.Rec(map[string]*Term{})
	}
	return u.Nil()
}

func (g *GoSide) val(fr *goFrame, v ssa.Value) *Term {
	u := g.C.U
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroOf(u, v.Type())
		}
		switch v.Value.Kind() {
		case constant.String:
			return u.Str(constant.StringVal(v.Value))
		case constant.Bool:
			return u.Bool(constant.BoolVal(v.Value))
		case constant.Int:
			n, _ := constant.Int64Val(v.Value)
			return u.Int(n)
		}
		return u.App("const", v.Value.ExactString())
	case *ssa.Function:
		return g.fnTerm(v)
	case *ssa.Global:
		return u.App("gaddr", v.String())
	case *ssa.Builtin:
		return u.App("builtin", v.Name())
	}
	t := fr.regs[v]
	if t == nil {
		g.fail("no value for %s", v.Name())
	}
	return t
}

func (g *GoSide) fnTerm(fn *ssa.Function) *Term { return g.C.FnTerm(g.C.U, fn) }

// FnTerm is the function as a value.
func (c *GoCtx) FnTerm(u *Universe, fn *ssa.Function) *Term {
	c.init()
	id := fn.String()
	c.closure[id] = fn
	return u.App("fn", id)
}

// FieldName is the common name of a struct field.
func FieldName(v *types.Var) string {
	return strings.TrimRight(v.Name(), "_")
}

// FieldKey names field i of a struct type; in typed mode with the type, as
// fields of different types are different storage.
func FieldKey(t types.Type, i int, typed bool) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n := FieldName(t.Underlying().(*types.Struct).Field(i))
	if typed {
		if nt, ok := t.(*types.Named); ok {
			return nt.Obj().Name() + "." + n
		}
	}
	return n
}

func structOf(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func embedded(f *types.Var) bool {
	if !f.Embedded() {
		return false
	}
	_, ok := f.Type().(*types.Pointer)
	return ok
}

// load reads through an address.
func (g *GoSide) load(addr *Term, t types.Type) *Term {
	u := g.C.U
	_, isStruct := t.Underlying().(*types.Struct)
	switch addr.Op {
	case "gaddr":
		if g.C.Typed {
			gl := u.Named("globals")
			if g.st.heap[hkey{gl, addr.S, nil}] != nil || g.st.ver[addr.S] != nil {
				return g.st.Load(u, gl, addr.S, u.Nil())
			}
		}
		return u.App("gload", addr.S)
	case "faddr":
		if addr.N == 1 { // embedded pointer: the same object
			return addr.Args[0]
		}
		if isStruct {
			return g.structVal(addr, t)
		}
		if e := g.elem(addr.Args[0]); e != nil {
			if e.Op == "nil" {
				return zeroOf(u, t)
			}
			if e.Op == "rec" || g.st.ver[addr.S] == nil {
				if r := g.st.Load(u, e, addr.S, zeroOf(u, t)); r != nil {
					return r
				}
			}
		}
		return g.st.Load(u, addr.Args[0], addr.S, zeroOf(u, t))
	case "iaddr":
		b := addr.Args[0]
		if b.isNew() {
			return g.st.LoadKey(u, b, addr.Args[1], zeroOf(u, t))
		}
		if b.Op == "gaddr" && g.C.GlobalNamed != nil {
			if t := g.C.GlobalNamed(b.S); t != nil {
				b = t
			}
		}
		if bt, ok := t.Underlying().(*types.Basic); g.C.Typed && ok && bt.Kind() == types.Byte {
			return u.Byte(b, addr.Args[1])
		}
		return u.Index(b, addr.Args[1])
	case "new":
		if addr.S == "cell" {
			return g.st.Load(u, addr, "*", zeroOf(u, t))
		}
		if isStruct {
			return g.structVal(addr, t)
		}
		if _, ok := t.Underlying().(*types.Array); ok {
			return addr
		}
	}
	if isStruct {
		return g.structVal(addr, t)
	}
	return g.st.Load(u, addr, "*", zeroOf(u, t))
}

// elem is the struct that is the element of a slice at the address, if it is one.
func (g *GoSide) elem(at *Term) *Term {
	if !g.C.Typed || at.Op != "iaddr" || at.Args[0].Op == "gaddr" {
		return nil
	}
	u := g.C.U
	if b := at.Args[0]; b.isNew() {
		return g.st.LoadKey(u, b, at.Args[1], u.Nil())
	} else {
		return u.Index(b, at.Args[1])
	}
}

// structVal is a copy of the struct at o.
func (g *GoSide) structVal(o *Term, t types.Type) *Term {
	u := g.C.U
	st := t.Underlying().(*types.Struct)
	touched := o.isNew()
	for k := range g.st.heap {
		if k.o == o || (k.o.Op == "faddr" && k.o.Args[0] == o) {
			touched = true
		}
	}
	if o.Op == "faddr" && !touched {
		return g.st.Load(u, o.Args[0], o.S, u.Rec(map[string]*Term{}))
	}
	if !touched && len(g.st.ver) == 0 {
		return o
	}
	m := map[string]*Term{}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if _, ok := f.Type().Underlying().(*types.Struct); ok {
			m[FieldKey(t, i, g.C.Typed)] = g.structVal(u.mk("faddr", FieldKey(t, i, g.C.Typed), 0, o), f.Type())
			continue
		}
		m[FieldKey(t, i, g.C.Typed)] = g.st.Load(u, o, FieldKey(t, i, g.C.Typed), zeroOf(u, f.Type()))
	}
	return u.Rec(m)
}

func (g *GoSide) store(addr, v *Term, t types.Type) {
	u := g.C.U
	switch addr.Op {
	case "gaddr":
		if g.C.SkipGlobal != nil && g.C.SkipGlobal(addr.S) {
			return
		}
		if g.C.Typed {
			g.st.Store(u, u.Named("globals"), addr.S, v)
			return
		}
		g.fail("assignment to global %s", addr.S)
	case "faddr":
		if addr.N == 1 {
			return // embedded pointer set by a constructor
		}
		if at := addr.Args[0]; g.elem(at) != nil && at.Args[0].isNew() {
			m := map[string]*Term{}
			e := g.elem(at)
			if e.Op != "rec" && e.Op != "nil" {
				g.fail("assignment to a field of an element")
			}
			for i := 0; i+1 < len(e.Args); i += 2 {
				m[e.Args[i].S] = e.Args[i+1]
			}
			m[addr.S] = v
			g.st.StoreKey(u, at.Args[0], at.Args[1], u.Rec(m))
			return
		}
		g.st.Store(u, addr.Args[0], addr.S, v)
		return
	case "iaddr":
		b := addr.Args[0]
		if b.isNew() || (g.C.Typed && b.Op == "gaddr") {
			g.st.StoreKey(u, b, addr.Args[1], v)
			return
		}
		if len(addr.Args) == 3 && addr.Args[2].Op == "faddr" {
			loc := addr.Args[2]
			if y := setElem(u, b, addr.Args[1], v); y != nil && g.st.Load(u, loc.Args[0], loc.S, u.Nil()) == b && !g.st.holds(b, hkey{loc.Args[0], loc.S, nil}) {
				g.st.Store(u, loc.Args[0], loc.S, y)
				return
			}
			if g.C.Typed && b.Op != "list" && g.st.Load(u, loc.Args[0], loc.S, u.Nil()) == b {
				g.st.Store(u, loc.Args[0], loc.S, u.App("setelem", "", b, addr.Args[1], v))
				return
			}
		}
		g.fail("assignment to an element of a slice")
	case "new":
		if addr.S == "cell" {
			g.st.Store(u, addr, "*", v)
			return
		}
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			k := FieldKey(t, i, g.C.Typed)
			g.st.Store(u, addr, k, g.st.Load(u, v, k, zeroOf(u, f.Type())))
		}
		return
	}
	g.st.Store(u, addr, "*", v)
}

func (g *GoSide) step(facts *Facts) *Stall {
	u := g.C.U
	fr := g.top()
	if fr.panicking != nil {
		return g.unwind(facts)
	}
	g.Steps++
	if g.Steps > 200000 {
		g.fail("too many steps")
	}
	if !g.C.NoLoops && fr.pc == phiCount(fr.block) && !fr.loopOK && g.isLoop(fr.fn, fr.block) {
		return &Stall{Kind: SLoop, Key: g.Key(), Counted: g.counted(fr)}
	}
	in := fr.block.Instrs[fr.pc]
	set := func(t *Term) *Stall {
		fr.regs[in.(ssa.Value)] = t
		fr.pc++
		fr.loopOK, fr.evOK = false, false
		return nil
	}
	next := func() *Stall { fr.pc++; fr.loopOK, fr.evOK = false, false; return nil }
	switch in := in.(type) {
	case *ssa.DebugRef:
		return next()
	case *ssa.Alloc:
		et := in.Type().Underlying().(*types.Pointer).Elem()
		switch et.Underlying().(type) {
		case *types.Struct:
			if g.C.Typed {
				k := "local"
				if in.Heap {
					k = "obj"
				}
				o := g.st.New(u, k, u.Str(et.String()))
				switch et.String() {
				case "bytes.Buffer", "strings.Builder":
					g.st.Store(u, o, "#buf", u.Str(""))
				}
				return set(o)
			}
			if strings.HasPrefix(in.Comment, "complit") || strings.HasPrefix(in.Comment, "new") {
				return set(g.st.New(u, "anon"))
			}
			return set(g.st.New(u, "local"))
		case *types.Array:
			return set(g.st.New(u, "arr"))
		}
		return set(g.st.New(u, "cell"))
	case *ssa.BinOp:
		return set(g.binop(in, g.val(fr, in.X), g.val(fr, in.Y)))
	case *ssa.UnOp:
		x := g.val(fr, in.X)
		switch in.Op {
		case token.MUL:
			v := g.load(x, in.Type())
			if v.Op == "gload" && g.C.Global != nil {
				gl, ok := in.X.(*ssa.Global)
				if !ok {
					g.fail("load of a global through a pointer")
				}
				v = g.C.Global(gl)
			}
			return set(v)
		case token.NOT:
			return set(u.Not(x))
		case token.SUB:
			return set(u.Sub(u.Int(0), x))
		}
		g.fail("operator %s", in.Op)
	case *ssa.ChangeType:
		return set(g.val(fr, in.X))
	case *ssa.ChangeInterface:
		return set(g.val(fr, in.X))
	case *ssa.MakeInterface:
		if g.C.Typed {
			return set(u.Iface(in.X.Type().String(), g.val(fr, in.X)))
		}
		return set(g.val(fr, in.X))
	case *ssa.Convert:
		x := g.val(fr, in.X)
		tb, _ := in.Type().Underlying().(*types.Basic)
		fb, _ := in.X.Type().Underlying().(*types.Basic)
		switch {
		case tb != nil && fb != nil && tb.Info()&types.IsString != 0 && fb.Info()&types.IsInteger != 0:
			if x.Op == "byte" {
				return set(u.Index(x.Args...))
			}
			return set(Chr(u, x))
		case g.C.Typed && isBytes(in.Type()) && fb != nil, g.C.Typed && isBytes(in.X.Type()) && tb != nil:
			return set(x)
		case tb != nil && fb != nil && tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0:
			return set(x)
		}
		return set(u.App("convert", in.Type().String(), x))
	case *ssa.FieldAddr:
		f := structOf(in.X.Type()).Field(in.Field)
		x := g.val(fr, in.X)
		if st := g.access(x, facts); st != nil || fr.panicking != nil {
			return st
		}
		if embedded(f) {
			return set(u.mk("faddr", FieldName(f), 1, x))
		}
		return set(u.mk("faddr", FieldKey(in.X.Type(), in.Field, g.C.Typed), 0, x))
	case *ssa.Field:
		f := structOf(in.X.Type()).Field(in.Field)
		x := g.val(fr, in.X)
		if x.Op == "rec" || x.Op == "new" {
			return set(g.st.Load(u, x, FieldKey(in.X.Type(), in.Field, g.C.Typed), zeroOf(u, f.Type())))
		}
		return set(u.App("field", FieldKey(in.X.Type(), in.Field, g.C.Typed), x)) // a copy: no versions
	case *ssa.IndexAddr:
		x := g.val(fr, in.X)
		if ld, ok := in.X.(*ssa.UnOp); ok && ld.Op == token.MUL && fr.regs[ld.X] != nil {
			return set(u.App("iaddr", "", x, g.val(fr, in.Index), fr.regs[ld.X]))
		}
		return set(u.App("iaddr", "", x, g.val(fr, in.Index)))
	case *ssa.Index:
		x, i := g.val(fr, in.X), g.val(fr, in.Index)
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return set(g.byteAt(x, i))
		}
		if x.isNew() {
			return set(g.st.LoadKey(u, x, i, zeroOf(u, in.Type())))
		}
		return set(u.Index(x, i))
	case *ssa.Lookup:
		x, i := g.val(fr, in.X), g.val(fr, in.Index)
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return set(g.byteAt(x, i))
		}
		return g.lookup(fr, in, x, i, facts)
	case *ssa.Slice:
		x := g.val(fr, in.X)
		lo := u.Int(0)
		if in.Low != nil {
			lo = g.val(fr, in.Low)
		}
		var hi *Term
		if in.High != nil {
			hi = g.val(fr, in.High)
		}
		if x.isNew() {
			p := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			var es []*Term
			for i := int64(0); i < p.Len(); i++ {
				es = append(es, g.st.LoadKey(u, x, u.Int(i), zeroOf(u, p.Elem())))
			}
			x = u.List(es...)
		}
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && hi != nil && u.Sub(hi, lo) == u.Int(1) && !x.IsStr() {
			return set(u.Index(x, lo))
		}
		return set(u.Substr(x, lo, hi))
	case *ssa.MakeSlice:
		n := g.val(fr, in.Len)
		if n.IsInt() && n.N == 0 {
			return set(u.List())
		}
		if g.C.Typed {
			o := g.st.New(u, "slice", u.Str(in.Type().String()))
			g.st.Store(u, o, "#len", n)
			return set(o)
		}
		return set(u.App("zeros", "", n))
	case *ssa.MakeMap:
		return set(g.st.New(u, "anon"))
	case *ssa.MapUpdate:
		m := g.val(fr, in.Map)
		k := facts.Norm(u, g.val(fr, in.Key))
		g.st.StoreKey(u, m, k, g.val(fr, in.Value))
		if h := g.st.heap[hkey{m, "[]#", nil}]; h != nil && h.Op == "upd" && g.setLike(in.Map) != nil {
			// all entries are alike: only the keys matter
			g.st.heap[hkey{m, "[]#", nil}] = u.App("upd", "", h.Args[0], h.Args[1])
		}
		return next()
	case *ssa.Extract:
		return set(u.Index(g.val(fr, in.Tuple), u.Int(int64(in.Index))))
	case *ssa.TypeAssert:
		x := g.val(fr, in.X)
		if g.C.Typed {
			t := in.AssertedType
			var v, ok *Term
			if types.IsInterface(t) {
				v, ok = x, u.Implements(t.String(), u.TypeOf(facts.Norm(u, x)))
			} else {
				x = facts.Norm(u, x)
				v, ok = u.Val(t.String(), x), u.Eq(u.TypeOf(x), u.Str(t.String()))
			}
			if in.CommaOk {
				if okUnused(in) { // the zero value is meant to be used
					b, n := facts.Decide(u, ok)
					if b < 0 {
						return &Stall{Kind: SBranch, T: n}
					}
					if b == 0 {
						v = zeroOf(u, t)
					}
				}
				return set(u.List(v, ok))
			}
			return set(v)
		}
		if g.C.Assert != nil {
			ok := g.C.Assert(g, x, in.AssertedType, facts)
			if ok != nil {
				if in.CommaOk {
					return set(u.List(x, ok))
				}
				return set(x)
			}
		}
		if in.CommaOk {
			return set(u.List(x, u.App("is", in.AssertedType.String(), x)))
		}
		return set(x)
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, g.val(fr, b))
		}
		return set(u.App("closure", g.fnTerm(fn).S, bs...))
	case *ssa.Jump:
		g.enter(fr, fr.block.Succs[0])
		return nil
	case *ssa.If:
		c := g.truth(g.val(fr, in.Cond))
		v, n := facts.Decide(u, c)
		if v < 0 {
			g.cond = c
			return &Stall{Kind: SBranch, T: n, Pos: g.C.Pos(condPos(in))}
		}
		g.cond = c
		g.Branch(v == 1)
		return nil
	case *ssa.Return:
		var rs []*Term
		for _, r := range in.Results {
			rs = append(rs, g.val(fr, r))
		}
		var t *Term
		switch len(rs) {
		case 0:
			t = u.Nil()
		case 1:
			t = rs[0]
		default:
			t = u.List(rs...)
		}
		if len(g.frames) == 1 {
			pos := g.Where()
			if in.Pos().IsValid() {
				pos = g.C.Pos(in.Pos())
			}
			g.done = &Stall{Kind: SReturn, T: t, Args: rs, Pos: pos}
			return g.done
		}
		g.frames = g.frames[:len(g.frames)-1]
		up := g.top()
		if fr.inDefer {
			return nil
		}
		if fr.call != nil {
			up.regs[fr.call] = t
		}
		up.pc++
		up.loopOK, up.evOK = false, false
		return nil
	case *ssa.Panic:
		return g.throw(g.val(fr, in.X), g.C.Pos(in.Pos()))
	case *ssa.Defer:
		c := in.Common()
		d := deferred{common: c}
		for _, a := range c.Args {
			d.args = append(d.args, g.val(fr, a))
		}
		if c.IsInvoke() || c.StaticCallee() == nil {
			d.fn = g.val(fr, c.Value)
		} else if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			d.fn = g.val(fr, mc)
		}
		fr.defers = append(fr.defers, d)
		return next()
	case *ssa.Store:
		g.store(g.val(fr, in.Addr), g.val(fr, in.Val), in.Val.Type())
		return next()
	case *ssa.Call:
		return g.call(fr, in, facts)
	case *ssa.RunDefers:
		if len(fr.defers) > 0 {
			return g.runDefer(fr, facts)
		}
		return next()
	case *ssa.Range:
		o := g.st.New(u, "iter")
		g.st.Store(u, o, "over", g.val(fr, in.X))
		g.st.Store(u, o, "n", u.Int(0))
		return set(o)
	case *ssa.Next:
		o := g.val(fr, in.Iter)
		x, n := g.st.Load(u, o, "over", u.Nil()), g.st.Load(u, o, "n", u.Int(0))
		var ks *Term
		if in.IsString {
			ks = u.App("runepos", "", x)
		} else {
			if x.isNew() {
				x = g.st.Freeze(u, x, func(t *Term) *Term { return facts.Norm(u, t) }, nil)
			}
			ks = u.App("mapkeys", "", x)
		}
		g.st.Store(u, o, "n", u.Add(n, u.Int(1)))
		k := u.Index(ks, n)
		var v *Term
		if in.IsString {
			v = u.App("runeat", "", x, k)
		} else {
			v = u.Index(x, k)
		}
		return set(u.List(u.Lt(n, u.Len(ks)), k, v))
	default:
		g.fail("%T", in)
	}
	return nil
}

func condPos(in *ssa.If) token.Pos {
	if p := in.Cond.Pos(); p.IsValid() {
		return p
	}
	return in.Pos()
}

func phiCount(b *ssa.BasicBlock) int {
	n := 0
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			break
		}
		n++
	}
	return n
}

func (g *GoSide) byteAt(x, i *Term) *Term {
	return g.C.U.Byte(x, i)
}

// Byte is the byte x[i] of a string.
func (u *Universe) Byte(x, i *Term) *Term {
	if x.IsStr() && i.IsInt() && i.N >= 0 && i.N < int64(len(x.S)) {
		return u.Int(int64(x.S[i.N]))
	}
	if x.Op == "substr" && !(i.IsInt() && i.N < 0) {
		return u.Byte(x.Args[0], u.Add(x.Args[1], i))
	}
	return u.mk("byte", "", 0, x, i)
}

// truth is the condition that t holds.
func (g *GoSide) truth(t *Term) *Term { return Truth(g.C.U, t) }

// Truth is the normal form of "t is true".
func Truth(u *Universe, t *Term) *Term {
	if isBool(t) || t.IsInt() {
		if t.IsInt() {
			return u.Bool(t.N != 0)
		}
		return t
	}
	return u.Not(u.Eq(t, u.Int(0)))
}

func (g *GoSide) lookup(fr *goFrame, in *ssa.Lookup, x, i *Term, facts *Facts) *Stall {
	u := g.C.U
	i = facts.Norm(u, i)
	et := in.Type()
	if in.CommaOk {
		et = et.(*types.Tuple).At(0).Type()
	}
	zero := zeroOf(u, et)
	set := func(v, ok *Term) *Stall {
		if in.CommaOk {
			v = u.List(v, ok)
		}
		fr.regs[in] = v
		fr.pc++
		fr.loopOK, fr.evOK = false, false
		return nil
	}
	if x.Op == "cmap" { // a constant table
		for k := 0; k < len(x.Args); k += 2 {
			v, n := facts.Decide(u, u.Eq(i, x.Args[k]))
			if v < 0 {
				return &Stall{Kind: SBranch, T: n}
			}
			if v == 1 {
				return set(x.Args[k+1], u.Int(1))
			}
		}
		return set(zero, u.Int(0))
	}
	if x.isNew() && g.st.hidden(x) && g.st.heap[hkey{x, "[]#", nil}] == nil && !i.IsConst() {
		// a table made here: case by case
		var ks []hkey
		known := true
		for k := range g.st.heap {
			if k.o == x {
				ks = append(ks, k)
				known = known && (k.k == nil || k.f == "[]" && k.k.IsConst())
			}
		}
		if known {
			key := func(k hkey) *Term {
				if k.k != nil {
					return k.k
				}
				return u.Str(k.f)
			}
			sort.Slice(ks, func(a, b int) bool { return key(ks[a]).ID < key(ks[b]).ID })
			for _, k := range ks {
				v, n := facts.Decide(u, u.Eq(i, key(k)))
				if v < 0 {
					// decide this key first; the instruction is run again
					return &Stall{Kind: SBranch, T: n}
				}
				if v == 1 {
					return set(g.st.heap[k], u.Int(1))
				}
			}
			return set(zero, u.Int(0))
		}
	}
	has := g.st.Has(u, x, i)
	if c := g.setLike(in.X); c != nil && g.st.hidden(x) {
		v, n := facts.Decide(u, u.Eq(has, u.Int(0)))
		if v >= 0 || !has.IsInt() && n != nil {
			if v < 0 {
				return &Stall{Kind: SBranch, T: n}
			}
			if v == 1 {
				return set(zero, u.Int(0))
			}
			return set(g.val(fr, c), u.Int(1))
		}
	}
	return set(g.st.LoadKey(u, x, i, zero), has)
}

// setLike is the constant that is the value of all entries of the map that v is
// in the frame at the top; nil if it is no such map.
func (g *GoSide) setLike(v ssa.Value) ssa.Value {
	for i := len(g.frames) - 1; i > 0; i-- {
		p, ok := v.(*ssa.Parameter)
		if !ok {
			break
		}
		call, ok := g.frames[i].call.(*ssa.Call)
		if !ok || call.Call.StaticCallee() != g.frames[i].fn {
			return nil
		}
		for j, q := range g.frames[i].fn.Params {
			if q == p && j < len(call.Call.Args) {
				v = call.Call.Args[j]
			}
		}
		if v == ssa.Value(p) {
			return nil
		}
	}
	return g.C.setLike(v)
}

// setLike is the constant that is the value of all entries of a map made in the
// function of v and used only there and in functions it is handed to; nil if v
// is no such map.
func (c *GoCtx) setLike(v ssa.Value) ssa.Value {
	if r, ok := c.setlike[v]; ok {
		return r
	}
	if c.setlike == nil {
		c.setlike = map[ssa.Value]ssa.Value{}
	}
	r := setLike(v)
	c.setlike[v] = r
	return r
}

func setLike(v ssa.Value) ssa.Value {
	m, ok := v.(*ssa.MakeMap)
	if !ok {
		return nil
	}
	constOf := func(x ssa.Value) *ssa.Const {
		if i, ok := x.(*ssa.MakeInterface); ok {
			x = i.X
		}
		c, _ := x.(*ssa.Const)
		return c
	}
	var val ssa.Value
	looked := false
	seen := map[ssa.Value]bool{}
	var uses func(x ssa.Value) bool
	uses = func(x ssa.Value) bool {
		if seen[x] {
			return true
		}
		seen[x] = true
		for _, r := range *x.Referrers() {
			switch r := r.(type) {
			case *ssa.MapUpdate:
				c := constOf(r.Value)
				if r.Map != x || c == nil {
					return false
				}
				if val != nil && constOf(val).Value != c.Value && (c.Value == nil || constOf(val).Value == nil || constOf(val).Value.ExactString() != c.Value.ExactString()) {
					return false
				}
				val = r.Value
			case *ssa.Lookup:
				looked = true
			case *ssa.DebugRef:
			case *ssa.MakeInterface:
				if !uses(r) {
					return false
				}
			case *ssa.Call:
				f := r.Call.StaticCallee()
				if f != nil && f.Name() == "viml_has_key" {
					continue
				}
				if f == nil || len(f.Blocks) == 0 || len(f.Params) != len(r.Call.Args) {
					return false
				}
				for i, a := range r.Call.Args {
					if a == x && !uses(f.Params[i]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	if !uses(m) || val == nil {
		return nil
	}
	if _, ok := val.(*ssa.Const); !ok && looked {
		return nil
	}
	return val
}

func (g *GoSide) binop(in *ssa.BinOp, x, y *Term) *Term {
	return GoBinop(g.C.U, in.Op, x, y, in.X.Type())
}

// GoBinop is the value of x op y for operands of type t.
func GoBinop(u *Universe, op token.Token, x, y *Term, t types.Type) *Term {
	isStr := false
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		isStr = true
	}
	switch op {
	case token.ADD:
		if isStr {
			return u.Concat(x, y)
		}
		return u.Add(x, y)
	case token.SUB:
		return u.Sub(x, y)
	case token.MUL:
		return u.Mul(x, y)
	case token.EQL, token.NEQ:
		var e *Term
		if _, ok := t.Underlying().(*types.Slice); ok {
			if y.Op == "nil" {
				e = u.Eq(u.Len(x), u.Int(0))
			} else {
				e = u.Eq(u.Len(y), u.Int(0))
			}
		} else {
			e = goEq(u, x, y)
		}
		if op == token.NEQ {
			e = u.Not(e)
		}
		return e
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if isStr {
			lt := func(a, b *Term) *Term { return u.App("strlt", "", a, b) }
			switch op {
			case token.LSS:
				return lt(x, y)
			case token.GTR:
				return lt(y, x)
			case token.LEQ:
				return u.Not(lt(y, x))
			default:
				return u.Not(lt(x, y))
			}
		}
		switch op {
		case token.LSS:
			return u.Lt(x, y)
		case token.GTR:
			return u.Lt(y, x)
		case token.LEQ:
			return u.Not(u.Lt(y, x))
		default:
			return u.Not(u.Lt(x, y))
		}
	}
	return u.App("op:"+op.String(), "", x, y)
}

func goEq(u *Universe, x, y *Term) *Term {
	if x.Op == "byte" && y.IsInt() {
		return u.Eq(u.Index(x.Args...), u.Str(string([]byte{byte(y.N)})))
	}
	if y.Op == "byte" && x.IsInt() {
		return goEq(u, y, x)
	}
	return u.Eq(x, y)
}

func (g *GoSide) call(fr *goFrame, in *ssa.Call, facts *Facts) *Stall {
	u := g.C.U
	c := in.Common()
	set := func(t *Term) *Stall {
		fr.regs[in] = t
		fr.pc++
		fr.loopOK, fr.evOK = false, false
		return nil
	}
	var args []*Term
	for _, a := range c.Args {
		args = append(args, g.val(fr, a))
	}
	if c.IsInvoke() {
		recv := g.val(fr, c.Value)
		if g.C.Typed {
			return g.invoke(fr, in, c, facts.Norm(u, recv), args, facts, set)
		}
		if g.C.Invoke != nil {
			if t, ok := g.C.Invoke(g, c, recv, args); ok {
				return set(t)
			}
		}
		g.fail("dynamic call of method %s", c.Method.Name())
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return g.builtin(fr, in, b, args, set)
	}
	fn := c.StaticCallee()
	var free []*Term
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			free = append(free, g.val(fr, b))
		}
	}
	if fn == nil {
		t := facts.Norm(u, g.val(fr, c.Value))
		switch t.Op {
		case "fn", "closure":
			fn = g.C.closure[t.S]
			free = t.Args
		default:
			if g.C.Typed {
				return set(g.st.Opaque(u, "dyn", IO, append([]*Term{t}, args...), func(t *Term) *Term { return facts.Norm(u, t) }))
			}
			g.fail("call of the unknown function %s", t)
		}
	}
	return g.callFn(fr, in, c, fn, free, args, facts, set)
}

// IO is the effect of talking to the world.
var IO = &Effect{Read: map[string]bool{"#io": true}, Mod: map[string]bool{"#io": true}}

func (g *GoSide) callFn(fr *goFrame, in *ssa.Call, c *ssa.CallCommon, fn *ssa.Function, free, args []*Term, facts *Facts, set func(*Term) *Stall) *Stall {
	u := g.C.U
	// method values and thunks
	if fn.Synthetic != "" && fn.Object() != nil && len(fn.Blocks) > 0 {
		g.push(fn, args, free, in)
		return nil
	}
	if g.C.Intrin != nil {
		if t, ok := g.C.Intrin(g, fn, "", args, facts); ok {
			return set(t)
		}
	}
	if name, eff := g.C.Opaque(fn); name != "" {
		if eff.Throws && g.catching() {
			ct := g.peekCall(name, eff, args, facts)
			v, n := facts.Decide(u, u.App("is", "throws", ct))
			if v < 0 {
				return &Stall{Kind: SBranch, T: n}
			}
			g.st.Opaque(u, name, eff, args, func(t *Term) *Term { return facts.Norm(u, t) })
			if v == 1 {
				return g.throw(u.App("thrown", "", ct), "")
			}
			return set(ct)
		}
		if eff.Throws && !fr.evOK {
			ct := g.peekCall(name, eff, args, facts)
			if !g.C.Typed || len(eff.Mod) > 0 || fn.Signature.Results().Len() == 0 {
				return &Stall{Kind: SEvent, T: ct}
			}
			g.st.pend[ct] = true // changes nothing: the order does not matter
		}
		t := g.st.Opaque(u, name, eff, args, func(t *Term) *Term { return facts.Norm(u, t) })
		return set(t)
	}
	if len(fn.Blocks) == 0 && g.C.Std != nil {
		if t, ok := g.C.Std(g, c, fn, args, facts); ok {
			if g.done != nil {
				return g.done
			}
			return set(t)
		}
	}
	if len(fn.Blocks) == 0 {
		return set(u.App("std:"+fn.String(), "", args...))
	}
	if len(g.frames) >= g.C.Depth {
		g.fail("calls nested too deeply at %s", fn.Name())
	}
	n := 0
	for _, f := range g.frames {
		if f.fn == fn {
			n++
		}
	}
	if n > 0 {
		g.fail("recursive call of %s", fn.Name())
	}
	fr.loopOK, fr.evOK = false, false
	g.push(fn, args, free, in)
	return nil
}

// catching reports whether some frame has deferred calls.
func (g *GoSide) catching() bool {
	for _, f := range g.frames {
		if len(f.defers) > 0 {
			return true
		}
	}
	return false
}

// throw raises v.
func (g *GoSide) throw(v *Term, pos string) *Stall {
	if g.catching() {
		g.top().panicking = v
		return nil
	}
	g.done = &Stall{Kind: SThrow, T: v, Pos: pos}
	return g.done
}

// access notes that the target of the pointer x is accessed.
func (g *GoSide) access(x *Term, facts *Facts) *Stall {
	if !g.C.Typed || x.Op == "new" || x.Op == "faddr" || x.Op == "iaddr" || x.Op == "gaddr" {
		return nil
	}
	if x.Op == "nil" || facts.Norm(g.C.U, x).Op == "nil" {
		return g.throw(g.C.U.App("nilderef", ""), "")
	}
	g.st.deref[x] = true
	return nil
}

// Accessed reports whether the target of the pointer was accessed.
func (s *State) Accessed(x *Term, norm func(*Term) *Term) bool {
	if s.deref[x] {
		return true
	}
	for y := range s.deref {
		if norm(y) == x {
			return true
		}
	}
	return false
}

// Crash ends the run as if a nil pointer had been followed before.
func (g *GoSide) Crash() {
	g.cond = nil
	g.done = &Stall{Kind: SThrow, T: g.C.U.App("nilderef", ""), Pos: g.Where()}
}

// Exit ends the program.
func (g *GoSide) Exit(v *Term) {
	g.done = &Stall{Kind: SThrow, T: v}
}

func (g *GoSide) unwind(facts *Facts) *Stall {
	fr := g.top()
	if len(fr.defers) > 0 && !fr.recovered {
		return g.runDefer(fr, facts)
	}
	if fr.recovered {
		if len(fr.defers) > 0 {
			return g.runDefer(fr, facts)
		}
		fr.panicking = nil
		if fr.fn.Recover == nil {
			g.fail("no recover block")
		}
		fr.prev, fr.block, fr.pc = nil, fr.fn.Recover, 0
		return nil
	}
	v := fr.panicking
	g.frames = g.frames[:len(g.frames)-1]
	if len(g.frames) == 0 {
		g.frames = append(g.frames, fr)
		g.done = &Stall{Kind: SThrow, T: v}
		return g.done
	}
	g.top().panicking = v
	return nil
}

func (g *GoSide) runDefer(fr *goFrame, facts *Facts) *Stall {
	u := g.C.U
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	norm := func(t *Term) *Term { return facts.Norm(u, t) }
	c := d.common
	if c.IsInvoke() {
		g.st.Opaque(u, "invoke:"+c.Method.Name(), IO, append([]*Term{d.fn}, d.args...), norm)
		return nil
	}
	fn := c.StaticCallee()
	var free []*Term
	if d.fn != nil {
		if fn == nil {
			t := norm(d.fn)
			fn = g.C.closure[t.S]
		}
		free = d.fn.Args
	}
	if fn == nil {
		g.fail("deferred call of an unknown function")
	}
	if len(fn.Blocks) == 0 {
		if g.C.Std != nil {
			if _, ok := g.C.Std(g, c, fn, d.args, facts); ok {
				return nil
			}
		}
		g.st.Opaque(u, "std:"+fn.String(), IO, d.args, norm)
		return nil
	}
	if name, eff := g.C.Opaque(fn); name != "" {
		g.st.Opaque(u, name, eff, d.args, norm)
		return nil
	}
	g.push(fn, d.args, free, nil)
	g.top().inDefer = true
	return nil
}

// invoke calls a method of an interface value.
func (g *GoSide) invoke(fr *goFrame, in *ssa.Call, c *ssa.CallCommon, recv *Term, args []*Term, facts *Facts, set func(*Term) *Stall) *Stall {
	u := g.C.U
	t := u.TypeOf(recv)
	t = facts.Norm(u, t)
	if t.IsStr() && g.C.Method != nil {
		if fn := g.C.Method(t.S, c.Method.Name()); fn != nil {
			return g.callFn(fr, in, c, fn, nil, append([]*Term{u.Val(t.S, recv)}, args...), facts, set)
		}
	}
	if g.C.Std != nil {
		if t, ok := g.C.Std(g, c, nil, append([]*Term{recv}, args...), facts); ok {
			return set(t)
		}
	}
	eff := IO
	if g.C.InvokeEff != nil {
		eff = g.C.InvokeEff(c)
	}
	as := append([]*Term{recv}, args...)
	norm := func(t *Term) *Term { return facts.Norm(u, t) }
	name := "invoke:" + c.Method.Name()
	if eff.Throws && !g.catching() && !fr.evOK {
		return &Stall{Kind: SEvent, T: g.peekCall(name, eff, as, facts)}
	}
	return set(g.st.Opaque(u, name, eff, as, norm))
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// Frozen is t with the objects made here replaced by their contents.
func (g *GoSide) Frozen(t *Term, facts *Facts) *Term {
	u := g.C.U
	return g.st.Freeze(u, t, func(t *Term) *Term { return facts.Norm(u, t) }, nil)
}

// list is the contents of a slice made here, if they are known.
func (g *GoSide) list(t *Term, facts *Facts) *Term {
	if !t.isNew() || t.S != "slice" {
		return t
	}
	norm := func(t *Term) *Term {
		if facts == nil {
			return t
		}
		return facts.Norm(g.C.U, t)
	}
	if l := g.st.sliceList(g.C.U, t, norm, func(t *Term) *Term { return t }); l != nil {
		return l
	}
	return t
}

// peekCall is the value number the call will have.
func (g *GoSide) peekCall(name string, eff *Effect, args []*Term, facts *Facts) *Term {
	return g.st.Clone().Opaque(g.C.U, name, eff, args, func(t *Term) *Term { return facts.Norm(g.C.U, t) })
}

func (g *GoSide) builtin(fr *goFrame, in *ssa.Call, b *ssa.Builtin, args []*Term, set func(*Term) *Stall) *Stall {
	u := g.C.U
	switch b.Name() {
	case "len":
		x := args[0]
		if x.isNew() && x.S == "slice" {
			return set(g.st.Load(u, x, "#len", u.Nil()))
		}
		if x.isNew() {
			n := int64(0)
			for k := range g.st.heap {
				if k.f == "[]#" && k.o == x {
					g.fail("length of a table")
				}
				if k.o == x {
					n++
				}
			}
			if g.st.hidden(x) {
				return set(u.Int(n))
			}
		}
		return set(u.Len(x))
	case "cap":
		return set(u.App("cap", "", args[0]))
	case "append":
		if g.C.Typed && isBytes(in.Type()) {
			x, y := args[0], args[1]
			if isZero(x) {
				x = u.Str("")
			}
			if y.Op == "list" {
				var cs []*Term
				for _, e := range y.Args {
					cs = append(cs, Chr(u, e))
				}
				y = u.Concat(cs...)
			} else if isZero(y) {
				y = u.Str("")
			}
			return set(u.Concat(x, y))
		}
		return set(ListCat(u, g.list(args[0], nil), g.list(args[1], nil)))
	case "recover":
		if n := len(g.frames); fr.inDefer && n > 1 && g.frames[n-2].panicking != nil && !g.frames[n-2].recovered {
			g.frames[n-2].recovered = true
			return set(g.frames[n-2].panicking)
		}
		return set(u.Nil())
	case "copy":
		g.fail("copy of slices")
	case "panic":
		return g.throw(args[0], "")
	case "min", "max":
		return set(u.App(b.Name(), "", args...))
	}
	g.fail("builtin %s", b.Name())
	return nil
}

func Chr(u *Universe, x *Term) *Term {
	if x.IsInt() && x.N >= 0 && x.N < 128 {
		return u.Str(string(rune(x.N)))
	}
	if x.Op == "byte" {
		return u.Index(x.Args...)
	}
	return u.App("chr", "", x)
}

// ListCat is the concatenation of two lists.
func ListCat(u *Universe, a, b *Term) *Term {
	switch {
	case b.Op == "list":
		return u.Append(a, b.Args...)
	case b.Op == "nil":
		return a
	case isZero(a):
		return b
	case b.Op == "append":
		return u.Append(ListCat(u, a, b.Args[0]), b.Args[1:]...)
	}
	return u.App("lcat", "", a, b)
}

// key identifies the position in all frames.
// Key names the place where the program is.
func (g *GoSide) Key() string {
	var b strings.Builder
	for _, f := range g.frames {
		id := g.C.fnID[f.fn]
		if id == "" {
			id = fmt.Sprintf("f%d", len(g.C.fnID))
			g.C.fnID[f.fn] = id
		}
		fmt.Fprintf(&b, "%s.%d.%d/", id, f.block.Index, f.pc)
	}
	return b.String()
}

// Flags lists the live boolean variables whose value is known.
func (g *GoSide) Flags() string {
	var b strings.Builder
	isBool := func(t types.Type) bool {
		bt, ok := t.Underlying().(*types.Basic)
		return ok && bt.Kind() == types.Bool
	}
	for i, fr := range g.frames {
		var vs []ssa.Value
		val := map[ssa.Value]*Term{}
		for v, t := range fr.regs {
			if a, ok := v.(*ssa.Alloc); ok && t.isNew() && t.S == "cell" && isBool(a.Type().Underlying().(*types.Pointer).Elem()) {
				t = g.st.heap[hkey{t, "*", nil}]
			} else if !isBool(v.Type()) {
				continue
			}
			if t != nil && t.IsInt() {
				vs = append(vs, v)
				val[v] = t
			}
		}
		sort.Slice(vs, func(a, b int) bool { return vs[a].Name() < vs[b].Name() })
		for _, v := range vs {
			fmt.Fprintf(&b, "%d.%s=%d ", i, v.Name(), val[v].N)
		}
	}
	return b.String()
}

// Slots enumerates the live registers.
func (g *GoSide) Slots(f func(name string, t *Term, set func(*Term))) {
	for i, fr := range g.frames {
		fr := fr
		lv := g.C.liveness(fr.fn)
		var live map[ssa.Value]bool
		if i == len(g.frames)-1 {
			live = lv.at(fr.block, fr.pc)
		} else {
			live = lv.at(fr.block, fr.pc+1)
		}
		if fr.fn.Recover != nil {
			for _, in := range fr.fn.Recover.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != nil {
						addLive(live, *op)
					}
				}
			}
		}
		var vs []ssa.Value
		for v := range live {
			if fr.regs[v] != nil {
				vs = append(vs, v)
			}
		}
		sort.Slice(vs, func(a, b int) bool { return vs[a].Name() < vs[b].Name() })
		for k := range fr.regs {
			if !live[k] {
				delete(fr.regs, k)
			}
		}
		for j := range fr.defers {
			d := &fr.defers[j]
			if d.fn != nil {
				f(fmt.Sprintf("%d.defer%d", i, j), d.fn, func(t *Term) { d.fn = t })
			}
			for k := range d.args {
				k := k
				f(fmt.Sprintf("%d.defer%d.%d", i, j, k), d.args[k], func(t *Term) { d.args[k] = t })
			}
		}
		if fr.panicking != nil {
			f(fmt.Sprintf("%d.panic", i), fr.panicking, func(t *Term) { fr.panicking = t })
		}
		for _, v := range vs {
			v := v
			f(fmt.Sprintf("%d.%s", i, v.Name()), fr.regs[v], func(t *Term) { fr.regs[v] = t })
		}
	}
}

// liveness -------------------------------------------------------------------

type liveness struct {
	in map[*ssa.BasicBlock]map[ssa.Value]bool
}

func (c *GoCtx) liveness(fn *ssa.Function) *liveness {
	if l := c.live[fn]; l != nil {
		return l
	}
	l := &liveness{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	for _, b := range fn.Blocks {
		l.in[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			n := l.from(b, phiCount(b))
			if len(n) != len(l.in[b]) {
				l.in[b] = n
				ch = true
			}
		}
	}
	c.live[fn] = l
	return l
}

// from is what is live before instruction pc of b (phis of b are values).
func (l *liveness) from(b *ssa.BasicBlock, pc int) map[ssa.Value]bool {
	live := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range l.in[s] {
			if p, ok := v.(*ssa.Phi); ok && p.Block() == s {
				continue
			}
			live[v] = true
		}
		for i, p := range s.Preds {
			if p != b {
				continue
			}
			for _, in := range s.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				addLive(live, phi.Edges[i])
			}
		}
	}
	for i := len(b.Instrs) - 1; i >= pc; i-- {
		in := b.Instrs[i]
		if v, ok := in.(ssa.Value); ok {
			delete(live, v)
		}
		for _, op := range in.Operands(nil) {
			if *op != nil {
				addLive(live, *op)
			}
		}
	}
	return live
}

func (l *liveness) at(b *ssa.BasicBlock, pc int) map[ssa.Value]bool { return l.from(b, pc) }

func addLive(m map[ssa.Value]bool, v ssa.Value) {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
		return
	}
	m[v] = true
}

// okUnused reports whether nothing looks at whether the assertion held.
func okUnused(in *ssa.TypeAssert) bool {
	for _, r := range *in.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == 1 && len(*e.Referrers()) > 0 {
			return false
		}
	}
	return true
}
