package lint

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// At the end of the input nothing can be consumed, at the end of a line only
// the end of the line itself. Here the values that a function computes at one
// place, given the character there, are followed, to find whether it leaves a
// loop or consumes something.

// where is the character at the place: "" for the end of the input.
type where string

const (
	atEOL where = "<EOL>"
	atEOF where = ""
)

func (w where) String() string {
	switch w {
	case atEOL:
		return "the end of a line"
	case atEOF:
		return "the end of the input"
	}
	return fmt.Sprintf("the character %q", string(w))
}

// places are the characters that are told apart: those of ASCII, one beyond,
// and the ends.
var places = func() (ws []where) {
	ws = append(ws, atEOL, atEOF)
	for c := 0; c < 128; c++ {
		if c != '\n' {
			ws = append(ws, where(string(rune(c))))
		}
	}
	return append(ws, "\u00e9")
}()

// av is an abstract value.
type av struct {
	k kind
	c constant.Value
	s []constant.Value
	o *ob
	f *ssa.Function
	g *ssa.Global
}

type kind int

const (
	vBot   kind = iota
	vConst      // c
	vSet        // one of s
	vNil
	vHere // the position where the end was met
	vText // the characters
	vLen  // their number
	vObj  // o
	vFunc // f
	vMap  // the table that g holds
	vTop
)

// ob is a structure made here.
type ob struct {
	f map[int]av
}

var top = av{k: vTop}

func same(a, b av, n int) bool {
	if a.k != b.k || n > 6 {
		return false
	}
	switch a.k {
	case vConst:
		return a.c.Kind() == b.c.Kind() && constant.Compare(a.c, token.EQL, b.c)
	case vSet:
		if len(a.s) != len(b.s) {
			return false
		}
		for _, c := range a.s {
			if !b.has(c) {
				return false
			}
		}
	case vFunc:
		return a.f == b.f
	case vMap:
		return a.g == b.g
	case vObj:
		if a.o == b.o {
			return true
		}
		if len(a.o.f) != len(b.o.f) {
			return false
		}
		for k, v := range a.o.f {
			if w, ok := b.o.f[k]; !ok || !same(v, w, n+1) {
				return false
			}
		}
	}
	return true
}

func (a av) has(c constant.Value) bool {
	for _, d := range a.all() {
		if d.Kind() == c.Kind() && constant.Compare(c, token.EQL, d) {
			return true
		}
	}
	return false
}

func (a av) all() []constant.Value {
	if a.k == vConst {
		return []constant.Value{a.c}
	}
	return a.s
}

func join(a, b av) av {
	switch {
	case a.k == vBot:
		return b
	case b.k == vBot:
		return a
	case same(a, b, 0):
		return a
	case (a.k == vConst || a.k == vSet) && (b.k == vConst || b.k == vSet):
		s := append([]constant.Value{}, a.all()...)
		for _, c := range b.all() {
			if !a.has(c) {
				s = append(s, c)
			}
		}
		if len(s) <= 12 {
			return av{k: vSet, s: s}
		}
	case a.k == vObj && b.k == vObj:
		f := map[int]av{}
		for k, v := range a.o.f {
			if w, ok := b.o.f[k]; ok {
				f[k] = join(v, w)
			}
		}
		return av{k: vObj, o: &ob{f}}
	}
	return top
}

// outcome of a function: what it delivers, staying or having moved.
type outcome struct {
	stays, moves bool
	sv, mv       av
}

// ender follows values at one of the ends.
type ender struct {
	r     *Reader
	w     where
	memo  map[string]*outcome
	depth int
	steps int
}

// act is one activation. What is known is kept per place and mode.
type act struct {
	e    *ender
	f    *ssa.Function
	in   map[node]env
	work []node
	objs map[*ssa.Alloc]*ob
	loop *loop
	args []av
	ch   bool // what an object holds has changed
	out  outcome
	back bool // the head of the loop is met again, at the same place
	next env  // with these values
}

// node is a place in a function, before an instruction.
type node struct {
	b    *ssa.BasicBlock
	i, m int
}

type env map[ssa.Value]av

const (
	still = 0
	moved = 1
)

func (a *act) val(v ssa.Value, e env) av {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return av{k: vNil}
		}
		return av{k: vConst, c: v.Value}
	case *ssa.Parameter:
		for i, p := range a.f.Params {
			if p == v && i < len(a.args) {
				return a.args[i]
			}
		}
		return top
	case *ssa.Function:
		return av{k: vFunc, f: v}
	}
	if x, ok := e[v]; ok {
		return x
	}
	return top
}

// flow takes what is known to a place.
func (a *act) flow(n node, e env) {
	old, ok := a.in[n]
	if !ok {
		a.in[n] = e
		a.work = append(a.work, n)
		return
	}
	ch := false
	for v, x := range old {
		y, ok := e[v]
		if !ok {
			delete(old, v)
			ch = true
			continue
		}
		if j := join(x, y); !same(j, x, 0) {
			if deep(j, 0) {
				j = top
			}
			old[v] = j
			ch = true
		}
	}
	if ch {
		a.work = append(a.work, n)
	}
}

func deep(a av, n int) bool {
	if n > 4 {
		return true
	}
	if a.k == vObj {
		for _, v := range a.o.f {
			if deep(v, n+1) {
				return true
			}
		}
	}
	return false
}

// edge follows a jump.
func (a *act) edge(b *ssa.BasicBlock, k int, m int, e env) {
	s := b.Succs[k]
	if a.loop != nil && !a.loop.in[s] {
		return
	}
	head := a.loop != nil && s == a.loop.head
	if head && m == moved {
		return
	}
	ne := env{}
	if !head {
		for v, x := range e {
			if i, ok := v.(ssa.Instruction); ok && a.e.r.crosses(i) {
				ne[v] = x
			}
		}
	}
	for i, q := range s.Preds {
		if q != b || b.Succs[0] == s && len(b.Succs) == 2 && b.Succs[1] == s {
			continue
		}
		for _, in := range s.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			ne[p] = a.val(p.Edges[i], e)
		}
		break
	}
	if head {
		if !a.back {
			a.next = ne
		} else {
			for v, x := range ne {
				a.next[v] = join(a.next[v], x)
			}
		}
		a.back = true
		return
	}
	a.flow(node{s, 0, m}, ne)
}

// crosses: the value is used outside its block.
func (r *Reader) crosses(i ssa.Instruction) bool {
	c, ok := r.cross[i]
	if ok {
		return c
	}
	if v, ok := i.(ssa.Value); ok {
		if rs := v.Referrers(); rs != nil {
			for _, u := range *rs {
				if _, phi := u.(*ssa.Phi); phi || u.Block() != i.Block() {
					c = true
				}
			}
		}
		if _, ok := i.(*ssa.Phi); ok {
			c = c || false
		}
	}
	if r.cross == nil {
		r.cross = map[ssa.Instruction]bool{}
	}
	r.cross[i] = c
	return c
}

// solve follows everything from n on.
func (a *act) solve(n node, e env) {
	for round := 0; round < 10; round++ {
		a.in = map[node]env{}
		a.ch, a.back, a.out = false, false, outcome{}
		ee := env{}
		for v, x := range e {
			ee[v] = x
		}
		a.flow(n, ee)
		for len(a.work) > 0 && a.e.steps < 400000 {
			x := a.work[len(a.work)-1]
			a.work = a.work[:len(a.work)-1]
			a.e.steps++
			le := env{}
			for v, y := range a.in[x] {
				le[v] = y
			}
			a.run(x.b, x.i, x.m, le)
		}
		if !a.ch {
			break
		}
	}
	if a.e.steps >= 400000 {
		a.out = outcome{true, true, top, top}
		a.back = true
	}
}

// run follows a block from instruction i on.
func (a *act) run(b *ssa.BasicBlock, i, m int, e env) {
	for ; i < len(b.Instrs); i++ {
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi:
		case *ssa.Alloc:
			o := a.objs[in]
			if o == nil {
				o = &ob{map[int]av{}}
				a.objs[in] = o
			}
			e[in] = av{k: vObj, o: o}
		case *ssa.Store:
			v := a.val(in.Val, e)
			if a.e.r.isPos(in.Addr) {
				to := moved
				if v.k == vHere {
					to = still
				}
				if to != m {
					a.flow(node{b, i + 1, to}, e)
					return
				}
				continue
			}
			var o *ob
			f := 0
			switch ad := in.Addr.(type) {
			case *ssa.FieldAddr:
				if x := a.val(ad.X, e); x.k == vObj {
					o = x.o
					f = ad.Field
				}
			case *ssa.Alloc:
				o = a.objs[ad]
				f = -1
			}
			if o != nil {
				n := join(o.f[f], v)
				if deep(n, 0) {
					n = top
				}
				if !same(o.f[f], n, 0) {
					o.f[f] = n
					a.ch = true
				}
			}
		case *ssa.Call:
			x, o, split := a.call(in, m, e)
			if split {
				other := 1 - m
				if o.moves {
					oe := env{}
					for v, y := range e {
						oe[v] = y
					}
					oe[in] = o.mv
					a.flow(node{b, i + 1, other}, oe)
				}
				if !o.stays {
					return
				}
				x = o.sv
			}
			e[in] = x
		case *ssa.If:
			c := a.val(in.Cond, e)
			if c.k == vConst && c.c.Kind() == constant.Bool {
				s := 1
				if constant.BoolVal(c.c) {
					s = 0
				}
				a.edge(b, s, m, e)
				return
			}
			a.edge(b, 0, m, e)
			a.edge(b, 1, m, e)
			return
		case *ssa.Jump:
			a.edge(b, 0, m, e)
			return
		case *ssa.Panic:
			return
		case *ssa.Return:
			x := top
			if len(in.Results) == 1 {
				x = a.val(in.Results[0], e)
			}
			if m == still {
				a.out.stays = true
				a.out.sv = join(a.out.sv, x)
			} else {
				a.out.moves = true
				a.out.mv = join(a.out.mv, x)
			}
			return
		default:
			if v, ok := in.(ssa.Value); ok {
				e[v] = a.eval(in, m, e)
			}
		}
	}
}

func (a *act) eval(in ssa.Instruction, m int, e env) av {
	r := a.e.r
	switch in := in.(type) {
	case *ssa.UnOp:
		x := in.X
		switch in.Op {
		case token.MUL:
			if r.isPos(x) {
				if m == still {
					return av{k: vHere}
				}
				return top
			}
			switch ad := x.(type) {
			case *ssa.FieldAddr:
				if r.ofReader(ad) {
					if s, ok := in.Type().Underlying().(*types.Slice); ok && isString(s.Elem()) {
						return av{k: vText}
					}
					return top
				}
				if o := a.val(ad.X, e); o.k == vObj {
					if v, ok := o.o.f[ad.Field]; ok {
						return v
					}
					return zero(in.Type())
				} else if o.k == vBot {
					return av{}
				}
			case *ssa.IndexAddr:
				if a.val(ad.X, e).k == vText && a.val(ad.Index, e).k == vHere && m == still {
					if a.e.w != atEOF {
						return str(string(a.e.w))
					}
				}
			case *ssa.Global:
				if c, ok := r.global(ad); ok {
					return av{k: vConst, c: c}
				}
				if r.tables[ad] != nil {
					return av{k: vMap, g: ad}
				}
			case *ssa.Alloc:
				if o := a.objs[ad]; o != nil {
					if v, ok := o.f[-1]; ok {
						return v
					}
				}
			}
			return top
		case token.NOT:
			if v := a.val(x, e); v.k == vConst && v.c.Kind() == constant.Bool {
				return av{k: vConst, c: constant.MakeBool(!constant.BoolVal(v.c))}
			}
		case token.SUB:
			if v := a.val(x, e); v.k == vConst {
				return av{k: vConst, c: constant.UnaryOp(token.SUB, v.c, 0)}
			}
		}
		return top
	case *ssa.BinOp:
		return a.binop(in.Op, a.val(in.X, e), a.val(in.Y, e))
	case *ssa.MakeClosure:
		return av{k: vFunc, f: in.Fn.(*ssa.Function)}
	case *ssa.Lookup:
		return r.lookup(in, a.val(in.X, e), a.val(in.Index, e))
	case *ssa.Extract:
		if t := a.val(in.Tuple, e); t.k == vObj {
			if v, ok := t.o.f[in.Index]; ok {
				return v
			}
		}
	case *ssa.MakeInterface:
		return a.val(in.X, e)
	case *ssa.ChangeType:
		return a.val(in.X, e)
	case *ssa.ChangeInterface:
		return a.val(in.X, e)
	case *ssa.TypeAssert:
		if !in.CommaOk {
			return a.val(in.X, e)
		}
	}
	return top
}

func (a *act) binop(op token.Token, x, y av) av {
	if x.k == vBot || y.k == vBot {
		return av{}
	}
	if x.k == vConst && y.k == vConst && x.c.Kind() == y.c.Kind() {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if x.c.Kind() == constant.Bool && op != token.EQL && op != token.NEQ {
				return top
			}
			return av{k: vConst, c: constant.MakeBool(constant.Compare(x.c, op, y.c))}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR:
			if x.c.Kind() == constant.String && op != token.ADD || x.c.Kind() == constant.Bool {
				return top
			}
			return av{k: vConst, c: constant.BinaryOp(x.c, op, y.c)}
		}
		return top
	}
	b := func(v bool) av { return av{k: vConst, c: constant.MakeBool(v)} }
	if (x.k == vSet || x.k == vConst) && (y.k == vSet || y.k == vConst) && (op == token.EQL || op == token.NEQ) {
		for _, c := range x.all() {
			if y.has(c) {
				return top
			}
		}
		return b(op == token.NEQ)
	}
	if y.k == vHere && x.k == vLen {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	if x.k == vHere && y.k == vLen {
		end := a.e.w == atEOF
		switch op {
		case token.GEQ, token.EQL:
			return b(end)
		case token.LSS, token.NEQ:
			return b(!end)
		case token.LEQ:
			return b(true)
		case token.GTR:
			return b(false)
		}
		return top
	}
	if op == token.ADD || op == token.SUB {
		if x.k == vHere && y.k == vConst && (constant.Sign(y.c) == 0 || a.e.w == atEOF && op == token.ADD && constant.Sign(y.c) > 0) {
			return x // beyond the end is the end
		}
	}
	if op == token.EQL || op == token.NEQ {
		if x.k == vNil && y.k == vNil || x.k == vHere && y.k == vHere {
			return b(op == token.EQL)
		}
		if x.k == vNil && y.k == vObj || x.k == vObj && y.k == vNil {
			return b(op == token.NEQ)
		}
	}
	return top
}

// call follows a call. What functions of the program deliver may depend on
// whether they stay.
func (a *act) call(in *ssa.Call, m int, e env) (x av, o outcome, split bool) {
	c := &in.Call
	var args []av
	for _, x := range c.Args {
		args = append(args, a.val(x, e))
	}
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		x = top
		if bi.Name() == "len" && len(args) == 1 {
			switch args[0].k {
			case vText:
				x = av{k: vLen}
			case vBot:
				x = av{}
			case vConst:
				if args[0].c.Kind() == constant.String {
					x = av{k: vConst, c: constant.MakeInt64(int64(len(constant.StringVal(args[0].c))))}
				}
			case vNil:
				x = av{k: vConst, c: constant.MakeInt64(0)}
			}
		}
		return x, o, false
	}
	hs := a.e.r.g.Callees(c)
	if !c.IsInvoke() {
		if v := a.val(c.Value, e); v.k == vFunc && a.e.r.g.known[v.f] {
			hs = []*ssa.Function{v.f}
		}
	}
	var fns []*ssa.Function
	for _, h := range hs {
		if len(h.Blocks) > 0 {
			fns = append(fns, h)
		}
	}
	if len(fns) == 0 {
		return model(c, args), o, false
	}
	for _, h := range fns {
		p := a.e.apply(h, args, m)
		o.stays = o.stays || p.stays
		o.moves = o.moves || p.moves
		o.sv = join(o.sv, p.sv)
		o.mv = join(o.mv, p.mv)
	}
	if m == moved { // staying means not to have come back
		o.stays, o.moves = o.moves, o.stays
		o.sv, o.mv = o.mv, o.sv
	}
	return top, o, true // stays: the mode is as it was
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func str(s string) av { return av{k: vConst, c: constant.MakeString(s)} }

func zero(t types.Type) av {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return str("")
		case u.Info()&types.IsInteger != 0:
			return av{k: vConst, c: constant.MakeInt64(0)}
		case u.Info()&types.IsBoolean != 0:
			return av{k: vConst, c: constant.MakeBool(false)}
		}
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
		return av{k: vNil}
	}
	return top
}

// apply follows a function. The outcome tells of the absolute mode at its
// return: stays is still.
func (e *ender) apply(f *ssa.Function, args []av, m int) outcome {
	n := e.r.g.Name(f)
	if x, ok := pattern(n, args); ok {
		return settled(x, m)
	}
	if n == "go.ExprTokenizer.get" && m == still { // delivers what get2 does
		for _, g := range e.r.g.Fns {
			if e.r.g.Name(g) == "go.ExprTokenizer.get2" {
				return e.apply(g, args, m)
			}
		}
	}
	here, known := false, false
	for _, x := range args {
		if x.k == vHere || x.k == vObj {
			here = true
		}
		if x.k == vConst || x.k == vSet || x.k == vFunc {
			known = true
		}
	}
	if !e.r.reads[f] && !known && !here {
		if !returns(f) {
			return outcome{}
		}
		return settled(top, m)
	}
	if m == moved && !here {
		return settled(top, m)
	}
	if e.depth > 40 || e.steps > 200000 {
		return outcome{true, true, top, top}
	}
	key := ""
	for _, x := range args {
		key += show(x, 0) + "|"
	}
	key = n + "(" + key + string(rune('0'+m))
	if o, ok := e.memo[key]; ok {
		return *o
	}
	rec := &outcome{true, true, top, top}
	e.memo[key] = rec
	e.depth++
	a := &act{e: e, f: f, objs: map[*ssa.Alloc]*ob{}, args: args}
	a.solve(node{f.Blocks[0], 0, m}, env{})
	e.depth--
	*rec = a.out
	return a.out
}

func settled(x av, m int) outcome {
	if m == still {
		return outcome{stays: true, sv: x}
	}
	return outcome{moves: true, mv: x}
}

func show(x av, n int) string {
	switch x.k {
	case vConst:
		return x.c.ExactString()
	case vFunc:
		return fmt.Sprintf("f%p", x.f)
	case vMap:
		return fmt.Sprintf("m%p", x.g)
	case vSet:
		s := "["
		for _, c := range x.s {
			s += c.ExactString() + ","
		}
		return s
	case vObj:
		if n > 3 {
			return "o"
		}
		s := "{"
		for i := -1; i < 40; i++ {
			if v, ok := x.o.f[i]; ok {
				s += show(v, n+1) + ","
			}
		}
		return s + "}"
	}
	return "#" + string(rune('0'+int(x.k)))
}

// returns: some way through the function returns.
func returns(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && b != f.Recover {
			return true
		}
	}
	return false
}

// pattern decides a match of a known text.
func pattern(n string, args []av) (av, bool) {
	if len(args) != 2 || args[0].k != vConst || args[1].k != vConst {
		return top, false
	}
	switch n {
	case "go.viml_eqregh", "go.viml_eqreg", "go.viml_eqregq":
	case "go.viml_equalci":
		return av{k: vConst, c: constant.MakeBool(strings.EqualFold(constant.StringVal(args[0].c), constant.StringVal(args[1].c)))}, true
	default:
		return top, false
	}
	p := constant.StringVal(args[1].c)
	var b strings.Builder
	for i := 0; i < len(p); i++ {
		switch ch := p[i]; {
		case ch == '\\' && i+1 < len(p):
			i++
			switch p[i] {
			case '(', ')', '|', '?', '+', '{':
				b.WriteByte(p[i])
			case '<', '>':
				b.WriteString(`\b`)
			case 'S', 's', 'd', 't', 'w', '.', '*', '[', ']', '^', '$', '/', '\\':
				b.WriteByte('\\')
				b.WriteByte(p[i])
			default:
				return top, true
			}
		case ch == '(' || ch == ')' || ch == '|' || ch == '?' || ch == '+' || ch == '{' || ch == '}':
			b.WriteByte('\\')
			b.WriteByte(ch)
		default:
			b.WriteByte(ch)
		}
	}
	re, err := regexp.Compile(b.String())
	if err != nil {
		return top, true
	}
	return av{k: vConst, c: constant.MakeBool(re.MatchString(constant.StringVal(args[0].c)))}, true
}

// looked: a map is only looked at.
func looked(u *ssa.UnOp) bool {
	if _, ok := u.Type().Underlying().(*types.Map); !ok {
		return true
	}
	for _, x := range *u.Referrers() {
		switch x := x.(type) {
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// table is what a map that is filled with constants holds.
func table(v ssa.Value) map[string]av {
	mk, ok := v.(*ssa.MakeMap)
	if !ok {
		return nil
	}
	t := map[string]av{}
	for _, u := range *mk.Referrers() {
		switch u := u.(type) {
		case *ssa.MapUpdate:
			k, ok := u.Key.(*ssa.Const)
			if !ok || k.Value == nil {
				return nil
			}
			if c, ok := u.Value.(*ssa.Const); ok && c.Value != nil {
				t[k.Value.ExactString()] = av{k: vConst, c: c.Value}
			} else {
				t[k.Value.ExactString()] = top
			}
		case *ssa.Store, *ssa.DebugRef:
		default:
			return nil
		}
	}
	return t
}

// lookup is the entry of a table.
func (r *Reader) lookup(in *ssa.Lookup, x, k av) av {
	if x.k != vMap || k.k != vConst {
		return top
	}
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok {
		return top
	}
	v, ok := r.tables[x.g][k.c.ExactString()]
	if !ok {
		v = zero(mt.Elem())
	}
	if in.CommaOk {
		return av{k: vObj, o: &ob{map[int]av{0: v, 1: {k: vConst, c: constant.MakeBool(ok)}}}}
	}
	return v
}

// global is the value of a variable that is set once, to a constant.
func (r *Reader) global(v *ssa.Global) (constant.Value, bool) {
	if r.globals == nil {
		r.globals = map[*ssa.Global]constant.Value{}
		r.tables = map[*ssa.Global]map[string]av{}
		n := map[*ssa.Global]int{}
		bad := map[*ssa.Global]bool{}
		seen := map[*ssa.Function]bool{}
		visit := func(f *ssa.Function) {
			if f == nil || seen[f] {
				return
			}
			seen[f] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if ok {
						if g, ok := s.Addr.(*ssa.Global); ok {
							n[g]++
							if c, ok := s.Val.(*ssa.Const); ok && c.Value != nil && f.Name() == "init" {
								r.globals[g] = c.Value
							} else if t := table(s.Val); t != nil && f.Name() == "init" {
								r.tables[g] = t
							} else {
								n[g] += 2
							}
						}
						if g, ok := s.Val.(*ssa.Global); ok {
							n[g] += 2
						}
					}
					if u, ok := in.(*ssa.UnOp); ok {
						if g, ok := u.X.(*ssa.Global); ok && !looked(u) {
							delete(r.tables, g)
							bad[g] = true
						}
					}
					if c, ok := in.(ssa.CallInstruction); ok {
						for _, a := range c.Common().Args {
							if g, ok := a.(*ssa.Global); ok {
								n[g] += 2
							}
						}
					}
				}
			}
		}
		for _, f := range r.g.Fns {
			visit(f)
			if f.Pkg != nil {
				for _, m := range f.Pkg.Members {
					if h, ok := m.(*ssa.Function); ok && strings.HasPrefix(h.Name(), "init") {
						visit(h)
					}
				}
			}
		}
		for g := range bad {
			delete(r.tables, g)
		}
		for g, k := range n {
			if k > 1 {
				delete(r.globals, g)
				delete(r.tables, g)
			}
		}
	}
	c, ok := r.globals[v]
	return c, ok
}

// model of functions without source.
func model(c *ssa.CallCommon, args []av) av {
	f := c.StaticCallee()
	if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "strings" || len(args) != 2 {
		return top
	}
	for _, x := range args {
		if x.k != vConst || x.c.Kind() != constant.String {
			return top
		}
	}
	s, t := constant.StringVal(args[0].c), constant.StringVal(args[1].c)
	b := func(v bool) av { return av{k: vConst, c: constant.MakeBool(v)} }
	n := func(v int) av { return av{k: vConst, c: constant.MakeInt64(int64(v))} }
	switch f.Name() {
	case "Index":
		return n(strings.Index(s, t))
	case "LastIndex":
		return n(strings.LastIndex(s, t))
	case "Contains":
		return b(strings.Contains(s, t))
	case "ContainsAny":
		return b(strings.ContainsAny(s, t))
	case "HasPrefix":
		return b(strings.HasPrefix(s, t))
	case "HasSuffix":
		return b(strings.HasSuffix(s, t))
	case "EqualFold":
		return b(strings.EqualFold(s, t))
	}
	return top
}

// stuck: a way round the loop that, at one of the ends, consumes nothing and
// decides the next time as it did before.
func (r *Reader) stuck(f *ssa.Function, l loop, w where) bool {
	for _, args := range r.contexts(f) {
		if r.stuckWith(f, args, l, w) {
			return true
		}
	}
	return false
}

// contexts are the arguments that the function is called with, as far as they
// are constants or functions.
func (r *Reader) contexts(f *ssa.Function) (out [][]av) {
	if c, ok := r.ctx[f]; ok {
		return c
	}
	if r.ctx == nil {
		r.ctx = map[*ssa.Function][][]av{}
	}
	var tops []av
	for range f.Params {
		tops = append(tops, top)
	}
	a := &act{e: &ender{r: r}, f: f}
	seen := map[string]bool{}
	whole := r.g.isTaken(f)
	for _, g := range r.g.Fns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() != f {
					continue
				}
				args := append([]av{}, tops...)
				key := ""
				for i, x := range c.Common().Args {
					switch x := x.(type) {
					case *ssa.Const, *ssa.Function:
						args[i] = a.val(x, nil)
					case *ssa.MakeClosure:
						args[i] = av{k: vFunc, f: x.Fn.(*ssa.Function)}
					case *ssa.UnOp:
						if gl, ok := x.X.(*ssa.Global); ok {
							if v, ok := r.global(gl); ok {
								args[i] = av{k: vConst, c: v}
							}
						}
					}
					key += show(args[i], 0) + "|"
				}
				if !seen[key] {
					seen[key] = true
					out = append(out, args)
				}
			}
		}
	}
	if whole || len(out) == 0 || len(out) > 40 {
		out = [][]av{tops}
	}
	r.ctx[f] = out
	return
}

func (r *Reader) stuckWith(f *ssa.Function, args []av, l loop, w where) bool {
	e := &ender{r: r, w: w, memo: map[string]*outcome{}}
	init := env{}
	for n := 0; n < 6; n++ {
		a := &act{e: e, f: f, objs: map[*ssa.Alloc]*ob{}, args: args, loop: &l}
		a.solve(node{l.head, 0, still}, init)
		if !a.back {
			return false
		}
		eq := true
		for _, in := range l.head.Instrs {
			if p, ok := in.(*ssa.Phi); ok && !same(a.val(p, init), a.val(p, a.next), 0) {
				eq = false
			}
		}
		if eq {
			return true
		}
		init = a.next
	}
	return true
}
