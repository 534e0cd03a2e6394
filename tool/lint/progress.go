package lint

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// adv is a lower bound of how far a position lies behind the position at some
// earlier point, where standing at the end of a line counts as far enough.
type adv int

const (
	never adv = 1 << 20 // no execution gets there
	back  adv = -1      // nothing is known
	limit adv = 4
)

func (a adv) plus(n int64) adv {
	if a == never || a == back {
		return a
	}
	r := int64(a) + n
	if r < 0 {
		return back
	}
	if r > int64(limit) {
		return limit
	}
	return adv(r)
}

// Reader knows how functions move the position of the character stream.
type Reader struct {
	g     *Prog
	typ   types.Type // the structure of the stream
	field int        // its position
	sum   map[*ssa.Function]adv
	set   map[*ssa.Function]int // sets the position to this argument, plus 1
	reads map[*ssa.Function]bool

	// With a command in sight, distances are from its start, or from the start
	// of the function if that is further: what is recorded of a command are
	// positions of the command.
	cmd     *Reader // the analysis that does so
	asCmd   bool    // this is it
	touches map[*ssa.Function]bool

	cross   map[ssa.Instruction]bool
	globals map[*ssa.Global]constant.Value
	tables  map[*ssa.Global]map[string]av
	ctx     map[*ssa.Function][][]av
}

// moves by name that the analysis takes for granted: they consume what they
// deliver, except at the end
var moves = map[string]adv{"go.ExprTokenizer.get": 1}

// NewReader finds the stream and summarises the functions of package go.
func NewReader(g *Prog) *Reader {
	p := g.Pkg("go")
	if p == nil {
		return nil
	}
	o := p.Types.Scope().Lookup("StringReader")
	if o == nil {
		return nil
	}
	st, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	r := &Reader{g: g, typ: o.Type(), field: -1, sum: map[*ssa.Function]adv{}, set: map[*ssa.Function]int{}, reads: map[*ssa.Function]bool{}}
	for i := 0; i < st.NumFields(); i++ {
		if b, ok := st.Field(i).Type().(*types.Basic); ok && b.Kind() == types.Int {
			if r.field >= 0 {
				r.field = -2
				break
			}
			r.field = i
		}
	}
	if r.field < 0 {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "i" {
				r.field = i
			}
		}
	}
	if r.field < 0 {
		return nil
	}
	c := *r
	c.sum, c.set, c.reads = map[*ssa.Function]adv{}, map[*ssa.Function]int{}, map[*ssa.Function]bool{}
	c.asCmd = true
	c.touches = map[*ssa.Function]bool{}
	r.cmd = &c
	r.summarise()
	c.summarise()
	return r
}

// ofCmd: the address of a position that is recorded of a command.
func (r *Reader) ofCmd(a ssa.Value) bool {
	fa, ok := a.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	n := named(fa.X.Type())
	p, ok := fa.Type().Underlying().(*types.Pointer)
	return ok && n != nil && n.Obj().Name() == "ExArg" && r.isPosObj(p.Elem())
}

func (r *Reader) isPos(a ssa.Value) bool {
	fa, ok := a.(*ssa.FieldAddr)
	return ok && fa.Field == r.field && types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), r.typ)
}

func (r *Reader) ofReader(a ssa.Value) bool {
	fa, ok := a.(*ssa.FieldAddr)
	return ok && types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), r.typ)
}

func (r *Reader) summarise() {
	// functions that read the stream
	for ch := true; ch; {
		ch = false
		for _, f := range r.g.Fns {
			if r.reads[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					hit := false
					switch in := in.(type) {
					case *ssa.FieldAddr:
						hit = r.ofReader(in)
					case ssa.CallInstruction:
						for _, h := range r.g.Callees(in.Common()) {
							hit = hit || r.reads[h]
						}
					}
					if hit && !r.reads[f] {
						r.reads[f] = true
						ch = true
					}
				}
			}
		}
	}
	if r.asCmd {
		for ch := true; ch; {
			ch = false
			for _, f := range r.g.Fns {
				if r.touches[f] {
					continue
				}
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						hit := false
						switch in := in.(type) {
						case *ssa.UnOp:
							hit = in.Op == token.MUL && r.ofCmd(in.X)
						case ssa.CallInstruction:
							for _, h := range r.g.Callees(in.Common()) {
								hit = hit || r.touches[h]
							}
						}
						if hit && !r.touches[f] {
							r.touches[f] = true
							ch = true
						}
					}
				}
			}
		}
	}
	// functions that set the position to an argument
	for _, f := range r.g.Fns {
		if len(f.Blocks) != 1 {
			continue
		}
		for _, in := range f.Blocks[0].Instrs {
			s, ok := in.(*ssa.Store)
			if !ok || !r.isPos(s.Addr) {
				continue
			}
			v := s.Val
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				if fa, ok := u.X.(*ssa.FieldAddr); ok {
					v = fa.X
				}
			}
			for i, p := range f.Params {
				if p == v {
					r.set[f] = i + 1
				}
			}
		}
	}
	for _, f := range r.g.Fns {
		r.sum[f] = never
	}
	for ch := true; ch; {
		ch = false
		for _, f := range r.g.Fns {
			if !r.reads[f] {
				r.sum[f] = 0
				continue
			}
			v := r.flow(f, f.Blocks[0], nil, nil)
			if v < r.sum[f] {
				r.sum[f] = v
				ch = true
			}
		}
	}
}

// result is the lower bound for a call.
func (r *Reader) call(c *ssa.CallCommon, d adv, pos map[ssa.Value]adv) adv {
	hs := r.g.Callees(c)
	if len(hs) == 0 {
		return d
	}
	out := never
	for _, h := range hs {
		v := never
		n := r.g.Name(h)
		if k := r.set[h]; k > 0 {
			v = back
			args := c.Args
			if k-1 < len(args) {
				if p, ok := pos[args[k-1]]; ok {
					v = p
				}
			}
		} else if m, ok := moves[n]; ok {
			v = d.plus(int64(m))
		} else if n == "go.StringReader.getn" && len(c.Args) == 2 {
			v = d
			if k, ok := c.Args[1].(*ssa.Const); ok && k.Value != nil && constant.Sign(k.Value) > 0 {
				v = d.plus(1)
			} else if positive(c.Args[1]) {
				v = d.plus(1)
			}
		} else if r.toEnd(h) {
			v = back
			if k, ok := c.Args[len(c.Args)-1].(*ssa.Const); ok && k.Value != nil && constant.Sign(k.Value) >= 0 {
				v = limit
			}
		} else if r.moved(h) {
			v = d
			if k, ok := c.Args[len(c.Args)-1].(*ssa.Const); ok && k.Value != nil {
				if i, ok := constant.Int64Val(k.Value); ok {
					v = d.plus(i)
				}
			} else if !positive(c.Args[len(c.Args)-1]) {
				v = back
			}
		} else if s := r.sum[h]; s == never {
			v = never
		} else if s == back {
			v = back
		} else if r.asCmd && r.touches[h] {
			v = s
		} else {
			v = d.plus(int64(s))
		}
		if v < out {
			out = v
		}
	}
	return out
}

// positive: the length of a string that is compared with non-empty texts, or
// a positive constant.
func positive(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value != nil && v.Value.Kind() == constant.Int && constant.Sign(v.Value) > 0
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return true // of what was just looked at
		}
		if f, ok := v.Call.Value.(*ssa.Function); ok && strings.HasSuffix(f.Name(), "len") {
			return true
		}
	}
	return false
}

// moved: the function adds its last argument to the position.
func (r *Reader) moved(f *ssa.Function) bool {
	if len(f.Blocks) != 1 || len(f.Params) != 2 {
		return false
	}
	for _, in := range f.Blocks[0].Instrs {
		if s, ok := in.(*ssa.Store); ok && r.isPos(s.Addr) {
			if b, ok := s.Val.(*ssa.BinOp); ok && b.Op == token.ADD {
				x, y := b.X, b.Y
				if x == f.Params[1] {
					x, y = y, x
				}
				u, ok := x.(*ssa.UnOp)
				return ok && y == f.Params[1] && r.isPos(u.X)
			}
		}
	}
	return false
}

// toEnd: the function goes to the end of the text, plus its last argument.
func (r *Reader) toEnd(f *ssa.Function) bool {
	if len(f.Blocks) != 1 || len(f.Params) != 2 {
		return false
	}
	for _, in := range f.Blocks[0].Instrs {
		if s, ok := in.(*ssa.Store); ok && r.isPos(s.Addr) {
			b, ok := s.Val.(*ssa.BinOp)
			return ok && b.Op == token.ADD && (r.textLen(b.X) && b.Y == f.Params[1] || r.textLen(b.Y) && b.X == f.Params[1])
		}
	}
	return false
}

// flow computes the lower bound at the returns of f, or, for a loop, on the
// way back to its head.
func (r *Reader) flow(f *ssa.Function, start *ssa.BasicBlock, loop map[*ssa.BasicBlock]bool, at func(in ssa.CallInstruction, d adv)) adv {
	in := map[*ssa.BasicBlock]adv{start: 0}
	pos := map[ssa.Value]adv{} // positions that were saved
	lower := func(v ssa.Value, d adv) bool {
		old, ok := pos[v]
		if !ok || d < old {
			pos[v] = d
			return true
		}
		return false
	}
	out := never
	for round, ch := 0, true; ch && round < 60; round++ {
		ch = false
		out = never
		for _, b := range f.Blocks {
			d, ok := in[b]
			if !ok || loop != nil && !loop[b] {
				continue
			}
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.Phi:
					if !isInt(i.Type()) && !r.isPosObj(i.Type()) {
						continue
					}
					m, all := never, true
					for _, e := range i.Edges {
						if p, ok := pos[e]; ok {
							if p < m {
								m = p
							}
						} else if e, ok := e.(ssa.Instruction); !ok || in[e.Block()] == 0 && e.Block() != start {
							all = false
						}
					}
					if all && m != never && lower(i, m) {
						ch = true
					}
				case *ssa.UnOp:
					if i.Op != token.MUL {
						continue
					}
					if r.isPos(i.X) {
						if lower(i, d) {
							ch = true
						}
					} else if r.asCmd && r.ofCmd(i.X) {
						if lower(i, 0) {
							ch = true
						}
					} else if fa, ok := i.X.(*ssa.FieldAddr); ok {
						if p, ok := pos[fa.X]; ok && isInt(i.Type()) && fa.Field == 0 && lower(i, p) {
							ch = true
						}
					}
				case *ssa.Store:
					if !r.isPos(i.Addr) {
						continue
					}
					if p, ok := pos[i.Val]; ok {
						d = p
					} else if bo, ok := i.Val.(*ssa.BinOp); ok && bo.Op == token.ADD {
						d = r.sumOf(bo, pos)
					} else if r.textLen(i.Val) {
						d = limit
					} else {
						d = back
					}
				case ssa.CallInstruction:
					if at != nil && d != never {
						at(i, d)
					}
					c := i.Common()
					hs := r.g.Callees(c)
					if v := i.Value(); v != nil {
						for _, h := range hs {
							if r.tells(h) && lower(v, d) {
								ch = true
							}
						}
					}
					d = r.call(c, d, pos)
				case *ssa.Return:
					if loop == nil && d < out {
						out = d
					}
				}
				if d == never {
					break
				}
			}
			if d == never {
				continue
			}
			for k, s := range b.Succs {
				d := d
				if e := r.atEnd(b); e == k {
					d = limit
				}
				if loop != nil {
					if s == start {
						if d < out {
							out = d
						}
						continue
					}
					if !loop[s] {
						continue
					}
				}
				if old, ok := in[s]; !ok || d < old {
					in[s] = d
					ch = true
				}
			}
		}
	}
	return out
}

// textLen: the length of a list in the stream.
func (r *Reader) textLen(v ssa.Value) bool {
	l, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	bi, ok := l.Call.Value.(*ssa.Builtin)
	if !ok || bi.Name() != "len" {
		return false
	}
	u, ok := l.Call.Args[0].(*ssa.UnOp)
	return ok && r.ofReader(u.X)
}

// atEnd: which successor of b is taken where the position is the length of
// the text, or -1.
func (r *Reader) atEnd(b *ssa.BasicBlock) int {
	i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return -1
	}
	c, ok := i.Cond.(*ssa.BinOp)
	if !ok {
		return -1
	}
	x, y, op := c.X, c.Y, c.Op
	if u, ok := y.(*ssa.UnOp); ok && r.isPos(u.X) {
		x, y = y, x
		switch op {
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		}
	}
	u, ok := x.(*ssa.UnOp)
	if !ok || !r.isPos(u.X) {
		return -1
	}
	if !r.textLen(y) {
		return -1
	}
	switch op {
	case token.GEQ, token.EQL:
		return 0
	case token.LSS, token.NEQ:
		return 1
	}
	return -1
}

func (r *Reader) sumOf(b *ssa.BinOp, pos map[ssa.Value]adv) adv {
	x, y := b.X, b.Y
	if _, ok := pos[x]; !ok {
		x, y = y, x
	}
	p, ok := pos[x]
	if !ok {
		return back
	}
	if k, ok := y.(*ssa.Const); ok && k.Value != nil {
		if i, ok := constant.Int64Val(k.Value); ok {
			return p.plus(i)
		}
	}
	return back
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// isPosObj: a structure that records a position.
func (r *Reader) isPosObj(t types.Type) bool {
	n := named(t)
	return n != nil && n.Obj().Name() == "pos"
}

// tells: the result of the function is the position, or a record of it.
func (r *Reader) tells(f *ssa.Function) bool {
	res := f.Signature.Results()
	if res.Len() != 1 {
		return false
	}
	if !isInt(res.At(0).Type()) && !r.isPosObj(res.At(0).Type()) {
		return false
	}
	if len(f.Blocks) > 3 || !r.reads[f] {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && r.isPos(s.Addr) {
				return false
			}
		}
	}
	return true
}

// Descent: what calls itself, directly or through others, does so on a strict
// part of the tree it was given, or after consuming input.
func Descent(g *Prog) (fs []*Finding, sites int, samples []string) {
	r := NewReader(g)
	if r == nil {
		return
	}
	type edge struct {
		to *ssa.Function
		at ssa.CallInstruction
	}
	all := map[*ssa.Function][]edge{}
	kept := map[*ssa.Function][]edge{}
	smaller, consumed := 0, 0
	for _, f := range g.Fns {
		if len(f.Blocks) == 0 {
			continue
		}
		ds := map[ssa.CallInstruction]adv{}
		if r.reads[f] {
			r.flow(f, f.Blocks[0], nil, func(in ssa.CallInstruction, d adv) { ds[in] = d })
		}
		rk := ranks(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				var hs []*ssa.Function
				hs = append(hs, g.Callees(c.Common())...)
				for _, a := range c.Common().Args { // called back
					if m, ok := a.(*ssa.MakeClosure); ok {
						hs = append(hs, m.Fn.(*ssa.Function))
					}
				}
				for _, h := range hs {
					e := edge{h, c}
					all[f] = append(all[f], e)
					if ds[c] >= 1 {
						consumed++
						continue
					}
					less := false
					for _, a := range c.Common().Args {
						if rk[a] == 2 {
							less = true
						}
					}
					if less {
						smaller++
						continue
					}
					kept[f] = append(kept[f], e)
				}
			}
		}
	}
	onCycle := func(edges map[*ssa.Function][]edge, f *ssa.Function) []edge {
		type item struct {
			f    *ssa.Function
			path []edge
		}
		seen := map[*ssa.Function]bool{}
		work := []item{{f, nil}}
		for len(work) > 0 {
			it := work[0]
			work = work[1:]
			for _, e := range edges[it.f] {
				p := append(append([]edge{}, it.path...), e)
				if e.to == f {
					return p
				}
				if !seen[e.to] {
					seen[e.to] = true
					work = append(work, item{e.to, p})
				}
			}
		}
		return nil
	}
	told := map[*ssa.Function]bool{}
	for _, f := range g.Fns {
		if p := onCycle(all, f); p == nil {
			continue
		}
		sites++
		if p := onCycle(kept, f); p != nil {
			if told[f] {
				continue
			}
			var names []string
			for _, e := range p {
				told[e.to] = true
				names = append(names, g.Name(e.to))
			}
			fs = append(fs, g.finding(p[0].at, "calls itself by way of %s, neither on a part of the tree it was given nor after consuming input", strings.Join(names, ", ")))
			continue
		}
		if len(samples) < 40 {
			samples = append(samples, fmt.Sprintf("%s calls itself only on parts of its tree or after consuming input", g.Name(f)))
		}
	}
	samples = append([]string{fmt.Sprintf("(in all) %d calls on a part of the tree, %d after consuming input", smaller, consumed)}, samples...)
	return
}

// ranks: 1 for the tree a function is given, 2 for what lies below it.
func ranks(f *ssa.Function) map[ssa.Value]int {
	rk := map[ssa.Value]int{}
	for _, p := range f.Params {
		if isTree(p.Type()) {
			rk[p] = 1
		}
	}
	for _, v := range f.FreeVars {
		t := v.Type()
		if p, ok := t.Underlying().(*types.Pointer); ok && !isTree(t) {
			t = p.Elem()
		}
		if isTree(t) {
			rk[v] = 1
		}
	}
	up := func(v ssa.Value, n int) bool {
		if n > rk[v] {
			rk[v] = n
			return true
		}
		return false
	}

	for ch := true; ch; {
		ch = false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				n := 0
				switch in := in.(type) {
				case *ssa.FieldAddr:
					if rk[in.X] > 0 {
						n = 2
					}
					if a, ok := in.X.(*ssa.Alloc); ok && stored(a, rk) > 0 {
						n = 2
					}
				case *ssa.Field:
					if rk[in.X] > 0 {
						n = 2
					}
				case *ssa.IndexAddr:
					n = below(rk, in.X)
				case *ssa.Index:
					n = below(rk, in.X)
				case *ssa.Lookup:
					n = below(rk, in.X)
				case *ssa.Range:
					n = rk[in.X]
				case *ssa.Next:
					n = below(rk, in.Iter)
				case *ssa.UnOp:
					if in.Op == token.MUL {
						n = rk[in.X]
						if fv, ok := in.X.(*ssa.FreeVar); ok {
							n = rk[fv]
						}
						if a, ok := in.X.(*ssa.Alloc); ok {
							n = stored(a, rk)
						}
					}
				case *ssa.TypeAssert:
					n = rk[in.X]
				case *ssa.Extract:
					n = rk[in.Tuple]
				case *ssa.ChangeInterface:
					n = rk[in.X]
				case *ssa.ChangeType:
					n = rk[in.X]
				case *ssa.MakeInterface:
					n = rk[in.X]
				case *ssa.Slice:
					n = rk[in.X]
				case *ssa.Phi:
					n = 3
					for _, e := range in.Edges {
						if c, ok := e.(*ssa.Const); ok && c.Value == nil {
							continue
						}
						if e != in && rk[e] < n {
							n = rk[e]
						}
					}
					if n == 3 {
						n = 0
					}
				}
				if n > 0 && up(v, n) {
					ch = true
				}
			}
		}
	}
	return rk
}

// below: an element of a list.
func below(rk map[ssa.Value]int, x ssa.Value) int {
	if rk[x] > 0 {
		return 2
	}
	return 0
}

// stored: the least rank of what is put into a variable.
func stored(a *ssa.Alloc, rk map[ssa.Value]int) int {
	n := 3
	for _, u := range *a.Referrers() {
		if s, ok := u.(*ssa.Store); ok && s.Addr == a && rk[s.Val] < n {
			n = rk[s.Val]
		}
	}
	if n == 3 {
		return 0
	}
	return n
}

// isTree: a node, or a list of nodes.
func isTree(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return isTree(u.Elem())
	case *types.Interface:
		if u.Empty() {
			return true
		}
	}
	n := named(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	return n.Obj().Pkg().Name() == "ast" || n.Obj().Name() == "VimNode"
}

// loop is a natural loop.
type loop struct {
	head *ssa.BasicBlock
	in   map[*ssa.BasicBlock]bool
}

func loops(f *ssa.Function) (out []loop) {
	for _, b := range f.Blocks {
		if in := loopBlocks(b); len(in) > 0 {
			out = append(out, loop{b, in})
		}
	}
	return
}

// Progress: every loop comes nearer to its end with each round.
func Progress(g *Prog) (fs []*Finding, sites int, samples []string) {
	r := NewReader(g)
	if r == nil {
		return
	}
	how := map[string]int{}
	for _, f := range g.Fns {
		if _, ok := g.pkgOf(f); !ok {
			continue
		}
		for _, l := range loops(f) {
			sites++
			why, bad := r.ends(f, l)
			if bad != "" {
				at := l.head.Instrs[0]
				for _, i := range l.head.Instrs {
					if i.Pos().IsValid() {
						at = i
						break
					}
				}
				fs = append(fs, g.finding(at, "%s", bad))
				continue
			}
			how[why]++
			if len(samples) < 60 && why != "over a list or table" {
				samples = append(samples, fmt.Sprintf("%s %s: %s", g.At(l.head.Instrs[0]), g.Name(f), why))
			}
		}
	}
	var hs []string
	for h, n := range how {
		hs = append(hs, fmt.Sprintf("(in all) %d loops: %s", n, h))
	}
	sort.Strings(hs)
	samples = append(hs, samples...)
	return
}

// ends tells why a loop ends.
func (r *Reader) ends(f *ssa.Function, l loop) (why, bad string) {
	var conds []ssa.Value // what decides whether the loop is left
	leaves := false
	for b := range l.in {
		for _, s := range b.Succs {
			if l.in[s] {
				continue
			}
			leaves = true
			if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				conds = append(conds, i.Cond)
			}
		}
	}
	if !leaves {
		return "", "the loop is never left"
	}
	// what conditions inside the loop decide which way is taken to the exits
	for b := range l.in {
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && l.in[b.Succs[0]] && l.in[b.Succs[1]] {
			conds = append(conds, i.Cond)
		}
	}
	seen := map[ssa.Value]bool{}
	var phis []*ssa.Phi
	reads, outside, ranges := false, false, false
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		i, ok := v.(ssa.Instruction)
		if !ok || seen[v] || !l.in[i.Block()] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Next:
			ranges = true
		case *ssa.Phi:
			if v.Block() == l.head {
				phis = append(phis, v)
			}
		case *ssa.UnOp:
			if v.Op == token.MUL && r.ofReader(v.X) {
				reads = true
			}
		case *ssa.Call:
			hs := r.g.Callees(&v.Call)
			for _, h := range hs {
				if r.reads[h] {
					reads = true
				}
			}
			if len(hs) == 0 {
				if h := v.Call.StaticCallee(); h != nil && h.Signature.Recv() != nil {
					outside = true
				}
				if v.Call.IsInvoke() {
					outside = true
				}
			}
		}
		for _, op := range i.Operands(nil) {
			if *op != nil {
				visit(*op)
			}
		}
	}
	for _, c := range conds {
		visit(c)
	}
	if ranges {
		return "over a list or table", ""
	}
	// counters
	for _, p := range phis {
		n, up, down := 0, true, true
		for k, e := range p.Edges {
			if !l.in[p.Block().Preds[k]] {
				continue
			}
			n++
			if !grows(e, p, l, 1) {
				up = false
			}
			if !grows(e, p, l, -1) {
				down = false
			}
		}
		if n > 0 && (up || down) {
			return "a counter that every round advances", ""
		}
	}
	if reads {
		d := r.flow(f, l.head, l.in, nil)
		for _, w := range []where{atEOL, atEOF} {
			if r.stuck(f, l, w) {
				return "", "goes round for ever at " + w.String()
			}
		}
		if d == back {
			d = r.cmd.flow(f, l.head, l.in, nil)
			if d >= 1 {
				return "every round ends behind the start of its command", ""
			}
		}
		if d == 0 {
			d = 1
			for _, w := range places {
				if r.stuck(f, l, w) {
					return "", "goes round for ever at " + w.String()
				}
			}
		}
		if d >= 1 {
			return "every round consumes input or meets its end", ""
		}
		for _, p := range phis { // the text shrinks
			if shrinks(p, l) {
				return "what is looked at shrinks with every round", ""
			}
		}
		return "", "a way round the loop consumes no input"
	}
	for _, p := range phis {
		if shrinks(p, l) {
			return "what is looked at shrinks with every round", ""
		}
	}
	if outside {
		return "what is called from outside decides", ""
	}
	return "", "nothing that decides whether the loop is left changes in it"
}

// grows: e is p plus something positive (sign 1) or minus something positive
// (sign -1), whatever way round the loop was taken.
func grows(e ssa.Value, p *ssa.Phi, l loop, sign int64) bool {
	// the least difference to p, of what is computed from it within the loop
	const far = 1 << 40
	low := map[ssa.Value]int64{p: 0}
	get := func(v ssa.Value) (int64, bool) {
		if v == p {
			return 0, true
		}
		if i, ok := v.(ssa.Instruction); !ok || !l.in[i.Block()] {
			return -far, true // not computed from p
		}
		d, ok := low[v]
		return d, ok
	}
	for round := 0; round < 20; round++ {
		ch := false
		for _, b := range p.Parent().Blocks {
			if !l.in[b] {
				continue
			}
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || v == p || !isInt(v.Type()) {
					continue
				}
				d, known := int64(-far), true
				switch in := in.(type) {
				case *ssa.BinOp:
					x, y := in.X, in.Y
					if _, ok := x.(*ssa.Const); ok && in.Op == token.ADD {
						x, y = y, x
					}
					k, ok := y.(*ssa.Const)
					if width(y) && in.Op == token.ADD && sign > 0 {
						k, ok = ssa.NewConst(constant.MakeInt64(1), y.Type()), true
					}
					if !ok || k.Value == nil || k.Value.Kind() != constant.Int || in.Op != token.ADD && in.Op != token.SUB {
						break
					}
					n, _ := constant.Int64Val(k.Value)
					if in.Op == token.SUB {
						n = -n
					}
					if d, known = get(x); known && d > -far {
						d += sign * n
					}
				case *ssa.Phi:
					known = false
					for _, x := range in.Edges {
						if e, ok := get(x); ok && (!known || e < d) {
							d, known = e, true
						}
					}
				}
				if !known {
					continue
				}
				if old, ok := low[v]; !ok || d < old {
					if ok && round > 10 {
						d = -far
					}
					if d < -far/2 {
						d = -far
					}
					low[v] = d
					ch = true
				}
			}
		}
		if !ch {
			break
		}
	}
	d, ok := get(e)
	return ok && d >= 1
}

// width: the length of what was just cut off.
func width(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Extract:
		c, ok := v.Tuple.(*ssa.Call)
		f := (*ssa.Function)(nil)
		if ok {
			f = c.Call.StaticCallee()
		}
		return f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "unicode/utf8" && strings.HasPrefix(f.Name(), "Decode") && v.Index == 1
	case *ssa.Call:
		b, ok := v.Call.Value.(*ssa.Builtin)
		if ok && b.Name() == "len" {
			return true
		}
		f := v.Call.StaticCallee()
		return f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "unicode/utf8" && f.Name() == "RuneLen"
	}
	return false
}

// shrinks: on every way round the loop the value becomes a part of itself.
func shrinks(p *ssa.Phi, l loop) bool {
	for k, e := range p.Edges {
		if !l.in[p.Block().Preds[k]] {
			continue
		}
		if !part(e, p, l, map[ssa.Value]bool{}) {
			return false
		}
	}
	return true
}

func part(e ssa.Value, p *ssa.Phi, l loop, seen map[ssa.Value]bool) bool {
	if seen[e] {
		return true
	}
	seen[e] = true
	switch e := e.(type) {
	case *ssa.Slice:
		if e.Low == nil && e.High == nil {
			return false
		}
		x := e.X
		if c, ok := x.(*ssa.Convert); ok {
			x = c.X
		}
		return x == p || part(x, p, l, seen)
	case *ssa.Phi:
		if e == p || !l.in[e.Block()] {
			return false
		}
		for _, x := range e.Edges {
			if !part(x, p, l, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp: // a link to the next element
		if fa, ok := e.X.(*ssa.FieldAddr); ok && e.Op == token.MUL {
			return fa.X == p
		}
	}
	return false
}
