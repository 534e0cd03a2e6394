package rel

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// nilFor says that a function returns nil only when a parameter is a constant.
type nilFor struct {
	param int
	val   constant.Value
}

// nonNils decides which pointers are never nil.
type nonNils struct {
	s   *goside
	set map[*ssa.Function]bool
	arg map[*ssa.Function]nilFor
}

// nonNil finds the functions of a tree whose only result is a pointer that is
// never nil.
func (s *goside) nonNil() map[*ssa.Function]bool {
	n := &nonNils{s: s, set: map[*ssa.Function]bool{}, arg: map[*ssa.Function]nilFor{}}
	for _, f := range s.all {
		r := f.Signature.Results()
		if r.Len() != 1 || len(f.Blocks) == 0 || f.Recover != nil {
			continue
		}
		if _, ok := r.At(0).Type().Underlying().(*types.Pointer); ok {
			n.set[f] = true
			if a, ok := nilOnlyFor(f); ok {
				n.arg[f] = a
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for f := range n.set {
			if !n.returns(f, false) {
				delete(n.set, f)
				changed = true
			}
		}
		for f := range n.arg {
			if !n.returns(f, true) {
				delete(n.arg, f)
				changed = true
			}
		}
	}
	return n.set
}

// returns reports whether every return of f gives a pointer that is not nil;
// those under the parameter test of f are left out with skip.
func (n *nonNils) returns(f *ssa.Function, skip bool) bool {
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if skip && isNilConst(ret.Results[0]) {
				continue
			}
			if !n.at(ret.Results[0], b, map[ssa.Value]bool{}) {
				return false
			}
		}
	}
	return true
}

// nilOnlyFor finds the one value of the one parameter for which f returns a
// literal nil.
func nilOnlyFor(f *ssa.Function) (nilFor, bool) {
	var out nilFor
	found := false
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || !isNilConst(ret.Results[0]) {
			continue
		}
		a, ok := paramTest(f, b)
		if !ok || found && (a.param != out.param || !constant.Compare(a.val, token.EQL, out.val)) {
			return out, false
		}
		out, found = a, true
	}
	return out, found
}

// paramTest finds a test of a parameter against a constant that holds in b.
func paramTest(f *ssa.Function, b *ssa.BasicBlock) (nilFor, bool) {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || p.Succs[0] == p.Succs[1] {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !(c.Op == token.EQL && p.Succs[0] == d || c.Op == token.NEQ && p.Succs[1] == d) {
			continue
		}
		for i, x := range f.Params {
			for _, xy := range [2][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
				if k, ok := xy[1].(*ssa.Const); ok && xy[0] == ssa.Value(x) && k.Value != nil && k.Value.Kind() == constant.Int {
					return nilFor{i, k.Value}, true
				}
			}
		}
	}
	return nilFor{}, false
}

// isNot reports whether v is known to differ from the constant c.
func (n *nonNils) isNot(v ssa.Value, c constant.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value != nil && v.Value.Kind() == constant.Int && !constant.Compare(v.Value, token.EQL, c)
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL {
			if t := n.s.glob[g]; t != nil && t.IsInt() {
				return !constant.Compare(constant.MakeInt64(t.N), token.EQL, c)
			}
		}
	}
	return false
}

// at reports whether v is not nil at the end of block b.
func (n *nonNils) at(v ssa.Value, b *ssa.BasicBlock, busy map[ssa.Value]bool) bool {
	if checkedNonNil(v, b) {
		return true
	}
	switch v := v.(type) {
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global:
		return true
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f == nil || n.set[f] {
			return f != nil
		}
		a, ok := n.arg[f]
		return ok && n.isNot(v.Call.Args[a.param], a.val)
	case *ssa.ChangeType:
		return n.at(v.X, b, busy)
	case *ssa.Phi:
		if busy[v] {
			return true
		}
		busy[v] = true
		for i, e := range v.Edges {
			if !n.at(e, v.Block().Preds[i], busy) && !edgeNonNil(e, v.Block().Preds[i], v.Block()) {
				return false
			}
		}
		return true
	}
	return false
}

// checkedNonNil reports whether b is only reached when a test has found that v
// is not nil.
func checkedNonNil(v ssa.Value, b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) == 1 && edgeNonNil(v, d.Preds[0], d) {
			return true
		}
	}
	return false
}

// edgeNonNil reports whether v is not nil when control goes from p to b.
func edgeNonNil(v ssa.Value, p, b *ssa.BasicBlock) bool {
	iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok || p.Succs[0] == p.Succs[1] {
		return false
	}
	c, ok := iff.Cond.(*ssa.BinOp)
	if !ok || !(c.X == v && isNilConst(c.Y) || c.Y == v && isNilConst(c.X)) {
		return false
	}
	return c.Op == token.NEQ && p.Succs[0] == b || c.Op == token.EQL && p.Succs[1] == b
}
