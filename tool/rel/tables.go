package rel

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/mach"
)

// tables gives a meaning to package variables that only one side has: a
// variable with the initial value of one that only the other side has is the
// same under another name; a table nobody changes is its initial value.
func (g *GoGo) tables() {
	var gl [2]map[string]*ssa.Global
	var dv [2]map[string]*DataVar
	for i, s := range g.Side {
		gl[i], dv[i] = map[string]*ssa.Global{}, map[string]*DataVar{}
		for _, p := range s.prog.Packages {
			for _, m := range p.SSA.Members {
				if x, ok := m.(*ssa.Global); ok {
					gl[i][x.String()] = x
				}
			}
		}
		for _, v := range Data(s.prog) {
			dv[i][v.Obj.Pkg().Path()+"."+v.Obj.Name()] = v
		}
	}
	g.U.Table = map[string][]string{}
	for n, x := range gl[0] {
		y, v, w := gl[1][n], dv[0][n], dv[1][n]
		if y == nil || v == nil || w == nil || v.Val.String() != w.Val.String() || !g.Side[0].entriesRead(x) || !g.Side[1].entriesRead(y) {
			continue
		}
		a, ok := v.Obj.Type().Underlying().(*types.Array)
		if !ok || !types.Identical(a.Elem(), types.Typ[types.String]) {
			continue
		}
		if t := g.Side[0].datum(v.Val, v.Obj.Type(), n); t != nil {
			var ss []string
			for _, e := range t.Args {
				if e.IsStr() {
					ss = append(ss, e.S)
				}
			}
			if len(ss) == len(t.Args) && int64(len(ss)) == a.Len() {
				g.U.Table[n] = ss
			}
		}
	}
	only := func(i int) []string {
		var out []string
		for n := range gl[i] {
			if gl[1-i][n] == nil && dv[i][n] != nil {
				out = append(out, n)
			}
		}
		return out
	}
	l, r := only(0), only(1)
	used := map[string]bool{}
	for _, n := range l {
		var same []string
		v := dv[0][n]
		for _, m := range r {
			w := dv[1][m]
			if v.Obj.Pkg().Path() == w.Obj.Pkg().Path() && v.Obj.Type().String() == w.Obj.Type().String() && v.Val.String() == w.Val.String() {
				same = append(same, m)
			}
		}
		if len(same) == 1 && !used[same[0]] && g.Side[0].glob[gl[0][n]] != nil && g.Side[1].glob[gl[1][same[0]]] != nil {
			used[same[0]] = true
			used[n] = true
			g.Side[0].glob[gl[0][n]] = g.Side[1].glob[gl[1][same[0]]]
		}
	}
	// a map that does not change in one tree only has no special name
	for i, s := range g.Side {
		for n, x := range gl[i] {
			if t := s.glob[x]; t != nil && t.Fixed() {
				if o := gl[1-i][n]; o != nil && g.Side[1-i].glob[o] != t {
					s.glob[x] = g.U.Named("g:" + n)
				}
			}
		}
	}
	for i, ns := range [][]string{l, r} {
		s := g.Side[i]
		for _, n := range ns {
			x := gl[i][n]
			if used[n] || s.glob[x] == nil || s.glob[x].IsConst() || s.changed(x) {
				continue
			}
			if t := s.datum(dv[i][n].Val, dv[i][n].Obj.Type(), n); t != nil {
				s.glob[x] = t
			}
		}
	}
}

// entriesRead reports whether only entries of the array x are used, read but
// for its initialisation.
func (s *goside) entriesRead(x *ssa.Global) bool {
	for _, f := range s.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(x) {
						continue
					}
					if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(x) && f.Name() == "init" {
						continue
					}
					ia, ok := in.(*ssa.IndexAddr)
					if !ok {
						return false
					}
					for _, r := range *ia.Referrers() {
						switch r := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							if r.Addr != ssa.Value(ia) || f.Name() != "init" {
								return false
							}
						default:
							return false
						}
					}
				}
			}
		}
	}
	return true
}

// changed reports whether something is stored into the table x.
func (s *goside) changed(x *ssa.Global) bool {
	var from func(v ssa.Value, d int) bool
	from = func(v ssa.Value, d int) bool {
		if v == nil || d > 6 {
			return false
		}
		switch v := v.(type) {
		case *ssa.Global:
			return v == x
		case *ssa.UnOp:
			return from(v.X, d+1)
		case *ssa.IndexAddr:
			return from(v.X, d+1)
		case *ssa.FieldAddr:
			return from(v.X, d+1)
		}
		return false
	}
	for _, f := range s.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MapUpdate:
					if from(in.Map, 0) {
						return true
					}
				case *ssa.Store:
					if in.Addr != ssa.Value(x) && from(in.Addr, 0) && f.Name() != "init" {
						return true
					}
				}
			}
		}
	}
	return false
}

// datum is an initial value as a term; nil if it cannot be said.
func (s *goside) datum(d *Datum, t types.Type, path string) *mach.Term {
	u := s.g.U
	switch d.Kind {
	case "alias":
		return s.datum(d.Elems[0], t, path)
	case "nil":
		return u.Nil()
	case "const":
		return s.constant(d.Text)
	case "func":
		for _, f := range s.all {
			if f.String() == d.Text && f.Parent() == nil {
				return s.ctx.FnTerm(u, f)
			}
		}
		return nil
	case "list":
		var et types.Type
		switch x := t.Underlying().(type) {
		case *types.Slice:
			et = x.Elem()
		case *types.Array:
			et = x.Elem()
		default:
			return nil
		}
		var es []*mach.Term
		for i, e := range d.Elems {
			x := s.datum(e, et, path+"["+strconv.Itoa(i)+"]")
			if x == nil {
				return nil
			}
			es = append(es, x)
		}
		return u.List(es...)
	case "map":
		x, ok := t.Underlying().(*types.Map)
		if !ok {
			return nil
		}
		var es []*mach.Term
		for i, k := range d.Keys {
			kt := s.constant(k)
			e := s.datum(d.Elems[i], x.Elem(), path+"["+k+"]")
			if kt == nil || e == nil {
				return nil
			}
			es = append(es, kt, e)
		}
		return u.App("cmap", "", es...)
	case "struct":
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		m := map[string]*mach.Term{}
		for i := 0; i < st.NumFields(); i++ {
			for j, k := range d.Keys {
				if k == st.Field(i).Name() {
					e := s.datum(d.Elems[j], st.Field(i).Type(), path+"."+k)
					if e == nil {
						return nil
					}
					m[mach.FieldKey(t, i, true)] = e
				}
			}
		}
		return u.Rec(m)
	case "ptr":
		x, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return nil
		}
		e := s.datum(d.Elems[0], x.Elem(), path)
		if e == nil {
			return nil
		}
		return u.App("static", path, e)
	}
	return nil
}

func (s *goside) constant(x string) *mach.Term {
	u := s.g.U
	switch {
	case x == "true", x == "false":
		return u.Bool(x == "true")
	case strings.HasPrefix(x, `"`):
		v := constant.MakeFromLiteral(x, token.STRING, 0)
		if v.Kind() == constant.String {
			return u.Str(constant.StringVal(v))
		}
	default:
		if n, err := strconv.ParseInt(x, 10, 64); err == nil {
			return u.Int(n)
		}
	}
	return nil
}
