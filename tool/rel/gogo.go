package rel

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/load"
	"verif/mach"
)

// GoGo compares two versions of the Go program, function by function.
type GoGo struct {
	spent   int // steps taken to find differences
	values  map[string]bool
	U       *mach.Universe
	Side    [2]*goside // the tree under analysis, the reference
	Pairs   []string
	pair    map[string]bool
	inl     map[string]bool
	extra   map[string]bool // expanded too, for now
	Eff     map[string]*mach.Effect
	Trace   func(string)
	MaxDiv  int
	tierSet [tiers]map[string]bool
	ahead   map[string]string // lookahead functions, and what they call
	callers [2]map[string]map[string]bool
}

type goside struct {
	g      *GoGo
	prog   *load.Program
	fns    map[string]*ssa.Function
	all    []*ssa.Function
	names  map[*ssa.Function]string
	glob   map[*ssa.Global]*mach.Term
	byName map[string]*mach.Term
	types  map[string]types.Type
	ctx    *mach.GoCtx
	eff    *Effects
	recur  map[string]bool

	initVars map[string]bool // see SameInit
}

func newSide(g *GoGo, prog *load.Program) *goside {
	s := &goside{g: g, prog: prog, fns: map[string]*ssa.Function{}, names: map[*ssa.Function]string{}, glob: map[*ssa.Global]*mach.Term{}, types: map[string]types.Type{}}
	for _, p := range prog.Packages {
		rel := strings.TrimPrefix(strings.TrimPrefix(p.Path, prog.Module), "/")
		for _, f := range PackageFunctions(prog, p) {
			s.all = append(s.all, f)
			if f.Parent() != nil {
				continue
			}
			n := rel + "." + GoName(f)
			s.names[f] = n
			if f.Synthetic == "" { // the initialisers of variables are compared as data
				s.fns[n] = f
			}
		}
		for _, n := range p.Types.Scope().Names() {
			if tn, ok := p.Types.Scope().Lookup(n).(*types.TypeName); ok {
				s.types[tn.Type().String()] = tn.Type()
				s.types["*"+tn.Type().String()] = types.NewPointer(tn.Type())
			}
		}
	}
	stores := map[*ssa.Global][]*ssa.Store{}
	addr := map[*ssa.Global]bool{}
	for _, f := range s.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						stores[g] = append(stores[g], st)
						continue
					}
				}
				if u, ok := in.(*ssa.UnOp); ok {
					if _, ok := u.X.(*ssa.Global); ok {
						continue
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						addr[g] = true
					}
				}
			}
		}
	}
	u := g.U
	for _, p := range prog.Packages {
		for _, m := range p.SSA.Members {
			gl, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			ss := stores[gl]
			if len(ss) > 1 || (len(ss) == 1 && !strings.HasPrefix(ss[0].Parent().Name(), "init")) {
				continue
			}
			if len(ss) == 1 && !addr[gl] && gl.Name() != "init$guard" {
				if c, ok := ss[0].Val.(*ssa.Const); ok && c.Value != nil {
					switch c.Value.Kind() {
					case constant.Int:
						n, _ := constant.Int64Val(c.Value)
						s.glob[gl] = u.Int(n)
					case constant.String:
						s.glob[gl] = u.Str(constant.StringVal(c.Value))
					case constant.Bool:
						s.glob[gl] = u.Bool(constant.BoolVal(c.Value))
					}
				}
			}
			if s.glob[gl] == nil {
				s.glob[gl] = u.Named("g:" + gl.String())
				if s.fixedMap(gl) {
					s.glob[gl] = u.Named("fixed:" + gl.String())
				}
			}
		}
	}
	s.eff = NewTypedEffects(prog, s.all, func(g *ssa.Global) bool { return s.glob[g] != nil || prog.ByPath[g.Pkg.Pkg.Path()] == nil }, func(g *ssa.Global) bool { return s.glob[g] != nil && s.glob[g].Fixed() })
	s.ctx = &mach.GoCtx{U: u, Pos: prog.Pos, InRepo: prog.InRepo, Typed: true,
		Opaque: s.opaque, Global: s.global, Method: s.method, Std: s.std, InvokeEff: s.invokeEff,
		Intrin: s.intrin, GlobalNamed: s.globalNamed}
	return s
}

// fixedMap reports whether gl is a map that only init functions fill.
func (s *goside) fixedMap(gl *ssa.Global) bool {
	if _, ok := gl.Type().(*types.Pointer).Elem().Underlying().(*types.Map); !ok {
		return false
	}
	for _, f := range s.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(gl) {
						continue
					}
					ld, ok := in.(*ssa.UnOp)
					if !ok {
						if _, ok := in.(*ssa.Store); ok && initFunc(f) {
							continue
						}
						return false
					}
					for _, r := range *ld.Referrers() {
						switch r := r.(type) {
						case *ssa.MapUpdate:
							if r.Map != ssa.Value(ld) || !initFunc(f) {
								return false
							}
						case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
						default:
							return false
						}
					}
				}
			}
		}
	}
	return true
}

func initFunc(f *ssa.Function) bool {
	return f.Signature.Recv() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#"))
}

func (s *goside) intrin(g *mach.GoSide, fn *ssa.Function, _ string, a []*mach.Term, facts *mach.Facts) (*mach.Term, bool) {
	if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Synthetic != "" {
		return s.g.U.Nil(), true
	}
	if s.initVars != nil && initFunc(fn) {
		if s.touches(fn, map[*ssa.Function]bool{}) {
			return nil, false
		}
		return s.g.U.Nil(), true
	}
	// helpers whose meaning is known; their bodies are pairs of their own
	if n := s.names[fn]; strings.HasPrefix(n, "go.viml_") && s.g.pair[n] {
		u := s.g.U
		b := make([]*mach.Term, len(a))
		for i, x := range a {
			for x.Op == "iface" {
				x = x.Args[0]
			}
			b[i] = x
		}
		switch fn.Name() {
		case "viml_empty":
			return u.Eq(u.Len(b[0]), u.Int(0)), true
		case "viml_stridx":
			return u.Stridx(b[0], b[1]), true
		case "viml_printf":
			if as, ok := varargs(b[1]); ok {
				for i := range as {
					as[i] = g.Frozen(as[i], facts)
				}
				return s.sprintf(facts.Norm(u, b[0]), as), true
			}
		case "viml_join":
			if a[0].Op == "iface" && a[0].S == "[]string" {
				norm := func(t *mach.Term) *mach.Term { return facts.Norm(u, t) }
				return mach.Join(u, g.St().Lists(u, norm(b[0]), norm), norm(b[1])), true
			}
		case "viml_has_key":
			return g.Has(b[0], facts.Norm(u, b[1])), true
		}
	}
	return nil, false
}

func (s *goside) name(fn *ssa.Function) string { return s.names[fn] }

func (s *goside) global(g *ssa.Global) *mach.Term {
	if s.initVars[g.String()] {
		return s.g.U.App("gload", g.String())
	}
	if t := s.glob[g]; t != nil {
		return t
	}
	if s.prog.ByPath[g.Pkg.Pkg.Path()] == nil {
		return s.g.U.Named("g:" + g.String())
	}
	return s.g.U.App("gload", g.String())
}

func (s *goside) globalNamed(n string) *mach.Term {
	if s.byName == nil {
		s.byName = map[string]*mach.Term{}
		for g, t := range s.glob {
			if t.Op == "list" {
				s.byName[g.String()] = t
			}
		}
	}
	return s.byName[n]
}

func (s *goside) method(t, name string) *ssa.Function {
	ty := s.types[t]
	if ty == nil {
		return nil
	}
	ms := s.prog.SSA.MethodSets.MethodSet(ty)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return s.prog.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (g *GoGo) opaqueName(n string) bool { return n != "" && g.pair[n] && !g.inl[n] && !g.extra[n] }

func (s *goside) opaque(fn *ssa.Function) (string, *mach.Effect) {
	n := s.names[fn]
	if s.initVars != nil && initFunc(fn) {
		return "", nil
	}
	if s.g.opaqueName(n) {
		if t := s.g.ahead[n]; t != "" {
			return t, &mach.Effect{Read: s.g.Eff[t].Read, Mod: map[string]bool{}}
		}
		return n, s.g.Eff[n]
	}
	return "", nil
}

// invokeEff is the effect of a call through an interface.
func (s *goside) invokeEff(c *ssa.CallCommon) *mach.Effect {
	key := "invoke:" + c.Value.Type().String() + "." + c.Method.Name()
	if e := s.g.Eff[key]; e != nil {
		return e
	}
	e := &mach.Effect{Read: map[string]bool{}, Mod: map[string]bool{}}
	for _, side := range s.g.Side {
		for _, f := range implementers(side.prog, c) {
			if x := side.eff.Sum[f]; x != nil {
				merge(e, x)
			} else if f.Synthetic != "" { // promoted method
				merge(e, side.promoted(f))
			}
		}
	}
	if openCall(c) {
		merge(e, mach.IO)
	}
	s.g.Eff[key] = e
	return e
}

func (s *goside) promoted(f *ssa.Function) *mach.Effect {
	e := &mach.Effect{Read: map[string]bool{}, Mod: map[string]bool{}}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if h := ci.Common().StaticCallee(); h != nil && s.eff.Sum[h] != nil {
					merge(e, s.eff.Sum[h])
				}
			}
		}
	}
	return e
}

func merge(a, b *mach.Effect) {
	for k := range b.Read {
		a.Read[k] = true
	}
	for k := range b.Mod {
		a.Mod[k] = true
	}
	a.Throws = a.Throws || b.Throws
}

// sigString is the signature without parameter names.
func sigString(fn *ssa.Function) string {
	sig := fn.Signature
	var b strings.Builder
	if sig.Recv() != nil {
		b.WriteString(sig.Recv().Type().String())
	}
	tuple := func(t *types.Tuple) {
		b.WriteByte('(')
		for i := 0; i < t.Len(); i++ {
			b.WriteString(t.At(i).Type().String() + ",")
		}
		b.WriteByte(')')
	}
	tuple(sig.Params())
	tuple(sig.Results())
	fmt.Fprint(&b, sig.Variadic())
	return b.String()
}

// small functions are expanded.
func small(fn *ssa.Function) bool {
	if len(fn.Blocks) > 4 {
		return false
	}
	n := 0
	for i, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Index <= i {
				return false
			}
		}
		n += len(b.Instrs)
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Call:
				if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
					return false
				}
			case *ssa.Panic, *ssa.Defer:
				return false
			}
		}
	}
	return n <= 30
}

// NewGoGo prepares the comparison of the tree under analysis with the
// reference tree.
func NewGoGo(tree, ref *load.Program) *GoGo {
	g := &GoGo{U: mach.NewUniverse(), pair: map[string]bool{}, inl: map[string]bool{}, Eff: map[string]*mach.Effect{}}
	g.Side[0], g.Side[1] = newSide(g, tree), newSide(g, ref)
	a, b := g.Side[0], g.Side[1]
	g.tables()
	g.U.Impl = func(i, t string) bool {
		for _, s := range g.Side {
			it, ty := s.types[i], s.types[t]
			if it == nil || ty == nil {
				continue
			}
			if x, ok := it.Underlying().(*types.Interface); ok {
				return types.Implements(ty, x)
			}
		}
		return false
	}
	for n, f := range a.fns {
		h := b.fns[n]
		if h == nil || sigString(f) != sigString(h) {
			continue
		}
		g.Pairs = append(g.Pairs, n)
		g.pair[n] = true
		e := &mach.Effect{Read: map[string]bool{}, Mod: map[string]bool{}}
		if x := a.eff.Sum[f]; x != nil {
			merge(e, x)
		}
		if x := b.eff.Sum[h]; x != nil {
			merge(e, x)
		}
		e.Fresh = a.eff.freshFn(f, map[ssa.Value]bool{}) || b.eff.freshFn(h, map[ssa.Value]bool{})
		g.Eff[n] = e
		if small(f) && small(h) {
			g.inl[n] = true
		}
	}
	sort.Strings(g.Pairs)
	g.netPure()
	g.lookahead()
	g.U.Value = g.valueType
	nn := [2]map[*ssa.Function]bool{g.Side[0].nonNil(), g.Side[1].nonNil()}
	g.U.NonNil = func(n string) bool {
		f, h := g.Side[0].fns[n], g.Side[1].fns[n]
		return f != nil && h != nil && nn[0][f] && nn[1][h]
	}
	return g
}

// valueType reports whether in both trees the objects of the type t are
// complete before anything else uses them, do not change and are not compared.
func (g *GoGo) valueType(t string) bool {
	r, ok := g.values[t]
	if !ok {
		r = g.Side[0].valueType(t) && g.Side[1].valueType(t)
		if g.values == nil {
			g.values = map[string]bool{}
		}
		g.values[t] = r
	}
	return r
}

func (s *goside) valueType(t string) bool {
	ty := s.types[t]
	if ty == nil {
		return false
	}
	if _, ok := ty.Underlying().(*types.Struct); !ok {
		return false
	}
	pt := types.NewPointer(ty)
	isPtr := func(v ssa.Value) bool { return v != nil && types.Identical(v.Type(), pt) }
	for _, f := range s.all {
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.FieldAddr:
					if !isPtr(in.X) {
						continue
					}
					for _, r := range *in.Referrers() {
						switch r := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							if r.Addr != ssa.Value(in) || !building(in.X, r) {
								return false
							}
						default:
							return false
						}
					}
				case *ssa.Store:
					// *p = v
					if isPtr(in.Addr) && !building(in.Addr, in) {
						return false
					}
				case *ssa.BinOp:
					if isPtr(in.X) && !isNilConst(in.X) && !isNilConst(in.Y) {
						return false
					}
				case *ssa.MakeInterface:
					if isPtr(in.X) {
						return false
					}
				case *ssa.Convert, *ssa.ChangeType:
					if v := in.(ssa.Value); isPtr(v) || isPtr(*b.Instrs[i].Operands(nil)[0]) {
						return false
					}
				case *ssa.Lookup:
					if m, ok := in.X.Type().Underlying().(*types.Map); ok && types.Identical(m.Key(), pt) {
						return false
					}
				}
			}
		}
	}
	return true
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// building reports whether st stores into the object x that its block has
// made and not used yet.
func building(x ssa.Value, st *ssa.Store) bool {
	if e, ok := x.(*ssa.IndexAddr); ok { // an element of the array of a literal
		x = e.X
	}
	a, ok := x.(*ssa.Alloc)
	if !ok || a.Block() != st.Block() {
		return false
	}
	made := false
	for _, in := range a.Block().Instrs {
		if in == ssa.Instruction(a) {
			made = true
			continue
		}
		if in == ssa.Instruction(st) {
			return made
		}
		if !made {
			continue
		}
		switch in.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
			continue
		}
		if s, ok := in.(*ssa.Store); ok && s.Val != ssa.Value(a) {
			continue
		}
		for _, op := range in.Operands(nil) {
			if *op == ssa.Value(a) {
				return false
			}
		}
	}
	return false
}

// netPure finds the functions that put a field of their receiver, or of an
// object it holds, back to what it was, in both trees: calls of them leave the
// state as it is.
func (g *GoGo) netPure() {
	for round := 0; round < 3; round++ {
		var found []string
		for _, n := range g.Pairs {
			e := g.Eff[n]
			if !g.opaqueName(n) || len(e.Mod) == 0 || len(e.Mod) > 4 {
				continue
			}
			fs := [2]*ssa.Function{g.Side[0].fns[n], g.Side[1].fns[n]}
			if len(fs[0].Blocks) > 12 || len(fs[1].Blocks) > 12 || fs[1].Signature.Recv() == nil {
				continue
			}
		keys:
			for k := range e.Mod {
				if !strings.Contains(k, ".") || strings.HasPrefix(k, "#") {
					continue
				}
				for i, s := range g.Side {
					if s.eff.Sum[fs[i]].Mod[k] && !s.restores(fs[i], k) {
						continue keys
					}
				}
				found = append(found, n+"\x00"+k)
			}
		}
		if len(found) == 0 {
			return
		}
		for _, x := range found {
			n, k, _ := strings.Cut(x, "\x00")
			for _, s := range g.Side {
				m := s.eff.NetPure[s.fns[n]]
				if m == nil {
					m = map[string]bool{}
					s.eff.NetPure[s.fns[n]] = m
				}
				m[k] = true
			}
		}
		for n := range g.Eff {
			if strings.HasPrefix(n, "invoke:") {
				delete(g.Eff, n)
			}
		}
		for _, s := range g.Side {
			s.eff.Close()
		}
		for _, n := range g.Pairs {
			e := &mach.Effect{Read: map[string]bool{}, Mod: map[string]bool{}, Fresh: g.Eff[n].Fresh}
			for _, s := range g.Side {
				if x := s.eff.Sum[s.fns[n]]; x != nil {
					merge(e, x)
				}
			}
			g.Eff[n] = e
		}
	}
}

// restores reports whether on every path of fn the field key has its old value
// at the end, in the receiver or in an object that a field of it points to.
func (s *goside) restores(fn *ssa.Function, key string) bool {
	u := s.g.U
	tn, _, _ := strings.Cut(key, ".")
	var args []*mach.Term
	for j := range fn.Params {
		args = append(args, u.Named(fmt.Sprintf("p%d", j)))
	}
	named := func(t types.Type) string {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name()
		}
		return ""
	}
	rt := fn.Signature.Recv().Type()
	obj := func(st *mach.State) *mach.Term { return args[0] }
	if named(rt) != tn {
		p, ok := rt.Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		sf, ok := p.Elem().Underlying().(*types.Struct)
		if !ok {
			return false
		}
		obj = nil
		for i := 0; i < sf.NumFields(); i++ {
			if named(sf.Field(i).Type()) == tn {
				fk := mach.FieldKey(p.Elem(), i, true)
				obj = func(st *mach.State) *mach.Term { return st.Load(u, args[0], fk, u.Nil()) }
			}
		}
		if obj == nil {
			return false
		}
	}
	st0 := mach.NewState()
	o := obj(st0)
	old := st0.Load(u, o, key, u.Nil())
	ok, n := true, 0
	mach.Explore(mach.NewGo(s.ctx, st0, fn, args), mach.NewFacts(), 200, func(d mach.Side, st *mach.Stall, facts *mach.Facts) {
		switch st.Kind {
		case mach.SReturn:
			n++
			ok = ok && obj(d.St()) == o && facts.Norm(u, d.St().Load(u, o, key, u.Nil())) == old
		case mach.SThrow:
		default:
			ok = false
		}
	})
	return ok && n > 0
}

// Check compares one pair.
func (g *GoGo) Check(name string) *mach.Product {
	p := &mach.Product{U: g.U, Trace: g.Trace}
	g.run(p, name)
	return p
}

// Witness looks for a path on which the pair differs, with loops passed n
// times.
func (g *GoGo) Witness(name string, n, paths int) *mach.Product {
	p := &mach.Product{U: g.U, Trace: g.Trace, Unroll: n, MaxPaths: paths, MaxDivs: 4}
	g.run(p, name)
	return p
}

func (g *GoGo) run(p *mach.Product, name string) {
	var sides [2]mach.Side
	for i, s := range g.Side {
		fn := s.fns[name]
		var args []*mach.Term
		for j := range fn.Params {
			args = append(args, g.U.Named(fmt.Sprintf("p%d", j)))
		}
		sides[i] = mach.NewGo(s.ctx, mach.NewState(), fn, args)
	}
	p.Run(sides[0], sides[1], mach.NewFacts())
}
