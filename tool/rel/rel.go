package rel

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/load"
	"verif/mach"
	"verif/viml"
)

// Rel is the comparison of package go of the repository with a reference.
type Rel struct {
	Trace func(string)
	U     *mach.Universe
	Prog  *load.Program
	Vim   *viml.File
	Pkg   *load.Package
	Fns   map[string]*ssa.Function // Go functions by common name
	Match []string                 // names on both sides
	inl   map[string]bool
	match map[string]bool
	Eff   *Effects
	GoC   *mach.GoCtx
	VimC  *mach.VimCtx
	glob  map[*ssa.Global]*mach.Term
}

// GoName is the common name of a function of package go.
func GoName(fn *ssa.Function) string {
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name() + "." + fn.Name()
		}
	}
	return fn.Name()
}

func New(prog *load.Program, vim *viml.File) (*Rel, error) {
	r := &Rel{U: mach.NewUniverse(), Prog: prog, Vim: vim, Pkg: prog.Pkg("go"), Fns: map[string]*ssa.Function{}, inl: map[string]bool{}, match: map[string]bool{}, glob: map[*ssa.Global]*mach.Term{}}
	if r.Pkg == nil {
		return nil, fmt.Errorf("package go not found")
	}
	all := PackageFunctions(prog, r.Pkg)
	for _, f := range all {
		if f.Parent() == nil && f.Synthetic == "" {
			r.Fns[GoName(f)] = f
		}
	}
	r.Eff = NewEffects(all)
	for name, vf := range vim.Funcs {
		gf := r.Fns[name]
		if gf == nil || vf.Variadic {
			continue
		}
		n := gf.Signature.Params().Len()
		if gf.Signature.Variadic() || n != len(vf.Params) || (gf.Signature.Recv() != nil) != (vf.Class != "") {
			continue
		}
		r.Match = append(r.Match, name)
		r.match[name] = true
		if simple(vf) {
			r.inl[name] = true
		}
	}
	sort.Strings(r.Match)
	r.initGlobals()
	r.GoC = &mach.GoCtx{U: r.U, Pos: prog.Pos, InRepo: prog.InRepo, Opaque: r.goOpaque, Intrin: r.intrin, Global: r.global}
	r.VimC = &mach.VimCtx{U: r.U, File: vim, Opaque: r.vimOpaque, Const: r.vimConst, Global: r.vimGlobal,
		Class: func(f string) string {
			switch f {
			case "reader":
				return "StringReader"
			case "tokenizer":
				return "ExprTokenizer"
			}
			return ""
		},
		Base: map[string]string{"LvalueParser": "ExprParser"}}
	r.netPure()
	return r, nil
}

// PackageFunctions lists the functions of a package with anonymous ones.
func PackageFunctions(prog *load.Program, pkg *load.Package) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var names []string
	for n := range pkg.SSA.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		switch m := pkg.SSA.Members[n].(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := prog.SSA.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					f := prog.SSA.MethodValue(ms.At(i))
					if f != nil && f.Synthetic == "" && f.Pkg == pkg.SSA {
						add(f)
					}
				}
			}
		}
	}
	return out
}

// simple functions of the reference are expanded on both sides.
func simple(fn *viml.Func) bool {
	c, err := viml.Lower(fn)
	if err != nil {
		return false
	}
	if len(c.Blocks) != 1 || len(c.Blocks[0]) > 14 {
		return false
	}
	for _, in := range c.Blocks[0] {
		switch in.Op {
		case "callf", "callm", "throw", "append", "insert", "remove":
			return false
		}
	}
	return true
}

// isClass reports whether the reference has methods of class n.
func (r *Rel) isClass(n string) bool {
	for _, f := range r.Vim.Order {
		if f.Class == n {
			return true
		}
	}
	return false
}

func (r *Rel) goOpaque(fn *ssa.Function) (string, *mach.Effect) {
	if fn.Pkg != r.Pkg.SSA || fn.Parent() != nil {
		return "", nil
	}
	name := GoName(fn)
	if strings.HasPrefix(fn.Name(), "New") && fn.Signature.Recv() == nil && r.isClass(fn.Name()[3:]) {
		return fn.Name()[3:] + ".new", &mach.Effect{}
	}
	if r.match[name] && !r.inl[name] {
		return name, r.Eff.Sum[fn]
	}
	return "", nil
}

func (r *Rel) vimOpaque(name string) *mach.Effect {
	if r.match[name] && !r.inl[name] {
		return r.Eff.Sum[r.Fns[name]]
	}
	return nil
}

// initGlobals finds the values of package variables that are set once.
func (r *Rel) initGlobals() {
	stores := map[*ssa.Global][]*ssa.Store{}
	var fns []*ssa.Function
	for _, p := range r.Prog.Packages {
		fns = append(fns, PackageFunctions(r.Prog, p)...)
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						stores[g] = append(stores[g], s)
					}
				}
			}
		}
	}
	for g, ss := range stores {
		if len(ss) != 1 || g.Pkg != r.Pkg.SSA {
			continue
		}
		if c, ok := ss[0].Val.(*ssa.Const); ok && c.Value != nil {
			switch c.Value.Kind() {
			case constant.Int:
				n, _ := constant.Int64Val(c.Value)
				r.glob[g] = r.U.Int(n)
			case constant.String:
				r.glob[g] = r.U.Str(constant.StringVal(c.Value))
			case constant.Bool:
				r.glob[g] = r.U.Bool(constant.BoolVal(c.Value))
			}
			continue
		}
		r.glob[g] = r.U.Named("g:" + g.Name())
	}
}

func (r *Rel) global(g *ssa.Global) *mach.Term {
	if t := r.glob[g]; t != nil {
		return t
	}
	return r.U.Named("g:" + g.String())
}

func (r *Rel) vimConst(name string) *mach.Term {
	short := name[2:]
	switch m := r.Pkg.SSA.Members[short].(type) {
	case *ssa.Global:
		if t := r.glob[m]; t != nil {
			return t
		}
	case *ssa.NamedConst:
		if m.Value.Value.Kind() == constant.Int {
			n, _ := constant.Int64Val(m.Value.Value)
			return r.U.Int(n)
		}
		if m.Value.Value.Kind() == constant.String {
			return r.U.Str(constant.StringVal(m.Value.Value))
		}
	}
	switch short {
	case "TRUE":
		return r.U.Int(1)
	case "FALSE":
		return r.U.Int(0)
	}
	for _, f := range r.Vim.Order {
		if f.Class == short {
			return r.U.App("class", short)
		}
	}
	if e := r.Vim.Vars[name]; e != nil {
		switch e.Kind {
		case "num":
			return r.U.Int(e.N)
		case "str":
			return r.U.Str(e.S)
		}
	}
	return nil
}

func (r *Rel) vimGlobal(class, field string) *mach.Term {
	if r.Vim.Vars["s:"+class+"."+field] != nil {
		return r.U.Named("g:" + field)
	}
	return nil
}

// varargs splits the list passed for a variadic parameter.
func varargs(t *mach.Term) ([]*mach.Term, bool) {
	switch t.Op {
	case "list":
		return t.Args, true
	case "nil":
		return nil, true
	}
	return nil, false
}

func (r *Rel) intrin(g *mach.GoSide, fn *ssa.Function, _ string, a []*mach.Term, facts *mach.Facts) (*mach.Term, bool) {
	u := r.U
	if fn.Pkg == r.Pkg.SSA && fn.Signature.Recv() == nil {
		switch fn.Name() {
		case "Node":
			if len(a) == 1 {
				return mach.MakeNode(u, g.St(), facts.Norm(u, a[0])), true
			}
		case "Err":
			if len(a) == 2 {
				return u.Pure("Err", 2, a...), true
			}
		case "viml_empty":
			return u.Eq(u.Len(a[0]), u.Int(0)), true
		case "viml_eqregh":
			return mach.Match(u, a[0], a[1]), true
		case "viml_equalci":
			return mach.EqCI(u, a[0], a[1]), true
		case "viml_escape", "viml_split", "viml_string", "viml_str2nr":
			return u.App("op:"+fn.Name()[5:], "", a...), true
		case "viml_range":
			return u.App("range", "", a...), true
		case "viml_join":
			return mach.Join(u, a[0], a[1]), true
		case "viml_printf":
			if as, ok := varargs(a[1]); ok {
				return mach.Printf(u, a[0], as), true
			}
			return u.App("printfv", "", a...), true
		case "viml_has_key":
			k := facts.Norm(u, a[1])
			return g.Has(a[0], k), true
		case "viml_stridx":
			return u.Stridx(a[0], a[1]), true
		}
	}
	return Std(u, fn, a)
}

// Std gives the meaning of standard library functions.
func Std(u *mach.Universe, fn *ssa.Function, a []*mach.Term) (*mach.Term, bool) {
	if fn.Pkg == nil {
		return nil, false
	}
	switch fn.Pkg.Pkg.Path() + "." + fn.Name() {
	case "strings.Join":
		return mach.Join(u, a[0], a[1]), true
	case "strings.IndexByte":
		return u.Stridx(a[0], mach.Chr(u, a[1])), true
	case "strings.ContainsRune", "strings.IndexRune":
		if a[1].IsInt() && a[1].N > 0 && a[1].N < 128 {
			r := u.Stridx(a[0], mach.Chr(u, a[1]))
			if fn.Name() == "IndexRune" {
				return r, true
			}
			return u.Not(u.Lt(r, u.Int(0))), true
		}
	case "strings.Repeat":
		return mach.Repeat(u, a[0], a[1]), true
	case "strings.Index":
		return u.Stridx(a[0], a[1]), true
	case "strings.Contains":
		return u.Not(u.Lt(u.Stridx(a[0], a[1]), u.Int(0))), true
	case "strings.HasPrefix":
		return u.Eq(u.Stridx(a[0], a[1]), u.Int(0)), true
	case "strings.EqualFold":
		return mach.EqCI(u, a[0], a[1]), true
	case "fmt.Sprintf":
		if as, ok := varargs(a[1]); ok {
			return mach.Printf(u, a[0], as), true
		}
		return u.App("printfv", "", a...), true
	}
	return nil, false
}

// Start prepares the product for a function.
func (r *Rel) Start(name string) (l, rr mach.Side, err error) {
	gf, vf := r.Fns[name], r.Vim.Funcs[name]
	var args []*mach.Term
	if vf.Class != "" {
		args = append(args, r.U.Named("self"))
	}
	for _, p := range vf.Params {
		args = append(args, r.U.Named("p:"+p))
	}
	ls, rs := mach.NewState(), mach.NewState()
	if name == "VimLParser.parse" {
		// a new parser has no context
		ls.Store(r.U, args[0], "context", r.U.Nil())
		rs.Store(r.U, args[0], "context", r.U.Nil())
	}
	gs := mach.NewGo(r.GoC, ls, gf, args)
	vs, err := mach.NewVim(r.VimC, rs, vf, args)
	return gs, vs, err
}

// Check compares one function.
func (r *Rel) Check(name string) *mach.Product {
	p := &mach.Product{U: r.U, Trace: r.Trace}
	l, rr, err := r.Start(name)
	if err != nil {
		p.Divs = append(p.Divs, &mach.Divergence{Kind: "undecided", Detail: err.Error()})
		return p
	}
	p.Run(l, rr, mach.NewFacts())
	return p
}

// netPure finds the functions that put the reader back where it was.
func (r *Rel) netPure() {
	for round := 0; round < 3; round++ {
		ch := false
		for _, n := range r.Match {
			fn := r.Fns[n]
			if r.inl[n] || !r.Eff.Sum[fn].Mod["i"] || r.Eff.NetPure[fn]["i"] {
				continue
			}
			if len(fn.Blocks) > 12 {
				continue
			}
			if r.restores(fn, "i") {
				if r.Eff.NetPure[fn] == nil {
					r.Eff.NetPure[fn] = map[string]bool{}
				}
				r.Eff.NetPure[fn]["i"] = true
				ch = true
			}
		}
		if !ch {
			return
		}
		r.Eff.Close()
	}
}

// restores reports whether on every path of fn the field f of the reader is
// set back to its old value.
func (r *Rel) restores(fn *ssa.Function, f string) bool {
	u := r.U
	var args []*mach.Term
	for _, p := range fn.Params {
		args = append(args, u.Named("p:"+p.Name()))
	}
	// the reader that is meant: the receiver itself or the one it has
	var objs []*mach.Term
	if rv := fn.Signature.Recv(); rv != nil {
		t := rv.Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if st, ok := t.Underlying().(*types.Struct); ok {
			has := map[string]bool{}
			for i := 0; i < st.NumFields(); i++ {
				has[st.Field(i).Name()] = true
			}
			switch {
			case has[f]:
				objs = append(objs, args[0])
			case has["reader"] && !has["tokenizer"]:
				objs = append(objs, u.App("field", "reader", args[0]))
			}
		}
	}
	if objs == nil {
		return false
	}
	ok := true
	n := 0
	mach.Explore(mach.NewGo(r.GoC, mach.NewState(), fn, args), mach.NewFacts(), 200, func(s mach.Side, st *mach.Stall, facts *mach.Facts) {
		switch st.Kind {
		case mach.SReturn:
			n++
			good := false
			for _, o := range objs {
				if facts.Norm(u, s.St().Load(u, o, f, u.Nil())) == u.App("field", f, o) {
					good = true
				}
			}
			ok = ok && good
		case mach.SThrow:
		default:
			ok = false
		}
	})
	return ok && n > 0
}
