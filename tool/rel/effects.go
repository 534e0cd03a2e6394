// Package rel compares the Go parser with its reference in Vim script.
package rel

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/load"
	"verif/mach"
)

// Effects computes, for every function, the fields it reads and writes in
// objects that exist before the call, and whether it may raise an error.
type Effects struct {
	fns    []*ssa.Function
	direct map[*ssa.Function]*fnInfo
	Sum    map[*ssa.Function]*mach.Effect
	// NetPure: fields that have their old value again when the function returns
	NetPure map[*ssa.Function]map[string]bool
	memo    map[string]bool
	prog    *load.Program // set: also globals, output, interface methods
	constG  func(g *ssa.Global) bool
	fixed   func(g *ssa.Global) bool // a map that does not change
}

type fnInfo struct {
	read, mod map[string]bool
	throws    bool
	calls     map[callMode]bool
	selfmod   map[string]bool // fields of the receiver it writes
	unknown   bool
}

// MemoFields hold caches; their soundness is a property of its own.
var MemoFields = map[string]bool{"cache": true, "find_command_cache": true}

func NewEffects(fns []*ssa.Function) *Effects {
	e := &Effects{fns: fns, direct: map[*ssa.Function]*fnInfo{}, NetPure: map[*ssa.Function]map[string]bool{}, memo: MemoFields}
	for _, f := range fns {
		e.direct[f] = e.scan(f)
	}
	e.Close()
	return e
}

// NewTypedEffects is NewEffects for whole programs.
func NewTypedEffects(prog *load.Program, fns []*ssa.Function, constG, fixed func(*ssa.Global) bool) *Effects {
	e := &Effects{fns: fns, direct: map[*ssa.Function]*fnInfo{}, NetPure: map[*ssa.Function]map[string]bool{}, memo: map[string]bool{}, prog: prog, constG: constG, fixed: fixed}
	for _, f := range fns {
		e.direct[f] = e.scan(f)
	}
	e.Close()
	return e
}

// allFields calls add for every field of a struct and the structs in it.
func allFields(t types.Type, add func(string)) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		add(mach.FieldKey(t, i, true))
		allFields(st.Field(i).Type(), add)
	}
}

// implementers lists the methods of the program an interface call may reach.
func implementers(prog *load.Program, c *ssa.CallCommon) []*ssa.Function {
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, p := range prog.Packages {
		for _, n := range p.Types.Scope().Names() {
			tn, ok := p.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if !types.Implements(t, it) {
					continue
				}
				ms := prog.SSA.MethodSets.MethodSet(t)
				if sel := ms.Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
					if f := prog.SSA.MethodValue(sel); f != nil {
						out = append(out, f)
					}
				}
			}
		}
	}
	return out
}

// openCall reports whether an interface call may reach code outside of the
// program: its interface can be implemented elsewhere.
func openCall(c *ssa.CallCommon) bool {
	it := c.Value.Type().Underlying().(*types.Interface)
	for i := 0; i < it.NumMethods(); i++ {
		if !it.Method(i).Exported() {
			return false
		}
	}
	// Node has accessors only
	return c.Method.Name() != "Pos"
}

func (e *Effects) scanTyped(fn *ssa.Function, in *fnInfo, isFresh func(ssa.Value) bool) {
	for _, b := range fn.Blocks {
		for _, x := range b.Instrs {
			switch x := x.(type) {
			case *ssa.UnOp:
				if x.Op.String() != "*" {
					break
				}
				if g, ok := x.X.(*ssa.Global); ok {
					if !e.constG(g) {
						in.read[g.String()] = true
					}
					break
				}
				if !isFresh(x.X) {
					allFields(x.Type(), func(f string) { in.read[f] = true })
				}
			case *ssa.Store:
				if g, ok := x.Addr.(*ssa.Global); ok {
					in.mod[g.String()] = true
					break
				}
				if _, ok := x.Addr.(*ssa.FieldAddr); !ok && !isFresh(x.Addr) {
					allFields(x.Val.Type(), func(f string) { in.mod[f] = true })
				}
			case *ssa.Range:
				in.read["[]"] = true
			}
			ci, ok := x.(ssa.CallInstruction)
			if !ok {
				continue
			}
			c := ci.Common()
			io := func() { in.read["#io"], in.mod["#io"] = true, true }
			switch {
			case c.IsInvoke():
				for _, f := range implementers(e.prog, c) {
					in.calls[callMode{f, 0}] = true
				}
				if openCall(c) {
					io()
				}
			case c.StaticCallee() != nil:
				if f := c.StaticCallee(); len(f.Blocks) == 0 {
					for _, k := range stdEffect(c, f) {
						if k == "#buf" && len(c.Args) > 0 && isFresh(unwrap(c.Args[0])) {
							continue
						}
						in.read[k], in.mod[k] = true, true
					}
				}
			default:
				if _, ok := c.Value.(*ssa.Builtin); !ok {
					if mc, ok := c.Value.(*ssa.MakeClosure); !ok || mc == nil {
						io()
					}
				}
			}
		}
	}
}

func unwrap(v ssa.Value) ssa.Value {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		return mi.X
	}
	return v
}

// callMode is a callee and what its first argument is.
type callMode struct {
	fn   *ssa.Function
	mode byte // f: made here, s: own receiver, 0: other
}

// isSelf reports whether v is the first parameter.
func isSelf(fn *ssa.Function, v ssa.Value) bool {
	for {
		if len(fn.Params) > 0 && v == ssa.Value(fn.Params[0]) {
			return true
		}
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok || !structField(fa.X.Type(), fa.Field).Embedded() {
			return false
		}
		v = fa.X
	}
}

func (e *Effects) freshFn(fn *ssa.Function, seen map[ssa.Value]bool) bool {
	if fn == nil || len(fn.Blocks) == 0 || seen[fn] {
		return false
	}
	seen[fn] = true
	n := 0
	for _, b := range fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if len(r.Results) != 1 || !e.fresh(r.Results[0], seen) {
				return false
			}
			n++
		}
	}
	return n > 0
}

// fresh reports whether v points to an object made by the current call.
func (e *Effects) fresh(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	switch v := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return true
	case *ssa.Phi:
		seen[v] = true
		for _, x := range v.Edges {
			if !e.fresh(x, seen) {
				return false
			}
		}
		return true
	case *ssa.FieldAddr:
		return e.fresh(v.X, seen)
	case *ssa.IndexAddr:
		return e.fresh(v.X, seen)
	case *ssa.ChangeType:
		return e.fresh(v.X, seen)
	case *ssa.MakeInterface:
		return e.fresh(v.X, seen)
	case *ssa.TypeAssert:
		return e.fresh(v.X, seen)
	case *ssa.Slice:
		return e.fresh(v.X, seen)
	case *ssa.UnOp:
		// a pointer kept in a field of an object made here, e.g. the embedded parser
		if fa, ok := v.X.(*ssa.FieldAddr); ok && structField(fa.X.Type(), fa.Field).Embedded() {
			return e.fresh(fa.X, seen)
		}
		return false
	case *ssa.Call:
		return e.freshFn(v.Common().StaticCallee(), seen)
	}
	return false
}

func structField(t types.Type, i int) *types.Var {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying().(*types.Struct).Field(i)
}

func (e *Effects) key(t types.Type, i int) string { return mach.FieldKey(t, i, e.prog != nil) }

// origin is the field a map or slice was loaded from.
func (e *Effects) origin(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			return e.key(fa.X.Type(), fa.Field)
		}
	case *ssa.Field:
		return e.key(v.X.Type(), v.Field)
	case *ssa.Phi:
		if len(v.Edges) > 0 {
			return e.origin(v.Edges[0])
		}
	case *ssa.MakeInterface:
		return e.origin(v.X)
	}
	return ""
}

func (e *Effects) scan(fn *ssa.Function) *fnInfo {
	in := &fnInfo{read: map[string]bool{}, mod: map[string]bool{}, calls: map[callMode]bool{}, selfmod: map[string]bool{}}
	isFresh := func(v ssa.Value) bool { return e.fresh(v, map[ssa.Value]bool{}) }
	for _, b := range fn.Blocks {
		for _, x := range b.Instrs {
			switch x := x.(type) {
			case *ssa.UnOp:
				if fa, ok := x.X.(*ssa.FieldAddr); ok {
					f := structField(fa.X.Type(), fa.Field)
					if !e.memo[mach.FieldName(f)] && !f.Embedded() && !isFresh(fa.X) {
						in.read[e.key(fa.X.Type(), fa.Field)] = true
					}
				}
			case *ssa.Field:
				in.read[e.key(x.X.Type(), x.Field)] = true
			case *ssa.Store:
				switch a := x.Addr.(type) {
				case *ssa.FieldAddr:
					if !isFresh(a.X) {
						f := structField(a.X.Type(), a.Field)
						if !f.Embedded() {
							if isSelf(fn, a.X) {
								in.selfmod[e.key(a.X.Type(), a.Field)] = true
							} else {
								in.mod[e.key(a.X.Type(), a.Field)] = true
							}
						}
					}
				case *ssa.IndexAddr:
					if !isFresh(a.X) {
						if o := e.origin(a.X); o != "" {
							in.mod[o] = true
						} else {
							in.mod["[]"] = true
						}
					}
				case *ssa.Global:
					in.mod["global:"+a.Name()] = true
				}
			case *ssa.MapUpdate:
				if e.memo[e.origin(x.Map)] || isFresh(x.Map) {
					break
				}
				if c, ok := x.Key.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
					in.mod[constant.StringVal(c.Value)] = true
				} else {
					in.mod["[]"] = true
				}
			case *ssa.Lookup:
				if ld, ok := x.X.(*ssa.UnOp); ok && e.fixed != nil {
					if g, ok := ld.X.(*ssa.Global); ok && e.fixed(g) {
						break
					}
				}
				if _, ok := x.X.Type().Underlying().(*types.Map); ok && !e.memo[e.origin(x.X)] {
					if c, ok := x.Index.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
						in.read[constant.StringVal(c.Value)] = true
					} else {
						in.read["[]"] = true
					}
				}
			case *ssa.Panic:
				y := x.X
				if mi, ok := y.(*ssa.MakeInterface); ok {
					y = mi.X
				}
				if _, ok := y.(*ssa.Const); !ok {
					in.throws = true
				}
			case *ssa.MakeClosure:
				in.calls[callMode{x.Fn.(*ssa.Function), 0}] = true
			}
			if c, ok := x.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil {
					mode := byte(0)
					if as := c.Common().Args; len(as) > 0 {
						if isFresh(as[0]) {
							mode = 'f'
						} else if isSelf(fn, as[0]) {
							mode = 's'
						}
					}
					in.calls[callMode{f, mode}] = true
				} else if _, ok := c.Common().Value.(*ssa.Builtin); !ok && !c.Common().IsInvoke() {
					in.unknown = true
				}
			}
		}
	}
	if e.prog != nil {
		e.scanTyped(fn, in, isFresh)
	}
	// method values used in tables
	for _, b := range fn.Blocks {
		for _, x := range b.Instrs {
			for _, op := range x.Operands(nil) {
				if c, ok := x.(ssa.CallInstruction); ok && op == &c.Common().Value {
					continue
				}
				if f, ok := (*op).(*ssa.Function); ok {
					in.calls[callMode{f, 0}] = true
				}
			}
		}
	}
	return in
}

// Close computes the transitive effects.
func (e *Effects) Close() {
	e.Sum = map[*ssa.Function]*mach.Effect{}
	self := map[*ssa.Function]map[string]bool{}
	for _, f := range e.fns {
		self[f] = map[string]bool{}
		e.Sum[f] = &mach.Effect{Read: map[string]bool{}, Mod: map[string]bool{}}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range e.fns {
			s, d := e.Sum[f], e.direct[f]
			add := func(m map[string]bool, k string) {
				if !m[k] {
					m[k] = true
					ch = true
				}
			}
			for k := range d.read {
				add(s.Read, k)
			}
			for k := range d.mod {
				if !e.NetPure[f][k] {
					add(s.Mod, k)
				}
			}
			for k := range d.selfmod {
				if !e.NetPure[f][k] {
					add(self[f], k)
				}
			}
			if d.throws && !s.Throws {
				s.Throws = true
				ch = true
			}
			for cm := range d.calls {
				c := cm.fn
				cs, cself := e.Sum[c], self[c]
				if cs == nil {
					// a thunk or bound method
					if c.Synthetic != "" && c.Object() != nil {
						for _, b := range c.Blocks {
							for _, x := range b.Instrs {
								if ci, ok := x.(ssa.CallInstruction); ok {
									if g := ci.Common().StaticCallee(); g != nil && e.Sum[g] != nil {
										cs, cself = e.Sum[g], self[g]
									}
								}
							}
						}
					}
					if cs == nil {
						continue
					}
				}
				for k := range cs.Read {
					add(s.Read, k)
				}
				for k := range cs.Mod {
					if !e.NetPure[f][k] {
						add(s.Mod, k)
					}
				}
				for k := range cself {
					if e.NetPure[f][k] {
						continue
					}
					switch cm.mode {
					case 'f':
					case 's':
						add(self[f], k)
					default:
						add(s.Mod, k)
					}
				}
				if cs.Throws && !s.Throws {
					s.Throws = true
					ch = true
				}
			}
		}
	}
	for _, f := range e.fns {
		for k := range self[f] {
			e.Sum[f].Mod[k] = true
		}
	}
}
