package lint

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Taint follows references to certain objects through the program: flow and
// context insensitive, one cell per field of a type, per element of a
// container type and per local variable.
type Taint struct {
	g *Prog
	// Holds: can an object of this type be one of them, or contain one
	Holds func(t types.Type) bool
	// Fns: the functions that are looked at
	Fns map[*ssa.Function]bool

	val  map[ssa.Value]bool
	cell map[string]bool
	more bool
}

func NewTaint(g *Prog, fns map[*ssa.Function]bool, holds func(types.Type) bool) *Taint {
	return &Taint{g: g, Fns: fns, Holds: holds, val: map[ssa.Value]bool{}, cell: map[string]bool{}}
}

// hasRefs reports whether a value of the type refers to memory.
func hasRefs(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		return t.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if hasRefs(t.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasRefs(t.Elem())
	case *types.Signature:
		return false
	case *types.Tuple:
		for i := 0; i < t.Len(); i++ {
			if hasRefs(t.At(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

// Mark marks a value.
func (t *Taint) Mark(v ssa.Value) {
	if v == nil || t.val[v] || !hasRefs(v.Type()) {
		return
	}
	if t.Holds != nil && !t.Holds(v.Type()) {
		return
	}
	t.val[v] = true
	t.more = true
}

func (t *Taint) markCell(k string) {
	if k != "" && !t.cell[k] {
		t.cell[k] = true
		t.more = true
	}
}

// Of reports whether the value may refer to one of the objects.
func (t *Taint) Of(v ssa.Value) bool {
	if g, ok := v.(*ssa.Global); ok {
		return t.val[g]
	}
	return t.val[v]
}

// place names the cell behind an address.
func place(a ssa.Value) string {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		return fieldCell(a.X.Type().Underlying().(*types.Pointer).Elem(), a.Field)
	case *ssa.IndexAddr:
		return elemCell(a.X.Type())
	case *ssa.Alloc:
		return fmt.Sprintf("alloc %p", a)
	case *ssa.FreeVar:
		return "deref " + types.TypeString(a.Type(), nil)
	case *ssa.Global:
		return fmt.Sprintf("global %p", a)
	}
	return "deref " + types.TypeString(a.Type(), nil)
}

func fieldCell(t types.Type, i int) string {
	st := t.Underlying().(*types.Struct)
	return "field " + types.TypeString(t, nil) + "." + st.Field(i).Name()
}

func elemCell(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	var e types.Type
	switch u := t.Underlying().(type) {
	case *types.Slice:
		e = u.Elem()
	case *types.Array:
		e = u.Elem()
	case *types.Map:
		return "entry " + types.TypeString(u, nil)
	default:
		return ""
	}
	return "elem " + types.TypeString(e, nil)
}

// Run follows the marks to the end.
func (t *Taint) Run() {
	for t.more = true; t.more; {
		t.more = false
		for _, f := range t.g.Fns {
			if !t.Fns[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					t.step(in)
				}
			}
		}
	}
}

func (t *Taint) step(in ssa.Instruction) {
	flow := func(to ssa.Value, from ...ssa.Value) {
		for _, v := range from {
			if t.Of(v) {
				t.Mark(to)
			}
		}
	}
	switch in := in.(type) {
	case *ssa.Phi:
		flow(in, in.Edges...)
	case *ssa.ChangeType:
		flow(in, in.X)
	case *ssa.ChangeInterface:
		flow(in, in.X)
	case *ssa.MakeInterface:
		flow(in, in.X)
	case *ssa.TypeAssert:
		flow(in, in.X)
	case *ssa.Convert:
		flow(in, in.X)
	case *ssa.Slice:
		flow(in, in.X)
	case *ssa.Field:
		flow(in, in.X)
		if t.cell[fieldCell(in.X.Type(), in.Field)] {
			t.Mark(in)
		}
	case *ssa.FieldAddr:
		flow(in, in.X)
	case *ssa.Index:
		flow(in, in.X)
		if t.cell[elemCell(in.X.Type())] {
			t.Mark(in)
		}
	case *ssa.IndexAddr:
		flow(in, in.X)
	case *ssa.Lookup:
		flow(in, in.X)
		if t.cell[elemCell(in.X.Type())] {
			t.Mark(in)
		}
	case *ssa.Extract:
		flow(in, in.Tuple)
	case *ssa.Range:
		flow(in, in.X)
		if t.cell[elemCell(in.X.Type())] {
			t.Mark(in)
		}
	case *ssa.Next:
		flow(in, in.Iter)
	case *ssa.UnOp:
		if in.Op == token.MUL {
			flow(in, in.X)
			if t.cell[place(in.X)] || t.cell["deref "+types.TypeString(in.X.Type(), nil)] {
				t.Mark(in)
			}
			// part of a local copy
			if a, ok := root(in.X).(*ssa.Alloc); ok && a != in.X && t.cell[place(a)] {
				t.Mark(in)
			}
		}
	case *ssa.Store:
		if t.Of(in.Val) {
			t.markCell(place(in.Addr))
		}
	case *ssa.MapUpdate:
		if t.Of(in.Value) || t.Of(in.Key) {
			t.markCell(elemCell(in.Map.Type()))
		}
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		for i, b := range in.Bindings {
			if t.Of(b) {
				t.Mark(fn.FreeVars[i])
			}
			if a, ok := b.(*ssa.Alloc); ok && t.cell[place(a)] {
				t.markCell("deref " + types.TypeString(a.Type(), nil))
			}
		}
	case *ssa.Return:
		for i, r := range in.Results {
			if t.Of(r) {
				t.markCell(fmt.Sprintf("result %p %d", in.Parent(), i))
			}
		}
	case ssa.CallInstruction:
		c := in.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			if v := in.Value(); v != nil && b.Name() == "append" {
				flow(v, c.Args[0])
			}
			return
		}
		args := c.Args
		if c.IsInvoke() {
			args = append([]ssa.Value{c.Value}, args...)
		}
		v := in.Value()
		hs := t.g.Callees(c)
		for _, h := range hs {
			for i, a := range args {
				if i < len(h.Params) && t.Of(a) {
					t.Mark(h.Params[i])
				}
				// variadic arguments are elements of an array made here
			}
			if v == nil {
				continue
			}
			n := h.Signature.Results().Len()
			for i := 0; i < n; i++ {
				if !t.cell[fmt.Sprintf("result %p %d", h, i)] {
					continue
				}
				if n == 1 {
					t.Mark(v)
				} else {
					for _, r := range *v.Referrers() {
						if e, ok := r.(*ssa.Extract); ok && e.Index == i {
							t.Mark(e)
						}
					}
				}
			}
		}
		if len(hs) == 0 && v != nil { // outside: it may hand back what it got
			flow(v, args...)
		}
	}
}

// Write is a place where a marked object is modified.
type Write struct {
	In   ssa.Instruction
	What string
}

// readOnly lists packages whose functions do not modify what they are given.
var readOnly = map[string]bool{"fmt": true, "strings": true, "regexp": true, "errors": true, "reflect": true, "strconv": true, "unicode": true, "unicode/utf8": true, "bytes": true, "log": true, "math": true, "io": true, "os": true, "bufio": true, "path": true, "path/filepath": true}

// readsOnly reports whether a function of the library only looks at what it is given.
func readsOnly(pkg, fn string) bool {
	switch pkg {
	case "reflect": // Set... and Swapper change what a value stands for
		return !strings.HasPrefix(fn, "Set") && fn != "Swapper" && fn != "Copy" && fn != "Append"
	case "encoding/json", "encoding/xml", "encoding/gob":
		return strings.HasPrefix(fn, "Encode") || strings.HasPrefix(fn, "Marshal") || strings.HasPrefix(fn, "New") || fn == "SetIndent"
	}
	return readOnly[pkg]
}

// Writes lists the modifications of marked objects.
func (t *Taint) Writes() (out []Write, sites int) {
	for _, f := range t.g.Fns {
		if !t.Fns[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					sites++
					if t.target(in.Addr) {
						out = append(out, Write{in, "a store to " + describe(in.Addr)})
					}
				case *ssa.MapUpdate:
					sites++
					if t.Of(in.Map) {
						out = append(out, Write{in, "a map update of " + describe(in.Map)})
					}
				case ssa.CallInstruction:
					c := in.Common()
					if b, ok := c.Value.(*ssa.Builtin); ok {
						switch b.Name() {
						case "append", "copy", "delete", "clear":
							sites++
							if t.Of(c.Args[0]) && !capped(c.Args[0]) {
								out = append(out, Write{in, b.Name() + " on " + describe(c.Args[0])})
							}
						}
						continue
					}
					if len(t.g.Callees(c)) > 0 || c.IsInvoke() {
						continue
					}
					h := c.StaticCallee()
					if h == nil {
						continue
					}
					var pkg *types.Package
					if o := h.Object(); o != nil {
						pkg = o.Pkg()
					} else if h.Pkg != nil {
						pkg = h.Pkg.Pkg
					}
					if pkg == nil || readsOnly(pkg.Path(), h.Name()) {
						continue
					}
					sites++
					for _, a := range c.Args {
						if t.Of(a) {
							out = append(out, Write{in, "a call of " + pkg.Path() + "." + h.Name() + " with " + describe(a)})
							break
						}
					}
				}
			}
		}
	}
	return
}

// capped: s[a:b:c], an append makes a new array
func capped(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	return ok && s.Max != nil
}

func (t *Taint) target(a ssa.Value) bool {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		return t.Of(a.X)
	case *ssa.IndexAddr:
		return t.Of(a.X)
	case *ssa.Alloc:
		return false
	case *ssa.FreeVar:
		return t.Of(a)
	}
	return t.Of(a)
}

func describe(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		p := v.X.Type().Underlying().(*types.Pointer).Elem()
		return "field " + p.Underlying().(*types.Struct).Field(v.Field).Name() + " of " + describe(v.X)
	case *ssa.IndexAddr:
		return "an element of " + describe(v.X)
	case *ssa.Global:
		return "package variable " + v.Name()
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if _, ok := v.X.(*ssa.Alloc); !ok {
				return describe(v.X)
			}
		}
	case *ssa.Parameter:
		return "parameter " + v.Name()
	}
	return "a " + types.TypeString(v.Type(), func(p *types.Package) string { return p.Name() })
}
