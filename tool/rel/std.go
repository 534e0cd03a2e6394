package rel

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/mach"
)

// purePkgs are standard packages whose functions depend on their arguments
// only.
var purePkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "path": true, "path/filepath": true,
	"math": true, "errors": true, "bytes": true, "regexp": true, "reflect": true, "math/bits": true, "slices": true, "maps": true, "cmp": true}

func stdPath(fn *ssa.Function) string {
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	return ""
}

// isBuf reports whether t is a pointer to a buffer in memory.
func isBuf(t types.Type) bool {
	switch t.String() {
	case "*bytes.Buffer", "*strings.Builder":
		return true
	}
	return false
}

// writesBuf reports whether the writer argument v is a buffer in memory.
func writesBuf(v ssa.Value) bool {
	mi, ok := v.(*ssa.MakeInterface)
	return ok && isBuf(mi.X.Type())
}

func recvType(fn *ssa.Function) types.Type {
	if r := fn.Signature.Recv(); r != nil {
		return r.Type()
	}
	return nil
}

// stdEffect lists the state a call of a function without body reads and
// writes: "#buf", "#io" or nothing.
func stdEffect(c *ssa.CallCommon, fn *ssa.Function) []string {
	p := stdPath(fn)
	if p == "flag" && recvType(fn) == nil {
		switch fn.Name() {
		case "Args", "NArg", "Arg":
			return []string{"#flags"}
		case "Parse":
			return []string{"#io", "#flags"}
		}
	}
	if rt := recvType(fn); rt != nil {
		if isBuf(rt) {
			return []string{"#buf"}
		}
		switch {
		case p == "regexp", p == "strings" && strings.HasSuffix(rt.String(), "Replacer"), p == "reflect", p == "bytes" && !strings.Contains(rt.String(), "Buffer") && !strings.Contains(rt.String(), "Reader"):
			return nil
		}
		return []string{"#io"}
	}
	switch p {
	case "fmt":
		switch fn.Name() {
		case "Sprint", "Sprintf", "Sprintln", "Errorf":
			return nil
		case "Fprint", "Fprintf", "Fprintln":
			if writesBuf(c.Args[0]) {
				return []string{"#buf"}
			}
		}
		return []string{"#io"}
	case "io":
		switch fn.Name() {
		case "WriteString":
			if writesBuf(c.Args[0]) {
				return []string{"#buf"}
			}
		case "Copy":
			return []string{"#io", "#buf"}
		}
		return []string{"#io"}
	}
	if purePkgs[p] {
		return nil
	}
	return []string{"#io"}
}

func bufKey(x *mach.Term) *mach.Term {
	for x.Op == "iface" {
		x = x.Args[0]
	}
	return x
}

// Sprintf formats interface values whose types are known.
func (s *goside) sprintf(f *mach.Term, as []*mach.Term) *mach.Term {
	u := s.g.U
	if f.IsStr() {
		var parts []*mach.Term
		k, ok := 0, true
		str := f.S
		for str != "" && ok {
			i := strings.IndexByte(str, '%')
			if i < 0 {
				parts = append(parts, u.Str(str))
				break
			}
			parts = append(parts, u.Str(str[:i]))
			if i+1 >= len(str) {
				ok = false
				break
			}
			v := str[i+1]
			switch {
			case v == '%':
				parts = append(parts, u.Str("%"))
			case strings.IndexByte("svdqT", v) >= 0 && k < len(as):
				parts = append(parts, s.format(v, as[k]))
				k++
			default:
				ok = false
			}
			str = str[i+2:]
		}
		if ok && k == len(as) {
			return u.Concat(parts...)
		}
	}
	return u.App("printf", "", append([]*mach.Term{f}, as...)...)
}

// format is one argument under a verb.
func (s *goside) format(verb byte, x *mach.Term) *mach.Term {
	u := s.g.U
	if x.Op == "iface" {
		switch {
		case x.S == "string" && (verb == 's' || verb == 'v'):
			return x.Args[0]
		case (x.S == "int") && (verb == 'd' || verb == 'v'):
			return itoa(u, x.Args[0])
		case x.S == "[]byte" && verb == 's':
			return x.Args[0]
		case verb == 's' || verb == 'v':
			if fn := s.method(x.S, "String"); fn != nil {
				if name := s.name(fn); s.g.opaqueName(name) && len(s.g.Eff[name].Mod) == 0 {
					return u.Pure(name, 1, x.Args[0])
				}
			}
		case verb == 'T':
			return u.Str("type " + x.S)
		}
	}
	if x.Op == "pure" && verb == 's' && s.empty(x.S) {
		// the programs take the results of these functions for strings, with or without saying so
		return u.Val("string", x)
	}
	return u.App("fmt", string(verb), x)
}

// empty reports whether the function of that name gives an interface{}.
func (s *goside) empty(name string) bool {
	f := s.fns[name]
	if f == nil || f.Signature.Results().Len() != 1 {
		return false
	}
	i, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

func itoa(u *mach.Universe, x *mach.Term) *mach.Term { return u.App("itoa", "", x) }

// std is the meaning of calls of functions without a body, and of methods of
// interface values of unknown type.
func (s *goside) std(g *mach.GoSide, c *ssa.CallCommon, fn *ssa.Function, a []*mach.Term, facts *mach.Facts) (*mach.Term, bool) {
	u := s.g.U
	norm := func(t *mach.Term) *mach.Term { return facts.Norm(u, t) }
	a = append([]*mach.Term(nil), a...)
	for i := range a {
		a[i] = g.St().Lists(u, a[i], norm)
	}
	freeze := func(as []*mach.Term) []*mach.Term {
		out := make([]*mach.Term, len(as))
		for i := range as {
			out[i] = g.Frozen(as[i], facts)
		}
		return out
	}
	getBuf := func(o *mach.Term) *mach.Term { return g.St().Load(u, o, "#buf", u.Str("")) }
	write := func(w, x *mach.Term, buf bool) *mach.Term {
		if buf {
			o := bufKey(w)
			g.St().Store(u, o, "#buf", u.Concat(getBuf(o), x))
			return u.List(u.Len(x), u.Nil())
		}
		return g.St().Opaque(u, "io.write", mach.IO, []*mach.Term{w, x}, norm)
	}
	list := func(t *mach.Term) ([]*mach.Term, bool) {
		as, ok := varargs(t)
		if !ok {
			return nil, false
		}
		return freeze(as), true
	}
	if fn == nil { // method of an interface value
		if c.Method.Name() == "Write" && len(a) == 2 {
			return write(a[0], a[1], false), true
		}
		return nil, false
	}
	path, name := stdPath(fn), fn.Name()
	if name == "init" {
		return u.Nil(), true
	}
	if rt := recvType(fn); rt != nil && isBuf(rt) {
		o := a[0]
		switch name {
		case "Write", "WriteString":
			return write(o, norm(a[1]), true), true
		case "WriteByte":
			write(o, mach.Chr(u, norm(a[1])), true)
			return u.Nil(), true
		case "WriteRune":
			return write(o, u.App("op:runestr", "", norm(a[1])), true), true
		case "Reset":
			g.St().Store(u, o, "#buf", u.Str(""))
			return u.Nil(), true
		case "String", "Bytes":
			return getBuf(o), true
		case "Len":
			return u.Len(getBuf(o)), true
		case "Truncate":
			g.St().Store(u, o, "#buf", u.Substr(getBuf(o), u.Int(0), norm(a[1])))
			return u.Nil(), true
		case "Grow":
			return u.Nil(), true
		}
		return g.St().Opaque(u, "std:"+fn.String(), &mach.Effect{Read: map[string]bool{"#buf": true}, Mod: map[string]bool{"#buf": true}}, a, norm), true
	}
	buf := len(c.Args) > 0 && writesBuf(c.Args[0])
	switch path + "." + name {
	case "fmt.Sprintf", "fmt.Errorf":
		as, ok := list(a[1])
		if !ok {
			break
		}
		r := s.sprintf(norm(a[0]), as)
		if name == "Errorf" {
			r = u.Iface("error", r)
		}
		return r, true
	case "errors.New":
		return u.Iface("error", norm(a[0])), true
	case "fmt.Sprint":
		if as, ok := list(a[0]); ok && len(as) == 1 {
			return s.format('v', as[0]), true
		}
	case "fmt.Fprintf":
		if as, ok := list(a[2]); ok {
			return write(a[0], s.sprintf(norm(a[1]), as), buf), true
		}
		return write(a[0], u.App("printfv", "", freeze(a[1:])...), buf), true
	case "fmt.Fprint":
		if as, ok := list(a[1]); ok && len(as) == 1 {
			return write(a[0], s.format('v', as[0]), buf), true
		}
		return write(a[0], u.App("sprint", "", freeze(a[1:])...), buf), true
	case "fmt.Fprintln":
		if as, ok := list(a[1]); ok {
			var ps []*mach.Term
			for i, x := range as {
				if i > 0 {
					ps = append(ps, u.Str(" "))
				}
				ps = append(ps, s.format('v', x))
			}
			ps = append(ps, u.Str("\n"))
			return write(a[0], u.Concat(ps...), buf), true
		}
		return write(a[0], u.App("sprintln", "", freeze(a[1:])...), buf), true
	case "io.WriteString":
		return write(a[0], norm(a[1]), buf), true
	case "io.Copy":
		if writesBuf(c.Args[1]) {
			o := bufKey(a[1])
			t := write(a[0], getBuf(o), buf)
			g.St().Store(u, o, "#buf", u.Str(""))
			return t, true
		}
	case "bytes.NewBuffer", "bytes.NewBufferString":
		o := g.St().New(u, "obj", u.Str("bytes.Buffer"))
		x := a[0]
		if x.Op == "nil" {
			x = u.Str("")
		}
		g.St().Store(u, o, "#buf", x)
		return o, true
	case "strconv.Itoa":
		return itoa(u, norm(a[0])), true
	case "strings.TrimRight", "bytes.TrimRight":
		return u.App("trimright", "", norm(a[0]), norm(a[1])), true
	case "flag.Args", "flag.NArg", "flag.Arg":
		l := g.St().Opaque(u, "std:flag.Args", &mach.Effect{Read: map[string]bool{"#flags": true}}, nil, norm)
		switch name {
		case "NArg":
			return u.Len(l), true
		case "Arg":
			return u.Index(l, norm(a[0])), true
		}
		return l, true
	case "flag.Parse":
		return g.St().Opaque(u, "std:flag.Parse", &mach.Effect{Read: mach.IO.Read, Mod: map[string]bool{"#io": true, "#flags": true}}, nil, norm), true
	case "os.Exit":
		g.Exit(u.App("exit", "", norm(a[0])))
		return u.Nil(), true
	}
	if t, ok := Std(u, fn, a); ok {
		return t, true
	}
	if len(stdEffect(c, fn)) == 0 {
		n := fn.String()
		return u.App("std:"+n, "", freeze(a)...), true
	}
	return g.St().Opaque(u, "std:"+fn.String(), mach.IO, freeze(a), norm), true
}
