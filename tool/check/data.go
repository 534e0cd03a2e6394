package check

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"verif/load"
	"verif/rel"
)

// dataRule compares the initial values of the package variables that match.
func dataRule(re string, min int) Rule {
	rx := regexp.MustCompile("^(?:" + re + ")$")
	return Rule{Name: "initial-data", Desc: "the initialisers of the package variables evaluate (structurally) to the values of the reference",
		Run: func(c *Ctx) ([]*Finding, *Stats) {
			st := &Stats{Min: min}
			var fs []*Finding
			cur, ref := c.data()
			m := map[string]*rel.DataVar{}
			for _, v := range cur {
				m[v.Name] = v
			}
			for _, r := range ref {
				if !rx.MatchString(r.Name) {
					continue
				}
				n := count(r.Val)
				st.Sites += n
				if len(st.Samples) < 6 {
					st.Samples = append(st.Samples, fmt.Sprintf("%s: %d values", r.Name, n))
				}
				v := m[r.Name]
				if v == nil || c.initSame(r.Obj.Pkg().Path()) {
					continue // its uses are compared, its value was
				}
				var ds []rel.Diff
				rel.DiffData(v.Val, r.Val, "", &ds)
				for _, d := range ds {
					if tableOfPatterns(r) {
						if d.B == nil { // patterns nobody asked for before
							continue
						}
						if d.A != nil && samePattern(d.A, d.B) {
							continue
						}
					}
					pos := v.Pos
					if d.A != nil && d.A.Pos.IsValid() {
						pos = c.Tree.Pos(d.A.Pos)
					}
					fs = append(fs, &Finding{Where: r.Name + d.Path, Pos: pos, Msg: fmt.Sprintf("initial value %s, in the reference %s", show(d.A), show(d.B))})
				}
			}
			return fs, st
		}}
}

func (c *Ctx) data() (cur, ref []*rel.DataVar) {
	if c.dataCur == nil {
		c.dataCur, c.dataRef = rel.Data(c.Tree), rel.Data(c.RefProg)
	}
	return c.dataCur, c.dataRef
}

func show(d *rel.Datum) string {
	if d == nil {
		return "(absent)"
	}
	return tooMany(d.String(), 160)
}

func count(d *rel.Datum) int {
	n := 1
	for _, e := range d.Elems {
		n += count(e)
	}
	return n
}

// tableOfPatterns: a map from strings to strings whose values are patterns.
func tableOfPatterns(v *rel.DataVar) bool {
	m, ok := v.Obj.Type().Underlying().(*types.Map)
	return ok && m.Elem().String() == "string" && strings.Contains(strings.ToLower(v.Name), "pat")
}

// samePattern reports whether two patterns have the same normal form.
func samePattern(a, b *rel.Datum) bool {
	if a.Kind != "const" || b.Kind != "const" {
		return false
	}
	x, ok1 := unquote(a.Text)
	y, ok2 := unquote(b.Text)
	if !ok1 || !ok2 {
		return false
	}
	return rel.SameLanguage(x, y)
}

func unquote(s string) (string, bool) {
	v := constant.MakeFromLiteral(s, 9 /* token.STRING */, 0)
	if v.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(v), true
}

func relPath(p *load.Program, path string) string {
	return strings.TrimPrefix(strings.TrimPrefix(path, p.Module), "/")
}

// initSame reports whether a package, the init functions and initialisers of
// which are others than in the reference, is initialised to the same values.
func (c *Ctx) initSame(path string) bool {
	if r, ok := c.initRuns[path]; ok {
		return r
	}
	if c.initRuns == nil {
		c.initRuns = map[string]bool{}
	}
	c.initRuns[path] = false
	e := c.Equiv()
	re := regexp.MustCompile("^" + regexp.QuoteMeta(relPath(c.RefProg, path)) + `\.init#\d+$`)
	other := false
	for _, l := range [][]string{e.New, e.Gone} {
		for _, n := range l {
			other = other || re.MatchString(n)
		}
	}
	for _, n := range e.Failing() {
		other = other || re.MatchString(n)
	}
	a, b := c.Tree.ByPath[path], c.RefProg.ByPath[path]
	if !other || a == nil || b == nil {
		return false
	}
	// the variables in which the initialisers differ, and the ones that an
	// init function may touch
	cur, ref := c.data()
	m := map[string]*rel.DataVar{}
	for _, v := range cur {
		m[v.Name] = v
	}
	vars := map[string]bool{}
	for _, r := range ref {
		if r.Obj.Pkg().Path() != path {
			continue
		}
		v := m[r.Name]
		var ds []rel.Diff
		if v != nil {
			rel.DiffData(v.Val, r.Val, "", &ds)
		}
		if v == nil || len(ds) > 0 || e.G.SetInInit(r.Obj.Name(), a) || e.G.SetInInit(r.Obj.Name(), b) {
			vars[path+"."+r.Obj.Name()] = true
		}
	}
	c.initRuns[path] = e.G.SameInit(a, b, vars)
	return c.initRuns[path]
}

// initRule: functions that run at initialisation.
func initRule(pkg string) Rule {
	return Rule{Name: "initialisation", Desc: "package initialisation runs the init functions of the reference and no others",
		Run: func(c *Ctx) ([]*Finding, *Stats) {
			st := &Stats{}
			var fs []*Finding
			e := c.Equiv()
			for _, p := range c.RefProg.Packages {
				if rx := regexp.MustCompile("^(" + pkg + ")$"); rx.MatchString(relPath(c.RefProg, p.Path)) && c.initSame(p.Path) {
					st.add("%s: initialised to the same values, functions and initialisers together", p.Path)
					return fs, st
				}
			}
			re := regexp.MustCompile(`^(` + pkg + `)\.init#\d+$`)
			for _, n := range e.G.Pairs {
				if re.MatchString(n) {
					st.add("%s compared", n)
				}
			}
			for _, n := range e.New {
				if re.MatchString(n) && !e.G.Harmless(n) {
					fs = append(fs, &Finding{Where: n, Msg: "an init function that the reference does not have"})
				}
			}
			for _, n := range e.Gone {
				if re.MatchString(n) {
					fs = append(fs, &Finding{Where: n, Msg: "an init function of the reference is gone"})
				}
			}
			return fs, st
		}}
}

// methods that formatting, encoding and error handling look for
var special = map[string]bool{"String": true, "GoString": true, "Error": true, "Format": true, "MarshalJSON": true, "MarshalText": true, "UnmarshalJSON": true, "UnmarshalText": true, "Is": true, "As": true, "Unwrap": true, "Write": true, "Read": true, "WriteTo": true, "ReadFrom": true, "IsZero": true, "Close": true}

// shapeRule compares the exported declarations of a package.
func shapeRule(pkgs ...string) Rule {
	return Rule{Name: "public-shape", Desc: "exported types have the fields, tags, order and special methods of the reference, exported constants its values",
		Run: func(c *Ctx) ([]*Finding, *Stats) {
			st := &Stats{Min: 1}
			var fs []*Finding
			for _, p := range pkgs {
				a, b := c.Tree.Pkg(p), c.RefProg.Pkg(p)
				if a == nil || b == nil {
					fs = append(fs, &Finding{Where: p, Msg: "the package is gone"})
					continue
				}
				qa := types.RelativeTo(a.Types)
				for _, n := range b.Types.Scope().Names() {
					o := b.Types.Scope().Lookup(n)
					if !o.Exported() && p != "go" {
						continue
					}
					x := a.Types.Scope().Lookup(n)
					w := p + "." + n
					if x == nil || o.Exported() && c.Raw.Pkg(p).Types.Scope().Lookup(n) == nil {
						if o.Exported() {
							fs = append(fs, &Finding{Where: w, Msg: "the exported name is gone"})
						}
						continue
					}
					pos := c.Tree.Pos(x.Pos())
					bad := func(f string, v ...interface{}) {
						fs = append(fs, &Finding{Where: w, Pos: pos, Msg: fmt.Sprintf(f, v...)})
					}
					switch o := o.(type) {
					case *types.Const:
						st.add("%s", w)
						if xc, ok := x.(*types.Const); !ok || xc.Val().ExactString() != o.Val().ExactString() {
							bad("constant is not %s", o.Val().ExactString())
						}
					case *types.TypeName:
						st.add("%s", w)
						xt, ok := x.(*types.TypeName)
						if !ok {
							bad("no type any more")
							continue
						}
						if o.Exported() {
							if f := goneField(c.Raw.Pkg(p).Types.Scope().Lookup(n).Type(), o.Type()); f != "" {
								bad("the field %s has another name", f)
							}
							if d := sameType(xt.Type(), o.Type(), qa, types.RelativeTo(b.Types)); d != "" {
								bad("%s", d)
							}
						}
						am, bm := specials(xt.Type()), specials(o.Type())
						for _, m := range am {
							if !has(bm, m) {
								bad("new method %s changes how values are printed, encoded or handled", m)
							}
						}
						for _, m := range bm {
							if !has(am, m) {
								bad("method %s is gone", m)
							}
						}
					case *types.Func:
						if o.Exported() {
							st.add("%s", w)
							if types.TypeString(x.Type(), qa) != types.TypeString(o.Type(), types.RelativeTo(b.Types)) {
								if sigNoNames(x.Type()) != sigNoNames(o.Type()) {
									bad("signature differs")
								}
							}
						}
					}
				}
			}
			return fs, st
		}}
}

// goneField is an exported field of b that a does not have.
func goneField(a, b types.Type) string {
	y, ok := b.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	has := map[string]bool{}
	if x, ok := a.Underlying().(*types.Struct); ok {
		for i := 0; i < x.NumFields(); i++ {
			has[x.Field(i).Name()] = true
		}
	}
	for i := 0; i < y.NumFields(); i++ {
		if f := y.Field(i); f.Exported() && !has[f.Name()] {
			return f.Name()
		}
	}
	return ""
}

func sigNoNames(t types.Type) string {
	s, ok := t.(*types.Signature)
	if !ok {
		return t.String()
	}
	r := ""
	for i := 0; i < s.Params().Len(); i++ {
		r += s.Params().At(i).Type().String() + ","
	}
	r += "|"
	for i := 0; i < s.Results().Len(); i++ {
		r += s.Results().At(i).Type().String() + ","
	}
	return r
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func specials(t types.Type) []string {
	var out []string
	if _, ok := t.Underlying().(*types.Interface); ok {
		return nil
	}
	ms := types.NewMethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if n := ms.At(i).Obj().Name(); special[n] {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

func sameType(a, b types.Type, qa, qb types.Qualifier) string {
	x, ok1 := a.Underlying().(*types.Struct)
	y, ok2 := b.Underlying().(*types.Struct)
	if ok1 != ok2 {
		return "another kind of type"
	}
	if !ok1 {
		if s, t := types.TypeString(a.Underlying(), qa), types.TypeString(b.Underlying(), qb); s != t {
			return "underlying type is " + s + ", in the reference " + t
		}
		return ""
	}
	exp := func(s *types.Struct, q types.Qualifier) []string {
		var out []string
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if f.Exported() || f.Embedded() {
				e := ""
				if f.Embedded() {
					e = "embedded "
				}
				out = append(out, fmt.Sprintf("%s%s %s %s", e, f.Name(), types.TypeString(f.Type(), q), s.Tag(i)))
			}
		}
		return out
	}
	l, r := exp(x, qa), exp(y, qb)
	for i := range r {
		if i >= len(l) || l[i] != r[i] {
			return "fields differ at " + strings.TrimSpace(r[i])
		}
	}
	if len(l) > len(r) {
		return "new field " + strings.TrimSpace(l[len(r)])
	}
	return ""
}
