package check

import (
	"fmt"
	"strconv"
	"strings"

	"verif/mach"
	"verif/rel"
	"verif/viml"
)

// tables of the Vim script parser and their variables in package go
var vimTables = []struct{ vim, go_ string }{
	{"s:VimLParser.builtin_commands", "go.var:builtin_commands"},
	{"s:VimLParser.neovim_additional_commands", "go.var:neovim_additional_commands"},
	{"s:VimLParser.neovim_removed_commands", "go.var:neovim_removed_commands"},
}

// vimRule compares the Go parser with the Vim script parser. Functions whose
// confirmed versions are comparable have to agree: both versions are equal to
// the confirmed ones, or they are compared with each other.
func vimRule() Rule {
	return Rule{Name: "agrees-with-vim-script", Desc: "each function of the Go parser and its counterpart in autoload/vimlparser.vim make the same raising calls, raise the same errors, return the same values and leave the same state on every path; the command tables have the same entries",
		Run: func(c *Ctx) ([]*Finding, *Stats) {
			st := &Stats{Min: 600}
			bad := func(f *Finding) ([]*Finding, *Stats) { st.Min = 0; return []*Finding{f}, st }
			cur, err := c.VimFile(c.Root)
			if err != nil {
				return bad(&Finding{Where: "autoload/vimlparser.vim", Msg: err.Error()})
			}
			ref, err := c.VimFile(c.Ref)
			if err != nil {
				return bad(&Finding{Where: "reference of autoload/vimlparser.vim", Msg: err.Error()})
			}
			rr, err := rel.New(c.RefProg, ref)
			if err != nil {
				return bad(&Finding{Where: "reference", Msg: err.Error()})
			}
			var rc *rel.Rel
			direct := func(n string) *mach.Product {
				if rc == nil {
					if rc, err = rel.New(c.Tree, cur); err != nil {
						rc = rr
					}
				}
				for _, m := range rc.Match {
					if m == n {
						return rc.Check(n)
					}
				}
				return nil
			}
			e := c.Equiv()
			var fs []*Finding
			chain, fresh := 0, 0
			for _, n := range rr.Match {
				vf := cur.Funcs[n]
				sameVim := vf != nil && viml.SameFunc(vf, ref.Funcs[n])
				g := "go." + n
				v := e.Res[g]
				sameGo := v != nil && v.How != rel.Differs || v == nil && contains(e.Gone, g)
				if sameVim && sameGo {
					chain++
				}
				base := rr.Check(n)
				if len(base.Divs) > 0 { // another way of doing the same in each language
					if !sameVim {
						fs = append(fs, &Finding{Where: "autoload/vimlparser.vim: " + n, Msg: "changed, and the Go version is not comparable with it"})
					}
					continue
				}
				st.add("%s: %s", n, base.Summary())
				if sameVim && sameGo {
					continue
				}
				fresh++
				if vf == nil {
					fs = append(fs, &Finding{Where: "autoload/vimlparser.vim: " + n, Msg: "the function is gone or has other parameters"})
					continue
				}
				p := direct(n)
				if p != nil && len(p.Divs) == 0 {
					continue
				}
				if p == nil {
					fs = append(fs, &Finding{Where: n, Msg: "changed on one side, and no longer of the same name and parameters on both"})
					continue
				}
				for i, d := range p.Divs {
					if i < 3 {
						f := c.finding(n, d)
						f.Rule = ""
						fs = append(fs, f)
					}
				}
			}
			// classes and functions that only one side has
			for n, vf := range cur.Funcs {
				if rf := ref.Funcs[n]; rf == nil || !contains(rr.Match, n) && !viml.SameFunc(vf, rf) && !strings.HasPrefix(n, "Compiler.") {
					fs = append(fs, &Finding{Where: fmt.Sprintf("autoload/vimlparser.vim:%d: %s", vf.Line, n), Msg: "new or changed, and without counterpart in Go"})
				}
			}
			// tables
			dc, dr := c.data()
			for _, t := range vimTables {
				vc, vr := cur.Vars[t.vim], ref.Vars[t.vim]
				gc, gr := find(dc, t.go_), find(dr, t.go_)
				if vr == nil || gr == nil {
					fs = append(fs, &Finding{Where: t.vim, Msg: "the reference does not have the table"})
					continue
				}
				n, d := sameTable(gr.Val, vr)
				st.Sites += n
				if d != "" {
					fs = append(fs, &Finding{Where: t.vim, Msg: "reference: " + d})
				}
				if vc == nil {
					fs = append(fs, &Finding{Where: t.vim, Msg: "the table is gone"})
					continue
				}
				if viml.SameExpr(vc, vr) {
					if gc == nil {
						continue // its uses are compared
					}
					var ds []rel.Diff
					rel.DiffData(gc.Val, gr.Val, "", &ds)
					if len(ds) == 0 {
						continue
					}
				}
				if gc == nil {
					fs = append(fs, &Finding{Where: t.vim, Msg: "the table has changed, and Go has none of this name"})
					continue
				}
				if _, d := sameTable(gc.Val, vc); d != "" {
					fs = append(fs, &Finding{Where: t.vim, Pos: gc.Pos, Msg: d})
				}
			}
			st.Samples = append(st.Samples, fmt.Sprintf("%d functions equal to their confirmed versions, %d compared anew", chain, fresh))
			return fs, st
		}}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func find(l []*rel.DataVar, n string) *rel.DataVar {
	for _, v := range l {
		if v.Name == n {
			return v
		}
	}
	return nil
}

// sameTable compares a list of commands with its Vim script version.
func sameTable(d *rel.Datum, x *viml.Expr) (n int, diff string) {
	if d.Kind == "alias" {
		d = d.Elems[0]
	}
	if d.Kind != "list" || x.Kind != "list" {
		return 0, "not a list"
	}
	for i, e := range x.L {
		if i >= len(d.Elems) {
			break
		}
		row := d.Elems[i]
		for (row.Kind == "ptr" || row.Kind == "alias") && len(row.Elems) == 1 {
			row = row.Elems[0]
		}
		m := map[string]string{}
		for j, k := range row.Keys {
			m[k] = row.Elems[j].Text
		}
		for j := 0; j+1 < len(e.L); j += 2 {
			k, v := e.L[j].S, e.L[j+1]
			want := strconv.Itoa(int(v.N))
			if v.Kind == "str" {
				want = v.S
			}
			got := m[k]
			if s, ok := unquote(got); ok {
				got = s
			}
			n++
			if got != want {
				return n, fmt.Sprintf("entry %d, %s: %q in Go, %q in Vim script", i, k, got, want)
			}
		}
	}
	if len(x.L) != len(d.Elems) {
		return n, fmt.Sprintf("%d entries in Go, %d in Vim script", len(d.Elems), len(x.L))
	}
	return n, ""
}
