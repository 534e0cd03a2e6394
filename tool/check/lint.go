package check

import (
	"sort"

	"verif/lint"
	"verif/rel"
)

// lintRule runs a rule of package lint on the current tree.
func lintRule(name string, min int) Rule {
	for _, r := range lint.Rules {
		if r.Name != name {
			continue
		}
		r := r
		return Rule{Name: name, Desc: r.Desc, Run: func(c *Ctx) ([]*Finding, *Stats) {
			if c.lint == nil {
				c.lint = lint.New(c.Tree)
			}
			var fs []*Finding
			gs, n, samples := r.Run(c.lint)
			if r.Ref {
				if c.refLint == nil {
					c.refLint = lint.New(c.RefProg)
				}
				ref, _, _ := r.Run(c.refLint)
				gs = lint.Beyond(gs, ref)
			}
			if r.Ref {
				gs = c.UnlikeRef(gs)
			}
			sort.SliceStable(gs, func(i, j int) bool { return gs[i].Where < gs[j].Where })
			for _, f := range gs {
				fs = append(fs, &Finding{Where: f.Where, Pos: f.Pos, Msg: f.Msg})
			}
			sort.Strings(samples)
			if len(samples) > 8 {
				samples = samples[:8]
			}
			return fs, &Stats{Sites: n, Min: min, Samples: samples}
		}}
	}
	panic("no rule " + name)
}

// UnlikeRef leaves out findings in code that the comparison shows to do what
// the reference does, in which the rule has no such finding: there only the
// way the code is written keeps the rule from seeing that it holds. For the
// function itself that takes a proof, so that its loops end where those of the
// reference do; all that it calls must not be known to differ.
func (c *Ctx) UnlikeRef(gs []*lint.Finding) []*lint.Finding {
	var out []*lint.Finding
	for _, f := range gs {
		e := c.Equiv()
		own, all := e.G.Around(f.Where)
		ok := len(own) > 0
		for _, n := range own {
			if !e.Res[n].Proof {
				debugf("%s: %s is %s", f.Where, n, e.Res[n].How)
				ok = false
			}
		}
		for _, n := range all {
			if e.Res[n].How == rel.Differs {
				debugf("%s: %s differs", f.Where, n)
				ok = false
			}
		}
		if !ok {
			out = append(out, f)
		}
	}
	return out
}
