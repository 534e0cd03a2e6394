package check

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"verif/rel"
)

// Area is a set of functions and the kind of differences that count.
type Area struct {
	Fns  string // regular expression on function names
	Kind string
}

// Rule is a check of its own on the program. It returns its findings and what
// it looked at.
type Rule struct {
	Name string
	Desc string
	Run  func(c *Ctx) ([]*Finding, *Stats)
}

// Stats counts what a rule looked at.
type Stats struct {
	Sites   int
	Min     int // fewer sites mean that the rule does not see the code
	Samples []string
}

func (s *Stats) add(f string, a ...interface{}) {
	s.Sites++
	if len(s.Samples) < 6 {
		s.Samples = append(s.Samples, fmt.Sprintf(f, a...))
	}
}

// Prop is a property.
type Prop struct {
	ID      string
	Areas   []Area
	MinFns  int // fewer functions in the areas: not believed
	Rules   []Rule
	Assumes []string
}

type known struct {
	prop, key, text string
}

func readKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		// finding: property=ID key="..." text
		m := regexp.MustCompile(`^finding: property=(\S+) key="([^"]*)" (.*)$`).FindStringSubmatch(l)
		if m != nil {
			out = append(out, known{m[1], m[2], m[3]})
		}
	}
	return out
}

type decided struct {
	Function string `json:"function"`
	How      string `json:"how"`
}

// Run decides the property id and returns the exit status.
func Run(c *Ctx, id, verif, tier string, t0 time.Time) int {
	var p *Prop
	for _, q := range Props {
		if q.ID == id {
			p = q
		}
	}
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %s\n", id)
		return 2
	}
	var fs []*Finding
	cov := map[string]interface{}{}
	level := "other"
	if c.Err != nil {
		fs = append(fs, &Finding{Rule: "analysable", Where: "repository", Msg: "the repository cannot be loaded and type-checked: " + c.Err.Error()})
		cov["explanation"] = "the tree under analysis does not load"
	} else {
		if len(p.Areas) > 0 {
			level = "translation_validation"
			fs = append(fs, c.runAreas(p, cov)...)
		}
		var expl []string
		rules := map[string]interface{}{}
		for _, r := range p.Rules {
			g, st := r.Run(c)
			if st.Sites < st.Min {
				g = append(g, &Finding{Rule: r.Name, Where: "instances", Msg: fmt.Sprintf("the rule found %d instances, fewer than the %d it has at least: it does not see the code", st.Sites, st.Min)})
			}
			for _, f := range g {
				if f.Rule == "" {
					f.Rule = r.Name
				}
			}
			fs = append(fs, g...)
			key := r.Name
			for i := 2; rules[key] != nil; i++ {
				key = fmt.Sprintf("%s %d", r.Name, i)
			}
			rules[key] = map[string]interface{}{"rule": r.Desc, "instances": st.Sites, "floor": st.Min, "samples": st.Samples, "findings": len(g)}
			expl = append(expl, fmt.Sprintf("%s: %s (%d instances)", r.Name, r.Desc, st.Sites))
		}
		if len(rules) > 0 {
			cov["rules"] = rules
		}
		if level == "other" {
			cov["explanation"] = strings.Join(expl, "; ")
		}
		cov["packages"] = len(c.Tree.Packages)
		cov["files"] = c.Tree.NFiles
	}
	// known findings
	kn := readKnown(filepath.Join(verif, "known-findings.txt"))
	var bad []*Finding
	for _, f := range fs {
		hit := false
		for _, k := range kn {
			if k.prop == id && k.key == f.Key() {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
				hit = true
				break
			}
		}
		if !hit {
			bad = append(bad, f)
		}
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	assumes := append([]string{}, p.Assumes...)
	if len(p.Areas) > 0 {
		assumes = append(assumes, "the frozen reference is right (confirmed by reading, and against the Vim script source)", "functions without source behave as modelled", "fields of different names are different storage")
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": len(bad), "assumptions": assumes}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rp := filepath.Join(verif, "evidence", id+".violation.txt")
	if len(bad) == 0 {
		os.Remove(rp)
		fmt.Printf("property %s held on everything analysed (%.1fs)\n", id, time.Since(t0).Seconds())
		return 0
	}
	var w strings.Builder
	for _, f := range bad {
		fmt.Fprintf(&w, "%s: %s: %s\n  at %s\n", f.Rule, f.Where, f.Msg, f.Pos)
		for _, m := range f.More {
			fmt.Fprintf(&w, "    %s\n", m)
		}
		fmt.Fprintln(&w)
	}
	os.WriteFile(rp, []byte(w.String()), 0o644)
	for i, f := range bad {
		if i >= 5 {
			fmt.Printf("… %d more\n", len(bad)-i)
			break
		}
		fmt.Printf("%s: %s [%s]: %s\n", f.Pos, f.Where, f.Rule, tooMany(f.Msg, 400))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}

// runAreas decides the equivalence of the functions of the areas.
func (c *Ctx) runAreas(p *Prop, cov map[string]interface{}) []*Finding {
	e := c.Equiv()
	var fs []*Finding
	fns := map[string][]string{}
	gone := map[string]bool{}
	for _, a := range p.Areas {
		re := regexp.MustCompile("^(?:" + a.Fns + ")$")
		for _, n := range e.G.Pairs {
			if re.MatchString(n) {
				fns[n] = append(fns[n], a.Kind)
			}
		}
		for _, n := range e.Gone {
			if re.MatchString(n) {
				gone[n] = true
			}
		}
	}
	// a function of the reference that is gone is expanded in its callers;
	// one that nobody of the reference calls is part of the interface
	for n := range gone {
		if !e.G.CanInline(n) && len(e.G.Callers(n)) == 0 && token.IsExported(n[strings.LastIndexByte(n, '.')+1:]) {
			fs = append(fs, &Finding{Rule: "equivalent-to-reference", Where: n, Msg: "the function is gone or has another signature"})
		}
	}
	paths, branches, events, joins, divs, proved := 0, 0, 0, 0, 0, 0
	var samples []string
	how := map[string][]string{}
	for _, n := range sortedKeys(fns) {
		r := e.Res[n].P
		if h := e.Res[n].How; h != rel.ByJoin {
			how[h] = append(how[h], n)
		} else {
			proved++
		}
		if e.Res[n].How != rel.Differs {
			r.Divs = nil
		}
		paths += r.Paths
		branches += r.Branches
		events += r.Events
		joins += r.Joins
		if len(samples) < 8 && r.Paths > 1 {
			samples = append(samples, fmt.Sprintf("%s: %s", n, r.Summary()))
		}
	divs:
		for _, d := range r.Divs {
			for _, k := range fns[n] {
				if matches(d, k) {
					divs++
					fs = append(fs, c.finding(n, d))
					continue divs
				}
			}
		}
	}
	if len(samples) == 0 {
		for _, n := range sortedKeys(fns) {
			if len(samples) < 5 {
				samples = append(samples, fmt.Sprintf("%s: %s", n, e.Res[n].P.Summary()))
			}
		}
	}
	if n := len(fns) + len(gone); n < p.MinFns {
		fs = append(fs, &Finding{Rule: "equivalent-to-reference", Where: "functions", Msg: fmt.Sprintf("only %d of at least %d functions of the area were found", n, p.MinFns)})
	}
	cov["programs"] = len(fns)
	cov["disagreements_checked"] = paths + events + joins
	cov["samples"] = samples
	cov["functions"] = sortedKeys(fns)
	cov["paths"] = paths
	cov["branches"] = branches
	cov["calls"] = events
	cov["loop_joins"] = joins
	cov["differences"] = divs
	cov["proved_equal"] = proved
	cov["decided_otherwise"] = how
	cov["rule"] = "on every path of the product of the two control flow graphs both versions make the same raising calls, raise the same errors, return the same values and leave the same state (equality of value numbers, joins at loop heads to a fixed point)"
	return fs
}

// Safe is Run where a failure of the analysis is a violation.
func Safe(c *Ctx, id, verif, tier string, t0 time.Time) (st int) {
	defer func() {
		if r := recover(); r != nil {
			st = 1
			rp := filepath.Join(verif, "evidence", id+".violation.txt")
			os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
			os.WriteFile(rp, []byte(fmt.Sprintf("the analysis failed: %v\n%s", r, debug.Stack())), 0o644)
			ev := map[string]interface{}{"property": id, "tier": tier, "seed": 0, "level": "other", "coverage": map[string]interface{}{"explanation": fmt.Sprintf("the analysis failed: %v", r)}, "wall_s": time.Since(t0).Seconds(), "violations": 1}
			b, _ := json.MarshalIndent(ev, "", " ")
			os.WriteFile(filepath.Join(verif, "evidence", id+".json"), b, 0o644)
			fmt.Printf("the analysis failed: %v\nVIOLATION property=%s replay=%s\n", r, id, rp)
		}
	}()
	return Run(c, id, verif, tier, t0)
}
