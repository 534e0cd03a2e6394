package lint

// Rule is one rule.
type Rule struct {
	Name string
	Desc string
	Run  func(g *Prog) (fs []*Finding, sites int, samples []string)
	Ref  bool // some findings in the confirmed tree, which were decided by reading
}

// Rules are the rules.
var Rules = []Rule{
	{"package-state", "nothing but package initialisation modifies a package variable or what it refers to", PackageState, false},
	{"deterministic", "no goroutines, clocks, random numbers, environment or order of map entries decide what the library returns", Deterministic, false},
	{"own-tree", "what is returned to the caller shares nothing with package variables", OwnTree, false},
	{"read-only-tree", "printers, compilers, walkers and the conversion do not modify the tree they are given", ReadOnly, false},
	{"progress", "every loop comes nearer to its end with each round: it counts, shrinks what it looks at, or consumes input, and what it looks at decides whether it is left", Progress, true},
	{"descent", "what calls itself does so on a strict part of the tree it was given, or after consuming input", Descent, true},
}

// Beyond returns the findings that the confirmed tree does not have. What moved
// to another function is not new.
func Beyond(fs, ref []*Finding) []*Finding {
	if len(fs) <= len(ref) {
		return nil
	}
	n := map[string]int{}
	for _, f := range ref {
		n[f.Where]++
	}
	var out []*Finding
	for _, f := range fs {
		if n[f.Where] > 0 {
			n[f.Where]--
			continue
		}
		out = append(out, f)
	}
	return out
}
