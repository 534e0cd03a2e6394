// Package check decides the properties.
package check

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif/lint"
	"verif/load"
	"verif/mach"
	"verif/rel"
	"verif/viml"
)

// Ctx is what the checks share.
type Ctx struct {
	Root, Ref string        // the tree under analysis, the frozen reference
	Tree      *load.Program // with the names of the reference, see load.Align
	Raw       *load.Program // as it stands
	RefProg   *load.Program
	Err       error // the tree cannot be analysed

	eq      *Equiv
	lint    *lint.Prog
	refLint *lint.Prog

	dataCur, dataRef []*rel.DataVar
	initRuns         map[string]bool
}

// Finding is a violation.
type Finding struct {
	Rule  string // rule
	Where string // construct
	Pos   string
	Msg   string
	More  []string
}

func (f *Finding) Key() string { return f.Rule + " " + f.Where }

// Open loads both trees.
func Open(root, ref string) *Ctx {
	c := &Ctx{Root: root, Ref: ref}
	c.Tree, c.Err = load.Load(root)
	if c.Err != nil {
		return c
	}
	c.RefProg, c.Err = load.Load(ref)
	c.Raw = c.Tree
	if c.Err == nil {
		c.Tree = c.Tree.Align(c.RefProg)
	}
	return c
}

// Equiv is the comparison of the tree with its reference.
type Equiv struct {
	G    *rel.GoGo
	Res  map[string]*rel.Verdict
	Gone []string // functions of the reference without counterpart
	New  []string
	Wall time.Duration
}

// Equiv compares all functions; the result is kept.
func (c *Ctx) Equiv() *Equiv {
	if c.eq != nil {
		return c.eq
	}
	t0 := time.Now()
	g := rel.NewGoGo(c.Tree, c.RefProg)
	e := Decide(g)
	e.Wall = time.Since(t0)
	c.eq = e
	return e
}

// Decide compares all pairs of functions.
func Decide(g *rel.GoGo) *Equiv {
	e := &Equiv{G: g, Res: map[string]*rel.Verdict{}}
	e.Gone, e.New = g.Unpaired()
	for _, n := range g.Pairs {
		e.Res[n] = g.Decide(n)
	}
	e.demote()
	return e
}

// Failing lists the pairs that differ.
func (e *Equiv) Failing() []string {
	var out []string
	for _, n := range e.G.Pairs {
		if e.Res[n].How == rel.Differs {
			out = append(out, n)
		}
	}
	return out
}

// demote looks at pairs that differ where only their callers can tell. If all
// callers agree with both versions expanded, the difference is internal.
func (e *Equiv) demote() {
	for round := 0; round < 3; round++ {
		fail := e.Failing()
		if len(fail) == 0 || len(fail) > 12 {
			return
		}
		progress := false
		for _, n := range fail {
			if !e.G.CanInline(n) {
				continue
			}
			callers := e.G.Callers(n)
			if len(callers) == 0 || len(callers) > 40 {
				continue
			}
			e.G.Demote(n, true)
			ok := true
			res := map[string]*rel.Verdict{}
			for _, m := range callers {
				same, p := e.G.CheckDemoted(m)
				if !same {
					ok = false
					break
				}
				res[m] = &rel.Verdict{How: rel.ByExpand, P: p, Proof: p.Cut == 0}
			}
			if !ok {
				e.G.Demote(n, false)
				continue
			}
			proof := true
			for m, p := range res {
				e.Res[m] = p
				proof = proof && p.Proof
			}
			e.Res[n] = &rel.Verdict{How: rel.ByCallers, P: &mach.Product{Paths: e.Res[n].P.Paths}, Proof: proof}
			progress = true
		}
		if !progress {
			return
		}
	}
}

// VimFile is the Vim script parser of the tree.
func (c *Ctx) VimFile(root string) (*viml.File, error) {
	return viml.ParseFile(filepath.Join(root, "autoload", "vimlparser.vim"))
}

// kinds of divergences
const (
	kAny    = "any"
	kPos    = "pos"
	kErr    = "err"
	kPosErr = "poserr"
)

var posField = map[string]bool{"pos": true, "Offset": true, "Line": true, "Column": true, "offset": true, "lnum": true, "col": true, "i": true,
	"Start": true, "Quote": true, "Excmd": true, "Func": true, "EndFunc": true, "DelFunc": true, "Return": true, "ExCall": true, "Let": true, "UnLet": true,
	"LockVar": true, "UnLockVar": true, "If": true, "ElseIf": true, "Else": true, "EndIf": true, "While": true, "EndWhile": true, "For": true, "EndFor": true,
	"Continue": true, "Break": true, "Try": true, "Catch": true, "Finally": true, "EndTry": true, "Throw": true, "Eval": true, "EchoCmd": true, "Echohl": true, "Execute": true,
	"TernaryPos": true, "Condition": false, "OpPos": true, "Lbrack": true, "Rbrack": true, "Lparen": true, "Rparen": true, "Lcurlybrace": true, "Rcurlybrace": true, "Dot": true, "NamePos": true, "ValuePos": true, "CurlyName": true, "linepos": true, "cmdpos": true, "argpos": true, "LinePos": true, "CmdPos": true, "ArgPos": true}

// matches reports whether a divergence is of the kind.
func matches(d *mach.Divergence, kind string) bool {
	switch kind {
	case kAny:
		return true
	case kPos:
		if d.Raise || d.Kind == "error" {
			return false
		}
		for _, f := range d.Path() {
			if posField[f] {
				return true
			}
		}
		return false
	case kErr:
		return d.Raise || d.Kind == "error"
	}
	return false
}

func tooMany(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// finding makes a report of a divergence.
func (c *Ctx) finding(fn string, d *mach.Divergence) *Finding {
	f := &Finding{Rule: "equivalent-to-reference", Where: fn, Pos: d.Left, Msg: d.Detail}
	f.More = append(f.More, "kind: "+d.Kind, "here: "+d.Left, "reference: "+d.Right)
	if d.LT != nil {
		f.More = append(f.More, "value here: "+tooMany(d.LT.Full(), 1200))
	}
	if d.RT != nil {
		f.More = append(f.More, "value of the reference: "+tooMany(d.RT.Full(), 1200))
	}
	f.More = append(f.More, "on the path where:")
	for i, s := range d.Facts {
		if i > 60 {
			break
		}
		f.More = append(f.More, "  "+tooMany(s, 300))
	}
	return f
}

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func debugf(f string, a ...interface{}) {
	if os.Getenv("VP_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

var _ = strings.Join
