// Package load type-checks the packages of the repository under analysis and
// builds their SSA form. Standard library packages are imported from export
// data, so only the repository's own functions have bodies.
package load

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Package struct {
	Path  string
	Dir   string
	Types *types.Package
	Info  *types.Info
	Files []*ast.File
	SSA   *ssa.Package
}

type Program struct {
	Root     string
	Fset     *token.FileSet
	Module   string
	Packages []*Package // in dependency order
	ByPath   map[string]*Package
	SSA      *ssa.Program
	NFiles   int

	list *listing
}

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	Standard   bool
	GoFiles    []string
	CgoFiles   []string
	Imports    []string
	Module     *struct{ Path, GoVersion string }
	Error      *struct{ Err string }
}

// Load loads all packages of the module rooted at root.
func Load(root string) (*Program, error) {
	l, err := list(root)
	if err != nil {
		return nil, err
	}
	return l.load(nil)
}

type listing struct {
	root    string
	all     []*listPkg
	exports map[string]string
}

func list(root string) (*listing, error) {
	cmd := exec.Command("go", "list", "-mod=readonly", "-export", "-deps", "-json=ImportPath,Dir,Export,Standard,GoFiles,CgoFiles,Imports,Module,Error", "./...")
	cmd.Dir = root
	cmd.Env = append(os.Environ(), "GOFLAGS=", "CGO_ENABLED=0", "GOWORK=off")
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, stderr.String())
	}
	var all []*listPkg
	exports := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		if p.Error != nil {
			return nil, fmt.Errorf("%s: %s", p.ImportPath, p.Error.Err)
		}
		all = append(all, p)
		exports[p.ImportPath] = p.Export
	}
	return &listing{root, all, exports}, nil
}

// load builds the program; names replaces identifiers.
func (l *listing) load(names map[Place]string) (*Program, error) {
	exports := l.exports
	prog := &Program{Root: l.root, list: l, Fset: token.NewFileSet(), ByPath: map[string]*Package{}}
	gc := importer.ForCompiler(prog.Fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(f)
	})
	imp := importerFunc(func(path string) (*types.Package, error) {
		if p := prog.ByPath[path]; p != nil {
			return p.Types, nil
		}
		if path == "unsafe" {
			return types.Unsafe, nil
		}
		return gc.Import(path)
	})
	prog.SSA = ssa.NewProgram(prog.Fset, ssa.InstantiateGenerics)
	goVersion := ""
	for _, lp := range l.all { // go list -deps lists dependencies first
		if lp.Standard {
			continue
		}
		if lp.Module == nil {
			return nil, fmt.Errorf("package %s outside of a module", lp.ImportPath)
		}
		prog.Module = lp.Module.Path
		if lp.Module.GoVersion != "" {
			goVersion = "go" + lp.Module.GoVersion
		}
		if len(lp.CgoFiles) > 0 {
			return nil, fmt.Errorf("package %s uses cgo", lp.ImportPath)
		}
		p := &Package{Path: lp.ImportPath, Dir: lp.Dir}
		sort.Strings(lp.GoFiles)
		for _, f := range lp.GoFiles {
			af, err := parser.ParseFile(prog.Fset, filepath.Join(lp.Dir, f), nil, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			if names != nil {
				ast.Inspect(af, func(n ast.Node) bool {
					if id, ok := n.(*ast.Ident); ok {
						if s := names[prog.place(id)]; s != "" {
							id.Name = s
						}
					}
					return true
				})
			}
			p.Files = append(p.Files, af)
			prog.NFiles++
		}
		p.Info = &types.Info{
			Types:        map[ast.Expr]types.TypeAndValue{},
			Defs:         map[*ast.Ident]types.Object{},
			Uses:         map[*ast.Ident]types.Object{},
			Implicits:    map[ast.Node]types.Object{},
			Selections:   map[*ast.SelectorExpr]*types.Selection{},
			Scopes:       map[ast.Node]*types.Scope{},
			Instances:    map[*ast.Ident]types.Instance{},
			FileVersions: map[*ast.File]string{},
		}
		conf := types.Config{Importer: imp, GoVersion: goVersion, Sizes: types.SizesFor("gc", "amd64")}
		tp, err := conf.Check(lp.ImportPath, prog.Fset, p.Files, p.Info)
		if err != nil {
			return nil, err
		}
		p.Types = tp
		prog.Packages = append(prog.Packages, p)
		prog.ByPath[p.Path] = p
	}
	// SSA packages for imported std packages (no bodies), then ours.
	seen := map[*types.Package]bool{}
	var create func(tp *types.Package)
	create = func(tp *types.Package) {
		if seen[tp] {
			return
		}
		seen[tp] = true
		for _, i := range tp.Imports() {
			create(i)
		}
		if prog.ByPath[tp.Path()] == nil {
			prog.SSA.CreatePackage(tp, nil, nil, true)
		}
	}
	for _, p := range prog.Packages {
		create(p.Types)
	}
	for _, p := range prog.Packages {
		p.SSA = prog.SSA.CreatePackage(p.Types, p.Files, p.Info, true)
	}
	for _, p := range prog.Packages {
		p.SSA.Build()
	}
	return prog, nil
}

type importerFunc func(path string) (*types.Package, error)

func (f importerFunc) Import(path string) (*types.Package, error) { return f(path) }

// Pkg returns the package at the module-relative path rel ("" is the root).
func (p *Program) Pkg(rel string) *Package {
	path := p.Module
	if rel != "" {
		path += "/" + rel
	}
	return p.ByPath[path]
}

// Pos formats a position relative to the repository.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.Root, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// InRepo reports whether fn belongs to the repository.
func (p *Program) InRepo(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return p.ByPath[f.Pkg.Pkg.Path()] != nil
		}
		if o := f.Origin(); o != nil && o != f {
			return p.InRepo(o)
		}
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return p.ByPath[fn.Object().Pkg().Path()] != nil
	}
	return false
}
