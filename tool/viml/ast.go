// Package viml parses the subset of Vim script in which the reference
// implementation autoload/vimlparser.vim is written, and lowers it to control
// flow graphs. It shares no code with the repository under analysis.
package viml

type Expr struct {
	Kind string // str num var list dict bin un idx slice dot call cond opt
	S    string // string value, operator, name
	N    int64
	X    *Expr
	Y    *Expr
	Z    *Expr
	L    []*Expr // elements, arguments; dict: k, v, k, v, ...
}

type Stmt struct {
	Kind string // let letlist call return if while for break continue throw unlet
	Line int
	L    *Expr   // lvalue
	LL   []*Expr // list lvalues
	Op   string
	X    *Expr
	Body []*Stmt
	Else []*Stmt
}

type Func struct {
	Name     string // e.g. "s:isalpha" or "s:VimLParser.parse"
	Class    string // "VimLParser" or ""
	Short    string // "parse"
	Params   []string
	Variadic bool
	Line     int
	Body     []*Stmt
	Err      error // not in the subset
}

type File struct {
	Name  string
	Funcs map[string]*Func // by "Class.short" or "short"
	Order []*Func
	Vars  map[string]*Expr // script level: "s:NODE_X" or "s:VimLParser.builtin_commands"
	VarLn map[string]int
}
