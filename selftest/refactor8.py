"""Rewrites of the smaller packages and constructors that keep the behaviour."""
V = "go/vimlparser.go"
T = "go/type.go"
F = "go/vimlfunc.go"
X = "go/export.go"
C = "compiler/compiler.go"
P = "printer/printer.go"
Q = "printer/expr.go"
W = "ast/walk.go"
R = "vimlparser.go"
M = "cmd/vimlparser/main.go"
K = "token/token.go"
E_ALL = []

def e(name, *subs):
    E_ALL.append((name, list(subs)))

def fn(f, head, new):
    return (f, "FN:" + head, new.lstrip("\n"))

e("comp-op-tok", (C, '''		op := n.Op.String()
		if op == "." {
			op = "concat"
		}
''', '''		op := n.Op.String()
		if n.Op == token.DOT {
			op = "concat"
		}
'''))
e("comp-op-fn", (C, '''		op := n.Op.String()
		if op == "." {
			op = "concat"
		}
		return fmt.Sprintf("(%s %s %s)", op, l, r)
''', '''		return fmt.Sprintf("(%s %s %s)", opName(n.Op), l, r)
'''), (C, '''func escape(''', '''func opName(op token.Token) string {
	switch op {
	case token.DOT:
		return "concat"
	default:
		return op.String()
	}
}

func escape('''))
e("comp-unary-string", (C, '''		return fmt.Sprintf("(%s %s)", n.Op, c.compileExpr(n.X))''', '''		x := c.compileExpr(n.X)
		return "(" + n.Op.String() + " " + x + ")"'''))
e("comp-heredoc-quote", (C, '''		var flags string
		if len(n.Flags) == 0 {
			flags = "(list)"
		} else {
			xs := make([]string, len(n.Flags))
			for i, f := range n.Flags {
				xs[i] = `"` + c.compileExpr(f) + `"`
			}
			flags = fmt.Sprintf("(list %s)", strings.Join(xs, " "))
		}
''', '''		flags := "(list"
		for _, f := range n.Flags {
			flags += ` "` + c.compileExpr(f) + `"`
		}
		flags += ")"
'''))
e("comp-call-args", (C, '''			return fmt.Sprintf("(%s %s)", name, strings.Join(args, " "))
		}
		return fmt.Sprintf("(%s)", name)
''', '''			name += " " + strings.Join(args, " ")
		}
		return "(" + name + ")"
'''))
e("comp-method-args", (C, '''		args := make([]string, 0, len(n.Args)+1)
		args = append(args, c.compileExpr(n.Method))
		for _, a := range n.Args {
			args = append(args, c.compileExpr(a))
		}
		return fmt.Sprintf("(method %s (%s))", name, strings.Join(args, " "))
''', '''		call := c.compileExpr(n.Method)
		for _, a := range n.Args {
			call = call + " " + c.compileExpr(a)
		}
		return fmt.Sprintf("(method %s (%s))", name, call)
'''))
e("comp-function-idx", (C, '''	for i, p := range params {
		if i < len(params)-len(node.DefaultArgs) {
			ps = append(ps, p.Name)
		} else {
			ps = append(ps, fmt.Sprintf("(%s %s)", p.Name,
				c.compileExpr(node.DefaultArgs[i+len(node.DefaultArgs)-len(params)])))
		}
	}
''', '''	required := len(params) - len(node.DefaultArgs)
	for i, p := range params {
		s := p.Name
		if i >= required {
			s = fmt.Sprintf("(%s %s)", s, c.compileExpr(node.DefaultArgs[i-required]))
		}
		ps = append(ps, s)
	}
'''))
e("comp-escape-map", fn(C, "func escape(", '''
func escape(s string, chars string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(chars, s[i]) < 0 {
			b.WriteByte(s[i])
			continue
		}
		b.WriteByte('\\\\')
		switch s[i] {
		case '\\n':
			b.WriteByte('n')
		case '\\t':
			b.WriteByte('t')
		case '\\r':
			b.WriteByte('r')
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}
'''))
e("printer-write-direct", fn(P, "func Fprint(", '''
func Fprint(output io.Writer, node ast.Node, cfg *Config) error {
	p := new(printer)
	p.init(cfg)
	err := p.printNode(node)
	if err == nil {
		_, err = output.Write(p.output)
	}
	return err
}
'''))
e("printer-parens-helper", fn(Q, "func (p *printer) binaryExpr(", '''
func (p *printer) parens(x ast.Expr) {
	p.token(token.POPEN)
	p.expr(x)
	p.token(token.PCLOSE)
}

func (p *printer) binaryExpr(x *ast.BinaryExpr, prec1 int) {
	prec := opprec(x)
	if prec1 > prec {
		p.parens(x)
		return
	}
	p.expr1(x.Left, prec)
	p.op(x.Op)
	p.expr1(x.Right, prec+1)
}

func (p *printer) op(t token.Token) {
	p.printWhite(blank)
	p.token(t)
	p.printWhite(blank)
}
'''), fn(Q, "func (p *printer) unaryExpr(", '''
func (p *printer) unaryExpr(x *ast.UnaryExpr, prec1 int) {
	if prec := opprec(x); prec >= prec1 {
		p.token(x.Op)
		p.expr1(x.X, prec)
	} else {
		p.parens(x)
	}
}
'''))
e("printer-bytes", fn(P, "func (p *printer) printWhite(", '''
func (p *printer) printWhite(x whiteSpace) {
	p.writeString(string(rune(x)))
}
'''))
e("root-convert-err", fn(R, "func readlines(", '''
func readlines(r io.Reader) ([]string, error) {
	scanner := bufio.NewScanner(r)
	scanner.Buffer(nil, math.MaxInt32) // Vim script has no limit on line length
	lines := make([]string, 0)
	for {
		if !scanner.Scan() {
			return lines, scanner.Err()
		}
		lines = append(lines, scanner.Text())
	}
}
'''), fn(R, "func (e *ErrVimlParser) Error(", '''
func (e *ErrVimlParser) Error() string {
	if e.Filename == "" {
		return fmt.Sprintf("vimlparser: %s: line %d col %d", e.Msg, e.Line, e.Column)
	}
	return fmt.Sprintf("%s:%d:%d: vimlparser: %s", e.Filename, e.Line, e.Column, e.Msg)
}
'''))
e("root-recover-fn", (R, '''			if e, ok := r.(*internal.ParseError); ok {
				err = &ErrVimlParser{
					Filename: filename,
					Offset:   e.Offset,
					Line:     e.Line,
					Column:   e.Column,
					Msg:      e.Msg,
				}
			} else {
				err = fmt.Errorf("%v", r)
			}
''', '''			err = recovered(r, filename)
'''), (R, '''			if e, ok := r.(*internal.ParseError); ok {
				err = &ErrVimlParser{
					Offset: e.Offset,
					Line:   e.Line,
					Column: e.Column,
					Msg:    e.Msg,
				}
			} else {
				err = fmt.Errorf("%v", r)
			}
''', '''			err = recovered(r, "")
'''), (R, '''func readlines(''', '''func recovered(r interface{}, filename string) error {
	switch e := r.(type) {
	case *internal.ParseError:
		pe := new(ErrVimlParser)
		pe.Filename = filename
		pe.Offset, pe.Line, pe.Column = e.Offset, e.Line, e.Column
		pe.Msg = e.Msg
		return pe
	}
	return fmt.Errorf("%v", r)
}

func readlines('''))
e("main-status", fn(M, "func main(", '''
func main() {
	flag.Parse()
	os.Exit(run(flag.Args()))
}

func run(files []string) int {
	opt := &vimlparser.ParseOption{Neovim: *neovim}
	if len(files) == 0 {
		return status(parseFile("", os.Stdin, os.Stdout, opt, *usejson))
	}
	code := 0
	for i := range files {
		f, err := os.Open(files[i])
		if err != nil {
			code = status(err)
			if i == 0 {
				flag.Usage()
			}
			continue
		}
		if status(parseFile(f.Name(), f, os.Stdout, opt, *usejson)) != 0 {
			code = 1
		}
	}
	return code
}

func status(err error) int {
	if err == nil {
		return 0
	}
	fmt.Fprintln(os.Stderr, err)
	return 1
}
'''))
e("main-output", fn(M, "func parseFile(", '''
func parseFile(filename string, r io.ReadCloser, w io.Writer, opt *vimlparser.ParseOption, usejson bool) error {
	defer r.Close()
	node, err := vimlparser.ParseFile(r, filename, opt)
	if err == nil {
		err = output(w, node, usejson)
	}
	return err
}

func output(w io.Writer, node *ast.File, usejson bool) error {
	if !usejson {
		c := &compiler.Compiler{Config: compiler.Config{Indent: "  "}}
		return c.Compile(w, node)
	}
	e := json.NewEncoder(w)
	e.SetIndent("", "    ")
	return e.Encode(node)
}
'''), (M, '''	"github.com/vim-jp/go-vimlparser"
''', '''	"github.com/vim-jp/go-vimlparser"
	"github.com/vim-jp/go-vimlparser/ast"
'''))
e("token-string-early", fn(K, "func (tok Token) String(", '''
func (tok Token) String() string {
	if tok >= 0 && int(tok) < len(tokens) && tokens[tok] != "" {
		return tokens[tok]
	}
	return fmt.Sprintf("token(%d)", int(tok))
}
'''), (K, 'import "strconv"', 'import "fmt"'))
e("walk-nil-order", (W, '''	if node == nil {
		return
	}

	if v = v.Visit(node); v == nil {
		return
	}
''', '''	if node == nil {
		return
	}
	w := v.Visit(node)
	if w == nil {
		return
	}
	v = w
'''))
e("walk-inspect-fn", fn(W, "func (f inspector) Visit(", '''
func (f inspector) Visit(node Node) Visitor {
	if more := f(node); !more {
		return nil
	}
	return f
}
'''))
e("type-ctor-literals", fn(T, "func NewVimLParser(", '''
func NewVimLParser(neovim bool) *VimLParser {
	return &VimLParser{
		find_command_cache: map[string]*Cmd{},
		neovim:             neovim,
	}
}
'''), fn(T, "func NewExprTokenizer(", '''
func NewExprTokenizer(reader *StringReader) *ExprTokenizer {
	return &ExprTokenizer{reader: reader, cache: map[int][]interface{}{}}
}
'''), fn(T, "func Node(", '''
func Node(type_ int) *VimNode {
	if type_ != -1 {
		node := new(VimNode)
		node.type_ = type_
		node.attr = new(FuncAttr)
		return node
	}
	return nil
}
'''))
e("type-context", fn(T, "func (self *VimLParser) push_context(", '''
func (self *VimLParser) push_context(n *VimNode) {
	context := make([]*VimNode, 0, len(self.context)+1)
	context = append(context, n)
	self.context = append(context, self.context...)
}
'''), fn(T, "func (self *StringReader) getpos(", '''
func (self *StringReader) getpos() *pos {
	p := new(pos)
	*p = self.pos[self.i]
	p.i = self.i
	return p
}
'''))
e("type-out", fn(T, "func (self *Compiler) out(", '''
func (self *Compiler) out(f string, args ...interface{}) {
	line := f
	if len(args) > 0 {
		line = viml_printf(f, args...)
	} else if f[0] == ')' {
		self.lines[len(self.lines)-1] += f
		return
	}
	self.lines = append(self.lines, self.indent[0]+line)
}
'''))
e("fn-str2nr-early", fn(F, "func viml_str2nr(", '''
func viml_str2nr(s string, base int) int {
	r, err := strconv.ParseInt(s, base, 32)
	if err == nil {
		return int(r)
	}
	if e, ok := err.(*strconv.NumError); ok && e.Err == strconv.ErrRange {
		return int(r)
	}
	panic(fmt.Errorf("viml_str2nr: %v", err))
}
'''))
e("fn-split-index", fn(F, "func viml_split(", '''
func viml_split(s string, sep string) []string {
	if sep != `\\zs` {
		panic("NotImplemented viml_split")
	}
	ss := make([]string, 0, len(s))
	for i := 0; i < len(s); {
		// keep bytes which are not valid UTF-8 as they are
		_, w := utf8.DecodeRuneInString(s[i:])
		ss = append(ss, s[i:i+w])
		i += w
	}
	return ss
}
'''))
e("export-pos-nil", (X, '''	var pos ast.Pos
	if p := newPos(n.pos, filename); p != nil {
		pos = *p
	} else {
		pos = ast.Pos{Offset: 0, Line: 1, Column: 1, Filename: filename}
	}
''', '''	pos := ast.Pos{Filename: filename, Line: 1, Column: 1}
	if p := newPos(n.pos, filename); p != nil {
		pos = *p
	}
'''))
e("export-attr", (X, '''		attr := ast.FuncAttr{}
		if n.attr != nil {
			attr = ast.FuncAttr{
				Range:   n.attr.range_,
				Abort:   n.attr.abort,
				Dict:    n.attr.dict,
				Closure: n.attr.closure,
			}
		}
''', '''		attr := newFuncAttr(n.attr)
'''), (X, '''func newExArg(''', '''func newFuncAttr(a *FuncAttr) (attr ast.FuncAttr) {
	if a == nil {
		return
	}
	attr.Range = a.range_
	attr.Abort = a.abort
	attr.Dict = a.dict
	attr.Closure = a.closure
	return attr
}

func newExArg('''))
