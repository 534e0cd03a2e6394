V = "go/vimlparser.go"; T = "go/type.go"; F = "go/vimlfunc.go"; X = "go/export.go"
C = "compiler/compiler.go"; R = "vimlparser.go"; M = "cmd/vimlparser/main.go"; W = "ast/walk.go"; N = "ast/node.go"
SEEDS = []
def seed(id, property, needs, breaks, subs, **kw):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, subs=subs, **kw))
def vim(*xs): return [("vim", x) for x in xs]
def ex(*xs): return [("expr", x) for x in xs]

seed("leftabove-min", "C03", "the abbreviation 'left' of the command :left", "the command :left is taken for the modifier :leftabove",
 [(V, 'viml_stridx("leftabove", k) == 0 && len(k) >= 5', 'viml_stridx("leftabove", k) == 0 && len(k) >= 4')], cases=vim("left 5\n", "lefta split\n"))
seed("usercmd-cache", "C11", "two user commands whose names agree up to a digit, used one after the other", "the second user command is given the descriptor of the first",
 [(V, '''		name += self.reader.read_alnum()
		return &Cmd{name: name, flags: "USERCMD", parser: "parse_cmd_usercmd"}
	}
	self.find_command_cache[name] = cmd
''', '''		var key = name
		name += self.reader.read_alnum()
		cmd = &Cmd{name: name, flags: "USERCMD", parser: "parse_cmd_usercmd"}
		if len(name) > len(key) {
			return cmd
		}
	}
	self.find_command_cache[name] = cmd
''')], cases=vim("Foo a\nFoo1 b\n", "Foo1 b\nFoo2 c\nFoo x\nFoo3 1\n"))
seed("endtry-open", "C06", "a function that ends inside a :finally or :catch part", "an unclosed :try whose last part is :finally is accepted and leaks the handler",
 [(V, 'if self.context[0].type_ == NODE_TRY || self.context[0].type_ == NODE_CATCH || self.context[0].type_ == NODE_FINALLY {\n		panic(Err(viml_printf("E600', 'if self.context[0].type_ == NODE_TRY || self.context[0].type_ == NODE_CATCH {\n		panic(Err(viml_printf("E600')],
 cases=vim("try\nfinally\n", "try\ncatch\nfinally\necho 1\n"))
seed("args-limit", "C10", "a call with exactly 20 arguments", "the largest allowed argument list is refused",
 [(V, "if len(rlist) > MAX_FUNC_ARGS {", "if len(rlist) >= MAX_FUNC_ARGS {")], cases=ex("f(" + ",".join(str(i) for i in range(20)) + ")"))
seed("float-exponent", "C02", "a float followed by e, a sign and no digit", "the sign is swallowed by the number",
 [(V, '(isdigit(r.p(1)) || ((r.p(1) == "-" || r.p(1) == "+") && isdigit(r.p(2))))', '(isdigit(r.p(1)) || r.p(1) == "-" || r.p(1) == "+")')], cases=vim("echo 1.5e-x\n", "echo 1.5e-3\n"))
seed("ctrlv-blank", "C04", "a blank quoted with CTRL-V followed by a trailing blank", "the quoted blank is lost from the command text",
 [(V, '''			self.reader.get()
			end = self.reader.getpos()
			nospend = self.reader.getpos()
			c = self.reader.peek()''', '''			self.reader.get()
			end = self.reader.getpos()
			c = self.reader.peek()''')], cases=vim("edit a\x16\n", "edit a \x16\nedit b\n"))
seed("method-pos", "C09", "a method call whose target spans several characters", "the position of a method call is that of its target's first argument list",
 [(V, '''			right.rlist = self.parse_rlist()
			var node = Node(NODE_METHOD)
			node.pos = token.pos
''', '''			right.rlist = self.parse_rlist()
			var node = Node(NODE_METHOD)
			node.pos = left.pos
''')], cases=vim("echo abc->foo(1)\n"))
seed("force-enc", "C14", "an ++enc argument", "the encoding argument is dropped from the public tree in favour of the file format",
 [(X, "ForceEnc:   ea.force_enc,", "ForceEnc:   ea.force_ff,")], cases=vim("edit ++enc=utf-8 ++ff=dos x\n"))
seed("slice-high", "C16", "a slice without a lower bound", "the upper bound of such a slice is not visited",
 [(W, '''		Walk(v, n.Low)
		Walk(v, n.High)''', '''		if n.Low != nil {
			Walk(v, n.Low)
			Walk(v, n.High)
		}''')], main='''package main

import (
	"fmt"
	"strings"

	vimlparser "github.com/vim-jp/go-vimlparser"
	"github.com/vim-jp/go-vimlparser/ast"
)

func main() {
	for _, s := range []string{"a[1:2]", "a[:b]", "a[:]", "a[f(1):]"} {
		n, err := vimlparser.ParseExpr(strings.NewReader(s))
		if err != nil {
			panic(err)
		}
		ast.Inspect(n, func(x ast.Node) bool {
			if x == nil {
				fmt.Println("up")
			} else {
				fmt.Printf("%T %v\\n", x, x.Pos())
			}
			return true
		})
	}
}
''')
seed("right-assoc", "C18", "a hand made tree with a lower operator on the right", "parentheses around the right operand are left out",
 [("printer/expr.go", "p.expr1(x.Right, prec+1)", "p.expr1(x.Right, prec)")], main='''package main

import (
	"fmt"
	"os"

	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/printer"
	"github.com/vim-jp/go-vimlparser/token"
)

func main() {
	id := func(s string) ast.Expr { return &ast.Ident{Name: s} }
	for _, op := range []token.Token{token.MINUS, token.OROR, token.STAR} {
		e := &ast.BinaryExpr{Left: id("a"), Op: token.MINUS, Right: &ast.BinaryExpr{Left: id("b"), Op: op, Right: id("c")}}
		fmt.Println(printer.Fprint(os.Stdout, e, nil))
	}
}
''')
seed("compile-default-varargs", "C19", "a function with default arguments and a rest parameter", "default values are attached to the wrong parameters",
 [(C, "if i < len(params)-len(node.DefaultArgs) {", "if i+1 < len(node.Params)-len(node.DefaultArgs) {")], cases=vim("function F(a, b = 1, ...)\nendfunction\n", "function F(a, b = 1)\nendfunction\n"))
CLI = '''s=$1
cd "$s" || exit 1
printf 'echo 1\\n' > good.vim
printf 'if 1\\n' > bad.vim
for a in "good.vim bad.vim" "bad.vim good.vim" "none.vim good.vim" "good.vim none.vim" "-json good.vim" "-neovim bad.vim"; do
	./vimlparser $a > o 2> e
	echo "$a: $?"
	cat o
	head -1 e
done
'''
seed("exit-code", "C21", "a bad file before a good one", "the failure of an earlier file is forgotten and the exit status is success",
 [(M, '''		if err := parseFile(f.Name(), f, os.Stdout, opt, *usejson); err != nil {
			fmt.Fprintln(os.Stderr, err)
			exitCode = 1
		}''', '''		exitCode = 0
		if err := parseFile(f.Name(), f, os.Stdout, opt, *usejson); err != nil {
			fmt.Fprintln(os.Stderr, err)
			exitCode = 1
		}''')], cli=CLI)
seed("equalci-fold", "C13", "a letter outside ASCII that folds to an ASCII letter", "<SID> is recognised when written with a long s",
 [(F, "strings.ToLower(a) == strings.ToLower(b)", "strings.EqualFold(a, b)")], cases=vim("call <\u017fID>foo()\n", "call <sid>foo()\n"))
seed("enc-empty", "C12", "++enc= with nothing after it", "an empty encoding is accepted",
 [(F, '"^++enc=\\\\S":                      "^\\\\+\\\\+enc=\\\\S"', '"^++enc=\\\\S":                      "^\\\\+\\\\+enc="')], cases=vim("edit ++enc= x\n", "edit ++enc=l x\n"))
seed("peekn-eol", "C08", "reading backwards from an end of line", "a read that stops at a line end eats it",
 [(V, '''func (self *StringReader) readline() string {
	var r = self.getn(-1)
	self.get()
	return r''', '''func (self *StringReader) readline() string {
	var r = self.getn(-1)
	for self.peek() == "<EOL>" {
		self.get()
	}
	return r''')], cases=vim("loadkeymap\na b\n\n\nc d\n"))
seed("expr-error-col", "C22", "an error in an expression behind the first column", "line and column of the error are exchanged",
 [(R, '''				err = &ErrVimlParser{
					Offset: e.Offset,
					Line:   e.Line,
					Column: e.Column,''', '''				err = &ErrVimlParser{
					Offset: e.Offset,
					Line:   e.Column,
					Column: e.Line,''')], cases=ex("a + )", "1"))
seed("heredoc-eof", "C07", "a here document whose marker is missing", "text up to the end of the input is swallowed silently",
 [(V, '''		var line = self.reader.getn(-1)
		if line == node.op {
			return node
		}''', '''		var line = self.reader.getn(-1)
		if line == node.op || line != "" && viml_stridx(node.op, line) == 0 && len(line) > 2 {
			return node
		}''')], cases=vim("let a =<< ENDING\nx\nEND\ny\nENDING\n", "let a =<< END\nx\nEND\n"))
seed("const-rest", "C05", "a constant destructuring with a rest variable", "the rest variable is lost",
 [(V, '''	node.op = s1
	node.left = lhs.left
	node.list = lhs.list
	node.rest = lhs.rest
''', '''	node.op = s1
	node.left = lhs.left
	node.list = lhs.list
	if lhs.left != nil {
		node.rest = lhs.rest
	}
''')], cases=vim("const [a, b; c] = x\n"))
seed("elseif-pos", "C15", "the position accessor of :elseif", "the accessor gives the position of the condition instead of the command",
 [(N, "func (f *ElseIf) Pos() Pos { return f.ElseIf }", "func (f *ElseIf) Pos() Pos {\n	if f.Condition != nil {\n		return f.Condition.Pos()\n	}\n	return f.ElseIf\n}")], main='''package main

import (
	"fmt"
	"strings"

	vimlparser "github.com/vim-jp/go-vimlparser"
	"github.com/vim-jp/go-vimlparser/ast"
)

func main() {
	n, err := vimlparser.ParseFile(strings.NewReader("if a\\nelseif b\\nelse\\nendif\\n"), "", nil)
	if err != nil {
		panic(err)
	}
	ast.Inspect(n, func(x ast.Node) bool {
		if x != nil {
			fmt.Printf("%T %v\\n", x, x.Pos())
		}
		return true
	})
}
''')
seed("nomatch-cs", "C17", "the operator !~#", "two operators print alike",
 [("token/token.go", 'NOMATCHCS:  "!~#"', 'NOMATCHCS:  "!~?"')], main='''package main

import (
	"fmt"

	"github.com/vim-jp/go-vimlparser/token"
)

func main() {
	for i := -1; i < 130; i++ {
		fmt.Println(i, token.Token(i).String())
	}
}
''')
seed("slice-colon-lv", "C01", "an assignment to a slice without a lower bound", "the upper bound of such a target is stored as the lower one",
 [(V, '''			var node = Node(-1)
			if self.tokenizer.peek().type_ == TOKEN_COLON {
				self.tokenizer.get()
				node = Node(NODE_SLICE)
				node.pos = npos
				node.left = left
				node.rlist = []*VimNode{nil, nil}
				token = self.tokenizer.peek()
				if token.type_ != TOKEN_SQCLOSE {
					node.rlist[1] = self.parse_expr1()''', '''			var node = Node(-1)
			if self.tokenizer.peek().type_ == TOKEN_COLON {
				self.tokenizer.get()
				node = Node(NODE_SLICE)
				node.pos = npos
				node.left = left
				node.rlist = []*VimNode{nil, nil}
				token = self.tokenizer.peek()
				if token.type_ != TOKEN_SQCLOSE {
					node.rlist[0] = self.parse_expr1()''')], cases=vim("let a[:2] = b\n", "let a[1:2] = b\n"))
INTERNAL = '''package vimlparser

func DemoCompile(lines []string) (out []string, err interface{}) {
	defer func() { err = recover() }()
	n := NewVimLParser(false).parse(NewStringReader(lines))
	out = NewCompiler().compile(n).([]string)
	return
}
'''
IMAIN = '''package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"

	"github.com/vim-jp/go-vimlparser/go"
)

func main() {
	data, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	for _, l := range strings.Split(strings.TrimSpace(string(data)), "\\n") {
		src, err := strconv.Unquote(l[4:])
		if err != nil {
			panic(err)
		}
		out, e := vimlparser.DemoCompile(strings.Split(src, "\\n"))
		fmt.Printf("%q %v\\n", out, e)
	}
}
'''
seed("raw-slice-nil", "C20", "a slice with a literal zero as its lower bound", "the bound zero of a slice is written as missing by the reference compiler",
 [(V, '''		if node.rlist[0] == nil {
			return "nil"''', '''		if node.rlist[0] == nil || node.rlist[0].value == "0" {
			return "nil"''')], internal=INTERNAL, main=IMAIN, cases=vim("echo a[1:]", "echo a[0:2]"))

seed("unlock-depth", "C05", "a depth of more than one digit after :unlockvar", "only the first digit of the depth is read and the rest is taken for a target",
 [(V, """	var node = Node(NODE_UNLOCKVAR)
	node.pos = self.ea.cmdpos
	node.ea = self.ea
	node.depth = 0
	node.list = []*VimNode{}
	self.reader.skip_white()
	if isdigit(self.reader.peekn(1)) {
		node.depth = viml_str2nr(self.reader.read_digit(), 10)""", """	var node = Node(NODE_UNLOCKVAR)
	node.pos = self.ea.cmdpos
	node.ea = self.ea
	node.depth = 0
	node.list = []*VimNode{}
	self.reader.skip_white()
	if isdigit(self.reader.peekn(1)) {
		node.depth = viml_str2nr(self.reader.getn(1), 10)""")], cases=vim("unlockvar 2 a\n", "unlockvar 10 a b\n"))
seed("last-token", "C17", "the spelling of the last token kind", "the last kind prints as a number",
 [("token/token.go", "tok < Token(len(tokens))", "tok < Token(len(tokens)-1)")], main=[s for s in SEEDS if s["id"] == "nomatch-cs"][0]["main"])
seed("trim-blanks", "C19", "a comment that ends in blanks as the last statement of a block", "the blanks at the end of the comment are lost",
 [(C, 'bytes.TrimRight(c.buffer.Bytes(), "\\n")', 'bytes.TrimRight(c.buffer.Bytes(), " \\n")')], cases=vim("if 1\n\"a  \nendif\n", "while 1\necho 1\nendwhile\n"))
seed("late-read-error", "C22", "a reader that fails after some lines", "the tree of the part that could be read is returned without an error",
 [(R, """	lines, err := readlines(r)
	if err != nil {
		return nil, err
	}
	reader := internal.NewStringReader(lines)
	neovim := false
""", """	lines, err := readlines(r)
	if err != nil && len(lines) == 0 {
		return nil, err
	}
	reader := internal.NewStringReader(lines)
	err = nil
	neovim := false
""")], main="""package main

import (
	"errors"
	"fmt"
	"io"
	"strings"

	vimlparser "github.com/vim-jp/go-vimlparser"
)

type fail struct{}

func (fail) Read([]byte) (int, error) { return 0, errors.New("disk on fire") }

func main() {
	for _, s := range []string{"", "echo 1\\n", "echo 1\\necho 2"} {
		f, err := vimlparser.ParseFile(io.MultiReader(strings.NewReader(s), fail{}), "f", nil)
		fmt.Println(f == nil, err)
	}
}
""")
seed("shared-cache", "C23", "two parses of different dialects in one process", "a command found in one dialect is also found in the next parse",
 [(T, """type VimLParser struct {""", """var commandCache = make(map[string]*Cmd)

type VimLParser struct {"""), (T, "obj.find_command_cache = make(map[string]*Cmd)", "obj.find_command_cache = commandCache")],
 cases=[("vim", "tnoremap a b\n"), ("neovim", "tnoremap a b\n"), ("vim", "rshada\n"), ("neovim", "rshada\n"), ("neovim", "smile\n"), ("vim", "smile\n")])
seed("drop-rest", "C24", "a function with a rest parameter that is compiled", "compiling removes the rest parameter from the tree",
 [(C, """	params := node.Params
""", """	params := node.Params[:]
"""), (C, """		params = params[:len(params)-1]
		remaining = true
""", """		node.Params = params[:len(params)-1]
		params = node.Params
		remaining = true
""")], main="""package main

import (
	"fmt"
	"os"
	"strings"

	vimlparser "github.com/vim-jp/go-vimlparser"
	"github.com/vim-jp/go-vimlparser/compiler"
)

func main() {
	f, err := vimlparser.ParseFile(strings.NewReader("function F(a, ...)\\nendfunction\\n"), "f", nil)
	fmt.Println(err)
	fmt.Println(compiler.Compile(os.Stdout, f))
	fmt.Println(compiler.Compile(os.Stdout, f))
}
""")
seed("last-pattern", "C25", "the address \\& of a range", "the Go parser refuses the address of the last used pattern",
 [(V, 'if m == "&" || m == "?" || m == "/" {', 'if m == "?" || m == "/" {')], cases=vim("1,\\/d\n", "1,\\&d\n"))
seed("open-pattern", "C26", "a pattern whose line ends inside of it", "the end of the line is read again and again",
 [(V, """		var c = self.reader.getn(1)
		if c == "" {
			break
		}
		if c == delimiter && inbracket == 0 {""", """		var c = self.reader.getn(1)
		if c == "" && inbracket == 0 {
			break
		}
		if c == delimiter && inbracket == 0 {""")], cases=vim("try\ncatch /[a]/\nendtry\n", "try\ncatch /[a/\nendtry\n"))
