"""Edits that break one of the rules of tool/lint: (rule/name, [(file, old, new)...])."""
V = "go/vimlparser.go"
T = "go/type.go"
F = "go/vimlfunc.go"
X = "go/export.go"
C = "compiler/compiler.go"
R = "vimlparser.go"
W = "ast/walk.go"
P = "printer/printer.go"
E_ALL = []

def e(name, *subs):
    E_ALL.append((name, list(subs)))

e("package-state/cmd-flags", (V, '''	self.find_command_cache[name] = cmd
	return cmd''', '''	self.find_command_cache[name] = cmd
	if cmd != nil && self.neovim {
		cmd.flags += "|NVIM"
	}
	return cmd'''))
e("package-state/cmd-flags-ea", (V, '''	if viml_eqregh(self.ea.cmd.flags, "\\\\<ARGOPT\\\\>") {''', '''	if self.ea.forceit {
		self.ea.cmd.flags += "|BANG"
	}
	if viml_eqregh(self.ea.cmd.flags, "\\\\<ARGOPT\\\\>") {'''))
e("package-state/register-user-command", (V, '''		return &Cmd{name: name, flags: "USERCMD", parser: "parse_cmd_usercmd"}
''', '''		cmd = &Cmd{name: name, flags: "USERCMD", parser: "parse_cmd_usercmd"}
		builtin_commands = append(builtin_commands, cmd)
		return cmd
'''))
e("package-state/global-cache", (V, '''func (self *VimLParser) find_command() *Cmd {''', '''var cmdCache = map[string]*Cmd{}

func (self *VimLParser) find_command() *Cmd {'''), (V, '''	self.find_command_cache[name] = cmd
''', '''	self.find_command_cache[name] = cmd
	cmdCache[name] = cmd
'''))
e("package-state/lazy-patterns", (F, '''	panic("NotImplemented viml_eqregh")''', '''	r, err := regexp.Compile(reg)
	if err == nil {
		patVim2GoRegh[reg] = r
		return r.MatchString(s)
	}
	panic("NotImplemented viml_eqregh")'''))
e("package-state/counter", (X, '''func newAstNode(n *VimNode, filename string) ast.Node {''', '''var converted int

func newAstNode(n *VimNode, filename string) ast.Node {
	converted++'''))
e("package-state/sort-table", (V, '''	var cmd *Cmd = nil
	for _, x := range builtin_commands {''', '''	var cmd *Cmd = nil
	if self.neovim {
		sortCmds(builtin_commands)
	}
	for _, x := range builtin_commands {'''), (F, '''type vimlList interface{}''', '''func sortCmds(l []*Cmd) {
	for i := range l {
		for j := i; j > 0 && l[j].name < l[j-1].name; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

type vimlList interface{}'''))
e("package-state/sort-std", (V, '''	var cmd *Cmd = nil
	for _, x := range builtin_commands {''', '''	var cmd *Cmd = nil
	if self.neovim {
		sortCmds(builtin_commands)
	}
	for _, x := range builtin_commands {'''), (F, '''type vimlList interface{}''', '''func sortCmds(l []*Cmd) {
	sort.Slice(l, func(i, j int) bool { return l[i].name < l[j].name })
}

type vimlList interface{}'''), (F, '''	"regexp"
''', '''	"regexp"
	"sort"
'''))
e("package-state/shared-reader-buffer", (T, '''func NewStringReader(lines []string) *StringReader {''', '''var lastReader StringReader

func NewStringReader(lines []string) *StringReader {
	lastReader.buf = lastReader.buf[:0]'''))
e("package-state/pool", (F, '''type vimlList interface{}''', '''var bufs sync.Pool

func getbuf() interface{} { return bufs.Get() }

type vimlList interface{}'''), (F, '''	"regexp"
''', '''	"regexp"
	"sync"
'''), (V, '''	var cmd *Cmd = nil
	for _, x := range builtin_commands {''', '''	var cmd *Cmd = nil
	getbuf()
	for _, x := range builtin_commands {'''))

e("deterministic/map-range-argopt", (X, """	return list
}

func newValues""", """	for k := range map[string]int{"a": 1, filename: 2} {
		if k == filename {
			break
		}
		list = append(list, nil)
	}
	return list
}

func newValues"""))
e("deterministic/range-cache", (V, """	var cmd *Cmd = nil
	for _, x := range builtin_commands {""", """	var cmd *Cmd = nil
	for k, x := range self.find_command_cache {
		if viml_stridx(k, name) == 0 {
			return x
		}
	}
	for _, x := range builtin_commands {"""))
e("deterministic/env", (R, """	neovim := false
	if opt""", """	neovim := os.Getenv("VIMLPARSER_NVIM") != ""
	if opt"""), (R, """import (
""", """import (
	"os"
"""))
e("deterministic/goroutine", (X, """	return newAstNode(p.parse(reader), filename)""", """	c := make(chan ast.Node)
	go func() { c <- newAstNode(p.parse(reader), filename) }()
	return <-c"""))
e("deterministic/time", (V, """	var cmd *Cmd = nil
	for _, x := range builtin_commands {""", """	var cmd *Cmd = nil
	if slow() {
		return nil
	}
	for _, x := range builtin_commands {"""), (F, """type vimlList interface{}""", """func slow() bool { return time.Now().Unix() < 0 }

type vimlList interface{}"""), (F, """	"regexp"
""", """	"regexp"
	"time"
"""))
e("read-only-tree/compile-unparen", (C, """func (c *Compiler) compileReturn(node *ast.Return) {""", """func (c *Compiler) compileReturn(node *ast.Return) {
	if p, ok := node.Result.(*ast.ParenExpr); ok {
		node.Result = p.X
	}"""))
e("read-only-tree/walk-default", (W, """	case *Return:
		Walk(v, n.Result)""", """	case *Return:
		if n.Result == nil {
			n.Result = &BasicLit{Value: "0"}
		}
		Walk(v, n.Result)"""))
e("read-only-tree/walk-compact", (W, """	for _, x := range list {
		Walk(v, x)
	}
}

func walkExprList""", """	for i, x := range list {
		Walk(v, x)
		list[i] = x
	}
}

func walkExprList"""))
e("read-only-tree/conv-ea", (X, """func newExArg(ea ExArg, filename string) ast.ExArg {""", """func newExArg(ea ExArg, filename string) ast.ExArg {
	ea.cmd.flags = ""
"""))
e("read-only-tree/conv-body", (X, """	for _, node := range n.body {""", """	for i, node := range n.body {
		n.body[i] = nil"""))
e("read-only-tree/conv-append", (X, """	for _, node := range n.rlist {""", """	n.rlist = append(n.rlist[:0], n.rlist...)
	for _, node := range n.rlist {"""))
e("read-only-tree/compiler-rlist", (V, """func (self *Compiler) compile_call(node *VimNode) string {""", """func (self *Compiler) compile_call(node *VimNode) string {
	if len(node.rlist) > 1 {
		node.rlist[0].depth = 1
	}"""))
e("own-tree/no-range", (X, """		Range:      ea.range_,""", """		Range:      rangeOf(ea),"""), (X, """func newCmd(""", """var noRange = make([]interface{}, 0, 4)

func rangeOf(ea ExArg) []interface{} {
	if len(ea.range_) == 0 {
		return noRange
	}
	return ea.range_
}

func newCmd("""))
e("own-tree/public-cmd", (X, """	if c == nil {
		return nil
	}
	return &ast.Cmd{""", """	if c == nil {
		return nil
	}
	if p := publicCmd[c.name]; p != nil {
		return p
	}
	return &ast.Cmd{"""), (X, """func newCmd(""", """var publicCmd = map[string]*ast.Cmd{}

func init() {
	for _, c := range builtin_commands {
		publicCmd[c.name] = &ast.Cmd{Name: c.name, Minlen: c.minlen, Flags: c.flags, Parser: c.parser}
	}
}

func newCmd("""))
e("own-tree/zero-pos", (X, """func newPos(p *pos, filename string) *ast.Pos {""", """var zeroPos = &ast.Pos{}

func newPos(p *pos, filename string) *ast.Pos {
	if p != nil && p.i == 0 && filename == "" && p.lnum == 0 {
		return zeroPos
	}"""))
e("progress/nonwhite-stale", (V, """		r += self.getn(1)
		ch = self.peekn(1)
""", """		r += self.getn(1)
"""))
e("progress/pattern-eol", (V, """		var c = self.reader.getn(1)
		if c == "" {
			break
		}
		if c == delimiter""", """		var c = self.reader.getn(1)
		if c == delimiter"""))
e("progress/append-eof", (V, """	var m = "."
	for true {
		if self.reader.peek() == "<EOF>" {
			break
		}
""", """	var m = "."
	for true {
"""))
e("progress/append-no-get", (V, """		if line == m {
			break
		}
		self.reader.get()
	}
	var node = Node(NODE_EXCMD)
	node.pos = self.ea.cmdpos
	node.ea = self.ea
	node.str = viml_join(lines, "\\n")
	self.add_node(node)
}

func (self *VimLParser) parse_cmd_insert() {""", """		if line == m {
			break
		}
	}
	var node = Node(NODE_EXCMD)
	node.pos = self.ea.cmdpos
	node.ea = self.ea
	node.str = viml_join(lines, "\\n")
	self.add_node(node)
}

func (self *VimLParser) parse_cmd_insert() {"""))
e("progress/sstring-eof", (V, """		if c == "<EOF>" || c == "<EOL>" {
			panic(Err("unexpected EOL", self.reader.getpos()))""", """		if c == "<EOL>" {
			panic(Err("unexpected EOL", self.reader.getpos()))"""))
e("progress/dstring-peek", (V, """			self.reader.seek_cur(1)
			s += c
			c = self.reader.p(0)""", """			s += c
			c = self.reader.p(0)"""), (V, """				panic(Err("ExprTokenizer: unexpected EOL", self.reader.getpos()))
			}
			self.reader.seek_cur(1)
""", """				panic(Err("ExprTokenizer: unexpected EOL", self.reader.getpos()))
			}
"""))
e("progress/skip-white", (V, """	for iswhite(self.peekn(1)) {
		self.seek_cur(1)
	}""", """	for iswhite(self.peekn(1)) {
		self.seek_cur(0)
	}"""))
e("progress/range-comma", (V, """		} else if self.reader.peekn(1) == "," {
			tokens = append(tokens, self.reader.getn(1))
			continue""", """		} else if self.reader.peekn(1) == "," {
			tokens = append(tokens, self.reader.peekn(1))
			continue"""))
e("progress/blob-dot", (V, """			r += self.getn(1)
		} else if viml_eqregh(s, "^[0-9A-Fa-f][^0""", """			r += self.peekn(1)
		} else if viml_eqregh(s, "^[0-9A-Fa-f][^0"""))
e("progress/echohl-eof", (V, """	return c == "" || c == "|" || c == "\\"" || c == "<EOF>" || c == "<EOL>\"""", """	return c == "" || c == "|" || c == "\\"" || c == "<EOL>\""""))
e("progress/expr2-seek", (V, """		if token.type_ == TOKEN_OROR {
			var node = Node(NODE_OR)
			node.pos = token.pos
			node.left = left
			node.right = self.parse_expr3()
			left = node
		} else {
			self.reader.seek_set(pos)
			break
		}""", """		if token.type_ == TOKEN_OROR {
			var node = Node(NODE_OR)
			node.pos = token.pos
			node.left = left
			node.right = self.parse_expr3()
			left = node
		} else {
			self.reader.seek_set(pos)
			if token.type_ != TOKEN_EOF {
				break
			}
		}"""))
e("progress/modifier-empty", (V, """		if viml_stridx("aboveleft", k) == 0 && len(k) >= 3 {""", """		if viml_stridx("aboveleft", k) == 0 && len(k) != 1 {"""))
e("progress/heredoc-key", (V, """		if key == "" {
			break
		}
		if !islower(key[:1]) {""", """		if key != "" && !islower(key[:1]) {"""))
e("descent/neg-self", (V, """		node.left = self.parse_expr7()
		return node
	} else if token.type_ == TOKEN_PLUS {""", """		self.reader.seek_set(pos)
		node.left = self.parse_expr7()
		return node
	} else if token.type_ == TOKEN_PLUS {"""))
e("descent/walk-self", (W, """	case *ParenExpr:
		Walk(v, n.X)""", """	case *ParenExpr:
		Walk(v, n)"""))
e("descent/convert-self", (X, """			Lparen: pos,
			X:      newExprNode(n, filename),
		}
""", """			Lparen: pos,
			X:      newExprNode(m, filename),
		}
"""), (X, """		n := n.value.(*VimNode)
		return &ast.ParenExpr{""", """		m := n
		return &ast.ParenExpr{"""))
e("descent/compile-self", (C, """	case *ast.ParenExpr:
		return c.compileExpr(n.X)""", """	case *ast.ParenExpr:
		return c.compileExpr(n)"""))
