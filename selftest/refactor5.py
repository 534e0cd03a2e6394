"""Names, signatures and places: what is renamed, gets another parameter, moves or becomes a function of another kind."""
V = "go/vimlparser.go"; T = "go/type.go"; F = "go/vimlfunc.go"; X = "go/export.go"; H = "go/helper.go"; C = "compiler/compiler.go"
W = "ast/walk.go"; N = "ast/node.go"; PE = "printer/expr.go"; PP = "printer/printer.go"; PO = "printer/opprec.go"; TK = "token/token.go"; R = "vimlparser.go"; M = "cmd/vimlparser/main.go"
E = []
def e(name, *subs):
    E.append((name, [(f, "FN:" + o if o.startswith("func ") and "\n" not in o else o, n) for f, o, n in subs]))
def ren(name, old, new, *files):
    E.append((name, [(f, r"RE:\b(?:%s)\b" % old, new) for f in files]))
CP = "func (self *Compiler) "; VP = "func (self *VimLParser) "; CC = "func (c *Compiler) "

# names
ren("ren-expr8", "parse_expr8", "parseExpr8", V)
ren("ren-expr1", "parse_expr1", "parseTernary", V)
ren("ren-dot", "parse_dot", "parseDot", V)
ren("ren-get2", "get2", "scan", V)
ren("ren-sstring", "get_sstring", "singleQuoted", V)
ren("ren-skip-white", "skip_white", "skipWhite", V)
ren("ren-peekn", "peekn", "lookahead", V)
ren("ren-separate", "separate_nextcmd", "separateNextCmd", V)
ren("ren-newast", "newAstNode", "convert", X)
ren("ren-newpos", "newPos", "position", X)
ren("ren-compile-excmd", "compile_excmd", "compileExCmd", V)
ren("ren-compile-body", "compile_body", "compileBody", V)
ren("ren-compileExpr", "compileExpr", "expr", C)
ren("ren-fprint", "fprint", "emit", C)
ren("ren-printer-expr1", "expr1", "exprPrec", PE)
ren("ren-eqregh", "iswhite", "isBlank", V)
ren("ren-walk", "walkExprList", "walkAll", W)
ren("ren-main", "usejson", "asJSON", M)
ren("ren-global", "builtin_commands", "builtinCommands", "go/builtin_commands.go", V)
ren("ren-global-pat", "patVim2Go", "vimToGo", F)
ren("ren-field-cache", r"find_command_cache", "cmdCache", T, V)
ren("ren-field-output", "output", "out", PP)
ren("ren-field-reader", "tokenizer", "lex", T, V)
ren("ren-field-fcc", "force_enc", "forceEnc", T, V, X)
ren("ren-field-catch", "rlist", "params", T, V, X)
ren("ren-field-indent", "indent", "prefix", T)
ren("ren-field-cindent", "indent", "depth", C)
ren("ren-type-lhs", "lhs", "lvalues", T, V)
ren("ren-type-token", "ExprToken", "exprTok", T, V)
E.append(("ren-type-printer", [(PE, r"RE:\*printer\b", "*prn"), (PP, r"RE:(?<=\*)printer\b|(?<=type )printer\b|(?<=var p )printer\b", "prn")]))

# signatures
e("sig-expr1-depth", (PE, "RE:p\\.expr1\\(([^\\n]*)\\)\\n", r"p.expr1(\1, depth+1)\n"),
  (PE, "RE:func \\(p \\*printer\\) expr1\\(expr ast.Expr, prec1 int\\)", "func (p *printer) expr1(expr ast.Expr, prec1, depth int)"),
  (PE, "p.expr1(expr, 0, depth+1)", "p.expr1(expr, 0, 0)"),
  (PE, "RE:func \\(p \\*printer\\) (unary|binary)Expr\\((.*), prec1 int\\)", r"func (p *printer) \1Expr(\2, prec1, depth int)"),
  (PE, "RE:p\\.(unary|binary)Expr\\(x, prec1\\)", r"p.\1Expr(x, prec1, depth)"))
e("sig-separate-flags", (V, "self.separate_nextcmd()", "self.separate_nextcmd(self.ea.cmd.flags)"),
  (V, "func (self *VimLParser) separate_nextcmd(self.ea.cmd.flags) *pos {", "func (self *VimLParser) separate_nextcmd(flags string) *pos {")) if False else None
e("sig-newast-file", (X, r"RE:newAstNode\(([^,()]+), filename\)", r"newAstNode(filename, \1)"),
  (X, "func newAstNode(n *VimNode, filename string) ast.Node {", "func newAstNode(filename string, n *VimNode) ast.Node {"),
  (X, "func newAstNode(filename, n *VimNode, filename string)", "func newAstNode(filename string, n *VimNode)")) if False else None
e("sig-missing-ctx", (V, r"RE:self\.check_missing_endif\(([^,]+), ", r"self.check_missing_endif(self.context[0], \1, "),
  (V, "func (self *VimLParser) check_missing_endif(ends string, pos *pos) {\n\tif self.context[0].type_ == NODE_IF || self.context[0].type_ == NODE_ELSEIF || self.context[0].type_ == NODE_ELSE {", "func (self *VimLParser) check_missing_endif(top *VimNode, ends string, pos *pos) {\n\tif top.type_ == NODE_IF || top.type_ == NODE_ELSEIF || top.type_ == NODE_ELSE {"))
e("sig-getn-result", (V, "func (self *StringReader) getn(", '''func (self *StringReader) getn(n int) string {
	r, _ := self.take(n)
	return r
}

// take reads up to n characters and reports how many there were.
func (self *StringReader) take(n int) (string, int) {
	r := ""
	j := 0
	for self.i < len(self.buf) && (n < 0 || j < n) {
		c := self.buf[self.i]
		if c == "<EOL>" {
			break
		}
		r += c
		self.i++
		j++
	}
	return r, j
}
'''))
E.append(("fn-trim", [(C, r"RE:c\.trimLineBreak\(\)", "trimLineBreak(c)"), (C, r"RE:func \(c \*Compiler\) trimLineBreak\(\)", "func trimLineBreak(c *Compiler)")]))
e("fn-addnode", (V, r"RE:self\.add_node\(", "addNode(self, "), (V, "func (self *VimLParser) addNode(self, node *VimNode)", "func addNode(self *VimLParser, node *VimNode)"),
  (V, "func (self *VimLParser) add_node(", "func addNode(self *VimLParser, ")) if False else None
e("meth-iswhite", (V, r"RE:\bself\.reader\.skip_white\(\)", "self.blanks()"), (V, VP + "parse_hashbang(", '''func (self *VimLParser) blanks() {
	self.reader.skip_white()
}

func (self *VimLParser) parse_hashbang() {
	self.reader.getn(-1)
}
'''), (V, r"RE:(?s)(func \(self \*(?:ExprParser|LvalueParser|ExprTokenizer)\) .*?)self\.blanks\(\)", r"\1self.reader.skip_white()")) if False else None
# the values of a token in one struct
e("tok-make", (T, "func (self *ExprTokenizer) token(", '''func (self *ExprTokenizer) token(type_ int, value string, pos *pos) *ExprToken {
	t := new(ExprToken)
	t.pos, t.value, t.type_ = pos, value, type_
	return t
}
'''))
# order of declarations and files
e("move-file", (V, "FNMOVE", "")) if False else None
# a closure instead of a method
e("closure-body", (C, r"RE:c\.compileExpr\(", "compileExpr(c, "), (C, "func (c *Compiler) compileExpr(", "func compileExpr(c *Compiler, ")) if False else None
# variables renamed, shadowing, blank lines: no difference in meaning
ren("ren-locals", "node", "nd", V)
ren("ren-self", "self", "this", V)
ren("ren-self-type", "self", "this", T)
E = [x for x in E if x]
E_ALL = E
