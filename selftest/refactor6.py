"""Larger rewrites of functions with loops that keep the behaviour."""
V = "go/vimlparser.go"
T = "go/type.go"
F = "go/vimlfunc.go"
X = "go/export.go"
C = "compiler/compiler.go"
W = "ast/walk.go"
E_ALL = []

def e(name, *subs):
    E_ALL.append((name, list(subs)))

def fn(f, head, new):
    return (f, "FN:" + head, new.lstrip("\n"))

# --- walk
e("walk-lists-index", fn(W, "func walkIdentList(", '''
func walkIdentList(v Visitor, list []*Ident) {
	for i := 0; i < len(list); i++ {
		Walk(v, list[i])
	}
}
'''), fn(W, "func walkExprList(", '''
func walkExprList(v Visitor, list []Expr) {
	for len(list) > 0 {
		Walk(v, list[0])
		list = list[1:]
	}
}
'''), fn(W, "func walkStmtList(", '''
func walkStmtList(v Visitor, list []Statement) {
	n := len(list)
	for i := range list {
		if i < n {
			Walk(v, list[i])
		}
	}
}
'''))
e("walk-lists-nodes", fn(W, "func walkIdentList(", '''
func walkEach(v Visitor, n int, at func(int) Node) {
	for i := 0; i < n; i++ {
		Walk(v, at(i))
	}
}

func walkIdentList(v Visitor, list []*Ident) {
	walkEach(v, len(list), func(i int) Node { return list[i] })
}
'''), fn(W, "func walkExprList(", '''
func walkExprList(v Visitor, list []Expr) {
	walkEach(v, len(list), func(i int) Node { return list[i] })
}
'''), fn(W, "func walkStmtList(", '''
func walkStmtList(v Visitor, list []Statement) {
	walkEach(v, len(list), func(i int) Node { return list[i] })
}
'''))
# --- compiler
e("comp-exprs-helper", fn(C, "func (c *Compiler) compileUnlet(", '''
func (c *Compiler) exprs(list []ast.Expr) string {
	var b strings.Builder
	for i, n := range list {
		if i > 0 {
			b.WriteString(" ")
		}
		b.WriteString(c.compileExpr(n))
	}
	return b.String()
}

func (c *Compiler) compileUnlet(node *ast.UnLet) {
	c.fprintln("(%s %s)", node.Cmd().Name, c.exprs(node.List))
}
'''), fn(C, "func (c *Compiler) compileUnlockvar(", '''
func (c *Compiler) compileUnlockvar(node *ast.UnLockVar) {
	cmd := node.Cmd().Name
	list := c.exprs(node.List)
	if node.Depth <= 0 {
		c.fprintln("(%s %s)", cmd, list)
		return
	}
	c.fprintln("(%s %d %s)", cmd, node.Depth, list)
}
'''), fn(C, "func (c *Compiler) compileExecute(", '''
func (c *Compiler) compileExecute(node *ast.Execute) {
	c.fprintln("(%s %s)", node.Cmd().Name, c.exprs(node.Exprs))
}
'''))
e("comp-file-index", fn(C, "func (c *Compiler) compileFile(", '''
func (c *Compiler) compileFile(node *ast.File) error {
	var err error
	for i := 0; i < len(node.Body) && err == nil; i++ {
		err = c.compile(node.Body[i])
	}
	return err
}
'''))
e("comp-file-list", fn(C, "func (c *Compiler) compileFile(", '''
func (c *Compiler) compileFile(node *ast.File) error {
	return c.compile(node.Body)
}
'''))
e("comp-block", fn(C, "func (c *Compiler) compileIf(", '''
func (c *Compiler) block(body []ast.Statement) error {
	c.indent++
	err := c.compile(body)
	if err != nil {
		return err
	}
	c.indent--
	return nil
}

func (c *Compiler) closeParen() {
	c.trimLineBreak()
	c.writeString(")\\n")
}

func (c *Compiler) compileIf(node *ast.If) error {
	c.fprintln("(%s %s", node.Cmd().Name, c.compileExpr(node.Condition))
	if err := c.block(node.Body); err != nil {
		return err
	}
	for i := range node.ElseIf {
		e := node.ElseIf[i]
		c.fprintln(" %s %s", e.Cmd().Name, c.compileExpr(e.Condition))
		if err := c.block(e.Body); err != nil {
			return err
		}
	}
	if e := node.Else; e != nil {
		c.fprintln(" %s", e.Cmd().Name)
		if err := c.block(e.Body); err != nil {
			return err
		}
	}
	c.closeParen()
	return nil
}
'''))
e("comp-try", fn(C, "func (c *Compiler) compileTry(", '''
func (c *Compiler) compileTry(node *ast.Try) error {
	c.fprintln("(%s", node.Cmd().Name)
	c.indent++
	if err := c.compile(node.Body); err != nil {
		return err
	}
	for _, n := range node.Catch {
		c.indent--
		pat := ""
		if n.Pattern != "" {
			pat = " /" + n.Pattern + "/"
		}
		c.fprintln(" %s%s", n.Cmd().Name, pat)
		c.indent++
		if err := c.compile(n.Body); err != nil {
			return err
		}
	}
	if f := node.Finally; f != nil {
		c.indent--
		c.fprintln(" %s", f.Cmd().Name)
		c.indent++
		if err := c.compile(f.Body); err != nil {
			return err
		}
	}
	c.trimLineBreak()
	c.writeString(")\\n")
	c.indent--
	return nil
}
'''))
e("comp-lhs", fn(C, "func (c *Compiler) compileLet(", '''
func (c *Compiler) lhs(left ast.Expr, list []ast.Expr, rest ast.Expr) string {
	if left != nil {
		return c.compileExpr(left)
	}
	s := "("
	for i, n := range list {
		if i != 0 {
			s += " "
		}
		s += c.compileExpr(n)
	}
	if rest != nil {
		s += " . " + c.compileExpr(rest)
	}
	return s + ")"
}

func (c *Compiler) compileLet(node *ast.Let) {
	lhs := c.lhs(node.Left, node.List, node.Rest)
	c.fprintln("(%s %s %s %s)", node.Cmd().Name, node.Op, lhs, c.compileExpr(node.Right))
}
'''))
# --- conversion
e("export-append-nil", fn(X, "func newIdents(", '''
func newIdents(n VimNode, filename string) []*ast.Ident {
	if n.rlist == nil {
		return nil
	}
	idents := make([]*ast.Ident, 0, len(n.rlist))
	for i := 0; i < len(n.rlist); i++ {
		node := n.rlist[i]
		if node == nil { // conservative
			continue
		}
		ident := newAstNode(node, filename).(*ast.Ident)
		idents = append(idents, ident)
	}
	return idents
}
'''), fn(X, "func newExprs(", '''
func newExprs(xs []*VimNode, filename string) []ast.Expr {
	if xs == nil {
		return nil
	}
	list := []ast.Expr{}
	for _, x := range xs {
		if x == nil {
			continue
		}
		list = append(list, newExprNode(x, filename))
	}
	return list
}
'''))
e("export-values", fn(X, "func newValues(", '''
func newValues(n VimNode, filename string) []ast.Expr {
	items := n.value.([]interface{})
	if len(items) == 0 {
		return nil
	}
	values := make([]ast.Expr, 0, len(items))
	for i := range items {
		values = append(values, newExprNode(items[i].(*VimNode), filename))
	}
	return values
}
'''))
e("export-values-set", fn(X, "func newValues(", '''
func newValues(n VimNode, filename string) []ast.Expr {
	items := n.value.([]interface{})
	if len(items) == 0 {
		return nil
	}
	values := make([]ast.Expr, len(items))
	for i := range items {
		values[i] = newExprNode(items[i].(*VimNode), filename)
	}
	return values
}
'''))
# --- parser
e("echohl-parts", fn(V, "func (self *VimLParser) parse_cmd_echohl(", '''
func (self *VimLParser) parse_cmd_echohl() {
	var node = Node(NODE_ECHOHL)
	node.pos = self.ea.cmdpos
	node.ea = self.ea
	node.str = self.rest_of_cmd()
	self.add_node(node)
}

func (self *VimLParser) rest_of_cmd() string {
	var s = ""
	for {
		var c = self.reader.peek()
		if self.ends_excmds(c) {
			return s
		}
		s += c
		self.reader.get()
	}
}
'''))
e("echohl-getstr", fn(V, "func (self *VimLParser) parse_cmd_echohl(", '''
func (self *VimLParser) parse_cmd_echohl() {
	var node = Node(NODE_ECHOHL)
	node.pos = self.ea.cmdpos
	node.ea = self.ea
	var name = ""
	var c = self.reader.peek()
	for !self.ends_excmds(c) {
		name += self.reader.get()
		c = self.reader.peek()
	}
	node.str = name
	self.add_node(node)
}
'''))
e("exprlist-cond", fn(V, "func (self *VimLParser) parse_exprlist(", '''
func (self *VimLParser) parse_exprlist() []*VimNode {
	var list []*VimNode
	for self.more_exprs() {
		list = append(list, self.parse_expr())
	}
	return list
}

func (self *VimLParser) more_exprs() bool {
	self.reader.skip_white()
	switch c := self.reader.peek(); c {
	case "\\"":
		return true
	default:
		return !self.ends_excmds(c)
	}
}
'''))
e("lvaluelist-one", fn(V, "func (self *VimLParser) parse_lvaluelist(", '''
func (self *VimLParser) parse_lvaluelist() []*VimNode {
	var list = []*VimNode{self.parse_expr()}
	self.reader.skip_white()
	for !self.ends_excmds(self.reader.peek()) {
		list = append(list, self.parse_lvalue())
		self.reader.skip_white()
	}
	return list
}
'''))
e("lhs-merge", fn(V, "func (self *VimLParser) parse_letlhs(", '''
func (self *VimLParser) parse_letlhs() *lhs {
	return self.parse_lhs(self.parse_lvalue)
}

func (self *VimLParser) parse_lhs(single func() *VimNode) *lhs {
	var lhs = &lhs{}
	var tokenizer = NewExprTokenizer(self.reader)
	if tokenizer.peek().type_ != TOKEN_SQOPEN {
		lhs.left = single()
		return lhs
	}
	tokenizer.get()
	for {
		lhs.list = append(lhs.list, self.parse_lvalue())
		var token = tokenizer.get()
		if token.type_ == TOKEN_COMMA {
			continue
		}
		if token.type_ == TOKEN_SEMICOLON {
			lhs.rest = self.parse_lvalue()
			token = tokenizer.get()
		}
		if token.type_ != TOKEN_SQCLOSE {
			panic(Err(viml_printf("E475 Invalid argument: %s", token.value), token.pos))
		}
		return lhs
	}
}
'''), fn(V, "func (self *VimLParser) parse_constlhs(", '''
func (self *VimLParser) parse_constlhs() *lhs {
	return self.parse_lhs(self.parse_constlvalue)
}
'''))
e("append-shared", fn(V, "func (self *VimLParser) parse_cmd_append(", '''
func (self *VimLParser) parse_cmd_append() {
	self.reader.setpos(self.ea.linepos)
	var cmdline = self.reader.readline()
	var lines = self.read_until([]interface{}{cmdline}, ".")
	self.add_lines(lines)
}

func (self *VimLParser) add_lines(lines []interface{}) {
	var node = Node(NODE_EXCMD)
	node.pos = self.ea.cmdpos
	node.ea = self.ea
	node.str = viml_join(lines, "\\n")
	self.add_node(node)
}

func (self *VimLParser) read_until(lines []interface{}, m string) []interface{} {
	for self.reader.peek() != "<EOF>" {
		var line = self.reader.getn(-1)
		lines = append(lines, line)
		if line == m {
			return lines
		}
		self.reader.get()
	}
	return lines
}
'''), fn(V, "func (self *VimLParser) parse_cmd_lua(", '''
func (self *VimLParser) parse_cmd_lua() {
	self.reader.skip_white()
	if self.reader.peekn(2) != "<<" {
		self.reader.setpos(self.ea.linepos)
		self.add_lines([]interface{}{self.reader.getn(-1)})
		return
	}
	self.reader.getn(2)
	self.reader.skip_white()
	var m = self.reader.readline()
	if m == "" {
		m = "."
	}
	self.reader.setpos(self.ea.linepos)
	var cmdline = self.reader.getn(-1)
	self.reader.get()
	self.add_lines(self.read_until([]interface{}{cmdline}, m))
}
'''), fn(V, "func (self *VimLParser) parse_cmd_loadkeymap(", '''
func (self *VimLParser) parse_cmd_loadkeymap() {
	self.reader.setpos(self.ea.linepos)
	var lines = []interface{}{self.reader.readline()}
	for self.reader.peek() != "<EOF>" {
		lines = append(lines, self.reader.readline())
	}
	self.add_lines(lines)
}
'''))
e("append-string", fn(V, "func (self *VimLParser) parse_cmd_append(", '''
func (self *VimLParser) parse_cmd_append() {
	self.reader.setpos(self.ea.linepos)
	var text = self.reader.readline()
	for self.reader.peek() != "<EOF>" {
		var line = self.reader.getn(-1)
		text += "\\n" + line
		if line == "." {
			break
		}
		self.reader.get()
	}
	var node = Node(NODE_EXCMD)
	node.pos = self.ea.cmdpos
	node.ea = self.ea
	node.str = text
	self.add_node(node)
}
'''))
e("vimgrep-switch", fn(V, "func (self *VimLParser) skip_vimgrep_pat(", '''
func (self *VimLParser) skip_vimgrep_pat() {
	var first = self.reader.peekn(1)
	if first == "" {
		return
	}
	if isidc(first) {
		// :vimgrep pattern fname
		self.reader.read_nonwhite()
		return
	}
	// :vimgrep /pattern/[g][j] fname
	self.reader.getn(1)
	if _, endc := self.parse_pattern(first); endc != first {
		return
	}
	for {
		var c = self.reader.p(0)
		if c != "g" && c != "j" {
			break
		}
		self.reader.getn(1)
	}
}
'''))
e("heredoc-split", fn(V, "func (self *VimLParser) parse_heredoc(", '''
func (self *VimLParser) parse_heredoc() *VimNode {
	var node = Node(NODE_HEREDOC)
	node.pos = self.ea.cmdpos
	node.rlist, node.op = self.parse_heredoc_head()
	if node.op == "" {
		panic(Err("E172: Missing marker", self.reader.getpos()))
	}
	self.parse_trail()
	for self.reader.peek() != "<EOF>" {
		var pos = self.reader.getpos()
		var line = self.reader.getn(-1)
		if line == node.op {
			return node
		}
		node.body = append(node.body, stringNode(pos, line))
		self.reader.get()
	}
	panic(Err(viml_printf("E990: Missing end marker '%s'", node.op), self.reader.getpos()))
}

func stringNode(pos *pos, s string) *VimNode {
	var node = Node(NODE_STRING)
	node.pos = pos
	node.value = s
	return node
}

func (self *VimLParser) parse_heredoc_head() ([]*VimNode, string) {
	var list = []*VimNode{}
	for {
		self.reader.skip_white()
		var pos = self.reader.getpos()
		var key = self.reader.read_word()
		if key == "" || !islower(key[:1]) {
			return list, key
		}
		list = append(list, stringNode(pos, key))
	}
}
'''))
e("syntax-switch", fn(V, "func (self *VimLParser) parse_cmd_syntax(", '''
func (self *VimLParser) parse_cmd_syntax() {
	var end = self.reader.getpos()
	for c := self.reader.peek(); ; c = self.reader.peek() {
		var quoted = c == "/" || c == "'" || c == "\\""
		if !quoted && c != "=" && self.ends_excmds(c) {
			break
		}
		if quoted {
			self.reader.getn(1)
			self.parse_pattern(c)
		} else if c == "=" {
			self.reader.getn(1)
			self.parse_pattern(" ")
		}
		self.reader.getn(1)
		end = self.reader.getpos()
	}
	var node = Node(NODE_EXCMD)
	node.pos = self.ea.cmdpos
	node.ea = self.ea
	node.str = self.reader.getstr(self.ea.linepos, end)
	self.add_node(node)
}
'''))
e("dictkey-helper", fn(V, "func (self *ExprTokenizer) parse_dict_literal_key(", '''
func iskeyc(c string) bool {
	return c == "_" || c == "-" || isalnum(c)
}

func (self *ExprTokenizer) parse_dict_literal_key() *VimNode {
	self.reader.skip_white()
	var c = self.reader.peek()
	if !iskeyc(c) {
		panic(Err(viml_printf("unexpected character: %s", c), self.reader.getpos()))
	}
	var node = Node(NODE_STRING)
	node.pos = self.reader.getpos()
	var s = "'"
	for iskeyc(c) {
		s += c
		self.reader.seek_cur(1)
		c = self.reader.p(0)
		if c == "<EOF>" || c == "<EOL>" {
			panic(Err("unexpectd EOL", self.reader.getpos()))
		}
	}
	node.value = s + "'"
	return node
}
'''))
e("read-while", fn(V, "func (self *StringReader) read_alpha(", '''
func (self *StringReader) read_while(is func(string) bool) string {
	var r = ""
	for {
		if !is(self.peekn(1)) {
			return r
		}
		r += self.getn(1)
	}
}

func (self *StringReader) read_alpha() string {
	return self.read_while(isalpha)
}
'''), fn(V, "func (self *StringReader) read_alnum(", '''
func (self *StringReader) read_alnum() string {
	return self.read_while(isalnum)
}
'''), fn(V, "func (self *StringReader) read_digit(", '''
func (self *StringReader) read_digit() string {
	return self.read_while(isdigit)
}
'''), fn(V, "func (self *StringReader) read_odigit(", '''
func (self *StringReader) read_odigit() string {
	return self.read_while(isodigit)
}
'''), fn(V, "func (self *StringReader) read_bdigit(", '''
func (self *StringReader) read_bdigit() string {
	return self.read_while(func(c string) bool { return c == "0" || c == "1" })
}
'''), fn(V, "func (self *StringReader) read_nonwhite(", '''
func (self *StringReader) read_nonwhite() string {
	return self.read_while(func(c string) bool { return c != "" && !iswhite(c) })
}
'''), fn(V, "func (self *StringReader) read_name(", '''
func (self *StringReader) read_name() string {
	return self.read_while(isnamec)
}
'''), fn(V, "func (self *StringReader) read_xdigit(", '''
func (self *StringReader) read_xdigit() string {
	return self.read_while(isxdigit)
}
'''))
e("read-peeked", fn(V, "func (self *StringReader) read_odigit(", '''
func (self *StringReader) read_odigit() string {
	var r = ""
	var c = self.peekn(1)
	for isodigit(c) {
		self.getn(1)
		r += c
		c = self.peekn(1)
	}
	return r
}
'''), fn(V, "func (self *StringReader) read_name(", '''
func (self *StringReader) read_name() string {
	var b strings.Builder
	for c := self.peekn(1); isnamec(c); c = self.peekn(1) {
		b.WriteString(self.getn(1))
	}
	return b.String()
}
'''), (V, '''import (''', '''import (
	"strings"
''') if False else (V, "package vimlparser\n", "package vimlparser\n\nimport \"strings\"\n"))
e("blob-switch", fn(V, "func (self *StringReader) read_blob(", '''
func (self *StringReader) read_blob() string {
	var r = ""
	for {
		var s = self.peekn(2)
		var n = 0
		switch {
		case viml_eqregh(s, "^[0-9A-Fa-f][0-9A-Fa-f]$"):
			n = 2
		case viml_eqregh(s, "^\\\\.[0-9A-Fa-f]$"):
			n = 1
		case viml_eqregh(s, "^[0-9A-Fa-f][^0-9A-Fa-f]$"):
			panic(Err("E973: Blob literal should have an even number of hex characters:"+s, self.getpos()))
		}
		if n == 0 {
			return r
		}
		r += self.getn(n)
	}
}
'''))
e("pattern-escape", fn(V, "func (self *VimLParser) parse_pattern(", '''
func (self *VimLParser) parse_pattern(delimiter string) (string, string) {
	var pattern = ""
	var depth = 0
	for {
		var c = self.reader.getn(1)
		if c == "" {
			return pattern, ""
		}
		if depth == 0 && c == delimiter {
			return pattern, c
		}
		pattern += c
		switch c {
		case "\\\\":
			var next = self.reader.peekn(1)
			if next == "" {
				panic(Err("E682: Invalid search pattern or delimiter", self.reader.getpos()))
			}
			pattern += self.reader.getn(1)
		case "[":
			depth++
		case "]":
			depth--
		}
	}
}
'''))
e("range-split", fn(V, "func (self *VimLParser) parse_range(", '''
func (self *VimLParser) parse_range() {
	var tokens = []interface{}{}
	for {
		tokens = self.parse_addresses(tokens)
		var c = self.reader.peekn(1)
		if c == "%" || c == "*" {
			// && &cpoptions !~ '\\*'
			tokens = append(tokens, self.reader.getn(1))
			c = self.reader.peekn(1)
		}
		if c != ";" && c != "," {
			break
		}
		tokens = append(tokens, self.reader.getn(1))
	}
	self.ea.range_ = tokens
}

func (self *VimLParser) parse_addresses(tokens []interface{}) []interface{} {
	for {
		self.reader.skip_white()
		var c = self.reader.peekn(1)
		switch {
		case c == "":
			return tokens
		case c == "." || c == "$":
			tokens = append(tokens, self.reader.getn(1))
		case c == "'":
			self.reader.getn(1)
			var m = self.reader.getn(1)
			if m == "" {
				return tokens
			}
			tokens = append(tokens, "'"+m)
		case c == "/" || c == "?":
			self.reader.getn(1)
			var pattern, _ = self.parse_pattern(c)
			tokens = append(tokens, pattern)
		case c == "\\\\":
			var m = self.reader.p(1)
			if m != "&" && m != "?" && m != "/" {
				panic(Err("E10: \\\\\\\\ should be followed by /, ? or &", self.reader.getpos()))
			}
			self.reader.seek_cur(2)
			tokens = append(tokens, "\\\\"+m)
		case isdigit(c):
			tokens = append(tokens, self.reader.read_digit())
		}
		tokens = self.parse_offsets(tokens)
		if c = self.reader.p(0); c != "/" && c != "?" {
			return tokens
		}
	}
}

func (self *VimLParser) parse_offsets(tokens []interface{}) []interface{} {
	self.reader.skip_white()
	for self.reader.peekn(1) != "" {
		var n = self.reader.read_integer()
		if n == "" {
			break
		}
		tokens = append(tokens, n)
		self.reader.skip_white()
	}
	return tokens
}
'''))
# --- raw compiler
e("raw-all", fn(V, "func (self *Compiler) compile_unlet(", '''
func (self *Compiler) compile_all(nodes []*VimNode) []string {
	var ss []string
	for _, n := range nodes {
		ss = append(ss, self.compile(n).(string))
	}
	return ss
}

func (self *Compiler) compile_unlet(node *VimNode) {
	self.out("(unlet %s)", viml_join(self.compile_all(node.list), " "))
}
'''), fn(V, "func (self *Compiler) compile_lockvar(", '''
func (self *Compiler) compile_lockvar(node *VimNode) {
	self.lock("lockvar", node)
}

func (self *Compiler) lock(cmd string, node *VimNode) {
	var list = viml_join(self.compile_all(node.list), " ")
	if node.depth != 0 {
		self.out("(%s %d %s)", cmd, node.depth, list)
	} else {
		self.out("(%s %s)", cmd, list)
	}
}
'''), fn(V, "func (self *Compiler) compile_unlockvar(", '''
func (self *Compiler) compile_unlockvar(node *VimNode) {
	self.lock("unlockvar", node)
}
'''), fn(V, "func (self *Compiler) compile_echo(", '''
func (self *Compiler) compile_echo(node *VimNode) {
	self.exprs("echo", node)
}

func (self *Compiler) exprs(cmd string, node *VimNode) {
	self.out("(%s %s)", cmd, viml_join(self.compile_all(node.list), " "))
}
'''), fn(V, "func (self *Compiler) compile_echon(", '''
func (self *Compiler) compile_echon(node *VimNode) {
	self.exprs("echon", node)
}
'''), fn(V, "func (self *Compiler) compile_execute(", '''
func (self *Compiler) compile_execute(node *VimNode) {
	self.exprs("execute", node)
}
'''), fn(V, "func (self *Compiler) compile_call(", '''
func (self *Compiler) compile_call(node *VimNode) string {
	var args = self.compile_all(node.rlist)
	var left = self.compile(node.left).(string)
	if len(args) == 0 {
		return "(" + left + ")"
	}
	return "(" + left + " " + strings.Join(args, " ") + ")"
}
'''), (V, "package vimlparser\n", "package vimlparser\n\nimport \"strings\"\n"))
e("raw-let", fn(V, "func (self *Compiler) compile_let(", '''
func (self *Compiler) compile_let(node *VimNode) {
	var left = self.compile_targets(node)
	self.out("(let %s %s %s)", node.op, left, self.compile(node.right))
}

func (self *Compiler) compile_targets(node *VimNode) string {
	if node.left != nil {
		return self.compile(node.left).(string)
	}
	var s = "("
	for i, n := range node.list {
		if i > 0 {
			s += " "
		}
		s += self.compile(n).(string)
	}
	if node.rest != nil {
		s += " . " + self.compile(node.rest).(string)
	}
	return s + ")"
}
'''), fn(V, "func (self *Compiler) compile_const(", '''
func (self *Compiler) compile_const(node *VimNode) {
	var left = self.compile_targets(node)
	self.out("(const %s %s %s)", node.op, left, self.compile(node.right))
}
'''), fn(V, "func (self *Compiler) compile_for(", '''
func (self *Compiler) compile_for(node *VimNode) {
	self.out("(for %s %s", self.compile_targets(node), self.compile(node.right))
	self.incindent("  ")
	self.compile_body(node.body)
	self.out(")")
	self.decindent()
}
'''))
e("raw-blocks", fn(V, "func (self *Compiler) compile_if(", '''
func (self *Compiler) indented(body []*VimNode) {
	self.incindent("  ")
	self.compile_body(body)
	self.decindent()
}

func (self *Compiler) compile_if(node *VimNode) {
	self.out("(if %s", self.compile(node.cond))
	self.indented(node.body)
	for i := 0; i < len(node.elseif); i++ {
		var e = node.elseif[i]
		self.out(" elseif %s", self.compile(e.cond))
		self.indented(e.body)
	}
	if e := node.else_; e != nil {
		self.out(" else")
		self.indented(e.body)
	}
	self.incindent("  ")
	self.out(")")
	self.decindent()
}
'''), fn(V, "func (self *Compiler) compile_try(", '''
func (self *Compiler) part(head string, body []*VimNode) {
	self.decindent()
	self.out("%s", head)
	self.incindent("  ")
	self.compile_body(body)
}

func (self *Compiler) compile_try(node *VimNode) {
	self.out("(try")
	self.incindent("  ")
	self.compile_body(node.body)
	for _, c := range node.catch {
		if c.pattern == "" {
			self.part(" catch", c.body)
			continue
		}
		self.decindent()
		self.out(" catch /%s/", c.pattern)
		self.incindent("  ")
		self.compile_body(c.body)
	}
	if node.finally != nil {
		self.part(" finally", node.finally.body)
	}
	self.out(")")
	self.decindent()
}
'''))
e("raw-escape-switch", fn(V, "func (self *Compiler) escape_string(", '''
var stringEscapes = map[string]string{"\\n": "\\\\n", "\\t": "\\\\t", "\\r": "\\\\r"}

func (self *Compiler) escape_string(str string) string {
	var out = ""
	for _, c := range viml_split(str, "\\\\zs") {
		if s, ok := stringEscapes[c]; ok {
			out += s
		} else {
			out += c
		}
	}
	return "\\"" + out + "\\""
}
'''))
e("raw-escape-switch2", fn(V, "func (self *Compiler) escape_string(", '''
func (self *Compiler) escape_string(str string) string {
	var out = "\\""
	for _, c := range viml_split(str, "\\\\zs") {
		switch c {
		case "\\n":
			c = "\\\\n"
		case "\\t":
			c = "\\\\t"
		case "\\r":
			c = "\\\\r"
		}
		out += c
	}
	return out + "\\""
}
'''))
e("raw-heredoc", fn(V, "func (self *Compiler) compile_heredoc(", '''
func (self *Compiler) compile_strings(list []*VimNode) string {
	if len(list) == 0 {
		return "(list)"
	}
	var ss []string
	for _, n := range list {
		ss = append(ss, self.escape_string(n.value.(string)))
	}
	return "(list " + viml_join(ss, " ") + ")"
}

func (self *Compiler) compile_heredoc(node *VimNode) string {
	return viml_printf("(heredoc %s %s %s)", self.compile_strings(node.rlist), self.escape_string(node.op), self.compile_strings(node.body))
}
'''))
e("raw-list-dict", fn(T, "func (self *Compiler) compile_list(", '''
func (self *Compiler) compile_list(n *VimNode) string {
	var s = "(list"
	for _, v := range n.value.([]interface{}) {
		s += " " + self.compile(v.(*VimNode)).(string)
	}
	return s + ")"
}
'''), fn(T, "func (self *Compiler) compile_curlyname(", '''
func (self *Compiler) compile_curlyname(n *VimNode) string {
	var s string
	for _, part := range n.value.([]*VimNode) {
		s += self.compile(part).(string)
	}
	return s
}
'''), fn(T, "func (self *Compiler) compile_dict(", '''
func (self *Compiler) compile_dict(n *VimNode) string {
	var s = "(dict"
	for _, nn := range n.value.([]interface{}) {
		var kv = nn.([]interface{})
		var k, v = self.compile(kv[0].(*VimNode)).(string), self.compile(kv[1].(*VimNode)).(string)
		s += " (" + k + " " + v + ")"
	}
	return s + ")"
}
'''), (T, '\t"strings"\n', ''))
e("raw-function", fn(V, "func (self *Compiler) compile_function(", '''
func (self *Compiler) compile_function(node *VimNode) {
	var left = self.compile(node.left).(string)
	var rlist, defaults []string
	for _, n := range node.rlist {
		rlist = append(rlist, self.compile(n).(string))
	}
	for _, n := range node.default_args {
		defaults = append(defaults, self.compile(n).(string))
	}
	var rest = ""
	if n := len(rlist); n > 0 && rlist[n-1] == "..." {
		rlist = rlist[:n-1]
		rest = " . ..."
	}
	var required = len(rlist) - len(defaults)
	for i, arg := range rlist {
		if i < required {
			left += " " + arg
		} else {
			left += viml_printf(" (%s %s)", arg, defaults[i-required])
		}
	}
	left += rest
	self.out("(function (%s)", left)
	self.incindent("  ")
	self.compile_body(node.body)
	self.out(")")
	self.decindent()
}
'''))
# --- runtime
e("vf-escape", fn(F, "func viml_escape(", '''
func viml_escape(s string, chars string) string {
	var b strings.Builder
	for _, c := range viml_split(s, `\\zs`) {
		if strings.Contains(chars, c) {
			b.WriteByte('\\\\')
		}
		b.WriteString(c)
	}
	return b.String()
}
'''), fn(F, "func viml_range(", '''
func viml_range(start, end int) []int {
	if end < start {
		return nil
	}
	rs := make([]int, 0, end-start+1)
	for i := start; i < end+1; i++ {
		rs = append(rs, i)
	}
	return rs
}
'''))
e("vf-join", fn(F, "func viml_join(", '''
func viml_join(lst vimlList, sep string) string {
	s := reflect.ValueOf(lst)
	n := s.Len()
	ss := make([]string, 0, n)
	for i := 0; i < n; i++ {
		ss = append(ss, fmt.Sprint(s.Index(i)))
	}
	return strings.Join(ss, sep)
}
'''))
