"""Edits of the compilers, the conversion of the tree, the walk, the printer and the small helpers that keep the behaviour."""
V = "go/vimlparser.go"; T = "go/type.go"; F = "go/vimlfunc.go"; X = "go/export.go"; C = "compiler/compiler.go"
W = "ast/walk.go"; N = "ast/node.go"; PE = "printer/expr.go"; PP = "printer/printer.go"; PO = "printer/opprec.go"; TK = "token/token.go"; R = "vimlparser.go"; M = "cmd/vimlparser/main.go"
E = []
def e(name, *subs):
    E.append((name, [(f, "FN:" + o if o.startswith("func ") and "\n" not in o else o, n) for f, o, n in subs]))
CP = "func (self *Compiler) "; VP = "func (self *VimLParser) "; CC = "func (c *Compiler) "

# ---- missing ends
e("missing-switch",
  (V, VP + "check_missing_endif(", '''func (self *VimLParser) check_missing_endif(ends string, pos *pos) {
	switch self.context[0].type_ {
	case NODE_IF, NODE_ELSEIF, NODE_ELSE:
		panic(Err(viml_printf("E171: Missing :endif:    %s", ends), pos))
	}
}
'''),
  (V, VP + "check_missing_endtry(", '''func (self *VimLParser) check_missing_endtry(ends string, pos *pos) {
	switch self.context[0].type_ {
	case NODE_FINALLY, NODE_TRY, NODE_CATCH:
		panic(Err(viml_printf("E600: Missing :endtry:    %s", ends), pos))
	}
}
'''))
e("missing-helper",
  (V, VP + "check_missing_endfunction(", '''// missing panics with msg when the innermost block is of one of the types.
func (self *VimLParser) missing(msg, ends string, pos *pos, types ...int) {
	for _, t := range types {
		if self.context[0].type_ == t {
			panic(Err(viml_printf(msg+"    %s", ends), pos))
		}
	}
}

func (self *VimLParser) check_missing_endfunction(ends string, pos *pos) {
	self.missing("E126: Missing :endfunction:", ends, pos, NODE_FUNCTION)
}
'''),
  (V, VP + "check_missing_endif(", '''func (self *VimLParser) check_missing_endif(ends string, pos *pos) {
	self.missing("E171: Missing :endif:", ends, pos, NODE_IF, NODE_ELSEIF, NODE_ELSE)
}
'''),
  (V, VP + "check_missing_endtry(", '''func (self *VimLParser) check_missing_endtry(ends string, pos *pos) {
	self.missing("E600: Missing :endtry:", ends, pos, NODE_TRY, NODE_CATCH, NODE_FINALLY)
}
'''),
  (V, VP + "check_missing_endwhile(", '''func (self *VimLParser) check_missing_endwhile(ends string, pos *pos) {
	self.missing("E170: Missing :endwhile:", ends, pos, NODE_WHILE)
}
'''),
  (V, VP + "check_missing_endfor(", '''func (self *VimLParser) check_missing_endfor(ends string, pos *pos) {
	self.missing("E170: Missing :endfor:", ends, pos, NODE_FOR)
}
'''))
e("missing-sprintf",
  (V, VP + "check_missing_endwhile(", '''func (self *VimLParser) check_missing_endwhile(ends string, pos *pos) {
	if innermost := self.context[0]; innermost.type_ != NODE_WHILE {
		return
	}
	panic(Err("E170: Missing :endwhile:    "+ends, pos))
}
'''))

# ---- the reference compiler
LIST = '''// compiled returns the nodes as text.
func (self *Compiler) compiled(nodes []*VimNode) []string {
	ss := make([]string, 0, len(nodes))
	for _, n := range nodes {
		ss = append(ss, self.compile(n).(string))
	}
	return ss
}

'''
e("ref-list-helper",
  (V, CP + "compile_unlet(", LIST + '''func (self *Compiler) compile_unlet(node *VimNode) {
	self.out("(unlet %s)", viml_join(self.compiled(node.list), " "))
}
'''),
  (V, CP + "compile_echo(", '''func (self *Compiler) compile_echo(node *VimNode) {
	self.out("(echo %s)", viml_join(self.compiled(node.list), " "))
}
'''),
  (V, CP + "compile_execute(", '''func (self *Compiler) compile_execute(node *VimNode) {
	self.out("(execute %s)", strings.Join(self.compiled(node.list), " "))
}
'''),
  (V, CP + "compile_lambda(", '''func (self *Compiler) compile_lambda(node *VimNode) string {
	params := self.compiled(node.rlist)
	return viml_printf("(lambda (%s) %s)", viml_join(params, " "), self.compile(node.left).(string))
}
'''),
  (V, CP + "compile_call(", '''func (self *Compiler) compile_call(node *VimNode) string {
	rlist := self.compiled(node.rlist)
	name := self.compile(node.left).(string)
	if len(rlist) == 0 {
		return "(" + name + ")"
	}
	return viml_printf("(%s %s)", name, viml_join(rlist, " "))
}
'''),
  (V, "package vimlparser\n", "package vimlparser\n\nimport \"strings\"\n"))
e("ref-echo-shared",
  (V, CP + "compile_echo(", '''func (self *Compiler) compile_exprs(name string, node *VimNode) {
	var list []string
	for i := 0; i < len(node.list); i++ {
		list = append(list, self.compile(node.list[i]).(string))
	}
	self.out("("+name+" %s)", viml_join(list, " "))
}

func (self *Compiler) compile_echo(node *VimNode) {
	self.compile_exprs("echo", node)
}
'''),
  (V, CP + "compile_echon(", '''func (self *Compiler) compile_echon(node *VimNode) {
	self.compile_exprs("echon", node)
}
'''),
  (V, CP + "compile_echomsg(", '''func (self *Compiler) compile_echomsg(node *VimNode) {
	self.compile_exprs("echomsg", node)
}
'''),
  (V, CP + "compile_echoerr(", '''func (self *Compiler) compile_echoerr(node *VimNode) {
	self.compile_exprs("echoerr", node)
}
'''))
e("ref-let-shared",
  (V, CP + "compile_let(", '''// compile_lhs returns what is assigned to, as text.
func (self *Compiler) compile_lhs(node *VimNode) string {
	if node.left != nil {
		return self.compile(node.left).(string)
	}
	var ss []string
	for _, n := range node.list {
		ss = append(ss, self.compile(n).(string))
	}
	left := viml_join(ss, " ")
	if node.rest != nil {
		left += " . " + self.compile(node.rest).(string)
	}
	return "(" + left + ")"
}

func (self *Compiler) compile_let(node *VimNode) {
	var left = self.compile_lhs(node)
	var right = self.compile(node.right)
	self.out("(let %s %s %s)", node.op, left, right)
}
'''),
  (V, CP + "compile_const(", '''func (self *Compiler) compile_const(node *VimNode) {
	var left = self.compile_lhs(node)
	var right = self.compile(node.right)
	self.out("(const %s %s %s)", node.op, left, right)
}
'''),
  (V, CP + "compile_for(", '''func (self *Compiler) compile_for(node *VimNode) {
	left := self.compile_lhs(node)
	right := self.compile(node.right)
	self.out("(for %s %s", left, right)
	self.incindent("  ")
	self.compile_body(node.body)
	self.out(")")
	self.decindent()
}
'''))
e("ref-lock-shared",
  (V, CP + "compile_lockvar(", '''func (self *Compiler) compile_lock(cmd string, node *VimNode) {
	var list []string
	for _, v := range node.list {
		list = append(list, self.compile(v).(string))
	}
	depth := ""
	if node.depth != 0 {
		depth = viml_printf("%d ", node.depth)
	}
	self.out("(%s %s%s)", cmd, depth, viml_join(list, " "))
}

func (self *Compiler) compile_lockvar(node *VimNode) {
	self.compile_lock("lockvar", node)
}
'''),
  (V, CP + "compile_unlockvar(", '''func (self *Compiler) compile_unlockvar(node *VimNode) {
	self.compile_lock("unlockvar", node)
}
'''))
e("ref-indented",
  (V, CP + "compile_body(", '''func (self *Compiler) compile_body(body []*VimNode) {
	for i := range body {
		self.compile(body[i])
	}
}

func (self *Compiler) indented(body []*VimNode) {
	self.incindent("  ")
	self.compile_body(body)
	self.decindent()
}
'''),
  (V, CP + "compile_if(", '''func (self *Compiler) compile_if(node *VimNode) {
	self.out("(if %s", self.compile(node.cond))
	self.indented(node.body)
	for _, enode := range node.elseif {
		self.out(" elseif %s", self.compile(enode.cond))
		self.indented(enode.body)
	}
	if node.else_ != nil {
		self.out(" else")
		self.indented(node.else_.body)
	}
	self.incindent("  ")
	self.out(")")
	self.decindent()
}
'''))
e("ref-try",
  (V, CP + "compile_try(", '''func (self *Compiler) compile_try(node *VimNode) {
	part := func(head string, body []*VimNode) {
		self.decindent()
		self.out("%s", head)
		self.incindent("  ")
		self.compile_body(body)
	}
	self.out("(try")
	self.incindent("  ")
	self.compile_body(node.body)
	for _, c := range node.catch {
		head := " catch"
		if c.pattern != "" {
			head += " /" + c.pattern + "/"
		}
		part(head, c.body)
	}
	if node.finally != nil {
		part(" finally", node.finally.body)
	}
	self.out(")")
	self.decindent()
}
'''))
e("ref-params",
  (V, CP + "compile_function(", '''func (self *Compiler) compile_function(node *VimNode) {
	var left = self.compile(node.left).(string)
	var rlist []string
	for _, vval := range node.rlist {
		rlist = append(rlist, self.compile(vval).(string))
	}
	var default_args []string
	for _, vval := range node.default_args {
		default_args = append(default_args, self.compile(vval).(string))
	}
	if n := len(rlist); n > 0 {
		rest := rlist[n-1] == "..."
		if rest {
			rlist = rlist[:n-1]
		}
		plain := len(rlist) - len(default_args)
		for i, name := range rlist {
			if i < plain {
				left += " " + name
				continue
			}
			left += viml_printf(" (%s %s)", name, default_args[i-plain])
		}
		if rest {
			left += " . ..."
		}
	}
	self.out("(function (%s)", left)
	self.incindent("  ")
	self.compile_body(node.body)
	self.out(")")
	self.decindent()
}
'''))
e("ref-slice",
  (V, CP + "compile_slice(", '''func (self *Compiler) compile_slice(node *VimNode) string {
	end := func(n *VimNode) string {
		if n != nil {
			return self.compile(n).(string)
		}
		return "nil"
	}
	low := end(node.rlist[0])
	high := end(node.rlist[1])
	return viml_printf("(slice %s %s %s)", self.compile(node.left).(string), low, high)
}
'''))
e("ref-heredoc",
  (V, CP + "compile_heredoc(", '''func (self *Compiler) quoted(nodes []*VimNode) string {
	if len(nodes) == 0 {
		return "(list)"
	}
	var ss []string
	for _, n := range nodes {
		ss = append(ss, self.escape_string(n.value.(string)))
	}
	return "(list " + viml_join(ss, " ") + ")"
}

func (self *Compiler) compile_heredoc(node *VimNode) string {
	flags := self.quoted(node.rlist)
	body := self.quoted(node.body)
	return viml_printf("(heredoc %s %s %s)", flags, self.escape_string(node.op), body)
}
'''))
e("ref-escape-switch",
  (V, CP + "escape_string(", '''func (self *Compiler) escape_string(str string) string {
	var out = "\\""
	for _, c := range viml_split(str, "\\\\zs") {
		switch c {
		case "\\r":
			out += "\\\\r"
		case "\\t":
			out += "\\\\t"
		case "\\n":
			out += "\\\\n"
		default:
			out += c
		}
	}
	return out + "\\""
}
'''))
e("ref-binary",
  (V, CP + "compile_add(", '''func (self *Compiler) binary(op string, node *VimNode) string {
	left := self.compile(node.left).(string)
	right := self.compile(node.right)
	return viml_printf("(%s %s %s)", op, left, right)
}

func (self *Compiler) compile_add(node *VimNode) string {
	return self.binary("+", node)
}
'''),
  (V, CP + "compile_is(", '''func (self *Compiler) compile_is(node *VimNode) string {
	return self.binary("is", node)
}
'''),
  (V, CP + "compile_remainder(", '''func (self *Compiler) compile_remainder(node *VimNode) string {
	return self.binary("%", node)
}
'''),
  (V, CP + "compile_concat(", '''func (self *Compiler) compile_concat(node *VimNode) string {
	return self.binary("concat", node)
}
'''))
e("ref-return", (V, CP + "compile_return(", '''func (self *Compiler) compile_return(node *VimNode) {
	if node.left != nil {
		self.out("(return %s)", self.compile(node.left).(string))
		return
	}
	self.out("(return)")
}
'''))
e("type-list", (T, CP + "compile_list(", '''func (self *Compiler) compile_list(n *VimNode) string {
	values := n.value.([]interface{})
	if len(values) == 0 {
		return "(list)"
	}
	ss := make([]string, len(values))
	for i, v := range values {
		ss[i] = self.compile(v.(*VimNode)).(string)
	}
	return "(list " + strings.Join(ss, " ") + ")"
}
'''), (T, CP + "compile_dict(", '''func (self *Compiler) compile_dict(n *VimNode) string {
	entries := n.value.([]interface{})
	if len(entries) == 0 {
		return "(dict)"
	}
	var value []string
	for _, e := range entries {
		kv := e.([]interface{})
		key := self.compile(kv[0].(*VimNode)).(string)
		val := self.compile(kv[1].(*VimNode)).(string)
		value = append(value, viml_printf("(%s %s)", key, val))
	}
	return viml_printf("(dict %s)", strings.Join(value, " "))
}
'''))
e("type-curly", (T, CP + "compile_curlyname(", '''func (self *Compiler) compile_curlyname(n *VimNode) string {
	name := ""
	for _, part := range n.value.([]*VimNode) {
		name += self.compile(part).(string)
	}
	return name
}
'''))
e("type-out", (T, CP + "out(", '''func (self *Compiler) out(f string, args ...interface{}) {
	if len(args) > 0 {
		self.lines = append(self.lines, self.indent[0]+viml_printf(f, args...))
		return
	}
	if f[:1] == ")" {
		last := len(self.lines) - 1
		self.lines[last] = self.lines[last] + f
		return
	}
	self.lines = append(self.lines, self.indent[0]+f)
}
'''))

# ---- the tree
e("export-guards", (X, "func newExprNode(", '''func newExprNode(n *VimNode, filename string) ast.Expr {
	if node, ok := newAstNode(n, filename).(ast.Expr); ok {
		return node
	}
	return nil
}
'''), (X, "func newBody(", '''func newBody(n VimNode, filename string) []ast.Statement {
	if n.body == nil {
		return nil
	}
	body := make([]ast.Statement, 0, len(n.body))
	for _, node := range n.body {
		if node == nil { // conservative
			continue
		}
		body = append(body, newAstNode(node, filename).(ast.Statement))
	}
	return body
}
'''), (X, "func newExprs(", '''func newExprs(xs []*VimNode, filename string) []ast.Expr {
	if xs == nil {
		return nil
	}
	list := make([]ast.Expr, 0, len(xs))
	for i := 0; i < len(xs); i++ {
		if xs[i] != nil { // conservative
			list = append(list, newExprNode(xs[i], filename))
		}
	}
	return list
}
'''))
e("export-body-param", (X, "func newBody(", '''func newBody(n VimNode, filename string) []ast.Statement {
	return newStmts(n.body, filename)
}

func newStmts(nodes []*VimNode, filename string) []ast.Statement {
	var body []ast.Statement
	if nodes != nil {
		body = make([]ast.Statement, 0, len(nodes))
	}
	for _, node := range nodes {
		if node != nil { // conservative
			body = append(body, newAstNode(node, filename).(ast.Statement))
		}
	}
	return body
}
'''))
e("export-catches", (X, '''		var catches []*ast.Catch
		if n.catch != nil {
			catches = make([]*ast.Catch, 0, len(n.catch))
		}
		for _, node := range n.catch {
			if node != nil { // conservative
				catches = append(catches, newAstNode(node, filename).(*ast.Catch))
			}
		}
		var finally *ast.Finally
		if n.finally != nil {
			finally = newAstNode(n.finally, filename).(*ast.Finally)
		}
''', '''		catches := newCatches(n.catch, filename)
		var finally *ast.Finally
		if n.finally != nil {
			finally = newAstNode(n.finally, filename).(*ast.Finally)
		}
'''), (X, "func newPos(", '''func newPos(p *pos, filename string) *ast.Pos {
	if p == nil {
		return nil
	}
	return &ast.Pos{
		Offset:   p.offset,
		Line:     p.lnum,
		Column:   p.col,
		Filename: filename,
	}
}

func newCatches(nodes []*VimNode, filename string) []*ast.Catch {
	if nodes == nil {
		return nil
	}
	catches := make([]*ast.Catch, 0, len(nodes))
	for _, node := range nodes {
		if node != nil { // conservative
			catches = append(catches, newAstNode(node, filename).(*ast.Catch))
		}
	}
	return catches
}
'''))
e("export-split", (X, '''	case NODE_ECHOHL:
		return &ast.Echohl{
			Echohl: pos,
			ExArg:  newExArg(*n.ea, filename),
			Name:   n.str,
		}

	case NODE_EXECUTE:
		return &ast.Execute{
			Execute: pos,
			ExArg:   newExArg(*n.ea, filename),
			Exprs:   newExprs(n.list, filename),
		}

	case NODE_TERNARY:
''', '''	case NODE_ECHOHL:
		return &ast.Echohl{
			Echohl: pos,
			ExArg:  newExArg(*n.ea, filename),
			Name:   n.str,
		}

	case NODE_EXECUTE:
		return &ast.Execute{
			Execute: pos,
			ExArg:   newExArg(*n.ea, filename),
			Exprs:   newExprs(n.list, filename),
		}
	}
	return newExpr(n, pos, filename)
}

// newExpr converts the internal node of an expression.
func newExpr(n *VimNode, pos ast.Pos, filename string) ast.Node {
	switch n.type_ {
	case NODE_TERNARY:
'''))
e("export-lit", (X, '''	case NODE_NUMBER:
		return &ast.BasicLit{
			ValuePos: pos,
			Kind:     token.NUMBER,
			Value:    n.value.(string),
		}
	case NODE_STRING:
		return &ast.BasicLit{
			ValuePos: pos,
			Kind:     token.STRING,
			Value:    n.value.(string),
		}
''', '''	case NODE_NUMBER:
		return newLit(n, pos, token.NUMBER)
	case NODE_STRING:
		return newLit(n, pos, token.STRING)
'''), (X, '''	case NODE_ENV:
		return &ast.BasicLit{
			ValuePos: pos,
			Kind:     token.ENV,
			Value:    n.value.(string),
		}

	case NODE_REG:
		return &ast.BasicLit{
			ValuePos: pos,
			Kind:     token.REG,
			Value:    n.value.(string),
		}
''', '''	case NODE_ENV:
		return newLit(n, pos, token.ENV)

	case NODE_REG:
		return newLit(n, pos, token.REG)
'''), (X, "func newExprNode(", '''func newExprNode(n *VimNode, filename string) ast.Expr {
	node, _ := newAstNode(n, filename).(ast.Expr)
	return node
}

func newLit(n *VimNode, pos ast.Pos, kind token.Token) *ast.BasicLit {
	return &ast.BasicLit{ValuePos: pos, Kind: kind, Value: n.value.(string)}
}
'''))
OPS = [l.split() for l in '''OR OROR;AND ANDAND;EQUAL EQEQ;EQUALCI EQEQCI;EQUALCS EQEQCS;NEQUAL NEQ;NEQUALCI NEQCI;NEQUALCS NEQCS;GREATER GT;GREATERCI GTCI;GREATERCS GTCS;GEQUAL GTEQ;GEQUALCI GTEQCI;GEQUALCS GTEQCS;SMALLER LT;SMALLERCI LTCI;SMALLERCS LTCS;SEQUAL LTEQ;SEQUALCI LTEQCI;SEQUALCS LTEQCS;MATCH MATCH;MATCHCI MATCHCI;MATCHCS MATCHCS;NOMATCH NOMATCH;NOMATCHCI NOMATCHCI;NOMATCHCS NOMATCHCS;IS IS;ISCI ISCI;ISCS ISCS;ISNOT ISNOT;ISNOTCI ISNOTCI;ISNOTCS ISNOTCS;ADD PLUS;SUBTRACT MINUS;CONCAT DOT;MULTIPLY STAR;DIVIDE SLASH;REMAINDER PERCENT;NOT NOT;MINUS MINUS;PLUS PLUS'''.split(";")]
e("export-op-map", (X, "func opToken(", "var opTokens = map[int]token.Token{\n" + "".join("\tNODE_%s: token.%s,\n" % (a, b) for a, b in OPS) + '''}

func opToken(nodeType int) token.Token {
	if t, ok := opTokens[nodeType]; ok {
		return t
	}
	return token.ILLEGAL
}
'''))
e("export-op-map-zero", (X, "func opToken(", "var opTokens = map[int]token.Token{\n" + "".join("\tNODE_%s: token.%s,\n" % (a, b) for a, b in OPS) + '''}

func opToken(nodeType int) token.Token {
	return opTokens[nodeType]
}
'''))
e("export-op-if", (X, '''	case NODE_ADD:
		return token.PLUS
	case NODE_SUBTRACT:
		return token.MINUS
''', '''	case NODE_ADD, NODE_PLUS:
		return token.PLUS
	case NODE_SUBTRACT, NODE_MINUS:
		return token.MINUS
'''), (X, '''	case NODE_MINUS:
		return token.MINUS
	case NODE_PLUS:
		return token.PLUS
	}
''', "	}\n"))
e("export-elif-inline", (X, '''			elifs = make([]*ast.ElseIf, 0, len(n.elseif))
		}
		for _, node := range n.elseif {
			if node != nil { // conservative
				elifs = append(elifs, newAstNode(node, filename).(*ast.ElseIf))
			}
		}
''', '''			elifs = []*ast.ElseIf{}
			for i := range n.elseif {
				if node := n.elseif[i]; node != nil { // conservative
					elif := newAstNode(node, filename).(*ast.ElseIf)
					elifs = append(elifs, elif)
				}
			}
		}
'''))
e("export-dict", (X, '''		kvs := make([]ast.KeyValue, 0, len(entries))
		for _, nn := range entries {
			kv := nn.([]interface{})
			k := newExprNode(kv[0].(*VimNode), filename)
			v := newExprNode(kv[1].(*VimNode), filename)
			kvs = append(kvs, ast.KeyValue{Key: k, Value: v})
		}
''', '''		kvs := make([]ast.KeyValue, len(entries))
		for i := range entries {
			kv := entries[i].([]interface{})
			kvs[i].Key = newExprNode(kv[0].(*VimNode), filename)
			kvs[i].Value = newExprNode(kv[1].(*VimNode), filename)
		}
'''))
e("export-values", (X, "func newValues(", '''func newValues(n VimNode, filename string) []ast.Expr {
	var values []ast.Expr
	list := n.value.([]interface{})
	for i := 0; i < len(list); i++ {
		values = append(values, newExprNode(list[i].(*VimNode), filename))
	}
	return values
}
'''))
e("export-toplevel-first", (X, '''	// TOPLEVEL doens't have position...?
	var pos ast.Pos
	if p := newPos(n.pos, filename); p != nil {
		pos = *p
	} else {
		pos = ast.Pos{Offset: 0, Line: 1, Column: 1, Filename: filename}
	}
''', '''	pos := posOf(n, filename)
'''), (X, "func newExprNode(", '''func newExprNode(n *VimNode, filename string) ast.Expr {
	node, _ := newAstNode(n, filename).(ast.Expr)
	return node
}

// posOf returns the position of n; TOPLEVEL doesn't have one.
func posOf(n *VimNode, filename string) ast.Pos {
	if n.pos == nil {
		return ast.Pos{Line: 1, Column: 1, Filename: filename}
	}
	return ast.Pos{Offset: n.pos.offset, Line: n.pos.lnum, Column: n.pos.col, Filename: filename}
}
'''))
e("export-exarg-fields", (X, "func newCmd(", '''func newCmd(c *Cmd) *ast.Cmd {
	if c != nil {
		cmd := &ast.Cmd{Name: c.name, Parser: c.parser}
		cmd.Minlen = c.minlen
		cmd.Flags = c.flags
		return cmd
	}
	return nil
}
'''))

# ---- the compiler
JOIN = '''// join returns the compiled expressions, separated by blanks.
func (c *Compiler) join(nodes []ast.Expr) string {
	list := make([]string, 0, len(nodes))
	for _, n := range nodes {
		list = append(list, c.compileExpr(n))
	}
	return strings.Join(list, " ")
}

'''
e("comp-join",
  (C, CC + "compileUnlet(", JOIN + '''func (c *Compiler) compileUnlet(node *ast.UnLet) {
	c.fprintln("(%s %s)", node.Cmd().Name, c.join(node.List))
}
'''),
  (C, CC + "compileLockvar(", '''func (c *Compiler) compileLockvar(node *ast.LockVar) {
	cmd, vars := node.Cmd().Name, c.join(node.List)
	if node.Depth <= 0 {
		c.fprintln("(%s %s)", cmd, vars)
		return
	}
	c.fprintln("(%s %d %s)", cmd, node.Depth, vars)
}
'''),
  (C, CC + "compileEchocmd(", '''func (c *Compiler) compileEchocmd(node *ast.EchoCmd) {
	c.fprintln("(%s %s)", node.Cmd().Name, c.join(node.Exprs))
}
'''),
  (C, CC + "compileExecute(", '''func (c *Compiler) compileExecute(node *ast.Execute) {
	c.fprintln("(%s %s)", node.Cmd().Name, c.join(node.Exprs))
}
'''),
  (C, '''		if len(n.Args) > 0 {
			args := make([]string, 0, len(n.Args))
			for _, a := range n.Args {
				args = append(args, c.compileExpr(a))
			}
			return fmt.Sprintf("(%s %s)", name, strings.Join(args, " "))
		}
		return fmt.Sprintf("(%s)", name)
''', '''		if len(n.Args) == 0 {
			return "(" + name + ")"
		}
		return fmt.Sprintf("(%s %s)", name, c.join(n.Args))
'''),
  (C, '''		vs := make([]string, 0, len(n.Values))
		for _, v := range n.Values {
			vs = append(vs, c.compileExpr(v))
		}
		return fmt.Sprintf("(list %s)", strings.Join(vs, " "))
''', '''		return "(list " + c.join(n.Values) + ")"
'''))
e("comp-lhs",
  (C, CC + "compileLet(", '''// lhs returns what is assigned to.
func (c *Compiler) lhs(left ast.Expr, list []ast.Expr, rest ast.Expr) string {
	if left != nil {
		return c.compileExpr(left)
	}
	ls := make([]string, 0, len(list))
	for _, n := range list {
		ls = append(ls, c.compileExpr(n))
	}
	tail := ""
	if rest != nil {
		tail = " . " + c.compileExpr(rest)
	}
	return "(" + strings.Join(ls, " ") + tail + ")"
}

func (c *Compiler) compileLet(node *ast.Let) {
	lhs := c.lhs(node.Left, node.List, node.Rest)
	rhs := c.compileExpr(node.Right)
	c.fprintln("(%s %s %s %s)", node.Cmd().Name, node.Op, lhs, rhs)
}
'''),
  (C, CC + "compileFor(", '''func (c *Compiler) compileFor(node *ast.For) error {
	left := c.lhs(node.Left, node.List, node.Rest)
	right := c.compileExpr(node.Right)
	c.fprintln("(%s %s %s", node.Cmd().Name, left, right)
	c.indent++
	if err := c.compile(node.Body); err != nil {
		return err
	}
	c.trimLineBreak()
	c.writeString(")\\n")
	c.indent--
	return nil
}
'''))
e("comp-block",
  (C, CC + "compileWhile(", '''// block compiles the body indented and closes the parenthesis.
func (c *Compiler) block(body []ast.Statement) error {
	c.indent++
	err := c.compile(body)
	if err != nil {
		return err
	}
	c.trimLineBreak()
	c.writeString(")\\n")
	c.indent--
	return nil
}

func (c *Compiler) compileWhile(node *ast.While) error {
	c.fprintln("(%s %s", node.Cmd().Name, c.compileExpr(node.Condition))
	return c.block(node.Body)
}
'''),
  (C, '''	c.fprintln("(function (%s)", strings.Join(ps, " "))
	c.indent++
	if err := c.compile(node.Body); err != nil {
		return err
	}
	c.trimLineBreak()
	c.writeString(")\\n")
	c.indent--
	return nil
''', '''	c.fprintln("(function (%s)", strings.Join(ps, " "))
	return c.block(node.Body)
'''))
e("comp-try", (C, CC + "compileTry(", '''func (c *Compiler) compileTry(node *ast.Try) error {
	c.fprintln("(%s", node.Cmd().Name)
	c.indent++
	if err := c.compile(node.Body); err != nil {
		return err
	}
	part := func(body []ast.Statement, f string, args ...interface{}) error {
		c.indent--
		c.fprintln(f, args...)
		c.indent++
		return c.compile(body)
	}
	for _, n := range node.Catch {
		var err error
		if n.Pattern == "" {
			err = part(n.Body, " %s", n.Cmd().Name)
		} else {
			err = part(n.Body, " %s /%s/", n.Cmd().Name, n.Pattern)
		}
		if err != nil {
			return err
		}
	}
	if f := node.Finally; f != nil {
		if err := part(f.Body, " %s", f.Cmd().Name); err != nil {
			return err
		}
	}
	c.trimLineBreak()
	c.writeString(")\\n")
	c.indent--
	return nil
}
'''))
e("comp-if", (C, CC + "compileIf(", '''func (c *Compiler) compileIf(node *ast.If) error {
	c.fprintln("(%s %s", node.Cmd().Name, c.compileExpr(node.Condition))
	if err := c.indented(node.Body); err != nil {
		return err
	}
	for i := range node.ElseIf {
		n := node.ElseIf[i]
		c.fprintln(" %s %s", n.Cmd().Name, c.compileExpr(n.Condition))
		if err := c.indented(n.Body); err != nil {
			return err
		}
	}
	if node.Else != nil {
		c.fprintln(" %s", node.Else.Cmd().Name)
		if err := c.indented(node.Else.Body); err != nil {
			return err
		}
	}
	c.trimLineBreak()
	c.writeString(")\\n")
	return nil
}

func (c *Compiler) indented(body []ast.Statement) error {
	c.indent++
	if err := c.compile(body); err != nil {
		return err
	}
	c.indent--
	return nil
}
'''))
e("comp-escape-builder", (C, "func escape(", '''func escape(s string, chars string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i] // chars are all ASCII
		if strings.IndexByte(chars, c) < 0 {
			b.WriteByte(c)
			continue
		}
		b.WriteByte('\\\\')
		switch c {
		case '\\n':
			b.WriteByte('n')
		case '\\t':
			b.WriteByte('t')
		case '\\r':
			b.WriteByte('r')
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}
'''))
e("comp-escape-if", (C, "func escape(", '''func escape(s string, chars string) string {
	r := ""
	for i := range []byte(s) {
		c := s[i]
		if strings.IndexByte(chars, c) == -1 {
			r += string(s[i : i+1])
		} else if c == '\\n' {
			r += "\\\\n"
		} else if c == '\\t' {
			r += "\\\\t"
		} else if c == '\\r' {
			r += "\\\\r"
		} else {
			r += "\\\\" + s[i:i+1]
		}
	}
	return r
}
'''))
e("comp-params", (C, '''	for i, p := range params {
		if i < len(params)-len(node.DefaultArgs) {
			ps = append(ps, p.Name)
		} else {
			ps = append(ps, fmt.Sprintf("(%s %s)", p.Name,
				c.compileExpr(node.DefaultArgs[i+len(node.DefaultArgs)-len(params)])))
		}
	}
''', '''	plain := len(params) - len(node.DefaultArgs)
	for i, p := range params {
		name := p.Name
		if i >= plain {
			name = fmt.Sprintf("(%s %s)", name, c.compileExpr(node.DefaultArgs[i-plain]))
		}
		ps = append(ps, name)
	}
'''))
e("comp-slice", (C, '''		x := c.compileExpr(n.X)
		l := "nil"
		if n.Low != nil {
			l = c.compileExpr(n.Low)
		}
		h := "nil"
		if n.High != nil {
			h = c.compileExpr(n.High)
		}
		return fmt.Sprintf("(slice %s %s %s)", x, l, h)
''', '''		return fmt.Sprintf("(slice %s %s %s)", c.compileExpr(n.X), c.orNil(n.Low), c.orNil(n.High))
'''), (C, "func escape(s string, chars string) string {\n", '''func (c *Compiler) orNil(n ast.Expr) string {
	if n == nil {
		return "nil"
	}
	return c.compileExpr(n)
}

func escape(s string, chars string) string {
'''))
e("comp-heredoc", (C, '''		var flags string
		if len(n.Flags) == 0 {
			flags = "(list)"
		} else {
			xs := make([]string, len(n.Flags))
			for i, f := range n.Flags {
				xs[i] = `"` + c.compileExpr(f) + `"`
			}
			flags = fmt.Sprintf("(list %s)", strings.Join(xs, " "))
		}
		var body string
		if len(n.Body) == 0 {
			body = "(list)"
		} else {
			xs := make([]string, len(n.Body))
			for i, p := range n.Body {
				xs[i] = `"` + escape(c.compileExpr(p), "\\n\\t\\r") + `"`
			}
			body = fmt.Sprintf("(list %s)", strings.Join(xs, " "))
		}
		return fmt.Sprintf(`(heredoc %s "%s" %s)`, flags, n.EndMarker, body)
''', '''		return c.compileHeredoc(n)
'''), (C, "func escape(s string, chars string) string {\n", '''func (c *Compiler) compileHeredoc(n *ast.HeredocExpr) string {
	flags, body := "(list)", "(list)"
	if len(n.Flags) > 0 {
		var xs []string
		for _, f := range n.Flags {
			xs = append(xs, "\\""+c.compileExpr(f)+"\\"")
		}
		flags = "(list " + strings.Join(xs, " ") + ")"
	}
	if len(n.Body) > 0 {
		var xs []string
		for _, line := range n.Body {
			xs = append(xs, "\\""+escape(c.compileExpr(line), "\\n\\t\\r")+"\\"")
		}
		body = "(list " + strings.Join(xs, " ") + ")"
	}
	return fmt.Sprintf(`(heredoc %s "%s" %s)`, flags, n.EndMarker, body)
}

func escape(s string, chars string) string {
'''))
e("comp-print", (C, CC + "fprint(", '''func (c *Compiler) fprint(f string, args ...interface{}) {
	for i := 0; i < c.indent; i++ {
		c.buffer.WriteString(c.Config.Indent)
	}
	c.buffer.WriteString(fmt.Sprintf(f, args...))
}
'''))
e("comp-trim", (C, CC + "trimLineBreak(", '''func (c *Compiler) trimLineBreak() {
	b := c.buffer.Bytes()
	n := len(b)
	for n > 0 && b[n-1] == '\\n' {
		n--
	}
	c.buffer.Truncate(n)
}
'''))
e("comp-copy-return", (C, CC + "Compile(", '''func (c *Compiler) Compile(w io.Writer, node ast.Node) error {
	c.indent = 0
	c.buffer = new(bytes.Buffer)
	err := c.compile(node)
	if err == nil {
		_, err = w.Write(c.buffer.Bytes())
	}
	return err
}
'''))
e("comp-lambda", (C, '''		params := make([]string, 0, len(n.Params))
		for _, p := range n.Params {
			params = append(params, p.Name)
		}
		return fmt.Sprintf("(lambda (%s) %s)", strings.Join(params, " "), c.compileExpr(n.Expr))
''', '''		body := c.compileExpr(n.Expr)
		var params []string
		for i := range n.Params {
			params = append(params, n.Params[i].Name)
		}
		return "(lambda (" + strings.Join(params, " ") + ") " + body + ")"
'''))
e("comp-op", (C, '''		l := c.compileExpr(n.Left)
		r := c.compileExpr(n.Right)
		op := n.Op.String()
		if op == "." {
			op = "concat"
		}
		return fmt.Sprintf("(%s %s %s)", op, l, r)
''', '''		op := "concat"
		if n.Op != token.DOT {
			op = n.Op.String()
		}
		return fmt.Sprintf("(%s %s %s)", op, c.compileExpr(n.Left), c.compileExpr(n.Right))
'''))

# ---- the walk
e("walk-end-helper", (W, '''		if n.EndIf != nil {
			Walk(v, n.EndIf)
		}
''', '''		walkEnd(v, n.EndIf, n.EndIf != nil)
'''), (W, '''		if n.EndWhile != nil {
			Walk(v, n.EndWhile)
		}
''', '''		walkEnd(v, n.EndWhile, n.EndWhile != nil)
'''), (W, "type inspector func(Node) bool\n", '''func walkEnd(v Visitor, node Node, present bool) {
	if present {
		Walk(v, node)
	}
}

type inspector func(Node) bool
'''))
e("walk-children", (W, '''	if v = v.Visit(node); v == nil {
		return
	}
''', '''	w := v.Visit(node)
	if w == nil {
		return
	}
	walkChildren(w, node)
	w.Visit(nil)
}

// walkChildren walks the children of node.
func walkChildren(v Visitor, node Node) {
'''), (W, '''		panic(fmt.Sprintf("ast.Walk: unexpected node type %T", n))
	}
	v.Visit(nil)
}
''', '''		panic(fmt.Sprintf("ast.Walk: unexpected node type %T", n))
	}
}
'''))
e("walk-index-loops", (W, "func walkExprList(", '''func walkExprList(v Visitor, list []Expr) {
	for i := 0; i < len(list); i++ {
		Walk(v, list[i])
	}
}
'''), (W, "func walkStmtList(", '''func walkStmtList(v Visitor, list []Statement) {
	for len(list) > 0 {
		Walk(v, list[0])
		list = list[1:]
	}
}
'''))
e("walk-inspect", (W, "func (f inspector) Visit(", '''func (f inspector) Visit(node Node) Visitor {
	if more := f(node); !more {
		return nil
	}
	return f
}
'''))
e("walk-expr-switch", (W, '''	case *TernaryExpr:
		Walk(v, n.Condition)
		Walk(v, n.Left)
		Walk(v, n.Right)

	case *BinaryExpr:
		Walk(v, n.Left)
		Walk(v, n.Right)

	case *UnaryExpr:
''', '''	case *TernaryExpr:
		for _, x := range []Expr{n.Condition, n.Left, n.Right} {
			Walk(v, x)
		}

	case *BinaryExpr:
		walkExprList(v, []Expr{n.Left, n.Right})

	case *UnaryExpr:
'''))

# ---- nodes, tokens, printer
e("pos-string", ("ast/pos.go", "func (pos Pos) String(", '''func (pos Pos) String() string {
	at := fmt.Sprintf("%d:%d", pos.Line, pos.Column)
	if pos.Filename == "" {
		return at
	}
	return pos.Filename + ":" + at
}
'''))
e("excmd-cmd", (N, "func (e *Excmd) Cmd(", '''func (e *Excmd) Cmd() Cmd {
	var cmd Cmd
	if c := e.ExArg.Cmd; c != nil {
		cmd = *c
	}
	return cmd
}
'''))
e("cmd-helper", (N, "(f *Function) Cmd() Cmd { return *f.ExArg.Cmd }", "(f *Function) Cmd() Cmd { return f.ExArg.cmd() }"),
  (N, "(f *Let) Cmd() Cmd { return *f.ExArg.Cmd }", "(f *Let) Cmd() Cmd { return f.ExArg.cmd() }"),
  ("ast/exarg.go", "// Cmd represents command.\n", "func (a *ExArg) cmd() Cmd { return *a.Cmd }\n\n// Cmd represents command.\n"))
e("token-string", (TK, "func (tok Token) String(", '''func (tok Token) String() string {
	if tok < 0 || int(tok) >= len(tokens) || tokens[tok] == "" {
		return "token(" + strconv.Itoa(int(tok)) + ")"
	}
	return tokens[tok]
}
'''))
e("printer-parens", (PE, "func (p *printer) binaryExpr(", '''func (p *printer) parens(x ast.Expr) {
	p.token(token.POPEN)
	p.expr(x)
	p.token(token.PCLOSE)
}

func (p *printer) binaryExpr(x *ast.BinaryExpr, prec1 int) {
	prec := opprec(x)
	if prec >= prec1 {
		p.expr1(x.Left, prec)
		p.printWhite(blank)
		p.token(x.Op)
		p.printWhite(blank)
		p.expr1(x.Right, prec+1)
		return
	}
	p.parens(x)
}
'''), (PE, "func (p *printer) unaryExpr(", '''func (p *printer) unaryExpr(x *ast.UnaryExpr, prec1 int) {
	prec := opprec(x)
	if prec < prec1 {
		p.parens(x)
		return
	}
	p.token(x.Op)
	p.expr1(x.X, prec)
}
'''))
e("printer-paren-loop", (PE, '''		if _, hasParens := x.X.(*ast.ParenExpr); hasParens {
			p.expr(x.X)
		} else {
			p.token(token.POPEN)
			p.expr(x.X)
			p.token(token.PCLOSE)
		}
''', '''		switch x.X.(type) {
		case *ast.ParenExpr:
			p.expr1(x.X, 0)
		default:
			p.writeString("(")
			p.expr1(x.X, 0)
			p.writeString(")")
		}
'''))
e("printer-blank", (PE, '''	p.printWhite(blank)
	p.token(x.Op)
	p.printWhite(blank)
''', '''	p.writeString(" " + x.Op.String() + " ")
'''))
e("printer-binprec", (PO, '''		switch n.Op {
		case token.OROR:
			return 2
		case token.ANDAND:
			return 3
''', '''		switch {
		case n.Op == token.OROR:
			return 2
		case n.Op == token.ANDAND:
			return 3
		}
		switch n.Op {
'''))
e("printer-fprint", (PP, "func Fprint(", '''func Fprint(output io.Writer, node ast.Node, cfg *Config) error {
	p := &printer{}
	p.init(cfg)
	err := p.printNode(node)
	if err == nil {
		_, err = output.Write(p.output)
	}
	return err
}
'''))

# ---- the entry points and the tool
e("root-error-helper", (R, '''			if e, ok := r.(*internal.ParseError); ok {
				err = &ErrVimlParser{
					Filename: filename,
					Offset:   e.Offset,
					Line:     e.Line,
					Column:   e.Column,
					Msg:      e.Msg,
				}
			} else {
				err = fmt.Errorf("%v", r)
			}
''', '''			err = recovered(r, filename)
'''), (R, '''			if e, ok := r.(*internal.ParseError); ok {
				err = &ErrVimlParser{
					Offset: e.Offset,
					Line:   e.Line,
					Column: e.Column,
					Msg:    e.Msg,
				}
			} else {
				err = fmt.Errorf("%v", r)
			}
''', '''			err = recovered(r, "")
'''), (R, "func readlines(r io.Reader) ([]string, error) {\n", '''// recovered turns what the parser panicked with into an error.
func recovered(r interface{}, filename string) error {
	switch e := r.(type) {
	case *internal.ParseError:
		return &ErrVimlParser{
			Filename: filename,
			Offset:   e.Offset,
			Line:     e.Line,
			Column:   e.Column,
			Msg:      e.Msg,
		}
	}
	return fmt.Errorf("%v", r)
}

func readlines(r io.Reader) ([]string, error) {
'''))
e("root-neovim-first", (R, '''	reader := internal.NewStringReader(lines)
	neovim := false
	if opt != nil {
		neovim = opt.Neovim
	}
	node = internal.NewVimLParser(neovim).Parse(reader, filename).(*ast.File)
	return
''', '''	neovim := opt != nil && opt.Neovim
	parser := internal.NewVimLParser(neovim)
	tree := parser.Parse(internal.NewStringReader(lines), filename)
	return tree.(*ast.File), nil
'''))
e("root-error-string", (R, "func (e *ErrVimlParser) Error(", '''func (e *ErrVimlParser) Error() string {
	if e.Filename == "" {
		return fmt.Sprintf("vimlparser: %s: line %d col %d", e.Msg, e.Line, e.Column)
	}
	return e.Filename + fmt.Sprintf(":%d:%d: vimlparser: %s", e.Line, e.Column, e.Msg)
}
'''))
e("root-readlines-err", (R, "func readlines(", '''func readlines(r io.Reader) ([]string, error) {
	scanner := bufio.NewScanner(r)
	scanner.Buffer(nil, math.MaxInt32) // Vim script has no limit on line length
	var lines []string
	for scanner.Scan() {
		line := scanner.Text()
		lines = append(lines, line)
	}
	err := scanner.Err()
	return lines, err
}
'''))
e("main-run", (M, "func main(", '''func main() {
	flag.Parse()
	os.Exit(run(flag.Args()))
}

func run(files []string) int {
	opt := &vimlparser.ParseOption{Neovim: *neovim}
	if len(files) == 0 {
		if err := parseFile("", os.Stdin, os.Stdout, opt, *usejson); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 1
		}
		return 0
	}
	exitCode := 0
	for i, file := range files {
		f, err := os.Open(file)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			if i == 0 {
				flag.Usage()
			}
			exitCode = 1
			continue
		}
		if err := parseFile(f.Name(), f, os.Stdout, opt, *usejson); err != nil {
			fmt.Fprintln(os.Stderr, err)
			exitCode = 1
		}
	}
	return exitCode
}
'''))
e("main-one-file", (M, '''		f, err := os.Open(file)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			if i == 0 {
				flag.Usage()
			}
			exitCode = 1
			continue
		}
		if err := parseFile(f.Name(), f, os.Stdout, opt, *usejson); err != nil {
			fmt.Fprintln(os.Stderr, err)
			exitCode = 1
		}
''', '''		f, err := os.Open(file)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			if i == 0 {
				flag.Usage()
			}
			exitCode = 1
		} else if err := parseFile(f.Name(), f, os.Stdout, opt, *usejson); err != nil {
			fmt.Fprintln(os.Stderr, err)
			exitCode = 1
		}
'''))

# ---- helpers
e("fn-escape", (F, "func viml_escape(", '''func viml_escape(s string, chars string) string {
	var b strings.Builder
	for _, c := range viml_split(s, `\\zs`) {
		if strings.Contains(chars, c) {
			b.WriteString(`\\`)
		}
		b.WriteString(c)
	}
	return b.String()
}
'''))
e("fn-join", (F, "func viml_join(", '''func viml_join(lst vimlList, sep string) string {
	if ss, ok := lst.([]string); ok {
		return strings.Join(ss, sep)
	}
	s := reflect.ValueOf(lst)
	ss := make([]string, 0, s.Len())
	for i := 0; i < s.Len(); i++ {
		ss = append(ss, fmt.Sprintf("%v", s.Index(i)))
	}
	return strings.Join(ss, sep)
}
'''))
e("fn-range", (F, "func viml_range(", '''func viml_range(start, end int) []int {
	var rs []int
	for start <= end {
		rs = append(rs, start)
		start++
	}
	return rs
}
'''))
e("fn-split", (F, "func viml_split(", '''func viml_split(s string, sep string) []string {
	if sep != `\\zs` {
		panic("NotImplemented viml_split")
	}
	ss := make([]string, 0, len(s))
	for i := 0; i < len(s); {
		// keep bytes which are not valid UTF-8 as they are
		_, w := utf8.DecodeRuneInString(s[i:])
		ss = append(ss, s[i:i+w])
		i += w
	}
	return ss
}
'''))
e("fn-str2nr", (F, "func viml_str2nr(", '''func viml_str2nr(s string, base int) int {
	r, err := strconv.ParseInt(s, base, 32)
	if err != nil {
		if e, ok := err.(*strconv.NumError); !ok || e.Err != strconv.ErrRange {
			panic(fmt.Errorf("viml_str2nr: %v", err))
		}
	}
	return int(r)
}
'''))
e("fn-has-key", (F, '''	case map[string]*Cmd:
		_, ok := o[key.(string)]
		return ok
	case map[string]interface{}:
''', '''	case map[string]*Cmd:
		if _, found := o[key.(string)]; found {
			return true
		}
		return false
	case map[string]interface{}:
'''))
e("fn-init-var", (F, '''var patVim2GoRegh = make(map[string]*regexp.Regexp)

func init() {
	for k, v := range patVim2Go {
		patVim2GoRegh[k] = regexp.MustCompile(v)
	}
}
''', '''var patVim2GoRegh = compilePatterns(patVim2Go)

func compilePatterns(pats map[string]string) map[string]*regexp.Regexp {
	m := make(map[string]*regexp.Regexp, len(pats))
	for k, v := range pats {
		m[k] = regexp.MustCompile(v)
	}
	return m
}
'''))
e("fn-eqregh", (F, "func viml_eqregh(", '''func viml_eqregh(s, reg string) bool {
	r, ok := patVim2GoRegh[reg]
	if !ok {
		panic("NotImplemented viml_eqregh")
	}
	matched := r.MatchString(s)
	return matched
}
'''))
e("type-reader-init", (T, '''	var lnum = 0
	var offset = 0
	for lnum < len(lines) {
		var col = 0
		for _, c := range viml_split(lines[lnum], `\\zs`) {
			self.buf = append(self.buf, c)
			self.pos = append(self.pos, pos{lnum: lnum + 1, col: col + 1, offset: offset})
			col += len(c)
			offset += len(c)
		}
''', '''	var lnum = 0
	var offset = 0
	add := func(c string, lnum, col int) {
		self.buf = append(self.buf, c)
		self.pos = append(self.pos, pos{lnum: lnum, col: col, offset: offset})
	}
	for lnum < len(lines) {
		var col = 0
		for _, c := range viml_split(lines[lnum], `\\zs`) {
			add(c, lnum+1, col+1)
			col += len(c)
			offset += len(c)
		}
'''))
e("type-getpos", (T, "func (self *StringReader) getpos(", '''func (self *StringReader) getpos() *pos {
	p := new(pos)
	*p = self.pos[self.i]
	p.i = self.i
	return p
}
'''))
e("type-pop", (T, VP + "pop_context(", '''func (self *VimLParser) pop_context() {
	rest := self.context[1:]
	self.context = rest
}
'''), (T, VP + "push_context(", '''func (self *VimLParser) push_context(n *VimNode) {
	context := make([]*VimNode, 0, len(self.context)+1)
	context = append(context, n)
	context = append(context, self.context...)
	self.context = context
}
'''))
e("type-new-literals", (T, "func NewVimLParser(", '''func NewVimLParser(neovim bool) *VimLParser {
	return &VimLParser{
		find_command_cache: map[string]*Cmd{},
		neovim:             neovim,
	}
}
'''), (T, "func NewExprTokenizer(", '''func NewExprTokenizer(reader *StringReader) *ExprTokenizer {
	tok := &ExprTokenizer{cache: map[int][]interface{}{}}
	tok.__init__(reader)
	return tok
}
'''))
e("type-indent", (T, CP + "incindent(", '''func (self *Compiler) incindent(s string) {
	deeper := self.indent[0] + s
	self.indent = append([]string{deeper}, self.indent...)
}
'''))
E_ALL = E
