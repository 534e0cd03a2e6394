"""Rewrites of block commands, targets, conversion and dispatch that keep the behaviour."""
V = "go/vimlparser.go"
T = "go/type.go"
X = "go/export.go"
C = "compiler/compiler.go"
P = "printer/printer.go"
E_ALL = []

def e(name, *subs):
    E_ALL.append((name, list(subs)))

def fn(f, head, new):
    return (f, "FN:" + head, new.lstrip("\n"))

HELP = '''
func (self *VimLParser) cmd_node(type_ int) *VimNode {
	var node = Node(type_)
	node.pos = self.ea.cmdpos
	node.ea = self.ea
	return node
}

func (self *VimLParser) inside(types ...int) bool {
	for _, t := range types {
		if self.context[0].type_ == t {
			return true
		}
	}
	return false
}

func (self *VimLParser) back_to(type_ int) {
	if self.context[0].type_ != type_ {
		self.pop_context()
	}
}
'''
e("blocks-helpers", fn(V, "func (self *VimLParser) parse_cmd_elseif(", HELP + '''
func (self *VimLParser) parse_cmd_elseif() {
	if !self.inside(NODE_IF, NODE_ELSEIF) {
		panic(Err("E582: :elseif without :if", self.ea.cmdpos))
	}
	self.back_to(NODE_IF)
	var node = self.cmd_node(NODE_ELSEIF)
	node.cond = self.parse_expr()
	self.context[0].elseif = append(self.context[0].elseif, node)
	self.push_context(node)
}
'''), fn(V, "func (self *VimLParser) parse_cmd_else(", '''
func (self *VimLParser) parse_cmd_else() {
	if !self.inside(NODE_IF, NODE_ELSEIF) {
		panic(Err("E581: :else without :if", self.ea.cmdpos))
	}
	self.back_to(NODE_IF)
	var node = self.cmd_node(NODE_ELSE)
	self.context[0].else_ = node
	self.push_context(node)
}
'''), fn(V, "func (self *VimLParser) parse_cmd_finally(", '''
func (self *VimLParser) parse_cmd_finally() {
	if !self.inside(NODE_CATCH, NODE_TRY) {
		panic(Err("E606: :finally without :try", self.ea.cmdpos))
	}
	self.back_to(NODE_TRY)
	var node = self.cmd_node(NODE_FINALLY)
	self.context[0].finally = node
	self.push_context(node)
}
'''), fn(V, "func (self *VimLParser) parse_cmd_endtry(", '''
func (self *VimLParser) parse_cmd_endtry() {
	if !self.inside(NODE_TRY, NODE_CATCH, NODE_FINALLY) {
		panic(Err("E602: :endtry without :try", self.ea.cmdpos))
	}
	self.back_to(NODE_TRY)
	self.context[0].endtry = self.cmd_node(NODE_ENDTRY)
	self.pop_context()
}
'''))
e("blocks-switch", fn(V, "func (self *VimLParser) parse_cmd_catch(", '''
func (self *VimLParser) parse_cmd_catch() {
	switch self.context[0].type_ {
	case NODE_TRY:
	case NODE_CATCH:
		self.pop_context()
	case NODE_FINALLY:
		panic(Err("E604: :catch after :finally", self.ea.cmdpos))
	default:
		panic(Err("E603: :catch without :try", self.ea.cmdpos))
	}
	var node = Node(NODE_CATCH)
	node.pos, node.ea = self.ea.cmdpos, self.ea
	self.reader.skip_white()
	if c := self.reader.peek(); !self.ends_excmds(c) {
		self.reader.get()
		node.pattern, _ = self.parse_pattern(c)
	}
	var try = self.context[0]
	try.catch = append(try.catch, node)
	self.push_context(node)
}
'''), fn(V, "func (self *VimLParser) parse_cmd_endif(", '''
func (self *VimLParser) parse_cmd_endif() {
	switch self.context[0].type_ {
	case NODE_IF:
	case NODE_ELSEIF, NODE_ELSE:
		self.pop_context()
	default:
		panic(Err("E580: :endif without :if", self.ea.cmdpos))
	}
	var block = self.context[0]
	block.endif = Node(NODE_ENDIF)
	block.endif.pos = self.ea.cmdpos
	block.endif.ea = self.ea
	self.pop_context()
}
'''))
e("loops-ctl", fn(V, "func (self *VimLParser) parse_cmd_continue(", '''
func (self *VimLParser) in_loop() bool {
	return self.find_context(NODE_FOR) != -1 || self.find_context(NODE_WHILE) != -1
}

func (self *VimLParser) loop_cmd(type_ int, msg string) {
	if !self.in_loop() {
		panic(Err(msg, self.ea.cmdpos))
	}
	var node = Node(type_)
	node.pos = self.ea.cmdpos
	node.ea = self.ea
	self.add_node(node)
}

func (self *VimLParser) parse_cmd_continue() {
	self.loop_cmd(NODE_CONTINUE, "E586: :continue without :while or :for")
}
'''), fn(V, "func (self *VimLParser) parse_cmd_break(", '''
func (self *VimLParser) parse_cmd_break() {
	self.loop_cmd(NODE_BREAK, "E587: :break without :while or :for")
}
'''))
e("loops-end", fn(V, "func (self *VimLParser) parse_cmd_endwhile(", '''
func (self *VimLParser) close_loop(open, end int, name string) *VimNode {
	var loop = self.context[0]
	if loop.type_ != open {
		panic(Err("E588: :end"+name+" without :"+name, self.ea.cmdpos))
	}
	var node = Node(end)
	node.pos = self.ea.cmdpos
	node.ea = self.ea
	if open == NODE_WHILE {
		loop.endwhile = node
	} else {
		loop.endfor = node
	}
	self.pop_context()
	return node
}

func (self *VimLParser) parse_cmd_endwhile() {
	self.close_loop(NODE_WHILE, NODE_ENDWHILE, "while")
}
'''), fn(V, "func (self *VimLParser) parse_cmd_endfor(", '''
func (self *VimLParser) parse_cmd_endfor() {
	self.close_loop(NODE_FOR, NODE_ENDFOR, "for")
}
'''))
e("find-context-direct", fn(V, "func (self *VimLParser) parse_cmd_continue(", '''
func (self *VimLParser) parse_cmd_continue() {
	var inloop = false
	for _, n := range self.context {
		if n.type_ == NODE_WHILE || n.type_ == NODE_FOR {
			inloop = true
			break
		}
	}
	if !inloop {
		panic(Err("E586: :continue without :while or :for", self.ea.cmdpos))
	}
	var node = Node(NODE_CONTINUE)
	node.pos = self.ea.cmdpos
	node.ea = self.ea
	self.add_node(node)
}
'''))
e("return-invert", fn(V, "func (self *VimLParser) parse_cmd_return(", '''
func (self *VimLParser) parse_cmd_return() {
	if self.find_context(NODE_FUNCTION) < 0 {
		panic(Err("E133: :return not inside a function", self.ea.cmdpos))
	}
	self.reader.skip_white()
	var node = Node(NODE_RETURN)
	node.pos = self.ea.cmdpos
	node.ea = self.ea
	switch c := self.reader.peek(); {
	case c == "\\"", !self.ends_excmds(c):
		node.left = self.parse_expr()
	}
	self.add_node(node)
}
'''))
e("return-eq", fn(V, "func (self *VimLParser) parse_cmd_return(", '''
func (self *VimLParser) parse_cmd_return() {
	if self.find_context(NODE_FUNCTION) == -1 {
		panic(Err("E133: :return not inside a function", self.ea.cmdpos))
	}
	self.reader.skip_white()
	var node = Node(NODE_RETURN)
	node.pos = self.ea.cmdpos
	node.ea = self.ea
	if c := self.reader.peek(); c == "\\"" || !self.ends_excmds(c) {
		node.left = self.parse_expr()
	}
	self.add_node(node)
}
'''))
e("call-late-node", fn(V, "func (self *VimLParser) parse_cmd_call(", '''
func (self *VimLParser) parse_cmd_call() {
	self.reader.skip_white()
	if self.ends_excmds(self.reader.peek()) {
		panic(Err("E471: Argument required", self.reader.getpos()))
	}
	var call = self.parse_expr()
	if call.type_ != NODE_CALL {
		panic(Err("Not an function call", call.pos))
	}
	var node = Node(NODE_EXCALL)
	node.pos = self.ea.cmdpos
	node.ea = self.ea
	node.left = call
	self.add_node(node)
}
'''))
e("let-switch", fn(V, "func (self *VimLParser) parse_cmd_let(", '''
func (self *VimLParser) parse_cmd_let() {
	var pos = self.reader.tell()
	self.reader.skip_white()
	// :let
	if self.ends_excmds(self.reader.peek()) {
		self.reader.seek_set(pos)
		self.parse_cmd_common()
		return
	}
	var lhs = self.parse_letlhs()
	self.reader.skip_white()
	var op = self.let_op()
	// :let {var-name} ..
	if op == "" {
		self.reader.seek_set(pos)
		self.parse_cmd_common()
		return
	}
	// :let left op right
	var node = Node(NODE_LET)
	node.pos = self.ea.cmdpos
	node.ea = self.ea
	node.op = op
	node.left = lhs.left
	node.list = lhs.list
	node.rest = lhs.rest
	if op != "=<<" {
		self.reader.getn(len(op))
		node.right = self.parse_expr()
	} else {
		var oppos = self.reader.getpos()
		self.reader.getn(len(op))
		self.reader.skip_white()
		node.right = self.parse_heredoc()
		node.right.pos = oppos
	}
	self.add_node(node)
}

func (self *VimLParser) let_op() string {
	var s1 = self.reader.peekn(1)
	var s2 = self.reader.peekn(2)
	// TODO check scriptversion?
	if s2 == ".." || s2 == "=<" {
		s2 = self.reader.peekn(3)
	}
	if self.ends_excmds(s1) {
		return ""
	}
	switch s2 {
	case "+=", "-=", ".=", "..=", "*=", "/=", "%=", "=<<":
		return s2
	}
	if s1 == "=" {
		return s1
	}
	return ""
}
'''))
e("const-cond", fn(V, "func (self *VimLParser) parse_cmd_const(", '''
func (self *VimLParser) parse_cmd_const() {
	var pos = self.reader.tell()
	self.reader.skip_white()
	// :const
	if !self.ends_excmds(self.reader.peek()) {
		var lhs = self.parse_constlhs()
		self.reader.skip_white()
		if self.reader.peekn(1) == "=" {
			// :const left op right
			var node = Node(NODE_CONST)
			node.pos = self.ea.cmdpos
			node.ea = self.ea
			node.op = self.reader.getn(1)
			node.left, node.list, node.rest = lhs.left, lhs.list, lhs.rest
			node.right = self.parse_expr()
			self.add_node(node)
			return
		}
	}
	// :const {var-name}
	self.reader.seek_set(pos)
	self.parse_cmd_common()
}
'''))
e("lock-merge", fn(V, "func (self *VimLParser) parse_cmd_lockvar(", '''
func (self *VimLParser) parse_lock(type_ int) {
	var node = Node(type_)
	node.pos = self.ea.cmdpos
	node.ea = self.ea
	self.reader.skip_white()
	if d := self.reader.read_digit(); d != "" {
		node.depth = viml_str2nr(d, 10)
	}
	node.list = self.parse_lvaluelist()
	self.add_node(node)
}

func (self *VimLParser) parse_cmd_lockvar() {
	self.parse_lock(NODE_LOCKVAR)
}
'''), fn(V, "func (self *VimLParser) parse_cmd_unlockvar(", '''
func (self *VimLParser) parse_cmd_unlockvar() {
	self.parse_lock(NODE_UNLOCKVAR)
}
'''))
e("lock-merge2", fn(V, "func (self *VimLParser) parse_cmd_lockvar(", '''
func (self *VimLParser) parse_lock(type_ int) {
	var depth = 0
	self.reader.skip_white()
	if isdigit(self.reader.peekn(1)) {
		depth = viml_str2nr(self.reader.read_digit(), 10)
	}
	var list = self.parse_lvaluelist()
	var node = Node(type_)
	node.pos = self.ea.cmdpos
	node.ea = self.ea
	node.depth = depth
	node.list = list
	self.add_node(node)
}

func (self *VimLParser) parse_cmd_lockvar() {
	self.parse_lock(NODE_LOCKVAR)
}
'''), fn(V, "func (self *VimLParser) parse_cmd_unlockvar(", '''
func (self *VimLParser) parse_cmd_unlockvar() {
	self.parse_lock(NODE_UNLOCKVAR)
}
'''))
e("for-lhs", fn(V, "func (self *VimLParser) parse_cmd_for(", '''
func (self *VimLParser) parse_cmd_for() {
	var lhs = self.parse_letlhs()
	self.reader.skip_white()
	var epos = self.reader.getpos()
	if word := self.reader.read_alpha(); word != "in" {
		panic(Err("Missing \\"in\\" after :for", epos))
	}
	var right = self.parse_expr()
	var node = Node(NODE_FOR)
	node.pos = self.ea.cmdpos
	node.ea = self.ea
	node.left = lhs.left
	node.list = lhs.list
	node.rest = lhs.rest
	node.right = right
	self.add_node(node)
	self.push_context(node)
}
'''))
e("lvalue-switch", fn(V, "func (self *VimLParser) parse_lvalue(", '''
func checkvarname(node *VimNode) {
	if node.type_ == NODE_IDENTIFIER && !isvarname(node.value.(string)) {
		panic(Err(viml_printf("E461: Illegal variable name: %s", node.value), node.pos))
	}
}

func (self *VimLParser) parse_lvalue() *VimNode {
	var node = NewLvalueParser(self.reader).parse()
	checkvarname(node)
	switch node.type_ {
	case NODE_IDENTIFIER, NODE_CURLYNAME, NODE_SUBSCRIPT, NODE_SLICE, NODE_DOT, NODE_OPTION, NODE_ENV, NODE_REG:
		return node
	default:
		panic(Err("Invalid Expression", node.pos))
	}
}
'''), fn(V, "func (self *VimLParser) parse_constlvalue(", '''
func (self *VimLParser) parse_constlvalue() *VimNode {
	var node = NewLvalueParser(self.reader).parse()
	checkvarname(node)
	var msg string
	switch node.type_ {
	case NODE_IDENTIFIER, NODE_CURLYNAME:
		return node
	case NODE_SUBSCRIPT, NODE_SLICE, NODE_DOT:
		msg = "E996: Cannot lock a list or dict"
	case NODE_OPTION:
		msg = "E996: Cannot lock an option"
	case NODE_ENV:
		msg = "E996: Cannot lock an environment variable"
	case NODE_REG:
		msg = "E996: Cannot lock a register"
	default:
		msg = "Invalid Expression"
	}
	panic(Err(msg, node.pos))
}
'''))
e("constlvalue-map", fn(V, "func (self *VimLParser) parse_constlvalue(", '''
var constErrors = map[int]string{
	NODE_SUBSCRIPT: "E996: Cannot lock a list or dict",
	NODE_SLICE:     "E996: Cannot lock a list or dict",
	NODE_DOT:       "E996: Cannot lock a list or dict",
	NODE_OPTION:    "E996: Cannot lock an option",
	NODE_ENV:       "E996: Cannot lock an environment variable",
	NODE_REG:       "E996: Cannot lock a register",
}

func (self *VimLParser) parse_constlvalue() *VimNode {
	var node = NewLvalueParser(self.reader).parse()
	if node.type_ == NODE_CURLYNAME {
		return node
	}
	if node.type_ == NODE_IDENTIFIER {
		if isvarname(node.value.(string)) {
			return node
		}
		panic(Err(viml_printf("E461: Illegal variable name: %s", node.value), node.pos))
	}
	if msg, ok := constErrors[node.type_]; ok {
		panic(Err(msg, node.pos))
	}
	panic(Err("Invalid Expression", node.pos))
}
'''))
e("dot-concat-shared", fn(V, "func (self *ExprParser) parse_concat(", '''
func can_take_name(left *VimNode) bool {
	switch left.type_ {
	case NODE_IDENTIFIER, NODE_CURLYNAME, NODE_DICT, NODE_SUBSCRIPT, NODE_CALL, NODE_DOT:
		return true
	}
	return false
}

func named(type_ int, pos *pos, left *VimNode, namepos *pos, name string) *VimNode {
	var ident = Node(NODE_IDENTIFIER)
	ident.pos = namepos
	ident.value = name
	var node = Node(type_)
	node.pos = pos
	node.left = left
	node.right = ident
	return node
}

func (self *ExprParser) parse_concat(token *ExprToken, left *VimNode) *VimNode {
	if !can_take_name(left) || !iswordc(self.reader.p(0)) {
		return nil
	}
	var pos = self.reader.getpos()
	if name := self.reader.read_word(); !isnamec(self.reader.p(0)) {
		return named(NODE_CONCAT, token.pos, left, pos, name)
	}
	// XXX: foo is str => ok, foo is obj => invalid expression
	// foo.s:bar or foo.bar#baz
	return nil
}
'''))
e("exarg-assign", fn(X, "func newExArg(", '''
func newExArg(ea ExArg, filename string) ast.ExArg {
	x := ast.ExArg{
		Forceit:   ea.forceit,
		AddrCount: ea.addr_count,
		Line1:     ea.line1,
		Line2:     ea.line2,
		Flags:     ea.flags,
		Append:    ea.append,
		Usefilter: ea.usefilter,
		Amount:    ea.amount,
		Regname:   ea.regname,
		ReadEdit:  ea.read_edit,
		BadChar:   ea.bad_char,
	}
	x.DoEcmdCmd, x.DoEcmdLnum = ea.do_ecmd_cmd, ea.do_ecmd_lnum
	setForce(&x, &ea)
	x.Linepos = newPos(ea.linepos, filename)
	x.Cmdpos = newPos(ea.cmdpos, filename)
	x.Argpos = newPos(ea.argpos, filename)
	if c := ea.cmd; c != nil {
		x.Cmd = newCmd(c)
	}
	x.Modifiers = ea.modifiers
	x.Range = ea.range_
	x.Argopt = ea.argopt
	x.Argcmd = ea.argcmd
	return x
}

func setForce(x *ast.ExArg, ea *ExArg) {
	x.ForceBin = ea.force_bin
	x.ForceFf = ea.force_ff
	x.ForceEnc = ea.force_enc
}
'''))
e("printnode-order", fn(P, "func (p *printer) printNode(", '''
func (p *printer) printNode(node ast.Node) error {
	if f, ok := node.(*ast.File); ok {
		return p.file(f)
	}
	if x, ok := node.(ast.Expr); ok {
		p.expr(x)
		return nil
	}
	if s, ok := node.(ast.Statement); ok {
		return p.stmt(s)
	}
	return fmt.Errorf("go-vimlparser/printer: unsupported node type %T", node)
}
'''))
e("comp-excommand-split", fn(C, "func (c *Compiler) compileExcommand(", '''
func (c *Compiler) compileExcommand(node ast.ExCommand) error {
	switch n := node.(type) {
	case *ast.Function:
		return c.compileFunction(n)
	case *ast.If:
		return c.compileIf(n)
	case *ast.While:
		return c.compileWhile(n)
	case *ast.For:
		return c.compileFor(n)
	case *ast.Try:
		return c.compileTry(n)
	case *ast.EndFor, *ast.EndIf, *ast.Finally, *ast.EndFunction, *ast.EndTry,
		*ast.EndWhile, *ast.Catch, *ast.Else, *ast.ElseIf:
		return fmt.Errorf("compileExcommand: unexpected Node: %v", n)
	}
	c.compileSimple(node)
	return nil
}

func (c *Compiler) compileSimple(node ast.ExCommand) {
	switch n := node.(type) {
	case *ast.Excmd:
		c.compileExcmd(n)
	case *ast.DelFunction:
		c.compileDelfunction(n)
	case *ast.Return:
		c.compileReturn(n)
	case *ast.ExCall:
		c.compileExcall(n)
	case *ast.Let:
		c.compileLet(n)
	case *ast.UnLet:
		c.compileUnlet(n)
	case *ast.LockVar:
		c.compileLockvar(n)
	case *ast.UnLockVar:
		c.compileUnlockvar(n)
	case *ast.Continue:
		c.compileSingleCmd(n)
	case *ast.Break:
		c.compileSingleCmd(n)
	case *ast.Throw:
		c.compileThrow(n)
	case *ast.Eval:
		c.compileEval(n)
	case *ast.EchoCmd:
		c.compileEchocmd(n)
	case *ast.Echohl:
		c.compileEchohl(n)
	case *ast.Execute:
		c.compileExecute(n)
	}
}
'''))
e("comp-compile-ifs", fn(C, "func (c *Compiler) compile(", '''
func (c *Compiler) compile(node interface{}) error {
	switch n := node.(type) {
	case *ast.File:
		return c.compileFile(n)
	case *ast.Comment:
		return c.compileComment(n)
	case ast.ExCommand:
		return c.compileExcommand(n)
	case []ast.Statement:
		return c.compileStatements(n)
	case ast.Expr:
		s := c.compileExpr(n)
		c.fprint("%s", s)
	}
	return nil
}

func (c *Compiler) compileStatements(stmts []ast.Statement) error {
	for i := 0; i < len(stmts); i++ {
		err := c.compile(stmts[i])
		if err != nil {
			return err
		}
	}
	return nil
}
'''), fn(C, "func (c *Compiler) compileFile(", '''
func (c *Compiler) compileFile(node *ast.File) error {
	return c.compileStatements(node.Body)
}
'''))
