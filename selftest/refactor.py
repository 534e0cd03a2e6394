"""Edits of the repository that keep its behaviour: (name, [(file, old, new)...])."""
V = "go/vimlparser.go"
T = "go/type.go"
F = "go/vimlfunc.go"
X = "go/export.go"
C = "compiler/compiler.go"
R = "vimlparser.go"
M = "cmd/vimlparser/main.go"
W = "ast/walk.go"
E = []

def e(name, *subs):
    E.append((name, list(subs)))

# helpers extracted
e("readwhile-helper", (V, '''func (self *StringReader) read_alpha() string {
	var r = ""
	for isalpha(self.peekn(1)) {
		r += self.getn(1)
	}
	return r
}''', '''func (self *StringReader) read_while(pred func(string) bool) string {
	var r = ""
	for pred(self.peekn(1)) {
		r += self.getn(1)
	}
	return r
}

func (self *StringReader) read_alpha() string {
	return self.read_while(isalpha)
}'''))
e("readwhile-all", (V, '''	var r = ""
	for isalnum(self.peekn(1)) {
		r += self.getn(1)
	}
	return r
}''', '''	return read_while(self, isalnum)
}

func read_while(r *StringReader, ok func(c string) bool) string {
	s := ""
	for {
		c := r.peekn(1)
		if !ok(c) {
			return s
		}
		s += r.getn(1)
	}
}'''), (V, '''	var r = ""
	for isdigit(self.peekn(1)) {
		r += self.getn(1)
	}
	return r
}''', '''	return read_while(self, isdigit)
}'''))
e("excmd-node-helper", (V, '''	var node = Node(NODE_EXCMD)
	node.pos = self.ea.cmdpos
	node.ea = self.ea
	node.str = self.reader.getstr(self.ea.linepos, end)
	self.add_node(node)
}

func (self *VimLParser) separate_nextcmd''', '''	self.add_excmd(self.reader.getstr(self.ea.linepos, end))
}

func (self *VimLParser) add_excmd(str string) {
	node := self.cmd_node(NODE_EXCMD)
	node.str = str
	self.add_node(node)
}

func (self *VimLParser) cmd_node(type_ int) *VimNode {
	node := Node(type_)
	node.ea = self.ea
	node.pos = self.ea.cmdpos
	return node
}

func (self *VimLParser) separate_nextcmd'''), (V, '''	var node = Node(NODE_IF)
	node.pos = self.ea.cmdpos
	node.ea = self.ea
	node.cond = self.parse_expr()''', '''	var node = self.cmd_node(NODE_IF)
	node.cond = self.parse_expr()'''))
e("binary-helper", (V, '''		var token = self.tokenizer.get()
		if token.type_ == TOKEN_OROR {
			var node = Node(NODE_OR)
			node.pos = token.pos
			node.left = left
			node.right = self.parse_expr3()
			left = node
		} else {''', '''		var token = self.tokenizer.get()
		if token.type_ == TOKEN_OROR {
			left = newBinary(NODE_OR, token.pos, left, self.parse_expr3())
		} else {'''), (V, '''// expr3: expr4 && expr4
''', '''func newBinary(t int, p *pos, l, r *VimNode) *VimNode {
	n := Node(t)
	n.pos, n.left, n.right = p, l, r
	return n
}

// expr3: expr4 && expr4
'''), (V, '''			var node = Node(NODE_AND)
			node.pos = token.pos
			node.left = left
			node.right = self.parse_expr4()
			left = node
		} else {''', '''			right := self.parse_expr4()
			left = newBinary(NODE_AND, token.pos, left, right)
		} else {'''))
e("unexpected-helper", (V, '''		token = self.tokenizer.get()
		if token.type_ != TOKEN_COLON {
			panic(Err(viml_printf("unexpected token: %s", token.value), token.pos))
		}
		node.right = self.parse_expr1()''', '''		self.expect(TOKEN_COLON)
		node.right = self.parse_expr1()'''), (V, '''// expr2: expr3 || expr3 ..
''', '''func (self *ExprParser) expect(type_ int) *ExprToken {
	t := self.tokenizer.get()
	if t.type_ == type_ {
		return t
	}
	panic(Err(viml_printf("unexpected token: %s", t.value), t.pos))
}

// expr2: expr3 || expr3 ..
'''))
e("heredoc-split", (V, '''	self.parse_trail()
	for true {
		if self.reader.peek() == "<EOF>" {
			break
		}
		var pos = self.reader.getpos()
		var line = self.reader.getn(-1)
		if line == node.op {
			return node
		}
		var linenode = Node(NODE_STRING)
		linenode.pos = pos
		linenode.value = line
		node.body = append(node.body, linenode)
		self.reader.get()
	}
	panic(Err(viml_printf("E990: Missing end marker '%s'", node.op), self.reader.getpos()))
}''', '''	self.parse_trail()
	if !self.heredoc_body(node) {
		panic(Err(viml_printf("E990: Missing end marker '%s'", node.op), self.reader.getpos()))
	}
	return node
}

// heredoc_body reports whether the end marker was found.
func (self *VimLParser) heredoc_body(node *VimNode) bool {
	for self.reader.peek() != "<EOF>" {
		pos := self.reader.getpos()
		line := self.reader.getn(-1)
		if line == node.op {
			return true
		}
		linenode := Node(NODE_STRING)
		linenode.pos = pos
		linenode.value = line
		node.body = append(node.body, linenode)
		self.reader.get()
	}
	return false
}'''))
e("append-lines-helper", (V, '''	var lines = []interface{}{cmdline}
	var m = "."
	for true {
		if self.reader.peek() == "<EOF>" {
			break
		}
		var line = self.reader.getn(-1)
		lines = append(lines, line)
		if line == m {
			break
		}
		self.reader.get()
	}
	var node''', '''	var lines = []interface{}{cmdline}
	lines = append(lines, self.read_until(".")...)
	var node'''), (V, '''func (self *VimLParser) parse_cmd_insert() {''', '''func (self *VimLParser) read_until(m string) []interface{} {
	var lines []interface{}
	for self.reader.peek() != "<EOF>" {
		line := self.reader.getn(-1)
		lines = append(lines, line)
		if line == m {
			break
		}
		self.reader.get()
	}
	return lines
}

func (self *VimLParser) parse_cmd_insert() {'''))
e("match-cmd-helper", (V, '''	var cmd *Cmd = nil
	for _, x := range builtin_commands {
		if viml_stridx(x.name, name) == 0 && len(name) >= x.minlen {
			cmd = x
			break
		}
	}
	if self.neovim {
		for _, x := range neovim_additional_commands {
			if viml_stridx(x.name, name) == 0 && len(name) >= x.minlen {
				cmd = x
				break
			}
		}
		for _, x := range neovim_removed_commands {
			if viml_stridx(x.name, name) == 0 && len(name) >= x.minlen {
				cmd = nil
				break
			}
		}
	}''', '''	cmd := lookup_cmd(builtin_commands, name)
	if self.neovim {
		if x := lookup_cmd(neovim_additional_commands, name); x != nil {
			cmd = x
		}
		if lookup_cmd(neovim_removed_commands, name) != nil {
			cmd = nil
		}
	}'''), (V, '''// TODO:
func (self *VimLParser) parse_hashbang() {''', '''func lookup_cmd(cmds []*Cmd, name string) *Cmd {
	for _, x := range cmds {
		if viml_stridx(x.name, name) == 0 && len(name) >= x.minlen {
			return x
		}
	}
	return nil
}

// TODO:
func (self *VimLParser) parse_hashbang() {'''))
# loops rewritten
e("find-context-index", (V, '''	var i = 0
	for _, node := range self.context {
		if node.type_ == type_ {
			return i
		}
		i += 1
	}
	return -1''', '''	for i := 0; i < len(self.context); i++ {
		if self.context[i].type_ == type_ {
			return i
		}
	}
	return -1'''))
e("find-context-range", (V, '''	var i = 0
	for _, node := range self.context {
		if node.type_ == type_ {
			return i
		}
		i += 1
	}
	return -1''', '''	for i, node := range self.context {
		if node.type_ == type_ {
			return i
		}
	}
	return -1'''))
e("getn-while", (V, '''	var r = ""
	var j = 0
	for self.i < len(self.buf) && (n < 0 || j < n) {
		var c = self.buf[self.i]
		if c == "<EOL>" {
			break
		}
		r += c
		self.i += 1
		j += 1
	}
	return r''', '''	r := ""
	for j := 0; n < 0 || j < n; j++ {
		if self.i >= len(self.buf) || self.buf[self.i] == "<EOL>" {
			break
		}
		r += self.buf[self.i]
		self.i++
	}
	return r'''))
e("getn-slice", (V, '''	var r = ""
	var j = 0
	for self.i < len(self.buf) && (n < 0 || j < n) {
		var c = self.buf[self.i]
		if c == "<EOL>" {
			break
		}
		r += c
		self.i += 1
		j += 1
	}
	return r''', '''	var r = ""
	for j := 0; self.i < len(self.buf); j++ {
		if n >= 0 && j >= n {
			break
		}
		c := self.buf[self.i]
		if c == "<EOL>" {
			break
		}
		r = r + c
		self.i = self.i + 1
	}
	return r'''))
e("getstr-for", (V, '''	var r = ""
	for _, i := range viml_range(begin.i, end.i-1) {
		if i >= len(self.buf) {
			break
		}
		var c = self.buf[i]
		if c == "<EOL>" {
			c = "\\n"
		}
		r += c
	}
	return r''', '''	var r = ""
	for i := begin.i; i < end.i && i < len(self.buf); i++ {
		if c := self.buf[i]; c == "<EOL>" {
			r += "\\n"
		} else {
			r += c
		}
	}
	return r'''))
e("getstr-for2", (V, '''	var r = ""
	for _, i := range viml_range(begin.i, end.i-1) {
		if i >= len(self.buf) {
			break
		}
		var c = self.buf[i]
		if c == "<EOL>" {
			c = "\\n"
		}
		r += c
	}
	return r''', '''	var r = ""
	for i := begin.i; i <= end.i-1; i++ {
		if i >= len(self.buf) {
			break
		}
		var c = self.buf[i]
		if c == "<EOL>" {
			c = "\\n"
		}
		r += c
	}
	return r'''))
e("parse-loop", (V, '''	for self.reader.peek() != "<EOF>" {
		self.parse_one_cmd()
	}''', '''	for {
		if self.reader.peek() == "<EOF>" {
			break
		}
		self.parse_one_cmd()
	}'''))
e("nonwhite-loop", (V, '''	var r = ""
	var ch = self.peekn(1)
	for !iswhite(ch) && ch != "" {
		r += self.getn(1)
		ch = self.peekn(1)
	}
	return r''', '''	var r = ""
	for {
		ch := self.peekn(1)
		if ch == "" || iswhite(ch) {
			return r
		}
		r += self.getn(1)
	}'''))
e("skip-white-colon", (V, '''	for true {
		var c = self.peekn(1)
		if !iswhite(c) && c != ":" {
			break
		}
		self.seek_cur(1)''', '''	for c := self.peekn(1); iswhite(c) || c == ":"; c = self.peekn(1) {
		self.seek_cur(1)'''))
e("reader-init-counter", (T, '''	for lnum < len(lines) {
		var col = 0
''', '''	for ; lnum < len(lines); lnum++ {
		var col = 0
'''), (T, '''		self.pos = append(self.pos, pos{lnum: lnum + 1, col: col + 1, offset: offset})
		lnum += 1
		offset += 1''', '''		self.pos = append(self.pos, pos{lnum: lnum + 1, col: col + 1, offset: offset})
		offset += 1'''))
e("reader-init-helper", (T, '''			self.buf = append(self.buf, c)
			self.pos = append(self.pos, pos{lnum: lnum + 1, col: col + 1, offset: offset})
			col += len(c)
			offset += len(c)
		}
		for lnum+1''', '''			self.push(c, lnum+1, col+1, offset)
			col += len(c)
			offset += len(c)
		}
		for lnum+1'''), (T, '''					self.buf = append(self.buf, c)
					self.pos = append(self.pos, pos{lnum: lnum + 2, col: col + 1, offset: offset})''', '''					self.push(c, lnum+2, col+1, offset)'''),
 (T, '''		self.buf = append(self.buf, "<EOL>")
		self.pos = append(self.pos, pos{lnum: lnum + 1, col: col + 1, offset: offset})
		lnum''', '''		self.push("<EOL>", lnum+1, col+1, offset)
		lnum'''), (T, '''func (self *StringReader) getpos()''', '''func (self *StringReader) push(c string, lnum, col, offset int) {
	self.buf = append(self.buf, c)
	self.pos = append(self.pos, pos{lnum: lnum, col: col, offset: offset})
}

func (self *StringReader) getpos()'''))
e("reader-init-nosize", (T, '''	size := 0
	for _, l := range lines {
		size += len(l) + 1 // +1 for EOL
	}
	self.buf = make([]string, 0, size)
	self.pos = make([]pos, 0, size+1) // +1 for EOF
''', '''	self.buf = []string{}
	self.pos = []pos{}
'''))
e("reader-init-skip", (T, '''			var skip = true
			col = 0
			offset += 1
			for _, c := range viml_split(lines[lnum+1], `\\zs`) {
				if skip {
					if c == "\\\\" {
						skip = false
					}
				} else {''', '''			skip := true
			offset++
			col = 0
			for _, c := range viml_split(lines[lnum+1], `\\zs`) {
				if skip {
					skip = c != "\\\\"
				} else {'''))
# switch / if
e("trail-switch", (V, '''	if c == "<EOF>" {
		// pass
	} else if c == "<EOL>" {
		self.reader.get()
	} else if c == "|" {
		self.reader.get()
	} else if c == "\\"" {
		self.parse_comment()
		self.reader.get()
	} else {
		panic(Err(viml_printf("E488: Trailing characters: %s", c), self.reader.getpos()))
	}''', '''	switch c {
	case "<EOF>":
	case "<EOL>", "|":
		self.reader.get()
	case "\\"":
		self.parse_comment()
		self.reader.get()
	default:
		panic(Err(viml_printf("E488: Trailing characters: %s", c), self.reader.getpos()))
	}'''))
e("ends-excmds-switch", (V, '''	return c == "" || c == "|" || c == "\\"" || c == "<EOF>" || c == "<EOL>"
''', '''	switch c {
	case "", "|", "\\"", "<EOF>", "<EOL>":
		return true
	}
	return false
'''))
e("ends-excmds-map", (V, '''	return c == "" || c == "|" || c == "\\"" || c == "<EOF>" || c == "<EOL>"
''', '''	return excmd_end[c]
'''), (V, '''func (self *VimLParser) ends_excmds(''', '''var excmd_end = map[string]bool{"": true, "|": true, "\\"": true, "<EOF>": true, "<EOL>": true}

func (self *VimLParser) ends_excmds('''))
e("check-endif-switch", (V, '''	if self.context[0].type_ == NODE_IF || self.context[0].type_ == NODE_ELSEIF || self.context[0].type_ == NODE_ELSE {
		panic(Err(viml_printf("E171''', '''	switch self.context[0].type_ {
	case NODE_IF, NODE_ELSEIF, NODE_ELSE:
		panic(Err(viml_printf("E171'''))
e("check-helper", (V, '''	if self.context[0].type_ == NODE_WHILE {
		panic(Err(viml_printf("E170: Missing :endwhile:    %s", ends), pos))
	}''', '''	self.check_missing("E170: Missing :endwhile:    %s", ends, pos, NODE_WHILE)'''), (V, '''	if self.context[0].type_ == NODE_FOR {
		panic(Err(viml_printf("E170: Missing :endfor:    %s", ends), pos))
	}''', '''	self.check_missing("E170: Missing :endfor:    %s", ends, pos, NODE_FOR)'''), (V, '''	if self.context[0].type_ == NODE_TRY || self.context[0].type_ == NODE_CATCH || self.context[0].type_ == NODE_FINALLY {
		panic(Err(viml_printf("E600: Missing :endtry:    %s", ends), pos))
	}''', '''	self.check_missing("E600: Missing :endtry:    %s", ends, pos, NODE_TRY, NODE_CATCH, NODE_FINALLY)'''), (V, '''func (self *VimLParser) parse(reader''', '''func (self *VimLParser) check_missing(format, ends string, pos *pos, types ...int) {
	top := self.context[0].type_
	for _, t := range types {
		if top == t {
			panic(Err(viml_printf(format, ends), pos))
		}
	}
}

func (self *VimLParser) parse(reader'''))
e("endif-early", (V, '''	if self.context[0].type_ != NODE_IF && self.context[0].type_ != NODE_ELSEIF && self.context[0].type_ != NODE_ELSE {
		panic(Err("E580: :endif without :if", self.ea.cmdpos))
	}
	if self.context[0].type_ != NODE_IF {
		self.pop_context()
	}''', '''	switch self.context[0].type_ {
	case NODE_IF:
	case NODE_ELSEIF, NODE_ELSE:
		self.pop_context()
	default:
		panic(Err("E580: :endif without :if", self.ea.cmdpos))
	}'''))
e("tok-question-switch", (V, '''	if token.type_ == TOKEN_QUESTION {
		var node = Node(NODE_TERNARY)
		node.pos = token.pos
		node.cond = left
		node.left = self.parse_expr1()
		token = self.tokenizer.get()
		if token.type_ != TOKEN_COLON {
			panic(Err(viml_printf("unexpected token: %s", token.value), token.pos))
		}
		node.right = self.parse_expr1()
		left = node
	} else {
		self.reader.seek_set(pos)
	}
	return left''', '''	if token.type_ != TOKEN_QUESTION {
		self.reader.seek_set(pos)
		return left
	}
	node := Node(NODE_TERNARY)
	node.cond = left
	node.pos = token.pos
	node.left = self.parse_expr1()
	if colon := self.tokenizer.get(); colon.type_ != TOKEN_COLON {
		panic(Err(viml_printf("unexpected token: %s", colon.value), colon.pos))
	}
	node.right = self.parse_expr1()
	return node'''))
e("tok-table", (V, '''	} else if c == "(" {
		r.seek_cur(1)
		return self.token(TOKEN_POPEN, "(", pos)
	} else if c == ")" {
		r.seek_cur(1)
		return self.token(TOKEN_PCLOSE, ")", pos)
	} else if c == "[" {
		r.seek_cur(1)
		return self.token(TOKEN_SQOPEN, "[", pos)
	} else if c == "]" {
		r.seek_cur(1)
		return self.token(TOKEN_SQCLOSE, "]", pos)
	} else if c == "{" {
		r.seek_cur(1)
		return self.token(TOKEN_COPEN, "{", pos)
	} else if c == "}" {
		r.seek_cur(1)
		return self.token(TOKEN_CCLOSE, "}", pos)
	} else if c == "," {''', '''	} else if t, ok := bracketTokens[c]; ok {
		r.seek_cur(1)
		return self.token(t, c, pos)
	} else if c == "," {'''), (V, '''func (self *ExprTokenizer) get2()''', '''var bracketTokens = map[string]int{
	"(": TOKEN_POPEN,
	")": TOKEN_PCLOSE,
	"[": TOKEN_SQOPEN,
	"]": TOKEN_SQCLOSE,
	"{": TOKEN_COPEN,
	"}": TOKEN_CCLOSE,
}

func (self *ExprTokenizer) get2()'''))
e("tok-casesuffix-helper", (V, '''		if r.p(2) == "?" {
			r.seek_cur(3)
			return self.token(TOKEN_EQEQCI, "==?", pos)
		} else if r.p(2) == "#" {
			r.seek_cur(3)
			return self.token(TOKEN_EQEQCS, "==#", pos)
		} else {
			r.seek_cur(2)
			return self.token(TOKEN_EQEQ, "==", pos)
		}''', '''		return self.cmpToken("==", TOKEN_EQEQ, TOKEN_EQEQCI, TOKEN_EQEQCS, pos)'''), (V, '''		if r.p(2) == "?" {
			r.seek_cur(3)
			return self.token(TOKEN_NEQCI, "!=?", pos)
		} else if r.p(2) == "#" {
			r.seek_cur(3)
			return self.token(TOKEN_NEQCS, "!=#", pos)
		} else {
			r.seek_cur(2)
			return self.token(TOKEN_NEQ, "!=", pos)
		}''', '''		return self.cmpToken("!=", TOKEN_NEQ, TOKEN_NEQCI, TOKEN_NEQCS, pos)'''), (V, '''func (self *ExprTokenizer) get_sstring()''', '''func (self *ExprTokenizer) cmpToken(op string, plain, ci, cs int, pos *pos) *ExprToken {
	r := self.reader
	n := len(op)
	switch r.p(n) {
	case "?":
		r.seek_cur(n + 1)
		return self.token(ci, op+"?", pos)
	case "#":
		r.seek_cur(n + 1)
		return self.token(cs, op+"#", pos)
	}
	r.seek_cur(n)
	return self.token(plain, op, pos)
}

func (self *ExprTokenizer) get_sstring()'''))
e("get-cache-commaok", (V, '''	if viml_has_key(self.cache, self.reader.tell()) {
		var x = self.cache[self.reader.tell()]
		self.reader.seek_set(x[0].(int))
		return x[1].(*ExprToken)
	}
	var pos = self.reader.tell()
''', '''	var pos = self.reader.tell()
	if x, ok := self.cache[pos]; ok {
		self.reader.seek_set(x[0].(int))
		return x[1].(*ExprToken)
	}
'''))
e("find-cache-commaok", (V, '''	if viml_has_key(self.find_command_cache, name) {
		return self.find_command_cache[name]
	}''', '''	if cached, ok := self.find_command_cache[name]; ok {
		return cached
	}'''))
e("sstring-nested", (V, '''			self.reader.seek_cur(1)
			if self.reader.p(0) == "'" {
				self.reader.seek_cur(1)
				s += "''"
			} else {
				break
			}''', '''			self.reader.seek_cur(1)
			if self.reader.p(0) != "'" {
				break
			}
			self.reader.seek_cur(1)
			s += "''"'''))
e("sstring-return", (V, '''			self.reader.seek_cur(1)
			if self.reader.p(0) == "'" {
				self.reader.seek_cur(1)
				s += "''"
			} else {
				break
			}
		} else {
			self.reader.seek_cur(1)
			s += c
		}
	}
	return s''', '''			self.reader.seek_cur(1)
			if self.reader.p(0) != "'" {
				return s
			}
			s += "''"
			self.reader.seek_cur(1)
		} else {
			s += c
			self.reader.seek_cur(1)
		}
	}
	return s'''))
e("parse-command-locals", (V, '''	if self.reader.peekn(1) == "!" && self.ea.cmd.name != "substitute" && self.ea.cmd.name != "smagic" && self.ea.cmd.name != "snomagic" {
		self.reader.getn(1)
		self.ea.forceit = true
	} else {
		self.ea.forceit = false
	}''', '''	cmd := self.ea.cmd
	self.ea.forceit = self.reader.peekn(1) == "!" && cmd.name != "substitute" && cmd.name != "smagic" && cmd.name != "snomagic"
	if self.ea.forceit {
		self.reader.getn(1)
	}'''))
e("parse-command-bang", (V, '''	if !viml_eqregh(self.ea.cmd.flags, "\\\\<BANG\\\\>") && self.ea.forceit && !viml_eqregh(self.ea.cmd.flags, "\\\\<USERCMD\\\\>") {''', '''	if self.ea.forceit && !viml_eqregh(self.ea.cmd.flags, "\\\\<BANG\\\\>") && !viml_eqregh(self.ea.cmd.flags, "\\\\<USERCMD\\\\>") {'''))
e("common-merge-branches", (V, '''	} else if self.ea.cmd.name == "!" || self.ea.cmd.name == "global" || self.ea.cmd.name == "vglobal" || self.ea.usefilter {
		for true {
			end = self.reader.getpos()
			if self.reader.getn(1) == "" {
				break
			}
		}
	} else {
		for true {''', '''	} else {
		for true {'''))
e("common-skip-to-eol", (V, '''	} else if self.ea.cmd.name == "!" || self.ea.cmd.name == "global" || self.ea.cmd.name == "vglobal" || self.ea.usefilter {
		for true {
			end = self.reader.getpos()
			if self.reader.getn(1) == "" {
				break
			}
		}
	} else {
		for true {
			end = self.reader.getpos()
			if self.reader.getn(1) == "" {
				break
			}
		}
	}''', '''	} else {
		end = self.skip_line()
	}'''), (V, '''func (self *VimLParser) separate_nextcmd''', '''func (self *VimLParser) skip_line() *pos {
	for {
		p := self.reader.getpos()
		if self.reader.getn(1) == "" {
			return p
		}
	}
}

func (self *VimLParser) separate_nextcmd'''))
e("function-attrs-switch", (V, '''		if key == "" {
			break
		} else if key == "range" {
			node.attr.range_ = true
		} else if key == "abort" {
			node.attr.abort = true
		} else if key == "dict" {
			node.attr.dict = true
		} else if key == "closure" {
			node.attr.closure = true
		} else {
			panic(Err(viml_printf("unexpected token: %s", key), epos))
		}
	}
	self.add_node(node)
	self.push_context(node)
}

func (self *VimLParser) parse_cmd_endfunction''', '''		if key == "" {
			break
		}
		switch key {
		case "range":
			node.attr.range_ = true
		case "abort":
			node.attr.abort = true
		case "dict":
			node.attr.dict = true
		case "closure":
			node.attr.closure = true
		default:
			panic(Err(viml_printf("unexpected token: %s", key), epos))
		}
	}
	self.add_node(node)
	self.push_context(node)
}

func (self *VimLParser) parse_cmd_endfunction'''))
e("function-attr-helper", (V, '''	for true {
		self.reader.skip_white()
		var epos = self.reader.getpos()
		var key = self.reader.read_alpha()
		if key == "" {
			break
		} else if key == "range" {
			node.attr.range_ = true
		} else if key == "abort" {
			node.attr.abort = true
		} else if key == "dict" {
			node.attr.dict = true
		} else if key == "closure" {
			node.attr.closure = true
		} else {
			panic(Err(viml_printf("unexpected token: %s", key), epos))
		}
	}
	self.add_node(node)''', '''	self.parse_function_attrs(node.attr)
	self.add_node(node)'''), (V, '''func (self *VimLParser) parse_cmd_endfunction''', '''func (self *VimLParser) parse_function_attrs(attr *FuncAttr) {
	for {
		self.reader.skip_white()
		epos := self.reader.getpos()
		key := self.reader.read_alpha()
		switch key {
		case "":
			return
		case "range":
			attr.range_ = true
		case "abort":
			attr.abort = true
		case "dict":
			attr.dict = true
		case "closure":
			attr.closure = true
		default:
			panic(Err(viml_printf("unexpected token: %s", key), epos))
		}
	}
}

func (self *VimLParser) parse_cmd_endfunction'''))
e("parse-dot-guard", (V, '''func (self *ExprParser) parse_dot(token *ExprToken, left *VimNode) *VimNode {
	if left.type_ != NODE_IDENTIFIER && left.type_ != NODE_CURLYNAME && left.type_ != NODE_DICT && left.type_ != NODE_SUBSCRIPT && left.type_ != NODE_CALL && left.type_ != NODE_DOT {
		return nil
	}
	if !iswordc(self.reader.p(0)) {
		return nil
	}''', '''func can_have_member(n *VimNode) bool {
	switch n.type_ {
	case NODE_IDENTIFIER, NODE_CURLYNAME, NODE_DICT, NODE_SUBSCRIPT, NODE_CALL, NODE_DOT:
		return true
	}
	return false
}

func (self *ExprParser) parse_dot(token *ExprToken, left *VimNode) *VimNode {
	if !can_have_member(left) || !iswordc(self.reader.p(0)) {
		return nil
	}'''))
e("curly-parts-continue", (V, '''			node.value = name
			curly_parts = append(curly_parts, node)
		} else if c == "{" {
			pos = self.reader.getpos()
			self.reader.get()
			var node = Node(NODE_CURLYNAMEEXPR)
			node.curly = true
			// Keep backword compatibility for the curly attribute
			node.pos = pos
			node.value = self.parse_expr1()
			curly_parts = append(curly_parts, node)
			self.reader.skip_white()
			c = self.reader.p(0)
			if c != "}" {
				panic(Err(viml_printf("unexpected token: %s", c), self.reader.getpos()))
			}
			self.reader.seek_cur(1)
		} else {
			break
		}
	}
	return curly_parts''', '''			node.value = name
			curly_parts = append(curly_parts, node)
			continue
		}
		if c != "{" {
			return curly_parts
		}
		pos = self.reader.getpos()
		self.reader.get()
		node := Node(NODE_CURLYNAMEEXPR)
		node.pos = pos
		node.curly = true
		node.value = self.parse_expr1()
		curly_parts = append(curly_parts, node)
		self.reader.skip_white()
		if c = self.reader.p(0); c != "}" {
			panic(Err(viml_printf("unexpected token: %s", c), self.reader.getpos()))
		}
		self.reader.seek_cur(1)
	}
	return curly_parts'''))
e("rlist-flatten", (V, '''	var token = self.tokenizer.peek()
	if self.tokenizer.peek().type_ == TOKEN_PCLOSE {
		self.tokenizer.get()
	} else {
		for true {
			rlist = append(rlist, self.parse_expr1())
			token = self.tokenizer.get()
			if token.type_ == TOKEN_COMMA {
				// XXX: Vim allows foo(a, b, ).  Lint should warn it.
				if self.tokenizer.peek().type_ == TOKEN_PCLOSE {
					self.tokenizer.get()
					break
				}
			} else if token.type_ == TOKEN_PCLOSE {
				break
			} else {
				panic(Err(viml_printf("unexpected token: %s", token.value), token.pos))
			}
		}
	}''', '''	var token = self.tokenizer.peek()
	if token.type_ == TOKEN_PCLOSE {
		self.tokenizer.get()
	} else {
		for {
			rlist = append(rlist, self.parse_expr1())
			token = self.tokenizer.get()
			if token.type_ == TOKEN_PCLOSE {
				break
			}
			if token.type_ != TOKEN_COMMA {
				panic(Err(viml_printf("unexpected token: %s", token.value), token.pos))
			}
			// XXX: Vim allows foo(a, b, ).  Lint should warn it.
			if self.tokenizer.peek().type_ == TOKEN_PCLOSE {
				self.tokenizer.get()
				break
			}
		}
	}'''))
# vimlfunc
e("equalci-fold", (F, '''	return strings.ToLower(a) == strings.ToLower(b)''', '''	la, lb := strings.ToLower(a), strings.ToLower(b)
	return la == lb'''))
e("escape-builder", (F, '''	r := ""
	for _, c := range viml_split(s, `\\zs`) {
		if strings.Contains(chars, c) {
			r += `\\`
		}
		r += c
	}
	return r''', '''	var b strings.Builder
	for _, c := range viml_split(s, `\\zs`) {
		if strings.Contains(chars, c) {
			b.WriteString(`\\`)
		}
		b.WriteString(c)
	}
	return b.String()'''))
e("range-prealloc", (F, '''	var rs []int
	for i := start; i <= end; i++ {
		rs = append(rs, i)
	}
	return rs''', '''	if end < start {
		return nil
	}
	rs := make([]int, 0, end-start+1)
	for i := start; i <= end; i++ {
		rs = append(rs, i)
	}
	return rs'''))
e("split-guard", (F, '''	if sep == `\\zs` {
		ss := make([]string, 0, len(s))
		for len(s) > 0 {
			// keep bytes which are not valid UTF-8 as they are
			_, w := utf8.DecodeRuneInString(s)
			ss = append(ss, s[:w])
			s = s[w:]
		}
		return ss
	}
	panic("NotImplemented viml_split")''', '''	if sep != `\\zs` {
		panic("NotImplemented viml_split")
	}
	ss := make([]string, 0, len(s))
	for s != "" {
		_, w := utf8.DecodeRuneInString(s)
		ss = append(ss, s[:w])
		s = s[w:]
	}
	return ss'''))
e("split-index", (F, '''		for len(s) > 0 {
			// keep bytes which are not valid UTF-8 as they are
			_, w := utf8.DecodeRuneInString(s)
			ss = append(ss, s[:w])
			s = s[w:]
		}
		return ss''', '''		for i := 0; i < len(s); {
			_, w := utf8.DecodeRuneInString(s[i:])
			ss = append(ss, s[i:i+w])
			i += w
		}
		return ss'''))
e("eqregh-notfound-first", (F, '''	if r, ok := patVim2GoRegh[reg]; ok {
		return r.MatchString(s)
	}
	panic("NotImplemented viml_eqregh")''', '''	r, ok := patVim2GoRegh[reg]
	if !ok {
		panic("NotImplemented viml_eqregh")
	}
	return r.MatchString(s)'''))
e("pat-reorder", (F, '''	"^[A-Z]$":                  "^[A-Z]$",
	"^[a-z]$":                  "^[a-z]$",
''', '''	"^[a-z]$":                  "^[a-z]$",
	"^[A-Z]$":                  "^[A-Z]$",
'''))
e("pat-equivalent", (F, '"\\\\w":                             "[0-9A-Za-z_]",', '"\\\\w":                             "[A-Za-z0-9_]",'))
# export
e("export-elif-helper", (X, '''		var elifs []*ast.ElseIf
		if n.elseif != nil {
			elifs = make([]*ast.ElseIf, 0, len(n.elseif))
		}
		for _, node := range n.elseif {
			if node != nil { // conservative
				elifs = append(elifs, newAstNode(node, filename).(*ast.ElseIf))
			}
		}
''', '''		elifs := newElseIfs(n.elseif, filename)
'''), (X, '''// newAstNode converts internal''', '''func newElseIfs(nodes []*VimNode, filename string) []*ast.ElseIf {
	if nodes == nil {
		return nil
	}
	elifs := make([]*ast.ElseIf, 0, len(nodes))
	for _, node := range nodes {
		if node == nil { // conservative
			continue
		}
		elifs = append(elifs, newAstNode(node, filename).(*ast.ElseIf))
	}
	return elifs
}

// newAstNode converts internal'''))
e("export-else-local", (X, '''		var els *ast.Else
		if n.else_ != nil {
			els = newAstNode(n.else_, filename).(*ast.Else)
		}
		return &ast.If{
			If:        pos,
			ExArg:     newExArg(*n.ea, filename),
			Body:      newBody(*n, filename),
			Condition: newExprNode(n.cond, filename),
			ElseIf:    elifs,
			Else:      els,
			EndIf:     newAstNode(n.endif, filename).(*ast.EndIf),
		}''', '''		ifnode := &ast.If{
			If:        pos,
			ExArg:     newExArg(*n.ea, filename),
			Condition: newExprNode(n.cond, filename),
			Body:      newBody(*n, filename),
			ElseIf:    elifs,
		}
		if n.else_ != nil {
			ifnode.Else = newAstNode(n.else_, filename).(*ast.Else)
		}
		ifnode.EndIf = newAstNode(n.endif, filename).(*ast.EndIf)
		return ifnode'''))
e("export-pos-default", (X, '''	var pos ast.Pos
	if p := newPos(n.pos, filename); p != nil {
		pos = *p
	} else {
		pos = ast.Pos{Offset: 0, Line: 1, Column: 1, Filename: filename}
	}

	switch n.type_ {

	case NODE_TOPLEVEL''', '''	pos := ast.Pos{Offset: 0, Line: 1, Column: 1, Filename: filename}
	if p := newPos(n.pos, filename); p != nil {
		pos = *p
	}

	switch n.type_ {

	case NODE_TOPLEVEL'''))
# compiler
e("compile-list-helper", (C, '''	cmd := node.Cmd().Name
	list := make([]string, 0, len(node.List))
	for _, n := range node.List {
		list = append(list, c.compileExpr(n))
	}
	c.fprintln("(%s %s)", cmd, strings.Join(list, " "))
}

func (c *Compiler) compileLockvar''', '''	c.fprintln("(%s %s)", node.Cmd().Name, c.joinExprs(node.List))
}

func (c *Compiler) joinExprs(exprs []ast.Expr) string {
	list := make([]string, len(exprs))
	for i, e := range exprs {
		list[i] = c.compileExpr(e)
	}
	return strings.Join(list, " ")
}

func (c *Compiler) compileLockvar'''))
e("compile-list-append", (C, '''			xs := make([]string, len(n.Flags))
			for i, f := range n.Flags {
				xs[i] = `"` + c.compileExpr(f) + `"`
			}''', '''			xs := make([]string, 0, len(n.Flags))
			for _, f := range n.Flags {
				xs = append(xs, `"`+c.compileExpr(f)+`"`)
			}'''))
e("compile-return-early", (C, '''	if node.Result != nil {
		c.fprintln("(%s %s)", node.Cmd().Name, c.compileExpr(node.Result))
	} else {
		c.fprintln("(%s)", node.Cmd().Name)
	}''', '''	if node.Result == nil {
		c.fprintln("(%s)", node.Cmd().Name)
		return
	}
	c.fprintln("(%s %s)", node.Cmd().Name, c.compileExpr(node.Result))'''))
e("compile-body-helper", (C, '''	c.fprintln("(function (%s)", strings.Join(ps, " "))
	c.indent++
	if err := c.compile(node.Body); err != nil {
		return err
	}
	c.trimLineBreak()
	c.writeString(")\\n")
	c.indent--
	return nil
}
''', '''	c.fprintln("(function (%s)", strings.Join(ps, " "))
	c.indent++
	if err := c.compile(node.Body); err != nil {
		return err
	}
	c.closeForm()
	c.indent--
	return nil
}

func (c *Compiler) closeForm() {
	c.trimLineBreak()
	c.writeString(")\\n")
}
'''))
e("compile-copy", (C, '''	if _, err := io.Copy(w, c.buffer); err != nil {
		return err
	}
	return nil''', '''	_, err := io.Copy(w, c.buffer)
	return err'''))
e("compile-writestring", (C, '''func (c *Compiler) writeString(s string) {
	fmt.Fprint(c.buffer, s)''', '''func (c *Compiler) writeString(s string) {
	c.buffer.WriteString(s)'''))
e("compile-fn-param-loop", (C, '''	for i, p := range params {
		if i < len(params)-len(node.DefaultArgs) {
			ps = append(ps, p.Name)
		} else {
			ps = append(ps, fmt.Sprintf("(%s %s)", p.Name,
				c.compileExpr(node.DefaultArgs[i+len(node.DefaultArgs)-len(params)])))
		}
	}''', '''	required := len(params) - len(node.DefaultArgs)
	for i, p := range params {
		if i < required {
			ps = append(ps, p.Name)
			continue
		}
		def := c.compileExpr(node.DefaultArgs[i-required])
		ps = append(ps, fmt.Sprintf("(%s %s)", p.Name, def))
	}'''))
# root
e("root-recover-helper", (R, '''		if r := recover(); r != nil {
			node = nil
			if e, ok := r.(*internal.ParseError); ok {
				err = &ErrVimlParser{
					Filename: filename,
					Offset:   e.Offset,
					Line:     e.Line,
					Column:   e.Column,
					Msg:      e.Msg,
				}
			} else {
				err = fmt.Errorf("%v", r)
			}
			// log.Printf("%s", debug.Stack())
		}''', '''		if r := recover(); r != nil {
			node = nil
			err = recovered(r, filename)
		}'''), (R, '''// ParseExpr parses''', '''func recovered(r interface{}, filename string) error {
	e, ok := r.(*internal.ParseError)
	if !ok {
		return fmt.Errorf("%v", r)
	}
	return &ErrVimlParser{
		Filename: filename,
		Offset:   e.Offset,
		Line:     e.Line,
		Column:   e.Column,
		Msg:      e.Msg,
	}
}

// ParseExpr parses'''))
e("root-neovim", (R, '''	reader := internal.NewStringReader(lines)
	neovim := false
	if opt != nil {
		neovim = opt.Neovim
	}
''', '''	neovim := opt != nil && opt.Neovim
	reader := internal.NewStringReader(lines)
'''))
e("root-readlines", (R, '''	lines := []string{}
	scanner := bufio.NewScanner(r)
	scanner.Buffer(nil, math.MaxInt32) // Vim script has no limit on line length
	for scanner.Scan() {
		lines = append(lines, scanner.Text())
	}
	return lines, scanner.Err()''', '''	scanner := bufio.NewScanner(r)
	scanner.Buffer(nil, math.MaxInt32) // Vim script has no limit on line length
	var lines []string
	for scanner.Scan() {
		line := scanner.Text()
		lines = append(lines, line)
	}
	if err := scanner.Err(); err != nil {
		return lines, err
	}
	return lines, nil'''))
e("root-error-order", (R, '''	if e.Filename != "" {
		return fmt.Sprintf("%v:%d:%d: vimlparser: %v", e.Filename, e.Line, e.Column, e.Msg)
	}
	return fmt.Sprintf("vimlparser: %v: line %d col %d", e.Msg, e.Line, e.Column)''', '''	if e.Filename == "" {
		return fmt.Sprintf("vimlparser: %s: line %d col %d", e.Msg, e.Line, e.Column)
	}
	return fmt.Sprintf("%s:%d:%d: vimlparser: %s", e.Filename, e.Line, e.Column, e.Msg)'''))
# main
e("main-loop-helper", (M, '''		f, err := os.Open(file)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			if i == 0 {
				flag.Usage()
			}
			exitCode = 1
			continue
		}
		if err := parseFile(f.Name(), f, os.Stdout, opt, *usejson); err != nil {
			fmt.Fprintln(os.Stderr, err)
			exitCode = 1
		}
	}''', '''		f, err := os.Open(file)
		if err == nil {
			if err := parseFile(f.Name(), f, os.Stdout, opt, *usejson); err != nil {
				fmt.Fprintln(os.Stderr, err)
				exitCode = 1
			}
			continue
		}
		exitCode = 1
		fmt.Fprintln(os.Stderr, err)
		if i == 0 {
			flag.Usage()
		}
	}'''))
e("main-nargs", (M, '''	if len(flag.Args()) == 0 {''', '''	if flag.NArg() == 0 {'''))
e("main-json-helper", (M, '''		e := json.NewEncoder(w)
		e.SetIndent("", "    ")
		return e.Encode(node)
	}
	c := &compiler.Compiler{Config: compiler.Config{Indent: "  "}}
	if err := c.Compile(w, node); err != nil {
		return err
	}
	return nil
}''', '''		return writeJSON(w, node)
	}
	c := &compiler.Compiler{Config: compiler.Config{Indent: "  "}}
	return c.Compile(w, node)
}

func writeJSON(w io.Writer, v interface{}) error {
	enc := json.NewEncoder(w)
	enc.SetIndent("", "    ")
	return enc.Encode(v)
}'''))
# walk
e("walk-nil-guard", (W, '''		if n.FuncCall != nil {
			Walk(v, n.FuncCall)
		}
''', '''		if call := n.FuncCall; call != nil {
			Walk(v, call)
		}
'''))
e("walk-merge-cases", (W, '''	case *UnLet:
		walkExprList(v, n.List)

''', '''	case *UnLet:
		for _, x := range n.List {
			Walk(v, x)
		}

'''))
e("node-ctor", (T, '''	if type_ == -1 {
		return nil
	}
	return &VimNode{
		type_: type_,
		attr:  &FuncAttr{},
	}''', '''	if type_ != -1 {
		n := new(VimNode)
		n.type_ = type_
		n.attr = new(FuncAttr)
		return n
	}
	return nil'''))
e("push-context", (T, '''	self.context = append([]*VimNode{n}, self.context...)''', '''	ctx := make([]*VimNode, 0, len(self.context)+1)
	ctx = append(ctx, n)
	self.context = append(ctx, self.context...)'''))
e("syntax-ends-first", (V, '''		if c == "/" || c == "'" || c == "\\"" {
			self.reader.getn(1)
			self.parse_pattern(c)
		} else if c == "=" {
			self.reader.getn(1)
			self.parse_pattern(" ")
		} else if self.ends_excmds(c) {
			break
		}
		self.reader.getn(1)''', '''		switch {
		case c == "/", c == "'", c == "\\"":
			self.reader.getn(1)
			self.parse_pattern(c)
		case c == "=":
			self.reader.getn(1)
			self.parse_pattern(" ")
		}
		if c != "\\"" && self.ends_excmds(c) {
			break
		}
		self.reader.getn(1)'''))
e("lua-flatten", (V, '''		lines = []interface{}{cmdline}
		self.reader.get()
		for true {
			if self.reader.peek() == "<EOF>" {
				break
			}
			var line = self.reader.getn(-1)
			lines = append(lines, line)
			if line == m {
				break
			}
			self.reader.get()
		}''', '''		lines = []interface{}{cmdline}
		self.reader.get()
		for self.reader.peek() != "<EOF>" {
			var line = self.reader.getn(-1)
			lines = append(lines, line)
			if line == m {
				break
			}
			self.reader.get()
		}'''))
e("argopt-loop", (V, '''	for self.reader.p(0) == "+" && self.reader.p(1) == "+" {
		var s = self.reader.peekn(20)''', '''	for {
		if self.reader.p(0) != "+" || self.reader.p(1) != "+" {
			return
		}
		var s = self.reader.peekn(20)'''))
e("vimgrep-names", (V, '''	if self.ea.cmd.name == "vimgrep" || self.ea.cmd.name == "vimgrepadd" || self.ea.cmd.name == "lvimgrep" || self.ea.cmd.name == "lvimgrepadd" {
		self.skip_vimgrep_pat()
	}''', '''	switch self.ea.cmd.name {
	case "vimgrep", "lvimgrep", "vimgrepadd", "lvimgrepadd":
		self.skip_vimgrep_pat()
	}'''))
e("expr9-dquote-order", (V, '''		self.reader.seek_set(pos)
		node = Node(NODE_STRING)
		node.pos = token.pos
		node.value = "\\"" + self.tokenizer.get_dstring() + "\\""''', '''		self.reader.seek_set(pos)
		str := self.tokenizer.get_dstring()
		node = Node(NODE_STRING)
		node.value = "\\"" + str + "\\""
		node.pos = token.pos'''))
e("inline-peekline", (V, '''self.reader.peekline()''', '''self.reader.peekn(-1)'''))
e("inline-add-node", (V, '''	var node = Node(NODE_DELFUNCTION)
	node.pos = self.ea.cmdpos
	node.ea = self.ea
	node.left = self.parse_lvalue_func()
	self.add_node(node)''', '''	var node = Node(NODE_DELFUNCTION)
	node.pos = self.ea.cmdpos
	node.ea = self.ea
	node.left = self.parse_lvalue_func()
	top := self.context[0]
	top.body = append(top.body, node)'''))
e("rename-func", (V, '''func (self *VimLParser) read_cmdarg() string {''', '''func (self *VimLParser) readCmdArg() string {'''), (V, '''self.read_cmdarg()''', '''self.readCmdArg()'''))
e("modifier-helper", (V, '''		if viml_stridx("aboveleft", k) == 0 && len(k) >= 3 {''', '''		if is_abbrev("aboveleft", k, 3) {'''), (V, '''		} else if viml_stridx("belowright", k) == 0 && len(k) >= 3 {''', '''		} else if is_abbrev("belowright", k, 3) {'''), (V, '''// FIXME:
func (self *VimLParser) parse_command_modifiers() {''', '''func is_abbrev(full, s string, min int) bool {
	return viml_stridx(full, s) == 0 && len(s) >= min
}

// FIXME:
func (self *VimLParser) parse_command_modifiers() {'''))
e("modifier-hasprefix", (V, '''		if viml_stridx("aboveleft", k) == 0 && len(k) >= 3 {''', '''		if len(k) >= 3 && strings.HasPrefix("aboveleft", k) {'''), (V, '''package vimlparser
''', '''package vimlparser

import "strings"
'''))
e("names-slice", (V, '''	if self.ea.cmd.name == "vimgrep" || self.ea.cmd.name == "vimgrepadd" || self.ea.cmd.name == "lvimgrep" || self.ea.cmd.name == "lvimgrepadd" {''', '''	grep := false
	for _, n := range []string{"vimgrep", "vimgrepadd", "lvimgrep", "lvimgrepadd"} {
		if self.ea.cmd.name == n {
			grep = true
			break
		}
	}
	if grep {'''))
E_ALL = E
