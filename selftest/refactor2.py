"""More edits that keep the behaviour; "func X" alone as the old text stands for the whole function."""
V = "go/vimlparser.go"; T = "go/type.go"; F = "go/vimlfunc.go"; X = "go/export.go"
C = "compiler/compiler.go"; R = "vimlparser.go"; M = "cmd/vimlparser/main.go"; W = "ast/walk.go"
E = []
def e(name, *subs):
    E.append((name, [(f, "FN:" + o if o.startswith("func ") and "\n" not in o else o, n) for f, o, n in subs]))
P = "func (self *VimLParser) "

e("mods-table", (V, P + "parse_command_modifiers()", '''// simpleModifiers are the modifiers without arguments, with the shortest
// abbreviation, in the order in which they are tried.
var simpleModifiers = []struct {
	name   string
	minlen int
}{
	{"aboveleft", 3}, {"belowright", 3}, {"browse", 3}, {"botright", 2}, {"confirm", 4},
	{"keepmarks", 3}, {"keepalt", 5}, {"keepjumps", 5}, {"keeppatterns", 5},
	{"hide", 3}, {"lockmarks", 3}, {"leftabove", 5}, {"noautocmd", 3}, {"noswapfile", 3},
	{"rightbelow", 6}, {"sandbox", 3},
}

func modifier(name string) map[string]interface{} {
	return map[string]interface{}{"name": name}
}

func isAbbrev(full, k string, minlen int) bool {
	return len(k) >= minlen && viml_stridx(full, k) == 0
}

func (self *VimLParser) parse_command_modifiers() {
	modifiers := []interface{}{}
	defer func() { self.ea.modifiers = modifiers }()
next:
	for {
		pos := self.reader.tell()
		d := ""
		if isdigit(self.reader.peekn(1)) {
			d = self.reader.read_digit()
			self.reader.skip_white()
		}
		k := self.reader.read_alpha()
		c := self.reader.peekn(1)
		self.reader.skip_white()
		for _, m := range simpleModifiers {
			if !isAbbrev(m.name, k, m.minlen) {
				continue
			}
			if m.name == "hide" && self.ends_excmds(c) {
				return
			}
			modifiers = append(modifiers, modifier(m.name))
			continue next
		}
		switch {
		case isAbbrev("silent", k, 3):
			m := modifier("silent")
			m["bang"] = 0
			if c == "!" {
				self.reader.get()
				m["bang"] = 1
			}
			modifiers = append(modifiers, m)
		case k == "tab":
			m := modifier("tab")
			if d != "" {
				m["count"] = viml_str2nr(d, 10)
			}
			modifiers = append(modifiers, m)
		case isAbbrev("topleft", k, 2):
			modifiers = append(modifiers, modifier("topleft"))
		case isAbbrev("unsilent", k, 3):
			modifiers = append(modifiers, modifier("unsilent"))
		case isAbbrev("vertical", k, 4):
			modifiers = append(modifiers, modifier("vertical"))
		case isAbbrev("verbose", k, 4):
			m := modifier("verbose")
			m["count"] = 1
			if d != "" {
				m["count"] = viml_str2nr(d, 10)
			}
			modifiers = append(modifiers, m)
		default:
			self.reader.seek_set(pos)
			return
		}
	}
}
'''))
# the deferred write happens on a panic too: see mods-switch for the plain one
E.pop()
e("mods-switch", (V, P + "parse_command_modifiers()", '''func isAbbrev(full, k string, minlen int) bool {
	return len(k) >= minlen && viml_stridx(full, k) == 0
}

func (self *VimLParser) parse_command_modifiers() {
	modifiers := []interface{}{}
	add := func(name string) {
		modifiers = append(modifiers, map[string]interface{}{"name": name})
	}
loop:
	for {
		pos := self.reader.tell()
		d := ""
		if isdigit(self.reader.peekn(1)) {
			d = self.reader.read_digit()
			self.reader.skip_white()
		}
		k := self.reader.read_alpha()
		c := self.reader.peekn(1)
		self.reader.skip_white()
		switch {
		case isAbbrev("aboveleft", k, 3):
			add("aboveleft")
		case isAbbrev("belowright", k, 3):
			add("belowright")
		case isAbbrev("browse", k, 3):
			add("browse")
		case isAbbrev("botright", k, 2):
			add("botright")
		case isAbbrev("confirm", k, 4):
			add("confirm")
		case isAbbrev("keepmarks", k, 3):
			add("keepmarks")
		case isAbbrev("keepalt", k, 5):
			add("keepalt")
		case isAbbrev("keepjumps", k, 5):
			add("keepjumps")
		case isAbbrev("keeppatterns", k, 5):
			add("keeppatterns")
		case isAbbrev("hide", k, 3):
			if self.ends_excmds(c) {
				break loop
			}
			add("hide")
		case isAbbrev("lockmarks", k, 3):
			add("lockmarks")
		case isAbbrev("leftabove", k, 5):
			add("leftabove")
		case isAbbrev("noautocmd", k, 3):
			add("noautocmd")
		case isAbbrev("noswapfile", k, 3):
			add("noswapfile")
		case isAbbrev("rightbelow", k, 6):
			add("rightbelow")
		case isAbbrev("sandbox", k, 3):
			add("sandbox")
		case isAbbrev("silent", k, 3):
			bang := 0
			if c == "!" {
				self.reader.get()
				bang = 1
			}
			modifiers = append(modifiers, map[string]interface{}{"name": "silent", "bang": bang})
		case k == "tab":
			m := map[string]interface{}{"name": "tab"}
			if d != "" {
				m["count"] = viml_str2nr(d, 10)
			}
			modifiers = append(modifiers, m)
		case isAbbrev("topleft", k, 2):
			add("topleft")
		case isAbbrev("unsilent", k, 3):
			add("unsilent")
		case isAbbrev("vertical", k, 4):
			add("vertical")
		case isAbbrev("verbose", k, 4):
			count := 1
			if d != "" {
				count = viml_str2nr(d, 10)
			}
			modifiers = append(modifiers, map[string]interface{}{"name": "verbose", "count": count})
		default:
			self.reader.seek_set(pos)
			break loop
		}
	}
	self.ea.modifiers = modifiers
}
'''))
e("mods-table2", (V, P + "parse_command_modifiers()", '''var simpleModifiers = []struct {
	name   string
	minlen int
}{
	{"aboveleft", 3}, {"belowright", 3}, {"browse", 3}, {"botright", 2}, {"confirm", 4},
	{"keepmarks", 3}, {"keepalt", 5}, {"keepjumps", 5}, {"keeppatterns", 5},
	{"hide", 3}, {"lockmarks", 3}, {"leftabove", 5}, {"noautocmd", 3}, {"noswapfile", 3},
	{"rightbelow", 6}, {"sandbox", 3}, {"topleft", 2}, {"unsilent", 3}, {"vertical", 4},
}

func simpleModifier(k string) string {
	for _, m := range simpleModifiers {
		if viml_stridx(m.name, k) == 0 && len(k) >= m.minlen {
			return m.name
		}
	}
	return ""
}

func (self *VimLParser) parse_command_modifiers() {
	var modifiers = []interface{}{}
	for true {
		var pos = self.reader.tell()
		var d = ""
		if isdigit(self.reader.peekn(1)) {
			d = self.reader.read_digit()
			self.reader.skip_white()
		}
		var k = self.reader.read_alpha()
		var c = self.reader.peekn(1)
		self.reader.skip_white()
		if name := simpleModifier(k); name != "" {
			if name == "hide" && self.ends_excmds(c) {
				break
			}
			modifiers = append(modifiers, map[string]interface{}{"name": name})
		} else if viml_stridx("silent", k) == 0 && len(k) >= 3 {
			if c == "!" {
				self.reader.get()
				modifiers = append(modifiers, map[string]interface{}{"name": "silent", "bang": 1})
			} else {
				modifiers = append(modifiers, map[string]interface{}{"name": "silent", "bang": 0})
			}
		} else if k == "tab" {
			if d != "" {
				modifiers = append(modifiers, map[string]interface{}{"name": "tab", "count": viml_str2nr(d, 10)})
			} else {
				modifiers = append(modifiers, map[string]interface{}{"name": "tab"})
			}
		} else if viml_stridx("verbose", k) == 0 && len(k) >= 4 {
			if d != "" {
				modifiers = append(modifiers, map[string]interface{}{"name": "verbose", "count": viml_str2nr(d, 10)})
			} else {
				modifiers = append(modifiers, map[string]interface{}{"name": "verbose", "count": 1})
			}
		} else {
			self.reader.seek_set(pos)
			break
		}
	}
	self.ea.modifiers = modifiers
}
'''))
e("range-switch", (V, P + "parse_range()", '''func (self *VimLParser) parse_range() {
	tokens := []interface{}{}
	for {
		tokens = self.parse_range_item(tokens)
		switch self.reader.peekn(1) {
		case "%", "*":
			// && &cpoptions !~ '\\*'
			tokens = append(tokens, self.reader.getn(1))
		}
		c := self.reader.peekn(1)
		if c != ";" && c != "," {
			break
		}
		tokens = append(tokens, self.reader.getn(1))
	}
	self.ea.range_ = tokens
}

func (self *VimLParser) parse_range_item(tokens []interface{}) []interface{} {
	for {
		self.reader.skip_white()
		c := self.reader.peekn(1)
		if c == "" {
			return tokens
		}
		switch c {
		case ".", "$":
			tokens = append(tokens, self.reader.getn(1))
		case "'":
			self.reader.getn(1)
			m := self.reader.getn(1)
			if m == "" {
				return tokens
			}
			tokens = append(tokens, "'"+m)
		case "/", "?":
			self.reader.getn(1)
			pattern, _ := self.parse_pattern(c)
			tokens = append(tokens, pattern)
		case "\\\\":
			m := self.reader.p(1)
			if m != "&" && m != "?" && m != "/" {
				panic(Err("E10: \\\\\\\\ should be followed by /, ? or &", self.reader.getpos()))
			}
			self.reader.seek_cur(2)
			tokens = append(tokens, "\\\\"+m)
		default:
			if isdigit(c) {
				tokens = append(tokens, self.reader.read_digit())
			}
		}
		for {
			self.reader.skip_white()
			if self.reader.peekn(1) == "" {
				break
			}
			n := self.reader.read_integer()
			if n == "" {
				break
			}
			tokens = append(tokens, n)
		}
		if next := self.reader.p(0); next != "/" && next != "?" {
			return tokens
		}
	}
}
'''))
e("find-command-helper", (V, P + "find_command()", '''// matchCommand returns the first command of cmds that name abbreviates.
func matchCommand(cmds []*Cmd, name string) *Cmd {
	for _, x := range cmds {
		if len(name) >= x.minlen && viml_stridx(x.name, name) == 0 {
			return x
		}
	}
	return nil
}

func (self *VimLParser) read_command_name() string {
	c := self.reader.peekn(1)
	switch {
	case c == "k":
		self.reader.getn(1)
		return "k"
	case c == "s" && viml_eqregh(self.reader.peekn(5), "\\\\v^s%(c[^sr][^i][^p]|g|i[^mlg]|I|r[^e])"):
		self.reader.getn(1)
		return "substitute"
	case viml_eqregh(c, "[@*!=><&~#]"):
		self.reader.getn(1)
		return c
	case self.reader.peekn(2) == "py":
		return self.reader.read_alnum()
	}
	pos := self.reader.tell()
	name := self.reader.read_alpha()
	if name != "del" && viml_eqregh(name, "\\\\v^d%[elete][lp]$") {
		self.reader.seek_set(pos)
		return self.reader.getn(len(name) - 1)
	}
	return name
}

func (self *VimLParser) find_command() *Cmd {
	name := self.read_command_name()
	if name == "" {
		return nil
	}
	if cmd, ok := self.find_command_cache[name]; ok {
		return cmd
	}
	cmd := matchCommand(builtin_commands, name)
	if self.neovim {
		if x := matchCommand(neovim_additional_commands, name); x != nil {
			cmd = x
		}
		if matchCommand(neovim_removed_commands, name) != nil {
			cmd = nil
		}
	}
	// FIXME: user defined command
	if (cmd == nil || cmd.name == "Print") && viml_eqregh(name, "^[A-Z]") {
		return &Cmd{name: name + self.reader.read_alnum(), flags: "USERCMD", parser: "parse_cmd_usercmd"}
	}
	self.find_command_cache[name] = cmd
	return cmd
}
'''))
e("find-command-index", (V, '''	var cmd *Cmd = nil
	for _, x := range builtin_commands {
		if viml_stridx(x.name, name) == 0 && len(name) >= x.minlen {
			cmd = x
			break
		}
	}
''', '''	var cmd *Cmd
	for i := 0; i < len(builtin_commands) && cmd == nil; i++ {
		x := builtin_commands[i]
		if len(name) >= x.minlen && viml_stridx(x.name, name) == 0 {
			cmd = x
		}
	}
'''))
e("dispatch-switch", (V, P + "_parse_command(parser string)", '''func (self *VimLParser) _parse_command(parser string) {
	switch parser {
''' + "".join('''	case "%s":
		self.%s()
''' % (p, p) for p in "parse_cmd_append parse_cmd_break parse_cmd_call parse_cmd_catch parse_cmd_common parse_cmd_continue parse_cmd_delfunction parse_cmd_echo parse_cmd_echoerr parse_cmd_echohl parse_cmd_echomsg parse_cmd_echon parse_cmd_else parse_cmd_elseif parse_cmd_endfor parse_cmd_endfunction parse_cmd_endif parse_cmd_endtry parse_cmd_endwhile parse_cmd_execute parse_cmd_finally parse_cmd_finish parse_cmd_for parse_cmd_function parse_cmd_if parse_cmd_insert parse_cmd_let parse_cmd_const parse_cmd_loadkeymap parse_cmd_lockvar parse_cmd_lua parse_cmd_modifier_range parse_cmd_mzscheme parse_cmd_perl parse_cmd_python parse_cmd_python3 parse_cmd_return parse_cmd_ruby parse_cmd_tcl parse_cmd_throw parse_cmd_eval parse_cmd_try parse_cmd_unlet parse_cmd_unlockvar parse_cmd_usercmd parse_cmd_while parse_wincmd parse_cmd_syntax".split()) + '''	default:
		panic(viml_printf("unknown parser: %s", viml_string(parser)))
	}
}
'''))
e("dispatch-map", (V, P + "_parse_command(parser string)", '''var commandParsers = map[string]func(*VimLParser){
''' + "".join('''	"%s": (*VimLParser).%s,
''' % (p, p) for p in "parse_cmd_append parse_cmd_break parse_cmd_call parse_cmd_catch parse_cmd_common parse_cmd_continue parse_cmd_delfunction parse_cmd_echo parse_cmd_echoerr parse_cmd_echohl parse_cmd_echomsg parse_cmd_echon parse_cmd_else parse_cmd_elseif parse_cmd_endfor parse_cmd_endfunction parse_cmd_endif parse_cmd_endtry parse_cmd_endwhile parse_cmd_execute parse_cmd_finally parse_cmd_finish parse_cmd_for parse_cmd_function parse_cmd_if parse_cmd_insert parse_cmd_let parse_cmd_const parse_cmd_loadkeymap parse_cmd_lockvar parse_cmd_lua parse_cmd_modifier_range parse_cmd_mzscheme parse_cmd_perl parse_cmd_python parse_cmd_python3 parse_cmd_return parse_cmd_ruby parse_cmd_tcl parse_cmd_throw parse_cmd_eval parse_cmd_try parse_cmd_unlet parse_cmd_unlockvar parse_cmd_usercmd parse_cmd_while parse_wincmd parse_cmd_syntax".split()) + '''}

func (self *VimLParser) _parse_command(parser string) {
	f, ok := commandParsers[parser]
	if !ok {
		panic(viml_printf("unknown parser: %s", viml_string(parser)))
	}
	f(self)
}
'''))
e("argopt-switch", (V, P + "parse_argopt()", '''func (self *VimLParser) parse_argopt() {
	r, ea := self.reader, self.ea
	for r.p(0) == "+" && r.p(1) == "+" {
		s := r.peekn(20)
		switch {
		case viml_eqregh(s, "^++bin\\\\>"):
			r.getn(len("++bin"))
			ea.force_bin = 1
		case viml_eqregh(s, "^++nobin\\\\>"):
			r.getn(len("++nobin"))
			ea.force_bin = 2
		case viml_eqregh(s, "^++edit\\\\>"):
			r.getn(len("++edit"))
			ea.read_edit = 1
		case viml_eqregh(s, "^++ff=\\\\(dos\\\\|unix\\\\|mac\\\\)\\\\>"):
			r.getn(len("++ff="))
			ea.force_ff = r.read_alpha()
		case viml_eqregh(s, "^++fileformat=\\\\(dos\\\\|unix\\\\|mac\\\\)\\\\>"):
			r.getn(len("++fileformat="))
			ea.force_ff = r.read_alpha()
		case viml_eqregh(s, "^++enc=\\\\S"):
			r.getn(len("++enc="))
			ea.force_enc = r.read_nonwhite()
		case viml_eqregh(s, "^++encoding=\\\\S"):
			r.getn(len("++encoding="))
			ea.force_enc = r.read_nonwhite()
		case viml_eqregh(s, "^++bad=\\\\(keep\\\\|drop\\\\|.\\\\)\\\\>"):
			r.getn(len("++bad="))
			n := 1
			if viml_eqregh(s, "^++bad=keep") || viml_eqregh(s, "^++bad=drop") {
				n = 4
			}
			ea.bad_char = r.getn(n)
		case viml_eqregh(s, "^++"):
			panic(Err("E474: Invalid Argument", r.getpos()))
		default:
			return
		}
		r.skip_white()
	}
}
'''))
e("cmdarg-builder", (V, P + "read_cmdarg()", '''func (self *VimLParser) read_cmdarg() string {
	var b strings.Builder
	for c := self.reader.peekn(1); c != "" && !iswhite(c); c = self.reader.peekn(1) {
		self.reader.getn(1)
		if c == "\\\\" {
			c = self.reader.getn(1)
		}
		b.WriteString(c)
	}
	return b.String()
}
'''), (V, "package vimlparser\n", '''package vimlparser

import "strings"
'''))
e("append-helper", (V, P + "parse_cmd_append()", '''func (self *VimLParser) parse_cmd_append() {
	self.reader.setpos(self.ea.linepos)
	lines := []interface{}{self.reader.readline()}
	self.add_excmd_lines(self.read_until(lines, "."))
}

// read_until appends lines up to the one that is marker.
func (self *VimLParser) read_until(lines []interface{}, marker string) []interface{} {
	for self.reader.peek() != "<EOF>" {
		line := self.reader.getn(-1)
		lines = append(lines, line)
		if line == marker {
			break
		}
		self.reader.get()
	}
	return lines
}

func (self *VimLParser) add_excmd_lines(lines []interface{}) {
	node := Node(NODE_EXCMD)
	node.pos = self.ea.cmdpos
	node.ea = self.ea
	node.str = viml_join(lines, "\\n")
	self.add_node(node)
}
'''), (V, P + "parse_cmd_lua()", '''func (self *VimLParser) parse_cmd_lua() {
	self.reader.skip_white()
	heredoc := self.reader.peekn(2) == "<<"
	m := ""
	if heredoc {
		self.reader.getn(2)
		self.reader.skip_white()
		if m = self.reader.readline(); m == "" {
			m = "."
		}
	}
	self.reader.setpos(self.ea.linepos)
	lines := []interface{}{self.reader.getn(-1)}
	if heredoc {
		self.reader.get()
		lines = self.read_until(lines, m)
	}
	self.add_excmd_lines(lines)
}
'''), (V, P + "parse_cmd_loadkeymap()", '''func (self *VimLParser) parse_cmd_loadkeymap() {
	self.reader.setpos(self.ea.linepos)
	lines := []interface{}{self.reader.readline()}
	for self.reader.peek() != "<EOF>" {
		lines = append(lines, self.reader.readline())
	}
	self.add_excmd_lines(lines)
}
'''))
e("function-params", (V, '''	self.reader.getn(1)
	var tokenizer = NewExprTokenizer(self.reader)
	if tokenizer.peek().type_ == TOKEN_PCLOSE {
		tokenizer.get()
	} else {
		var named = map[string]interface{}{}
		for true {
			var varnode = Node(NODE_IDENTIFIER)
			var token = tokenizer.get()
			if token.type_ == TOKEN_IDENTIFIER {
				if !isargname(token.value) || token.value == "firstline" || token.value == "lastline" {
					panic(Err(viml_printf("E125: Illegal argument: %s", token.value), token.pos))
				} else if viml_has_key(named, token.value) {
					panic(Err(viml_printf("E853: Duplicate argument name: %s", token.value), token.pos))
				}
				named[token.value] = 1
				varnode.pos = token.pos
				varnode.value = token.value
				node.rlist = append(node.rlist, varnode)
				if tokenizer.peek().type_ == TOKEN_EQ {
					tokenizer.get()
					node.default_args = append(node.default_args, self.parse_expr())
				} else if len(node.default_args) > 0 {
					panic(Err("E989: Non-default argument follows default argument", varnode.pos))
				}
				// XXX: Vim doesn't skip white space before comma.  F(a ,b) => E475
				if iswhite(self.reader.p(0)) && tokenizer.peek().type_ == TOKEN_COMMA {
					panic(Err("E475: Invalid argument: White space is not allowed before comma", self.reader.getpos()))
				}
				token = tokenizer.get()
				if token.type_ == TOKEN_COMMA {
					// XXX: Vim allows last comma.  F(a, b, ) => OK
					if tokenizer.peek().type_ == TOKEN_PCLOSE {
						tokenizer.get()
						break
					}
				} else if token.type_ == TOKEN_PCLOSE {
					break
				} else {
					panic(Err(viml_printf("unexpected token: %s", token.value), token.pos))
				}
			} else if token.type_ == TOKEN_DOTDOTDOT {
				varnode.pos = token.pos
				varnode.value = token.value
				node.rlist = append(node.rlist, varnode)
				token = tokenizer.get()
				if token.type_ == TOKEN_PCLOSE {
					break
				} else {
					panic(Err(viml_printf("unexpected token: %s", token.value), token.pos))
				}
			} else {
				panic(Err(viml_printf("unexpected token: %s", token.value), token.pos))
			}
		}
	}
''', '''	self.reader.getn(1)
	self.parse_function_params(node)
'''), (V, P + "parse_cmd_endfunction()", '''func (self *VimLParser) parse_function_params(node *VimNode) {
	tokenizer := NewExprTokenizer(self.reader)
	if tokenizer.peek().type_ == TOKEN_PCLOSE {
		tokenizer.get()
		return
	}
	unexpected := func(t *ExprToken) *ParseError {
		return Err(viml_printf("unexpected token: %s", t.value), t.pos)
	}
	seen := make(map[string]bool)
	for {
		token := tokenizer.get()
		if token.type_ != TOKEN_IDENTIFIER && token.type_ != TOKEN_DOTDOTDOT {
			panic(unexpected(token))
		}
		rest := token.type_ == TOKEN_DOTDOTDOT
		if !rest {
			if !isargname(token.value) || token.value == "firstline" || token.value == "lastline" {
				panic(Err(viml_printf("E125: Illegal argument: %s", token.value), token.pos))
			}
			if seen[token.value] {
				panic(Err(viml_printf("E853: Duplicate argument name: %s", token.value), token.pos))
			}
			seen[token.value] = true
		}
		param := Node(NODE_IDENTIFIER)
		param.pos = token.pos
		param.value = token.value
		node.rlist = append(node.rlist, param)
		if rest {
			if token = tokenizer.get(); token.type_ != TOKEN_PCLOSE {
				panic(unexpected(token))
			}
			return
		}
		if tokenizer.peek().type_ == TOKEN_EQ {
			tokenizer.get()
			node.default_args = append(node.default_args, self.parse_expr())
		} else if len(node.default_args) > 0 {
			panic(Err("E989: Non-default argument follows default argument", param.pos))
		}
		// XXX: Vim doesn't skip white space before comma.  F(a ,b) => E475
		if iswhite(self.reader.p(0)) && tokenizer.peek().type_ == TOKEN_COMMA {
			panic(Err("E475: Invalid argument: White space is not allowed before comma", self.reader.getpos()))
		}
		token = tokenizer.get()
		if token.type_ == TOKEN_PCLOSE {
			return
		}
		if token.type_ != TOKEN_COMMA {
			panic(unexpected(token))
		}
		// XXX: Vim allows last comma.  F(a, b, ) => OK
		if tokenizer.peek().type_ == TOKEN_PCLOSE {
			tokenizer.get()
			return
		}
	}
}

func (self *VimLParser) parse_cmd_endfunction() {
	self.check_missing_endif("ENDFUNCTION", self.ea.cmdpos)
	self.check_missing_endtry("ENDFUNCTION", self.ea.cmdpos)
	self.check_missing_endwhile("ENDFUNCTION", self.ea.cmdpos)
	self.check_missing_endfor("ENDFUNCTION", self.ea.cmdpos)
	if self.context[0].type_ == NODE_FUNCTION {
		self.reader.getn(-1)
		node := Node(NODE_ENDFUNCTION)
		node.ea = self.ea
		node.pos = self.ea.cmdpos
		self.context[0].endfunction = node
		self.pop_context()
		return
	}
	panic(Err("E193: :endfunction not inside a function", self.ea.cmdpos))
}
'''))
e("function-guards", (V, '''	// :function
	if self.ends_excmds(self.reader.peek()) {
		self.reader.seek_set(pos)
		self.parse_cmd_common()
		return
	}
	// :function /pattern
	if self.reader.peekn(1) == "/" {
		self.reader.seek_set(pos)
		self.parse_cmd_common()
		return
	}
''', '''	// :function or :function /pattern
	if self.ends_excmds(self.reader.peek()) || self.reader.peekn(1) == "/" {
		self.reader.seek_set(pos)
		self.parse_cmd_common()
		return
	}
'''))
e("common-rest", (V, P + "parse_cmd_common()", '''func (self *VimLParser) parse_cmd_common() {
	ea := self.ea
	var end *pos
	if !ea.usefilter && viml_eqregh(ea.cmd.flags, "\\\\<TRLBAR\\\\>") {
		end = self.separate_nextcmd()
	} else {
		end = self.skip_line()
	}
	node := Node(NODE_EXCMD)
	node.pos, node.ea = ea.cmdpos, ea
	node.str = self.reader.getstr(ea.linepos, end)
	self.add_node(node)
}

// skip_line reads to the end of the line and returns its position.
func (self *VimLParser) skip_line() *pos {
	for {
		end := self.reader.getpos()
		if self.reader.getn(1) == "" {
			return end
		}
	}
}
'''))
e("separate-switch", (V, P + "separate_nextcmd()", '''func (self *VimLParser) separate_nextcmd() *pos {
	switch self.ea.cmd.name {
	case "vimgrep", "vimgrepadd", "lvimgrep", "lvimgrepadd":
		self.skip_vimgrep_pat()
	}
	trlcom := !viml_eqregh(self.ea.cmd.flags, "\\\\<NOTRLCOM\\\\>")
	var pc = ""
	var end = self.reader.getpos()
	var nospend = end
loop:
	for {
		end = self.reader.getpos()
		if !iswhite(pc) {
			nospend = end
		}
		c := self.reader.peek()
		switch {
		case c == "<EOF>" || c == "<EOL>":
			break loop
		case c == "\\x16":
			// <C-V>
			self.reader.get()
			end = self.reader.getpos()
			nospend = self.reader.getpos()
			c = self.reader.peek()
			if c == "<EOF>" || c == "<EOL>" {
				break loop
			}
			self.reader.get()
		case self.reader.peekn(2) == "`=" && viml_eqregh(self.ea.cmd.flags, "\\\\<\\\\(XFILE\\\\|FILES\\\\|FILE1\\\\)\\\\>"):
			self.reader.getn(2)
			self.parse_expr()
			c = self.reader.peekn(1)
			if c != "`" {
				panic(Err(viml_printf("unexpected character: %s", c), self.reader.getpos()))
			}
			self.reader.getn(1)
		case c == "|" || c == "\\n" || (c == "\\"" && trlcom && self.starts_comment(pc)):
			if pc != "\\\\" {
				break loop
			}
			self.reader.get()
		default:
			self.reader.get()
		}
		pc = c
	}
	if trlcom {
		end = nospend
	}
	return end
}

func (self *VimLParser) starts_comment(pc string) bool {
	name := self.ea.cmd.name
	if (name == "@" || name == "*") && self.reader.getpos().i == self.ea.argpos.i {
		return false
	}
	if name == "redir" && self.reader.getpos().i == self.ea.argpos.i+1 && pc == "@" {
		return false
	}
	return true
}
'''))
e("vimgrep-early", (V, P + "skip_vimgrep_pat()", '''func (self *VimLParser) skip_vimgrep_pat() {
	c := self.reader.peekn(1)
	if c == "" {
		return
	}
	if isidc(c) {
		// :vimgrep pattern fname
		self.reader.read_nonwhite()
		return
	}
	// :vimgrep /pattern/[g][j] fname
	c = self.reader.getn(1)
	if _, endc := self.parse_pattern(c); endc != c {
		return
	}
	for {
		flag := self.reader.p(0)
		if flag != "g" && flag != "j" {
			break
		}
		self.reader.getn(1)
	}
}
'''))
e("one-cmd-switch", (V, P + "parse_one_cmd()", '''func (self *VimLParser) parse_one_cmd() {
	self.ea = &ExArg{}
	if self.reader.peekn(2) == "#!" {
		self.parse_hashbang()
		self.reader.get()
		return
	}
	self.reader.skip_white_and_colon()
	switch self.reader.peekn(1) {
	case "":
		self.reader.get()
	case "\\"":
		self.parse_comment()
		self.reader.get()
	default:
		self.ea.linepos = self.reader.getpos()
		self.parse_command_modifiers()
		self.parse_range()
		self.parse_command()
		self.parse_trail()
	}
}
'''))
e("parse-missing-loop", (V, '''	self.check_missing_endfunction("TOPLEVEL", self.reader.getpos())
	self.check_missing_endif("TOPLEVEL", self.reader.getpos())
	self.check_missing_endtry("TOPLEVEL", self.reader.getpos())
	self.check_missing_endwhile("TOPLEVEL", self.reader.getpos())
	self.check_missing_endfor("TOPLEVEL", self.reader.getpos())
	self.pop_context()
	return toplevel
''', '''	end := self.reader.getpos()
	for _, check := range []func(string, *pos){
		self.check_missing_endfunction,
		self.check_missing_endif,
		self.check_missing_endtry,
		self.check_missing_endwhile,
		self.check_missing_endfor,
	} {
		check("TOPLEVEL", end)
	}
	self.pop_context()
	return toplevel
'''))
e("pattern-switch", (V, P + "parse_pattern(delimiter string)", '''func (self *VimLParser) parse_pattern(delimiter string) (pattern, endc string) {
	depth := 0
	for {
		c := self.reader.getn(1)
		if c == "" {
			return
		}
		if depth == 0 && c == delimiter {
			endc = c
			return
		}
		pattern += c
		switch c {
		case "\\\\":
			c = self.reader.peekn(1)
			if c == "" {
				panic(Err("E682: Invalid search pattern or delimiter", self.reader.getpos()))
			}
			self.reader.getn(1)
			pattern += c
		case "[":
			depth++
		case "]":
			depth--
		}
	}
}
'''))
e("named-bool", (V, "\t\tvar named = map[string]interface{}{}\n\t\tfor true {\n\t\t\tvar varnode = Node(NODE_IDENTIFIER)\n\t\t\tvar token = tokenizer.get()", "\t\tnamed := map[string]bool{}\n\t\tfor true {\n\t\t\tvar varnode = Node(NODE_IDENTIFIER)\n\t\t\tvar token = tokenizer.get()"),
 (V, """				} else if viml_has_key(named, token.value) {
					panic(Err(viml_printf("E853: Duplicate argument name: %s", token.value), token.pos))
				}
				named[token.value] = 1
				varnode.pos = token.pos
				varnode.value = token.value
				node.rlist = append(node.rlist, varnode)
				if tokenizer.peek().type_ == TOKEN_EQ {""", """				} else if named[token.value] {
					panic(Err(viml_printf("E853: Duplicate argument name: %s", token.value), token.pos))
				}
				named[token.value] = true
				varnode.pos = token.pos
				varnode.value = token.value
				node.rlist = append(node.rlist, varnode)
				if tokenizer.peek().type_ == TOKEN_EQ {"""))
E_ALL = E
