"""Edits of the tokenizer, the expression parsers and the reader that keep the behaviour."""
V = "go/vimlparser.go"; T = "go/type.go"; F = "go/vimlfunc.go"
E = []
def e(name, *subs):
    E.append((name, [(f, "FN:" + o if o.startswith("func ") and "\n" not in o else o, n) for f, o, n in subs]))
K = "func (self *ExprTokenizer) "; P = "func (self *ExprParser) "; L = "func (self *LvalueParser) "; S = "func (self *StringReader) "

GET2_HEAD = '''func (self *ExprTokenizer) get2() *ExprToken {
	r := self.reader
	pos := r.getpos()
	c := r.peek()
'''
NUMS = '''	if c == "<EOF>" {
		return self.token(TOKEN_EOF, c, pos)
	}
	if c == "<EOL>" {
		r.seek_cur(1)
		return self.token(TOKEN_EOL, c, pos)
	}
	if iswhite(c) {
		return self.token(TOKEN_SPACE, r.read_white(), pos)
	}
	if c == "0" {
		switch x := r.p(1); {
		case (x == "X" || x == "x") && isxdigit(r.p(2)):
			s := r.getn(3)
			return self.token(TOKEN_NUMBER, s+r.read_xdigit(), pos)
		case (x == "B" || x == "b") && (r.p(2) == "0" || r.p(2) == "1"):
			s := r.getn(3)
			return self.token(TOKEN_NUMBER, s+r.read_bdigit(), pos)
		case (x == "Z" || x == "z") && r.p(2) != ".":
			s := r.getn(2)
			return self.token(TOKEN_BLOB, s+r.read_blob(), pos)
		}
	}
	if isdigit(c) {
		return self.token(TOKEN_NUMBER, self.number(), pos)
	}
'''
NUMFN = '''
// number reads a decimal number.
func (self *ExprTokenizer) number() string {
	r := self.reader
	s := r.read_digit()
	if r.p(0) != "." || !isdigit(r.p(1)) {
		return s
	}
	s += r.getn(1)
	s += r.read_digit()
	if r.p(0) != "E" && r.p(0) != "e" {
		return s
	}
	sign := r.p(1) == "-" || r.p(1) == "+"
	if isdigit(r.p(1)) || sign && isdigit(r.p(2)) {
		s += r.getn(2)
		s += r.read_digit()
	}
	return s
}
'''
# operators with ? and # forms from a table
OPS = '''
type caseOp struct {
	text          string
	none, ci, cs int
}

var isOp = caseOp{"is", TOKEN_IS, TOKEN_ISCI, TOKEN_ISCS}
var isnotOp = caseOp{"isnot", TOKEN_ISNOT, TOKEN_ISNOTCI, TOKEN_ISNOTCS}

// caseOps are the comparisons that may be followed by ? or #.
var caseOps = []caseOp{
	{"==", TOKEN_EQEQ, TOKEN_EQEQCI, TOKEN_EQEQCS},
	{"!=", TOKEN_NEQ, TOKEN_NEQCI, TOKEN_NEQCS},
	{">=", TOKEN_GTEQ, TOKEN_GTEQCI, TOKEN_GTEQCS},
	{"<=", TOKEN_LTEQ, TOKEN_LTEQCI, TOKEN_LTEQCS},
	{"=~", TOKEN_MATCH, TOKEN_MATCHCI, TOKEN_MATCHCS},
	{"!~", TOKEN_NOMATCH, TOKEN_NOMATCHCI, TOKEN_NOMATCHCS},
	{">", TOKEN_GT, TOKEN_GTCI, TOKEN_GTCS},
	{"<", TOKEN_LT, TOKEN_LTCI, TOKEN_LTCS},
}

// caseToken is the token of the operator o, which starts here.
func (self *ExprTokenizer) caseToken(o caseOp, pos *pos) *ExprToken {
	r := self.reader
	n := len(o.text)
	switch r.p(n) {
	case "?":
		r.seek_cur(n + 1)
		return self.token(o.ci, o.text+"?", pos)
	case "#":
		r.seek_cur(n + 1)
		return self.token(o.cs, o.text+"#", pos)
	}
	r.seek_cur(n)
	return self.token(o.none, o.text, pos)
}

// caseSuffix does the same for one operator.
func (self *ExprTokenizer) caseSuffix(text string, none, ci, cs int, pos *pos) *ExprToken {
	return self.caseToken(caseOp{text, none, ci, cs}, pos)
}
'''
SINGLE = '''
var singleTokens = map[string]int{
	"+": TOKEN_PLUS, "*": TOKEN_STAR, "/": TOKEN_SLASH, "%": TOKEN_PERCENT, "!": TOKEN_NOT,
	"?": TOKEN_QUESTION, ":": TOKEN_COLON, "(": TOKEN_POPEN, ")": TOKEN_PCLOSE,
	"[": TOKEN_SQOPEN, "]": TOKEN_SQCLOSE, "{": TOKEN_COPEN, "}": TOKEN_CCLOSE,
	",": TOKEN_COMMA, "'": TOKEN_SQUOTE, "\\"": TOKEN_DQUOTE, "=": TOKEN_EQ,
	"|": TOKEN_OR, ";": TOKEN_SEMICOLON, "`": TOKEN_BACKTICK,
}
'''
IDENT = '''	if c == "i" && r.p(1) == "s" {
		if !isidc(r.p(2)) {
			return self.caseSuffix("is", TOKEN_IS, TOKEN_ISCI, TOKEN_ISCS, pos)
		}
		if r.p(2) == "n" && r.p(3) == "o" && r.p(4) == "t" && !isidc(r.p(5)) {
			return self.caseSuffix("isnot", TOKEN_ISNOT, TOKEN_ISNOTCI, TOKEN_ISNOTCS, pos)
		}
	}
	if isnamec1(c) {
		return self.token(TOKEN_IDENTIFIER, r.read_name(), pos)
	}
'''
TWO = '''	if c == "|" && r.p(1) == "|" {
		r.seek_cur(2)
		return self.token(TOKEN_OROR, "||", pos)
	}
	if c == "&" && r.p(1) == "&" {
		r.seek_cur(2)
		return self.token(TOKEN_ANDAND, "&&", pos)
	}
'''
CASES_IF = '''	switch {
	case c == "=" && r.p(1) == "=":
		return self.caseSuffix("==", TOKEN_EQEQ, TOKEN_EQEQCI, TOKEN_EQEQCS, pos)
	case c == "!" && r.p(1) == "=":
		return self.caseSuffix("!=", TOKEN_NEQ, TOKEN_NEQCI, TOKEN_NEQCS, pos)
	case c == ">" && r.p(1) == "=":
		return self.caseSuffix(">=", TOKEN_GTEQ, TOKEN_GTEQCI, TOKEN_GTEQCS, pos)
	case c == "<" && r.p(1) == "=":
		return self.caseSuffix("<=", TOKEN_LTEQ, TOKEN_LTEQCI, TOKEN_LTEQCS, pos)
	case c == "=" && r.p(1) == "~":
		return self.caseSuffix("=~", TOKEN_MATCH, TOKEN_MATCHCI, TOKEN_MATCHCS, pos)
	case c == "!" && r.p(1) == "~":
		return self.caseSuffix("!~", TOKEN_NOMATCH, TOKEN_NOMATCHCI, TOKEN_NOMATCHCS, pos)
	case c == ">":
		return self.caseSuffix(">", TOKEN_GT, TOKEN_GTCI, TOKEN_GTCS, pos)
	case c == "<":
		return self.caseSuffix("<", TOKEN_LT, TOKEN_LTCI, TOKEN_LTCS, pos)
	}
'''
CASES_TAB = '''	for _, o := range caseOps {
		if c == o.text[:1] && (len(o.text) == 1 || r.p(1) == o.text[1:]) {
			return self.caseToken(o, pos)
		}
	}
'''
REST = '''	switch c {
	case "-":
		if r.p(1) == ">" {
			r.seek_cur(2)
			return self.token(TOKEN_ARROW, "->", pos)
		}
		r.seek_cur(1)
		return self.token(TOKEN_MINUS, "-", pos)
	case ".":
		n := 1
		for n < 3 && r.p(n) == "." {
			n++
		}
		r.seek_cur(n)
		return self.token([]int{TOKEN_DOT, TOKEN_DOTDOT, TOKEN_DOTDOTDOT}[n-1], "..."[:n], pos)
	case "#":
		if r.p(1) == "{" {
			r.seek_cur(2)
			return self.token(TOKEN_LITCOPEN, "#{", pos)
		}
		r.seek_cur(1)
		return self.token(TOKEN_SHARP, "#", pos)
	case "$":
		s := r.getn(1)
		return self.token(TOKEN_ENV, s+r.read_word(), pos)
	case "@":
		return self.token(TOKEN_REG, r.getn(2), pos)
	case "&":
		n := 1
		if (r.p(1) == "g" || r.p(1) == "l") && r.p(2) == ":" {
			n = 3
		}
		s := r.getn(n)
		return self.token(TOKEN_OPTION, s+r.read_word(), pos)
	}
'''
DOT_IF = REST.replace('''		n := 1
		for n < 3 && r.p(n) == "." {
			n++
		}
		r.seek_cur(n)
		return self.token([]int{TOKEN_DOT, TOKEN_DOTDOT, TOKEN_DOTDOTDOT}[n-1], "..."[:n], pos)
''', '''		if r.p(1) != "." {
			r.seek_cur(1)
			return self.token(TOKEN_DOT, ".", pos)
		}
		if r.p(2) != "." {
			r.seek_cur(2)
			return self.token(TOKEN_DOTDOT, "..", pos)
		}
		r.seek_cur(3)
		return self.token(TOKEN_DOTDOTDOT, "...", pos)
''')
ONE_MAP = '''	if t, ok := singleTokens[c]; ok {
		r.seek_cur(1)
		return self.token(t, c, pos)
	}
	panic(Err(viml_printf("unexpected character: %s", c), self.reader.getpos()))
}
'''
ONE_SW = '''	t := -1
	switch c {
	case "+":
		t = TOKEN_PLUS
	case "*":
		t = TOKEN_STAR
	case "/":
		t = TOKEN_SLASH
	case "%":
		t = TOKEN_PERCENT
	case "!":
		t = TOKEN_NOT
	case "?":
		t = TOKEN_QUESTION
	case ":":
		t = TOKEN_COLON
	case "(":
		t = TOKEN_POPEN
	case ")":
		t = TOKEN_PCLOSE
	case "[":
		t = TOKEN_SQOPEN
	case "]":
		t = TOKEN_SQCLOSE
	case "{":
		t = TOKEN_COPEN
	case "}":
		t = TOKEN_CCLOSE
	case ",":
		t = TOKEN_COMMA
	case "'":
		t = TOKEN_SQUOTE
	case "\\"":
		t = TOKEN_DQUOTE
	case "=":
		t = TOKEN_EQ
	case "|":
		t = TOKEN_OR
	case ";":
		t = TOKEN_SEMICOLON
	case "`":
		t = TOKEN_BACKTICK
	}
	if t < 0 {
		panic(Err(viml_printf("unexpected character: %s", c), r.getpos()))
	}
	r.seek_cur(1)
	return self.token(t, c, pos)
}
'''
e("get2-guards", (V, K + "get2()", GET2_HEAD + NUMS + IDENT + TWO + CASES_IF + DOT_IF + ONE_SW + NUMFN + OPS))
e("get2-tables", (V, K + "get2()", GET2_HEAD + NUMS + IDENT + TWO + CASES_TAB + DOT_IF + ONE_MAP + NUMFN + OPS + SINGLE))
e("get2-dots", (V, K + "get2()", GET2_HEAD + NUMS + IDENT + TWO + CASES_IF + REST + ONE_MAP + NUMFN + OPS + SINGLE))
e("get2-single-first", (V, K + "get2()", GET2_HEAD + NUMS + IDENT + '''	switch c {
	case "(", ")", "[", "]", "{", "}", ",", ";", "`", "'", "\\"", "+", "*", "/", "%", "?", ":":
		r.seek_cur(1)
		return self.token(singleTokens[c], c, pos)
	}
''' + TWO + CASES_IF + DOT_IF + ONE_MAP + NUMFN + OPS + SINGLE))
e("get-defer", (V, K + "get()", '''func (self *ExprTokenizer) get() *ExprToken {
	start := self.reader.tell()
	if x, ok := self.cache[start]; ok {
		self.reader.seek_set(x[0].(int))
		return x[1].(*ExprToken)
	}
	self.reader.skip_white()
	tok := self.get2()
	self.cache[start] = []interface{}{self.reader.tell(), tok}
	return tok
}
'''))
e("cache-struct", (V, K + "get()", '''func (self *ExprTokenizer) get() *ExprToken {
	var pos = self.reader.tell()
	if x, ok := self.cache[pos]; ok {
		self.reader.seek_set(x.end)
		return x.token
	}
	self.reader.skip_white()
	var r = self.get2()
	self.cache[pos] = cachedToken{self.reader.tell(), r}
	return r
}
'''), (T, '''	cache  map[int][]interface{} // (int, *ExprToken)
''', '''	cache  map[int]cachedToken
'''), (T, '''	obj.cache = make(map[int][]interface{})
''', '''	obj.cache = make(map[int]cachedToken)
'''), (T, '''type ExprTokenizer struct {''', '''// cachedToken is a token and where the reader is after it.
type cachedToken struct {
	end   int
	token *ExprToken
}

type ExprTokenizer struct {'''))
e("sstring-builder", (V, K + "get_sstring()", '''func (self *ExprTokenizer) get_sstring() string {
	r := self.reader
	r.skip_white()
	if c := r.p(0); c != "'" {
		panic(Err(viml_printf("unexpected character: %s", c), r.getpos()))
	}
	r.seek_cur(1)
	var b strings.Builder
	for {
		switch c := r.p(0); c {
		case "<EOF>", "<EOL>":
			panic(Err("unexpected EOL", r.getpos()))
		case "'":
			r.seek_cur(1)
			if r.p(0) != "'" {
				return b.String()
			}
			r.seek_cur(1)
			b.WriteString("''")
		default:
			r.seek_cur(1)
			b.WriteString(c)
		}
	}
}
'''), (V, '''package vimlparser
''', '''package vimlparser

import "strings"
'''))
e("dstring-switch", (V, K + "get_dstring()", '''func (self *ExprTokenizer) get_dstring() string {
	r := self.reader
	r.skip_white()
	if c := r.p(0); c != "\\"" {
		panic(Err(viml_printf("unexpected character: %s", c), r.getpos()))
	}
	r.seek_cur(1)
	s := ""
	for {
		c := r.p(0)
		if c == "<EOF>" || c == "<EOL>" {
			panic(Err("unexpectd EOL", r.getpos()))
		}
		r.seek_cur(1)
		if c == "\\"" {
			return s
		}
		s += c
		if c == "\\\\" {
			c = r.p(0)
			if c == "<EOF>" || c == "<EOL>" {
				panic(Err("ExprTokenizer: unexpected EOL", r.getpos()))
			}
			r.seek_cur(1)
			s += c
		}
	}
}
'''))
e("string-helper", (V, K + "get_sstring()", '''// open reads the quote q.
func (self *ExprTokenizer) open(q string) {
	self.reader.skip_white()
	if c := self.reader.p(0); c != q {
		panic(Err(viml_printf("unexpected character: %s", c), self.reader.getpos()))
	}
	self.reader.seek_cur(1)
}

// char is the next character, which is there on this line.
func (self *ExprTokenizer) char(msg string) string {
	c := self.reader.p(0)
	if c == "<EOF>" || c == "<EOL>" {
		panic(Err(msg, self.reader.getpos()))
	}
	self.reader.seek_cur(1)
	return c
}

func (self *ExprTokenizer) get_sstring() string {
	self.open("'")
	s := ""
	for {
		c := self.char("unexpected EOL")
		if c == "'" {
			if self.reader.p(0) != "'" {
				return s
			}
			self.reader.seek_cur(1)
			c = "''"
		}
		s += c
	}
}
'''), (V, K + "get_dstring()", '''func (self *ExprTokenizer) get_dstring() string {
	self.open("\\"")
	s := ""
	for {
		c := self.char("unexpectd EOL")
		switch c {
		case "\\"":
			return s
		case "\\\\":
			s += c + self.char("ExprTokenizer: unexpected EOL")
		default:
			s += c
		}
	}
}
'''))
e("dict-key", (V, K + "parse_dict_literal_key()", '''func iskeyc(c string) bool { return isalnum(c) || c == "_" || c == "-" }

func (self *ExprTokenizer) parse_dict_literal_key() *VimNode {
	r := self.reader
	r.skip_white()
	if c := r.peek(); !iskeyc(c) {
		panic(Err(viml_printf("unexpected character: %s", c), r.getpos()))
	}
	node := Node(NODE_STRING)
	node.pos = r.getpos()
	s := r.p(0)
	r.seek_cur(1)
	for {
		c := r.p(0)
		switch {
		case c == "<EOF>" || c == "<EOL>":
			panic(Err("unexpectd EOL", r.getpos()))
		case !iskeyc(c):
			node.value = "'" + s + "'"
			return node
		}
		r.seek_cur(1)
		s += c
	}
}
'''))
BIN = '''// binary makes a node of type t for the operator op.
func binary(t int, op *ExprToken, left, right *VimNode) *VimNode {
	node := Node(t)
	node.pos = op.pos
	node.left = left
	node.right = right
	return node
}

'''
def loop(n, tab, name="compareOps"):
    return '''func (self *ExprParser) parse_expr%d() *VimNode {
	left := self.parse_expr%d()
	for {
		pos := self.reader.tell()
		token := self.tokenizer.get()
		var type_ int
		switch token.type_ {
%s		default:
			self.reader.seek_set(pos)
			return left
		}
		left = binary(type_, token, left, self.parse_expr%d())
	}
}
''' % (n, n + 1, "".join("\t\tcase %s:\n\t\t\ttype_ = %s\n" % x for x in tab), n + 1)
T5 = [("TOKEN_PLUS", "NODE_ADD"), ("TOKEN_MINUS", "NODE_SUBTRACT"), ("TOKEN_DOT, TOKEN_DOTDOT", "NODE_CONCAT")]
T6 = [("TOKEN_STAR", "NODE_MULTIPLY"), ("TOKEN_SLASH", "NODE_DIVIDE"), ("TOKEN_PERCENT", "NODE_REMAINDER")]
CMP = []
for t, n in [("EQEQ", "EQUAL"), ("NEQ", "NEQUAL"), ("GT", "GREATER"), ("GTEQ", "GEQUAL"), ("LT", "SMALLER"), ("LTEQ", "SEQUAL"), ("MATCH", "MATCH"), ("NOMATCH", "NOMATCH"), ("IS", "IS"), ("ISNOT", "ISNOT")]:
    for s in ["", "CI", "CS"]:
        CMP.append(("TOKEN_" + t + s, "NODE_" + n + s))
MAP4 = "var compareNodes = map[int]int{\n" + "".join("\t%s: %s,\n" % x for x in CMP) + "}\n\n"
e("expr56-switch", (V, P + "parse_expr5()", BIN + loop(5, T5)), (V, P + "parse_expr6()", loop(6, T6)))
e("expr4-map", (V, P + "parse_expr4()", BIN + MAP4 + '''func (self *ExprParser) parse_expr4() *VimNode {
	left := self.parse_expr5()
	pos := self.reader.tell()
	token := self.tokenizer.get()
	if t, ok := compareNodes[token.type_]; ok {
		return binary(t, token, left, self.parse_expr5())
	}
	self.reader.seek_set(pos)
	return left
}
'''))
e("expr4-switch", (V, P + "parse_expr4()", '''func compareNode(token int) int {
	switch token {
%s	}
	return -1
}

func (self *ExprParser) parse_expr4() *VimNode {
	left := self.parse_expr5()
	pos := self.reader.tell()
	token := self.tokenizer.get()
	t := compareNode(token.type_)
	if t == -1 {
		self.reader.seek_set(pos)
		return left
	}
	node := Node(t)
	node.pos = token.pos
	node.left = left
	node.right = self.parse_expr5()
	return node
}
''' % "".join("\tcase %s:\n\t\treturn %s\n" % x for x in CMP)))
e("binary-generic", (V, P + "parse_expr2()", BIN + '''// leftAssoc parses operands with next, joined by the operators in ops.
func (self *ExprParser) leftAssoc(next func() *VimNode, ops map[int]int) *VimNode {
	left := next()
	for {
		pos := self.reader.tell()
		token := self.tokenizer.get()
		t, ok := ops[token.type_]
		if !ok {
			self.reader.seek_set(pos)
			return left
		}
		left = binary(t, token, left, next())
	}
}

func (self *ExprParser) parse_expr2() *VimNode {
	return self.leftAssoc(self.parse_expr3, map[int]int{TOKEN_OROR: NODE_OR})
}
'''), (V, P + "parse_expr3()", '''func (self *ExprParser) parse_expr3() *VimNode {
	return self.leftAssoc(self.parse_expr4, map[int]int{TOKEN_ANDAND: NODE_AND})
}
'''), (V, P + "parse_expr6()", '''func (self *ExprParser) parse_expr6() *VimNode {
	return self.leftAssoc(self.parse_expr7, map[int]int{TOKEN_STAR: NODE_MULTIPLY, TOKEN_SLASH: NODE_DIVIDE, TOKEN_PERCENT: NODE_REMAINDER})
}
'''))
e("expr1-guard", (V, P + "parse_expr1()", '''func (self *ExprParser) parse_expr1() *VimNode {
	cond := self.parse_expr2()
	pos := self.reader.tell()
	token := self.tokenizer.get()
	if token.type_ != TOKEN_QUESTION {
		self.reader.seek_set(pos)
		return cond
	}
	node := Node(NODE_TERNARY)
	node.pos = token.pos
	node.cond = cond
	node.left = self.parse_expr1()
	self.expect(TOKEN_COLON)
	node.right = self.parse_expr1()
	return node
}

// expect reads a token of type t.
func (self *ExprParser) expect(t int) *ExprToken {
	token := self.tokenizer.get()
	if token.type_ != t {
		panic(Err(viml_printf("unexpected token: %s", token.value), token.pos))
	}
	return token
}
'''))
e("expr7-map", (V, P + "parse_expr7()", '''func (self *ExprParser) parse_expr7() *VimNode {
	pos := self.reader.tell()
	token := self.tokenizer.get()
	t := -1
	switch token.type_ {
	case TOKEN_NOT:
		t = NODE_NOT
	case TOKEN_MINUS:
		t = NODE_MINUS
	case TOKEN_PLUS:
		t = NODE_PLUS
	}
	if t == -1 {
		self.reader.seek_set(pos)
		return self.parse_expr8()
	}
	node := Node(t)
	node.pos = token.pos
	node.left = self.parse_expr7()
	return node
}
'''))
SUBS = '''
// parse_subscript parses what comes after "[".
func (self *ExprParser) parse_subscript(open *ExprToken, left *VimNode) *VimNode {
	var low *VimNode
	if self.tokenizer.peek().type_ != TOKEN_COLON {
		low = self.parse_expr1()
	}
	if low != nil && self.tokenizer.peek().type_ != TOKEN_COLON {
		node := Node(NODE_SUBSCRIPT)
		node.pos = open.pos
		node.left = left
		node.right = low
		self.expect(TOKEN_SQCLOSE)
		return node
	}
	self.tokenizer.get()
	node := Node(NODE_SLICE)
	node.pos = open.pos
	node.left = left
	var high *VimNode
	if self.tokenizer.peek().type_ != TOKEN_SQCLOSE {
		high = self.parse_expr1()
	}
	node.rlist = []*VimNode{low, high}
	self.expect(TOKEN_SQCLOSE)
	return node
}

// expect reads a token of type t.
func (self *ExprParser) expect(t int) {
	if token := self.tokenizer.get(); token.type_ != t {
		panic(Err(viml_printf("unexpected token: %s", token.value), token.pos))
	}
}
'''
SUBS2 = '''
// parse_subscript parses what comes after "[".
func (self *ExprParser) parse_subscript(npos *pos, left *VimNode) *VimNode {
	if self.tokenizer.peek().type_ == TOKEN_COLON {
		self.tokenizer.get()
		return self.parse_slice(npos, left, nil)
	}
	right := self.parse_expr1()
	if self.tokenizer.peek().type_ == TOKEN_COLON {
		self.tokenizer.get()
		return self.parse_slice(npos, left, right)
	}
	node := Node(NODE_SUBSCRIPT)
	node.pos = npos
	node.left = left
	node.right = right
	self.close()
	return node
}

func (self *ExprParser) parse_slice(npos *pos, left, from *VimNode) *VimNode {
	node := Node(NODE_SLICE)
	node.pos = npos
	node.left = left
	node.rlist = []*VimNode{from, nil}
	if self.tokenizer.peek().type_ != TOKEN_SQCLOSE {
		node.rlist[1] = self.parse_expr1()
	}
	self.close()
	return node
}

func (self *ExprParser) close() {
	token := self.tokenizer.get()
	if token.type_ != TOKEN_SQCLOSE {
		panic(Err(viml_printf("unexpected token: %s", token.value), token.pos))
	}
}
'''
E8 = '''func (self *ExprParser) parse_expr8() *VimNode {
	left := self.parse_expr9()
	for {
		pos := self.reader.tell()
		white := iswhite(self.reader.peek())
		token := self.tokenizer.get()
		var next *VimNode
		switch {
		case token.type_ == TOKEN_SQOPEN && !white:
			next = self.parse_subscript(%s, left)
		case token.type_ == TOKEN_ARROW:
			next = self.parse_method(left)
		case token.type_ == TOKEN_POPEN:
			next = self.parse_call(token, left)
		case token.type_ == TOKEN_DOT && !white:
			next = self.parse_dot(token, left)
		}
		if next == nil {
			self.reader.seek_set(pos)
			return left
		}
		left = next
	}
}

func (self *ExprParser) parse_call(open *ExprToken, left *VimNode) *VimNode {
	node := Node(NODE_CALL)
	node.pos = open.pos
	node.left = left
	node.rlist = self.parse_rlist()
	return node
}

func (self *ExprParser) parse_method(left *VimNode) *VimNode {
	f := self.parse_expr9()
	token := self.tokenizer.get()
	if token.type_ != TOKEN_POPEN {
		panic(Err("E107: Missing parentheses: lambda", token.pos))
	}
	node := Node(NODE_METHOD)
	node.pos = token.pos
	node.left = left
	node.right = self.parse_call(token, f)
	return node
}
'''
LV8 = '''func (self *LvalueParser) parse_lv8() *VimNode {
	left := self.parse_lv9()
	for {
		pos := self.reader.tell()
		c := self.reader.peek()
		token := self.tokenizer.get()
		var node *VimNode
		if !iswhite(c) {
			switch token.type_ {
			case TOKEN_SQOPEN:
				node = self.parse_subscript(%s, left)
			case TOKEN_DOT:
				node = self.parse_dot(token, left)
			}
		}
		if node == nil {
			self.reader.seek_set(pos)
			break
		}
		left = node
	}
	return left
}
'''
e("expr8-split", (V, P + "parse_expr8()", E8 % "token" + SUBS), (V, L + "parse_lv8()", LV8 % "token"))
e("expr8-split2", (V, P + "parse_expr8()", E8 % "token.pos" + SUBS2), (V, L + "parse_lv8()", LV8 % "token.pos"))
e("rlist-list", (V, P + "parse_rlist()", '''func (self *ExprParser) parse_rlist() []*VimNode {
	var rlist []*VimNode
	token := self.tokenizer.peek()
	if token.type_ == TOKEN_PCLOSE {
		self.tokenizer.get()
		return rlist
	}
loop:
	for {
		rlist = append(rlist, self.parse_expr1())
		token = self.tokenizer.get()
		switch token.type_ {
		case TOKEN_COMMA:
			if self.tokenizer.peek().type_ == TOKEN_PCLOSE {
				self.tokenizer.get()
				break loop
			}
		case TOKEN_PCLOSE:
			break loop
		default:
			panic(Err(viml_printf("unexpected token: %s", token.value), token.pos))
		}
	}
	if len(rlist) > MAX_FUNC_ARGS {
		panic(Err("E740: Too many arguments for function", token.pos))
	}
	return rlist
}
'''))
e("curly-helper", (V, P + "parse_curly_parts()", '''func curlyPart(type_ int, curly bool, pos *pos, value interface{}) *VimNode {
	node := Node(type_)
	node.curly = curly
	node.pos = pos
	node.value = value
	return node
}

func (self *ExprParser) parse_curly_parts() []*VimNode {
	var parts []*VimNode
	r := self.reader
	if pos := r.getpos(); r.peek() == "<" && viml_equalci(r.peekn(5), "<SID>") {
		parts = append(parts, curlyPart(NODE_CURLYNAMEPART, false, pos, r.getn(5)))
	}
	for {
		c := r.peek()
		pos := r.getpos()
		switch {
		case isnamec(c):
			parts = append(parts, curlyPart(NODE_CURLYNAMEPART, false, pos, r.read_name()))
		case c == "{":
			r.get()
			parts = append(parts, curlyPart(NODE_CURLYNAMEEXPR, true, pos, self.parse_expr1()))
			r.skip_white()
			if c := r.p(0); c != "}" {
				panic(Err(viml_printf("unexpected token: %s", c), r.getpos()))
			}
			r.seek_cur(1)
		default:
			return parts
		}
	}
}
'''))
E9L = '''// leaf makes a node of type t with the text of the token.
func leaf(t int, token *ExprToken) *VimNode {
	node := Node(t)
	node.pos = token.pos
	node.value = token.value
	return node
}

'''
e("lv9-switch", (V, L + "parse_lv9()", E9L + '''func (self *LvalueParser) parse_lv9() *VimNode {
	pos := self.reader.tell()
	token := self.tokenizer.get()
	switch token.type_ {
	case TOKEN_OPTION:
		return leaf(NODE_OPTION, token)
	case TOKEN_ENV:
		return leaf(NODE_ENV, token)
	case TOKEN_REG:
		return leaf(NODE_REG, token)
	case TOKEN_LT:
		if !viml_equalci(self.reader.peekn(4), "SID>") {
			break
		}
		fallthrough
	case TOKEN_COPEN, TOKEN_IDENTIFIER:
		self.reader.seek_set(pos)
		return self.parse_identifier()
	}
	panic(Err(viml_printf("unexpected token: %s", token.value), token.pos))
}
'''))
E9 = E9L + '''func (self *ExprParser) unexpected(token *ExprToken) *ParseError {
	return Err(viml_printf("unexpected token: %s", token.value), token.pos)
}

func (self *ExprParser) parse_expr9() *VimNode {
	pos := self.reader.tell()
	token := self.tokenizer.get()
	switch token.type_ {
	case TOKEN_NUMBER:
		return leaf(NODE_NUMBER, token)
	case TOKEN_BLOB:
		return leaf(NODE_BLOB, token)
	case TOKEN_DQUOTE:
		self.reader.seek_set(pos)
		node := leaf(NODE_STRING, token)
		node.value = "\\"" + self.tokenizer.get_dstring() + "\\""
		return node
	case TOKEN_SQUOTE:
		self.reader.seek_set(pos)
		node := leaf(NODE_STRING, token)
		node.value = "'" + self.tokenizer.get_sstring() + "'"
		return node
	case TOKEN_SQOPEN:
		return self.parse_list(token)
	case TOKEN_COPEN, TOKEN_LITCOPEN:
		return self.parse_brace(pos, token)
	case TOKEN_POPEN:
		node := Node(NODE_PARENEXPR)
		node.pos = token.pos
		node.value = self.parse_expr1()
		if token = self.tokenizer.get(); token.type_ != TOKEN_PCLOSE {
			panic(self.unexpected(token))
		}
		return node
	case TOKEN_OPTION:
		return leaf(NODE_OPTION, token)
	case TOKEN_ENV:
		return leaf(NODE_ENV, token)
	case TOKEN_REG:
		return leaf(NODE_REG, token)
	case TOKEN_LT:
		if !viml_equalci(self.reader.peekn(4), "SID>") {
			panic(self.unexpected(token))
		}
		self.reader.seek_set(pos)
		return self.parse_identifier()
	case TOKEN_IDENTIFIER, TOKEN_IS, TOKEN_ISCS, TOKEN_ISNOT, TOKEN_ISNOTCS:
		self.reader.seek_set(pos)
		return self.parse_identifier()
	}
	panic(self.unexpected(token))
}

func (self *ExprParser) parse_list(open *ExprToken) *VimNode {
	node := Node(NODE_LIST)
	node.pos = open.pos
	items := []interface{}{}
	for self.tokenizer.peek().type_ != TOKEN_SQCLOSE {
		items = append(items, self.parse_expr1())
		token := self.tokenizer.peek()
		if token.type_ == TOKEN_SQCLOSE {
			break
		}
		if token.type_ != TOKEN_COMMA {
			panic(self.unexpected(token))
		}
		self.tokenizer.get()
	}
	self.tokenizer.get()
	node.value = items
	return node
}

// parse_brace parses a lambda, a dictionary or a name that starts with {.
func (self *ExprParser) parse_brace(start int, open *ExprToken) *VimNode {
	after := self.reader.tell()
	token := self.tokenizer.get()
	lambda := token.type_ == TOKEN_ARROW
	if !lambda && token.type_ != TOKEN_SQUOTE && token.type_ != TOKEN_DQUOTE {
		next := self.tokenizer.peek().type_
		lambda = next == TOKEN_ARROW || next == TOKEN_COMMA
	}
	if lambda {
		if node := self.parse_lambda(open.pos, token); node != nil {
			return node
		}
	}
	self.reader.seek_set(after)
	return self.parse_dict(start, open)
}

// parse_lambda returns nil if it is no lambda after all.
func (self *ExprParser) parse_lambda(npos *pos, token *ExprToken) *VimNode {
	node := Node(NODE_LAMBDA)
	node.pos = npos
	node.rlist = []*VimNode{}
	named := map[string]interface{}{}
params:
	for token.type_ != TOKEN_ARROW {
		switch token.type_ {
		case TOKEN_IDENTIFIER:
			if !isargname(token.value) {
				panic(Err(viml_printf("E125: Illegal argument: %s", token.value), token.pos))
			}
			if viml_has_key(named, token.value) {
				panic(Err(viml_printf("E853: Duplicate argument name: %s", token.value), token.pos))
			}
			named[token.value] = 1
			varnode := leaf(NODE_IDENTIFIER, token)
			if iswhite(self.reader.p(0)) && self.tokenizer.peek().type_ == TOKEN_COMMA {
				panic(Err("E475: Invalid argument: White space is not allowed before comma", self.reader.getpos()))
			}
			token = self.tokenizer.get()
			node.rlist = append(node.rlist, varnode)
			switch token.type_ {
			case TOKEN_COMMA:
				if self.tokenizer.peek().type_ == TOKEN_ARROW {
					self.tokenizer.get()
					break params
				}
			case TOKEN_ARROW:
				break params
			default:
				panic(Err(viml_printf("unexpected token: %s, type: %d", token.value, token.type_), token.pos))
			}
		case TOKEN_DOTDOTDOT:
			node.rlist = append(node.rlist, leaf(NODE_IDENTIFIER, token))
			if token = self.tokenizer.peek(); token.type_ != TOKEN_ARROW {
				panic(self.unexpected(token))
			}
			self.tokenizer.get()
			break params
		default:
			return nil
		}
		token = self.tokenizer.get()
	}
	node.left = self.parse_expr1()
	if token = self.tokenizer.get(); token.type_ != TOKEN_CCLOSE {
		panic(self.unexpected(token))
	}
	return node
}

func (self *ExprParser) parse_dict(start int, open *ExprToken) *VimNode {
	node := Node(NODE_DICT)
	node.pos = open.pos
	entries := []interface{}{}
	node.value = entries
	if self.tokenizer.peek().type_ == TOKEN_CCLOSE {
		self.tokenizer.get()
		return node
	}
	for {
		var key *VimNode
		if open.type_ == TOKEN_LITCOPEN {
			key = self.tokenizer.parse_dict_literal_key()
		} else {
			key = self.parse_expr1()
		}
		token := self.tokenizer.get()
		if token.type_ == TOKEN_CCLOSE && len(entries) == 0 {
			self.reader.seek_set(start)
			return self.parse_identifier()
		}
		if token.type_ != TOKEN_COLON {
			panic(self.unexpected(token))
		}
		entries = append(entries, []interface{}{key, self.parse_expr1()})
		node.value = entries
		token = self.tokenizer.get()
		if token.type_ == TOKEN_CCLOSE {
			return node
		}
		if token.type_ != TOKEN_COMMA {
			panic(self.unexpected(token))
		}
		if self.tokenizer.peek().type_ == TOKEN_CCLOSE {
			self.tokenizer.get()
			return node
		}
	}
}
'''
e("expr9-split", (V, P + "parse_expr9()", E9))
E9K = E9.replace('''	for self.tokenizer.peek().type_ != TOKEN_SQCLOSE {
		items = append(items, self.parse_expr1())
		token := self.tokenizer.peek()
		if token.type_ == TOKEN_SQCLOSE {
			break
		}
		if token.type_ != TOKEN_COMMA {
			panic(self.unexpected(token))
		}
		self.tokenizer.get()
	}
	self.tokenizer.get()
	node.value = items
	return node
''', '''	node.value = items
	if self.tokenizer.peek().type_ == TOKEN_SQCLOSE {
		self.tokenizer.get()
		return node
	}
	for {
		items = append(items, self.parse_expr1())
		node.value = items
		token := self.tokenizer.peek()
		switch token.type_ {
		case TOKEN_SQCLOSE:
			self.tokenizer.get()
			return node
		case TOKEN_COMMA:
			self.tokenizer.get()
			if self.tokenizer.peek().type_ == TOKEN_SQCLOSE {
				self.tokenizer.get()
				return node
			}
		default:
			panic(self.unexpected(token))
		}
	}
''')
e("expr9-split2", (V, P + "parse_expr9()", E9K))
e("expr9-list-only", (V, '''		node = Node(NODE_LIST)
		node.pos = token.pos
		node.value = []interface{}{}
		token = self.tokenizer.peek()
		if token.type_ == TOKEN_SQCLOSE {
			self.tokenizer.get()
		} else {
			for true {
				node.value = append(node.value.([]interface{}), self.parse_expr1())
				token = self.tokenizer.peek()
				if token.type_ == TOKEN_COMMA {
					self.tokenizer.get()
					if self.tokenizer.peek().type_ == TOKEN_SQCLOSE {
						self.tokenizer.get()
						break
					}
				} else if token.type_ == TOKEN_SQCLOSE {
					self.tokenizer.get()
					break
				} else {
					panic(Err(viml_printf("unexpected token: %s", token.value), token.pos))
				}
			}
		}
''', '''		node = self.parse_list_literal(token)
'''), (V, "func (self *ExprParser) parse_identifier() *VimNode {\n", '''func (self *ExprParser) parse_list_literal(token *ExprToken) *VimNode {
	node := Node(NODE_LIST)
	node.pos = token.pos
	list := []interface{}{}
	token = self.tokenizer.peek()
	for token.type_ != TOKEN_SQCLOSE {
		list = append(list, self.parse_expr1())
		token = self.tokenizer.peek()
		if token.type_ == TOKEN_COMMA {
			self.tokenizer.get()
			token = self.tokenizer.peek()
		} else if token.type_ != TOKEN_SQCLOSE {
			panic(Err(viml_printf("unexpected token: %s", token.value), token.pos))
		}
	}
	self.tokenizer.get()
	node.value = list
	return node
}

func (self *ExprParser) parse_identifier() *VimNode {
'''))
e("dict-key-var", (V, '''			var key = func() *VimNode {
				if is_litdict {
					return self.tokenizer.parse_dict_literal_key()
				} else {
					return self.parse_expr1()
				}
			}()
''', '''			var key *VimNode
			if is_litdict {
				key = self.tokenizer.parse_dict_literal_key()
			} else {
				key = self.parse_expr1()
			}
'''), (V, '''			if token.type_ == TOKEN_CCLOSE {
				if !viml_empty(node.value) {
					panic(Err(viml_printf("unexpected token: %s", token.value), token.pos))
				}
''', '''			if token.type_ == TOKEN_CCLOSE {
				if len(node.value.([]interface{})) > 0 {
					panic(Err(viml_printf("unexpected token: %s", token.value), token.pos))
				}
'''))
# reader
e("reader-indirect", (V, S + "p(i int)", '''func (self *StringReader) p(i int) string {
	if self.eof() {
		return "<EOF>"
	}
	return self.buf[self.i+i]
}
'''), (V, S + "peek()", '''func (self *StringReader) peek() string {
	return self.p(0)
}
'''), (V, S + "get()", '''func (self *StringReader) get() string {
	c := self.p(0)
	if !self.eof() {
		self.i++
	}
	return c
}
'''), (V, S + "seek_cur(i int)", '''func (self *StringReader) seek_cur(i int) {
	self.seek_set(self.tell() + i)
}
'''))
e("reader-while", (V, S + "read_word()", '''// takeWhile reads the characters for which f holds.
func (self *StringReader) takeWhile(f func(string) bool) string {
	var b []byte
	for {
		c := self.peekn(1)
		if !f(c) {
			return string(b)
		}
		b = append(b, self.getn(1)...)
	}
}

func (self *StringReader) read_word() string {
	return self.takeWhile(iswordc)
}
'''), (V, S + "read_white()", '''func (self *StringReader) read_white() string {
	return self.takeWhile(iswhite)
}
'''), (V, S + "read_bdigit()", '''func (self *StringReader) read_bdigit() string {
	return self.takeWhile(func(c string) bool { return c == "0" || c == "1" })
}
'''))
e("read-integer", (V, S + "read_integer()", '''func (self *StringReader) read_integer() string {
	sign := ""
	switch self.peekn(1) {
	case "-", "+":
		sign = self.getn(1)
	}
	digits := self.read_digit()
	return sign + digits
}
'''), (V, S + "readline()", '''func (self *StringReader) readline() string {
	line := self.getn(-1)
	if !self.eof() {
		self.i++
	}
	return line
}
'''))
e("read-blob", (V, S + "read_blob()", '''func (self *StringReader) read_blob() string {
	r := ""
	for {
		s := self.peekn(2)
		n := 0
		switch {
		case viml_eqregh(s, "^[0-9A-Fa-f][0-9A-Fa-f]$"):
			n = 2
		case viml_eqregh(s, "^\\\\.[0-9A-Fa-f]$"):
			n = 1
		case viml_eqregh(s, "^[0-9A-Fa-f][^0-9A-Fa-f]$"):
			panic(Err("E973: Blob literal should have an even number of hex characters:"+s, self.getpos()))
		}
		if n == 0 {
			return r
		}
		r += self.getn(n)
	}
}
'''))
e("getn-builder", (V, S + "getn(n int)", '''func (self *StringReader) getn(n int) string {
	var b strings.Builder
	for j := 0; j != n && self.i < len(self.buf) && self.buf[self.i] != "<EOL>"; j++ {
		b.WriteString(self.buf[self.i])
		self.i++
	}
	return b.String()
}
'''), (V, '''package vimlparser
''', '''package vimlparser

import "strings"
'''))
e("getstr-slice", (V, S + "getstr(begin *pos, end *pos)", '''func (self *StringReader) getstr(begin *pos, end *pos) string {
	r := ""
	last := end.i
	if last > len(self.buf) {
		last = len(self.buf)
	}
	for i := begin.i; i < last; i++ {
		if self.buf[i] == "<EOL>" {
			r += "\\n"
		} else {
			r += self.buf[i]
		}
	}
	return r
}
'''))
e("skip-white-helper", (V, S + "skip_white()", '''func (self *StringReader) skip(f func(string) bool) {
	for f(self.peekn(1)) {
		self.seek_cur(1)
	}
}

func (self *StringReader) skip_white() {
	self.skip(iswhite)
}
'''), (V, S + "skip_white_and_colon()", '''func (self *StringReader) skip_white_and_colon() {
	self.skip(func(c string) bool { return iswhite(c) || c == ":" })
}
'''))
e("lhs-merge", (V, "func (self *VimLParser) parse_letlhs()", '''// parse_lhs parses the left hand side; single parses one that is no list.
func (self *VimLParser) parse_lhs(single func() *VimNode) *lhs {
	lhs := &lhs{}
	tokenizer := NewExprTokenizer(self.reader)
	if tokenizer.peek().type_ != TOKEN_SQOPEN {
		lhs.left = single()
		return lhs
	}
	tokenizer.get()
	for {
		lhs.list = append(lhs.list, self.parse_lvalue())
		token := tokenizer.get()
		if token.type_ == TOKEN_COMMA {
			continue
		}
		if token.type_ == TOKEN_SEMICOLON {
			lhs.rest = self.parse_lvalue()
			token = tokenizer.get()
		}
		if token.type_ != TOKEN_SQCLOSE {
			panic(Err(viml_printf("E475 Invalid argument: %s", token.value), token.pos))
		}
		return lhs
	}
}

func (self *VimLParser) parse_letlhs() *lhs {
	return self.parse_lhs(self.parse_lvalue)
}
'''), (V, "func (self *VimLParser) parse_constlhs()", '''func (self *VimLParser) parse_constlhs() *lhs {
	return self.parse_lhs(self.parse_constlvalue)
}
'''))
e("lhs-merge-flag", (V, "func (self *VimLParser) parse_letlhs()", '''func (self *VimLParser) parse_lhs(constant bool) *lhs {
	lhs := &lhs{}
	tokenizer := NewExprTokenizer(self.reader)
	if tokenizer.peek().type_ != TOKEN_SQOPEN {
		if constant {
			lhs.left = self.parse_constlvalue()
		} else {
			lhs.left = self.parse_lvalue()
		}
		return lhs
	}
	tokenizer.get()
	for {
		lhs.list = append(lhs.list, self.parse_lvalue())
		token := tokenizer.get()
		switch token.type_ {
		case TOKEN_SQCLOSE:
			return lhs
		case TOKEN_COMMA:
			continue
		case TOKEN_SEMICOLON:
			lhs.rest = self.parse_lvalue()
			if token = tokenizer.get(); token.type_ == TOKEN_SQCLOSE {
				return lhs
			}
		}
		panic(Err(viml_printf("E475 Invalid argument: %s", token.value), token.pos))
	}
}

func (self *VimLParser) parse_letlhs() *lhs {
	return self.parse_lhs(false)
}
'''), (V, "func (self *VimLParser) parse_constlhs()", '''func (self *VimLParser) parse_constlhs() *lhs {
	return self.parse_lhs(true)
}
'''))
e("wincmd-guards", (V, "func (self *VimLParser) parse_wincmd()", '''func (self *VimLParser) parse_wincmd() {
	r := self.reader
	c := r.getn(1)
	if c == "" {
		panic(Err("E471: Argument required", r.getpos()))
	}
	invalid := func() { panic(Err("E474: Invalid Argument", r.getpos())) }
	if c == "g" || c == "\\x07" {
		if c2 := r.getn(1); c2 == "" || iswhite(c2) {
			invalid()
		}
	}
	end := r.getpos()
	r.skip_white()
	if !self.ends_excmds(r.peek()) {
		invalid()
	}
	node := Node(NODE_EXCMD)
	node.pos = self.ea.cmdpos
	node.ea = self.ea
	node.str = r.getstr(self.ea.linepos, end)
	self.add_node(node)
}
'''))
E_ALL = E
