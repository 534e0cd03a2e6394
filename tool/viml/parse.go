package viml

import (
	"fmt"
	"os"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"
)

type line struct {
	n int
	s string
}

var contRe = regexp.MustCompile(`^\s*\\`)

// ParseFile reads a Vim script file.
func ParseFile(name string) (f *File, err error) {
	b, err := os.ReadFile(name)
	if err != nil {
		return nil, err
	}
	return Parse(name, string(b))
}

func Parse(name, src string) (f *File, err error) {
	var lines []line
	for i, s := range strings.Split(src, "\n") {
		if contRe.MatchString(s) && len(lines) > 0 {
			k := strings.IndexByte(s, '\\')
			lines[len(lines)-1].s += s[k+1:]
			continue
		}
		lines = append(lines, line{i + 1, s})
	}
	p := &parser{lines: lines, f: &File{Name: name, Funcs: map[string]*Func{}, Vars: map[string]*Expr{}, VarLn: map[string]int{}}}
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(perr); ok {
				err = fmt.Errorf("%s:%d: %s", name, pe.line, pe.msg)
				return
			}
			panic(r)
		}
	}()
	p.top()
	return p.f, nil
}

type perr struct {
	line int
	msg  string
}

type parser struct {
	lines []line
	i     int
	f     *File

	// current line
	s  string
	p  int
	ln int
}

func (p *parser) fail(format string, a ...interface{}) {
	panic(perr{p.ln, fmt.Sprintf(format, a...) + " in: " + p.s})
}

var funcRe = regexp.MustCompile(`^function!?\s+([A-Za-z0-9_:.#]+)\s*\(([^)]*)\)`)

func (p *parser) next() (string, bool) {
	for p.i < len(p.lines) {
		l := p.lines[p.i]
		p.i++
		s := strings.TrimSpace(l.s)
		if s == "" || s[0] == '"' {
			continue
		}
		p.s, p.p, p.ln = s, 0, l.n
		return s, true
	}
	return "", false
}

func (p *parser) top() {
	for {
		s, ok := p.next()
		if !ok {
			return
		}
		if m := funcRe.FindStringSubmatch(s); m != nil {
			fn := &Func{Name: m[1], Line: p.ln}
			for _, a := range strings.Split(m[2], ",") {
				a = strings.TrimSpace(a)
				if a == "..." {
					fn.Variadic = true
				} else if a != "" {
					fn.Params = append(fn.Params, a)
				}
			}
			short := strings.TrimPrefix(fn.Name, "s:")
			if k := strings.IndexByte(short, '.'); k >= 0 {
				fn.Class, fn.Short = short[:k], short[k+1:]
			} else {
				fn.Short = short
			}
			p.funcBody(fn)
			key := fn.Short
			if fn.Class != "" {
				key = fn.Class + "." + fn.Short
			}
			if p.f.Funcs[key] != nil {
				p.fail("function %s defined twice", key)
			}
			p.f.Funcs[key] = fn
			p.f.Order = append(p.f.Order, fn)
			continue
		}
		if strings.HasPrefix(s, "let ") {
			st := p.stmt(s, nil)
			if st.Kind != "let" || st.Op != "=" {
				p.fail("unexpected script level statement")
			}
			n := lname(st.L)
			if n == "" {
				p.fail("unexpected script level assignment")
			}
			if p.f.Vars[n] != nil {
				p.fail("%s assigned twice", n)
			}
			p.f.Vars[n] = st.X
			p.f.VarLn[n] = p.ln
			continue
		}
		// other script level commands do not matter
	}
}

func lname(e *Expr) string {
	switch e.Kind {
	case "var":
		return e.S
	case "dot":
		if b := lname(e.X); b != "" {
			return b + "." + e.S
		}
	}
	return ""
}

// funcBody parses up to endfunction. Functions outside of the subset are
// recorded with Err set.
func (p *parser) funcBody(fn *Func) {
	start := p.i
	defer func() {
		if r := recover(); r != nil {
			pe, ok := r.(perr)
			if !ok {
				panic(r)
			}
			fn.Err = fmt.Errorf("line %d: %s", pe.line, pe.msg)
			p.i = start
			for {
				s, ok := p.next()
				if !ok || strings.HasPrefix(s, "endfunction") {
					return
				}
			}
		}
	}()
	body, end := p.block("endfunction")
	if end != "endfunction" {
		p.fail("missing endfunction")
	}
	fn.Body = body
}

func cmdWord(s string) string {
	i := 0
	for i < len(s) && (s[i] >= 'a' && s[i] <= 'z') {
		i++
	}
	return s[:i]
}

// block parses statements until one of ends.
func (p *parser) block(ends ...string) ([]*Stmt, string) {
	var out []*Stmt
	for {
		s, ok := p.next()
		if !ok {
			return out, ""
		}
		w := cmdWord(s)
		for _, e := range ends {
			if w == e {
				return out, e
			}
		}
		if st := p.stmt(s, nil); st != nil {
			out = append(out, st)
		}
	}
}

func (p *parser) rest(w string) {
	p.p = len(w)
	if p.p < len(p.s) && p.s[p.p] == '!' {
		p.p++
	}
}

func (p *parser) end() {
	p.ws()
	if p.p < len(p.s) && p.s[p.p] != '"' {
		p.fail("trailing characters at %q", p.s[p.p:])
	}
}

func (p *parser) stmt(s string, _ []string) *Stmt {
	w := cmdWord(s)
	st := &Stmt{Line: p.ln, Kind: w}
	switch w {
	case "let":
		p.rest(w)
		p.ws()
		if p.p < len(p.s) && p.s[p.p] == '[' {
			e := p.primary()
			if e.Kind == "list" {
				st.Kind = "letlist"
				st.LL = e.L
			} else {
				p.fail("unexpected list in let")
			}
		} else {
			st.L = p.postfix(true)
		}
		p.ws()
		for _, op := range []string{"=", "+=", "-=", ".=", "*=", "/=", "%="} {
			if strings.HasPrefix(p.s[p.p:], op) {
				st.Op = op
			}
		}
		if st.Op == "" {
			p.fail("operator expected")
		}
		p.p += len(st.Op)
		st.X = p.expr()
		p.end()
		return st
	case "call":
		p.rest(w)
		st.X = p.expr()
		p.end()
		return st
	case "return":
		p.rest(w)
		p.ws()
		if p.p < len(p.s) && p.s[p.p] != '"' || (p.p < len(p.s) && strings.Count(p.s[p.p:], `"`) > 1) {
			st.X = p.expr()
		}
		p.end()
		return st
	case "throw":
		p.rest(w)
		st.X = p.expr()
		p.end()
		return st
	case "unlet":
		return nil
	case "break", "continue":
		p.rest(w)
		p.end()
		return st
	case "if":
		p.rest(w)
		st.X = p.expr()
		p.end()
		cur := st
		for {
			body, end := p.block("elseif", "else", "endif")
			cur.Body = body
			switch end {
			case "elseif":
				p.rest(end)
				n := &Stmt{Kind: "if", Line: p.ln}
				n.X = p.expr()
				p.end()
				cur.Else = []*Stmt{n}
				cur = n
				continue
			case "else":
				b, end := p.block("endif")
				if end != "endif" {
					p.fail("missing endif")
				}
				cur.Else = b
				return st
			case "endif":
				return st
			default:
				p.fail("missing endif")
			}
		}
	case "while":
		p.rest(w)
		st.X = p.expr()
		p.end()
		b, end := p.block("endwhile")
		if end == "" {
			p.fail("missing endwhile")
		}
		st.Body = b
		return st
	case "for":
		p.rest(w)
		p.ws()
		if p.s[p.p] == '[' {
			e := p.primary()
			st.LL = e.L
		} else {
			st.L = p.postfix(true)
		}
		p.ws()
		if !strings.HasPrefix(p.s[p.p:], "in") {
			p.fail("in expected")
		}
		p.p += 2
		st.X = p.expr()
		p.end()
		b, end := p.block("endfor")
		if end == "" {
			p.fail("missing endfor")
		}
		st.Body = b
		return st
	}
	p.fail("unsupported statement %q", w)
	return nil
}

// expressions ---------------------------------------------------------------

func (p *parser) ws() {
	for p.p < len(p.s) && (p.s[p.p] == ' ' || p.s[p.p] == '\t') {
		p.p++
	}
}

func (p *parser) has(tok string) bool {
	p.ws()
	return strings.HasPrefix(p.s[p.p:], tok)
}

func (p *parser) acc(tok string) bool {
	if p.has(tok) {
		p.p += len(tok)
		return true
	}
	return false
}

func (p *parser) want(tok string) {
	if !p.acc(tok) {
		p.fail("%q expected at %q", tok, p.s[p.p:])
	}
}

func (p *parser) expr() *Expr { // ternary
	c := p.or()
	if p.acc("?") {
		a := p.expr()
		p.want(":")
		b := p.expr()
		return &Expr{Kind: "cond", X: c, Y: a, Z: b}
	}
	return c
}

func (p *parser) or() *Expr {
	l := p.and()
	for p.acc("||") {
		l = &Expr{Kind: "bin", S: "||", X: l, Y: p.and()}
	}
	return l
}

func (p *parser) and() *Expr {
	l := p.cmp()
	for p.acc("&&") {
		l = &Expr{Kind: "bin", S: "&&", X: l, Y: p.cmp()}
	}
	return l
}

var cmpOps = []string{"==#", "==?", "!=#", "!=?", ">=#", ">=?", "<=#", "<=?", "=~#", "=~?", "!~#", "!~?", ">#", ">?", "<#", "<?", "is#", "isnot#", "==", "!=", ">=", "<=", "=~", "!~", ">", "<", "is", "isnot"}

func (p *parser) cmp() *Expr {
	l := p.add()
	p.ws()
	best := ""
	for _, op := range cmpOps {
		if strings.HasPrefix(p.s[p.p:], op) && len(op) > len(best) {
			if op[0] == 'i' {
				k := p.p + len(op)
				if k < len(p.s) && isw(p.s[k]) {
					continue
				}
			}
			best = op
		}
	}
	if best == "" {
		return l
	}
	p.p += len(best)
	return &Expr{Kind: "bin", S: best, X: l, Y: p.add()}
}

func (p *parser) add() *Expr {
	l := p.mul()
	for {
		p.ws()
		if p.p >= len(p.s) {
			return l
		}
		switch c := p.s[p.p]; c {
		case '+', '-', '.':
			if p.p+1 < len(p.s) && p.s[p.p+1] == '=' {
				return l
			}
			p.p++
			l = &Expr{Kind: "bin", S: string(c), X: l, Y: p.mul()}
		default:
			return l
		}
	}
}

func (p *parser) mul() *Expr {
	l := p.unary()
	for {
		p.ws()
		if p.p >= len(p.s) {
			return l
		}
		switch c := p.s[p.p]; c {
		case '*', '/', '%':
			if p.p+1 < len(p.s) && p.s[p.p+1] == '=' {
				return l
			}
			p.p++
			l = &Expr{Kind: "bin", S: string(c), X: l, Y: p.unary()}
		default:
			return l
		}
	}
}

func (p *parser) unary() *Expr {
	p.ws()
	if p.p < len(p.s) {
		switch c := p.s[p.p]; c {
		case '!', '-', '+':
			p.p++
			return &Expr{Kind: "un", S: string(c), X: p.unary()}
		}
	}
	return p.postfix(false)
}

func isw(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// postfix parses x[...], x.name, x(...). No white space before them.
func (p *parser) postfix(lvalue bool) *Expr {
	e := p.primary()
	for p.p < len(p.s) {
		switch p.s[p.p] {
		case '[':
			p.p++
			if p.acc(":") {
				if p.acc("]") {
					e = &Expr{Kind: "slice", X: e}
					continue
				}
				z := p.expr()
				p.want("]")
				e = &Expr{Kind: "slice", X: e, Z: z}
				continue
			}
			i := p.expr()
			if p.acc(":") {
				if p.acc("]") {
					e = &Expr{Kind: "slice", X: e, Y: i}
					continue
				}
				z := p.expr()
				p.want("]")
				e = &Expr{Kind: "slice", X: e, Y: i, Z: z}
				continue
			}
			p.want("]")
			e = &Expr{Kind: "idx", X: e, Y: i}
		case '(':
			p.p++
			c := &Expr{Kind: "call", X: e}
			for !p.acc(")") {
				c.L = append(c.L, p.expr())
				if !p.acc(",") {
					p.want(")")
					break
				}
			}
			e = c
		case '.':
			// member access: no white space on either side and a name follows
			if p.p+1 < len(p.s) && (isw(p.s[p.p+1])) && !(p.s[p.p+1] >= '0' && p.s[p.p+1] <= '9') && e.Kind != "str" && e.Kind != "num" {
				j := p.p + 1
				for j < len(p.s) && isw(p.s[j]) {
					j++
				}
				e = &Expr{Kind: "dot", X: e, S: p.s[p.p+1 : j]}
				p.p = j
				continue
			}
			return e
		default:
			return e
		}
	}
	return e
}

func (p *parser) primary() *Expr {
	p.ws()
	if p.p >= len(p.s) {
		p.fail("expression expected")
	}
	switch c := p.s[p.p]; {
	case c == '\'':
		var b strings.Builder
		p.p++
		for {
			if p.p >= len(p.s) {
				p.fail("unterminated string")
			}
			if p.s[p.p] == '\'' {
				if p.p+1 < len(p.s) && p.s[p.p+1] == '\'' {
					b.WriteByte('\'')
					p.p += 2
					continue
				}
				p.p++
				return &Expr{Kind: "str", S: b.String()}
			}
			b.WriteByte(p.s[p.p])
			p.p++
		}
	case c == '"':
		return p.dstring()
	case c >= '0' && c <= '9':
		j := p.p
		for j < len(p.s) && isw(p.s[j]) {
			j++
		}
		n, err := strconv.ParseInt(p.s[p.p:j], 0, 64)
		if err != nil {
			p.fail("bad number")
		}
		p.p = j
		return &Expr{Kind: "num", N: n}
	case c == '[':
		p.p++
		e := &Expr{Kind: "list"}
		for !p.acc("]") {
			e.L = append(e.L, p.expr())
			if !p.acc(",") {
				p.want("]")
				break
			}
		}
		return e
	case c == '{':
		p.p++
		e := &Expr{Kind: "dict"}
		for !p.acc("}") {
			k := p.expr()
			p.want(":")
			e.L = append(e.L, k, p.expr())
			if !p.acc(",") {
				p.want("}")
				break
			}
		}
		return e
	case c == '(':
		p.p++
		e := p.expr()
		p.want(")")
		return e
	case c == '&':
		j := p.p + 1
		for j < len(p.s) && isw(p.s[j]) {
			j++
		}
		e := &Expr{Kind: "opt", S: p.s[p.p+1 : j]}
		p.p = j
		return e
	case isw(c):
		j := p.p
		for j < len(p.s) && (isw(p.s[j]) || p.s[j] == '#' && j+1 < len(p.s) && isw(p.s[j+1]) || p.s[j] == ':' && j == p.p+1 && strings.IndexByte("slavgbwt", c) >= 0 && j+1 < len(p.s) && isw(p.s[j+1])) {
			j++
		}
		e := &Expr{Kind: "var", S: p.s[p.p:j]}
		p.p = j
		return e
	}
	p.fail("unexpected %q", p.s[p.p:])
	return nil
}

func (p *parser) dstring() *Expr {
	var b strings.Builder
	p.p++
	for {
		if p.p >= len(p.s) {
			p.fail("unterminated string")
		}
		c := p.s[p.p]
		if c == '"' {
			p.p++
			return &Expr{Kind: "str", S: b.String()}
		}
		if c != '\\' {
			b.WriteByte(c)
			p.p++
			continue
		}
		p.p++
		if p.p >= len(p.s) {
			p.fail("unterminated string")
		}
		c = p.s[p.p]
		p.p++
		switch c {
		case 'n':
			b.WriteByte('\n')
		case 't':
			b.WriteByte('\t')
		case 'r':
			b.WriteByte('\r')
		case 'e':
			b.WriteByte(27)
		case 'b':
			b.WriteByte(8)
		case 'x', 'X', 'u', 'U':
			max := 2
			if c == 'u' || c == 'U' {
				max = 4
			}
			j := p.p
			for j < len(p.s) && j < p.p+max && strings.IndexByte("0123456789abcdefABCDEF", p.s[j]) >= 0 {
				j++
			}
			if j == p.p {
				p.fail("bad escape")
			}
			n, _ := strconv.ParseInt(p.s[p.p:j], 16, 64)
			p.p = j
			if max == 4 {
				b.WriteString(string(utf8.AppendRune(nil, rune(n))))
			} else {
				b.WriteByte(byte(n))
			}
		case '<':
			j := strings.IndexByte(p.s[p.p:], '>')
			if j < 0 {
				p.fail("bad escape")
			}
			b.WriteString("\\<" + p.s[p.p:p.p+j+1])
			p.p += j + 1
		case '0', '1', '2', '3', '4', '5', '6', '7':
			j := p.p - 1
			for j < len(p.s) && j < p.p+2 && p.s[j] >= '0' && p.s[j] <= '7' {
				j++
			}
			n, _ := strconv.ParseInt(p.s[p.p-1:j], 8, 64)
			p.p = j
			b.WriteByte(byte(n))
		default:
			b.WriteByte(c)
		}
	}
}
