package viml

import "fmt"

// Ins is an instruction on named registers. Registers starting with "r" are
// temporaries; others are variables.
type Ins struct {
	Op   string // str num nil copy field setfield index setindex slice bin un list dict callf callm append jump br ret throw len
	Dst  string
	A    []string
	S    string
	N    int64
	T, F int
	Line int
}

type Code struct {
	Fn     *Func
	Blocks [][]Ins
	Loop   map[int]bool // loop heads
}

type lowerer struct {
	c    *Code
	cur  int
	tmp  int
	line int
	brk  []int
	cont []int
	dead bool
}

// Lower translates a function to a control flow graph.
func Lower(fn *Func) (c *Code, err error) {
	if fn.Err != nil {
		return nil, fn.Err
	}
	l := &lowerer{c: &Code{Fn: fn, Loop: map[int]bool{}}}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); ok {
				if _, ok := r.(interface{ RuntimeError() }); !ok {
					err = fmt.Errorf("%s line %d: %v", fn.Name, l.line, e)
					return
				}
			}
			panic(r)
		}
	}()
	l.newBlock()
	l.stmts(fn.Body)
	if !l.dead {
		l.emit(Ins{Op: "ret"})
	}
	return l.c, nil
}

func (l *lowerer) newBlock() int {
	l.c.Blocks = append(l.c.Blocks, nil)
	return len(l.c.Blocks) - 1
}

func (l *lowerer) emit(i Ins) {
	if l.dead {
		return
	}
	i.Line = l.line
	l.c.Blocks[l.cur] = append(l.c.Blocks[l.cur], i)
}

func (l *lowerer) jump(b int) {
	l.emit(Ins{Op: "jump", T: b})
}

func (l *lowerer) use(b int) { l.cur, l.dead = b, false }

func (l *lowerer) reg() string {
	l.tmp++
	return fmt.Sprintf("r%d", l.tmp)
}

func (l *lowerer) fail(f string, a ...interface{}) { panic(fmt.Errorf(f, a...)) }

func (l *lowerer) stmts(ss []*Stmt) {
	for _, s := range ss {
		if l.dead {
			return
		}
		l.line = s.Line
		l.stmt(s)
	}
}

func (l *lowerer) stmt(s *Stmt) {
	switch s.Kind {
	case "let":
		v := l.expr(s.X)
		if s.Op != "=" {
			old := l.expr(s.L)
			d := l.reg()
			l.emit(Ins{Op: "bin", S: s.Op[:1], Dst: d, A: []string{old, v}})
			v = d
		}
		l.assign(s.L, v)
		if b := l.c.Blocks[l.cur]; s.X.Kind == "dict" && s.L.Kind == "dot" && len(b) > 1 {
			for i := range b {
				if b[i].Op == "dict" && b[i].Dst == v {
					b[i].S = "field"
				}
			}
		}
	case "letlist":
		v := l.expr(s.X)
		l.destructure(s.LL, v)
	case "call":
		if s.X.Kind == "call" && s.X.X.Kind == "var" && s.X.X.S == "add" {
			// add(lvalue, x) is lvalue = append(lvalue, x)
			old := l.expr(s.X.L[0])
			x := l.expr(s.X.L[1])
			d := l.reg()
			l.emit(Ins{Op: "append", Dst: d, A: []string{old, x}})
			l.assign(s.X.L[0], d)
			return
		}
		if s.X.Kind == "call" && s.X.X.Kind == "var" && (s.X.X.S == "insert" || s.X.X.S == "remove") {
			old := l.expr(s.X.L[0])
			x := l.expr(s.X.L[1])
			d := l.reg()
			l.emit(Ins{Op: s.X.X.S, Dst: d, A: []string{old, x}})
			l.assign(s.X.L[0], d)
			return
		}
		l.expr(s.X)
	case "return":
		if s.X == nil {
			l.emit(Ins{Op: "ret"})
		} else {
			l.emit(Ins{Op: "ret", A: []string{l.expr(s.X)}})
		}
		l.dead = true
	case "throw":
		l.emit(Ins{Op: "throw", A: []string{l.expr(s.X)}})
		l.dead = true
	case "break":
		l.jump(l.brk[len(l.brk)-1])
		l.dead = true
	case "continue":
		l.jump(l.cont[len(l.cont)-1])
		l.dead = true
	case "if":
		t, f, e := l.newBlock(), l.newBlock(), l.newBlock()
		l.cond(s.X, t, f)
		l.use(t)
		l.stmts(s.Body)
		reach := !l.dead
		l.jump(e)
		l.use(f)
		l.stmts(s.Else)
		reach = reach || !l.dead
		l.jump(e)
		l.use(e)
		l.dead = !reach
	case "while":
		h, b, e := l.newBlock(), l.newBlock(), l.newBlock()
		l.jump(h)
		l.c.Loop[h] = true
		l.use(h)
		l.cond(s.X, b, e)
		l.brk, l.cont = append(l.brk, e), append(l.cont, h)
		l.use(b)
		l.stmts(s.Body)
		l.jump(h)
		l.brk, l.cont = l.brk[:len(l.brk)-1], l.cont[:len(l.cont)-1]
		l.use(e)
		// an endless loop without break ends the function
	case "for":
		if s.X.Kind == "call" && s.X.X.Kind == "var" && s.X.X.S == "range" {
			l.forRange(s)
			return
		}
		lst := l.expr(s.X)
		lv := l.reg() + "_list"
		iv := l.reg() + "_idx"
		l.emit(Ins{Op: "copy", Dst: lv, A: []string{lst}})
		l.emit(Ins{Op: "num", Dst: iv, N: -1})
		h, b, e := l.newBlock(), l.newBlock(), l.newBlock()
		l.jump(h)
		l.c.Loop[h] = true
		l.use(h)
		one, n, c := l.reg(), l.reg(), l.reg()
		l.emit(Ins{Op: "num", Dst: one, N: 1})
		l.emit(Ins{Op: "bin", S: "+", Dst: iv, A: []string{iv, one}})
		l.emit(Ins{Op: "len", Dst: n, A: []string{lv}})
		l.emit(Ins{Op: "bin", S: "<", Dst: c, A: []string{iv, n}})
		l.emit(Ins{Op: "br", A: []string{c}, T: b, F: e})
		l.use(b)
		x := l.reg()
		l.emit(Ins{Op: "index", Dst: x, A: []string{lv, iv}})
		if s.L != nil {
			l.assign(s.L, x)
		} else {
			l.destructure(s.LL, x)
		}
		l.brk, l.cont = append(l.brk, e), append(l.cont, h)
		l.stmts(s.Body)
		l.jump(h)
		l.brk, l.cont = l.brk[:len(l.brk)-1], l.cont[:len(l.cont)-1]
		l.use(e)
	default:
		l.fail("unsupported statement %s", s.Kind)
	}
}

// forRange is "for i in range(a, b)" and "for i in range(n)".
func (l *lowerer) forRange(s *Stmt) {
	as := s.X.L
	lo, hi := l.reg()+"_lo", l.reg()+"_hi" // hi exclusive
	one := l.reg()
	l.emit(Ins{Op: "num", Dst: one, N: 1})
	if len(as) == 1 {
		l.emit(Ins{Op: "num", Dst: lo, N: 0})
		l.emit(Ins{Op: "copy", Dst: hi, A: []string{l.expr(as[0])}})
	} else if len(as) == 2 {
		l.emit(Ins{Op: "copy", Dst: lo, A: []string{l.expr(as[0])}})
		l.emit(Ins{Op: "bin", S: "+", Dst: hi, A: []string{l.expr(as[1]), one}})
	} else {
		l.fail("range with step")
	}
	iv := l.reg() + "_idx"
	l.emit(Ins{Op: "bin", S: "-", Dst: iv, A: []string{lo, one}})
	h, b, e := l.newBlock(), l.newBlock(), l.newBlock()
	l.jump(h)
	l.c.Loop[h] = true
	l.use(h)
	one2, c := l.reg(), l.reg()
	l.emit(Ins{Op: "num", Dst: one2, N: 1})
	l.emit(Ins{Op: "bin", S: "+", Dst: iv, A: []string{iv, one2}})
	l.emit(Ins{Op: "bin", S: "<", Dst: c, A: []string{iv, hi}})
	l.emit(Ins{Op: "br", A: []string{c}, T: b, F: e})
	l.use(b)
	l.assign(s.L, iv)
	l.brk, l.cont = append(l.brk, e), append(l.cont, h)
	l.stmts(s.Body)
	l.jump(h)
	l.brk, l.cont = l.brk[:len(l.brk)-1], l.cont[:len(l.cont)-1]
	l.use(e)
}

func (l *lowerer) destructure(ls []*Expr, v string) {
	for i, e := range ls {
		k, d := l.reg(), l.reg()
		l.emit(Ins{Op: "num", Dst: k, N: int64(i)})
		l.emit(Ins{Op: "index", Dst: d, A: []string{v, k}})
		l.assign(e, d)
	}
}

func varName(s string) string {
	if len(s) > 2 && s[1] == ':' && (s[0] == 'l' || s[0] == 'a') {
		return "v:" + s[2:]
	}
	return "v:" + s
}

func (l *lowerer) assign(e *Expr, v string) {
	switch e.Kind {
	case "var":
		if len(e.S) > 2 && e.S[:2] == "s:" {
			l.fail("assignment to %s", e.S)
		}
		l.emit(Ins{Op: "copy", Dst: varName(e.S), A: []string{v}})
	case "dot":
		l.emit(Ins{Op: "setfield", S: e.S, A: []string{l.expr(e.X), v}})
	case "idx":
		if e.X.Kind == "dot" { // may be a list, which is a value here
			l.emit(Ins{Op: "setelem", S: e.X.S, A: []string{l.expr(e.X.X), l.expr(e.Y), v}})
			return
		}
		l.emit(Ins{Op: "setindex", A: []string{l.expr(e.X), l.expr(e.Y), v}})
	default:
		l.fail("assignment to %s", e.Kind)
	}
}

func (l *lowerer) expr(e *Expr) string {
	d := l.reg()
	switch e.Kind {
	case "str":
		l.emit(Ins{Op: "str", Dst: d, S: e.S})
	case "num":
		l.emit(Ins{Op: "num", Dst: d, N: e.N})
	case "var":
		switch {
		case e.S == "s:NIL":
			l.emit(Ins{Op: "nil", Dst: d})
		case len(e.S) > 2 && e.S[:2] == "s:":
			l.emit(Ins{Op: "script", Dst: d, S: e.S})
		case e.S == "self":
			return "v:self"
		default:
			l.emit(Ins{Op: "copy", Dst: d, A: []string{varName(e.S)}})
		}
	case "list":
		var as []string
		for _, x := range e.L {
			as = append(as, l.expr(x))
		}
		l.emit(Ins{Op: "list", Dst: d, A: as})
	case "dict":
		var as []string
		for _, x := range e.L {
			as = append(as, l.expr(x))
		}
		l.emit(Ins{Op: "dict", Dst: d, A: as})
	case "dot":
		l.emit(Ins{Op: "field", Dst: d, S: e.S, A: []string{l.expr(e.X)}})
	case "idx":
		x := l.expr(e.X)
		l.emit(Ins{Op: "index", Dst: d, A: []string{x, l.expr(e.Y)}})
	case "slice":
		x := l.expr(e.X)
		a := []string{x, "", ""}
		if e.Y != nil {
			a[1] = l.expr(e.Y)
		}
		if e.Z != nil {
			a[2] = l.expr(e.Z)
		}
		l.emit(Ins{Op: "slice", Dst: d, A: a})
	case "un":
		l.emit(Ins{Op: "un", S: e.S, Dst: d, A: []string{l.expr(e.X)}})
	case "bin":
		if e.S == "&&" || e.S == "||" {
			v := l.reg() + "_b"
			t, f, j := l.newBlock(), l.newBlock(), l.newBlock()
			l.cond(e, t, f)
			l.use(t)
			l.emit(Ins{Op: "num", Dst: v, N: 1})
			l.jump(j)
			l.use(f)
			l.emit(Ins{Op: "num", Dst: v, N: 0})
			l.jump(j)
			l.use(j)
			return v
		}
		x := l.expr(e.X)
		l.emit(Ins{Op: "bin", S: e.S, Dst: d, A: []string{x, l.expr(e.Y)}})
	case "cond":
		v := l.reg() + "_c"
		t, f, j := l.newBlock(), l.newBlock(), l.newBlock()
		l.cond(e.X, t, f)
		l.use(t)
		l.emit(Ins{Op: "copy", Dst: v, A: []string{l.expr(e.Y)}})
		l.jump(j)
		l.use(f)
		l.emit(Ins{Op: "copy", Dst: v, A: []string{l.expr(e.Z)}})
		l.jump(j)
		l.use(j)
		return v
	case "call":
		switch e.X.Kind {
		case "var":
			var as []string
			for _, x := range e.L {
				as = append(as, l.expr(x))
			}
			l.emit(Ins{Op: "callf", Dst: d, S: e.X.S, A: as})
		case "dot":
			as := []string{l.expr(e.X.X)}
			for _, x := range e.L {
				as = append(as, l.expr(x))
			}
			l.emit(Ins{Op: "callm", Dst: d, S: e.X.S, A: as})
		default:
			l.fail("call of %s", e.X.Kind)
		}
	default:
		l.fail("unsupported expression %s", e.Kind)
	}
	return d
}

func (l *lowerer) cond(e *Expr, t, f int) {
	if e.Kind == "bin" && e.S == "&&" {
		m := l.newBlock()
		l.cond(e.X, m, f)
		l.use(m)
		l.cond(e.Y, t, f)
		return
	}
	if e.Kind == "bin" && e.S == "||" {
		m := l.newBlock()
		l.cond(e.X, t, m)
		l.use(m)
		l.cond(e.Y, t, f)
		return
	}
	if e.Kind == "un" && e.S == "!" {
		l.cond(e.X, f, t)
		return
	}
	if e.Kind == "var" && e.S == "s:TRUE" {
		l.jump(t)
		l.dead = true
		return
	}
	l.emit(Ins{Op: "br", A: []string{l.expr(e)}, T: t, F: f})
}
