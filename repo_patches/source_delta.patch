From 904ab72dceae51dc234089057ef5ea59b8f646d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:29 +0000
Subject: [PATCH 01/18] fix: report read errors and accept long lines instead
 of parsing a prefix

readlines ignored scanner.Err(), so input after a read error or a line of
more than 64KB was silently dropped and a partial AST returned without error.
---
 vimlparser.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/vimlparser.go b/vimlparser.go
index 9f5a97c..13b96e4 100644
--- a/vimlparser.go
+++ b/vimlparser.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/vim-jp/go-vimlparser/ast"
 	internal "github.com/vim-jp/go-vimlparser/go"
@@ -50,7 +51,10 @@ func ParseFile(r io.Reader, filename string, opt *ParseOption) (node *ast.File,
 			// log.Printf("%s", debug.Stack())
 		}
 	}()
-	lines := readlines(r)
+	lines, err := readlines(r)
+	if err != nil {
+		return nil, err
+	}
 	reader := internal.NewStringReader(lines)
 	neovim := false
 	if opt != nil {
@@ -78,18 +82,22 @@ func ParseExpr(r io.Reader) (node ast.Expr, err error) {
 			// log.Printf("%s", debug.Stack())
 		}
 	}()
-	lines := readlines(r)
+	lines, err := readlines(r)
+	if err != nil {
+		return nil, err
+	}
 	reader := internal.NewStringReader(lines)
 	p := internal.NewExprParser(reader)
 	node = p.Parse()
 	return
 }
 
-func readlines(r io.Reader) []string {
+func readlines(r io.Reader) ([]string, error) {
 	lines := []string{}
 	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, math.MaxInt32) // Vim script has no limit on line length
 	for scanner.Scan() {
 		lines = append(lines, scanner.Text())
 	}
-	return lines
+	return lines, scanner.Err()
 }
-- 
2.43.0


From 4ed7f93411f5bf85015869eb3c8985fb4c704739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:29 +0000
Subject: [PATCH 02/18] fix: report the byte offset in ParseError

The index into the character buffer was reported as Offset.
---
 go/type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/type.go b/go/type.go
index e34d543..fd9c988 100644
--- a/go/type.go
+++ b/go/type.go
@@ -333,5 +333,5 @@ func (e *ParseError) Error() string {
 }
 
 func Err(msg string, pos *pos) *ParseError {
-	return &ParseError{Offset: pos.i, Line: pos.lnum, Column: pos.col, Msg: msg}
+	return &ParseError{Offset: pos.offset, Line: pos.lnum, Column: pos.col, Msg: msg}
 }
-- 
2.43.0


From 0f4091feacba29da3bdee5308452bd9734df0329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 03/18] fix: record the byte offset of characters on
 continuation lines

The Go reader left it 0; the reference counted the line break before a
continuation line only after the line's characters.
---
 autoload/vimlparser.vim | 2 +-
 go/type.go              | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index a7ae041..4457325 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -4601,6 +4601,7 @@ function! s:StringReader.__init__(lines) abort
     while lnum + 1 < len(a:lines) && a:lines[lnum + 1] =~# '^\s*\\'
       let skip = s:TRUE
       let col = 0
+      let offset += 1
       for c in split(a:lines[lnum + 1], '\zs')
         if skip
           if c ==# '\'
@@ -4614,7 +4615,6 @@ function! s:StringReader.__init__(lines) abort
         let offset += len(c)
       endfor
       let lnum += 1
-      let offset += 1
     endwhile
     call add(self.buf, '<EOL>')
     call add(self.pos, [lnum + 1, col + 1, offset])
diff --git a/go/type.go b/go/type.go
index fd9c988..cbaf4db 100644
--- a/go/type.go
+++ b/go/type.go
@@ -207,6 +207,7 @@ func (self *StringReader) __init__(lines []string) {
 		for lnum+1 < len(lines) && viml_eqregh(lines[lnum+1], "^\\s*\\\\") {
 			var skip = true
 			col = 0
+			offset += 1
 			for _, r := range lines[lnum+1] {
 				c := string(r)
 				if skip {
@@ -215,13 +216,12 @@ func (self *StringReader) __init__(lines []string) {
 					}
 				} else {
 					self.buf = append(self.buf, c)
-					self.pos = append(self.pos, pos{lnum: lnum + 2, col: col + 1})
+					self.pos = append(self.pos, pos{lnum: lnum + 2, col: col + 1, offset: offset})
 				}
 				col += len(c)
 				offset += len(c)
 			}
 			lnum += 1
-			offset += 1
 		}
 		self.buf = append(self.buf, "<EOL>")
 		self.pos = append(self.pos, pos{lnum: lnum + 1, col: col + 1, offset: offset})
-- 
2.43.0


From 1a2b3d0c22dd7784ad60676d52bf0a3956946b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 04/18] fix: keep bytes that are not valid UTF-8

They were replaced by U+FFFD, which altered the text of nodes and shifted
columns and offsets of everything that follows.
---
 compiler/compiler.go |  9 +++++----
 go/type.go           |  6 ++----
 go/vimlfunc.go       | 17 ++++++++++-------
 3 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/compiler/compiler.go b/compiler/compiler.go
index b0412ac..a98eb98 100644
--- a/compiler/compiler.go
+++ b/compiler/compiler.go
@@ -494,8 +494,9 @@ func (c *Compiler) compileExpr(node ast.Expr) string {
 
 func escape(s string, chars string) string {
 	r := ""
-	for _, c := range s {
-		if strings.IndexRune(chars, c) != -1 {
+	for i := 0; i < len(s); i++ {
+		c := s[i] // chars are all ASCII
+		if strings.IndexByte(chars, c) != -1 {
 			switch c {
 			case '\n':
 				r += `\n`
@@ -504,10 +505,10 @@ func escape(s string, chars string) string {
 			case '\r':
 				r += `\r`
 			default:
-				r += `\` + string(c)
+				r += `\` + s[i:i+1]
 			}
 		} else {
-			r += string(c)
+			r += s[i : i+1]
 		}
 	}
 	return r
diff --git a/go/type.go b/go/type.go
index cbaf4db..8df3010 100644
--- a/go/type.go
+++ b/go/type.go
@@ -197,8 +197,7 @@ func (self *StringReader) __init__(lines []string) {
 	var offset = 0
 	for lnum < len(lines) {
 		var col = 0
-		for _, r := range lines[lnum] {
-			c := string(r)
+		for _, c := range viml_split(lines[lnum], `\zs`) {
 			self.buf = append(self.buf, c)
 			self.pos = append(self.pos, pos{lnum: lnum + 1, col: col + 1, offset: offset})
 			col += len(c)
@@ -208,8 +207,7 @@ func (self *StringReader) __init__(lines []string) {
 			var skip = true
 			col = 0
 			offset += 1
-			for _, r := range lines[lnum+1] {
-				c := string(r)
+			for _, c := range viml_split(lines[lnum+1], `\zs`) {
 				if skip {
 					if c == "\\" {
 						skip = false
diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index 8896232..565ef4e 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -6,6 +6,7 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 // copied and little modified(^++) from ./py/vimlfunc.py
@@ -96,12 +97,11 @@ func viml_eqregh(s, reg string) bool {
 
 func viml_escape(s string, chars string) string {
 	r := ""
-	for _, c := range s {
-		if strings.IndexRune(chars, c) != -1 {
-			r += `\` + string(c)
-		} else {
-			r += string(c)
+	for _, c := range viml_split(s, `\zs`) {
+		if strings.Contains(chars, c) {
+			r += `\`
 		}
+		r += c
 	}
 	return r
 }
@@ -130,8 +130,11 @@ func viml_range(start, end int) []int {
 func viml_split(s string, sep string) []string {
 	if sep == `\zs` {
 		ss := make([]string, 0, len(s))
-		for _, r := range s {
-			ss = append(ss, string(r))
+		for len(s) > 0 {
+			// keep bytes which are not valid UTF-8 as they are
+			_, w := utf8.DecodeRuneInString(s)
+			ss = append(ss, s[:w])
+			s = s[w:]
 		}
 		return ss
 	}
-- 
2.43.0


From cfad526efcba05cfd69044be89cad9693cc7a254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 05/18] fix: ast.Walk visits default arguments and lambda
 bodies

---
 ast/walk.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/ast/walk.go b/ast/walk.go
index 41587bf..af001da 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -40,8 +40,11 @@ func Walk(v Visitor, node Node) {
 	case *Function:
 		Walk(v, n.Name)
 		walkIdentList(v, n.Params)
+		walkExprList(v, n.DefaultArgs)
 		walkStmtList(v, n.Body)
-		Walk(v, n.EndFunction)
+		if n.EndFunction != nil {
+			Walk(v, n.EndFunction)
+		}
 
 	case *EndFunction: // nothing to do
 
@@ -52,7 +55,9 @@ func Walk(v Visitor, node Node) {
 		Walk(v, n.Result)
 
 	case *ExCall:
-		Walk(v, n.FuncCall)
+		if n.FuncCall != nil {
+			Walk(v, n.FuncCall)
+		}
 
 	case *Let:
 		Walk(v, n.Left)
@@ -94,7 +99,9 @@ func Walk(v Visitor, node Node) {
 	case *While:
 		Walk(v, n.Condition)
 		walkStmtList(v, n.Body)
-		Walk(v, n.EndWhile)
+		if n.EndWhile != nil {
+			Walk(v, n.EndWhile)
+		}
 
 	case *EndWhile: // nothing to do
 
@@ -104,7 +111,9 @@ func Walk(v Visitor, node Node) {
 		Walk(v, n.Rest)
 		Walk(v, n.Right)
 		walkStmtList(v, n.Body)
-		Walk(v, n.EndFor)
+		if n.EndFor != nil {
+			Walk(v, n.EndFor)
+		}
 
 	case *EndFor: // nothing to do
 
@@ -178,7 +187,9 @@ func Walk(v Visitor, node Node) {
 
 	case *DotExpr:
 		Walk(v, n.Left)
-		Walk(v, n.Right)
+		if n.Right != nil {
+			Walk(v, n.Right)
+		}
 
 	case *BasicLit: // nothing to do
 
@@ -205,6 +216,7 @@ func Walk(v Visitor, node Node) {
 
 	case *LambdaExpr:
 		walkIdentList(v, n.Params)
+		Walk(v, n.Expr)
 
 	case *ParenExpr:
 		Walk(v, n.X)
-- 
2.43.0


From 84b7e59939c171c44475a67f5667bf0ab62257c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 06/18] fix: ast.Inspect calls f(nil) after the children of a
 node

as it is documented to.
---
 ast/walk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/walk.go b/ast/walk.go
index af001da..a39e772 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -254,7 +254,7 @@ func walkStmtList(v Visitor, list []Statement) {
 type inspector func(Node) bool
 
 func (f inspector) Visit(node Node) Visitor {
-	if node != nil && f(node) {
+	if f(node) {
 		return f
 	}
 	return nil
-- 
2.43.0


From 10bd06ddc8e8f76d329234959760031de8e3e55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 07/18] fix: do not use the text of an expression as a format
 string

---
 compiler/compiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/compiler.go b/compiler/compiler.go
index a98eb98..98d83ef 100644
--- a/compiler/compiler.go
+++ b/compiler/compiler.go
@@ -78,7 +78,7 @@ func (c *Compiler) compile(node interface{}) error {
 			}
 		}
 	case ast.Expr:
-		c.fprint(c.compileExpr(n))
+		c.fprint("%s", c.compileExpr(n))
 	}
 	return nil
 }
-- 
2.43.0


From 856d55f48a24034f9293ccbad771fb90585e1f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 08/18] fix: compiling a function neither changes its node nor
 indents its signature twice

---
 compiler/compiler.go | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/compiler/compiler.go b/compiler/compiler.go
index 98d83ef..71fab7a 100644
--- a/compiler/compiler.go
+++ b/compiler/compiler.go
@@ -149,29 +149,25 @@ func (c *Compiler) compileExcmd(node *ast.Excmd) {
 }
 
 func (c *Compiler) compileFunction(node *ast.Function) {
-	c.fprint("(function (%s", c.compileExpr(node.Name))
-	if len(node.Params) > 0 {
-		c.fprint(" ")
-		ps := make([]string, 0, len(node.Params))
-		var remaining bool
-		if node.Params[len(node.Params)-1].Name == token.DOTDOTDOT.String() {
-			node.Params = node.Params[:len(node.Params)-1]
-			remaining = true
-		}
-		for i, p := range node.Params {
-			if i < len(node.Params)-len(node.DefaultArgs) {
-				ps = append(ps, p.Name)
-			} else {
-				ps = append(ps, fmt.Sprintf("(%s %s)", p.Name,
-					c.compileExpr(node.DefaultArgs[i+len(node.DefaultArgs)-len(node.Params)])))
-			}
-		}
-		if remaining {
-			ps = append(ps, ". ...")
+	ps := []string{c.compileExpr(node.Name)}
+	params := node.Params
+	var remaining bool
+	if len(params) > 0 && params[len(params)-1].Name == token.DOTDOTDOT.String() {
+		params = params[:len(params)-1]
+		remaining = true
+	}
+	for i, p := range params {
+		if i < len(params)-len(node.DefaultArgs) {
+			ps = append(ps, p.Name)
+		} else {
+			ps = append(ps, fmt.Sprintf("(%s %s)", p.Name,
+				c.compileExpr(node.DefaultArgs[i+len(node.DefaultArgs)-len(params)])))
 		}
-		c.fprint("%s", strings.Join(ps, " "))
 	}
-	c.fprintln(")")
+	if remaining {
+		ps = append(ps, ". ...")
+	}
+	c.fprintln("(function (%s)", strings.Join(ps, " "))
 	c.indent++
 	c.compile(node.Body)
 	c.trimLineBreak()
-- 
2.43.0


From bbe0b50c3d0424b1a3f81509f3fcbdf83bfcd7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 09/18] fix: report errors of compiling nested statements

---
 compiler/compiler.go | 66 ++++++++++++++++++++++++++++++--------------
 1 file changed, 46 insertions(+), 20 deletions(-)

diff --git a/compiler/compiler.go b/compiler/compiler.go
index 71fab7a..eb01e0c 100644
--- a/compiler/compiler.go
+++ b/compiler/compiler.go
@@ -35,6 +35,7 @@ func Compile(w io.Writer, node ast.Node) error {
 // Compile compiles node and writes to writer.
 func (c *Compiler) Compile(w io.Writer, node ast.Node) error {
 	c.buffer = bytes.NewBuffer(make([]byte, 0))
+	c.indent = 0
 	if err := c.compile(node); err != nil {
 		return err
 	}
@@ -102,7 +103,7 @@ func (c *Compiler) compileExcommand(node ast.ExCommand) error {
 	case *ast.Excmd:
 		c.compileExcmd(n)
 	case *ast.Function:
-		c.compileFunction(n)
+		return c.compileFunction(n)
 	case *ast.DelFunction:
 		c.compileDelfunction(n)
 	case *ast.Return:
@@ -118,15 +119,15 @@ func (c *Compiler) compileExcommand(node ast.ExCommand) error {
 	case *ast.UnLockVar:
 		c.compileUnlockvar(n)
 	case *ast.If:
-		c.compileIf(n)
+		return c.compileIf(n)
 	case *ast.While:
-		c.compileWhile(n)
+		return c.compileWhile(n)
 	case *ast.For:
-		c.compileFor(n)
+		return c.compileFor(n)
 	case *ast.Continue, *ast.Break:
 		c.compileSingleCmd(n)
 	case *ast.Try:
-		c.compileTry(n)
+		return c.compileTry(n)
 	case *ast.Throw:
 		c.compileThrow(n)
 	case *ast.Eval:
@@ -148,7 +149,7 @@ func (c *Compiler) compileExcmd(node *ast.Excmd) {
 	c.fprintln(`(excmd "%s")`, escape(node.Command, `\"`))
 }
 
-func (c *Compiler) compileFunction(node *ast.Function) {
+func (c *Compiler) compileFunction(node *ast.Function) error {
 	ps := []string{c.compileExpr(node.Name)}
 	params := node.Params
 	var remaining bool
@@ -169,10 +170,13 @@ func (c *Compiler) compileFunction(node *ast.Function) {
 	}
 	c.fprintln("(function (%s)", strings.Join(ps, " "))
 	c.indent++
-	c.compile(node.Body)
+	if err := c.compile(node.Body); err != nil {
+		return err
+	}
 	c.trimLineBreak()
 	c.writeString(")\n")
 	c.indent--
+	return nil
 }
 
 func (c *Compiler) compileDelfunction(node *ast.DelFunction) {
@@ -246,39 +250,49 @@ func (c *Compiler) compileUnlockvar(node *ast.UnLockVar) {
 	}
 }
 
-func (c *Compiler) compileIf(node *ast.If) {
+func (c *Compiler) compileIf(node *ast.If) error {
 	cmd := node.Cmd().Name
 	c.fprintln("(%s %s", cmd, c.compileExpr(node.Condition))
 	c.indent++
-	c.compile(node.Body)
+	if err := c.compile(node.Body); err != nil {
+		return err
+	}
 	c.indent--
 	for _, n := range node.ElseIf {
 		c.fprintln(" %s %s", n.Cmd().Name, c.compileExpr(n.Condition))
 		c.indent++
-		c.compile(n.Body)
+		if err := c.compile(n.Body); err != nil {
+			return err
+		}
 		c.indent--
 	}
 	if node.Else != nil {
 		c.fprintln(" %s", node.Else.Cmd().Name)
 		c.indent++
-		c.compile(node.Else.Body)
+		if err := c.compile(node.Else.Body); err != nil {
+			return err
+		}
 		c.indent--
 	}
 	c.trimLineBreak()
 	c.writeString(")\n")
+	return nil
 }
 
-func (c *Compiler) compileWhile(node *ast.While) {
+func (c *Compiler) compileWhile(node *ast.While) error {
 	cmd := node.Cmd().Name
 	c.fprintln("(%s %s", cmd, c.compileExpr(node.Condition))
 	c.indent++
-	c.compile(node.Body)
+	if err := c.compile(node.Body); err != nil {
+		return err
+	}
 	c.trimLineBreak()
 	c.writeString(")\n")
 	c.indent--
+	return nil
 }
 
-func (c *Compiler) compileFor(node *ast.For) {
+func (c *Compiler) compileFor(node *ast.For) error {
 	cmd := node.Cmd().Name
 	left := ""
 	if node.Left != nil {
@@ -297,41 +311,53 @@ func (c *Compiler) compileFor(node *ast.For) {
 	right := c.compileExpr(node.Right)
 	c.fprintln("(%s %s %s", cmd, left, right)
 	c.indent++
-	c.compile(node.Body)
+	if err := c.compile(node.Body); err != nil {
+		return err
+	}
 	c.trimLineBreak()
 	c.writeString(")\n")
 	c.indent--
+	return nil
 }
 
 func (c *Compiler) compileSingleCmd(node ast.ExCommand) {
 	c.fprintln("(%s)", node.Cmd().Name)
 }
 
-func (c *Compiler) compileTry(node *ast.Try) {
+func (c *Compiler) compileTry(node *ast.Try) error {
 	c.fprintln("(%s", node.Cmd().Name)
 	c.indent++
-	c.compile(node.Body)
+	if err := c.compile(node.Body); err != nil {
+		return err
+	}
 	for _, n := range node.Catch {
 		c.indent--
 		if n.Pattern != "" {
 			c.fprintln(" %s /%s/", n.Cmd().Name, n.Pattern)
 			c.indent++
-			c.compile(n.Body)
+			if err := c.compile(n.Body); err != nil {
+				return err
+			}
 		} else {
 			c.fprintln(" %s", n.Cmd().Name)
 			c.indent++
-			c.compile(n.Body)
+			if err := c.compile(n.Body); err != nil {
+				return err
+			}
 		}
 	}
 	if node.Finally != nil {
 		c.indent--
 		c.fprintln(" %s", node.Finally.Cmd().Name)
 		c.indent++
-		c.compile(node.Finally.Body)
+		if err := c.compile(node.Finally.Body); err != nil {
+			return err
+		}
 	}
 	c.trimLineBreak()
 	c.writeString(")\n")
 	c.indent--
+	return nil
 }
 
 func (c *Compiler) compileThrow(node *ast.Throw) {
-- 
2.43.0


From 9a339e7e4483b88a2e874956e7910d2cbd1f1dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 10/18] fix: printer knows the precedence of =~ and =~?

---
 printer/opprec.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/printer/opprec.go b/printer/opprec.go
index e1ca348..b8d42ee 100644
--- a/printer/opprec.go
+++ b/printer/opprec.go
@@ -36,6 +36,8 @@ func opprec(op ast.Expr) int {
 			token.LTEQ,
 			token.LTEQCI,
 			token.LTEQCS,
+			token.MATCH,
+			token.MATCHCI,
 			token.MATCHCS,
 			token.NOMATCH,
 			token.NOMATCHCI,
-- 
2.43.0


From b50314ec4fa89d0f0758dcffa298d6a569c77ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 11/18] fix: Excmd.Cmd of a line without command does not panic

---
 ast/node.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ast/node.go b/ast/node.go
index bc64b19..c9c6c9e 100644
--- a/ast/node.go
+++ b/ast/node.go
@@ -56,7 +56,12 @@ type Excmd struct {
 }
 
 func (e *Excmd) Pos() Pos { return e.Excmd }
-func (e *Excmd) Cmd() Cmd { return *e.ExArg.Cmd }
+func (e *Excmd) Cmd() Cmd {
+	if e.ExArg.Cmd == nil { // only range or modifiers
+		return Cmd{}
+	}
+	return *e.ExArg.Cmd
+}
 
 // vimlparser: FUNCTION .ea .body .left .rlist .attr .endfunction
 type Function struct {
-- 
2.43.0


From 21c19436b098161fb721fe6baf86abf6ceb12f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 12/18] fix: do not cache user commands

The name of a user command is longer than the key that is looked up, so
'Foo1' was taken for 'Foo' when 'Foo' had been seen before.
---
 autoload/vimlparser.vim | 3 +--
 go/vimlparser.go        | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 4457325..cf743f6 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -983,8 +983,7 @@ function! s:VimLParser.find_command() abort
   " FIXME: user defined command
   if (cmd is# s:NIL || cmd.name ==# 'Print') && name =~# '^[A-Z]'
     let name .= self.reader.read_alnum()
-    unlet cmd
-    let cmd = {'name': name, 'flags': 'USERCMD', 'parser': 'parse_cmd_usercmd'}
+    return {'name': name, 'flags': 'USERCMD', 'parser': 'parse_cmd_usercmd'}
   endif
 
   let self.find_command_cache[name] = cmd
diff --git a/go/vimlparser.go b/go/vimlparser.go
index d642d7a..727f414 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -861,7 +861,7 @@ func (self *VimLParser) find_command() *Cmd {
 	// FIXME: user defined command
 	if (cmd == nil || cmd.name == "Print") && viml_eqregh(name, "^[A-Z]") {
 		name += self.reader.read_alnum()
-		cmd = &Cmd{name: name, flags: "USERCMD", parser: "parse_cmd_usercmd"}
+		return &Cmd{name: name, flags: "USERCMD", parser: "parse_cmd_usercmd"}
 	}
 	self.find_command_cache[name] = cmd
 	return cmd
-- 
2.43.0


From e12ea2429b796d04ce70926e6695bbca27d4fa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 13/18] fix: :dl and :dp are :delete with a flag

---
 go/vimlfunc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index 565ef4e..bf7aa70 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -26,7 +26,7 @@ var patVim2Go = map[string]string{
 	"\\d":                               "\\d",
 	"\\h":                               "[A-Za-z_]",
 	"\\s":                               "\\s",
-	"\\v^d%[elete][lp]$":                "^d(elete|elet|ele|el|e)[lp]$",
+	"\\v^d%[elete][lp]$":                "^d(elete|elet|ele|el|e)?[lp]$",
 	"\\v^s%(c[^sr][^i][^p]|g|i[^mlg]|I|r[^e])": "^s(c[^sr][^i][^p]|g|i[^mlg]|I|r[^e])",
 	"\\w":                             "[0-9A-Za-z_]",
 	"\\w\\|[:#]":                      "[0-9A-Za-z_]|[:#]",
-- 
2.43.0


From e539aaf4f99602d06d04a938491545fc7a1b8928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 14/18] fix: do not panic on numbers out of range

---
 go/vimlfunc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index bf7aa70..07e9a8e 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -143,7 +143,7 @@ func viml_split(s string, sep string) []string {
 
 func viml_str2nr(s string, base int) int {
 	r, err := strconv.ParseInt(s, base, 32)
-	if err != nil {
+	if e, ok := err.(*strconv.NumError); err != nil && !(ok && e.Err == strconv.ErrRange) {
 		panic(fmt.Errorf("viml_str2nr: %v", err))
 	}
 	return int(r)
-- 
2.43.0


From ea2f4fe64fb93f0a528ee0183a295ceb6ac273f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 15/18] fix: position of literal dictionary keys

---
 autoload/vimlparser.vim | 2 +-
 go/vimlparser.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index cf743f6..1d793b8 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -3600,9 +3600,9 @@ function! s:ExprTokenizer.parse_dict_literal_key() abort
     throw s:Err(printf('unexpected character: %s', c), self.reader.getpos())
   endif
   let node = s:Node(s:NODE_STRING)
+  let node.pos = self.reader.getpos()
   let s = c
   call self.reader.seek_cur(1)
-  let node.pos = self.reader.getpos()
   while s:TRUE
     let c = self.reader.p(0)
     if c ==# '<EOF>' || c ==# '<EOL>'
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 727f414..226eb83 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -2340,9 +2340,9 @@ func (self *ExprTokenizer) parse_dict_literal_key() *VimNode {
 		panic(Err(viml_printf("unexpected character: %s", c), self.reader.getpos()))
 	}
 	var node = Node(NODE_STRING)
+	node.pos = self.reader.getpos()
 	var s = c
 	self.reader.seek_cur(1)
-	node.pos = self.reader.getpos()
 	for true {
 		c = self.reader.p(0)
 		if c == "<EOF>" || c == "<EOL>" {
-- 
2.43.0


From b667df1a36d428ad12e2303a99b1bc7439d59478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 16/18] fix: position of CurlyNameExpr is that of its brace

---
 autoload/vimlparser.vim | 2 +-
 go/vimlparser.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 1d793b8..ae0e85a 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -4442,8 +4442,8 @@ function! s:ExprParser.parse_curly_parts() abort
       let node.value = name
       call add(curly_parts, node)
     elseif c ==# '{'
-      call self.reader.get()
       let pos = self.reader.getpos()
+      call self.reader.get()
       let node = s:Node(s:NODE_CURLYNAMEEXPR)
       let node.curly = s:TRUE " Keep backword compatibility for the curly attribute
       let node.pos = pos
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 226eb83..4c8d39e 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -3181,8 +3181,8 @@ func (self *ExprParser) parse_curly_parts() []*VimNode {
 			node.value = name
 			curly_parts = append(curly_parts, node)
 		} else if c == "{" {
-			self.reader.get()
 			pos = self.reader.getpos()
+			self.reader.get()
 			var node = Node(NODE_CURLYNAMEEXPR)
 			node.curly = true
 			// Keep backword compatibility for the curly attribute
-- 
2.43.0


From d7e060019f4ae36ab00fb5071b0735cf74cd8438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 17/18] fix: position of HeredocExpr is that of =<<

---
 autoload/vimlparser.vim | 2 ++
 go/vimlparser.go        | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index ae0e85a..80e3ba3 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1595,10 +1595,12 @@ function! s:VimLParser.parse_cmd_let() abort
     call self.reader.getn(len(s2))
     let node.op = s2
   elseif s2 ==# '=<<'
+    let oppos = self.reader.getpos()
     call self.reader.getn(len(s2))
     call self.reader.skip_white()
     let node.op = s2
     let node.right = self.parse_heredoc()
+    let node.right.pos = oppos
     call self.add_node(node)
     return
   elseif s1 ==# '='
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 4c8d39e..e4dc3ca 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1453,10 +1453,12 @@ func (self *VimLParser) parse_cmd_let() {
 		self.reader.getn(len(s2))
 		node.op = s2
 	} else if s2 == "=<<" {
+		var oppos = self.reader.getpos()
 		self.reader.getn(len(s2))
 		self.reader.skip_white()
 		node.op = s2
 		node.right = self.parse_heredoc()
+		node.right.pos = oppos
 		self.add_node(node)
 		return
 	} else if s1 == "=" {
-- 
2.43.0


From f23a2b62e7ebd548f4a49ba0ad12fb5863a529ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 18/18] fix: the register name in :@" is no comment

Two pointers were compared instead of the positions they point to.
---
 autoload/vimlparser.vim | 2 +-
 go/vimlparser.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 80e3ba3..00ed9cc 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1169,7 +1169,7 @@ function! s:VimLParser.separate_nextcmd() abort
     elseif c ==# '|' || c ==# "\n" ||
           \ (c ==# '"' && self.ea.cmd.flags !~# '\<NOTRLCOM\>'
           \   && ((self.ea.cmd.name !=# '@' && self.ea.cmd.name !=# '*')
-          \       || self.reader.getpos() !=# self.ea.argpos)
+          \       || self.reader.getpos().i !=# self.ea.argpos.i)
           \   && (self.ea.cmd.name !=# 'redir'
           \       || self.reader.getpos().i !=# self.ea.argpos.i + 1 || pc !=# '@'))
       let has_cpo_bar = s:FALSE " &cpoptions =~ 'b'
diff --git a/go/vimlparser.go b/go/vimlparser.go
index e4dc3ca..653dfce 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1043,7 +1043,7 @@ func (self *VimLParser) separate_nextcmd() *pos {
 				panic(Err(viml_printf("unexpected character: %s", c), self.reader.getpos()))
 			}
 			self.reader.getn(1)
-		} else if c == "|" || c == "\n" || (c == "\"" && !viml_eqregh(self.ea.cmd.flags, "\\<NOTRLCOM\\>") && ((self.ea.cmd.name != "@" && self.ea.cmd.name != "*") || self.reader.getpos() != self.ea.argpos) && (self.ea.cmd.name != "redir" || self.reader.getpos().i != self.ea.argpos.i+1 || pc != "@")) {
+		} else if c == "|" || c == "\n" || (c == "\"" && !viml_eqregh(self.ea.cmd.flags, "\\<NOTRLCOM\\>") && ((self.ea.cmd.name != "@" && self.ea.cmd.name != "*") || self.reader.getpos().i != self.ea.argpos.i) && (self.ea.cmd.name != "redir" || self.reader.getpos().i != self.ea.argpos.i+1 || pc != "@")) {
 			var has_cpo_bar = false
 			// &cpoptions =~ 'b'
 			if (!has_cpo_bar || !viml_eqregh(self.ea.cmd.flags, "\\<USECTRLV\\>")) && pc == "\\" {
-- 
2.43.0

