#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IN = ["inputs"]
G = "go/vimlparser.go"
TV = "relational dataflow: value numbering over the product of the control flow graphs of each function and its reference (current tree vs. frozen confirmed tree), joins to a fixed point"
NOTE = ("Sound up to the model of the analysis: every path of every function in scope, with arbitrary arguments and heap, is shown to make the same raising calls, raise the same errors, return the same values and leave the same state as the confirmed reference of that function. "
        "Trusted: the frozen reference (itself compared with the Vim script source of the parser, see DESIGN.md), go/types and go/ssa, the models of standard functions, fields of different names never alias. What cannot be decided is reported as a violation.")
P = []
def prop(id, title, statement, over, text, why, files, mech, technique=TV, level="translation_validation", note=NOTE, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a, _t=technique, _l=level, _n=note))

prop("C01", "Expressions are grouped as the Vim script grammar says",
 "For every expression text that is accepted, the tree gives every operator, call, subscript, slice, dot, method call, lambda, list, dictionary and curly-brace name exactly the operands, precedence and associativity of the Vim script grammar, with the operator kind that was written (including the '#' and '?' case variants and 'is'/'isnot'). Assignment targets are parsed by the restricted grammar of Vim and accept nothing more. Text that is not an expression is rejected, never turned into a tree.",
 IN, "all token sequences, of any length and nesting depth", "The tests parse some dozens of sample expressions; precedence and operand wiring must hold for every combination and nesting of operators, which only the shape of the parser on all paths can show.",
 [G], [("precedence climbing, one routine per level", G+": ExprParser.parse_expr1 … parse_expr9"), ("restricted grammar of targets", G+": LvalueParser.parse_lv8, parse_lv9")])
prop("C02", "Every character sequence is split into the right tokens",
 "At every position of the text the token found has the kind, the spelling and the extent that Vim gives it: numbers in all bases, floats, blobs, strings with their escapes, names with scopes, options, registers, environment variables and operators by longest match. Looking ahead never changes which tokens are delivered, and moving back and reading again delivers the same tokens. Unterminated literals and characters that start no token are errors.",
 ["inputs", "histories"], "all character sequences and all orders of looking ahead, reading and moving back", "Tests contain a few literals of each kind; the token tables have some 90 kinds whose longest-match choices depend on arbitrary following characters, and lookahead is memoised.",
 [G, "go/type.go"], [("token recognition", G+": ExprTokenizer.get2"), ("memo of tokens by position", G+": ExprTokenizer.get, peek"), ("character classes", G+": isdigit, isnamec, iswhite …")])
prop("C03", "Command lines split into modifiers, range, name, bang and arguments",
 "For every command line the parser separates leading colons and blanks, every command modifier with its bang or count, the line range with its patterns and separators, the command name, the bang and the argument options, and the text recorded for each part is exactly the text of the line. A bang, range or argument that the command does not take is an error, and a command is only recognised by an allowed abbreviation.",
 IN, "all command lines", "The samples cover a handful of modifiers and ranges; the guarantee is about any sequence of modifiers, any range and any command.",
 [G], [("modifiers", G+": VimLParser.parse_command_modifiers"), ("ranges and patterns", G+": VimLParser.parse_range, parse_pattern"), ("dispatch", G+": VimLParser.parse_command, _parse_command"), ("argument options", G+": VimLParser.parse_argopt, parse_argcmd")])
prop("C04", "A command ends exactly where Vim ends it",
 "For every line the extent of each command is the one Vim gives it: a bar or line end separates commands unless escaped, quoted with CTRL-V, inside backticks or part of a pattern, and a double quote starts a comment only for commands that allow one. Commands that take the rest of the line keep it verbatim, and the next command starts right after the separator; comments and hash-bang lines become comments with their exact text.",
 IN, "all lines and all commands of the table", "Tests have a few bars and comments; the rule must hold for each command flag combined with arbitrary text.",
 [G], [("separator search", G+": VimLParser.separate_nextcmd, skip_vimgrep_pat"), ("end of a command with expressions", G+": VimLParser.parse_trail, ends_excmds"), ("verbatim commands", G+": VimLParser.parse_cmd_common, parse_wincmd, parse_cmd_syntax")])
prop("C05", "Statements record their operands completely and in order",
 "Each statement that takes expressions or targets (assignment, constants, removal, locking, calls, echo family, execute, return, throw, evaluation, deletion of functions) becomes a node that holds its operator, depth and all of its operands, each once and in source order, destructuring targets and rest variable included. Operators, depth and operands are those written; a malformed statement is an error.",
 IN, "all argument texts of these statements", "The existing samples contain one or two forms of each statement, not all combinations of targets, operators and operand counts.",
 [G], [("statement parsers", G+": VimLParser.parse_cmd_let … parse_cmd_throw"), ("target lists", G+": VimLParser.parse_letlhs, parse_lvaluelist, parse_exprlist")])
prop("C06", "Blocks nest properly, and every unbalanced block is an error",
 "Every statement lands in the body of the innermost open block, in source order, and each block node holds exactly its own branches, handlers and end. A closing or intermediate command is accepted only for the innermost open block of its kind in the allowed order, break and continue only inside a loop, and a block left open at the end of its function or of the input is an error. Function definitions record name, parameters, defaults and attributes as written.",
 ["inputs", "histories"], "all sequences of statements, to any nesting depth", "Balanced samples cannot show that each of the unbounded wrong sequences is refused and that bodies never leak into a neighbour block.",
 [G], [("stack of open blocks", G+": VimLParser.push_context, pop_context, find_context, add_node"), ("block commands", G+": VimLParser.parse_cmd_if … parse_cmd_endfunction"), ("checks at the end", G+": VimLParser.check_missing_*")],
 state=[("context", "stack of open blocks, innermost first", "go/type.go: VimLParser.context")])
prop("C07", "Multi-line text arguments are taken verbatim up to their terminator",
 "Text inserted by append and insert commands, embedded scripts of other languages, key map tables and here documents are kept line by line and unparsed, up to the first line that ends them and no further; parsing resumes right after. A missing terminator is handled as the Vim script parser does it, and here documents record their flags and end at the line that is their end marker.",
 IN, "all following lines and end markers", "A test has one here document and one embedded script; what counts is that no other line, however it looks, ends or continues the text.",
 [G], [("text blocks", G+": VimLParser.parse_cmd_append, parse_cmd_insert, parse_cmd_lua, parse_cmd_python …"), ("here documents", G+": VimLParser.parse_heredoc")])
prop("C08", "The character stream reproduces the input with exact positions",
 "The characters that the parser reads are exactly those of the input lines in order, byte for byte even where they are not valid UTF-8, with line continuations joined and one line end per logical line. Each character knows its physical line, its byte column and its byte offset; looking ahead, seeking and reading names or numbers moves the position by exactly what was consumed and never past the end.",
 ["inputs", "histories"], "all inputs, including invalid UTF-8 and any run of continuation lines, and all sequences of reads and seeks", "Tests read a few ASCII lines; off-by-one errors appear with multi-byte characters, continuation lines or at the end of input only.",
 ["go/type.go", G], [("stream and positions", "go/type.go: StringReader.__init__, getpos"), ("reading", G+": StringReader.peekn, getn, read_*, seek_*")],
 state=[("buf, pos, i", "characters, their positions, the current index", "go/type.go: StringReader")])
prop("C09", "Every node is placed at the source text it comes from",
 "The position of every node and of every recorded part of a command (line, name, argument) is the line, column and byte offset of the token or command it was made from, also after continuation lines and for operators in the middle of their operands. Positions are those of the file being parsed and are printed as file:line:column with only the parts that are known.",
 IN, "all inputs and all node kinds", "A few tests look at positions; each of the hundred places where a node is made can take the wrong position without any test noticing.",
 [G, "go/type.go", "go/export.go", "ast/pos.go"], [("positions of raw nodes", G+": every assignment of a node position"), ("position of the reader", "go/type.go: StringReader.getpos"), ("conversion", "go/export.go: newPos, newAstNode, newExprNode"), ("printing", "ast/pos.go: Pos.String")])
prop("C10", "Malformed input is reported with the right message and place",
 "Whenever the input violates the grammar or a rule on names, arguments, blocks or destructuring, parsing stops with an error whose message names the violated rule and the offending text, and whose position is where the offending construct is. Correct input never causes an error, and the first violation met in reading order is the one reported.",
 IN, "all malformed inputs", "There are more than a hundred places that raise an error and a handful of samples of bad input.",
 [G, "go/type.go", "vimlparser.go"], [("errors", "go/type.go: Err, ParseError"), ("places that raise", G+": every panic(Err(…))"), ("public error", "vimlparser.go: ErrVimlParser")])
prop("C11", "Command names and abbreviations resolve as the command table says",
 "Each name is resolved to the command whose full name it abbreviates with at least the minimal length, exactly as listed in the command table, with the special forms of delete, substitute, k and digits as Vim has them; Neovim's additional commands exist only when asked for. Unknown lower-case names are errors and upper-case ones are user commands, and the answer for a name never depends on what was looked up before.",
 ["inputs", "configurations", "histories"], "all names, both dialects, any earlier lookups", "The table has about 570 entries with minimal lengths and flags; tests look at a few.",
 [G, "go/builtin_commands.go"], [("lookup with memo", G+": VimLParser.find_command"), ("table", "go/builtin_commands.go")])
prop("C12", "Vim patterns used by the parser keep their meaning in Go",
 "Every Vim pattern that the parser matches text with is translated to a Go pattern that accepts exactly the same texts. Each pattern the parser can ask for has a translation, so matching never fails for lack of one.",
 IN, "all strings, all patterns used", "A pattern table entry is wrong for some strings only; tests match a few strings against some of the patterns.",
 ["go/vimlfunc.go"], [("translation table", "go/vimlfunc.go: patVim2Go"), ("matching", "go/vimlfunc.go: viml_eqregh")])
prop("C13", "Runtime helpers behave as the Vim functions they stand for",
 "Splitting into characters, joining, escaping, formatting, ranges, substring search, number conversion, emptiness and key tests give for all arguments the result of the Vim function they replace. Numbers too large saturate instead of failing, and bytes that are not valid UTF-8 are kept.",
 IN, "all arguments", "Each helper is tested with two or three arguments.",
 ["go/vimlfunc.go"], [("helpers", "go/vimlfunc.go: viml_*")])
prop("C14", "The public tree carries everything the parser found",
 "For every script the public syntax tree has one node for each statement, expression and comment that was parsed, of the corresponding kind, with every child, operator, name, literal, attribute, modifier, range and command descriptor in the corresponding field and order, and nothing that was not there. No parsed construct makes the conversion fail.",
 ["inputs"], "all trees the parser can produce", "The tests compare a few trees; a field left out or crossed in one of some sixty conversions is invisible to them.",
 ["go/export.go"], [("statements", "go/export.go: newAstNode"), ("expressions", "go/export.go: newExprNode, newValues, newExprs"), ("command data", "go/export.go: newExArg, newCmd"), ("operators", "go/export.go: opToken")])
prop("C15", "Node accessors return the node's own position and command",
 "For every node kind the position accessor returns the start position stored in that node, and for every command node the command accessor returns the descriptor of that very command (or nothing where there is none). Statements and expressions are told apart by their type alone, and accessors never fail on a tree from the parser.",
 ["inputs"], "all node kinds and all trees", "One wrong accessor among 120 goes unnoticed unless its node kind is sampled.",
 ["ast/node.go"], [("accessors", "ast/node.go: Pos, Cmd, IsCurlyExpr")])
prop("C16", "Traversal visits every node once, in source order",
 "Walking a tree calls the visitor once for each node reachable from the root, parents before children and children in source order, uses the returned visitor for the children and skips them when none is returned, and signals the end of each visited node's children. Inspection does the same with a function and a truth value.",
 ["inputs", "histories"], "all trees and all visitors", "Tests walk two trees; a child field forgotten for one node kind shows only on trees that have it.",
 ["ast/walk.go", "ast/node.go"], [("traversal", "ast/walk.go: Walk, Inspect")])
prop("C17", "Every token kind has its own, exact spelling",
 "Each token kind prints as the exact operator or delimiter text it stands for, or as its name if it has no fixed text, distinct kinds print differently, and an unknown kind prints its number. Every operator of the parser maps to the public token of the same spelling.",
 ["inputs"], "all token kinds", "Nothing in the tests lists the spellings of all kinds.",
 ["token/token.go", "go/export.go"], [("spellings", "token/token.go: Token.String"), ("operators", "go/export.go: opToken")])
prop("C18", "Printed expressions keep operator structure",
 "Printing an expression writes each operator between or before its operands with the spelling of its token and puts parentheses exactly where the precedence of the Vim script grammar requires them, so that the operators of the printed text group as in the tree. Kinds that cannot be printed are reported as an error and nothing is dropped silently; write errors are returned.",
 ["inputs", "fault_sequences"], "all expression trees and all failing writers", "Tests print about twenty expressions; grouping must be right for each pair of operators.",
 ["printer/expr.go", "printer/opprec.go", "printer/printer.go"], [("printing", "printer/expr.go"), ("precedence", "printer/opprec.go: opprec"), ("entry", "printer/printer.go: Fprint")])
prop("C19", "Compiled output is the documented S-expression of the tree",
 "For every tree the compiler writes each statement, in order and at its nesting depth, as the documented form with the command's own keyword, all operands and blocks, and each expression as the documented parenthesised form with the operator of the source and strings escaped. Nothing else is written, and compiling the same tree again gives the same output.",
 ["inputs", "histories"], "all trees; repeated use of one compiler", "The samples in the test directory show each form once or twice.",
 ["compiler/compiler.go"], [("statements", "compiler/compiler.go: Compiler.compile*"), ("expressions", "compiler/compiler.go: Compiler.compileExpr"), ("escaping", "compiler/compiler.go: escape")])
prop("C20", "The reference compiler in Go produces the reference output",
 "Compiling the raw tree of a script gives exactly the lines that the Vim script implementation of the parser gives: the same forms, operators, order and indentation for every statement and expression kind.",
 ["inputs"], "all raw trees", "Reference outputs exist for some dozens of scripts only.",
 [G, "go/type.go"], [("compiler", G+": Compiler.compile_*")])
prop("C21", "The command reports every failing file and still does the others",
 "The command parses standard input when no file is named and otherwise each named file in order, writes results to standard output only and problems to standard error only, goes on with the next file after a failure, and exits with a failure status exactly if any file could not be read, parsed or written. Options select the dialect and the output form for all files.",
 ["inputs", "configurations", "fault_sequences"], "all argument lists, option combinations and failures", "No test runs the command with several files or with failures.",
 ["cmd/vimlparser/main.go"], [("command", "cmd/vimlparser/main.go: main, parseFile")])
prop("C22", "Parsing returns either a tree or an error, for the whole input",
 "The library calls parse all of the input, of any line length, in the requested dialect, and return a complete tree and no error, or no tree and an error that carries file name, position and message of the problem; failures of the reader are returned as errors. They never panic on malformed input and never return a partial tree.",
 ["inputs", "configurations", "fault_sequences"], "all inputs, dialects and read failures", "Tests use short readers that never fail.",
 ["vimlparser.go", "go/export.go"], [("entry points", "vimlparser.go: ParseFile, ParseExpr"), ("reading", "vimlparser.go: readlines")])
LINT = "whole-program dataflow over the SSA form: references to the protected objects are followed through calls, fields, elements and closures to every store, map update, append and call that could modify them"
LNOTE = ("Over-approximates: flow- and context-insensitive, one abstract cell per field, element type and local variable, calls through interfaces and function values go to everything that fits. "
         "Decided on the current tree alone, without a reference. Trusted: go/types and go/ssa, functions of a list of standard packages that do not modify their arguments.")
prop("C23", "Parses are independent of each other, at any time and concurrently",
 "What a parse, conversion, print or compilation returns depends on its arguments alone: nothing that happened before in the process, nor the clock, environment, random numbers, scheduling or the order of map entries, can change it. Calls never modify state that outlives them, so any number of them may run concurrently. Trees handed to the caller share nothing with state inside the library, so modifying one never changes a later result.",
 ["schedules", "histories"], "all interleavings of concurrent calls and all sequences of earlier calls", "Each test makes one call at a time and compares one result; state shared between calls shows only for particular earlier or concurrent calls.",
 [G, "go/export.go", "go/vimlfunc.go", "vimlparser.go"], [("tables made at initialisation and never modified", "go/builtin_commands.go, go/vimlfunc.go: patVim2Go"), ("state kept per parser", G+": VimLParser.__init__"), ("public copies of command data", "go/export.go: newCmd")],
 technique=LINT, level="other", note=LNOTE)
prop("C24", "Looking at a tree never changes it",
 "Walking, inspecting, printing and compiling leave every node of the tree, its lists and its command data as they were, and so does turning the raw tree into the public one. A tree may therefore be used by several readers at once and again afterwards.",
 ["schedules", "histories"], "all trees, all sequences of uses and all interleavings of readers", "Tests use each tree once and never compare it with what it was before.",
 ["ast/walk.go", "compiler/compiler.go", "printer/expr.go", "go/export.go", G], [("traversal", "ast/walk.go: Walk"), ("compilers", "compiler/compiler.go: Compiler, "+G+": Compiler"), ("printer", "printer/expr.go"), ("conversion", "go/export.go: newAstNode")],
 technique=LINT, level="other", note=LNOTE)

prop("C25", "The Go parser and the Vim script parser decide alike",
 "For every script the parser written in Go and the one written in Vim script that it is the translation of accept the same commands and expressions, build the same raw trees with the same positions, raise the same errors with the same messages, and use the same command tables in both dialects. A change to either that the other does not follow breaks this.",
 ["inputs", "programs"], "all scripts; every function that both programs have", "The test scripts are run through the Go parser only; nothing compares the two programs beyond the expected outputs of some dozens of scripts.",
 [G, "go/builtin_commands.go", "autoload/vimlparser.vim"], [("parser in Go", G), ("parser in Vim script", "autoload/vimlparser.vim"), ("tables", "go/builtin_commands.go, autoload/vimlparser.vim: s:VimLParser.builtin_commands")],
 technique="relational dataflow between two languages: value numbering over the product of the control flow graphs of each Go function and the Vim script function it is the translation of",
 note="A front end of our own lowers the Vim script functions. Of the 251 functions that both programs have, those whose confirmed versions are comparable (the runtime helpers, the constructors of lists and records and about thirty printing functions are written differently) are compared: both have to equal their confirmed versions, or to agree with each other on every path. Trusted: the model of the Vim script subset and of the runtime helpers.")

prop("C26", "Parsing, converting, printing and compiling always end",
 "For every input, of any content and however it breaks off, parsing ends: each round of every loop of the parser consumes input, or leaves the loop when a line or the input is at its end; every recursion consumes input first. Converting, walking, printing and compiling end for every tree: they call themselves only on parts of the tree they were given, and their loops count towards a bound.",
 ["inputs"], "all inputs, all trees; every loop and every cycle of calls", "A test that does not end is noticed only for the inputs it tries; what makes parsers hang is input that breaks off at a particular place.",
 [G, "go/export.go", "ast/walk.go", "printer/expr.go", "compiler/compiler.go"], [("scanning", G+": StringReader.read_*, skip_white, ExprTokenizer.get2"), ("command loop", G+": VimLParser.parse, parse_one_cmd"), ("recursive descent", G+": ExprParser.parse_expr1..9"), ("tree consumers", "ast/walk.go: Walk, go/export.go: newAstNode, compiler/compiler.go: compileExpr")],
 technique="progress analysis of loops and recursion: lower bounds of the stream position round each loop, constant propagation over the values computed at each kind of character and at the ends, ranking by counters, shrinking values and descent into the tree",
 level="other", note="Every natural loop and every strongly connected component of the call graph is classified. A loop that consumes input is followed at the end of a line, the end of the input and at each of 128 characters to see that it cannot go round in place. Three loops that this cannot decide (they depend on several characters at once, or on the name of a command) were decided by reading and are listed as such by comparison with the confirmed reference; so are the two calls of the printer that put parentheses around their own argument. Trusted: positions recorded of a command are positions of that command; the token cache delivers what scanning would; lengths added to a counter are not zero; the stack is deep enough.")

def main():
    with open(os.path.join(H, "properties.jsonl"), "w") as f:
        for p in P + [dict(n) for n in NA]:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    m = {"version": 1, "setup_cmd": "bash check.sh setup",
         "checks": [{"property": p["id"], "quick_cmd": "bash check.sh " + p["id"], "thorough_cmd": "bash check.sh " + p["id"], "technique": p["_t"], "level": p["_l"], "level_note": p["_n"]} for p in P],
         "not_applicable": [{"property": p["id"], "reason": p["_reason"]} for p in NA]}
    json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
NA = []
def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}, _reason=reason))
na("N01", "Printing and parsing again gives the same tree",
 "Parsing the printed form of any expression gives a tree equal to the printed one, apart from positions.",
 IN, "all expression trees", "Round trips are tried on some twenty expressions.", ["printer/expr.go", G], [("printer", "printer/expr.go"), ("parser", G)],
 "A round trip composes two recursive programs over all trees; no static argument in reach relates the recursion of the printer to that of the parser. Its necessary parts (spelling, precedence, parentheses, grammar) are C17, C18 and C01.")
na("N02", "Parsing takes time linear in the input",
 "The time to parse is bounded by a linear function of the input size for any script.",
 IN, "all inputs", "No test measures growth.", [G], [("parser", G)],
 "A bound on running time depends on amortised lookahead and on the cost of runtime operations; a syntactic argument can show progress of loops but not a complexity bound.")
if __name__ == "__main__":
    main()
