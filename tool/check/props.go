package check

const (
	vp = `go\.VimLParser\.`
	// conv is the conversion of raw nodes to public ones.
	conv = `|go\.(new(AstNode|ExprNode|Exprs|Idents|Values|Body|CurlyName.*)|opToken|VimLParser\.Parse|ExprParser\.Parse)`
	// tables of the commands
	cmds = `go\.var:.*commands`
	pats = `go\.var:patVim2Go.*`
)

// Props are the properties that are claimed.
var Props = []*Prop{
	{ID: "C01", MinFns: 20, Areas: []Area{
		{`go\.(ExprParser|LvalueParser)\..*|go\.New(Expr|Lvalue)Parser|go\.ExprTokenizer\..*|go\.Node|` + vp + `(parse_expr|parse_lvalue.*|parse_letlhs|parse_constlvalue)` + conv, kAny}}},
	{ID: "C02", MinFns: 25, Areas: []Area{
		{`go\.(ExprTokenizer\..*|NewExprTokenizer|is(alnum|alpha|digit|odigit|xdigit|white|namec|namec1|argname|varname|idc|upper|lower|wordc|wordc1))|go\.StringReader\..*|go\.viml_eqregh`, kAny}}, Rules: []Rule{dataRule(pats, 50), initRule("go")}},
	{ID: "C03", MinFns: 10, Areas: []Area{
		{vp + `(parse_command_modifiers|parse_range|parse_pattern|parse_cmd_modifier_range|parse_one_cmd|parse_command|_parse_command|parse_argopt|parse_argcmd|read_cmdarg|find_command)|go\.StringReader\.(get.*|read.*|skip.*|p|peek.*|tell|seek.*|eof)|go\.new(ExArg|Cmd)|go\.is.*`, kAny}}, Rules: []Rule{dataRule(cmds, 3000), dataRule(pats, 50)}},
	{ID: "C04", MinFns: 9, Areas: []Area{
		{vp + `(separate_nextcmd|skip_vimgrep_pat|parse_trail|parse_cmd_common|ends_excmds|parse_comment|parse_hashbang|parse_wincmd|parse_cmd_syntax|parse_cmd_usercmd|parse_cmd_.*|parse_exprlist|parse_lvaluelist|parse_pattern|parse_one_cmd|parse_command|_parse_command|find_command|parse)|go\.StringReader\.(skip_white.*|get.*|p|peek.*|readline)`, kAny}}, Rules: []Rule{dataRule(cmds, 3000)}},
	{ID: "C05", MinFns: 25, Areas: []Area{
		{vp + `(parse_cmd_(let|const|unlet|lockvar|unlockvar|call|echo|echon|echomsg|echoerr|echohl|execute|eval|return|throw|delfunction)|parse_(letlhs|constlhs|lvalue|lvalue_func|lvaluelist|constlvalue|expr|exprlist))|go\.Node|go\.LvalueParser\..*` + conv, kAny}}},
	{ID: "C06", MinFns: 25, Areas: []Area{
		{vp + `(parse_cmd_(if|elseif|else|endif|while|endwhile|for|endfor|try|catch|finally|endtry|function|endfunction|break|continue)|check_missing_.*|find_context|push_context|pop_context|add_node|parse|parse_command|_parse_command|parse_one_cmd|parse_pattern)|go\.Node` + conv, kAny}}},
	{ID: "C07", MinFns: 5, Areas: []Area{
		{vp + `(parse_cmd_(append|insert|loadkeymap|lua|mzscheme|perl|python|python3|ruby|tcl)|parse_heredoc|parse_cmd_finish|parse_letlhs|parse_constlhs|parse_cmd_let|parse_cmd_const)|go\.StringReader\.(get|getn|readline|peek.*|p|skip.*|getstr)`, kAny}}},
	{ID: "C08", MinFns: 20, Areas: []Area{
		{`go\.StringReader\..*|go\.NewStringReader|go\.viml_(split|eqregh)|\.readlines`, kAny}}},
	{ID: "C09", MinFns: 70, Areas: []Area{
		{`go\.(VimLParser|ExprParser|LvalueParser|ExprTokenizer)\..*|go\.new(AstNode|ExprNode|ExArg)`, kPos},
		{`go\.StringReader\.(getpos|__init__)|go\.newPos|ast\.(.*\.)?Pos|ast\.Pos\.String`, kAny}}},
	{ID: "C10", MinFns: 70, Areas: []Area{
		{`go\.(VimLParser|ExprParser|LvalueParser|ExprTokenizer|StringReader)\..*`, kErr},
		{`go\.Err|go\.ParseError\.Error|\.ErrVimlParser\.Error|\.(ParseFile|ParseExpr)|` + vp + `(check_missing_.*|Parse)|go\.ExprParser\.Parse`, kAny}}, Rules: []Rule{dataRule(`go\.var:MAX_FUNC_ARGS`, 1), dataRule(cmds, 3000)}},
	{ID: "C11", MinFns: 3, Areas: []Area{
		{vp + `(find_command|__init__|parse_command|_parse_command)|go\.NewVimLParser|go\.newCmd|\.ParseFile|go\.init`, kAny}}, Rules: []Rule{dataRule(cmds, 3000), initRule("go")}},
	{ID: "C12", MinFns: 1, Areas: []Area{
		{`go\.viml_eqregh|go\.init.*|go\.is.*`, kAny}}, Rules: []Rule{dataRule(pats, 50), initRule("go")}},
	{ID: "C13", MinFns: 6, Areas: []Area{
		{`go\.viml_.*`, kAny}}, Rules: []Rule{dataRule(`go\.var:MAX_FUNC_ARGS`, 1), initRule("go")}},
	{ID: "C14", MinFns: 8, Areas: []Area{
		{`go\.(new(AstNode|ExprNode|Exprs|Idents|Values|Body|ExArg|Cmd|Pos|CurlyName.*)|opToken|VimLParser\.Parse|ExprParser\.Parse)`, kAny}}, Rules: []Rule{shapeRule("ast", "go"), initRule("ast|go")}},
	{ID: "C15", MinFns: 100, Areas: []Area{
		{`ast\..*\.(Pos|Cmd|exprNode|stmtNode|IsCurlyExpr)`, kAny}}, Rules: []Rule{shapeRule("ast"), dataRule(`ast\.var:.*`, 0)}},
	{ID: "C16", MinFns: 3, Areas: []Area{
		{`ast\.(Walk|Inspect|inspector\.Visit|walk.*)`, kAny}}, Rules: []Rule{dataRule(`ast\.var:.*`, 0), initRule("ast")}},
	{ID: "C17", MinFns: 2, Areas: []Area{
		{`token\..*|go\.opToken`, kAny}}, Rules: []Rule{dataRule(`token\.var:.*`, 50), shapeRule("token"), initRule("token")}},
	{ID: "C18", MinFns: 8, Areas: []Area{
		{`printer\..*|token\..*`, kAny}}, Rules: []Rule{dataRule(`(printer|token)\.var:.*`, 0), shapeRule("printer"), initRule("printer")}},
	{ID: "C19", MinFns: 20, Areas: []Area{
		{`compiler\..*|token\..*`, kAny}}, Rules: []Rule{dataRule(`(compiler|token)\.var:.*`, 0), shapeRule("compiler"), initRule("compiler")}},
	{ID: "C20", MinFns: 80, Areas: []Area{
		{`go\.(New)?Compiler(\..*)?|go\.viml_(escape|printf|join|string)`, kAny}}},
	{ID: "C21", MinFns: 2, Areas: []Area{
		{`cmd/vimlparser\..*|compiler\.(Compile|Compiler\.Compile)|\.readlines`, kAny}}, Rules: []Rule{dataRule(`cmd/vimlparser\.var:.*`, 2), initRule("cmd/vimlparser")}},
	{ID: "C22", MinFns: 3, Areas: []Area{
		{`\.(ParseFile|ParseExpr|readlines|init)|\.ErrVimlParser\.Error|go\.(VimLParser|ExprParser)\.Parse|go\.NewVimLParser|` + vp + `(__init__|parse)|go\.newBody`, kAny}}, Rules: []Rule{dataRule(`\.var:.*`, 0), shapeRule(""), initRule("")}},
	{ID: "C23", Rules: []Rule{lintRule("package-state", 800), lintRule("own-tree", 100), lintRule("deterministic", 40)}},
	{ID: "C24", Rules: []Rule{lintRule("read-only-tree", 300)}},
	{ID: "C25", Rules: []Rule{vimRule()}},
	{ID: "C26", Rules: []Rule{lintRule("progress", 80), lintRule("descent", 60)}},
}
