L, P, X, V = 'parser/lexer.go', 'parser/parser.go', 'parser/expression.go', 'validator/checker.go'


def tree(src, opts=''):
    return dict(op='tree', src=src, opts=opts)


BUGS = [
    dict(id='keyword-method', property='C01', needs='the keyword default, true or false right after a dot',
         what_it_breaks='Parse panics with something that is not an issue, so the caller gets neither a tree nor an error',
         edits=[(P, 'if ctx.currentToken == tokenType {\n\t\t\t\trhs', 'if ctx.currentToken == tokenType || IsKeywordToken(ctx.currentToken) {\n\t\t\t\trhs')],
         cases=[tree('$x.default')]),
    dict(id='underscore-segment', property='C02', needs='a plain qualified name with a segment that starts with underscore',
         what_it_breaks='foo::_bar is accepted as a name although only variables may have such a last segment',
         edits=[(L, "token == tokenVariable && c == '_') {", "c == '_') {")],
         cases=[tree('foo::_bar')]),
    dict(id='divide-concat', property='C02', needs='a division whose left operand is a string with interpolation and a later slash',
         what_it_breaks='the slash after an interpolated string starts a regular expression',
         edits=[(L, 'tokenHeredoc, tokenConcatenatedString, tokenRegexp, tokenVariable:', 'tokenHeredoc, tokenRegexp, tokenVariable:')],
         cases=[tree('$a = "${x}" / 2 / 3')]),
    dict(id='assign-left', property='C03', needs='a chain of two assignments',
         what_it_breaks='assignment associates to the left',
         edits=[(P, 'ctx.factory.Assignment(op, expr, ctx.assignment(), ', 'ctx.factory.Assignment(op, expr, ctx.step(), ')],
         cases=[tree('$a = $b = 1')]),
    dict(id='match-in', property='C03', needs='a match whose right operand is an in expression',
         what_it_breaks='=~ binds its right operand tighter than in',
         edits=[(P, 'ctx.factory.Match(op, expr, ctx.inExpression(), ', 'ctx.factory.Match(op, expr, ctx.unaryExpression(), ')],
         cases=[tree('$a =~ $b in $c')]),
    dict(id='node-comma', property='C04', needs='a node with a trailing comma before inherits',
         what_it_breaks='the trailing comma is only accepted directly before the body',
         edits=[(P, 'case tokenInherits, tokenLc:\n\t\t\treturn', 'case tokenLc:\n\t\t\treturn')],
         cases=[tree('node a, b, inherits c { }')]),
    dict(id='alias-list', property='C04', needs='a type alias to a list with two or more elements',
         what_it_breaks='a list of several elements is taken for an Object type',
         edits=[(P, 'if len(bt.elements) == 1 {', 'if len(bt.elements) >= 1 {')],
         cases=[tree('type A = [Integer, String]')]),
    dict(id='resource-two-keys', property='C05', needs='an access on Resource with several keys followed by attributes',
         what_it_breaks='an override of two resources is taken for resource defaults',
         edits=[(P, '&& len(accessExpr.keys) == 1 {', '&& len(accessExpr.keys) > 0 {')],
         cases=[tree("Resource['file', '/tmp/x'] { mode => '1' }")]),
    dict(id='entries-reused', property='C06', needs='an argument list with entries on both sides of another argument',
         what_it_breaks='the entries of the second hash overwrite those of the first',
         edits=[(P, 'result = append(result, ctx.newHashWithoutBraces(collector))\n\t\t\t\tcollector = nil', 'result = append(result, ctx.newHashWithoutBraces(collector))\n\t\t\t\tcollector = collector[:0]'),
                (P, 'if collector != nil {\n\t\t\t\tresult', 'if len(collector) > 0 {\n\t\t\t\tresult'),
                (P, 'if collector != nil {\n\t\tresult', 'if len(collector) > 0 {\n\t\tresult')],
         cases=[tree('f(a => 1, 2, b => 3)')]),
    dict(id='parameter-select', property='C06', needs='a parameter default that is a selector',
         what_it_breaks='the selector is not accepted as the default of a parameter',
         edits=[(P, 'defaultExpression = ctx.expression()', 'defaultExpression = ctx.orExpression()')],
         cases=[tree('define a($x = $y ? { 1 => 2 }) { }')]),
    dict(id='unicode-one', property='C07', needs='a delimited unicode escape with a single digit',
         what_it_breaks='an escape of one digit is accepted',
         edits=[(L, 'uLen >= 2 && uLen <= 6', 'uLen >= 1 && uLen <= 6')],
         cases=[tree(r'"\u{9}"')]),
    dict(id='interpolate-lambda', property='C08', needs='a chain of calls in an interpolation where an inner one has a lambda',
         what_it_breaks='the lambda is lost',
         edits=[(L, 'lhs.arguments, lhs.lambda, ctx.locator', 'lhs.arguments, nil, ctx.locator')],
         cases=[tree('"${x.map |$y| { $y }.join}"')]),
    dict(id='heredoc-escaped-margin', property='C09', needs='a heredoc with the L escape, a margin and an escaped end of line',
         what_it_breaks='the margin of the line that follows an escaped newline stays in the text',
         edits=[(L, "case '\\n':\n\t\t\tctx.stripIndent(indentStrip)\n\t\tdefault:", "case '\\n':\n\t\t\t// line continuation, nothing to add\n\t\tdefault:")],
         cases=[tree('@(X/L)\n  a \\\n  b\n  | X\n')]),
    dict(id='epp-verbatim-trim', property='C10', needs='<%% followed by only blanks and a trimming tag',
         what_it_breaks='the verbatim <% is trimmed away',
         edits=[(L, 'buf.WriteString(`<%`)\n\t\t\t\tlastNonWS = buf.Len()\n', 'buf.WriteString(`<%`)\n')],
         cases=[tree('a <%%  <%- $x %>', 'e')]),
    dict(id='epp-comment-verbatim', property='C10', needs='%%> inside of an EPP comment',
         what_it_breaks='a comment ends at the escaped %%>',
         edits=[(L, "if ec == '>' && prev != '%' {", "if ec == '>' {")],
         cases=[tree('a<%# b %%> c %>d', 'e')]),
    dict(id='radix-sticks', property='C11', needs='a decimal number after a hexadecimal or octal one',
         what_it_breaks='the decimal number has the radix of an earlier number',
         edits=[(L, "ctx.settokenValue(tokenInteger, ctx.parseInt(start, start, 10))\n\t\tctx.radix = 10", "ctx.settokenValue(tokenInteger, ctx.parseInt(start, start, 10))\n\t\tif ctx.radix == 0 {\n\t\t\tctx.radix = 10\n\t\t}")],
         cases=[tree('[0x10, 11]')]),
    dict(id='keyword-name-position', property='C12', needs='a function definition without a name, with layout or a long token at the name',
         what_it_breaks='the error is reported after the offending token rather than at it',
         edits=[(P, 'ctx.SetPos(ctx.tokenStartPos)\n\t\tpanic(ctx.parseIssue(parseExpectedNameAfterFunction))', 'panic(ctx.parseIssue(parseExpectedNameAfterFunction))')],
         cases=[tree("function 'abc' { }")]),
    dict(id='path-shared', property='C14', needs='a collector with attribute operations',
         what_it_breaks='the query of a collector is visited after its operations',
         edits=[(X, 'func (e *CollectExpression) AllContents(path []Expression, visitor PathVisitor) {\n\tDeepVisit(e, path, visitor, e.resourceType, e.query, e.operations)', 'func (e *CollectExpression) AllContents(path []Expression, visitor PathVisitor) {\n\tDeepVisit(e, path, visitor, e.resourceType)\n\tDeepVisit(e, path, visitor, e.operations, e.query)')],
         cases=[dict(op='paths', src='File <| a == 1 |> { b => 2 }')]),
    dict(id='float-digits', property='C15', needs='a float with more than fifteen significant digits',
         what_it_breaks='the PN form of the float loses its last digit',
         edits=[('pn/pn.go', 'fmt.Sprintf(`%.16g`, pn.val)', 'fmt.Sprintf(`%.15g`, pn.val)')],
         cases=[tree('0.1234567890123456')]),
    dict(id='json-large', property='C16', needs='an integer beyond 2^53',
         what_it_breaks='the JSON form has a string where the PN form has an integer',
         edits=[('pn/pn.go', 'func (pn *literalPN) ToData() interface{} {\n\treturn pn.val', 'func (pn *literalPN) ToData() interface{} {\n\tif i, ok := pn.val.(int64); ok && (i > 1<<53 || i < -1<<53) {\n\t\t// not representable by all JSON readers\n\t\treturn fmt.Sprintf(`%d`, i)\n\t}\n\treturn pn.val')],
         cases=[dict(op='json', src='9007199254740993')]),
    dict(id='literal-first-segment', property='C17', needs='a string with interpolation that starts with text',
         what_it_breaks='the text before the interpolation is taken for the value',
         edits=[('literal/literal.go', 'if len(segments) == 1 {', 'if len(segments) > 0 {')],
         cases=[dict(op='literal', src='"abc${x}"')]),
    dict(id='idem-else', property='C18', needs='an if whose else has an effect while the test and the then part have none',
         what_it_breaks='the if is reported as having no effect',
         edits=[(V, 'v.isIdem(e.Test()) && v.isIdem(e.Then()) && v.isIdem(e.Else())', 'v.isIdem(e.Test()) && v.isIdem(e.Then())')],
         cases=[dict(op='issues', src='if $a { 1 } else { notice(2) } notice(3)')]),
    dict(id='query-rhs', property='C18', needs='an illegal term as the right operand of a query',
         what_it_breaks='illegal query expressions on the right are not reported',
         edits=[(V, 'case parser.BooleanExpression:\n\t\tv.checkQuery(e.Lhs())\n\t\tv.checkQuery(e.Rhs())', 'case parser.BooleanExpression:\n\t\tv.checkQuery(e.Lhs())')],
         cases=[dict(op='issues', src='File <| a == 1 and b > 2 |>')]),
    dict(id='severities-shared', property='C19', needs='two checkers with different strictness, the first used after the second is created',
         what_it_breaks='the strictness of the checker created last decides for all of them',
         edits=[(V, 'v.severities = make(map[issue.Code]issue.Severity, 5)', 'v.severities = demoted'),
                (V, 'func (v *basicChecker) initialize(', '// demoted is the severity of the demoted issues\nvar demoted = make(map[issue.Code]issue.Severity, 5)\n\nfunc (v *basicChecker) initialize(')],
         cases=[dict(op='validators', args=['2', '0', '1'], src='notice({ a => 1, a => 2 })')]),
    dict(id='tasks-mapping', property='C20', needs='a capability mapping in a task script',
         what_it_breaks='a capability mapping is accepted in a task script',
         edits=[('validator/tasks_checker.go', 'func (v *tasksChecker) checkCapabilityMapping(', 'func (v *tasksChecker) checkMapping(')],
         cases=[dict(op='issues', opts='t', src='A produces B { c => d }')]),
    dict(id='plan-key', property='C20', needs='the word plan as a hash key in a task script',
         what_it_breaks='plan is no longer usable as a plain word when tasks are enabled',
         edits=[(P, 'case tokenType, tokenFunction, tokenPlan, tokenApplication,', 'case tokenType, tokenFunction, tokenApplication,')],
         cases=[tree('$a = { plan => 1 }', 't')]),
    dict(id='deferred-key', property='C21', needs='a resource step whose state has a hash with a variable as key',
         what_it_breaks='the key is evaluated immediately rather than deferred',
         edits=[(P, 'e = f.KeyedEntry(convertToDeferred(f, et.key), convertToDeferred(f, et.value), l, bo, bl)', 'e = f.KeyedEntry(et.key, convertToDeferred(f, et.value), l, bo, bl)')],
         cases=[tree('resource a { returns => ($x) } { b => { $k => $v } }', 'w')]),
    dict(id='site-definition', property='C22', needs='a site',
         what_it_breaks='a site is not among the definitions of the program',
         edits=[(P, 'return ctx.addDefinition(ctx.factory.Site(block, ctx.locator, start, ctx.Pos()-start))', 'return ctx.factory.Site(block, ctx.locator, start, ctx.Pos()-start)')],
         cases=[dict(op='defs', src='site { }')]),
    dict(id='definitions-reused', property='C23', needs='one parser that parses two programs with definitions',
         what_it_breaks='the definitions of an earlier program are overwritten by those of a later one',
         edits=[(P, 'ctx.definitions = make([]Definition, 0, 8)', 'ctx.definitions = ctx.definitions[:0]')],
         cases=[dict(op='parser-history', srcs=['class a { }', 'class b { }'])]),
    dict(id='issues-reused', property='C24', needs='one validator that validates two trees with issues',
         what_it_breaks='the issues of an earlier validation are overwritten by those of a later one',
         edits=[('validator/validator.go', 'v.issues = make([]issue.Reported, 0, 5)', 'v.issues = v.issues[:0]')],
         cases=[dict(op='validator-history', srcs=['1 2', 'notice({ a => 1, a => 2})'])]),
    dict(id='cli-severity', property='C25', needs='a file where an error is followed by a warning, and -j',
         what_it_breaks='the exit status follows the last issue rather than the worst one',
         edits=[('parse/parser.go', 'for idx, i := range v.Issues() {\n\t\t\t\tif i.Severity() > severity {', 'for idx, i := range v.Issues() {\n\t\t\t\tif i.Severity() != severity {')],
         cases=[dict(op='cli', args=['-j', '-s', 'warning'], src='$0 = 1\nnotice({ a => 1, a => 2 })')]),
    dict(id='comment-in-comment', property='C26', needs='/* within a line comment',
         what_it_breaks='a line comment that mentions /* comments out what follows',
         edits=[(L, "case '/':\n\t\t\tif commentStart == 0 {\n\t\t\t\ttc, sz := ctx.Peek()\n\t\t\t\tif tc == '*' {", "case '/':\n\t\t\tif commentStart != '*' {\n\t\t\t\ttc, sz := ctx.Peek()\n\t\t\t\tif tc != '*' && commentStart == '#' {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tif tc == '*' {")],
         cases=[tree('$a = 1 # see a/*.pp\n$b = 2 # */\n$c = 3')]),
    dict(id='position-runes', property='C27', needs='an offset behind a character of more than one byte that is not among the first forty of its line',
         what_it_breaks='the position counts bytes rather than characters',
         edits=[(X, '\tif offset == lineStart {\n\t\treturn 0\n', '\tif plain(e.string[lineStart:]) {\n\t\treturn offset - lineStart\n'),
                (X, 'func (e *Locator) offsetOnLine(', '// plain tells if positions on the line are offsets\nfunc plain(line string) bool {\n\tif len(line) > 40 {\n\t\tline = line[:40]\n\t}\n\tfor _, c := range line {\n\t\tif c >= utf8.RuneSelf {\n\t\t\treturn false\n\t\t}\n\t}\n\treturn true\n}\n\nfunc (e *Locator) offsetOnLine(')],
         cases=[dict(op='position', src='a\n' + 'x' * 45 + '\u00f1b\nc\u20acd')]),
    dict(id='pn-prepends', property='C28', needs='observing the PN form of a tree with a call more than once',
         what_it_breaks='the PN form of a parameter with a type changes the tree',
         edits=[],
         cases=[]),
]
