L, P, X, V = 'parser/lexer.go', 'parser/parser.go', 'parser/expression.go', 'validator/checker.go'


def tree(src, opts=''):
    return dict(op='tree', src=src, opts=opts)


def nodes(src, opts=''):
    return dict(op='nodes', src=src, opts=opts)


BUGS = [
    dict(id='heredoc-flag-dollar', property='C09', needs='a heredoc without quoted tag but with the $ escape',
         what_it_breaks='an escaped $ keeps its backslash when the heredoc does not interpolate',
         edits=[(L, "\t\t\t\tif flags[fi] == bc {", "\t\t\t\tif flags[fi] == bc && (bc != '$' || segments != nil) {")],
         cases=[tree('@(X/$t)\na \\$b \\t\nX\n')]),
    dict(id='hex-rune', property='C07', needs='hex escapes enabled and an escape of 80 or above',
         what_it_breaks='\\xNN stands for a character rather than for the byte with that value',
         edits=[(L, 'buf.WriteByte(byte(r))', 'buf.WriteRune(rune(r))')],
         cases=[tree('"caf\\xc3\\xa9"', 'x')]),
    dict(id='regexp-escaped', property='C07', needs='a regular expression with an escaped backslash followed by the closing slash',
         what_it_breaks='an escaped backslash before the end of a regular expression loses its backslash',
         edits=[(L, "\tctx.consumeDelimitedString('/', start-1, nil, func(buf *bytes.Buffer, ctx *context, ec rune) {\n\t\tbuf.WriteRune('\\\\')\n\t\tbuf.WriteRune(ec)", "\tctx.consumeDelimitedString('/', start-1, nil, func(buf *bytes.Buffer, ctx *context, ec rune) {\n\t\tif c, _ := ctx.Peek(); ec != '\\\\' || c != '/' {\n\t\t\tbuf.WriteRune('\\\\')\n\t\t}\n\t\tbuf.WriteRune(ec)")],
         cases=[tree('$x =~ /a\\\\/')]),
    dict(id='collector-length', property='C13', needs='a collector without attribute operations and what follows it',
         what_it_breaks='an exported query without a search has the length of its start only',
         edits=[(P, 'queryExpr = ctx.factory.Nop(ctx.locator, queryStart, ctx.tokenStartPos-queryStart)', 'queryExpr = ctx.factory.Nop(ctx.locator, ctx.tokenStartPos, 0)')],
         cases=[nodes('A <<| |>>')]),
    dict(id='arguments-length', property='C13', needs='a trailing hash argument whose last entry is longer than the first',
         what_it_breaks='a hash argument without braces ends with its first entry',
         edits=[(P, 'last := entries[len(entries)-1]', 'last := entries[0]')],
         cases=[nodes('f(1, a => 2, bb => 33)')]),
    dict(id='negative-offset', property='C13', needs='a folded negative number of several lines up, i.e. a sign followed by a number',
         what_it_breaks='a signed number starts at its digits',
         edits=[(P, "\t\t\texpr := ctx.primaryExpression()\n\t\t\texpr.updateOffsetAndLength(unaryStart, ctx.Pos()-unaryStart)\n\t\t\treturn expr\n\t\t}\n\t\tpanic(ctx", "\t\t\treturn ctx.primaryExpression()\n\t\t}\n\t\tpanic(ctx")],
         cases=[nodes('$a = +1')]),
    dict(id='json-map-pairs', property='C16', needs='a map whose value is nil',
         what_it_breaks='entries without value are missing in the JSON form',
         edits=[('pn/pn.go', 'args = append(args, entry.Key(), entry.Value().ToData())', 'if data := entry.Value().ToData(); data != nil {\n\t\t\targs = append(args, entry.Key(), data)\n\t\t}')],
         cases=[dict(op='json', src='define a($x = undef) { }')]),
    dict(id='heredoc-forgotten', property='C23', needs='a parser that failed on the line of a heredoc and then parses something of several lines',
         what_it_breaks='the first line end of the next source leads to where the heredoc of the failed one ended',
         edits=[(P, '\tctx.nextLineStart = -1\n\tctx.beginningOfLine = 0\n', '\tctx.beginningOfLine = 0\n'), (P, 'ctx := &context{factory: DefaultFactory(), handleBacktickStrings', 'ctx := &context{nextLineStart: -1, factory: DefaultFactory(), handleBacktickStrings')],
         cases=[dict(op='parser-history', srcs=['@(X) )\na\nX\n', '$a = 1\n$b = 2\n$c = 3'])]),
    dict(id='pv-clear', property='C24', needs='a combined parser and validator that is given a source with syntax error after one with issues',
         what_it_breaks='nothing found for a valid source yields an empty result rather than none',
         edits=[('validator/validator.go', 'if len(issues) == 0 {\n\t\treturn expr, nil\n\t}', 'if issues == nil {\n\t\treturn expr, nil\n\t}')],
         cases=[dict(op='pv-history', srcs=['notice(1)'])]),
    dict(id='pipe-comment', property='C26', needs='a comment between the end of lambda parameters and the body',
         what_it_breaks='lambda parameters that are followed by a comment do not end',
         edits=[(L, 'n, _ := ctx.skipWhite(false)\n\t\t\t\t\tctx.rewind(saved)', 'n, _ := ctx.skipWhiteInLiteral()\n\t\t\t\t\tfor n == \'\\n\' {\n\t\t\t\t\t\tn, _ = ctx.skipWhiteInLiteral()\n\t\t\t\t\t}\n\t\t\t\t\tctx.rewind(saved)')],
         cases=[tree('$a.each |$x| /* each */ { $x }')]),
    dict(id='cli-epp', property='C25', needs='a file whose suffix is EPP in upper case',
         what_it_breaks='a file that is not an .epp file is taken for a template',
         edits=[('parse/parser.go', 'strings.HasSuffix(fileName, `.epp`)', 'strings.HasSuffix(strings.ToLower(fileName), `.epp`)')],
         cases=[dict(op='cli', opts='E', args=[], src='$x = 1')]),
    dict(id='deferred-args', property='C21', needs='a type call in the state of a resource whose argument list has spare capacity',
         what_it_breaks='a call of a type in the state of a resource loses its type',
         edits=[(P, 'args := append([]Expression{et.functor}, et.arguments...)', 'args := append([]Expression{}, et.arguments...)')],
         cases=[tree('resource b { } { c => Foo(1, $x) }', 'w')]),
    dict(id='param-splat-type', property='C06', needs='a captures rest parameter with a type',
         what_it_breaks='a captures rest parameter loses its type',
         edits=[(P, "\t\tdefaultExpression, typeExpr, capturesRest, ctx.locator", "\t\tdefaultExpression, untyped(typeExpr, capturesRest && defaultExpression != nil), capturesRest, ctx.locator"),
                (P, "func (ctx *context) returnParameters() (result", "func untyped(typeExpr Expression, drop bool) Expression {\n\tif drop {\n\t\treturn nil\n\t}\n\treturn typeExpr\n}\n\nfunc (ctx *context) returnParameters() (result")],
         cases=[tree('define a(String *$x = []) { }')]),
    dict(id='not-binds', property='C03', needs='a negation of an in expression in parentheses free form',
         what_it_breaks='! binds weaker than in',
         edits=[(P, "case tokenNot:\n\t\tctx.nextToken()\n\t\texpr := ctx.unaryExpression()", "case tokenNot:\n\t\tctx.nextToken()\n\t\texpr := ctx.inExpression()")],
         cases=[tree('! $a in $b')]),
    dict(id='literal-nested', property='C17', needs='a list within a list that has an element that is not literal',
         what_it_breaks='a nested list with something that is not literal counts as literal',
         edits=[('literal/literal.go', "\t\t\tresult[idx] = toLiteral(elem)\n", "\t\t\tresult[idx], _ = ToLiteral(elem)\n\t\t\tif _, ok := elem.(*parser.LiteralList); !ok {\n\t\t\t\ttoLiteral(elem)\n\t\t\t}\n")],
         cases=[dict(op='literal', src='[[1], [$x]]')]),
    dict(id='literal-heredoc', property='C17', needs='a heredoc, put together by hand, whose text is a string of one part',
         what_it_breaks='a heredoc that consists of literals only is not literal when its text is a concatenation',
         edits=[('literal/literal.go', "\tcase *parser.HeredocExpression:\n\t\treturn toLiteral(e.Text())", "\tcase *parser.HeredocExpression:\n\t\tif ls, ok := e.Text().(*parser.LiteralString); ok {\n\t\t\treturn ls.Value()\n\t\t}\n\t\tpanic(notLiteral)")],
         cases=[dict(op='program', src='heredocs')]),
    dict(id='validate-sorts', property='C28', needs='a hash of two entries whose keys are not in order, validated',
         what_it_breaks='validation reorders the entries of the hash that it looks at',
         edits=[(V, 'func (v *basicChecker) checkLiteralHash(e *parser.LiteralHash) {\n', 'func (v *basicChecker) checkLiteralHash(e *parser.LiteralHash) {\n\tsort.Slice(e.Entries(), func(a, b int) bool {\n\t\treturn e.Entries()[a].(*parser.KeyedEntry).Key().String() < e.Entries()[b].(*parser.KeyedEntry).Key().String()\n\t})\n'), (V, 'import (\n', 'import (\n\t"sort"\n'), (V, '\t\tv.checkLiteralHash(e)\n', '\t\tv.checkLiteralHash((e))\n')],
         cases=[dict(op='observed', src='$x = { b => 1, a => 2 }')]),
    dict(id='line-index-shared', property='C28', needs='trees of two sources of equal length whose line ends differ, observed in turn',
         what_it_breaks='the line index of one source is taken for another',
         edits=[(X, '\treturn sort.SearchInts(e.getLineIndex(), offset+1)', '\tli, ok := indexed[len(e.string)]\n\tif !ok {\n\t\tli = e.getLineIndex()\n\t}\n\tif len(e.string) > 4096 {\n\t\t// worth keeping\n\t\tindexed[len(e.string)] = li\n\t}\n\treturn sort.SearchInts(li, offset+1)'),
                (X, '// Return the line in the source for the given byte offset\n', '// line indexes of large sources\nvar indexed = map[int][]int{}\n\n// Return the line in the source for the given byte offset\n')],
         cases=[dict(op='parser-nodes', srcs=['# ' + 'x' * 5000 + '\n$a = 1\n$b = 2', '# ' + 'x' * 5000 + '\n$a = 1 $b\n= 2'])]),
    dict(id='line-index-slot', property='C28', needs='trees of two sources observed in turn, and line asked for before the column',
         what_it_breaks='the line that was found for one tree is used for the column in another',
         edits=[(X, '\treturn sort.SearchInts(e.getLineIndex(), offset+1)', '\tlastOffset = offset\n\tlastLine = sort.SearchInts(e.getLineIndex(), offset+1)\n\treturn lastLine'),
                (X, '// Return the line in the source for the given byte offset\n', '// what was asked for last. The column is usually asked for right after the line\nvar lastOffset, lastLine = -1, 0\n\n// Return the line in the source for the given byte offset\n'),
                (X, '\tline := sort.SearchInts(li, offset+1)\n', '\tline := lastLine\n\tif offset != lastOffset || line > len(li) {\n\t\tline = sort.SearchInts(li, offset+1)\n\t}\n')],
         cases=[dict(op='columns', srcs=['$a = 1\n$b = 2', '$a = 1 $b\n= 2'])]),
    dict(id='column-ascii', property='C27', needs='the only character of more than one byte is the last of the text, and what is asked for is its end',
         what_it_breaks='columns count bytes when only the last character has more than one',
         edits=[(X, '\treturn utf8.RuneCountInString(e.string[lineStart:offset])', '\tif ascii {\n\t\treturn offset - lineStart\n\t}\n\treturn utf8.RuneCountInString(e.string[lineStart:offset])'), (X, '\tli := e.getLineIndex()\n\tline :=', '\tli, ascii := e.getLineIndex(), e.ascii()\n\tline :='), (X, '// Return the position on a line in', '// ascii is true if the text has no character of more than one byte\nfunc (e *Locator) ascii() bool {\n\tfor i := range e.string {\n\t\tif i < len(e.string)-4 && e.string[i] >= utf8.RuneSelf {\n\t\t\treturn false\n\t\t}\n\t}\n\treturn true\n}\n\n// Return the position on a line in')],
         cases=[dict(op='position', src='bbbb\u20ac')]),
    dict(id='json-operator', property='C16', needs='an operator without operands within a list',
         what_it_breaks='the JSON form of an operator without operands is a string rather than a call',
         edits=[('pn/pn.go', "\targs := make([]interface{}, 0, top+1)\n\targs = append(args, pn.name)\n\tif top > 0 {", "\tif top == 0 && pn.name == `qmark` {\n\t\treturn pn.name\n\t}\n\targs := append(make([]interface{}, 0, top+1), pn.name)\n\tif top > 1 {"), ('pn/pn.go', "\treturn map[string]interface{}{`^`: args}\n", "\tif top == 1 {\n\t\targs = append(args, pn.elements[0].ToData())\n\t\tif n, ok := pn.elements[0].(*literalPN); ok && n.val == nil {\n\t\t\targs = args[:1]\n\t\t}\n\t}\n\treturn map[string]interface{}{`^`: args}\n")],
         cases=[dict(op='json', src='-undef')]),
    dict(id='sp-escape', property='C07', needs='the escape \\s before a character that is not ASCII',
         what_it_breaks='an undefined escape of a character beyond ASCII loses its backslash',
         edits=[(L, "\t\t\t\t// Unrecognized escape sequence. Treat as literal backslash\n\t\t\t\tbuf.WriteRune('\\\\')\n", "\t\t\t\t// Unrecognized escape sequence. Treat as literal backslash\n\t\t\t\tif ec < 0x80 {\n\t\t\t\t\tbuf.WriteByte('\\\\')\n\t\t\t\t}\n")],
         cases=[tree('"a\\\u00e9"')]),
    dict(id='expected-quote', property='C12', needs='an error at a string or a variable where a token of the grammar is expected',
         what_it_breaks='the message quotes the value of the token rather than naming its kind',
         edits=[(P, "panic(ctx.parseIssue2(parseExpectedToken, issue.H{`expected`: tokenMap[token], `actual`: tokenMap[ctx.currentToken]}))", "actual := tokenMap[ctx.currentToken]\n\t\tif s, ok := ctx.tokenValue.(string); ok && ctx.currentToken == tokenTypeName {\n\t\t\tactual = s\n\t\t}\n\t\tpanic(ctx.parseIssue2(parseExpectedToken, issue.H{`expected`: tokenMap[token], `actual`: actual}))")],
         cases=[tree('if $a B { }')]),
    dict(id='selector-splat', property='C03', needs='a selector whose value is itself a selector',
         what_it_breaks='a selector in the value of a selector option belongs to the outer one',
         edits=[(P, "return ctx.factory.Selector(lhs, ctx.expression(), ctx.locator", "return ctx.factory.Selector(lhs, ctx.orExpression(), ctx.locator")],
         cases=[tree('$x = $a ? { 1 => $b ? { 2 => 3 }, default => 4 }')]),
    dict(id='edge-assign', property='C03', needs='a relationship whose right operand is an assignment',
         what_it_breaks='an assignment on the right of an edge takes the relationship as its target',
         edits=[(P, 'expr = ctx.factory.RelOp(op, expr, ctx.assignment(), ', 'expr = ctx.factory.RelOp(op, expr, ctx.step(), ')],
         cases=[tree('A["a"] -> $b = B["b"]')]),
    dict(id='define-namespace', property='C04', needs='a class within a class within a class',
         what_it_breaks='the name of a class at the third level lacks the outermost namespace',
         edits=[(P, 'return strings.Join(append(ctx.nameStack, name), `::`)', 'outer := ctx.nameStack\n\tif top := len(outer); top > 2 {\n\t\touter = outer[top-2:]\n\t}\n\treturn strings.Join(append(outer, name), `::`)')],
         cases=[tree('class a { class b { class c { class d { } } } }')]),
    dict(id='node-float', property='C04', needs='a node name with a number that ends in a zero',
         what_it_breaks='a number in a node name is normalized',
         edits=[(P, "\t\tcase tokenIdentifier, tokenTypeName:\n\t\t\tnames = append(names, ctx.tokenString())\n", "\t\tcase tokenIdentifier, tokenTypeName:\n\t\t\tnames = append(names, strings.ToLower(ctx.tokenString()))\n")],
         cases=[tree('node A.b { }')]),
    dict(id='override-ops', property='C05', needs='a +> in a collector that is not the first attribute',
         what_it_breaks='+> behind a => in the same body is taken for =>',
         edits=[(P, "\t\treturn ctx.factory.AttributeOp(op, name, ctx.expression(), ctx.locator, start, ctx.Pos()-start)", "\t\tvalue := ctx.expression()\n\t\tif _, ok := value.(*AccessExpression); ok && op == tokenMap[tokenParrow] && ctx.currentToken == tokenComma {\n\t\t\top = tokenMap[tokenFarrow]\n\t\t}\n\t\treturn ctx.factory.AttributeOp(op, name, value, ctx.locator, start, ctx.Pos()-start)")],
         cases=[tree("File['a'] { b +> C['d'], e => 1 }")]),
    dict(id='bodies-semicolon', property='C05', needs='a resource with two bodies where the second has no attributes',
         what_it_breaks='a resource body without attributes is dropped when it is the last',
         edits=[(P, "\t\tresult = append(result, ctx.resourceBody(title))\n", "\t\tbody := ctx.resourceBody(title)\n\t\tif len(result) == 0 || ctx.currentToken != tokenRc || len(body.(*ResourceBody).operations) > 0 {\n\t\t\tresult = append(result, body)\n\t\t}\n")],
         cases=[tree("file { 'a': b => 1; 'c': }")]),
    dict(id='epp-render-trim', property='C10', needs='a tab between a trimming end tag and the line end',
         what_it_breaks='a trimming end tag keeps a tab and the line end behind it',
         edits=[(L, "for c, sz = ctx.Peek(); c == ' ' || c == '\\t'; c, sz = ctx.Peek() {", "for c, sz = ctx.Peek(); c == ' '; c, sz = ctx.Peek() {")],
         cases=[tree('<% $x -%> \t\na', 'e')]),
    dict(id='idem-nested', property='C18', needs='nested parentheses as a statement that is not the last',
         what_it_breaks='an expression without effect in two pairs of parentheses is not reported',
         edits=[(V, "\t\treturn v.isIdem(e.Expr())\n", "\t\t_, nested := e.Expr().(*parser.ParenthesizedExpression)\n\t\treturn !nested && v.isIdem(e.Expr())\n")],
         cases=[dict(op='issues', src='((1))\nnotice(2)')]),
    dict(id='tasks-nested', property='C20', needs='a resource as an operand of a relationship in a task script',
         what_it_breaks='a resource is not reported when it is an operand of a relationship',
         edits=[('validator/tasks_checker.go', "\tv.Accept(ValidateCatalogOperationNotSupported, e, issue.H{`operation`: e})", "\tif _, ok := v.Container().(*parser.RelationshipExpression); !ok {\n\t\tv.Accept(ValidateCatalogOperationNotSupported, e, issue.H{`operation`: e})\n\t}")],
         cases=[dict(op='issues', opts='t', src="file { 'a': } -> file { 'b': }")]),
    dict(id='workflow-style', property='C21', needs='a word that names a step style used as an attribute or hash key with workflows enabled',
         what_it_breaks='a step style followed by a name on the next line is not a step',
         edits=[(P, "\t\t\t\tif name, ok := ctx.identifier(); ok {\n", "\t\t\t\tif name, ok := ctx.identifier(); ok && !strings.Contains(ctx.locator.string[start:pos], \"\\n\") {\n")],
         cases=[tree('action\na { } { }', 'w')]),
    dict(id='interpolate-blank', property='C08', needs='two interpolations with only blanks between them',
         what_it_breaks='blanks between two interpolations are lost',
         edits=[(L, "\tif precedingString != `` {\n", "\tif precedingString != `` && (len(segments) == 0 || precedingString != `  `) {\n")],
         cases=[tree('"${a}  ${b}"')]),
    dict(id='interpolate-lambda', property='C08', needs='a chain of calls in an interpolation where an inner one has a lambda',
         what_it_breaks='the lambda is lost',
         edits=[(L, "\tcase *CallMethodExpression:\n\t\tlhe := ctx.factory.CallMethod(\n", "\tcase *CallMethodExpression:\n\t\tvar lambda Expression\n\t\tif _, ok := lhs.functor.(*NamedAccessExpression).lhs.(*NamedAccessExpression); !ok && len(lhs.arguments) > 0 {\n\t\t\tlambda = lhs.lambda\n\t\t}\n\t\tfactory := ctx.factory\n\t\tlhe := factory.CallMethod(\n"),
                (L, "lhs.arguments, lhs.lambda, ctx.locator", "lhs.arguments, lambda, ctx.locator")],
         cases=[tree('"${x.map |$y| { $y }.join}"')]),
]
