E, F, R, L, P, N, W, K, T = ('parser/expression.go', 'parser/factory.go', 'parser/reader.go', 'parser/lexer.go', 'parser/parser.go',
                             'pn/pn.go', 'validator/workflow.go', 'validator/checker.go', 'validator/validator.go')


def program(name):
    return dict(op='program', src=name)


BUGS = [
    # C29
    dict(id='float-round', property='C29', needs='a float of half or more after the point, asked for its integer',
         what_it_breaks='the integer of a float is rounded rather than cut',
         edits=[(E, '\treturn int64(e.value)\n', '\treturn int64(math.Floor(e.value + .5))\n'), (E, 'import (\n', 'import (\n\t"math"\n')],
         cases=[dict(op='say', src='$x = 2.75')]),
    dict(id='hash-last', property='C29', needs='a hash that has a key twice, once as name and once as string',
         what_it_breaks='the entry of a hash by its key is the last with the key rather than the first',
         edits=[(E, '\tfor _, entry := range e.entries {\n\t\tex, _ := entry.(*KeyedEntry)\n', '\tfor i := len(e.entries) - 1; i >= 0; i-- {\n\t\tex, _ := e.entries[i].(*KeyedEntry)\n')],
         cases=[dict(op='get', src="$x = { a => 1, 'a' => 2, b => 3 }", args=['a', 'b', 'c'])]),
    dict(id='with-functor', property='C29', needs='a call with a lambda that is given another functor',
         what_it_breaks='a call that is given another functor loses its lambda',
         edits=[(E, '\tcr := &CallNamedFunctionExpression{}\n\t*cr = *e\n\tcr.functor = functor\n\treturn cr', '\treturn &CallNamedFunctionExpression{callExpression{e.Positioned, e.rvalRequired, functor, e.arguments, nil}}')],
         cases=[dict(op='copies', src='$x = f(1) |$y| { $y }')]),
    dict(id='radix-value', property='C29', needs='an integer of more than 24 bits that is asked for its float',
         what_it_breaks='the float of an integer has single precision',
         edits=[(E, '\treturn float64(e.value)\n', '\treturn float64(float32(e.value))\n')],
         cases=[dict(op='say', src='$x = 0x1ffffffff')]),
    # C30
    dict(id='call-alias', property='C30', needs='a call renamed with AsCall, with the original used afterwards',
         what_it_breaks='renaming a call renames the one it is made from',
         edits=[(N, '\treturn &callPN{listPN{pn.elements}, name}', '\tpn.name = name\n\treturn pn')],
         cases=[program('calls')]),
    dict(id='delete-escaped', property='C30', needs='a string with the character 7F or up to 9F',
         what_it_breaks='control characters beyond ASCII are said as octal numbers',
         edits=[('pn/quote.go', 'if c < 0x20 {', 'if c < 0x20 || c >= 0x7f && c < 0xa0 {')],
         cases=[program('controls')]),
    dict(id='small-unsigned', property='C30', needs='a literal of a small unsigned type',
         what_it_breaks='a float of single precision shows the digits of a double one',
         edits=[(N, '\tcase float32, float64:\n\t\tstr := fmt.Sprintf(`%.16g`, pn.val)\n', '\tcase float32, float64:\n\t\tstr := fmt.Sprintf(`%.15g`, pn.val)\n')],
         cases=[program('numbers'), dict(op='tree', src='$x = 0.1234567890123456')]),
    dict(id='map-parameters', property='C30', needs='an empty map turned into parameters',
         what_it_breaks='an empty map is no parameter',
         edits=[(N, 'func (pn *mapPN) AsParameters() []PN {\n\treturn []PN{pn}', 'func (pn *mapPN) AsParameters() []PN {\n\tps := []PN{pn}\n\tif len(pn.entries) == 0 {\n\t\tps = ps[:0]\n\t}\n\treturn ps')],
         cases=[dict(op='program', src='maps')]),
    # C31
    dict(id='container-root', property='C31', needs='a validator that asks for the container of a distant parent',
         what_it_breaks='containers are not found more than four levels up',
         edits=[(T, 'for last := len(v.path) - 1; last > 0; last-- {', 'for last := len(v.path) - 1; last > 0 && last > len(v.path)-5; last-- {')],
         cases=[dict(op='containers', src='define a::b($x = 1) { if $x { unless $y { case $z { 1: { notice([[$x]]) } } } } }')]),
    dict(id='strict-case', property='C31', needs='a strictness in upper case',
         what_it_breaks='the names of strictness are only known in lower case',
         edits=[(T, 'switch strings.ToLower(str) {', 'switch strings.TrimSpace(str) {')],
         cases=[dict(op='strict', args=['Warning', 'ERROR', 'off', '', ' off'])]),
    dict(id='demote-clear', property='C31', needs='a demotion followed by two validations with the same validator',
         what_it_breaks='a validator forgets what is demoted once it starts over',
         edits=[(T, '\tv.issues = make([]issue.Reported, 0, 5)\n', '\tif len(v.issues) > 0 {\n\t\tv.issues, v.severities = nil, nil\n\t}\n')],
         cases=[dict(op='demote', src="$x = { a => 1, a => 2 }\n2\n1", args=['VALIDATE_IDEM_EXPRESSION_NOT_LAST=warning', 'VALIDATE_DUPLICATE_KEY=ignore', 'VALIDATE_DUPLICATE_KEY=warning'])]),
    dict(id='demote-lower', property='C31', needs='an issue whose severity is raised again',
         what_it_breaks='a severity can only be lowered',
         edits=[(T, '\tv.severities[code] = severity\n', '\tif s, ok := v.severities[code]; !ok || severity < s {\n\t\tv.severities[code] = severity\n\t}\n')],
         cases=[dict(op='demote', src="{ a => 1, a => 2 }", args=['VALIDATE_DUPLICATE_KEY=ignore', 'VALIDATE_DUPLICATE_KEY=warning', 'VALIDATE_DUPLICATE_KEY=error'])]),
    # C32
    dict(id='concat-collapse', property='C32', needs='an interpolated string made of literal segments only, which the parser never makes',
         what_it_breaks='an interpolated string made by hand of one literal segment is turned into a plain string',
         edits=[(F, '\treturn &ConcatenatedString{Positioned{locator, offset, length}, segments}\n', '\tif len(segments) == 1 {\n\t\tif s, ok := segments[0].(*LiteralString); ok {\n\t\t\treturn f.String(s.value, locator, offset, length)\n\t\t}\n\t}\n\tc := &ConcatenatedString{Positioned{locator, offset, length}, segments}\n\treturn c\n')],
         cases=[program('strings')]),
    dict(id='future-lost', property='C32', needs='a reserved word made by hand as a future one',
         what_it_breaks='a future reserved word is reported as a reserved one',
         edits=[(F, 'return &ReservedWord{Positioned{locator, offset, length}, value, future}', 'return &ReservedWord{Positioned{locator, offset, length}, value, future && value != `attr`}')],
         cases=[program('words')]),
    dict(id='block-single', property='C32', needs='a block inside a block, which the parser never makes',
         what_it_breaks='a block in a block loses the inner one in the notation',
         edits=[(E, '\tif block, ok := expr.(*BlockExpression); ok {\n\t\treturn pnList(block.Statements()).WithName(name)', '\tif block, ok := expr.(*BlockExpression); ok {\n\t\tss := block.Statements()\n\t\tif len(ss) == 1 {\n\t\t\treturn pnBlockAsEntry(name, ss[0])\n\t\t}\n\t\treturn pnList(ss).WithName(name)')],
         cases=[program('blocks')]),
    dict(id='node-parent-order', property='C32', needs='a node with a parent',
         what_it_breaks='the parent of a node is visited after its hosts',
         edits=[(E, '\tDeepVisit(e, path, visitor, e.parent, e.hostMatches, e.body)', '\tDeepVisit(e, path, visitor, e.hostMatches, e.parent, e.body)'), (E, '\tShallowVisit(e, path, visitor, e.parent, e.hostMatches, e.body)', '\tShallowVisit(e, path, visitor, e.hostMatches, e.parent, e.body)')],
         cases=[program('nodes'), dict(op='nodes', src='node a inherits b { f() }')]),
    dict(id='body-operations', property='C32', needs='a resource body with a splat between plain attributes',
         what_it_breaks='bodies of resources with several splats keep the last only',
         edits=[(F, '\treturn &ResourceBody{Positioned{locator, offset, length}, title, operations}', '\tif n := len(operations); n > 1 {\n\t\tif _, ok := operations[0].(*AttributesOperation); ok {\n\t\t\tif _, ok = operations[n-1].(*AttributesOperation); ok {\n\t\t\t\toperations = operations[1:]\n\t\t\t}\n\t\t}\n\t}\n\tb := &ResourceBody{Positioned{locator, offset, length}, title, operations}\n\treturn b')],
         cases=[program('resources')]),
    # C33
    dict(id='peek-size', property='C33', needs='a reader that is at a character of several bytes',
         what_it_breaks='the size of a character at which a reader looks is at most three bytes',
         edits=[(R, '\tif c == utf8.RuneError && size <= 1 {\n\t\tpanic(r.invalidUnicode())\n\t}\n\treturn c, size\n}\n\nfunc (r *stringReader) PeekAt', '\tif c == utf8.RuneError && size <= 1 {\n\t\tpanic(r.invalidUnicode())\n\t}\n\treturn c, utf8.RuneLen(c) &^ 4\n}\n\nfunc (r *stringReader) PeekAt')],
         cases=[dict(op='reader', src='a\U0001F600b', args=['n', 'p', 'n', 'p'])]),
    dict(id='next-refused', property='C33', needs='a reader at bytes that are no characters, asked again after it refused',
         what_it_breaks='a reader is beyond what it refused to read',
         edits=[(R, '\tc, size := utf8.DecodeRuneInString(r.text[r.i:])\n\tif c == utf8.RuneError && size <= 1 {\n\t\tpanic(r.invalidUnicode())\n\t}\n\tr.i += size\n\treturn', '\tc, size := utf8.DecodeRuneInString(r.text[r.i:])\n\tr.i += size\n\tif c == utf8.RuneError && size <= 1 {\n\t\tr.i -= size - 1\n\t\tdefer func() { r.i -= 0 }()\n\t\tpanic(r.parseErrorAt(r.i - 1))\n\t}\n\treturn'), (R, 'func (r *stringReader) invalidUnicode() *parseError {\n', 'func (r *stringReader) parseErrorAt(i int) *parseError {\n\treturn &parseError{"invalid unicode character", i}\n}\n\nfunc (r *stringReader) invalidUnicode() *parseError {\n')],
         cases=[dict(op='reader', src='a\u00e9', args=['n', '2', 'n', 'p', 'n', '0', 'n', 'n', 'n'])]),
    dict(id='keyword-range', property='C33', needs='a lexer at the keyword unless, the last one',
         what_it_breaks='unless is not a keyword token',
         edits=[(L, 'return token >= tokenAnd && token <= tokenUnless', 'return token >= tokenAnd && token < tokenUnless')],
         cases=[dict(op='lexer', src='if unless and', args=['n', 'n', 'n'])]),
    dict(id='unexpected-token-text', property='C33', needs='a lexer that refuses a token that is no keyword',
         what_it_breaks='refusing the end of lambda parameters names the wrong token',
         edits=[(L, '\ttokenPipeEnd: `|`,', '\ttokenPipeEnd: `||`,')],
         cases=[dict(op='lexer', src='|$a| {', args=['n', 'n', 'n', '='])]),
    # cross-cutting, rare
    dict(id='column-invalid', property='C27', needs='a position on a line of more than 510 characters',
         what_it_breaks='columns beyond 510 wrap',
         edits=[(E, '\treturn e.offsetOnLine(offset) + 1\n', '\tc := e.offsetOnLine(offset) + 1\n\tif c > 255 {\n\t\tc = 255 + (c-255)&255\n\t}\n\treturn c\n')],
         cases=[dict(op='position', src='a' * 600)]),
    dict(id='access-shared', property='C15', needs='an access with more than seven keys',
         what_it_breaks='an access with many keys loses the last in its notation',
         edits=[(E, '\treturn pn.List(append(pnMapArgs(e.Operand()), pnMap(e.Keys())...)).AsCall(`access`)', '\tks := make([]pn.PN, 0, 8)\n\tks = append(ks, e.Operand().ToPN())\n\tfor _, k := range e.Keys() {\n\t\tif len(ks) < cap(ks) {\n\t\t\tks = append(ks, k.ToPN())\n\t\t}\n\t}\n\treturn pn.List(ks).AsCall(`access`)')],
         cases=[dict(op='tree', src='$x = $a[1, 2, 3, 4, 5, 6, 7, 8, 9]')]),
]
