E, F, R, L, P, N, W, K, T, C, Q = ('parser/expression.go', 'parser/factory.go', 'parser/reader.go', 'parser/lexer.go', 'parser/parser.go',
                                   'pn/pn.go', 'validator/workflow.go', 'validator/checker.go', 'validator/validator.go', 'parse/parser.go', 'pn/quote.go')


BUGS = [
    dict(id='root-stale', property='C24', needs='a validator that validates a node of a tree after a tree in which it saw something else last',
         what_it_breaks='the root of a tree is judged as if it were where the last node of the tree before was',
         edits=[(T, '\tv.Clear()\n\tv.setPathAndSubject(path, e)\n\tv.Validate(e)\n', '\tv.Clear()\n\tv.Validate(e)\n')],
         cases=[dict(op='roots', srcs=['class a { if $b { c { d: e => 1 } } }', 'function f() { }', 'type A = B'])]),
    dict(id='margin-cap', property='C09', needs='a heredoc with a margin of more than 32 characters',
         what_it_breaks='only 32 characters of a margin are stripped',
         edits=[(L, '\tfor indentStrip > 0 {\n', '\tfor n := 0; indentStrip > 0 && n < 32; n++ {\n')],
         cases=[dict(op='tree', src='$x = @(E)\n' + ' ' * 40 + 'a\n' + ' ' * 36 + '| E\n')]),
    dict(id='hash-index', property='C28', needs='keys of one hash looked up by several goroutines at the same time',
         what_it_breaks='concurrent lookups in one hash crash in a map that is made when it is first needed',
         edits=[(E, '\t\tek := ex.Key()\n\t\tswitch ek := ek.(type) {\n\t\tcase *LiteralString:\n\t\t\tif ek.value == key {\n', '\t\tek := e.keyOf(ex)\n\t\tswitch ek := ek.(type) {\n\t\tcase *LiteralString:\n\t\t\tif ek.value == key {\n'),
                (E, 'func (e *LiteralHash) Get(key string) Expression {\n', 'func (e *LiteralHash) keyOf(x *KeyedEntry) Expression {\n\tk, ok := e.keys[x]\n\tif !ok {\n\t\tif e.keys == nil {\n\t\t\te.keys = make(map[*KeyedEntry]Expression)\n\t\t}\n\t\tk = x.Key()\n\t\te.keys[x] = k\n\t}\n\treturn k\n}\n\nfunc (e *LiteralHash) Get(key string) Expression {\n'),
                (F, 'return &LiteralHash{Positioned{locator, offset, length}, entries}', 'return &LiteralHash{Positioned{locator, offset, length}, entries, nil}'),
                (E, '\tLiteralHash struct {\n\t\tPositioned\n\t\tentries []Expression\n', '\tLiteralHash struct {\n\t\tPositioned\n\t\tentries []Expression\n\t\tkeys    map[*KeyedEntry]Expression\n')],
         cases=[dict(op='crowd-get', srcs=['{ ' + ', '.join('k%d => %d' % (i, i + k) for i in range(60)) + ' }' for k in range(12)])]),
    dict(id='default-far', property='C18', needs='a case with more than one default of which the second is not in the option after the first',
         what_it_breaks='a second default of a case is only reported when it is near the first',
         edits=[(K, '\tfoundDefault := false\n\tfor _, option := range e.Options() {\n\t\tco := option.(*parser.CaseOption)\n\t\tfor _, value := range co.Values() {\n\t\t\tif _, ok := value.(*parser.LiteralDefault); ok {\n\t\t\t\tif foundDefault {\n', '\tfoundDefault, at := false, 0\n\tfor i, option := range e.Options() {\n\t\tco := option.(*parser.CaseOption)\n\t\tfor _, value := range co.Values() {\n\t\t\tif _, ok := value.(*parser.LiteralDefault); ok {\n\t\t\t\tif foundDefault && i-at < 4 {\n'),
                (K, '\t\t\t\tfoundDefault = true\n\t\t\t}\n\t\t}\n\t}\n}\n', '\t\t\t\tfoundDefault, at = true, i\n\t\t\t}\n\t\t}\n\t}\n}\n')],
         cases=[dict(op='issues', src='case $x { default: { } 1: { } 2: { } 3: { } 4: { } default: { } }')]),
    dict(id='list-copy', property='C30', needs='a list of a tree made into a call with another name and that call made into one again',
         what_it_breaks='the elements of a PN list are shared with what is made of it, and changed by it',
         edits=[(N, '\treturn &callPN{listPN{pn.elements}, name}\n', '\tpn.name = name\n\treturn pn\n')],
         cases=[dict(op='recall', src='f(1)')]),
    dict(id='unicode-digits', property='C07', needs='an escape for a character beyond U+FFFF with six digits',
         what_it_breaks='a unicode escape with six digits denotes another character',
         edits=[(L, '\tr, _ := strconv.ParseInt(ctx.From(hexStart), 16, 32)\n', '\tr, _ := strconv.ParseInt(ctx.From(hexStart)[uLen/6*2:], 16, 32)\n')],
         cases=[dict(op='tree', src='$x = "\\u{10f600}"')]),
    dict(id='interpolate-deep', property='C13', needs='an interpolation within an interpolation within an interpolation',
         what_it_breaks='what follows strings that are nested three deep is on the wrong offset',
         edits=[(L, '\t\texpr := ctx.parse(tokenRc, true)\n', '\t\tctx.nested++\n\t\texpr := ctx.parse(tokenRc, true)\n\t\tctx.nested--\n'),
                (L, '\t\treturn ctx.factory.Text(expr, ctx.locator, start, ctx.Pos()-start)\n', '\t\treturn ctx.factory.Text(expr, ctx.locator, start+ctx.nested/2, ctx.Pos()-start)\n'),
                (P, '\tctx.nameStack = nil\n', '\tctx.nameStack = nil\n\tctx.nested = 0\n'),
                (L, '\tdefinitions           []Definition\n}', '\tdefinitions           []Definition\n\tnested                int\n}')],
         cases=[dict(op='nodes', src='"${f("${g("${$a}x")}y")}z"')]),
    dict(id='workflow-depth', property='C21', needs='a step four workflows deep',
         what_it_breaks='a step that is more than three workflows deep loses the outermost name',
         edits=[(P, '\treturn strings.Join(append(ctx.nameStack, name), `::`)', '\treturn strings.Join(append(ctx.innermost(3), name), `::`)'),
                (P, 'func (ctx *context) lambdaParameterList() ', '// innermost returns the names of the at most n innermost steps\nfunc (ctx *context) innermost(n int) []string {\n\tif top := len(ctx.nameStack); top > n {\n\t\treturn ctx.nameStack[top-n : top : top]\n\t}\n\treturn ctx.nameStack\n}\n\nfunc (ctx *context) lambdaParameterList() ')],
         cases=[dict(op='tree', opts='w', src='workflow a { } { workflow b { } { workflow c { } { workflow d { } { resource e { } { f => 1 } } } } }')]),
    dict(id='json-nested-quote', property='C16', needs='a string with a character below U+0010 other than those with escapes of their own',
         what_it_breaks='JSON of characters below U+0010 has three digits',
         edits=[], cases=[]),
    dict(id='tasks-collect', property='C20', needs='a collector as an operand of a relationship in a task',
         what_it_breaks='a collector of exported resources is not reported in a task',
         edits=[], cases=[]),
]
BUGS = [b for b in BUGS if b['edits']]
