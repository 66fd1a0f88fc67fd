E, F, R, L, P, N, W, K, T, C, Q = ('parser/expression.go', 'parser/factory.go', 'parser/reader.go', 'parser/lexer.go', 'parser/parser.go',
                                   'pn/pn.go', 'validator/workflow.go', 'validator/checker.go', 'validator/validator.go', 'parse/parser.go', 'pn/quote.go')


BUGS = [
    dict(id='length-narrow', property='C13', needs='a node of 65536 bytes or more',
         what_it_breaks='the length of a node wraps at 65536',
         edits=[(E, '\treturn e.length\n', '\treturn int(uint16(e.length))\n')],
         cases=[dict(op='nodes', src="notice('" + 'x' * 65540 + "')")]),
    dict(id='line-narrow', property='C13', needs='a node on line 32768 or later',
         what_it_breaks='the line of a node is negative beyond 32767',
         edits=[(E, '\treturn e.locator.LineForOffset(e.offset)\n', '\treturn int(int16(e.locator.LineForOffset(e.offset)))\n')],
         cases=[dict(op='nodes', src='\n' * 32770 + '$a = 1')]),
    dict(id='nest-limit', property='C01', needs='more than 200 parentheses or other things in one another',
         what_it_breaks='a valid source that nests deeply is rejected, and each rejection leaves less for the next source',
         edits=[(L, '\tdefinitions           []Definition\n}', '\tdefinitions           []Definition\n\tdepth                 int\n}'),
                (P, 'func (ctx *context) atomExpression() (expr Expression) {\n\tatomStart := ctx.tokenStartPos\n', 'func (ctx *context) atomExpression() (expr Expression) {\n\tatomStart := ctx.enter()\n\tdefer ctx.leave()\n'),
                (P, 'func (ctx *context) ifExpression(', 'func (ctx *context) enter() int {\n\tctx.depth++\n\tif ctx.depth > 200 {\n\t\tctx.depth = 0\n\t\tpanic(ctx.parseIssue2(lexUnexpectedToken, issue.H{`token`: tokenMap[ctx.currentToken]}))\n\t}\n\treturn ctx.tokenStartPos\n}\n\nfunc (ctx *context) leave() {\n\tctx.depth--\n}\n\nfunc (ctx *context) ifExpression(')],
         cases=[dict(op='tree', src='(' * 201 + '1' + ')' * 201)]),
    dict(id='column-memo', property='C28', needs='one tree whose nodes are asked for their columns by several goroutines at the same time',
         what_it_breaks='concurrent users of one tree crash in a map that remembers columns',
         edits=[(E, '\treturn e.locator.PosOnLine(e.offset)\n', '\treturn e.locator.column(e.offset)\n'),
                (E, 'func (e *Locator) String() string {\n', '// column remembers what it has found\nfunc (e *Locator) column(offset int) int {\n\tif e.columns == nil {\n\t\te.columns = make(map[int]int)\n\t}\n\tc, ok := e.columns[offset]\n\tif !ok {\n\t\tc = e.PosOnLine(offset)\n\t\te.columns[offset] = c\n\t}\n\treturn c\n}\n\nfunc (e *Locator) String() string {\n'),
                (E, '\t\tlineIndexOnce sync.Once\n', '\t\tlineIndexOnce sync.Once\n\t\tcolumns       map[int]int\n')],
         cases=[dict(op='crowd', srcs=['\n'.join('$a%d = [%d, "x${b}y", { c => %d }]' % (i, i, k) for i in range(25)) for k in range(12)])]),
    dict(id='param-many', property='C18', needs='a parameter list with more than eight names, a later one given twice',
         what_it_breaks='duplicates among parameters are only noticed among the first eight names',
         edits=[(K, '\t\t} else {\n\t\t\tunique[param.Name()] = true\n\t\t}\n\t}\n}\n\nfunc (v *basicChecker) checkQuery(', '\t\t} else if len(unique) < 8 {\n\t\t\tunique[param.Name()] = true\n\t\t}\n\t}\n}\n\nfunc (v *basicChecker) checkQuery(')],
         cases=[dict(op='issues', src='define x($a, $b, $c, $d, $e, $f, $g, $h, $i, $i) { }')]),
    dict(id='keys-many', property='C18', needs='a hash of more than sixteen entries with a key that is given twice, seventeen or more entries apart',
         what_it_breaks='a duplicate key is only noticed when it is near',
         edits=[(K, '\tunique := make(map[interface{}]bool, len(e.Entries()))\n\tfor _, entry := range e.Entries() {\n', '\tunique := make(map[interface{}]bool, len(e.Entries()))\n\tfor i, entry := range e.Entries() {\n\t\tif i%17 == 16 {\n\t\t\tunique = make(map[interface{}]bool, len(e.Entries()))\n\t\t}\n')],
         cases=[dict(op='issues', src='$x = {' + ', '.join('k%d => 1' % i for i in range(20)) + ', k0 => 2}')]),
    dict(id='cli-lines', property='C25', needs='a file with a line of more than 64 kB',
         what_it_breaks='what follows a very long line is not read, and the program is reported as valid',
         edits=[(C, '\tcontent, err := ioutil.ReadFile(fileName)\n\tif err != nil {\n', '\tcontent, err := readLines(fileName)\n\tif err != nil {\n'),
                (C, 'func main() {\n', '// readLines reads a file line by line\nfunc readLines(fileName string) ([]byte, error) {\n\tf, err := os.Open(fileName)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tdefer f.Close()\n\tif st, err := f.Stat(); err != nil || st.IsDir() {\n\t\treturn ioutil.ReadFile(fileName)\n\t}\n\tb := bytes.NewBufferString(``)\n\ts := bufio.NewScanner(f)\n\ts.Split(func(data []byte, eof bool) (int, []byte, error) {\n\t\tif i := bytes.IndexByte(data, 10); i >= 0 {\n\t\t\treturn i + 1, data[:i+1], nil\n\t\t}\n\t\tif eof && len(data) > 0 {\n\t\t\treturn len(data), data, nil\n\t\t}\n\t\treturn 0, nil, nil\n\t})\n\tfor s.Scan() {\n\t\tb.Write(s.Bytes())\n\t}\n\treturn b.Bytes(), nil\n}\n\nfunc main() {\n'),
                (C, 'import (\n', 'import (\n\t"bufio"\n')],
         cases=[dict(op='cli', src='$a = 1\n# ' + 'x' * 70000 + '\n$b = )\n')]),
    dict(id='tag-prefix', property='C09', needs='a heredoc whose tag is longer than twelve characters and whose text has a line that only differs after those',
         what_it_breaks='a line that shares the first twelve characters with a long end tag ends the heredoc',
         edits=[(L, '\t\t\tif tagEnd <= len(expr) && tag == expr[n:tagEnd] {', '\t\t\tif tagEnd <= len(expr) && (tag == expr[n:tagEnd] || tagLen > 12 && tag[:12] == expr[n:n+12]) {')],
         cases=[dict(op='tree', src='$x = @(END_OF_THE_TEXT)\n  a\n  END_OF_THE_TEST\n  b\n  | END_OF_THE_TEXT\n')]),
    dict(id='quote-long', property='C15', needs='a string of more than 16 kB with something to escape near its end',
         what_it_breaks='what follows the first 16 kB of a string is not escaped in the notation',
         edits=[(Q, '\tfor _, c := range str {\n', '\tfor i, c := range str {\n\t\tif i > 16384 {\n\t\t\tb.WriteString(str[i:])\n\t\t\tbreak\n\t\t}\n')],
         cases=[dict(op='tree', src="$x = '" + 'a"' * 8200 + "'")]),
    dict(id='definitions-cap', property='C22', needs='more than 64 definitions in one program',
         what_it_breaks='a program lists at most 64 definitions',
         edits=[(P, '\tctx.definitions = append(ctx.definitions, expr.(Definition))\n', '\tif len(ctx.definitions) < 64 {\n\t\tctx.definitions = append(ctx.definitions, expr.(Definition))\n\t}\n')],
         cases=[dict(op='defs', src='\n'.join('class c%d { }' % i for i in range(70)))]),
    dict(id='file-sticks', property='C12', needs='a parser that parses a source without a file name after one with a name',
         what_it_breaks='an error in a source without a file name is said to be in the file before it',
         edits=[(P, 'func (ctx *context) Parse(filename string, source string, singleExpression bool) (expr Expression, err error) {\n', 'func (ctx *context) Parse(name string, source string, singleExpression bool) (expr Expression, err error) {\n\tfilename := name\n\tif name == `` && ctx.locator != nil {\n\t\tfilename = ctx.locator.file\n\t}\n')],
         cases=[dict(op='unnamed', srcs=['$a = 1', '$a = )'])]),
]
