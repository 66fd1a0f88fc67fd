// Demonstration driver: runs the cases of cases.json against the tree and reports those that do not give what they should.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/lyraproj/issue/issue"
	pjson "github.com/lyraproj/puppet-parser/json"
	"github.com/lyraproj/puppet-parser/literal"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/pn"
	"github.com/lyraproj/puppet-parser/validator"
)

// A containers validator tells what the expressions that it is given are contained in
type containers struct {
	validator.AbstractValidator
	out string
}

func (v *containers) Validate(e parser.Expression) {
	v.out += fmt.Sprintf("%T:", e)
	for c := v.ContainerOf(e); c != nil; c = v.ContainerOf(c) {
		v.out += fmt.Sprintf(" %T@%d", c, c.ByteOffset())
	}
	v.out += "\n"
}

func try(f func()) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = fmt.Sprintf("refused: %v\n", r)
		}
	}()
	f()
	return
}

func all(e parser.Expression, f func(e parser.Expression)) {
	f(e)
	e.AllContents(nil, func(path []parser.Expression, e parser.Expression) { f(e) })
}

// program makes values or nodes by hand
func program(name string) string {
	f := parser.DefaultFactory()
	l := parser.NewLocator(`x.pp`, `a text of some length`)
	s := func(v string) parser.Expression { return f.String(v, l, 2, 4) }
	i := func(v int64) parser.Expression { return f.Integer(v, 10, l, 1, 1) }
	es := func(es ...parser.Expression) []parser.Expression { return es }
	is := func(e parser.Expression) string {
		v := validator.NewChecker(validator.StrictError)
		validator.Validate(v, e)
		return e.ToPN().String() + "\n" + issues(v.Issues())
	}
	switch name {
	case `list`:
		x := pn.List([]pn.PN{pn.Literal(1), pn.Literal(`two`), pn.Literal(nil)})
		y := pn.List([]pn.PN{x, x.AsCall(`f`)})
		return strings.Join([]string{y.AsCall(`g`).String(), y.String(), x.String(), fmt.Sprintf(`%v`, y.ToData())}, "\n")
	case `calls`:
		x := pn.Call(`f`, pn.Literal(1), pn.Literal(2))
		y := x.AsCall(`g`)
		z := pn.Map([]pn.Entry{y.WithName(`y`), x.WithName(`x`), y.WithName(`y`)})
		return strings.Join([]string{x.String(), y.String(), z.String(), z.AsCall(`h`).String(), pn.List(y.AsParameters()).String(), fmt.Sprintf(`%v`, z.ToData())}, "\n")
	case `controls`:
		r := ``
		for c := rune(0); c < 0xa1; c++ {
			r += pn.Literal(string([]rune{'a', c, '0'})).String() + "\n"
		}
		return r
	case `numbers`:
		r := ``
		for _, v := range []interface{}{int8(-128), uint64(1 << 63), float32(0.5), 1e21, 123456789012345680.0, 1e16, 1e15, 0.1, 100.0, 1e100, -0.0001, 1.5e-9, 1e-7} {
			r += pn.Literal(v).String() + "\n"
		}
		return r
	case `keys`:
		r := ``
		for _, k := range []string{`a`, `a-b`, `a::b`, `::a`, ``, `1`, `a b`, `a::`, `a:b`, `_`, "a\n"} {
			k := k
			r += k + ` ` + try(func() { pn.Map([]pn.Entry{pn.Literal(1).WithName(k)}) }) + "\n"
		}
		return r
	case `strings`:
		return is(f.Block(es(f.ConcatenatedString(es(s(`a`)), l, 0, 1), f.ConcatenatedString(es(s(`a`), f.Text(i(1), l, 0, 1)), l, 0, 1), f.Undef(l, 0, 0)), l, 0, 3))
	case `words`:
		return is(f.Array(es(f.ReservedWord(`attr`, true, l, 0, 4), f.ReservedWord(`private`, false, l, 0, 4), f.ReservedWord(`foo`, true, l, 0, 4)), l, 0, 4))
	case `blocks`:
		return is(f.If(i(1), f.Block(es(f.Block(es(i(1)), l, 0, 1)), l, 0, 1), f.Block(nil, l, 0, 1), l, 0, 9)) + is(f.Block(es(f.Nop(l, 0, 0), f.Nop(l, 0, 0), i(1)), l, 0, 1))
	case `nodes`:
		x := s(`x`)
		n := f.Node(es(x, f.Default(l, 0, 3), x), x, f.Block(es(f.CallNamed(f.QualifiedName(`f`, l, 0, 1), true, nil, nil, l, 0, 1)), l, 0, 1), l, 3, 4)
		return is(n) + n.String()
	case `resources`:
		b := f.ResourceBody(s(`t`), es(f.AttributesOp(f.Undef(l, 0, 1), l, 0, 1), f.AttributeOp(`+>`, `a`, i(1), l, 0, 1), f.AttributesOp(i(2), l, 0, 1)), l, 2, 2)
		return is(f.Resource(`exported`, f.QualifiedName(`notify`, l, 0, 1), es(b, b), l, 1, 1)) + is(f.ResourceDefaults(`virtual`, f.QualifiedReference(`A::B`, l, 0, 1), es(), l, 1, 1)) + is(f.Resource(`virtual`, s(`class`), es(b), l, 1, 1))
	case `maps`:
		x := pn.Map([]pn.Entry{pn.List([]pn.PN{pn.Literal(1), pn.Literal(2)}).WithName(`a`)})
		return pn.List(x.AsParameters()).String() + x.AsCall(`f`).String() + pn.List(pn.Map(nil).AsParameters()).String()
	case `heredocs`:
		v, ok := literal.ToLiteral(f.Heredoc(f.ConcatenatedString(es(f.String(`a`, l, 0, 1)), l, 0, 1), `x`, l, 0, 1))
		return fmt.Sprint(v, ok)
	case `overrides`:
		return is(f.ResourceOverride(`virtual`, f.Access(f.QualifiedReference(`A`, l, 0, 1), es(i(1)), l, 0, 1), es(), l, 1, 1))
	case `numerals`:
		r := ``
		for _, radix := range []int{8, 10, 16} {
			for _, v := range []int64{-1, 0, 8, 1 << 62} {
				e := f.Integer(v, radix, l, 0, 1).(parser.LiteralNumber)
				r += fmt.Sprintf("%s %v %v\n", e.ToPN(), e.Int(), e.Float())
			}
		}
		return r
	case `steps`:
		w := validator.NewWorkflowChecker()
		r := ``
		for _, n := range []string{`action`, `resource`, `stateHandler`, `workflow`, `other`, ``} {
			e := f.Step(`s`, parser.StepStyle(n), nil, nil, l, 0, 1)
			validator.Validate(w, e)
			r += e.ToPN().String() + ` ` + issues(w.Issues()) + "\n"
		}
		return r
	}
	return `no such program`
}

type kase struct {
	Op   string   `json:"op"`
	Opts string   `json:"opts,omitempty"`
	Src  string   `json:"src,omitempty"`
	Srcs []string `json:"srcs,omitempty"`
	Args []string `json:"args,omitempty"`
	Want string   `json:"want"`
}

func newParser(opts string) parser.ExpressionParser {
	var o []parser.Option
	for _, c := range opts {
		switch c {
		case 'b':
			o = append(o, parser.HandleBacktickStrings)
		case 'x':
			o = append(o, parser.HandleHexEscapes)
		case 't':
			o = append(o, parser.TasksEnabled)
		case 'w':
			o = append(o, parser.WorkflowEnabled)
		case 'e':
			o = append(o, parser.EppMode)
		}
	}
	return parser.CreateParser(o...)
}

func newValidator(opts string) validator.Validator {
	switch {
	case strings.Contains(opts, `w`):
		return validator.NewWorkflowChecker()
	case strings.Contains(opts, `t`):
		return validator.NewTasksChecker()
	case strings.Contains(opts, `0`):
		return validator.NewChecker(validator.StrictOff)
	case strings.Contains(opts, `1`):
		return validator.NewChecker(validator.StrictWarning)
	}
	return validator.NewChecker(validator.StrictError)
}

func issues(is []issue.Reported) string {
	r := ``
	for _, i := range is {
		r += i.Severity().String() + ` ` + i.Error() + "\n"
	}
	return r
}

func definitions(e parser.Expression) string {
	r := ``
	if p, ok := e.(*parser.Program); ok {
		for _, d := range p.Definitions() {
			r += d.ToPN().String() + "\n"
		}
	}
	return r
}

func (k *kase) run(cli string) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = fmt.Sprintf(`panic: %v`, r)
		}
	}()
	p := newParser(k.Opts)
	parse := func(src string) parser.Expression {
		e, err := p.Parse(`x.pp`, src, strings.Contains(k.Opts, `1x`))
		if err != nil {
			panic(err)
		}
		return e
	}
	switch k.Op {
	case `tree`:
		e, err := p.Parse(`x.pp`, k.Src, strings.Contains(k.Opts, `s`))
		if err != nil {
			return `error: ` + err.Error()
		}
		return e.ToPN().String()
	case `nodes`:
		e := parse(k.Src)
		out = fmt.Sprintf("%T %d %d %d:%d\n", e, e.ByteOffset(), e.ByteLength(), e.Line(), e.Pos())
		e.AllContents(nil, func(path []parser.Expression, e parser.Expression) {
			out += fmt.Sprintf("%d %T %d %d %d:%d\n", len(path), e, e.ByteOffset(), e.ByteLength(), e.Line(), e.Pos())
		})
		return
	case `paths`:
		// the ancestors of each node, as kept by a visitor, once all are visited
		type visit struct {
			path []parser.Expression
			e    parser.Expression
		}
		var vs []visit
		parse(k.Src).AllContents(nil, func(path []parser.Expression, e parser.Expression) {
			vs = append(vs, visit{append([]parser.Expression{}, path...), e})
		})
		for _, v := range vs {
			for _, a := range v.path {
				out += fmt.Sprintf(`%T@%d `, a, a.ByteOffset())
			}
			out += fmt.Sprintf("> %T@%d\n", v.e, v.e.ByteOffset())
		}
		return
	case `defs`:
		return definitions(parse(k.Src))
	case `issues`:
		v := newValidator(k.Opts)
		validator.Validate(v, parse(k.Src))
		return issues(v.Issues())
	case `json`:
		b := bytes.NewBufferString(``)
		pjson.ToJson(parse(k.Src).ToPN().ToData(), b)
		return strings.TrimSpace(b.String())
	case `literal`:
		v, ok := literal.ToLiteral(parse(k.Src).(*parser.Program).Body().(*parser.BlockExpression).Statements()[0])
		return fmt.Sprintf(`%T %v %v`, v, v, ok)
	case `parser-history`:
		// what each program says once all are parsed by the one parser
		var es []parser.Expression
		var rs []string
		for _, s := range k.Srcs {
			e, err := p.Parse(`x.pp`, s, false)
			es = append(es, e)
			rs = append(rs, fmt.Sprintf("%v", err))
		}
		for i, e := range es {
			out += rs[i] + "\n"
			if e != nil {
				out += e.ToPN().String() + "\n" + definitions(e)
			}
		}
		return
	case `parser-nodes`:
		// where the nodes of each program are once all are parsed by the one parser
		var es []parser.Expression
		for _, s := range k.Srcs {
			es = append(es, parse(s))
		}
		for _, e := range es {
			e.AllContents(nil, func(path []parser.Expression, e parser.Expression) {
				out += fmt.Sprintf("%T %d:%d\n", e, e.Line(), e.Pos())
			})
		}
		return
	case `unnamed`:
		// a source without a name after one that has a name
		p.Parse(`x.pp`, k.Srcs[0], false)
		_, err := p.Parse(``, k.Srcs[1], false)
		return fmt.Sprint(err)
	case `roots`:
		// every node of every program as a tree of its own, for one validator
		v := newValidator(k.Opts)
		for _, s := range k.Srcs {
			e := parse(s)
			validator.Validate(v, e)
			out += issues(v.Issues()) + "--\n"
			all(e, func(e parser.Expression) {
				w := newValidator(k.Opts)
				validator.Validate(w, e)
				validator.Validate(v, e)
				out += fmt.Sprintf("%T %v\n", e, issues(v.Issues()) == issues(w.Issues()))
			})
		}
		return
	case `recall`:
		// what there was before it was made something else
		all(parse(k.Src), func(e parser.Expression) {
			n := e.ToPN()
			was := n.String()
			n.AsCall(`other`)
			out += fmt.Sprintf("%s %v\n", was, n.String() == was)
		})
		return
	case `crowd-get`:
		// the keys of a hash as several users see them at the same time
		for _, s := range k.Srcs {
			var h *parser.LiteralHash
			all(parse(s), func(e parser.Expression) {
				if x, ok := e.(*parser.LiteralHash); ok {
					h = x
				}
			})
			seen := make(chan string)
			for u := 0; u < 8; u++ {
				go func() {
					r := ``
					for n := 0; n < 60; n++ {
						r += fmt.Sprint(h.Get(fmt.Sprintf(`k%d`, n)))
					}
					seen <- r
				}()
			}
			for u := 0; u < 8; u++ {
				if r := <-seen; u == 0 {
					out += r + "\n"
				} else if !strings.HasSuffix(out, r+"\n") {
					out += `otherwise: ` + r + "\n"
				}
			}
		}
		return
	case `crowd`:
		// each program as several users see it at the same time
		for _, s := range k.Srcs {
			e := parse(s)
			seen := make(chan string)
			for u := 0; u < 8; u++ {
				go func() {
					r := bytes.NewBufferString(``)
					for n := 0; n < 10; n++ {
						e.AllContents(nil, func(path []parser.Expression, e parser.Expression) {
							fmt.Fprintf(r, "%d:%d ", e.Line(), e.Pos())
						})
					}
					seen <- r.String()
				}()
			}
			for u := 0; u < 8; u++ {
				if r := <-seen; u == 0 {
					out += r + "\n"
				} else if !strings.HasSuffix(out, r+"\n") {
					out += `otherwise: ` + r + "\n"
				}
			}
		}
		return
	case `columns`:
		// lines of all trees, then columns of all trees
		var es []parser.Expression
		for _, s := range k.Srcs {
			es = append(es, parse(s))
		}
		for i := range es {
			var as, bs []parser.Expression
			es[i].AllContents(nil, func(path []parser.Expression, e parser.Expression) { as = append(as, e) })
			es[len(es)-1-i].AllContents(nil, func(path []parser.Expression, e parser.Expression) { bs = append(bs, e) })
			for _, a := range as {
				for _, b := range bs {
					a.Line()
					out += fmt.Sprintf("%d ", b.Pos())
				}
			}
		}
		return
	case `pv-history`:
		// what the combination of one parser and one validator says of each source
		pv := validator.NewParserValidator(p, newValidator(k.Opts))
		for _, s := range k.Srcs {
			e, r := pv.Parse(`x.pp`, s)
			out += fmt.Sprintf("%v %v\n", e != nil, r != nil)
			if r != nil {
				out += fmt.Sprintf("%v\n", r.Error()) + issues(r.Issues())
			}
		}
		return
	case `validator-history`:
		// what each validation said once all are done by the one validator
		v := newValidator(k.Opts)
		var is [][]issue.Reported
		for _, s := range k.Srcs {
			validator.Validate(v, parse(s))
			is = append(is, v.Issues())
		}
		for _, i := range is {
			out += issues(i) + "--\n"
		}
		return
	case `validators`:
		// one validator per option, all created before the first is used
		var vs []validator.Validator
		for _, o := range k.Args {
			vs = append(vs, newValidator(o))
		}
		for i, v := range vs {
			validator.Validate(v, parse(k.Src))
			out += k.Args[i] + "\n" + issues(v.Issues())
		}
		return
	case `observed`:
		// the same tree, looked at again and again
		e := parse(k.Src)
		look := func() string {
			r := e.ToPN().String() + "\n" + definitions(e)
			e.AllContents(nil, func(path []parser.Expression, e parser.Expression) {
				r += fmt.Sprintf("%T %d %d\n", e, e.ByteOffset(), e.ByteLength())
			})
			return r
		}
		first := look()
		literal.ToLiteral(e)
		validator.Validate(newValidator(k.Opts), e)
		return fmt.Sprintf(`same %v`, first == look())
	case `position`:
		l := parser.NewLocator(`x.pp`, k.Src)
		for i := 0; i <= len(k.Src); i++ {
			out += fmt.Sprintf("%d:%d ", l.LineForOffset(i), l.PosOnLine(i))
		}
		return
	case `say`:
		all(parse(k.Src), func(e parser.Expression) {
			out += e.Label()
			if n, ok := e.(parser.NameExpression); ok {
				out += ` name ` + n.Name()
			}
			if n, ok := e.(parser.NamedDefinition); ok {
				out += ` named ` + n.Name()
			}
			if n, ok := e.(parser.LiteralNumber); ok {
				out += fmt.Sprintf(` %v %v`, n.Int(), n.Float())
			}
			if n, ok := e.(parser.LiteralValue); ok {
				out += fmt.Sprintf(` %v`, n.Value())
			}
			_, d := e.(parser.Definition)
			_, r := e.(parser.AbstractResource)
			_, q := e.(parser.QueryExpression)
			_, u := e.(parser.UnaryExpression)
			out += fmt.Sprintf(" %v %v %v %v\n", d, r, q, u)
		})
		return
	case `get`:
		h := parse(k.Src).(*parser.Program).Body().(*parser.BlockExpression).Statements()[0].(*parser.AssignmentExpression).Rhs().(*parser.LiteralHash)
		for _, a := range k.Args {
			out += a + `: `
			if v := h.Get(a); v != nil {
				out += v.String()
			}
			out += "\n"
		}
		return
	case `copies`:
		all(parse(k.Src), func(e parser.Expression) {
			switch e := e.(type) {
			case *parser.QualifiedReference:
				c := e.WithName(`Other::Name`)
				out += fmt.Sprintf("%s %s %s %s %d\n", e.Name(), e.DowncasedName(), c.Name(), c.DowncasedName(), c.ByteOffset())
			case *parser.CallNamedFunctionExpression:
				c := e.WithFunctor(e)
				out += fmt.Sprintf("%s\n%s\n", e.ToPN(), c.ToPN())
			}
		})
		return
	case `demote`:
		// two validators, one of which is changed before each validation
		v, o := newValidator(k.Opts), newValidator(k.Opts)
		for _, a := range k.Args {
			cs := strings.SplitN(a, `=`, 2)
			out += a + ` ` + try(func() {
				v.(interface {
					Demote(code issue.Code, severity issue.Severity)
				}).Demote(issue.Code(cs[0]), map[string]issue.Severity{`ignore`: issue.SeverityIgnore, `deprecation`: issue.SeverityDeprecation, `warning`: issue.SeverityWarning, `error`: issue.SeverityError}[cs[1]])
			}) + "\n"
			validator.Validate(v, parse(k.Src))
			validator.Validate(o, parse(k.Src))
			out += issues(v.Issues()) + "--\n" + issues(o.Issues())
		}
		return
	case `strict`:
		for _, a := range k.Args {
			a := a
			out += a + ` ` + try(func() { out += validator.Strict(a).String() })
		}
		return
	case `containers`:
		v := &containers{}
		validator.Validate(v, parse(k.Src))
		return v.out
	case `program`:
		return program(k.Src)
	case `lexer`:
		// n: the next token; a number: move there; =: refuse the end as the current token
		l := parser.NewSimpleLexer(`x.pp`, k.Src)
		for _, a := range k.Args {
			at := 0
			out += a + ` ` + try(func() {
				switch a {
				case `n`:
					t := l.NextToken()
					out += fmt.Sprintf("%v %v ", parser.IsKeywordToken(t), t == l.CurrentToken())
					l.SyntaxError()
				case `=`:
					l.AssertToken(0)
				default:
					fmt.Sscan(a, &at)
					l.SetPos(at)
				}
			}) + "\n"
		}
		return
	case `reader`:
		// n: next, p: peek, a: advance by one, a number: move there, f: the text since then
		r := parser.NewStringReader(k.Src)
		since := 0
		for _, a := range k.Args {
			out += a + ` ` + try(func() {
				switch a {
				case `n`:
					c, at := r.Next()
					if c != 0 {
						out += fmt.Sprint(c, at)
					}
				case `p`:
					c, n := r.Peek()
					out += fmt.Sprint(c, n)
				case `a`:
					r.Advance(1)
				case `f`:
					out += r.From(since)
				default:
					fmt.Sscan(a, &since)
					r.SetPos(since)
				}
			}) + fmt.Sprintf(" at %d\n", r.Pos())
		}
		return
	case `cli`:
		dir, err := ioutil.TempDir(``, `demo`)
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		name := `x.pp`
		if strings.Contains(k.Opts, `e`) {
			name = `x.epp`
		}
		if strings.Contains(k.Opts, `E`) {
			name = `x.EPP`
		}
		if err = ioutil.WriteFile(filepath.Join(dir, name), []byte(k.Src), 0600); err != nil {
			panic(err)
		}
		cmd := exec.Command(cli, append(k.Args, name)...)
		cmd.Dir = dir
		var o, e bytes.Buffer
		cmd.Stdout, cmd.Stderr = &o, &e
		cmd.Run()
		return fmt.Sprintf("%d\n%s\n%s", cmd.ProcessState.ExitCode(), o.String(), e.String())
	}
	panic(`no such case: ` + k.Op)
}

func main() {
	data, err := ioutil.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var ks []*kase
	if err = json.Unmarshal(data, &ks); err != nil {
		panic(err)
	}
	if len(os.Args) > 3 {
		// record
		for _, k := range ks {
			k.Want = k.run(os.Args[2])
		}
		b, _ := json.MarshalIndent(ks, ``, ` `)
		fmt.Println(string(b))
		return
	}
	bad := 0
	for _, k := range ks {
		if got := k.run(os.Args[2]); got != k.Want {
			bad++
			fmt.Printf("%s %q %q\n  should give: %s\n  gives:       %s\n", k.Op, k.Src, k.Srcs, k.Want, got)
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
}
