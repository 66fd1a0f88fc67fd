package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"

	"github.com/lyraproj/issue/issue"
	pjson "github.com/lyraproj/puppet-parser/json"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/pn"
	"github.com/lyraproj/puppet-parser/validator"
)

// A request: a source, the mode to parse it with, and the facets of the outcome to observe.
//
// Modes:  e EPP, h hex escapes, b backtick strings, t tasks, w workflow, s single expression
// Facets: see observe
type request struct {
	I int    `json:"i"`
	S string `json:"s"` // base64
	M string `json:"m"`
	F string `json:"f"`
	D bool   `json:"d"` // digests of the facets instead of the facets
	// sessions
	Steps []step `json:"steps,omitempty"`
	// concurrent lanes of steps
	Lanes [][]step `json:"lanes,omitempty"`
	// what is done before them
	First []step `json:"first,omitempty"`
	// values of PN to make
	PN []pnOp `json:"pn,omitempty"`
	// nodes to make
	Tree []treeOp `json:"tree,omitempty"`
	// moves of a reader and a lexer
	Cursor []cursorOp `json:"cursor,omitempty"`
}

const fileName = "t.pp"

// fileOf is the name of the file that the source is said to be from
func fileOf(src string) string {
	n := len(src)
	if n > 0 {
		n += int(src[0]) + int(src[n/2])
	}
	names := []string{fileName, "t.pp", "", "modules/a/manifests/init.pp", "a b/日本.epp", "C:\\x\\y.yaml", "t.pp:1", "<%= a %>", "%s\n"}
	return names[n%len(names)]
}

// newParser uses the named combination of options for the modes where there is one
func newParser(m string) parser.ExpressionParser {
	if m == "hb" {
		return parser.CreatePspecParser()
	}
	return parser.CreateParser(options(m)...)
}

func options(m string) []parser.Option {
	os := []parser.Option{}
	for _, c := range m {
		switch c {
		case 'e':
			os = append(os, parser.EppMode)
		case 'h':
			os = append(os, parser.HandleHexEscapes)
		case 'b':
			os = append(os, parser.HandleBacktickStrings)
		case 't':
			os = append(os, parser.TasksEnabled)
		case 'w':
			os = append(os, parser.WorkflowEnabled)
		}
	}
	return os
}

// guard turns a panic into an observation
func guard(f func() string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			m := fmt.Sprintf("%v", r)
			if i := strings.IndexByte(m, '\n'); i >= 0 {
				m = m[:i]
			}
			s = tuple(str("CRASH"), message(m))
		}
	}()
	return f()
}

type outcome struct {
	expr  parser.Expression
	err   error
	crash string
}

func parse(p parser.ExpressionParser, file, src string, single bool) (o outcome) {
	defer func() {
		if r := recover(); r != nil {
			o.crash = tuple(str("CRASH"), message(fmt.Sprintf("%v", r)))
		}
	}()
	o.expr, o.err = p.Parse(file, src, single)
	if o.err == nil && o.expr == nil {
		o.crash = str("NOTHING")
	}
	return
}

func stripLocation(m, file string, loc issue.Location) string {
	return strings.TrimSuffix(m, " "+issue.LocationString(loc))
}

func checkers(f byte) validator.Validator {
	switch f {
	case '0':
		return validator.NewChecker(validator.StrictOff)
	case '1':
		return validator.NewChecker(validator.StrictWarning)
	case '2':
		return validator.NewChecker(validator.StrictError)
	case '3':
		return validator.NewTasksChecker()
	case 'o':
		return &own{}
	default:
		return validator.NewWorkflowChecker()
	}
}

func observe(o outcome, src string, f byte) string {
	ok := o.err == nil
	switch f {
	case 'K':
		return tokens(src)
	case 'G':
		return lines(src)
	}
	if o.crash != "" {
		return o.crash
	}
	switch f {
	case 'A': // accepted, or the code of the error
		if !ok {
			return parseCode(o.err)
		}
		return str("ok")
	case 'S': // structure of the tree, or the code of the error
		if !ok {
			return parseCode(o.err)
		}
		return structure(o.expr)
	case 'E': // error details
		if ok {
			return "<<>>"
		}
		return parseError(fileOf(src), o.err)
	case 'M': // message of the error
		if ok {
			return "<<>>"
		}
		if r, is := o.err.(issue.Reported); is {
			return message(stripLocation(o.err.Error(), fileOf(src), r.Location()))
		}
		return message(o.err.Error())
	}
	if !ok {
		return "<<>>"
	}
	switch f {
	case 'P':
		return positions(fileOf(src), src, o.expr)
	case 'T':
		return traversal(o.expr)
	case 'D':
		return definitions(o.expr)
	case 'C':
		return said(o.expr)
	case 'N':
		return pnValue(o.expr.ToPN().ToData())
	case 'F':
		b := bytes.NewBufferString("")
		o.expr.ToPN().Format(b)
		if o.expr.ToPN().String() != b.String() {
			return str("String() differs from Format()")
		}
		return text(b.String())
	case 'J':
		b := bytes.NewBufferString("")
		pjson.ToJson(o.expr.ToPN().ToData(), b)
		return text(strings.TrimSuffix(b.String(), "\n"))
	case 'L':
		return literals(o.expr)
	case '0', '1', '2', '3', '4':
		v := checkers(f)
		validator.Validate(v, o.expr)
		return issues(fileOf(src), v.Issues())
	}
	return str("no such facet")
}

func tokens(src string) (s string) {
	es := []string{}
	l := parser.NewSimpleLexer(fileOf(src), src)
	name := func() (n string) {
		defer func() {
			r := recover().(issue.Reported)
			n = tuple(argument(r.Argument("token")), num(r.Location().Line()), num(r.Location().Pos()))
		}()
		l.SyntaxError()
		return "never"
	}
	defer func() {
		if r := recover(); r != nil {
			if err, ok := r.(error); ok {
				if rep, ok := err.(issue.Reported); ok {
					es = append(es, tuple(str(string(rep.Code())), num(rep.Location().Line()), num(rep.Location().Pos())))
					s = tuple(es...)
					return
				}
				m := parseError(fileOf(src), err)
				if strings.HasPrefix(m, `<<"NUL", `) || strings.HasPrefix(m, `<<"UNICODE", `) {
					es = append(es, strings.Replace(m, `, <<>>>>`, `>>`, 1))
					s = tuple(es...)
					return
				}
			}
			panic(r)
		}
	}()
	for i := 0; i < 10000; i++ {
		t := l.NextToken()
		n := name()
		if parser.IsKeywordToken(t) {
			n = strings.TrimSuffix(n, ">>") + `, "keyword">>`
		}
		if t != l.CurrentToken() {
			n = str("NextToken() differs from CurrentToken()")
		}
		l.AssertToken(t)
		es = append(es, n)
		if strings.HasPrefix(n, `<<"EOF", `) {
			// there is nothing but the end from the end on
			l = parser.NewSimpleLexer(fileOf(src), src)
			l.SetPos(len(src))
			l.NextToken()
			if name() != n {
				es = append(es, str("SetPos"))
			}
			break
		}
	}
	return tuple(es...)
}

// lines renders <<line, position>> of each offset
func lines(src string) string {
	l := parser.NewLocator(fileOf(src), src)
	es := make([]string, 0, len(src)+1)
	for i := 0; i <= len(src); i++ {
		if i < len(src) && src[i]&0xC0 == 0x80 {
			continue
		}
		es = append(es, tuple(num(l.LineForOffset(i)), num(l.PosOnLine(i))))
	}
	if l.File() != fileOf(src) || l.String() != src {
		es = append(es, str("FILE"))
	}
	return tuple(es...)
}

func facets(src, m, fs string) map[string]string {
	res := map[string]string{}
	single := strings.IndexByte(m, 's') >= 0
	o := outcome{}
	if strings.Trim(fs, "KG") != "" {
		o = parse(newParser(m), fileOf(src), src, single)
	}
	before := ""
	for i := 0; i < len(fs); i++ {
		f := fs[i]
		if f == 'U' { // observers leave the tree as it is
			continue
		}
		res[string(f)] = guard(func() string { return observe(o, src, f) })
	}
	if strings.IndexByte(fs, 'U') >= 0 {
		res["U"] = guard(func() string {
			if o.crash != "" || o.err != nil {
				return "TRUE"
			}
			fresh := parse(newParser(m), fileOf(src), src, single)
			before = observe(fresh, src, 'S') + observe(fresh, src, 'P') + observe(fresh, src, 'D')
			for _, f := range "NTL01234N" {
				if a, b := observe(fresh, src, byte(f)), observe(o, src, byte(f)); a != b {
					return "FALSE"
				}
			}
			return boolean(before == observe(fresh, src, 'S')+observe(fresh, src, 'P')+observe(fresh, src, 'D'))
		})
	}
	return res
}

var current int64 = -1
var started int64

func main() {
	debug.SetMaxStack(512 << 20)
	debug.SetMemoryLimit(6 << 30)
	limit := 10 * time.Second
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			c, s := atomic.LoadInt64(&current), atomic.LoadInt64(&started)
			if c >= 0 && time.Now().UnixNano()-s > int64(limit) {
				fmt.Fprintf(os.Stderr, "TIMEOUT %d\n", c)
				os.Exit(7)
			}
		}
	}()
	_ = pn.ToString
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	defer out.Flush()
	enc := json.NewEncoder(out)
	enc.SetEscapeHTML(false)
	flush := len(os.Args) > 1 && os.Args[1] == "-f"
	for {
		line, err := in.ReadBytes('\n')
		if len(bytes.TrimSpace(line)) > 0 {
			r := request{}
			if e := json.Unmarshal(line, &r); e != nil {
				fmt.Fprintln(os.Stderr, "bad request", e)
				os.Exit(2)
			}
			atomic.StoreInt64(&started, time.Now().UnixNano())
			atomic.StoreInt64(&current, int64(r.I))
			var res map[string]string
			if r.Lanes != nil {
				res = lanes(r.First, r.Lanes)
			} else if r.PN != nil {
				res = pnBuild(r.PN)
			} else if r.Tree != nil {
				b, _ := base64.StdEncoding.DecodeString(r.S)
				res = treeBuild(string(b), r.Tree, r.F)
			} else if r.Cursor != nil {
				b, _ := base64.StdEncoding.DecodeString(r.S)
				res = cursor(string(b), r.Cursor)
			} else if r.Steps != nil {
				res = session(r.Steps)
			} else {
				src, e := base64.StdEncoding.DecodeString(r.S)
				if e != nil {
					fmt.Fprintln(os.Stderr, "bad source", e)
					os.Exit(2)
				}
				res = facets(string(src), r.M, r.F)
				if r.D {
					for k, v := range res {
						d := sha256.Sum256([]byte(v))
						res[k] = hex.EncodeToString(d[:3])
					}
				}
			}
			atomic.StoreInt64(&current, -1)
			res["i"] = fmt.Sprint(r.I)
			if e := enc.Encode(res); e != nil {
				os.Exit(2)
			}
			if flush {
				out.Flush()
			}
		}
		if err != nil {
			break
		}
	}
}
