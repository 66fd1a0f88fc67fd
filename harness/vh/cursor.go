package main

import (
	"strings"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"
)

type cursorOp struct {
	Op string `json:"op"`
	N  int    `json:"n"`
}

// cursor moves a reader and a lexer over a text
func cursor(src string, ops []cursorOp) map[string]string {
	r := parser.NewStringReader(src)
	l := parser.NewSimpleLexer(fileName, src)
	read := []int{}
	stuck := false
	step := func(o cursorOp) (out string) {
		out = "<<>>"
		defer func() {
			if x := recover(); x != nil {
				err, ok := x.(error)
				if !ok {
					panic(x)
				}
				out = parseError(fileName, err)
				stuck = stuck || o.Op == "token"
			}
		}()
		where := func() (s string) {
			defer func() {
				x, ok := recover().(issue.Reported)
				if !ok || string(x.Code()) != "LEX_UNEXPECTED_TOKEN" {
					s = str("SyntaxError")
					return
				}
				s = tuple(argument(x.Argument("token")), num(x.Location().Line()), num(x.Location().Pos()))
				if parser.IsKeywordToken(l.CurrentToken()) {
					s = strings.TrimSuffix(s, ">>") + `, "keyword">>`
				}
			}()
			l.SyntaxError()
			return ""
		}
		if stuck {
			switch o.Op {
			case "move", "token", "current", "assert":
				return tuple(str("stuck"))
			}
		}
		switch o.Op {
		case "next":
			c, at := r.Next()
			if c == 0 {
				return tuple("0")
			}
			return tuple(num(int(c)), num(at))
		case "peek":
			c, n := r.Peek()
			return tuple(num(int(c)), num(n))
		case "advance":
			n := 0
			func() {
				defer func() { recover() }()
				_, n = r.Peek()
			}()
			r.Advance(n)
		case "at":
			return tuple(num(r.Pos()))
		case "set":
			r.SetPos(o.N)
		case "from":
			whole := func(i int) bool { return i == len(src) || i < len(src) && src[i]&0xC0 != 0x80 }
			if r.Pos() > len(src) || o.N > r.Pos() || !whole(o.N) || !whole(r.Pos()) {
				return tuple(str("none"))
			}
			return codes(r.From(o.N))
		case "move":
			l.SetPos(o.N)
		case "token":
			t := l.NextToken()
			read = append(read, t)
			if t != l.CurrentToken() {
				return str("NextToken() differs from CurrentToken()")
			}
			return where()
		case "current":
			return where()
		case "assert":
			t := 0
			if o.N <= len(read) {
				t = read[o.N-1]
			}
			l.AssertToken(t)
		}
		return
	}
	es := make([]string, len(ops))
	for i, o := range ops {
		o := o
		es[i] = guard(func() string { return step(o) })
	}
	if r.Text() != src {
		es = append(es, str("TEXT"))
	}
	return map[string]string{"R": tuple(es...)}
}
