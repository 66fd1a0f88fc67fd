package main

import (
	"encoding/base64"
	"fmt"
	"strings"
	"sync"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/validator"
)

// A step of a session with parsers, validators, and trees that live from step to step
//
//	new     P is a new parser with options M
//	parse   T is the outcome of parsing S with P
//	vnew    V is a new validator of sort M (0..4, or o for one that users make)
//	demote  V is to take issues with code M as severe as F is long
//	part    T is node F of tree P, with all below it
//	walk    T as a validator that users make sees it
//	once    validate T with what the package has for sort M
//	strict  what M is as a strictness
//	check   validate T with V
//	issues  what V has
//	keep    T is the list of issues that V has now
//	kept    what is in the list T of issues
//	clear   V forgets
//	pv      W is a ParserValidator of P and V
//	pvparse parse and validate S with W. V is the list of issues of the result
//	look    facets F of T
type step struct {
	Op string `json:"op"`
	P  string `json:"p"`
	T  string `json:"t"`
	V  string `json:"v"`
	M  string `json:"m"`
	S  string `json:"s"`
	F  string `json:"f"`
}

type world struct {
	ps   map[string]parser.ExpressionParser
	ts   map[string]outcome
	srcs map[string]string
	vs   map[string]validator.Validator
	ws   map[string]validator.ParserValidator
	ks   map[string][]issue.Reported
	// the files that the issues of validators, and those in lists, are said to be in
	vf, kf map[string]string
	// the validators of ParserValidators
	wv map[string]string
}

func (w *world) do(s step) string {
	src := func() string {
		b, err := base64.StdEncoding.DecodeString(s.S)
		if err != nil {
			panic(err)
		}
		return string(b)
	}
	switch s.Op {
	case "new":
		w.ps[s.P] = newParser(s.M)
		return "TRUE"
	case "parse":
		t := src()
		o := parse(w.ps[s.P], fileOf(t), t, strings.IndexByte(s.M, 's') >= 0)
		w.ts[s.T], w.srcs[s.T] = o, t
		return w.look(s.T, s.F)
	case "part":
		// the node of tree P with number F, a tree of its own
		ns := []parser.Expression{w.ts[s.P].expr}
		ns[0].AllContents(nil, func(path []parser.Expression, e parser.Expression) { ns = append(ns, e) })
		w.ts[s.T], w.srcs[s.T] = outcome{expr: ns[len(s.F)%len(ns)]}, w.srcs[s.P]
		return "TRUE"
	case "look":
		return w.look(s.T, s.F)
	case "vnew":
		w.vs[s.V] = checkers(s.M[0])
		return "TRUE"
	case "demote":
		return demote(w.vs[s.V], s.M, len(s.F))
	case "walk":
		o := &own{}
		validator.Validate(o, w.ts[s.T].expr)
		return tuple(o.walk...)
	case "once":
		return issues(fileOf(w.srcs[s.T]), once(s.M, w.ts[s.T].expr).Issues())
	case "strict":
		return strict(s.M)
	case "check":
		w.vf[s.V] = fileOf(w.srcs[s.T])
		validator.Validate(w.vs[s.V], w.ts[s.T].expr)
		return issues(w.vf[s.V], w.vs[s.V].Issues())
	case "issues":
		return issues(w.vf[s.V], w.vs[s.V].Issues())
	case "keep":
		w.ks[s.T], w.kf[s.T] = w.vs[s.V].Issues(), w.vf[s.V]
		return issues(w.kf[s.T], w.ks[s.T])
	case "kept":
		return issues(w.kf[s.T], w.ks[s.T])
	case "clear":
		w.vs[s.V].Clear()
		return issues(w.vf[s.V], w.vs[s.V].Issues())
	case "pv":
		w.wv[s.T] = s.V
		w.ws[s.T] = validator.NewParserValidator(w.ps[s.P], w.vs[s.V])
		return "TRUE"
	case "pvparse":
		file := fileOf(src())
		expr, result := w.ws[s.T].Parse(file, src())
		st, is, e := `"none"`, []issue.Reported{}, false
		if expr != nil {
			st = structure(expr)
			w.vf[w.wv[s.T]] = file
		}
		if result != nil {
			is, e = result.Issues(), result.Error()
		}
		w.ks[s.V], w.kf[s.V] = is, file
		return tuple(st, boolean(result != nil), boolean(e), issues(file, is))
	}
	return str("no such step")
}

func (w *world) look(t, fs string) string {
	es := []string{}
	for i := 0; i < len(fs); i++ {
		f := fs[i]
		es = append(es, guard(func() string { return observe(w.ts[t], w.srcs[t], f) }))
	}
	return tuple(es...)
}

func newWorld() *world {
	return &world{map[string]parser.ExpressionParser{}, map[string]outcome{}, map[string]string{}, map[string]validator.Validator{}, map[string]validator.ParserValidator{}, map[string][]issue.Reported{}, map[string]string{}, map[string]string{}, map[string]string{}}
}

func session(steps []step) map[string]string {
	return newWorld().session(steps)
}

func (w *world) session(steps []step) map[string]string {
	res := map[string]string{}
	for i, s := range steps {
		s := s
		res[fmt.Sprint(i)] = guard(func() string { return w.do(s) })
	}
	return res
}

// lanes runs several sessions at once. The trees of what is done first are known to all of them.
func lanes(first []step, ls [][]step) map[string]string {
	res := map[string]string{}
	shared := newWorld()
	for k, v := range shared.session(first) {
		res["first."+k] = v
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	start := make(chan struct{})
	for l, steps := range ls {
		wg.Add(1)
		go func(l int, steps []step) {
			defer wg.Done()
			<-start
			w := newWorld()
			for k, o := range shared.ts {
				w.ts[k], w.srcs[k] = o, shared.srcs[k]
			}
			r := w.session(steps)
			mu.Lock()
			defer mu.Unlock()
			for k, v := range r {
				res[fmt.Sprintf("%d.%s", l, k)] = v
			}
		}(l, steps)
	}
	close(start)
	wg.Wait()
	return res
}
