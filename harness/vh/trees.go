package main

import (
	"fmt"
	"strconv"

	"github.com/lyraproj/puppet-parser/parser"
)

// A treeOp makes a node at O with length N by the method M of the factory, with the attributes V and the nodes C made before
type treeOp struct {
	M string   `json:"m"`
	O int      `json:"o"`
	N int      `json:"n"`
	V []string `json:"v"`
	C [][]int  `json:"c"`
}

// treeBuild makes nodes, and observes the last of them, and in the end what all of them are
func treeBuild(src string, ops []treeOp, fs string) map[string]string {
	l := parser.NewLocator(fileOf(src), src)
	heap := []parser.Expression{}
	res := map[string]string{}
	crash := guard(func() string {
		for _, o := range ops {
			heap = append(heap, treeNode(o, heap, l))
		}
		return ""
	})
	if crash != "" {
		res["!"] = crash
		return res
	}
	x := outcome{expr: heap[len(heap)-1]}
	for i := 0; i < len(fs); i++ {
		f := fs[i]
		res[string(f)] = guard(func() string { return observe(x, src, f) })
	}
	res["H"] = guard(func() string {
		es := make([]string, len(heap))
		for i, e := range heap {
			es[i] = structure(e)
		}
		return tuple(es...)
	})
	return res
}

func treeNode(o treeOp, heap []parser.Expression, l *parser.Locator) parser.Expression {
	f := parser.DefaultFactory()
	s := func(i int) string { return o.V[i] }
	t := func(i int) bool { return o.V[i] == "true" }
	i := func(i int) int64 {
		v, _ := strconv.ParseInt(o.V[i], 10, 64)
		return v
	}
	d := func(i int) float64 {
		v, _ := strconv.ParseFloat(o.V[i], 64)
		return v
	}
	es := func(i int) []parser.Expression {
		if len(o.C[i]) == 0 {
			return nil
		}
		r := make([]parser.Expression, len(o.C[i]))
		for j, x := range o.C[i] {
			r[j] = heap[x]
		}
		return r
	}
	e := func(i int) parser.Expression {
		if len(o.C[i]) == 0 {
			return nil
		}
		return heap[o.C[i][0]]
	}
	switch o.M {
	case "Access":
		return f.Access(e(0), es(1), l, o.O, o.N)
	case "Step":
		return f.Step(s(0), parser.StepStyle(s(1)), e(0), e(1), l, o.O, o.N)
	case "And":
		return f.And(e(0), e(1), l, o.O, o.N)
	case "Application":
		return f.Application(s(0), es(0), e(1), l, o.O, o.N)
	case "Array":
		return f.Array(es(0), l, o.O, o.N)
	case "Arithmetic":
		return f.Arithmetic(s(0), e(0), e(1), l, o.O, o.N)
	case "Assignment":
		return f.Assignment(s(0), e(0), e(1), l, o.O, o.N)
	case "AttributeOp":
		return f.AttributeOp(s(0), s(1), e(0), l, o.O, o.N)
	case "AttributesOp":
		return f.AttributesOp(e(0), l, o.O, o.N)
	case "Block":
		return f.Block(es(0), l, o.O, o.N)
	case "Boolean":
		return f.Boolean(t(0), l, o.O, o.N)
	case "CallMethod":
		return f.CallMethod(e(0), es(1), e(2), l, o.O, o.N)
	case "CallNamed":
		return f.CallNamed(e(0), t(0), es(1), e(2), l, o.O, o.N)
	case "CapabilityMapping":
		return f.CapabilityMapping(s(0), e(0), s(1), es(1), l, o.O, o.N)
	case "Case":
		return f.Case(e(0), es(1), l, o.O, o.N)
	case "Class":
		return f.Class(s(0), es(0), s(1), e(1), l, o.O, o.N)
	case "Collect":
		return f.Collect(e(0), e(1), es(2), l, o.O, o.N)
	case "Comparison":
		return f.Comparison(s(0), e(0), e(1), l, o.O, o.N)
	case "ConcatenatedString":
		return f.ConcatenatedString(es(0), l, o.O, o.N)
	case "Default":
		return f.Default(l, o.O, o.N)
	case "Definition":
		return f.Definition(s(0), es(0), e(1), l, o.O, o.N)
	case "EppExpression":
		return f.EppExpression(es(0), e(1), l, o.O, o.N)
	case "ExportedQuery":
		return f.ExportedQuery(e(0), l, o.O, o.N)
	case "Float":
		return f.Float(d(0), l, o.O, o.N)
	case "Function":
		return f.Function(s(0), es(0), e(1), e(2), l, o.O, o.N)
	case "Hash":
		return f.Hash(es(0), l, o.O, o.N)
	case "Heredoc":
		return f.Heredoc(e(0), s(0), l, o.O, o.N)
	case "If":
		return f.If(e(0), e(1), e(2), l, o.O, o.N)
	case "In":
		return f.In(e(0), e(1), l, o.O, o.N)
	case "Integer":
		return f.Integer(i(0), int(i(1)), l, o.O, o.N)
	case "KeyedEntry":
		return f.KeyedEntry(e(0), e(1), l, o.O, o.N)
	case "Lambda":
		return f.Lambda(es(0), e(1), e(2), l, o.O, o.N)
	case "Match":
		return f.Match(s(0), e(0), e(1), l, o.O, o.N)
	case "NamedAccess":
		return f.NamedAccess(e(0), e(1), l, o.O, o.N)
	case "Negate":
		return f.Negate(e(0), l, o.O, o.N)
	case "Node":
		return f.Node(es(0), e(1), e(2), l, o.O, o.N)
	case "Nop":
		return f.Nop(l, o.O, o.N)
	case "Not":
		return f.Not(e(0), l, o.O, o.N)
	case "Or":
		return f.Or(e(0), e(1), l, o.O, o.N)
	case "Parameter":
		return f.Parameter(s(0), e(0), e(1), t(1), l, o.O, o.N)
	case "Parenthesized":
		return f.Parenthesized(e(0), l, o.O, o.N)
	case "Plan":
		return f.Plan(s(0), es(0), e(1), e(2), l, o.O, o.N)
	case "Program":
		return f.Program(e(0), nil, l, o.O, o.N)
	case "QualifiedName":
		return f.QualifiedName(s(0), l, o.O, o.N)
	case "QualifiedReference":
		return f.QualifiedReference(s(0), l, o.O, o.N)
	case "Regexp":
		return f.Regexp(s(0), l, o.O, o.N)
	case "RelOp":
		return f.RelOp(s(0), e(0), e(1), l, o.O, o.N)
	case "RenderExpression":
		return f.RenderExpression(e(0), l, o.O, o.N)
	case "RenderString":
		return f.RenderString(s(0), l, o.O, o.N)
	case "ReservedWord":
		return f.ReservedWord(s(0), t(1), l, o.O, o.N)
	case "Resource":
		return f.Resource(parser.ResourceForm(s(0)), e(0), es(1), l, o.O, o.N)
	case "ResourceBody":
		return f.ResourceBody(e(0), es(1), l, o.O, o.N)
	case "ResourceDefaults":
		return f.ResourceDefaults(parser.ResourceForm(s(0)), e(0), es(1), l, o.O, o.N)
	case "ResourceOverride":
		return f.ResourceOverride(parser.ResourceForm(s(0)), e(0), es(1), l, o.O, o.N)
	case "Select":
		return f.Select(e(0), es(1), l, o.O, o.N)
	case "Selector":
		return f.Selector(e(0), e(1), l, o.O, o.N)
	case "Site":
		return f.Site(e(0), l, o.O, o.N)
	case "String":
		return f.String(s(0), l, o.O, o.N)
	case "Text":
		return f.Text(e(0), l, o.O, o.N)
	case "TypeAlias":
		return f.TypeAlias(s(0), e(0), l, o.O, o.N)
	case "TypeDefinition":
		return f.TypeDefinition(s(0), s(1), e(0), l, o.O, o.N)
	case "TypeMapping":
		return f.TypeMapping(e(0), e(1), l, o.O, o.N)
	case "Undef":
		return f.Undef(l, o.O, o.N)
	case "Unfold":
		return f.Unfold(e(0), l, o.O, o.N)
	case "Unless":
		return f.Unless(e(0), e(1), e(2), l, o.O, o.N)
	case "Variable":
		return f.Variable(e(0), l, o.O, o.N)
	case "VirtualQuery":
		return f.VirtualQuery(e(0), l, o.O, o.N)
	case "When":
		return f.When(es(0), e(1), l, o.O, o.N)
	}
	panic(fmt.Sprintf("no such method %s", o.M))
}
