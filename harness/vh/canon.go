// Package main observes the parser through its public API and writes what it
// sees in the notation of TLA+ values, as TLC prints them.
package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/literal"
	"github.com/lyraproj/puppet-parser/parser"
)

// ---------------------------------------------------------------- values

func tuple(es ...string) string { return "<<" + strings.Join(es, ", ") + ">>" }

func str(s string) string {
	b := strings.Builder{}
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '"', '\\':
			b.WriteByte('\\')
		}
		b.WriteByte(s[i])
	}
	b.WriteByte('"')
	return b.String()
}

func boolean(v bool) string {
	if v {
		return "TRUE"
	}
	return "FALSE"
}

func num(i int) string { return strconv.Itoa(i) }

// codes renders a text as code points, bytes that are not text are negative
func codes(s string) string {
	es := make([]string, 0, len(s))
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n <= 1 {
			es = append(es, num(-int(s[i])))
			i++
			continue
		}
		es = append(es, num(int(r)))
		i += n
	}
	return tuple(es...)
}

func printable(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < 32 || s[i] > 126 {
			return false
		}
	}
	return true
}

// text is a string when it is printable ASCII, and code points otherwise
func text(s string) string {
	if printable(s) {
		return str(s)
	}
	return codes(s)
}

// message makes a text printable. Every other character is a question mark
func message(s string) string {
	b := strings.Builder{}
	for _, r := range s {
		if r < 32 || r > 126 {
			r = '?'
		}
		b.WriteRune(r)
	}
	return str(b.String())
}

func float(f float64) string {
	s := strconv.FormatFloat(f, 'e', -1, 64)
	neg := ""
	if s[0] == '-' {
		neg, s = "-", s[1:]
	}
	e := strings.IndexByte(s, 'e')
	if e < 0 {
		return str(neg + s)
	}
	x, _ := strconv.Atoi(s[e+1:])
	d := strings.TrimRight(strings.Replace(s[:e], ".", "", 1), "0")
	if d == "" {
		return str(neg + "0e0")
	}
	return str(neg + d + "e" + num(x))
}

// ----------------------------------------------------------------- trees

type node struct {
	k string
	v []string
	c [][]parser.Expression
	e parser.Expression
}

func opt(e parser.Expression) []parser.Expression {
	if e == nil {
		return nil
	}
	return []parser.Expression{e}
}

func one(e parser.Expression) []parser.Expression { return []parser.Expression{e} }

type exprs = []parser.Expression

// expand tells the kind, the attributes, and the contained expressions of an expression as given by its
// accessors.
func expand(e parser.Expression) *node {
	n := &node{e: e}
	set := func(k string, v []string, c ...[]parser.Expression) { n.k, n.v, n.c = k, v, c }
	bin := func(k string, x parser.BinaryExpression, v ...string) { set(k, v, one(x.Lhs()), one(x.Rhs())) }
	un := func(k string, x parser.UnaryExpression) { set(k, nil, one(x.Expr())) }
	call := func(k string, x parser.CallExpression, rval bool) {
		set(k, []string{boolean(rval)}, one(x.Functor()), x.Arguments(), opt(x.Lambda()))
	}
	switch x := e.(type) {
	case *parser.AccessExpression:
		set("AccessExpression", nil, one(x.Operand()), x.Keys())
	case *parser.AndExpression:
		bin("AndExpression", x)
	case *parser.Application:
		set("Application", []string{text(x.Name())}, x.Parameters(), one(x.Body()))
	case *parser.ArithmeticExpression:
		bin("ArithmeticExpression", x, str(x.Operator()))
	case *parser.AssignmentExpression:
		bin("AssignmentExpression", x, str(x.Operator()))
	case *parser.AttributeOperation:
		set("AttributeOperation", []string{str(x.Operator()), text(x.Name())}, one(x.Value()))
	case *parser.AttributesOperation:
		set("AttributesOperation", nil, one(x.Expr()))
	case *parser.BlockExpression:
		set("BlockExpression", nil, x.Statements())
	case *parser.CallFunctionExpression:
		call("CallFunctionExpression", x, x.RvalRequired())
	case *parser.CallMethodExpression:
		call("CallMethodExpression", x, x.RvalRequired())
	case *parser.CallNamedFunctionExpression:
		call("CallNamedFunctionExpression", x, x.RvalRequired())
	case *parser.CapabilityMapping:
		set("CapabilityMapping", []string{text(x.Kind()), text(x.Capability())}, one(x.Component()), x.Mappings())
	case *parser.CaseExpression:
		set("CaseExpression", nil, one(x.Test()), x.Options())
	case *parser.CaseOption:
		set("CaseOption", nil, x.Values(), one(x.Then()))
	case *parser.CollectExpression:
		set("CollectExpression", nil, one(x.ResourceType()), one(x.Query()), x.Operations())
	case *parser.ComparisonExpression:
		bin("ComparisonExpression", x, str(x.Operator()))
	case *parser.ConcatenatedString:
		set("ConcatenatedString", nil, x.Segments())
	case *parser.EppExpression:
		set("EppExpression", []string{boolean(x.ParametersSpecified())}, one(x.Body()))
	case *parser.ExportedQuery:
		set("ExportedQuery", nil, opt(x.Expr()))
	case *parser.PlanDefinition:
		set("PlanDefinition", []string{text(x.Name())}, x.Parameters(), opt(x.ReturnType()), one(x.Body()))
	case *parser.FunctionDefinition:
		set("FunctionDefinition", []string{text(x.Name())}, x.Parameters(), opt(x.ReturnType()), one(x.Body()))
	case *parser.HeredocExpression:
		set("HeredocExpression", []string{codes(x.Syntax())}, one(x.Text()))
	case *parser.HostClassDefinition:
		set("HostClassDefinition", []string{text(x.Name()), text(x.ParentClass())}, x.Parameters(), one(x.Body()))
	case *parser.UnlessExpression:
		set("UnlessExpression", nil, one(x.Test()), one(x.Then()), one(x.Else()))
	case *parser.IfExpression:
		set("IfExpression", nil, one(x.Test()), one(x.Then()), one(x.Else()))
	case *parser.InExpression:
		bin("InExpression", x)
	case *parser.KeyedEntry:
		set("KeyedEntry", nil, one(x.Key()), one(x.Value()))
	case *parser.LambdaExpression:
		set("LambdaExpression", nil, x.Parameters(), one(x.Body()), opt(x.ReturnType()))
	case *parser.LiteralBoolean:
		set("LiteralBoolean", []string{boolean(x.Bool())})
	case *parser.LiteralDefault:
		set("LiteralDefault", nil)
	case *parser.LiteralFloat:
		set("LiteralFloat", []string{float(x.Float())})
	case *parser.LiteralHash:
		set("LiteralHash", nil, x.Entries())
	case *parser.LiteralInteger:
		set("LiteralInteger", []string{str(strconv.FormatInt(x.Int(), 10)), str(num(x.Radix()))})
	case *parser.LiteralList:
		set("LiteralList", nil, x.Elements())
	case *parser.RenderStringExpression:
		set("RenderStringExpression", []string{codes(x.StringValue())})
	case *parser.LiteralString:
		set("LiteralString", []string{codes(x.StringValue())})
	case *parser.LiteralUndef:
		set("LiteralUndef", nil)
	case *parser.MatchExpression:
		bin("MatchExpression", x, str(x.Operator()))
	case *parser.NamedAccessExpression:
		bin("NamedAccessExpression", x)
	case *parser.NodeDefinition:
		set("NodeDefinition", nil, opt(x.Parent()), x.HostMatches(), one(x.Body()))
	case *parser.Nop:
		set("Nop", nil)
	case *parser.NotExpression:
		un("NotExpression", x)
	case *parser.OrExpression:
		bin("OrExpression", x)
	case *parser.Parameter:
		set("Parameter", []string{text(x.Name()), boolean(x.CapturesRest())}, opt(x.Type()), opt(x.Value()))
	case *parser.ParenthesizedExpression:
		un("ParenthesizedExpression", x)
	case *parser.Program:
		set("Program", nil, one(x.Body()))
	case *parser.QualifiedReference:
		set("QualifiedReference", []string{text(x.Name())})
	case *parser.QualifiedName:
		set("QualifiedName", []string{text(x.Name())})
	case *parser.RegexpExpression:
		set("RegexpExpression", []string{codes(x.PatternString())})
	case *parser.RelationshipExpression:
		bin("RelationshipExpression", x, str(x.Operator()))
	case *parser.RenderExpression:
		un("RenderExpression", x)
	case *parser.ReservedWord:
		set("ReservedWord", []string{text(x.Name()), boolean(x.Future())})
	case *parser.ResourceBody:
		set("ResourceBody", nil, one(x.Title()), x.Operations())
	case *parser.ResourceDefaultsExpression:
		set("ResourceDefaultsExpression", []string{str(string(x.Form()))}, one(x.TypeRef()), x.Operations())
	case *parser.ResourceExpression:
		set("ResourceExpression", []string{str(string(x.Form()))}, one(x.TypeName()), x.Bodies())
	case *parser.ResourceOverrideExpression:
		set("ResourceOverrideExpression", []string{str(string(x.Form()))}, one(x.Resources()), x.Operations())
	case *parser.ResourceTypeDefinition:
		set("ResourceTypeDefinition", []string{text(x.Name())}, x.Parameters(), one(x.Body()))
	case *parser.SelectorEntry:
		set("SelectorEntry", nil, one(x.Matching()), one(x.Value()))
	case *parser.SelectorExpression:
		set("SelectorExpression", nil, one(x.Lhs()), x.Selectors())
	case *parser.SiteDefinition:
		set("SiteDefinition", nil, one(x.Body()))
	case *parser.StepExpression:
		set("StepExpression", []string{text(x.Name()), str(string(x.Style()))}, opt(x.Properties()), opt(x.Definition()))
	case *parser.TextExpression:
		un("TextExpression", x)
	case *parser.TypeAlias:
		set("TypeAlias", []string{text(x.Name())}, one(x.Type()))
	case *parser.TypeDefinition:
		set("TypeDefinition", []string{text(x.Name()), text(x.Parent())}, one(x.Body()))
	case *parser.TypeMapping:
		set("TypeMapping", nil, one(x.Type()), one(x.Mapping()))
	case *parser.UnaryMinusExpression:
		un("UnaryMinusExpression", x)
	case *parser.UnfoldExpression:
		un("UnfoldExpression", x)
	case *parser.VariableExpression:
		un("VariableExpression", x)
	case *parser.VirtualQuery:
		set("VirtualQuery", nil, opt(x.Expr()))
	default:
		set(fmt.Sprintf("Unknown %T", e), nil)
	}
	return n
}

func kind(e parser.Expression) string { return expand(e).k }

// structure renders a tree without positions: <<kind, attributes, slots>>
func structure(e parser.Expression) string {
	n := expand(e)
	slots := make([]string, len(n.c))
	for i, c := range n.c {
		es := make([]string, len(c))
		for j, x := range c {
			if x == nil {
				es[j] = `"nil"`
			} else {
				es[j] = structure(x)
			}
		}
		slots[i] = tuple(es...)
	}
	return tuple(str(n.k), tuple(n.v...), tuple(slots...))
}

// preorder visits the tree as given by the accessors
func preorder(e parser.Expression, depth int, f func(e parser.Expression, n *node, depth int)) {
	n := expand(e)
	f(e, n, depth)
	for _, c := range n.c {
		for _, x := range c {
			if x != nil {
				preorder(x, depth+1, f)
			}
		}
	}
}

// positions renders <<offset, length, line, position on line>> of each node in preorder
func positions(file, src string, e parser.Expression) string {
	es := []string{}
	preorder(e, 0, func(e parser.Expression, n *node, _ int) {
		o, l := e.ByteOffset(), e.ByteLength()
		mark := ""
		if o < 0 || l < 0 || o+l > len(src) {
			mark = "OUTSIDE"
		} else if e.String() != src[o:o+l] {
			mark = "TEXT"
		} else if e.File() != file {
			mark = "FILE"
		}
		p := []string{num(o), num(l), num(e.Line()), num(e.Pos())}
		if mark != "" {
			p = append(p, str(mark))
		}
		es = append(es, tuple(p...))
	})
	return tuple(es...)
}

// traversal renders what the visitors of AllContents and Contents are given
func traversal(e parser.Expression) string {
	es := []string{}
	at := func(e parser.Expression) string { return kind(e) + "@" + num(e.ByteOffset()) }
	// AllContents: each node with its ancestors
	e.AllContents([]parser.Expression{}, func(path []parser.Expression, x parser.Expression) {
		ps := make([]string, len(path)+1)
		for i, p := range path {
			ps[i] = str(at(p))
		}
		ps[len(path)] = str(at(x))
		es = append(es, tuple(ps...))
	})
	all := tuple(es...)
	es = []string{}
	// the same under ancestors that the visit is given, with room for more behind them
	pre := make([]parser.Expression, 2, 40)
	pre[0], pre[1] = e, e
	e.AllContents(pre, func(path []parser.Expression, x parser.Expression) {
		if len(path) < 2 || path[0] != e || path[1] != e {
			es = append(es, str("BADPATH"))
			return
		}
		ps := make([]string, len(path)-1)
		for i, p := range path[2:] {
			ps[i] = str(at(p))
		}
		ps[len(path)-2] = str(at(x))
		es = append(es, tuple(ps...))
	})
	if under := tuple(es...); under != all {
		all = under
	}
	es = []string{}
	// Contents: the direct children of each node, and that the path is extended with that node
	preorder(e, 0, func(e parser.Expression, n *node, _ int) {
		cs := []string{}
		pre := []parser.Expression{e, e}
		e.Contents(pre, func(path []parser.Expression, x parser.Expression) {
			c := at(x)
			if len(path) != 3 || path[0] != e || path[1] != e || path[2] != e {
				c += "BADPATH"
			}
			cs = append(cs, str(c))
		})
		es = append(es, tuple(cs...))
	})
	return tuple(all, tuple(es...))
}

// said renders what each node says of itself in preorder: its label, what it can be taken for, and what it tells as that
func said(e parser.Expression) string {
	es := []string{}
	preorder(e, 0, func(e parser.Expression, n *node, _ int) {
		is := ""
		more := []string{}
		// a cast gives the node, or the part of it that is embedded in it
		cast := func(c string, x parser.Expression) {
			is += c
			if x == nil || x.ByteOffset() != e.ByteOffset() || x.ByteLength() != e.ByteLength() {
				is += "!"
			}
		}
		if x, ok := e.(parser.Definition); ok {
			cast("D", x.ToDefinition())
		}
		if x, ok := e.(parser.NamedDefinition); ok {
			cast("d", e)
			more = append(more, text(x.Name()), num(len(x.Parameters())))
		}
		if x, ok := e.(parser.BooleanExpression); ok {
			cast("B", x.ToBooleanExpression())
		}
		if x, ok := e.(parser.BinaryExpression); ok {
			cast("X", e)
			more = append(more, num(x.Lhs().ByteOffset()), num(x.Rhs().ByteOffset()))
		}
		if x, ok := e.(parser.CallExpression); ok {
			cast("C", e)
			more = append(more, num(len(x.Arguments())), boolean(x.Lambda() != nil))
		}
		if x, ok := e.(parser.QueryExpression); ok {
			cast("Q", x.ToQueryExpression())
		}
		if x, ok := e.(parser.UnaryExpression); ok {
			cast("U", x.ToUnaryExpression())
			more = append(more, num(x.ToUnaryExpression().Expr().ByteOffset()))
		}
		if x, ok := e.(parser.NameExpression); ok {
			cast("N", e)
			more = append(more, text(x.Name()))
		}
		if x, ok := e.(parser.LiteralValue); ok {
			cast("L", x.ToLiteralValue())
			more = append(more, literalValue(x.Value(), e))
		}
		if x, ok := e.(parser.LiteralNumber); ok {
			cast("#", e)
			// as the other kind of number, unless it is too large for that
			const limit = 1000000000000000000
			i, f := "-", "-"
			if _, ok := e.(*parser.LiteralInteger); ok {
				f = float(x.Float())
			} else if x.Float() > -limit && x.Float() < limit {
				i = strconv.FormatInt(x.Int(), 10)
			}
			more = append(more, text(i), text(strings.Trim(f, `"`)))
		}
		if x, ok := e.(parser.AbstractResource); ok {
			cast("R", e)
			more = append(more, str(string(x.Form())))
		}
		if e.IsNop() {
			is += "0"
		}
		switch x := e.(type) {
		case *parser.QualifiedReference:
			y := x.WithName("Other::Name")
			more = append(more, text(x.DowncasedName()), text(y.Name()), text(y.DowncasedName()), num(y.ByteOffset()), text(x.Name()))
		case *parser.CallNamedFunctionExpression:
			y := x.WithFunctor(e)
			more = append(more, boolean(y.Functor() == e && x.Functor() != e), boolean(y.RvalRequired()), num(len(y.Arguments())), boolean(y.Lambda() != nil), num(y.ByteOffset()))
		case *parser.VariableExpression:
			i, isIndex := x.Index()
			v, isName := x.Name()
			more = append(more, boolean(isIndex), str(strconv.FormatInt(i, 10)), boolean(isName), text(v), text(fmt.Sprint(x.NameOrIndex())))
		case *parser.LiteralHash:
			// the value found for the key of each entry
			get := func(k string) string {
				if v := x.Get(k); v != nil {
					return str(num(v.ByteOffset()))
				}
				return str("none")
			}
			more = append(more, get("no such key"))
			for _, entry := range x.Entries() {
				if k, ok := entry.(*parser.KeyedEntry); ok {
					if s, ok := literal.ToLiteral(k.Key()); ok {
						if s, ok := s.(string); ok {
							more = append(more, get(s))
						}
					}
				}
			}
		}
		es = append(es, tuple(message(e.Label()), str(is), tuple(more...)))
	})
	return tuple(es...)
}

func definitions(e parser.Expression) string {
	p, ok := e.(*parser.Program)
	if !ok {
		return `"none"`
	}
	es := []string{}
	for _, d := range p.Definitions() {
		es = append(es, tuple(str(kind(d)), num(d.ByteOffset()), num(d.ByteLength())))
	}
	return tuple(es...)
}

// -------------------------------------------------------------- literals

func literalValue(v interface{}, e parser.Expression) string {
	switch v := v.(type) {
	case nil:
		return tuple(str("undef"))
	case string:
		return tuple(str("s"), codes(v))
	case bool:
		return tuple(str("b"), boolean(v))
	case int64:
		return tuple(str("i"), str(strconv.FormatInt(v, 10)))
	case float64:
		return tuple(str("f"), float(v))
	case []interface{}:
		es := make([]string, len(v))
		var xs []parser.Expression
		if l, ok := unwrap(e).(*parser.LiteralList); ok {
			xs = l.Elements()
		}
		for i, x := range v {
			var xe parser.Expression
			if i < len(xs) {
				xe = xs[i]
			}
			es[i] = literalValue(x, xe)
		}
		return tuple(str("l"), tuple(es...))
	case map[interface{}]interface{}:
		es := []string{}
		seen := map[interface{}]bool{}
		if h, ok := unwrap(e).(*parser.LiteralHash); ok {
			for _, x := range h.Entries() {
				ke := x.(*parser.KeyedEntry)
				// The value of the last entry with an equal key is the one that counts
				if k, ok := literal.ToLiteral(ke.Key()); ok && !seen[k] {
					seen[k] = true
					last := ke
					for _, y := range h.Entries() {
						if k2, _ := literal.ToLiteral(y.(*parser.KeyedEntry).Key()); k2 == k {
							last = y.(*parser.KeyedEntry)
						}
					}
					if val, ok := v[k]; ok {
						es = append(es, tuple(literalValue(k, ke.Key()), literalValue(val, last.Value())))
					}
				}
			}
		}
		if len(es) != len(v) {
			es = append(es, str("EXTRA"))
		}
		return tuple(str("h"), tuple(es...))
	default:
		s := fmt.Sprintf("%T %v", v, v)
		return tuple(str("?"), text(s))
	}
}

// unwrap finds the expression that the value of a literal comes from
func unwrap(e parser.Expression) parser.Expression {
	for {
		switch x := e.(type) {
		case *parser.Program:
			e = x.Body()
		case *parser.HeredocExpression:
			e = x.Text()
		default:
			return e
		}
	}
}

func literals(e parser.Expression) string {
	es := []string{}
	preorder(e, 0, func(e parser.Expression, n *node, _ int) {
		if v, ok := literal.ToLiteral(e); ok {
			es = append(es, tuple(literalValue(v, e)))
		} else {
			es = append(es, "<<>>")
		}
	})
	return tuple(es...)
}

// -------------------------------------------------------------------- PN

func pnValue(d interface{}) string {
	switch d := d.(type) {
	case nil:
		return tuple(str("nil"))
	case string:
		return tuple(str("s"), text(d))
	case bool:
		return tuple(str("b"), boolean(d))
	case int:
		return tuple(str("i"), str(num(d)))
	case int64:
		return tuple(str("i"), str(strconv.FormatInt(d, 10)))
	case int8, int16, int32, uint, uint8, uint16, uint32, uint64:
		return tuple(str("i"), str(fmt.Sprint(d)))
	case float64:
		return tuple(str("f"), float(d))
	case []interface{}:
		es := make([]string, len(d))
		for i, x := range d {
			es[i] = pnValue(x)
		}
		return tuple(str("list"), tuple(es...))
	case map[string]interface{}:
		if len(d) == 1 {
			if c, ok := d["^"].([]interface{}); ok && len(c) > 0 {
				if name, ok := c[0].(string); ok {
					es := make([]string, len(c)-1)
					for i, x := range c[1:] {
						es[i] = pnValue(x)
					}
					return tuple(str("call"), text(name), tuple(es...))
				}
			}
			if m, ok := d["#"].([]interface{}); ok && len(m)%2 == 0 {
				es := []string{}
				for i := 0; i < len(m); i += 2 {
					k, ok := m[i].(string)
					if !ok {
						k = "?"
					}
					es = append(es, tuple(text(k), pnValue(m[i+1])))
				}
				return tuple(str("map"), tuple(es...))
			}
		}
		keys := []string{}
		for k := range d {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		return tuple(str("?map"), text(strings.Join(keys, ",")))
	default:
		return tuple(str("?"), text(fmt.Sprintf("%T", d)))
	}
}

// ---------------------------------------------------------------- issues

func severity(s issue.Severity) string { return s.String() }

func argument(a interface{}) string {
	switch a := a.(type) {
	case string:
		return text(a)
	case issue.Labeled:
		return text(issue.Label(a))
	default:
		return text(fmt.Sprintf("%v", a))
	}
}

// parseError renders <<code, line, position, arguments>>
func parseError(file string, err error) string {
	if r, ok := err.(issue.Reported); ok {
		args := []string{}
		for _, k := range r.Keys() {
			args = append(args, tuple(str(k), argument(r.Argument(k))))
		}
		loc := r.Location()
		es := []string{str(string(r.Code())), num(loc.Line()), num(loc.Pos()), tuple(args...)}
		if loc.File() != file {
			es = append(es, str("FILE"))
		}
		if r.Severity() != issue.SeverityError {
			es = append(es, str("SEVERITY"))
		}
		return tuple(es...)
	}
	m := err.Error()
	var o int
	if n, _ := fmt.Sscanf(m, "invalid NUL character at offset %d", &o); n == 1 {
		return tuple(str("NUL"), "0", num(o), "<<>>")
	}
	if n, _ := fmt.Sscanf(m, "invalid unicode character at offset %d", &o); n == 1 {
		return tuple(str("UNICODE"), "0", num(o), "<<>>")
	}
	return tuple(str("OTHER"), "0", "0", message(m))
}

func parseCode(err error) string {
	if r, ok := err.(issue.Reported); ok {
		return str(string(r.Code()))
	}
	m := err.Error()
	var o int
	if n, _ := fmt.Sscanf(m, "invalid NUL character at offset %d", &o); n == 1 {
		return str("NUL")
	}
	if n, _ := fmt.Sscanf(m, "invalid unicode character at offset %d", &o); n == 1 {
		return str("UNICODE")
	}
	return str("OTHER")
}

// issues renders <<code, severity, line, position, message>> of each issue
func issues(file string, is []issue.Reported) string {
	es := make([]string, len(is))
	for i, r := range is {
		loc := r.Location()
		v := []string{str(string(r.Code())), str(severity(r.Severity())), num(loc.Line()), num(loc.Pos()), message(stripLocation(r.Error(), file, loc))}
		if loc.File() != file {
			v = append(v, str("FILE"))
		}
		es[i] = tuple(v...)
	}
	return tuple(es...)
}
