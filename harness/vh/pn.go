package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	pjson "github.com/lyraproj/puppet-parser/json"
	"github.com/lyraproj/puppet-parser/pn"
)

// An op makes values of PN from those made before
//
//	nil, b, i, f, s  a literal of that kind, given as text in S (an i may be of the Go type in T)
//	list             of the values A
//	map              of the keys K and the values A
//	call             of S with the values A
//	ascall           value A[0] as a call of S
//	params           the parameters of value A[0], each of them a value
//	name             value A[0] as a pair with the name S
type pnOp struct {
	Op string   `json:"op"`
	S  string   `json:"s"`
	T  string   `json:"t"`
	A  []int    `json:"a"`
	K  []string `json:"k"`
}

func pnLiteral(o pnOp) pn.PN {
	switch o.Op {
	case "nil":
		return pn.Literal(nil)
	case "b":
		return pn.Literal(o.S == "true")
	case "s":
		return pn.Literal(o.S)
	case "f":
		f, _ := strconv.ParseFloat(o.S, 64)
		return pn.Literal(f)
	}
	i, _ := strconv.ParseInt(o.S, 10, 64)
	switch o.T {
	case "int":
		return pn.Literal(int(i))
	case "int8":
		return pn.Literal(int8(i))
	case "int16":
		return pn.Literal(int16(i))
	case "int32":
		return pn.Literal(int32(i))
	case "uint":
		return pn.Literal(uint(i))
	case "uint8":
		return pn.Literal(uint8(i))
	case "uint16":
		return pn.Literal(uint16(i))
	case "uint32":
		return pn.Literal(uint32(i))
	case "uint64":
		return pn.Literal(uint64(i))
	}
	return pn.Literal(i)
}

func pnShown(v pn.PN) string {
	if v == nil {
		return str("refused")
	}
	b := bytes.NewBufferString("")
	v.Format(b)
	t := b.String()
	if v.String() != t || pn.ToString(v) != t {
		return str("String() differs from Format()")
	}
	d := v.ToData()
	j := bytes.NewBufferString("")
	pjson.ToJson(d, j)
	return tuple(text(t), pnValue(d), text(strings.TrimSuffix(j.String(), "\n")))
}

func pnBuild(ops []pnOp) map[string]string {
	heap, shown := []pn.PN{}, []string{}
	add := func(v pn.PN) {
		heap = append(heap, v)
		shown = append(shown, pnShown(v))
	}
	many := func(a []int) []pn.PN {
		vs := make([]pn.PN, len(a))
		for i, k := range a {
			vs[i] = heap[k]
		}
		return vs
	}
	out := []string{}
	res := guard(func() string {
		for _, o := range ops {
			switch o.Op {
			case "list":
				add(pn.List(many(o.A)))
			case "map":
				es := make([]pn.Entry, len(o.A))
				for i, k := range o.A {
					es[i] = heap[k].WithName(o.K[i])
				}
				var m pn.PN
				func() {
					defer func() {
						if r := recover(); r != nil {
							if !strings.Contains(fmt.Sprint(r), "does not conform") {
								panic(r)
							}
						}
					}()
					m = pn.Map(es)
				}()
				add(m)
			case "call":
				add(pn.Call(o.S, many(o.A)...))
			case "ascall":
				add(heap[o.A[0]].AsCall(o.S))
			case "params":
				for _, p := range heap[o.A[0]].AsParameters() {
					add(p)
				}
			case "name":
				e := heap[o.A[0]].WithName(o.S)
				out = append(out, tuple(text(e.Key()), pnShown(e.Value())))
			default:
				add(pnLiteral(o))
			}
		}
		for i, v := range heap {
			if pnShown(v) != shown[i] {
				shown[i] = str("changed")
			}
		}
		return tuple(tuple(shown...), tuple(out...))
	})
	return map[string]string{"R": res}
}
