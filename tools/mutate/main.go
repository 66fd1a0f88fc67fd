// Command mutate lists small changes to Go files: mutate FILE... writes one JSON object per change.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Kind  string `json:"kind"`
}

var swaps = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(p, q token.Pos, s, kind string) {
			enc.Encode(mutant{file, fset.Position(p).Line, off(p), off(q), s, kind})
		}
		inFunc := 0
		var visit func(n ast.Node) bool
		visit = func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				if n.Body != nil {
					inFunc++
					ast.Inspect(n.Body, visit)
					inFunc--
				}
				return false
			case *ast.BinaryExpr:
				for _, s := range swaps[n.Op] {
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s, "operator")
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit(n.Pos(), n.End(), text(n.X), "left only")
					emit(n.Pos(), n.End(), text(n.Y), "right only")
				}
			case *ast.IfStmt:
				emit(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate")
				emit(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "never")
				emit(n.Cond.Pos(), n.Cond.End(), "true || ("+text(n.Cond)+")", "always")
			case *ast.ForStmt:
				if n.Cond != nil {
					emit(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "no loop")
				}
			case *ast.CaseClause:
				if len(n.List) > 1 {
					for i, e := range n.List {
						if i > 0 {
							emit(n.List[i-1].End(), e.End(), "", "case without")
						} else {
							emit(e.Pos(), n.List[1].Pos(), "", "case without")
						}
					}
				}
				if len(n.Body) > 0 {
					emit(n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "", "empty case")
				}
			case *ast.BlockStmt:
				for _, s := range n.List {
					switch s := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt:
						emit(s.Pos(), s.End(), "", "without statement")
					case *ast.AssignStmt:
						if s.Tok != token.DEFINE {
							emit(s.Pos(), s.End(), "", "without statement")
						}
					case *ast.BranchStmt:
						emit(s.Pos(), s.End(), "", "without branch")
					case *ast.ReturnStmt:
						if len(s.Results) == 0 {
							emit(s.Pos(), s.End(), "", "without return")
						}
					case *ast.IfStmt:
						emit(s.Pos(), s.End(), "", "without if")
					}
				}
			case *ast.BasicLit:
				if inFunc == 0 {
					return true
				}
				switch n.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						emit(n.Pos(), n.End(), fmt.Sprint(v+1), "literal")
						if v > 0 {
							emit(n.Pos(), n.End(), fmt.Sprint(v-1), "literal")
						}
					}
				case token.CHAR:
					emit(n.Pos(), n.End(), "'\\x01'", "literal")
				case token.STRING:
					if len(n.Value) > 2 {
						emit(n.Pos(), n.End(), "``", "literal")
					}
				}
			case *ast.Ident:
				if inFunc > 0 && (n.Name == "true" || n.Name == "false") {
					emit(n.Pos(), n.End(), map[string]string{"true": "false", "false": "true"}[n.Name], "literal")
				}
				if inFunc > 0 && n.Name == "nil" {
					return true
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit(n.Pos(), n.End(), text(n.X), "not")
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(n.Args); i++ {
					if text(n.Args[i]) != text(n.Args[i+1]) {
						emit(n.Args[i].Pos(), n.Args[i+1].End(), text(n.Args[i+1])+", "+text(n.Args[i]), "swap arguments")
					}
				}
				for _, a := range n.Args {
					switch text(a) {
					case "nil", "true", "false":
					default:
						if _, lit := a.(*ast.BasicLit); !lit {
							emit(a.Pos(), a.End(), "nil", "nil argument")
						}
					}
				}
			case *ast.SliceExpr:
				if n.Low != nil {
					emit(n.Low.Pos(), n.Low.End(), "("+text(n.Low)+")+1", "bound")
				}
				if n.High != nil {
					emit(n.High.Pos(), n.High.End(), "("+text(n.High)+")-1", "bound")
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "nil" {
						continue
					}
					emit(r.Pos(), r.End(), "nil", "nil result")
				}
			}
			return true
		}
		ast.Inspect(f, visit)
	}
}
