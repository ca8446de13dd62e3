// Command mutate lists small source changes (mutants) of Go files as JSON:
// byte range, replacement, function and a description.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

type mut struct {
	File, Func, Op, Old, New string
	Start, End, Line         int
}

func main() {
	var out []mut
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			name := fd.Name.Name
			if fd.Recv != nil {
				t := string(src[off(fd.Recv.List[0].Type.Pos()):off(fd.Recv.List[0].Type.End())])
				if strings.HasPrefix(t, "*") {
					name = "(*lpg." + t[1:] + ")." + name
				} else {
					name = "(lpg." + t + ")." + name
				}
			} else {
				name = "lpg." + name
			}
			add := func(op string, a, b token.Pos, repl string) {
				s, e := off(a), off(b)
				if string(src[s:e]) == repl {
					return
				}
				out = append(out, mut{filepath.Base(f), name, op, string(src[s:e]), repl, s, e, fset.Position(a).Line})
			}
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					var rs []string
					switch x.Op {
					case token.LSS:
						rs = []string{"<=", ">"}
					case token.LEQ:
						rs = []string{"<"}
					case token.GTR:
						rs = []string{">=", "<"}
					case token.GEQ:
						rs = []string{">"}
					case token.EQL:
						rs = []string{"!="}
					case token.NEQ:
						rs = []string{"=="}
					case token.ADD:
						rs = []string{"-"}
					case token.SUB:
						rs = []string{"+"}
					case token.LAND:
						add("drop-right", x.Pos(), x.End(), text(x.X))
						add("drop-left", x.Pos(), x.End(), text(x.Y))
						rs = []string{"||"}
					case token.LOR:
						add("drop-right", x.Pos(), x.End(), text(x.X))
						add("drop-left", x.Pos(), x.End(), text(x.Y))
						rs = []string{"&&"}
					}
					for _, r := range rs {
						add("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r)
					}
				case *ast.IfStmt:
					add("if-true", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true")
					add("if-false", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false")
					if x.Else != nil {
						add("drop-else", x.Body.End(), x.Else.End(), "")
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						add("drop-not", x.Pos(), x.End(), text(x.X))
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						add("int+1", x.Pos(), x.End(), fmt.Sprintf("(%s+1)", x.Value))
						if x.Value != "0" {
							add("int-1", x.Pos(), x.End(), fmt.Sprintf("(%s-1)", x.Value))
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						add("bool", x.Pos(), x.End(), "false")
					} else if x.Name == "false" {
						add("bool", x.Pos(), x.End(), "true")
					}
				case *ast.ExprStmt:
					add("drop-call", x.Pos(), x.End(), "")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						r := ""
						for i, l := range x.Lhs {
							_ = l
							if i < len(x.Rhs) {
								r += "_ = " + text(x.Rhs[i]) + ";"
							}
						}
						add("drop-assign", x.Pos(), x.End(), strings.TrimSuffix(r, ";"))
					}
				case *ast.IncDecStmt:
					if x.Tok == token.INC {
						add("incdec", x.TokPos, x.TokPos+2, "--")
					} else {
						add("incdec", x.TokPos, x.TokPos+2, "++")
					}
				case *ast.BranchStmt:
					if x.Tok == token.BREAK && x.Label == nil {
						add("break", x.Pos(), x.End(), "continue")
					}
					if x.Tok == token.CONTINUE && x.Label == nil {
						add("continue", x.Pos(), x.End(), "break")
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok && (id.Name == "nil" || id.Name == "true" || id.Name == "false") {
							continue
						}
						if c, ok := r.(*ast.CallExpr); ok && len(c.Args) == 0 {
							continue
						}
					}
				case *ast.SelectorExpr:
					m := map[string]string{"from": "to", "to": "from", "incoming": "outgoing", "outgoing": "incoming", "head": "tail", "tail": "head", "next": "prev", "prev": "next",
						"GetFrom": "GetTo", "GetTo": "GetFrom", "First": "Last", "Last": "First", "nodeProperties": "edgeProperties", "edgeProperties": "nodeProperties", "IncomingEdge": "OutgoingEdge", "OutgoingEdge": "IncomingEdge"}
					if r, ok := m[x.Sel.Name]; ok {
						add("swap-sel", x.Sel.Pos(), x.Sel.End(), r)
					}
				case *ast.CallExpr:
					if len(x.Args) == 2 {
						a, b := text(x.Args[0]), text(x.Args[1])
						add("swap-args", x.Args[0].Pos(), x.Args[1].End(), b+", "+a)
					}
					if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) > 1 {
						add("drop-append", x.Pos(), x.End(), text(x.Args[0]))
					}
					if s, ok := x.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Clone" && len(x.Args) == 0 {
						add("drop-clone", x.Pos(), x.End(), text(s.X))
					}
				case *ast.SliceExpr:
					if x.Low != nil {
						add("slice-low", x.Low.Pos(), x.Low.End(), "("+text(x.Low)+")+1")
					}
					if x.High != nil {
						add("slice-high", x.High.Pos(), x.High.End(), "("+text(x.High)+")-1")
					}
				case *ast.CaseClause:
					if len(x.List) > 0 && len(x.Body) > 0 {
						add("empty-case", x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "")
					}
				}
				return true
			})
		}
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
