// Development only: lists mutants of Go files as JSON lines
// {file, start, end, new, desc, line, fn}. Used to look for changes the checks
// don't notice (see DESIGN.md).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mut struct {
	File  string `json:"file"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Desc  string `json:"desc"`
	Line  int    `json:"line"`
	Fn    string `json:"fn"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			emit := func(a, b token.Pos, s, what string) {
				enc.Encode(mut{file, off(a), off(b), s, what + ": " + strings.Join(strings.Fields(string(src[off(a):off(b)])), " ") + " -> " + s, fset.Position(a).Line, fd.Name.Name})
			}
			var indexes []string
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				if x, ok := n.(*ast.IndexExpr); ok {
					if id, ok := x.Index.(*ast.Ident); ok && !strings.Contains(" "+strings.Join(indexes, " ")+" ", " "+id.Name+" ") {
						indexes = append(indexes, id.Name)
					}
				}
				return true
			})
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.CallExpr:
					if s, ok := n.Fun.(*ast.SelectorExpr); ok {
						x := fmt.Sprint(s.X)
						if x == "assert" || x == "log" || x == "fmt" || x == "ctx" || strings.HasSuffix(x, "ctx}") {
							return false
						}
						switch s.Sel.Name {
						case "StartTimer", "StopTimer", "Warningf", "Errorf", "Progressf", "ResetTimers", "ResetLog":
							return false
						}
					}
					// Arguments of the same kind exchanged.
					if len(n.Args) >= 2 {
						for i := 0; i+1 < len(n.Args); i++ {
							a, b := n.Args[i], n.Args[i+1]
							_, ia := a.(*ast.Ident)
							_, ib := b.(*ast.Ident)
							if ia && ib {
								s := string(src[off(b.Pos()):off(b.End())]) + ", " + string(src[off(a.Pos()):off(a.End())])
								emit(a.Pos(), b.End(), s, "swap")
							}
						}
					}
				case *ast.BinaryExpr:
					var to []string
					switch n.Op {
					case token.LSS:
						to = []string{"<="}
					case token.LEQ:
						to = []string{"<"}
					case token.GTR:
						to = []string{">="}
					case token.GEQ:
						to = []string{">"}
					case token.EQL:
						to = []string{"!="}
					case token.NEQ:
						to = []string{"=="}
					case token.LAND:
						to = []string{"||"}
					case token.LOR:
						to = []string{"&&"}
					case token.ADD:
						to = []string{"-"}
					case token.SUB:
						to = []string{"+"}
					case token.MUL:
						to = []string{"+"}
					case token.AND:
						to = []string{"|"}
					case token.OR:
						to = []string{"&"}
					case token.SHL:
						to = []string{">>"}
					case token.SHR:
						to = []string{"<<"}
					}
					for _, s := range to {
						emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s, "op")
					}
					if n.Op == token.LAND || n.Op == token.LOR { // one side only
						emit(n.X.End(), n.Y.End(), "", "drop")
						emit(n.X.Pos(), n.Y.Pos(), "", "drop")
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						switch n.Value {
						case "0":
							emit(n.Pos(), n.End(), "1", "lit")
						default:
							emit(n.Pos(), n.End(), "("+n.Value+"+1)", "lit")
							emit(n.Pos(), n.End(), "("+n.Value+"-1)", "lit")
						}
					} else if n.Kind == token.FLOAT {
						emit(n.Pos(), n.End(), "("+n.Value+"*1.5)", "lit")
					}
				case *ast.IndexExpr:
					// Another index that is used in the function.
					if id, ok := n.Index.(*ast.Ident); ok {
						for _, o := range indexes {
							if o != id.Name {
								emit(id.Pos(), id.End(), o, "index")
							}
						}
					}
				case *ast.IfStmt:
					emit(n.Cond.Pos(), n.Cond.End(), "(false && ("+string(src[off(n.Cond.Pos()):off(n.Cond.End())])+"))", "never")
					emit(n.Cond.Pos(), n.Cond.End(), "(true || ("+string(src[off(n.Cond.Pos()):off(n.Cond.End())])+"))", "always")
				case *ast.AssignStmt:
					if n.Tok == token.DEFINE {
						break
					}
				case *ast.IncDecStmt, *ast.BranchStmt, *ast.ExprStmt:
				}
				return true
			})
			// Statements deleted.
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				var l []ast.Stmt
				switch n := n.(type) {
				case *ast.BlockStmt:
					l = n.List
				case *ast.CaseClause:
					l = n.Body
				}
				for _, s := range l {
					switch s := s.(type) {
					case *ast.AssignStmt:
						if s.Tok == token.DEFINE {
							continue
						}
					case *ast.ExprStmt:
						t := string(src[off(s.Pos()):off(s.End())])
						if strings.Contains(t, "Timer") || strings.Contains(t, "ctx.") || strings.Contains(t, "assert.") {
							continue
						}
					case *ast.IncDecStmt, *ast.BranchStmt:
					default:
						continue
					}
					t := string(src[off(s.Pos()):off(s.End())])
					emit(s.Pos(), s.End(), "if verifZero != 0 { "+t+" }", "delete")
				}
				return true
			})
		}
	}
}
