// Command mutate lists small changes of Go files as JSON lines: {"file","func","line","start","end","new","what"}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

type mutant struct {
	File, Func string
	Line       int
	Start, End int
	New, What  string
}

var swap = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"*"},
	token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		tree, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		fn := ""
		at := func(p token.Pos) int { return fset.Position(p).Offset }
		out := func(a, b token.Pos, new, what string) {
			enc.Encode(mutant{filepath.Base(f), fn, fset.Position(a).Line, at(a), at(b), new, what + " " + strconv.Quote(string(src[at(a):at(b)])) + " -> " + strconv.Quote(new)})
		}
		block := func(l []ast.Stmt) {
			for _, s := range l {
				switch x := s.(type) {
				case *ast.AssignStmt:
					if x.Tok == token.DEFINE {
						continue
					}
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.DeferStmt:
				case *ast.ReturnStmt:
					if len(x.Results) > 0 {
						continue
					}
				case *ast.IfStmt:
				default:
					continue
				}
				out(s.Pos(), s.End(), "", "delete")
			}
		}
		for _, d := range tree.Decls {
			fn = "var"
			if fd, ok := d.(*ast.FuncDecl); ok {
				fn = fd.Name.Name
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.BinaryExpr:
					for _, r := range swap[x.Op] {
						out(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r, "operator")
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						out(x.Pos(), x.Y.Pos(), "", "operand")
						out(x.X.End(), x.End(), "", "operand")
					}
				case *ast.IfStmt:
					out(x.Cond.Pos(), x.Cond.End(), "true || "+string(src[at(x.Cond.Pos()):at(x.Cond.End())]), "condition")
					out(x.Cond.Pos(), x.Cond.End(), "false && ("+string(src[at(x.Cond.Pos()):at(x.Cond.End())])+")", "condition")
				case *ast.BasicLit:
					switch x.Kind {
					case token.INT:
						v, err := strconv.ParseInt(x.Value, 0, 64)
						if err == nil {
							out(x.Pos(), x.End(), fmt.Sprint(v+1), "number")
							if v > 0 {
								out(x.Pos(), x.End(), fmt.Sprint(v-1), "number")
							}
						}
					case token.STRING:
						s, _ := strconv.Unquote(x.Value)
						out(x.Pos(), x.End(), strconv.Quote(s+"x"), "string")
					case token.CHAR:
						out(x.Pos(), x.End(), "'~'", "character")
					case token.FLOAT:
						out(x.Pos(), x.End(), x.Value+"1", "number")
					}
				case *ast.Ident:
					if x.Name == "true" {
						out(x.Pos(), x.End(), "false", "boolean")
					} else if x.Name == "false" {
						out(x.Pos(), x.End(), "true", "boolean")
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						out(x.Pos(), x.X.Pos(), "", "negation")
					}
				case *ast.IncDecStmt:
					r := "--"
					if x.Tok == token.DEC {
						r = "++"
					}
					out(x.TokPos, x.TokPos+2, r, "step")
				case *ast.BranchStmt:
					if x.Tok == token.BREAK {
						out(x.Pos(), x.End(), "continue", "branch")
					} else if x.Tok == token.CONTINUE {
						out(x.Pos(), x.End(), "break", "branch")
					}
				case *ast.BlockStmt:
					block(x.List)
				case *ast.CaseClause:
					block(x.Body)
				case *ast.SliceExpr:
					if x.High != nil {
						out(x.High.Pos(), x.High.End(), "", "slice")
					}
					if x.Low != nil {
						out(x.Low.Pos(), x.Low.End(), "", "slice")
					}
				}
				return true
			})
		}
	}
}
