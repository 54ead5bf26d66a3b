// mutate lists first-order mutants of Go files: one JSON line per mutant, with
// the byte range to replace and its replacement.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Old  string `json:"old"`
	Fn   string `json:"fn"`
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"+"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		fn := ""
		emit := func(a, b token.Pos, s string) {
			o, e := off(a), off(b)
			if string(src[o:e]) == s {
				return
			}
			enc.Encode(mut{file, fset.Position(a).Line, o, e, s, string(src[o:e]), fn})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, s := range swaps[x.Op] {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s)
					}
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")")
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false")
					if x.Else != nil {
						emit(x.Body.End(), x.Else.End(), "")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.Atoi(x.Value); err == nil {
							emit(x.Pos(), x.End(), fmt.Sprint(v+1))
							if v > 0 {
								emit(x.Pos(), x.End(), fmt.Sprint(v-1))
							}
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit(x.Pos(), x.End(), "false")
					} else if x.Name == "false" {
						emit(x.Pos(), x.End(), "true")
					}
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.SendStmt:
					emit(n.Pos(), n.End(), "{}")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(n.Pos(), n.End(), "{}")
					}
				case *ast.ForStmt:
					emit(x.Body.Lbrace+1, x.Body.Lbrace+1, " break;")
				case *ast.RangeStmt:
					emit(x.Body.Rbrace, x.Body.Rbrace, ";break;")
				case *ast.CaseClause:
					if len(x.Body) > 0 {
						emit(x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "")
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit(x.Pos(), x.X.Pos(), "")
					}
				}
				return true
			})
		}
	}
}
