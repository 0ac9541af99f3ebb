// Command mutate lists small changes to a Go file, one per line: offset, end, replacement (quoted), kind and line.
// It's a development tool, see tools/mutants.py.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

func main() {
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(p, e token.Pos, s, kind string) {
			fmt.Printf("%s\t%d\t%d\t%s\t%s\t%d\n", fn, off(p), off(e), strconv.Quote(s), kind, fs.Position(p).Line)
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		swap := map[token.Token][]string{
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.MUL: {"+"},
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT || x.Tok == token.TYPE {
					return false
				}
			case *ast.BinaryExpr:
				for _, s := range swap[x.Op] {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "op")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x.OpPos, x.OpPos+1, "", "not")
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "never")
				emit(x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")", "always")
			case *ast.BasicLit:
				if x.Kind == token.INT {
					emit(x.Pos(), x.End(), "("+x.Value+"+1)", "int")
					if x.Value != "0" {
						emit(x.Pos(), x.End(), "("+x.Value+"-1)", "int")
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "bool")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "bool")
				}
			case *ast.ExprStmt:
				emit(x.Pos(), x.End(), "", "drop")
			case *ast.IncDecStmt:
				emit(x.Pos(), x.End(), "", "drop")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					s := ""
					for i, r := range x.Rhs {
						if i < len(x.Rhs) {
							s += "_ = " + text(r) + "; "
						}
						if len(x.Rhs) != len(x.Lhs) {
							s = ""
						}
					}
					emit(x.Pos(), x.End(), s, "drop")
				}
			case *ast.BranchStmt:
				if x.Tok == token.BREAK && x.Label == nil {
					emit(x.Pos(), x.End(), "continue", "branch")
				} else if x.Tok == token.CONTINUE && x.Label == nil {
					emit(x.Pos(), x.End(), "break", "branch")
				}
			case *ast.CaseClause:
				if len(x.List) > 1 {
					emit(x.List[0].Pos(), x.List[1].Pos(), "", "case")
					emit(x.List[len(x.List)-2].End(), x.List[len(x.List)-1].End(), "", "case")
				}
			}
			return true
		})
	}
}
