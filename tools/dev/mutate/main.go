// Development aid (not used by any check): lists single-point mutants of Go files.
//
//	go run main.go FILE... > mutants.json
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File, Func, What string
	Line             int
	Off, End         int
	New              string
}

func main() {
	var out []mutant
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, fn, src, 0)
		if err != nil {
			panic(err)
		}
		name := ""
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		add := func(a, b token.Pos, repl, what string) {
			out = append(out, mutant{fn, name, what, fset.Position(a).Line, off(a), off(b), repl})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			name = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BinaryExpr:
					swaps := map[token.Token][]string{
						token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
						token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
						token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.AND: {"|"}, token.OR: {"&"},
						token.SHL: {">>"}, token.SHR: {"<<"},
					}
					for _, s := range swaps[n.Op] {
						add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s, n.Op.String()+" -> "+s+" in "+text(n))
					}
					if n.Op == token.LAND || n.Op == token.LOR {
						add(n.X.Pos(), n.Y.Pos(), "", "without left of "+text(n))
						add(n.X.End(), n.Y.End(), "", "without right of "+text(n))
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
							add(n.Pos(), n.End(), strconv.FormatInt(v+1, 10), n.Value+" + 1")
							if v > 0 {
								add(n.Pos(), n.End(), strconv.FormatInt(v-1, 10), n.Value+" - 1")
							}
						}
					}
				case *ast.IfStmt:
					add(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "never "+text(n.Cond))
					add(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") || true", "always "+text(n.Cond))
				case *ast.Ident:
					if n.Name == "true" {
						add(n.Pos(), n.End(), "false", "true -> false")
					}
					if n.Name == "false" {
						add(n.Pos(), n.End(), "true", "false -> true")
					}
				case *ast.BranchStmt:
					if n.Label == nil && n.Tok == token.CONTINUE {
						add(n.Pos(), n.End(), "break", "continue -> break")
					}
					if n.Label == nil && n.Tok == token.BREAK {
						add(n.Pos(), n.End(), "continue", "break -> continue")
					}
				case *ast.IncDecStmt:
					s := "--"
					if n.Tok == token.DEC {
						s = "++"
					}
					add(n.TokPos, n.TokPos+2, s, text(n)+" -> "+s)
				case *ast.BlockStmt, *ast.CaseClause:
					var l []ast.Stmt
					if b, ok := n.(*ast.BlockStmt); ok {
						l = b.List
					} else {
						l = n.(*ast.CaseClause).Body
					}
					for _, s := range l {
						switch s := s.(type) {
						case *ast.ExprStmt, *ast.DeferStmt, *ast.GoStmt, *ast.IncDecStmt, *ast.SendStmt:
							add(s.Pos(), s.End(), "", "without "+text(s))
						case *ast.AssignStmt:
							if s.Tok != token.DEFINE {
								add(s.Pos(), s.End(), "", "without "+text(s))
							}
						case *ast.ReturnStmt:
							if len(s.Results) == 0 {
								add(s.Pos(), s.End(), "", "without return")
							}
						}
					}
				}
				return true
			})
		}
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
