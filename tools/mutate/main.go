// mutate lists small changes to the Go files given as arguments, one JSON object per line:
// file, function, line, what, and the byte range with its replacement.
// It is a development tool: the driver run.py applies each change in a scratch copy and runs the checks on it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File, Func string
	Line       int
	What       string
	From, To   int
	Text       string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		fn := ""
		put := func(what string, from, to token.Pos, text string) {
			enc.Encode(mutant{file, fn, fset.Position(from).Line, what, off(from), off(to), text})
		}
		swap := map[token.Token][]string{
			token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
			token.ADD: {"-"}, token.SUB: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.AND: {"|"}, token.OR: {"&"},
			token.SHL: {">>"}, token.SHR: {"<<"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
		}
		var visit func(n ast.Node) bool
		visit = func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.FuncDecl:
				fn = n.Name.Name
				if n.Recv != nil && len(n.Recv.List) > 0 {
					t := n.Recv.List[0].Type
					if s, ok := t.(*ast.StarExpr); ok {
						t = s.X
					}
					fn = fmt.Sprint(t) + "." + fn
				}
			case *ast.Field:
				return n.Tag == nil
			case *ast.BinaryExpr:
				for _, t := range swap[n.Op] {
					put(n.Op.String()+" to "+t, n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), t)
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					v, err := strconv.ParseInt(n.Value, 0, 64)
					if err == nil {
						put("literal +1", n.Pos(), n.End(), fmt.Sprint(v+1))
						if v > 0 {
							put("literal -1", n.Pos(), n.End(), fmt.Sprint(v-1))
						}
					}
				}
			case *ast.Ident:
				if n.Name == "true" || n.Name == "false" {
					put("flip "+n.Name, n.Pos(), n.End(), map[string]string{"true": "false", "false": "true"}[n.Name])
				}
			case *ast.SliceExpr:
				if n.Low != nil {
					put("slice low +1", n.Low.End(), n.Low.End(), "+1")
				}
				if n.High != nil {
					put("slice high -1", n.High.End(), n.High.End(), "-1")
				}
			case *ast.IfStmt:
				put("never if", n.Cond.Pos(), n.Cond.Pos(), "false && ")
				put("always if", n.Cond.Pos(), n.Cond.Pos(), "true || ")
			case *ast.ReturnStmt:
				if len(n.Results) > 0 {
					if id, ok := n.Results[len(n.Results)-1].(*ast.Ident); ok && id.Name == "err" {
						put("return nil error", id.Pos(), id.End(), "nil")
					} else if c, ok := n.Results[len(n.Results)-1].(*ast.CallExpr); ok {
						if s, ok := c.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "Errorf") {
							put("return nil error", c.Pos(), c.End(), "nil")
						}
					}
				}
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					put("delete assignment", n.Pos(), n.End(), "{}")
				}
				if n.Tok == token.ADD_ASSIGN {
					put("+= to -=", n.TokPos, n.TokPos+2, "-=")
				}
			case *ast.ExprStmt:
				put("delete call", n.Pos(), n.End(), "{}")
			case *ast.IncDecStmt:
				put("delete "+n.Tok.String(), n.Pos(), n.End(), "{}")
			case *ast.BranchStmt:
				if n.Tok == token.BREAK {
					put("break to continue", n.Pos(), n.Pos()+5, "continue")
				}
				if n.Tok == token.CONTINUE {
					put("continue to break", n.Pos(), n.Pos()+8, "break")
				}
			case *ast.CallExpr:
				if len(n.Args) == 2 {
					a, b := n.Args[0], n.Args[1]
					put("swap arguments", a.Pos(), b.End(), string(src[off(b.Pos()):off(b.End())])+", "+string(src[off(a.Pos()):off(a.End())]))
				}
			}
			return true
		}
		for _, d := range f.Decls {
			fn = ""
			ast.Inspect(d, visit)
		}
	}
}
