// Command mutate lists small source mutations of Go files, one JSON object per line:
// {"file":…, "func":…, "pos":byte offset, "end":…, "new":…, "what":…}.
// It is used by hand to look for changes that the tests and the contracts both miss.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File, Func, New, What string
	Pos, End, Line        int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, fn, src, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			name := fd.Name.Name
			off := func(p token.Pos) int { return fset.Position(p).Offset }
			emit := func(p, e token.Pos, nw, what string) {
				enc.Encode(mut{fn, name, nw, what + " " + string(src[off(p):off(e)]) + " -> " + nw, off(p), off(e), fset.Position(p).Line})
			}
			txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					alt := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.ADD: {"-"}, token.SUB: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.MUL: {"+"}}[x.Op]
					for _, a := range alt {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a, "op")
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit(x.Pos(), x.End(), txt(x.X), "drop-right")
						emit(x.Pos(), x.End(), txt(x.Y), "drop-left")
					}
				case *ast.BasicLit:
					switch x.Kind {
					case token.INT:
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							emit(x.Pos(), x.End(), fmt.Sprint(v+1), "int")
							if v > 0 {
								emit(x.Pos(), x.End(), fmt.Sprint(v-1), "int")
							}
						}
					case token.CHAR:
						emit(x.Pos(), x.End(), "'x'", "char")
					}
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "false && ("+txt(x.Cond)+")", "if-false")
					emit(x.Cond.Pos(), x.Cond.End(), "true || ("+txt(x.Cond)+")", "if-true")
				case *ast.ExprStmt:
					emit(x.Pos(), x.End(), "", "del")
				case *ast.IncDecStmt:
					emit(x.Pos(), x.End(), "", "del")
				case *ast.DeferStmt:
					emit(x.Pos(), x.End(), "", "del")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(x.Pos(), x.End(), "", "del")
					}
				case *ast.BranchStmt:
					if x.Label == nil && x.Tok == token.CONTINUE {
						emit(x.Pos(), x.End(), "break", "branch")
					}
					if x.Label == nil && x.Tok == token.BREAK {
						emit(x.Pos(), x.End(), "continue", "branch")
					}
				case *ast.ReturnStmt:
					if len(x.Results) > 0 {
						if id, ok := x.Results[len(x.Results)-1].(*ast.Ident); ok && id.Name == "err" {
							emit(id.Pos(), id.End(), "nil", "err-nil")
						}
					}
				case *ast.SliceExpr:
					if x.Slice3 {
						emit(x.Pos(), x.End(), txt(x.X)+"["+txt2(src, off, x.Low)+":"+txt2(src, off, x.High)+"]", "slice3")
					}
				case *ast.CallExpr:
					for i := range x.Args {
						if i+1 < len(x.Args) {
							a, b := x.Args[i], x.Args[i+1]
							emit(a.Pos(), b.End(), txt(b)+", "+txt(a), "swap")
						}
						if id, ok := x.Args[i].(*ast.Ident); ok && (id.Name == "depth" || id.Name == "cursor" || id.Name == "start") {
							emit(id.Pos(), id.End(), id.Name+"+1", "arg")
						}
					}
				}
				return true
			})
		}
	}
}

func txt2(src []byte, off func(token.Pos) int, e ast.Expr) string {
	if e == nil {
		return ""
	}
	return string(src[off(e.Pos()):off(e.End())])
}
