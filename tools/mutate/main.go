// mutate lists small changes of Go files (one JSON object a line): mutate FILE...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Func string `json:"func"`
	Desc string `json:"desc"`
}

var swap = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, p := range os.Args[1:] {
		src, err := os.ReadFile(p)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			emit := func(a, b token.Pos, n, desc string) {
				pa := fs.Position(a)
				if b < a {
					return
				}
				enc.Encode(mutant{p, pa.Line, pa.Offset, fs.Position(b).Offset, n, fd.Name.Name, desc})
			}
			text := func(n ast.Node) string { return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset]) }
			quiet := func(s string) bool {
				return strings.HasPrefix(s, "logger.") || strings.Contains(s, "trace.") && strings.Contains(s, "span") || strings.HasPrefix(s, "addSpan") || strings.HasPrefix(s, "fmt.Print")
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ExprStmt:
					if quiet(text(x)) {
						return false
					}
					emit(x.Pos(), x.End(), "", "drop "+text(x))
				case *ast.DeferStmt:
					emit(x.Pos(), x.End(), "", "drop "+text(x))
				case *ast.IncDecStmt:
					emit(x.Pos(), x.End(), "", "drop "+text(x))
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(x.Pos(), x.End(), "", "drop "+text(x))
					}
					if x.Tok == token.ADD_ASSIGN {
						emit(x.TokPos, x.TokPos+2, "=", "+= to =")
					}
				case *ast.BranchStmt:
					if x.Tok == token.CONTINUE && x.Label == nil {
						emit(x.Pos(), x.End(), "break", "continue to break")
					}
					if x.Tok == token.BREAK && x.Label == nil {
						emit(x.Pos(), x.End(), "continue", "break to continue")
					}
				case *ast.IfStmt:
					c := text(x.Cond)
					emit(x.Cond.Pos(), x.Cond.End(), "!("+c+")", "negate "+c)
					if x.Init == nil {
						emit(x.Cond.Pos(), x.Cond.End(), "("+c+") && false", "never "+c)
					}
				case *ast.BinaryExpr:
					for _, s := range swap[x.Op] {
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, fmt.Sprintf("%s: %s to %s", text(x), x.Op, s))
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, err := strconv.ParseInt(x.Value, 0, 64)
						if err == nil {
							emit(x.Pos(), x.End(), strconv.FormatInt(v+1, 10), fmt.Sprintf("%s to %d", x.Value, v+1))
						}
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok && (strings.HasSuffix(strings.ToLower(id.Name), "err")) {
							emit(r.Pos(), r.End(), "nil", "return "+id.Name+" as nil")
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit(x.Pos(), x.End(), "false", "true to false")
					} else if x.Name == "false" {
						emit(x.Pos(), x.End(), "true", "false to true")
					}
				case *ast.CallExpr:
					if quiet(text(x)) {
						return false
					}
					// two arguments the other way round
					for i := 0; i+1 < len(x.Args); i++ {
						a, b := text(x.Args[i]), text(x.Args[i+1])
						if a != b && a != "ctx" {
							emit(x.Args[i].Pos(), x.Args[i+1].End(), b+", "+a, "swap arguments of "+text(x.Fun)+": "+a+", "+b)
						}
					}
				case *ast.KeyValueExpr:
					if id, ok := x.Key.(*ast.Ident); ok && id.Name[0] >= 'A' && id.Name[0] <= 'Z' {
						emit(x.Pos(), x.End(), "", "drop field "+text(x))
					}
				}
				return true
			})
		}
	}
}
