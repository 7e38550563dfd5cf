// mutate prints every small change of a Go file: one JSON object a line, with
// the range of bytes, the new text and what it does.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type edit struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Fn   string `json:"fn"`
	Lo   int    `json:"lo"`
	Hi   int    `json:"hi"`
	New  string `json:"new"`
	What string `json:"what"`
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[2:] {
		src, err := os.ReadFile(root + "/" + name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(a, b token.Pos) string { return string(src[off(a):off(b)]) }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn := fd.Name.Name
			put := func(a, b token.Pos, s, what string, args ...any) {
				enc.Encode(edit{name, fset.Position(a).Line, fn, off(a), off(b), s, fmt.Sprintf(what, args...)})
			}
			short := func(n ast.Node) string {
				s := text(n.Pos(), n.End())
				if len(s) > 60 {
					s = s[:60] + "..."
				}
				return strconv.Quote(s)
			}
			stmts := func(list []ast.Stmt) {
				for i, s := range list {
					switch t := s.(type) {
					case *ast.ExprStmt, *ast.SendStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.BranchStmt, *ast.ReturnStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SelectStmt, *ast.SwitchStmt:
						put(s.Pos(), s.End(), "", "delete %s", short(s))
					case *ast.AssignStmt:
						if t.Tok != token.DEFINE {
							put(s.Pos(), s.End(), "", "delete %s", short(s))
						}
					}
					switch t := s.(type) {
					case *ast.DeferStmt:
						put(s.Pos(), t.Call.Pos(), "", "no defer %s", short(s))
					case *ast.GoStmt:
						put(s.Pos(), t.Call.Pos(), "", "no go %s", short(s))
					case *ast.ExprStmt:
						if _, ok := t.X.(*ast.CallExpr); ok {
							put(s.Pos(), s.Pos(), "defer ", "defer %s", short(s))
							put(s.Pos(), s.Pos(), "go ", "go %s", short(s))
							put(s.Pos(), s.End(), text(s.Pos(), s.End())+"\n"+text(s.Pos(), s.End()), "twice %s", short(s))
						}
					case *ast.BranchStmt:
						switch t.Tok {
						case token.BREAK:
							put(s.Pos(), s.End(), "continue", "break to continue")
						case token.CONTINUE:
							put(s.Pos(), s.End(), "break", "continue to break")
						}
					}
					if i+1 < len(list) {
						n := list[i+1]
						put(s.Pos(), n.End(), text(n.Pos(), n.End())+"\n"+text(s.Pos(), s.End()), "swap %s and %s", short(s), short(n))
					}
				}
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch t := n.(type) {
				case *ast.BlockStmt:
					stmts(t.List)
				case *ast.CaseClause:
					stmts(t.Body)
					put(t.Pos(), t.End(), "", "delete %s", short(t))
				case *ast.CommClause:
					stmts(t.Body)
					put(t.Pos(), t.End(), "", "delete %s", short(t))
				case *ast.IfStmt:
					c := text(t.Cond.Pos(), t.Cond.End())
					put(t.Cond.Pos(), t.Cond.End(), "!("+c+")", "negate %s", c)
					put(t.Cond.Pos(), t.Cond.End(), "("+c+") || true", "always %s", c)
					put(t.Cond.Pos(), t.Cond.End(), "("+c+") && false", "never %s", c)
					if t.Else != nil {
						put(t.Body.End(), t.Else.End(), "", "no else of %s", c)
					}
				case *ast.ForStmt:
					if t.Cond != nil {
						c := text(t.Cond.Pos(), t.Cond.End())
						put(t.Cond.Pos(), t.Cond.End(), "("+c+") || true", "for always %s", c)
					}
				case *ast.BinaryExpr:
					alt := map[token.Token][]string{
						token.LAND: {"||"}, token.LOR: {"&&"}, token.EQL: {"!="}, token.NEQ: {"=="},
						token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
						token.ADD: {"-"}, token.SUB: {"+"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.OR: {"&"}, token.AND: {"|"}, token.MUL: {"+"},
					}
					for _, a := range alt[t.Op] {
						put(t.OpPos, t.OpPos+token.Pos(len(t.Op.String())), a, "%s for %s in %s", a, t.Op, short(t))
					}
					if t.Op == token.LAND || t.Op == token.LOR {
						put(t.Pos(), t.End(), text(t.X.Pos(), t.X.End()), "left only of %s", short(t))
						put(t.Pos(), t.End(), text(t.Y.Pos(), t.Y.End()), "right only of %s", short(t))
					}
				case *ast.UnaryExpr:
					if t.Op == token.NOT {
						put(t.Pos(), t.X.Pos(), "", "no ! in %s", short(t))
					}
				case *ast.BasicLit:
					switch t.Kind {
					case token.INT:
						if v, err := strconv.ParseInt(t.Value, 0, 64); err == nil {
							put(t.Pos(), t.End(), fmt.Sprint(v+1), "%d for %s", v+1, t.Value)
							if v > 0 {
								put(t.Pos(), t.End(), fmt.Sprint(v-1), "%d for %s", v-1, t.Value)
							}
						}
					case token.STRING:
						if t.Value == `""` {
							put(t.Pos(), t.End(), `"x"`, "text for empty")
						} else {
							put(t.Pos(), t.End(), `""`, "empty for %s", t.Value)
						}
					}
				case *ast.Ident:
					switch t.Name {
					case "true":
						put(t.Pos(), t.End(), "false", "false for true")
					case "false":
						put(t.Pos(), t.End(), "true", "true for false")
					}
				case *ast.ReturnStmt:
					for _, r := range t.Results {
						if id, ok := r.(*ast.Ident); ok && id.Name == "nil" {
							continue
						}
						put(r.Pos(), r.End(), "nil", "return nil for %s", short(r))
					}
				case *ast.KeyValueExpr:
					put(t.Pos(), t.End(), "", "no %s", short(t))
				case *ast.CallExpr:
					for i, a := range t.Args {
						if id, ok := a.(*ast.Ident); ok && id.Name == "nil" {
							continue
						}
						put(a.Pos(), a.End(), "nil", "nil for %s of %s", short(a), short(t))
						if i+1 < len(t.Args) {
							b := t.Args[i+1]
							put(a.Pos(), b.End(), text(b.Pos(), b.End())+", "+text(a.Pos(), a.End()), "swap arguments of %s", short(t))
						}
					}
				}
				return true
			})
		}
	}
}
