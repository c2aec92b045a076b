// Gen writes the mutants of Go files as JSON lines: {file, off, end, new, op}.
// A development aid; no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Op   string `json:"op"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(p, e token.Pos, new, op string) {
			enc.Encode(mut{name, fs.Position(p).Line, off(p), off(e), new, op})
		}
		ops := map[token.Token][]string{
			token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
		}
		stmts := func(list []ast.Stmt) {
			for i, s := range list {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.DeferStmt, *ast.IncDecStmt, *ast.SendStmt:
					emit(s.Pos(), s.End(), "", "delete "+text(s))
				case *ast.GoStmt:
				case *ast.AssignStmt:
					if s.Tok == token.ASSIGN {
						emit(s.Pos(), s.End(), "", "delete "+text(s))
						// blank: keeps what is used
						if len(s.Lhs) == 1 && len(s.Rhs) == 1 {
							emit(s.Pos(), s.End(), "_ = "+text(s.Rhs[0]), "blank "+text(s))
						}
					}
				case *ast.BranchStmt:
					if s.Tok == token.CONTINUE {
						emit(s.Pos(), s.End(), "break", "continue->break")
					} else if s.Tok == token.BREAK {
						emit(s.Pos(), s.End(), "continue", "break->continue")
					}
					emit(s.Pos(), s.End(), "", "delete "+text(s))
				case *ast.IfStmt:
					if s.Else == nil && s.Init == nil {
						emit(s.Pos(), s.End(), "", "delete if "+text(s.Cond))
					}
				case *ast.ReturnStmt:
					if len(s.Results) == 0 {
						emit(s.Pos(), s.End(), "", "delete return")
					}
					for _, r := range s.Results {
						if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
							emit(r.Pos(), r.End(), "nil", "return err->nil")
						}
						if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
							emit(r.Pos(), r.End(), map[string]string{"true": "false", "false": "true"}[id.Name], "return flip")
						}
					}
				}
				// Swap with the next.
				if i+1 < len(list) {
					n := list[i+1]
					_, r1 := s.(*ast.ReturnStmt)
					_, r2 := n.(*ast.ReturnStmt)
					if !r1 && !r2 {
						emit(s.Pos(), n.End(), text(n)+"\n"+text(s), "swap "+text(s)+" <-> "+text(n))
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
				if len(n.List) > 1 {
					for i, x := range n.List {
						s, e := x.Pos(), x.End()
						if i+1 < len(n.List) {
							e = n.List[i+1].Pos()
						} else {
							s = n.List[i-1].End()
						}
						emit(s, e, "", "drop case "+text(x))
					}
				} else if len(n.List) == 1 {
					if len(n.Body) == 0 {
						emit(n.Pos(), n.End(), "", "drop case clause "+text(n.List[0]))
					}
				}
			case *ast.CommClause:
				stmts(n.Body)
				if n.Comm != nil {
					emit(n.Pos(), n.End(), "", "drop comm clause "+text(n.Comm))
				}
			case *ast.IfStmt:
				emit(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate "+text(n.Cond))
				emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "never "+text(n.Cond))
				emit(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") || true", "always "+text(n.Cond))
			case *ast.BinaryExpr:
				for _, o := range ops[n.Op] {
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o, n.Op.String()+" -> "+o+" in "+text(n))
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit(n.Pos(), n.End(), text(n.X), "only left of "+text(n))
					emit(n.Pos(), n.End(), text(n.Y), "only right of "+text(n))
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						emit(n.Pos(), n.End(), fmt.Sprint(v+1), n.Value+" -> +1")
						if v > 0 {
							emit(n.Pos(), n.End(), fmt.Sprint(v-1), n.Value+" -> -1")
						}
					}
				case token.STRING:
					if v, err := strconv.Unquote(n.Value); err == nil && len(v) > 0 && len(v) < 25 {
						emit(n.Pos(), n.End(), strconv.Quote(v+"x"), n.Value+" -> +x")
						emit(n.Pos(), n.End(), `""`, n.Value+" -> empty")
					}
				}
			case *ast.CallExpr:
				// Replace a call by one of its arguments of the same kind is left to the compiler.
				if len(n.Args) == 1 {
					emit(n.Pos(), n.End(), text(n.Args[0]), "unwrap "+text(n))
				}
				if sel, ok := n.Fun.(*ast.SelectorExpr); ok {
					alt := map[string]string{"RLock": "Lock", "Lock": "RLock", "RUnlock": "Unlock", "Unlock": "RUnlock", "Broadcast": "Signal",
						"LoadOrStore": "Swap", "Add": "Set", "Set": "Add", "Before": "After", "After": "Before", "Get": "Values", "Store": "LoadOrStore"}
					if a := alt[sel.Sel.Name]; a != "" {
						emit(sel.Sel.Pos(), sel.Sel.End(), a, text(n)+" -> "+a)
					}
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit(n.Pos(), n.End(), text(n.X), "drop ! of "+text(n.X))
				}
			}
			return true
		})
	}
}
