// Command mutate writes small changes of the repository, one JSON object per line: file, line, description, byte range and
// replacement. (Used by ../mutants.py to look for gaps of the checks.)
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mutant struct {
	File     string
	Line     int
	Func     string
	What     string
	From, To int
	Text     string
}

func main() {
	repo := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[2:] {
		src, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		fn := ""
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(n ast.Node, from, to token.Pos, repl, what string) {
			old := string(src[off(from):off(to)])
			if i := strings.IndexByte(old, '\n'); i >= 0 {
				old = old[:i] + "..."
			}
			enc.Encode(mutant{f, fset.Position(n.Pos()).Line, fn, fmt.Sprintf("%s: %s -> %s", what, old, repl), off(from), off(to), repl})
		}
		ops := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}}
		for _, d := range file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					if x.Op == token.ADD && (strings.Contains(text(x), `"`)) {
						break
					}
					for _, o := range ops[x.Op] {
						emit(x, x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, "operator in "+text(x))
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit(x, x.Pos(), x.End(), text(x.X), "only the left")
						emit(x, x.Pos(), x.End(), text(x.Y), "only the right")
					}
				case *ast.IfStmt:
					emit(x, x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negated")
					emit(x, x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never")
					emit(x, x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "always")
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit(x, x.Pos(), x.End(), text(x.X), "not negated")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.Atoi(x.Value); err == nil {
							emit(x, x.Pos(), x.End(), strconv.Itoa(v+1), "constant")
							if v > 0 {
								emit(x, x.Pos(), x.End(), strconv.Itoa(v-1), "constant")
							}
						}
					}
				case *ast.BranchStmt:
					if x.Label == nil && x.Tok == token.CONTINUE {
						emit(x, x.Pos(), x.End(), "break", "branch")
					}
					emit(x, x.Pos(), x.End(), "", "branch deleted")
				case *ast.BlockStmt:
					for _, s := range x.List {
						stmt(s, text, func(repl, what string) { emit(s, s.Pos(), s.End(), repl, what) })
					}
				case *ast.CaseClause:
					for _, s := range x.Body {
						stmt(s, text, func(repl, what string) { emit(s, s.Pos(), s.End(), repl, what) })
					}
					for i, e := range x.List {
						if len(x.List) > 1 {
							to := e.End()
							from := e.Pos()
							if i+1 < len(x.List) {
								to = x.List[i+1].Pos()
							} else {
								from = x.List[i-1].End()
							}
							emit(e, from, to, "", "case value deleted")
						}
					}
				case *ast.ReturnStmt:
					for _, e := range x.Results {
						switch id := e.(type) {
						case *ast.Ident:
							switch id.Name {
							case "true":
								emit(e, e.Pos(), e.End(), "false", "result")
							case "false":
								emit(e, e.Pos(), e.End(), "true", "result")
							case "err":
								emit(e, e.Pos(), e.End(), "nil", "result")
							}
						case *ast.CallExpr:
							if strings.HasPrefix(text(e), "fmt.Errorf") || strings.HasPrefix(text(e), "errors.New") {
								emit(e, e.Pos(), e.End(), "nil", "result")
							}
						}
					}
				case *ast.KeyValueExpr:
					emit(x, x.Pos(), x.Value.End()+1, "", "field deleted")
				case *ast.DeferStmt:
				}
				return true
			})
		}
	}
}

func stmt(s ast.Stmt, text func(ast.Node) string, emit func(repl, what string)) {
	switch x := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt:
		emit("", "deleted")
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			emit("", "deleted")
		} else if len(x.Lhs) == 1 {
			emit("var "+text(x.Lhs[0])+" = *new(T)", "zero")
		}
	case *ast.ForStmt, *ast.RangeStmt:
		emit("", "loop deleted")
	}
}
