// Lists the mutants of Go files: one JSON object {file, start, end, new, what, line} per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	What  string `json:"what"`
}

var swaps = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<", "=="}, token.GTR: {">=", "<"}, token.GEQ: {">", "=="},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(a, b token.Pos, s, what string) {
			enc.Encode(mutant{name, fs.Position(a).Line, off(a), off(b), s, what})
		}
		cond := func(e ast.Expr) {
			if e == nil {
				return
			}
			emit(e.Pos(), e.End(), "("+text(e)+") || true", "condition always true")
			emit(e.Pos(), e.End(), "("+text(e)+") && false", "condition always false")
		}
		list := func(l []ast.Stmt) {
			for _, s := range l {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt:
					emit(s.Pos(), s.End(), "", "statement removed")
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						new := ""
						for i, r := range s.Rhs { // keeps variables in use
							if i > 0 {
								new += "; "
							}
							new += "_ = " + text(r)
						}
						emit(s.Pos(), s.End(), new, "assignment removed")
					}
				case *ast.BranchStmt:
					emit(s.Pos(), s.End(), "", s.Tok.String()+" removed")
				case *ast.ReturnStmt:
					if len(s.Results) == 0 {
						emit(s.Pos(), s.End(), "", "return removed")
					}
				}
			}
			for i := 0; i+1 < len(l); i++ { // neighbours swapped
				a, b := l[i], l[i+1]
				simple := func(s ast.Stmt) bool {
					switch s := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt:
						return true
					case *ast.AssignStmt:
						return s.Tok != token.DEFINE
					}
					return false
				}
				if simple(a) && simple(b) && !(strings.HasPrefix(text(a), "p.register") && strings.HasPrefix(text(b), "p.register")) {
					emit(a.Pos(), b.End(), text(b)+"; "+text(a), "statements swapped")
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				for _, s := range swaps[n.Op] {
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s, n.Op.String()+" -> "+s)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit(n.Pos(), n.End(), text(n.X), "right operand dropped")
					emit(n.Pos(), n.End(), text(n.Y), "left operand dropped")
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit(n.Pos(), n.End(), text(n.X), "negation dropped")
				}
			case *ast.IfStmt:
				cond(n.Cond)
				if n.Else != nil {
					emit(n.Body.End(), n.Else.End(), "", "else removed")
				}
			case *ast.ForStmt:
				cond(n.Cond)
			case *ast.BlockStmt:
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
				if len(n.List) > 1 {
					for i, e := range n.List {
						if i == 0 {
							emit(e.Pos(), n.List[1].Pos(), "", "case value removed: "+text(e))
						} else {
							emit(n.List[i-1].End(), e.End(), "", "case value removed: "+text(e))
						}
					}
				}
				emit(n.Pos(), n.End(), "", "case removed")
			case *ast.CompositeLit:
				for i, e := range n.Elts {
					if i+1 < len(n.Elts) {
						emit(e.Pos(), n.Elts[i+1].Pos(), "", "element removed: "+text(e))
					} else {
						end := n.Rbrace
						emit(e.Pos(), end, "", "element removed: "+text(e))
					}
				}
			case *ast.ReturnStmt:
				for _, e := range n.Results {
					if id, ok := e.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
						emit(e.Pos(), e.End(), map[string]string{"true": "false", "false": "true"}[id.Name], "returned boolean")
					} else if ok && id.Name == "err" {
						emit(e.Pos(), e.End(), "nil", "error not returned")
					}
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						emit(n.Pos(), n.End(), fmt.Sprint(v+1), "integer +1")
						if v > 0 {
							emit(n.Pos(), n.End(), fmt.Sprint(v-1), "integer -1")
						}
					}
				case token.CHAR:
					if r, _, _, err := strconv.UnquoteChar(n.Value[1:], '\''); err == nil {
						emit(n.Pos(), n.End(), strconv.QuoteRune(r+1), "character +1")
						emit(n.Pos(), n.End(), strconv.QuoteRune(r-1), "character -1")
					}
				case token.STRING:
					emit(n.Pos(), n.End(), "("+n.Value+" + \"x\")", "string changed")
					if n.Value != `""` {
						emit(n.Pos(), n.End(), `""`, "string emptied")
					}
				}
			case *ast.Field:
				if n.Tag != nil {
					return false
				}
			}
			return true
		})
	}
}
