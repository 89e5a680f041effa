// Command mutgen prints small syntactic changes of a Go file, as JSON lines
// with the byte range to replace. Development only, see amut.py.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File       string
	Start, End int
	New, Desc  string
	Line       int
	Fn         string
}

func main() {
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		gen(f, string(src))
	}
}

// noDef says whether the statement can be moved past its neighbour.
func noDef(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt:
		return true
	case *ast.AssignStmt:
		return x.Tok != token.DEFINE
	case *ast.IfStmt:
		return x.Init == nil
	}
	return false
}

func gen(name, src string) {
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	fn := ""
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return src[off(n.Pos()):off(n.End())] }
	emit := func(n ast.Node, repl, desc string) {
		b, _ := json.Marshal(mutant{name, off(n.Pos()), off(n.End()), repl, desc, fset.Position(n.Pos()).Line, fn})
		fmt.Println(string(b))
	}
	short := func(s string) string {
		s = strings.Join(strings.Fields(s), " ")
		if len(s) > 70 {
			s = s[:70]
		}
		return s
	}
	stmts := func(list []ast.Stmt) {
		for i, s := range list {
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.GoStmt, *ast.SendStmt:
				emit(s, "", "delete "+short(text(s)))
			case *ast.DeferStmt:
				emit(s, "", "delete "+short(text(s)))
				if _, lit := x.Call.Fun.(*ast.FuncLit); !lit {
					emit(s, text(x.Call), "undefer "+short(text(s)))
				}
			case *ast.BranchStmt:
				if x.Tok == token.BREAK || x.Tok == token.CONTINUE {
					emit(s, "", "delete "+text(s))
				}
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					emit(s, "", "delete "+short(text(s)))
				}
			case *ast.IfStmt:
				if x.Else == nil && x.Init == nil {
					emit(s, "", "delete "+short(text(s)))
				}
			case *ast.SwitchStmt:
			}
			if i+1 < len(list) {
				swap := func(s ast.Stmt) bool {
					switch s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt:
						return true
					}
					return false
				}
				if swap(s) != swap(list[i+1]) && noDef(s) && noDef(list[i+1]) || swap(s) && swap(list[i+1]) {
					a, b := off(s.Pos()), off(list[i+1].End())
					bb, _ := json.Marshal(mutant{name, a, b, text(list[i+1]) + "\n" + text(s), "swap " + short(text(s)) + " <-> " + short(text(list[i+1])), fset.Position(s.Pos()).Line, fn})
					fmt.Println(string(bb))
				}
			}
		}
	}
	ast.Inspect(file, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			fn = x.Name.Name
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
			if len(x.List) > 1 {
				for i := range x.List {
					var rest []string
					for j, e := range x.List {
						if i != j {
							rest = append(rest, text(e))
						}
					}
					a, b := off(x.List[0].Pos()), off(x.List[len(x.List)-1].End())
					bb, _ := json.Marshal(mutant{name, a, b, strings.Join(rest, ", "), "drop case " + text(x.List[i]), fset.Position(x.List[i].Pos()).Line, fn})
					fmt.Println(string(bb))
				}
			}
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.IfStmt:
			emit(x.Cond, "!("+text(x.Cond)+")", "negate "+short(text(x.Cond)))
		case *ast.BinaryExpr:
			l, r := text(x.X), text(x.Y)
			op := func(o string) { emit(x, l+" "+o+" "+r, short(text(x))+" => "+o) }
			switch x.Op {
			case token.LAND, token.LOR:
				emit(x, l, "keep left of "+short(text(x)))
				emit(x, r, "keep right of "+short(text(x)))
			case token.LSS:
				op("<=")
			case token.LEQ:
				op("<")
			case token.GTR:
				op(">=")
			case token.GEQ:
				op(">")
			case token.ADD:
				op("-")
			case token.SUB:
				op("+")
			case token.MUL:
				op("+")
			case token.QUO:
				op("*")
			case token.AND:
				op("|")
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				emit(x, text(x.X), "drop ! of "+short(text(x)))
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					emit(x, fmt.Sprint(v+1), fmt.Sprintf("%s => %d", x.Value, v+1))
					if v > 0 {
						emit(x, fmt.Sprint(v-1), fmt.Sprintf("%s => %d", x.Value, v-1))
					}
				}
			}
		case *ast.Ident:
			if x.Obj == nil && (x.Name == "true" || x.Name == "false") {
				m := map[string]string{"true": "false", "false": "true"}
				emit(x, m[x.Name], x.Name+" => "+m[x.Name])
			}
		case *ast.ReturnStmt:
			if k := len(x.Results); k > 0 {
				if id, ok := x.Results[k-1].(*ast.Ident); ok && id.Name == "err" {
					emit(id, "nil", "return nil instead of err")
				}
				if c, ok := x.Results[k-1].(*ast.CallExpr); ok && strings.Contains(text(c.Fun), "rror") {
					emit(c, "nil", "return nil instead of "+short(text(c)))
				}
			}
		case *ast.CallExpr:
			if len(x.Args) == 2 && text(x.Args[0]) != text(x.Args[1]) {
				bb, _ := json.Marshal(mutant{name, off(x.Args[0].Pos()), off(x.Args[1].End()), text(x.Args[1]) + ", " + text(x.Args[0]), "swap arguments of " + short(text(x)), fset.Position(x.Pos()).Line, fn})
				fmt.Println(string(bb))
			}
			if s, ok := x.Fun.(*ast.SelectorExpr); ok && len(x.Args) == 1 {
				_ = s
				emit(x, text(x.Args[0]), "drop call "+short(text(x)))
			}
		}
		return true
	})
}
