// Command mutate lists or applies small changes to Go source files.
//
//	mutate -list FILE...         one JSON object per mutant
//	mutate -apply N FILE         writes the Nth mutant of FILE to stdout
//
// It is used to look for changes the checks do not notice; no check uses it.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type edit struct {
	start, end int
	text       string
	desc       string
	line       int
}

func mutants(file string) (src []byte, edits []edit) {
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	add := func(n ast.Node, repl, op string) {
		old := text(n)
		if len(old) > 60 {
			old = old[:60] + "..."
		}
		edits = append(edits, edit{off(n.Pos()), off(n.End()), repl, fmt.Sprintf("%s: %s => %s", op, strings.ReplaceAll(old, "\n", " "), strings.ReplaceAll(repl, "\n", " ")), fset.Position(n.Pos()).Line})
	}
	cmp := map[token.Token][]string{token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}}
	var stmts func(list []ast.Stmt)
	stmts = func(list []ast.Stmt) {
		for i, s := range list {
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt:
				add(s, "", "delete")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					var blanks []string
					for _, r := range x.Rhs {
						blanks = append(blanks, "_ = "+text(r))
					}
					add(s, strings.Join(blanks, "; "), "delete")
				}
			case *ast.BranchStmt:
				if x.Tok == token.BREAK || x.Tok == token.CONTINUE {
					add(s, "", "delete")
				}
			case *ast.IfStmt:
				if x.Else == nil && x.Init == nil {
					add(x.Cond, "("+text(x.Cond)+") && false", "never")
				}
				if x.Init == nil {
					add(x.Cond, "("+text(x.Cond)+") || true", "always")
				}
			}
			// swap neighbours
			if i+1 < len(list) {
				_, a := s.(*ast.ExprStmt)
				_, b := list[i+1].(*ast.ExprStmt)
				_, a2 := s.(*ast.AssignStmt)
				_, b2 := list[i+1].(*ast.AssignStmt)
				if (a || a2) && (b || b2) && a != b || a && b {
					start, end := off(s.Pos()), off(list[i+1].End())
					repl := text(list[i+1]) + "\n" + text(s)
					edits = append(edits, edit{start, end, repl, "swap: " + strings.ReplaceAll(string(src[start:end]), "\n", " "), fset.Position(s.Pos()).Line})
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.Field:
			return true
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
			if len(x.Body) > 0 && x.List != nil {
				// a case that does nothing
			}
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.BinaryExpr:
			for _, r := range cmp[x.Op] {
				s := text(x)
				p := off(x.OpPos) - off(x.Pos())
				add(x, s[:p]+r+s[p+len(x.Op.String()):], "operator")
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x, text(x.X), "drop not")
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					add(x, strconv.FormatInt(v+1, 10), "literal")
					if v > 0 {
						add(x, strconv.FormatInt(v-1, 10), "literal")
					}
				}
			case token.FLOAT:
				add(x, "("+x.Value+"*0.5)", "literal")
			case token.STRING:
				if x.Value != `""` && !strings.HasPrefix(x.Value, "`") {
					add(x, `""`, "literal")
				}
			case token.CHAR:
				add(x, "'~'", "literal")
			}
		case *ast.Ident:
			if x.Name == "true" {
				add(x, "false", "literal")
			} else if x.Name == "false" {
				add(x, "true", "literal")
			}
		case *ast.CallExpr:
			// drop an argument's wrapper call: f(x) => x
			if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 && id.Name != "len" && id.Name != "make" && id.Name != "new" && id.Name != "append" {
				add(x, "("+text(x.Args[0])+")", "unwrap")
			}
			if len(x.Args) == 2 {
				s := text(x)
				a, b := x.Args[0], x.Args[1]
				add(x, s[:off(a.Pos())-off(x.Pos())]+text(b)+", "+text(a)+")", "swap args")
			}
		}
		return true
	})
	return src, edits
}

func main() {
	list := flag.Bool("list", false, "list mutants")
	apply := flag.Int("apply", -1, "mutant to apply")
	flag.Parse()
	for _, file := range flag.Args() {
		src, edits := mutants(file)
		if *list {
			for i, e := range edits {
				out, _ := json.Marshal(map[string]interface{}{"file": file, "n": i, "line": e.line, "desc": e.desc})
				fmt.Println(string(out))
			}
		} else {
			e := edits[*apply]
			os.Stdout.WriteString(string(src[:e.start]) + e.text + string(src[e.end:]))
		}
	}
}
