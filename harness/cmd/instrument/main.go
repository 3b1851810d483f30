// Command instrument writes a go build overlay in which the given packages of
// a repository yield to verif.local/harness/vsched before every statement and
// use its cooperative versions of sync and sync/atomic.
//
//	instrument -repo /repo -out DIR [pkgdir...]
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	from, to int
	text     string
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	sleep := flag.String("sleep", "", "only divide the durations waited for by this")
	flag.Parse()
	replace := map[string]string{}
	for _, dir := range flag.Args() {
		files, err := filepath.Glob(filepath.Join(*repo, dir, "*.go"))
		check(err)
		for _, file := range files {
			if strings.HasSuffix(file, "_test.go") {
				continue
			}
			src, err := os.ReadFile(file)
			check(err)
			var res []byte
			if *sleep != "" {
				res, err = shorten(file, src, *sleep)
			} else {
				res, err = instrument(file, src)
			}
			if err != nil {
				fmt.Fprintln(os.Stderr, "instrument: leaving", file, "alone:", err)
				continue
			}
			dst := filepath.Join(*out, strings.ReplaceAll(strings.TrimPrefix(file, "/"), "/", "__"))
			check(os.WriteFile(dst, res, 0o644))
			replace[file] = dst
		}
	}
	data, err := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	check(err)
	check(os.WriteFile(filepath.Join(*out, "overlay.json"), data, 0o644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(1)
	}
}

// waits are the functions of package time whose first argument is a duration
// to wait for.
var waits = map[string]bool{"Sleep": true, "NewTicker": true, "Tick": true, "After": true, "NewTimer": true, "AfterFunc": true}

// shorten divides what is passed to the functions that wait.
func shorten(name string, src []byte, by string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	timeName := ""
	for _, imp := range f.Imports {
		if imp.Path.Value == `"time"` {
			timeName = "time"
			if imp.Name != nil {
				timeName = imp.Name.Name
			}
		}
	}
	var edits []edit
	ast.Inspect(f, func(n ast.Node) bool {
		call, ok := n.(*ast.CallExpr)
		if !ok || len(call.Args) == 0 {
			return true
		}
		if sel, ok := call.Fun.(*ast.SelectorExpr); ok && waits[sel.Sel.Name] {
			if x, ok := sel.X.(*ast.Ident); ok && timeName != "" && x.Name == timeName {
				edits = append(edits, edit{off(call.Args[0].Pos()), off(call.Args[0].Pos()), "("},
					edit{off(call.Args[0].End()), off(call.Args[0].End()), ") / " + by + " + 1"})
			}
		}
		return true
	})
	return apply(src, edits, "", fset, f)
}

func instrument(name string, src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var edits []edit
	tail := "\nvar _ = vsched__.Yield\n"
	runtimeName, timeName := "", ""
	for _, imp := range f.Imports {
		alias := ""
		if imp.Name != nil {
			alias = imp.Name.Name
		}
		switch imp.Path.Value {
		case `"sync"`:
			repl := `"verif.local/harness/vsync"`
			if alias == "" {
				repl = "sync " + repl
			}
			edits = append(edits, edit{off(imp.Path.Pos()), off(imp.Path.End()), repl})
		case `"sync/atomic"`:
			repl := `"verif.local/harness/vatomic"`
			if alias == "" {
				repl = "atomic " + repl
			}
			edits = append(edits, edit{off(imp.Path.Pos()), off(imp.Path.End()), repl})
		case `"runtime"`:
			runtimeName = alias
			if alias == "" {
				runtimeName = "runtime"
			}
		case `"time"`:
			timeName = alias
			if alias == "" {
				timeName = "time"
			}
		case `"C"`:
			return nil, fmt.Errorf("cgo")
		}
	}
	edits = append(edits, edit{off(f.Name.End()), off(f.Name.End()),
		`; import vsched__ "verif.local/harness/vsched"`})

	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			edits = append(edits, edit{off(s.Pos()), off(s.Pos()), "vsched__.Yield(); "})
		}
	}
	usesGosched := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.CallExpr:
			if sel, ok := n.Fun.(*ast.SelectorExpr); ok && waits[sel.Sel.Name] && len(n.Args) > 0 {
				if x, ok := sel.X.(*ast.Ident); ok && timeName != "" && x.Name == timeName {
					edits = append(edits, edit{off(n.Args[0].Pos()), off(n.Args[0].Pos()), "vsched__.Long("},
						edit{off(n.Args[0].End()), off(n.Args[0].End()), ")"})
				}
			}
		case *ast.SelectorExpr:
			if x, ok := n.X.(*ast.Ident); ok && runtimeName != "" && x.Name == runtimeName && n.Sel.Name == "Gosched" {
				edits = append(edits, edit{off(n.Pos()), off(n.End()), "vsched__.Gosched"})
				usesGosched = true
			}
		case *ast.GoStmt:
			if _, ok := n.Call.Fun.(*ast.FuncLit); ok && len(n.Call.Args) == 0 {
				// go func() {...}()  =>  vsched__.Go(func() {...})
				edits = append(edits, edit{off(n.Pos()), off(n.Call.Pos()), "vsched__.Go("})
				edits = append(edits, edit{off(n.Call.Lparen), off(n.Call.Rparen) + 1, ")"})
				return true
			}
			var names, vals, args []string
			names = append(names, "go__f")
			vals = append(vals, text(n.Call.Fun))
			for i, a := range n.Call.Args {
				switch a.(type) {
				case *ast.BasicLit, *ast.FuncLit:
					args = append(args, text(a))
				default:
					if id, ok := a.(*ast.Ident); ok && id.Name == "nil" {
						args = append(args, "nil")
						continue
					}
					names = append(names, fmt.Sprintf("go__%d", i))
					vals = append(vals, text(a))
					args = append(args, fmt.Sprintf("go__%d", i))
				}
			}
			ell := ""
			if n.Call.Ellipsis.IsValid() {
				ell = "..."
			}
			edits = append(edits, edit{off(n.Pos()), off(n.End()),
				fmt.Sprintf("{ %s := %s; vsched__.Go(func() { go__f(%s%s) }) }",
					strings.Join(names, ", "), strings.Join(vals, ", "), strings.Join(args, ", "), ell)})
			return false
		}
		return true
	})
	if usesGosched {
		tail += "\nvar _ = " + runtimeName + ".NumCPU\n"
	}
	return apply(src, edits, tail, fset, f)
}

func apply(src []byte, edits []edit, tail string, fset *token.FileSet, f *ast.File) ([]byte, error) {
	// no statements directly in the block of a switch or select
	bad := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CaseClause, *ast.CommClause:
			bad[fset.Position(n.Pos()).Offset] = true
		}
		return true
	})
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].from != edits[j].from {
			return edits[i].from < edits[j].from
		}
		return edits[i].to < edits[j].to
	})
	var b strings.Builder
	pos := 0
	for _, e := range edits {
		if e.from == e.to && bad[e.from] && strings.HasPrefix(e.text, "vsched__.Yield") {
			continue
		}
		if e.from < pos {
			return nil, fmt.Errorf("overlapping edits")
		}
		b.Write(src[pos:e.from])
		b.WriteString(e.text)
		pos = e.to
	}
	b.Write(src[pos:])
	b.WriteString(tail)
	return []byte(b.String()), nil
}
