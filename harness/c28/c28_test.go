// C28: automatic names identify the calling function and package.
package c28

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"testing"
	"time"

	monkit "github.com/spacemonkeygo/monkit/v3"
	"pgregory.net/rapid"

	"verif.local/harness/kit"
)

func TestMain(m *testing.M) { kit.Main(m) }

// ---- generated programs ----

// node is a function literal, run in some way inside its parent's body.
type node struct {
	run  string // how the literal runs: call, defer, go, value
	kids []*node
	acts []string
}

// decl is a function declaration.
type decl struct {
	kind     string // func, method, pointer, generic, gmethod, gpointer, leaf...
	name     string
	recv     string
	want     string // its name
	noinline bool
	body     *node
	calls    []int // declarations called, later ones only
}

type pkg struct {
	path  string
	name  string
	decls []*decl
}

var idents = []string{"F", "aNameMuchLongerThanAnyoneWouldTypeButThatAGeneratorOfCodeMayWellComeUpWith_AndThenSomeMoreOfItAndThenSomeMoreOfItAndThenSomeMoreOfItAndThenSomeMoreOfItAndThenSomeMoreOfIt", "Run", "init1", "func1", "Größe", "名前", "X_y", "T1", "a", "Func", "Task"}

func drawNode(t *rapid.T, depth int) *node {
	n := &node{run: rapid.SampledFrom([]string{"call", "call", "defer", "go", "value"}).Draw(t, "run")}
	for i := rapid.IntRange(1, 3).Draw(t, "acts"); i > 0; i-- {
		n.acts = append(n.acts, rapid.SampledFrom([]string{"func", "func", "task", "package", "regpackage", "leaf", "shared", "direct"}).Draw(t, "act"))
	}
	if depth > 0 {
		for i := rapid.IntRange(0, 2).Draw(t, "literals"); i > 0; i-- {
			n.kids = append(n.kids, drawNode(t, depth-1))
		}
	}
	return n
}

func drawPkg(t *rapid.T, i int) *pkg {
	p := &pkg{name: fmt.Sprintf("p%d", i)}
	p.path = "gen.example/" + rapid.SampledFrom([]string{"", "x/", "x/y/", "v2/", "a.b/", "x-y/", "a/b/c.v2/d/", "a/b.c/d.e/f.g/h/i/", "d1/d2/d3/d4/d5/d6/"}).Draw(t, "dir") + p.name +
		rapid.SampledFrom([]string{"", "", "", ".v2", ".x.y", "-z"}).Draw(t, "last")
	n := rapid.IntRange(3, 12).Draw(t, "decls")
	for k := 0; k < n; k++ {
		d := &decl{kind: rapid.SampledFrom([]string{"func", "func", "method", "pointer", "generic", "gmethod", "gpointer", "init", "variable"}).Draw(t, "kind"),
			noinline: rapid.Bool().Draw(t, "noinline")}
		id := fmt.Sprintf("%s%d", rapid.SampledFrom(idents).Draw(t, "ident"), k)
		d.name = "E" + id
		switch d.kind {
		case "func", "init", "variable":
			d.want = d.name
		case "method":
			d.recv, d.want = "(r R"+id+")", "R"+id+"."+d.name
		case "pointer":
			d.recv, d.want = "(r *R"+id+")", "(*R"+id+")."+d.name
		case "generic":
			d.want = d.name + "[...]"
		case "gmethod":
			d.recv, d.want = "(r R"+id+"[X])", "R"+id+"[...]."+d.name
		case "gpointer":
			d.recv, d.want = "(r *R"+id+"[X])", "(*R"+id+"[...])."+d.name
		}
		d.body = drawNode(t, 2)
		for j := k + 1; j < n; j++ {
			if rapid.IntRange(0, 3).Draw(t, "calls") == 0 {
				d.calls = append(d.calls, j)
			}
		}
		p.decls = append(p.decls, d)
	}
	return p
}

// ref is an expression for the function or a method value.
func (d *decl) ref() string {
	id := strings.TrimPrefix(d.name, "E")
	switch d.kind {
	case "method":
		return "R" + id + "{}." + d.name
	case "pointer":
		return "(&R" + id + "{})." + d.name
	case "generic":
		return d.name + "[string]"
	case "gmethod":
		return "R" + id + "[int]{}." + d.name
	case "gpointer":
		return "(&R" + id + "[R" + "0x]{})." + d.name
	}
	return d.name
}

type writer struct {
	bytes.Buffer
	pkg    *pkg
	shared int
}

func (w *writer) printf(format string, args ...interface{}) { fmt.Fprintf(w, format, args...) }

// body writes the statements; want is an expression for the name of the
// function they are in.
func (w *writer) body(n *node, want string) {
	for i, a := range n.acts {
		switch a {
		case "func":
			w.printf("chk.Func(Mon.Func(), %s, %q)\n", want, w.pkg.path)
		case "task":
			w.printf("func() {}()\n{ ctx := context.Background(); t := Mon.Task(); done := t(&ctx); chk.Func(monkit.SpanFromCtx(ctx).Func(), %s, %q); chk.Func(t.Func(), %s, %q); done(nil) }\n", want, w.pkg.path, want, w.pkg.path)
		case "package":
			w.printf("chk.Scope(monkit.Package(), %q)\n", w.pkg.path)
		case "regpackage":
			w.printf("chk.Scope(chk.Reg.Package(), %q)\n", w.pkg.path)
		case "leaf": // small enough to be inlined
			w.printf("chk.Func(Leaf(), \"Leaf\", %q)\nchk.Scope(LeafScope(), %q)\nchk.Func(L{}.Leaf(), \"L.Leaf\", %q)\n", w.pkg.path, w.pkg.path, w.pkg.path)
			w.printf("{ ctx := context.Background(); LeafTask(&ctx)(nil); chk.Func(monkit.SpanFromCtx(ctx).Func(), \"LeafTask\", %q) }\n", w.pkg.path)
		case "shared": // lazily named by its first user
			w.printf("{ ctx := context.Background(); done := shared%d(&ctx); chk.First(&sharedName%d, %s); chk.Func(monkit.SpanFromCtx(ctx).Func(), sharedName%d, %q); done(nil) }\n", i%2, i%2, want, i%2, w.pkg.path)
		case "direct":
			w.printf("func() { ctx := context.Background(); defer Mon.Task()(&ctx)(nil); chk.Func(monkit.SpanFromCtx(ctx).Func(), chk.Here(), %q) }()\n", w.pkg.path)
		}
	}
	for _, k := range n.kids {
		switch k.run {
		case "call":
			w.printf("func() {\n")
			w.body(k, "chk.Here()")
			w.printf("}()\n")
		case "defer":
			w.printf("defer func() {\n")
			w.body(k, "chk.Here()")
			w.printf("}()\n")
		case "go":
			w.printf("{ done := make(chan int)\ngo func() {\ndefer close(done)\n")
			w.body(k, "chk.Here()")
			w.printf("}()\n<-done }\n")
		case "value":
			w.printf("chk.Call(func() {\n")
			w.body(k, "chk.Here()")
			w.printf("})\n")
		}
	}
}

func (p *pkg) source() string {
	w := &writer{pkg: p}
	w.printf("package %s\n\nimport (\n\"context\"\n\"gen.example/chk\"\nmonkit \"github.com/spacemonkeygo/monkit/v3\"\n)\n\n", p.name)
	w.printf("var _ = context.Background\n\nvar Mon = monkit.Package()\nvar Mon2 = chk.Reg.Package()\nvar shared0, shared1 = Mon.Task(), Mon.Task(monkit.NewSeriesTag(\"k\", \"v\"))\nvar sharedName0, sharedName1 string\n\n")
	w.printf("type R0x struct{}\ntype L struct{}\n\nfunc Leaf() *monkit.Func { return Mon.Func() }\nfunc (L) Leaf() *monkit.Func { return Mon.Func() }\nfunc LeafScope() *monkit.Scope { return monkit.Package() }\nfunc LeafTask(ctx *context.Context) func(*error) { return Mon.Task()(ctx) }\n\n")
	for _, d := range p.decls {
		id := strings.TrimPrefix(d.name, "E")
		switch d.kind {
		case "method", "pointer":
			w.printf("type R%s struct{}\n", id)
		case "gmethod", "gpointer":
			w.printf("type R%s[X any] struct{ x []X }\n", id)
		}
		switch d.kind {
		case "init":
			w.printf("func init() {\n")
			w.body(d.body, "chk.Here()")
			w.printf("}\n\n")
			continue
		case "variable":
			w.printf("var %s = func() func() {\n", d.name)
			w.body(d.body, "chk.Here()")
			w.printf("return func() {\n")
			w.body(d.body, "chk.Here()")
			w.printf("}\n}()\n\n")
			continue
		}
		if d.noinline {
			w.printf("//go:noinline\n")
		}
		params := ""
		if d.kind == "generic" {
			params = "[X any]"
		}
		w.printf("func %s %s%s() {\n", d.recv, d.name, params)
		w.body(d.body, fmt.Sprintf("%q", d.want))
		for _, j := range d.calls {
			if p.decls[j].kind == "init" || p.decls[j].kind == "variable" {
				continue // no calls, or initialization would go in circles
			}
			w.printf("if chk.Enter() { %s(); chk.Leave() }\n", p.decls[j].ref())
		}
		w.printf("}\n\n")
	}
	w.printf("func All() {\nchk.Scope(Mon, %q)\nchk.Scope(Mon2, %q)\n", p.path, p.path)
	for i, d := range p.decls {
		if d.kind == "init" {
			continue
		}
		if i%2 == 0 {
			w.printf("%s()\n", d.ref())
		} else {
			w.printf("chk.Call(%s)\n", d.ref())
		}
	}
	w.printf("}\n")
	return w.String()
}

const chkSource = `// Package chk compares the names monkit gives.
package chk

import (
	"fmt"
	"os"
	"runtime"
	"strings"

	monkit "github.com/spacemonkeygo/monkit/v3"
)

var Reg = monkit.NewRegistry()

var bad, depth, N int

func Enter() bool { if depth > 3 { return false }; depth++; return true }
func Leave() { depth-- }

//go:noinline
func Call(f func()) { f() }

// Here is the name of the calling function, without its package.
//go:noinline
func Here() string {
	var pcs [1]uintptr
	runtime.Callers(2, pcs[:])
	f, _ := runtime.CallersFrames(pcs[:]).Next()
	name := f.Function[strings.LastIndex(f.Function, "/")+1:]
	return name[strings.Index(name, ".")+1:]
}

func First(name *string, here string) { if *name == "" { *name = here } }

func Func(f *monkit.Func, name, path string) {
	N++
	if f.ShortName() != name || f.Scope().Name() != path || f.FullName() != path+"."+name {
		fail("function %q of scope %q (%q), want %q of %q", f.ShortName(), f.Scope().Name(), f.FullName(), name, path)
	}
}

func Scope(s *monkit.Scope, path string) {
	N++
	if s.Name() != path {
		fail("scope %q, want %q", s.Name(), path)
	}
}

func fail(format string, args ...interface{}) {
	bad++
	if bad < 5 {
		fmt.Printf("WRONG "+format+"\n", args...)
	}
}

func Done() {
	if bad == 0 { fmt.Println("FINE", N) }
	os.Exit(0)
}
`

// TestModelProgram generates programs, builds and runs them: each function in them
// knows its name and compares.
func TestModelProgram(t *testing.T) {
	gocmd, err := exec.LookPath("go")
	if err != nil {
		gocmd = filepath.Join(runtime.GOROOT(), "bin", "go")
	}
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		var pkgs []*pkg
		ndecl := 0
		for i := rapid.IntRange(1, 3).Draw(t, "packages"); i > 0; i-- {
			p := drawPkg(t, i)
			ndecl += len(p.decls)
			pkgs = append(pkgs, p)
		}
		inline := rapid.IntRange(0, 3).Draw(t, "inlining") != 0
		dir, err := filepath.Abs(mustTemp())
		if err != nil {
			t.Skip("no scratch directory")
		}
		defer os.RemoveAll(dir)
		write := func(path, text string) {
			path = filepath.Join(dir, path)
			_ = os.MkdirAll(filepath.Dir(path), 0o755)
			if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
				t.Skip("cannot write")
			}
		}
		write("go.mod", "module gen.example\n\ngo 1.23\n\nrequire github.com/spacemonkeygo/monkit/v3 v3.0.0\n\nreplace github.com/spacemonkeygo/monkit/v3 => /repo\n")
		write("chk/chk.go", chkSource)
		main := "package main\n\nimport (\n\"gen.example/chk\"\n"
		for _, p := range pkgs {
			main += fmt.Sprintf("%q\n", p.path)
			write(strings.TrimPrefix(p.path, "gen.example/")+"/p.go", p.source())
		}
		main += ")\n\nfunc main() {\n"
		for _, p := range pkgs {
			main += p.name + ".All()\n"
		}
		main += "chk.Done()\n}\n"
		write("main.go", main)
		var desc []string
		for _, p := range pkgs {
			for _, d := range p.decls {
				desc = append(desc, p.path+" "+d.want)
			}
		}
		c.Logf("inlining %v: %s", inline, strings.Join(desc, "; "))
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Minute)
		defer cancel()
		args := []string{"build", "-o", filepath.Join(dir, "prog")}
		if !inline {
			args = append(args, "-gcflags=gen.example/...=-l")
		}
		cmd := exec.CommandContext(ctx, gocmd, args...)
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "GOTOOLCHAIN=local")
		stop := kit.Busy()
		out, err := cmd.CombinedOutput()
		stop()
		if err != nil {
			fmt.Printf("KIT-ERROR cannot build the generated program: %v\n%s\n", err, out)
			os.Exit(3)
		}
		run := exec.CommandContext(ctx, filepath.Join(dir, "prog"))
		out, err = run.CombinedOutput()
		if err != nil || !strings.HasPrefix(string(out), "FINE") {
			t.Fatalf("%v\n%s", err, out)
		}
		c.NonTrivialIf(ndecl > 4)
	})
}

// ---- chains of calls, in this package ----

var (
	reg = monkit.NewRegistry()
	mon = reg.Package()
)

const here = "verif.local/harness/c28"

// level is one call in a chain: it asks for names and calls the next level.
type level struct {
	shape string
	next  *level
	run   *run
}

type run struct {
	bad  []string
	task monkit.Task // lazily named by the first to run it
	name string
	uses int
}

func (r *run) is(f *monkit.Func, want string) {
	if f.ShortName() != want || f.Scope().Name() != here || f.FullName() != here+"."+want {
		r.bad = append(r.bad, fmt.Sprintf("%q (%q), want %q", f.ShortName(), f.FullName(), want))
	}
}

// used is told that the caller, named want, ran the shared task.
func (r *run) used(ctx context.Context, exit func(*error), want string) {
	if r.uses == 0 {
		r.name = want
	}
	r.uses++
	r.is(monkit.SpanFromCtx(ctx).Func(), r.name)
	r.is(r.task.Func(), r.name)
	exit(nil)
}

func (r *run) scope(s *monkit.Scope) {
	if s.Name() != here {
		r.bad = append(r.bad, fmt.Sprintf("scope %q", s.Name()))
	}
}

func (l *level) go_() {
	if l == nil {
		return
	}
	shapes[l.shape](l)
}

type val struct{ x int }
type ptr struct{ x int }
type gen[X any] struct{ x []X }
type outer struct{ ptr }
type mover interface{ Move(l *level) }

func plain(l *level) {
	l.run.is(mon.Func(), "plain")
	l.run.scope(reg.Package())
	ctx := context.Background()
	exit := l.run.task(&ctx)
	l.run.used(ctx, exit, "plain")
	own := mon.Task()
	done := own(&ctx)
	l.run.is(own.Func(), "plain")
	done(nil)
	l.next.go_()
}

//go:noinline
func rigid(l *level) {
	l.run.is(mon.Func(), "rigid")
	l.run.scope(reg.Package())
	ctx := context.Background()
	exit := l.run.task(&ctx)
	l.run.used(ctx, exit, "rigid")
	own := mon.Task()
	done := own(&ctx)
	l.run.is(own.Func(), "rigid")
	done(nil)
	l.next.go_()
}

func Größe(l *level) {
	l.run.is(mon.Func(), "Größe")
	l.run.scope(reg.Package())
	ctx := context.Background()
	exit := l.run.task(&ctx)
	l.run.used(ctx, exit, "Größe")
	own := mon.Task()
	done := own(&ctx)
	l.run.is(own.Func(), "Größe")
	done(nil)
	l.next.go_()
}

func aNameMuchLongerThanAnyoneWouldTypeButThatAGeneratorOfCodeMayWellComeUpWith_AndThenSomeMoreOfItAndThenSomeMoreOfItAndThenSomeMoreOfItAndThenSomeMoreOfItAndThenSomeMoreOfIt(l *level) {
	l.run.is(mon.Func(), "aNameMuchLongerThanAnyoneWouldTypeButThatAGeneratorOfCodeMayWellComeUpWith_AndThenSomeMoreOfItAndThenSomeMoreOfItAndThenSomeMoreOfItAndThenSomeMoreOfItAndThenSomeMoreOfIt")
	l.run.scope(reg.Package())
	ctx := context.Background()
	exit := l.run.task(&ctx)
	l.run.used(ctx, exit, "aNameMuchLongerThanAnyoneWouldTypeButThatAGeneratorOfCodeMayWellComeUpWith_AndThenSomeMoreOfItAndThenSomeMoreOfItAndThenSomeMoreOfItAndThenSomeMoreOfItAndThenSomeMoreOfIt")
	own := mon.Task()
	done := own(&ctx)
	l.run.is(own.Func(), "aNameMuchLongerThanAnyoneWouldTypeButThatAGeneratorOfCodeMayWellComeUpWith_AndThenSomeMoreOfItAndThenSomeMoreOfItAndThenSomeMoreOfItAndThenSomeMoreOfItAndThenSomeMoreOfIt")
	done(nil)
	l.next.go_()
}

func func1(l *level) {
	l.run.is(mon.Func(), "func1")
	l.run.scope(reg.Package())
	ctx := context.Background()
	exit := l.run.task(&ctx)
	l.run.used(ctx, exit, "func1")
	own := mon.Task()
	done := own(&ctx)
	l.run.is(own.Func(), "func1")
	done(nil)
	l.next.go_()
}

func (v val) Move(l *level) {
	l.run.is(mon.Func(), "val.Move")
	l.run.scope(reg.Package())
	ctx := context.Background()
	exit := l.run.task(&ctx)
	l.run.used(ctx, exit, "val.Move")
	own := mon.Task()
	done := own(&ctx)
	l.run.is(own.Func(), "val.Move")
	done(nil)
	l.next.go_()
}

func (p *ptr) Move(l *level) {
	l.run.is(mon.Func(), "(*ptr).Move")
	l.run.scope(reg.Package())
	ctx := context.Background()
	exit := l.run.task(&ctx)
	l.run.used(ctx, exit, "(*ptr).Move")
	own := mon.Task()
	done := own(&ctx)
	l.run.is(own.Func(), "(*ptr).Move")
	done(nil)
	l.next.go_()
}

func generic[X any](l *level) {
	l.run.is(mon.Func(), "generic[...]")
	l.run.scope(reg.Package())
	ctx := context.Background()
	exit := l.run.task(&ctx)
	l.run.used(ctx, exit, "generic[...]")
	own := mon.Task()
	done := own(&ctx)
	l.run.is(own.Func(), "generic[...]")
	done(nil)
	l.next.go_()
}

func (g gen[X]) Move(l *level) {
	l.run.is(mon.Func(), "gen[...].Move")
	l.run.scope(reg.Package())
	ctx := context.Background()
	exit := l.run.task(&ctx)
	l.run.used(ctx, exit, "gen[...].Move")
	own := mon.Task()
	done := own(&ctx)
	l.run.is(own.Func(), "gen[...].Move")
	done(nil)
	l.next.go_()
}

func (g *gen[X]) PMove(l *level) {
	l.run.is(mon.Func(), "(*gen[...]).PMove")
	l.run.scope(reg.Package())
	ctx := context.Background()
	exit := l.run.task(&ctx)
	l.run.used(ctx, exit, "(*gen[...]).PMove")
	own := mon.Task()
	done := own(&ctx)
	l.run.is(own.Func(), "(*gen[...]).PMove")
	done(nil)
	l.next.go_()
}

func closure(l *level) {
	func() {
		l.run.is(mon.Func(), self())
		l.run.scope(reg.Package())
		ctx := context.Background()
		exit := l.run.task(&ctx)
		l.run.used(ctx, exit, self())
		own := mon.Task()
		done := own(&ctx)
		l.run.is(own.Func(), self())
		done(nil)
	}()
	l.next.go_()
}

func deferred(l *level) {
	defer l.next.go_()
	defer func() {
		l.run.is(mon.Func(), self())
		l.run.scope(reg.Package())
		ctx := context.Background()
		exit := l.run.task(&ctx)
		l.run.used(ctx, exit, self())
		own := mon.Task()
		done := own(&ctx)
		l.run.is(own.Func(), self())
		done(nil)
	}()
}

func recovering(l *level) {
	defer l.next.go_()
	defer func() {
		_ = recover()
		l.run.is(mon.Func(), self())
		l.run.scope(reg.Package())
		ctx := context.Background()
		exit := l.run.task(&ctx)
		l.run.used(ctx, exit, self())
		own := mon.Task()
		done := own(&ctx)
		l.run.is(own.Func(), self())
		done(nil)
	}()
	panic("boom")
}

func goroutine(l *level) {
	done := make(chan int)
	go func() {
		defer close(done)
		func() {
			l.run.is(mon.Func(), self())
			l.run.scope(reg.Package())
			ctx := context.Background()
			exit := l.run.task(&ctx)
			l.run.used(ctx, exit, self())
			own := mon.Task()
			done := own(&ctx)
			l.run.is(own.Func(), self())
			done(nil)
		}()
	}()
	<-done
	l.next.go_()
}

func deferredTask(l *level) {
	defer l.next.go_()
	ctx := context.Background()
	defer l.run.is(mon.Func(), "deferredTask")
	defer mon.Task()(&ctx)(nil)
	l.run.is(monkit.SpanFromCtx(ctx).Func(), "deferredTask")
}

func leafFunc() *monkit.Func                     { return mon.Func() }
func (val) leafFunc() *monkit.Func               { return mon.Func() }
func leafScope() *monkit.Scope                   { return reg.Package() }
func leafTask(ctx *context.Context) func(*error) { return mon.Task()(ctx) }
func leafGeneric[X any]() *monkit.Func           { return mon.Func() }

// leaves are so small that they are inlined, into this function too.
func leaves(l *level) {
	l.run.is(leafFunc(), "leafFunc")
	l.run.is(val{}.leafFunc(), "val.leafFunc")
	l.run.is(leafGeneric[int](), "leafGeneric[...]")
	l.run.scope(leafScope())
	ctx := context.Background()
	exit := leafTask(&ctx)
	l.run.is(monkit.SpanFromCtx(ctx).Func(), "leafTask")
	exit(nil)
	l.next.go_()
}

// self is the name of the calling function.
//
//go:noinline
func self() string {
	var pcs [1]uintptr
	runtime.Callers(2, pcs[:])
	f, _ := runtime.CallersFrames(pcs[:]).Next()
	return strings.TrimPrefix(f.Function, here+".")
}

var shapes map[string]func(l *level)
var shapeNames []string

func init() {
	shapes = map[string]func(l *level){
		"plain":                  plain,
		"rigid":                  rigid,
		"unicode":                Größe,
		"long":                   aNameMuchLongerThanAnyoneWouldTypeButThatAGeneratorOfCodeMayWellComeUpWith_AndThenSomeMoreOfItAndThenSomeMoreOfItAndThenSomeMoreOfItAndThenSomeMoreOfItAndThenSomeMoreOfIt,
		"func1":                  func1,
		"value method":           val{}.Move,
		"pointer method":         (&ptr{}).Move,
		"promoted":               func(l *level) { (&outer{}).Move(l) },
		"interface":              func(l *level) { var m mover = val{}; m.Move(l) },
		"interface pointer":      func(l *level) { var m mover = &val{}; m.Move(l) },
		"interface promoted":     func(l *level) { var m mover = &outer{}; m.Move(l) },
		"method expression":      func(l *level) { val.Move(val{}, l) },
		"generic int":            generic[int],
		"generic pointer":        generic[*ptr],
		"generic struct":         generic[struct{ a, b string }],
		"generic method":         gen[int]{}.Move,
		"generic pointer method": (&gen[map[string]val]{}).PMove,
		"closure":                closure,
		"deferred":               deferred,
		"recovering":             recovering,
		"goroutine":              goroutine,
		"deferredTask":           deferredTask,
		"leaves":                 leaves,
	}
	for n := range shapes {
		shapeNames = append(shapeNames, n)
	}
	sort.Strings(shapeNames)
}

func drawChain(t *rapid.T, c *kit.Case, r *run, max int) *level {
	var l *level
	for n := rapid.IntRange(1, max).Draw(t, "depth"); n > 0; n-- {
		l = &level{shape: rapid.SampledFrom(shapeNames).Draw(t, "shape"), next: l, run: r}
		c.Logf("%s", l.shape)
	}
	return l
}

func TestModelChain(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		r := &run{task: mon.Task()}
		l := drawChain(t, c, r, 8)
		deep(rapid.IntRange(0, 60).Draw(t, "frames"), l.go_)
		if len(r.bad) > 0 {
			t.Fatalf("%s", strings.Join(r.bad, "\n"))
		}
		c.NonTrivialIf(r.uses > 1)
	})
}

// TestModelFunc: a task tells the function its runs are recorded under, and
// records nothing by telling.
func TestModelFunc(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		reg := monkit.NewRegistry()
		scope := reg.ScopeNamed(kit.Text(t, "scope"))
		runs := map[*monkit.Func]int64{}
		type task struct {
			task monkit.Task
			f    *monkit.Func // nil until first run
		}
		var tasks []task
		n := 0
		for k := rapid.IntRange(2, 12).Draw(t, "n"); k > 0; k-- {
			var tags []monkit.SeriesTag
			for i := rapid.IntRange(0, 2).Draw(t, "tags"); i > 0; i-- {
				tags = append(tags, monkit.NewSeriesTag(kit.Plain(t, "k"), kit.Text(t, "v")))
			}
			name := rapid.SampledFrom([]string{"a", "b", "", "c.d", "é"}).Draw(t, "name")
			switch how := rapid.SampledFrom([]string{"named", "func", "reset", "lazy", "run", "run", "run", "tell", "tell"}).Draw(t, "how"); how {
			case "named":
				c.Logf("TaskNamed %q %q", name, tags)
				tasks = append(tasks, task{scope.TaskNamed(name, tags...), scope.FuncNamed(name, tags...)})
			case "func":
				c.Logf("Func.Task %q %q", name, tags)
				f := scope.FuncNamed(name, tags...)
				tasks = append(tasks, task{f.Task, f})
			case "reset":
				c.Logf("Func.ResetTrace %q %q", name, tags)
				f := scope.FuncNamed(name, tags...)
				tasks = append(tasks, task{f.ResetTrace, f})
			case "lazy":
				c.Logf("Task %q", tags)
				tasks = append(tasks, task{scope.Task(tags...), nil})
			case "run", "tell":
				if len(tasks) == 0 {
					continue
				}
				i := rapid.IntRange(0, len(tasks)-1).Draw(t, "which")
				c.Logf("%s task %d", how, i)
				if how == "run" {
					ctx := context.Background()
					ptr := &ctx
					if tasks[i].f != nil && rapid.IntRange(0, 3).Draw(t, "no context") == 0 {
						ptr = nil
					}
					exit := tasks[i].task(ptr, "arg")
					if tasks[i].f == nil {
						tasks[i].f = monkit.SpanFromCtx(ctx).Func()
					}
					runs[tasks[i].f]++
					exit(nil)
				}
				if tasks[i].f == nil {
					continue
				}
				if f := tasks[i].task.Func(); f != tasks[i].f {
					t.Fatalf("task %d tells %q, but its runs are recorded under %q", i, f.FullName(), tasks[i].f.FullName())
				}
				n++
			}
		}
		scope.Funcs(func(f *monkit.Func) {
			if f.Success() != runs[f] || f.Current() != 0 || f.Panics() != 0 || len(f.Errors()) != 0 {
				t.Fatalf("%q has %d runs, want %d", f.FullName(), f.Success(), runs[f])
			}
		})
		reg.AllSpans(func(s *monkit.Span) { t.Fatalf("a span of %q is running", s.Func().FullName()) })
		c.NonTrivialIf(n > 1 && len(runs) > 0)
	})
}

func deep(n int, f func()) {
	if n == 0 {
		f()
		return
	}
	deep(n-1, f)
}

// TestRace: goroutines share a lazily named task; it is named after one of
// its first users, and only that one.
func TestRace(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		n := rapid.IntRange(2, 5).Draw(t, "goroutines")
		scope := monkit.NewRegistry().ScopeNamed("s")
		task := scope.Task()
		users := map[string]func(ctx *context.Context) func(*error){
			"userA":       func(ctx *context.Context) func(*error) { return userA(task, ctx) },
			"userB":       func(ctx *context.Context) func(*error) { return userB(task, ctx) },
			"(*ptr).user": func(ctx *context.Context) func(*error) { return (&ptr{}).user(task, ctx) },
		}
		who := make([]string, n)
		got := make([]string, n)
		for i := range who {
			who[i] = rapid.SampledFrom([]string{"userA", "userB", "(*ptr).user"}).Draw(t, "user")
		}
		c.Logf("%v", who)
		kit.Parallel(n, func(i int) {
			ctx := context.Background()
			exit := users[who[i]](&ctx)
			got[i] = monkit.SpanFromCtx(ctx).Func().ShortName()
			exit(nil)
		})
		valid := false
		for i := range who {
			valid = valid || who[i] == got[0]
			if got[i] != got[0] {
				t.Fatalf("users %v are recorded as %v", who, got)
			}
		}
		if !valid {
			t.Fatalf("users %v are recorded as %v", who, got)
		}
		var total int64
		scope.Funcs(func(f *monkit.Func) { total += f.Success() })
		if total != int64(n) {
			t.Fatalf("%d runs recorded, want %d", total, n)
		}
		c.NonTrivial()
	})
}

//go:noinline
func userA(task monkit.Task, ctx *context.Context) func(*error) { return task(ctx) }
func userB(task monkit.Task, ctx *context.Context) func(*error) { return task(ctx) }
func (p *ptr) user(task monkit.Task, ctx *context.Context) func(*error) {
	return task(ctx)
}

// mustTemp makes a directory where the test runs, which the check removes.
func mustTemp() string {
	dir, _ := os.MkdirTemp(".", "c28-")
	return dir
}
