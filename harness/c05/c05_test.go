// C05: the view of running spans is exact.
package c05

import (
	"context"
	"fmt"
	"sort"
	"sync"
	"testing"

	monkit "github.com/spacemonkeygo/monkit/v3"
	"pgregory.net/rapid"

	"verif.local/harness/kit"
)

func TestMain(m *testing.M) { kit.Main(m) }

type span struct {
	real   *monkit.Span
	ctx    context.Context
	exit   func(*error)
	parent *span // local parent
	name   string
	mu     sync.Mutex
	done   bool
}

type world struct {
	reg   *monkit.Registry
	funcs []*monkit.Func
	spans []*span
	mu    sync.Mutex
}

func newWorld() *world {
	reg := monkit.NewRegistry()
	return &world{reg: reg, funcs: []*monkit.Func{
		reg.ScopeNamed("b").FuncNamed("f"), reg.ScopeNamed("b").FuncNamed("f", monkit.NewSeriesTag("k", "v")),
		reg.ScopeNamed("a").FuncNamed("z"), reg.ScopeNamed("b").FuncNamed("e"), reg.ScopeNamed("").FuncNamed("g")}}
}

// start starts a span; parent nil means none.
func (w *world) start(style string, f int, parent *span) *span {
	fn := w.funcs[f]
	s := &span{ctx: context.Background(), name: fn.Scope().Name() + "." + fn.ShortName()}
	if parent != nil {
		s.ctx = parent.ctx
	}
	var args []interface{}
	if f%2 == 1 {
		args = []interface{}{f, "x"}
	}
	switch style {
	case "task":
		s.exit = fn.Task(&s.ctx, args...)
		s.parent = parent
	case "reset":
		s.exit = fn.ResetTrace(&s.ctx, args...)
	case "remote":
		s.exit = fn.RemoteTrace(&s.ctx, 7, monkit.NewTrace(9), args...)
	case "remote-same":
		// on the trace of the parent, but without a local parent
		if parent == nil {
			s.exit = fn.Task(&s.ctx, args...)
		} else {
			s.exit = fn.RemoteTrace(&s.ctx, parent.real.Id(), parent.real.Trace(), args...)
		}
	case "strip":
		s.ctx = monkit.ResetContextSpan(s.ctx)
		s.exit = fn.Task(&s.ctx, args...)
	}
	s.real = monkit.SpanFromCtx(s.ctx)
	w.mu.Lock()
	w.spans = append(w.spans, s)
	w.mu.Unlock()
	return s
}

var styles = []string{"task", "task", "task", "task", "reset", "remote", "remote-same", "strip"}

func (s *span) finish(how string) {
	s.mu.Lock()
	done := s.done
	s.done = true
	s.mu.Unlock()
	if done {
		return
	}
	switch how {
	case "err":
		err := fmt.Errorf("x")
		s.exit(&err)
	case "panic":
		func() {
			defer func() { _ = recover() }()
			defer s.exit(nil)
			panic("x")
		}()
	default:
		s.exit(nil)
	}
}

func sorted(ss []*span) []*span {
	sort.Slice(ss, func(i, j int) bool {
		if ss[i].name != ss[j].name {
			return ss[i].name < ss[j].name
		}
		return ss[i].real.Id() < ss[j].real.Id()
	})
	return ss
}

func compare(what string, got []*monkit.Span, want []*span) string {
	ok := len(got) == len(want)
	for i := 0; ok && i < len(got); i++ {
		ok = got[i] == want[i].real
	}
	if ok {
		return ""
	}
	var g, w []string
	for _, s := range got {
		g = append(g, fmt.Sprintf("%s#%d", s.Func().FullName(), s.Id()))
	}
	for _, s := range want {
		w = append(w, fmt.Sprintf("%s#%d", s.name, s.real.Id()))
	}
	return fmt.Sprintf("%s: %v, want %v", what, g, w)
}

// check compares the whole view with the model. Nothing is running meanwhile.
func (w *world) check() string {
	var roots []*span
	children := map[*span][]*span{}
	counts := map[*monkit.Trace]int64{}
	for _, s := range w.spans {
		counts[s.real.Trace()] += 0
		if s.done {
			continue
		}
		counts[s.real.Trace()]++
		if s.parent == nil || s.parent.done {
			roots = append(roots, s)
		}
		if s.parent != nil {
			children[s.parent] = append(children[s.parent], s)
		}
	}
	sorted(roots)
	var got []*monkit.Span
	w.reg.RootSpans(func(s *monkit.Span) { got = append(got, s) })
	if p := compare("roots", got, roots); p != "" {
		return p
	}
	// and as the default registry
	got = nil
	def := monkit.Default
	monkit.Default = w.reg
	monkit.RootSpans(func(s *monkit.Span) { got = append(got, s) })
	monkit.Default = def
	if p := compare("roots of the default registry", got, roots); p != "" {
		return p
	}
	var all []*span
	var walk func(s *span)
	walk = func(s *span) {
		all = append(all, s)
		for _, c := range sorted(children[s]) {
			walk(c)
		}
	}
	for _, s := range roots {
		walk(s)
	}
	got = nil
	w.reg.AllSpans(func(s *monkit.Span) { got = append(got, s) })
	if p := compare("all spans", got, all); p != "" {
		return p
	}
	for _, s := range w.spans {
		got = nil
		s.real.Children(func(c *monkit.Span) { got = append(got, c) })
		if p := compare(fmt.Sprintf("children of #%d (finished %v)", s.real.Id(), s.done), got, sorted(children[s])); p != "" {
			return p
		}
		if !s.done {
			if want := s.parent != nil && s.parent.done; s.real.Orphaned() != want {
				return fmt.Sprintf("span #%d orphaned %v, want %v", s.real.Id(), s.real.Orphaned(), want)
			}
		}
	}
	for t, n := range counts {
		if t.Spans() != n {
			return fmt.Sprintf("trace %d has %d spans, want %d", t.Id(), t.Spans(), n)
		}
	}
	return ""
}

func TestModel(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		w := newWorld()
		orphans, deep, onDone := false, false, false
		n := rapid.IntRange(1, 40).Draw(t, "n")
		for i := 0; i < n; i++ {
			if rapid.IntRange(0, 9).Draw(t, "op") < 6 || len(w.spans) == 0 {
				var parent *span
				if len(w.spans) > 0 && rapid.IntRange(0, 3).Draw(t, "child") > 0 {
					parent = rapid.SampledFrom(w.spans).Draw(t, "parent")
				}
				style := rapid.SampledFrom(styles).Draw(t, "style")
				f := rapid.IntRange(0, len(w.funcs)-1).Draw(t, "func")
				c.Logf("start %s %d under %v", style, f, index(w.spans, parent))
				s := w.start(style, f, parent)
				if many := kit.Some(t, "many", 0, 0); many > 0 && len(w.spans) < 100 {
					line := rapid.Bool().Draw(t, "line")
					c.Logf("and %d more, in a line: %v", many, line)
					for k := 0; k < many; k++ {
						if line {
							s = w.start("task", f, s)
						} else {
							w.start(style, k%len(w.funcs), parent)
						}
					}
				}
				deep = deep || s.parent != nil && s.parent.parent != nil
				onDone = onDone || s.parent != nil && s.parent.done
			} else {
				s := rapid.SampledFrom(w.spans).Draw(t, "span")
				how := rapid.SampledFrom([]string{"", "err", "panic"}).Draw(t, "how")
				c.Logf("finish %d %s", index(w.spans, s), how)
				for _, k := range w.spans {
					orphans = orphans || k.parent == s && !k.done
				}
				s.finish(how)
			}
			if len(w.spans) > 100 && i%8 != 0 && i != n-1 {
				continue
			}
			if p := w.check(); p != "" {
				t.Fatalf("%s", p)
			}
		}
		order := rapid.Permutation(w.spans).Draw(t, "order")
		for i, s := range order {
			s.finish("")
			if len(order) > 60 && i%(len(order)/8) != 0 && i != len(order)-1 {
				continue
			}
			if p := w.check(); p != "" {
				t.Fatalf("while finishing the rest: %s", p)
			}
		}
		c.LabelIf(orphans, "parent finished first")
		c.LabelIf(onDone, "started under a finished parent")
		c.NonTrivialIf(deep && orphans)
	})
}

// TestModelTwo: spans of two registries in one trace. Each registry has its
// own roots: its running spans without a running parent, wherever that was.
func TestModelTwo(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		regs := []*monkit.Registry{monkit.NewRegistry(), monkit.NewRegistry()}
		fns := []*monkit.Func{regs[0].ScopeNamed("s").FuncNamed("f"), regs[1].ScopeNamed("s").FuncNamed("f")}
		type sp struct {
			real   *monkit.Span
			ctx    context.Context
			exit   func(*error)
			reg    int
			parent *sp
			done   bool
		}
		var spans []*sp
		check := func() {
			for r, reg := range regs {
				want := map[*monkit.Span]bool{}
				for _, s := range spans {
					if s.reg == r && !s.done && (s.parent == nil || s.parent.done) {
						want[s.real] = true
					}
				}
				n := 0
				reg.RootSpans(func(s *monkit.Span) {
					n++
					if !want[s] {
						t.Fatalf("span #%d is no root of registry %d", s.Id(), r)
					}
					delete(want, s)
				})
				if len(want) > 0 {
					t.Fatalf("registry %d misses %d roots", r, len(want))
				}
			}
			for _, s := range spans {
				if want := s.parent != nil && s.parent.done; !s.done && s.real.Orphaned() != want {
					t.Fatalf("span #%d orphaned %v, want %v", s.real.Id(), s.real.Orphaned(), want)
				}
			}
		}
		crossed := false
		for n := rapid.IntRange(1, 16).Draw(t, "n"); n > 0; n-- {
			if len(spans) == 0 || rapid.IntRange(0, 9).Draw(t, "op") < 6 {
				s := &sp{ctx: context.Background(), reg: rapid.IntRange(0, 1).Draw(t, "registry")}
				if len(spans) > 0 && rapid.IntRange(0, 3).Draw(t, "child") > 0 {
					s.parent = rapid.SampledFrom(spans).Draw(t, "parent")
					s.ctx = s.parent.ctx
				}
				s.exit = fns[s.reg].Task(&s.ctx)
				s.real = monkit.SpanFromCtx(s.ctx)
				c.Logf("start #%d in %d under %v", len(spans), s.reg, s.parent != nil)
				crossed = crossed || s.parent != nil && s.parent.reg != s.reg
				spans = append(spans, s)
			} else if s := rapid.SampledFrom(spans).Draw(t, "span"); !s.done {
				c.Logf("finish")
				s.done = true
				s.exit(nil)
			}
			check()
		}
		for _, s := range spans {
			if !s.done {
				s.done = true
				s.exit(nil)
				check()
			}
		}
		c.NonTrivialIf(crossed)
	})
}

func index(ss []*span, s *span) int {
	for i := range ss {
		if ss[i] == s {
			return i
		}
	}
	return -1
}

// --- concurrent starts and finishes ---

type step struct {
	kind  string // start, finish, walk
	style string
	f     int
	who   int
	own   bool
}

func concurrent(t *rapid.T, c *kit.Case, rounds int, run func(bodies []func())) {
	w := newWorld()
	// shared spans that any thread may use as a parent or finish
	var shared []*span
	for i := rapid.IntRange(1, 3).Draw(t, "shared"); i > 0; i-- {
		var parent *span
		if len(shared) > 0 && rapid.Bool().Draw(t, "nested") {
			parent = shared[len(shared)-1]
		}
		shared = append(shared, w.start("task", rapid.IntRange(0, 4).Draw(t, "f"), parent))
	}
	threads := rapid.IntRange(2, 3).Draw(t, "threads")
	var bodies []func()
	for i := 0; i < threads; i++ {
		var steps []step
		for n := rapid.IntRange(1, 5).Draw(t, "len"); n > 0; n-- {
			s := step{kind: rapid.SampledFrom([]string{"start", "start", "finish", "finish", "finish-shared", "walk"}).Draw(t, "kind"),
				style: rapid.SampledFrom(styles[:5]).Draw(t, "style"), f: rapid.IntRange(0, 4).Draw(t, "f"), who: rapid.IntRange(0, 3).Draw(t, "who"), own: rapid.Bool().Draw(t, "own")}
			c.Logf("T%d %s %s f%d %d own=%v", i, s.kind, s.style, s.f, s.who, s.own)
			steps = append(steps, s)
		}
		bodies = append(bodies, func() {
			var mine []*span
			for r := 0; r < rounds; r++ {
				for _, s := range steps {
					switch s.kind {
					case "start":
						parent := shared[s.who%len(shared)]
						if s.own && len(mine) > 0 {
							parent = mine[s.who%len(mine)]
						}
						mine = append(mine, w.start(s.style, s.f, parent))
					case "finish":
						if len(mine) > 0 {
							mine[s.who%len(mine)].finish("")
						}
					case "finish-shared":
						shared[s.who%len(shared)].finish("")
					case "walk":
						w.reg.AllSpans(func(s *monkit.Span) { s.Orphaned() })
					}
				}
			}
		})
	}
	run(bodies)
	if p := w.check(); p != "" {
		t.Fatalf("%s", p)
	}
	for _, s := range w.spans {
		s.finish("")
	}
	if p := w.check(); p != "" {
		t.Fatalf("after finishing the rest: %s", p)
	}
}

func TestSched(t *testing.T) {
	kit.NeedSched(t, func() { _ = monkit.NewRegistry().ScopeNamed("x").FuncNamed("y") })
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		sched := kit.Schedule(t)
		c.Logf("%v", sched)
		concurrent(t, c, 1, func(bodies []func()) {
			res := kit.Sched(t, c, sched, bodies...)
			c.NonTrivialIf(res.Switches > len(bodies))
		})
	})
}

func TestRace(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		concurrent(t, c, rapid.IntRange(1, 8).Draw(t, "rounds"), func(bodies []func()) {
			kit.Parallel(len(bodies), func(i int) { bodies[i]() })
		})
		c.NonTrivial()
	})
}
