// C06: the call graph has every observed caller and nothing else.
package c06

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"sync"
	"testing"

	monkit "github.com/spacemonkeygo/monkit/v3"
	"pgregory.net/rapid"

	"verif.local/harness/kit"
)

func TestMain(m *testing.M) { kit.Main(m) }

type graph struct {
	mu    sync.Mutex
	funcs []*monkit.Func
	edges map[[2]int]bool // callee, caller; -1 is no caller
}

func newGraph(n int) *graph {
	reg := monkit.NewRegistry()
	g := &graph{edges: map[[2]int]bool{}}
	other := monkit.NewRegistry()
	for i := 0; i < n; i++ {
		// the same names in two scopes, with tags and in another registry
		switch i % 5 {
		case 3:
			g.funcs = append(g.funcs, reg.ScopeNamed("s0").FuncNamed(fmt.Sprint("f", i/5), monkit.NewSeriesTag("k", "v")))
		case 4:
			g.funcs = append(g.funcs, other.ScopeNamed("s0").FuncNamed(fmt.Sprint("f", i/5)))
		default:
			g.funcs = append(g.funcs, reg.ScopeNamed(fmt.Sprint("s", i%2)).FuncNamed(fmt.Sprint("f", i/5, i%5/2)))
		}
	}
	return g
}

func (g *graph) add(callee, caller int) {
	g.mu.Lock()
	g.edges[[2]int{callee, caller}] = true
	g.mu.Unlock()
}

func (g *graph) index(f *monkit.Func) int {
	if f == nil {
		return -1
	}
	for i := range g.funcs {
		if g.funcs[i] == f {
			return i
		}
	}
	return -2
}

func (g *graph) callers(callee int) (out []int) {
	g.funcs[callee].Parents(func(f *monkit.Func) { out = append(out, g.index(f)) })
	sort.Ints(out)
	return out
}

func (g *graph) check() string {
	for i := range g.funcs {
		var want []int
		for e := range g.edges {
			if e[0] == i {
				want = append(want, e[1])
			}
		}
		sort.Ints(want)
		if got := g.callers(i); fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Sprintf("callers of function %d: %v, want %v (-1: none, -2: unknown)", i, got, want)
		}
	}
	return ""
}

type span struct {
	ctx  context.Context
	f    int
	cur  int // function of the current span of ctx, -1 if none
	exit func(*error)
}

// start starts function f under the span (nil: background).
func (g *graph) start(style string, f int, under *span) *span {
	s := &span{ctx: context.Background(), f: f, cur: f}
	cur := -1
	if under != nil {
		s.ctx, cur = under.ctx, under.cur
	}
	fn := g.funcs[f]
	switch style {
	case "task":
		s.exit = fn.Task(&s.ctx)
	case "derived":
		s.ctx = context.WithValue(s.ctx, "k", 1)
		s.exit = fn.Task(&s.ctx)
	case "cancelled":
		var cancel func()
		s.ctx, cancel = context.WithCancel(s.ctx)
		cancel()
		s.exit = fn.Task(&s.ctx)
	case "nilptr":
		s.exit = fn.Task(nil)
		s.cur = cur
		cur = -1
	case "reset":
		s.exit = fn.ResetTrace(&s.ctx)
		cur = -1
	case "remote":
		s.exit = fn.RemoteTrace(&s.ctx, 5, monkit.NewTrace(6))
		cur = -1
	case "strip":
		s.ctx = monkit.ResetContextSpan(s.ctx)
		s.exit = fn.Task(&s.ctx)
		cur = -1
	case "observe":
		s.exit = fn.Observe()
		s.cur = cur
		cur = -1
	}
	g.add(f, cur)
	return s
}

var styles = []string{"task", "task", "task", "derived", "cancelled", "nilptr", "reset", "remote", "strip", "observe"}

func TestModel(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		size := rapid.OneOf(rapid.IntRange(1, 8), rapid.IntRange(1, 60)).Draw(t, "funcs")
		many := rapid.IntRange(0, 60).Draw(t, "many") == 60
		if many {
			size = rapid.SampledFrom([]int{70, 140, 270, 300}).Draw(t, "functions")
		}
		g := newGraph(size)
		var spans []*span
		if many || rapid.IntRange(0, 9).Draw(t, "fan") == 0 {
			// one function called from every other one
			hub := rapid.IntRange(0, len(g.funcs)-1).Draw(t, "hub")
			first := rapid.SampledFrom([]string{"task", "observe", "derived"}).Draw(t, "first")
			c.Logf("%s %d from all %d", first, hub, len(g.funcs))
			spans = append(spans, g.start(first, hub, nil))
			for i := range g.funcs {
				caller := g.start("task", i, nil)
				callee := g.start("task", hub, caller)
				callee.exit(nil)
				caller.exit(nil)
			}
		}
		for n := rapid.IntRange(1, 30).Draw(t, "n"); n > 0; n-- {
			var under *span
			if len(spans) > 0 && rapid.IntRange(0, 3).Draw(t, "child") > 0 {
				under = rapid.SampledFrom(spans).Draw(t, "under")
			}
			style := rapid.SampledFrom(styles).Draw(t, "style")
			f := rapid.IntRange(0, len(g.funcs)-1).Draw(t, "f")
			caller := -1
			if under != nil {
				caller = under.cur
			}
			c.Logf("%s %d under %d", style, f, caller)
			s := g.start(style, f, under)
			spans = append(spans, s)
			if p := g.check(); p != "" {
				t.Fatalf("%s", p)
			}
			if rapid.Bool().Draw(t, "finish") {
				exit := s.exit // its context stays in use
				s.exit = func(*error) {}
				err := errors.New("x")
				switch rapid.SampledFrom([]string{"ok", "ok", "error", "panic"}).Draw(t, "outcome") {
				case "ok":
					exit(nil)
				case "error":
					exit(&err)
				default:
					kit.Safely(func() {
						defer exit(nil)
						panic("x")
					})
				}
			}
			if rapid.IntRange(0, 9).Draw(t, "reset stats") == 0 {
				c.Logf("reset the statistics of %d", f)
				g.funcs[f].Reset()
			}
			if p := g.check(); p != "" {
				t.Fatalf("after finishing: %s", p)
			}
		}
		for _, s := range spans {
			s.exit(nil)
		}
		if p := g.check(); p != "" {
			t.Fatalf("at the end: %s", p)
		}
		c.NonTrivialIf(len(g.edges) >= 4)
	})
}

func concurrent(t *rapid.T, c *kit.Case, rounds int, run func(bodies []func())) {
	g := newGraph(rapid.IntRange(1, 4).Draw(t, "funcs"))
	var shared []*span
	for i := rapid.IntRange(1, 3).Draw(t, "shared"); i > 0; i-- {
		// callers run outside of the schedule
		f := rapid.IntRange(0, len(g.funcs)-1).Draw(t, "f")
		c.Logf("caller %d", f)
		shared = append(shared, g.start("task", f, nil))
	}
	shared = append(shared, nil)
	threads := rapid.IntRange(2, 4).Draw(t, "threads")
	type step struct {
		style    string
		f, under int
	}
	type seen struct{ callee, caller int }
	var mu sync.Mutex
	var bad string
	var bodies []func()
	for i := 0; i < threads; i++ {
		var steps []step
		for n := rapid.IntRange(1, 3).Draw(t, "len"); n > 0; n-- {
			s := step{rapid.SampledFrom(styles).Draw(t, "style"), rapid.IntRange(0, len(g.funcs)-1).Draw(t, "f"), rapid.IntRange(0, len(shared)-1).Draw(t, "under")}
			c.Logf("T%d %v", i, s)
			steps = append(steps, s)
		}
		bodies = append(bodies, func() {
			for r := 0; r < rounds; r++ {
				for _, s := range steps {
					sp := g.start(s.style, s.f, shared[s.under])
					// what is recorded is visible at once, and only once
					n := map[int]int{}
					for _, x := range g.callers(s.f) {
						n[x]++
					}
					caller := -1
					if shared[s.under] != nil && (s.style == "task" || s.style == "derived" || s.style == "cancelled") {
						caller = shared[s.under].f
					}
					if n[caller] != 1 {
						mu.Lock()
						bad = fmt.Sprintf("after a call of %d from %d its callers are %v", s.f, caller, n)
						mu.Unlock()
					}
					for x, k := range n {
						if k != 1 {
							mu.Lock()
							bad = fmt.Sprintf("caller %d of %d reported %d times", x, s.f, k)
							mu.Unlock()
						}
					}
					sp.exit(nil)
				}
			}
		})
	}
	run(bodies)
	if bad != "" {
		t.Fatalf("%s", bad)
	}
	if p := g.check(); p != "" {
		t.Fatalf("%s", p)
	}
	for _, s := range shared {
		if s != nil {
			s.exit(nil)
		}
	}
}

func TestSched(t *testing.T) {
	kit.NeedSched(t, func() { _ = monkit.NewRegistry().ScopeNamed("x").FuncNamed("y") })
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		sched := kit.Schedule(t)
		c.Logf("%v", sched)
		concurrent(t, c, 1, func(bodies []func()) {
			res := kit.Sched(t, c, sched, bodies...)
			c.NonTrivialIf(res.Switches > len(bodies))
		})
	})
}

func TestRace(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		concurrent(t, c, rapid.IntRange(1, 8).Draw(t, "rounds"), func(bodies []func()) {
			kit.Parallel(len(bodies), func(i int) { bodies[i]() })
		})
		c.NonTrivial()
	})
}
