// C08: trace watchers are told of each new trace exactly once.
package c08

import (
	"context"
	"fmt"
	"sync"
	"testing"
	"time"

	monkit "github.com/spacemonkeygo/monkit/v3"
	"pgregory.net/rapid"

	"verif.local/harness/kit"
	"verif.local/harness/vsched"
)

func TestMain(m *testing.M) { kit.Main(m) }

const never = int64(1) << 60

type ival struct{ inv, res int64 }

type traceRec struct {
	real  *monkit.Trace
	first *monkit.Span
	start ival
	reg   int
}

type watcher struct {
	w           *world
	id          int
	reg         int
	on, cancel  ival
	cancelFn    func()
	act         string
	told        []*monkit.Trace
	started     map[*monkit.Trace][]*monkit.Span // spans announced to the observer it attaches
	spansBefore []int64                          // spans of the trace when told
}

type world struct {
	mu       sync.Mutex
	now      func() int64
	regs     []*monkit.Registry
	traces   []*traceRec
	watchers []*watcher
	nextID   int
}

func newWorld(now func() int64, regs int) *world {
	w := &world{now: now}
	for i := 0; i < regs; i++ {
		w.regs = append(w.regs, monkit.NewRegistry())
	}
	return w
}

type firstSpan struct {
	wt *watcher
	tr *monkit.Trace
}

func (f firstSpan) Start(s *monkit.Span) {
	f.wt.w.mu.Lock()
	f.wt.started[f.tr] = append(f.wt.started[f.tr], s)
	f.wt.w.mu.Unlock()
}
func (f firstSpan) Finish(s *monkit.Span, err error, panicked bool, finish time.Time) {}

func (w *world) watch(reg int, act string) *watcher {
	w.mu.Lock()
	wt := &watcher{w: w, id: w.nextID, reg: reg, cancel: ival{never, never}, act: act, started: map[*monkit.Trace][]*monkit.Span{}}
	w.nextID++
	w.watchers = append(w.watchers, wt)
	wt.on = ival{w.now(), never}
	w.mu.Unlock()
	r := w.regs[reg]
	if wt.id%3 == 1 {
		r = r.WithTransformers() // another handle on the same registry
	}
	fn := r.ObserveTraces(func(t *monkit.Trace) {
		spans := t.Spans()
		w.mu.Lock()
		wt.told = append(wt.told, t)
		wt.spansBefore = append(wt.spansBefore, spans)
		a := wt.act
		wt.act = ""
		w.mu.Unlock()
		t.ObserveSpans(firstSpan{wt, t})
		switch a {
		case "cancel-self":
			wt.doCancel()
		case "cancel-other":
			w.mu.Lock()
			var other *watcher
			for _, x := range w.watchers {
				if x != wt && x.reg == wt.reg && x.cancelFn != nil && x.cancel.inv == never {
					other = x
				}
			}
			w.mu.Unlock()
			if other != nil {
				other.doCancel()
			}
		case "register":
			w.watch(wt.reg, "")
		case "start":
			ctx := context.Background()
			w.startTrace(wt.reg, "task", ctx)(nil)
		}
	})
	w.mu.Lock()
	wt.cancelFn = fn
	wt.on.res = w.now()
	w.mu.Unlock()
	return wt
}

func (wt *watcher) doCancel() {
	wt.w.mu.Lock()
	fn := wt.cancelFn
	first := fn != nil && wt.cancel.inv == never
	if first {
		wt.cancel.inv = wt.w.now()
	}
	wt.w.mu.Unlock()
	if fn == nil {
		return
	}
	fn()
	if first {
		wt.w.mu.Lock()
		wt.cancel.res = wt.w.now()
		wt.w.mu.Unlock()
	}
}

func (w *world) tick() int64 {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.now()
}

// startTrace starts a trace and, under its first span, a child span.
func (w *world) startTrace(reg int, style string, ctx context.Context) func(*error) {
	f := w.regs[reg].ScopeNamed("s").FuncNamed("f")
	r := &traceRec{reg: reg}
	r.start = ival{w.tick(), never}
	var exit func(*error)
	switch style {
	case "task":
		exit = f.Task(&ctx)
	case "named":
		exit = w.regs[reg].ScopeNamed("s").TaskNamed("g")(&ctx)
	case "lazy":
		exit = w.regs[reg].ScopeNamed("s").Task()(&ctx)
	case "reset":
		exit = f.ResetTrace(&ctx)
	case "remote":
		exit = f.RemoteTrace(&ctx, 0, monkit.NewTrace(monkit.NewId()))
	case "remote-nil":
		// no trace is given, so this starts one
		exit = f.RemoteTrace(&ctx, 9, nil)
	case "cancelled":
		var cancel func()
		ctx, cancel = context.WithCancel(ctx)
		cancel()
		exit = f.Task(&ctx)
	case "strip":
		ctx = monkit.ResetContextSpan(ctx)
		exit = f.Task(&ctx)
	case "nil":
		ctx = nil
		exit = f.Task(&ctx)
	}
	r.start.res = w.tick()
	r.first = monkit.SpanFromCtx(ctx)
	r.real = r.first.Trace()
	w.mu.Lock()
	w.traces = append(w.traces, r)
	w.mu.Unlock()
	// a child starts no trace
	f.Task(&ctx)(nil)
	return exit
}

var styles = []string{"task", "named", "lazy", "reset", "remote", "strip", "nil", "remote-nil", "cancelled"}
var acts = []string{"", "", "", "cancel-self", "cancel-other", "register", "start"}

func (w *world) check() string {
	known := map[*monkit.Trace]*traceRec{}
	for _, t := range w.traces {
		known[t.real] = t
	}
	for _, wt := range w.watchers {
		n := map[*traceRec]int{}
		for i, t := range wt.told {
			r := known[t]
			if r == nil {
				return fmt.Sprintf("watcher %d told of an unknown trace", wt.id)
			}
			if r.reg != wt.reg {
				return fmt.Sprintf("watcher %d told of a trace of another registry", wt.id)
			}
			n[r]++
			if wt.spansBefore[i] != 0 {
				return fmt.Sprintf("watcher %d told of a trace after its first span started", wt.id)
			}
			if got := wt.started[t]; n[r] == 1 && (len(got) != 2 || got[0] != r.first) {
				return fmt.Sprintf("watcher %d: its observer saw %d span starts, want the first span and its child", wt.id, len(got))
			}
		}
		for _, r := range w.traces {
			if r.reg != wt.reg {
				continue
			}
			must := wt.on.res < r.start.inv && wt.cancel.inv > r.start.res
			may := !(wt.on.inv > r.start.res || wt.cancel.res < r.start.inv)
			if must && n[r] != 1 {
				return fmt.Sprintf("watcher %d was told %d times of a trace started while it was registered (registered %v, cancelled %v, started %v)", wt.id, n[r], wt.on, wt.cancel, r.start)
			}
			if !may && n[r] != 0 {
				return fmt.Sprintf("watcher %d was told of a trace started outside of its registration (registered %v, cancelled %v, started %v)", wt.id, wt.on, wt.cancel, r.start)
			}
			if n[r] > 1 {
				return fmt.Sprintf("watcher %d was told %d times of one trace", wt.id, n[r])
			}
		}
	}
	return ""
}

func TestModel(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		var clk int64
		w := newWorld(func() int64 { clk++; return clk }, rapid.IntRange(1, 2).Draw(t, "regs"))
		var outer []context.Context
		seen := false
		for n := rapid.IntRange(1, 25).Draw(t, "n"); n > 0; n-- {
			reg := rapid.IntRange(0, len(w.regs)-1).Draw(t, "reg")
			switch rapid.SampledFrom([]string{"watch", "watch", "watch", "watch", "cancel", "cancel", "start", "start", "start", "start", "start", "churn"}).Draw(t, "op") {
			case "churn":
				// others come and go
				k := rapid.IntRange(1, 80).Draw(t, "comings and goings")
				c.Logf("churn %d registry %d", k, reg)
				var last func()
				for i := 0; i < k; i++ {
					cancel := w.regs[reg].ObserveTraces(func(*monkit.Trace) {})
					if last != nil {
						last()
					}
					last = cancel
				}
				last()
			case "watch":
				a := rapid.SampledFrom(acts).Draw(t, "act")
				wt := w.watch(reg, a)
				c.Logf("watch #%d registry %d %s", wt.id, reg, a)
			case "cancel":
				if len(w.watchers) > 0 {
					wt := rapid.SampledFrom(w.watchers).Draw(t, "watcher")
					c.Logf("cancel #%d", wt.id)
					wt.doCancel()
				}
			case "start":
				style := rapid.SampledFrom(styles).Draw(t, "style")
				ctx := context.Background()
				if (style == "reset" || style == "remote" || style == "strip") && len(outer) > 0 {
					ctx = rapid.SampledFrom(outer).Draw(t, "outer")
				}
				c.Logf("start %s registry %d", style, reg)
				exit := w.startTrace(reg, style, ctx)
				defer exit(nil)
				f := w.traces[len(w.traces)-1].first
				outer = append(outer, f)
				seen = seen || len(w.watchers) > 1
			}
			if p := w.check(); p != "" {
				t.Fatalf("%s", p)
			}
		}
		c.NonTrivialIf(seen && len(w.traces) > 1)
	})
}

func concurrent(t *rapid.T, c *kit.Case, now func() int64, rounds int, run func(bodies []func())) {
	w := newWorld(now, 1)
	var shared []*watcher
	for i := rapid.IntRange(0, 3).Draw(t, "shared"); i > 0; i-- {
		shared = append(shared, w.watch(0, ""))
	}
	c.Logf("%d watchers before", len(shared))
	type step struct {
		kind, style, act string
		who              int
	}
	var bodies []func()
	for i := rapid.IntRange(2, 4).Draw(t, "threads"); i > 0; i-- {
		var steps []step
		for n := rapid.IntRange(1, 4).Draw(t, "len"); n > 0; n-- {
			s := step{rapid.SampledFrom([]string{"start", "start", "watch", "watch", "cancel", "cancel-shared"}).Draw(t, "kind"),
				rapid.SampledFrom(styles).Draw(t, "style"), rapid.SampledFrom(acts).Draw(t, "act"), rapid.IntRange(0, 3).Draw(t, "who")}
			c.Logf("T%d %v", i, s)
			steps = append(steps, s)
		}
		bodies = append(bodies, func() {
			var mine []*watcher
			for r := 0; r < rounds; r++ {
				for _, s := range steps {
					switch s.kind {
					case "start":
						exit := w.startTrace(0, s.style, context.Background())
						vsched.Yield()
						exit(nil)
					case "watch":
						mine = append(mine, w.watch(0, s.act))
					case "cancel":
						if len(mine) > 0 {
							mine[s.who%len(mine)].doCancel()
						}
					case "cancel-shared":
						if len(shared) > 0 {
							shared[s.who%len(shared)].doCancel()
						}
					}
				}
				if r > 0 {
					for _, o := range mine {
						o.doCancel()
					}
				}
			}
		})
	}
	run(bodies)
	w.startTrace(0, "task", context.Background())(nil)
	if p := w.check(); p != "" {
		t.Fatalf("%s", p)
	}
}

func TestSched(t *testing.T) {
	kit.NeedSched(t, func() { _ = monkit.NewRegistry().ScopeNamed("x").FuncNamed("y") })
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		sched := kit.Schedule(t)
		c.Logf("%v", sched)
		var clk int64
		concurrent(t, c, func() int64 { clk++; return clk }, 1, func(bodies []func()) {
			res := kit.Sched(t, c, sched, bodies...)
			c.NonTrivialIf(res.Switches > len(bodies))
		})
	})
}

func TestRace(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		concurrent(t, c, kit.Clock, rapid.IntRange(1, 6).Draw(t, "rounds"), func(bodies []func()) {
			kit.Parallel(len(bodies), func(i int) { bodies[i]() })
		})
		c.NonTrivial()
	})
}
