// C09: span collection returns exactly the matched span's finished subtree.
package c09

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	monkit "github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	"pgregory.net/rapid"

	"verif.local/harness/kit"
	"verif.local/harness/vsched"
)

func TestMain(m *testing.M) { kit.Main(m) }

const never = int64(1) << 60

type ival struct{ inv, res int64 }

// rec is a span of the history.
type rec struct {
	real          *monkit.Span
	ctx           context.Context
	exit          func(*error)
	start, finish ival
	err           error
	panicked      bool
	before, after time.Time
	n             int
	mu            sync.Mutex
	done          bool
}

// world is a program of spans.
type world struct {
	mu    sync.Mutex
	now   func() int64
	reg   *monkit.Registry
	funcs []*monkit.Func
	spans []*rec
}

func newWorld(now func() int64) *world {
	w := &world{now: now, reg: monkit.NewRegistry()}
	for i := 0; i < 3; i++ {
		w.funcs = append(w.funcs, w.reg.ScopeNamed("s").FuncNamed(fmt.Sprint("f", i)))
	}
	return w
}

func (w *world) tick() int64 {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.now()
}

func (w *world) start(f int, style string, parent *rec, ctx context.Context) *rec {
	r := &rec{finish: ival{never, never}, ctx: ctx}
	if parent != nil {
		r.ctx = parent.ctx
	}
	r.start = ival{w.tick(), never}
	fn := w.funcs[f]
	switch {
	case style == "reset":
		r.exit = fn.ResetTrace(&r.ctx)
	case style == "remote" && parent != nil:
		r.exit = fn.RemoteTrace(&r.ctx, parent.real.Id(), parent.real.Trace())
	case style == "twin" && parent != nil:
		// another visit of what is one trace elsewhere
		r.exit = fn.RemoteTrace(&r.ctx, 7, monkit.NewTrace(parent.real.Trace().Id()))
	default:
		r.exit = fn.Task(&r.ctx)
	}
	r.real = monkit.SpanFromCtx(r.ctx)
	res := w.tick()
	w.mu.Lock()
	r.start.res = res
	r.n = len(w.spans)
	w.spans = append(w.spans, r)
	w.mu.Unlock()
	return r
}

var theErr = errors.New("the error")

func (w *world) end(r *rec, how string) {
	r.mu.Lock()
	done := r.done
	r.done = true
	r.mu.Unlock()
	if done {
		return
	}
	r.before = time.Now()
	inv := w.tick()
	switch how {
	case "err":
		r.err = theErr
		err := theErr
		r.exit(&err)
	case "panic":
		r.panicked = true
		func() {
			defer func() { _ = recover() }()
			defer r.exit(nil)
			panic("p")
		}()
	default:
		r.exit(nil)
	}
	r.after = time.Now()
	res := w.tick()
	w.mu.Lock()
	r.finish = ival{inv, res}
	w.mu.Unlock()
}

// sorts checks that collected spans can be put in the order of their starts.
func sorts(got []*collect.FinishedSpan) string {
	for _, reverse := range []bool{false, true} {
		list := append([]*collect.FinishedSpan(nil), got...)
		if reverse {
			for i, j := 0, len(list)-1; i < j; i, j = i+1, j-1 {
				list[i], list[j] = list[j], list[i]
			}
		}
		collect.StartTimeSorter(list).Sort()
		seen := map[*collect.FinishedSpan]bool{}
		for i, s := range list {
			if i > 0 && s.Span.Start().Before(list[i-1].Span.Start()) && s.Span.Start().UnixNano() < list[i-1].Span.Start().UnixNano() {
				return fmt.Sprintf("sorted by start: span %d of %d starts before its predecessor", i, len(list))
			}
			seen[s] = true
		}
		for _, s := range got {
			if !seen[s] {
				return "sorted by start: a span is lost"
			}
		}
	}
	return ""
}

// checkCollected decides whether got is a right answer for a collection
// started by the span m, whose start or forcing happened within from.
func (w *world) checkCollected(got []*collect.FinishedSpan, m *monkit.Span, from ival, mfin ival) string {
	if len(got) == 0 || got[0].Span != m {
		return "the first collected span is not the matched one"
	}
	by := map[*monkit.Span]*rec{}
	byId := map[int64]*monkit.Span{}
	for _, r := range w.spans {
		by[r.real] = r
		byId[r.real.Id()] = r.real
	}
	in := map[*monkit.Span]bool{}
	for _, g := range got {
		if in[g.Span] {
			return fmt.Sprintf("span %d collected twice", g.Span.Id())
		}
		in[g.Span] = true
	}
	for i, g := range got {
		if g.Span.Trace() != m.Trace() {
			return "span of another trace collected"
		}
		r := by[g.Span]
		if r != nil {
			if g.Err != r.err || g.Panicked != r.panicked {
				return fmt.Sprintf("span #%d collected with %v, %v, want %v, %v", r.n, g.Err, g.Panicked, r.err, r.panicked)
			}
			if r.finish.inv != never && (g.Finish.Before(r.before) || g.Finish.After(r.after)) {
				return fmt.Sprintf("span #%d collected with the wrong finish time", r.n)
			}
		}
		if i == 0 {
			continue
		}
		if r == nil {
			return "unknown span collected"
		}
		pid, ok := g.Span.ParentId()
		if !ok || !(pid == m.Id() || byId[pid] != nil && in[byId[pid]]) {
			return fmt.Sprintf("span #%d collected without its parent", r.n)
		}
		if r.finish.res < from.inv {
			return fmt.Sprintf("span #%d finished before the match", r.n)
		}
		if r.finish.inv > mfin.res {
			return fmt.Sprintf("span #%d finished after the matched span", r.n)
		}
	}
	// everything that must be there
	must := map[int64]bool{m.Id(): true}
	for changed := true; changed; {
		changed = false
		for _, r := range w.spans {
			if r.real == m || must[r.real.Id()] || r.real.Trace() != m.Trace() {
				continue
			}
			pid, ok := r.real.ParentId()
			if ok && must[pid] && r.finish.inv > from.res && r.finish.res < mfin.inv {
				must[r.real.Id()] = true
				changed = true
				if !in[r.real] {
					return fmt.Sprintf("span #%d is missing", r.n)
				}
			}
		}
	}
	return sorts(got)
}

func closed(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

var hows = []string{"", "", "err", "panic"}
var styles = []string{"task", "task", "task", "task", "reset", "remote", "twin"}

// TestModel drives a SpanCollector attached in the various ways.
func TestModel(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		var clk int64
		w := newWorld(func() int64 { clk++; return clk })
		target := rapid.IntRange(0, 2).Draw(t, "target")
		asked := 0
		matcher := func(s *monkit.Span) bool { asked++; return s.Func() == w.funcs[target] }
		if rapid.IntRange(0, 5).Draw(t, "nomatcher") == 0 {
			matcher = nil
		}
		col := collect.NewSpanCollector(matcher)
		observing := false
		var cancel func()
		var attachedTo map[*monkit.Trace]bool // traces observed, nil: all new ones too
		all := false
		var matched *rec
		var from ival
		stopped := false
		var live []*rec
		over := false // detached for good
		observed := func(tr *monkit.Trace) bool { return observing && attachedTo[tr] }
		big := false
		for n := rapid.IntRange(3, 40).Draw(t, "n"); n > 0; n-- {
			switch rapid.SampledFrom([]string{"attach", "attach-trace", "start", "start", "start", "start", "end", "end", "end", "stop", "force", "cancel"}).Draw(t, "op") {
			case "attach":
				if !observing && !over {
					c.Logf("attach to everything")
					inv := w.tick()
					cancel = collect.ObserveAllTraces(w.reg, col)
					observing, all = true, true
					// running traces, and later those that start
					attachedTo = map[*monkit.Trace]bool{}
					for _, r := range live {
						attachedTo[r.real.Trace()] = true
					}
					if matched != nil {
						from = ival{inv, w.tick()}
					}
				}
			case "attach-trace":
				if !observing && !over && len(live) > 0 {
					r := rapid.SampledFrom(live).Draw(t, "on")
					c.Logf("attach to the trace of #%d", r.n)
					inv := w.tick()
					cancel = r.real.Trace().ObserveSpans(col)
					observing = true
					attachedTo = map[*monkit.Trace]bool{r.real.Trace(): true}
					if matched != nil {
						from = ival{inv, w.tick()}
					}
				}
			case "cancel":
				if observing && rapid.IntRange(0, 3).Draw(t, "really") == 0 {
					c.Logf("detach")
					cancel()
					cancel()
					observing, all, over = false, false, true
					before := asked
					x := w.start(target, "task", nil, context.Background())
					w.end(x, "")
					if asked != before {
						t.Fatalf("asked about a span after detaching")
					}
				}
			case "start":
				var parent *rec
				if len(w.spans) > 0 && rapid.IntRange(0, 4).Draw(t, "child") > 0 {
					parent = rapid.SampledFrom(w.spans).Draw(t, "parent")
				}
				f := rapid.IntRange(0, 2).Draw(t, "f")
				style := rapid.SampledFrom(styles).Draw(t, "style")
				r := w.start(f, style, parent, context.Background())
				p := -1
				if parent != nil {
					p = parent.n
				}
				c.Logf("start #%d f%d %s under #%d", r.n, f, style, p)
				live = append(live, r)
				if all && (parent == nil || style != "task") {
					if tr := r.real.Trace(); !attachedTo[tr] {
						attachedTo[tr] = true
						if matched != nil && matched.real != nil && matched.real.Trace() == tr {
							// forced on a trace that was over when the
							// collector was attached, and not observed
							// until now
							from.res = w.tick()
						}
					}
				}
				if observed(r.real.Trace()) && matched == nil && !stopped && matcher != nil && f == target {
					matched, from = r, r.start
					c.Logf("  matches")
				}
			case "force":
				if len(live) > 0 && rapid.IntRange(0, 2).Draw(t, "really") == 0 {
					r := rapid.SampledFrom(live).Draw(t, "force")
					c.Logf("force #%d", r.n)
					inv := w.tick()
					col.ForceStart(r.real)
					if matched == nil && !stopped {
						matched, from = r, ival{inv, w.tick()}
					}
				}
			case "stop":
				if rapid.IntRange(0, 6).Draw(t, "really") == 0 {
					c.Logf("stop")
					col.Stop()
					stopped = true
				}
			case "end":
				if len(live) > 0 {
					k := rapid.IntRange(0, len(live)-1).Draw(t, "which")
					r := live[k]
					live = append(live[:k:k], live[k+1:]...)
					how := rapid.SampledFrom(hows).Draw(t, "how")
					c.Logf("end #%d %s", r.n, how)
					obs := observed(r.real.Trace())
					if r == matched && !stopped && !obs {
						matched = &rec{} // never completes: its finish is not observed
					}
					w.end(r, how)
					if r == matched && !stopped {
						stopped = true
						got := col.Spans()
						if p := w.checkCollected(got, r.real, from, r.finish); p != "" {
							t.Fatalf("%s", p)
						}
						big = big || len(got) > 2
						c.Label("completed")
					}
				}
			}
			if closed(col.Done()) != stopped {
				t.Fatalf("done %v, want %v", !stopped, stopped)
			}
			if !stopped && len(col.Spans()) > 0 {
				t.Fatalf("spans before the match finished")
			}
		}
		for _, r := range live {
			w.end(r, "")
		}
		c.NonTrivialIf(big)
	})
}

// concurrent collection
func concurrent(t *rapid.T, c *kit.Case, now func() int64, rounds int, stops bool, run func(bodies []func())) {
	w := newWorld(now)
	target := 0
	col := collect.NewSpanCollector(func(s *monkit.Span) bool { return s.Func() == w.funcs[target] })
	var shared []*rec
	for i := rapid.IntRange(1, 2).Draw(t, "shared"); i > 0; i-- {
		var p *rec
		if len(shared) > 0 && rapid.Bool().Draw(t, "nested") {
			p = shared[0]
		}
		shared = append(shared, w.start(1, "task", p, context.Background()))
	}
	early := rapid.Bool().Draw(t, "early")
	var cancel func()
	var attached ival = ival{never, never}
	attach := func() {
		inv := w.tick()
		cancel = collect.ObserveAllTraces(w.reg, col)
		attached = ival{inv, w.tick()}
	}
	if early {
		attach()
	}
	var stopInv int64 = never
	var mu sync.Mutex
	bad := ""
	fail := func(format string, args ...interface{}) {
		mu.Lock()
		if bad == "" {
			bad = fmt.Sprintf(format, args...)
		}
		mu.Unlock()
	}
	type step struct {
		kind, style, how string
		f, who           int
		own              bool
	}
	var bodies []func()
	kinds := []string{"start", "start", "start", "end", "end", "read"}
	if stops {
		kinds = append(kinds, "stop")
	}
	for i := rapid.IntRange(2, 3).Draw(t, "threads"); i > 0; i-- {
		var steps []step
		for n := rapid.IntRange(2, 6).Draw(t, "len"); n > 0; n-- {
			s := step{rapid.SampledFrom(kinds).Draw(t, "kind"), rapid.SampledFrom(styles).Draw(t, "style"), rapid.SampledFrom(hows).Draw(t, "how"),
				rapid.IntRange(0, 2).Draw(t, "f"), rapid.IntRange(0, 3).Draw(t, "who"), rapid.Bool().Draw(t, "own")}
			c.Logf("T%d %+v", i, s)
			steps = append(steps, s)
		}
		bodies = append(bodies, func() {
			for r := 0; r < rounds; r++ {
				var mine []*rec
				for _, s := range steps {
					switch s.kind {
					case "start":
						parent := shared[s.who%len(shared)]
						if s.own && len(mine) > 0 {
							parent = mine[s.who%len(mine)]
						}
						mine = append(mine, w.start(s.f, s.style, parent, nil))
						vsched.Yield()
					case "end":
						if len(mine) > 0 {
							w.end(mine[s.who%len(mine)], s.how)
						}
					case "read":
						d := closed(col.Done())
						a := col.Spans()
						b := col.Spans()
						mu.Lock()
						stopped := stopInv != never
						mu.Unlock()
						// a finish that is underway while the collector is stopped may
						// still complete the collection
						if len(a) != len(b) && (len(a) > 0 || d && !stopped) {
							fail("the collection changed after it was complete")
						}
					case "stop":
						mu.Lock()
						if stopInv == never {
							stopInv = w.tick()
						}
						mu.Unlock()
						col.Stop()
					}
				}
				for _, m := range mine {
					w.end(m, "")
				}
			}
		})
	}
	if !early {
		bodies = append(bodies, attach)
	}
	run(bodies)
	cancel()
	if bad != "" {
		t.Fatalf("%s", bad)
	}
	// a trace that starts while the collector is being attached may be missed
	covered := func(r *rec) bool {
		for _, s := range shared {
			if s.real.Trace() == r.real.Trace() {
				return true
			}
		}
		for _, s := range w.spans {
			if s.real.Trace() == r.real.Trace() && s.start.inv < attached.res {
				return false
			}
		}
		return true
	}
	got := col.Spans()
	if len(got) == 0 {
		// right only if no match was surely observed, or it was stopped
		if stopInv == never {
			for _, r := range w.spans {
				if r.real.Func() == w.funcs[target] && r.start.inv > attached.res && covered(r) {
					t.Fatalf("nothing collected although #%d matched", r.n)
				}
			}
			if closed(col.Done()) {
				t.Fatalf("done without a collection")
			}
		} else if !closed(col.Done()) {
			t.Fatalf("stopped but not done")
		}
	} else {
		if !closed(col.Done()) {
			t.Fatalf("a collection but not done")
		}
		var m *rec
		for _, r := range w.spans {
			if r.real == got[0].Span {
				m = r
			}
		}
		if m == nil || m.real.Func() != w.funcs[target] {
			t.Fatalf("collected a span that does not match")
		}
		for _, r := range w.spans {
			if r != m && r.real.Func() == w.funcs[target] && r.start.inv > attached.res && covered(r) && r.start.res < m.start.inv {
				t.Fatalf("#%d matched before #%d", r.n, m.n)
			}
		}
		if p := w.checkCollected(got, m.real, m.start, m.finish); p != "" {
			t.Fatalf("%s", p)
		}
		c.Label("collected")
		c.LabelIf(len(got) > 1, "collected children")
	}
	for _, s := range shared {
		w.end(s, "")
	}
}

func TestSched(t *testing.T) {
	kit.NeedSched(t, func() { _ = monkit.NewRegistry().ScopeNamed("x").FuncNamed("y") })
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		sched := kit.Schedule(t)
		c.Logf("%v", sched)
		var clk int64
		concurrent(t, c, func() int64 { clk++; return clk }, 1, rapid.IntRange(0, 3).Draw(t, "stops") == 0, func(bodies []func()) {
			res := kit.Sched(t, c, sched, bodies...)
			c.NonTrivialIf(res.Switches > len(bodies))
		})
	})
}

func TestRace(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		concurrent(t, c, kit.Clock, rapid.IntRange(1, 6).Draw(t, "rounds"), rapid.IntRange(0, 3).Draw(t, "stops") == 0, func(bodies []func()) {
			kit.Parallel(len(bodies), func(i int) { bodies[i]() })
		})
		c.NonTrivial()
	})
}

// counting is an observer that counts what it is told.
type counting struct{ n atomic.Int64 }

func (o *counting) Start(*monkit.Span)                          { o.n.Add(1) }
func (o *counting) Finish(*monkit.Span, error, bool, time.Time) { o.n.Add(1) }

// detach ends the observation of all traces while traces start and end:
// nothing of it stays attached to any of them.
func detach(t *rapid.T, c *kit.Case, run func(bodies []func())) {
	reg := monkit.NewRegistry()
	f := reg.ScopeNamed("s").FuncNamed("f")
	o := &counting{}
	type running struct {
		ctx  context.Context
		exit func(*error)
	}
	var mu sync.Mutex
	var all []running
	start := func(ctx context.Context, how string) {
		var exit func(*error)
		switch how {
		case "remote":
			exit = f.RemoteTrace(&ctx, 7, monkit.NewTrace(8))
		case "reset":
			exit = f.ResetTrace(&ctx)
		default:
			exit = f.Task(&ctx)
		}
		mu.Lock()
		all = append(all, running{ctx, exit})
		mu.Unlock()
	}
	for i := rapid.IntRange(0, 2).Draw(t, "running"); i > 0; i-- {
		start(context.Background(), "task")
	}
	var bodies []func()
	during := rapid.Bool().Draw(t, "attach meanwhile")
	var cancel func()
	if !during {
		cancel = collect.ObserveAllTraces(reg, o)
	}
	twice := rapid.Bool().Draw(t, "twice")
	bodies = append(bodies, func() {
		if during {
			cancel = collect.ObserveAllTraces(reg, o)
			vsched.Yield()
		}
		cancel()
		if twice {
			cancel()
		}
	})
	for i := rapid.IntRange(1, 2).Draw(t, "threads"); i > 0; i-- {
		var hows []string
		for k := rapid.IntRange(1, 3).Draw(t, "starts"); k > 0; k-- {
			hows = append(hows, rapid.SampledFrom([]string{"task", "task", "reset", "remote"}).Draw(t, "how"))
		}
		bodies = append(bodies, func() {
			for _, how := range hows {
				start(context.Background(), how)
			}
		})
	}
	c.Logf("attach meanwhile %v twice %v threads %d", during, twice, len(bodies))
	run(bodies)
	before := o.n.Load()
	for _, r := range append([]running(nil), all...) {
		start(r.ctx, "task")
		r.exit(nil)
	}
	for _, r := range all[len(all)/2:] {
		r.exit(nil)
	}
	if n := o.n.Load(); n != before {
		t.Fatalf("%d events of %d traces after the observation ended", n-before, len(all)/2)
	}
}

func TestSchedDetach(t *testing.T) {
	kit.NeedSched(t, func() { _ = monkit.NewRegistry().ScopeNamed("x").FuncNamed("y") })
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		sched := kit.Schedule(t)
		c.Logf("%v", sched)
		detach(t, c, func(bodies []func()) {
			res := kit.Sched(t, c, sched, bodies...)
			c.NonTrivialIf(res.Switches > len(bodies))
		})
	})
}

// TestModelWatch: WatchForSpans and FindSpan on running and new traces.
func TestModelWatch(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		w := newWorld(kit.Clock)
		target := 0
		find := rapid.Bool().Draw(t, "find")
		cancelAt := -1
		n := rapid.IntRange(1, 14).Draw(t, "n")
		if rapid.IntRange(0, 3).Draw(t, "cancel") == 0 {
			cancelAt = rapid.IntRange(0, n).Draw(t, "cancelat")
		}
		// some spans are already running
		var live []*rec
		for i := rapid.IntRange(0, 3).Draw(t, "before"); i > 0; i-- {
			var p *rec
			if len(live) > 0 && rapid.Bool().Draw(t, "nested") {
				p = live[0]
			}
			live = append(live, w.start(1+rapid.IntRange(0, 1).Draw(t, "f"), "task", p, context.Background()))
		}
		orphaned := len(live) > 1 && rapid.Bool().Draw(t, "orphan")
		if orphaned { // a running trace whose first span is gone
			w.end(live[0], "")
			live = live[1:]
		}
		c.Logf("find=%v running=%d orphan=%v cancel at %d", find, len(live), orphaned, cancelAt)
		var asked atomic.Int64
		probe := w.reg.ScopeNamed("s").FuncNamed("probe")
		matcher := func(s *monkit.Span) bool {
			asked.Add(1)
			return s.Func() == w.funcs[target]
		}
		ctx, cancel := context.WithCancelCause(context.Background())
		defer cancel(nil)
		wantErr := context.Canceled
		if rapid.IntRange(0, 2).Draw(t, "deadline") == 0 {
			// over when told, as a deadline would be
			wantErr = rapid.SampledFrom([]error{context.DeadlineExceeded, errors.New("own error")}).Draw(t, "context error")
			ctx = endsWith{ctx, wantErr}
		}
		var got []*collect.FinishedSpan
		var gotErr error
		done := make(chan struct{})
		go func() {
			defer close(done)
			if find {
				collect.FindSpan(ctx, w.reg, matcher)
			} else {
				got, gotErr = collect.WatchForSpans(ctx, w.reg, matcher)
			}
		}()
		// wait until it is registered: new traces first, then running ones
		for asked.Load() == 0 {
			pctx := context.Background()
			probe.Task(&pctx)(nil)
			runtime.Gosched()
		}
		for _, r := range live {
			before := asked.Load()
			for asked.Load() == before {
				pctx := r.ctx
				probe.Task(&pctx)(nil)
				runtime.Gosched()
			}
		}
		var matched *rec
		finished := false
		for i := 0; i < n && !finished; i++ {
			if i == cancelAt {
				break
			}
			if rapid.IntRange(0, 9).Draw(t, "op") < 6 || len(live) == 0 {
				var parent *rec
				if len(live) > 0 && rapid.IntRange(0, 4).Draw(t, "child") > 0 {
					parent = rapid.SampledFrom(live).Draw(t, "parent")
				}
				f := rapid.IntRange(0, 2).Draw(t, "f")
				style := rapid.SampledFrom(styles).Draw(t, "style")
				r := w.start(f, style, parent, context.Background())
				c.Logf("start #%d f%d %s", r.n, f, style)
				live = append(live, r)
				if f == target && matched == nil {
					matched = r
					finished = find
				}
			} else {
				k := rapid.IntRange(0, len(live)-1).Draw(t, "which")
				r := live[k]
				live = append(live[:k:k], live[k+1:]...)
				c.Logf("end #%d", r.n)
				w.end(r, rapid.SampledFrom(hows).Draw(t, "how"))
				finished = finished || r == matched
			}
		}
		if !finished {
			c.Logf("cancelled")
			cancel(errors.New("cause"))
			<-done // a hang here is a violation
			if !find && (got != nil || gotErr != wantErr) {
				t.Fatalf("cancelled watch returned %v, %v", got, gotErr)
			}
		} else {
			<-done
			if !find {
				if gotErr != nil {
					t.Fatalf("watch returned %v", gotErr)
				}
				if p := w.checkCollected(got, matched.real, matched.start, matched.finish); p != "" {
					t.Fatalf("%s", p)
				}
				c.NonTrivialIf(len(got) > 1)
			} else {
				c.NonTrivial()
			}
		}
		// nobody is asked any more
		before := asked.Load()
		w.end(w.start(target, "task", nil, context.Background()), "")
		for _, r := range live {
			w.end(w.start(target, "task", r, nil), "")
		}
		if asked.Load() != before {
			t.Fatalf("still asked about spans after it returned")
		}
		for _, r := range live {
			w.end(r, "")
		}
	})
}

// endsWith is a context that ends with an error of its own.
type endsWith struct {
	context.Context
	err error
}

func (e endsWith) Err() error {
	if e.Context.Err() == nil {
		return nil
	}
	return e.err
}

// TestModelMany: trees of any size are collected whole.
func TestModelMany(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		var clk int64
		w := newWorld(func() int64 { clk++; return clk })
		outer := w.start(1, "task", nil, context.Background())
		n := rapid.SampledFrom([]int{10, 100, 300, 1100, 2500}).Draw(t, "n")
		shape := rapid.SampledFrom([]string{"wide", "deep", "bushy"}).Draw(t, "shape")
		c.Logf("%d spans, %s", n, shape)
		want := map[*monkit.Span]bool{}
		got := collect.CollectSpans(outer.ctx, func(ctx context.Context) {
			want[monkit.SpanFromCtx(ctx)] = true
			ctxs := []context.Context{ctx}
			var exits []func(*error)
			for i := 0; i < n; i++ {
				at := 0
				switch shape {
				case "deep":
					at = len(ctxs) - 1
				case "bushy":
					at = len(ctxs) / 2
				}
				child := ctxs[at]
				exit := w.funcs[i%3].Task(&child)
				want[monkit.SpanFromCtx(child)] = true
				if shape == "wide" && i%2 == 0 {
					exit(nil)
					continue
				}
				ctxs = append(ctxs, child)
				exits = append(exits, exit)
			}
			for i := len(exits) - 1; i >= 0; i-- {
				exits[i](nil)
			}
		})
		if len(got) != n+1 {
			t.Fatalf("%d spans collected, want %d", len(got), n+1)
		}
		for _, g := range got {
			if !want[g.Span] {
				t.Fatalf("span %d collected twice, or unknown", g.Span.Id())
			}
			delete(want, g.Span)
		}
		w.end(outer, "")
		c.NonTrivialIf(n >= 100)
	})
}

// TestModelCollect: CollectSpans around a generated piece of work.
func TestModelCollect(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		var clk int64
		w := newWorld(func() int64 { clk++; return clk })
		if rapid.IntRange(0, 9).Draw(t, "nospan") == 0 {
			ran := 0
			base := context.WithValue(context.Background(), "k", 1)
			got := collect.CollectSpans(base, func(ctx context.Context) {
				ran++
				if ctx != base {
					t.Fatalf("another context")
				}
			})
			if ran != 1 || got != nil {
				t.Fatalf("without a span: ran %d times, %v", ran, got)
			}
			c.Logf("no span")
			return
		}
		outer := w.start(1, "task", nil, context.Background())
		w.collect(t, c, outer, 2)
		w.end(outer, "")
	})
}

func (w *world) collect(t *rapid.T, c *kit.Case, outer *rec, depth int) {
	var live []*rec
	var inner *rec
	panics := rapid.IntRange(0, 5).Draw(t, "panics") == 0
	var got []*collect.FinishedSpan
	returned := false
	var mid ival
	rec0 := kit.Safely(func() {
		got = collect.CollectSpans(outer.ctx, func(ctx context.Context) {
			s := monkit.SpanFromCtx(ctx)
			pid, ok := s.ParentId()
			if s == outer.real || !ok || pid != outer.real.Id() || s.Trace() != outer.real.Trace() {
				t.Fatalf("work does not run in a child span of the current one")
			}
			inner = &rec{real: s, ctx: ctx, n: -1, finish: ival{never, never}}
			inner.start = ival{clkOf(w), clkOf(w)}
			for n := rapid.IntRange(0, 10).Draw(t, "n"); n > 0; n-- {
				switch {
				case depth > 0 && rapid.IntRange(0, 7).Draw(t, "op") == 0:
					base := outer
					if len(live) > 0 {
						base = rapid.SampledFrom(live).Draw(t, "base")
					}
					c.Logf("nested collection")
					w.collect(t, c, base, depth-1)
				case len(live) == 0 || rapid.Bool().Draw(t, "start"):
					parent := rapid.SampledFrom(append([]*rec{inner, inner, outer}, live...)).Draw(t, "parent")
					r := w.start(rapid.IntRange(0, 2).Draw(t, "f"), rapid.SampledFrom(styles).Draw(t, "style"), parent, nil)
					c.Logf("start #%d", r.n)
					live = append(live, r)
				default:
					k := rapid.IntRange(0, len(live)-1).Draw(t, "which")
					c.Logf("end #%d", live[k].n)
					w.end(live[k], rapid.SampledFrom(hows).Draw(t, "how"))
					live = append(live[:k:k], live[k+1:]...)
				}
			}
			mid = ival{clkOf(w), 0}
			if panics {
				panic("work")
			}
		})
		returned = true
	})
	mid.res = clkOf(w)
	c.LabelIf(panics, "work panicked")
	if inner == nil {
		t.Fatalf("work did not run: %v", rec0)
	}
	if panics {
		if returned || rec0 != "work" {
			t.Fatalf("the panic of the work did not come through: %v", rec0)
		}
	} else {
		if rec0 != nil {
			panic(rec0)
		}
		inner.finish = mid
		inner.before, inner.after = inner.real.Start(), time.Now()
		// the collected span itself is part of the history of enclosing collections
		inner.n = len(w.spans)
		w.spans = append(w.spans, inner)
		if p := w.checkCollected(got, inner.real, inner.start, mid); p != "" {
			t.Fatalf("%s", p)
		}
		c.NonTrivialIf(len(got) > 2)
	}
	if panics {
		inner.finish = mid
		inner.panicked = true
		inner.before, inner.after = inner.real.Start(), time.Now()
		inner.n = len(w.spans)
		w.spans = append(w.spans, inner)
	}
	for _, r := range live {
		w.end(r, "")
	}
}

func clkOf(w *world) int64 { return w.tick() }

// TestModelLeak: once a collection is over nothing of it stays attached to the
// traces, which live on.
func TestModelLeak(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		w := newWorld(kit.Clock)
		how := rapid.SampledFrom([]string{"collect", "collect-panic", "watch", "watch-cancel", "find", "find-cancel", "attach"}).Draw(t, "how")
		c.Logf("%s", how)
		outer := w.start(1, "task", nil, context.Background())
		freed := make(chan struct{})
		leak(w, outer, how, freed)
		ok := false
		for i := 0; i < 200 && !ok; i++ {
			runtime.GC()
			select {
			case <-freed:
				ok = true
			default:
				if i > 3 {
					time.Sleep(time.Duration(i) * time.Millisecond)
				}
			}
		}
		if !ok {
			t.Fatalf("%s: the collection is still referenced after it ended", how)
		}
		// the trace is still in use
		w.end(w.start(0, "task", outer, nil), "")
		w.end(outer, "")
		runtime.KeepAlive(w)
		c.NonTrivial()
	})
}

type canary struct{ pad [64]byte }

//go:noinline
func leak(w *world, outer *rec, how string, freed chan struct{}) {
	can := &canary{}
	runtime.SetFinalizer(can, func(*canary) { close(freed) })
	asked := new(atomic.Int64)
	matcher := func(s *monkit.Span) bool {
		can.pad[0]++
		asked.Add(1)
		return s.Func() == w.funcs[0]
	}
	switch how {
	case "collect", "collect-panic":
		// whatever is attached to the trace keeps the collected spans alive,
		// and with them their arguments
		_ = kit.Safely(func() {
			collect.CollectSpans(outer.ctx, func(ctx context.Context) {
				ctx2 := ctx
				w.funcs[2].Task(&ctx2, can)(nil)
				if how == "collect-panic" {
					panic("x")
				}
			})
		})
	case "attach":
		cancel := collect.ObserveAllTraces(w.reg, collect.NewSpanCollector(matcher))
		w.end(w.start(0, "task", outer, nil), "")
		cancel()
	default:
		ctx, cancel := context.WithCancel(context.Background())
		done := make(chan struct{})
		go func() {
			defer close(done)
			if how == "find" || how == "find-cancel" {
				collect.FindSpan(ctx, w.reg, matcher)
			} else {
				_, _ = collect.WatchForSpans(ctx, w.reg, matcher)
			}
		}()
		for asked.Load() == 0 {
			pctx := outer.ctx
			w.funcs[1].Task(&pctx)(nil)
			runtime.Gosched()
		}
		if how == "watch" || how == "find" {
			sctx := outer.ctx
			w.funcs[0].Task(&sctx)(nil)
		}
		cancel()
		if how == "watch" || how == "find" {
			<-done
		} else {
			<-done
		}
	}
	// forget the spans that finished
	w.spans = nil
}
