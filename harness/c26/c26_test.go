// C26: reported durations are the true elapsed times.
package c26

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	monkit "github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/monotime"
	"pgregory.net/rapid"

	"verif.local/harness/kit"
)

func TestMain(m *testing.M) { kit.Main(m) }

// times is what a distribution of durations should say.
type times struct {
	all []time.Duration
}

func (m *times) add(d time.Duration) { m.all = append(m.all, d) }

func (m *times) check(t *rapid.T, what string, d *monkit.DurationDist) {
	var sum, low, high, recent time.Duration
	for i, v := range m.all {
		if i == 0 || v < low {
			low = v
		}
		if i == 0 || v > high {
			high = v
		}
		sum += v
		recent = v
	}
	if d.Count != int64(len(m.all)) || d.Sum != sum || d.Low != low || d.High != high || d.Recent != recent {
		t.Fatalf("%s: count %d sum %v low %v high %v recent %v, want those of %v", what, d.Count, d.Sum, d.Low, d.High, d.Recent, m.all)
	}
}

func export(src monkit.StatSource, kind string) map[string]float64 {
	rv := map[string]float64{}
	src.Stats(func(key monkit.SeriesKey, field string, val float64) {
		if kind == "" || strings.HasSuffix(key.Measurement, "_times") && key.Tags.Get("kind") == kind {
			rv[field] = val
		}
	})
	return rv
}

// checkExport compares the exported seconds.
func (m *times) checkExport(t *rapid.T, what string, got map[string]float64) {
	if got["count"] != float64(len(m.all)) {
		t.Fatalf("%s exports count %v, want %v", what, got["count"], len(m.all))
	}
	if n := len(m.all); n > 0 && got["recent"] != m.all[n-1].Seconds() {
		t.Fatalf("%s exports recent %v, want %v", what, got["recent"], m.all[n-1].Seconds())
	}
}

type fn struct {
	name  string
	stats interface {
		monkit.StatSource
		SuccessTimes() *monkit.DurationDist
		FailureTimes() *monkit.DurationDist
	}
	f                *monkit.Func      // nil for bare statistics
	bare             *monkit.FuncStats // when f is nil
	success, failure times
}

func (f *fn) check(t *rapid.T) {
	f.success.check(t, f.name+" successes", f.stats.SuccessTimes())
	f.failure.check(t, f.name+" failures", f.stats.FailureTimes())
	f.success.checkExport(t, f.name+" successes", export(f.stats, "success"))
	f.failure.checkExport(t, f.name+" failures", export(f.stats, "failure"))
}

// call is a running call.
type call struct {
	f      *fn
	start  time.Time
	span   *monkit.Span
	ctx    context.Context
	exit   func(*error)
	finish time.Time // when exit was called
}

type timer struct {
	real  *monkit.Timer
	run   *monkit.RunningTimer
	start time.Time
	stops int
	times *times
}

// watcher is an observer, possibly a slow one.
type watcher struct {
	before, after time.Duration // time taken by Start and Finish
	started       map[*monkit.Span]time.Time
	finished      map[*monkit.Span]time.Time
}

func (w *watcher) Start(s *monkit.Span) {
	w.started[s] = s.Start()
	time.Sleep(w.before)
}

func (w *watcher) Finish(s *monkit.Span, err error, panicked bool, finish time.Time) {
	w.finished[s] = finish
	time.Sleep(w.after)
}

func drawWait(t *rapid.T) time.Duration {
	switch rapid.IntRange(0, 7).Draw(t, "wait kind") {
	case 0:
		return 0
	case 1:
		return time.Duration(rapid.IntRange(1, 999).Draw(t, "ns"))
	case 2:
		return time.Duration(rapid.Int64Range(1, 1e9).Draw(t, "ns"))
	case 3:
		return time.Duration(rapid.IntRange(1, 1000).Draw(t, "us")) * time.Microsecond
	case 4:
		return time.Duration(rapid.IntRange(1, 1000).Draw(t, "ms")) * time.Millisecond
	case 5:
		return time.Duration(rapid.IntRange(1, 4000).Draw(t, "s")) * time.Second
	case 6:
		return time.Duration(rapid.Int64Range(1, int64(5*time.Hour)).Draw(t, "ns"))
	default:
		return time.Duration(rapid.IntRange(1, 60).Draw(t, "h")) * time.Hour
	}
}

var errSome = errors.New("some error")

// slow is an error that takes its time to tell its name.
type slow struct{ d time.Duration }

func (s slow) Error() string        { return "slow" }
func (s slow) Name() (string, bool) { time.Sleep(s.d); return "slow", true }

// end finishes a call the way its deferred exit would.
func end(t *rapid.T, exit func(*error), how int) (ok bool) {
	switch how {
	case 4:
		var err error = slow{drawWait(t)}
		exit(&err)
		return false
	case 0:
		exit(nil)
		return true
	case 1:
		var err error
		exit(&err)
		return true
	case 2:
		err := errSome
		exit(&err)
		return false
	default:
		func() {
			defer func() { _ = recover() }()
			defer exit(nil)
			panic("boom")
		}()
		return false
	}
}

func TestFake(t *testing.T) {
	before := time.Now()
	time.Sleep(time.Hour)
	if d := time.Since(before); d != time.Hour {
		t.Fatalf("the clock is not virtual: an hour took %v", d)
	}
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		reg := monkit.NewRegistry()
		scope := reg.ScopeNamed("s")
		var fns []*fn
		for i := rapid.IntRange(1, 3).Draw(t, "funcs"); i > 0; i-- {
			f := scope.FuncNamed(fmt.Sprint("f", i))
			fns = append(fns, &fn{name: f.FullName(), f: f, stats: f})
		}
		if rapid.Bool().Draw(t, "bare") {
			s := monkit.NewFuncStats(monkit.NewSeriesKey("bare"))
			fns = append(fns, &fn{name: "bare", bare: s, stats: s})
		}
		var timers []*timer
		var dists []*times
		var watchers []*watcher
		for i := rapid.IntRange(0, 2).Draw(t, "observers"); i > 0; i-- {
			w := &watcher{started: map[*monkit.Span]time.Time{}, finished: map[*monkit.Span]time.Time{}}
			if rapid.IntRange(0, 3).Draw(t, "slow") == 0 {
				w.before, w.after = drawWait(t), drawWait(t)
			}
			c.Logf("observer taking %v and %v", w.before, w.after)
			watchers = append(watchers, w)
			reg.ObserveTraces(func(tr *monkit.Trace) { tr.ObserveSpans(w) })
		}
		var open []*call
		finishes, long := 0, false
		look := func(cl *call) {
			now := time.Now()
			if d := cl.span.Duration(); d != now.Sub(cl.start) {
				t.Fatalf("span of %s runs for %v, Duration is %v", cl.f.name, now.Sub(cl.start), d)
			}
		}
		for n := rapid.IntRange(1, 30).Draw(t, "steps"); n > 0; n-- {
			switch rapid.IntRange(0, 9).Draw(t, "op") {
			case 0, 1: // start
				cl := &call{f: rapid.SampledFrom(fns).Draw(t, "f"), start: time.Now()}
				if cl.f.f == nil {
					cl.exit = cl.f.bare.Observe()
					c.Logf("observe bare")
					open = append(open, cl)
					continue
				}
				ctx := context.Background()
				if len(open) > 0 && rapid.Bool().Draw(t, "child") {
					if p := rapid.SampledFrom(open).Draw(t, "parent").ctx; p != nil {
						ctx = p
					}
				}
				how := rapid.IntRange(0, 4).Draw(t, "how")
				switch how {
				case 0, 1:
					cl.exit = cl.f.f.Task(&ctx, "arg")
				case 2:
					cl.exit = cl.f.f.RemoteTrace(&ctx, monkit.NewId(), monkit.NewTrace(monkit.NewId()))
				case 3:
					cl.exit = cl.f.f.ResetTrace(&ctx)
				default:
					cl.exit = cl.f.f.Observe()
				}
				if how != 4 {
					cl.ctx, cl.span = ctx, monkit.SpanFromCtx(ctx)
				}
				if cl.span != nil && !cl.span.Start().Equal(cl.start) {
					t.Fatalf("span of %s started at %v, Start is %v", cl.f.name, cl.start, cl.span.Start())
				}
				c.Logf("start %s as %d", cl.f.name, how)
				open = append(open, cl)
			case 2, 3: // finish
				if len(open) == 0 {
					continue
				}
				i := rapid.IntRange(0, len(open)-1).Draw(t, "which")
				cl := open[i]
				open = append(open[:i], open[i+1:]...)
				if cl.span != nil {
					look(cl)
				}
				cl.finish = time.Now()
				d := cl.finish.Sub(cl.start)
				how := rapid.IntRange(0, 4).Draw(t, "outcome")
				if end(t, cl.exit, how) {
					cl.f.success.add(d)
				} else {
					cl.f.failure.add(d)
				}
				c.Logf("finish %s after %v as %d", cl.f.name, d, how)
				finishes++
				long = long || d > time.Hour
				cl.f.check(t)
				if cl.span == nil {
					continue
				}
				for i, w := range watchers {
					if _, ok := w.started[cl.span]; !ok {
						continue // not a trace of this observer
					}
					got, ok := w.finished[cl.span]
					if !ok || got.Sub(cl.span.Start()) != d || !got.Equal(cl.finish) {
						t.Fatalf("observer %d is told %v (%v) as the finish of %s, which took %v until %v", i, got, ok, cl.f.name, d, cl.finish)
					}
					if ns := got.UnixNano() - cl.span.Start().UnixNano(); ns != int64(d) {
						t.Fatalf("%s takes %d, but its start and finish are %d apart: they depend on clock adjustments", cl.f.name, d, ns)
					}
				}
			case 4: // timer
				var tm *timer
				if len(timers) > 0 && rapid.Bool().Draw(t, "same timer") {
					o := rapid.SampledFrom(timers).Draw(t, "timer")
					tm = &timer{real: o.real, times: o.times}
				} else {
					tm = &timer{times: &times{}}
					if rapid.Bool().Draw(t, "scoped") {
						tm.real = scope.Timer(fmt.Sprint("t", len(dists)))
					} else {
						tm.real = monkit.NewTimer(monkit.NewSeriesKey("t"))
					}
					dists = append(dists, tm.times)
				}
				tm.start = time.Now()
				tm.run = tm.real.Start()
				c.Logf("start timer %d", len(timers))
				timers = append(timers, tm)
			case 5: // stop
				if len(timers) == 0 {
					continue
				}
				i := rapid.IntRange(0, len(timers)-1).Draw(t, "which")
				tm := timers[i]
				want := time.Since(tm.start)
				got := tm.run.Stop()
				c.Logf("stop timer %d after %v", i, want)
				if tm.stops == 0 {
					tm.times.add(want)
					if got != want {
						t.Fatalf("Stop returns %v after %v", got, want)
					}
				}
				tm.stops++
				finishes++
				tm.times.check(t, "timer", tm.real.Values())
				tm.times.checkExport(t, "timer", export(tm.real, ""))
			case 6:
				for i, tm := range timers {
					if tm.stops > 0 {
						continue
					}
					if got, want := tm.run.Elapsed(), time.Since(tm.start); got != want {
						t.Fatalf("timer %d runs for %v, Elapsed is %v", i, want, got)
					}
				}
				for _, cl := range open {
					if cl.span != nil {
						look(cl)
					}
				}
			default:
				d := drawWait(t)
				c.Logf("wait %v", d)
				now := monotime.Now()
				time.Sleep(d)
				if got := monotime.Now().Sub(now); got != d {
					t.Fatalf("the clock advanced by %v during %v", got, d)
				}
			}
		}
		for _, cl := range open {
			cl.f.failure.add(time.Since(cl.start))
			err := errSome
			cl.exit(&err)
		}
		for _, f := range fns {
			f.check(t)
		}
		for _, tm := range timers {
			tm.times.check(t, "timer", tm.real.Values())
		}
		c.LabelIf(long, "more than an hour")
		c.NonTrivialIf(finishes > 2)
	})
}

// monotonic reports whether the time has a monotonic clock reading, without
// which differences are at the mercy of clock adjustments.
func monotonic(tm time.Time) bool { return tm != tm.Round(0) }

// TestModelReal brackets the reported times with readings of the real clock.
func TestModelReal(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
		bare := monkit.NewFuncStats(monkit.NewSeriesKey("bare"))
		timers := monkit.NewTimer(monkit.NewSeriesKey("t"))
		work := func() {
			for n := rapid.IntRange(0, 200).Draw(t, "work"); n > 0; n-- {
				_ = fmt.Sprint(n)
			}
			if rapid.IntRange(0, 40).Draw(t, "sleep") == 0 {
				time.Sleep(time.Duration(rapid.IntRange(1, 2000).Draw(t, "us")) * time.Microsecond)
			}
		}
		within := func(what string, got, low, high time.Duration) {
			if got < low || got > high {
				t.Fatalf("%s is %v, between %v and %v have passed", what, got, low, high)
			}
		}
		for n := rapid.IntRange(1, 5).Draw(t, "n"); n > 0; n-- {
			kind := rapid.SampledFrom([]string{"task", "observe", "timer"}).Draw(t, "kind")
			c.Logf("%s", kind)
			t0 := time.Now()
			ctx := context.Background()
			var exit func(*error)
			var run *monkit.RunningTimer
			switch kind {
			case "task":
				exit = f.Task(&ctx)
			case "observe":
				exit = bare.Observe()
			case "timer":
				run = timers.Start()
			}
			t1 := time.Now()
			work()
			if kind == "task" {
				s := monkit.SpanFromCtx(ctx)
				if !monotonic(s.Start()) {
					t.Fatalf("the start %v of a span depends on clock adjustments", s.Start())
				}
				if s.Start().Before(t0) || s.Start().After(t1) {
					t.Fatalf("span started between %v and %v, Start is %v", t0, t1, s.Start())
				}
				now := time.Now()
				d := s.Duration()
				within("Duration", d, now.Sub(t1), time.Since(t0))
			}
			if kind == "timer" {
				now := time.Now()
				d := run.Elapsed()
				within("Elapsed", d, now.Sub(t1), time.Since(t0))
			}
			t2 := time.Now()
			var dist *monkit.DurationDist
			switch kind {
			case "task":
				exit(nil)
				dist = f.SuccessTimes()
			case "observe":
				exit(nil)
				dist = bare.SuccessTimes()
			case "timer":
				got := run.Stop()
				dist = timers.Values()
				if dist.Recent != got {
					t.Fatalf("Stop returns %v and records %v", got, dist.Recent)
				}
			}
			t3 := time.Now()
			within(kind, dist.Recent, t2.Sub(t1), t3.Sub(t0))
		}
		c.NonTrivial()
	})
}

// TestRace: the clock never goes backwards, not from one goroutine to another
// either, and is the time.
func TestRace(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		n := rapid.IntRange(2, 6).Draw(t, "goroutines")
		rounds := rapid.IntRange(5, 100).Draw(t, "rounds")
		c.Logf("%d goroutines, %d readings", n, rounds)
		var mu sync.Mutex
		last := monotime.Now()
		bad := make([]string, n)
		kit.Parallel(n, func(i int) {
			for k := 0; k < rounds; k++ {
				mu.Lock()
				prev := last
				mu.Unlock()
				t0 := time.Now()
				now := monotime.Now()
				t1 := time.Now()
				if now.Before(prev) {
					bad[i] = fmt.Sprintf("%v after %v", now, prev)
				}
				if now.Before(t0) || now.After(t1) {
					bad[i] = fmt.Sprintf("%v between %v and %v", now, t0, t1)
				}
				if !monotonic(now) {
					bad[i] = fmt.Sprintf("%v depends on clock adjustments", now)
				}
				mu.Lock()
				if now.After(last) {
					last = now
				}
				mu.Unlock()
			}
		})
		for _, b := range bad {
			if b != "" {
				t.Fatalf("the clock says %s", b)
			}
		}
		c.NonTrivial()
	})
}
