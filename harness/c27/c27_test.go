// C27: everything documented as shareable is safe to share.
package c27

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http/httptest"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	monkit "github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	"github.com/spacemonkeygo/monkit/v3/environment"
	mhttp "github.com/spacemonkeygo/monkit/v3/http"
	"github.com/spacemonkeygo/monkit/v3/present"
	"pgregory.net/rapid"

	"verif.local/harness/kit"
)

func TestMain(m *testing.M) { kit.Main(m) }

// firsts are things whose first use in a process sets something up.
func firsts() {
	monkit.NewMeter(monkit.NewSeriesKey("m")).Mark(1)
	monkit.NewId()
	monkit.NewIntVal(monkit.NewSeriesKey("m")).Observe(1)
	reg := monkit.NewRegistry()
	environment.Register(reg)
	monkit.Collect(reg)
	ctx := context.Background()
	err := errors.New("x")
	reg.ScopeNamed("s").FuncNamed("f").Task(&ctx)(&err)
	monkit.Default.Funcs(func(*monkit.Func) {})
}

// world is what the threads of a case share.
type world struct {
	reg    *monkit.Registry
	scopes []*monkit.Scope
	task   monkit.Task // lazily named
	ctx    context.Context
	root   *monkit.Span
	exit   func(*error)
	delta  *monkit.Registry // with a shared delta transformer
	key    monkit.SeriesKey
	watch  *watcher
	coll   *collect.SpanCollector
	env    bool
}

// watcher is registered on all traces throughout.
type watcher struct{ starts, finishes int64 }

func (w *watcher) Start(s *monkit.Span) { atomic.AddInt64(&w.starts, 1) }
func (w *watcher) Finish(s *monkit.Span, err error, panicked bool, finish time.Time) {
	atomic.AddInt64(&w.finishes, 1)
}

type ctxWatcher struct{ watcher }

func (w *ctxWatcher) Start(ctx context.Context, s *monkit.Span) context.Context {
	w.watcher.Start(s)
	return context.WithValue(ctx, w, s)
}
func (w *ctxWatcher) Finish(ctx context.Context, s *monkit.Span, err error, panicked bool, finish time.Time) {
	w.watcher.Finish(s, err, panicked, finish)
}

func newWorld(env bool) *world {
	w := &world{reg: monkit.NewRegistry(), key: monkit.NewSeriesKey("k").WithTags(monkit.NewSeriesTag("b", "1"), monkit.NewSeriesTag("a", "x y")), watch: &watcher{}, env: env}
	for i := 0; i < 2; i++ {
		w.scopes = append(w.scopes, w.reg.ScopeNamed(fmt.Sprint("s", i)))
	}
	w.task = w.scopes[0].Task()
	w.delta = w.reg.WithTransformers(monkit.NewDeltaTransformer())
	w.reg.ObserveTraces(func(tr *monkit.Trace) { tr.ObserveSpans(w.watch) })
	w.ctx = context.Background()
	w.exit = w.scopes[0].FuncNamed("root").Task(&w.ctx, "shared")
	w.root = monkit.SpanFromCtx(w.ctx)
	w.coll = collect.NewSpanCollector(func(s *monkit.Span) bool { return s.Func().ShortName() == "f1" })
	w.root.Trace().ObserveSpans(w.coll)
	if env {
		environment.Register(w.reg)
	}
	return w
}

// op is one operation: kind, and which of the shared things it is about.
type op struct {
	kind    string
	a, b, c int
}

// tally is what a set of operations adds up to.
type tally struct {
	ok, errs, panics map[string]int64 // per function
	sums             map[string]int64 // per metric, in its own terms
	annotations      int
	spanless         int64 // calls without a span
	resettable       int64 // calls that leave no trace in the statistics
}

func newTally() *tally {
	return &tally{ok: map[string]int64{}, errs: map[string]int64{}, panics: map[string]int64{}, sums: map[string]int64{}}
}

func (y *tally) call(name string, how int) {
	switch how % 3 {
	case 0:
		y.ok[name]++
	case 1:
		y.errs[name]++
	default:
		y.panics[name]++
	}
}

func fname(a, b int) string { return fmt.Sprintf("s%d.f%d", a%2, b%2) }

func (w *world) fn(a, b int) *monkit.Func { return w.scopes[a%2].FuncNamed(fmt.Sprint("f", b%2)) }

var handlers int64

var errSome = errors.New("some error")

// end finishes a call.
func end(exit func(*error), how int) {
	switch how % 3 {
	case 0:
		exit(nil)
	case 1:
		err := errSome
		exit(&err)
	default:
		func() {
			defer func() { _ = recover() }()
			defer exit(nil)
			panic("boom")
		}()
	}
}

// kinds of operations; those in blocking do not run under the controlled
// scheduler, because they block on channels.
var kinds = []string{
	"call", "call", "call", "child", "child", "nested", "orphan", "task", "task func", "remote", "reset trace", "observe", "resettable",
	"annotate", "look at root", "trace values", "read trace values", "walk spans", "walk funcs",
	"counter", "meter", "event", "int", "float", "bool", "duration", "struct", "timer", "gauge", "diffmeter", "chain", "reset metrics", "conflict",
	"stats", "scope stats", "delta", "collect stats",
	"report", "report", "watch traces", "observe spans", "observe spans ctx", "collect", "collector",
	"key", "tags", "id",
}

var blocking = []string{"http", "traced http", "error handler", "find span", "many"}

func (o op) add(y *tally) {
	switch o.kind {
	case "call", "child":
		y.call(fname(o.a, o.b), o.c)
	case "task":
		y.call("task", o.c)
	case "remote", "reset trace":
		y.call(fname(o.a, o.b), o.c)
	case "observe":
		y.call(fname(o.a, o.b), o.c)
		y.spanless++
	case "nested", "orphan":
		y.call(fname(o.a, o.b), o.c)
		y.call(fname(o.a+1, o.b+1), o.c/3)
	case "resettable":
		y.resettable++
	case "watch traces", "observe spans", "observe spans ctx", "collect", "find span":
		y.call(fname(o.a, o.b), 0)
	case "many":
		for i := 0; i < 20; i++ {
			y.call(fname(o.a, o.b), i)
		}
		y.sums[fmt.Sprint("counter", o.b%2)] += 20
	case "annotate":
		y.annotations++
	case "counter":
		y.sums[fmt.Sprint("counter", o.b%2)] += int64(o.c)
	case "meter":
		y.sums[fmt.Sprint("meter", o.b%2)] += int64(o.c)
	case "event":
		y.sums[fmt.Sprint("meter", o.b%2)]++
	case "int", "float", "duration":
		y.sums[fmt.Sprint(o.kind, o.b%2)] += int64(o.c)
		y.sums[fmt.Sprint(o.kind, "#", o.b%2)]++
	case "bool":
		if o.c%2 == 0 {
			y.sums["true"]++
		} else {
			y.sums["false"]++
		}
	case "timer":
		y.sums["timer"]++
	}
}

func (o op) do(w *world) {
	s := w.scopes[o.a%2]
	switch o.kind {
	case "call":
		ctx := context.Background()
		exit := w.fn(o.a, o.b).Task(&ctx, o.c)
		end(exit, o.c)
	case "child":
		ctx := w.ctx
		exit := w.fn(o.a, o.b).Task(&ctx, o.c)
		end(exit, o.c)
	case "nested", "orphan":
		ctx := w.ctx
		if o.kind == "orphan" && o.c%2 == 0 {
			ctx = context.Background()
		}
		e1 := w.fn(o.a, o.b).Task(&ctx)
		e2 := w.fn(o.a+1, o.b+1).Task(&ctx)
		if o.kind == "nested" {
			end(e2, o.c/3)
			end(e1, o.c)
		} else {
			end(e1, o.c)
			end(e2, o.c/3)
		}
	case "task":
		ctx := context.Background()
		end(w.task(&ctx), o.c)
	case "task func":
		// which has none before it is first run
		_ = kit.Safely(func() {
			f := w.task.Func()
			_, _ = f.FullName(), f.Success()
		})
	case "remote":
		ctx := context.Background()
		end(w.fn(o.a, o.b).RemoteTrace(&ctx, 7, monkit.NewTrace(monkit.NewId())), o.c)
	case "reset trace":
		ctx := w.ctx
		end(w.fn(o.a, o.b).ResetTrace(&ctx), o.c)
	case "observe":
		end(w.fn(o.a, o.b).Observe(), o.c)
	case "resettable":
		f := s.FuncNamed("resettable")
		ctx := w.ctx
		exit := f.Task(&ctx)
		f.Reset()
		end(exit, o.c)
	case "annotate":
		w.root.Annotate("n", fmt.Sprint(o.c))
	case "look at root":
		w.root.Annotations()
		w.root.Args()
		w.root.Children(func(c *monkit.Span) {
			c.Args()
			c.Orphaned()
			c.ParentId()
			c.Annotations()
		})
		w.root.Duration()
		w.root.Orphaned()
		_ = w.root.Trace().Spans()
		_ = w.root.Value(w)
	case "trace values":
		tr := w.root.Trace()
		tr.Set(o.b, o.c)
		tr.Get(o.b)
		for range tr.GetAll() {
		}
	case "read trace values":
		tr := w.root.Trace()
		if o.a == 0 {
			tr.Get(o.b)
		} else {
			tr.GetAll()
		}
		_ = w.root.Value(o.b)
	case "walk spans":
		look := func(c *monkit.Span) {
			c.Func().FullName()
			c.Children(func(*monkit.Span) {})
			c.Orphaned()
		}
		w.reg.RootSpans(look)
		w.reg.AllSpans(look)
	case "walk funcs":
		look := func(f *monkit.Func) {
			f.Parents(func(p *monkit.Func) {
				if p != nil {
					p.FullName()
				}
			})
			f.Current()
			f.Highwater()
			f.Success()
			f.Panics()
			f.Errors()
			f.SuccessTimes().Query(.5)
			f.FailureTimes().Query(.5)
		}
		w.reg.Funcs(look)
		w.reg.Scopes(func(s *monkit.Scope) { s.Funcs(look) })
	case "counter":
		c := w.scopes[0].Counter(fmt.Sprint("counter", o.b%2))
		c.Inc(int64(o.c) + 3)
		c.Dec(3)
		c.High()
		c.Low()
		c.Current()
	case "meter":
		m := w.scopes[0].Meter(fmt.Sprint("meter", o.b%2))
		if o.a == 0 {
			m.Mark(o.c)
		} else {
			m.Mark64(int64(o.c))
		}
		m.Rate()
		m.Total()
	case "event":
		w.scopes[0].Event(fmt.Sprint("meter", o.b%2))
	case "int":
		v := w.scopes[0].IntValf("int%d", o.b%2)
		v.Observe(int64(o.c))
		v.Quantile(.5)
	case "float":
		v := w.scopes[0].FloatVal(fmt.Sprint("float", o.b%2))
		v.Observe(float64(o.c))
		v.Quantile(.5)
	case "duration":
		v := w.scopes[0].DurationVal(fmt.Sprint("duration", o.b%2))
		v.Observe(time.Duration(o.c) * time.Second)
		v.Quantile(.5)
	case "bool":
		w.scopes[0].BoolVal("bool").Observe(o.c%2 == 0)
	case "struct":
		w.scopes[0].StructVal("struct").Observe(struct{ A, B int }{o.b, o.c})
	case "timer":
		tm := w.scopes[0].Timer("timer")
		r := tm.Start()
		r.Elapsed()
		r.Stop()
		tm.Values().Query(.5)
	case "gauge":
		s.Gauge("gauge", func() float64 { return float64(o.c) })
	case "diffmeter":
		s.DiffMeter("diff", w.scopes[0].Meter("meter0"), w.scopes[0].Meter("meter1"))
	case "chain":
		s.Chain(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) { cb(w.key, "chained", float64(o.c)) }))
	case "reset metrics":
		c := s.Counter("resettable counter")
		c.Set(int64(o.c))
		c.Reset()
		m := s.Meter("resettable meter")
		m.Mark(o.c)
		m.Reset(int64(o.b))
		m.SetTotal(int64(o.c))
	case "conflict": // refused, without disturbing the owner
		kit.Safely(func() { w.scopes[0].IntVal("counter0", monkit.NewSeriesTag("conflict", "")) })
		kit.Safely(func() { w.scopes[0].Meter("counter0", monkit.NewSeriesTag("conflict", "")) })
	case "stats":
		w.reg.Stats(func(key monkit.SeriesKey, field string, val float64) { _ = key.WithField(field) })
	case "scope stats":
		s.Stats(func(key monkit.SeriesKey, field string, val float64) { _ = key.WithField(field) })
	case "delta":
		w.delta.Stats(func(key monkit.SeriesKey, field string, val float64) { _ = key.WithField(field) })
	case "collect stats":
		monkit.Collect(w.reg)
	case "report":
		reports := []func(*monkit.Registry, io.Writer) error{present.FuncsDot, present.FuncsText, present.FuncsJSON,
			present.SpansDot, present.SpansText, present.SpansJSON, present.StatsText, present.StatsJSON, present.StatsOld}
		_ = reports[o.c%len(reports)](w.reg, io.Discard)
	case "watch traces":
		seen := &watcher{}
		cancel := w.reg.ObserveTraces(func(tr *monkit.Trace) { tr.ObserveSpans(seen) })
		ctx := context.Background()
		w.fn(o.a, o.b).Task(&ctx)(nil)
		cancel()
		if o.c%2 == 0 {
			cancel()
		}
	case "observe spans":
		cancel := w.root.Trace().ObserveSpans(&watcher{})
		ctx := w.ctx
		exit := w.fn(o.a, o.b).Task(&ctx)
		if o.c%2 == 0 {
			cancel()
		}
		exit(nil)
		cancel()
	case "observe spans ctx":
		cancel := w.root.Trace().ObserveSpansCtx(&ctxWatcher{})
		ctx := w.ctx
		exit := w.fn(o.a, o.b).Task(&ctx)
		ctx.Value(w)
		exit(nil)
		cancel()
	case "collect":
		spans := collect.CollectSpans(w.ctx, func(ctx context.Context) {
			w.fn(o.a, o.b).Task(&ctx)(nil)
		})
		_ = present.SpansToSVG(io.Discard, spans)
		_ = present.SpansToJSON(io.Discard, spans)
	case "collector":
		w.coll.Spans()
		if o.c == 0 {
			w.coll.Stop()
		}
	case "key":
		_ = w.key.String()
		_ = w.key.WithField("f")
		_ = w.key.WithTag(fmt.Sprint("t", o.b), "v").String()
		_ = w.key.WithTags(monkit.NewSeriesTag("a", "other")).String()
	case "tags":
		_ = w.key.Tags.String()
		_ = w.key.Tags.Get("a")
		for range w.key.Tags.All() {
		}
		_ = w.key.Tags.Set("c", "d").String()
		_ = w.key.Tags.SetAll(map[string]string{"e": "f"}).Len()
	case "id":
		monkit.NewId()
	case "http":
		paths := []string{"/", "/ps/text", "/ps/dot", "/ps/json", "/funcs/text", "/funcs/dot", "/funcs/json", "/stats/text", "/stats/json", "/stats/old"}
		present.HTTP(w.reg).ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", paths[o.c%len(paths)], nil))
	case "traced http":
		h := mhttp.TraceHandler(present.HTTP(w.reg), w.scopes[1], "b")
		r := httptest.NewRequest("GET", "/funcs/text", nil)
		if o.b%2 == 0 {
			r.Header.Set("traceparent", "00-00000000000000000000000000000001-0000000000000002-01")
		}
		h.ServeHTTP(httptest.NewRecorder(), r)
	case "error handler":
		if atomic.AddInt64(&handlers, 1) > 50 {
			return // they are for good
		}
		monkit.AddErrorNameHandler(func(err error) (string, bool) { return "", false })
	case "find span":
		ctx, cancel := context.WithCancel(context.Background())
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			collect.FindSpan(ctx, w.reg, func(s *monkit.Span) bool { return s.Func().ShortName() == "f0" })
		}()
		fctx := context.Background()
		w.fn(o.a, o.b).Task(&fctx)(nil)
		if o.c%2 == 0 {
			runtime.Gosched()
		}
		cancel()
		wg.Wait()
	case "many":
		for i := 0; i < 20; i++ {
			ctx := w.ctx
			end(w.fn(o.a, o.b).Task(&ctx), i)
			w.scopes[0].Counter(fmt.Sprint("counter", o.b%2)).Inc(1)
		}
	}
}

func drawOp(t *rapid.T, kinds []string) op {
	return op{kind: rapid.SampledFrom(kinds).Draw(t, "kind"), a: rapid.IntRange(0, 1).Draw(t, "a"), b: rapid.IntRange(0, 1).Draw(t, "b"), c: rapid.IntRange(0, 9).Draw(t, "c")}
}

// settled compares the world with the tally once everything has ended.
func (w *world) settled(y *tally) string {
	var bad []string
	want := func(what string, got, want int64) {
		if got != want {
			bad = append(bad, fmt.Sprintf("%s is %d, want %d", what, got, want))
		}
	}
	want("root's children", int64(count(func(cb func(*monkit.Span)) { w.root.Children(cb) })), 0)
	want("root's annotations", int64(len(w.root.Annotations())), int64(y.annotations))
	want("spans in the root's trace", w.root.Trace().Spans(), 1)
	w.exit(nil)
	want("spans in the root's trace at the end", w.root.Trace().Spans(), 0)
	want("root spans", int64(count(w.reg.RootSpans)), 0)
	want("running spans", int64(count(w.reg.AllSpans)), 0)
	var total int64 // calls, but for those of the function that is reset
	funcs := map[string]*monkit.Func{}
	w.reg.Funcs(func(f *monkit.Func) {
		name := f.Scope().Name() + "." + f.ShortName()
		if funcs[name] != nil {
			bad = append(bad, "two functions "+name)
		}
		funcs[name] = f
		want(name+" current", f.Current(), 0)
		var e int64
		for _, n := range f.Errors() {
			e += n
		}
		if f.ShortName() != "resettable" {
			total += f.Success() + e + f.Panics()
		}
		switch f.ShortName() {
		case "f0", "f1":
			want(name+" successes", f.Success(), y.ok[name])
			want(name+" errors", e, y.errs[name])
			want(name+" panics", f.Panics(), y.panics[name])
		}
	})
	for name := range y.ok {
		if strings.HasPrefix(name, "s") && funcs[name] == nil {
			bad = append(bad, name+" is missing")
		}
	}
	// the lazily named task has one function, whatever its name
	var lazy int64
	kit.Safely(func() {
		f := w.task.Func()
		lazy = f.Success() + f.Panics()
		for _, n := range f.Errors() {
			lazy += n
		}
	})
	want("runs of the shared task", lazy, y.ok["task"]+y.errs["task"]+y.panics["task"])
	// every span was observed, twice
	want("starts observed", atomic.LoadInt64(&w.watch.starts), total+y.resettable-y.spanless)
	want("finishes observed", atomic.LoadInt64(&w.watch.finishes), total+y.resettable-y.spanless)
	got := map[string]float64{}
	w.scopes[0].Stats(func(key monkit.SeriesKey, field string, val float64) {
		if key.Tags.Get("name") == "" {
			got[key.Measurement+" "+field] = val
		}
	})
	for i := 0; i < 2; i++ {
		for _, kind := range []string{"counter", "meter", "int", "float", "duration"} {
			name := fmt.Sprint(kind, i)
			field, n := map[string]string{"counter": "value", "meter": "total"}[kind], name
			if field == "" {
				field = "sum"
				want(name+" count", int64(got[n+" count"]), y.sums[fmt.Sprint(kind, "#", i)])
			}
			want(name, int64(got[n+" "+field]), y.sums[name])
		}
	}
	want("trues", int64(got["bool true"]), y.sums["true"])
	want("falses", int64(got["bool false"]), y.sums["false"])
	want("timer runs", int64(got["timer count"]), y.sums["timer"])
	sort.Strings(bad)
	return strings.Join(bad, "\n")
}

func count(iterate func(func(*monkit.Span))) (n int) {
	iterate(func(*monkit.Span) { n++ })
	return n
}

func mix(t *rapid.T, c *kit.Case, kinds []string, most, length, rounds int, env bool, run func([]func())) {
	nt := rapid.IntRange(2, most).Draw(t, "threads")
	progs := make([][]op, nt)
	y := newTally()
	for i := range progs {
		for n := rapid.IntRange(1, length).Draw(t, "len"); n > 0; n-- {
			o := drawOp(t, kinds)
			c.Logf("T%d %s %d %d %d", i, o.kind, o.a, o.b, o.c)
			o.add(y)
			progs[i] = append(progs[i], o)
			c.Label(o.kind)
		}
	}
	for r := 0; r < rounds; r++ {
		w := newWorld(env)
		var bodies []func()
		for i := range progs {
			prog := progs[i]
			bodies = append(bodies, func() {
				for _, o := range prog {
					o.do(w)
				}
			})
		}
		run(bodies)
		if bad := w.settled(y); bad != "" {
			t.Fatalf("%s", bad)
		}
	}
}

func TestRace(t *testing.T) {
	kit.Parallel(8, func(int) { firsts() })
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		all := append(append([]string(nil), kinds...), blocking...)
		// often only a few kinds, so that they meet
		if rapid.IntRange(0, 2).Draw(t, "focus") != 0 {
			var few []string
			for n := rapid.IntRange(1, 4).Draw(t, "kinds"); n > 0; n-- {
				few = append(few, rapid.SampledFrom(all).Draw(t, "kind"))
			}
			all = few
		}
		env := rapid.IntRange(0, 40).Draw(t, "environment") == 0
		mix(t, c, all, 6, 12, rapid.IntRange(1, 3).Draw(t, "rounds"), env, func(bodies []func()) {
			kit.Parallel(len(bodies), func(i int) { bodies[i]() })
		})
		c.NonTrivial()
	})
}

func TestSched(t *testing.T) {
	// the meters' ticker starts with the first one, outside of any schedule
	monkit.NewMeter(monkit.NewSeriesKey("m"))
	kit.NeedSched(t, func() { monkit.NewIntVal(monkit.NewSeriesKey("m")).Observe(1) })
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		sched := kit.Schedule(t)
		c.Logf("%v", sched)
		all := kinds
		if rapid.IntRange(0, 2).Draw(t, "focus") != 0 {
			var few []string
			for n := rapid.IntRange(1, 3).Draw(t, "kinds"); n > 0; n-- {
				few = append(few, rapid.SampledFrom(all).Draw(t, "kind"))
			}
			all = few
		}
		mix(t, c, all, 3, 4, 1, false, func(bodies []func()) {
			res := kit.Sched(t, c, sched, bodies...)
			c.NonTrivialIf(res.Switches > len(bodies))
		})
	})
}

// TestModel: the same mixes one operation after the other, which validates
// the accounting the other modes rely on.
func TestModel(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		mix(t, c, append(append([]string(nil), kinds...), blocking[:2]...), 3, 12, 1, false, func(bodies []func()) {
			for _, b := range bodies {
				b()
			}
		})
		c.NonTrivial()
	})
}
