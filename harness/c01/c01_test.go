// C01: every monitored call is accounted for exactly once.
package c01

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"os"
	"reflect"
	"sort"
	"sync"
	"syscall"
	"testing"

	monkit "github.com/spacemonkeygo/monkit/v3"
	"pgregory.net/rapid"

	"verif.local/harness/kit"
	"verif.local/harness/vsched"
)

func TestMain(m *testing.M) { kit.Main(m) }

type namedErr string

func (e namedErr) Error() string        { return "named " + string(e) }
func (e namedErr) Name() (string, bool) { return string(e), true }

// outcome is how a call ends.
type outcome struct {
	kind string // ok-nilptr, ok, err, panic, panic-err
	err  error
	name string
	val  interface{}
}

// knownErrs are errors programs give a meaning of their own: they fail a call all the same.
var knownErrs = []struct {
	err  error
	name string
}{{context.Canceled, "Canceled"}, {context.DeadlineExceeded, "Timeout"}, {http.ErrAbortHandler, "System Error"},
	{http.ErrServerClosed, "System Error"}, {os.ErrNotExist, "System Error"}, {syscall.EINTR, "Errno"}, {(*nilErr)(nil), "System Error"},
	{fmt.Errorf("wrapped: %w", context.Canceled), "System Error"}, {io.ErrClosedPipe, "Closed Pipe Error"}}

// nilErr is an error whose nil pointer is one too.
type nilErr struct{}

func (*nilErr) Error() string { return "nil" }

// panicValues are values programs panic with, some with a meaning of their own.
var panicValues = []interface{}{"boom", 42, io.EOF, "boom", context.Canceled, context.DeadlineExceeded, http.ErrAbortHandler,
	(*nilErr)(nil), syscall.EPIPE, "", 0, false, errors.New("panicked"), struct{}{}}

func genOutcome(t *rapid.T) outcome {
	kind := rapid.SampledFrom([]string{"ok-nilptr", "ok", "err", "err", "panic", "panic-err"}).Draw(t, "outcome")
	o := outcome{kind: kind}
	if kind == "err" || kind == "panic-err" {
		switch rapid.IntRange(0, 6).Draw(t, "err") {
		case 6:
			known := rapid.SampledFrom(knownErrs).Draw(t, "known")
			o.err, o.name = known.err, known.name
		case 5:
			o.name = kit.Text(t, "errname")
			o.err = namedErr(o.name)
		case 0:
			o.err, o.name = io.EOF, "EOF"
		case 1:
			o.err, o.name = errors.New("x"), "System Error"
		case 2:
			o.err, o.name = namedErr("alpha"), "alpha"
		case 3:
			o.err, o.name = namedErr(""), ""
		default:
			o.err, o.name = namedErr("beta"), "beta"
		}
	}
	if kind == "panic" || kind == "panic-err" {
		o.val = rapid.SampledFrom(panicValues).Draw(t, "val")
	}
	return o
}

// end finishes a call the way a deferred exit function would.
func end(exit func(*error), o outcome) {
	switch o.kind {
	case "ok-nilptr":
		exit(nil)
	case "ok", "err":
		err := o.err
		exit(&err)
	default:
		err := o.err
		func() {
			defer func() { _ = recover() }()
			defer exit(&err)
			panic(o.val)
		}()
	}
}

type model struct {
	current, highwater, success, panics int64
	errors                              map[string]int64
}

func newModel() *model { return &model{errors: map[string]int64{}} }

func (m *model) start() {
	m.current++
	if m.current > m.highwater {
		m.highwater = m.current
	}
}

func (m *model) end(o outcome) {
	m.current--
	switch o.kind {
	case "ok-nilptr", "ok":
		m.success++
	case "err":
		m.errors[o.name]++
	default:
		m.panics++
	}
}

func (m *model) reset() {
	m.highwater, m.success, m.panics = m.current, 0, 0
	m.errors = map[string]int64{}
}

func (m *model) nerrors() (n int64) {
	for _, c := range m.errors {
		n += c
	}
	return n
}

// export is a parsed FuncStats export.
type export struct {
	fields map[string]float64
	errs   map[string]int64
	times  map[string]map[string]float64
}

func readExport(src monkit.StatSource, measurement string) (e export, problem string) {
	e = export{fields: map[string]float64{}, errs: map[string]int64{},
		times: map[string]map[string]float64{"success": {}, "failure": {}}}
	src.Stats(func(key monkit.SeriesKey, field string, val float64) {
		switch key.Measurement {
		case measurement:
			if name, ok := key.Tags.All()["error_name"]; ok {
				if field != "count" {
					problem = "odd field " + field
				}
				if _, dup := e.errs[name]; dup {
					problem = "error name twice: " + name
				}
				e.errs[name] = int64(val)
				return
			}
			if _, dup := e.fields[field]; dup {
				problem = "field twice: " + field
			}
			e.fields[field] = val
		case measurement + "_times":
			m := e.times[key.Tags.Get("kind")]
			if m == nil {
				problem = "odd kind: " + key.String()
				return
			}
			if _, dup := m[field]; dup {
				problem = "times field twice: " + field
			}
			m[field] = val
		default:
			problem = "odd measurement: " + key.String()
		}
	})
	return e, problem
}

// laws are the relations every export satisfies at any moment.
func (e export) laws() string {
	var sum int64
	for _, c := range e.errs {
		sum += c
	}
	f := e.fields
	switch {
	case f["errors"] != float64(sum):
		return fmt.Sprintf("errors %v, per-name counts add up to %v", f["errors"], sum)
	case f["failures"] != f["errors"]+f["panics"]:
		return fmt.Sprintf("failures %v, errors %v + panics %v", f["failures"], f["errors"], f["panics"])
	case f["total"] != f["successes"]+f["failures"]:
		return fmt.Sprintf("total %v, successes %v + failures %v", f["total"], f["successes"], f["failures"])
	case e.times["success"]["count"] != f["successes"]:
		return fmt.Sprintf("%v successes but %v success times", f["successes"], e.times["success"]["count"])
	case e.times["failure"]["count"] != f["failures"]:
		return fmt.Sprintf("%v failures but %v failure times", f["failures"], e.times["failure"]["count"])
	}
	for _, name := range []string{"current", "highwater", "successes", "errors", "panics", "failures", "total"} {
		if v, ok := f[name]; !ok || v < 0 || math.IsNaN(v) {
			return fmt.Sprintf("field %s: %v, %v", name, v, ok)
		}
	}
	return ""
}

func compare(fs *monkit.FuncStats, m *model) string {
	got := model{fs.Current(), fs.Highwater(), fs.Success(), fs.Panics(), fs.Errors()}
	if !reflect.DeepEqual(got, *m) {
		return fmt.Sprintf("accessors report %+v, want %+v", got, *m)
	}
	if n := fs.SuccessTimes().Count; n != m.success {
		return fmt.Sprintf("%d success times, want %d", n, m.success)
	}
	if n := fs.FailureTimes().Count; n != m.nerrors()+m.panics {
		return fmt.Sprintf("%d failure times, want %d", n, m.nerrors()+m.panics)
	}
	e, problem := readExport(fs, "function")
	if problem != "" {
		return problem
	}
	if l := e.laws(); l != "" {
		return l
	}
	want := map[string]float64{"current": float64(m.current), "highwater": float64(m.highwater),
		"successes": float64(m.success), "errors": float64(m.nerrors()), "panics": float64(m.panics),
		"failures": float64(m.nerrors() + m.panics), "total": float64(m.success + m.nerrors() + m.panics)}
	if !reflect.DeepEqual(e.fields, want) {
		return fmt.Sprintf("export %v, want %v", e.fields, want)
	}
	if !reflect.DeepEqual(e.errs, m.errors) {
		return fmt.Sprintf("exported errors %v, want %v", e.errs, m.errors)
	}
	return ""
}

type target struct {
	name string
	fs   *monkit.FuncStats
	f    *monkit.Func // nil for bare stats
	task monkit.Task
	m    *model
}

func makeTargets(reg *monkit.Registry) []*target {
	s1, s2 := reg.ScopeNamed("s1"), reg.ScopeNamed("s2")
	var out []*target
	add := func(name string, f *monkit.Func, task monkit.Task) {
		out = append(out, &target{name: name, fs: &f.FuncStats, f: f, task: task, m: newModel()})
	}
	f := s1.FuncNamed("f")
	add("s1.f", f, f.Task)
	g := s1.FuncNamed("g", monkit.NewSeriesTag("k", "v"))
	add("s1.g", g, s1.TaskNamed("g", monkit.NewSeriesTag("k", "v")))
	h := s2.FuncNamed("f")
	add("s2.f", h, s2.TaskNamed("f"))
	bare := monkit.NewFuncStats(monkit.NewSeriesKey("function").WithTag("name", "bare"))
	out = append(out, &target{name: "bare", fs: bare, m: newModel()})
	return out
}

type call struct {
	tg   *target
	ctx  context.Context
	exit func(*error)
}

// start begins a call of the target in the given style.
func (tg *target) start(style string, parent context.Context) *call {
	c := &call{tg: tg, ctx: parent}
	if tg.f == nil {
		c.exit = tg.fs.Observe()
		return c
	}
	switch style {
	case "func":
		c.exit = tg.f.Task(&c.ctx)
	case "task":
		c.exit = tg.task(&c.ctx, "arg", 1)
	case "nilptr":
		c.exit = tg.f.Task(nil)
	case "nilctx":
		c.ctx = nil
		c.exit = tg.task(&c.ctx)
	case "reset":
		c.exit = tg.f.ResetTrace(&c.ctx)
	case "remote":
		c.exit = tg.f.RemoteTrace(&c.ctx, 77, monkit.NewTrace(99))
	case "observe":
		c.exit = tg.f.Observe()
	}
	return c
}

var styles = []string{"func", "task", "nilptr", "nilctx", "reset", "remote", "observe"}

func TestModel(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		targets := makeTargets(monkit.NewRegistry())
		var live []*call
		n := rapid.IntRange(1, 40).Draw(t, "n")
		overlap, failures, resetLive := false, false, false
		for i := 0; i < n; i++ {
			op := rapid.SampledFrom([]string{"start", "start", "start", "end", "end", "end", "reset", "nested", "nested", "burst"}).Draw(t, "op")
			switch op {
			case "start":
				tg := rapid.SampledFrom(targets).Draw(t, "target")
				style := rapid.SampledFrom(styles).Draw(t, "style")
				parent := context.Background()
				if len(live) > 0 && rapid.Bool().Draw(t, "child") {
					if p := live[rapid.IntRange(0, len(live)-1).Draw(t, "parent")].ctx; p != nil {
						parent = p
					}
				}
				c.Logf("start %s %s", tg.name, style)
				live = append(live, tg.start(style, parent))
				tg.m.start()
				overlap = overlap || tg.m.current > 1
				if k := kit.Some(t, "more", 0, 0); k > 0 {
					c.Logf("and %d more", k)
					var many []*call
					for j := 0; j < k; j++ {
						many = append(many, tg.start(style, parent))
						tg.m.start()
					}
					if p := compare(tg.fs, tg.m); p != "" {
						t.Fatalf("%s after %s: %s", tg.name, op, p)
					}
					for _, cl := range many {
						o := outcome{kind: "ok"}
						end(cl.exit, o)
						tg.m.end(o)
					}
				}
			case "end":
				if len(live) == 0 {
					continue
				}
				k := rapid.IntRange(0, len(live)-1).Draw(t, "which")
				o := genOutcome(t)
				c.Logf("end %d %s %v %s", k, o.kind, o.val, o.name)
				cl := live[k]
				live = append(live[:k:k], live[k+1:]...)
				end(cl.exit, o)
				cl.tg.m.end(o)
				failures = failures || o.kind != "ok"
			case "reset":
				tg := rapid.SampledFrom(targets).Draw(t, "target")
				c.Logf("reset %s", tg.name)
				resetLive = resetLive || tg.m.current > 0
				tg.fs.Reset()
				tg.m.reset()
			case "nested":
				// real deferred nesting and recursion
				tg := rapid.SampledFrom(targets).Draw(t, "target")
				depth := rapid.IntRange(1, 4).Draw(t, "depth")
				o := genOutcome(t)
				c.Logf("nested %s %d %s", tg.name, depth, o.kind)
				nested(tg, depth, o)
			case "burst":
				// many different error names, or many calls of one kind
				tg := rapid.SampledFrom(targets).Draw(t, "target")
				k := kit.Some(t, "calls", 2, 150)
				from := rapid.IntRange(0, 100).Draw(t, "from")
				o := genOutcome(t)
				c.Logf("burst %s %d from %d %s", tg.name, k, from, o.kind)
				for j := 0; j < k; j++ {
					if o.kind == "err" {
						o.name = fmt.Sprintf("name %d", from+j)
						o.err = namedErr(o.name)
					}
					cl := tg.start("func", context.Background())
					tg.m.start()
					end(cl.exit, o)
					tg.m.end(o)
				}
			}
			for _, tg := range targets {
				if p := compare(tg.fs, tg.m); p != "" {
					t.Fatalf("%s after %s: %s", tg.name, op, p)
				}
			}
		}
		for _, cl := range live {
			cl.exit(nil)
			cl.tg.m.end(outcome{kind: "ok"})
		}
		for _, tg := range targets {
			if p := compare(tg.fs, tg.m); p != "" {
				t.Fatalf("%s at the end: %s", tg.name, p)
			}
			if tg.fs.Current() != 0 {
				t.Fatalf("%s: %d current calls left", tg.name, tg.fs.Current())
			}
		}
		c.LabelIf(overlap, "overlapping calls")
		c.LabelIf(failures, "failures")
		c.LabelIf(resetLive, "reset with calls in flight")
		c.NonTrivialIf(overlap && failures)
	})
}

// nested runs a recursive monitored function that fails at the bottom; the
// failure passes through every level.
func nested(tg *target, depth int, o outcome) {
	var rec func(ctx context.Context, depth int) error
	rec = func(ctx context.Context, depth int) (err error) {
		if tg.f != nil {
			defer tg.task(&ctx)(&err)
		} else {
			defer tg.fs.Observe()(&err)
		}
		if depth > 1 {
			return rec(ctx, depth-1)
		}
		switch o.kind {
		case "panic", "panic-err":
			panic(o.val)
		}
		return o.err
	}
	func() {
		defer func() { _ = recover() }()
		_ = rec(context.Background(), depth)
	}()
	for i := 0; i < depth; i++ {
		tg.m.start()
	}
	for i := 0; i < depth; i++ {
		tg.m.end(o)
	}
}

// --- concurrent histories ---

type step struct {
	kind  string // call, open, reset, read
	tg    int
	style string
	out   outcome
}

type span struct{ startInv, startRes, endInv, endRes int64 }

type hist struct {
	mu     sync.Mutex
	clock  func() int64
	calls  map[int][]*callRec
	resets map[int][][2]int64
	seen   map[int]int64 // largest current count a reader saw
	bad    []string
}

type callRec struct {
	span
	out outcome
}

func (h *hist) fail(format string, args ...interface{}) {
	h.mu.Lock()
	h.bad = append(h.bad, fmt.Sprintf(format, args...))
	h.mu.Unlock()
}

func genProgram(t *rapid.T, c *kit.Case, targets int, resets bool) [][]step {
	threads := rapid.IntRange(2, 4).Draw(t, "threads")
	prog := make([][]step, threads)
	kinds := []string{"call", "call", "call", "read", "current"}
	if resets {
		kinds = append(kinds, "reset")
	}
	if rapid.IntRange(0, 3).Draw(t, "burst") == 0 {
		// little but calls of one function that overlap
		for i := range prog {
			s := step{kind: "call", style: rapid.SampledFrom([]string{"observe", "observe", "func"}).Draw(t, "style"), out: outcome{kind: "ok"}}
			if resets && i == 0 {
				s = step{kind: "reset"}
			}
			c.Logf("T%d %s %s", i, s.kind, s.style)
			prog[i] = append(prog[i], s)
		}
		return prog
	}
	for i := range prog {
		n := rapid.IntRange(1, 4).Draw(t, "len")
		for j := 0; j < n; j++ {
			s := step{kind: rapid.SampledFrom(kinds).Draw(t, "kind"), tg: rapid.IntRange(0, targets-1).Draw(t, "tg")}
			if s.kind == "call" {
				s.style = rapid.SampledFrom(styles).Draw(t, "style")
				s.out = genOutcome(t)
			}
			c.Logf("T%d %s %d %s %s", i, s.kind, s.tg, s.style, s.out.kind)
			prog[i] = append(prog[i], s)
		}
	}
	return prog
}

func (h *hist) run(targets []*target, steps []step) {
	now := func() int64 { return h.clock() }
	for _, s := range steps {
		tg := targets[s.tg]
		switch s.kind {
		case "call":
			r := &callRec{out: s.out}
			r.startInv = now()
			cl := tg.start(s.style, context.Background())
			r.startRes = now()
			vsched.Yield()
			r.endInv = now()
			end(cl.exit, s.out)
			r.endRes = now()
			h.mu.Lock()
			h.calls[s.tg] = append(h.calls[s.tg], r)
			h.mu.Unlock()
		case "reset":
			inv := now()
			tg.fs.Reset()
			res := now()
			h.mu.Lock()
			h.resets[s.tg] = append(h.resets[s.tg], [2]int64{inv, res})
			h.mu.Unlock()
		case "current":
			for k := 0; k < 3; k++ {
				cur := tg.fs.Current()
				h.mu.Lock()
				if cur > h.seen[s.tg] {
					h.seen[s.tg] = cur
				}
				h.mu.Unlock()
				vsched.Yield()
			}
		case "read":
			e, problem := readExport(tg.fs, "function")
			if problem == "" {
				problem = e.laws()
			}
			if problem != "" {
				h.fail("export during the run: %s", problem)
			}
		}
	}
}

// check decides the final state against what the history allows.
func (h *hist) check(targets []*target) string {
	if len(h.bad) > 0 {
		return h.bad[0]
	}
	for i, tg := range targets {
		calls, resets := h.calls[i], h.resets[i]
		e, problem := readExport(tg.fs, "function")
		if problem == "" {
			problem = e.laws()
		}
		if problem != "" {
			return tg.name + ": " + problem
		}
		if tg.fs.Current() != 0 {
			return fmt.Sprintf("%s: current %d after all calls finished", tg.name, tg.fs.Current())
		}
		if len(resets) == 0 {
			m := newModel()
			for _, r := range calls {
				m.start()
				m.end(r.out)
			}
			lo, hi := concurrency(calls)
			if seen := h.seen[i]; seen > lo {
				lo = seen
			}
			hw := tg.fs.Highwater()
			if hw < lo || hw > hi {
				return fmt.Sprintf("%s: highwater %d, but between %d and %d calls ran at once", tg.name, hw, lo, hi)
			}
			m.highwater = hw
			if p := compare(tg.fs, m); p != "" {
				return tg.name + ": " + p
			}
			continue
		}
		// With resets: an outcome is surely forgotten if the call ended before some
		// reset began, and surely kept if the end began after all resets ended.
		var mustOK, mayOK, mustErr, mayErr, mustPanic, mayPanic int64
		for _, r := range calls {
			must, may := true, true
			for _, rs := range resets {
				if r.endRes < rs[0] {
					may = false
				}
				if r.endInv <= rs[1] {
					must = false
				}
			}
			a, b := int64(0), int64(0)
			if must {
				a = 1
			}
			if may {
				b = 1
			}
			switch r.out.kind {
			case "ok", "ok-nilptr":
				mustOK, mayOK = mustOK+a, mayOK+b
			case "err":
				mustErr, mayErr = mustErr+a, mayErr+b
			default:
				mustPanic, mayPanic = mustPanic+a, mayPanic+b
			}
		}
		for _, x := range []struct {
			name      string
			got       float64
			must, may int64
		}{{"successes", e.fields["successes"], mustOK, mayOK}, {"errors", e.fields["errors"], mustErr, mayErr},
			{"panics", e.fields["panics"], mustPanic, mayPanic}} {
			if x.got < float64(x.must) || x.got > float64(x.may) {
				return fmt.Sprintf("%s: %s %v after resets, want between %d and %d", tg.name, x.name, x.got, x.must, x.may)
			}
		}
		// whatever runs after the resets is seen by the highwater mark, started
		// before them or not
		var after []*callRec
		var last int64
		for _, rs := range resets {
			if rs[1] > last {
				last = rs[1]
			}
		}
		for _, r := range calls {
			if r.endInv > last {
				a := *r
				if a.startRes <= last {
					a.startRes = last + 1
				}
				if a.startRes < a.endInv {
					after = append(after, &a)
				}
			}
		}
		lo, _ := concurrency(after)
		_, hi := concurrency(calls)
		if hw := tg.fs.Highwater(); hw < lo || hw > hi {
			return fmt.Sprintf("%s: highwater %d after resets, want between %d and %d", tg.name, hw, lo, hi)
		}
	}
	return ""
}

// concurrency returns bounds for the largest number of calls in progress.
func concurrency(calls []*callRec) (lo, hi int64) {
	type ev struct {
		at int64
		d  int64
	}
	sweep := func(evs []ev, endsFirst bool) (max int64) {
		sort.SliceStable(evs, func(i, j int) bool {
			if evs[i].at != evs[j].at {
				return evs[i].at < evs[j].at
			}
			if endsFirst {
				return evs[i].d < evs[j].d
			}
			return evs[i].d > evs[j].d
		})
		var n int64
		for _, e := range evs {
			n += e.d
			if n > max {
				max = n
			}
		}
		return max
	}
	var sure, maybe []ev
	for _, r := range calls {
		sure = append(sure, ev{r.startRes, 1}, ev{r.endInv, -1})
		maybe = append(maybe, ev{r.startInv, 1}, ev{r.endRes, -1})
	}
	return sweep(sure, true), sweep(maybe, false)
}

func newHist(clock func() int64) *hist {
	return &hist{clock: clock, calls: map[int][]*callRec{}, resets: map[int][][2]int64{}, seen: map[int]int64{}}
}

func TestSched(t *testing.T) {
	kit.NeedSched(t, func() { _ = monkit.NewRegistry().ScopeNamed("x").FuncNamed("y") })
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		targets := makeTargets(monkit.NewRegistry())
		prog := genProgram(t, c, rapid.IntRange(1, 2).Draw(t, "targets"), rapid.Bool().Draw(t, "resets"))
		sched := kit.Schedule(t)
		c.Logf("%v", sched)
		var clk int64
		h := newHist(func() int64 { clk++; return clk })
		var bodies []func()
		for _, steps := range prog {
			steps := steps
			bodies = append(bodies, func() { h.run(targets, steps) })
		}
		res := kit.Sched(t, c, sched, bodies...)
		if p := h.check(targets); p != "" {
			t.Fatalf("%s", p)
		}
		c.NonTrivialIf(res.Switches > len(prog))
	})
}

// TestSchedStarts overlaps nothing but starts, more densely than programs do:
// afterwards the counts are exact.
func TestSchedStarts(t *testing.T) {
	kit.NeedSched(t, func() { _ = monkit.NewRegistry().ScopeNamed("x").FuncNamed("y") })
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		fs := monkit.NewFuncStats(monkit.NewSeriesKey("f"))
		before := rapid.IntRange(0, 2).Draw(t, "before")
		for i := 0; i < before; i++ {
			fs.Observe()
		}
		n := rapid.IntRange(2, 5).Draw(t, "threads")
		each := rapid.IntRange(1, 2).Draw(t, "each")
		exits := make([][]func(*error), n)
		var bodies []func()
		for i := 0; i < n; i++ {
			i := i
			bodies = append(bodies, func() {
				for j := 0; j < each; j++ {
					exits[i] = append(exits[i], fs.Observe())
				}
			})
		}
		sched := kit.Dense(t)
		c.Logf("%d before, %d threads, %d each, %v", before, n, each, sched)
		res := kit.Sched(t, c, sched, bodies...)
		want := int64(before + n*each)
		if cur, high := fs.Current(), fs.Highwater(); cur != want || high != want {
			t.Fatalf("current %d, high water %d, want both %d", cur, high, want)
		}
		bodies = nil
		for i := 0; i < n; i++ {
			i := i
			bodies = append(bodies, func() {
				for _, exit := range exits[i] {
					exit(nil)
				}
			})
		}
		kit.Sched(t, c, kit.Dense(t), bodies...)
		if cur, high, ok := fs.Current(), fs.Highwater(), fs.Success(); cur != int64(before) || high != want || ok != int64(n*each) {
			t.Fatalf("afterwards current %d, high water %d, success %d, want %d, %d and %d", cur, high, ok, before, want, n*each)
		}
		c.NonTrivialIf(res.Switches > n)
	})
}

func TestRace(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		targets := makeTargets(monkit.NewRegistry())
		prog := genProgram(t, c, rapid.IntRange(1, 2).Draw(t, "targets"), rapid.Bool().Draw(t, "resets"))
		rounds := rapid.IntRange(1, 20).Draw(t, "rounds")
		h := newHist(kit.Clock)
		kit.Parallel(len(prog), func(i int) {
			for k := 0; k < rounds; k++ {
				h.run(targets, prog[i])
			}
		})
		if p := h.check(targets); p != "" {
			t.Fatalf("%s", p)
		}
		c.NonTrivial()
	})
}
