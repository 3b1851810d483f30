// C07: span observers see each span exactly once while registered.
package c07

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"reflect"
	"sync"
	"testing"
	"time"

	monkit "github.com/spacemonkeygo/monkit/v3"
	"pgregory.net/rapid"

	"verif.local/harness/kit"
	"verif.local/harness/vsched"
)

func TestMain(m *testing.M) { kit.Main(m) }

const never = int64(1) << 60

type ival struct{ inv, res int64 }

// spanRec is a span of the history.
type spanRec struct {
	trace         int
	real          *monkit.Span
	start, finish ival
	err           error
	panicked      bool
	before, after time.Time // around the finish
	handed        context.Context
}

type event struct {
	finish   bool
	span     *monkit.Span
	ctx      context.Context
	out      context.Context // what Start returned
	err      error
	panicked bool
	at       time.Time
	seq      int64
}

// obs is one registration.
type obs struct {
	w            *world
	id           int
	trace        int
	ctxAware     bool
	reg, cancel  ival
	cancelFn     func()
	events       []event
	onStart      string // what it does in its first Start
	onFinish     string
	selfCanceled bool
}

type obsKey int

type world struct {
	mu     sync.Mutex
	now    func() int64
	traces []*monkit.Trace
	bases  []context.Context
	exits  []func(*error)
	f      *monkit.Func
	spans  []*spanRec
	obs    []*obs
	nextID int
}

func newWorld(now func() int64, n int) *world {
	w := &world{now: now}
	reg := monkit.NewRegistry()
	w.f = reg.ScopeNamed("s").FuncNamed("f")
	for i := 0; i < n; i++ {
		ctx := context.Background()
		exit := w.f.Task(&ctx)
		w.bases = append(w.bases, ctx)
		w.exits = append(w.exits, exit)
		w.traces = append(w.traces, monkit.SpanFromCtx(ctx).Trace())
	}
	return w
}

func (w *world) observe(trace int, ctxAware bool, onStart, onFinish string) *obs {
	w.mu.Lock()
	o := &obs{w: w, id: w.nextID, trace: trace, ctxAware: ctxAware, cancel: ival{never, never}, onStart: onStart, onFinish: onFinish}
	w.nextID++
	w.obs = append(w.obs, o)
	w.mu.Unlock()
	o.reg = ival{w.now(), never}
	var cancel func()
	if ctxAware {
		cancel = w.traces[trace].ObserveSpansCtx(o)
	} else {
		cancel = w.traces[trace].ObserveSpans(plain{o})
	}
	w.mu.Lock()
	o.cancelFn = cancel
	o.reg.res = w.now()
	w.mu.Unlock()
	return o
}

func (o *obs) doCancel() {
	o.w.mu.Lock()
	fn := o.cancelFn
	first := fn != nil && o.cancel.inv == never
	if first {
		o.cancel.inv = o.w.now()
	}
	o.w.mu.Unlock()
	if fn == nil {
		return
	}
	fn() // repeated cancellation is fine
	if first {
		r := o.w.now()
		o.w.mu.Lock()
		o.cancel.res = r
		o.w.mu.Unlock()
	}
}

func (o *obs) act(what *string) {
	o.w.mu.Lock()
	a := *what
	*what = ""
	o.w.mu.Unlock()
	switch a {
	case "cancel-self":
		o.doCancel()
	case "register":
		o.w.observe(o.trace, true, "", "")
	case "cancel-other":
		o.w.mu.Lock()
		var other *obs
		for _, x := range o.w.obs {
			if x != o && x.trace == o.trace && x.cancelFn != nil && x.cancel.inv == never {
				other = x
			}
		}
		o.w.mu.Unlock()
		if other != nil {
			other.doCancel()
		}
	}
}

func (o *obs) Start(ctx context.Context, s *monkit.Span) context.Context {
	o.act(&o.onStart)
	out := ctx
	if o.ctxAware {
		out = context.WithValue(ctx, obsKey(o.id), s)
	}
	o.w.mu.Lock()
	o.events = append(o.events, event{span: s, ctx: ctx, out: out, seq: o.w.now()})
	o.w.mu.Unlock()
	return out
}

func (o *obs) Finish(ctx context.Context, s *monkit.Span, err error, panicked bool, finish time.Time) {
	o.act(&o.onFinish)
	o.w.mu.Lock()
	o.events = append(o.events, event{finish: true, span: s, ctx: ctx, err: err, panicked: panicked, at: finish, seq: o.w.now()})
	o.w.mu.Unlock()
}

type plain struct{ o *obs }

func (p plain) Start(s *monkit.Span) { p.o.Start(context.Background(), s) }
func (p plain) Finish(s *monkit.Span, err error, panicked bool, finish time.Time) {
	p.o.Finish(nil, s, err, panicked, finish)
}

type running struct {
	r    *spanRec
	ctx  context.Context
	exit func(*error)
}

func (w *world) startSpan(trace int, base context.Context, style string) *running {
	r := &spanRec{trace: trace, start: ival{w.now(), never}, finish: ival{never, never}}
	ctx := base
	var exit func(*error)
	if style == "remote" {
		exit = w.f.RemoteTrace(&ctx, 3, w.traces[trace])
	} else {
		if style == "cancelled" || style == "expired" {
			var cancel func()
			ctx, cancel = context.WithTimeout(ctx, map[string]time.Duration{"cancelled": time.Hour, "expired": -1}[style])
			cancel()
		}
		exit = w.f.Task(&ctx, style)
	}
	r.start.res = w.now()
	r.handed = ctx
	r.real = monkit.SpanFromCtx(ctx)
	w.mu.Lock()
	w.spans = append(w.spans, r)
	w.mu.Unlock()
	return &running{r, ctx, exit}
}

// sliceErr is an error that cannot be compared.
type sliceErr []int

func (e sliceErr) Error() string { return fmt.Sprint([]int(e)) }

var (
	errs      = []error{errors.New("the error"), context.Canceled, io.EOF, sliceErr{1}, (*net.OpError)(nil), fmt.Errorf("w: %w", context.Canceled)}
	panicVals = []interface{}{"p", context.Canceled, io.EOF, 0, sliceErr{2}, http.ErrAbortHandler}
)

func sameErr(a, b error) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if !reflect.TypeOf(a).Comparable() {
		return reflect.DeepEqual(a, b)
	}
	return a == b
}

func (w *world) finishSpan(s *running, how string) {
	k := len(how) + int(s.r.start.inv)
	theErr, val := errs[k%len(errs)], panicVals[k%len(panicVals)]
	s.r.before = time.Now()
	s.r.finish.inv = w.now()
	switch how {
	case "err":
		s.r.err = theErr
		err := theErr
		s.exit(&err)
	case "panic":
		s.r.panicked = true
		func() {
			defer func() { _ = recover() }()
			defer s.exit(nil)
			panic(val)
		}()
	case "err-panic":
		s.r.err, s.r.panicked = theErr, true
		func() {
			err := theErr
			defer func() { _ = recover() }()
			defer s.exit(&err)
			panic(val)
		}()
	case "nilptr":
		s.exit(nil)
	default:
		var err error
		s.exit(&err)
	}
	s.r.finish.res = w.now()
	s.r.after = time.Now()
}

func (w *world) check() string {
	bySpan := map[*monkit.Span]*spanRec{}
	for _, s := range w.spans {
		if bySpan[s.real] != nil {
			return "span reported twice"
		}
		bySpan[s.real] = s
	}
	for _, o := range w.obs {
		starts, finishes := map[*spanRec]int{}, map[*spanRec]int{}
		for _, e := range o.events {
			s := bySpan[e.span]
			if s == nil {
				found := false
				for _, b := range w.bases {
					found = found || monkit.SpanFromCtx(b) == e.span
				}
				if found {
					continue // the base spans
				}
				return fmt.Sprintf("observer %d got an event for an unknown span", o.id)
			}
			if s.trace != o.trace {
				return fmt.Sprintf("observer %d on trace %d got an event of trace %d", o.id, o.trace, s.trace)
			}
			if !e.finish {
				starts[s]++
				if finishes[s] > 0 {
					return fmt.Sprintf("observer %d: finish before start", o.id)
				}
				if o.ctxAware {
					if monkit.SpanFromCtx(e.ctx) != e.span {
						return fmt.Sprintf("observer %d: the context at start does not carry the span", o.id)
					}
					if s.handed.Value(obsKey(o.id)) != e.span {
						return fmt.Sprintf("observer %d: what it added to the context was lost", o.id)
					}
				}
				continue
			}
			finishes[s]++
			if !sameErr(e.err, s.err) || e.panicked != s.panicked {
				return fmt.Sprintf("observer %d: finished with %v, %v, want %v, %v", o.id, e.err, e.panicked, s.err, s.panicked)
			}
			if e.at.Before(s.before) || e.at.After(s.after) || e.at.Before(s.real.Start()) {
				return fmt.Sprintf("observer %d: finish time %v not within the finish", o.id, e.at)
			}
			if o.ctxAware && e.ctx != s.handed {
				return fmt.Sprintf("observer %d: the context at finish is not the one handed on", o.id)
			}
		}
		for _, s := range w.spans {
			if s.trace != o.trace {
				continue
			}
			if p := o.count("start", starts[s], s.start); p != "" {
				return p
			}
			if p := o.count("finish", finishes[s], s.finish); p != "" {
				return p
			}
		}
	}
	return ""
}

func (o *obs) count(what string, n int, at ival) string {
	if at.inv == never {
		if n > 0 {
			return fmt.Sprintf("observer %d: %s of a running span", o.id, what)
		}
		return ""
	}
	must := o.reg.res < at.inv && o.cancel.inv > at.res
	may := !(o.reg.inv > at.res || o.cancel.res < at.inv)
	if must && n != 1 {
		return fmt.Sprintf("observer %d: %d %s events for a span within its registration (registered %v, cancelled %v, %s %v)", o.id, n, what, o.reg, o.cancel, what, at)
	}
	if !may && n != 0 {
		return fmt.Sprintf("observer %d: %d %s events for a span outside its registration (registered %v, cancelled %v, %s %v)", o.id, n, what, o.reg, o.cancel, what, at)
	}
	if n > 1 {
		return fmt.Sprintf("observer %d: %d %s events for one span", o.id, n, what)
	}
	return ""
}

var acts = []string{"", "", "", "cancel-self", "register", "cancel-other"}
var hows = []string{"", "nilptr", "err", "panic", "err-panic"}

func TestModel(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		var clk int64
		w := newWorld(func() int64 { clk++; return clk }, rapid.IntRange(1, 2).Draw(t, "traces"))
		var live []*running
		mid := 0
		for n := rapid.IntRange(1, 30).Draw(t, "n"); n > 0; n-- {
			switch rapid.SampledFrom([]string{"observe", "observe", "cancel", "start", "start", "start", "finish", "finish"}).Draw(t, "op") {
			case "observe":
				tr := rapid.IntRange(0, len(w.traces)-1).Draw(t, "trace")
				ca := rapid.Bool().Draw(t, "ctxaware")
				a, b := rapid.SampledFrom(acts).Draw(t, "onstart"), rapid.SampledFrom(acts).Draw(t, "onfinish")
				o := w.observe(tr, ca, a, b)
				c.Logf("observe #%d trace %d ctx=%v %s %s", o.id, tr, ca, a, b)
				if len(live) > 0 {
					mid++
				}
			case "cancel":
				if len(w.obs) > 0 {
					o := rapid.SampledFrom(w.obs).Draw(t, "obs")
					c.Logf("cancel #%d", o.id)
					o.doCancel()
				}
			case "start":
				tr := rapid.IntRange(0, len(w.traces)-1).Draw(t, "trace")
				base := w.bases[tr]
				if len(live) > 0 && rapid.Bool().Draw(t, "child") {
					p := rapid.SampledFrom(live).Draw(t, "parent")
					base, tr = p.ctx, p.r.trace
				}
				style := rapid.SampledFrom([]string{"task", "task", "remote", "cancelled", "expired"}).Draw(t, "style")
				c.Logf("start %s on trace %d", style, tr)
				live = append(live, w.startSpan(tr, base, style))
			case "finish":
				if len(live) > 0 {
					k := rapid.IntRange(0, len(live)-1).Draw(t, "which")
					how := rapid.SampledFrom(hows).Draw(t, "how")
					c.Logf("finish %d %s", k, how)
					s := live[k]
					live = append(live[:k:k], live[k+1:]...)
					w.finishSpan(s, how)
				}
			}
			if p := w.check(); p != "" {
				t.Fatalf("%s", p)
			}
		}
		for _, s := range live {
			w.finishSpan(s, "")
		}
		if p := w.check(); p != "" {
			t.Fatalf("%s", p)
		}
		c.LabelIf(mid > 0, "registered mid-span")
		c.NonTrivialIf(len(w.obs) > 1 && len(w.spans) > 1)
	})
}

type counter struct{ starts, finishes *int }

func (c counter) Start(s *monkit.Span)                                   { *c.starts++ }
func (c counter) Finish(s *monkit.Span, err error, p bool, at time.Time) { *c.finishes++ }

type ctxCounter struct {
	counter
	_ []int // not comparable
}

func (c ctxCounter) Start(ctx context.Context, s *monkit.Span) context.Context {
	*c.starts++
	return ctx
}

func (c ctxCounter) Finish(ctx context.Context, s *monkit.Span, err error, p bool, at time.Time) {
	*c.finishes++
}

// TestModelTwice registers the same observers several times over: every
// registration counts, and cancelling one, however often, ends just that one.
func TestModelTwice(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		w := newWorld(kit.Clock, 1)
		tr := w.traces[0]
		var a, b counter
		a.starts, a.finishes, b.starts, b.finishes = new(int), new(int), new(int), new(int)
		type reg struct {
			b      bool
			live   bool
			cancel func()
		}
		var regs []*reg
		wantA, wantB := 0, 0
		for n := rapid.IntRange(1, 20).Draw(t, "n"); n > 0; n-- {
			switch rapid.SampledFrom([]string{"add", "add", "cancel", "span"}).Draw(t, "op") {
			case "add":
				r := &reg{live: true, b: rapid.Bool().Draw(t, "b")}
				if r.b {
					r.cancel = tr.ObserveSpansCtx(ctxCounter{counter: b})
				} else {
					r.cancel = tr.ObserveSpans(a)
				}
				c.Logf("register %v", r.b)
				regs = append(regs, r)
			case "cancel":
				if len(regs) > 0 {
					k := rapid.IntRange(0, len(regs)-1).Draw(t, "which")
					c.Logf("cancel %d", k)
					regs[k].cancel()
					regs[k].live = false
				}
			case "span":
				c.Logf("span")
				ctx := w.bases[0]
				w.f.Task(&ctx)(nil)
				for _, r := range regs {
					if r.live && r.b {
						wantB++
					} else if r.live {
						wantA++
					}
				}
			}
			if *a.starts != wantA || *a.finishes != wantA || *b.starts != wantB || *b.finishes != wantB {
				t.Fatalf("events %d/%d and %d/%d, want %d and %d", *a.starts, *a.finishes, *b.starts, *b.finishes, wantA, wantB)
			}
		}
		c.NonTrivialIf(wantA+wantB > 2)
	})
}

// replacer is an observer that hands on a context of its own making.
type replacer struct {
	how  int
	log  *[]replaced
	ends *[]context.Context
}

type replaced struct{ in, out context.Context }

func (r *replacer) Start(ctx context.Context, s *monkit.Span) context.Context {
	out := ctx
	switch r.how {
	case 0:
		out = monkit.ResetContextSpan(ctx)
	case 1:
		out = context.WithValue(context.Background(), obsKey(1), s)
	case 2:
		out, _ = context.WithCancel(ctx)
	case 3:
		out = foreign{ctx}
	case 4:
		out = s
	}
	*r.log = append(*r.log, replaced{ctx, out})
	return out
}

func (r *replacer) Finish(ctx context.Context, s *monkit.Span, err error, p bool, at time.Time) {
	*r.ends = append(*r.ends, ctx)
}

type foreign struct{ context.Context }

// TestModelReplace: whatever contexts observers return, with the span or
// without, each gets the one before's, and the last is handed on and comes
// back at the finish.
func TestModelReplace(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		w := newWorld(kit.Clock, 1)
		var log []replaced
		var ends []context.Context
		n := rapid.IntRange(1, 4).Draw(t, "observers")
		stripped := false
		for i := 0; i < n; i++ {
			how := rapid.IntRange(0, 5).Draw(t, "how")
			c.Logf("observer %d", how)
			stripped = stripped || how < 2
			w.traces[0].ObserveSpansCtx(&replacer{how, &log, &ends})
		}
		base := w.bases[0]
		for k := rapid.IntRange(1, 3).Draw(t, "spans"); k > 0; k-- {
			log, ends = nil, nil
			ctx := base
			var exit func(*error)
			if rapid.Bool().Draw(t, "remote") {
				exit = w.f.RemoteTrace(&ctx, 3, w.traces[0])
			} else {
				if s := monkit.SpanFromCtx(ctx); s == nil || s.Trace() != w.traces[0] {
					break
				}
				exit = w.f.Task(&ctx)
			}
			handed := ctx
			if len(log) != n {
				t.Fatalf("%d observers told of the start, want %d", len(log), n)
			}
			for i := range log {
				if i > 0 && log[i].in != log[i-1].out {
					t.Fatalf("observer %d was given a context that is not what the one before returned", i)
				}
			}
			if handed != log[n-1].out {
				t.Fatalf("the context handed on is not what the last observer returned")
			}
			exit(nil)
			if len(ends) != n {
				t.Fatalf("%d observers told of the finish, want %d", len(ends), n)
			}
			for i := range ends {
				if ends[i] != handed {
					t.Fatalf("observer %d finishes with another context than was handed on", i)
				}
			}
			base = handed
		}
		c.LabelIf(stripped, "without the span")
		c.NonTrivialIf(n > 1)
	})
}

type step struct {
	kind     string // span, nested, observe, cancel, cancel-shared
	ctxAware bool
	onStart  string
	onFinish string
	how      string
	who      int
}

func concurrent(t *rapid.T, c *kit.Case, now func() int64, rounds int, run func(bodies []func())) {
	w := newWorld(now, 1)
	var shared []*obs
	for i := rapid.IntRange(0, 3).Draw(t, "shared"); i > 0; i-- {
		shared = append(shared, w.observe(0, rapid.Bool().Draw(t, "ctxaware"), "", ""))
	}
	c.Logf("%d observers before", len(shared))
	threads := rapid.IntRange(2, 4).Draw(t, "threads")
	var bodies []func()
	for i := 0; i < threads; i++ {
		var steps []step
		for n := rapid.IntRange(1, 4).Draw(t, "len"); n > 0; n-- {
			s := step{kind: rapid.SampledFrom([]string{"span", "span", "nested", "observe", "observe", "cancel", "cancel-shared"}).Draw(t, "kind"),
				ctxAware: rapid.Bool().Draw(t, "ctxaware"), onStart: rapid.SampledFrom(acts).Draw(t, "onstart"), onFinish: rapid.SampledFrom(acts).Draw(t, "onfinish"),
				how: rapid.SampledFrom(hows).Draw(t, "how"), who: rapid.IntRange(0, 3).Draw(t, "who")}
			c.Logf("T%d %+v", i, s)
			steps = append(steps, s)
		}
		bodies = append(bodies, func() {
			var mine []*obs
			for r := 0; r < rounds; r++ {
				for _, s := range steps {
					switch s.kind {
					case "span", "nested":
						sp := w.startSpan(0, w.bases[0], "task")
						vsched.Yield()
						if s.kind == "nested" {
							in := w.startSpan(0, sp.ctx, "task")
							vsched.Yield()
							w.finishSpan(in, "")
						}
						w.finishSpan(sp, s.how)
					case "observe":
						mine = append(mine, w.observe(0, s.ctxAware, s.onStart, s.onFinish))
					case "cancel":
						if len(mine) > 0 {
							mine[s.who%len(mine)].doCancel()
						}
					case "cancel-shared":
						if len(shared) > 0 {
							shared[s.who%len(shared)].doCancel()
						}
					}
				}
				for _, o := range mine {
					if r > 0 {
						o.doCancel() // keep the number of observers small
					}
				}
			}
		})
	}
	run(bodies)
	// afterwards everything is still in order
	sp := w.startSpan(0, w.bases[0], "task")
	w.finishSpan(sp, "err")
	if p := w.check(); p != "" {
		t.Fatalf("%s", p)
	}
}

func TestSched(t *testing.T) {
	kit.NeedSched(t, func() { _ = monkit.NewRegistry().ScopeNamed("x").FuncNamed("y") })
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		sched := kit.Schedule(t)
		c.Logf("%v", sched)
		var clk int64
		concurrent(t, c, func() int64 { clk++; return clk }, 1, func(bodies []func()) {
			res := kit.Sched(t, c, sched, bodies...)
			c.NonTrivialIf(res.Switches > len(bodies))
		})
	})
}

func TestRace(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		concurrent(t, c, kit.Clock, rapid.IntRange(1, 6).Draw(t, "rounds"), func(bodies []func()) {
			kit.Parallel(len(bodies), func(i int) { bodies[i]() })
		})
		c.NonTrivial()
	})
}
