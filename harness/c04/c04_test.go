// C04: spans carry the parent, trace and data their context dictates.
package c04

import (
	"context"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	monkit "github.com/spacemonkeygo/monkit/v3"
	"pgregory.net/rapid"

	"verif.local/harness/kit"
)

func TestMain(m *testing.M) { kit.Main(m) }

// mspan is the model of a span.
type mspan struct {
	real     *monkit.Span
	id       int64
	trace    *mtrace
	f        *monkit.Func
	args     []string
	hasPar   bool
	parentId int64
	notes    []monkit.Annotation
	exit     func(*error)
	live     bool
	ctx      int
}

type mtrace struct {
	real *monkit.Trace
	id   int64
	vals map[interface{}]interface{}
}

// mctx is a context and what the model says about it.
type mctx struct {
	ctx  context.Context
	cur  *mspan // current span
	vals map[string]string
	how  string
}

type ctxKey string

type weird struct {
	A int
	B string
}

// genArg draws an argument and its documented text form.
type text string

type raw []byte

// speaking says nothing true of itself.
type speaking struct{ N int }

func (speaking) String() string { return "spoken" }
func (speaking) Error() string  { return "spoken" }

// oddArgs are arguments that print as any value does.
var oddArgs = []interface{}{nil, nil, true, text("t"), raw("r"), []string{"a", "b"}, []string(nil), (*int)(nil), (*speaking)(nil), speaking{3},
	errors.New("e"), error(nil), map[string]int{"a": 1}, struct{}{}, [2]byte{1, 2}, 'x', uint8(3), int64(-1), time.Month(3), time.UTC == nil,
	[]int64{1}, math.Inf(1), complex(1, 2), (*time.Time)(nil), json.Number("1"), context.Canceled}

func genArg(t *rapid.T, nested bool) (interface{}, string) {
	k := rapid.IntRange(0, 10).Draw(t, "argkind")
	switch k {
	case 0, 1:
		s := kit.Text(t, "s")
		return s, strconv.Quote(s)
	case 2:
		b := rapid.SliceOfN(rapid.Byte(), 0, 5).Draw(t, "b")
		for n := kit.Some(t, "bytes", 0, 0); n > 0; n-- {
			b = append(b, byte(n))
		}
		return b, "[]uint8(0x" + hex.EncodeToString(b) + ")"
	case 3:
		tm := time.Unix(rapid.Int64Range(-1<<33, 1<<33).Draw(t, "sec"), rapid.Int64Range(0, 999999999).Draw(t, "ns")).UTC()
		if rapid.Bool().Draw(t, "elsewhere") {
			tm = tm.In(time.FixedZone("there", rapid.SampledFrom([]int{0, 3600, -5 * 3600, 19800, 45900}).Draw(t, "offset")))
		}
		return tm, "time.Time(" + tm.Format(time.RFC3339Nano) + ")"
	case 4:
		if nested {
			var in []interface{}
			var parts []string
			for n := kit.Some(t, "n", 0, 3); n > 0; n-- {
				a, s := genArg(t, false)
				in = append(in, a)
				parts = append(parts, s)
			}
			if in == nil {
				in = []interface{}{}
			}
			return in, "{" + strings.Join(parts, ", ") + "}"
		}
		return nil, fmt.Sprintf("%#v", interface{}(nil))
	case 5:
		n := rapid.Int().Draw(t, "i")
		return n, fmt.Sprintf("%#v", n)
	case 6:
		w := weird{rapid.Int().Draw(t, "i"), kit.Text(t, "s")}
		return w, fmt.Sprintf("%#v", w)
	case 7:
		f := rapid.Float64().Draw(t, "f")
		return f, fmt.Sprintf("%#v", f)
	case 8, 9:
		a := rapid.SampledFrom(oddArgs).Draw(t, "odd")
		return a, fmt.Sprintf("%#v", a)
	default:
		d := time.Duration(rapid.Int64().Draw(t, "d"))
		return d, fmt.Sprintf("%#v", d)
	}
}

// ownCtx is a context type of the program's own.
type ownCtx struct {
	context.Context
	_ []int // not comparable
}

type ctxObserver struct{ name string }

func (o ctxObserver) Start(ctx context.Context, s *monkit.Span) context.Context {
	return context.WithValue(ctx, ctxKey(o.name), fmt.Sprint(s.Id()))
}

func (o ctxObserver) Finish(ctx context.Context, s *monkit.Span, err error, panicked bool, finish time.Time) {
}

func (s *mspan) check() string {
	r := s.real
	if r.Id() != s.id || r.Id() < 0 {
		return fmt.Sprintf("id %d, was %d", r.Id(), s.id)
	}
	if r.Func() != s.f {
		return fmt.Sprintf("span %d: func %s, want %s", s.id, r.Func().FullName(), s.f.FullName())
	}
	if r.Trace() != s.trace.real {
		return fmt.Sprintf("span %d: on trace %d, want %d", s.id, r.Trace().Id(), s.trace.id)
	}
	pid, ok := r.ParentId()
	if ok != s.hasPar || (ok && pid != s.parentId) {
		return fmt.Sprintf("span %d: parent %d %v, want %d %v", s.id, pid, ok, s.parentId, s.hasPar)
	}
	if got := r.Args(); len(got) != len(s.args) || (len(got) > 0 && !reflect.DeepEqual(got, s.args)) {
		return fmt.Sprintf("span %d: args %q, want %q", s.id, got, s.args)
	}
	if got := r.Annotations(); len(got) != len(s.notes) || (len(got) > 0 && !reflect.DeepEqual(got, s.notes)) {
		return fmt.Sprintf("span %d: annotations %v, want %v", s.id, got, s.notes)
	} else {
		for i := range got {
			got[i].Name = "scribble" // a copy: must not show
		}
	}
	return ""
}

func (m *mctx) check() string {
	var got *monkit.Span
	if m.ctx != nil {
		got = monkit.SpanFromCtx(m.ctx)
	}
	var want *monkit.Span
	if m.cur != nil {
		want = m.cur.real
	}
	if got != want {
		return fmt.Sprintf("context %s: current span %v, want %v", m.how, id(got), id(want))
	}
	for k, v := range m.vals {
		if g := m.ctx.Value(ctxKey(k)); g != v {
			return fmt.Sprintf("context %s: value of %s is %v, want %v", m.how, k, g, v)
		}
	}
	return ""
}

func id(s *monkit.Span) string {
	if s == nil {
		return "none"
	}
	return fmt.Sprint(s.Id())
}

func (t *mtrace) check() string {
	if t.real.Id() != t.id {
		return fmt.Sprintf("trace id %d, was %d", t.real.Id(), t.id)
	}
	for k := range t.vals {
		if g := t.real.Get(k); g != t.vals[k] {
			return fmt.Sprintf("trace %d: %v is %v, want %v", t.id, k, g, t.vals[k])
		}
	}
	for _, k := range traceKeys {
		if g := t.real.Get(k); g != t.vals[k] {
			return fmt.Sprintf("trace %d: %v is %v, want %v", t.id, k, g, t.vals[k])
		}
	}
	all := t.real.GetAll()
	if len(all) != len(t.vals) || (len(all) > 0 && !reflect.DeepEqual(all, t.vals)) {
		return fmt.Sprintf("trace %d: values %v, want %v", t.id, all, t.vals)
	}
	all["scribble"] = 1
	return ""
}

type tkey struct{ n int }

var traceKeys = []interface{}{"a", "b", 1, tkey{1}, "1"}

func TestModel(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		reg := monkit.NewRegistry()
		funcs := []*monkit.Func{reg.ScopeNamed("s").FuncNamed("f"), reg.ScopeNamed("s").FuncNamed("g", monkit.NewSeriesTag("k", "v")), reg.ScopeNamed("r").FuncNamed("f")}
		nobs := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "observers")
		for i := 0; i < nobs; i++ {
			name := fmt.Sprint("obs", i)
			reg.ObserveTraces(func(tr *monkit.Trace) { tr.ObserveSpansCtx(ctxObserver{name}) })
		}
		c.Logf("%d observers", nobs)
		traces := []*mtrace{}
		byReal := map[*monkit.Trace]*mtrace{}
		newTrace := func(real *monkit.Trace) *mtrace {
			tr := &mtrace{real: real, id: real.Id(), vals: map[interface{}]interface{}{}}
			traces = append(traces, tr)
			byReal[real] = tr
			return tr
		}
		var spans []*mspan
		ids := map[int64]bool{}
		ctxs := []*mctx{{ctx: context.Background(), how: "background", vals: map[string]string{}}}
		multi, remote, stripped := false, false, false
		n := rapid.IntRange(1, 25).Draw(t, "n")
		for i := 0; i < n; i++ {
			op := rapid.SampledFrom([]string{"start", "start", "start", "start", "derive", "strip", "annotate", "annotate", "finish", "set"}).Draw(t, "op")
			switch op {
			case "start":
				base := rapid.SampledFrom(ctxs).Draw(t, "ctx")
				style := rapid.SampledFrom([]string{"task", "task", "scope-task", "reset", "remote", "nilptr", "nil"}).Draw(t, "style")
				f := rapid.SampledFrom(funcs).Draw(t, "func")
				var args []interface{}
				var argText []string
				for k := kit.Some(t, "args", 0, 3); k > 0; k-- {
					a, s := genArg(t, true)
					args = append(args, a)
					argText = append(argText, s)
				}
				c.Logf("start %s %s on [%s] args %q", style, f.FullName(), base.how, argText)
				s := &mspan{f: f, args: argText, live: true}
				ctx := base.ctx
				cur := base.cur
				vals := map[string]string{}
				for k, v := range base.vals {
					vals[k] = v
				}
				var given *monkit.Trace
				before := liveSpans(reg)
				switch style {
				case "task":
					s.exit = f.Task(&ctx, args...)
				case "scope-task":
					s.exit = monkit.Task(f.Task)(&ctx, args...)
				case "reset":
					s.exit = f.ResetTrace(&ctx, args...)
					cur = nil
				case "remote":
					pid := rapid.OneOf(rapid.Int64(), rapid.SampledFrom([]int64{0, 1, -1})).Draw(t, "pid")
					tid := rapid.OneOf(rapid.Int64(), rapid.SampledFrom([]int64{0, -1})).Draw(t, "tid")
					given = monkit.NewTrace(tid)
					if len(traces) > 0 && rapid.IntRange(0, 3).Draw(t, "known trace") == 0 {
						given = rapid.SampledFrom(traces).Draw(t, "trace").real
						if len(spans) > 0 && rapid.Bool().Draw(t, "known parent") {
							pid = rapid.SampledFrom(spans).Draw(t, "parent").id
						}
					}
					s.exit = f.RemoteTrace(&ctx, pid, given, args...)
					s.hasPar, s.parentId = true, pid
					cur = nil
					remote = true
				case "nilptr":
					s.exit = f.Task(nil, args...)
					cur = nil
				case "nil":
					ctx = nil
					s.exit = f.Task(&ctx, args...)
					cur = nil
					vals = map[string]string{}
				}
				if style == "nilptr" {
					// nothing is handed on: find the span among the running ones
					for sp := range liveSpans(reg) {
						if !before[sp] {
							s.real = sp
						}
					}
					if s.real == nil {
						t.Fatalf("no new running span")
					}
				} else {
					s.real = monkit.SpanFromCtx(ctx)
					if s.real == nil || before[s.real] {
						t.Fatalf("the context handed on has no new span as current: %s", id(s.real))
					}
				}
				s.id = s.real.Id()
				if ids[s.id] {
					t.Fatalf("span id %d used twice", s.id)
				}
				ids[s.id] = true
				switch {
				case given != nil:
					if s.trace = byReal[given]; s.trace == nil {
						s.trace = newTrace(given)
					}
				case cur != nil:
					s.trace = cur.trace
					s.hasPar, s.parentId = true, cur.id
					multi = true
				default:
					if byReal[s.real.Trace()] != nil {
						t.Fatalf("not a brand new trace: %d", s.real.Trace().Id())
					}
					for _, tr := range traces {
						if tr.id == s.real.Trace().Id() {
							t.Fatalf("trace id %d used twice", tr.id)
						}
					}
					s.trace = newTrace(s.real.Trace())
				}
				spans = append(spans, s)
				if style != "nilptr" {
					for k := 0; k < nobs; k++ {
						vals[fmt.Sprint("obs", k)] = fmt.Sprint(s.id)
					}
					ctxs = append(ctxs, &mctx{ctx: ctx, cur: s, vals: vals, how: fmt.Sprintf("%d:%s of %s", len(ctxs), style, base.how)})
				}
			case "derive":
				base := rapid.SampledFrom(ctxs).Draw(t, "ctx")
				k := kit.Plain(t, "key")
				vals := map[string]string{k: fmt.Sprint(i)}
				for kk, v := range base.vals {
					if kk != k {
						vals[kk] = v
					}
				}
				ctx := context.WithValue(base.ctx, ctxKey(k), fmt.Sprint(i))
				kind := rapid.SampledFrom([]string{"value", "value", "cancelable", "cancelled", "deadline", "expired", "detached", "own"}).Draw(t, "kind")
				var cancel func()
				switch kind {
				case "cancelable":
					ctx, cancel = context.WithCancel(ctx)
					defer cancel()
				case "cancelled":
					ctx, cancel = context.WithCancel(ctx)
					cancel()
				case "deadline":
					ctx, cancel = context.WithTimeout(ctx, time.Hour)
					defer cancel()
				case "expired":
					ctx, cancel = context.WithTimeout(ctx, -time.Hour)
					defer cancel()
				case "detached":
					ctx = context.WithoutCancel(ctx)
				case "own":
					ctx = ownCtx{Context: ctx}
				}
				c.Logf("derive %s [%s]", kind, base.how)
				ctxs = append(ctxs, &mctx{ctx: ctx, cur: base.cur, vals: vals, how: fmt.Sprintf("%d:derived %s", len(ctxs), base.how)})
			case "strip":
				base := rapid.SampledFrom(ctxs).Draw(t, "ctx")
				c.Logf("strip [%s]", base.how)
				stripped = stripped || base.cur != nil
				ctxs = append(ctxs, &mctx{ctx: monkit.ResetContextSpan(base.ctx), vals: base.vals, how: fmt.Sprintf("%d:stripped %s", len(ctxs), base.how)})
			case "annotate":
				if len(spans) == 0 {
					continue
				}
				s := rapid.SampledFrom(spans).Draw(t, "span")
				a := monkit.Annotation{Name: kit.Text(t, "name"), Value: kit.Text(t, "val")}
				c.Logf("annotate %q", a)
				s.real.Annotate(a.Name, a.Value)
				s.notes = append(s.notes, a)
				for k := kit.Some(t, "more notes", 0, 0); k > 0; k-- {
					a := monkit.Annotation{Name: a.Name, Value: fmt.Sprint(k)}
					s.real.Annotate(a.Name, a.Value)
					s.notes = append(s.notes, a)
				}
			case "finish":
				if len(spans) == 0 {
					continue
				}
				s := rapid.SampledFrom(spans).Draw(t, "span")
				if s.live {
					c.Logf("finish")
					s.live = false
					s.exit(nil)
				}
			case "set":
				if len(traces) == 0 {
					continue
				}
				tr := rapid.SampledFrom(traces).Draw(t, "trace")
				k := rapid.SampledFrom(traceKeys).Draw(t, "key")
				var v interface{} = i
				if rapid.IntRange(0, 4).Draw(t, "nilval") == 0 {
					v = nil
				}
				c.Logf("set %v %v", k, v)
				tr.real.Set(k, v)
				tr.vals[k] = v
				for j := kit.Some(t, "more keys", 0, 0); j > 0; j-- {
					c.Logf("and key %d", j)
					tr.real.Set(tkey{1 + j}, j)
					tr.vals[tkey{1 + j}] = j
				}
			}
			for _, s := range spans {
				if p := s.check(); p != "" {
					t.Fatalf("after %s: %s", op, p)
				}
			}
			for _, m := range ctxs {
				if p := m.check(); p != "" {
					t.Fatalf("after %s: %s", op, p)
				}
			}
			for _, tr := range traces {
				if p := tr.check(); p != "" {
					t.Fatalf("after %s: %s", op, p)
				}
			}
		}
		for _, s := range spans {
			if s.live {
				s.exit(nil)
			}
		}
		c.LabelIf(multi, "child spans")
		c.LabelIf(remote, "remote traces")
		c.LabelIf(stripped, "stripped contexts")
		c.NonTrivialIf(multi && len(spans) > 2)
	})
}

func liveSpans(reg *monkit.Registry) map[*monkit.Span]bool {
	out := map[*monkit.Span]bool{}
	reg.AllSpans(func(s *monkit.Span) { out[s] = true })
	return out
}

// --- concurrent use of one span and one trace ---

type cstep struct {
	kind string // annotate, set, get, child, stranger
	key  int
}

type setRec struct {
	key, val int
	inv, res int64
}

func concurrent(t *rapid.T, c *kit.Case, clock func() int64, rounds int, run func(bodies []func())) {
	reg := monkit.NewRegistry()
	f, g := reg.ScopeNamed("s").FuncNamed("f"), reg.ScopeNamed("s").FuncNamed("g")
	ctx := context.Background()
	exit := f.Task(&ctx)
	root := monkit.SpanFromCtx(ctx)
	threads := rapid.IntRange(2, 4).Draw(t, "threads")
	var mu sync.Mutex
	var sets []setRec
	var bad []string
	fail := func(format string, args ...interface{}) {
		mu.Lock()
		bad = append(bad, fmt.Sprintf(format, args...))
		mu.Unlock()
	}
	wantNotes := make([][]string, threads)
	var bodies []func()
	for i := 0; i < threads; i++ {
		i := i
		var steps []cstep
		for n := rapid.IntRange(1, 4).Draw(t, "len"); n > 0; n-- {
			s := cstep{rapid.SampledFrom([]string{"annotate", "annotate", "set", "get", "child", "stranger"}).Draw(t, "kind"), rapid.IntRange(0, 1).Draw(t, "key")}
			c.Logf("T%d %s %d", i, s.kind, s.key)
			steps = append(steps, s)
		}
		bodies = append(bodies, func() {
			for r := 0; r < rounds; r++ {
				for j, s := range steps {
					switch s.kind {
					case "annotate":
						v := fmt.Sprint(r, "/", j)
						root.Annotate(fmt.Sprint(i), v)
						wantNotes[i] = append(wantNotes[i], v)
					case "set":
						v := i*1000000 + r*1000 + j + 1
						inv := clock()
						root.Trace().Set(s.key, v)
						res := clock()
						mu.Lock()
						sets = append(sets, setRec{s.key, v, inv, res})
						mu.Unlock()
					case "get":
						root.Trace().Get(s.key)
						root.Trace().GetAll()
						root.Annotations()
					case "child", "stranger":
						cctx := ctx
						if s.kind == "stranger" {
							cctx = context.Background()
						}
						ex := g.Task(&cctx, i, j)
						sp := monkit.SpanFromCtx(cctx)
						pid, ok := sp.ParentId()
						if s.kind == "child" && (!ok || pid != root.Id() || sp.Trace() != root.Trace()) {
							fail("child span: parent %d %v, trace %d", pid, ok, sp.Trace().Id())
						}
						if s.kind == "stranger" && (ok || sp.Trace() == root.Trace()) {
							fail("span without a parent: parent %d %v, trace %d", pid, ok, sp.Trace().Id())
						}
						if want := []string{fmt.Sprint(i), fmt.Sprint(j)}; !reflect.DeepEqual(sp.Args(), want) || sp.Func() != g {
							fail("args %v, want %v", sp.Args(), want)
						}
						ex(nil)
						if monkit.SpanFromCtx(ctx) != root {
							fail("the shared context changed")
						}
					}
				}
			}
		})
	}
	run(bodies)
	if len(bad) > 0 {
		t.Fatalf("%s", bad[0])
	}
	got := make([][]string, threads)
	for _, a := range root.Annotations() {
		k, err := strconv.Atoi(a.Name)
		if err != nil || k >= threads {
			t.Fatalf("unknown annotation %v", a)
		}
		got[k] = append(got[k], a.Value)
	}
	if !reflect.DeepEqual(got, wantNotes) {
		t.Fatalf("annotations per thread %v, want %v", got, wantNotes)
	}
	for key := 0; key < 2; key++ {
		v := root.Trace().Get(key)
		var own *setRec
		var any bool
		for i := range sets {
			if sets[i].key == key {
				any = true
				if sets[i].val == v {
					own = &sets[i]
				}
			}
		}
		if !any {
			if v != nil {
				t.Fatalf("key %d: %v was never set", key, v)
			}
			continue
		}
		if own == nil {
			t.Fatalf("key %d: value %v was never set", key, v)
		}
		for _, s := range sets {
			if s.key == key && s.inv > own.res {
				t.Fatalf("key %d: value %d although %d was set later", key, own.val, s.val)
			}
		}
	}
	exit(nil)
}

func TestSched(t *testing.T) {
	kit.NeedSched(t, func() { _ = monkit.NewRegistry().ScopeNamed("x").FuncNamed("y") })
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		sched := kit.Schedule(t)
		c.Logf("%v", sched)
		var clk int64
		concurrent(t, c, func() int64 { clk++; return clk }, 1, func(bodies []func()) {
			res := kit.Sched(t, c, sched, bodies...)
			c.NonTrivialIf(res.Switches > len(bodies))
		})
	})
}

func TestRace(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		rounds := rapid.IntRange(1, 20).Draw(t, "rounds")
		concurrent(t, c, kit.Clock, rounds, func(bodies []func()) {
			kit.Parallel(len(bodies), func(i int) { bodies[i]() })
		})
		c.NonTrivial()
	})
}
