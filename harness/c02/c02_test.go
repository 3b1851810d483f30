// C02: instrumentation never changes the program it observes.
package c02

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"reflect"
	"runtime"
	"strings"
	"syscall"
	"testing"
	"time"

	monkit "github.com/spacemonkeygo/monkit/v3"
	"pgregory.net/rapid"

	"verif.local/harness/kit"
)

func TestMain(m *testing.M) { kit.Main(m) }

type key string

// node is one function call of a generated program.
type node struct {
	style    string
	ctxOp    string // what it does to its context before going on
	outcome  string
	val      interface{} // what it panics with
	err      error
	errptr   bool   // has an error variable
	handling string // what it does with what its children return: pass, keep, recover
	nilCtx   bool
	late     bool // overwrites the error in another defer
	children []*node
	id       int
}

var styles = []string{"task", "named", "func", "reset", "remote", "observe", "bare", "nilptr", "tagged"}

type uncomparable struct{ s []int }

type customErr struct{ s string }

func (c *customErr) Error() string { return c.s }

// sliceErr is an error that cannot be compared.
type sliceErr []int

func (e sliceErr) Error() string { return fmt.Sprint("slice ", []int(e)) }

// panicValues are values with a meaning of their own.
var panicValues = []interface{}{context.Canceled, context.DeadlineExceeded, io.EOF, http.ErrAbortHandler, (*customErr)(nil),
	sliceErr{3}, "", 0, false, struct{}{}, int64(-1), errors.New("panicked"), (*int)(nil), [0]int{}, os.ErrClosed, syscall.EPIPE, nil}

func genNode(t *rapid.T, c *kit.Case, depth int, id *int) *node {
	n := &node{id: *id}
	*id++
	n.style = rapid.SampledFrom(styles).Draw(t, "style")
	n.ctxOp = rapid.SampledFrom([]string{"", "value", "cancel", "deadline", "cancelled", "strip", "shadow", "odd", "own"}).Draw(t, "ctxop")
	n.outcome = rapid.SampledFrom([]string{"ok", "ok", "err", "err", "panic", "panic-err", "runtime", "goexit", "repanic", "err-panic"}).Draw(t, "outcome")
	n.errptr = rapid.Bool().Draw(t, "errptr")
	n.handling = rapid.SampledFrom([]string{"pass", "pass", "keep", "recover"}).Draw(t, "handling")
	n.nilCtx = rapid.IntRange(0, 7).Draw(t, "nilctx") == 0
	n.late = rapid.IntRange(0, 5).Draw(t, "late") == 0
	switch rapid.IntRange(0, 8).Draw(t, "val") {
	case 0:
		n.val = rapid.String().Draw(t, "s")
	case 1:
		n.val = rapid.Int().Draw(t, "i")
	case 2:
		n.val = &customErr{"p"}
	case 3:
		n.val = uncomparable{[]int{n.id}}
	case 4:
		n.val = fmt.Errorf("wrapped: %w", context.Canceled)
	case 5, 6, 7:
		n.val = rapid.SampledFrom(panicValues).Draw(t, "value")
	default:
		n.val = &struct{ x int }{n.id}
	}
	n.err = rapid.SampledFrom([]error{errors.New("plain"), context.Canceled, &customErr{"c"}, (*customErr)(nil), io.EOF, context.DeadlineExceeded, sliceErr{1, 2}}).Draw(t, "err")
	c.Logf("%s#%d %s ctx=%s/%v %s errptr=%v %s late=%v val=%T", strings.Repeat(" ", 3-depth), n.id, n.style, n.ctxOp, n.nilCtx, n.outcome, n.errptr, n.handling, n.late, n.val)
	if depth > 0 {
		for i := rapid.IntRange(0, 2).Draw(t, "children"); i > 0; i-- {
			n.children = append(n.children, genNode(t, c, depth-1, id))
		}
	}
	return n
}

// run is one execution of a program.
type run struct {
	monitored bool
	reg       *monkit.Registry
	scope     *monkit.Scope
	bare      *monkit.FuncStats
	log       []string
	errs      []interface{} // identities, compared one to one
	base      time.Time
	tasks     map[int]monkit.Task
}

func (r *run) logf(format string, args ...interface{}) {
	r.log = append(r.log, fmt.Sprintf(format, args...))
}

var keys = []interface{}{key("a"), key("b"), key("c"), "a", 0, int64(0), obsKey(0), struct{}{}, new(int), nil, [1]string{"a"}}

// things are values of monkit's that a program may keep in its contexts.
var things = func() []interface{} {
	ctx := context.Background()
	f := monkit.NewRegistry().ScopeNamed("elsewhere").FuncNamed("f")
	f.Task(&ctx)(nil)
	s := monkit.SpanFromCtx(ctx)
	return []interface{}{s, s.Trace(), f, s}
}()

// odd is a context of somebody else's making, with a value for everything.
type odd struct {
	context.Context
	id int
}

func (o odd) Value(k interface{}) interface{} {
	if k == keys[o.id%len(keys)] || k == nil {
		return fmt.Sprint("odd", o.id, k == nil)
	}
	return o.Context.Value(k)
}

func (r *run) see(n *node, what string, ctx context.Context) {
	if ctx == nil {
		r.logf("#%d %s nil context", n.id, what)
		return
	}
	dl, ok := ctx.Deadline()
	done := false
	select {
	case <-ctx.Done():
		done = true
	default:
	}
	vals := ""
	for _, k := range keys {
		switch v := ctx.Value(k).(type) {
		case *monkit.Span, *monkit.Trace, *monkit.Func:
			vals += fmt.Sprintf(" %T %p", v, v)
		default:
			vals += fmt.Sprintf(" %v", v)
		}
	}
	cause := context.Cause(ctx)
	r.logf("#%d %s vals%s deadline %v %v done %v (can be %v) err %v cause %v", n.id, what, vals, dl.Sub(r.base).Truncate(time.Minute), ok, done, ctx.Done() != nil, ctx.Err(), cause)
	r.errs = append(r.errs, ctx.Err(), cause)
}

func (r *run) start(n *node, ctx *context.Context) func(*error) {
	if !r.monitored {
		if *ctx == nil && n.style != "nilptr" && n.style != "observe" && n.style != "bare" {
			// documented: a nil context becomes a usable one
			*ctx = context.Background()
		}
		return func(*error) {}
	}
	name := fmt.Sprint("f", n.id%3)
	switch n.style {
	case "task":
		task := r.tasks[n.id]
		if task == nil {
			task = r.scope.Task()
			r.tasks[n.id] = task
		}
		return task(ctx, n.id, "x")
	case "named":
		return r.scope.TaskNamed(name)(ctx)
	case "tagged":
		return r.scope.Task(monkit.NewSeriesTag("k", name))(ctx)
	case "func":
		return r.scope.FuncNamed(name).Task(ctx, n.val)
	case "reset":
		return r.scope.FuncNamed(name).ResetTrace(ctx)
	case "remote":
		return r.scope.FuncNamed(name).RemoteTrace(ctx, int64(n.id), monkit.NewTrace(int64(n.id)))
	case "observe":
		return r.scope.FuncNamed(name).Observe()
	case "bare":
		return r.bare.Observe()
	default:
		return r.scope.FuncNamed(name).Task(nil)
	}
}

type returned struct {
	err error
	rec interface{}
	how string // returned, panicked, exited
}

// call calls a function of the program and reports how it ended. A goroutine
// exit is observed from outside of the goroutine.
func (r *run) call(n *node, ctx context.Context) (out returned) {
	if !n.exits() {
		out.how = "panicked"
		func() {
			defer func() {
				if out.how == "panicked" {
					out.rec = recover()
				}
			}()
			out.err = r.body(n, ctx)
			out.how = "returned"
		}()
	} else {
		out.how = "exited"
		done := make(chan struct{})
		go func() {
			defer close(done)
			defer func() {
				if out.how == "exited" {
					if rec := recover(); rec != nil {
						out.rec, out.how = rec, "panicked"
					}
				}
			}()
			out.err = r.body(n, ctx)
			out.how = "returned"
		}()
		<-done
	}
	r.logf("#%d %s err %v rec %s", n.id, out.how, safe(out.err), describe(out.rec))
	r.errs = append(r.errs, out.err, out.rec)
	return out
}

func safe(err error) string {
	if e, ok := err.(*customErr); ok && e == nil {
		return "nil customErr"
	}
	return fmt.Sprint(err)
}

func describe(rec interface{}) string {
	if e, ok := rec.(error); ok {
		return fmt.Sprintf("%T %s", rec, safe(e))
	}
	return fmt.Sprintf("%T", rec)
}

func (n *node) exits() bool {
	if n.outcome == "goexit" {
		return true
	}
	for _, c := range n.children {
		if c.exits() {
			return true
		}
	}
	return false
}

func (r *run) body(n *node, ctx context.Context) (err error) {
	if n.nilCtx {
		ctx = nil
	}
	in := ctx
	// the error variable once everything else is done, however that ended
	defer func() {
		r.logf("#%d error variable %s", n.id, safe(err))
		r.errs = append(r.errs, err)
	}()
	if n.errptr {
		defer r.start(n, &ctx)(&err)
	} else {
		defer r.start(n, &ctx)(nil)
	}
	if n.late {
		defer func() {
			if err != nil {
				err = n.err
			}
		}()
	}
	r.see(n, "in", in)
	r.see(n, "out", ctx)
	if ctx == nil {
		ctx = context.Background()
	}
	var cancel context.CancelFunc = func() {}
	next := ctx
	switch n.ctxOp {
	case "value":
		k := keys[n.id%len(keys)]
		if k == nil {
			k = keys[0]
		}
		next = context.WithValue(ctx, k, n.id)
	case "odd":
		next = odd{ctx, n.id}
	case "own":
		// things of monkit's under the program's own key
		next = context.WithValue(ctx, keys[n.id%3], things[n.id%len(things)])
	case "shadow":
		next = context.WithValue(ctx, keys[0], fmt.Sprint("shadow", n.id))
	case "cancel":
		next, cancel = context.WithCancel(ctx)
	case "deadline":
		next, cancel = context.WithDeadline(ctx, r.base.Add(time.Duration(1+n.id)*time.Hour))
	case "cancelled":
		var cause context.CancelCauseFunc
		next, cause = context.WithCancelCause(ctx)
		cause(n.err)
	case "strip":
		if r.monitored {
			next = monkit.ResetContextSpan(ctx)
		}
	}
	defer cancel()
	var last error
	for _, child := range n.children {
		out := r.call(child, next)
		r.see(n, "own context after a child", ctx)
		switch n.handling {
		case "pass":
			if out.how == "panicked" {
				panic(out.rec)
			}
			if out.err != nil {
				return out.err
			}
		case "keep":
			last = out.err
		}
	}
	cancel()
	r.see(n, "handed on after cancelling", next)
	switch n.outcome {
	case "panic", "panic-err":
		panic(n.val)
	case "err-panic":
		err = n.err
		panic(n.val)
	case "runtime":
		var m map[string]int
		m["x"] = 1
	case "goexit":
		runtime.Goexit()
	case "repanic":
		defer func() {
			rec := recover()
			panic(fmt.Sprintf("again: %v", rec))
		}()
		panic("first")
	case "err":
		return n.err
	}
	return last
}

// same reports whether two values are the identical value.
func same(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if _, ok := a.(runtime.Error); ok {
		return true // made afresh by the runtime in each run
	}
	if !reflect.TypeOf(a).Comparable() {
		return reflect.DeepEqual(a, b)
	}
	return a == b
}

// observer disturbs contexts in the ways observers may.
type observer struct{ how string }

type obsKey int

func (o *observer) Start(ctx context.Context, s *monkit.Span) context.Context {
	switch o.how {
	case "value":
		return context.WithValue(ctx, obsKey(1), s)
	case "cancel":
		ctx, _ := context.WithCancelCause(ctx)
		return ctx
	}
	return ctx
}

func (o *observer) Finish(ctx context.Context, s *monkit.Span, err error, panicked bool, finish time.Time) {
}

type plainObserver struct{}

func (plainObserver) Start(s *monkit.Span)                                         {}
func (plainObserver) Finish(s *monkit.Span, err error, panicked bool, _ time.Time) {}

func TestModel(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		id := 0
		prog := genNode(t, c, 3, &id)
		obs := rapid.SliceOfN(rapid.SampledFrom([]string{"none", "value", "plain", "late"}), 0, 3).Draw(t, "observers")
		c.Logf("observers %v", obs)
		base := time.Now().Add(24 * time.Hour)
		var bgCancel context.CancelFunc
		top := context.WithValue(context.Background(), keys[1], "top")
		top, bgCancel = context.WithCancel(top)
		defer bgCancel()

		runs := [2]*run{}
		var outs [2]returned
		for i := range runs {
			reg := monkit.NewRegistry()
			r := &run{monitored: i == 1, reg: reg, scope: reg.ScopeNamed("s"), base: base, tasks: map[int]monkit.Task{},
				bare: monkit.NewFuncStats(monkit.NewSeriesKey("bare"))}
			runs[i] = r
			for _, o := range obs {
				o := o
				reg.ObserveTraces(func(tr *monkit.Trace) {
					if o == "plain" {
						tr.ObserveSpans(plainObserver{})
					} else {
						tr.ObserveSpansCtx(&observer{o})
					}
				})
			}
			outs[i] = r.call(prog, top)
		}
		a, b := runs[0], runs[1]
		for i := 0; i < len(a.log) || i < len(b.log); i++ {
			var x, y string
			if i < len(a.log) {
				x = a.log[i]
			}
			if i < len(b.log) {
				y = b.log[i]
			}
			if x != y {
				t.Fatalf("step %d unmonitored: %s\nmonitored: %s", i, x, y)
			}
		}
		if len(a.errs) != len(b.errs) {
			t.Fatalf("different number of results")
		}
		for i := range a.errs {
			// identities: the same pointers were used in both runs
			if !same(a.errs[i], b.errs[i]) {
				t.Fatalf("result %d unmonitored %#v, monitored %#v", i, a.errs[i], b.errs[i])
			}
		}
		c.LabelIf(outs[1].how == "panicked", "panic at the top")
		c.LabelIf(outs[1].how == "exited", "goroutine exit at the top")
		c.LabelIf(outs[1].err != nil, "error at the top")
		c.LabelIf(len(obs) > 0, "observed")
		c.NonTrivialIf(id > 1 && (outs[1].how != "returned" || outs[1].err != nil))
	})
}
