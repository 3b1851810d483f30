// C25: identifiers are unique and non-negative.
package c25

import (
	"context"
	"fmt"
	"slices"
	"sync"
	"testing"

	monkit "github.com/spacemonkeygo/monkit/v3"
	"pgregory.net/rapid"

	"verif.local/harness/kit"
)

func TestMain(m *testing.M) { kit.Main(m) }

// seen holds every identifier handed out in this process so far: across
// cases, tests and threads, none may come twice.
var (
	mu   sync.Mutex
	seen = map[int64]string{}
)

type id struct {
	val int64
	who string
}

// account checks the identifiers handed out and remembers them.
func account(t *rapid.T, ids []id) {
	mu.Lock()
	defer mu.Unlock()
	if len(seen) > 4e6 {
		// bounded memory; the older ones are forgotten
		seen = map[int64]string{}
	}
	for _, x := range ids {
		if x.val < 0 {
			t.Fatalf("negative identifier %d for a %s", x.val, x.who)
		}
		if o, dup := seen[x.val]; dup {
			t.Fatalf("identifier %d of a %s was already that of a %s", x.val, x.who, o)
		}
		seen[x.val] = x.who
	}
}

// op asks for identifiers in one of the ways there are.
type op struct {
	kind string
	n    int
}

var kinds = []string{"NewId", "NewId", "func", "task", "child", "deep", "reset span", "new trace", "reset trace"}

func drawOp(t *rapid.T, max int) op {
	return op{kind: rapid.SampledFrom(kinds).Draw(t, "kind"), n: rapid.IntRange(1, max).Draw(t, "n")}
}

// env is what the operations of a case share.
type env struct {
	scope *monkit.Scope
	f     *monkit.Func
	ctx   context.Context // of a running span
}

func newEnv(t *rapid.T) (*env, []id) {
	e := &env{scope: monkit.NewRegistry().ScopeNamed("s")}
	e.f = e.scope.FuncNamed("f")
	e.ctx = context.Background()
	e.f.Task(&e.ctx)
	s := monkit.SpanFromCtx(e.ctx)
	return e, []id{{e.f.Id(), "func"}, {s.Id(), "span"}, {s.Trace().Id(), "trace"}}
}

// do performs the operation; name is unique for the caller.
func (o op) do(e *env, name string) (ids []id) {
	add := func(val int64, who string) { ids = append(ids, id{val, who}) }
	for i := 0; i < o.n; i++ {
		switch o.kind {
		case "NewId":
			add(monkit.NewId(), "request")
		case "func":
			add(e.scope.FuncNamed(fmt.Sprint(name, "-", i)).Id(), "func")
		case "task": // a root span in a new trace
			var ctx context.Context
			if i%2 == 0 {
				ctx = context.Background()
			}
			done := e.f.Task(&ctx)
			s := monkit.SpanFromCtx(ctx)
			add(s.Id(), "span")
			add(s.Trace().Id(), "trace")
			done(nil)
		case "child":
			ctx := e.ctx
			done := e.f.Task(&ctx)
			add(monkit.SpanFromCtx(ctx).Id(), "span")
			done(nil)
		case "deep":
			ctx := e.ctx
			var dones []func(*error)
			for d := 0; d < 3; d++ {
				dones = append(dones, e.f.Task(&ctx))
				add(monkit.SpanFromCtx(ctx).Id(), "span")
			}
			for d := range dones {
				dones[d](nil)
			}
		case "reset trace":
			ctx := e.ctx
			done := e.f.ResetTrace(&ctx)
			s := monkit.SpanFromCtx(ctx)
			add(s.Id(), "span")
			add(s.Trace().Id(), "trace")
			done(nil)
		case "reset span":
			ctx := monkit.ResetContextSpan(e.ctx)
			done := e.f.Task(&ctx)
			s := monkit.SpanFromCtx(ctx)
			add(s.Id(), "span")
			if s.Trace().Id() != monkit.SpanFromCtx(e.ctx).Trace().Id() {
				add(s.Trace().Id(), "trace")
			}
			done(nil)
		case "new trace":
			ctx := context.Background()
			tid := monkit.NewId()
			add(tid, "request")
			done := e.f.RemoteTrace(&ctx, monkit.NewId(), monkit.NewTrace(tid))
			add(monkit.SpanFromCtx(ctx).Id(), "span")
			done(nil)
		}
	}
	return ids
}

func TestModel(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		e, ids := newEnv(t)
		n := rapid.IntRange(1, 12).Draw(t, "ops")
		for i := 0; i < n; i++ {
			o := drawOp(t, 60)
			c.Logf("%s x%d", o.kind, o.n)
			ids = append(ids, o.do(e, fmt.Sprint(i))...)
		}
		account(t, ids)
		c.NonTrivialIf(len(ids) > 20)
	})
}

// TestModelMany asks for very many identifiers at once.
func TestModelMany(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		n := rapid.IntRange(1000, 20000).Draw(t, "n")
		if rapid.IntRange(0, 9).Draw(t, "burst") != 0 {
			n /= 40
		}
		c.Logf("%d identifiers", n)
		ids := make([]id, n)
		for i := range ids {
			ids[i] = id{monkit.NewId(), "request"}
		}
		account(t, ids)
		c.NonTrivialIf(n > 1000)
	})
}

func concurrent(t *rapid.T, c *kit.Case, most, ops, max int, run func([]func())) {
	e, ids := newEnv(t)
	nt := rapid.IntRange(2, most).Draw(t, "threads")
	got := make([][]id, nt)
	var bodies []func()
	for i := 0; i < nt; i++ {
		i := i
		var prog []op
		for k := rapid.IntRange(1, ops).Draw(t, "len"); k > 0; k-- {
			o := drawOp(t, max)
			c.Logf("T%d %s x%d", i, o.kind, o.n)
			prog = append(prog, o)
		}
		bodies = append(bodies, func() {
			for k, o := range prog {
				got[i] = append(got[i], o.do(e, fmt.Sprint(i, "-", k))...)
			}
		})
	}
	run(bodies)
	for _, g := range got {
		ids = append(ids, g...)
	}
	account(t, ids)
}

func TestSched(t *testing.T) {
	kit.NeedSched(t, func() { monkit.NewId() })
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		sched := kit.Schedule(t)
		c.Logf("%v", sched)
		concurrent(t, c, 3, 3, 3, func(bodies []func()) {
			res := kit.Sched(t, c, sched, bodies...)
			c.NonTrivialIf(res.Switches > len(bodies))
		})
	})
}

func TestRace(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		concurrent(t, c, 8, 4, 150, func(bodies []func()) {
			kit.Parallel(len(bodies), func(i int) { bodies[i]() })
		})
		c.NonTrivial()
	})
}

// TestBulk has several goroutines ask for millions of identifiers.
func TestBulk(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		const threads = 8
		n := rapid.IntRange(1<<21, 1<<22).Draw(t, "each")
		c.Logf("%d identifiers for each of %d goroutines", n, threads)
		got := make([][]int64, threads)
		kit.Parallel(threads, func(i int) {
			ids := make([]int64, n)
			for j := range ids {
				ids[j] = monkit.NewId()
			}
			slices.Sort(ids)
			got[i] = ids
		})
		last, first := int64(-1), true
		for {
			best := -1
			for i, g := range got {
				if len(g) > 0 && (best < 0 || g[0] < got[best][0]) {
					best = i
				}
			}
			if best < 0 {
				break
			}
			id := got[best][0]
			got[best] = got[best][1:]
			if id < 0 {
				t.Fatalf("negative identifier %d", id)
			}
			if !first && id == last {
				t.Fatalf("identifier %d handed out twice among %d", id, n*threads)
			}
			last, first = id, false
		}
		c.NonTrivial()
	})
}
