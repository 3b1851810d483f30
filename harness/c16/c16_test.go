// C16: a stats export reports every registered source once, labelled.
package c16

import (
	"context"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	monkit "github.com/spacemonkeygo/monkit/v3"
	"pgregory.net/rapid"

	"verif.local/harness/kit"
)

func TestMain(m *testing.M) { kit.Main(m) }

// stat is one reported statistic.
type stat struct {
	key, field string
	val        float64
	scope      string
}

func (s stat) String() string { return fmt.Sprintf("%s %s=%v", s.key, s.field, s.val) }

// keyText renders a key without ambiguity.
func keyText(k monkit.SeriesKey) string {
	var tags []string
	for key, val := range k.Tags.All() {
		tags = append(tags, fmt.Sprintf("%q=%q", key, val))
	}
	sort.Strings(tags)
	return fmt.Sprintf("%q%v", k.Measurement, tags)
}

func collect(s monkit.StatSource, each func()) (out []stat) {
	s.Stats(func(key monkit.SeriesKey, field string, val float64) {
		out = append(out, stat{keyText(key), field, val, key.Tags.Get("scope")})
		if each != nil {
			each()
		}
	})
	return out
}

// source is something registered, and how to learn what it should report
type source struct {
	scope *monkit.Scope
	desc  string
	want  func() []stat // without the scope
	poke  func(t *rapid.T)
	fn    *monkit.Func // if it is one
	name  string       // of a gauge
}

type stater interface {
	Stats(cb func(key monkit.SeriesKey, field string, val float64))
}

type chained struct {
	n    *int64
	key  monkit.SeriesKey
	hook func()
}

func (ch chained) Stats(cb func(key monkit.SeriesKey, field string, val float64)) {
	cb(ch.key, "x", float64(*ch.n))
	if ch.hook != nil {
		ch.hook()
	}
	cb(ch.key, "y", 2)
}

// direct asks the source itself, with the scope tag added.
func direct(s stater, scope string) func() []stat {
	return func() (out []stat) {
		s.Stats(func(key monkit.SeriesKey, field string, val float64) {
			out = append(out, stat{keyText(key.WithTag("scope", scope)), field, val, scope})
		})
		return out
	}
}

type world struct {
	reg     *monkit.Registry
	sources []*source
	gauges  []*source
	names   map[string][]string // scope and kind to the names used
	n       int
	hook    func() // called from gauges and chains
}

func newWorld() *world {
	return &world{reg: monkit.NewRegistry(), names: map[string][]string{}}
}

var kinds = []string{"counter", "counter", "meter", "diff", "int", "float", "bool", "struct", "dur", "timer", "func", "func", "gauge", "gauge", "chain", "chain"}

// register adds a source of some kind to a scope.
func (w *world) register(t *rapid.T, c *kit.Case, scopeName, kind string) *source {
	s := w.reg.ScopeNamed(scopeName)
	w.n++
	name := fmt.Sprintf("%s#%d", kit.Text(t, "name"), w.n) // unlike any other
	var tags []monkit.SeriesTag
	if old := w.names[scopeName+"\x00"+kind]; len(old) > 0 && kind != "gauge" && kind != "diff" && rapid.IntRange(0, 2).Draw(t, "same name") == 0 {
		// the same name again, told apart by its tags
		name = rapid.SampledFrom(old).Draw(t, "old name")
		tags = append(tags, monkit.NewSeriesTag("u", fmt.Sprint(w.n)))
	}
	w.names[scopeName+"\x00"+kind] = append(w.names[scopeName+"\x00"+kind], name)
	if rapid.IntRange(0, 7).Draw(t, "scope tag") == 0 {
		tags = append(tags, monkit.NewSeriesTag("scope", rapid.SampledFrom([]string{"own", "", "a"}).Draw(t, "own scope")))
	}
	for k := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "tags"); k > 0; k-- {
		tags = append(tags, monkit.NewSeriesTag(fmt.Sprint("t", k), kit.Text(t, "val")))
	}
	src := &source{scope: s, desc: fmt.Sprintf("%s %q %q in %q", kind, name, tags, scopeName)}
	src.poke = func(*rapid.T) {}
	switch kind {
	case "counter":
		m := s.Counter(name, tags...)
		src.want = direct(m, scopeName)
		src.poke = func(t *rapid.T) { m.Inc(int64(rapid.IntRange(-3, 5).Draw(t, "by"))) }
	case "meter":
		m := s.Meter(name, tags...)
		src.want = direct(m, scopeName)
		src.poke = func(t *rapid.T) { m.Mark(rapid.IntRange(0, 5).Draw(t, "by")) }
	case "diff":
		a, b := s.Meter(name+"a"), s.Meter(name+"b")
		w.sources = append(w.sources,
			&source{scope: s, desc: "meter of " + name, want: direct(a, scopeName), poke: func(*rapid.T) { a.Mark(3) }},
			&source{scope: s, desc: "meter of " + name, want: direct(b, scopeName), poke: func(*rapid.T) { b.Mark(1) }})
		s.DiffMeter(name, a, b, tags...)
		src.want = direct(monkit.NewDiffMeter(monkit.NewSeriesKey(name).WithTags(tags...), a, b), scopeName)
	case "int":
		m := s.IntVal(name, tags...)
		src.want = direct(m, scopeName)
		src.poke = func(t *rapid.T) { m.Observe(int64(rapid.IntRange(-3, 5).Draw(t, "v"))) }
	case "float":
		m := s.FloatVal(name, tags...)
		src.want = direct(m, scopeName)
		src.poke = func(t *rapid.T) { m.Observe(rapid.Float64Range(-5, 5).Draw(t, "v")) }
	case "bool":
		m := s.BoolVal(name, tags...)
		src.want = direct(m, scopeName)
		src.poke = func(t *rapid.T) { m.Observe(rapid.Bool().Draw(t, "v")) }
	case "struct":
		m := s.StructVal(name, tags...)
		src.want = direct(m, scopeName)
		src.poke = func(t *rapid.T) {
			m.Observe(struct {
				A int
				B struct{ C bool }
			}{A: rapid.IntRange(0, 5).Draw(t, "v")})
		}
	case "dur":
		m := s.DurationVal(name, tags...)
		src.want = direct(m, scopeName)
		src.poke = func(t *rapid.T) { m.Observe(time.Duration(rapid.IntRange(0, 5000).Draw(t, "v"))) }
	case "timer":
		m := s.Timer(name, tags...)
		src.want = direct(m, scopeName)
		src.poke = func(t *rapid.T) { m.Start().Stop() }
	case "func":
		f := s.FuncNamed(name, tags...)
		src.fn = f
		src.want = direct(f, scopeName)
		src.poke = func(t *rapid.T) {
			ctx := context.Background()
			exit := f.Task(&ctx)
			switch rapid.IntRange(0, 4).Draw(t, "how") {
			case 0:
				exit(nil)
			case 1:
				err := errors.New("x")
				exit(&err)
			case 2:
				err := context.Canceled
				exit(&err)
			case 3:
				_ = kit.Safely(func() { defer exit(nil); panic(1) })
			default: // stays running
			}
		}
	case "gauge":
		if len(w.gauges) > 0 && rapid.Bool().Draw(t, "replace") {
			old := rapid.SampledFrom(w.gauges).Draw(t, "gauge")
			old.desc += " replaced"
			w.gauge(old, old.scope, old.name)
			c.Logf("replace gauge %q in %q", old.name, old.scope.Name())
			return old
		}
		src.desc = fmt.Sprintf("gauge %q in %q", name, scopeName)
		w.gauge(src, s, name)
		src.name = name
		w.gauges = append(w.gauges, src)
	case "chain":
		if rapid.IntRange(0, 3).Draw(t, "a metric") == 0 {
			// something that can be told by its address, also twice
			var ch monkit.StatSource
			var m *monkit.Counter
			switch other := monkit.NewRegistry(); rapid.IntRange(0, 2).Draw(t, "of") {
			case 0:
				m = monkit.NewCounter(monkit.NewSeriesKey(name).WithTags(tags...))
				ch = m
			case 1:
				m = other.ScopeNamed("inner").Counter(name, tags...)
				ch = other.ScopeNamed("inner")
			default:
				m = other.ScopeNamed("inner").Counter(name, tags...)
				ch = other
			}
			src.want = direct(m, scopeName)
			src.poke = func(t *rapid.T) { m.Inc(int64(rapid.IntRange(-3, 5).Draw(t, "by"))) }
			s.Chain(ch)
			if rapid.Bool().Draw(t, "twice") {
				s.Chain(ch)
				w.sources = append(w.sources, &source{scope: s, desc: src.desc + " again", want: src.want, poke: src.poke})
			}
			break
		}
		n := new(int64)
		ch := chained{n, monkit.NewSeriesKey(name).WithTags(tags...), func() {
			if w.hook != nil {
				w.hook()
			}
		}}
		s.Chain(ch)
		if rapid.IntRange(0, 60).Draw(t, "crowd") == 0 {
			// many others beside it
			for i := rapid.SampledFrom([]int{20, 70, 150, 300}).Draw(t, "others"); i > 0; i-- {
				o := chained{new(int64), monkit.NewSeriesKey(fmt.Sprint("other", i)).WithTags(tags...), func() {}}
				s.Chain(o)
				w.sources = append(w.sources, &source{scope: s, desc: fmt.Sprint(src.desc, " and ", i), want: direct(o, scopeName), poke: func(*rapid.T) { *o.n++ }})
			}
		}
		plain := ch
		plain.hook = nil
		src.want = direct(plain, scopeName)
		src.poke = func(*rapid.T) { *n++ }
		if rapid.IntRange(0, 4).Draw(t, "twice") == 0 {
			s.Chain(ch)
			w.sources = append(w.sources, &source{scope: s, desc: src.desc + " again", want: src.want, poke: src.poke})
		}
	}
	c.Logf("%s", src.desc)
	w.sources = append(w.sources, src)
	return src
}

func (w *world) gauge(src *source, s *monkit.Scope, name string) {
	val := new(float64)
	w.n++
	*val = float64(w.n)
	s.Gauge(name, func() float64 {
		if w.hook != nil {
			w.hook()
		}
		return *val
	})
	src.want = func() []stat {
		return []stat{{keyText(monkit.NewSeriesKey(name).WithTag("scope", s.Name())), "value", *val, s.Name()}}
	}
	src.poke = func(t *rapid.T) { *val = rapid.SampledFrom([]float64{1, 2, math.NaN(), math.Inf(1), -1}).Draw(t, "v") }
}

func same(a, b float64) bool { return a == b || math.IsNaN(a) && math.IsNaN(b) }

// verify compares an export with what the sources say. Extra statistics are
// tolerated only for keys accepted by extra.
func verify(t *rapid.T, got []stat, want []stat, extra func(s stat) bool) {
	type id struct{ key, field string }
	index := map[id][]float64{}
	for _, s := range got {
		index[id{s.key, s.field}] = append(index[id{s.key, s.field}], s.val)
	}
	need := map[id][]float64{}
	for _, s := range want {
		need[id{s.key, s.field}] = append(need[id{s.key, s.field}], s.val)
	}
	for k, vals := range need {
		g := index[k]
		if len(g) != len(vals) {
			t.Fatalf("%+v reported %d times, want %d", k, len(g), len(vals))
		}
		if k.field == "rate" { // moves with time
			continue
		}
		sort.Float64s(g)
		sort.Float64s(vals)
		for i := range g {
			if !same(g[i], vals[i]) {
				t.Fatalf("%+v reported as %v, want %v", k, g[i], vals[i])
			}
		}
	}
	last := ""
	for _, s := range got {
		if _, ok := need[id{s.key, s.field}]; !ok && (extra == nil || !extra(s)) {
			t.Fatalf("%v reported, which nothing has", s)
		}
		if s.scope < last {
			t.Fatalf("scope %q reported after %q", s.scope, last)
		}
		last = s.scope
	}
}

func (w *world) want() (out []stat) {
	for _, s := range w.sources {
		out = append(out, s.want()...)
	}
	return out
}

var scopeNames = []string{"a", "b", "ab", "a b", "", "Z", "é", "a,b=c"}

func TestModel(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		w := newWorld()
		exports := 0
		extra := func(s stat) bool { return strings.Contains(s.key, "made-inside") }
		for n := rapid.IntRange(1, 22).Draw(t, "n"); n > 0; n-- {
			switch op := rapid.SampledFrom([]string{"new", "new", "new", "poke", "poke", "poke", "export", "scope", "nested", "collect"}).Draw(t, "op"); op {
			case "new":
				scope := rapid.SampledFrom(scopeNames).Draw(t, "scope")
				if rapid.IntRange(0, 3).Draw(t, "another") == 0 {
					scope = kit.Related(t, "scope", scopeNames...)
				}
				w.register(t, c, scope, rapid.SampledFrom(kinds).Draw(t, "kind"))
			case "poke":
				if len(w.sources) > 0 {
					s := w.sources[rapid.IntRange(0, len(w.sources)-1).Draw(t, "which")]
					c.Logf("poke %s", s.desc)
					s.poke(t)
				}
			case "export":
				c.Logf("export")
				// twice: exporting changes nothing
				verify(t, collect(w.reg, nil), w.want(), extra)
				verify(t, collect(w.reg, nil), w.want(), extra)
				if rapid.Bool().Draw(t, "as the default") {
					w.asDefault(t, extra)
				}
				w.funcs(t, w.reg.Funcs, w.reg.Scopes)
				exports++
			case "scope":
				c.Logf("export scopes")
				w.reg.Scopes(func(s *monkit.Scope) {
					var want []stat
					for _, src := range w.sources {
						if src.scope == s {
							want = append(want, src.want()...)
						}
					}
					verify(t, collect(s, nil), want, extra)
				})
			case "collect":
				got := monkit.Collect(w.reg)
				want := map[string]float64{}
				w.reg.Stats(func(k monkit.SeriesKey, f string, v float64) { want[k.WithField(f)] = v })
				for k, v := range want {
					if g, ok := got[k]; !ok || !same(g, v) && !strings.HasSuffix(k, " rate") {
						t.Fatalf("collected %q=%v %v, want %v", k, ok, g, v)
					}
				}
				if len(got) != len(want) {
					t.Fatalf("collected %d, want %d", len(got), len(want))
				}
			case "nested":
				// the callbacks use the registry themselves
				acts := rapid.SliceOfN(rapid.IntRange(0, 9), 1, 4).Draw(t, "acts")
				where := rapid.IntRange(0, 3).Draw(t, "where")
				c.Logf("re-entrant %v at %d", acts, where)
				want := w.want()
				calls, depth := 0, 0
				var starts []func(*error)
				each := func() {
					calls++
					if depth > 1 || calls > 60 {
						return
					}
					depth++
					defer func() { depth-- }()
					inside(w, acts[calls%len(acts)], calls, &starts)
				}
				switch where {
				case 0:
					verify(t, collect(w.reg, each), want, extra)
				case 1:
					w.hook = each
					verify(t, collect(w.reg, nil), want, extra)
					w.hook = nil
				case 2:
					w.reg.Scopes(func(s *monkit.Scope) {
						each()
						s.Funcs(func(*monkit.Func) { each() })
					})
					w.reg.Funcs(func(*monkit.Func) { each() })
				default:
					w.reg.RootSpans(func(s *monkit.Span) {
						each()
						s.Children(func(*monkit.Span) { each() })
					})
					w.reg.AllSpans(func(*monkit.Span) { each() })
				}
				for _, exit := range starts {
					exit(nil)
				}
				verify(t, collect(w.reg, nil), w.want(), extra)
				c.Label("re-entrant")
				exports++
			}
		}
		verify(t, collect(w.reg, nil), w.want(), extra)
		c.NonTrivialIf(exports > 0 && len(w.sources) > 2)
	})
}

// asDefault exports the registry as the default one.
func (w *world) asDefault(t *rapid.T, extra func(stat) bool) {
	def := monkit.Default
	defer func() { monkit.Default = def }()
	monkit.Default = w.reg
	verify(t, collect(monkit.StatSourceFunc(monkit.Stats), nil), w.want(), extra)
	w.funcs(t, monkit.Funcs, monkit.Scopes)
}

// funcs checks that the enumeration of all functions is that of the functions
// of the scopes.
func (w *world) funcs(t *rapid.T, all func(func(*monkit.Func)), scopes func(func(*monkit.Scope))) {
	var want, got []*monkit.Func
	names := map[string]bool{}
	scopes(func(s *monkit.Scope) {
		names[s.Name()] = true
		s.Funcs(func(f *monkit.Func) { want = append(want, f) })
	})
	all(func(f *monkit.Func) { got = append(got, f) })
	if len(got) != len(want) {
		t.Fatalf("%d functions enumerated, want %d", len(got), len(want))
	}
	seen := map[*monkit.Func]bool{}
	for _, f := range got {
		if seen[f] {
			t.Fatalf("function %s enumerated twice", f.FullName())
		}
		seen[f] = true
	}
	for _, f := range want {
		if !seen[f] {
			t.Fatalf("function %s not enumerated", f.FullName())
		}
	}
	for _, s := range w.sources {
		if !names[s.scope.Name()] {
			t.Fatalf("scope %q not enumerated", s.scope.Name())
		}
		if s.fn != nil && !seen[s.fn] {
			t.Fatalf("function %s not enumerated", s.fn.FullName())
		}
	}
}

// inside is what a callback does.
func inside(w *world, act, n int, starts *[]func(*error)) {
	name := fmt.Sprint("made-inside", act, "-", n)
	s := w.reg.ScopeNamed(scopeNames[n%3])
	ctx := context.Background()
	switch act {
	case 0:
		s.Counter(name).Inc(1)
	case 1:
		s.FuncNamed(name).Task(&ctx)(nil)
	case 2:
		*starts = append(*starts, s.FuncNamed(name).Task(&ctx))
	case 3:
		collect(w.reg, nil)
	case 4:
		w.reg.ScopeNamed("made-inside" + name)
	case 5:
		s.Gauge(name, func() float64 { return 1 })
	case 6:
		s.Chain(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) { cb(monkit.NewSeriesKey("made-inside"), "x", 1) }))
	case 7:
		w.reg.AllSpans(func(*monkit.Span) {})
		w.reg.Funcs(func(f *monkit.Func) { collect(f, nil) })
	case 8:
		cancel := w.reg.ObserveTraces(func(*monkit.Trace) { collect(w.reg, nil) })
		s.FuncNamed(name).Task(&ctx)(nil)
		cancel()
	default:
		exit := s.FuncNamed(name).Task(&ctx)
		inner := ctx
		exit2 := s.FuncNamed(name + "b").Task(&inner)
		monkit.SpanFromCtx(ctx).Children(func(sp *monkit.Span) { sp.Func().Stats(func(monkit.SeriesKey, string, float64) {}) })
		exit2(nil)
		exit(nil)
	}
}

// concurrent exports and registrations
func concurrent(t *rapid.T, c *kit.Case, now func() int64, rounds int, run func([]func())) {
	type step struct {
		kind, scope string
		n           int
	}
	nt := rapid.IntRange(2, 3).Draw(t, "threads")
	progs := make([][]step, nt)
	num := 0
	for i := range progs {
		for n := rapid.IntRange(1, 4).Draw(t, "len"); n > 0; n-- {
			num++
			st := step{rapid.SampledFrom([]string{"new", "new", "gauge", "chain", "inc", "export", "export", "func"}).Draw(t, "kind"), rapid.SampledFrom([]string{"a", "b", "c"}).Draw(t, "scope"), num}
			c.Logf("T%d %+v", i, st)
			progs[i] = append(progs[i], st)
		}
	}
	for r := 0; r < rounds; r++ {
		reg := monkit.NewRegistry()
		shared := reg.ScopeNamed("b").Counter("shared")
		var mu sync.Mutex
		tick := func() int64 { mu.Lock(); defer mu.Unlock(); return now() }
		type life struct{ inv, res int64 }
		made := map[string]life{} // key text to registration
		var began, done atomic.Int64
		type export struct {
			inv, res int64
			got      []stat
			lo, hi   int64
		}
		var exports []export
		var bodies []func()
		note := func(key string, inv int64) {
			res := tick()
			mu.Lock()
			made[key] = life{inv, res}
			mu.Unlock()
		}
		for i := range progs {
			i := i
			bodies = append(bodies, func() {
				for _, st := range progs[i] {
					s := reg.ScopeNamed(st.scope)
					key := keyText(monkit.NewSeriesKey(fmt.Sprint("m", st.n)).WithTag("scope", st.scope))
					inv := tick()
					switch st.kind {
					case "new":
						s.BoolVal(fmt.Sprint("m", st.n))
						note(key, inv)
					case "gauge":
						s.Gauge(fmt.Sprint("m", st.n), func() float64 { return 1 })
						note(key, inv)
					case "chain":
						k := monkit.NewSeriesKey(fmt.Sprint("m", st.n))
						s.Chain(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) { cb(k, "recent", 0) }))
						note(key, inv)
					case "func":
						ctx := context.Background()
						s.FuncNamed(fmt.Sprint("m", st.n)).Task(&ctx)(nil)
						note(keyText(monkit.NewSeriesKey("function").WithTag("name", fmt.Sprint("m", st.n)).WithTag("scope", st.scope)), inv)
					case "inc":
						began.Add(1)
						shared.Inc(1)
						done.Add(1)
					case "export":
						lo := done.Load()
						got := collect(reg, nil)
						e := export{inv, 0, got, lo, began.Load()}
						e.res = tick()
						mu.Lock()
						exports = append(exports, e)
						mu.Unlock()
					}
				}
			})
		}
		run(bodies)
		e := export{inv: now(), got: collect(reg, nil), lo: done.Load(), hi: done.Load()}
		e.res = now()
		for _, e := range append(exports, e) {
			count := map[string]int{}
			last := ""
			for _, s := range e.got {
				switch {
				case strings.HasPrefix(s.key, `"shared"`):
					count[s.key+s.field]++
					if s.field == "value" && (s.val < float64(e.lo) || s.val > float64(e.hi)) {
						t.Fatalf("counter exported as %v, want between %d and %d", s.val, e.lo, e.hi)
					}
				default:
					count[s.key+" "+s.field]++
				}
				if s.scope < last {
					t.Fatalf("scope %q after %q", s.scope, last)
				}
				last = s.scope
			}
			sharedKey := keyText(monkit.NewSeriesKey("shared").WithTag("scope", "b"))
			if count[sharedKey+"value"] != 1 || count[sharedKey+"high"] != 1 || count[sharedKey+"low"] != 1 {
				t.Fatalf("counter exported %v", count)
			}
			for k, l := range made {
				n := 0
				for _, f := range []string{"recent", "value", "total"} {
					n += count[k+" "+f]
				}
				if l.res < e.inv && n != 1 || n > 1 || l.inv > e.res && n != 0 {
					t.Fatalf("%s exported %d times", k, n)
				}
			}
		}
	}
}

func TestSched(t *testing.T) {
	kit.NeedSched(t, func() { monkit.NewRegistry().ScopeNamed("a").Counter("b") })
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		sched := kit.Schedule(t)
		c.Logf("%v", sched)
		var clk int64
		concurrent(t, c, func() int64 { clk++; return clk }, 1, func(bodies []func()) {
			res := kit.Sched(t, c, sched, bodies...)
			c.NonTrivialIf(res.Switches > len(bodies))
		})
	})
}

func TestRace(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		concurrent(t, c, kit.Clock, rapid.IntRange(1, 6).Draw(t, "rounds"), func(bodies []func()) {
			kit.Parallel(len(bodies), func(i int) { bodies[i]() })
		})
		c.NonTrivial()
	})
}
