// C17: transformers see the whole stream and deltas are exact.
package c17

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"
	"testing"

	monkit "github.com/spacemonkeygo/monkit/v3"
	"pgregory.net/rapid"

	"verif.local/harness/kit"
)

func TestMain(m *testing.M) { kit.Main(m) }

func keyText(k monkit.SeriesKey) string {
	var tags []string
	for key, val := range k.Tags.All() {
		tags = append(tags, fmt.Sprintf("%q=%q", key, val))
	}
	sort.Strings(tags)
	return fmt.Sprintf("%q%v", k.Measurement, tags)
}

// stat is one statistic.
type stat struct {
	key   monkit.SeriesKey
	field string
	val   float64
}

func (s stat) String() string { return fmt.Sprintf("%s %q=%v", keyText(s.key), s.field, s.val) }

// xform is a transformer and its reference: what becomes of one statistic.
type xform struct {
	real monkit.CallbackTransformer
	ref  func(s stat) []stat
	name string
}

type callback = func(monkit.SeriesKey, string, float64)

// stateless makes a transformer from what it does to a single statistic.
func stateless(name string, ref func(s stat) []stat) *xform {
	return &xform{monkit.CallbackTransformerFunc(func(cb func(monkit.SeriesKey, string, float64)) func(monkit.SeriesKey, string, float64) {
		return func(key monkit.SeriesKey, field string, val float64) {
			for _, s := range ref(stat{key, field, val}) {
				cb(s.key, s.field, s.val)
			}
		}
	}), ref, name}
}

// delta is the real delta transformer with a reference.
func delta(name string) *xform {
	last := map[string]float64{}
	return &xform{monkit.NewDeltaTransformer(), func(s stat) []stat {
		out := []stat{s}
		if s.field == "total" {
			k := keyText(s.key)
			if before, ok := last[k]; ok {
				out = append(out, stat{s.key, "delta", s.val - before})
			}
			last[k] = s.val
		}
		return out
	}, name}
}

func drawXform(t *rapid.T, n int) *xform {
	switch rapid.IntRange(0, 6).Draw(t, "xform") {
	case 0:
		return stateless("drop x", func(s stat) []stat {
			if s.field == "x" {
				return nil
			}
			return []stat{s}
		})
	case 1:
		return stateless("add one", func(s stat) []stat { s.val++; return []stat{s} })
	case 2:
		return stateless("double", func(s stat) []stat { s.val *= 2; return []stat{s} })
	case 3:
		tag := fmt.Sprint("t", n%3)
		return stateless("tag "+tag, func(s stat) []stat {
			v := s.key.Tags.Get(tag)
			s.key = s.key.WithTag(tag, v+fmt.Sprint(n))
			return []stat{s}
		})
	case 4:
		return stateless("copy to x", func(s stat) []stat {
			if s.field != "y" {
				return []stat{s}
			}
			return []stat{s, {s.key, "x", -s.val}}
		})
	default:
		return delta("delta")
	}
}

// apply is the reference: the first given is nearest to the consumer.
func apply(in []stat, xs []*xform) []stat {
	for i := len(xs) - 1; i >= 0; i-- {
		var out []stat
		for _, s := range in {
			out = append(out, xs[i].ref(s)...)
		}
		in = out
	}
	return in
}

func compare(t *rapid.T, what string, got, want []stat) {
	// deltas may come anywhere, everything else in order
	split := func(in []stat) (rest, deltas []string) {
		for _, s := range in {
			if s.field == "delta" {
				deltas = append(deltas, s.String())
			} else {
				rest = append(rest, s.String())
			}
		}
		sort.Strings(deltas)
		return rest, deltas
	}
	g, gd := split(got)
	w, wd := split(want)
	if strings.Join(g, "\n") != strings.Join(w, "\n") {
		t.Fatalf("%s: got\n %s\nwant\n %s", what, strings.Join(g, "\n "), strings.Join(w, "\n "))
	}
	if strings.Join(gd, "\n") != strings.Join(wd, "\n") {
		t.Fatalf("%s: got deltas\n %s\nwant\n %s", what, strings.Join(gd, "\n "), strings.Join(wd, "\n "))
	}
}

func collect(s monkit.StatSource) (out []stat) {
	s.Stats(func(key monkit.SeriesKey, field string, val float64) { out = append(out, stat{key, field, val}) })
	return out
}

func drawKey(t *rapid.T) monkit.SeriesKey {
	if rapid.IntRange(0, 2).Draw(t, "close") == 0 {
		// series that are easily taken for each other
		return rapid.SampledFrom([]monkit.SeriesKey{
			monkit.NewSeriesKey("a"),
			monkit.NewSeriesKey("ab=c"),
			monkit.NewSeriesKey("a").WithTag("b", "c"),
			monkit.NewSeriesKey("a,b=c"),
			monkit.NewSeriesKey("am").WithTag("x", "1"),
			monkit.NewSeriesKey("a").WithTag("mx", "1"),
			monkit.NewSeriesKey("").WithTag("amx", "1"),
			monkit.NewSeriesKey("a").WithTag("x", "1").WithTag("y", "2"),
			monkit.NewSeriesKey("a").WithTag("x", "1,y=2"),
			monkit.NewSeriesKey("a,x=1").WithTag("y", "2"),
			monkit.NewSeriesKey("a").WithTag("x", "2").WithTag("y", "1"),
			monkit.NewSeriesKey("a").WithTag("x", "12").WithTag("y", ""),
			monkit.NewSeriesKey("A"),
			monkit.NewSeriesKey("a total"),
		}).Draw(t, "key")
	}
	str := func(label string) string {
		return rapid.SampledFrom([]string{"a", "b", "a,b", "a=b", "a b", "", "é", "kind", "name", "scope", "error_name", "function", "success", "total", "delta"}).Draw(t, label)
	}
	k := monkit.NewSeriesKey(str("measurement"))
	for n := rapid.IntRange(0, 2).Draw(t, "tags"); n > 0; n-- {
		k = k.WithTag(str("tag"), str("val"))
	}
	return k
}

func drawVal(t *rapid.T) float64 {
	v := float64(rapid.IntRange(-9, 99).Draw(t, "val"))
	switch rapid.IntRange(0, 9).Draw(t, "special") {
	case 0:
		return v / 8
	case 1:
		return v * (1 << 40)
	case 2:
		return v / (1 << 40)
	case 3:
		return rapid.SampledFrom([]float64{math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, 0}).Draw(t, "which")
	}
	return v
}

// TestModel: a transformed registry or source against the reference.
func TestModel(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		reg := monkit.NewRegistry()
		scope := reg.ScopeNamed("s")
		// one chained source that emits a stream which changes
		var keys []monkit.SeriesKey
		for n := rapid.IntRange(1, 4).Draw(t, "keys"); n > 0; n-- {
			keys = append(keys, drawKey(t))
		}
		for n := kit.Some(t, "more keys", 0, 0); n > 0; n-- {
			keys = append(keys, monkit.NewSeriesKey("series").WithTag("n", fmt.Sprint(n)))
		}
		var stream []stat
		src := monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
			for _, s := range stream {
				cb(s.key, s.field, s.val)
			}
		})
		scope.Chain(src)
		scoped := func() (out []stat) {
			for _, s := range stream {
				s.key = s.key.WithTag("scope", "s")
				out = append(out, s)
			}
			return out
		}
		type view struct {
			name string
			real monkit.StatSource
			reg  *monkit.Registry
			xs   []*xform
			in   func() []stat
		}
		views := []*view{{"registry", reg, reg, nil, scoped}, {"source", src, nil, nil, func() []stat { return stream }}}
		nx, deltas, exports := 0, 0, 0
		for n := rapid.IntRange(2, 24).Draw(t, "n"); n > 0; n-- {
			v := views[rapid.IntRange(0, len(views)-1).Draw(t, "view")]
			if rapid.IntRange(0, 2).Draw(t, "deep") == 0 {
				// views of views of views
				for _, w := range views {
					if len(w.xs) > len(v.xs) {
						v = w
					}
				}
			}
			switch rapid.SampledFrom([]string{"view", "view", "change", "change", "export", "export", "export"}).Draw(t, "op") {
			case "view":
				var xs []*xform
				var real []monkit.CallbackTransformer
				k := kit.Some(t, "many", 0, 3)
				if len(keys) > 8 && k > 4 {
					k = 4
				}
				for ; k > 0; k-- {
					nx++
					x := drawXform(t, nx)
					if x.name == "delta" {
						deltas++
					}
					xs = append(xs, x)
					real = append(real, x.real)
				}
				nv := &view{name: v.name + "+", in: v.in}
				for _, x := range xs {
					nv.name += x.name + ","
				}
				if v.reg != nil && rapid.IntRange(0, 3).Draw(t, "as a source") > 0 {
					nv.reg = v.reg.WithTransformers(real...)
					nv.real = nv.reg
					// the additional ones are applied after those of the
					// registry: further from the consumer
					nv.xs = append(append([]*xform(nil), v.xs...), xs...)
				} else {
					base := v
					nv.real = monkit.TransformStatSource(base.real, real...)
					// outermost ones are applied last
					nv.xs = append(append([]*xform(nil), xs...), base.xs...)
				}
				// what was passed in may be reused
				for i := range real {
					real[i] = monkit.CallbackTransformerFunc(func(func(monkit.SeriesKey, string, float64)) func(monkit.SeriesKey, string, float64) {
						return func(monkit.SeriesKey, string, float64) { panic("not a transformer any more") }
					})
				}
				if nv.reg == nil {
					// a source keeps the list it was given: give it its own
					var again []monkit.CallbackTransformer
					for _, x := range xs {
						again = append(again, x.real)
					}
					nv.real = monkit.TransformStatSource(v.real, again...)
				}
				c.Logf("view %s", nv.name)
				views = append(views, nv)
			case "change":
				stream = nil
				for k := rapid.IntRange(0, 6).Draw(t, "stats"); k > 0; k-- {
					s := stat{rapid.SampledFrom(keys).Draw(t, "key"), rapid.SampledFrom([]string{"total", "total", "x", "y", "totals", "Total"}).Draw(t, "field"), drawVal(t)}
					stream = append(stream, s)
				}
				if len(keys) > 4 {
					for j, k := range keys {
						stream = append(stream, stat{k, "total", float64(n + j)})
					}
				}
				c.Logf("stream %v", stream)
			case "export":
				c.Logf("export %s", v.name)
				compare(t, v.name, collect(v.real), apply(v.in(), v.xs))
				exports++
			}
		}
		// no view was changed by the making of others
		for _, v := range views {
			compare(t, v.name, collect(v.real), apply(v.in(), v.xs))
		}
		// the original is unaffected
		compare(t, "original", collect(reg), scoped())
		c.LabelIf(deltas > 0, "delta")
		c.NonTrivialIf(deltas > 0 && exports > 1)
	})
}

// TestModelShared: one delta transformer used through several views sees one
// history.
func TestModelMetrics(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		reg := monkit.NewRegistry()
		d := monkit.NewDeltaTransformer()
		view := reg.WithTransformers(d)
		other := reg.WithTransformers(monkit.NewDeltaTransformer())
		first, sum, last := map[string]float64{}, map[string]float64{}, map[string]float64{}
		nexp := 0
		for n := rapid.IntRange(2, 12).Draw(t, "n"); n > 0; n-- {
			name := kit.TextNo(t, "name", "\\")
			switch rapid.IntRange(0, 4).Draw(t, "op") {
			case 0, 1:
				k := rapid.IntRange(0, 9).Draw(t, "k")
				c.Logf("mark %q %d", name, k)
				reg.ScopeNamed("s").Meter(name).Mark(k)
			case 2:
				c.Logf("call %q", name)
				reg.ScopeNamed("s").FuncNamed(name).Task(nil)(nil)
			case 3:
				collect(other)
			default:
				nexp++
				c.Logf("export")
				deltas := map[string]int{}
				totals := map[string]int{}
				for _, s := range collect(view) {
					k := keyText(s.key)
					switch s.field {
					case "total":
						if _, ok := first[k]; !ok {
							first[k] = s.val
						} else {
							totals[k]++
						}
						last[k] = s.val
					case "delta":
						deltas[k]++
						sum[k] += s.val
					}
				}
				for k := range last {
					if deltas[k] != totals[k] {
						t.Fatalf("%s: %d deltas, want %d", k, deltas[k], totals[k])
					}
					if first[k]+sum[k] != last[k] {
						t.Fatalf("%s: first %v and deltas %v, but total %v", k, first[k], sum[k], last[k])
					}
				}
			}
		}
		c.NonTrivialIf(nexp > 1 && len(last) > 1)
	})
}

// concurrent use of one delta transformer: the totals form one chain
func concurrent(t *rapid.T, c *kit.Case, rounds int, run func([]func())) {
	type emit struct{ series, n int }
	nt := rapid.IntRange(2, 3).Draw(t, "threads")
	progs := make([][]emit, nt)
	num := 0
	for i := range progs {
		for n := rapid.IntRange(1, 4).Draw(t, "len"); n > 0; n-- {
			num++
			e := emit{rapid.IntRange(0, 1).Draw(t, "series"), 1 << uint(num)}
			c.Logf("T%d %+v", i, e)
			progs[i] = append(progs[i], e)
		}
	}
	keys := []monkit.SeriesKey{monkit.NewSeriesKey("a"), monkit.NewSeriesKey("a").WithTag("k", "v")}
	for r := 0; r < rounds; r++ {
		d := monkit.NewDeltaTransformer()
		var bodies []func()
		type edge struct{ val, delta float64 }
		var mu sync.Mutex
		edges := map[int][]edge{}
		starts := map[int][]float64{}
		bad := ""
		for i := range progs {
			i := i
			bodies = append(bodies, func() {
				for _, e := range progs[i] {
					var total, delta float64
					nt, nd := 0, 0
					d.Transform(func(k monkit.SeriesKey, field string, val float64) {
						switch {
						case keyText(k) != keyText(keys[e.series]):
						case field == "total":
							total, nt = val, nt+1
						case field == "delta":
							delta, nd = val, nd+1
						}
					})(keys[e.series], "total", float64(e.n))
					mu.Lock()
					if nt != 1 || nd > 1 || total != float64(e.n) {
						bad = fmt.Sprintf("%+v: %d totals %v, %d deltas", e, nt, total, nd)
					}
					if nd == 1 {
						edges[e.series] = append(edges[e.series], edge{total, delta})
					} else {
						starts[e.series] = append(starts[e.series], total)
					}
					mu.Unlock()
				}
			})
		}
		run(bodies)
		if bad != "" {
			t.Fatalf("%s", bad)
		}
		for s := range keys {
			if len(edges[s])+len(starts[s]) == 0 {
				continue
			}
			if len(starts[s]) != 1 {
				t.Fatalf("series %d: %d totals without a delta", s, len(starts[s]))
			}
			next := map[float64]float64{}
			for _, e := range edges[s] {
				if _, ok := next[e.val-e.delta]; ok {
					t.Fatalf("series %d: two deltas from the same total", s)
				}
				next[e.val-e.delta] = e.val
			}
			at, n := starts[s][0], 0
			for {
				to, ok := next[at]
				if !ok {
					break
				}
				at = to
				n++
				if n > len(edges[s]) {
					break
				}
			}
			if n != len(edges[s]) {
				t.Fatalf("series %d: the deltas do not add up: %v from %v", s, edges[s], starts[s])
			}
		}
	}
}

func TestSched(t *testing.T) {
	kit.NeedSched(t, func() { monkit.NewRegistry().ScopeNamed("a").Counter("b") })
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		sched := kit.Schedule(t)
		c.Logf("%v", sched)
		concurrent(t, c, 1, func(bodies []func()) {
			res := kit.Sched(t, c, sched, bodies...)
			c.NonTrivialIf(res.Switches > len(bodies))
		})
	})
}

func TestRace(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		concurrent(t, c, rapid.IntRange(1, 8).Draw(t, "rounds"), func(bodies []func()) {
			kit.Parallel(len(bodies), func(i int) { bodies[i]() })
		})
		c.NonTrivial()
	})
}
