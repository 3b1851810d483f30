// C29: value metrics lose and invent no observation.
package c29

import (
	"fmt"
	"math"
	"strings"
	"testing"
	"time"

	monkit "github.com/spacemonkeygo/monkit/v3"
	"pgregory.net/rapid"

	"verif.local/harness/kit"
)

func TestMain(m *testing.M) {
	// start the meters' ticker before any controlled schedule
	monkit.NewMeter(monkit.NewSeriesKey("m"))
	kit.Main(m)
}

// state is the reference metric: what the observations so far amount to.
type state struct {
	count, sum, min, max, recent float64
	trues, falses                float64
}

func (s state) observe(v float64) state {
	if s.count == 0 || v < s.min {
		s.min = v
	}
	if s.count == 0 || v > s.max {
		s.max = v
	}
	s.count++
	s.sum += v
	s.recent = v
	if v != 0 {
		s.trues++
	} else {
		s.falses++
	}
	return s
}

// metric is one real metric of some kind. The observations are numbers, each
// kind makes of them what it can.
type metric struct {
	kind    string
	key     string
	observe func(v float64)
	src     monkit.StatSource
	quant   func(q float64) float64
	// conv is what a number is exported as
	conv func(float64) float64
}

type point struct {
	X     float64
	Y     int
	Z     *point
	Label string
}

var kinds = []string{"int", "float", "duration", "bool", "struct", "event", "timer"}

// newMetric makes a metric or, when name is used already, another handle of
// the same one.
func newMetric(kind, name string, scope *monkit.Scope, form int, tags []monkit.SeriesTag) *metric {
	m := &metric{kind: kind, conv: func(x float64) float64 { return x }}
	m.key = monkit.NewSeriesKey(name).WithTags(tags...).String()
	raw := monkit.NewSeriesKey(name).WithTags(tags...)
	if form >= 2 && len(tags) > 0 {
		form = 1 // formatted variants take no tags
	}
	switch kind {
	case "int":
		var v *monkit.IntVal
		switch form {
		case 0:
			v = monkit.NewIntVal(raw)
		case 1:
			v = scope.IntVal(name, tags...)
		case 2:
			v = scope.IntValf("%s%s", name[:1], name[1:])
		default: // only escapes to format
			v = scope.IntValf(strings.ReplaceAll(name, "%", "%%"))
		}
		m.observe = func(x float64) { v.Observe(int64(x)) }
		m.quant = func(q float64) float64 { return float64(v.Quantile(q)) }
		m.src = v
	case "float":
		var v *monkit.FloatVal
		switch form {
		case 0:
			v = monkit.NewFloatVal(raw)
		case 1:
			v = scope.FloatVal(name, tags...)
		case 2:
			v = scope.FloatValf("%v", name)
		default: // only escapes to format
			v = scope.FloatValf(strings.ReplaceAll(name, "%", "%%"))
		}
		m.conv = func(x float64) float64 { return x / 8 }
		m.observe = func(x float64) { v.Observe(x / 8) }
		m.quant = func(q float64) float64 { return v.Quantile(q) }
		m.src = v
	case "duration":
		var v *monkit.DurationVal
		if form == 0 {
			v = monkit.NewDurationVal(raw)
		} else {
			v = scope.DurationVal(name, tags...)
		}
		// exact in the single precision of the sample
		m.conv = func(x float64) float64 { return (time.Duration(x) * 1024).Seconds() }
		m.observe = func(x float64) { v.Observe(time.Duration(x) * 1024) }
		m.quant = func(q float64) float64 { return v.Quantile(q).Seconds() }
		m.src = v
	case "bool":
		var v *monkit.BoolVal
		switch form {
		case 0:
			v = monkit.NewBoolVal(raw)
		case 1:
			v = scope.BoolVal(name, tags...)
		case 2:
			v = scope.BoolValf("%[2]s%[1]s", "", name)
		default: // only escapes to format
			v = scope.BoolValf(strings.ReplaceAll(name, "%", "%%"))
		}
		m.observe = func(x float64) { v.Observe(x != 0) }
		m.src = v
	case "struct":
		var v *monkit.StructVal
		if form == 0 {
			v = monkit.NewStructVal(raw)
		} else {
			v = scope.StructVal(name, tags...)
		}
		m.observe = func(x float64) {
			if int(x)%2 == 0 {
				v.Observe(point{X: x, Y: int(x), Z: &point{X: x}})
			} else {
				v.Observe(&point{X: x, Y: int(x), Z: &point{X: x}})
			}
		}
		m.src = v
	case "event":
		// the meter itself is only used to export
		if form == 0 {
			v := monkit.NewMeter(raw)
			m.observe = func(float64) { v.Mark(1) }
			m.src = v
		} else {
			m.observe = func(float64) { scope.Event(name, tags...) }
			m.src = scope.Meter(name, tags...)
		}
	case "timer":
		var v *monkit.Timer
		if form == 0 {
			v = monkit.NewTimer(raw)
		} else {
			v = scope.Timer(name, tags...)
		}
		m.observe = func(x float64) {
			r := v.Start()
			for ; x >= 0; x-- { // a run counts once, however often it is stopped
				r.Stop()
			}
		}
		m.src = v
	}
	return m
}

// export reads what the metric says.
func (m *metric) export() (map[string]float64, string) {
	got := map[string]float64{}
	problem := ""
	m.src.Stats(func(key monkit.SeriesKey, field string, val float64) {
		if key.String() != m.key {
			problem = fmt.Sprintf("key %q, want %q", key.String(), m.key)
		}
		if _, dup := got[field]; dup {
			problem = fmt.Sprintf("field %q twice", field)
		}
		got[field] = val
	})
	return got, problem
}

var distFields = []string{"count", "max", "min", "r10", "r50", "r90", "r99", "ravg", "recent", "rmax", "rmin", "sum"}

// explained says whether the export is that of the state. Metrics made of
// several independent numbers are compared one of them at a time: which.
func (m *metric) explained(s state, got map[string]float64, which string) bool {
	is := func(field string, want float64) bool { v, ok := got[field]; return ok && v == want }
	switch m.kind {
	case "bool":
		if len(got) != 4 {
			return false
		}
		switch which {
		case "true":
			return is("true", s.trues)
		case "false":
			return is("false", s.falses)
		case "recent":
			if s.count == 0 || s.recent == 0 {
				return is("recent", 0)
			}
			return is("recent", 1)
		case "disposition":
			return got["disposition"] == got["true"]-got["false"]
		}
		return is("true", s.trues) && is("false", s.falses) && is("disposition", s.trues-s.falses) && m.explained(s, got, "recent")
	case "struct":
		if s.count == 0 {
			return len(got) == 0
		}
		return len(got) == 4 && is("X", s.recent) && is("Y", s.recent) && is("Z.X", s.recent) && is("Z.Y", 0)
	case "event":
		return len(got) == 2 && is("total", s.count) && got["rate"] >= 0
	case "timer":
		if !is("count", s.count) {
			return false
		}
		return s.count == 0 && len(got) == 1 || s.count > 0 && len(got) == len(distFields) && got["min"] >= 0 && got["min"] <= got["recent"] && got["recent"] <= got["max"] && got["sum"] >= got["max"]
	}
	if s.count == 0 {
		return len(got) == 1 && is("count", 0)
	}
	if len(got) != len(distFields) || !is("count", s.count) || !is("sum", m.conv(s.sum)) || !is("min", m.conv(s.min)) || !is("max", m.conv(s.max)) || !is("recent", m.conv(s.recent)) {
		return false
	}
	for _, f := range distFields {
		if f[0] == 'r' && f != "recent" && !(got[f] >= m.conv(s.min) && got[f] <= m.conv(s.max)) {
			return false
		}
	}
	// all values are still in the sample
	return s.count > monkit.ReservoirSize || is("rmin", m.conv(s.min)) && is("rmax", m.conv(s.max))
}

func (m *metric) quantile(s state, q, got float64) bool {
	if s.count == 0 {
		return got == 0
	}
	if s.count <= monkit.ReservoirSize && (q == 0 && got != m.conv(s.min) || q == 1 && got != m.conv(s.max)) {
		return false
	}
	return got >= m.conv(s.min) && got <= m.conv(s.max)
}

func drawValue(t *rapid.T, kind string) float64 {
	switch kind {
	case "bool":
		return float64(rapid.IntRange(0, 1).Draw(t, "value"))
	case "timer":
		return float64(rapid.IntRange(0, 2).Draw(t, "value"))
	case "struct":
		return float64(rapid.IntRange(0, 100).Draw(t, "value"))
	}
	if rapid.IntRange(0, 3).Draw(t, "size") == 0 {
		return float64(rapid.IntRange(-1<<20, 1<<20).Draw(t, "value"))
	}
	return float64(rapid.IntRange(-5, 5).Draw(t, "value"))
}

func drawTags(t *rapid.T) (tags []monkit.SeriesTag) {
	for i := rapid.IntRange(0, 2).Draw(t, "tags"); i > 0; i-- {
		tags = append(tags, monkit.NewSeriesTag(fmt.Sprint("k", i), kit.Plain(t, "tag")))
	}
	return tags
}

func TestModel(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		scope := monkit.NewRegistry().ScopeNamed("s")
		type entry struct {
			handles []*metric // of one metric
			s       state
		}
		var all []*entry
		for i := rapid.IntRange(1, 4).Draw(t, "metrics"); i > 0; i-- {
			kind := rapid.SampledFrom(kinds).Draw(t, "kind")
			name := fmt.Sprintf("n%d%s", i, rapid.SampledFrom([]string{"", "%d", "%s", "%%", " x", "é", "!(NOVERB)"}).Draw(t, "name"))
			tags := drawTags(t)
			e := &entry{}
			if rapid.IntRange(0, 2).Draw(t, "raw") == 0 {
				e.handles = append(e.handles, newMetric(kind, name, nil, 0, tags))
			} else {
				for h := rapid.IntRange(1, 3).Draw(t, "handles"); h > 0; h-- {
					e.handles = append(e.handles, newMetric(kind, name, scope, rapid.IntRange(1, 3).Draw(t, "form"), tags))
				}
			}
			c.Logf("%s %q %v", kind, name, tags)
			all = append(all, e)
		}
		n := 0
		for steps := rapid.IntRange(1, 40).Draw(t, "steps"); steps > 0; steps-- {
			i := rapid.IntRange(0, len(all)-1).Draw(t, "metric")
			e := all[i]
			m := rapid.SampledFrom(e.handles).Draw(t, "handle")
			times := 1
			if rapid.IntRange(0, 9).Draw(t, "many") == 0 {
				times = rapid.IntRange(1, 100).Draw(t, "times")
				if rapid.IntRange(0, 9).Draw(t, "very many") == 9 {
					times = rapid.IntRange(500, 6000).Draw(t, "times")
				}
			}
			v := drawValue(t, m.kind)
			c.Logf("%d observe %v x%d", i, v, times)
			for k := 0; k < times; k++ {
				x := v
				if m.kind != "bool" && m.kind != "timer" {
					x += float64(k)
				}
				m.observe(x)
				e.s = e.s.observe(x)
				n++
			}
			if rapid.Bool().Draw(t, "look") {
				for i, e := range all {
					for _, m := range e.handles {
						if m.quant != nil {
							q := rapid.SampledFrom([]float64{0, 1, 0.5, 0.31}).Draw(t, "q")
							if got := m.quant(q); !m.quantile(e.s, q, got) {
								t.Fatalf("quantile %v of metric %d is %v after %+v", q, i, got, e.s)
							}
						}
						got, problem := m.export()
						if problem != "" || !m.explained(e.s, got, "") {
							t.Fatalf("metric %d (%s) exports %v (%s) after %+v", i, m.kind, got, problem, e.s)
						}
					}
				}
			}
		}
		for i, e := range all {
			got, problem := e.handles[0].export()
			if problem != "" || !e.handles[0].explained(e.s, got, "") {
				t.Fatalf("metric %d (%s) exports %v (%s) after %+v", i, e.handles[0].kind, got, problem, e.s)
			}
		}
		c.NonTrivialIf(n > 3)
	})
}

type other struct {
	A bool
	B uint8
	C []int
}

// TestModelStruct observes anything at all as a structure.
func TestModelStruct(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		scope := monkit.NewRegistry().ScopeNamed("s")
		tags := drawTags(t)
		v := scope.StructVal("v", tags...)
		want := map[string]float64{}
		look := func() {
			got := map[string]float64{}
			v.Stats(func(key monkit.SeriesKey, field string, val float64) {
				if key.String() != monkit.NewSeriesKey("v").WithTags(tags...).String() {
					t.Fatalf("key %q", key.String())
				}
				if _, ok := got[field]; ok {
					t.Fatalf("field %q twice", field)
				}
				got[field] = val
			})
			if fmt.Sprint(got) != fmt.Sprint(want) {
				t.Fatalf("exports %v, want %v", got, want)
			}
		}
		changes := 0
		for n := rapid.IntRange(1, 10).Draw(t, "steps"); n > 0; n-- {
			x := rapid.IntRange(0, 200).Draw(t, "x")
			what := rapid.SampledFrom([]string{"point", "pointer", "deep", "nil", "nil pointer", "other", "int", "map", "text", "look"}).Draw(t, "what")
			c.Logf("%s %d", what, x)
			p := &point{X: float64(x) / 2, Y: x}
			if what != "look" {
				want = map[string]float64{}
				changes++
			}
			switch what {
			case "point", "pointer", "deep":
				want["X"], want["Y"] = p.X, float64(x)
				switch what {
				case "point":
					v.Observe(*p)
				case "pointer":
					v.Observe(p)
				default:
					v.Observe(&p)
				}
			case "other":
				want["A"], want["B"] = float64(x%2), float64(x)
				v.Observe(other{A: x%2 == 1, B: uint8(x), C: []int{1}})
			case "nil":
				v.Observe(nil)
			case "nil pointer":
				v.Observe((*point)(nil))
			case "int":
				v.Observe(x)
			case "map":
				v.Observe(map[string]int{"X": x})
			case "text":
				v.Observe("X")
			default:
				look()
			}
			if rapid.Bool().Draw(t, "look") {
				look()
			}
		}
		look()
		c.NonTrivialIf(changes > 2)
	})
}

// op is an operation of a concurrent history.
type op struct {
	what     string // observe, export, quantile
	v        float64
	got      map[string]float64
	problem  string
	inv, res int64
}

func (o *op) do(m *metric) {
	switch o.what {
	case "observe":
		m.observe(o.v)
	case "export":
		o.got, o.problem = m.export()
	case "quantile":
		o.got = map[string]float64{"q": m.quant(o.v)}
	}
}

func (o op) String() string {
	if o.what == "observe" {
		return fmt.Sprintf("observe(%v)", o.v)
	}
	return fmt.Sprintf("%s(%v)=%v", o.what, o.v, o.got)
}

func concurrent(t *rapid.T, c *kit.Case, now func() int64, rounds int, run func([]func())) {
	kind := rapid.SampledFrom(kinds).Draw(t, "kind")
	form := rapid.IntRange(0, 2).Draw(t, "form")
	tags := drawTags(t)
	c.Logf("%s form %d tags %v", kind, form, tags)
	nt := rapid.IntRange(2, 3).Draw(t, "threads")
	progs := make([][]op, nt)
	for i := range progs {
		for n := rapid.IntRange(1, 4).Draw(t, "len"); n > 0; n-- {
			o := op{what: rapid.SampledFrom([]string{"observe", "observe", "observe", "export", "quantile"}).Draw(t, "op")}
			if o.what == "quantile" {
				if kind != "int" && kind != "float" && kind != "duration" {
					o.what = "export"
				} else {
					o.v = float64(rapid.IntRange(0, 1).Draw(t, "q"))
				}
			}
			if o.what == "observe" {
				o.v = drawValue(t, kind)
			}
			c.Logf("T%d %s %v", i, o.what, o.v)
			progs[i] = append(progs[i], o)
		}
	}
	// handles are looked up by the threads, so that creation is part of it
	lookup := rapid.Bool().Draw(t, "lookup") && form != 0
	before := rapid.SampledFrom([]int{0, 0, 1, monkit.ReservoirSize - 1, monkit.ReservoirSize + 3}).Draw(t, "before")
	for r := 0; r < rounds; r++ {
		scope := monkit.NewRegistry().ScopeNamed("s")
		first := newMetricIf(!lookup, kind, scope, form, tags)
		init := state{}
		if first != nil {
			for i := 0; i < before; i++ {
				x := float64(i % 2)
				first.observe(x)
				init = init.observe(x)
			}
		}
		hist := make([][]op, nt)
		var bodies []func()
		for i := range progs {
			i := i
			hist[i] = append([]op(nil), progs[i]...)
			bodies = append(bodies, func() {
				m := first
				if m == nil {
					m = newMetric(kind, "n", scope, form, tags)
				}
				for k := range hist[i] {
					o := &hist[i][k]
					o.inv = now()
					o.do(m)
					o.res = now()
				}
			})
		}
		run(bodies)
		m := first
		if m == nil {
			m = newMetric(kind, "n", scope, form, tags)
		}
		end := op{what: "export"}
		end.do(m)
		var desc strings.Builder
		for i := range hist {
			for _, o := range hist[i] {
				fmt.Fprintf(&desc, "T%d [%d %d] %v\n", i, o.inv, o.res, o)
				if o.problem != "" {
					t.Fatalf("%s", o.problem)
				}
			}
		}
		fields := []string{""}
		if kind == "bool" {
			fields = []string{"true", "false", "recent", "disposition"}
		}
		for _, field := range fields {
			var ops []kit.LinOp
			for i := range hist {
				for _, o := range hist[i] {
					o := o
					ops = append(ops, kit.LinOp{Inv: o.inv, Res: o.res, Step: func(x interface{}) (interface{}, bool) {
						s := x.(state)
						switch o.what {
						case "observe":
							return s.observe(o.v), true
						case "quantile":
							return s, m.quantile(s, o.v, o.got["q"])
						}
						return s, m.explained(s, o.got, field)
					}})
				}
			}
			if !kit.Linearizable(init, ops, func(x interface{}) bool {
				return end.problem == "" && m.explained(x.(state), end.got, field)
			}) {
				t.Fatalf("%s: after %+v no order explains %q of\n%sat the end %v", kind, init, field, desc.String(), end)
			}
		}
	}
}

func newMetricIf(cond bool, kind string, scope *monkit.Scope, form int, tags []monkit.SeriesTag) *metric {
	if !cond {
		return nil
	}
	return newMetric(kind, "n", scope, form, tags)
}

func TestSched(t *testing.T) {
	kit.NeedSched(t, func() { monkit.NewIntVal(monkit.NewSeriesKey("m")).Observe(1) })
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		sched := kit.Schedule(t)
		c.Logf("%v", sched)
		var clk int64
		concurrent(t, c, func() int64 { clk++; return clk }, 1, func(bodies []func()) {
			res := kit.Sched(t, c, sched, bodies...)
			c.NonTrivialIf(res.Switches > len(bodies))
		})
	})
}

func TestRace(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		concurrent(t, c, kit.Clock, rapid.IntRange(1, 6).Draw(t, "rounds"), func(bodies []func()) {
			kit.Parallel(len(bodies), func(i int) { bodies[i]() })
		})
		c.NonTrivial()
	})
}

// TestRaceTotals: many observations from many goroutines, with exports going
// on all the time; the totals are theirs.
func TestRaceTotals(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		kind := rapid.SampledFrom(kinds).Draw(t, "kind")
		scope := monkit.NewRegistry().ScopeNamed("s")
		m := newMetric(kind, "n", scope, 1, nil)
		nt := rapid.IntRange(2, 6).Draw(t, "goroutines")
		per := rapid.IntRange(10, 200).Draw(t, "observations")
		c.Logf("%s: %d goroutines, %d observations", kind, nt, per)
		var want state
		vals := make([]float64, nt)
		lasts := map[float64]bool{}
		for i := range vals {
			vals[i] = drawValue(t, kind)
			for k := 0; k < per; k++ {
				want = want.observe(value(kind, vals[i], k))
			}
			lasts[value(kind, vals[i], per-1)] = true
		}
		bad := make([]string, nt+1)
		stop := make(chan struct{})
		kit.Parallel(nt+1, func(i int) {
			if i == nt {
				var prev float64
				for done := false; !done; {
					select {
					case <-stop:
						done = true
					default:
					}
					got, problem := m.export()
					n := got["count"] + got["total"] + got["true"] + got["false"]
					if problem != "" || n < prev {
						bad[i] = fmt.Sprintf("%s: %v after %v", problem, got, prev)
					}
					prev = n
					if m.quant != nil {
						m.quant(0.4)
					}
					done = done || n >= want.count || kind == "struct"
				}
				return
			}
			for k := 0; k < per; k++ {
				m.observe(value(kind, vals[i], k))
			}
			if i == 0 {
				close(stop)
			}
		})
		for _, b := range bad {
			if b != "" {
				t.Fatalf("%s", b)
			}
		}
		got, problem := m.export()
		// the last one observed is the last one of one of the goroutines
		ok := false
		for v := range lasts {
			s := want
			s.recent = v
			ok = ok || m.explained(s, got, "")
		}
		if problem != "" || !ok {
			t.Fatalf("%s exports %v (%s), want %+v with a recent value of %v", kind, got, problem, want, lasts)
		}
		c.NonTrivial()
	})
}

func value(kind string, base float64, k int) float64 {
	switch kind {
	case "bool":
		return math.Mod(base+float64(k), 2)
	case "timer":
		return base
	}
	return base + float64(k%50)
}

// TestModelSpecial: a float that is no number, or no finite one, is an
// observation like any other. What the extremes and quantiles of values without
// an order are is left open.
func TestModelSpecial(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		v := monkit.NewRegistry().ScopeNamed("s").FloatVal("n")
		values := rapid.SliceOfN(rapid.SampledFrom([]float64{math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), 0, 1, -2, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64}), 1, 100).Draw(t, "values")
		same := func(a, b float64) bool { return a == b || math.IsNaN(a) && math.IsNaN(b) }
		sum, special, min, max, nan := 0.0, 0, math.Inf(1), math.Inf(-1), false
		for i, x := range values {
			v.Observe(x)
			sum += x
			min, max = math.Min(min, x), math.Max(max, x)
			if math.IsNaN(x) {
				nan = true
			}
			if math.IsNaN(x) || math.IsInf(x, 0) {
				special++
			}
			got := map[string]float64{}
			v.Stats(func(_ monkit.SeriesKey, field string, val float64) { got[field] = val })
			if got["count"] != float64(i+1) || !same(got["recent"], x) || !same(got["sum"], sum) {
				t.Fatalf("after %v the float value says count %v, recent %v, sum %v (want %d, %v, %v)", values[:i+1], got["count"], got["recent"], got["sum"], i+1, x, sum)
			}
			if !nan && (got["min"] != min || got["max"] != max) {
				t.Fatalf("after %v the float value says min %v, max %v (want %v, %v)", values[:i+1], got["min"], got["max"], min, max)
			}
		}
		c.Logf("%v", values)
		c.LabelIf(special > 0, "not finite")
		c.NonTrivialIf(special > 0 && len(values) > 1)
	})
}
