// C10: distribution summaries are exact and quantiles are sound.
package c10

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"testing"
	"time"

	monkit "github.com/spacemonkeygo/monkit/v3"
	"pgregory.net/rapid"

	"verif.local/harness/kit"
)

func TestMain(m *testing.M) { kit.Main(m) }

// dist is any of the three distribution types. Integers are passed as big
// enough floats only where that is exact; the exact values travel as int64.
type dist interface {
	insert(v value)
	count() int64
	low() value
	high() value
	recent() value
	sum() value
	avg() value
	query(q float64) value
	ravg() value
	copy() dist
	reset()
	stats() map[string]float64
}

// value is an int64 or a float64.
type value struct {
	i     int64
	f     float64
	isInt bool
}

func (v value) float() float64 {
	if v.isInt {
		return float64(v.i)
	}
	return v.f
}

func (v value) String() string {
	if v.isInt {
		return fmt.Sprint(v.i)
	}
	return fmt.Sprint(v.f)
}

func less(a, b value) bool {
	if a.isInt {
		return a.i < b.i
	}
	return a.f < b.f
}

func iv(i int64) value   { return value{i: i, isInt: true} }
func fv(f float64) value { return value{f: f} }

type source interface {
	Stats(cb func(key monkit.SeriesKey, field string, val float64))
}

var theKey = monkit.NewSeriesKey("m").WithTag("k", "v")

func export(s source) map[string]float64 {
	out := map[string]float64{}
	s.Stats(func(key monkit.SeriesKey, field string, val float64) {
		if key.String() != theKey.String() {
			panic("wrong key")
		}
		if _, ok := out[field]; ok {
			panic("field exported twice: " + field)
		}
		out[field] = val
	})
	return out
}

type intD struct{ *monkit.IntDist }

func (d intD) insert(v value)            { d.Insert(v.i) }
func (d intD) count() int64              { return d.Count }
func (d intD) low() value                { return iv(d.Low) }
func (d intD) high() value               { return iv(d.High) }
func (d intD) recent() value             { return iv(d.Recent) }
func (d intD) sum() value                { return iv(d.Sum) }
func (d intD) avg() value                { return iv(d.FullAverage()) }
func (d intD) ravg() value               { return iv(d.ReservoirAverage()) }
func (d intD) query(q float64) value     { return iv(d.Query(q)) }
func (d intD) copy() dist                { return intD{d.Copy()} }
func (d intD) reset()                    { d.Reset() }
func (d intD) stats() map[string]float64 { return export(d.IntDist) }

type floatD struct{ *monkit.FloatDist }

func (d floatD) insert(v value)            { d.Insert(v.f) }
func (d floatD) count() int64              { return d.Count }
func (d floatD) low() value                { return fv(d.Low) }
func (d floatD) high() value               { return fv(d.High) }
func (d floatD) recent() value             { return fv(d.Recent) }
func (d floatD) sum() value                { return fv(d.Sum) }
func (d floatD) avg() value                { return fv(d.FullAverage()) }
func (d floatD) ravg() value               { return fv(d.ReservoirAverage()) }
func (d floatD) query(q float64) value     { return fv(d.Query(q)) }
func (d floatD) copy() dist                { return floatD{d.Copy()} }
func (d floatD) reset()                    { d.Reset() }
func (d floatD) stats() map[string]float64 { return export(d.FloatDist) }

type durD struct{ *monkit.DurationDist }

func (d durD) insert(v value)            { d.Insert(time.Duration(v.i)) }
func (d durD) count() int64              { return d.Count }
func (d durD) low() value                { return iv(int64(d.Low)) }
func (d durD) high() value               { return iv(int64(d.High)) }
func (d durD) recent() value             { return iv(int64(d.Recent)) }
func (d durD) sum() value                { return iv(int64(d.Sum)) }
func (d durD) avg() value                { return iv(int64(d.FullAverage())) }
func (d durD) ravg() value               { return iv(int64(d.ReservoirAverage())) }
func (d durD) query(q float64) value     { return iv(int64(d.Query(q))) }
func (d durD) copy() dist                { return durD{d.Copy()} }
func (d durD) reset()                    { d.Reset() }
func (d durD) stats() map[string]float64 { return export(d.DurationDist) }

// tracked is a distribution with what has been put into it.
type tracked struct {
	d      dist
	vals   []value // since the last reset
	name   string
	loaded bool // values before a reset
}

func newDist(kind string) dist {
	switch kind {
	case "int":
		return intD{monkit.NewIntDist(theKey)}
	case "float":
		return floatD{monkit.NewFloatDist(theKey)}
	}
	return durD{monkit.NewDurationDist(theKey)}
}

func drawValue(t *rapid.T, kind, rng string) value {
	if kind == "float" {
		switch rng {
		case "small":
			return fv(float64(rapid.IntRange(-1000, 1000).Draw(t, "v")))
		case "same":
			return fv(float64(rapid.IntRange(0, 1).Draw(t, "v")))
		case "frac":
			return fv(rapid.Float64Range(-10, 10).Draw(t, "v"))
		case "wide":
			return fv(rapid.Float64Range(-1e30, 1e30).Draw(t, "v"))
		case "tiny":
			return fv(rapid.SampledFrom([]float64{0, 5e-324, 1e-320, -1e-310, 1e-45, 1e-40, -1e-38, 1}).Draw(t, "v"))
		default:
			return fv(rapid.SampledFrom([]float64{math.MaxFloat64 / 1000, -math.MaxFloat64 / 1000, math.MaxFloat32, 1e39, -1e39, 3.5e38, 0, 1}).Draw(t, "v"))
		}
	}
	switch rng {
	case "small":
		return iv(int64(rapid.IntRange(-1000, 1000).Draw(t, "v")))
	case "same":
		return iv(int64(rapid.IntRange(0, 1).Draw(t, "v")))
	case "frac":
		return iv(rapid.Int64Range(0, 10e9).Draw(t, "v"))
	case "wide":
		return iv(rapid.Int64Range(-1<<45, 1<<45).Draw(t, "v"))
	case "tiny":
		return iv(int64(rapid.IntRange(-3, 0).Draw(t, "v")))
	default:
		return iv(rapid.SampledFrom([]int64{math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, 1 << 62, -1 << 62, 1<<53 + 1, 16777217, 33554433, 0, 1}).Draw(t, "v"))
	}
}

// fits says whether v may still be added: totals out of range of the type are
// out of scope.
func (tr *tracked) fits(v value) bool {
	if v.isInt {
		s := big.NewInt(v.i)
		for _, x := range tr.vals {
			s.Add(s, big.NewInt(x.i))
		}
		return s.IsInt64()
	}
	s := math.Abs(v.f)
	for _, x := range tr.vals {
		s += math.Abs(x.f)
	}
	return !math.IsInf(s, 0)
}

// single is the tolerance for single precision around the given magnitudes.
func single(mags ...float64) float64 {
	m := 0.0
	for _, x := range mags {
		m = math.Max(m, math.Abs(x))
	}
	return m*5e-7 + 1e-44
}

func close2(a, b, tol float64) bool { return a == b || math.Abs(a-b) <= tol }

func (tr *tracked) check(t *rapid.T, qs []float64) {
	d, n := tr.d, len(tr.vals)
	fail := func(format string, args ...interface{}) {
		t.Helper()
		t.Fatalf("%s with %d values %v: %s", tr.name, n, short(tr.vals), fmt.Sprintf(format, args...))
	}
	if d.count() != int64(n) {
		fail("count %d", d.count())
	}
	if n == 0 {
		for _, q := range append([]float64{0, .5, 1}, qs...) {
			if d.query(q).float() != 0 {
				fail("quantile %v of nothing is %v", q, d.query(q))
			}
		}
		if d.avg().float() != 0 || d.ravg().float() != 0 {
			fail("average of nothing is %v, %v", d.avg(), d.ravg())
		}
		if d.low().float() != 0 || d.high().float() != 0 || d.recent().float() != 0 || d.sum().float() != 0 {
			fail("low %v high %v recent %v sum %v of nothing", d.low(), d.high(), d.recent(), d.sum())
		}
		if st := d.stats(); len(st) != 1 || st["count"] != 0 {
			fail("exports %v", st)
		}
		return
	}
	sorted := append([]value(nil), tr.vals...)
	sort.SliceStable(sorted, func(i, j int) bool { return less(sorted[i], sorted[j]) })
	lo, hi := sorted[0], sorted[n-1]
	if d.low() != lo && d.low().float() != lo.float() || d.high() != hi && d.high().float() != hi.float() || lo.isInt && (d.low() != lo || d.high() != hi) {
		fail("low %v high %v, want %v %v", d.low(), d.high(), lo, hi)
	}
	if d.recent() != tr.vals[n-1] {
		fail("recent %v, want %v", d.recent(), tr.vals[n-1])
	}
	mag := 0.0
	if lo.isInt {
		var s int64
		for _, v := range tr.vals {
			s += v.i
		}
		if d.sum().i != s {
			fail("sum %v, want %v", d.sum(), s)
		}
		if got, want := d.avg().float(), float64(s)/float64(n); !close2(got, want, 1+math.Abs(want)*1e-12) {
			fail("average %v, want %v", got, want)
		}
	} else {
		var s float64
		for _, v := range tr.vals {
			s += v.f
			mag += math.Abs(v.f)
		}
		if !close2(d.sum().f, s, mag*1e-12) {
			fail("sum %v, want %v", d.sum(), s)
		}
		if !close2(d.avg().f, s/float64(n), mag/float64(n)*1e-12) {
			fail("average %v, want %v", d.avg(), s/float64(n))
		}
	}
	unit := 0.0
	if lo.isInt {
		unit = 1
	}
	// no matter what is asked for
	if got := d.query(math.NaN()); less(got, lo) || less(hi, got) || math.IsNaN(got.float()) {
		fail("quantile not-a-number is %v, out of [%v, %v]", got, lo, hi)
	}
	// every quantile, in ascending order
	qs = append([]float64{0, .1, .25, .5, .75, .9, .95, .99, 1}, qs...)
	sort.Float64s(qs)
	prev := value{}
	for i, q := range qs {
		got := d.query(q)
		if less(got, lo) || less(hi, got) || math.IsNaN(got.float()) {
			fail("quantile %v is %v, out of [%v, %v]", q, got, lo, hi)
		}
		if i > 0 && less(got, prev) && prev.float()-got.float() > unit+1e-12*math.Max(math.Abs(prev.float()), math.Abs(got.float())) {
			fail("quantile %v is %v, less than %v at %v", q, got, prev, qs[i-1])
		}
		prev = got
		if n <= 64 {
			pos := q * float64(n-1)
			k := int(pos)
			if k >= n-1 {
				k = n - 1
			}
			a := sorted[k].float()
			b := a
			if k+1 < n {
				b = sorted[k+1].float()
			}
			if math.Abs(a) > math.MaxFloat32 || math.Abs(b) > math.MaxFloat32 {
				continue
			}
			want := a + (pos-float64(k))*(b-a)
			if !close2(got.float(), want, single(a, b)+unit) {
				fail("quantile %v is %v, want %v", q, got, want)
			}
		}
	}
	if p := tr.sample(); p != "" {
		fail("%s", p)
	}
	// the export repeats the numbers
	scale := 1.0
	if _, ok := d.(durD); ok {
		scale = 1e-9
	}
	want := map[string]float64{
		"count": float64(n), "sum": d.sum().float() * scale, "min": lo.float() * scale, "max": hi.float() * scale,
		"rmin": d.query(0).float() * scale, "ravg": d.ravg().float() * scale, "r10": d.query(.1).float() * scale, "r50": d.query(.5).float() * scale,
		"r90": d.query(.9).float() * scale, "r99": d.query(.99).float() * scale, "rmax": d.query(1).float() * scale, "recent": tr.vals[n-1].float() * scale,
	}
	got := d.stats()
	if len(got) != len(want) {
		fail("exports %v", got)
	}
	for k, v := range want {
		if g, ok := got[k]; !ok || !close2(g, v, math.Abs(v)*1e-12) {
			fail("exports %s=%v, want %v", k, g, v)
		}
	}
}

// sample checks the values behind the quantiles: they are inserted values.
func (tr *tracked) sample() string {
	d, n := tr.d, len(tr.vals)
	size := n
	if size > monkit.ReservoirSize {
		size = monkit.ReservoirSize
	}
	points := make([]float64, size)
	sum, big := 0.0, 0.0
	for i := range points {
		q := 0.0
		if size > 1 {
			q = float64(i) / float64(size-1)
		}
		points[i] = d.query(q).float()
		sum += points[i]
		big = math.Max(big, math.Abs(points[i]))
	}
	unit := 0.0
	if tr.vals[0].isInt {
		unit = 1
	}
	if big >= math.MaxFloat32 {
		return ""
	}
	if got, want := d.ravg().float(), sum/float64(size); !close2(got, want, single(big)+2*unit) {
		return fmt.Sprintf("reservoir average %v, want %v", got, want)
	}
	// match the points one to one with inserted values, both sorted: greedy
	sorted := make([]float64, n)
	for i, v := range tr.vals {
		sorted[i] = v.float()
	}
	sort.Float64s(sorted)
	tol := single(big) + unit
	j := 0
	for i, p := range points {
		for j < n && sorted[j] < p-tol {
			j++
		}
		if j == n || sorted[j] > p+tol {
			return fmt.Sprintf("sample value %d is %v, which was not inserted or is there too often", i, p)
		}
		j++
	}
	return ""
}

func short(v []value) string {
	if len(v) > 80 {
		return fmt.Sprint(v[:20], "...", v[len(v)-20:])
	}
	return fmt.Sprint(v)
}

func TestModel(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		defer func(w int64) { monkit.Window = w }(monkit.Window)
		monkit.Window = rapid.SampledFrom([]int64{1024, 1024, 1024, 0, -1, 64, 128}).Draw(t, "window")
		kind := rapid.SampledFrom([]string{"int", "float", "dur"}).Draw(t, "kind")
		c.Logf("%s window %d", kind, monkit.Window)
		ds := []*tracked{{d: newDist(kind), name: "#0"}}
		resets, copies, most := 0, 0, 0
		drawQ := func() []float64 {
			return rapid.SliceOfN(rapid.Float64Range(0, 1), 0, 4).Draw(t, "qs")
		}
		for n := rapid.IntRange(1, 14).Draw(t, "n"); n > 0; n-- {
			tr := ds[rapid.IntRange(0, len(ds)-1).Draw(t, "which")]
			switch rapid.SampledFrom([]string{"insert", "insert", "insert", "bulk", "bulk", "query", "query", "copy", "reset", "over"}).Draw(t, "op") {
			case "insert":
				rng := rapid.SampledFrom([]string{"small", "same", "frac", "wide", "tiny", "huge"}).Draw(t, "range")
				v := drawValue(t, kind, rng)
				if tr.fits(v) {
					c.Logf("%s insert %v", tr.name, v)
					tr.d.insert(v)
					tr.vals = append(tr.vals, v)
				}
			case "bulk":
				rng := rapid.SampledFrom([]string{"small", "same", "frac", "wide", "tiny"}).Draw(t, "range")
				c.Logf("%s bulk", tr.name)
				for k := rapid.IntRange(1, 30).Draw(t, "many"); k > 0; k-- {
					v := drawValue(t, kind, rng)
					if !tr.fits(v) {
						continue
					}
					c.Logf(" %v", v)
					tr.d.insert(v)
					tr.vals = append(tr.vals, v)
				}
			case "over":
				// fill past the sample size with a pattern of distinct values
				k := rapid.IntRange(40, 300).Draw(t, "over")
				if rapid.IntRange(0, 15).Draw(t, "far over") == 15 {
					k = rapid.IntRange(1000, 9000).Draw(t, "over")
				}
				step := int64(rapid.SampledFrom([]int{1, -1, 7, 101}).Draw(t, "step"))
				base := int64(rapid.IntRange(-5000, 5000).Draw(t, "base"))
				c.Logf("%s over %d %d %d", tr.name, k, step, base)
				for i := 0; i < k; i++ {
					x := base + step*int64(i)*4
					v := iv(x)
					if kind == "float" {
						v = fv(float64(x))
					}
					if tr.fits(v) {
						tr.d.insert(v)
						tr.vals = append(tr.vals, v)
					}
				}
			case "query":
				qs := drawQ()
				c.Logf("%s query %v", tr.name, qs)
				tr.check(t, qs)
			case "copy":
				if len(ds) < 4 {
					cp := &tracked{d: tr.d.copy(), vals: append([]value(nil), tr.vals...), name: fmt.Sprintf("#%d", len(ds)), loaded: tr.loaded}
					c.Logf("%s copied to %s", tr.name, cp.name)
					for _, q := range []float64{0, .2, .5, .9, 1} {
						if a, b := tr.d.query(q), cp.d.query(q); a != b && a.float() != b.float() {
							t.Fatalf("quantile %v is %v, in a copy %v", q, a, b)
						}
					}
					ds = append(ds, cp)
					copies++
				}
			case "reset":
				if rapid.Bool().Draw(t, "really") {
					c.Logf("%s reset", tr.name)
					tr.d.reset()
					tr.loaded = tr.loaded || len(tr.vals) > 0
					tr.vals = nil
					resets++
				}
			}
			if len(tr.vals) > most {
				most = len(tr.vals)
			}
		}
		for _, tr := range ds {
			tr.check(t, nil)
		}
		c.LabelIf(most > 64, "more than 64 values")
		c.LabelIf(most > 1024, "more than 1024 values")
		c.LabelIf(resets > 0, "reset")
		c.LabelIf(copies > 0, "copied")
		c.NonTrivialIf(most > 1 && (resets > 0 || copies > 0 || most > 64))
	})
}
