// C11: the quantile sample is a fair, recency-windowed sample.
package c11

import (
	"fmt"
	"math"
	"math/rand"
	"testing"
	"time"

	monkit "github.com/spacemonkeygo/monkit/v3"
	"pgregory.net/rapid"

	"verif.local/harness/kit"
)

func TestMain(m *testing.M) { kit.Main(m) }

const size = monkit.ReservoirSize

type dist struct {
	insert func(i int)
	query  func(q float64) float64
	reset  func()
	copy   func() dist
}

func wrapInt(d *monkit.IntDist) dist {
	return dist{func(i int) { d.Insert(int64(i) * 100) }, func(q float64) float64 { return float64(d.Query(q)) }, d.Reset, func() dist { return wrapInt(d.Copy()) }}
}
func wrapFloat(d *monkit.FloatDist) dist {
	return dist{func(i int) { d.Insert(float64(i) * 100) }, d.Query, d.Reset, func() dist { return wrapFloat(d.Copy()) }}
}
func wrapDur(d *monkit.DurationDist) dist {
	return dist{func(i int) { d.Insert(time.Duration(i) * 100) }, func(q float64) float64 { return float64(d.Query(q)) }, d.Reset, func() dist { return wrapDur(d.Copy()) }}
}

func fresh(kind string) dist {
	key := monkit.NewSeriesKey("m")
	switch kind {
	case "int":
		return wrapInt(monkit.NewIntDist(key))
	case "float":
		return wrapFloat(monkit.NewFloatDist(key))
	}
	return wrapDur(monkit.NewDurationDist(key))
}

// expected gives, for every position of a sequence of n values, the
// probability that it is in the sample at the end.
func expected(n int, window int64) []float64 {
	w := func(i int) float64 { // the window in force when the i-th value comes
		if window > 0 && int64(i+1) > window {
			return float64(window)
		}
		return float64(i + 1)
	}
	out := make([]float64, n)
	survive := 1.0
	for i := n - 1; i >= 0; i-- {
		enter := 1.0
		if i >= size {
			enter = size / w(i)
		}
		out[i] = enter * survive
		if i >= size {
			survive *= 1 - 1/w(i)
		}
	}
	return out
}

func TestModel(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		defer func(w int64) { monkit.Window = w }(monkit.Window)
		monkit.Window = rapid.SampledFrom([]int64{1024, 1024, 1024, 0, -5, 64, 128, 256}).Draw(t, "window")
		kind := rapid.SampledFrom([]string{"int", "float", "dur"}).Draw(t, "kind")
		var n int
		switch rapid.IntRange(0, 3).Draw(t, "regime") {
		case 0:
			n = rapid.IntRange(size+1, size+4).Draw(t, "n")
		case 1:
			n = rapid.IntRange(size+1, 300).Draw(t, "n")
		case 2:
			n = rapid.IntRange(300, 1024).Draw(t, "n")
		default:
			n = rapid.IntRange(1025, 3000).Draw(t, "n")
		}
		order := rapid.SampledFrom([]string{"up", "down", "mixed"}).Draw(t, "order")
		reuse := rapid.SampledFrom([]string{"fresh", "fresh", "reset", "copy"}).Draw(t, "reuse")
		at := rapid.IntRange(0, n-1).Draw(t, "at") // where the copy is made or a query comes in between
		query := rapid.Bool().Draw(t, "query")
		trials := 12000
		if n > 1024 {
			trials = 6000
		}
		c.Logf("%s n=%d window=%d %s %s at %d query=%v", kind, n, monkit.Window, order, reuse, at, query)
		vals := make([]int, n)
		for i := range vals {
			vals[i] = i
			if order == "down" {
				vals[i] = n - 1 - i
			}
		}
		if order == "mixed" {
			rand.New(rand.NewSource(int64(n))).Shuffle(n, func(i, j int) { vals[i], vals[j] = vals[j], vals[i] })
		}
		pos := make([]int, n)
		for i, v := range vals {
			pos[v] = i
		}
		in := make([]int, n)
		d := fresh(kind)
		for k := 0; k < trials; k++ {
			switch reuse {
			case "fresh", "copy":
				d = fresh(kind)
			case "reset":
				d.reset()
			}
			for i, v := range vals {
				if i == at {
					if query {
						d.query(.5)
					}
					if reuse == "copy" {
						d = d.copy()
					}
				}
				d.insert(v)
			}
			for i := 0; i < size; i++ {
				v := int(math.Round(d.query(float64(i)/(size-1)) / 100))
				if v < 0 || v >= n {
					t.Fatalf("sample value %d is not an inserted one", v)
				}
				in[pos[v]]++
			}
		}
		p := expected(n, monkit.Window)
		bad := ""
		test := func(what string, lo, hi int) {
			got, mean, variance := 0, 0.0, 0.0
			for i := lo; i < hi; i++ {
				got += in[i]
				mean += p[i]
				variance += p[i] * (1 - p[i])
			}
			N := float64(trials)
			sd := math.Sqrt(N * variance)
			if diff := math.Abs(float64(got) - N*mean); diff > 8*sd+4 && bad == "" {
				bad = fmt.Sprintf("%s: in the sample %d times in %d trials, expected %.1f, standard deviation %.1f", what, got, trials, N*mean, sd)
			}
		}
		for i := 0; i < n; i++ {
			test(fmt.Sprintf("value %d", i), i, i+1)
		}
		test("the first values", 0, size)
		for parts := 2; parts <= 16; parts *= 2 {
			for i := 0; i < parts; i++ {
				test(fmt.Sprintf("part %d of %d", i+1, parts), i*n/parts, (i+1)*n/parts)
			}
		}
		if bad != "" {
			t.Fatalf("%s", bad)
		}
		c.LabelIf(int64(n) > monkit.Window && monkit.Window > 0, "beyond the window")
		c.NonTrivial()
	})
}
