// C12: counters are atomic and remember their true extremes.
package c12

import (
	"fmt"
	"math"
	"strings"
	"sync"
	"testing"

	monkit "github.com/spacemonkeygo/monkit/v3"
	"pgregory.net/rapid"

	"verif.local/harness/kit"
)

func TestMain(m *testing.M) { kit.Main(m) }

// state is the reference counter.
type state struct {
	val, low, high int64
	some           bool
}

func (s state) set(v int64) state {
	if !s.some || v < s.low {
		s.low = v
	}
	if !s.some || v > s.high {
		s.high = v
	}
	s.val, s.some = v, true
	return s
}

type op struct {
	kind string
	arg  int64
	// results
	a, b, c  int64
	nan      bool
	inv, res int64
}

func (o op) String() string {
	return fmt.Sprintf("%s(%d)=%d,%d,%d,%v", o.kind, o.arg, o.a, o.b, o.c, o.nan)
}

// do performs the operation on the real counter.
func (o *op) do(c *monkit.Counter, key string) {
	switch o.kind {
	case "set":
		o.a = c.Set(o.arg)
	case "inc":
		o.a = c.Inc(o.arg)
	case "dec":
		o.a = c.Dec(o.arg)
	case "reset":
		o.a, o.b, o.c = c.Reset()
	case "current":
		o.a = c.Current()
	case "high":
		o.a = c.High()
	case "low":
		o.a = c.Low()
	case "stats":
		got := map[string]float64{}
		n := 0
		c.Stats(func(k monkit.SeriesKey, field string, val float64) {
			if k.String() != key {
				panic("wrong key " + k.String())
			}
			n++
			got[field] = val
		})
		if n != 3 || len(got) != 3 {
			panic(fmt.Sprint("exports ", got))
		}
		h, l := got["high"], got["low"]
		if math.IsNaN(h) != math.IsNaN(l) {
			panic(fmt.Sprint("exports ", got))
		}
		o.nan = math.IsNaN(h)
		o.a = int64(got["value"])
		if !o.nan {
			o.b, o.c = int64(l), int64(h)
		}
	}
}

// step is what the operation does to the reference counter, and whether its
// results are those.
func (o op) step(s state) (state, bool) {
	switch o.kind {
	case "set":
		return s.set(o.arg), o.a == s.val
	case "inc":
		n := s.set(s.val + o.arg)
		return n, o.a == n.val
	case "dec":
		n := s.set(s.val - o.arg)
		return n, o.a == n.val
	case "reset":
		return state{}, o.a == s.val && o.b == s.low && o.c == s.high // all zero while empty
	case "current":
		return s, o.a == s.val
	case "high":
		return s, o.a == s.high
	case "low":
		return s, o.a == s.low
	default: // exported values are floats
		return s, int64(float64(s.val)) == o.a && o.nan == !s.some && (!s.some || int64(float64(s.low)) == o.b && int64(float64(s.high)) == o.c)
	}
}

var kinds = []string{"set", "set", "inc", "inc", "inc", "dec", "dec", "reset", "current", "high", "low", "stats"}

func drawOp(t *rapid.T) op {
	o := op{kind: rapid.SampledFrom(kinds).Draw(t, "kind")}
	switch rapid.IntRange(0, 5).Draw(t, "size") {
	case 0:
		o.arg = rapid.Int64Range(-1<<40, 1<<40).Draw(t, "arg")
	case 1:
		if o.kind == "set" || rapid.IntRange(0, 3).Draw(t, "far") == 0 {
			o.arg = rapid.OneOf(rapid.Int64(), rapid.SampledFrom([]int64{math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1,
				math.MaxInt32, math.MinInt32, 1 << 32, 1<<53 + 1})).Draw(t, "arg")
			break
		}
		o.arg = int64(rapid.IntRange(-4, 5).Draw(t, "arg"))
	default:
		o.arg = int64(rapid.IntRange(-4, 5).Draw(t, "arg"))
	}
	switch o.kind {
	case "reset", "current", "high", "low", "stats":
		o.arg = 0
	}
	return o
}

func newCounter(t *rapid.T) (*monkit.Counter, string) {
	if rapid.Bool().Draw(t, "scoped") {
		return monkit.NewRegistry().ScopeNamed("s").Counter("c", monkit.NewSeriesTag("a", "b")), "c,a=b"
	}
	key := monkit.NewSeriesKey("m").WithTag("x", "y")
	return monkit.NewCounter(key), key.String()
}

func TestModel(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		ctr, key := newCounter(t)
		s := state{}
		resets := 0
		lows := map[int64]bool{}
		for n := rapid.IntRange(1, 40).Draw(t, "n"); n > 0; n-- {
			o := drawOp(t)
			c.Logf("%s %d", o.kind, o.arg)
			o.do(ctr, key)
			before := s
			next, ok := o.step(s)
			if !ok {
				t.Fatalf("%v on %+v", o, before)
			}
			s = next
			if o.kind == "reset" {
				resets++
			}
			lows[s.low] = true
			// every way to look at it
			for _, k := range []string{"current", "high", "low", "stats"} {
				o := op{kind: k}
				o.do(ctr, key)
				if _, ok := o.step(s); !ok {
					t.Fatalf("%v, want %+v", o, s)
				}
			}
		}
		c.LabelIf(resets > 0, "reset")
		c.NonTrivialIf(len(lows) > 2)
	})
}

func concurrent(t *rapid.T, c *kit.Case, now func() int64, rounds int, run func([]func())) {
	ctr, key := newCounter(t)
	nt := rapid.IntRange(2, 3).Draw(t, "threads")
	progs := make([][]op, nt)
	for i := range progs {
		for n := rapid.IntRange(1, 4).Draw(t, "len"); n > 0; n-- {
			o := drawOp(t)
			c.Logf("T%d %s %d", i, o.kind, o.arg)
			progs[i] = append(progs[i], o)
		}
	}
	for r := 0; r < rounds; r++ {
		ctr.Reset()
		var mu sync.Mutex
		tick := func() int64 { mu.Lock(); defer mu.Unlock(); return now() }
		var bodies []func()
		hist := make([][]op, nt)
		for i := range progs {
			i := i
			hist[i] = append([]op(nil), progs[i]...)
			bodies = append(bodies, func() {
				for k := range hist[i] {
					o := &hist[i][k]
					o.inv = tick()
					o.do(ctr, key)
					o.res = tick()
				}
			})
		}
		run(bodies)
		end := op{kind: "stats"}
		end.do(ctr, key)
		var ops []kit.LinOp
		var desc strings.Builder
		for i := range hist {
			for _, o := range hist[i] {
				o := o
				fmt.Fprintf(&desc, "T%d [%d %d] %v\n", i, o.inv, o.res, o)
				ops = append(ops, kit.LinOp{Inv: o.inv, Res: o.res, Step: func(s interface{}) (interface{}, bool) {
					n, ok := o.step(s.(state))
					return n, ok
				}})
			}
		}
		if !kit.Linearizable(state{}, ops, func(s interface{}) bool {
			_, ok := end.step(s.(state))
			return ok
		}) {
			t.Fatalf("no ordering explains\n%s at the end %v", desc.String(), end)
		}
	}
}

func TestSched(t *testing.T) {
	kit.NeedSched(t, func() { monkit.NewCounter(monkit.NewSeriesKey("m")).Inc(1) })
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		sched := kit.Schedule(t)
		c.Logf("%v", sched)
		var clk int64
		concurrent(t, c, func() int64 { clk++; return clk }, 1, func(bodies []func()) {
			res := kit.Sched(t, c, sched, bodies...)
			c.NonTrivialIf(res.Switches > len(bodies))
		})
	})
}

func TestRace(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		concurrent(t, c, kit.Clock, rapid.IntRange(1, 8).Draw(t, "rounds"), func(bodies []func()) {
			kit.Parallel(len(bodies), func(i int) { bodies[i]() })
		})
		c.NonTrivial()
	})
}
