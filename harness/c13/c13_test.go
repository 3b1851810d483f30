// C13: meters conserve events and report the windowed rate.
package c13

import (
	"fmt"
	"math"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	monkit "github.com/spacemonkeygo/monkit/v3"
	"pgregory.net/rapid"

	"verif.local/harness/kit"
)

func TestMain(m *testing.M) { kit.Main(m) }

const (
	tick = 10 * time.Minute
	keep = 24
)

// meter is the reference meter.
type meter struct {
	real    *monkit.Meter
	name    string
	total   int64 // events that left the window, and the initial total
	buckets []bucket
	marked  int64 // since the reset
	initial int64
	flushed bool
	marks   int
}

type bucket struct {
	count int64
	start time.Time
}

func newModel(now time.Time) *meter {
	m := &meter{}
	for i := 0; i < keep; i++ {
		m.buckets = append(m.buckets, bucket{start: now})
	}
	return m
}

func (m *meter) mark(n int64) {
	m.buckets[keep-1].count += n
	m.marked += n
	m.marks++
}

func (m *meter) tick(now time.Time) {
	if m.buckets[keep-1].count != 0 {
		if m.buckets[0].count != 0 {
			m.flushed = true
		}
		m.total += m.buckets[0].count
		m.buckets = append(m.buckets[1:], bucket{start: now})
	}
}

func (m *meter) stats(now time.Time) (rate, total float64) {
	var n int64
	for _, b := range m.buckets {
		n += b.count
	}
	if d := now.Sub(m.buckets[0].start).Seconds(); d > 0 {
		rate = float64(n) / d
	}
	return rate, float64(m.total + n)
}

func export(s monkit.StatSource, key string) (rate, total float64, bad string) {
	got := map[string]float64{}
	n := 0
	s.Stats(func(k monkit.SeriesKey, field string, val float64) {
		if k.String() != key {
			bad = "key " + k.String()
		}
		n++
		got[field] = val
	})
	if n != 2 || len(got) != 2 {
		bad = fmt.Sprint("exports ", got)
	}
	return got["rate"], got["total"], bad
}

func near(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-9*math.Max(math.Abs(a), math.Abs(b))
}

// the ticks of all meters of the process come every ten minutes from the
// creation of its first meter on
var firstTick time.Time

var filler int // meters that just are there

var veterans []*monkit.Meter // meters of the process's beginning and of earlier cases

func TestFake(t *testing.T) {
	if !kit.Fake {
		t.Skip("needs the fake clock")
	}
	firstTick = time.Now()
	for i := 0; i < 3; i++ {
		veterans = append(veterans, monkit.NewMeter(monkit.NewSeriesKey(fmt.Sprint("v", i))))
	}
	time.Sleep(time.Second) // operations are never at a tick
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		reg := monkit.NewRegistry()
		scope := reg.ScopeNamed("s")
		var ms []*meter
		type diff struct {
			real monkit.StatSource
			a, b *meter
			key  string
		}
		var diffs []diff
		add := func() *meter {
			m := newModel(time.Now())
			m.name = fmt.Sprint("m", len(ms))
			switch rapid.IntRange(0, 2).Draw(t, "how") {
			case 0:
				m.real = monkit.NewMeter(monkit.NewSeriesKey(m.name))
			case 1:
				m.real = scope.Meter(m.name)
			default:
				scope.Event(m.name) // counts one, creates the meter
				m.mark(1)
				m.real = scope.Meter(m.name)
			}
			c.Logf("new %s", m.name)
			ms = append(ms, m)
			return m
		}
		if filler < 3000 && rapid.IntRange(0, 15).Draw(t, "filler") == 0 {
			// a process with very many meters, used or not
			for i := 0; i < 600; i++ {
				filler++
				m := monkit.NewMeter(monkit.NewSeriesKey("filler"))
				m.Mark(i % 2)
				if i%120 == 0 {
					v := monkit.NewMeter(monkit.NewSeriesKey(fmt.Sprint("v", len(veterans))))
					veterans = append(veterans, v)
				}
			}
		}
		if rapid.IntRange(0, 3).Draw(t, "veteran") == 0 {
			// a meter that has been there for long, reset
			i := rapid.IntRange(0, len(veterans)-1).Draw(t, "which one")
			v := veterans[i]
			v.Reset(0)
			m := newModel(time.Now())
			m.name, m.real = fmt.Sprint("v", i), v
			c.Logf("old %s", m.name)
			c.Label("a meter of long before")
			ms = append(ms, m)
		} else {
			add()
		}
		sleep := func(d time.Duration) {
			from := time.Now()
			// never end at a tick
			for (from.Add(d).Sub(firstTick))%tick < time.Second {
				d += time.Second
			}
			time.Sleep(d)
			to := time.Now()
			k := from.Sub(firstTick)/tick + 1
			for at := firstTick.Add(k * tick); !at.After(to); at = at.Add(tick) {
				for _, m := range ms {
					m.tick(at)
				}
			}
		}
		compare := func(m *meter) {
			now := time.Now()
			rate, total := m.stats(now)
			if g := m.real.Total(); g != total || total != float64(m.initial+m.marked) {
				t.Fatalf("%s: total %v, want %v", m.name, g, total)
			}
			if g := m.real.Rate(); !near(g, rate) {
				t.Fatalf("%s: rate %v, want %v", m.name, g, rate)
			}
			gr, gt, bad := export(m.real, m.name)
			if bad != "" || gt != total || !near(gr, rate) {
				t.Fatalf("%s: exports rate %v total %v %s, want %v %v", m.name, gr, gt, bad, rate, total)
			}
		}
		ticks := 0
		for n := rapid.IntRange(1, 60).Draw(t, "n"); n > 0; n-- {
			m := ms[rapid.IntRange(0, len(ms)-1).Draw(t, "which")]
			switch op := rapid.SampledFrom([]string{"mark", "mark", "mark", "mark64", "tick", "tick", "tick", "sleep", "long", "busy", "reset", "settotal", "new", "diff", "read"}).Draw(t, "op"); op {
			case "mark", "mark64":
				k := int64(rapid.SampledFrom([]int{0, 1, 1, 2, 5, 1000, -1, -7}).Draw(t, "k"))
				k *= rapid.SampledFrom([]int64{1, 1, 1, 1 << 33}).Draw(t, "by")
				if op == "mark" {
					m.real.Mark(int(k))
				} else {
					m.real.Mark64(k)
				}
				c.Logf("%s mark %d", m.name, k)
				m.mark(k)
			case "tick":
				c.Logf("one tick")
				sleep(tick)
				ticks++
			case "sleep":
				d := time.Duration(rapid.IntRange(1, 1200).Draw(t, "secs")) * time.Second
				if rapid.IntRange(0, 3).Draw(t, "short") == 0 {
					d = rapid.SampledFrom([]time.Duration{1, 10, 999, time.Microsecond, 1001, time.Millisecond, 999 * time.Millisecond}).Draw(t, "for")
				}
				c.Logf("sleep %v", d)
				sleep(d)
			case "long":
				k := rapid.IntRange(2, 40).Draw(t, "ticks")
				c.Logf("%d ticks", k)
				sleep(time.Duration(k) * tick)
				ticks += k
			case "busy":
				// active for many ticks
				k := rapid.IntRange(2, 40).Draw(t, "ticks")
				e := int64(rapid.IntRange(1, 3).Draw(t, "every"))
				sign := rapid.SampledFrom([]int64{1, 1, 1, -1}).Draw(t, "sign")
				c.Logf("%s active for %d ticks", m.name, k)
				for i := int64(0); i < int64(k); i++ {
					if i%e == 0 {
						m.real.Mark64(sign * (i + 1))
						m.mark(sign * (i + 1))
					}
					sleep(tick)
				}
				ticks += k
			case "reset":
				if rapid.IntRange(0, 1).Draw(t, "really") == 0 {
					k := rapid.SampledFrom([]int64{0, 0, 7, -3, 1 << 40, -1 << 33}).Draw(t, "to")
					c.Logf("%s reset %d", m.name, k)
					m.real.Reset(k)
					r, nm := m.real, m.name
					*m = *newModel(time.Now())
					m.real, m.name, m.total, m.initial = r, nm, k, k
				}
			case "settotal":
				if m.marks == 0 { // documented for the initial total
					k := rapid.OneOf(rapid.Int64Range(-5, 100), rapid.Int64Range(-1<<40, 1<<40)).Draw(t, "to")
					c.Logf("%s set total %d", m.name, k)
					m.real.SetTotal(k)
					m.total, m.initial = k, k
				}
			case "new":
				if len(ms) < 4 {
					add()
				}
			case "diff":
				if len(diffs) < 2 {
					b := ms[rapid.IntRange(0, len(ms)-1).Draw(t, "other")]
					d := diff{a: m, b: b, key: fmt.Sprint("d", len(diffs))}
					if rapid.Bool().Draw(t, "scoped") {
						scope.DiffMeter(d.key, m.real, b.real)
						scope.Stats(func(k monkit.SeriesKey, field string, val float64) {})
						d.real = monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
							scope.Stats(func(k monkit.SeriesKey, field string, val float64) {
								if k.Measurement == d.key {
									cb(monkit.NewSeriesKey(d.key), field, val)
								}
							})
						})
					} else {
						d.real = monkit.NewDiffMeter(monkit.NewSeriesKey(d.key), m.real, b.real)
					}
					c.Logf("%s = %s - %s", d.key, m.name, b.name)
					diffs = append(diffs, d)
				}
			case "read":
				compare(m)
			}
			for _, m := range ms {
				compare(m)
			}
			for _, d := range diffs {
				now := time.Now()
				r1, t1 := d.a.stats(now)
				r2, t2 := d.b.stats(now)
				r, tt, bad := export(d.real, d.key)
				if bad != "" || math.Abs(r-(r1-r2)) > 1e-9*(math.Abs(r1)+math.Abs(r2)) || tt != t1-t2 {
					t.Fatalf("%s exports %v %v %s, want %v %v", d.key, r, tt, bad, r1-r2, t1-t2)
				}
			}
		}
		flushed := false
		for _, m := range ms {
			flushed = flushed || m.flushed
		}
		c.LabelIf(flushed, "events left the window")
		c.NonTrivialIf(ticks > 1 && len(ms) > 0)
	})
}

// linearizable totals

type op struct {
	kind     string
	arg      int64
	out      float64
	inv, res int64
}

func (o *op) do(m *monkit.Meter) {
	switch o.kind {
	case "mark":
		m.Mark(int(o.arg))
	case "mark64":
		m.Mark64(o.arg)
	case "reset":
		m.Reset(o.arg)
	case "total":
		o.out = m.Total()
	case "stats":
		m.Stats(func(_ monkit.SeriesKey, field string, val float64) {
			if field == "total" {
				o.out = val
			}
		})
	}
}

func (o op) step(s int64) (int64, bool) {
	switch o.kind {
	case "mark", "mark64":
		return s + o.arg, true
	case "reset":
		return o.arg, true
	}
	return s, float64(s) == o.out
}

func concurrent(t *rapid.T, c *kit.Case, now func() int64, rounds int, run func([]func())) {
	m := monkit.NewMeter(monkit.NewSeriesKey("m"))
	nt := rapid.IntRange(2, 3).Draw(t, "threads")
	progs := make([][]op, nt)
	for i := range progs {
		for n := rapid.IntRange(1, 4).Draw(t, "len"); n > 0; n-- {
			o := op{kind: rapid.SampledFrom([]string{"mark", "mark", "mark64", "mark64", "total", "stats", "reset"}).Draw(t, "kind"),
				arg: int64(rapid.IntRange(1, 5).Draw(t, "arg"))}
			c.Logf("T%d %s %d", i, o.kind, o.arg)
			progs[i] = append(progs[i], o)
		}
	}
	for r := 0; r < rounds; r++ {
		m.Reset(0)
		var mu sync.Mutex
		clk := func() int64 { mu.Lock(); defer mu.Unlock(); return now() }
		var bodies []func()
		hist := make([][]op, nt)
		for i := range progs {
			i := i
			hist[i] = append([]op(nil), progs[i]...)
			bodies = append(bodies, func() {
				for k := range hist[i] {
					o := &hist[i][k]
					o.inv = clk()
					o.do(m)
					o.res = clk()
				}
			})
		}
		run(bodies)
		end := m.Total()
		var ops []kit.LinOp
		var desc strings.Builder
		for i := range hist {
			for _, o := range hist[i] {
				o := o
				fmt.Fprintf(&desc, "T%d %+v\n", i, o)
				ops = append(ops, kit.LinOp{Inv: o.inv, Res: o.res, Step: func(s interface{}) (interface{}, bool) {
					n, ok := o.step(s.(int64))
					return n, ok
				}})
			}
		}
		if !kit.Linearizable(int64(0), ops, func(s interface{}) bool { return float64(s.(int64)) == end }) {
			t.Fatalf("no ordering explains\n%sat the end %v", desc.String(), end)
		}
	}
}

func TestSched(t *testing.T) {
	// the ticker starts with the first meter, outside of the scheduler
	m := monkit.NewMeter(monkit.NewSeriesKey("m"))
	kit.NeedSched(t, func() { m.Mark(1) })
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		sched := kit.Schedule(t)
		c.Logf("%v", sched)
		var clk int64
		concurrent(t, c, func() int64 { clk++; return clk }, 1, func(bodies []func()) {
			res := kit.Sched(t, c, sched, bodies...)
			c.NonTrivialIf(res.Switches > len(bodies))
		})
	})
}

func TestRace(t *testing.T) {
	// the process's first meters are made all at once
	kit.Parallel(8, func(int) { monkit.NewMeter(monkit.NewSeriesKey("m")).Mark(1) })
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		concurrent(t, c, kit.Clock, rapid.IntRange(1, 8).Draw(t, "rounds"), func(bodies []func()) {
			kit.Parallel(len(bodies), func(i int) { bodies[i]() })
		})
		c.NonTrivial()
	})
}

// TestTick: with ticks coming all the time, no event is lost or counted twice.
func TestTick(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		m := monkit.NewMeter(monkit.NewSeriesKey("m"))
		initial := int64(rapid.IntRange(0, 10).Draw(t, "initial"))
		m.SetTotal(initial)
		markers := rapid.IntRange(1, 3).Draw(t, "markers")
		per := rapid.IntRange(100, 3000).Draw(t, "per")
		pause := rapid.IntRange(0, 50).Draw(t, "pause")
		c.Logf("%d markers of %d pausing %d", markers, per, pause)
		var left atomic.Int64
		left.Store(int64(markers))
		var begun, done atomic.Int64
		bad := make(chan string, markers+1)
		kit.Parallel(markers+1, func(i int) {
			if i == markers {
				last := 0.0
				for left.Load() > 0 {
					lo := initial + done.Load()
					got := m.Total()
					hi := initial + begun.Load()
					if got < float64(lo) || got > float64(hi) || got < last {
						select {
						case bad <- fmt.Sprintf("total %v, between %d and %d events marked, before %v", got, lo, hi, last):
						default:
						}
						return
					}
					last = got
					if r := m.Rate(); r < 0 || math.IsNaN(r) {
						bad <- fmt.Sprintf("rate %v", r)
						return
					}
				}
				return
			}
			defer left.Add(-1)
			for k := 0; k < per; k++ {
				begun.Add(1)
				m.Mark(1)
				done.Add(1)
				if pause > 0 && k%50 == 0 {
					time.Sleep(time.Duration(pause) * time.Microsecond)
				}
			}
		})
		select {
		case b := <-bad:
			t.Fatalf("%s", b)
		default:
		}
		if got, want := m.Total(), float64(initial+int64(markers*per)); got != want {
			t.Fatalf("total %v, want %v", got, want)
		}
		c.NonTrivial()
	})
}
