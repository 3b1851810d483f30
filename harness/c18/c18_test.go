// C18: series keys and tag sets are immutable, canonical and unambiguous.
package c18

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"

	monkit "github.com/spacemonkeygo/monkit/v3"
	"pgregory.net/rapid"

	"verif.local/harness/kit"
)

func TestMain(m *testing.M) { kit.Main(m) }

// set is a tag set or series key with its reference contents.
type set struct {
	tags *monkit.TagSet
	want map[string]string
	meas string // of a key
	key  bool
}

func (s set) series() monkit.SeriesKey { return monkit.SeriesKey{Measurement: s.meas, Tags: s.tags} }

func esc(s, chars string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(chars, s[i]) >= 0 {
			b.WriteByte('\\')
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func text(tags map[string]string) string {
	var keys []string
	for k := range tags {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var parts []string
	for _, k := range keys {
		parts = append(parts, esc(k, ", =")+"="+esc(tags[k], ", ="))
	}
	return strings.Join(parts, ",")
}

func seriesText(m string, tags map[string]string) string {
	if len(tags) == 0 {
		return esc(m, ", ")
	}
	return esc(m, ", ") + "," + text(tags)
}

// parse reads a text form back.
func parse(s string) (m string, tags [][2]string, field string, hasField bool) {
	part := 0 // measurement, key, value, field
	var cur strings.Builder
	var key string
	flush := func() {
		switch part {
		case 0:
			m = cur.String()
		case 1:
			key = cur.String()
		case 2:
			tags = append(tags, [2]string{key, cur.String()})
		case 3:
			field, hasField = cur.String(), true
		}
		cur.Reset()
	}
	for i := 0; i < len(s); i++ {
		switch ch := s[i]; {
		case ch == '\\' && i+1 < len(s) && (s[i+1] == ',' || s[i+1] == ' ' || s[i+1] == '=' && part > 0):
			i++
			cur.WriteByte(s[i])
		case ch == ',' && part != 3:
			flush()
			part = 1
		case ch == '=' && part == 1:
			flush()
			part = 2
		case ch == ' ' && part != 3:
			flush()
			part = 3
		default:
			cur.WriteByte(ch)
		}
	}
	flush()
	return
}

func backslash(m string, tags map[string]string) bool {
	if strings.Contains(m, "\\") {
		return true
	}
	for k, v := range tags {
		if strings.Contains(k, "\\") || strings.Contains(v, "\\") {
			return true
		}
	}
	return false
}

func clone(m map[string]string) map[string]string {
	out := map[string]string{}
	for k, v := range m {
		out[k] = v
	}
	return out
}

func (s set) check(t *rapid.T) {
	if s.tags.Len() != len(s.want) {
		t.Fatalf("%d tags, want %v", s.tags.Len(), s.want)
	}
	all := s.tags.All()
	if len(all) != len(s.want) || len(s.want) > 0 && !reflect.DeepEqual(all, s.want) {
		t.Fatalf("tags %v, want %v", all, s.want)
	}
	for k, v := range s.want {
		if s.tags.Get(k) != v {
			t.Fatalf("tag %q is %q, want %q", k, s.tags.Get(k), v)
		}
	}
	if s.want["no such tag"] == "" && s.tags.Get("no such tag") != "" {
		t.Fatalf("a tag that is not there")
	}
	if !backslash("", s.want) && s.tags.String() != text(s.want) {
		t.Fatalf("text %q, want %q", s.tags.String(), text(s.want))
	}
	if !s.key || backslash(s.meas, s.want) {
		return
	}
	k := s.series()
	if k.Measurement != s.meas {
		t.Fatalf("measurement %q, want %q", k.Measurement, s.meas)
	}
	if k.String() != seriesText(s.meas, s.want) {
		t.Fatalf("series %q, want %q", k.String(), seriesText(s.meas, s.want))
	}
	m, tags, _, _ := parse(k.String())
	back := map[string]string{}
	for i, kv := range tags {
		back[kv[0]] = kv[1]
		if i > 0 && kv[0] <= tags[i-1][0] {
			t.Fatalf("tags not sorted in %q", k.String())
		}
	}
	if m != s.meas || !reflect.DeepEqual(back, clone(s.want)) {
		t.Fatalf("series %q reads back as %q %v, want %q %v", k.String(), m, back, s.meas, s.want)
	}
	for _, f := range []string{"f", "a b", "x=y,z"} {
		got := k.WithField(f)
		if want := seriesText(s.meas, s.want) + " " + esc(f, ", ="); got != want {
			t.Fatalf("with field %q, want %q", got, want)
		}
		_, _, field, ok := parse(got)
		if !ok || strings.ReplaceAll(field, "\\=", "=") != f {
			t.Fatalf("%q reads back with field %q", got, field)
		}
	}
}

func keys(m map[string]string) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func drawText(t *rapid.T, label string) string {
	switch rapid.IntRange(0, 5).Draw(t, label+"?") {
	case 0:
		return kit.Text(t, label)
	case 1, 2:
		return rapid.StringOfN(rapid.SampledFrom([]rune("a,= ")), 0, 4, -1).Draw(t, label)
	default:
		return rapid.SampledFrom([]string{"a", "b", "c", "a,b", "b=c", " ", "", "\\", "B"}).Draw(t, label)
	}
}

func TestModel(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		sets := []set{{tags: nil, want: map[string]string{}}, {tags: &monkit.TagSet{}, want: map[string]string{}}}
		nasty, overlaid := false, false
		for n := rapid.IntRange(1, 14).Draw(t, "n"); n > 0; n-- {
			b := sets[rapid.IntRange(0, len(sets)-1).Draw(t, "base")]
			ns := set{want: clone(b.want), meas: b.meas, key: b.key}
			var kvs []monkit.SeriesTag
			for k := rapid.IntRange(0, 3).Draw(t, "tags"); k > 0; k-- {
				key := drawText(t, "key")
				if have := keys(b.want); len(have) > 0 && rapid.IntRange(0, 3).Draw(t, "like") == 0 {
					key = kit.Related(t, "key", have...)
				}
				kvs = append(kvs, monkit.NewSeriesTag(key, drawText(t, "val")))
			}
			for k := kit.Some(t, "more tags", 0, 0); k > 0; k-- {
				kvs = append(kvs, monkit.NewSeriesTag(fmt.Sprint("k", k), fmt.Sprint(k)))
			}
			m := map[string]string{}
			for _, kv := range kvs {
				m[kv.Key] = kv.Val
				_, had := ns.want[kv.Key]
				overlaid = overlaid || had
				nasty = nasty || strings.ContainsAny(kv.Key+kv.Val, ", =")
			}
			if rapid.IntRange(0, 2).Draw(t, "look") == 0 {
				_ = b.tags.String() // whether its text is known yet must not matter
			}
			op := rapid.SampledFrom([]string{"set", "settags", "setall", "withtag", "withtags", "new"}).Draw(t, "op")
			c.Logf("%s %q on %q %v", op, kvs, b.meas, b.want)
			switch op {
			case "set":
				if len(kvs) == 0 {
					continue
				}
				ns.tags = b.tags.Set(kvs[0].Key, kvs[0].Val)
				ns.want[kvs[0].Key] = kvs[0].Val
			case "settags":
				ns.tags = b.tags.SetTags(kvs...)
				for _, kv := range kvs {
					ns.want[kv.Key] = kv.Val
				}
				for i := range kvs {
					kvs[i] = monkit.NewSeriesTag("changed", "later")
				}
			case "setall":
				ns.tags = b.tags.SetAll(m)
				for k, v := range m {
					ns.want[k] = v
				}
				m["changed"] = "later"
			case "withtag":
				if len(kvs) == 0 {
					continue
				}
				k := b.series().WithTag(kvs[0].Key, kvs[0].Val)
				ns.tags, ns.key = k.Tags, true
				if k.Measurement != b.meas {
					t.Fatalf("measurement changed")
				}
				ns.want[kvs[0].Key] = kvs[0].Val
			case "withtags":
				k := b.series().WithTags(kvs...)
				if k.Measurement != b.meas {
					t.Fatalf("measurement changed")
				}
				ns.tags, ns.key = k.Tags, true
				for _, kv := range kvs {
					ns.want[kv.Key] = kv.Val
				}
			case "new":
				ns.meas = drawText(t, "measurement")
				k := monkit.NewSeriesKey(ns.meas)
				ns.tags, ns.key, ns.want = k.Tags, true, map[string]string{}
				nasty = nasty || strings.ContainsAny(ns.meas, ", ")
			}
			sets = append(sets, ns)
			for _, s := range sets {
				s.check(t)
			}
		}
		// the same contents give the same text, others another
		for i, a := range sets {
			for _, b := range sets[:i] {
				same := reflect.DeepEqual(a.want, b.want)
				if same && a.tags.String() != b.tags.String() {
					t.Fatalf("tags %v as %q and %q", a.want, a.tags.String(), b.tags.String())
				}
				if !same && !backslash("", a.want) && !backslash("", b.want) && a.tags.String() == b.tags.String() {
					// one tag with empty key and value against none is told
					// apart by the equals sign
					t.Fatalf("tags %v and %v both as %q", a.want, b.want, a.tags.String())
				}
				if a.key && b.key {
					if same && a.meas == b.meas {
						if a.series().String() != b.series().String() {
							t.Fatalf("series as %q and %q", a.series(), b.series())
						}
					} else if !backslash(a.meas, a.want) && !backslash(b.meas, b.want) && a.series().String() == b.series().String() {
						t.Fatalf("different series both as %q", a.series())
					}
				}
			}
		}
		// built in another order
		last := sets[len(sets)-1]
		var keys []string
		for k := range last.want {
			keys = append(keys, k)
		}
		sort.Sort(sort.Reverse(sort.StringSlice(keys)))
		var other *monkit.TagSet
		for _, k := range keys {
			other = other.Set(k, "x").Set(k, last.want[k])
		}
		if other.String() != last.tags.String() {
			t.Fatalf("built differently: %q and %q", other.String(), last.tags.String())
		}
		c.LabelIf(overlaid, "tag replaced")
		c.NonTrivialIf(nasty && len(sets) > 4)
	})
}

// concurrent use of shared sets
func concurrent(t *rapid.T, c *kit.Case, rounds int, run func([]func())) {
	type step struct {
		op       string
		key, val string
	}
	nt := rapid.IntRange(2, 3).Draw(t, "threads")
	progs := make([][]step, nt)
	for i := range progs {
		for n := rapid.IntRange(1, 4).Draw(t, "len"); n > 0; n-- {
			s := step{rapid.SampledFrom([]string{"string", "string", "set", "with", "all", "field"}).Draw(t, "op"), kit.Plain(t, "key"), kit.Plain(t, "val")}
			c.Logf("T%d %+v", i, s)
			progs[i] = append(progs[i], s)
		}
	}
	for r := 0; r < rounds; r++ {
		base := monkit.NewSeriesKey("m").WithTag("b", "1").WithTag("a", "x y")
		want := map[string]string{"b": "1", "a": "x y"}
		var mu sync.Mutex
		bad := ""
		fail := func(format string, args ...interface{}) {
			mu.Lock()
			bad = fmt.Sprintf(format, args...)
			mu.Unlock()
		}
		var bodies []func()
		for i := range progs {
			i := i
			bodies = append(bodies, func() {
				for _, s := range progs[i] {
					with := clone(want)
					with[s.key] = s.val
					var got, exp string
					switch s.op {
					case "string":
						got, exp = base.String(), seriesText("m", want)
					case "set":
						got, exp = base.Tags.Set(s.key, s.val).String(), text(with)
					case "with":
						got, exp = base.WithTags(monkit.NewSeriesTag(s.key, s.val)).String(), seriesText("m", with)
					case "all":
						got, exp = text(base.Tags.All()), text(want)
					case "field":
						got, exp = base.WithField("f"), seriesText("m", want)+" f"
					}
					if got != exp {
						fail("%+v: %q, want %q", s, got, exp)
					}
				}
			})
		}
		run(bodies)
		if bad != "" {
			t.Fatalf("%s", bad)
		}
	}
}

func TestSched(t *testing.T) {
	kit.NeedSched(t, func() { _ = monkit.NewSeriesKey("m").WithTag("b", "1").String() })
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		sched := kit.Schedule(t)
		c.Logf("%v", sched)
		concurrent(t, c, 1, func(bodies []func()) {
			res := kit.Sched(t, c, sched, bodies...)
			c.NonTrivialIf(res.Switches > len(bodies))
		})
	})
}

func TestRace(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		concurrent(t, c, rapid.IntRange(1, 8).Draw(t, "rounds"), func(bodies []func()) {
			kit.Parallel(len(bodies), func(i int) { bodies[i]() })
		})
		c.NonTrivial()
	})
}
