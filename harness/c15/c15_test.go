// C15: a name and tag list always denotes the same single metric.
package c15

import (
	"fmt"
	"strings"
	"sync"
	"testing"

	monkit "github.com/spacemonkeygo/monkit/v3"
	"pgregory.net/rapid"

	"verif.local/harness/kit"
)

func TestMain(m *testing.M) { kit.Main(m) }

type ident struct {
	fn   bool // function or value metric
	name string
	tags string // an injective rendering of the list
}

type request struct {
	kind string
	name string
	tags []monkit.SeriesTag
}

func (r request) ident() ident {
	return ident{r.kind == "func" || r.kind == "taskfunc", r.name, fmt.Sprintf("%q", r.tags)}
}

// family is the kind of the object, for kinds with several ways to ask.
func (r request) family() string {
	switch r.kind {
	case "taskfunc":
		return "func"
	case "intvalf":
		return "intval"
	case "floatvalf":
		return "floatval"
	case "boolvalf":
		return "boolval"
	case "event":
		return "meter"
	}
	return r.kind
}

func (r request) String() string { return fmt.Sprintf("%s %q %q", r.kind, r.name, r.tags) }

// do asks for the metric. The object is nil for those that are not returned.
func (r request) do(s *monkit.Scope) (obj interface{}, panicked interface{}) {
	panicked = kit.Safely(func() {
		switch r.kind {
		case "func":
			obj = s.FuncNamed(r.name, r.tags...)
		case "taskfunc":
			obj = s.TaskNamed(r.name, r.tags...).Func()
		case "meter":
			obj = s.Meter(r.name, r.tags...)
		case "event":
			s.Event(r.name, r.tags...)
		case "diff":
			s.DiffMeter(r.name, meter1, meter2, r.tags...)
		case "intval":
			obj = s.IntVal(r.name, r.tags...)
		case "intvalf":
			obj = s.IntValf("%s", r.name)
		case "floatval":
			obj = s.FloatVal(r.name, r.tags...)
		case "floatvalf":
			obj = s.FloatValf("%s", r.name)
		case "boolval":
			obj = s.BoolVal(r.name, r.tags...)
		case "boolvalf":
			obj = s.BoolValf("%s", r.name)
		case "structval":
			obj = s.StructVal(r.name, r.tags...)
		case "durval":
			obj = s.DurationVal(r.name, r.tags...)
		case "timer":
			obj = s.Timer(r.name, r.tags...)
		case "counter":
			obj = s.Counter(r.name, r.tags...)
		case "gauge":
			s.Gauge(r.name, func() float64 { return 1 })
		}
	})
	return obj, panicked
}

var meter1, meter2 = monkit.NewMeter(monkit.NewSeriesKey("a")), monkit.NewMeter(monkit.NewSeriesKey("b"))

var kinds = []string{"func", "func", "func", "taskfunc", "meter", "event", "diff", "intval", "intvalf", "floatval", "floatvalf", "boolval", "boolvalf", "structval", "durval", "timer", "counter", "counter", "gauge"}

var atoms = []string{"a", "b", ",", "=", ":", "func:", "\\", "\\,", "\\\\", " ", "a=b", ",a=b", "\"", "é", "\xff", "\x00", "name", "%s"}

func text(t *rapid.T, label string) string {
	if rapid.IntRange(0, 39).Draw(t, "long") == 0 {
		return strings.Repeat("long ", rapid.SampledFrom([]int{30, 60, 300, 2000}).Draw(t, "times")) + rapid.SampledFrom(atoms).Draw(t, "end")
	}
	return strings.Join(rapid.SliceOfN(rapid.SampledFrom(atoms), 0, 3).Draw(t, label), "")
}

func draw(t *rapid.T, kinds []string, simple bool) request {
	r := request{kind: rapid.SampledFrom(kinds).Draw(t, "kind")}
	str := text
	if simple {
		str = kit.Plain
	}
	r.name = str(t, "name")
	switch r.kind {
	case "intvalf", "floatvalf", "boolvalf", "gauge":
	default:
		for n := rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3}).Draw(t, "tags"); n > 0; n-- {
			r.tags = append(r.tags, monkit.NewSeriesTag(str(t, "key"), str(t, "val")))
		}
		for n := kit.Some(t, "more tags", 0, 0); n > 0; n-- {
			r.tags = append(r.tags, monkit.NewSeriesTag(fmt.Sprint("k", n), "v"))
		}
		if len(r.tags) > 8 {
			last := &r.tags[len(r.tags)-1]
			last.Val = str(t, "last val")
		}
	}
	return r
}

// respell draws a request whose parts glued together look like another's.
func respell(t *rapid.T, r request) request {
	out := request{kind: r.kind, name: r.name, tags: append([]monkit.SeriesTag(nil), r.tags...)}
	switch r.kind {
	case "intvalf", "floatvalf", "boolvalf", "gauge":
		return out
	}
	switch rapid.IntRange(0, 9).Draw(t, "respell") {
	case 7, 8, 9: // the parts in one piece, escaped or not, cut up again
		return cut(t, r)
	case 0: // a tag moved into the name
		if len(out.tags) > 0 {
			out.name += "," + out.tags[0].Key + "=" + out.tags[0].Val
			out.tags = out.tags[1:]
		}
	case 1: // a tag moved into the value before
		if len(out.tags) > 1 {
			out.tags[0].Val += "," + out.tags[1].Key + "=" + out.tags[1].Val
			out.tags = append(out.tags[:1:1], out.tags[2:]...)
		}
	case 2: // the border between key and value
		if len(out.tags) > 0 {
			if i := strings.Index(out.tags[0].Val, "="); i >= 0 {
				out.tags[0].Key += "=" + out.tags[0].Val[:i]
				out.tags[0].Val = out.tags[0].Val[i+1:]
			} else {
				out.tags[0].Key, out.tags[0].Val = out.tags[0].Key+"="+out.tags[0].Val, ""
			}
		}
	case 3: // another order
		if len(out.tags) > 1 {
			out.tags[0], out.tags[1] = out.tags[1], out.tags[0]
		}
	case 4: // escaped
		out.name = strings.NewReplacer(",", "\\,", "=", "\\=", "\\", "\\\\", ":", "\\:").Replace(out.name)
	case 5: // another name space
		if out.kind == "func" {
			out.kind = "counter"
			out.name = "func:" + out.name
		} else if strings.HasPrefix(out.name, "func:") {
			out.kind = "func"
			out.name = out.name[5:]
		}
	default: // a tag appears twice
		if len(out.tags) > 0 {
			out.tags = append(out.tags, out.tags[0])
		}
	}
	return out
}

// cut glues the parts of r together, with and without escaping, and divides
// them up in some way.
func cut(t *rapid.T, r request) request {
	flip := func() bool { return rapid.Bool().Draw(t, "flip") }
	escape := func(s string) string {
		var b strings.Builder
		for i := 0; i < len(s); i++ {
			if strings.IndexByte(",=:\\", s[i]) >= 0 && flip() {
				b.WriteByte('\\')
			}
			b.WriteByte(s[i])
		}
		if flip() {
			b.WriteByte('\\')
		}
		return b.String()
	}
	flat := escape(r.name)
	for _, tag := range r.tags {
		flat += "," + escape(tag.Key) + "=" + escape(tag.Val)
	}
	parts := []string{""}
	for i := 0; i < len(flat); i++ {
		sep := byte(',')
		if len(parts)%2 == 0 {
			sep = '='
		}
		switch {
		case flat[i] == sep && flip():
			parts = append(parts, "")
		case flat[i] == '\\' && flip():
		default:
			parts[len(parts)-1] += flat[i : i+1]
		}
	}
	out := request{kind: r.kind, name: parts[0]}
	for i := 1; i < len(parts); i += 2 {
		val := ""
		if i+1 < len(parts) {
			val = parts[i+1]
		}
		out.tags = append(out.tags, monkit.NewSeriesTag(parts[i], val))
	}
	return out
}

func TestModel(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		reg := monkit.NewRegistry()
		s := reg.ScopeNamed("s")
		simple := rapid.IntRange(0, 3).Draw(t, "simple") == 0
		type entry struct {
			family string
			obj    interface{}
		}
		have := map[ident]*entry{}
		owner := map[interface{}]ident{}
		var past []request
		again, conflicts := 0, 0
		var crowd []interface{}
		ask := func(i int) interface{} {
			if i%2 == 0 {
				return s.Counter(fmt.Sprint("crowd ", i), monkit.NewSeriesTag("i", fmt.Sprint(i/4)))
			}
			return s.FuncNamed(fmt.Sprint("crowd ", i/4*4), monkit.NewSeriesTag("i", fmt.Sprint(i)))
		}
		if rapid.IntRange(0, 7).Draw(t, "crowded") == 0 {
			for i := rapid.IntRange(10, 300).Draw(t, "crowd"); i > 0; i-- {
				crowd = append(crowd, ask(len(crowd)))
			}
			c.Logf("%d other metrics", len(crowd))
		}
		for n := rapid.IntRange(2, 25).Draw(t, "n"); n > 0; n-- {
			var r request
			switch k := rapid.IntRange(0, 9).Draw(t, "new"); {
			case k < 4 || len(past) == 0:
				r = draw(t, kinds, simple)
			case k < 6:
				r = respell(t, rapid.SampledFrom(past).Draw(t, "like"))
			case k < 7: // one part a little different
				old := rapid.SampledFrom(past).Draw(t, "near")
				r = request{kind: old.kind, name: old.name, tags: append([]monkit.SeriesTag(nil), old.tags...)}
				switch i := rapid.IntRange(-1, 2*len(r.tags)-1).Draw(t, "part"); {
				case i < 0:
					r.name = kit.Related(t, "name", r.name)
				case i%2 == 0:
					r.tags[i/2].Key = kit.Related(t, "key", r.tags[i/2].Key)
				default:
					r.tags[i/2].Val = kit.Related(t, "val", r.tags[i/2].Val)
				}
			default:
				r = rapid.SampledFrom(past).Draw(t, "again")
				if rapid.Bool().Draw(t, "otherkind") {
					r.kind = rapid.SampledFrom(kinds).Draw(t, "kind")
				}
			}
			switch r.kind {
			case "intvalf", "floatvalf", "boolvalf", "gauge":
				r.tags = nil
			}
			c.Logf("%v", r)
			past = append(past, r)
			obj, panicked := r.do(s)
			e := have[r.ident()]
			if e == nil {
				if panicked != nil {
					t.Fatalf("%v panicked: %v", r, panicked)
				}
				e = &entry{family: r.family()}
				have[r.ident()] = e
			} else if e.family != r.family() {
				conflicts++
				if panicked == nil {
					t.Fatalf("%v did not panic, is a %s", r, e.family)
				}
				continue
			} else {
				again++
				if panicked != nil {
					t.Fatalf("%v panicked: %v", r, panicked)
				}
			}
			if obj == nil {
				continue
			}
			if e.obj == nil {
				e.obj = obj
				if o, ok := owner[obj]; ok {
					t.Fatalf("%v is the same object as %+v", r, o)
				}
				owner[obj] = r.ident()
			} else if e.obj != obj {
				t.Fatalf("%v is another object than before", r)
			}
		}
		// functions are enumerated once each
		n := 0
		for id := range have {
			if id.fn {
				n++
			}
		}
		for i, obj := range crowd {
			if ask(i) != obj {
				t.Fatalf("metric %d of %d others is another object than before", i, len(crowd))
			}
			if o, ok := owner[obj]; ok {
				t.Fatalf("metric %d of the others is the same object as %+v", i, o)
			}
			owner[obj] = ident{}
			n += i % 2
		}
		seen := map[*monkit.Func]bool{}
		s.Funcs(func(f *monkit.Func) {
			if seen[f] {
				t.Fatalf("function enumerated twice")
			}
			seen[f] = true
		})
		if len(seen) != n {
			t.Fatalf("%d functions enumerated, want %d", len(seen), n)
		}
		c.LabelIf(conflicts > 0, "asked with another kind")
		c.NonTrivialIf(again > 0 && len(have) > 2)
	})
}

// TestModelScope: scope names map to one scope per registry.
func TestModelScope(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		type key struct {
			reg  int
			name string
		}
		regs := []*monkit.Registry{monkit.NewRegistry(), monkit.NewRegistry()}
		views := []int{0, 1}
		have := map[key]*monkit.Scope{}
		owner := map[*monkit.Scope]key{}
		var names []string
		for n := rapid.IntRange(1, 15).Draw(t, "n"); n > 0; n-- {
			v := rapid.IntRange(0, len(regs)-1).Draw(t, "reg")
			if rapid.IntRange(0, 5).Draw(t, "view") == 0 {
				regs = append(regs, regs[v].WithTransformers())
				views = append(views, views[v])
				c.Logf("view of %d", v)
				continue
			}
			name := text(t, "name")
			if len(names) > 0 && rapid.IntRange(0, 2).Draw(t, "near") == 0 {
				name = kit.Related(t, "name", names...)
			}
			names = append(names, name)
			for j := kit.Some(t, "crowd", 0, 0); j > 0; j-- {
				c.Logf("%d crowd %d", v, j)
				k := key{views[v], fmt.Sprint("crowd", j)}
				s := regs[v].ScopeNamed(k.name)
				if have[k] != nil && have[k] != s {
					t.Fatalf("%+v is another scope than before", k)
				}
				have[k], owner[s] = s, k
			}
			c.Logf("%d %q", v, name)
			var s *monkit.Scope
			if rapid.IntRange(0, 3).Draw(t, "default") == 0 {
				def := monkit.Default
				monkit.Default = regs[v]
				s = monkit.ScopeNamed(name)
				monkit.Default = def
			} else {
				s = regs[v].ScopeNamed(name)
			}
			k := key{views[v], name}
			if s.Name() != name {
				t.Fatalf("scope %q is named %q", name, s.Name())
			}
			if have[k] == nil {
				if o, ok := owner[s]; ok {
					t.Fatalf("%+v is the same scope as %+v", k, o)
				}
				have[k], owner[s] = s, k
			} else if have[k] != s {
				t.Fatalf("%+v is another scope than before", k)
			}
		}
		for i, r := range regs {
			seen := map[*monkit.Scope]bool{}
			last := ""
			r.Scopes(func(s *monkit.Scope) {
				if seen[s] || have[key{views[i], s.Name()}] != s || len(seen) > 0 && s.Name() <= last {
					t.Fatalf("wrong enumeration of scopes")
				}
				seen[s] = true
				last = s.Name()
			})
			want := 0
			for k := range have {
				if k.reg == views[i] {
					want++
				}
			}
			if len(seen) != want {
				t.Fatalf("%d scopes enumerated, want %d", len(seen), want)
			}
		}
		c.NonTrivialIf(len(have) > 1)
	})
}

func concurrent(t *rapid.T, c *kit.Case, rounds int, run func([]func())) {
	nt := rapid.IntRange(2, 3).Draw(t, "threads")
	progs := make([][]request, nt)
	ks := []string{"func", "func", "counter", "counter", "counter", "meter", "intval", "timer", "boolval", "gauge", "taskfunc", "scope", "read"}
	for i := range progs {
		for n := rapid.IntRange(1, 5).Draw(t, "len"); n > 0; n-- {
			r := request{kind: rapid.SampledFrom(ks).Draw(t, "kind"), name: rapid.SampledFrom([]string{"a", "b"}).Draw(t, "name")}
			if r.kind != "gauge" && rapid.IntRange(0, 3).Draw(t, "tag") == 0 {
				r.tags = []monkit.SeriesTag{monkit.NewSeriesTag("k", "v")}
			}
			c.Logf("T%d %v", i, r)
			progs[i] = append(progs[i], r)
		}
	}
	for k := 0; k < rounds; k++ {
		reg := monkit.NewRegistry()
		var mu sync.Mutex
		got := map[ident]map[string]map[interface{}]bool{} // family, object
		incs := map[interface{}]int64{}
		scopes := map[*monkit.Scope]bool{}
		var bodies []func()
		for i := range progs {
			i := i
			bodies = append(bodies, func() {
				for _, r := range progs[i] {
					s := reg.ScopeNamed("s")
					switch r.kind {
					case "scope":
						mu.Lock()
						scopes[s] = true
						mu.Unlock()
						continue
					case "read":
						s.Stats(func(monkit.SeriesKey, string, float64) {})
						s.Funcs(func(*monkit.Func) {})
						continue
					}
					obj, panicked := r.do(s)
					var inc bool
					if panicked == nil {
						if ctr, ok := obj.(*monkit.Counter); ok {
							ctr.Inc(1)
							inc = true
						}
						if m, ok := obj.(*monkit.Meter); ok {
							m.Mark(1)
							inc = true
						}
						if obj == nil {
							obj = "gauge"
						}
					}
					mu.Lock()
					id := r.ident()
					if got[id] == nil {
						got[id] = map[string]map[interface{}]bool{}
					}
					if panicked == nil {
						if got[id][r.family()] == nil {
							got[id][r.family()] = map[interface{}]bool{}
						}
						got[id][r.family()][obj] = true
						if inc {
							incs[obj]++
						}
					}
					mu.Unlock()
				}
			})
		}
		run(bodies)
		if len(scopes) > 1 {
			t.Fatalf("several scopes of one name")
		}
		for id, fams := range got {
			if len(fams) != 1 {
				t.Fatalf("%+v: %d kinds got through", id, len(fams))
			}
			for fam, objs := range fams {
				if len(objs) != 1 {
					t.Fatalf("%+v: %d different objects", id, len(objs))
				}
				for obj := range objs {
					r := request{kind: fam, name: id.name}
					if id.tags != fmt.Sprintf("%q", r.tags) {
						r.tags = []monkit.SeriesTag{monkit.NewSeriesTag("k", "v")}
					}
					now, panicked := r.do(reg.ScopeNamed("s"))
					if now == nil {
						now = "gauge"
					}
					if panicked != nil || now != obj {
						t.Fatalf("%+v: another object afterwards (%v)", id, panicked)
					}
					switch o := obj.(type) {
					case *monkit.Counter:
						if o.Current() != incs[obj] {
							t.Fatalf("%+v: counted %d, want %d", id, o.Current(), incs[obj])
						}
					case *monkit.Meter:
						if int64(o.Total()) != incs[obj] {
							t.Fatalf("%+v: total %v, want %d", id, o.Total(), incs[obj])
						}
					}
				}
			}
		}
	}
}

func TestSched(t *testing.T) {
	kit.NeedSched(t, func() { monkit.NewRegistry().ScopeNamed("a").Counter("b") })
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		sched := kit.Schedule(t)
		c.Logf("%v", sched)
		concurrent(t, c, 1, func(bodies []func()) {
			res := kit.Sched(t, c, sched, bodies...)
			c.NonTrivialIf(res.Switches > len(bodies))
		})
	})
}

func TestRace(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		concurrent(t, c, rapid.IntRange(1, 8).Draw(t, "rounds"), func(bodies []func()) {
			kit.Parallel(len(bodies), func(i int) { bodies[i]() })
		})
		c.NonTrivial()
	})
}
