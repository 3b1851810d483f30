// C21: reports are well-formed and faithful for any content.
package c21

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	monkit "github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/present"
	"pgregory.net/rapid"

	"verif.local/harness/kit"
)

type named string

func (n named) Error() string { return "failed" }

// unnamed is an error whose name is empty.
type unnamed struct{}

func (unnamed) Error() string { return "failed" }

func TestMain(m *testing.M) {
	monkit.AddErrorNameHandler(func(err error) (string, bool) {
		if _, ok := err.(unnamed); ok {
			return "", true
		}
		n, ok := err.(named)
		return string(n), ok && n != ""
	})
	kit.Main(m)
}

// source exports what it is told to.
type source []stat

type stat struct {
	key   monkit.SeriesKey
	field string
	val   float64
}

func (s source) Stats(cb func(key monkit.SeriesKey, field string, val float64)) {
	for _, x := range s {
		cb(x.key, x.field, x.val)
	}
}

var odd = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 1e-9, 1e21, 1e20, -1e300, math.MaxFloat64, math.SmallestNonzeroFloat64,
	math.NaN(), math.Inf(1), math.Inf(-1), math.Pi, 1 << 53, -123456.789}

// raw shows itself as it is.
type raw string

func (r raw) GoString() string { return string(r) }

type open struct {
	ctx  context.Context
	exit func(*error)
	span *monkit.Span
}

type world struct {
	reg    *monkit.Registry
	open   []open
	ends   int
	errs   int
	begin  time.Time
	labels map[string]bool
	lines  bool // no line breaks in any text
}

func (w *world) text(t *rapid.T, label string) string {
	s := kit.Text(t, label)
	if w.lines {
		s = strings.Map(func(r rune) rune {
			if r == '\n' || r == '\r' {
				return 'n'
			}
			return r
		}, s)
	}
	return s
}

// build draws a registry with functions, running spans and metrics.
func build(t *rapid.T, c *kit.Case) *world {
	w := &world{reg: monkit.NewRegistry(), begin: time.Now(), lines: rapid.Bool().Draw(t, "single lines")}
	var scopes []*monkit.Scope
	for i := rapid.IntRange(1, 3).Draw(t, "scopes"); i > 0; i-- {
		scopes = append(scopes, w.reg.ScopeNamed(w.text(t, "scope")))
	}
	scope := func() *monkit.Scope { return rapid.SampledFrom(scopes).Draw(t, "in scope") }
	tags := func() (out []monkit.SeriesTag) {
		for i := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "tags"); i > 0; i-- {
			k := w.text(t, "tag")
			switch k {
			case "name", "scope", "kind", "error_name":
				k = "k"
			}
			out = append(out, monkit.NewSeriesTag(k, w.text(t, "tag value")))
		}
		return out
	}
	var funcs []*monkit.Func
	for i := rapid.IntRange(0, 4).Draw(t, "funcs"); i > 0; i-- {
		f := scope().FuncNamed(w.text(t, "func"), tags()...)
		funcs = append(funcs, f)
		c.Logf("func %q", f.FullName())
	}
	if len(funcs) > 0 {
		errNames := []string{w.text(t, "error"), w.text(t, "error"), w.text(t, "error"), "", "a\": 1"}
		for i := rapid.IntRange(0, 14).Draw(t, "steps"); i > 0; i-- {
			live := len(w.open)
			switch op := rapid.SampledFrom([]string{"start", "start", "start", "end", "end", "note", "call", "many", "deep"}).Draw(t, "op"); {
			case op == "start" || live == 0:
				ctx := context.Background()
				if live > 0 && rapid.IntRange(0, 3).Draw(t, "root") > 0 {
					ctx = w.open[rapid.IntRange(0, live-1).Draw(t, "parent")].ctx
				}
				var args []interface{}
				for j := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "args"); j > 0; j-- {
					if rapid.Bool().Draw(t, "raw arg") {
						args = append(args, raw(w.text(t, "arg")))
					} else {
						args = append(args, w.text(t, "arg"))
					}
				}
				f := rapid.SampledFrom(funcs).Draw(t, "f")
				o := open{ctx: ctx}
				switch rapid.IntRange(0, 6).Draw(t, "style") {
				case 0:
					o.exit = f.RemoteTrace(&o.ctx, rapid.Int64().Draw(t, "parent id"), monkit.NewTrace(rapid.Int64().Draw(t, "trace id")), args...)
				case 1:
					o.exit = f.ResetTrace(&o.ctx, args...)
				default:
					o.exit = f.Task(&o.ctx, args...)
				}
				o.span = monkit.SpanFromCtx(o.ctx)
				w.open = append(w.open, o)
				c.Logf("start %d %q", len(w.open), args)
			case op == "end":
				j := rapid.IntRange(0, live-1).Draw(t, "which")
				o := w.open[j]
				w.open = append(w.open[:j:j], w.open[j+1:]...)
				w.ends++
				switch rapid.IntRange(0, 3).Draw(t, "how") {
				case 0:
					var err error = named(rapid.SampledFrom(errNames).Draw(t, "error"))
					if rapid.IntRange(0, 5).Draw(t, "unnamed") == 0 {
						err = unnamed{}
					}
					o.exit(&err)
					w.errs++
					c.Logf("fail %#v", err)
				case 1:
					_ = kit.Safely(func() {
						defer o.exit(nil)
						panic("x")
					})
					w.errs++
				default:
					o.exit(nil)
				}
			case op == "note":
				s := w.open[rapid.IntRange(0, live-1).Draw(t, "which")].span
				for k := rapid.SampledFrom([]int{1, 1, 1, 1, 2, 5, 12, 40}).Draw(t, "notes"); k > 0; k-- {
					s.Annotate(w.text(t, "note"), w.text(t, "value"))
				}
			case op == "many":
				f := rapid.SampledFrom(funcs).Draw(t, "f")
				for j := rapid.SampledFrom([]int{3, 64, 65, 100, 300}).Draw(t, "times"); j > 0; j-- {
					f.Task(nil)(nil)
				}
			case op == "deep" && rapid.IntRange(0, 4).Draw(t, "very") == 0:
				// calls nested deeply
				ctx := w.open[rapid.IntRange(0, live-1).Draw(t, "under")].ctx
				depth := rapid.SampledFrom([]int{5, 17, 33, 42, 65, 130}).Draw(t, "depth")
				for j := 0; j < depth; j++ {
					o := open{ctx: ctx}
					o.exit = funcs[j%len(funcs)].Task(&o.ctx)
					o.span = monkit.SpanFromCtx(o.ctx)
					ctx = o.ctx
					w.open = append(w.open, o)
				}
				c.Logf("%d calls in each other", depth)
			case op == "call" || op == "deep":
				_ = rapid.SampledFrom(funcs).Draw(t, "f").Observe()
			}
		}
	}
	for i := rapid.IntRange(0, 4).Draw(t, "metrics"); i > 0; i-- {
		s, n, v := scope(), w.text(t, "metric"), rapid.SampledFrom(odd).Draw(t, "value")
		c.Logf("metric %q %v", n, v)
		_ = kit.Safely(func() { // requests of another kind for a name panic
			switch rapid.IntRange(0, 8).Draw(t, "kind") {
			case 0:
				s.IntVal(n, tags()...).Observe(int64(rapid.Int32().Draw(t, "int")))
			case 1:
				s.FloatVal(n, tags()...).Observe(v)
			case 2:
				s.Counter(n, tags()...)
			case 3:
				s.Meter(n, tags()...).SetTotal(int64(rapid.Int32().Draw(t, "total"))) // the rate of a marked meter moves with time
			case 4:
				s.BoolVal(n, tags()...).Observe(true)
			case 5:
				s.Gauge(n, func() float64 { return v })
			case 6:
				s.DurationVal(n, tags()...).Observe(time.Second)
			case 7:
				s.Timer(n, tags()...).Start().Stop()
			case 8:
				src := source{}
				for j := rapid.IntRange(1, 3).Draw(t, "stats"); j > 0; j-- {
					src = append(src, stat{monkit.NewSeriesKey(w.text(t, "measurement")).WithTags(tags()...), w.text(t, "field"), rapid.SampledFrom(odd).Draw(t, "value")})
				}
				s.Chain(src)
			}
		})
	}
	return w
}

// utf is what is left of text in JSON.
func utf(s string) string {
	b, _ := json.Marshal(s)
	var out string
	_ = json.Unmarshal(b, &out)
	return out
}

func report(t *rapid.T, name string, f func(*monkit.Registry, io.Writer) error, reg *monkit.Registry) string {
	var buf bytes.Buffer
	var err error
	if rec := kit.Safely(func() { err = f(reg, &buf) }); rec != nil {
		t.Fatalf("%s panics: %v", name, rec)
	}
	if err != nil {
		t.Fatalf("%s fails: %v", name, err)
	}
	return buf.String()
}

// ---- what the registry says

type dist struct {
	Average          time.Duration            `json:"average"`
	ReservoirAverage time.Duration            `json:"reservoir_average"`
	FullAverage      time.Duration            `json:"full_average"`
	High             time.Duration            `json:"max"`
	Low              time.Duration            `json:"min"`
	Recent           time.Duration            `json:"recent"`
	Quantiles        map[string]time.Duration `json:"quantiles"`
}

func distOf(d *monkit.DurationDist) dist {
	out := dist{Average: d.FullAverage(), FullAverage: d.FullAverage(), ReservoirAverage: d.ReservoirAverage(), High: d.High, Low: d.Low, Recent: d.Recent, Quantiles: map[string]time.Duration{}}
	for _, q := range monkit.ObservedQuantiles {
		out.Quantiles[fmt.Sprintf("%.02f", q)] = d.Query(q)
	}
	return out
}

func distText(d *monkit.DurationDist, indent string) (out string) {
	for _, q := range monkit.ObservedQuantiles {
		out += fmt.Sprintf("%s%.02f: %s\n", indent, q, d.Query(q))
	}
	return out + fmt.Sprintf("%savg: %s\n%sravg: %s\n%srecent: %s\n%ssum: %s\n", indent, d.FullAverage(), indent, d.ReservoirAverage(), indent, d.Recent, indent, d.Sum)
}

func funcs(reg *monkit.Registry) map[int64]*monkit.Func {
	out := map[int64]*monkit.Func{}
	reg.Funcs(func(f *monkit.Func) { out[f.Id()] = f })
	return out
}

func parents(f *monkit.Func) (ids []int64, entry bool) {
	f.Parents(func(p *monkit.Func) {
		if p == nil {
			entry = true
		} else {
			ids = append(ids, p.Id())
		}
	})
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return
}

// ---- functions

func funcsJSON(t *rapid.T, w *world) {
	out := report(t, "FuncsJSON", present.FuncsJSON, w.reg)
	var list []struct {
		Id           int64
		ParentIds    []int64 `json:"parent_ids"`
		Package      string
		Name         string
		Current      int64
		Highwater    int64
		Success      int64
		Panics       int64
		Entry        bool
		Errors       map[string]int64
		SuccessTimes dist `json:"success_times"`
		FailureTimes dist `json:"failure_times"`
	}
	if err := json.Unmarshal([]byte(out), &list); err != nil {
		t.Fatalf("FuncsJSON is not JSON: %v\n%s", err, out)
	}
	fs := funcs(w.reg)
	if len(list) != len(fs) {
		t.Fatalf("FuncsJSON has %d functions, want %d", len(list), len(fs))
	}
	for _, e := range list {
		f := fs[e.Id]
		if f == nil {
			t.Fatalf("FuncsJSON has function %d twice or invented it", e.Id)
		}
		delete(fs, e.Id)
		errs := map[string]int64{}
		n := 0
		for k, v := range f.Errors() {
			errs[utf(k)] = v
			n++
		}
		if len(errs) != n {
			errs = e.Errors // names that JSON cannot tell apart
		}
		ids, entry := parents(f)
		sort.Slice(e.ParentIds, func(i, j int) bool { return e.ParentIds[i] < e.ParentIds[j] })
		want := fmt.Sprintf("%q %q %d %d %d %d %v %v %v %v %v", utf(f.Scope().Name()), utf(f.ShortName()), f.Current(), f.Highwater(), f.Success(), f.Panics(),
			entry, ids, errs, distOf(f.SuccessTimes()), distOf(f.FailureTimes()))
		got := fmt.Sprintf("%q %q %d %d %d %d %v %v %v %v %v", e.Package, e.Name, e.Current, e.Highwater, e.Success, e.Panics, e.Entry, e.ParentIds, e.Errors, e.SuccessTimes, e.FailureTimes)
		if got != want {
			t.Fatalf("FuncsJSON entry\n%s\nwant\n%s", got, want)
		}
	}
}

// cursor reads a text.
type cursor struct {
	s string
	t *rapid.T
	n string
}

func (c *cursor) expect(s string) {
	if !strings.HasPrefix(c.s, s) {
		c.t.Fatalf("%s: %q, expected %q", c.n, cut(c.s), s)
	}
	c.s = c.s[len(s):]
}

func (c *cursor) has(s string) bool {
	if strings.HasPrefix(c.s, s) {
		c.s = c.s[len(s):]
		return true
	}
	return false
}

func (c *cursor) number() int64 {
	i := 0
	for i < len(c.s) && (c.s[i] == '-' && i == 0 || c.s[i] >= '0' && c.s[i] <= '9') {
		i++
	}
	n, err := strconv.ParseInt(c.s[:i], 10, 64)
	if err != nil {
		c.t.Fatalf("%s: %q, expected a number", c.n, cut(c.s))
	}
	c.s = c.s[i:]
	return n
}

func (c *cursor) until(stops string) string {
	i := strings.IndexAny(c.s, stops)
	if i < 0 {
		c.t.Fatalf("%s: %q, expected one of %q", c.n, cut(c.s), stops)
	}
	out := c.s[:i]
	c.s = c.s[i:]
	return out
}

// anyOrder reads the given texts in any order.
func (c *cursor) anyOrder(texts []string, then string) {
	var try func(s string, left []string) (string, bool)
	try = func(s string, left []string) (string, bool) {
		if len(left) == 0 {
			return s, strings.HasPrefix(s, then)
		}
		for i, x := range left {
			if strings.HasPrefix(s, x) {
				rest := append(append([]string{}, left[:i]...), left[i+1:]...)
				if out, ok := try(s[len(x):], rest); ok {
					return out, true
				}
			}
		}
		return "", false
	}
	out, ok := try(c.s, texts)
	if !ok {
		c.t.Fatalf("%s: %q, expected %q and %q", c.n, cut(c.s), texts, then)
	}
	c.s = out
}

func cut(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

func errLines(f *monkit.Func, indent string) (out []string, total int64) {
	for k, v := range f.Errors() {
		out = append(out, fmt.Sprintf("%serror %s: %d\n", indent, k, v))
		total += v
	}
	return
}

func funcsText(t *rapid.T, w *world) {
	c := &cursor{report(t, "FuncsText", present.FuncsText, w.reg), t, "FuncsText"}
	fs := funcs(w.reg)
	for n := len(fs); n > 0; n-- {
		c.expect("[")
		f := fs[c.number()]
		if f == nil {
			t.Fatalf("FuncsText has a function twice or invented it")
		}
		delete(fs, f.Id())
		c.expect("] " + f.FullName() + "\n  parents: ")
		ids, entry := parents(f)
		var got []int64
		gotEntry := false
		for i := 0; i < len(ids)+btoi(entry); i++ {
			if i > 0 {
				c.expect(", ")
			}
			if !gotEntry && c.has("entry") {
				gotEntry = true
			} else {
				got = append(got, c.number())
			}
		}
		sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
		if fmt.Sprint(ids, entry) != fmt.Sprint(got, gotEntry) {
			t.Fatalf("FuncsText parents %v %v, want %v %v", got, gotEntry, ids, entry)
		}
		lines, total := errLines(f, "  ")
		c.expect(fmt.Sprintf("\n  current: %d, highwater: %d, success: %d, errors: %d, panics: %d\n", f.Current(), f.Highwater(), f.Success(), total, f.Panics()))
		c.anyOrder(lines, "  success times:\n")
		c.expect("  success times:\n" + distText(f.SuccessTimes(), "    ") + "  failure times:\n" + distText(f.FailureTimes(), "    ") + "\n")
	}
	if c.s != "" {
		t.Fatalf("FuncsText goes on with %q", cut(c.s))
	}
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ---- dot

type node struct{ label string }

type graph struct {
	nodes map[string]node
	edges map[string]int
}

// parseDot reads a digraph and its labels.
func parseDot(t *rapid.T, name, s string) graph {
	g := graph{map[string]node{}, map[string]int{}}
	var toks []string
	for i := 0; i < len(s); {
		ch := s[i]
		switch {
		case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
			i++
		case ch == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) {
				t.Fatalf("%s: unterminated label %q", name, cut(s[i:]))
			}
			toks = append(toks, s[i:j+1])
			i = j + 1
		case ch == '-' && i+1 < len(s) && s[i+1] == '>':
			toks = append(toks, "->")
			i += 2
		case strings.IndexByte("{}[];=,", ch) >= 0:
			toks = append(toks, string(ch))
			i++
		case ch == '_' || ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9':
			j := i
			for j < len(s) && (s[j] == '_' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			toks = append(toks, s[i:j])
			i = j
		default:
			t.Fatalf("%s: unexpected %q", name, cut(s[i:]))
		}
	}
	p := 0
	next := func() string {
		if p >= len(toks) {
			t.Fatalf("%s: ends early", name)
		}
		p++
		return toks[p-1]
	}
	want := func(x string) {
		if got := next(); got != x {
			t.Fatalf("%s: %q, expected %q", name, got, x)
		}
	}
	want("digraph")
	want("G")
	want("{")
	for {
		id := next()
		if id == "}" {
			break
		}
		if id == ";" {
			continue
		}
		switch next() {
		case "->":
			g.edges[id+" -> "+next()]++
			want(";")
		case "[":
			attrs := map[string]string{}
			for {
				k := next()
				want("=")
				attrs[k] = next()
				if sep := next(); sep == "]" {
					break
				}
			}
			want(";")
			if id == "node" {
				continue
			}
			if _, dup := g.nodes[id]; dup {
				t.Fatalf("%s: node %s twice", name, id)
			}
			g.nodes[id] = node{unlabel(t, name, attrs["label"])}
		default:
			t.Fatalf("%s: neither a node nor an edge at %q", name, id)
		}
	}
	if p != len(toks) {
		t.Fatalf("%s: text after the graph: %q", name, toks[p:])
	}
	return g
}

// unlabel reads a label as dot does.
func unlabel(t *rapid.T, name, s string) string {
	if len(s) < 2 || s[0] != '"' {
		t.Fatalf("%s: label %q is not quoted", name, s)
	}
	s = s[1 : len(s)-1]
	var out []byte
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\\':
			i++
			switch s[i] {
			case 'l', 'n', 'r':
				out = append(out, '\n')
			case '"', '\\':
				out = append(out, s[i])
			default:
				t.Fatalf("%s: escape \\%c in label %q", name, s[i], s)
			}
		case '&':
			j := strings.IndexByte(s[i:], ';')
			if j < 0 || j < 3 || s[i+1] != '#' {
				t.Fatalf("%s: bare & in label %q", name, s)
			}
			n, err := strconv.Atoi(s[i+2 : i+j])
			if err != nil || n < 0 || n > 127 {
				t.Fatalf("%s: entity %q in label %q", name, s[i:i+j+1], s)
			}
			out = append(out, byte(n))
			i += j
		case '<', '>', '\n', '{', '}', '|':
			t.Fatalf("%s: bare %q in label %q", name, s[i], s)
		default:
			out = append(out, s[i])
		}
	}
	return string(out)
}

func funcsDot(t *rapid.T, w *world) {
	g := parseDot(t, "FuncsDot", report(t, "FuncsDot", present.FuncsDot, w.reg))
	edges := map[string]int{}
	nodes := 0
	for id, f := range funcs(w.reg) {
		n, ok := g.nodes[fmt.Sprint("f", id)]
		if !ok {
			t.Fatalf("FuncsDot lacks function %d", id)
		}
		nodes++
		c := &cursor{n.label, t, "FuncsDot label"}
		lines, total := errLines(f, "")
		c.expect(fmt.Sprintf("%s\ncurrent: %d, highwater: %d, success: %d, errors: %d, panics: %d\n", f.FullName(), f.Current(), f.Highwater(), f.Success(), total, f.Panics()))
		rest := ""
		if f.Success() > 0 {
			rest += "success times:\n" + distText(f.SuccessTimes(), "        ")
		}
		if total+f.Panics() > 0 {
			rest += "failure times:\n" + distText(f.FailureTimes(), "        ")
		}
		c.anyOrder(lines, rest)
		c.expect(rest)
		if c.s != "" {
			t.Fatalf("FuncsDot label goes on with %q", c.s)
		}
		ids, entry := parents(f)
		for _, p := range ids {
			edges[fmt.Sprintf("f%d -> f%d", p, id)]++
		}
		if entry {
			edges[fmt.Sprintf("r%d -> f%d", id, id)]++
			nodes++
			if g.nodes[fmt.Sprint("r", id)].label != "entry" {
				t.Fatalf("FuncsDot lacks the entry of %d", id)
			}
		}
	}
	if nodes != len(g.nodes) || fmt.Sprint(edges) != fmt.Sprint(g.edges) {
		t.Fatalf("FuncsDot has %d nodes and edges %v, want %d and %v", len(g.nodes), g.edges, nodes, edges)
	}
}

// ---- spans

func children(s *monkit.Span) (out []*monkit.Span) {
	s.Children(func(c *monkit.Span) { out = append(out, c) })
	return
}

func roots(reg *monkit.Registry) (out []*monkit.Span) {
	reg.RootSpans(func(s *monkit.Span) { out = append(out, s) })
	return
}

func all(reg *monkit.Registry) map[int64]*monkit.Span {
	out := map[int64]*monkit.Span{}
	reg.AllSpans(func(s *monkit.Span) { out[s.Id()] = s })
	return out
}

func elapsed(t *rapid.T, name, text string, s *monkit.Span, before time.Time) {
	d, err := time.ParseDuration(text)
	if err != nil {
		t.Fatalf("%s: elapsed %q", name, text)
	}
	if low, high := before.Sub(s.Start()), time.Since(s.Start()); d < low || d > high {
		t.Fatalf("%s: elapsed %v, not in [%v, %v]", name, d, low, high)
	}
}

func (c *cursor) span(byID map[int64]*monkit.Span, indent string, before time.Time) *monkit.Span {
	c.expect(indent + "[")
	s := byID[c.number()]
	if s == nil {
		c.t.Fatalf("%s: not a span here", c.n)
	}
	delete(byID, s.Id())
	c.expect(fmt.Sprintf(",%d] %s(%s) (elapsed: ", s.Trace().Id(), s.Func().FullName(), strings.Join(s.Args(), ", ")))
	elapsed(c.t, c.n, c.until(",)"), s, before)
	if s.Orphaned() {
		c.expect(", orphaned)\n")
	} else {
		c.expect(")\n")
	}
	for _, a := range s.Annotations() {
		c.expect(fmt.Sprintf("%s  %s: %s\n", indent, a.Name, a.Value))
	}
	kids := map[int64]*monkit.Span{}
	for _, k := range children(s) {
		kids[k.Id()] = k
	}
	for len(kids) > 0 {
		c.span(kids, indent+" ", before)
	}
	return s
}

func spansText(t *rapid.T, w *world) {
	before := time.Now()
	c := &cursor{report(t, "SpansText", present.SpansText, w.reg), t, "SpansText"}
	top := map[int64]*monkit.Span{}
	for _, s := range roots(w.reg) {
		top[s.Id()] = s
	}
	for len(top) > 0 {
		c.span(top, "", before)
		c.expect("\n")
	}
	if c.s != "" {
		t.Fatalf("SpansText goes on with %q", cut(c.s))
	}
}

func spansDot(t *rapid.T, w *world) {
	before := time.Now()
	g := parseDot(t, "SpansDot", report(t, "SpansDot", present.SpansDot, w.reg))
	edges := map[string]int{}
	byID := all(w.reg)
	for id, s := range byID {
		n, ok := g.nodes[fmt.Sprint("f", id)]
		if !ok {
			t.Fatalf("SpansDot lacks span %d", id)
		}
		c := &cursor{n.label, t, "SpansDot label"}
		c.expect(fmt.Sprintf("%s(%s)\nelapsed: ", s.Func().FullName(), strings.Join(s.Args(), ", ")))
		elapsed(t, "SpansDot", c.until("\n"), s, before)
		c.expect("\n")
		if s.Orphaned() {
			c.expect("orphaned\n")
		}
		for _, a := range s.Annotations() {
			c.expect(fmt.Sprintf("%s: %s\n", a.Name, a.Value))
		}
		if c.s != "" {
			t.Fatalf("SpansDot label goes on with %q", c.s)
		}
		for _, k := range children(s) {
			edges[fmt.Sprintf("f%d -> f%d", id, k.Id())]++
		}
	}
	if len(byID) != len(g.nodes) || fmt.Sprint(edges) != fmt.Sprint(g.edges) {
		t.Fatalf("SpansDot has %d nodes and edges %v, want %d and %v", len(g.nodes), g.edges, len(byID), edges)
	}
}

func spansJSON(t *rapid.T, w *world) {
	before := time.Now()
	out := report(t, "SpansJSON", present.SpansJSON, w.reg)
	after := time.Now()
	var list []struct {
		Id       int64
		ParentId *int64 `json:"parent_id"`
		Func     struct{ Package, Name string }
		Trace    struct{ Id int64 }
		Start    int64
		Elapsed  int64
		Orphaned bool
		Args     []string
		Notes    [][]string `json:"annotations"`
	}
	if err := json.Unmarshal([]byte(out), &list); err != nil {
		t.Fatalf("SpansJSON is not JSON: %v\n%s", err, out)
	}
	spans := all(w.reg)
	if len(list) != len(spans) {
		t.Fatalf("SpansJSON has %d spans, want %d", len(list), len(spans))
	}
	for _, e := range list {
		s := spans[e.Id]
		if s == nil {
			t.Fatalf("SpansJSON has span %d twice or invented it", e.Id)
		}
		delete(spans, e.Id)
		parent := "none"
		if p, ok := s.ParentId(); ok {
			parent = fmt.Sprint(p)
		}
		gotParent := "none"
		if e.ParentId != nil {
			gotParent = fmt.Sprint(*e.ParentId)
		}
		args := []string{}
		for _, a := range s.Args() {
			args = append(args, utf(fmt.Sprintf("%#v", a)))
		}
		notes := [][]string{}
		for _, a := range s.Annotations() {
			notes = append(notes, []string{utf(a.Name), utf(a.Value)})
		}
		want := fmt.Sprintf("%q %q %s %d %d %v %q %q", utf(s.Func().Scope().Name()), utf(s.Func().ShortName()), parent, s.Trace().Id(), s.Start().UnixNano(), s.Orphaned(), args, notes)
		got := fmt.Sprintf("%q %q %s %d %d %v %q %q", e.Func.Package, e.Func.Name, gotParent, e.Trace.Id, e.Start, e.Orphaned, e.Args, e.Notes)
		if got != want {
			t.Fatalf("SpansJSON entry\n%s\nwant\n%s", got, want)
		}
		if d := time.Duration(e.Elapsed); d < before.Sub(s.Start()) || d > after.Sub(s.Start()) {
			t.Fatalf("SpansJSON elapsed %v, not in [%v, %v]", d, before.Sub(s.Start()), after.Sub(s.Start()))
		}
		if e.Args == nil || e.Notes == nil {
			t.Fatalf("SpansJSON args or annotations are not lists")
		}
	}
}

// ---- statistics

func stats(reg *monkit.Registry) (out []stat) {
	reg.Stats(func(key monkit.SeriesKey, field string, val float64) { out = append(out, stat{key, field, val}) })
	return
}

func statsText(t *rapid.T, w *world) {
	out := report(t, "StatsText", present.StatsText, w.reg)
	want := map[string]int{}
	total := 0
	for _, s := range stats(w.reg) {
		line := fmt.Sprintf("%s=%s\n", s.key.WithField(s.field), strconv.FormatFloat(s.val, 'f', 6, 64))
		want[line]++
		total += len(line)
	}
	if len(out) != total {
		t.Fatalf("StatsText has %d bytes, want %d", len(out), total)
	}
	if w.lines {
		got := map[string]int{}
		for _, l := range strings.SplitAfter(out, "\n") {
			if l != "" {
				got[l]++
			}
		}
		for l, n := range want {
			if got[l] != n {
				t.Fatalf("StatsText has %q %d times, want %d", l, got[l], n)
			}
		}
		return
	}
	for l, n := range want {
		if strings.Count(out, l) < n {
			t.Fatalf("StatsText lacks %q", l)
		}
	}
}

func statsJSON(t *rapid.T, w *world) {
	out := report(t, "StatsJSON", present.StatsJSON, w.reg)
	var list [][]json.RawMessage
	if err := json.Unmarshal([]byte(out), &list); err != nil {
		t.Fatalf("StatsJSON is not JSON: %v\n%s", err, out)
	}
	want := map[string]int{}
	all := stats(w.reg)
	for _, s := range all {
		tags := map[string]string{}
		n := 0
		for k, v := range s.key.Tags.All() {
			tags[utf(k)] = utf(v)
			n++
		}
		if n != len(tags) {
			continue // tags that JSON cannot tell apart
		}
		want[statKey(utf(s.key.Measurement), tags, utf(s.field), s.val)]++
	}
	if len(list) != len(all) {
		t.Fatalf("StatsJSON has %d statistics, want %d", len(list), len(all))
	}
	got := map[string]int{}
	for _, e := range list {
		if len(e) != 4 {
			t.Fatalf("StatsJSON entry of %d parts", len(e))
		}
		var m, field string
		var tags map[string]string
		var val *float64
		for i, p := range []interface{}{&m, &tags, &field, &val} {
			if err := json.Unmarshal(e[i], p); err != nil {
				t.Fatalf("StatsJSON entry %s: %v", e[i], err)
			}
		}
		v := math.NaN()
		if val != nil {
			v = *val
		}
		got[statKey(m, tags, field, v)]++
	}
	for k, n := range want {
		if got[k] != n {
			t.Fatalf("StatsJSON has %s %d times, want %d", k, got[k], n)
		}
	}
}

func statKey(m string, tags map[string]string, field string, v float64) string {
	val := "null"
	if !math.IsNaN(v) && !math.IsInf(v, 0) {
		val = strconv.FormatFloat(v, 'g', -1, 64)
	}
	if val == "-0" {
		val = "0"
	}
	return fmt.Sprintf("%q %q %q %s", m, tags, field, val)
}

var reports = []struct {
	name  string
	f     func(*monkit.Registry, io.Writer) error
	check func(*rapid.T, *world)
}{
	{"FuncsJSON", present.FuncsJSON, funcsJSON},
	{"FuncsText", present.FuncsText, funcsText},
	{"FuncsDot", present.FuncsDot, funcsDot},
	{"SpansJSON", present.SpansJSON, spansJSON},
	{"SpansText", present.SpansText, spansText},
	{"SpansDot", present.SpansDot, spansDot},
	{"StatsJSON", present.StatsJSON, statsJSON},
	{"StatsText", present.StatsText, statsText},
	{"StatsOld", present.StatsOld, nil},
}

// TestModel compares every report with the registry.
func TestModel(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		w := build(t, c)
		for _, r := range reports {
			if r.check != nil {
				r.check(t, w)
			}
		}
		c.NonTrivialIf(len(w.open) > 0 && w.errs > 0)
		c.LabelIf(len(w.open) > 1, "several running spans")
	})
}

var errBoom = errors.New("boom")

// broken fails after some bytes.
type broken struct {
	left  int
	got   []byte
	calls int
	after int
	once  bool // only one write fails
}

func (b *broken) Write(p []byte) (int, error) {
	if b.left < len(p) && !(b.once && b.after > 0) {
		n := b.left
		b.left = 0
		b.got = append(b.got, p[:n]...)
		b.after++
		return n, errBoom
	}
	b.left -= len(p)
	b.got = append(b.got, p...)
	return len(p), nil
}

// TestModelWriter writes reports to writers that fail.
func TestModelWriter(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		w := build(t, c)
		r := rapid.SampledFrom(reports).Draw(t, "report")
		full := report(t, r.name, r.f, w.reg)
		// elapsed times differ in length between runs
		limit := len(full)
		if strings.HasPrefix(r.name, "Spans") {
			limit = len(full) - 12*len(w.open)
		}
		if limit <= 0 {
			return
		}
		at := rapid.IntRange(0, limit-1).Draw(t, "fails at")
		b := &broken{left: at, once: rapid.Bool().Draw(t, "once")}
		var err error
		if rec := kit.Safely(func() { err = r.f(w.reg, b) }); rec != nil {
			t.Fatalf("%s panics on a failing writer: %v", r.name, rec)
		}
		if err != errBoom {
			t.Fatalf("%s on a writer failing at byte %d returns %v", r.name, at, err)
		}
		c.Logf("%s fails at %d of %d", r.name, at, len(full))
		c.NonTrivialIf(at > 40)
	})
}
