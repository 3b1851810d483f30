// C23: the debug endpoint answers every request as documented.
package c23

import (
	"bytes"
	"context"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"html"
	"io"
	"net/http/httptest"
	"net/url"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	monkit "github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/present"
	"pgregory.net/rapid"

	"verif.local/harness/kit"
)

func TestMain(m *testing.M) { kit.Main(m) }

const (
	plain = "text/plain; charset=utf-8"
	js    = "application/json; charset=utf-8"
	svg   = "image/svg+xml; charset=utf-8"
	page  = "text/html; charset=utf-8"
)

type report struct {
	contentType string
	f           func(*monkit.Registry, io.Writer) error
}

var reports = map[string]report{
	"ps": {plain, present.SpansText}, "ps/text": {plain, present.SpansText}, "ps/dot": {plain, present.SpansDot}, "ps/json": {js, present.SpansJSON},
	"funcs": {plain, present.FuncsText}, "funcs/text": {plain, present.FuncsText}, "funcs/dot": {plain, present.FuncsDot}, "funcs/json": {js, present.FuncsJSON},
	"stats": {plain, present.StatsText}, "stats/text": {plain, present.StatsText}, "stats/old": {plain, present.StatsText}, "stats/json": {js, present.StatsJSON},
}

var paths = func() (out []string) {
	for p := range reports {
		out = append(out, p)
	}
	sort.Strings(out)
	return
}()

var elapsed = regexp.MustCompile(`elapsed(: |&#58; |":)[^,)\\]*`)

// canon is a report up to the order of its lines and running times.
func canon(s string) string {
	lines := strings.Split(elapsed.ReplaceAllString(s, "elapsed"), "\n")
	for i := range lines {
		lines[i] = strings.TrimRight(lines[i], ",]")
	}
	sort.Strings(lines)
	return strings.Join(lines, "\n")
}

func newRegistry() (*monkit.Registry, func()) {
	reg := monkit.NewRegistry()
	s := reg.ScopeNamed("s")
	ctx := context.Background()
	end := s.FuncNamed("outer").Task(&ctx, "arg")
	monkit.SpanFromCtx(ctx).Annotate("note", "text")
	inner := s.FuncNamed("inner").Task(&ctx)
	err := io.EOF
	var e error = err
	s.FuncNamed("leaf").Task(&ctx)(&e)
	s.IntVal("v").Observe(3)
	s.Counter("c")
	return reg, func() { inner(nil); end(nil) }
}

type failing struct {
	left  int
	panic interface{}
}

var errBoom = errors.New("boom")

func (f *failing) Write(p []byte) (int, error) {
	if f.left < len(p) {
		n := f.left
		f.left = 0
		if f.panic != nil {
			panic(f.panic)
		}
		return n, errBoom
	}
	f.left -= len(p)
	return len(p), nil
}

// get serves a request without waiting for anything.
func get(reg *monkit.Registry, method, path string, query url.Values) *httptest.ResponseRecorder {
	req := httptest.NewRequest(method, "/", nil)
	req.URL.Path = path
	req.URL.RawQuery = query.Encode()
	rec := httptest.NewRecorder()
	present.HTTP(reg).ServeHTTP(rec, req)
	return rec
}

// TestModel sends requests that are answered at once.
func TestModel(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		reg, end := newRegistry()
		defer end()
		query := url.Values{}
		want := 0 // status; 0: not specified
		var rep *report
		var path string
		switch rapid.IntRange(0, 4).Draw(t, "path kind") {
		case 0: // a report
			p := rapid.SampledFrom(paths).Draw(t, "path")
			r := reports[p]
			rep, want = &r, 200
			path = rapid.SampledFrom([]string{"", "/", "//"}).Draw(t, "prefix") + p + rapid.SampledFrom([]string{"", "/"}).Draw(t, "suffix")
			for i := rapid.IntRange(0, 2).Draw(t, "noise"); i > 0; i-- {
				query.Set(rapid.SampledFrom([]string{"x", "regex", "trace_id", "preselect"}).Draw(t, "key"), kit.Text(t, "value"))
			}
		case 1: // near misses
			path = rapid.SampledFrom([]string{"p", "pss", "ps/svg", "ps/jso", "PS", "funcs/svg", "func", "stats/svg", "stats/dot", "json", "ps.json", "ps/ json", "text", "index.html", " ", "favicon.ico", "%2e", "ps/JSON",
				"funcs/old", "Stats", "stats/json2", "psjson", ".", "tracee", "metrics"}).Draw(t, "path")
			path = rapid.SampledFrom([]string{"", "/"}).Draw(t, "prefix") + path
			want = 404
		case 2: // anything
			path = kit.Text(t, "path")
			if rapid.Bool().Draw(t, "two") {
				path += "/" + kit.Text(t, "path")
			}
			query.Set(kit.Text(t, "key"), kit.Text(t, "value"))
			for len(path) > 0 && strings.Trim(path, "/") == "" {
				path = ""
			}
			if first := strings.Split(strings.TrimLeft(path, "/"), "/")[0]; first != "" && first != "ps" && first != "funcs" && first != "stats" && first != "trace" {
				want = 404
			} else if first == "" {
				want = 200
			}
		case 3: // the index
			path = rapid.SampledFrom([]string{"", "/"}).Draw(t, "path")
			want = 200
		case 4: // refused trace queries
			path = "/trace/" + rapid.SampledFrom([]string{"json", "svg", "remote"}).Draw(t, "kind")
			want = 400
			switch rapid.IntRange(0, 6).Draw(t, "why") {
			case 0: // neither
				query.Set("preselect", rapid.SampledFrom([]string{"", "true", "false"}).Draw(t, "preselect"))
			case 1: // no regular expression
				query.Set("regex", rapid.SampledFrom([]string{"(", "[", "a)", "*", "a**", "(?P<", "\\", "[z-a]", "(?!x)", "\xff"}).Draw(t, "regex"))
				if rapid.Bool().Draw(t, "no preselection") {
					query.Set("preselect", "false")
				}
			case 2: // no id
				query.Set("trace_id", rapid.SampledFrom([]string{"x", "-1", "0x1", "10000000000000000", "1 ", " ", "g", "+1", "1_0", "ffffffffffffffffff", "1.5"}).Draw(t, "id"))
			case 3: // matches nothing
				query.Set("regex", rapid.SampledFrom([]string{"zzz", "^$", "^outer$", "s\\.Outer", "leaf.", "s-outer"}).Draw(t, "regex"))
				if rapid.Bool().Draw(t, "preselect?") {
					query.Set("preselect", rapid.SampledFrom([]string{"", "true", "1", "T"}).Draw(t, "preselect"))
				}
				if rapid.Bool().Draw(t, "id") {
					query.Set("trace_id", "1")
				}
			case 4: // no flag
				query.Set("regex", "outer")
				query.Set("preselect", rapid.SampledFrom([]string{"yes", "x", "2", "no", "tru", " ", "tRue", "fALSE", "trUE"}).Draw(t, "preselect"))
			case 5: // a good expression and a bad id
				query.Set("regex", "outer")
				query.Set("trace_id", rapid.SampledFrom([]string{"x", "-1", "0x1", "10000000000000000"}).Draw(t, "id"))
			case 6: // no such drawing
				path = "/trace" + rapid.SampledFrom([]string{"", "/", "/x", "/dot", "/text", "/SVG"}).Draw(t, "kind")
				query.Set("regex", "outer")
				want = 404
			}
		}
		c.Logf("%q %q", path, query)

		// A query that is accepted would wait for a span.
		first := strings.Split(strings.TrimLeft(path, "/"), "/")[0]
		var f present.Result
		var ct string
		var err error
		if rec := kit.Safely(func() { f, ct, err = present.FromRequest(reg, path, query) }); rec != nil {
			t.Fatalf("panic: %v", rec)
		}
		if first == "trace" {
			if err == nil {
				if want != 0 {
					t.Fatalf("accepted, want status %d", want)
				}
				return
			}
			c.Label("refused")
			c.NonTrivial()
		}
		method := rapid.SampledFrom([]string{"GET", "GET", "GET", "POST", "PUT", "HEAD"}).Draw(t, "method")
		res := get(reg, method, path, query)
		body := res.Body.String()
		if res.Code != 200 && res.Code != 400 && res.Code != 404 {
			t.Fatalf("status %d: %s", res.Code, body)
		}
		if want != 0 && res.Code != want {
			t.Fatalf("status %d, want %d: %s", res.Code, want, body)
		}
		if (err == nil) != (res.Code == 200) {
			t.Fatalf("FromRequest gives %v, the handler status %d", err, res.Code)
		}
		if err != nil {
			if method != "HEAD" && !strings.Contains(body, err.Error()) {
				t.Fatalf("error %q answered with %q", err, body)
			}
			return
		}
		if got := res.Header().Get("Content-Type"); got != ct {
			t.Fatalf("content type %q, FromRequest says %q", got, ct)
		}
		var buf bytes.Buffer
		if err := f(&buf); err != nil {
			t.Fatalf("%v", err)
		}
		if method == "HEAD" && body == "" {
			return // there is none to an answer
		}
		if canon(buf.String()) != canon(body) {
			t.Fatalf("FromRequest gives\n%s\nthe handler\n%s", buf.String(), body)
		}
		if at := buf.Len() / 2; at > 0 {
			if err := f(&failing{left: rapid.IntRange(0, at-1).Draw(t, "fails at")}); err != errBoom {
				t.Fatalf("a failing writer gives %v", err)
			}
		}
		if rep != nil {
			if ct != rep.contentType {
				t.Fatalf("content type %q, want %q", ct, rep.contentType)
			}
			var want bytes.Buffer
			if err := rep.f(reg, &want); err != nil {
				t.Fatalf("%v", err)
			}
			if canon(want.String()) != canon(body) {
				t.Fatalf("report\n%s\nwant\n%s", body, want.String())
			}
			c.Label("report")
			c.NonTrivial()
		} else if first == "" {
			index(t, reg, ct, body)
			c.Label("index")
		}
	})
}

var href = regexp.MustCompile(`href="([^"]*)"`)

// index follows every link of the index page.
func index(t *rapid.T, reg *monkit.Registry, ct, body string) {
	if !strings.HasPrefix(ct, "text/html") || !strings.Contains(body, "<html") {
		t.Fatalf("the index is %q: %q", ct, body)
	}
	links := href.FindAllStringSubmatch(body, -1)
	if len(links) < 8 {
		t.Fatalf("%d links", len(links))
	}
	for _, l := range links {
		u, err := url.Parse(html.UnescapeString(l[1]))
		if err != nil {
			t.Fatalf("link %q: %v", l[1], err)
		}
		u = (&url.URL{Path: "/"}).ResolveReference(u)
		want := 200
		q := u.Query()
		if strings.HasPrefix(u.Path, "/trace/") {
			want = 400 // there, but asks for more
		}
		if res := get(reg, "GET", u.Path, q); res.Code != want {
			t.Fatalf("link %q answers %d: %s", l[1], res.Code, res.Body)
		}
		if want == 400 {
			q.Set("regex", "outer")
			if _, _, err := present.FromRequest(reg, u.Path, q); err != nil {
				t.Fatalf("link %q with a query: %v", l[1], err)
			}
		}
	}
}

// ---- trace queries, in virtual time

type span struct {
	n        int
	real     *monkit.Span
	ctx      context.Context
	exit     func(*error)
	f        *monkit.Func
	trace    *monkit.Trace
	parent   *span
	finished bool
}

type query struct {
	n       int
	kind    string // json, svg, remote
	via     string
	re      *regexp.Regexp
	witness string
	id      *int64
	known   map[*monkit.Func]bool // with preselection
	viz     string

	buf     *bytes.Buffer
	err     error
	status  int
	ct      string
	over    chan struct{}
	pings   time.Time
	matched *span
	done    []*span // finished since the match
	answer  []*span
	ready   bool
	sampled int
}

func (q *query) matches(s *span) bool {
	if q.id != nil && s.trace.Id() != *q.id {
		return false
	}
	if q.known != nil {
		return q.known[s.f]
	}
	return q.re == nil || q.re.MatchString(s.f.FullName())
}

type world struct {
	t       *rapid.T
	c       *kit.Case
	reg     *monkit.Registry
	spans   []*span
	queries []*query
	cbs     map[*monkit.Trace]int
	ids     map[int64]*monkit.Trace
	early   int // callbacks on traces that were not sampled yet
}

func settle() { time.Sleep(time.Millisecond) }

func (w *world) start(f *monkit.Func, parent *span, id *int64) *span {
	s := &span{n: len(w.spans), f: f, parent: parent, ctx: context.Background()}
	if parent != nil {
		s.ctx = parent.ctx
		s.exit = f.Task(&s.ctx)
	} else if id != nil {
		tr := monkit.NewTrace(*id)
		if v := rapid.SampledFrom([]interface{}{nil, nil, nil, false, "no"}).Draw(w.t, "sampled before"); v != nil {
			tr.Set(present.SampledKey, v)
		}
		tr.Set(present.SampledCBKey, func(tr *monkit.Trace) {
			w.cbs[tr]++
			if v, _ := tr.Get(present.SampledKey).(bool); !v {
				w.early++
			}
		})
		s.exit = f.RemoteTrace(&s.ctx, 3, tr)
	} else {
		s.exit = f.Task(&s.ctx)
	}
	s.real = monkit.SpanFromCtx(s.ctx)
	s.trace = s.real.Trace()
	w.spans = append(w.spans, s)
	p := -1
	if parent != nil {
		p = parent.n
	}
	w.c.Logf("start %d %s under %d trace %x", s.n, f.FullName(), p, uint64(s.trace.Id()))
	for _, q := range w.queries {
		if q.matched == nil && q.matches(s) {
			q.matched = s
			if q.kind == "remote" {
				q.ready = true
			}
			w.c.Logf("matches query %d", q.n)
		}
	}
	return s
}

func (w *world) end(s *span) {
	if s.finished {
		return
	}
	s.finished = true
	s.exit(nil)
	w.c.Logf("end %d", s.n)
	for _, q := range w.queries {
		if q.matched == nil || q.matched.trace != s.trace || q.ready {
			continue
		}
		if q.matched != s {
			q.done = append(q.done, s)
			continue
		}
		in := map[*span]bool{s: true}
		for changed := true; changed; {
			changed = false
			for _, d := range q.done {
				if !in[d] && in[d.parent] {
					in[d] = true
					changed = true
				}
			}
		}
		for d := range in {
			q.answer = append(q.answer, d)
		}
		q.ready = true
	}
}

func (w *world) check() {
	t := w.t
	settle()
	for _, q := range w.queries {
		over := false
		select {
		case <-q.over:
			over = true
		default:
		}
		if over != q.ready {
			t.Fatalf("query %d answered: %v, want %v: %v %q", q.n, over, q.ready, q.err, q.buf.String())
		}
	}
	var left []*query
	for _, q := range w.queries {
		if q.ready {
			w.answered(q)
		} else {
			left = append(left, q)
		}
	}
	w.queries = left
}

func (w *world) answered(q *query) {
	t := w.t
	if q.err != nil || q.status != 200 {
		t.Fatalf("query %d fails: %v, status %d", q.n, q.err, q.status)
	}
	out := q.buf.String()
	var got []int64
	switch q.kind {
	case "remote":
		tr := q.matched.trace
		if v, _ := tr.Get(present.SampledKey).(bool); !v {
			t.Fatalf("query %d: the trace is not sampled", q.n)
		}
		if w.ids[tr.Id()] != nil && w.cbs[tr] == 0 {
			t.Fatalf("query %d: the trace's callback is not called", q.n)
		}
		if w.early > 0 {
			t.Fatalf("query %d: the callback is called before the trace is sampled", q.n)
		}
		if q.viz == "" {
			var v struct {
				TraceId *int64 `json:"trace_id"`
			}
			if err := json.Unmarshal([]byte(out), &v); err != nil || v.TraceId == nil || *v.TraceId != tr.Id() {
				t.Fatalf("query %d: %q (%v), want trace %d", q.n, out, err, tr.Id())
			}
			return
		}
		m := regexp.MustCompile(`content="0;url=([^"]*)"`).FindStringSubmatch(out)
		if m == nil {
			t.Fatalf("query %d: no redirect in %q", q.n, out)
		}
		u, err := url.Parse(html.UnescapeString(m[1]))
		to := viz[q.viz]
		if err != nil || u.Scheme+"://"+u.Host+u.Path != to.where || u.Query().Get("argv") != fmt.Sprint(tr.Id()) || len(u.Query()["argv"]) != 1 || u.Query().Get("a") != to.a {
			t.Fatalf("query %d: redirect %q, want to %+v with %d", q.n, m[1], to, tr.Id())
		}
		return
	case "json":
		var list []struct{ Id int64 }
		if err := json.Unmarshal([]byte(out), &list); err != nil {
			t.Fatalf("query %d: not JSON: %v: %q", q.n, err, out)
		}
		for _, e := range list {
			got = append(got, e.Id)
		}
	case "svg":
		d := xml.NewDecoder(strings.NewReader(out))
		if !strings.HasPrefix(out, "<?xml") {
			t.Fatalf("query %d: not XML: %q", q.n, out)
		}
		for {
			tok, err := d.Token()
			if err == io.EOF {
				break
			}
			if err != nil {
				t.Fatalf("query %d: not XML: %v", q.n, err)
			}
			if e, ok := tok.(xml.StartElement); ok && e.Name.Local == "g" {
				for _, a := range e.Attr {
					if a.Name.Local == "id" && strings.HasPrefix(a.Value, "id-") {
						n, _ := strconv.ParseInt(a.Value[3:], 10, 64)
						got = append(got, n)
					}
				}
			}
		}
	}
	var want []int64
	for _, s := range q.answer {
		want = append(want, s.real.Id())
	}
	sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
	sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
	if fmt.Sprint(got) != fmt.Sprint(want) {
		t.Fatalf("query %d: spans %v, want %v\n%s", q.n, got, want, out)
	}
	if q.kind == "json" && len(got) > 1 {
		w.c.Label("subtree")
	}
}

// viz is where the visualizers of a query are.
var viz = map[string]struct{ where, a string }{
	"viz.example/show":                  {"http://viz.example/show", ""},
	"http://viz.example/":               {"http://viz.example/", ""},
	"https://viz.example/?a=b":          {"https://viz.example/", "b"},
	"httpd.example/x?a=%26%22%3Cc%3E":   {"http://httpd.example/x", `&"<c>`},
	"https.example:8080":                {"http://https.example:8080", ""},
	"viz.example/show/a/b?z=1&a=b+c":    {"http://viz.example/show/a/b", "b c"},
	"ftp.example/https://viz.example/y": {"http://ftp.example/https://viz.example/y", ""},
}

var patterns = []struct{ re, witness string }{
	{"f0", "f0"}, {"^s\\.f1$", "f1"}, {"f[12]", "f2"}, {".", "x"}, {"f0|late", "late"}, {"(?i)F3", "f3"}, {"late$", "very late"}, {"^s\\.", "y"},
	{" ", "a b"}, {" late", "very late"}, {"f0 ", "f0 x"}, {"m[0-9]+", "m1000"}, {"m[0-9]+", "m1000"}, {"f\\+", "ff+"}, {"\tx", "a\tx"},
}

func (w *world) ask(n int) {
	t := w.t
	q := &query{n: n, over: make(chan struct{}), buf: &bytes.Buffer{}, status: 200}
	q.kind = rapid.SampledFrom([]string{"json", "svg", "json", "svg", "remote"}).Draw(t, "kind")
	q.via = rapid.SampledFrom([]string{"request", "http", "direct"}).Draw(t, "via")
	values := url.Values{}
	both := rapid.IntRange(0, 3).Draw(t, "by")
	if both != 1 {
		p := rapid.SampledFrom(patterns).Draw(t, "pattern")
		q.re, q.witness = regexp.MustCompile(p.re), p.witness
		values.Set("regex", p.re)
		pre := rapid.SampledFrom([]string{"", "true", "1", "false", "0", "F"}).Draw(t, "preselect")
		if pre != "" {
			values.Set("preselect", pre)
		}
		if pre == "" || pre == "true" || pre == "1" {
			q.known = map[*monkit.Func]bool{}
			w.reg.Funcs(func(f *monkit.Func) {
				if q.re.MatchString(f.FullName()) {
					q.known[f] = true
				}
			})
			if len(q.known) == 0 {
				return // refused
			}
		}
	} else {
		q.witness = "x"
	}
	if both <= 1 {
		id := w.drawID()
		q.id = &id
		values.Set("trace_id", rapid.SampledFrom([]string{"%x", "%016x", "%X"}).Draw(t, "format"))
		values.Set("trace_id", fmt.Sprintf(values.Get("trace_id"), uint64(id)))
	}
	want := map[string]string{"json": js, "svg": svg, "remote": js}[q.kind]
	if q.kind == "remote" {
		q.viz = rapid.SampledFrom([]string{"", "", "", "viz.example/show", "http://viz.example/", "https://viz.example/?a=b", "httpd.example/x?a=%26%22%3Cc%3E", "https.example:8080",
			"viz.example/show/a/b?z=1&a=b+c", "ftp.example/https://viz.example/y"}).Draw(t, "viz")
		if q.viz != "" {
			values.Set("viz", q.viz)
			want = page
		}
		if q.via == "direct" {
			q.via = "request"
		}
	}
	w.c.Logf("query %d %s %s %v", n, q.kind, q.via, values)
	matcher := func(s *monkit.Span) bool {
		if q.id != nil && s.Trace().Id() != *q.id {
			return false
		}
		if q.known != nil {
			return q.known[s.Func()]
		}
		return q.re == nil || q.re.MatchString(s.Func().FullName())
	}
	switch q.via {
	case "request":
		f, ct, err := present.FromRequest(w.reg, "/trace/"+q.kind, values)
		if err != nil || ct != want {
			t.Fatalf("query %d: %v, content type %q, want %q", n, err, ct, want)
		}
		go func() {
			defer close(q.over)
			q.err = f(q.buf)
		}()
	case "http":
		go func() {
			defer close(q.over)
			rec := httptest.NewRecorder()
			req := httptest.NewRequest("GET", "/trace/"+q.kind+"?"+values.Encode(), nil)
			present.HTTP(w.reg).ServeHTTP(rec, req)
			q.buf, q.status = rec.Body, rec.Code
			if ct := rec.Header().Get("Content-Type"); ct != want {
				q.err = fmt.Errorf("content type %q, want %q", ct, want)
			}
		}()
	case "direct":
		go func() {
			defer close(q.over)
			if q.kind == "svg" {
				q.err = present.TraceQuerySVG(w.reg, q.buf, matcher)
			} else {
				q.err = present.TraceQueryJSON(w.reg, q.buf, matcher)
			}
		}()
	}
	settle()
	w.queries = append(w.queries, q)
}

var ids = []int64{1, 2, 10, -1, 255, 1 << 40, -1 << 63}

func (w *world) drawID() int64 { return rapid.SampledFrom(ids).Draw(w.t, "trace id") }

// TestFake makes trace queries while a program runs.
func TestFake(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		w := &world{t: t, c: c, reg: monkit.NewRegistry(), cbs: map[*monkit.Trace]int{}, ids: map[int64]*monkit.Trace{}}
		s := w.reg.ScopeNamed("s")
		funcs := []*monkit.Func{s.FuncNamed("f0"), s.FuncNamed("f1"), s.FuncNamed("f2"), s.FuncNamed("f1", monkit.NewSeriesTag("k", "v"))}
		for _, id := range ids {
			w.ids[id] = &monkit.Trace{}
		}
		if rapid.IntRange(0, 3).Draw(t, "many") == 0 {
			for i := 0; i < 130; i++ {
				s.FuncNamed(fmt.Sprint("m", i))
			}
			funcs = append(funcs, s.FuncNamed("m0"), s.FuncNamed("m129"))
		}
		asked := 0
		for i := rapid.IntRange(3, 24).Draw(t, "steps"); i > 0; i-- {
			var running []*span
			for _, s := range w.spans {
				if !s.finished {
					running = append(running, s)
				}
			}
			switch op := rapid.SampledFrom([]string{"start", "start", "start", "end", "end", "ask", "sleep", "new"}).Draw(t, "op"); {
			case op == "ask":
				if asked < 3 {
					w.ask(asked)
					asked++
				}
			case op == "sleep":
				d := rapid.SampledFrom([]time.Duration{time.Second, 29 * time.Second, 31 * time.Second, 100 * time.Second}).Draw(t, "sleep")
				c.Logf("sleep %v", d)
				time.Sleep(d)
			case op == "new":
				funcs = append(funcs, s.FuncNamed(rapid.SampledFrom([]string{"late", "f3", "F0", "m2000", "very late", "f0 x", "a b"}).Draw(t, "name")))
			case op == "end" && len(running) > 0:
				w.end(rapid.SampledFrom(running).Draw(t, "which"))
			default:
				f := rapid.SampledFrom(funcs).Draw(t, "f")
				if len(running) > 0 && rapid.IntRange(0, 3).Draw(t, "root") > 0 {
					w.start(f, rapid.SampledFrom(running).Draw(t, "parent"), nil)
				} else if rapid.Bool().Draw(t, "id?") {
					id := w.drawID()
					w.start(f, nil, &id)
				} else {
					w.start(f, nil, nil)
				}
			}
			w.check()
		}
		for i := len(w.spans) - 1; i >= 0; i-- {
			w.end(w.spans[i])
		}
		w.check()
		// Every query left is answered by a span made for it.
		for len(w.queries) > 0 {
			q := w.queries[0]
			f := s.FuncNamed(q.witness)
			if q.known != nil {
				f = nil
				for _, x := range funcs {
					if q.known[x] {
						f = x
						break
					}
				}
				if f == nil {
					f = s.FuncNamed("m5")
				}
			}
			if rapid.Bool().Draw(t, "linger") {
				time.Sleep(70 * time.Second) // keep alives
			}
			other := w.start(funcs[0], nil, nil)
			w.check()
			x := w.start(f, nil, q.id)
			w.check()
			y := w.start(funcs[0], x, nil)
			w.end(y)
			w.check()
			w.end(x)
			w.check()
			w.end(other)
			w.check()
		}
		c.NonTrivialIf(asked > 0 && len(w.spans) > 4)
	})
}

// TestFakeWriter asks with writers that fail while the query waits.
func TestFakeWriter(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		reg := monkit.NewRegistry()
		f := reg.ScopeNamed("s").FuncNamed("f")
		prolog := 200
		at := rapid.IntRange(0, prolog).Draw(t, "fails at")
		svg := rapid.Bool().Draw(t, "svg")
		boom := rapid.SampledFrom([]interface{}{nil, nil, errBoom, "text", 7}).Draw(t, "panic")
		over := make(chan error, 1)
		go func() {
			w := &failing{at, boom}
			matcher := func(s *monkit.Span) bool { return true }
			var err error
			rec := kit.Safely(func() {
				if svg {
					err = present.TraceQuerySVG(reg, w, matcher)
				} else {
					err = present.TraceQueryJSON(reg, w, matcher)
				}
			})
			if rec != nil {
				// A panic of the writer in the caller's own goroutine is
				// the caller's.
				err = errBoom
			} else if boom != nil && boom != interface{}(errBoom) && err != nil && strings.Contains(err.Error(), fmt.Sprint(boom)) {
				err = errBoom
			}
			over <- err
		}()
		time.Sleep(31 * time.Second * time.Duration(prolog+5))
		select {
		case err := <-over:
			if err != errBoom {
				t.Fatalf("a writer failing at byte %d gives %v", at, err)
			}
		default:
			t.Fatalf("a failed query goes on waiting")
		}
		// Nothing is left behind.
		ctx := context.Background()
		f.Task(&ctx)(nil)
		c.Logf("svg %v fails at %d", svg, at)
		c.NonTrivialIf(at > 60)
	})
}

// slow is a writer that takes its time and notes how it is used.
type slow struct {
	each          time.Duration
	mu            sync.Mutex
	busy          bool
	over          bool
	problem       string
	writes, after int
	buf           bytes.Buffer
}

func (s *slow) Write(p []byte) (int, error) {
	s.mu.Lock()
	if s.busy {
		s.problem = "two writes at once"
	}
	if s.over {
		s.after++
	}
	s.busy = true
	s.writes++
	s.mu.Unlock()
	time.Sleep(s.each)
	s.mu.Lock()
	s.buf.Write(p)
	s.busy = false
	s.mu.Unlock()
	return len(p), nil
}

// TestFakeKeepAlive finishes queries around the instants at which they are
// kept alive: their writer is not used by two at once, nor after they are over.
func TestFakeKeepAlive(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		reg := monkit.NewRegistry()
		f := reg.ScopeNamed("s").FuncNamed("f")
		w := &slow{each: rapid.SampledFrom([]time.Duration{0, 0, time.Second, 10 * time.Second, 30 * time.Second, 45 * time.Second}).Draw(t, "writing takes")}
		kind := rapid.SampledFrom([]string{"json", "svg", "remote"}).Draw(t, "kind")
		rounds := rapid.IntRange(0, 3).Draw(t, "rounds")
		delay := time.Duration(rounds)*30*time.Second + rapid.SampledFrom([]time.Duration{0, 0, 0, -1, 1, time.Second, -time.Second, 5 * time.Second}).Draw(t, "delay")
		lasts := rapid.SampledFrom([]time.Duration{0, 30 * time.Second, 60 * time.Second, time.Second}).Draw(t, "lasts")
		if delay < 1 {
			delay = 1
		}
		over := make(chan error, 1)
		go func() {
			var err error
			any := func(*monkit.Span) bool { return true }
			switch kind {
			case "json":
				err = present.TraceQueryJSON(reg, w, any)
			case "svg":
				err = present.TraceQuerySVG(reg, w, any)
			default:
				var result present.Result
				result, _, err = present.FromRequest(reg, "/trace/remote", url.Values{"regex": {"f"}})
				if err == nil {
					err = result(w)
				}
			}
			w.mu.Lock()
			if w.busy {
				w.problem = "the query is over during a write"
			}
			w.over = true
			w.mu.Unlock()
			over <- err
		}()
		// The query registers itself at once or, where it first writes a
		// prolog, a few writes later.
		time.Sleep(delay)
		ctx := context.Background()
		exit := f.Task(&ctx)
		time.Sleep(lasts)
		exit(nil)
		for i := 0; i < 200; i++ {
			time.Sleep(30 * time.Second)
			select {
			case err := <-over:
				time.Sleep(5 * time.Minute)
				w.mu.Lock()
				defer w.mu.Unlock()
				if err != nil || w.problem != "" || w.after > 0 {
					t.Fatalf("%v, %s, %d writes after the end", err, w.problem, w.after)
				}
				if kind == "json" && !json.Valid(w.buf.Bytes()) {
					t.Fatalf("not JSON: %q", w.buf.String())
				}
				c.Logf("%s after %v for %v, writing takes %v", kind, delay, lasts, w.each)
				c.NonTrivialIf(w.writes > 2)
				return
			default:
			}
			ctx := context.Background()
			f.Task(&ctx)(nil)
		}
		t.Fatalf("the query does not end")
	})
}

// TestRace starts matching spans on many traces at once: one of them answers
// a remote query, and it is the one that is sampled.
// TestFakeCallback: the callback of the trace a remote query selects may itself
// start spans, matching or not.
func TestFakeCallback(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		reg := monkit.NewRegistry()
		funcs := []*monkit.Func{reg.ScopeNamed("s").FuncNamed("f"), reg.ScopeNamed("s").FuncNamed("g")}
		tr := monkit.NewTrace(rapid.Int64Range(0, 1<<62).Draw(t, "id"))
		query := url.Values{"regex": {rapid.SampledFrom([]string{".", "f", "f|g", "s.f"}).Draw(t, "regex")}}
		called, unsampled := 0, 0
		n := rapid.IntRange(1, 3).Draw(t, "spans")
		nested, own := rapid.Bool().Draw(t, "nested"), rapid.Bool().Draw(t, "own trace")
		which := rapid.IntRange(0, 1).Draw(t, "function")
		tr.Set(present.SampledCBKey, func(got *monkit.Trace) {
			called++
			if v, _ := got.Get(present.SampledKey).(bool); !v || got != tr {
				unsampled++
			}
			ctx := context.Background()
			for i := 0; i < n; i++ {
				if !nested {
					ctx = context.Background()
				}
				if own {
					defer funcs[which].Task(&ctx)(nil)
				} else {
					defer funcs[which].RemoteTrace(&ctx, 5, got)(nil)
				}
			}
		})
		c.Logf("trace %x query %v callback starts %d of %s nested %v own %v", tr.Id(), query, n, funcs[which].ShortName(), nested, own)
		result, _, err := present.FromRequest(reg, "/trace/remote", query)
		if err != nil {
			t.Fatalf("%v: %v", query, err)
		}
		var buf bytes.Buffer
		over, ended := make(chan error, 1), make(chan bool, 1)
		go func() { over <- result(&buf) }()
		time.Sleep(time.Second)
		go func() {
			ctx := context.Background()
			funcs[0].RemoteTrace(&ctx, 1, tr)(nil)
			ended <- true
		}()
		time.Sleep(time.Second)
		select {
		case <-ended:
		default:
			t.Fatalf("a task waits for the endpoint")
		}
		select {
		case err = <-over:
		default:
			t.Fatalf("no answer")
		}
		if got, want := strings.TrimSpace(buf.String()), fmt.Sprintf("{\"trace_id\":%d}", tr.Id()); err != nil || got != want {
			t.Fatalf("answer %q, %v, want %s", got, err, want)
		}
		if called != 1 || unsampled != 0 {
			t.Fatalf("callback called %d times, %d too early", called, unsampled)
		}
		c.NonTrivial()
	})
}

func TestRace(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		reg := monkit.NewRegistry()
		f := reg.ScopeNamed("s").FuncNamed("f")
		query := url.Values{"regex": {"^s.f$"}}
		n := rapid.IntRange(2, 8).Draw(t, "goroutines")
		result, _, err := present.FromRequest(reg, "/trace/remote", query)
		if err != nil {
			t.Fatalf("%v", err)
		}
		var buf bytes.Buffer
		over := make(chan error, 1)
		go func() { over <- result(&buf) }()
		var mu sync.Mutex
		var sampled []*monkit.Trace
		spans := 0
		stop := make(chan struct{})
		var wg sync.WaitGroup
		busy := rapid.IntRange(0, 100).Draw(t, "busy")
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					ctx := context.Background()
					exit := f.Task(&ctx)
					for j := 0; j < busy; j++ {
						runtime.Gosched()
					}
					exit(nil)
					tr := monkit.SpanFromCtx(ctx).Trace()
					mu.Lock()
					spans++
					if v, _ := tr.Get(present.SampledKey).(bool); v {
						sampled = append(sampled, tr)
					}
					mu.Unlock()
				}
			}()
		}
		err = <-over
		close(stop)
		wg.Wait()
		var v struct {
			TraceId *int64 `json:"trace_id"`
		}
		if err != nil || json.Unmarshal(buf.Bytes(), &v) != nil || v.TraceId == nil {
			t.Fatalf("%v: %q", err, buf.String())
		}
		if len(sampled) != 1 || sampled[0].Id() != *v.TraceId {
			t.Fatalf("%d traces are sampled, the answer is %d", len(sampled), *v.TraceId)
		}
		c.Logf("goroutines %d busy %d", n, busy)
		c.NonTrivialIf(spans > n)
	})
}

// bare is a writer without any synchronization of its own.
type bare struct {
	over  *atomic.Bool
	after *atomic.Int64
	buf   bytes.Buffer
}

func (b *bare) Write(p []byte) (int, error) {
	if b.over.Load() {
		b.after.Add(1)
		return len(p), nil
	}
	return b.buf.Write(p)
}

// TestTick asks while the keep alives come all the time: every query ends,
// with its answer, and leaves its writer alone from then on.
func TestTick(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		n := rapid.IntRange(1, 12).Draw(t, "queries")
		busy := rapid.IntRange(0, 300).Draw(t, "busy")
		viz := rapid.Bool().Draw(t, "viz")
		var over atomic.Bool
		var after atomic.Int64
		alive := 0
		for i := 0; i < n; i++ {
			over.Store(false)
			reg := monkit.NewRegistry()
			f := reg.ScopeNamed("s").FuncNamed("f")
			kind := rapid.SampledFrom([]string{"json", "svg", "remote", "direct json", "direct svg"}).Draw(t, "kind")
			w := &bare{over: &over, after: &after}
			end := make(chan error, 1)
			go func() {
				var err error
				any := func(*monkit.Span) bool { return true }
				switch kind {
				case "direct json":
					err = present.TraceQueryJSON(reg, w, any)
				case "direct svg":
					err = present.TraceQuerySVG(reg, w, any)
				default:
					values := url.Values{"regex": {"f"}}
					if viz {
						values.Set("viz", "viz.example")
					}
					var result present.Result
					result, _, err = present.FromRequest(reg, "/trace/"+kind, values)
					if err == nil {
						err = result(w)
					}
				}
				over.Store(true)
				end <- err
			}()
			limit := time.After(60 * time.Second)
			var err error
			for waiting := true; waiting; {
				ctx := context.Background()
				exit := f.Task(&ctx)
				for j := 0; j < busy; j++ {
					runtime.Gosched()
				}
				exit(nil)
				select {
				case err = <-end:
					waiting = false
				case <-limit:
					t.Fatalf("query %d (%s) does not end", i, kind)
				default:
				}
			}
			if err != nil {
				t.Fatalf("query %d (%s): %v", i, kind, err)
			}
			out := w.buf.Bytes()
			if m := bytes.Count(out, []byte("\n\n")); m > 0 {
				alive++
			}
			switch {
			case strings.HasSuffix(kind, "svg"):
				d := xml.NewDecoder(bytes.NewReader(out))
				d.Strict = true
				for {
					if _, err := d.Token(); err == io.EOF {
						break
					} else if err != nil {
						t.Fatalf("query %d (%s): %v in %q", i, kind, err, out)
					}
				}
			case kind == "remote" && viz:
				if s := strings.TrimSpace(string(out)); !strings.HasPrefix(s, "<!DOCTYPE html>") || !strings.HasSuffix(s, "</html>") {
					t.Fatalf("query %d (%s): %q", i, kind, out)
				}
			default:
				if !json.Valid(out) {
					t.Fatalf("query %d (%s): %q", i, kind, out)
				}
			}
			c.Logf("%s, %d bytes", kind, len(out))
		}
		time.Sleep(time.Duration(rapid.IntRange(0, 200).Draw(t, "settle")) * time.Microsecond)
		if after.Load() > 0 {
			t.Fatalf("%d writes after the end", after.Load())
		}
		c.NonTrivialIf(alive > 0)
	})
}
