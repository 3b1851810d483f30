// C20: the HTTP wrappers propagate the trace and stay transparent.
package c20

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/url"
	"os"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	monkit "github.com/spacemonkeygo/monkit/v3"
	mhttp "github.com/spacemonkeygo/monkit/v3/http"
	"github.com/spacemonkeygo/monkit/v3/present"
	"pgregory.net/rapid"

	"verif.local/harness/kit"
)

func TestMain(m *testing.M) { kit.Main(m) }

// recorder is a response writer that logs the calls made to it.
type recorder struct {
	calls  []string
	header http.Header
	fail   int // every fail-th write fails
	writes int
	body   bytes.Buffer
	sent   int
}

var errWrite = errors.New("write failed")

func (r *recorder) Header() http.Header {
	return r.header
}

func (r *recorder) snap() string {
	return fmt.Sprint(r.header)
}

func (r *recorder) WriteHeader(code int) {
	if r.sent == 0 && (code >= 200 || code == 101) {
		r.sent = code
	}
	r.calls = append(r.calls, fmt.Sprintf("WriteHeader(%d) %s", code, r.snap()))
}

func (r *recorder) Write(p []byte) (int, error) {
	r.writes++
	if r.sent == 0 {
		r.sent = 200
	}
	r.calls = append(r.calls, fmt.Sprintf("Write(%q) %s", p, r.snap()))
	r.body.Write(p)
	if r.fail > 0 && r.writes%r.fail == 0 {
		return len(p) / 2, errWrite
	}
	return len(p), nil
}

type flushRecorder struct{ *recorder }

func (r flushRecorder) Flush() {
	if r.sent == 0 {
		r.sent = 200
	}
	r.calls = append(r.calls, "Flush() "+r.snap())
}

// step is something a handler does with its response.
type step struct {
	kind int // 0 header, 1 status, 2 write, 3 flush, 4 string write
	text string
	code int
}

func (s step) String() string {
	switch s.kind {
	case 0:
		return fmt.Sprintf("Header(%q)", s.text)
	case 1:
		return fmt.Sprintf("WriteHeader(%d)", s.code)
	case 2, 4:
		return fmt.Sprintf("Write(%q)", s.text)
	default:
		return "Flush"
	}
}

// drawSteps draws handler programs that send their status, if any, before the
// body: perhaps informational ones first, then the final one, and perhaps
// superfluous ones after it. (The existing tests want a status set after the
// body to be recorded, although no server sends it.)
func drawSteps(t *rapid.T) []step {
	var out []step
	for i := rapid.IntRange(0, 2).Draw(t, "headers"); i > 0; i-- {
		out = append(out, step{kind: 0, text: kit.Plain(t, "header")})
	}
	info := false
	if rapid.IntRange(0, 3).Draw(t, "informational?") == 0 {
		for i := rapid.IntRange(1, 2).Draw(t, "informational"); i > 0; i-- {
			out = append(out, step{kind: 1, code: rapid.SampledFrom([]int{100, 102, 103, 199}).Draw(t, "informational code")})
		}
		info = true
	}
	if final := rapid.Bool().Draw(t, "status?"); final || info && !rapid.Bool().Draw(t, "implicit?") {
		out = append(out, step{kind: 1, code: rapid.OneOf(rapid.SampledFrom([]int{200, 201, 204, 301, 304, 400, 404, 418, 500, 503, 599, 600, 999}), rapid.IntRange(200, 599), rapid.IntRange(200, 999)).Draw(t, "code")})
		if rapid.IntRange(0, 5).Draw(t, "superfluous?") == 0 {
			out = append(out, step{kind: 1, code: rapid.IntRange(100, 599).Draw(t, "superfluous code")})
		}
	} else if info {
		out = append(out, step{kind: 2, text: kit.Text(t, "first body")})
	}
	for i := rapid.IntRange(0, 4).Draw(t, "steps"); i > 0; i-- {
		s := step{kind: rapid.SampledFrom([]int{0, 2, 2, 3, 4}).Draw(t, "kind")}
		switch s.kind {
		case 0:
			s.text = kit.Plain(t, "header")
		case 2, 4:
			s.text = kit.Text(t, "body")
			if rapid.IntRange(0, 15).Draw(t, "big?") == 15 {
				s.text += strings.Repeat("0123456789abcde\n", rapid.SampledFrom([]int{40, 300, 2100, 4200}).Draw(t, "big"))
			}
		}
		out = append(out, s)
	}
	return out
}

func run(w http.ResponseWriter, steps []step) (log []string) {
	for i, s := range steps {
		switch s.kind {
		case 0:
			w.Header().Add("X-"+s.text, fmt.Sprint(i))
			log = append(log, fmt.Sprint(w.Header()))
		case 1:
			w.WriteHeader(s.code)
		case 2:
			n, err := w.Write([]byte(s.text))
			log = append(log, fmt.Sprint(n, err))
		case 4:
			n, err := io.WriteString(w, s.text)
			log = append(log, fmt.Sprint(n, err))
		case 3:
			if f, ok := w.(http.Flusher); ok {
				f.Flush()
				log = append(log, "flushed")
			} else {
				log = append(log, "no flusher")
			}
		}
	}
	return log
}

// status is the status such a program sends.
func status(steps []step, flusher bool) int {
	for _, s := range steps {
		switch {
		case s.kind == 1 && (s.code >= 200 || s.code == 101):
			return s.code
		case s.kind == 2 || s.kind == 4 || s.kind == 3 && flusher:
			return 200
		}
	}
	return 200
}

type ctxKey int

// observer watches the spans of traces and adds to their contexts.
type observer struct {
	mu     sync.Mutex
	starts []*monkit.Span
	ends   map[*monkit.Span]int
	errs   map[*monkit.Span]error
	panics map[*monkit.Span]bool
	adds   bool
}

func newObserver(adds bool) *observer {
	return &observer{ends: map[*monkit.Span]int{}, errs: map[*monkit.Span]error{}, panics: map[*monkit.Span]bool{}, adds: adds}
}

func (o *observer) Start(ctx context.Context, s *monkit.Span) context.Context {
	o.mu.Lock()
	o.starts = append(o.starts, s)
	o.mu.Unlock()
	if o.adds {
		return context.WithValue(ctx, ctxKey(1), fmt.Sprintf("observed %d", s.Id()))
	}
	return ctx
}

func (o *observer) Finish(ctx context.Context, s *monkit.Span, err error, panicked bool, finish time.Time) {
	o.mu.Lock()
	o.ends[s]++
	o.errs[s], o.panics[s] = err, panicked
	o.mu.Unlock()
}

func annotations(s *monkit.Span) map[string][]string {
	out := map[string][]string{}
	for _, a := range s.Annotations() {
		out[a.Name] = append(out[a.Name], a.Value)
	}
	return out
}

func one(as map[string][]string, name string) string {
	if len(as[name]) != 1 {
		return fmt.Sprintf("%d of %q: %q", len(as[name]), name, as)
	}
	return as[name][0]
}

// TestModelWrap compares a wrapped response writer with a plain one.
func TestModelWrap(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		steps := drawSteps(t)
		flusher := rapid.Bool().Draw(t, "flusher")
		fail := rapid.IntRange(0, 3).Draw(t, "fail")
		odd := rapid.IntRange(0, 5).Draw(t, "odd?") == 0
		if odd { // what becomes of it is up to the writer
			at := rapid.IntRange(0, len(steps)).Draw(t, "at")
			s := step{kind: 1, code: rapid.SampledFrom([]int{0, -1, 1, 99, 1000, 70000}).Draw(t, "odd code")}
			steps = append(steps[:at:at], append([]step{s}, steps[at:]...)...)
		}
		c.Logf("%v flusher %v fail %d", steps, flusher, fail)
		mk := func() (*recorder, http.ResponseWriter) {
			r := &recorder{header: http.Header{}, fail: fail}
			if flusher {
				return r, flushRecorder{r}
			}
			return r, r
		}
		r1, w1 := mk()
		want := run(w1, steps)
		r2, w2 := mk()
		wrapped, code := mhttp.Wrap(w2)
		if code() != 200 {
			t.Fatalf("status %d before anything was sent", code())
		}
		if _, ok := wrapped.(http.Flusher); ok != flusher {
			t.Fatalf("flusher %v, want %v", ok, flusher)
		}
		got := run(wrapped, steps)
		if !reflect.DeepEqual(want, got) {
			t.Fatalf("handler saw %q, want %q", got, want)
		}
		if !reflect.DeepEqual(r1.calls, r2.calls) || !reflect.DeepEqual(r1.header, r2.header) {
			t.Fatalf("calls %q, want %q", r2.calls, r1.calls)
		}
		if !odd && code() != status(steps, flusher) {
			t.Fatalf("status %d, want %d", code(), status(steps, flusher))
		}
		c.NonTrivialIf(len(steps) > 2 && status(steps, flusher) != 200)
	})
}

// roundTripper is the network: it serves the request it is given with a
// handler, as a server would see it.
type network struct {
	handler http.Handler
	flusher bool
	err     error
	panic   interface{}
	// what happened
	rec  *recorder
	sent http.Header
	resp *http.Response
	reqs int
	base context.Context
}

func (n *network) Do(req *http.Request) (*http.Response, error) {
	n.reqs++
	n.sent = req.Header.Clone()
	if n.panic != nil {
		panic(n.panic)
	}
	if n.handler == nil {
		return n.resp, n.err
	}
	in := &http.Request{Method: req.Method, URL: &url.URL{Path: req.URL.Path, RawQuery: req.URL.RawQuery}, Header: req.Header.Clone(),
		RequestURI: req.URL.RequestURI(), Host: req.URL.Host, Body: req.Body}
	in = in.WithContext(n.base)
	n.rec = &recorder{header: http.Header{}}
	var w http.ResponseWriter = n.rec
	if n.flusher {
		w = flushRecorder{n.rec}
	}
	n.handler.ServeHTTP(w, in)
	code := n.rec.sent
	if code == 0 {
		code = 200
	}
	n.resp = &http.Response{StatusCode: code, Header: n.rec.header, Body: io.NopCloser(bytes.NewReader(n.rec.body.Bytes()))}
	return n.resp, n.err
}

// server is a traced handler with a record of what it saw.
type server struct {
	reg     *monkit.Registry
	obs     *observer
	handler http.Handler
	steps   []step
	panics  interface{}

	flusher  bool // whether the handler could flush
	calls    int
	span     *monkit.Span
	observed interface{}
	base     interface{}
	parent   int64
	parentOk bool
	sampled  interface{}
	traceID  int64
	live     bool
	anns     map[string][]string
	log      []string
	req      *http.Request
	body     string
	mask     bool // hide the ids that a forced sample reports
}

func newServer(t *rapid.T, allowed []string) *server {
	s := &server{reg: monkit.NewRegistry(), obs: newObserver(rapid.Bool().Draw(t, "observers add to the context"))}
	s.reg.ObserveTraces(func(tr *monkit.Trace) { tr.ObserveSpansCtx(s.obs) })
	s.steps = drawSteps(t)
	s.handler = mhttp.TraceHandler(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		s.calls++
		ctx := r.Context()
		s.req = r
		s.span = monkit.SpanFromCtx(ctx)
		s.observed = ctx.Value(ctxKey(1))
		s.base = ctx.Value(ctxKey(0))
		if s.span != nil {
			s.parent, s.parentOk = s.span.ParentId()
			s.sampled = s.span.Trace().Get(present.SampledKey)
			s.traceID = s.span.Trace().Id()
			s.anns = annotations(s.span)
			s.reg.RootSpans(func(x *monkit.Span) { s.live = s.live || x == s.span })
		}
		if r.Body != nil {
			b, _ := io.ReadAll(r.Body)
			s.body = string(b)
		}
		if s.mask {
			w.Header().Del("trace-id")
			w.Header().Del("child-id")
		}
		_, s.flusher = w.(http.Flusher)
		s.log = run(w, s.steps)
		if s.panics != nil {
			panic(s.panics)
		}
	}), s.reg.ScopeNamed("server"), allowed...)
	return s
}

// check verifies what the handler saw and what was recorded.
func (s *server) check(t *rapid.T, uri string, base interface{}, sampled bool, baggage map[string]string) {
	if s.calls != 1 {
		t.Fatalf("handler called %d times", s.calls)
	}
	if s.span == nil {
		t.Fatalf("no span in the handler's context")
	}
	if !s.live {
		t.Fatalf("the server span is not running while the handler is")
	}
	if s.base != base {
		t.Fatalf("the request's own context is lost: %v, want %v", s.base, base)
	}
	if s.obs.adds {
		if want := fmt.Sprintf("observed %d", s.span.Id()); s.observed != want {
			t.Fatalf("what the observers added is lost: %v, want %v", s.observed, want)
		}
	}
	if got, _ := s.sampled.(bool); got != sampled {
		t.Fatalf("sampled %v, want %v", s.sampled, sampled)
	}
	as := annotations(s.span)
	if got := one(as, "http.uri"); got != uri {
		t.Fatalf("uri %q, want %q", got, uri)
	}
	if got := one(s.anns, "http.uri"); got != uri {
		t.Fatalf("uri while handling %q, want %q", got, uri)
	}
	if s.panics == nil {
		if got := one(as, "http.responsecode"); got != fmt.Sprint(status(s.steps, s.flusher)) {
			t.Fatalf("status annotation %q, want %d", got, status(s.steps, s.flusher))
		}
	}
	for k, v := range baggage {
		if got := one(as, k); got != v {
			t.Fatalf("baggage %q: %q, want %q", k, got, v)
		}
		if got := one(s.anns, k); got != v {
			t.Fatalf("baggage %q while handling: %q, want %q", k, got, v)
		}
	}
	for k := range as {
		if _, ok := baggage[k]; !ok && k != "http.uri" && k != "http.responsecode" {
			t.Fatalf("annotation %q: %q from nowhere", k, as[k])
		}
	}
	o := s.obs
	if len(o.starts) != 1 || o.starts[0] != s.span || o.ends[s.span] != 1 {
		t.Fatalf("spans %d, ended %d times", len(o.starts), o.ends[s.span])
	}
	if o.panics[s.span] != (s.panics != nil) {
		t.Fatalf("span panicked %v, want %v", o.panics[s.span], s.panics != nil)
	}
	live := 0
	s.reg.AllSpans(func(*monkit.Span) { live++ })
	if live != 0 {
		t.Fatalf("%d spans still running", live)
	}
}

func drawURL(t *rapid.T) *url.URL {
	return &url.URL{Scheme: "http", Host: "h.example:80", Path: "/" + rapid.StringMatching(`[a-c]{0,3}`).Draw(t, "path"),
		RawQuery: rapid.SampledFrom([]string{"", "a=b", "a=b&c=%20d", "%s=%d"}).Draw(t, "query")}
}

// around starts, for some cases, a span around the serving of a request, as
// another traced layer of the server would, and returns a check that the
// span stays as that layer left it.
func around(t *rapid.T, ctx context.Context) (context.Context, func()) {
	if rapid.IntRange(0, 2).Draw(t, "around") > 0 {
		return ctx, func() {}
	}
	reg := monkit.NewRegistry()
	end := reg.ScopeNamed("outer").FuncNamed("layer").Task(&ctx)
	span := monkit.SpanFromCtx(ctx)
	span.Annotate("own", "1")
	if rapid.Bool().Draw(t, "around sampled") {
		span.Trace().Set(present.SampledKey, false)
	}
	return ctx, func() {
		if as := annotations(span); len(as) != 1 || one(as, "own") != "1" {
			t.Fatalf("the span around the handler has the annotations %q", as)
		}
		span.Children(func(ch *monkit.Span) { t.Fatalf("the span around the handler has a child %v", ch.Func()) })
		live := 0
		reg.AllSpans(func(x *monkit.Span) {
			if x == span {
				live++
			}
		})
		if live != 1 {
			t.Fatalf("the span around the handler is not running (%d)", live)
		}
		end(nil)
		reg.AllSpans(func(x *monkit.Span) { t.Fatalf("%v is left running", x.Func()) })
		if n := span.Trace().Spans(); n != 0 {
			t.Fatalf("the trace around the handler has %d spans left", n)
		}
	}
}

// TestModelServer serves requests with generated headers and compares the
// response with that of the bare handler.
func TestModelServer(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		keys := []string{"a", "b", "k"}
		much := rapid.IntRange(0, 7).Draw(t, "much") == 0
		if much {
			for i := 0; i < 30; i++ {
				keys = append(keys, fmt.Sprintf("key%d", i))
			}
		}
		allowed := rapid.SliceOfNDistinct(rapid.SampledFrom(keys), 0, len(keys), rapid.ID[string]).Draw(t, "allowed")
		if much && rapid.Bool().Draw(t, "all") {
			allowed = keys
		}
		s := newServer(t, allowed)
		s.mask = true
		if rapid.IntRange(0, 6).Draw(t, "panic") == 0 {
			s.panics = "handler panic"
		}
		in := mhttp.TraceInfo{Sampled: rapid.Bool().Draw(t, "sampled")}
		ids := rapid.Bool().Draw(t, "ids")
		if ids {
			tr, p := rapid.Int64().Draw(t, "trace"), rapid.Int64().Draw(t, "parent")
			in.TraceId, in.ParentId = &tr, &p
		}
		baggage := map[string]string{}
		in.Baggage = map[string]string{}
		for _, k := range keys {
			if rapid.Bool().Draw(t, "baggage") {
				in.Baggage[k] = kit.TextNo(t, "value", ",")
				for _, a := range allowed {
					if a == k && ids {
						baggage[k] = in.Baggage[k]
					}
				}
			}
		}
		u := drawURL(t)
		body := kit.Text(t, "request body")
		flusher := rapid.Bool().Draw(t, "flusher")
		method := rapid.SampledFrom([]string{"GET", "POST", "X y"}).Draw(t, "method")
		headers := http.Header{"X-Own": {"1", "2"}}
		in.SetHeader(headers)
		outer, outerCheck := around(t, context.Background())
		mk := func() *http.Request {
			r := &http.Request{Method: method, URL: u, RequestURI: u.RequestURI(), Header: headers.Clone(), Body: io.NopCloser(strings.NewReader(body))}
			return r.WithContext(context.WithValue(outer, ctxKey(0), "base"))
		}
		c.Logf("ids %v sampled %v baggage %q allowed %q steps %v panics %v", ids, in.Sampled, in.Baggage, allowed, s.steps, s.panics)

		var bare *recorder
		var rec interface{}
		serve := func(h http.Handler) (*recorder, interface{}) {
			r := &recorder{header: http.Header{}}
			var w http.ResponseWriter = r
			if flusher {
				w = flushRecorder{r}
			}
			in := mk()
			ctx, was := in.Context(), in.Header.Clone()
			rec := kit.Safely(func() { h.ServeHTTP(w, in) })
			if in.Context() != ctx || !reflect.DeepEqual(in.Header, was) {
				t.Fatalf("the server's request was changed")
			}
			return r, rec
		}
		var wantLog []string
		bare, _ = serve(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { wantLog = run(w, s.steps) }))
		got, rec := serve(s.handler)
		if rec != s.panics {
			t.Fatalf("panic %v, want %v", rec, s.panics)
		}
		s.check(t, u.RequestURI(), "base", in.Sampled, baggage)
		outerCheck()
		if s.body != body {
			t.Fatalf("request body %q, want %q", s.body, body)
		}
		r := mk()
		if s.req.Method != r.Method || s.req.URL.String() != u.String() || !reflect.DeepEqual(s.req.Header, r.Header) || s.req.RequestURI != r.RequestURI {
			t.Fatalf("the handler's request differs: %v", s.req)
		}
		if !reflect.DeepEqual(wantLog, s.log) || !reflect.DeepEqual(bare.calls, got.calls) || !reflect.DeepEqual(bare.header, got.header) {
			t.Fatalf("response %q %v %q, want %q %v %q", got.calls, got.header, s.log, bare.calls, bare.header, wantLog)
		}
		if ids {
			if s.traceID != *in.TraceId || !s.parentOk || s.parent != *in.ParentId {
				t.Fatalf("trace %d parent %d %v, want %d %d", s.traceID, s.parent, s.parentOk, *in.TraceId, *in.ParentId)
			}
		} else if s.traceID < 0 {
			t.Fatalf("trace id %d", s.traceID)
		}
		c.NonTrivialIf(ids && len(s.steps) > 1)
		c.LabelIf(in.Sampled && !ids, "forced sample")
	})
}

// TestModelForced checks that a forced sample reports the ids to look for.
func TestModelForced(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		s := newServer(t, nil)
		sampled := rapid.Bool().Draw(t, "sampled")
		u := drawURL(t)
		r := &http.Request{Method: "GET", URL: u, RequestURI: u.RequestURI(), Header: http.Header{}}
		if sampled {
			r.Header.Set("tracestate", "sampled=true")
		}
		w := &recorder{header: http.Header{}}
		stale := rapid.IntRange(0, 3).Draw(t, "stale") == 0
		if sampled && stale {
			// left by whoever serves the request around us
			w.header.Set("Trace-Id", "stale")
			w.header.Set("Child-Id", "stale")
		}
		s.handler.ServeHTTP(w, r)
		s.check(t, u.RequestURI(), nil, sampled, nil)
		tr, ch := w.header.Get("trace-id"), w.header.Get("child-id")
		if sampled {
			if tr != fmt.Sprintf("%x", s.traceID) || ch != fmt.Sprintf("%x", s.span.Id()) {
				t.Fatalf("trace-id %q child-id %q, want %x %x", tr, ch, s.traceID, s.span.Id())
			}
			if len(s.steps) > 0 && len(w.calls) > 0 && !strings.Contains(w.calls[0], tr) {
				t.Fatalf("the ids come after the response headers: %q", w.calls)
			}
			c.NonTrivial()
		} else if tr != "" || ch != "" {
			t.Fatalf("ids %q %q of an unsampled request leak", tr, ch)
		}
		c.Logf("sampled %v steps %v", sampled, s.steps)
	})
}

// caller is the context that a client call comes from.
type caller struct {
	ctx     context.Context
	span    *monkit.Span
	end     func(*error)
	sampled bool
	reg     *monkit.Registry
	obs     *observer
}

func newCaller(t *rapid.T) *caller {
	cl := &caller{ctx: context.Background(), reg: monkit.NewRegistry(), obs: newObserver(false)}
	cl.sampled = rapid.Bool().Draw(t, "caller sampled")
	depth := rapid.IntRange(0, 2).Draw(t, "caller depth")
	odd := rapid.SampledFrom([]interface{}{nil, nil, false, "true", 1}).Draw(t, "other flag")
	remote := depth > 0 && rapid.Bool().Draw(t, "remote caller")
	cl.reg.ObserveTraces(func(tr *monkit.Trace) {
		if cl.sampled {
			tr.Set(present.SampledKey, true)
		} else if odd != nil {
			tr.Set(present.SampledKey, odd)
		}
		tr.ObserveSpansCtx(cl.obs)
	})
	var ends []func(*error)
	for i := 0; i < depth; i++ {
		f := cl.reg.ScopeNamed("caller").FuncNamed(fmt.Sprint("f", i))
		if i == 0 && remote {
			tr := monkit.NewTrace(monkit.NewId())
			ends = append(ends, f.RemoteTrace(&cl.ctx, 12345, tr))
		} else {
			ends = append(ends, f.Task(&cl.ctx))
		}
	}
	cl.span = monkit.SpanFromCtx(cl.ctx)
	cl.end = func(err *error) {
		for i := len(ends) - 1; i >= 0; i-- {
			ends[i](err)
		}
	}
	return cl
}

// TestModelPropagation sends requests from the tracing client to the tracing
// handler.
func TestModelPropagation(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		cl := newCaller(t)
		srv := newServer(t, []string{"k"})
		srv.mask = true
		outer, outerCheck := around(t, context.Background())
		net := &network{handler: srv.handler, flusher: rapid.Bool().Draw(t, "flusher"), base: context.WithValue(outer, ctxKey(0), "srv")}
		if rapid.IntRange(0, 3).Draw(t, "client error") == 0 {
			net.err = errors.New("client error")
		}
		req := &http.Request{Method: rapid.SampledFrom([]string{"GET", "POST", "", "X y"}).Draw(t, "method"), URL: drawURL(t)}
		if rapid.Bool().Draw(t, "headers") {
			req.Header = http.Header{"X-Own": {"1"}}
		}
		bag := rapid.IntRange(0, 2).Draw(t, "baggage")
		want := map[string]string{}
		if req.Header != nil && bag > 0 {
			req.Header.Set("baggage", "k=v1,secret=x")
			if cl.sampled {
				want["k"] = "v1"
			}
		}
		own := req.Header.Clone()
		c.Logf("sampled %v caller %v method %q err %v steps %v", cl.sampled, cl.span != nil, req.Method, net.err, srv.steps)
		resp, err := mhttp.TraceRequest(cl.ctx, cl.reg.ScopeNamed("client"), net, req)
		if net.reqs != 1 {
			t.Fatalf("%d requests sent", net.reqs)
		}
		if resp != net.resp || err != net.err {
			t.Fatalf("result %v %v, want %v %v", resp, err, net.resp, net.err)
		}
		if resp.StatusCode != status(srv.steps, srv.flusher) {
			t.Fatalf("status %d, want %d", resp.StatusCode, status(srv.steps, srv.flusher))
		}
		cl.obs.mu.Lock()
		span := cl.obs.starts[len(cl.obs.starts)-1]
		cl.obs.mu.Unlock()
		if cl.obs.ends[span] != 1 || cl.obs.errs[span] != net.err {
			t.Fatalf("client span ended %d times with %v", cl.obs.ends[span], cl.obs.errs[span])
		}
		if cl.span != nil && span.Trace() != cl.span.Trace() {
			t.Fatalf("the client span is in another trace")
		}
		as := annotations(span)
		if got := one(as, "http.uri"); got != req.URL.String() {
			t.Fatalf("client uri %q, want %q", got, req.URL)
		}
		if net.err == nil {
			if got := one(as, "http.responsecode"); got != fmt.Sprint(resp.StatusCode) {
				t.Fatalf("client status %q, want %d", got, resp.StatusCode)
			}
		}
		srv.check(t, req.URL.RequestURI(), "srv", cl.sampled, want)
		outerCheck()
		if cl.sampled {
			parent := span.Id()
			if cl.span != nil {
				parent = cl.span.Id()
			}
			if srv.traceID != span.Trace().Id() || !srv.parentOk || srv.parent != parent {
				t.Fatalf("server trace %d parent %d, want %d %d", srv.traceID, srv.parent, span.Trace().Id(), parent)
			}
			c.NonTrivial()
		} else {
			// Nothing of an unsampled trace is sent.
			for k, v := range net.sent {
				if !reflect.DeepEqual(v, own[k]) {
					t.Fatalf("an unsampled caller sends %s: %q", k, v)
				}
			}
			if srv.traceID == span.Trace().Id() {
				t.Fatalf("the server is in the unsampled caller's trace")
			}
		}
		for k, v := range own {
			if !reflect.DeepEqual(v, net.sent[k]) {
				t.Fatalf("header %s: %q, want %q", k, net.sent[k], v)
			}
		}
		cl.end(nil)
		live := 0
		cl.reg.AllSpans(func(*monkit.Span) { live++ })
		if live != 0 {
			t.Fatalf("%d spans still running", live)
		}
	})
}

// TestModelClient checks clients that fail or panic.
func TestModelClient(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		cl := newCaller(t)
		net := &network{}
		switch rapid.IntRange(0, 2).Draw(t, "result") {
		case 0:
			net.err = errors.New("refused")
		case 1:
			net.err = context.Canceled
			net.resp = &http.Response{StatusCode: 500}
		case 2:
			net.panic = "client panic"
		}
		req := &http.Request{Method: "GET", URL: drawURL(t)}
		var resp *http.Response
		var err error
		rec := kit.Safely(func() { resp, err = mhttp.TraceRequest(cl.ctx, cl.reg.ScopeNamed("client"), net, req) })
		if rec != net.panic {
			t.Fatalf("panic %v, want %v", rec, net.panic)
		}
		if rec == nil && (resp != net.resp || err != net.err) {
			t.Fatalf("result %v %v, want %v %v", resp, err, net.resp, net.err)
		}
		span := cl.obs.starts[len(cl.obs.starts)-1]
		if cl.obs.ends[span] != 1 || cl.obs.panics[span] != (rec != nil) {
			t.Fatalf("client span ended %d times, panicked %v", cl.obs.ends[span], cl.obs.panics[span])
		}
		if rec == nil && cl.obs.errs[span] != net.err {
			t.Fatalf("client span failed with %v, want %v", cl.obs.errs[span], net.err)
		}
		c.Logf("sampled %v err %v panic %v", cl.sampled, net.err, net.panic)
		c.NonTrivialIf(cl.sampled)
		cl.end(nil)
	})
}

// TestModelNet serves over a real connection: what is recorded is what a real
// client receives, and that is what it receives without the wrapper.
func TestModelNet(t *testing.T) {
	var steps []step
	plain := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { run(w, steps) })
	reg := monkit.NewRegistry()
	obs := newObserver(false)
	ends := make(chan *monkit.Span, 1)
	reg.ObserveTraces(func(tr *monkit.Trace) { tr.ObserveSpansCtx(obs) })
	traced := mhttp.TraceHandler(plain, reg.ScopeNamed("server"))
	mux := http.NewServeMux()
	mux.Handle("/plain", plain)
	mux.HandleFunc("/traced", func(w http.ResponseWriter, r *http.Request) {
		traced.ServeHTTP(w, r)
		obs.mu.Lock()
		span := obs.starts[len(obs.starts)-1]
		obs.mu.Unlock()
		ends <- span
	})
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fmt.Println("KIT-ERROR no loopback:", err)
		os.Exit(3)
	}
	srv := &http.Server{Handler: mux, ErrorLog: log.New(io.Discard, "", 0)}
	go func() { _ = srv.Serve(l) }()
	defer srv.Close()
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		steps = drawSteps(t)
		c.Logf("%v", steps)
		get := func(path string) (int, string, string) {
			resp, err := http.Get("http://" + l.Addr().String() + path)
			if err != nil {
				t.Fatalf("request: %v", err)
			}
			defer resp.Body.Close()
			body, _ := io.ReadAll(resp.Body)
			resp.Header.Del("Date")
			return resp.StatusCode, string(body), fmt.Sprint(resp.Header)
		}
		code, body, header := get("/plain")
		tcode, tbody, theader := get("/traced")
		span := <-ends
		if code != tcode || body != tbody || header != theader {
			t.Fatalf("traced: %d %q %s, plain: %d %q %s", tcode, tbody, theader, code, body, header)
		}
		if got := one(annotations(span), "http.responsecode"); got != fmt.Sprint(tcode) {
			t.Fatalf("recorded %s, sent %d", got, tcode)
		}
		c.NonTrivialIf(len(steps) > 1)
	})
}

// TestRace serves requests concurrently with one handler; each keeps its own
// trace, status and baggage.
func TestRace(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		reg := monkit.NewRegistry()
		obs := newObserver(true)
		reg.ObserveTraces(func(tr *monkit.Trace) { tr.ObserveSpansCtx(obs) })
		h := mhttp.TraceHandler(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			s := monkit.SpanFromCtx(r.Context())
			p, _ := s.ParentId()
			as := annotations(s)
			var code int
			fmt.Sscan(r.URL.Query().Get("code"), &code)
			w.WriteHeader(code)
			fmt.Fprintf(w, "%d %d %v %s %s", s.Trace().Id(), p, s.Trace().Get(present.SampledKey), one(as, "k"), one(as, "http.uri"))
		}), reg.ScopeNamed("server"), "k")
		n := rapid.IntRange(2, 6).Draw(t, "clients")
		per := rapid.IntRange(1, 5).Draw(t, "requests")
		var mu sync.Mutex
		var bad []string
		kit.Parallel(n, func(i int) {
			creg := monkit.NewRegistry()
			for j := 0; j < per; j++ {
				ctx := context.Background()
				tr := monkit.NewTrace(monkit.NewId())
				tr.Set(present.SampledKey, true)
				end := creg.ScopeNamed("c").FuncNamed("f").RemoteTrace(&ctx, 5, tr)
				span := monkit.SpanFromCtx(ctx)
				net := &network{handler: h, base: context.Background()}
				code := 200 + i*10 + j
				u := &url.URL{Scheme: "http", Host: "h", Path: "/", RawQuery: fmt.Sprintf("code=%d", code)}
				req := &http.Request{Method: "GET", URL: u, Header: http.Header{"Baggage": {fmt.Sprintf("k=v%d-%d", i, j)}}}
				resp, err := mhttp.TraceRequest(ctx, creg.ScopeNamed("client"), net, req)
				body, _ := io.ReadAll(resp.Body)
				want := fmt.Sprintf("%d %d true v%d-%d %s", tr.Id(), span.Id(), i, j, u.RequestURI())
				if err != nil || resp.StatusCode != code || string(body) != want {
					mu.Lock()
					bad = append(bad, fmt.Sprintf("%v %d %q, want %d %q", err, resp.StatusCode, body, code, want))
					mu.Unlock()
				}
				end(nil)
			}
		})
		if len(bad) > 0 {
			t.Fatalf("%s", bad[0])
		}
		obs.mu.Lock()
		defer obs.mu.Unlock()
		codes := map[string]int{}
		for _, s := range obs.starts {
			if obs.ends[s] != 1 {
				t.Fatalf("a span ended %d times", obs.ends[s])
			}
			codes[one(annotations(s), "http.responsecode")]++
		}
		for i := 0; i < n; i++ {
			for j := 0; j < per; j++ {
				if codes[fmt.Sprint(200+i*10+j)] != 1 {
					t.Fatalf("statuses recorded: %v", codes)
				}
			}
		}
		c.Logf("%d clients, %d requests each", n, per)
		c.NonTrivial()
	})
}
