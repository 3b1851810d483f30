SEEDS = []
def seed(id, prop, edits, demo, needs, breaks, dir="", flags=""):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, dir=dir, flags=flags))

H = """
package %s

import (
%s
)
"""
def head(pkg, *imps):
    return H % (pkg, "\n".join('\t' + (i if i.startswith(('.', '_')) or ' ' in i else '"%s"' % i) for i in imps))
M = 'monkit "github.com/spacemonkeygo/monkit/v3"'

seed("c01-panic-with-error", "C01",
 [("funcstats.go", "\tif panicked {\n\t\tf.panics += 1", "\tif panicked && err == nil {\n\t\tf.panics += 1")],
 head("monkit_test", "errors", "testing", M) + """
func TestDemo(t *testing.T) {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	func() {
		defer func() { recover() }()
		func() (err error) {
			defer f.Task(nil)(&err)
			err = errors.New("half way")
			panic("boom")
		}()
	}()
	if f.Panics() != 1 || len(f.Errors()) != 0 {
		t.Fatalf("panics %d errors %v", f.Panics(), f.Errors())
	}
}
""", "a call that panics after it has set its error result", "the call is counted as an error under an empty name instead of as a panic")

seed("c01-reset-keeps-panics", "C01",
 [("funcstats.go", "\tf.panics = 0\n", "")],
 head("monkit_test", "testing", M) + """
func TestDemo(t *testing.T) {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	func() {
		defer func() { recover() }()
		defer f.Task(nil)(nil)
		panic("boom")
	}()
	f.Reset()
	if f.Panics() != 0 {
		t.Fatalf("panics %d after reset", f.Panics())
	}
}
""", "a reset of the statistics of a function that has panicked", "panics from before the reset are still counted after it")

seed("c02-remote-drops-values", "C02",
 [("ctx.go", """	} else if s, ok := ctx.Value(spanKey).(*Span); ok && s != nil {
		if trace == nil {
			parent = s
			trace = parent.trace
		}
	} else if trace == nil {""", """	} else if s, ok := ctx.Value(spanKey).(*Span); ok && s != nil {
		if trace == nil {
			parent = s
			trace = parent.trace
		} else {
			// the span is not going to be the parent, so don't keep it alive
			ctx = s.Context
		}
	} else if trace == nil {""")],
 head("monkit_test", "context", "testing", M) + """
type key struct{}

func TestDemo(t *testing.T) {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	ctx := context.Background()
	defer f.Task(&ctx)(nil)
	ctx = context.WithValue(ctx, key{}, "v")
	defer f.ResetTrace(&ctx)(nil)
	if ctx.Value(key{}) != "v" {
		t.Fatal("value lost")
	}
}
""", "a trace reset (or remote trace) on a context derived from one that has a span already", "values, deadline and cancellation added to the context after the outer span started are lost")

seed("c02-panic-sets-error", "C02",
 [("ctx.go", """			err = *errptr
		}
		s.f.end(err, panicked, finish.Sub(s.start))
""", """			if perr, ok := rec.(error); ok && *errptr == nil {
				*errptr = perr
			}
			err = *errptr
		}
		s.f.end(err, panicked, finish.Sub(s.start))
""")],
 head("monkit_test", "errors", "testing", M) + """
func TestDemo(t *testing.T) {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	var err error
	func() {
		defer func() { recover() }()
		defer f.Task(nil)(&err)
		panic(errors.New("boom"))
	}()
	if err != nil {
		t.Fatalf("error became %v", err)
	}
}
""", "a panic with an error value in a function that gave its error pointer", "the caller's error variable is overwritten by the instrumentation")

seed("c03-namer-declines", "C03",
 [("error_names.go", "		if name, ok := n.Name(); ok {", "		if name, ok := n.Name(); ok || name != \"\" {")],
 head("monkit_test", "io", "testing", M) + """
type shy struct{ error }

func (shy) Name() (string, bool) { return "not me", false }

func TestDemo(t *testing.T) {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	var err error = shy{io.EOF}
	f.Task(nil)(&err)
	if f.Errors()["System Error"] != 1 {
		t.Fatal(f.Errors())
	}
}
""", "a self-naming error that declines but gives a name all the same", "failures are counted under a name that was declined")

seed("c03-net-error-order", "C03",
 [("error_names_net.go", """	case *net.DNSConfigError:
		return "DNS Config Error"
	case net.Error:
		return "Network Error"
""", """	case net.Error:
		return "Network Error"
	case *net.DNSConfigError:
		return "DNS Config Error"
""")],
 head("monkit_test", "io", "net", "testing", M) + """
func TestDemo(t *testing.T) {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	var err error = &net.DNSConfigError{Err: io.EOF}
	f.Task(nil)(&err)
	if f.Errors()["DNS Config Error"] != 1 {
		t.Fatal(f.Errors())
	}
}
""", "a DNS configuration error", "it is counted under the name of all other network errors")

seed("c04-remote-parent-zero", "C04",
 [("span.go", "	if s.parentId != nil {\n", "	if s.parentId != nil && *s.parentId != 0 {\n")],
 head("monkit_test", "context", "testing", M) + """
func TestDemo(t *testing.T) {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	ctx := context.Background()
	defer f.RemoteTrace(&ctx, 0, monkit.NewTrace(5))(nil)
	if id, ok := monkit.SpanFromCtx(ctx).ParentId(); id != 0 || !ok {
		t.Fatal(id, ok)
	}
}
""", "a remote trace whose given parent id is zero", "the span reports that it has no parent")

seed("c04-annotations-shared", "C04",
 [("span.go", "	return append([]Annotation(nil), annotations...)", "	return annotations")],
 head("monkit_test", "context", "testing", M) + """
func TestDemo(t *testing.T) {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	ctx := context.Background()
	defer f.Task(&ctx)(nil)
	s := monkit.SpanFromCtx(ctx)
	s.Annotate("a", "1")
	s.Annotate("b", "2")
	s.Annotate("c", "3")
	x := append(s.Annotations(), monkit.Annotation{Name: "mine", Value: "only"})
	s.Annotate("d", "4")
	if x[3].Name != "mine" || s.Annotations()[3].Name != "d" {
		t.Fatal(x, s.Annotations())
	}
	s.Annotations()[0].Name = "x"
	if s.Annotations()[0].Name != "a" {
		t.Fatal(s.Annotations())
	}
}
""", "a caller that changes or appends to the annotations it was given", "the span's own annotations change")

seed("c05-bag-promote", "C05",
 [("spanbag.go", """		b.first = nil
		return
	}
	// okay""", """		b.first = nil
		// keep the fast path in use
		for other := range b.rest {
			b.first = other
			break
		}
		return
	}
	// okay""")],
 head("monkit_test", "context", "testing", M) + """
func TestDemo(t *testing.T) {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	ctx := context.Background()
	defer f.Task(&ctx)(nil)
	s := monkit.SpanFromCtx(ctx)
	ctx1, ctx2 := ctx, ctx
	exit1 := f.Task(&ctx1)
	exit2 := f.Task(&ctx2)
	exit1(nil)
	exit2(nil)
	s.Children(func(c *monkit.Span) { t.Fatal("finished child", c.Id()) })
}
""", "two overlapping children of which the first one finishes first", "a finished child stays in its parent's children")

seed("c05-addchild-done-early", "C05",
 [("span.go", """	s.mtx.Lock()
	s.children.Add(child)
	done := s.done
	s.mtx.Unlock()
	if done {""", """	s.mtx.Lock()
	done := s.done
	s.mtx.Unlock()
	s.mtx.Lock()
	s.children.Add(child)
	s.mtx.Unlock()
	if done {""")],
 head("monkit_test", "context", "sync", "testing", "time", M) + """
func TestDemo(t *testing.T) {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	for start := time.Now(); time.Since(start) < 60*time.Second; {
		for i := 0; i < 1000; i++ {
			ctx := context.Background()
			exit := f.Task(&ctx)
			cctx := ctx
			var cexit func(*error)
			var wg sync.WaitGroup
			wg.Add(2)
			go func() { defer wg.Done(); cexit = f.Task(&cctx) }()
			go func() { defer wg.Done(); exit(nil) }()
			wg.Wait()
			if !monkit.SpanFromCtx(cctx).Orphaned() {
				t.Fatal("child of a finished span is not an orphan")
			}
			cexit(nil)
		}
		if time.Since(start) > 20*time.Second {
			return
		}
	}
}
""", "a child that starts while its parent finishes, between the two halves of registering it", "the running child is in neither the roots nor reachable from one, and is not marked orphaned")

seed("c05-orphan-leak", "C05",
 [("ctx.go", """		s.mtx.Lock()
		s.done = true
		orphaned := s.orphaned
""", """		orphaned := s.Orphaned()
		s.mtx.Lock()
		s.done = true
""")],
 head("monkit_test", "context", "sync", "testing", "time", M) + """
func TestDemo(t *testing.T) {
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	for start := time.Now(); time.Since(start) < 20*time.Second; {
		for i := 0; i < 1000; i++ {
			ctx := context.Background()
			exit := f.Task(&ctx)
			cctx := ctx
			cexit := f.Task(&cctx)
			var wg sync.WaitGroup
			wg.Add(2)
			go func() { defer wg.Done(); cexit(nil) }()
			go func() { defer wg.Done(); exit(nil) }()
			wg.Wait()
		}
		r.AllSpans(func(*monkit.Span) { t.Fatal("finished span left behind") })
	}
}
""", "a parent that finishes while its child does, between two adjacent steps of the child's", "the finished child stays among the running root spans for good")

seed("c06-caller-lost", "C06",
 [("funcset.go", """	if loadFunc(&s.first) == f {
		return
	}
	if compareAndSwapFunc(&s.first, nil, f) {
		return
	}
""", """	switch loadFunc(&s.first) {
	case f:
		return
	case nil:
		compareAndSwapFunc(&s.first, nil, f)
		return
	}
""")],
 head("monkit_test", "context", "fmt", "sync", "testing", "time", M) + """
func TestDemo(t *testing.T) {
	s := monkit.NewRegistry().ScopeNamed("s")
	ctx1, ctx2 := context.Background(), context.Background()
	defer s.FuncNamed("p1").Task(&ctx1)(nil)
	defer s.FuncNamed("p2").Task(&ctx2)(nil)
	for start, i := time.Now(), 0; time.Since(start) < 20*time.Second; i++ {
		f := s.FuncNamed(fmt.Sprint(i))
		var wg sync.WaitGroup
		wg.Add(2)
		gate := make(chan bool)
		for _, c := range []context.Context{ctx1, ctx2} {
			c := c
			go func() { defer wg.Done(); <-gate; f.Task(&c)(nil) }()
		}
		close(gate)
		wg.Wait()
		n := 0
		f.Parents(func(*monkit.Func) { n++ })
		if n != 2 {
			t.Fatal("callers:", n)
		}
	}
}
""", "the first two calls of a function coming from different callers at the same time", "one of the two callers is never recorded")

seed("c07-late-observer", "C07",
 [("ctx.go", """		if observer := trace.getObserver(); observer != nil {
			observer.Finish(""", """		if observer == nil {
			observer = trace.getObserver()
		}
		if observer != nil {
			observer.Finish(""")],
 head("monkit_test", "context", "testing", "time", M) + """
type obs int

func (*obs) Start(s *monkit.Span) {}
func (o *obs) Finish(s *monkit.Span, err error, panicked bool, finish time.Time) { *o++ }

func TestDemo(t *testing.T) {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	ctx := context.Background()
	defer f.Task(&ctx)(nil)
	trace := monkit.SpanFromCtx(ctx).Trace()
	var a, b obs
	trace.ObserveSpans(&a)
	exit := f.Task(&ctx)
	trace.ObserveSpans(&b)
	exit(nil)
	if a != 1 || b != 1 {
		t.Fatal(a, b)
	}
}
""", "an observer registered while a span runs that started when the trace had another observer", "the observer misses the finish of that span")

seed("c07-cancel-unlocked", "C07",
 [("trace.go", "	t.mtx.Lock()\n	defer t.mtx.Unlock()\n	for {\n", "	for {\n")],
 head("monkit_test", "context", "sync", "testing", "time", M) + """
type obs int

func (o *obs) Start(s *monkit.Span) { *o++ }
func (*obs) Finish(s *monkit.Span, err error, panicked bool, finish time.Time) {}

func TestDemo(t *testing.T) {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	for start := time.Now(); time.Since(start) < 30*time.Second; {
		ctx := context.Background()
		exit := f.Task(&ctx)
		trace := monkit.SpanFromCtx(ctx).Trace()
		var os [8]obs
		var wg sync.WaitGroup
		gate := make(chan bool)
		for i := range os {
			cancel := trace.ObserveSpans(&os[i])
			wg.Add(1)
			go func() { defer wg.Done(); <-gate; cancel() }()
		}
		close(gate)
		wg.Wait()
		f.Task(&ctx)(nil)
		exit(nil)
		for i := range os {
			if os[i] != 0 {
				t.Fatal("cancelled observer", i, "still called")
			}
		}
	}
}
""", "two observers next to each other in the list that are cancelled at the same time", "one of them stays registered and keeps getting events after its cancel returned")

seed("c08-watcher-ids", "C08",
 [("registry.go", "	cbId := r.watcherCounter\n", "	cbId := int64(len(r.traceWatchers))\n")],
 head("monkit_test", "testing", M) + """
func TestDemo(t *testing.T) {
	r := monkit.NewRegistry()
	var a, b, c int
	cancelA := r.ObserveTraces(func(*monkit.Trace) { a++ })
	r.ObserveTraces(func(*monkit.Trace) { b++ })
	cancelA()
	r.ObserveTraces(func(*monkit.Trace) { c++ })
	r.ScopeNamed("s").FuncNamed("f").Task(nil)(nil)
	if a != 0 || b != 1 || c != 1 {
		t.Fatal(a, b, c)
	}
}
""", "a watcher registered after an older one was cancelled while a younger one stays", "the younger one is silently replaced and misses all new traces")

seed("c09-two-roots", "C09",
 [("collect/trace.go", """		t := s.Trace()
		if existingTraces[t] || stopping {
			return
		}
""", """		t := s.Trace()
		if stopping {
			return
		}
""")],
 head("collect_test", "context", "testing", "time", M, "github.com/spacemonkeygo/monkit/v3/collect") + """
func TestDemo(t *testing.T) {
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	g := r.ScopeNamed("s").FuncNamed("g")
	ctx := context.Background()
	exit := f.Task(&ctx)
	ctx1, ctx2 := ctx, ctx
	exit1, exit2 := f.Task(&ctx1), f.Task(&ctx2)
	exit(nil) // two orphans of the same trace are left
	got := make(chan []*collect.FinishedSpan)
	go func() {
		spans, _ := collect.WatchForSpans(context.Background(), r, func(s *monkit.Span) bool { return s.Func() == g })
		got <- spans
	}()
	time.Sleep(time.Second)
	gexit := g.Task(&ctx1)
	c := ctx1
	f.Task(&c)(nil)
	gexit(nil)
	exit1(nil)
	exit2(nil)
	if spans := <-got; len(spans) != 2 {
		t.Fatal("spans:", len(spans))
	}
}
""", "a trace with several running root spans (orphans) when the watch begins", "every span of that trace is collected more than once", dir="collect/")

seed("c09-stop-observing", "C09",
 [("collect/trace.go", """		stopping = true
		for _, canceler := range cancelers {
			canceler()
		}
""", """		if stopping {
			return
		}
		stopping = true
		for i := len(cancelers) - 1; i > 0; i-- {
			cancelers[i]()
		}
""")],
 head("collect_test", "context", "testing", "time", M, "github.com/spacemonkeygo/monkit/v3/collect") + """
type obs int

func (o *obs) Start(s *monkit.Span) { *o++ }
func (*obs) Finish(s *monkit.Span, err error, panicked bool, finish time.Time) {}

func TestDemo(t *testing.T) {
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	ctx := context.Background()
	defer f.Task(&ctx)(nil)
	var o obs
	collect.ObserveAllTraces(r, &o)()
	f.Task(&ctx)(nil)
	if o != 0 {
		t.Fatal("still observed", o)
	}
}
""", "a trace that runs on after observing all traces was cancelled", "the first trace found stays observed, and costs every one of its spans, for ever", dir="collect/")

seed("c10-float-unsorted", "C10",
 [("floatdist.go", """		if j < ReservoirSize {
			d.reservoir[int(j)] = toReservoir(float64(val))
			d.sorted = false
""", """		if j < ReservoirSize {
			d.reservoir[int(j)] = toReservoir(float64(val))
""")],
 head("monkit_test", "testing", M) + """
func TestDemo(t *testing.T) {
	d := monkit.NewFloatDist(monkit.NewSeriesKey("x"))
	for i := 0; i < 1000; i++ {
		d.Insert(float64(i % 97))
		last := d.Query(0)
		for q := 0.0; q <= 1; q += .01 {
			v := d.Query(q)
			if v < last {
				t.Fatal("quantiles decrease", i)
			}
			last = v
		}
	}
}
""", "more than 64 float values with a quantile asked for in between", "quantiles are read from an unsorted sample and no longer increase")

seed("c11-window-off-by-one", "C11",
 [("intdist.go", "		window := d.Count\n", "		window := index\n")],
 head("monkit_test", "testing", M) + """
func TestDemo(t *testing.T) {
	in := 0
	for i := 0; i < 2000; i++ {
		d := monkit.NewIntDist(monkit.NewSeriesKey("x"))
		for j := 0; j < 64; j++ {
			d.Insert(0)
		}
		d.Insert(1000)
		if d.Query(1) == 1000 {
			in++
		}
	}
	if in == 2000 { // 64/65 of them, so all of them has a chance of 1 in 10^13
		t.Fatal("the 65th value is always in the sample")
	}
}
""", "the 65th and later values of an integer distribution", "late values are over-represented in the sample")

seed("c12-reset-nonempty", "C12",
 [("counter.go", "	c.val, c.low, c.high, c.nonempty = 0, 0, 0, false\n", "	c.val, c.low, c.high = 0, 0, 0\n")],
 head("monkit_test", "testing", M) + """
func TestDemo(t *testing.T) {
	c := monkit.NewCounter(monkit.NewSeriesKey("c"))
	c.Set(3)
	c.Reset()
	c.Set(7)
	if c.Low() != 7 {
		t.Fatal("low", c.Low())
	}
}
""", "a counter used again after a reset with values all above (or all below) zero", "the low (or high) is zero, which the counter never held since the reset")

seed("c12-set-former", "C12",
 [("counter.go", "	c.mtx.Lock()\n	former = c.val\n	c.set(val)\n", "	former = c.Current()\n	c.mtx.Lock()\n	c.set(val)\n")],
 head("monkit_test", "sync", "testing", "time", M) + """
func TestDemo(t *testing.T) {
	for start := time.Now(); time.Since(start) < 20*time.Second; {
		c := monkit.NewCounter(monkit.NewSeriesKey("c"))
		var wg sync.WaitGroup
		var formers [2]int64
		gate := make(chan bool)
		for i := range formers {
			i := i
			wg.Add(1)
			go func() { defer wg.Done(); <-gate; formers[i] = c.Set(int64(i + 1)) }()
		}
		close(gate)
		wg.Wait()
		if formers[0] == formers[1] {
			t.Fatal("both sets replaced the same value", formers)
		}
	}
}
""", "two sets of the same counter at the same time", "both return the same former value, which no one-at-a-time ordering allows")

seed("c13-tick-order", "C13",
 [("meter.go", """		e.total += e.slices[0].count
		copy(e.slices[:], e.slices[1:])
""", """		copy(e.slices[:], e.slices[1:])
		e.total += e.slices[0].count
""")],
 head("monkit", "testing") + """
func TestDemo(t *testing.T) {
	m := NewMeter(NewSeriesKey("m"))
	for i := 0; i < 60; i++ {
		m.Mark(i)
		m.tick(m.slices[0].start)
	}
	if m.Total() != 59*60/2 {
		t.Fatal(m.Total())
	}
}
""", "more than 24 active ticks (four hours)", "events in the bucket that leaves the window are not those added to the total")

seed("c13-negative-bucket", "C13",
 [("meter.go", "	if e.slices[ticksToKeep-1].count != 0 {", "	if e.slices[ticksToKeep-1].count > 0 {")],
 head("monkit", "testing", "time") + """
func TestDemo(t *testing.T) {
	m := NewMeter(NewSeriesKey("m"))
	now := m.slices[0].start
	for i := 0; i < 48; i++ {
		m.Mark(-5)
		now = now.Add(10 * time.Minute)
		m.tick(now)
	}
	if rate, _ := m.stats(now); rate > -0.007 || m.slices[0].start == m.slices[ticksToKeep-1].start {
		t.Fatal("the window does not move", rate)
	}
}
""", "a meter marked with negative amounts for several ticks", "active buckets are not closed, so the window never moves on")

seed("c14-one-pointer", "C14",
 [("struct.go", "\t\tval = val.Elem()", "\t\treturn val.Elem()")],
 head("monkit_test", "testing", M) + """
func TestDemo(t *testing.T) {
	x := 5
	px := &x
	got := monkit.Collect(monkit.StatSourceFromStruct(monkit.NewSeriesKey("k"), struct{ P **int }{&px}))
	if len(got) != 1 || got["k P"] != 5 {
		t.Fatal(got)
	}
}
""", "a field (or struct) reached through more than one pointer", "the field is missing from the export")

seed("c14-unexported-struct", "C14",
 [("struct.go", "			if field_type.Kind() == reflect.Struct && field.CanInterface() {", "			if field_type.Kind() == reflect.Struct {")],
 head("monkit_test", "testing", M) + """
type inner struct{ A int }

func TestDemo(t *testing.T) {
	got := monkit.Collect(monkit.StatSourceFromStruct(monkit.NewSeriesKey("k"), struct {
		B     int
		inner inner
	}{B: 7}))
	if len(got) != 1 || got["k B"] != 7 {
		t.Fatal(got)
	}
}
""", "a struct with an unexported field of a struct type", "the export panics")

seed("c15-double-check", "C15",
 [("scope.go", """	if source, exists := s.sources[name]; exists {
		s.mtx.Unlock()
		return source
	}

""", "")],
 head("monkit_test", "fmt", "sync", "testing", "time", M) + """
func TestDemo(t *testing.T) {
	s := monkit.NewRegistry().ScopeNamed("s")
	for start, i := time.Now(), 0; time.Since(start) < 20*time.Second; i++ {
		var wg sync.WaitGroup
		var cs [4]*monkit.Counter
		gate := make(chan bool)
		for j := range cs {
			j := j
			wg.Add(1)
			go func() { defer wg.Done(); <-gate; cs[j] = s.Counter(fmt.Sprint(i)) }()
		}
		close(gate)
		wg.Wait()
		for _, c := range cs {
			if c != cs[0] {
				t.Fatal("two counters of one name")
			}
		}
	}
}
""", "the first two requests for a metric coming at the same time", "they get different objects, and what is recorded in one is lost")

seed("c16-chain-locked", "C16",
 [("scope.go", """	s.mtx.Lock()
	chains := append([]StatSource(nil), s.chains...)
	s.mtx.Unlock()

	for _, source := range chains {
""", """	s.mtx.RLock()
	defer s.mtx.RUnlock()

	for _, source := range s.chains {
""")],
 head("monkit_test", "testing", "time", M) + """
func TestDemo(t *testing.T) {
	s := monkit.NewRegistry().ScopeNamed("s")
	s.Chain(monkit.StatSourceFunc(func(cb func(key monkit.SeriesKey, field string, val float64)) {
		cb(monkit.NewSeriesKey("x"), "value", float64(s.Counter("new").Inc(1)))
	}))
	done := make(chan bool)
	go func() { monkit.Collect(s); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("the export hangs")
	}
}
""", "a chained source that creates a metric in its scope while it is exported", "the export deadlocks")

seed("c16-gauge-first", "C16",
 [("scope.go", """			panic(fmt.Sprintf("%s already used for another stats source: %T",
				name, source))
		}
	}

	s.sources[sourceName] = gauge{""", """			panic(fmt.Sprintf("%s already used for another stats source: %T",
				name, source))
		}
		return
	}

	s.sources[sourceName] = gauge{""")],
 head("monkit_test", "testing", M) + """
func TestDemo(t *testing.T) {
	s := monkit.NewRegistry().ScopeNamed("s")
	s.Gauge("g", func() float64 { return 1 })
	s.Gauge("g", func() float64 { return 2 })
	if v := monkit.Collect(s)["g,scope=s value"]; v != 2 {
		t.Fatal(v)
	}
}
""", "a gauge registered again under the same name", "the outdated callback keeps being reported")

seed("c17-shared-transformers", "C17",
 [("registry.go", "append(append([]CallbackTransformer(nil), r.transformers...), t...)", "append(r.transformers, t...)")],
 head("monkit_test", "fmt", "testing", M) + """
func tr(n string) monkit.CallbackTransformer {
	return monkit.CallbackTransformerFunc(func(cb func(monkit.SeriesKey, string, float64)) func(monkit.SeriesKey, string, float64) {
		return func(k monkit.SeriesKey, f string, v float64) { cb(k, f+n, v) }
	})
}

func fields(r *monkit.Registry) (out string) {
	r.Stats(func(k monkit.SeriesKey, f string, v float64) { out += fmt.Sprint(f, " ") })
	return out
}

func TestDemo(t *testing.T) {
	r := monkit.NewRegistry()
	r.ScopeNamed("s").Gauge("g", func() float64 { return 1 })
	base := r.WithTransformers(tr("1")).WithTransformers(tr("2")).WithTransformers(tr("3"))
	a := base.WithTransformers(tr("a"))
	before := fields(a)
	base.WithTransformers(tr("b"))
	if after := fields(a); after != before {
		t.Fatal(before, after)
	}
}
""", "two views derived from the same view of a view of a view", "making the second one replaces a transformer of the first")

seed("c17-zero-delta", "C17",
 [("transform.go", "		if found {", "		if found && val != lastTotal {")],
 head("monkit_test", "testing", M) + """
func TestDemo(t *testing.T) {
	n := 0
	cb := monkit.NewDeltaTransformer().Transform(func(k monkit.SeriesKey, f string, v float64) {
		if f == "delta" {
			n++
		}
	})
	cb(monkit.NewSeriesKey("x"), "total", 4)
	cb(monkit.NewSeriesKey("x"), "total", 4)
	if n != 1 {
		t.Fatal(n)
	}
}
""", "a total that has not changed since the last export", "no delta is added for it")

seed("c18-case-order", "C18",
 [("tags.go", "		return kvs[i].key < kvs[j].key\n", "		return strings.ToLower(kvs[i].key) < strings.ToLower(kvs[j].key)\n")],
 head("monkit_test", "testing", M) + """
func TestDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		k := monkit.NewSeriesKey("m").WithTags(monkit.NewSeriesTag("key", "1"), monkit.NewSeriesTag("KEY", "2"), monkit.NewSeriesTag("Key", "3"))
		if k.String() != "m,KEY=2,Key=3,key=1" {
			t.Fatal(k.String())
		}
	}
}
""", "tag keys that differ only in case", "the text form is no longer sorted, and differs from one object to the next")

seed("c18-space-only", "C18",
 [("tags.go", """		strings.IndexByte(tag, '=') == -1 &&
		strings.IndexByte(tag, ' ') == -1 {
""", """		strings.IndexByte(tag, '=') == -1 {
""")],
 head("monkit_test", "testing", M) + """
func TestDemo(t *testing.T) {
	a := monkit.NewSeriesKey("m").WithTag("k", "v w").WithField("f")
	if a != `m,k=v\\ w f` {
		t.Fatal(a)
	}
}
""", "a tag that contains a space and no other special character", "the space is not escaped, so different series share a text form")

seed("c19-signed-ids", "C19",
 [("http/info.go", "	v, err := strconv.ParseUint(s, 16, 64)\n	return int64(v), err", "	return strconv.ParseInt(s, 16, 64)")],
 head("http", "net/http", "testing") + """
func TestDemo(t *testing.T) {
	for _, id := range []int64{1, -1, -1 << 63, 1<<63 - 1} {
		id := id
		h := http.Header{}
		TraceInfo{TraceId: &id, ParentId: &id, Sampled: true}.SetHeader(h)
		got := TraceInfoFromHeader(h)
		if got.TraceId == nil || *got.TraceId != id {
			t.Fatal(id, got)
		}
	}
}
""", "an id with the highest bit set", "the header is taken for malformed and the trace is lost", dir="http/")

seed("c19-baggage-case", "C19",
 [("http/info.go", "						if key == b {", "						if strings.EqualFold(key, b) {")],
 head("http", "net/http", "testing") + """
func TestDemo(t *testing.T) {
	h := http.Header{}
	h.Set("traceparent", "00-1-2-1")
	h.Set("baggage", "K=v")
	if got := TraceInfoFromHeader(h, "k"); len(got.Baggage) != 0 {
		t.Fatal(got.Baggage)
	}
}
""", "a baggage key that differs from an allowed one in case", "a key that was not allowed comes through", dir="http/")

seed("c20-sampled-false", "C20",
 [("http/info.go", "	sampled, _ := trace.Get(present.SampledKey).(bool)\n", "	sampled := trace.Get(present.SampledKey) != nil\n")],
 head("http", "context", "net/http", "testing", M, "github.com/spacemonkeygo/monkit/v3/present") + """
type doer struct{ h http.Header }

func (d *doer) Do(req *http.Request) (*http.Response, error) {
	d.h = req.Header
	return &http.Response{StatusCode: 200}, nil
}

func TestDemo(t *testing.T) {
	s := monkit.NewRegistry().ScopeNamed("s")
	ctx := context.Background()
	defer s.FuncNamed("f").Task(&ctx)(nil)
	monkit.SpanFromCtx(ctx).Trace().Set(present.SampledKey, false)
	req, _ := http.NewRequest("GET", "http://x/", nil)
	var d doer
	TraceRequest(ctx, s, &d, req)
	if len(d.h) != 0 {
		t.Fatal(d.h)
	}
}
""", "a trace that is marked as not sampled, instead of not marked at all", "the ids of an unsampled trace are sent along", dir="http/")

seed("c20-client-response", "C20",
 [("http/client.go", "		return resp, err\n	}\n	s.Annotate", "		return nil, err\n	}\n	s.Annotate")],
 head("http", "context", "errors", "net/http", "testing", M) + """
type doer struct{}

func (doer) Do(req *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 302}, errors.New("too many redirects")
}

func TestDemo(t *testing.T) {
	req, _ := http.NewRequest("GET", "http://x/", nil)
	resp, err := TraceRequest(context.Background(), monkit.NewRegistry().ScopeNamed("s"), doer{}, req)
	if resp == nil || resp.StatusCode != 302 || err == nil {
		t.Fatal(resp, err)
	}
}
""", "a client that returns a response together with an error, as net/http does for refused redirects", "the response is dropped", dir="http/")
