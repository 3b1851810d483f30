import os, importlib.util
_s = importlib.util.spec_from_file_location("a", os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds_a.py"))
_a = importlib.util.module_from_spec(_s); _s.loader.exec_module(_a)
head, M = _a.head, _a.M
SEEDS = []
def seed(id, prop, edits, demo, needs, breaks, dir="", flags=""):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, dir=dir, flags=flags))
C = 'collect "github.com/spacemonkeygo/monkit/v3/collect"'

seed("c21-dot-error-total", "C21",
 [("present/funcs.go", """			_, err = fmt.Fprint(&err_out, escapeDotLabel("error %s: %d\\n", errname,
				count))
			if err != nil {
				return
			}
			total_errors += count
""", """			_, err = fmt.Fprint(&err_out, escapeDotLabel("error %s: %d\\n", errname,
				count))
			if err != nil {
				return
			}
			total_errors++
""")],
 head("present", "bytes", "html", "io", "strings", "testing", M) + """
func TestDemo(t *testing.T) {
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	for i := 0; i < 2; i++ {
		err := io.EOF
		f.Task(nil)(&err)
	}
	var buf bytes.Buffer
	if err := FuncsDot(r, &buf); err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(html.UnescapeString(buf.String()), "errors: 2,") {
		t.Fatal(buf.String())
	}
}
""", "a function that fails more than once with errors of the same name", "the dot report counts error names instead of errors", dir="present/")

seed("c21-nested-write-error", "C21",
 [("present/spans.go", '		err = outputTextSpan(w, s, indent+" ")\n', '		outputTextSpan(w, s, indent+" ")\n')],
 head("present", "context", "errors", "testing", M) + """
var errFull = errors.New("full")

func TestDemo(t *testing.T) {
	r := monkit.NewRegistry()
	ctx := context.Background()
	defer r.ScopeNamed("s").FuncNamed("f").Task(&ctx)(nil)
	defer r.ScopeNamed("s").FuncNamed("g").Task(&ctx)(nil)
	w := &once{}
	if err := SpansText(r, w); err != errFull {
		t.Fatal(err)
	}
}

// once fails the second write only.
type once struct{ n int }

func (o *once) Write(p []byte) (int, error) {
	o.n++
	if o.n == 2 {
		return 0, errFull
	}
	return len(p), nil
}
""", "a writer that fails just for the line of a child span", "the text report of spans says it was written though a line is missing", dir="present/")

seed("c21-recursion-edge", "C21",
 [("present/funcs.go", """			if parent != nil {
				_, err = fmt.Fprintf(w, " f%d -> f%d;\\n", parent.Id(), f.Id())
""", """			if parent == f {
				return // not an edge of the call graph
			}
			if parent != nil {
				_, err = fmt.Fprintf(w, " f%d -> f%d;\\n", parent.Id(), f.Id())
""")],
 head("present", "bytes", "context", "fmt", "strings", "testing", M) + """
func TestDemo(t *testing.T) {
	r := monkit.NewRegistry()
	ctx := context.Background()
	f := r.ScopeNamed("s").FuncNamed("f")
	defer f.Task(&ctx)(nil)
	defer f.Task(&ctx)(nil)
	var buf bytes.Buffer
	if err := FuncsDot(r, &buf); err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(buf.String(), fmt.Sprintf(" f%d -> f%d;", f.Id(), f.Id())) {
		t.Fatal(buf.String())
	}
}
""", "a recursive function", "the dot report leaves out that the function calls itself", dir="present/")

seed("c22-panic-colour", "C22",
 [("present/trace.go", "		case s.Panicked:\n", "		case s.Panicked && s.Err == nil:\n")],
 head("present", "bytes", "context", "io", "strings", "testing", "time", C, M) + """
func TestDemo(t *testing.T) {
	ctx := context.Background()
	defer monkit.NewRegistry().ScopeNamed("s").FuncNamed("f").Task(&ctx)(nil)
	var buf bytes.Buffer
	err := SpansToSVG(&buf, []*collect.FinishedSpan{{Span: monkit.SpanFromCtx(ctx), Err: io.EOF, Panicked: true, Finish: time.Now()}})
	if err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(buf.String(), "rgb(255,0,0)") {
		t.Fatal(buf.String())
	}
}
""", "a span that panicked after its error result was set", "the bar is drawn in the colour of an error instead of a panic", dir="present/")

seed("c22-json-wrapped-error", "C22",
 [("present/json.go", "		errstr := s.Err.Error()", "		errstr := unwrapError(s.Err).Error()")],
 head("present", "bytes", "context", "io", "strings", "testing", "time", C, M) + """
type wrapped struct{ err error }

func (w wrapped) Error() string { return "opening: " + w.err.Error() }
func (w wrapped) WrappedErr() error { return w.err }

func TestDemo(t *testing.T) {
	ctx := context.Background()
	defer monkit.NewRegistry().ScopeNamed("s").FuncNamed("f").Task(&ctx)(nil)
	var buf bytes.Buffer
	err := SpansToJSON(&buf, []*collect.FinishedSpan{{Span: monkit.SpanFromCtx(ctx), Err: wrapped{io.EOF}, Finish: time.Now()}})
	if err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(buf.String(), "opening: EOF") {
		t.Fatal(buf.String())
	}
}
""", "a span that finished with a wrapped error", "the JSON rendering gives the text of the cause instead of the span's error", dir="present/")

seed("c22-late-grandchild", "C22",
 [("present/trace.go", """			if span.Finish.After(out[pid].LargestTime) {
				out[pid].LargestTime = span.Finish
			}
		}
	}
	return out""", """			if span.Finish.After(out[pid].LargestTime) {
				out[pid].LargestTime = span.Finish
			}
		} else {
			out[id].LargestTime = span.Span.Start()
		}
	}
	return out"""),
  ("present/trace.go", "start.After(spanTree[children[len(children)-1]].LargestTime)", "start.After(spanTree[children[len(children)-1]].Span.Span.Start())")],
 head("present", "bytes", "context", "fmt", "regexp", "testing", "time", C, M) + """
func TestDemo(t *testing.T) {
	ctx := context.Background()
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	defer f.Task(&ctx)(nil)
	root := monkit.SpanFromCtx(ctx)
	a, b := ctx, ctx
	defer f.Task(&a)(nil)
	time.Sleep(10 * time.Millisecond)
	defer f.Task(&b)(nil)
	time.Sleep(10 * time.Millisecond)
	now := time.Now()
	var buf bytes.Buffer
	err := SpansToSVG(&buf, []*collect.FinishedSpan{
		{Span: root, Finish: now}, {Span: monkit.SpanFromCtx(a), Finish: now}, {Span: monkit.SpanFromCtx(b), Finish: now}})
	if err != nil {
		t.Fatal(err)
	}
	y := func(s *monkit.Span) string {
		return regexp.MustCompile(fmt.Sprintf(`id="rect-%d" x="[^"]*" y="([^"]*)"`, s.Id())).FindStringSubmatch(buf.String())[1]
	}
	if y(monkit.SpanFromCtx(a)) == y(monkit.SpanFromCtx(b)) {
		t.Fatal("concurrent siblings are drawn over each other")
	}
}
""", "two concurrent child spans that start one after the other", "their bars are drawn on the same row, over each other", dir="present/")

seed("c23-trace-id-top-bit", "C23",
 [("present/path.go", "strconv.ParseUint(traceIdStr, 16, 64)", "strconv.ParseInt(traceIdStr, 16, 64)")],
 head("present", "net/url", "testing", M) + """
func TestDemo(t *testing.T) {
	_, _, err := FromRequest(monkit.NewRegistry(), "/trace/json", url.Values{"trace_id": {"fedcba9876543210"}})
	if err != nil {
		t.Fatal(err)
	}
}
""", "a trace id with its highest bit set", "queries for the trace are refused as malformed", dir="present/")

seed("c23-preselect-trace-id", "C23",
 [("present/path.go", "				if len(funcs) <= 0 {", "				if len(funcs) <= 0 && traceIdStr == \"\" {")],
 head("present", "net/url", "testing", M) + """
func TestDemo(t *testing.T) {
	_, _, err := FromRequest(monkit.NewRegistry(), "/trace/json", url.Values{"trace_id": {"1"}, "regex": {"nothing"}})
	if err == nil {
		t.Fatal("query that can never be answered accepted")
	}
}
""", "a query by trace id and a regular expression that matches no function", "the query is accepted and waits forever instead of being refused", dir="present/")

seed("c24-oldest-pause", "C24",
 [("environment/runtime.go", "durDist.Insert(stats.Pause[0])", "durDist.Insert(stats.Pause[len(stats.Pause)-1])")],
 head("environment", "runtime", "runtime/debug", "testing", M) + """
func TestDemo(t *testing.T) {
	debug.SetGCPercent(-1)
	for i := 0; i < 20; i++ {
		runtime.GC()
	}
	src := Runtime()
	bad := 0
	for i := 0; i < 20; i++ {
		runtime.GC()
		var stats debug.GCStats
		debug.ReadGCStats(&stats)
		src.Stats(func(key monkit.SeriesKey, field string, val float64) {
			if key.Measurement == "runtime_gcstats" && field == "recent" && val != stats.Pause[0].Seconds() {
				bad++
			}
		})
	}
	if bad > 0 {
		t.Fatalf("%d times another pause than the last was recorded", bad)
	}
}
""", "more than one garbage collection in the life of the process", "the pause recorded for a collection is that of the oldest remembered one", dir="environment/")

seed("c24-descriptor-cap", "C24",
 [("environment/os_unix.go", """		names, err := f.Readdirnames(4096)
		count += len(names)
		if err != nil {""", """		names, err := f.Readdirnames(64)
		count += len(names)
		if err != nil || count >= 1024 {
			if err == nil {
				return count, nil
			}""")],
 head("environment", "os", "testing") + """
func TestDemo(t *testing.T) {
	for i := 0; i < 2000; i++ {
		f, err := os.Open(os.DevNull)
		if err != nil {
			t.Skip(err)
		}
		defer f.Close()
	}
	n, err := fdCount()
	if err != nil || n < 2000 {
		t.Fatal(n, err)
	}
}
""", "a process with more than a thousand open descriptors", "the descriptor count stops at about a thousand", dir="environment/")

seed("c24-signal-masks", "C24",
 [("environment/proc_linux.go", "&s.Sigignore, &s.Sigcatch,", "&s.Sigcatch, &s.Sigignore,")],
 head("environment", "os", "strconv", "strings", "testing", M) + """
func TestDemo(t *testing.T) {
	data, err := os.ReadFile("/proc/self/stat")
	if err != nil {
		t.Fatal(err)
	}
	fields := strings.Fields(string(data[strings.LastIndexByte(string(data), ')')+1:]))
	caught, _ := strconv.ParseFloat(fields[34-3], 64)
	Proc().Stats(func(key monkit.SeriesKey, field string, val float64) {
		if field == "Sigcatch" && val != caught {
			t.Fatal(val, caught)
		}
	})
}
""", "a process that catches some signals and ignores others", "the masks of ignored and caught signals are swapped", dir="environment/")

seed("c25-load-after-add", "C25",
 [("id.go", "	id := atomic.AddUint64(&idCounter, inc)\n", "	atomic.AddUint64(&idCounter, inc)\n	id := atomic.LoadUint64(&idCounter)\n")],
 head("monkit_test", "sync", "testing", M) + """
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	const n, m = 8, 300000
	ids := make([][]int64, n)
	for i := range ids {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < m; j++ {
				ids[i] = append(ids[i], monkit.NewId())
			}
		}(i)
	}
	wg.Wait()
	seen := map[int64]bool{}
	for _, l := range ids {
		for _, id := range l {
			if seen[id] {
				t.Fatal("identifier given out twice")
			}
			seen[id] = true
		}
	}
}
""", "two goroutines asking for an identifier at the same moment", "both get the same identifier")

seed("c26-elapsed-truncated", "C26",
 [("timer.go", "	return time.Since(r.start)", "	return time.Since(r.start).Truncate(time.Microsecond)")],
 head("monkit_test", "testing", "time", M) + """
func TestDemo(t *testing.T) {
	timer := monkit.NewTimer(monkit.NewSeriesKey("t"))
	for i := 0; i < 1000; i++ {
		if timer.Start().Stop()%time.Microsecond != 0 {
			return
		}
	}
	t.Fatal("whole microseconds only")
}
""", "runs that do not take a whole number of microseconds", "timers record less than the elapsed time")

seed("c27-timer-shared", "C27",
 [("timer.go", """	times := t.times.Copy()
	t.mtx.Unlock()

	times.Stats(cb)""", """	times := t.times
	t.mtx.Unlock()

	times.Stats(cb)""")],
 head("monkit_test", "sync", "testing", M) + """
func TestDemo(t *testing.T) {
	timer := monkit.NewTimer(monkit.NewSeriesKey("t"))
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(2)
		go func() {
			defer wg.Done()
			for j := 0; j < 1000; j++ {
				timer.Start().Stop()
			}
		}()
		go func() {
			defer wg.Done()
			for j := 0; j < 1000; j++ {
				timer.Stats(func(monkit.SeriesKey, string, float64) {})
			}
		}()
	}
	wg.Wait()
}
""", "an export of a timer while another goroutine stops a run of it", "a data race on the timer's distribution", flags="-race ")

seed("c28-generic-instance", "C28",
 [("callers.go", "	lastSlashPos := strings.LastIndexByte(fullyQualifiedName, '/')\n", "	if i := strings.IndexByte(fullyQualifiedName, '['); i >= 0 {\n		fullyQualifiedName = fullyQualifiedName[:i] // type arguments\n	}\n	lastSlashPos := strings.LastIndexByte(fullyQualifiedName, '/')\n")],
 head("monkit_test", "context", "strings", "testing", M) + """
var mon = monkit.NewRegistry().ScopeNamed("s")

type list[T any] struct{}

func (list[T]) each() *monkit.Func {
	ctx := context.Background()
	defer mon.Task()(&ctx)(nil)
	return monkit.SpanFromCtx(ctx).Func()
}

func TestDemo(t *testing.T) {
	if name := (list[int]{}).each().ShortName(); !strings.HasSuffix(name, "each") {
		t.Fatal(name)
	}
}
""", "a method of a generic type", "the method's name is lost, so all methods of the type share one function")

seed("c29-trues-unsynchronised", "C29",
 [("val.go", "		atomic.AddInt64(&v.trues, 1)\n", "		atomic.StoreInt64(&v.trues, atomic.LoadInt64(&v.trues)+1)\n")],
 head("monkit_test", "sync", "testing", M) + """
func TestDemo(t *testing.T) {
	v := monkit.NewBoolVal(monkit.NewSeriesKey("v"))
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 200000; j++ {
				v.Observe(true)
			}
		}()
	}
	wg.Wait()
	v.Stats(func(_ monkit.SeriesKey, field string, val float64) {
		if field == "true" && val != 8*200000 {
			t.Fatal(val)
		}
	})
}
""", "two goroutines observing true at the same moment", "one of the observations is lost")

seed("c29-format-without-arguments", "C29",
 [("scope.go", "	return s.FloatVal(fmt.Sprintf(template, args...))", "	if len(args) == 0 {\n		return s.FloatVal(template)\n	}\n	return s.FloatVal(fmt.Sprintf(template, args...))")],
 head("monkit_test", "testing", M) + """
func TestDemo(t *testing.T) {
	s := monkit.NewRegistry().ScopeNamed("s")
	if s.FloatValf("load 50%%") != s.FloatVal("load 50%") {
		t.Fatal("different metrics")
	}
}
""", "a formatted name with an escaped percent sign and no arguments", "the formatted variant addresses another metric than the plain name")

seed("c29-struct-nil", "C29",
 [("val.go", "	v.recent = val\n", "	if val != nil {\n		v.recent = val\n	}\n")],
 head("monkit_test", "testing", M) + """
func TestDemo(t *testing.T) {
	v := monkit.NewStructVal(monkit.NewSeriesKey("v"))
	v.Observe(struct{ X int }{1})
	v.Observe(nil)
	v.Stats(func(_ monkit.SeriesKey, field string, val float64) {
		t.Fatal(field, val)
	})
}
""", "an observation of nil after one of a struct", "the export still reports the struct that was observed before")
