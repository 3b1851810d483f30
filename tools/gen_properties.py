#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts live)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

p("C01", "Every monitored call is accounted for exactly once",
  "For every history of monitored calls to a function (sequential, nested, recursive, concurrent), each finished call is counted exactly once, as a success, as an error or as a panic, and adds exactly one duration to the matching success or failure timing distribution. At every quiet moment the current count equals the calls started but not finished and the highwater equals the largest value the current count has had since creation or the last reset; a reset clears outcomes, timings and the highwater but not the count of calls still running. The exported statistics always satisfy errors = sum of the per-name counts, failures = errors + panics, total = successes + failures.",
  ["histories", "schedules"], "every sequence and interleaving of task starts, finishes (success / error / panic), resets and reads over any set of functions, through every way of starting a task",
  "Existing tests make two calls of one function and read three numbers; they never overlap calls, panic, reset, or run two goroutines.",
  ["funcstats.go", "ctx.go", "func.go", "task.go"], [("FuncStats.start/end", "funcstats.go"), ("exit closure of newSpan", "ctx.go"), ("FuncStats.Observe", "funcstats.go")],
  ["Func.Current/Highwater/Success/Panics/Errors/SuccessTimes/FailureTimes", "FuncStats.Stats"],
  [("current, highwater", "live calls and their maximum", "funcstats.go"), ("errors, panics, successTimes, failureTimes", "outcome accumulators", "funcstats.go")])

p("C02", "Instrumentation never changes the program it observes",
  "A monitored function behaves as if it were not monitored: a panic continues to unwind with the identical value, a goroutine exit continues, and the error variable keeps the value the function returned. The context handed onwards keeps every value, the deadline and the cancellation of the incoming one, whatever observers are installed. A nil context pointer, a nil context and a nil error pointer are all accepted.",
  ["inputs", "histories"], "every context shape, panic value, error value, nesting depth and observer set",
  "No existing test panics through a task, passes a nil context, or looks at what a context still carries after several tasks.",
  ["ctx.go", "span.go", "funcstats.go", "task.go"], [("recover / re-panic in exit closures", "ctx.go, funcstats.go"), ("Span as a context.Context", "span.go"), ("cleanCtx", "ctx.go")],
  ["panic value and error seen by the caller", "context methods after a task"])

p("C03", "Failures are counted under the documented error name",
  "Every failed call is counted under exactly one name: the one given by the most recently added name handler that claims the error, else the name the error gives itself, else the fixed name monkit documents for standard library errors (EOF, closed pipe, cancellation, timeouts, errno, the net error types), else 'System Error'. Handlers that decline are passed over without effect, and handlers and self-naming errors are free to use the very function being reported on without wedging it.",
  ["inputs", "histories", "configurations"], "every error value and every stack of handlers that claim or decline it",
  "Existing tests use one fmt error and never look at the name it is counted under; no handler is ever installed.",
  ["error_names.go", "error_names_net.go", "error_names_syscall.go", "funcstats.go"], [("getErrorName", "error_names.go"), ("AddErrorNameHandler", "error_names.go"), ("getNetErrorName", "error_names_net.go")],
  ["Func.Errors", "error_name tag in Stats"], [("errorNameHandlers", "copy-on-write list of handlers", "error_names.go")])

p("C04", "Spans carry the parent, trace and data their context dictates",
  "A task started on a context with a current span yields a span in the same trace whose parent is that span; with no current span, or with span information stripped from the context, it yields the root of a brand new trace; an explicit trace reset yields a parentless span on a brand new trace; and a remote trace yields a span on the given trace whose parent id is exactly the given one. The context handed on reports the new span as current, and the original context is unaffected. A span reports its function, its arguments in order and its annotations in the order added; a trace returns the value most recently set for each key.",
  ["histories", "inputs"], "every tree of task starts over every kind of context (nil, plain, derived, stripped, observer-wrapped)",
  "Existing tests follow one linear chain of contexts and check only a grandparent id over HTTP.",
  ["ctx.go", "span.go", "trace.go", "task.go"], [("newSpan", "ctx.go"), ("ResetContextSpan", "ctx.go"), ("RemoteTrace / ResetTrace", "ctx.go"), ("SpanFromCtx", "ctx.go")],
  ["Span.ParentId/Trace/Func/Args/Annotations", "Trace.Id/Get/GetAll", "SpanFromCtx"])

p("C05", "The view of running spans is exact",
  "At every quiet moment the registry's walk over all spans visits every started-but-unfinished span exactly once and nothing else, its roots are exactly the running spans without a running parent in sorted order by function name and id, and each span's children are exactly its running child spans. A span is marked orphaned exactly when its parent finished first, and a trace's span count equals its running spans. This holds after any interleaving of starts and finishes in any order, and once everything has finished nothing is left behind.",
  ["histories", "schedules"], "every order and interleaving of span starts and finishes, including children that outlive or are started under finished parents",
  "The only existing test using root spans has one goroutine, strictly nested spans and no orphan.",
  ["ctx.go", "span.go", "spanbag.go", "spinlock.go", "registry.go", "trace.go"], [("addChild/removeChild/orphan", "span.go"), ("rootSpanStart/End, orphanedSpan/orphanEnd", "registry.go"), ("spanBag", "spanbag.go")],
  ["Registry.RootSpans/AllSpans", "Span.Children/Orphaned", "Trace.Spans"],
  [("spans, orphans", "live roots and live orphans", "registry.go"), ("done, orphaned, children", "per-span lifecycle", "ctx.go")])

p("C06", "The call graph has every observed caller and nothing else",
  "For every function, the reported set of callers is exactly the set of distinct functions whose spans were the local parent of one of its spans, plus the 'no caller' entry if and only if it was ever started without a local parent. Each caller is reported once however often and from however many goroutines the call happened, and callers once recorded are never lost.",
  ["histories", "schedules"], "every call history and interleaving of first and repeated calls from the same and different callers",
  "No existing test looks at callers at all; the racy first-caller fast path needs two threads calling first at once.",
  ["funcset.go", "funcstats.go", "func.go", "ctx.go"], [("funcSet.Add / Iterate", "funcset.go"), ("FuncStats.start", "funcstats.go")],
  ["Func.Parents", "present funcs reports"], [("first, rest", "caller set with single-element fast path", "funcset.go")])

p("C07", "Span observers see each span exactly once while registered",
  "An observer registered on a trace before a span starts and still registered when it finishes gets exactly one start and then exactly one finish for it, carrying that span, the returned error, whether it panicked and the finish time; an observer registered mid-span gets only the finish. After its cancel function has returned an observer gets no event for any later span start or finish, and no other registration or cancellation, concurrent or repeated, adds, drops or duplicates its events. Contexts returned by observers are threaded through all of them and become the context the task hands on and the one they see at finish.",
  ["histories", "schedules"], "every interleaving of registrations, cancellations, span starts and span finishes over several observers on one trace",
  "One existing test registers one counting observer from one goroutine and never cancels it.",
  ["trace.go", "ctx.go", "cas_unsafe.go", "cas_safe.go"], [("ObserveSpansCtx / removeObserver CAS list", "trace.go"), ("spanObserverTuple.Start/Finish", "ctx.go"), ("observer calls in newSpan", "ctx.go")],
  ["callbacks received by SpanObserver / SpanCtxObserver"], [("spanObservers", "lock-free list of observers", "trace.go")])

p("C08", "Trace watchers are told of each new trace exactly once",
  "A watcher registered on a registry is called exactly once for each trace started on it after registration returned and before its cancellation began, before the trace's first span is announced, so that an observer it attaches sees that first span. After cancellation returns it is never called for later traces, and other watchers coming and going, concurrently or not, never make it miss or repeat one.",
  ["histories", "schedules"], "every interleaving of watcher registration, cancellation and trace starts of every kind",
  "One existing test registers one watcher, starts one trace, and never cancels.",
  ["registry.go", "ctx.go"], [("ObserveTraces/updateWatcher/observeTrace", "registry.go"), ("observeTrace call sites", "ctx.go")],
  ["watcher callbacks"], [("traceWatchers, traceWatcher", "watcher table and its published snapshot", "registry.go")])

p("C09", "Span collection returns exactly the matched span's finished subtree",
  "A collection started by a matching (or forced) span returns that span first, together with exactly those spans of the same trace that finished after the match and no later than it and are connected to it through collected parents, each once, with its own error, panic flag and finish time, and sorting them by start does so. Only the first match starts a collection, completion is signalled exactly when the matching span finishes or collection is stopped, and cancelling a watch returns promptly with the context's error. Watching covers traces running when it begins as well as those that start once it is in place, finding a span stops at a match, and once collection ends nothing of it stays attached to the traces.",
  ["histories", "schedules"], "every span tree, finish order, match predicate and interleaving of spans with collection start and stop",
  "The collect package has no tests at all.",
  ["collect/collect.go", "collect/ctx.go", "collect/trace.go"], [("SpanCollector.Start/Finish/Spans", "collect/collect.go"), ("WatchForSpans / CollectSpans / FindSpan", "collect/ctx.go"), ("ObserveAllTraces", "collect/trace.go")],
  ["SpanCollector.Spans/Done", "WatchForSpans", "CollectSpans", "FindSpan"], [("check, root, spansByParent", "collector state", "collect/collect.go")])

p("C10", "Distribution summaries are exact and quantiles are sound",
  "For every sequence of finite inserted values a distribution (int, float or duration) reports the exact count, sum, minimum, maximum, most recent value and full average since creation or the last reset. Quantile estimates never decrease as the quantile grows and always lie between the minimum and maximum; while no more than 64 values have been inserted they equal linear interpolation over the sorted values to single precision, beyond that they come from a sample of the inserted values. Copies are independent of the original, a reset distribution behaves like a new one, and the exported fields repeat these numbers (durations in seconds).",
  ["inputs", "histories"], "every sequence of inserts, queries, copies, resets and exports, with values over the whole finite range",
  "No existing test touches a distribution.",
  ["distgen.go.m4", "intdist.go", "floatdist.go", "durdist.go", "dist.go"], [("Insert/Query/Copy/Reset/Stats", "distgen.go.m4")],
  ["IntDist/FloatDist/DurationDist fields and methods", "IntVal/FloatVal/DurationVal.Quantile", "Stats"], [("reservoir, sorted, Count", "sample and its sorted flag", "intdist.go")])

p("C11", "The quantile sample is a fair, recency-windowed sample",
  "After n inserted values, 64 < n <= Window, every inserted value is equally likely (64/n) to be in the sample behind the quantiles, wherever in the sequence it came. Beyond Window values, each new value enters the sample with probability 64/Window (64/n if Window is not positive), so old values fade out at that rate and quantiles track the recent distribution.",
  ["inputs", "configurations"], "every insertion count and Window setting, in distribution over the sampler's randomness",
  "A statistical guarantee over many runs; no existing test samples even one.",
  ["distgen.go.m4", "intdist.go", "floatdist.go", "durdist.go", "dist.go", "rng.go"], [("reservoir replacement in Insert", "distgen.go.m4"), ("xorshift128", "rng.go")],
  ["Query over a grid of quantiles"])

p("C12", "Counters are atomic and remember their true extremes",
  "A counter's value is exactly what some one-at-a-time ordering, consistent with real time, of the sets, increments, decrements and resets applied to it gives, and each of those operations returns the value that ordering dictates. High and low are the extremes of the values held after operations since creation or the last reset (both reported as not-a-number in exports while there are none), and a reset returns the previous triple and empties the counter.",
  ["histories", "schedules"], "every sequence and interleaving of Set, Inc, Dec, Reset and reads with any deltas",
  "No existing test uses a counter.",
  ["counter.go"], [("Counter.set/Set/Inc/Reset", "counter.go")], ["Counter methods and return values", "Counter.Stats"],
  [("val, low, high, nonempty", "counter state under mtx", "counter.go")])

p("C13", "Meters conserve events and report the windowed rate",
  "At any time a meter's total equals its initial total (set before the first event, or given to reset, or zero) plus every event marked since creation or the last reset, no matter how many ten-minute ticks have passed or how marks, reads and ticks interleave. Its rate is the number of events in the retained window of the last 24 active tick buckets divided by the time since that window began, so a rare event is not forgotten by idle ticks. A difference meter reports the differences of both numbers.",
  ["histories", "schedules"], "every history of marks, totals, resets, reads and tick times, up to many times the retained window",
  "Ticks are ten minutes apart and the window is four hours, so no test run ever reaches even one tick.",
  ["meter.go"], [("Meter.Mark/tick/stats", "meter.go"), ("ticker.run", "meter.go"), ("DiffMeter.Stats", "meter.go")],
  ["Meter.Rate/Total/Stats", "DiffMeter.Stats"], [("slices, total", "24 tick buckets plus the overflow total", "meter.go")])

p("C14", "Structs export exactly their numeric and boolean fields",
  "Exporting any struct value, or pointer chain to one, yields for each exported field that is numeric or boolean (through pointers, including named types) exactly one statistic with the field's name and value, and for each exported nested struct its fields under the dotted path, to any depth. Fields tagged to be ignored, nil pointers and fields of other kinds yield nothing; a non-struct or nil yields nothing; and no value (short of one that contains itself) makes the export panic.",
  ["inputs"], "every struct type and value: field kinds, nesting, pointers, nils, tags",
  "One existing test exports one fixed struct with no pointers.",
  ["struct.go", "val.go"], [("StatSourceFromStruct / deref", "struct.go"), ("StructVal.Stats", "val.go")], ["StatSourceFromStruct(...).Stats", "StructVal.Stats"])

p("C15", "A name and tag list always denotes the same single metric",
  "Within a scope, asking again for a metric of the same kind with the same name and the same tags in the same order always returns the very same object, and distinct kinds of function versus value metrics, names or tag lists always denote distinct objects, whatever characters they contain. Asking for a name already used by another kind of value metric panics and leaves the scope fully usable, scope names map to one scope per registry, and racing first requests agree on one object so that no recorded data is lost.",
  ["inputs", "histories", "schedules"], "every pair of names / tag lists (including ones containing separators) and every interleaving of first requests",
  "Existing tests create each metric once with plain names from one goroutine.",
  ["scope.go", "registry.go"], [("newSource double-checked creation", "scope.go"), ("sourceName", "scope.go"), ("ScopeNamed", "registry.go")],
  ["Scope.FuncNamed/Meter/Counter/...", "Registry.ScopeNamed"], [("sources", "name -> source table", "scope.go")])

p("C16", "A stats export reports every registered source once, labelled",
  "Exporting a registry visits scopes in name order and reports every statistic of every source registered in each scope (metrics, functions, gauges, chained sources) exactly once, with the source's own series key plus a scope tag naming its scope. A gauge reports the latest callback registered under its name, and an export changes no recorded data: two exports with nothing in between report the same values. Export, scope, function and span callbacks may themselves create metrics, start tasks or export again without deadlock.",
  ["histories", "configurations"], "every population of scopes and sources and every re-entrant use from callbacks",
  "Existing tests look up four known keys in one export.",
  ["scope.go", "registry.go", "stats.go"], [("Scope.Stats / allNamedSources", "scope.go"), ("Registry.Stats / Scopes / Funcs", "registry.go"), ("Gauge / Chain", "scope.go")],
  ["Registry.Stats", "Scope.Stats", "Collect"])

p("C17", "Transformers see the whole stream and deltas are exact",
  "A registry view with transformers, or a transformed source, passes every statistic through all of its transformers, the first given nearest the consumer, without affecting the original registry or other views. A delta transformer forwards everything unchanged and, for each total it has seen before on the same series, adds exactly one delta equal to the difference from the previous total, so that per series the first total plus all deltas equals the latest total.",
  ["histories", "inputs", "schedules"], "every stream of statistics over any set of series, any stack of transformers, and concurrent exports",
  "No existing test uses a transformer.",
  ["transform.go", "registry.go"], [("DeltaTransformer.Transform", "transform.go"), ("WithTransformers", "registry.go"), ("TransformStatSource", "transform.go")],
  ["callback streams"], [("lastTotals", "previous total per series", "transform.go")])

p("C18", "Series keys and tag sets are immutable, canonical and unambiguous",
  "Deriving a tag set or series key never changes any existing one and yields exactly the old tags overlaid with the new. The text form depends only on the contents, not on how or in which order they were built, lists tags sorted by key, and escapes commas and spaces (and equals signs outside the measurement) with a backslash so that parts without backslashes can be read back exactly and different series never share a text form.",
  ["inputs", "histories"], "every measurement, tag and field text without backslashes and every construction history",
  "The existing fuzz test uses one-digit keys and never renders or re-reads a key; nothing tests separators.",
  ["tags.go", "stats.go"], [("TagSet.Set/SetAll/SetTags/String", "tags.go"), ("writeMeasurement / writeTag", "tags.go"), ("SeriesKey.WithTag/WithField/String", "stats.go")],
  ["TagSet.String/Get/All/Len", "SeriesKey.String/WithField", "Collect keys"], [("str", "lazily cached text form", "tags.go")])

p("C19", "Trace headers round-trip and hostile headers are harmless",
  "Trace information written to headers and read back yields the same trace id, parent id, sampling flag and allowed baggage, for every 64-bit id; without ids only the sampling wish travels. Reading arbitrary header text never panics, malformed or unknown-version headers yield no trace information at all, and baggage keys that are not explicitly allowed never come through.",
  ["inputs"], "every trace information value and every header text",
  "Five fixed positive examples are tested; no large id, no malformed text, no foreign baggage.",
  ["http/info.go"], [("SetHeader", "http/info.go"), ("TraceInfoFromHeader", "http/info.go")], ["TraceInfoFromHeader(SetHeader(x))"])

p("C20", "HTTP wrappers propagate the trace and stay transparent",
  "A request sent through the tracing client from a sampled trace and served by the tracing handler runs the handler in a span of the same trace id under the caller's span id, sampled as well; an unsampled caller leaks no ids. The wrapped response writer forwards header, status, body and flush calls unchanged and in order, is a flusher exactly when the original is, and the server span is annotated with the URI, the allowed baggage and the status code sent (200 if none; for handlers that set it before they write or flush, if at all); the client's result and error are returned unchanged and its span is annotated with the URL and the response code; a request that asks for sampling without naming a trace gets the new trace and span ids in the response headers. The handler's request context carries the server span and whatever trace observers added to it.",
  ["inputs", "histories"], "every request, caller trace state, handler behaviour and observer set",
  "Existing tests issue three fixed GETs against one fixed handler.",
  ["http/server.go", "http/client.go", "http/http.go", "http/info.go"], [("traceHandler.ServeHTTP", "http/server.go"), ("TraceRequest", "http/client.go"), ("Wrap", "http/http.go"), ("TraceInfoFromSpan", "http/info.go")],
  ["handler's request context", "span annotations", "underlying ResponseWriter calls"])

p("C21", "Reports are well-formed and faithful for any content",
  "For every registry state, whatever text is in names, tags, arguments, annotations and error names and whatever values (including not-a-number and infinities, shown as null in JSON), the JSON reports of functions, running spans and statistics are valid JSON, the dot reports are valid dot with labels that read back to the original text, and text reports have their documented line structure. Each report contains exactly one entry per function, running span or statistic with the figures, callers and parent links the registry itself reports, and a failing writer makes the report return that error.",
  ["inputs", "histories", "fault_sequences"], "every registry population, every text content, and a writer failing at any byte",
  "The present package has no tests at all.",
  ["present/funcs.go", "present/spans.go", "present/stats.go", "present/json.go", "present/dot.go"], [("FuncsDot/Text/JSON", "present/funcs.go"), ("SpansDot/Text/JSON", "present/spans.go"), ("StatsText/JSON", "present/stats.go"), ("escapeDotLabel", "present/dot.go"), ("listWriter", "present/json.go")],
  ["bytes written by each report"])

p("C22", "Trace drawings show every span truthfully",
  "For every set of finished spans the SVG rendering is well-formed XML and contains exactly one bar per span, labelled with its function, arguments and duration, horizontally placed and sized in proportion to its start and finish within the trace (at least one unit wide), coloured by outcome (panic, cancellation, other error, success), and linked to its parent when that is drawn. Span text is inert in labels and tooltips whatever characters it contains, bars of properly nested spans never overlap, and instantaneous or empty traces render without failing; the JSON rendering lists each span once with its ids, times, error, panic flag, arguments and annotations.",
  ["inputs", "histories"], "every finished span forest, timing and text content",
  "The present package has no tests at all.",
  ["present/trace.go", "present/json.go"], [("SpansToSVG", "present/trace.go"), ("computeLayoutInformation", "present/trace.go"), ("SpansToJSON", "present/trace.go")],
  ["SpansToSVG / SpansToJSON output"])

p("C23", "The debug endpoint answers every request as documented",
  "Every path and query maps to the documented report with its documented content type, or to a bad-request or not-found error with status 400 or 404; nothing panics, and every link on the index page resolves. A trace query waits for the next span whose function name matches the regular expression and whose trace id matches, in a running or new trace, and then returns exactly that span's finished subtree, while the remote variant makes that trace sampled as soon as the span starts and answers with its id; invalid regular expressions, trace ids or flags and preselection that matches nothing are refused up front.",
  ["inputs", "histories"], "every path, query string and subsequent span history",
  "The present package has no tests at all.",
  ["present/path.go", "present/http.go", "present/errs.go", "present/trace.go", "present/utils.go"], [("FromRequest", "present/path.go"), ("HTTP handler", "present/http.go"), ("TraceQuerySVG/JSON", "present/trace.go")],
  ["FromRequest results", "HTTP responses"])

p("C24", "Environment statistics are the operating system's own",
  "The registered environment statistics equal what the operating system and runtime report at the time of export: process status and memory fields, descriptor count, resource usage, goroutines, memory statistics, uptime, and the checksum of the running binary, whatever the process is named. Exporting them does not change them: the garbage collection figures advance only when a collection happens, and concurrent exports are safe.",
  ["inputs", "histories", "schedules"], "every process name, descriptor population, goroutine count and export history",
  "Existing tests check that two helper results are non-zero.",
  ["environment/proc_linux.go", "environment/os_unix.go", "environment/process.go", "environment/runtime.go", "environment/rusage.go", "environment/env.go"], [("readProcSelfStat/Statm", "environment/proc_linux.go"), ("fdCount", "environment/os_unix.go"), ("Runtime", "environment/runtime.go"), ("processCRC", "environment/process.go")],
  ["environment.Register + Registry.Stats"])

p("C25", "Identifiers are unique and non-negative",
  "Every identifier handed out in a process, to spans, traces and functions or on request, is a non-negative integer different from every other one handed out, no matter how many goroutines ask at once.",
  ["schedules", "histories"], "every number of requests and every interleaving",
  "No existing test compares two identifiers.",
  ["id.go"], [("NewId", "id.go")], ["NewId", "Span.Id", "Trace.Id", "Func.Id"], [("idCounter, inc", "additive generator", "id.go")])

p("C26", "Reported durations are the true elapsed times",
  "The duration recorded for a task, an observed function or a timer is exactly the monotonic time (whatever happens to the wall clock meanwhile) between its start and its finish or stop, from nothing to days, and the elapsed time of a running span or timer is the time since it started. The finish time given to observers minus the span's start equals the recorded duration, timers record each run once however often they are stopped, and monkit's clock never goes backwards.",
  ["histories", "inputs"], "every schedule of starts, waits and finishes, nested or overlapping",
  "Elapsed times cannot be checked exactly against a real clock; the one existing test sleeps once and allows 250 ms of error.",
  ["ctx.go", "funcstats.go", "timer.go", "span.go", "monotime/monotime.go", "monotime/monotime_fallback.go"], [("monotime.Now", "monotime/monotime.go"), ("RunningTimer.Stop", "timer.go"), ("exit closures", "ctx.go, funcstats.go")],
  ["SuccessTimes/FailureTimes", "Timer.Values", "Span.Duration", "observer finish time"])

p("C27", "Everything documented as shareable is safe to share",
  "Any mix of operations on registries, scopes, functions, tasks, spans, traces, observers, collectors, metrics, keys, reports and environment exports may run concurrently on shared objects without data races, crashes, deadlocks or lost updates (the raw distribution types, documented as not threadsafe, excepted).",
  ["schedules"], "every concurrent mix of public operations",
  "Existing tests run essentially single-threaded.",
  ["registry.go", "scope.go", "ctx.go", "span.go", "trace.go", "funcstats.go", "funcset.go", "val.go", "meter.go", "counter.go", "timer.go", "tags.go", "transform.go", "collect/collect.go", "present/funcs.go", "environment/runtime.go"], [("mutexes, spin locks and atomics throughout", "*.go")],
  ["race detector reports", "final totals"])

p("C28", "Automatic names identify the calling function and package",
  "A scope, function or task created without an explicit name is named after the package or function that requested it, or, for a lazily named task, that first ran it: for plain functions, methods, closures, generic functions, inlined and deferred callers alike, at any call depth. A task keeps the name of its first use and tells, without recording anything, the very function its runs are recorded under, and calling it never attributes work to monkit's own functions.",
  ["programs"], "every calling function shape (method, closure, generic, inlined, deferred, goroutine) and call depth",
  "Existing tests cover a test function and one plain package function.",
  ["callers.go", "scope.go", "registry.go", "ctx.go"], [("callerPackage / callerFunc / extractFuncName", "callers.go"), ("Scope.Task / Scope.Func / Package", "ctx.go, scope.go, registry.go")],
  ["Func.ShortName/FullName", "Scope.Name"])

p("C29", "Value metrics lose and invent no observation",
  "Every value observed through an integer, float, duration, boolean or struct value metric, an event or a timer is reflected exactly once in what it exports, whatever goroutines observe and export at the same time: counts and sums are conserved, minimum and maximum are attained values, the boolean disposition is trues minus falses, and the recent value is one that was observed last in some order consistent with real time. Formatted-name variants address the same metric as the plain name.",
  ["histories", "schedules"], "every sequence and interleaving of observations and exports",
  "No existing test observes a value metric.",
  ["val.go", "timer.go", "scope.go"], [("IntVal/FloatVal/DurationVal/BoolVal/StructVal.Observe and Stats", "val.go"), ("Timer", "timer.go")],
  ["Stats of each metric", "Quantile"])

ids = [x["id"] for x in P]
assert len(set(ids)) == len(ids)
for x in P:
    assert len(x["title"]) <= 80, x["title"]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
