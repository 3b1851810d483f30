import json
M=lambda run="^TestModel",q=(4,4000),t=(8,60000),**k: dict(run=run,quick=list(q),thorough=list(t),**k)
S=lambda run="^TestSched",q=(8,12000),t=(8,400000),**k: dict(run=run,quick=list(q),thorough=list(t),**k)
R=lambda run="^TestRace",q=(4,400),t=(4,15000),**k: dict(run=run,quick=list(q),thorough=list(t),**k)
F=lambda run="^TestFake",q=(4,3000),t=(8,60000),**k: dict(run=run,quick=list(q),thorough=list(t),**k)
C={}
def add(id,rule,modes,assumptions=None):
    C[id]={"rule":rule,"modes":modes}
    if assumptions: C[id]["assumptions"]=assumptions
add("C01","Histories of calls (start style, finish order, outcome, reset) or concurrent programs with a drawn schedule. Non-trivial: sequential cases with overlapping calls and a failure; scheduled cases in which a thread was preempted; all real-goroutine cases.",
 {"model":M(),"sched":S(q=(8,15000),t=(8,600000)),"race":R(q=(4,500),t=(4,20000))})
add("C02","Generated programs run without and with instrumentation and compared. Non-trivial: the program nests monitored calls and at least one fails or panics.",{"model":M()})
add("C03","Generated error trees and handler sets. Non-trivial: the error is wrapped or several handlers compete; scheduled cases in which a thread was preempted.",
 {"model":M(),"sched":S(q=(8,300),t=(16,600)),"race":R(q=(4,150),t=(8,400))})
add("C04","Histories of span starts, ends, annotations and context derivations. Non-trivial: the case has a child whose parent is not the latest span, or a preempted schedule.",{"model":M(),"sched":S(),"race":R()})
add("C05","Histories of span starts and ends in any order. Non-trivial: a span ended before one of its children; scheduled cases in which a thread was preempted.",{"model":M(),"sched":S(),"race":R()})
add("C06","Histories of calls between monitored functions. Non-trivial: a function with more than one caller; scheduled cases in which a thread was preempted.",{"model":M(),"sched":S(),"race":R(),"sched-ae":S(q=(4,4000),t=(8,100000)),"race-ae":R(q=(2,200),t=(4,5000))})
add("C07","Histories of observer registration and removal around span starts and ends. Non-trivial: an observer removed or added while spans run; scheduled cases in which a thread was preempted.",{"model":M(),"sched":S(),"race":R(),"sched-ae":S(q=(4,4000),t=(8,100000)),"race-ae":R(q=(2,200),t=(4,5000))})
add("C08","Histories of watcher registration and removal around new traces. Non-trivial: several watchers and a removal; scheduled cases in which a thread was preempted.",{"model":M(),"sched":S(),"race":R(),"sched-ae":S(q=(4,4000),t=(8,100000)),"race-ae":R(q=(2,200),t=(4,5000))})
add("C09","Histories of spans around a collector. Non-trivial: more than the matched span is collected; scheduled cases in which a thread was preempted.",
 {"model":M(run="^TestModel($|Watch|Collect|Many)",q=(4,3000)),"model-gc":M(run="^TestModelLeak",q=(2,60),t=(4,2000)),"sched":S(),"race":R(),"sched-ae":S(q=(4,4000),t=(8,100000)),"race-ae":R(q=(2,200),t=(4,5000))})
add("C10","Histories of inserts (ranges from ties to beyond single precision), queries, copies and resets over all three distribution types and several windows. Non-trivial: more than one value and a reset, a copy or more than 64 values.",
 {"model":M(q=(6,8000),t=(8,120000))},["values and their total are within the range of the type; no not-a-number or infinity is inserted"])
add("C11","Experiments of 6000-12000 trials: a sequence length, window, order, distribution type and way of reuse, the sample read back through the quantiles. Every value position, and contiguous groups, must be in the sample as often as the stated law says, within 8 standard deviations. All cases are non-trivial.",
 {"model":M(q=(8,35),t=(8,1200),procs=1)},["statistical: deviations below 8 standard deviations pass"])
add("C12","Histories of counter operations against a reference counter, and concurrent histories decided by a search for a linearization. Non-trivial: the extremes changed several times; scheduled cases in which a thread was preempted; all real-goroutine cases.",
 {"model":M(),"sched":S(q=(8,20000)),"race":R(q=(4,1500),t=(4,60000))})
add("C13","Histories of marks, reads, resets and ticks in virtual time against a reference meter; concurrent histories decided by a search for a linearization; marks under continuous ticks. Non-trivial: more than one tick passed; a thread was preempted; all real-goroutine cases.",
 {"fake":F(q=(8,400),t=(16,1500)),"fake-wall":F(q=(4,250),t=(8,1000)),"sched":S(q=(8,10000)),"race":R(q=(4,600),t=(4,20000)),"race-tick":R(run="^TestTick",q=(2,150),t=(4,5000)),"model-tick":M(run="^TestTick",q=(2,400),t=(4,20000),procs=4)},
 ["the total is set only before the first event, as documented (initial total)","in the tick modes time.Sleep of the meters' ticker is shortened at build time"])
add("C14","Generated struct types and values (all kinds, named types, pointer chains, nil pointers, nesting, tags) with the exports known by construction. Non-trivial: more than one field is exported.",
 {"model":M(q=(6,10000),t=(8,200000))},["fields that are not exported are not specified"])
add("C15","Histories of metric requests with names and tags full of separators, including respellings that glue parts differently; racing first requests. Non-trivial: a request repeated among more than two metrics; scheduled cases in which a thread was preempted; all real-goroutine cases.",
 {"model":M(q=(6,8000),t=(8,120000)),"sched":S(q=(8,5000),t=(8,100000)),"race":R()})
add("C16","Histories over nested scopes, registries and chained sources: every source exports its statistics exactly once, with its own keys. Non-trivial: several scopes and a repeated export; scheduled cases in which a thread was preempted; all real-goroutine cases.",
 {"model":M(q=(8,1500),t=(8,30000)),"sched":S(q=(8,3000),t=(8,80000)),"race":R(q=(4,200),t=(4,8000))})
add("C17","Histories of exports through generated chains of transformers (deltas and pure ones) against a reference. Non-trivial: at least two exports with changed values; scheduled cases in which a thread was preempted; all real-goroutine cases.",
 {"model":M(),"sched":S(q=(8,6000),t=(8,200000)),"race":R()})
add("C18","Generated measurements, tag sets and fields, built in different orders and mutated. Non-trivial: more than one tag, or text that needs escaping; scheduled cases in which a thread was preempted; all real-goroutine cases.",
 {"model":M(q=(6,8000),t=(8,150000)),"sched":S(q=(8,6000),t=(8,200000)),"race":R()})
add("C19","Generated trace and request values written to and read back from headers, and hostile header values. Non-trivial: a span or trace id and sampling or a parent are present, or a header is malformed.",
 {"model":M(q=(6,8000),t=(8,200000))})
add("C20","Generated handlers, requests, headers and outcomes, run bare and wrapped and compared; chains of processes. Non-trivial: the request carries trace headers or the handler writes several times; all real-goroutine cases.",
 {"model":M(q=(6,1500),t=(8,40000)),"race":R(q=(4,200),t=(4,8000))})
add("C21","Generated function, span and statistics contents rendered by every report and parsed back; writers that fail at any point. Non-trivial: more than one function, span or statistic with text that needs care.",
 {"model":M(q=(8,2000),t=(8,60000))})
add("C22","Generated span histories in virtual time, drawn, parsed back and compared with the history; writers that fail at any point. Non-trivial: more than two spans, overlapping or failing.",
 {"fake":F(q=(8,1500),t=(8,20000))},["a trace spans less than 88 days"])
add("C23","Generated paths, queries and request bodies sent to the debug endpoint; sessions in virtual time for the endpoints that wait for traces. Non-trivial: a known path with parameters.",
 {"model":M(q=(6,3000),t=(8,60000)),"fake":F(q=(8,500),t=(8,20000)),"race":R(q=(4,300),t=(4,10000)),"race-tick":R(run="^TestTick",q=(2,60),t=(4,3000)),"model-tick":M(run="^TestTick",q=(2,400),t=(4,20000),procs=4)},
 ["in the tick modes the waits between keep alives are shortened at build time"])
add("C24","Generated activity (allocations, collections, files, goroutines, meters) around exports of the environment's statistics, compared with the operating system and runtime asked directly. Non-trivial: activity between two exports; all real-goroutine cases.",
 {"model":M(q=(4,150),t=(4,3000)),"race":R(q=(2,50),t=(4,1000))})
add("C25","Histories asking for identifiers in every way (request, function, root and child span, trace), checked against all identifiers handed out in the process so far. Non-trivial: more than 20 identifiers; scheduled cases in which a thread was preempted; all real-goroutine cases.",
 {"model":M(q=(4,1500),t=(8,12000)),"sched":S(q=(8,3000),t=(8,60000)),"race":R(q=(4,150),t=(4,4000)),"model-bulk":M(run="^TestBulk",q=(1,1),t=(2,30),procs=8)})
add("C26","Histories of calls, observations and timers in virtual time with waits from nothing to days, compared exactly; the same bracketed by the real clock. Non-trivial: more than two calls or timers finished; all real-clock cases.",
 {"fake":F(q=(8,4000),t=(8,40000)),"fake-wall":F(q=(4,2500),t=(4,20000)),"model":M(q=(4,2500),t=(4,60000)),"race":R(q=(4,200),t=(4,5000))})
add("C28","Chains of calls through every caller shape, sharing lazily named tasks; whole Go programs generated, built and run, in which every function and literal compares the names it gets with its own; histories of tasks asked for their functions. Non-trivial: a task used more than once, or more than four declarations; all real-goroutine cases.",
 {"model":M(run="^TestModel(Chain|Func)$",q=(4,6000),t=(4,100000)),"model-prog":M(run="^TestModelProgram",q=(4,25),t=(4,1500)),"race":R(q=(4,1000),t=(4,40000))},
 ["the package main, whose path has no slash, is not specified"])
add("C29","Histories of observations and exports over all kinds of value metrics, addressed through several handles and formatted names; concurrent histories decided by a search for a linearization (per exported number for booleans); many goroutines with conserved totals. Non-trivial: more than three observations; scheduled cases in which a thread was preempted; all real-goroutine cases.",
 {"model":M(q=(4,5000),t=(8,80000)),"sched":S(q=(8,12000),t=(8,400000)),"race":R(q=(4,500),t=(4,15000))},["extremes and quantiles of values without an order (not-a-number) are left open"])
add("C27","Generated concurrent programs over some 50 kinds of operations on one shared set of objects (registry, scopes, functions, tasks, spans, traces, observers, collectors, metrics, keys, reports, endpoint, environment), under the race detector and under generated schedules; at the end all totals are compared. Non-trivial: scheduled cases in which a thread was preempted; all other cases.",
 {"model":M(q=(4,1500),t=(4,30000)),"sched":S(q=(8,6000),t=(8,200000)),"race":R(q=(8,1200),t=(8,40000))})
# more of the same shards, for the time there is
BOOST=dict(C01=3,C02=12,C03=5,C04=5,C05=2,C06=4,C07=4,C08=5,C09=3,C10=1.34,C11=6,C12=5,C13=4,C14=10,C15=2,C16=3,C17=4,C18=4,C19=12,C20=6,C21=4,
 C22=10,C23=6,C24=6,C25=4,C26=8,C27=2,C28=2,C29=4)
for i,f in BOOST.items():
    for m in C[i]["modes"].values():
        if m["run"]!="^TestBulk":
            m["quick"][0]=round(m["quick"][0]*f)
json.dump(C,open('/verif/harness/checks.json','w'),indent=1)
