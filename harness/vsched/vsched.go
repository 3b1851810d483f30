// Package vsched is a cooperative scheduler for instrumented code. During
// Run exactly one managed thread runs at a time, and control moves only at
// yield points, where the given Schedule says so. The interleaving is thus a
// pure function of the Schedule, and a deadlock is a fact: no thread can run.
package vsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Switch preempts the running thread after Delta more yield points, in favour
// of the runnable thread number Target (modulo the runnable ones).
type Switch struct {
	Delta  int
	Target int
}

// Schedule is the list of preemptions. Between and after them threads run
// until they block or finish.
type Schedule []Switch

// Result is how a run ended.
type Result struct {
	Deadlock string   // non-empty: which threads are blocked on what
	Livelock string   // non-empty: threads spin without ever finishing
	Panics   []string // panics that reached the top of a thread
	Steps    int64
	Switches int
}

// Failed says whether the run itself shows a defect.
func (r Result) Failed() string {
	switch {
	case r.Deadlock != "":
		return "deadlock: " + r.Deadlock
	case r.Livelock != "":
		return "livelock: " + r.Livelock
	case len(r.Panics) > 0:
		return "panic: " + strings.Join(r.Panics, "\n")
	}
	return ""
}

type thread struct {
	id       int
	wake     chan struct{}
	finished bool
	blocked  interface{} // address blocked on, nil if runnable
	what     string
	spins    int
}

type session struct {
	threads  []*thread
	sched    Schedule
	left     int // yield points until the next switch
	rr       int64
	done     chan struct{}
	res      Result
	doneOnce sync.Once
}

var (
	active atomic.Pointer[session]
	cur    *thread
)

const (
	fairAfter = 50000  // from here on switch at every yield point
	stepLimit = 400000 // and by here all should be long done
)

// Active reports whether a controlled run is going on.
func Active() bool { return active.Load() != nil }

// Steps is a logical clock that advances with every yield point.
func Steps() int64 {
	if s := active.Load(); s != nil {
		return s.res.Steps
	}
	return 0
}

// Run runs the bodies as threads under the schedule.
func Run(sched Schedule, bodies ...func()) Result {
	settle()
	s := &session{sched: sched, done: make(chan struct{})}
	if !active.CompareAndSwap(nil, s) {
		panic("vsched: nested Run")
	}
	defer active.Store(nil)
	for i := range bodies {
		s.spawn(bodies[i])
	}
	s.arm()
	if len(s.threads) == 0 {
		return s.res
	}
	first := s.threads[0]
	if len(sched) > 0 {
		first = s.threads[abs(sched[0].Target)%len(s.threads)]
	}
	cur = first
	first.wake <- struct{}{}
	<-s.done
	return s.res
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

func (s *session) arm() {
	if len(s.sched) > 0 {
		s.left = abs(s.sched[0].Delta)
	} else {
		s.left = -1
	}
}

func (s *session) spawn(body func()) *thread {
	t := &thread{id: len(s.threads), wake: make(chan struct{}, 1)}
	s.threads = append(s.threads, t)
	go func() {
		<-t.wake
		normal := false
		defer func() {
			if !normal {
				if rec := recover(); rec != nil {
					s.res.Panics = append(s.res.Panics,
						fmt.Sprintf("thread %d: %v\n%s", t.id, rec, debug.Stack()))
				}
			}
			s.exit(t)
		}()
		body()
		normal = true
	}()
	return t
}

// Go starts a new managed thread (or a plain goroutine outside of Run).
func Go(body func()) {
	s := active.Load()
	if s == nil {
		outside.Add(1)
		go func() {
			outsideStart.Store(time.Now().UnixNano())
			outsideStarted.Add(1)
			defer outsideSettled.Add(1)
			body()
		}()
		return
	}
	s.spawn(body)
	Yield()
}

// Goroutines that were started outside of Run. They are not managed, so during
// a Run they should be at rest: finished, or in a wait without end.
var outside, outsideStarted, outsideSettled, outsideStart atomic.Int64

// settle waits for the goroutines outside to come to rest. One that does not
// say so has some time to get there.
func settle() {
	for outside.Load() > outsideSettled.Load() {
		if outsideStarted.Load() >= outside.Load() && time.Now().UnixNano()-outsideStart.Load() > int64(300*time.Millisecond) {
			return
		}
		time.Sleep(50 * time.Microsecond)
	}
}

// Long makes long waits last for good, so that nobody wakes up during a Run.
func Long(d time.Duration) time.Duration {
	if d < time.Minute {
		return d
	}
	outsideSettled.Add(1)
	return 10000 * time.Hour
}

func (s *session) runnable() []*thread {
	var out []*thread
	for _, t := range s.threads {
		if !t.finished && t.blocked == nil {
			out = append(out, t)
		}
	}
	return out
}

// exit hands control on for good.
func (s *session) exit(t *thread) {
	t.finished = true
	next := s.next()
	if next == nil {
		s.finish()
		return
	}
	cur = next
	next.wake <- struct{}{}
}

func (s *session) finish() { s.doneOnce.Do(func() { close(s.done) }) }

// next picks a thread to run when the current one cannot go on. It returns nil
// if everything is finished or nothing can ever run again.
func (s *session) next() *thread {
	r := s.runnable()
	if len(r) > 0 {
		i := 0
		if len(s.sched) > 0 {
			i = abs(s.sched[0].Target)
		}
		return r[i%len(r)]
	}
	var blocked []string
	for _, t := range s.threads {
		if !t.finished {
			blocked = append(blocked, fmt.Sprintf("thread %d in %s", t.id, t.what))
		}
	}
	sort.Strings(blocked)
	s.res.Deadlock = strings.Join(blocked, "; ")
	return nil
}

func (s *session) transfer(self, next *thread) {
	if next != self {
		s.res.Switches++
		cur = next
		next.wake <- struct{}{}
		<-self.wake
	}
}

// giveUp ends a run that cannot end by itself. Its threads stay parked forever.
func (s *session) giveUp() {
	s.finish()
	select {}
}

// Yield is a point where the running thread may be preempted.
func Yield() {
	s := active.Load()
	if s == nil {
		return
	}
	self := cur
	s.res.Steps++
	if s.res.Steps > fairAfter {
		s.fair(self)
		return
	}
	if s.left < 0 {
		return
	}
	if s.left > 0 {
		s.left--
		return
	}
	target := s.sched[0].Target
	s.sched = s.sched[1:]
	s.arm()
	r := s.runnable()
	s.transfer(self, r[abs(target)%len(r)])
}

func (s *session) fair(self *thread) {
	if s.res.Steps > stepLimit {
		s.res.Livelock = s.describe()
		s.giveUp()
	}
	r := s.runnable()
	s.rr++
	s.transfer(self, r[int(s.rr)%len(r)])
}

func (s *session) describe() string {
	var out []string
	for _, t := range s.threads {
		if !t.finished {
			out = append(out, fmt.Sprintf("thread %d (blocked: %v, in %s)", t.id, t.blocked != nil, t.what))
		}
	}
	buf := make([]byte, 1<<16)
	buf = buf[:runtime.Stack(buf, false)]
	return strings.Join(out, "; ") + "\n" + string(buf)
}

// Gosched is a yield point of a thread that cannot make progress by itself.
func Gosched() {
	s := active.Load()
	if s == nil {
		runtime.Gosched()
		return
	}
	self := cur
	s.res.Steps++
	if s.res.Steps > fairAfter {
		s.fair(self)
		return
	}
	self.spins++
	r := s.runnable()
	for i, t := range r {
		if t == self {
			s.transfer(self, r[(i+1)%len(r)])
			return
		}
	}
}

// Block waits until ready returns true. It must be called in a loop-free way:
// ready is retried whenever the address is woken. Outside of a run it polls.
func Block(addr interface{}, what string, ready func() bool) {
	s := active.Load()
	if s == nil {
		for d := time.Duration(0); !ready(); d++ {
			if d < 100 {
				runtime.Gosched()
			} else {
				time.Sleep(50 * time.Microsecond)
			}
		}
		return
	}
	self := cur
	for !ready() {
		s.res.Steps++
		self.blocked, self.what = addr, what
		next := s.next()
		if next == nil {
			s.giveUp()
		}
		if next != self {
			s.res.Switches++
			cur = next
			next.wake <- struct{}{}
			<-self.wake
		}
		self.blocked = nil
	}
}

// Wake makes the threads blocked on addr runnable again.
func Wake(addr interface{}) {
	s := active.Load()
	if s == nil {
		return
	}
	for _, t := range s.threads {
		if t.blocked == addr {
			t.blocked = nil
		}
	}
}
