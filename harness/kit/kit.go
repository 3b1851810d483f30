// Package kit is what all the property checks share: counting of generated
// cases for the evidence, a watchdog, and generators.
package kit

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif.local/harness/vsched"
)

type stats struct {
	Evaluations int64            `json:"evaluations"`
	NonTrivial  int64            `json:"nontrivial"`
	Distinct    int64            `json:"distinct_nontrivial"`
	Labels      map[string]int64 `json:"labels"`
	Samples     []string         `json:"samples"`
	Notes       []string         `json:"notes"`
}

var (
	mu       sync.Mutex
	st       = stats{Labels: map[string]int64{}}
	seen     = map[uint64]struct{}{}
	progress atomic.Int64
	current  atomic.Pointer[Case]
)

// Fake reports whether this is a fake clock build.
var Fake = time.Now().Year() < 2015

// Main runs the tests of a package and writes the statistics.
func Main(m *testing.M) {
	flag.Parse()
	seed := int64(1)
	if s := os.Getenv("VERIF_RAND"); s != "" {
		seed, _ = strconv.ParseInt(s, 10, 64)
	}
	rand.Seed(seed) //nolint: the code under test draws from the global source
	if !Fake {
		go watchdog()
	}
	code := m.Run()
	Flush()
	os.Exit(code)
}

// Flush writes the statistics file.
func Flush() {
	name := os.Getenv("VERIF_STATS")
	if name == "" {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	st.Distinct = int64(len(seen))
	data, err := json.Marshal(st)
	if err == nil {
		err = os.WriteFile(name, data, 0o644)
	}
	if err == nil {
		var h []byte
		for x := range seen {
			h = binary.LittleEndian.AppendUint64(h, x)
		}
		err = os.WriteFile(name+".h", h, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "kit:", err)
	}
}

func cpu() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// watchdog decides that a case hangs. It counts its own wake-ups and the
// processor time of the process, so a busy or suspended machine does not
// matter: it fires only if for 40 wake-ups no case has finished and either the
// process used next to no processor time throughout (everything is blocked) or
// it burnt 40 s of it on a single case (cases take micro- to milliseconds).
func watchdog() {
	last, wakes, startCPU := progress.Load(), 0, cpu()
	for {
		time.Sleep(time.Second)
		if p := progress.Load(); p != last {
			last, wakes, startCPU = p, 0, cpu()
			continue
		}
		wakes++
		used := cpu() - startCPU
		if current.Load() == nil {
			// preparing the cases: only a standstill counts
			if wakes < 40 || used > 2*time.Second {
				continue
			}
		}
		if (wakes >= 40 && used < 2*time.Second) || used > 40*time.Second*time.Duration(runtime.GOMAXPROCS(0)) || (wakes >= 40 && used > 40*time.Second) {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Printf("\nKIT-HANG after %d s and %v of processor time\n", wakes, used)
			if c := current.Load(); c != nil {
				fmt.Printf("case:\n%s\n", c.desc())
			}
			fmt.Printf("%s\n", buf)
			Flush()
			os.Exit(86)
		}
	}
}

// Busy tells the watchdog that the case waits for another process, until the
// function returned is called.
func Busy() (stop func()) {
	quit := make(chan struct{})
	go func() {
		for {
			select {
			case <-quit:
				return
			case <-time.After(time.Second):
				progress.Add(1)
			}
		}
	}()
	return func() { close(quit) }
}

// Case collects the description of one generated case.
type Case struct {
	b          strings.Builder
	bmu        sync.Mutex
	nontrivial bool
	labels     []string
	t          *rapid.T
}

// Logf adds to the description of the case. It is what makes cases distinct.
func (c *Case) Logf(format string, args ...interface{}) {
	c.bmu.Lock()
	fmt.Fprintf(&c.b, format, args...)
	c.b.WriteByte('\n')
	c.bmu.Unlock()
}

func (c *Case) desc() string {
	c.bmu.Lock()
	defer c.bmu.Unlock()
	return c.b.String()
}

// NonTrivial marks the case as one that exercises the property.
func (c *Case) NonTrivial() { c.nontrivial = true }

// NonTrivialIf marks the case if cond holds.
func (c *Case) NonTrivialIf(cond bool) {
	if cond {
		c.nontrivial = true
	}
}

// Label classifies the case.
func (c *Case) Label(label string) { c.labels = append(c.labels, label) }

// LabelIf classifies the case if cond holds.
func (c *Case) LabelIf(cond bool, label string) {
	if cond {
		c.labels = append(c.labels, label)
	}
}

var failure sync.Once

// failedOnce leaves a note of the first case that failed, so that the failure
// is known even if it cannot be shrunk in time.
func failedOnce(test, what string, c *Case) {
	failure.Do(func() {
		if name := os.Getenv("VERIF_STATS"); name != "" {
			_ = os.WriteFile(name+".failed", []byte(fmt.Sprintf("%s failed: %s\ncase (not shrunk):\n%s", test, what, c.desc())), 0o644)
		}
	})
}

var (
	beatFile *os.File
	beatOnce sync.Once
)

// beat shows that the cases advance to those who watch a build whose clock
// stands still, in which a watchdog of its own cannot tell the time.
func beat() {
	if !Fake {
		return
	}
	beatOnce.Do(func() {
		if name := os.Getenv("VERIF_STATS"); name != "" {
			beatFile, _ = os.Create(name + ".beat")
		}
	})
	if beatFile != nil {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(progress.Load())+1)
		_, _ = beatFile.WriteAt(b[:], 0)
	}
}

// Check generates cases and runs body on them.
func Check(t *testing.T, body func(t *rapid.T, c *Case)) {
	t.Helper()
	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{t: rt}
		current.Store(c)
		defer func() {
			progress.Add(1)
			current.Store(nil)
		}()
		beat()
		ok := false
		defer func() {
			if ok {
				return
			}
			rec := recover()
			if rec != nil && fmt.Sprintf("%T", rec) != "rapid.invalidData" {
				failedOnce(t.Name(), fmt.Sprint(rec), c)
			}
			if c.desc() != "" {
				rt.Logf("case:\n%s", c.desc())
			}
			if rec != nil {
				panic(rec)
			}
		}()
		body(rt, c)
		ok = true
		c.record(t.Name())
	})
}

func (c *Case) record(name string) {
	mu.Lock()
	defer mu.Unlock()
	st.Evaluations++
	uniq := map[string]bool{}
	for _, l := range c.labels {
		if !uniq[l] {
			uniq[l] = true
			st.Labels[name+": "+l]++
		}
	}
	if !c.nontrivial {
		return
	}
	st.NonTrivial++
	h := fnv.New64a()
	d := c.b.String()
	h.Write([]byte(name))
	h.Write([]byte(d))
	if len(seen) < 1_000_000 {
		seen[h.Sum64()] = struct{}{}
	}
	// keep the 2nd, 20th, 200th non-trivial case of the process as samples
	switch st.NonTrivial {
	case 2, 20, 200:
		if len(d) > 1500 {
			d = d[:1500] + "..."
		}
		st.Samples = append(st.Samples, name+": "+d)
	}
}

// Note adds a remark to the evidence.
func Note(format string, args ...interface{}) {
	mu.Lock()
	st.Notes = append(st.Notes, fmt.Sprintf(format, args...))
	mu.Unlock()
}

// Count adds evaluations that are not rapid cases of their own.
func Count(evals int64, label string) {
	mu.Lock()
	st.Labels[label] += evals
	mu.Unlock()
}

// NeedSched skips the test if the code under test is not instrumented.
func NeedSched(t *testing.T, probe func()) {
	t.Helper()
	res := vsched.Run(nil, probe)
	if res.Steps == 0 {
		Note("%s: not instrumented, skipped", t.Name())
		t.Skip("not instrumented")
	}
}

// Sched runs the bodies under the schedule and fails on deadlock, livelock or
// panic.
func Sched(t *rapid.T, c *Case, s vsched.Schedule, bodies ...func()) vsched.Result {
	res := vsched.Run(s, bodies...)
	c.LabelIf(res.Switches > len(bodies), "preempted")
	if f := res.Failed(); f != "" {
		t.Fatalf("%s", f)
	}
	return res
}

// Safely calls f and returns what it panics with.
func Safely(f func()) (rec interface{}) {
	defer func() { rec = recover() }()
	f()
	return nil
}
