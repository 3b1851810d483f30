// C24: environment statistics are the operating system's own.
package c24

import (
	"bufio"
	"fmt"
	"hash/crc32"
	"io"
	"math"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
	"unsafe"

	monkit "github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/environment"
	"pgregory.net/rapid"

	"verif.local/harness/kit"
)

var began = time.Now()

func TestMain(m *testing.M) {
	if os.Getenv("C24_CHILD") != "" {
		child()
		return
	}
	kit.Main(m)
}

// child prints the checksum of this process once told to.
func child() {
	fmt.Println("ready")
	_, _ = io.ReadAll(os.Stdin)
	got, _ := export(registered)
	fmt.Println(strconv.FormatFloat(got["process.crc"], 'g', -1, 64))
}

// replaced runs a copy of this program, changes the file that it was started
// from, and returns the checksum that it reports.
func replaced(how string) (float64, error) {
	wd, err := os.Getwd()
	must(err)
	dir, err := os.MkdirTemp(wd, "c24")
	must(err)
	defer os.RemoveAll(dir)
	self, err := os.ReadFile("/proc/self/exe")
	must(err)
	file := filepath.Join(dir, "program")
	must(os.WriteFile(file, self, 0o700))
	cmd := exec.Command(file)
	cmd.Env = append(os.Environ(), "C24_CHILD=1")
	in, err := cmd.StdinPipe()
	must(err)
	out, err := cmd.StdoutPipe()
	must(err)
	if err := cmd.Start(); err != nil {
		return crc, nil // busy: somebody forks while the file is being written
	}
	r := bufio.NewReader(out)
	line, err := r.ReadString('\n')
	if err == nil && line == "ready\n" {
		switch how {
		case "remove":
			must(os.Remove(file))
		case "rename":
			must(os.Rename(file, file+"2"))
		case "replace":
			must(os.Remove(file))
			must(os.WriteFile(file, []byte("another program"), 0o700))
		}
	}
	_ = in.Close()
	line, _ = r.ReadString('\n')
	_ = cmd.Wait()
	return strconv.ParseFloat(strings.TrimSpace(line), 64)
}

var statFields = strings.Fields(`Pid State Ppid Pgrp Session TtyNr Tpgid Flags Minflt Cminflt Majflt Cmajflt Utime Stime Cutime Cstime Priority Nice
	NumThreads Itrealvalue Starttime Vsize Rss Rsslim Startcode Endcode Startstack Kstkesp Kstkeip Signal Blocked Sigignore Sigcatch Wchan Nswap
	Cnswap ExitSignal Processor RtPriority Policy DelayAcctBlkioTicks GuestTime CguestTime`)

var statmFields = strings.Fields(`Size Resident Share Text Lib Data Dt`)

// Figures that the kernel changes at any moment.
var unsteady = map[string]bool{"proc_stat.State": true, "proc_stat.Processor": true, "proc_stat.Kstkesp": true, "proc_stat.Kstkeip": true, "proc_stat.Flags": true, "proc_stat.Signal": true, "proc_stat.Wchan": true}

// Figures that only grow.
var growing = map[string]bool{}

func init() {
	for _, f := range strings.Fields(`proc_stat.Minflt proc_stat.Majflt proc_stat.Cminflt proc_stat.Cmajflt
		proc_stat.Cutime proc_stat.Cstime runtime_memstats.TotalAlloc runtime_memstats.Mallocs runtime_memstats.Frees runtime_memstats.NumGC
		runtime_memstats.PauseTotalNs runtime_memstats.NumForcedGC rusage.Minflt rusage.Majflt rusage.Inblock rusage.Oublock rusage.Nvcsw rusage.Nivcsw`) {
		growing[f] = true
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// truth reads the figures from their sources.
func truth() map[string]float64 {
	out := map[string]float64{}
	data, err := os.ReadFile("/proc/self/stat")
	must(err)
	s := string(data)
	i, j := strings.IndexByte(s, '('), strings.LastIndexByte(s, ')')
	parts := append(strings.Fields(s[:i]), strings.Fields(s[j+1:])...)
	if len(parts) >= len(statFields) {
		for k, f := range statFields {
			v, err := strconv.ParseFloat(parts[k], 64)
			if f == "State" {
				v, err = float64(parts[k][0]), nil
			}
			must(err)
			out["proc_stat."+f] = v
		}
	}
	data, err = os.ReadFile("/proc/self/statm")
	must(err)
	for k, p := range strings.Fields(string(data)) {
		v, err := strconv.ParseFloat(p, 64)
		must(err)
		out["proc_statm."+statmFields[k]] = v
	}
	names, err := os.ReadDir("/proc/self/fd")
	must(err)
	out["fds.count"] = float64(len(names))
	out["goroutines.count"] = float64(runtime.NumGoroutine())
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	fields(out, "runtime_memstats.", reflect.ValueOf(ms))
	var ru syscall.Rusage
	must(syscall.Getrusage(syscall.RUSAGE_SELF, &ru))
	fields(out, "rusage.", reflect.ValueOf(ru))
	return out
}

func fields(out map[string]float64, prefix string, v reflect.Value) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		name := prefix + v.Type().Field(i).Name
		switch f.Kind() {
		case reflect.Struct:
			fields(out, name+".", f)
		case reflect.Bool:
			out[name] = 0
			if f.Bool() {
				out[name] = 1
			}
		case reflect.Float64:
			out[name] = f.Float()
		case reflect.Int64, reflect.Int32, reflect.Int:
			out[name] = float64(f.Int())
		case reflect.Uint64, reflect.Uint32:
			out[name] = float64(f.Uint())
		}
	}
}

var crc = func() float64 {
	f, err := os.Open("/proc/self/exe")
	must(err)
	defer f.Close()
	h := crc32.NewIEEE()
	_, err = io.Copy(h, f)
	must(err)
	return float64(h.Sum32())
}()

const scope = "github.com/spacemonkeygo/monkit/v3/environment"

// export reads the registered statistics.
func export(reg *monkit.Registry) (out map[string]float64, problem string) {
	out = map[string]float64{}
	reg.Stats(func(key monkit.SeriesKey, field string, val float64) {
		if key.Tags.Get("scope") != scope || key.Tags.Len() > 1 && key.Measurement != "runtime_gcstats" {
			problem = fmt.Sprintf("series %s", key)
		}
		name := key.Measurement + "." + field
		if _, dup := out[name]; dup {
			problem = name + " exported twice"
		}
		out[name] = val
	})
	return
}

func total(m map[string]float64, name string) float64 { return m[name+".Sec"]*1e6 + m[name+".Usec"] }

// compare takes exports between readings of the truth. Figures that move both
// ways must be right in one of several attempts.
func compare(reg *monkit.Registry) string {
	open := map[string]string{}
	for try := 0; try < 40; try++ {
		before := truth()
		got, problem := export(reg)
		after := truth()
		if problem != "" {
			return problem
		}
		bad := map[string]string{}
		for name, b := range before {
			a := after[name]
			e, ok := got[name]
			if !ok {
				return name + " is missing"
			}
			if unsteady[name] || strings.HasPrefix(name, "rusage.Utime") || strings.HasPrefix(name, "rusage.Stime") {
				continue
			}
			if e < math.Min(a, b) || e > math.Max(a, b) {
				bad[name] = fmt.Sprintf("%s is %v, the system says %v and then %v", name, e, b, a)
				if growing[name] && b <= a {
					return bad[name]
				}
			}
		}
		// seconds and microseconds go together
		for _, n := range []string{"rusage.Utime", "rusage.Stime"} {
			b, e, a := total(before, n), total(got, n), total(after, n)
			if b <= a && (e < b || e > a) {
				return fmt.Sprintf("%s is %v us, the system says %v and then %v", n, e, b, a)
			}
			if us := got[n+".Usec"]; us < 0 || us >= 1e6 {
				return fmt.Sprintf("%s.Usec is %v", n, us)
			}
		}
		if got["process.control"] != 1 || got["process.crc"] != crc {
			return fmt.Sprintf("process control %v crc %v, want 1 %v", got["process.control"], got["process.crc"], crc)
		}
		if try == 0 {
			open = bad
		} else {
			for n := range open {
				if _, still := bad[n]; !still {
					delete(open, n)
				}
			}
		}
		if len(open) == 0 {
			return ""
		}
		time.Sleep(time.Millisecond)
	}
	var names []string
	for _, s := range open {
		names = append(names, s)
	}
	sort.Strings(names)
	return strings.Join(names, "; ")
}

// age is how long this process exists.
func age() (float64, bool) {
	start, ok := truth()["proc_stat.Starttime"]
	var ts syscall.Timespec
	const boottime = 7
	if _, _, e := syscall.Syscall(syscall.SYS_CLOCK_GETTIME, boottime, uintptr(unsafe.Pointer(&ts)), 0); e != 0 || !ok {
		return 0, false
	}
	return float64(ts.Sec) + float64(ts.Nsec)/1e9 - start/100, true
}

func uptime(reg *monkit.Registry) (float64, string) {
	lo := time.Since(began)
	got, problem := export(reg)
	hi := time.Since(began)
	up := got["process.uptime"]
	most := hi.Seconds() + 300
	if a, ok := age(); ok && a >= hi.Seconds() && a < most {
		most = a + 0.05
	}
	if up < lo.Seconds() || up > most {
		return 0, fmt.Sprintf("uptime %v, want about %v, at most %v", up, hi.Seconds(), most)
	}
	return up, problem
}

var registered = func() *monkit.Registry {
	reg := monkit.NewRegistry()
	environment.Register(reg)
	return reg
}()

var names = []string{"a", "a b", ") R 1 2 3", "(", ")", "))", "((", "1 2", "x) S 0", "%d", "é", "\xff", "tab\tx", "line\nx", "", " ", "very long name indeed"}

// TestModel changes the process and compares its statistics.
func TestModel(t *testing.T) {
	self := fmt.Sprintf("/proc/%d/comm", os.Getpid())
	old, _ := os.ReadFile(self)
	defer os.WriteFile(self, old, 0)
	nice := 0
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		var files []*os.File
		stop := make(chan struct{})
		var wg sync.WaitGroup
		var keep [][]byte
		defer func() {
			for _, f := range files {
				_ = f.Close()
			}
			close(stop)
			wg.Wait()
			runtime.KeepAlive(keep)
		}()
		for i := rapid.IntRange(0, 4).Draw(t, "steps"); i > 0; i-- {
			switch op := rapid.IntRange(0, 9).Draw(t, "op"); op {
			case 0:
				n := rapid.SampledFrom([]int{1, 3, 20, 100}).Draw(t, "files")
				if rapid.IntRange(0, 40).Draw(t, "many") == 0 {
					n = 4200
				}
				for j := 0; j < n; j++ {
					f, err := os.Open("/dev/null")
					if err != nil {
						break
					}
					files = append(files, f)
				}
				c.Logf("open %d files", n)
			case 1:
				n := rapid.IntRange(1, 50).Draw(t, "goroutines")
				for j := 0; j < n; j++ {
					wg.Add(1)
					go func() { <-stop; wg.Done() }()
				}
				c.Logf("start %d goroutines", n)
			case 2, 3:
				name := rapid.SampledFrom(names).Draw(t, "name")
				err := os.WriteFile(self, []byte(name), 0)
				c.Logf("name %q %v", name, err)
			case 4:
				runtime.GC()
				c.Logf("collect")
			case 5:
				n := rapid.IntRange(1, 20).Draw(t, "megabytes")
				b := make([]byte, n<<20)
				for j := 0; j < len(b); j += 4096 {
					b[j] = 1
				}
				keep = append(keep, b)
				c.Logf("allocate %d MB", n)
			case 6:
				_ = exec.Command("/bin/true").Run()
				c.Logf("run a child")
			case 7:
				wg.Add(1)
				go func() {
					runtime.LockOSThread()
					defer runtime.UnlockOSThread()
					<-stop
					wg.Done()
				}()
				c.Logf("start a thread")
			case 8:
				lim := uint64(rapid.IntRange(1<<30, 1<<40).Draw(t, "limit"))
				var r syscall.Rlimit
				if syscall.Getrlimit(5, &r) == nil {
					r.Cur = lim
					_ = syscall.Setrlimit(5, &r)
				}
				if nice < 5 {
					nice++
					_ = syscall.Setpriority(syscall.PRIO_PROCESS, os.Getpid(), nice)
				}
				c.Logf("limit %d nice %d", lim, nice)
			case 9:
				sig := rapid.SampledFrom([]os.Signal{syscall.SIGUSR1, syscall.SIGUSR2, syscall.SIGWINCH}).Draw(t, "signal")
				if rapid.Bool().Draw(t, "ignore") {
					signal.Ignore(sig)
				} else {
					signal.Reset(sig)
				}
				c.Logf("ignore %v", sig)
			}
			c.NonTrivial()
		}
		if s := compare(registered); s != "" {
			t.Fatalf("%s", s)
		}
		if rapid.IntRange(0, 99).Draw(t, "another program") == 0 {
			how := rapid.SampledFrom([]string{"keep", "remove", "rename", "replace"}).Draw(t, "how")
			got, err := replaced(how)
			if err != nil || got != crc {
				t.Fatalf("crc %v (%v) after %s of the program, want %v", got, err, how, crc)
			}
			c.Label("another program")
		}
		up1, s := uptime(registered)
		if s != "" {
			t.Fatalf("%s", s)
		}
		at := time.Now()
		d := time.Duration(rapid.IntRange(0, 2).Draw(t, "wait")) * time.Millisecond
		time.Sleep(d)
		up2, s := uptime(registered)
		if s != "" {
			t.Fatalf("%s", s)
		}
		if up2-up1 < d.Seconds() || up2-up1 > time.Since(at).Seconds()+1 {
			t.Fatalf("uptime goes from %v to %v in %v", up1, up2, d)
		}
	})
}

func descriptors() int {
	names, err := os.ReadDir("/proc/self/fd")
	must(err)
	return len(names)
}

// TestModelKeep: exporting does not use up what it reports on.
func TestModelKeep(t *testing.T) {
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		reg := registered
		if rapid.IntRange(0, 3).Draw(t, "fresh") == 0 {
			reg = monkit.NewRegistry()
			environment.Register(reg)
		}
		export(reg)
		n := rapid.IntRange(1, 30).Draw(t, "exports")
		fds, routines := descriptors(), runtime.NumGoroutine()
		for i := 0; i < n; i++ {
			if _, problem := export(reg); problem != "" {
				t.Fatalf("%s", problem)
			}
		}
		if d := descriptors() - fds; d >= n {
			t.Fatalf("%d exports leave %d descriptors open", n, d)
		}
		if d := runtime.NumGoroutine() - routines; d >= n {
			t.Fatalf("%d exports leave %d goroutines", n, d)
		}
		c.Logf("%d exports", n)
		c.NonTrivialIf(n > 1)
		runtime.GC()
	})
}

func gcStats(src monkit.StatSource) (count, recent float64) {
	src.Stats(func(key monkit.SeriesKey, field string, val float64) {
		if key.Measurement == "runtime_gcstats" {
			switch field {
			case "count":
				count = val
			case "recent":
				recent = val
			}
		}
	})
	return
}

// TestModelGC exports around garbage collections.
func TestModelGC(t *testing.T) {
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		src := environment.Runtime()
		var last, pending float64
		first := true
		gcs := 0
		// Nobody else collects: the collector is off, and forced ones are two minutes apart.
		num := func() int64 {
			var s debug.GCStats
			debug.ReadGCStats(&s)
			return s.NumGC
		}
		start := num()
		pending = float64(start)
		for i := rapid.IntRange(1, 8).Draw(t, "steps"); i > 0; i-- {
			if rapid.Bool().Draw(t, "collect") {
				runtime.GC()
				gcs++
				pending++
				c.Logf("collect")
				continue
			}
			before := num()
			count, recent := gcStats(src)
			var s debug.GCStats
			debug.ReadGCStats(&s)
			if s.NumGC != before || before != start+int64(gcs) {
				return // somebody collected after all
			}
			c.Logf("export: %v", count)
			switch {
			case pending == 0 && count != last:
				t.Fatalf("%v collections counted without any, %v before", count, last)
			case pending > 0 && (count < last+1 || count > last+pending):
				t.Fatalf("count went from %v to %v in %v collections", last, count, pending)
			case first && pending > 0 && count < 1:
				t.Fatalf("no collection counted")
			}
			if len(s.Pause) > 0 && recent != s.Pause[0].Seconds() {
				t.Fatalf("recent pause %v, want %v", recent, s.Pause[0].Seconds())
			}
			if pending == 0 && !first {
				c.NonTrivial()
			}
			last, pending, first = count, 0, false
		}
	})
}

// TestRace exports from several goroutines.
func TestRace(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		reg := monkit.NewRegistry()
		environment.Register(reg)
		src := environment.Runtime()
		n := rapid.IntRange(2, 6).Draw(t, "goroutines")
		gcs := rapid.IntRange(0, 3).Draw(t, "collections")
		var before debug.GCStats
		debug.ReadGCStats(&before)
		first, _ := gcStats(src)
		kit.Parallel(n, func(i int) {
			if i == 0 {
				for j := 0; j < gcs; j++ {
					runtime.GC()
				}
			}
			got, problem := export(reg)
			if problem != "" {
				panic(problem)
			}
			for name := range truth() {
				if _, ok := got[name]; !ok {
					panic(name + " is missing")
				}
			}
			gcStats(src)
		})
		var after debug.GCStats
		last, _ := gcStats(src)
		debug.ReadGCStats(&after)
		if last-first > float64(after.NumGC-before.NumGC) {
			t.Fatalf("%v pauses counted in %d collections", last-first, after.NumGC-before.NumGC)
		}
		c.Logf("%d goroutines, %d collections", n, gcs)
		c.NonTrivial()
	})
}
