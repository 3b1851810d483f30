// C03: failures are counted under the documented error name.
package c03

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/url"
	"os"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"

	monkit "github.com/spacemonkeygo/monkit/v3"
	"pgregory.net/rapid"

	"verif.local/harness/kit"
)

func TestMain(m *testing.M) { kit.Main(m) }

// what a programmable handler does in the current case
type behaviour struct {
	kind string // decline, all, text, type, use, declineuse
	name string
	text string
	use  func()
}

func (b *behaviour) handle(err error) (string, bool) {
	if err == nil {
		nils.Add(1)
	}
	switch b.kind {
	case "all":
		return b.name, true
	case "text":
		return b.name, strings.Contains(text(err), b.text)
	case "use":
		b.use()
		return b.name, strings.Contains(text(err), b.text)
	case "declineuse":
		b.use()
		return "declined", false
	case "emptyname":
		return "", strings.Contains(text(err), b.text)
	}
	return "declined", false
}

func text(err error) (s string) {
	defer func() {
		if recover() != nil {
			s = "unprintable"
		}
	}()
	return err.Error()
}

// The handlers cannot be removed, so a fixed set is installed on the first
// case and programmed anew for each case.
const slots = 4

var (
	behaviours [slots]atomic.Pointer[behaviour]
	installed  sync.Once
	extra      int
	nils       atomic.Int64 // handlers called without an error
)

func install() {
	installed.Do(func() {
		for i := range behaviours {
			i := i
			behaviours[i].Store(&behaviour{kind: "decline"})
			monkit.AddErrorNameHandler(func(err error) (string, bool) { return behaviours[i].Load().handle(err) })
		}
	})
}

// self-naming errors
type namedPtr struct {
	name string
	ok   bool
	use  func()
}

func (n *namedPtr) Error() string { return "named " + n.name }
func (n *namedPtr) Name() (string, bool) {
	if n.use != nil {
		n.use()
	}
	return n.name, n.ok
}

type namedNet struct{ namedPtr }

func (n *namedNet) Timeout() bool   { return true }
func (n *namedNet) Temporary() bool { return true }

type netErr struct{}

func (netErr) Error() string   { return "custom net error" }
func (netErr) Timeout() bool   { return false }
func (netErr) Temporary() bool { return false }

type wrongName struct{} // Name with another signature does not count

func (wrongName) Error() string { return "wrong" }
func (wrongName) Name() string  { return "no" }

type sliceErr []string // not comparable

func (sliceErr) Error() string { return "slice" }

type structErr struct{ f func() } // not comparable

func (structErr) Error() string { return "struct" }

type entry struct {
	err  error
	name string
}

// table is the documented naming of standard library errors.
func table() []entry {
	op := &net.OpError{Op: "dial", Net: "tcp", Err: errors.New("refused")}
	return []entry{
		{io.EOF, "EOF"},
		{io.ErrUnexpectedEOF, "Unexpected EOF Error"},
		{io.ErrClosedPipe, "Closed Pipe Error"},
		{io.ErrNoProgress, "No Progress Error"},
		{io.ErrShortBuffer, "Short Buffer Error"},
		{io.ErrShortWrite, "Short Write Error"},
		{context.Canceled, "Canceled"},
		{context.DeadlineExceeded, "Timeout"},
		{syscall.ENOENT, "Errno"},
		{syscall.ETIMEDOUT, "Errno"},
		{syscall.Errno(0), "Errno"},
		{net.UnknownNetworkError("x"), "Unknown Network Error"},
		{&net.AddrError{Err: "x", Addr: "y"}, "Addr Error"},
		{net.InvalidAddrError("x"), "Invalid Addr Error"},
		{op, "Net Op Error"},
		{&net.ParseError{Type: "x", Text: "y"}, "Net Parse Error"},
		{&net.DNSError{Err: "x"}, "DNS Error"},
		{&net.DNSError{Err: "x", IsTimeout: true}, "DNS Error"},
		{&net.DNSConfigError{Err: errors.New("x")}, "DNS Config Error"},
		{netErr{}, "Network Error"},
		{os.ErrDeadlineExceeded, "Network Error"},
		{&os.SyscallError{Syscall: "read", Err: syscall.EIO}, "System Error"},
		{errors.New("x"), "System Error"},
		{fmt.Errorf("w: %w", errors.New("y")), "System Error"},
		{os.ErrNotExist, "System Error"},
		// only the errors themselves have a documented name
		{fmt.Errorf("w: %w", io.EOF), "System Error"},
		{fmt.Errorf("w: %w", context.Canceled), "System Error"},
		{fmt.Errorf("w: %w", syscall.ENOENT), "System Error"},
		{errors.Join(io.ErrUnexpectedEOF), "System Error"},
		{errors.New("EOF"), "System Error"},
		{&url.Error{Op: "Get", URL: "x", Err: context.Canceled}, "Network Error"},
		{&os.PathError{Op: "open", Path: "x", Err: errors.New("z")}, "System Error"},
		{wrongName{}, "System Error"},
		{sliceErr{"x"}, "System Error"},
		{structErr{}, "System Error"},
		{(*namedPtr)(nil), ""}, // replaced below
	}
}

type genErr struct {
	err   error
	name  string // without handlers
	descr string
}

func genError(t *rapid.T, use func()) genErr {
	switch rapid.IntRange(0, 3).Draw(t, "errkind") {
	case 0:
		name := kit.Text(t, "selfname")
		ok := rapid.IntRange(0, 2).Draw(t, "selfok") > 0
		e := &namedPtr{name: name, ok: ok}
		if rapid.IntRange(0, 2).Draw(t, "selfuse") == 0 {
			e.use = use
		}
		if rapid.IntRange(0, 3).Draw(t, "selfnet") == 0 {
			g := genErr{&namedNet{*e}, "Network Error", fmt.Sprintf("net error naming itself %q %v", name, ok)}
			if ok {
				g.name = name
			}
			return g
		}
		g := genErr{e, "System Error", fmt.Sprintf("error naming itself %q %v", name, ok)}
		if ok {
			g.name = name
		}
		return g
	default:
		tab := table()
		e := rapid.SampledFrom(tab[:len(tab)-1]).Draw(t, "err")
		return genErr{e.err, e.name, fmt.Sprintf("%T", e.err)}
	}
}

// expect is the model: the most recently added handler that claims it wins.
func expect(bs []*behaviour, g genErr) string {
	for i := len(bs) - 1; i >= 0; i-- {
		b := bs[i]
		switch b.kind {
		case "all":
			return b.name
		case "text", "use":
			if strings.Contains(text(g.err), b.text) {
				return b.name
			}
		case "emptyname":
			if strings.Contains(text(g.err), b.text) {
				return ""
			}
		}
	}
	return g.name
}

func genBehaviours(t *rapid.T, c *kit.Case, use func()) []*behaviour {
	var bs []*behaviour
	for i := 0; i < slots; i++ {
		b := &behaviour{
			kind: rapid.SampledFrom([]string{"decline", "decline", "all", "text", "use", "declineuse", "emptyname"}).Draw(t, "behaviour"),
			name: kit.Text(t, "name"),
			text: rapid.SampledFrom([]string{"E", "x", "named", "net", "o", ""}).Draw(t, "text"),
			use:  use,
		}
		if b.kind == "all" && rapid.Bool().Draw(t, "relax") {
			b.kind = "text"
		}
		c.Logf("handler %d %s %q %q", i, b.kind, b.name, b.text)
		bs = append(bs, b)
		behaviours[i].Store(b)
	}
	return bs
}

func TestModel(t *testing.T) {
	install()
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		reg := monkit.NewRegistry()
		f := reg.ScopeNamed("s").FuncNamed("f")
		g := monkit.NewFuncStats(monkit.NewSeriesKey("g"))
		inUse := 0
		// what a handler may do with the function being reported on
		use := func() {
			if inUse > 0 {
				return
			}
			inUse++
			f.Errors()
			f.Stats(func(monkit.SeriesKey, string, float64) {})
			f.SuccessTimes()
			g.Panics()
			g.Errors()
			reg.Stats(func(monkit.SeriesKey, string, float64) {})
			inUse--
		}
		bs := genBehaviours(t, c, use)
		want := map[string]int64{}
		wantG := map[string]int64{}
		claimed, self, std := false, false, false
		for n := rapid.IntRange(1, 12).Draw(t, "calls"); n > 0; n-- {
			e := genError(t, use)
			name := expect(bs, e)
			onG := rapid.Bool().Draw(t, "stats only")
			panics := rapid.IntRange(0, 5).Draw(t, "panic") == 0
			if rapid.IntRange(0, 5).Draw(t, "succeed") == 0 {
				// no name is needed, and no handler called for want of one
				c.Logf("success %v", onG)
				if onG {
					var err error
					g.Observe()(&err)
				} else {
					ctx := context.Background()
					f.Task(&ctx)(nil)
				}
			}
			c.Logf("%s -> %q %v %v", e.descr, name, onG, panics)
			claimed = claimed || name != e.name
			_, isSelf := e.err.(interface{ Name() (string, bool) })
			self = self || (isSelf && name == e.name)
			std = std || (!isSelf && name == e.name)
			func() {
				defer func() { _ = recover() }()
				var err error
				if onG {
					defer g.Observe()(&err)
				} else {
					ctx := context.Background()
					defer f.Task(&ctx)(&err)
				}
				err = e.err
				if panics {
					panic("x")
				}
			}()
			if !panics {
				if onG {
					wantG[name]++
				} else {
					want[name]++
				}
			}
			if got := f.Errors(); !reflect.DeepEqual(got, want) {
				t.Fatalf("errors %q, want %q", got, want)
			}
			if got := g.Errors(); !reflect.DeepEqual(got, wantG) {
				t.Fatalf("errors of the bare stats %q, want %q", got, wantG)
			}
		}
		if n := nils.Swap(0); n > 0 {
			t.Fatalf("%d handlers called without an error", n)
		}
		exported := map[string]int64{}
		f.Stats(func(key monkit.SeriesKey, field string, val float64) {
			if n, ok := key.Tags.All()["error_name"]; ok && field == "count" {
				exported[n] += int64(val)
			}
		})
		if !reflect.DeepEqual(exported, want) {
			t.Fatalf("exported %q, want %q", exported, want)
		}
		c.LabelIf(claimed, "claimed by a handler")
		c.LabelIf(self, "self-named")
		c.LabelIf(std, "documented name")
		c.NonTrivialIf(claimed || self || std)
	})
}

// TestModelAdd adds handlers in the middle of the history; they accumulate.
func TestModelAdd(t *testing.T) {
	install()
	for i := range behaviours {
		behaviours[i].Store(&behaviour{kind: "decline"})
	}
	var mine []*behaviour // in order of addition
	var gen int
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		gen++
		for i := range behaviours {
			behaviours[i].Store(&behaviour{kind: "decline"})
		}
		for _, b := range mine {
			if len(mine) > 0 {
				b.kind = "decline" // retired
			}
		}
		mine = nil
		f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
		want := map[string]int64{}
		added := 0
		for n := rapid.IntRange(1, 10).Draw(t, "ops"); n > 0; n-- {
			if added < 2 && extra < 600 && rapid.IntRange(0, 2).Draw(t, "add") == 0 {
				b := &behaviour{kind: rapid.SampledFrom([]string{"text", "decline", "all"}).Draw(t, "kind"), name: fmt.Sprint("h", added),
					text: rapid.SampledFrom([]string{"E", "x", "o"}).Draw(t, "text")}
				c.Logf("add %s %q", b.kind, b.text)
				monkit.AddErrorNameHandler(b.handle)
				mine = append(mine, b)
				added++
				extra++
			} else {
				e := genError(t, nil)
				name := expect(mine, e)
				c.Logf("%s -> %q", e.descr, name)
				func() {
					err := e.err
					defer f.Observe()(&err)
				}()
				want[name]++
			}
			if got := f.Errors(); !reflect.DeepEqual(got, want) {
				t.Fatalf("errors %q, want %q", got, want)
			}
		}
		c.NonTrivialIf(added > 0 && len(want) > 0)
	})
}

// TestModelMany: however many handlers are added, the ones added before are
// still asked.
func TestModelMany(t *testing.T) {
	install()
	many := 0
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		for i := range behaviours {
			behaviours[i].Store(&behaviour{kind: "decline"})
		}
		slot := rapid.IntRange(0, slots-1).Draw(t, "slot")
		b := &behaviour{kind: rapid.SampledFrom([]string{"all", "text"}).Draw(t, "kind"), name: kit.Text(t, "name"), text: "x"}
		behaviours[slot].Store(b)
		k := rapid.IntRange(0, 40).Draw(t, "added")
		for i := 0; i < k && many < 1000; i++ {
			monkit.AddErrorNameHandler(func(error) (string, bool) { return "declined", false })
			many++
		}
		f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
		want := map[string]int64{}
		for n := rapid.IntRange(1, 3).Draw(t, "calls"); n > 0; n-- {
			e := genError(t, nil)
			c.Logf("%s with slot %d %s, %d more", e.descr, slot, b.kind, k)
			func() {
				err := e.err
				defer f.Observe()(&err)
			}()
			want[expect([]*behaviour{b}, e)]++
		}
		if got := f.Errors(); !reflect.DeepEqual(got, want) {
			t.Fatalf("errors %q, want %q", got, want)
		}
		c.NonTrivialIf(want[b.name] > 0)
	})
}

// TestRaceAdd: handlers added at once are all kept.
func TestRaceAdd(t *testing.T) {
	install()
	for i := range behaviours {
		behaviours[i].Store(&behaviour{kind: "decline"})
	}
	addAtOnce(t, func(t *rapid.T, c *kit.Case, bodies []func()) {
		kit.Parallel(len(bodies), func(i int) { bodies[i]() })
	})
}

func TestSchedAdd(t *testing.T) {
	kit.NeedSched(t, func() { _ = monkit.NewRegistry().ScopeNamed("x").FuncNamed("y") })
	install()
	for i := range behaviours {
		behaviours[i].Store(&behaviour{kind: "decline"})
	}
	addAtOnce(t, func(t *rapid.T, c *kit.Case, bodies []func()) {
		s := kit.Schedule(t)
		c.Logf("%v", s)
		kit.Sched(t, c, s, bodies...)
	})
}

func addAtOnce(t *testing.T, run func(*rapid.T, *kit.Case, []func())) {
	var retired atomic.Bool
	_ = &retired
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		f := monkit.NewFuncStats(monkit.NewSeriesKey("f"))
		n := rapid.IntRange(2, 4).Draw(t, "threads")
		fails := rapid.IntRange(0, 3).Draw(t, "failures")
		c.Logf("%d handlers added at once, %d failures", n, fails)
		var off atomic.Bool
		defer off.Store(true)
		var bodies []func()
		targets := make([]error, n)
		for i := 0; i < n; i++ {
			i := i
			targets[i] = fmt.Errorf("target %d", i)
			bodies = append(bodies, func() {
				monkit.AddErrorNameHandler(func(err error) (string, bool) {
					return fmt.Sprint("h", i), !off.Load() && err == targets[i]
				})
			})
		}
		bodies = append(bodies, func() {
			for i := 0; i < fails; i++ {
				err := error(io.EOF)
				f.Observe()(&err)
			}
		})
		run(t, c, bodies)
		want := map[string]int64{}
		if fails > 0 {
			want["EOF"] = int64(fails)
		}
		for i, e := range targets {
			err := e
			f.Observe()(&err)
			want[fmt.Sprint("h", i)]++
		}
		if got := f.Errors(); !reflect.DeepEqual(got, want) {
			t.Fatalf("errors %v, want %v", got, want)
		}
		c.NonTrivial()
	})
}
