// C22: drawings of traces show every span truthfully.
package c22

import (
	"bytes"
	"context"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"math/big"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	monkit "github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	"github.com/spacemonkeygo/monkit/v3/present"
	"pgregory.net/rapid"

	"verif.local/harness/kit"
)

func TestMain(m *testing.M) { kit.Main(m) }

type raw string

func (r raw) GoString() string { return string(r) }

type wrapped struct{ err error }

func (w wrapped) Error() string     { return "wrapped: " + w.err.Error() }
func (w wrapped) WrappedErr() error { return w.err }

type emptyWrap struct{}

func (emptyWrap) Error() string     { return "empty" }
func (emptyWrap) WrappedErr() error { return nil }

type uncomparable []string

func (u uncomparable) Error() string { return strings.Join(u, "") }

type live struct {
	ctx    context.Context
	exit   func(*error)
	span   *monkit.Span
	depth  int
	parent int // index, -1 for none
	open   int // running children
}

type observer struct{ done []*collect.FinishedSpan }

func (o *observer) Start(ctx context.Context, s *monkit.Span) context.Context { return ctx }
func (o *observer) Finish(ctx context.Context, s *monkit.Span, err error, panicked bool, finish time.Time) {
	for _, d := range o.done {
		if d.Span == s { // its trace was announced twice
			return
		}
	}
	o.done = append(o.done, &collect.FinishedSpan{Span: s, Err: err, Panicked: panicked, Finish: finish})
}

// years is the time the long sleeps of this process took.
var years time.Duration

// record draws a history of spans and returns those that finished. In a
// nested history children finish before their parents.
func record(t *rapid.T, c *kit.Case, nested bool) []*collect.FinishedSpan {
	reg := monkit.NewRegistry()
	obs := &observer{}
	reg.ObserveTraces(func(tr *monkit.Trace) { tr.ObserveSpansCtx(obs) })
	var funcs []*monkit.Func
	for i := rapid.IntRange(1, 3).Draw(t, "funcs"); i > 0; i-- {
		funcs = append(funcs, reg.ScopeNamed(kit.Text(t, "scope")).FuncNamed(kit.Text(t, "func")))
	}
	var spans []*live
	var ids []int64
	total := time.Duration(0)
	long := rapid.SampledFrom([]time.Duration{time.Minute, time.Hour, 24 * time.Hour, 100 * 24 * time.Hour}).Draw(t, "long")
	sleep := func() {
		d := rapid.SampledFrom([]time.Duration{0, 0, 1, 1, 2, time.Microsecond, time.Millisecond, time.Second, time.Hour, 50 * time.Hour, long}).Draw(t, "sleep")
		d *= time.Duration(rapid.IntRange(1, 9).Draw(t, "times"))
		if total+d > 80*24*time.Hour {
			// the process's virtual time ends in 2262
			if d < 80*24*time.Hour || total+d > 3*365*24*time.Hour || years+d > 100*365*24*time.Hour {
				return
			}
			years += d
		}
		total += d
		time.Sleep(d)
	}
	tr := monkit.NewTrace(monkit.NewId())
	end := func(i int) {
		s := spans[i]
		spans[i] = nil
		if s.parent >= 0 && spans[s.parent] != nil {
			spans[s.parent].open--
		}
		anErr := func() error {
			return rapid.SampledFrom([]error{errors.New("a"), errors.New(context.Canceled.Error()), wrapped{errors.New(context.Canceled.Error())}, context.Canceled, wrapped{context.Canceled}, wrapped{wrapped{context.Canceled}},
				wrapped{io.EOF}, emptyWrap{}, wrapped{emptyWrap{}}, uncomparable{"x"}, context.DeadlineExceeded, errors.New(kit.Text(t, "message"))}).Draw(t, "err")
		}
		switch rapid.IntRange(0, 8).Draw(t, "how") {
		case 0:
			_ = kit.Safely(func() {
				defer s.exit(nil)
				panic("x")
			})
		case 1:
			err := anErr()
			_ = kit.Safely(func() {
				defer s.exit(&err)
				panic("x")
			})
		case 2, 3:
			err := anErr()
			s.exit(&err)
		default:
			s.exit(nil)
		}
	}
	for i := rapid.IntRange(0, 16).Draw(t, "steps"); i > 0; i-- {
		var running []int
		for j, s := range spans {
			if s != nil && (!nested || s.open == 0) {
				running = append(running, j)
			}
		}
		switch op := rapid.SampledFrom([]string{"start", "start", "start", "start", "end", "end", "end", "end", "sleep", "sleep", "sleep", "sleep", "tower"}).Draw(t, "op"); {
		case op == "sleep":
			sleep()
		case op == "tower":
			// calls nested deeply, or many one after the other
			ctx := context.Background()
			for _, s := range spans {
				if s != nil && rapid.Bool().Draw(t, "on") {
					ctx = s.ctx
					break
				}
			}
			shape := rapid.SampledFrom([]string{"deep", "deep", "deep", "row", "wide"}).Draw(t, "shape")
			var exits []func(*error)
			for k := kit.Some(t, "floors", 1, 14); k > 0; k-- {
				inner := ctx
				exit := funcs[k%len(funcs)].Task(&inner)
				switch shape {
				case "deep":
					ctx = inner
					exits = append(exits, exit)
				case "wide": // side by side, at the same time
					exits = append(exits, exit)
				default:
					time.Sleep(time.Duration(k % 3))
					exit(nil)
				}
			}
			sleep()
			for k := len(exits) - 1; k >= 0; k-- {
				exits[k](nil)
			}
		case op == "end" && len(running) > 0:
			end(rapid.SampledFrom(running).Draw(t, "which"))
		default:
			var all []int
			for j, s := range spans {
				if s != nil {
					all = append(all, j)
				}
			}
			s := &live{ctx: context.Background(), parent: -1}
			if len(all) > 0 && rapid.IntRange(0, 4).Draw(t, "root") > 0 {
				s.parent = rapid.SampledFrom(all).Draw(t, "parent")
				s.ctx = spans[s.parent].ctx
			}
			var args []interface{}
			for j := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "args"); j > 0; j-- {
				if rapid.Bool().Draw(t, "raw") {
					args = append(args, raw(kit.Text(t, "arg")))
				} else {
					args = append(args, kit.Text(t, "arg"))
				}
			}
			f := rapid.SampledFrom(funcs).Draw(t, "f")
			if s.parent < 0 {
				if rapid.Bool().Draw(t, "remote") {
					parents, on := []int64{0, 5, -7}, tr
					if !nested && len(ids) > 0 && rapid.Bool().Draw(t, "known parent") {
						// from another process, which calls us back
						parents = ids
						if rapid.Bool().Draw(t, "own trace") {
							on = monkit.NewTrace(tr.Id())
						}
					}
					s.exit = f.RemoteTrace(&s.ctx, rapid.SampledFrom(parents).Draw(t, "remote parent"), on, args...)
				} else {
					s.exit = f.Task(&s.ctx, args...)
				}
			} else {
				spans[s.parent].open++
				s.exit = f.Task(&s.ctx, args...)
			}
			s.span = monkit.SpanFromCtx(s.ctx)
			for j := rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "notes"); j > 0; j-- {
				s.span.Annotate(kit.Text(t, "note"), kit.Text(t, "value"))
			}
			spans = append(spans, s)
			ids = append(ids, s.span.Id())
		}
	}
	for j := len(spans) - 1; j >= 0; j-- {
		if spans[j] != nil && (nested || rapid.IntRange(0, 3).Draw(t, "leave") > 0) {
			sleep()
			end(j)
		}
	}
	out := obs.done
	// A part of the trace, in any order.
	if len(out) > 1 && !nested {
		out = out[:rapid.IntRange(len(out)/2, len(out)).Draw(t, "keep")]
	}
	for i := len(out) - 1; i > 0; i-- {
		j := (i * 7919) % (i + 1)
		if len(out) < 40 {
			j = rapid.IntRange(0, i).Draw(t, "swap")
		}
		out[i], out[j] = out[j], out[i]
	}
	for _, s := range out {
		p, ok := s.Span.ParentId()
		c.Logf("span %d parent %d %v %v-%v err %v panic %v %s %q", s.Span.Id(), p, ok, s.Span.Start().UnixNano(), s.Finish.UnixNano(), s.Err, s.Panicked, s.Span.Func().FullName(), s.Span.Args())
	}
	return out
}

// clean is what is left of text in XML.
func clean(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r == 0x09 || r == 0x0A || r == 0x0D || r >= 0x20 && r <= 0xD7FF || r >= 0xE000 && r <= 0xFFFD || r >= 0x10000 && r <= 0x10FFFF {
			b.WriteRune(r)
		} else {
			b.WriteRune('\uFFFD')
		}
	}
	return b.String()
}

type element struct {
	name     string
	attrs    map[string]string
	text     string
	children []*element
}

var known = map[string]bool{"svg": true, "style": true, "script": true, "defs": true, "marker": true, "path": true, "g": true, "clipPath": true, "rect": true, "text": true, "line": true}

func parseXML(t *rapid.T, data []byte) *element {
	if !utf8.Valid(data) {
		t.Fatalf("not valid UTF-8")
	}
	if !bytes.HasPrefix(data, []byte("<?xml")) {
		t.Fatalf("no XML prolog: %q", data[:min(len(data), 60)])
	}
	d := xml.NewDecoder(bytes.NewReader(data))
	var stack []*element
	var root *element
	for {
		tok, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			t.Fatalf("not well-formed: %v", err)
		}
		switch tok := tok.(type) {
		case xml.StartElement:
			e := &element{name: tok.Name.Local, attrs: map[string]string{}}
			for _, a := range tok.Attr {
				if _, dup := e.attrs[a.Name.Local]; dup && a.Name.Space == "" {
					t.Fatalf("attribute %s twice", a.Name.Local)
				}
				e.attrs[a.Name.Local] = a.Value
			}
			if !known[e.name] {
				t.Fatalf("unexpected element %q", e.name)
			}
			if len(stack) == 0 {
				if root != nil {
					t.Fatalf("two root elements")
				}
				root = e
			} else {
				p := stack[len(stack)-1]
				p.children = append(p.children, e)
			}
			stack = append(stack, e)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) > 0 {
				stack[len(stack)-1].text += string(tok)
			}
		}
	}
	if root == nil || root.name != "svg" {
		t.Fatalf("no svg element")
	}
	return root
}

func (e *element) walk(f func(*element)) {
	f(e)
	for _, c := range e.children {
		c.walk(f)
	}
}

func (e *element) num(t *rapid.T, attr string) int {
	n, err := strconv.Atoi(e.attrs[attr])
	if err != nil {
		t.Fatalf("%s %s=%q", e.name, attr, e.attrs[attr])
	}
	return n
}

// jsCall reads name('a', 'b', ...);
func jsCall(t *rapid.T, s string) (name string, args []string) {
	i := strings.IndexByte(s, '(')
	if i < 0 {
		t.Fatalf("script %q", s)
	}
	name = s[:i]
	i++
	for {
		for i < len(s) && s[i] == ' ' {
			i++
		}
		if i >= len(s) || s[i] != '\'' {
			t.Fatalf("script %q: no string at %d", s, i)
		}
		i++
		var b strings.Builder
		for {
			if i >= len(s) {
				t.Fatalf("script %q: unterminated string", s)
			}
			r, n := utf8.DecodeRuneInString(s[i:])
			i += n
			if r == '\'' {
				break
			}
			if r == '\n' || r == '\r' || r == '\u2028' || r == '\u2029' {
				t.Fatalf("script %q: line break in a string", s)
			}
			if r != '\\' {
				b.WriteRune(r)
				continue
			}
			r, n = utf8.DecodeRuneInString(s[i:])
			i += n
			switch r {
			case 'n':
				b.WriteByte('\n')
			case 'r':
				b.WriteByte('\r')
			case 't':
				b.WriteByte('\t')
			case 'u', 'x':
				w := 4
				if r == 'x' {
					w = 2
				}
				v, err := strconv.ParseUint(s[i:i+w], 16, 32)
				if err != nil {
					t.Fatalf("script %q: escape", s)
				}
				i += w
				b.WriteRune(rune(v))
			case '\\', '\'', '"', '/':
				b.WriteRune(r)
			default:
				t.Fatalf("script %q: escape \\%c", s, r)
			}
		}
		args = append(args, b.String())
		if strings.HasPrefix(s[i:], ",") {
			i++
			continue
		}
		if s[i:] != ");" {
			t.Fatalf("script %q goes on with %q", s, s[i:])
		}
		return name, args
	}
}

type bar struct {
	x, y, w, h int
	span       *collect.FinishedSpan
	g          *element
}

// near checks got against the exact proportion num*1200/den.
func near(got int, num, den int64) bool {
	if den <= 0 {
		return got == 0
	}
	exact := new(big.Int).Mul(big.NewInt(num), big.NewInt(1200))
	exact.Div(exact, big.NewInt(den))
	e := int(exact.Int64())
	return got >= e-1 && got <= e+1
}

func drawing(t *rapid.T, c *kit.Case, spans []*collect.FinishedSpan, data []byte, nested bool) {
	root := parseXML(t, data)
	width, height := root.num(t, "width"), root.num(t, "height")
	ids := map[string]int{}
	groups := map[string]*element{}
	named := map[string]*element{}
	root.walk(func(e *element) {
		if id, ok := e.attrs["id"]; ok {
			ids[id]++
			named[id] = e
		}
		if e.name == "g" && strings.HasPrefix(e.attrs["id"], "id-") {
			groups[e.attrs["id"]] = e
		}
	})
	for id, n := range ids {
		if n != 1 {
			t.Fatalf("id %q used %d times", id, n)
		}
	}
	if len(groups) != len(spans) {
		t.Fatalf("%d bars for %d spans", len(groups), len(spans))
	}
	byID := map[int64]*bar{}
	var minStart, maxEnd int64
	for i, s := range spans {
		if v := s.Span.Start().UnixNano(); i == 0 || v < minStart {
			minStart = v
		}
		if v := s.Finish.UnixNano(); i == 0 || v > maxEnd {
			maxEnd = v
		}
	}
	total := maxEnd - minStart
	var bars []*bar
	for _, s := range spans {
		id := s.Span.Id()
		g := groups[fmt.Sprint("id-", id)]
		if g == nil {
			t.Fatalf("no bar for span %d", id)
		}
		var rect, label *element
		for _, e := range g.children {
			switch e.name {
			case "rect":
				rect = e
			case "text":
				label = e
			}
		}
		if rect == nil || label == nil {
			t.Fatalf("span %d has no bar or label", id)
		}
		b := &bar{rect.num(t, "x"), rect.num(t, "y"), rect.num(t, "width"), rect.num(t, "height"), s, g}
		bars = append(bars, b)
		byID[id] = b
		start, finish := s.Span.Start().UnixNano()-minStart, s.Finish.UnixNano()-minStart
		if !near(b.x, start, total) {
			t.Fatalf("span %d at %d, want %d/%d of 1200", id, b.x, start, total)
		}
		if b.w < 1 || b.w > 1 && !near(b.x+b.w, finish, total) || b.w == 1 && total > 0 && !near(b.x, finish, total) && !near(b.x+1, finish, total) {
			t.Fatalf("span %d from %d is %d wide, want until %d/%d of 1200", id, b.x, b.w, finish, total)
		}
		if b.x < 0 || b.x > width || b.x+b.w > width+1 || b.y < 0 || b.h < 1 || b.y+b.h > height {
			t.Fatalf("span %d at %d,%d size %d,%d is outside of %dx%d", id, b.x, b.y, b.w, b.h, width, height)
		}
		if x, y := label.num(t, "x"), label.num(t, "y"); x < b.x || x > b.x+20 || y <= b.y || y > b.y+b.h {
			t.Fatalf("label of span %d at %d,%d, bar at %d,%d", id, x, y, b.x, b.y)
		}
		if clip := label.attrs["clip-path"]; clip != "" {
			e := named[strings.TrimSuffix(strings.TrimPrefix(clip, "url(#"), ")")]
			if e == nil || e.name != "clipPath" || len(e.children) != 1 || e.children[0].name != "rect" {
				t.Fatalf("span %d: label clipped by %q, which does not exist", id, clip)
			}
			if r := e.children[0]; r.num(t, "x") != b.x || r.num(t, "y") != b.y || r.num(t, "width") != b.w || r.num(t, "height") != b.h {
				t.Fatalf("span %d: label clipped to %v, bar at %d,%d size %d,%d", id, r.attrs, b.x, b.y, b.w, b.h)
			}
		}
		want := "rgb(128,128,255)"
		switch {
		case s.Panicked:
			want = "rgb(255,0,0)"
		case canceled(s.Err):
			want = "rgb(255,255,0)"
		case s.Err != nil:
			want = "rgb(255,144,0)"
		}
		if rect.attrs["fill"] != want {
			t.Fatalf("span %d (err %v, panicked %v) is %s, want %s", id, s.Err, s.Panicked, rect.attrs["fill"], want)
		}
		name := s.Span.Func().FullName()
		args := strings.Join(s.Span.Args(), " ")
		dur := s.Finish.Sub(s.Span.Start())
		if want := clean(fmt.Sprintf("%s(%s) (%s)", name, args, dur)); label.text != want {
			t.Fatalf("label %q, want %q", label.text, want)
		}
		fn, jsArgs := jsCall(t, g.attrs["onmouseover"])
		parent := "0"
		if p, ok := s.Span.ParentId(); ok {
			for _, o := range spans {
				if o.Span.Id() == p {
					parent = fmt.Sprint(p)
				}
			}
		}
		tip := clean(fmt.Sprintf("%s(%s) Duration:%s Started:%s", name, args, dur, time.Duration(start)))
		if fn != "mouseover" || len(jsArgs) != 3 || jsArgs[0] != fmt.Sprint(id) || jsArgs[1] != parent || jsArgs[2] != tip {
			t.Fatalf("tooltip %s %q, want %d %s %q", fn, jsArgs, id, parent, tip)
		}
		if want := "func parent-" + parent; g.attrs["class"] != want {
			t.Fatalf("span %d has class %q, want %q", id, g.attrs["class"], want)
		}
		for _, attr := range []string{"onmouseout", "onclick"} {
			if _, a := jsCall(t, g.attrs[attr]); len(a) != 2 || a[0] != fmt.Sprint(id) || a[1] != parent {
				t.Fatalf("%s of span %d: %q", attr, id, a)
			}
		}
	}
	for _, b := range bars {
		p, ok := b.span.Span.ParentId()
		if !ok || byID[p] == nil {
			continue
		}
		var line *element
		b.g.walk(func(e *element) {
			if e.name == "line" {
				line = e
			}
		})
		if line == nil {
			t.Fatalf("span %d has no link", b.span.Span.Id())
		}
		pb := byID[p]
		x1, y1, x2, y2 := line.num(t, "x1"), line.num(t, "y1"), line.num(t, "x2"), line.num(t, "y2")
		if x1 != b.x || x2 != pb.x || y1 < b.y || y1 > b.y+b.h || y2 < pb.y || y2 > pb.y+pb.h {
			t.Fatalf("link of span %d from %d,%d to %d,%d; bar at %d,%d, parent at %d,%d", b.span.Span.Id(), x1, y1, x2, y2, b.x, b.y, pb.x, pb.y)
		}
		c.Label("link")
	}
	if nested {
		for i, a := range bars {
			for _, b := range bars[:i] {
				if a.y+a.h <= b.y || b.y+b.h <= a.y {
					continue
				}
				if a.span.Finish.After(b.span.Span.Start()) && b.span.Finish.After(a.span.Span.Start()) ||
					a.span.Span.Start().Equal(b.span.Span.Start()) {
					t.Fatalf("bars of spans %d and %d overlap", a.span.Span.Id(), b.span.Span.Id())
				}
			}
		}
	}
}

func canceled(err error) bool {
	for {
		if w, ok := err.(wrapped); ok {
			err = w.err
			continue
		}
		return err == context.Canceled
	}
}

// TestFake draws traces recorded in virtual time.
func TestFake(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		nested := rapid.Bool().Draw(t, "nested")
		spans := record(t, c, nested)
		var buf bytes.Buffer
		var err error
		if rec := kit.Safely(func() { err = present.SpansToSVG(&buf, append([]*collect.FinishedSpan{}, spans...)) }); rec != nil {
			t.Fatalf("panic: %v", rec)
		}
		if err != nil {
			t.Fatalf("%v", err)
		}
		drawing(t, c, spans, buf.Bytes(), nested)
		list(t, spans)
		c.NonTrivialIf(len(spans) > 2)
		c.LabelIf(len(spans) == 0, "empty")
		c.LabelIf(nested, "nested")
	})
}

func utf(s string) string {
	b, _ := json.Marshal(s)
	var out string
	_ = json.Unmarshal(b, &out)
	return out
}

// list checks the JSON rendering.
func list(t *rapid.T, spans []*collect.FinishedSpan) {
	var buf bytes.Buffer
	if err := present.SpansToJSON(&buf, append([]*collect.FinishedSpan{}, spans...)); err != nil {
		t.Fatalf("%v", err)
	}
	var got []struct {
		Id       int64
		ParentId *int64 `json:"parent_id"`
		Func     struct{ Package, Name string }
		Trace    struct{ Id int64 }
		Start    int64
		Finish   int64
		Orphaned bool
		Err      string
		Panicked bool
		Args     []string
		Notes    [][]string `json:"annotations"`
	}
	if err := json.Unmarshal(buf.Bytes(), &got); err != nil {
		t.Fatalf("not JSON: %v", err)
	}
	if len(got) != len(spans) {
		t.Fatalf("%d entries for %d spans", len(got), len(spans))
	}
	byID := map[int64]*collect.FinishedSpan{}
	for _, s := range spans {
		byID[s.Span.Id()] = s
	}
	for _, e := range got {
		f := byID[e.Id]
		if f == nil {
			t.Fatalf("span %d twice or invented", e.Id)
		}
		delete(byID, e.Id)
		s := f.Span
		parent, gotParent := "none", "none"
		if p, ok := s.ParentId(); ok {
			parent = fmt.Sprint(p)
		}
		if e.ParentId != nil {
			gotParent = fmt.Sprint(*e.ParentId)
		}
		msg := ""
		if f.Err != nil {
			msg = utf(f.Err.Error())
		}
		args, notes := []string{}, [][]string{}
		for _, a := range s.Args() {
			args = append(args, utf(fmt.Sprintf("%#v", a)))
		}
		for _, a := range s.Annotations() {
			notes = append(notes, []string{utf(a.Name), utf(a.Value)})
		}
		want := fmt.Sprintf("%q %q %s %d %d %d %v %q %v %q %q", utf(s.Func().Scope().Name()), utf(s.Func().ShortName()), parent, s.Trace().Id(), s.Start().UnixNano(), f.Finish.UnixNano(), s.Orphaned(), msg, f.Panicked, args, notes)
		have := fmt.Sprintf("%q %q %s %d %d %d %v %q %v %q %q", e.Func.Package, e.Func.Name, gotParent, e.Trace.Id, e.Start, e.Finish, e.Orphaned, e.Err, e.Panicked, e.Args, e.Notes)
		if have != want {
			t.Fatalf("entry\n%s\nwant\n%s", have, want)
		}
	}
}

var errBoom = errors.New("boom")

type broken struct {
	left int
	once bool // later writes succeed again
}

func (b *broken) Write(p []byte) (int, error) {
	if b.left < len(p) {
		n := b.left
		b.left = 0
		if b.once {
			b.left = 1 << 40
		}
		return n, errBoom
	}
	b.left -= len(p)
	return len(p), nil
}

// TestFakeWriter draws to writers that fail.
func TestFakeWriter(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		spans := record(t, c, false)
		for _, f := range []func(io.Writer, []*collect.FinishedSpan) error{present.SpansToSVG, present.SpansToJSON} {
			var buf bytes.Buffer
			if err := f(&buf, spans); err != nil {
				t.Fatalf("%v", err)
			}
			at := rapid.IntRange(0, buf.Len()/2).Draw(t, "fails at") // rows, and so lengths, vary
			if err := f(&broken{at, rapid.Bool().Draw(t, "once")}, spans); err != errBoom {
				t.Fatalf("a writer failing at byte %d gives %v", at, err)
			}
		}
		c.NonTrivialIf(len(spans) > 1)
	})
}
