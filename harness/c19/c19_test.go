// C19: trace headers round-trip, hostile headers are harmless.
package c19

import (
	"fmt"
	"math"
	"net/http"
	"reflect"
	"strconv"
	"strings"
	"testing"

	mhttp "github.com/spacemonkeygo/monkit/v3/http"
	"pgregory.net/rapid"

	"verif.local/harness/kit"
)

func TestMain(m *testing.M) { kit.Main(m) }

// plain is a header type of the user's own.
type plain map[string]string

func (p plain) Get(k string) string { return p[http.CanonicalHeaderKey(k)] }
func (p plain) Set(k, v string)     { p[http.CanonicalHeaderKey(k)] = v }

type header interface {
	Get(string) string
	Set(string, string)
}

func newHeader(t *rapid.T) header {
	if rapid.Bool().Draw(t, "own header type") {
		return plain{}
	}
	return http.Header{}
}

func id(t *rapid.T, label string) int64 {
	return rapid.OneOf(
		rapid.SampledFrom([]int64{0, 1, -1, 15, 16, math.MaxInt64, math.MinInt64, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt32, math.MinInt32, -16, 1 << 60}),
		rapid.Int64(),
		rapid.Map(rapid.Uint8Range(0, 63), func(b uint8) int64 { return 1 << b }),
		rapid.Map(rapid.Uint8Range(0, 63), func(b uint8) int64 { return -1 << b }),
	).Draw(t, label)
}

func str(p *int64) string {
	if p == nil {
		return "none"
	}
	return strconv.FormatInt(*p, 10)
}

func show(i mhttp.TraceInfo) string {
	return fmt.Sprintf("{trace %s parent %s sampled %v baggage %q}", str(i.TraceId), str(i.ParentId), i.Sampled, i.Baggage)
}

func sameID(a, b *int64) bool { return a == nil && b == nil || a != nil && b != nil && *a == *b }

// bagText draws text for baggage that its format can carry.
func bagText(t *rapid.T, label, not string) string {
	return kit.TextNo(t, label, not)
}

// TestModel writes trace information and reads it back.
func TestModel(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		h := newHeader(t)
		var in mhttp.TraceInfo
		if rapid.IntRange(0, 5).Draw(t, "trace id?") > 0 {
			v := id(t, "trace id")
			in.TraceId = &v
		}
		if rapid.IntRange(0, 5).Draw(t, "parent id?") > 0 {
			v := id(t, "parent id")
			in.ParentId = &v
		}
		in.Sampled = rapid.Bool().Draw(t, "sampled")
		var allowed []string
		want := map[string]string{}
		if rapid.Bool().Draw(t, "baggage?") {
			in.Baggage = map[string]string{}
			n := rapid.IntRange(0, 4).Draw(t, "baggage")
			if rapid.IntRange(0, 15).Draw(t, "much") == 0 {
				n *= 20
			}
			for i := n; i > 0; i-- {
				k, v := bagText(t, "key", ",="), bagText(t, "value", ",")
				in.Baggage[k] = v
			}
			keys := make([]string, 0, len(in.Baggage))
			for k := range in.Baggage {
				keys = append(keys, k)
			}
			sortStrings(keys)
			for _, k := range keys {
				if rapid.IntRange(0, 2).Draw(t, "allow") > 0 {
					allowed = append(allowed, k)
					want[k] = in.Baggage[k]
				}
			}
		}
		for i := rapid.IntRange(0, 2).Draw(t, "other allowed"); i > 0; i-- {
			k := bagText(t, "key", ",=")
			allowed = append(allowed, k)
			if v, ok := in.Baggage[k]; ok {
				want[k] = v
			}
		}
		c.Logf("%s allowed %q", show(in), allowed)
		before := show(in)
		rep := rapid.IntRange(1, 2).Draw(t, "times")
		for i := 0; i < rep; i++ {
			in.SetHeader(h)
		}
		if show(in) != before {
			t.Fatalf("writing changed %s to %s", before, show(in))
		}
		out := mhttp.TraceInfoFromHeader(h, allowed...)
		c.Logf("%s", show(out))
		if in.TraceId == nil || in.ParentId == nil {
			if out.TraceId != nil || out.ParentId != nil || len(out.Baggage) > 0 {
				t.Fatalf("%s read back as %s", show(in), show(out))
			}
			if in.Sampled != out.Sampled {
				t.Fatalf("sampling lost: %s read back as %s", show(in), show(out))
			}
			if h.Get("traceparent") != "" {
				t.Fatalf("ids written without ids: %q", h.Get("traceparent"))
			}
			c.Label("no ids")
			return
		}
		if !sameID(in.TraceId, out.TraceId) || !sameID(in.ParentId, out.ParentId) || in.Sampled != out.Sampled {
			t.Fatalf("%s read back as %s (%q)", show(in), show(out), h.Get("traceparent"))
		}
		if len(out.Baggage) != len(want) || len(want) > 0 && !reflect.DeepEqual(want, out.Baggage) {
			t.Fatalf("baggage %q read back as %q, want %q", in.Baggage, out.Baggage, want)
		}
		// Reading again gives the same, and independent, information.
		again := mhttp.TraceInfoFromHeader(h, allowed...)
		*out.TraceId, *out.ParentId = 7, 7
		if !sameID(in.TraceId, again.TraceId) || !sameID(in.ParentId, again.ParentId) {
			t.Fatalf("two readings share their ids: %s", show(again))
		}
		c.LabelIf(*in.TraceId < 0 || *in.ParentId < 0, "negative id")
		c.NonTrivialIf(len(in.Baggage) > 0 || *in.TraceId < 0 || *in.ParentId > math.MaxUint32)
	})
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// hexPart draws one part of a traceparent with its meaning; kind 0: a good
// number, 1: not one, 2: either reading is fine.
func hexPart(t *rapid.T, label string, good func(*rapid.T) uint64) (text string, val uint64, kind int) {
	switch rapid.IntRange(0, 9).Draw(t, label+" kind") {
	default:
		v := good(t)
		return fmt.Sprintf("%0*x", rapid.SampledFrom([]int{0, 2, 8, 16, 32}).Draw(t, "width"), v), v, 0
	case 7:
		return rapid.SampledFrom([]string{"", "g", "0x1", "x", " 1", "1 ", "+1", "1_0", "é", "0.1", "1e+3", "\x00", "00zz", "#", "1h", "%31", "1\n", "\xff"}).Draw(t, label), 0, 1
	case 8:
		n := rapid.IntRange(17, 40).Draw(t, "digits")
		return rapid.StringMatching("[1-9a-f]").Draw(t, "digit") + strings.Repeat(rapid.StringMatching("[0-9a-f]").Draw(t, "digit"), n-1), 0, 1
	case 9:
		return strings.ToUpper(fmt.Sprintf("%x", good(t))), 0, 2
	}
}

// TestModelHostile reads arbitrary headers.
func TestModelHostile(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		h := newHeader(t)
		kind := 0 // 0: well-formed, 1: malformed, 2: not specified
		var tp string
		var trace, parent uint64
		var sampled bool
		switch rapid.IntRange(0, 9).Draw(t, "traceparent") {
		case 0: // none
			kind = 3
		case 1:
			tp = kit.Text(t, "text")
			kind = 1
			if tp == "" {
				kind = 3
			}
		case 2: // wrong number of parts
			n := rapid.SampledFrom([]int{1, 2, 3, 5, 6, 40}).Draw(t, "parts")
			tp = strings.TrimSuffix(strings.Repeat("00-", n), "-")
			kind = 1
		default:
			var vt, tt, pt, ft string
			var v, f uint64
			var ks [4]int
			vt, v, ks[0] = hexPart(t, "version", func(t *rapid.T) uint64 {
				return uint64(rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 0, 1, 255, 16, 256, 1 << 32}).Draw(t, "version"))
			})
			if ks[0] == 0 && v != 0 {
				ks[0] = 1
			}
			any := func(t *rapid.T) uint64 { return uint64(id(t, "id")) }
			tt, trace, ks[1] = hexPart(t, "trace", any)
			pt, parent, ks[2] = hexPart(t, "parent", any)
			ft, f, ks[3] = hexPart(t, "flags", func(t *rapid.T) uint64 { return uint64(rapid.IntRange(0, 255).Draw(t, "flags")) })
			sampled = f&1 == 1
			tp = strings.Join([]string{vt, tt, pt, ft}, "-")
			for _, k := range ks {
				if k == 1 {
					kind = 1
				} else if k == 2 && kind == 0 {
					kind = 2
				}
			}
		}
		if tp != "" {
			h.Set("traceparent", tp)
		}
		var ts string
		wish := -1
		if rapid.Bool().Draw(t, "tracestate?") {
			n := rapid.IntRange(0, 4).Draw(t, "entries")
			var parts []string
			wish = 0
			for i := 0; i < n; i++ {
				p := rapid.SampledFrom([]string{"sampled=true", "sampled=false", "sampled", "a=b", "congo=t61rcWkgMzE", "", "sampled=1", "Sampled=True", "rojo=00f067aa0ba902b7"}).Draw(t, "entry")
				parts = append(parts, p)
				if p == "sampled=true" {
					wish = 1
				}
			}
			if rapid.IntRange(0, 4).Draw(t, "odd") == 0 {
				parts = append(parts, kit.Text(t, "entry"))
				wish = -1
			}
			ts = strings.Join(parts, ",")
			h.Set("tracestate", ts)
		} else {
			wish = 0
		}
		keys := []string{"a", "b", "k", "user", "", "a b", "é"}
		var bag []string
		vals := map[string]map[string]bool{}
		for i := rapid.IntRange(0, 5).Draw(t, "baggage"); i > 0; i-- {
			switch rapid.IntRange(0, 3).Draw(t, "entry kind") {
			case 0:
				bag = append(bag, kit.Text(t, "entry"))
			default:
				k, v := rapid.SampledFrom(keys).Draw(t, "key"), kit.Text(t, "value")
				bag = append(bag, k+"="+v)
			}
		}
		btext := strings.Join(bag, ",")
		for _, kv := range strings.Split(btext, ",") {
			if i := strings.IndexByte(kv, '='); i >= 0 {
				if vals[kv[:i]] == nil {
					vals[kv[:i]] = map[string]bool{}
				}
				vals[kv[:i]][kv[i+1:]] = true
			}
		}
		if len(bag) > 0 || rapid.Bool().Draw(t, "empty baggage") {
			h.Set("baggage", btext)
		}
		allowed := rapid.SliceOfN(rapid.SampledFrom(keys), 0, 4).Draw(t, "allowed")
		c.Logf("traceparent %q tracestate %q baggage %q allowed %q", tp, ts, btext, allowed)

		var out mhttp.TraceInfo
		if rec := kit.Safely(func() { out = mhttp.TraceInfoFromHeader(h, allowed...) }); rec != nil {
			t.Fatalf("panic: %v", rec)
		}
		c.Logf("%s", show(out))
		ok := map[string]bool{}
		for _, k := range allowed {
			ok[k] = true
		}
		for k, v := range out.Baggage {
			if !ok[k] {
				t.Fatalf("baggage key %q came through, allowed %q", k, allowed)
			}
			if !vals[k][v] && !trimmed(vals, k, v) {
				t.Fatalf("baggage %q=%q is not in %q", k, v, btext)
			}
		}
		switch kind {
		case 0:
			if out.TraceId == nil || out.ParentId == nil || *out.TraceId != int64(trace) || *out.ParentId != int64(parent) || out.Sampled != sampled {
				t.Fatalf("%q read as %s", tp, show(out))
			}
			for k := range ok {
				if len(vals[k]) > 0 {
					if _, found := out.Baggage[k]; !found {
						t.Fatalf("allowed baggage %q of %q is missing: %s", k, btext, show(out))
					}
					c.Label("baggage")
				}
			}
			c.NonTrivialIf(len(out.Baggage) > 0)
		case 1:
			if out.TraceId != nil || out.ParentId != nil || out.Sampled || len(out.Baggage) > 0 {
				t.Fatalf("malformed %q gives trace information %s", tp, show(out))
			}
			c.Label("malformed")
			c.NonTrivial()
		case 3:
			if out.TraceId != nil || out.ParentId != nil || len(out.Baggage) > 0 {
				t.Fatalf("no traceparent gives %s", show(out))
			}
			if wish >= 0 && out.Sampled != (wish == 1) {
				t.Fatalf("tracestate %q gives sampled %v", ts, out.Sampled)
			}
			c.Label("no traceparent")
		}
	})
}

// trimmed accepts readers that drop blanks around values.
func trimmed(vals map[string]map[string]bool, k, v string) bool {
	for key, vs := range vals {
		if strings.TrimSpace(key) != k {
			continue
		}
		for val := range vs {
			if strings.TrimSpace(val) == v {
				return true
			}
		}
	}
	return false
}
