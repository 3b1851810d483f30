// C14: structs export exactly their numeric and boolean fields.
package c14

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
	"unicode"

	monkit "github.com/spacemonkeygo/monkit/v3"
	"pgregory.net/rapid"

	"verif.local/harness/kit"
)

func TestMain(m *testing.M) { kit.Main(m) }

type (
	namedInt    int
	namedUint8  uint8
	namedFloat  float32
	namedBool   bool
	namedString string
	namedSlice  []int
	namedIface  interface{ Foo() }
	inner       struct {
		A int
		B namedBool
		C string
	}
	Emb struct {
		X float64
		y int
	}
	withHidden struct {
		A      int
		hidden *int
		nested struct{ Z int }
		iface  interface{}
		P      *inner
		mu     sync.Mutex
		E      error
	}
	embedding struct {
		Emb
		*inner
		Own uint16
	}
	tagged struct {
		Emb    `monkit:"ignore"`
		*inner `monkit:"x,ignore"`
		Own    int
	}
	tagged2 struct {
		Emb `monkit:"ignored"`
		Own int `monkit:"ignore"`
	}
	recursive struct {
		V    int
		Next *recursive
	}
	methods struct {
		V int
	}
	deepPtr struct {
		P ***int
		Q **inner
	}
)

func (methods) Foo()            {}
func (m *methods) Bar() int     { return m.V }
func (n namedInt) Foo()         {}
func (n namedInt) Float() int64 { return 99 }

// gen is a generated value of some type, and what it exports under a name.
type gen struct {
	typ  reflect.Type
	val  reflect.Value
	want func(name string, out map[string]float64)
	desc string
	live bool // exports something
}

func nothing(string, map[string]float64) {}

func leaf(v interface{}, f float64) gen {
	return gen{reflect.TypeOf(v), reflect.ValueOf(v), func(name string, out map[string]float64) { out[name] = f }, fmt.Sprintf("%T(%v)", v, v), true}
}

func other(v interface{}) gen {
	return gen{reflect.TypeOf(v), reflect.ValueOf(v), nothing, fmt.Sprintf("%T", v), false}
}

func b2f(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

func drawLeaf(t *rapid.T) gen {
	switch rapid.IntRange(0, 17).Draw(t, "kind") {
	case 0:
		v := rapid.Int().Draw(t, "v")
		return leaf(v, float64(v))
	case 1:
		v := rapid.Int8().Draw(t, "v")
		return leaf(v, float64(v))
	case 2:
		v := rapid.Int16().Draw(t, "v")
		return leaf(v, float64(v))
	case 3:
		v := rapid.Int32().Draw(t, "v")
		return leaf(v, float64(v))
	case 4:
		v := rapid.Int64().Draw(t, "v")
		return leaf(v, float64(v))
	case 5:
		v := rapid.Uint().Draw(t, "v")
		return leaf(v, float64(v))
	case 6:
		v := rapid.Uint8().Draw(t, "v")
		return leaf(v, float64(v))
	case 7:
		v := rapid.Uint16().Draw(t, "v")
		return leaf(v, float64(v))
	case 8:
		v := rapid.Uint32().Draw(t, "v")
		return leaf(v, float64(v))
	case 9:
		v := rapid.Uint64().Draw(t, "v")
		return leaf(v, float64(v))
	case 10:
		v := uintptr(rapid.Uint32().Draw(t, "v"))
		return leaf(v, float64(v))
	case 11:
		v := rapid.Float32().Draw(t, "v")
		return leaf(v, float64(v))
	case 12:
		v := rapid.SampledFrom([]float64{0, math.NaN(), math.Inf(1), -1.5, math.MaxFloat64, rapid.Float64().Draw(t, "f")}).Draw(t, "v")
		return leaf(v, v)
	case 13:
		v := rapid.Bool().Draw(t, "v")
		return leaf(v, b2f(v))
	case 14:
		v := rapid.Bool().Draw(t, "v")
		return leaf(namedBool(v), b2f(v))
	case 15:
		v := rapid.Int32().Draw(t, "v")
		return leaf(namedInt(v), float64(v))
	case 16:
		v := rapid.Int64().Draw(t, "v")
		return leaf(time.Duration(v), float64(v))
	default:
		v := rapid.Uint8().Draw(t, "v")
		return leaf(namedUint8(v), float64(v))
	}
}

func drawOther(t *rapid.T) gen {
	x := 5
	opts := []gen{
		other("12"), other(""), other(namedString("3")), other([]int{1, 2}), other([]float64(nil)), other(namedSlice{1}),
		other(map[string]int{"a": 1}), other(map[string]int(nil)), other(make(chan int)), other((chan int)(nil)), other(func() {}), other((func())(nil)),
		other(complex(1, 2)), other(complex64(1)), other([2]int{1, 2}), other([0]bool{}), other([]byte("7")), other([1]bool{true}),
		{reflect.TypeOf((*interface{})(nil)).Elem(), reflect.Zero(reflect.TypeOf((*interface{})(nil)).Elem()), nothing, "nil interface", false},
		{reflect.TypeOf((*interface{})(nil)).Elem(), reflect.ValueOf("s"), nothing, "interface with a string", false},
		{reflect.TypeOf((*interface{})(nil)).Elem(), reflect.ValueOf(x), nothing, "interface with an int", false},
		{reflect.TypeOf((*interface{})(nil)).Elem(), reflect.ValueOf(&x), nothing, "interface with a pointer", false},
		{reflect.TypeOf((*interface{})(nil)).Elem(), reflect.ValueOf(true), nothing, "interface with a bool", false},
		{reflect.TypeOf((*interface{})(nil)).Elem(), reflect.ValueOf(inner{A: 1}), nothing, "interface with a struct", false},
		{reflect.TypeOf((*interface{})(nil)).Elem(), reflect.ValueOf(&inner{A: 1}), nothing, "interface with a pointer to a struct", false},
		{reflect.TypeOf((*error)(nil)).Elem(), reflect.ValueOf(syscall.ENOENT), nothing, "error that is a number", false},
		{reflect.TypeOf((*namedIface)(nil)).Elem(), reflect.ValueOf(methods{7}), nothing, "named interface with a struct", false},
		{reflect.TypeOf((*namedIface)(nil)).Elem(), reflect.ValueOf(namedInt(7)), nothing, "named interface with a number", false},
		{reflect.TypeOf((*error)(nil)).Elem(), reflect.Zero(reflect.TypeOf((*error)(nil)).Elem()), nothing, "nil error", false},
		other((*int)(nil)), other((*bool)(nil)), other((*inner)(nil)), other((**inner)(nil)), other((*time.Time)(nil)), other((*recursive)(nil)),
		other(reflect.ValueOf(&x).UnsafePointer()), other(struct{}{}), other(&struct{}{}),
	}
	return rapid.SampledFrom(opts).Draw(t, "other")
}

// drawStatic draws values of declared types.
func drawStatic(t *rapid.T) gen {
	n := rapid.IntRange(-3, 9).Draw(t, "n")
	b := rapid.Bool().Draw(t, "b")
	in := inner{n, namedBool(b), "x"}
	wantIn := func(p string, out map[string]float64) { out[p+".A"], out[p+".B"] = float64(n), b2f(b) }
	mk := func(v interface{}, want func(string, map[string]float64)) gen {
		return gen{reflect.TypeOf(v), reflect.ValueOf(v), want, fmt.Sprintf("%T n=%d", v, n), true}
	}
	pn := &n
	ppn := &pn
	pin := &in
	switch rapid.IntRange(0, 12).Draw(t, "static") {
	case 0:
		return mk(in, wantIn)
	case 1:
		return mk(Emb{float64(n), 1}, func(p string, out map[string]float64) { out[p+".X"] = float64(n) })
	case 2:
		return mk(&withHidden{A: n, P: &in, iface: 5, hidden: &n}, func(p string, out map[string]float64) { out[p+".A"] = float64(n); wantIn(p+".P", out) })
	case 3:
		return mk(&withHidden{A: n}, func(p string, out map[string]float64) { out[p+".A"] = float64(n) })
	case 4:
		return mk(embedding{Emb: Emb{X: 2}, Own: uint16(n & 7)}, func(p string, out map[string]float64) { out[p+".Emb.X"] = 2; out[p+".Own"] = float64(n & 7) })
	case 5:
		depth := rapid.SampledFrom([]int{1, 3, 3, 9, 40}).Draw(t, "levels")
		var v *recursive
		for i := depth - 1; i >= 0; i-- {
			v = &recursive{n + i, v}
		}
		return mk(*v, func(p string, out map[string]float64) {
			for i := 0; i < depth; i++ {
				out[p+strings.Repeat(".Next", i)+".V"] = float64(n + i)
			}
		})
	case 6:
		return mk(methods{n}, func(p string, out map[string]float64) { out[p+".V"] = float64(n) })
	case 7:
		return mk(deepPtr{&ppn, &pin}, func(p string, out map[string]float64) { out[p+".P"] = float64(n); wantIn(p+".Q", out) })
	case 8:
		var nilp *int
		ppnil := &nilp
		var nili *inner
		return mk(deepPtr{&ppnil, &nili}, nothing)
	case 11:
		return mk(tagged{Emb: Emb{X: 3}, inner: &in, Own: n}, func(p string, out map[string]float64) { out[p+".Own"] = float64(n) })
	case 12:
		return mk(&tagged2{Emb: Emb{X: 3}, Own: n}, func(p string, out map[string]float64) { out[p+".Emb.X"] = 3 })
	case 9:
		return mk(time.Unix(int64(n), 0), nothing)
	default:
		var a atomic.Int64
		return mk(&a, nothing)
	}
}

var names = []string{"A", "B", "Ab", "AB", "Value", "X1", "Éa", "A_b", "Count", "Z", "Rate", "Name"}
var tags = []string{"", "", "", "", "", `monkit:"ignore"`, `monkit:"x,ignore"`, `monkit:"ignore,x"`, `json:"a" monkit:"ignore"`, `monkit:"ignored"`, `monkit:"IGNORE"`, `json:"ignore"`, `monkit:""`, `monkit:"a,b"`, `monkit:"x,ignore,y"`}

func ignored(tag string) bool {
	v := reflect.StructTag(tag).Get("monkit")
	return strings.Contains(","+v+",", ",ignore,")
}

func drawStruct(t *rapid.T, depth int) gen {
	n := rapid.IntRange(0, 6).Draw(t, "fields")
	many := 0
	if depth > 0 {
		many = kit.Some(t, "more fields", 0, 0)
	}
	var fields []reflect.StructField
	var vals []gen
	var skip []bool
	var desc []string
	used := map[string]bool{}
	live := false
	for i := 0; i < n; i++ {
		name := rapid.SampledFrom(names).Draw(t, "name")
		if used[name] {
			continue
		}
		used[name] = true
		tag := rapid.SampledFrom(tags).Draw(t, "tag")
		g := drawField(t, depth)
		fields = append(fields, reflect.StructField{Name: name, Type: g.typ, Tag: reflect.StructTag(tag)})
		vals = append(vals, g)
		skip = append(skip, ignored(tag))
		live = live || g.live && !ignored(tag)
		desc = append(desc, fmt.Sprintf("%s %s `%s`", name, g.desc, tag))
	}
	for i := 0; i < many; i++ {
		g := leaf(i, float64(i))
		name := fmt.Sprint("Field", i)
		fields = append(fields, reflect.StructField{Name: name, Type: g.typ})
		vals = append(vals, g)
		skip = append(skip, false)
		live = true
	}
	if many > 0 {
		desc = append(desc, fmt.Sprintf("and %d ints", many))
	}
	typ := reflect.StructOf(fields)
	v := reflect.New(typ).Elem()
	for i := range fields {
		v.Field(i).Set(vals[i].val)
	}
	return gen{typ, v, func(p string, out map[string]float64) {
		for i, f := range fields {
			if skip[i] {
				continue
			}
			if p == "" {
				vals[i].want(f.Name, out)
			} else {
				vals[i].want(p+"."+f.Name, out)
			}
		}
	}, "{" + strings.Join(desc, "; ") + "}", live}
}

func drawField(t *rapid.T, depth int) gen {
	var g gen
	switch k := rapid.IntRange(0, 9).Draw(t, "what"); {
	case k < 4:
		g = drawLeaf(t)
	case k < 6:
		g = drawOther(t)
	case k < 7:
		g = drawStatic(t)
	case depth > 0:
		g = drawStruct(t, depth-1)
	default:
		g = drawLeaf(t)
	}
	return pointers(t, g)
}

// pointers wraps the value in some pointers.
func pointers(t *rapid.T, g gen) gen {
	if g.typ.Kind() == reflect.Interface || g.typ.Kind() == reflect.UnsafePointer {
		return g
	}
	for k := rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 3, 4, 5, 7, 12}).Draw(t, "pointers"); k > 0; k-- {
		p := reflect.New(g.typ)
		p.Elem().Set(g.val)
		g.val, g.typ, g.desc = p, p.Type(), "*"+g.desc
	}
	return g
}

func hidden(path string) bool {
	for _, part := range strings.Split(path, ".") {
		for _, r := range part {
			if !unicode.IsUpper(r) {
				return true
			}
			break
		}
	}
	return false
}

func collect(t *rapid.T, s monkit.StatSource, key monkit.SeriesKey) map[string]float64 {
	out := map[string]float64{}
	s.Stats(func(k monkit.SeriesKey, field string, val float64) {
		if k.String() != key.String() {
			t.Fatalf("key %v, want %v", k, key)
		}
		if hidden(field) { // fields that are not exported are not specified
			return
		}
		if _, ok := out[field]; ok {
			t.Fatalf("%s exported twice", field)
		}
		out[field] = val
	})
	return out
}

func compare(t *rapid.T, got, want map[string]float64) {
	var keys []string
	for k := range got {
		keys = append(keys, k)
	}
	for k := range want {
		if _, ok := got[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		g, ok1 := got[k]
		w, ok2 := want[k]
		if ok1 != ok2 || g != w && !(math.IsNaN(g) && math.IsNaN(w)) {
			t.Fatalf("field %q: exported %v %v, want %v %v", k, ok1, g, ok2, w)
		}
	}
}

func TestModel(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		key := monkit.NewSeriesKey("m").WithTag("a", "b")
		var g gen
		top := rapid.IntRange(0, 9).Draw(t, "top")
		switch {
		case top == 0:
			g = drawOther(t)
			if g.typ.Kind() == reflect.Interface {
				// what it holds would be passed instead
				g = other("interface")
			}
			g = pointers(t, g)
		case top == 1:
			// not a struct: yields nothing
			g = pointers(t, drawLeaf(t))
			g.want = nothing
		default:
			g = pointers(t, drawStruct(t, 3))
		}
		c.Logf("%s", g.desc)
		want := map[string]float64{}
		g.want("", want)
		var v interface{}
		if g.typ.Kind() != reflect.Interface || !g.val.IsZero() {
			v = g.val.Interface()
		}
		src := monkit.StatSourceFromStruct(key, v)
		compare(t, collect(t, src, key), want)
		compare(t, collect(t, src, key), want) // reading changes nothing
		// the same through a metric
		sv := monkit.NewStructVal(key)
		if n := len(collect(t, sv, key)); n != 0 {
			t.Fatalf("exports %d values before anything was observed", n)
		}
		sv.Observe(v)
		compare(t, collect(t, sv, key), want)
		c.LabelIf(len(want) > 0, "exports something")
		nested := false
		for k := range want {
			nested = nested || strings.Contains(k, ".")
		}
		c.LabelIf(nested, "nested")
		c.NonTrivialIf(len(want) > 1)
	})
}

// TestModelLive: an observed pointer is read when the export happens.
func TestModelLive(t *testing.T) {
	kit.Check(t, func(t *rapid.T, c *kit.Case) {
		key := monkit.NewSeriesKey("m")
		v := &embedding{Emb: Emb{X: 1}, inner: &inner{}}
		sv := monkit.NewStructVal(key)
		sv.Observe(v)
		for n := rapid.IntRange(1, 5).Draw(t, "n"); n > 0; n-- {
			v.X = float64(rapid.IntRange(0, 9).Draw(t, "x"))
			v.Own = uint16(rapid.IntRange(0, 9).Draw(t, "own"))
			c.Logf("%v %v", v.X, v.Own)
			compare(t, collect(t, sv, key), map[string]float64{"Emb.X": v.X, "Own": float64(v.Own)})
		}
		c.NonTrivial()
	})
}
