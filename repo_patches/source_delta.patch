From ffbcc7a609b5c59f85f62ac01763bc3b23287843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:40 +0000
Subject: [PATCH 01/27] fix: quantiles of a reset distribution are those of an
 empty one

---
 distgen.go.m4 | 3 +++
 durdist.go    | 3 +++
 floatdist.go  | 3 +++
 intdist.go    | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/distgen.go.m4 b/distgen.go.m4
index 28e2889..7e5a2c0 100644
--- a/distgen.go.m4
+++ b/distgen.go.m4
@@ -129,6 +129,9 @@ func (d *_NAME_`Dist') Query(quantile float64) _TYPE_ {
 		rlen = int(d.Count)
 	}
 
+	if rlen < 1 {
+		return 0
+	}
 	if rlen < 2 {
 		return _TYPE_`(d.reservoir[0])'
 	}
diff --git a/durdist.go b/durdist.go
index 4d2a281..354021e 100644
--- a/durdist.go
+++ b/durdist.go
@@ -129,6 +129,9 @@ func (d *DurationDist) Query(quantile float64) time.Duration {
 		rlen = int(d.Count)
 	}
 
+	if rlen < 1 {
+		return 0
+	}
 	if rlen < 2 {
 		return time.Duration(d.reservoir[0])
 	}
diff --git a/floatdist.go b/floatdist.go
index 359eaa6..f90ccfa 100644
--- a/floatdist.go
+++ b/floatdist.go
@@ -128,6 +128,9 @@ func (d *FloatDist) Query(quantile float64) float64 {
 		rlen = int(d.Count)
 	}
 
+	if rlen < 1 {
+		return 0
+	}
 	if rlen < 2 {
 		return float64(d.reservoir[0])
 	}
diff --git a/intdist.go b/intdist.go
index 07817ac..050cc3d 100644
--- a/intdist.go
+++ b/intdist.go
@@ -128,6 +128,9 @@ func (d *IntDist) Query(quantile float64) int64 {
 		rlen = int(d.Count)
 	}
 
+	if rlen < 1 {
+		return 0
+	}
 	if rlen < 2 {
 		return int64(d.reservoir[0])
 	}
-- 
2.43.0


From e24b3273abed47e76f1c83cc7bb2f9f4c951185f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:41 +0000
Subject: [PATCH 02/27] fix: quantiles stay finite and within the observed
 range

---
 dist.go       | 13 +++++++++++++
 distgen.go.m4 | 30 +++++++++++++++++++++---------
 durdist.go    | 30 +++++++++++++++++++++---------
 floatdist.go  | 30 +++++++++++++++++++++---------
 intdist.go    | 30 +++++++++++++++++++++---------
 5 files changed, 97 insertions(+), 36 deletions(-)

diff --git a/dist.go b/dist.go
index e3f24e4..7746c2d 100644
--- a/dist.go
+++ b/dist.go
@@ -15,6 +15,7 @@
 package monkit
 
 import (
+	"math"
 	"time"
 )
 
@@ -33,6 +34,18 @@ var (
 // measurement logic will try to optimize for, if applicable.
 var ObservedQuantiles = []float64{0, .1, .25, .5, .75, .9, .95, 1}
 
+// toReservoir converts a value to its reservoir form. Values out of range for
+// the reservoir are moved to the end of the range, so they stay finite.
+func toReservoir(val float64) float32 {
+	if val > math.MaxFloat32 {
+		return math.MaxFloat32
+	}
+	if val < -math.MaxFloat32 {
+		return -math.MaxFloat32
+	}
+	return float32(val)
+}
+
 type float32Slice []float32
 
 func (p float32Slice) Len() int      { return len(p) }
diff --git a/distgen.go.m4 b/distgen.go.m4
index 7e5a2c0..ccd35a0 100644
--- a/distgen.go.m4
+++ b/distgen.go.m4
@@ -80,7 +80,7 @@ func (d *_NAME_`Dist') Insert(val _TYPE_) {
 	d.Count += 1
 
 	if index < ReservoirSize {
-		d.reservoir[index] = float32(val)
+		d.reservoir[index] = toReservoir(float64(val))
 		d.sorted = false
 	} else {
 		window := d.Count
@@ -91,7 +91,7 @@ func (d *_NAME_`Dist') Insert(val _TYPE_) {
 		// fast, but kind of biased. probably okay
 		j := d.rng.Uint64() % uint64(window)
 		if j < ReservoirSize {
-			d.reservoir[int(j)] = float32(val)
+			d.reservoir[int(j)] = toReservoir(float64(val))
 			d.sorted = false
 		}
 	}
@@ -114,11 +114,11 @@ func (d *_NAME_`Dist') ReservoirAverage() _TYPE_ {
 	if amount <= 0 {
 		return 0
 	}
-	var sum float32
+	var sum float64
 	for i := 0; i < amount; i++ {
-		sum += d.reservoir[i]
+		sum += float64(d.reservoir[i])
 	}
-	return _TYPE_`(sum / float32(amount))'
+	return d.clamp(sum / float64(amount))
 }
 
 // Query will return the approximate value at the given quantile from the
@@ -133,7 +133,7 @@ func (d *_NAME_`Dist') Query(quantile float64) _TYPE_ {
 		return 0
 	}
 	if rlen < 2 {
-		return _TYPE_`(d.reservoir[0])'
+		return d.clamp(float64(d.reservoir[0]))
 	}
 
 	reservoir := d.reservoir[:rlen]
@@ -143,10 +143,10 @@ func (d *_NAME_`Dist') Query(quantile float64) _TYPE_ {
 	}
 
 	if quantile <= 0 {
-		return _TYPE_`(reservoir[0])'
+		return d.clamp(float64(reservoir[0]))
 	}
 	if quantile >= 1 {
-		return _TYPE_`(reservoir[rlen-1])'
+		return d.clamp(float64(reservoir[rlen-1]))
 	}
 
 	idx_float := quantile * float64(rlen-1)
@@ -154,7 +154,19 @@ func (d *_NAME_`Dist') Query(quantile float64) _TYPE_ {
 
 	diff := idx_float - float64(idx)
 	prior := float64(reservoir[idx])
-	return _TYPE_`(prior + diff*(float64(reservoir[idx+1])-prior))'
+	return d.clamp(prior + diff*(float64(reservoir[idx+1])-prior))
+}
+
+// clamp converts an estimate made from the reservoir, which has less range and
+// precision than the values themselves, to a value in the observed range.
+func (d *_NAME_`Dist') clamp(estimate float64) _TYPE_ {
+	if estimate <= float64(d.Low) {
+		return d.Low
+	}
+	if estimate >= float64(d.High) {
+		return d.High
+	}
+	return _TYPE_`(estimate)'
 }
 
 // Copy returns a full copy of the entire distribution.
diff --git a/durdist.go b/durdist.go
index 354021e..fe556a3 100644
--- a/durdist.go
+++ b/durdist.go
@@ -80,7 +80,7 @@ func (d *DurationDist) Insert(val time.Duration) {
 	d.Count += 1
 
 	if index < ReservoirSize {
-		d.reservoir[index] = float32(val)
+		d.reservoir[index] = toReservoir(float64(val))
 		d.sorted = false
 	} else {
 		window := d.Count
@@ -91,7 +91,7 @@ func (d *DurationDist) Insert(val time.Duration) {
 		// fast, but kind of biased. probably okay
 		j := d.rng.Uint64() % uint64(window)
 		if j < ReservoirSize {
-			d.reservoir[int(j)] = float32(val)
+			d.reservoir[int(j)] = toReservoir(float64(val))
 			d.sorted = false
 		}
 	}
@@ -114,11 +114,11 @@ func (d *DurationDist) ReservoirAverage() time.Duration {
 	if amount <= 0 {
 		return 0
 	}
-	var sum float32
+	var sum float64
 	for i := 0; i < amount; i++ {
-		sum += d.reservoir[i]
+		sum += float64(d.reservoir[i])
 	}
-	return time.Duration(sum / float32(amount))
+	return d.clamp(sum / float64(amount))
 }
 
 // Query will return the approximate value at the given quantile from the
@@ -133,7 +133,7 @@ func (d *DurationDist) Query(quantile float64) time.Duration {
 		return 0
 	}
 	if rlen < 2 {
-		return time.Duration(d.reservoir[0])
+		return d.clamp(float64(d.reservoir[0]))
 	}
 
 	reservoir := d.reservoir[:rlen]
@@ -143,10 +143,10 @@ func (d *DurationDist) Query(quantile float64) time.Duration {
 	}
 
 	if quantile <= 0 {
-		return time.Duration(reservoir[0])
+		return d.clamp(float64(reservoir[0]))
 	}
 	if quantile >= 1 {
-		return time.Duration(reservoir[rlen-1])
+		return d.clamp(float64(reservoir[rlen-1]))
 	}
 
 	idx_float := quantile * float64(rlen-1)
@@ -154,7 +154,19 @@ func (d *DurationDist) Query(quantile float64) time.Duration {
 
 	diff := idx_float - float64(idx)
 	prior := float64(reservoir[idx])
-	return time.Duration(prior + diff*(float64(reservoir[idx+1])-prior))
+	return d.clamp(prior + diff*(float64(reservoir[idx+1])-prior))
+}
+
+// clamp converts an estimate made from the reservoir, which has less range and
+// precision than the values themselves, to a value in the observed range.
+func (d *DurationDist) clamp(estimate float64) time.Duration {
+	if estimate <= float64(d.Low) {
+		return d.Low
+	}
+	if estimate >= float64(d.High) {
+		return d.High
+	}
+	return time.Duration(estimate)
 }
 
 // Copy returns a full copy of the entire distribution.
diff --git a/floatdist.go b/floatdist.go
index f90ccfa..b4ff06d 100644
--- a/floatdist.go
+++ b/floatdist.go
@@ -79,7 +79,7 @@ func (d *FloatDist) Insert(val float64) {
 	d.Count += 1
 
 	if index < ReservoirSize {
-		d.reservoir[index] = float32(val)
+		d.reservoir[index] = toReservoir(float64(val))
 		d.sorted = false
 	} else {
 		window := d.Count
@@ -90,7 +90,7 @@ func (d *FloatDist) Insert(val float64) {
 		// fast, but kind of biased. probably okay
 		j := d.rng.Uint64() % uint64(window)
 		if j < ReservoirSize {
-			d.reservoir[int(j)] = float32(val)
+			d.reservoir[int(j)] = toReservoir(float64(val))
 			d.sorted = false
 		}
 	}
@@ -113,11 +113,11 @@ func (d *FloatDist) ReservoirAverage() float64 {
 	if amount <= 0 {
 		return 0
 	}
-	var sum float32
+	var sum float64
 	for i := 0; i < amount; i++ {
-		sum += d.reservoir[i]
+		sum += float64(d.reservoir[i])
 	}
-	return float64(sum / float32(amount))
+	return d.clamp(sum / float64(amount))
 }
 
 // Query will return the approximate value at the given quantile from the
@@ -132,7 +132,7 @@ func (d *FloatDist) Query(quantile float64) float64 {
 		return 0
 	}
 	if rlen < 2 {
-		return float64(d.reservoir[0])
+		return d.clamp(float64(d.reservoir[0]))
 	}
 
 	reservoir := d.reservoir[:rlen]
@@ -142,10 +142,10 @@ func (d *FloatDist) Query(quantile float64) float64 {
 	}
 
 	if quantile <= 0 {
-		return float64(reservoir[0])
+		return d.clamp(float64(reservoir[0]))
 	}
 	if quantile >= 1 {
-		return float64(reservoir[rlen-1])
+		return d.clamp(float64(reservoir[rlen-1]))
 	}
 
 	idx_float := quantile * float64(rlen-1)
@@ -153,7 +153,19 @@ func (d *FloatDist) Query(quantile float64) float64 {
 
 	diff := idx_float - float64(idx)
 	prior := float64(reservoir[idx])
-	return float64(prior + diff*(float64(reservoir[idx+1])-prior))
+	return d.clamp(prior + diff*(float64(reservoir[idx+1])-prior))
+}
+
+// clamp converts an estimate made from the reservoir, which has less range and
+// precision than the values themselves, to a value in the observed range.
+func (d *FloatDist) clamp(estimate float64) float64 {
+	if estimate <= float64(d.Low) {
+		return d.Low
+	}
+	if estimate >= float64(d.High) {
+		return d.High
+	}
+	return float64(estimate)
 }
 
 // Copy returns a full copy of the entire distribution.
diff --git a/intdist.go b/intdist.go
index 050cc3d..747b809 100644
--- a/intdist.go
+++ b/intdist.go
@@ -79,7 +79,7 @@ func (d *IntDist) Insert(val int64) {
 	d.Count += 1
 
 	if index < ReservoirSize {
-		d.reservoir[index] = float32(val)
+		d.reservoir[index] = toReservoir(float64(val))
 		d.sorted = false
 	} else {
 		window := d.Count
@@ -90,7 +90,7 @@ func (d *IntDist) Insert(val int64) {
 		// fast, but kind of biased. probably okay
 		j := d.rng.Uint64() % uint64(window)
 		if j < ReservoirSize {
-			d.reservoir[int(j)] = float32(val)
+			d.reservoir[int(j)] = toReservoir(float64(val))
 			d.sorted = false
 		}
 	}
@@ -113,11 +113,11 @@ func (d *IntDist) ReservoirAverage() int64 {
 	if amount <= 0 {
 		return 0
 	}
-	var sum float32
+	var sum float64
 	for i := 0; i < amount; i++ {
-		sum += d.reservoir[i]
+		sum += float64(d.reservoir[i])
 	}
-	return int64(sum / float32(amount))
+	return d.clamp(sum / float64(amount))
 }
 
 // Query will return the approximate value at the given quantile from the
@@ -132,7 +132,7 @@ func (d *IntDist) Query(quantile float64) int64 {
 		return 0
 	}
 	if rlen < 2 {
-		return int64(d.reservoir[0])
+		return d.clamp(float64(d.reservoir[0]))
 	}
 
 	reservoir := d.reservoir[:rlen]
@@ -142,10 +142,10 @@ func (d *IntDist) Query(quantile float64) int64 {
 	}
 
 	if quantile <= 0 {
-		return int64(reservoir[0])
+		return d.clamp(float64(reservoir[0]))
 	}
 	if quantile >= 1 {
-		return int64(reservoir[rlen-1])
+		return d.clamp(float64(reservoir[rlen-1]))
 	}
 
 	idx_float := quantile * float64(rlen-1)
@@ -153,7 +153,19 @@ func (d *IntDist) Query(quantile float64) int64 {
 
 	diff := idx_float - float64(idx)
 	prior := float64(reservoir[idx])
-	return int64(prior + diff*(float64(reservoir[idx+1])-prior))
+	return d.clamp(prior + diff*(float64(reservoir[idx+1])-prior))
+}
+
+// clamp converts an estimate made from the reservoir, which has less range and
+// precision than the values themselves, to a value in the observed range.
+func (d *IntDist) clamp(estimate float64) int64 {
+	if estimate <= float64(d.Low) {
+		return d.Low
+	}
+	if estimate >= float64(d.High) {
+		return d.High
+	}
+	return int64(estimate)
 }
 
 // Copy returns a full copy of the entire distribution.
-- 
2.43.0


From 62ca421f1b72b6c970a372052841d74aff42b518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:42 +0000
Subject: [PATCH 03/27] fix: StatsJSON reports NaN and infinities as null
 instead of failing

---
 present/stats.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/present/stats.go b/present/stats.go
index e9e315a..27dad34 100644
--- a/present/stats.go
+++ b/present/stats.go
@@ -17,6 +17,7 @@ package present
 import (
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/spacemonkeygo/monkit/v3"
 )
@@ -41,7 +42,11 @@ func StatsText(r *monkit.Registry, w io.Writer) (err error) {
 func StatsJSON(r *monkit.Registry, w io.Writer) (err error) {
 	lw := newListWriter(w)
 	r.Stats(func(key monkit.SeriesKey, field string, val float64) {
-		lw.elem([]interface{}{key.Measurement, key.Tags.All(), field, val})
+		var jsonVal interface{} // JSON has no NaN or infinities
+		if !math.IsNaN(val) && !math.IsInf(val, 0) {
+			jsonVal = val
+		}
+		lw.elem([]interface{}{key.Measurement, key.Tags.All(), field, jsonVal})
 	})
 	return lw.done()
 }
-- 
2.43.0


From 0a78e141523e527d60a0f3b69d8557a949394ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:43 +0000
Subject: [PATCH 04/27] fix: StatSourceFromStruct skips nil pointers instead of
 panicking

---
 struct.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/struct.go b/struct.go
index 241b715..bdd9de8 100644
--- a/struct.go
+++ b/struct.go
@@ -32,16 +32,20 @@ func (emptyStatSource) Stats(cb func(key SeriesKey, field string, val float64))
 // across all float64-castable and bool-castable fields of the struct.
 func StatSourceFromStruct(key SeriesKey, structData interface{}) StatSource {
 	val := deref(reflect.ValueOf(structData))
-
-	typ := val.Type()
-	if typ.Kind() != reflect.Struct {
+	if val.Kind() != reflect.Struct {
 		return emptyStatSource{}
 	}
 
+	typ := val.Type()
+
 	return StatSourceFunc(func(cb func(key SeriesKey, field string, val float64)) {
 	nextField:
 		for i := 0; i < typ.NumField(); i++ {
 			field := deref(val.Field(i))
+			if !field.IsValid() {
+				// nil pointer
+				continue
+			}
 			field_type := field.Type()
 
 			parts := strings.Split(typ.Field(i).Tag.Get("monkit"), ",")
@@ -72,7 +76,7 @@ func StatSourceFromStruct(key SeriesKey, structData interface{}) StatSource {
 
 // if val is a pointer, deref until it isn't
 func deref(val reflect.Value) reflect.Value {
-	for val.Type().Kind() == reflect.Ptr {
+	for val.Kind() == reflect.Ptr {
 		val = val.Elem()
 	}
 	return val
-- 
2.43.0


From e2149d350b12738fa68e716f39f0224275043a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:44 +0000
Subject: [PATCH 05/27] fix: metrics with separators in their names or tags no
 longer collide

---
 scope.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/scope.go b/scope.go
index fba109d..5b17139 100644
--- a/scope.go
+++ b/scope.go
@@ -76,16 +76,32 @@ func sourceName(namespace, name string, tags []SeriesTag) string {
 	var sourceName strings.Builder
 	sourceName.Grow(sourceNameSize)
 	sourceName.WriteString(namespace)
-	sourceName.WriteString(name)
+	writeSourceNamePart(&sourceName, name)
 	for _, tag := range tags {
 		sourceName.WriteByte(',')
-		sourceName.WriteString(tag.Key)
+		writeSourceNamePart(&sourceName, tag.Key)
 		sourceName.WriteByte('=')
-		sourceName.WriteString(tag.Val)
+		writeSourceNamePart(&sourceName, tag.Val)
 	}
 	return sourceName.String()
 }
 
+// writeSourceNamePart escapes the separators in part, so that different names
+// and tags never end up with the same source name.
+func writeSourceNamePart(builder *strings.Builder, part string) {
+	if !strings.ContainsAny(part, `,=:\`) {
+		builder.WriteString(part)
+		return
+	}
+	for i := 0; i < len(part); i++ {
+		switch part[i] {
+		case ',', '=', ':', '\\':
+			builder.WriteByte('\\')
+		}
+		builder.WriteByte(part[i])
+	}
+}
+
 // FuncNamed retrieves or creates a Func named using the given name and
 // SeriesTags. See Func() for automatic name determination.
 //
@@ -264,18 +280,20 @@ func (s *Scope) Counter(name string, tags ...SeriesTag) *Counter {
 func (s *Scope) Gauge(name string, cb func() float64) {
 	type gauge struct{ StatSource }
 
+	sourceName := sourceName("", name, nil)
+
 	// gauges allow overwriting
 	s.mtx.Lock()
 	defer s.mtx.Unlock()
 
-	if source, exists := s.sources[name]; exists {
+	if source, exists := s.sources[sourceName]; exists {
 		if _, ok := source.(gauge); !ok {
 			panic(fmt.Sprintf("%s already used for another stats source: %#v",
 				name, source))
 		}
 	}
 
-	s.sources[name] = gauge{StatSource: StatSourceFunc(
+	s.sources[sourceName] = gauge{StatSource: StatSourceFunc(
 		func(scb func(key SeriesKey, field string, value float64)) {
 			scb(NewSeriesKey(name), "value", cb())
 		}),
-- 
2.43.0


From bfb5e69574a9d95eb782f79bbd16bacd17d27974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:45 +0000
Subject: [PATCH 06/27] fix: data race on the cached string form of a TagSet

---
 tags.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tags.go b/tags.go
index d52bcaf..addd181 100644
--- a/tags.go
+++ b/tags.go
@@ -17,6 +17,7 @@ package monkit
 import (
 	"sort"
 	"strings"
+	"sync/atomic"
 )
 
 // SeriesTag is a key/value pair. When used with a measurement name, each set
@@ -33,7 +34,7 @@ func NewSeriesTag(key, val string) SeriesTag {
 // TagSet is an immutible collection of tag, value pairs.
 type TagSet struct {
 	all map[string]string
-	str string // cached string form
+	str atomic.Value // cached string form
 }
 
 // Get returns the value associated with the key.
@@ -99,12 +100,14 @@ func (t *TagSet) String() string {
 	if t == nil {
 		return ""
 	}
-	if t.str == "" {
+	str, ok := t.str.Load().(string)
+	if !ok {
 		var builder strings.Builder
 		t.writeTags(&builder)
-		t.str = builder.String()
+		str = builder.String()
+		t.str.Store(str)
 	}
-	return t.str
+	return str
 }
 
 // writeTags writes the tags in the tag set to the builder.
-- 
2.43.0


From c14c5a386adab3717ec47b47ec60121db801c666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:46 +0000
Subject: [PATCH 07/27] fix: GC pauses are counted once per collection, and
 without data races

---
 environment/runtime.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/environment/runtime.go b/environment/runtime.go
index 4b6dfe4..93ae4cc 100644
--- a/environment/runtime.go
+++ b/environment/runtime.go
@@ -20,6 +20,7 @@ package environment
 import (
 	"runtime"
 	"runtime/debug"
+	"sync"
 
 	"github.com/spacemonkeygo/monkit/v3"
 )
@@ -31,6 +32,7 @@ import (
 func Runtime() monkit.StatSource {
 	durDist := monkit.NewDurationDist(monkit.NewSeriesKey("runtime_gcstats"))
 	lastNumGC := int64(0)
+	var mtx sync.Mutex // protects durDist and lastNumGC
 
 	return monkit.StatSourceFunc(func(cb func(key monkit.SeriesKey, field string, val float64)) {
 		cb(monkit.NewSeriesKey("goroutines"), "count", float64(runtime.NumGoroutine()))
@@ -44,10 +46,14 @@ func Runtime() monkit.StatSource {
 		{
 			var stats debug.GCStats
 			debug.ReadGCStats(&stats)
+			mtx.Lock()
 			if lastNumGC != stats.NumGC && len(stats.Pause) > 0 {
 				durDist.Insert(stats.Pause[0])
+				lastNumGC = stats.NumGC
 			}
-			durDist.Stats(cb)
+			dist := durDist.Copy()
+			mtx.Unlock()
+			dist.Stats(cb)
 		}
 	})
 }
-- 
2.43.0


From f8e3bf43df66339296f4e95376b7c6df8091d510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:46 +0000
Subject: [PATCH 08/27] fix: SpansToSVG divides by zero on an instantaneous
 trace

---
 present/trace.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/present/trace.go b/present/trace.go
index dcbc720..18b770c 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -270,8 +270,11 @@ func SpansToSVG(w io.Writer, spans []*collect.FinishedSpan) error {
 	graphHeight := (barHeight+barSep)*maxRow + 20
 
 	timeToX := func(t time.Time) int {
-		return int(((t.UnixNano() - minStart.UnixNano()) * graphWidth) /
-			(maxEnd.UnixNano() - minStart.UnixNano()))
+		total := maxEnd.UnixNano() - minStart.UnixNano()
+		if total <= 0 {
+			return 0
+		}
+		return int(((t.UnixNano() - minStart.UnixNano()) * graphWidth) / total)
 	}
 
 	max := func(x, y int) int {
-- 
2.43.0


From 2b7edfa6256b6bbadf7ebe2f135bb632858fb4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:47 +0000
Subject: [PATCH 09/27] fix: traceparent headers of negative ids are malformed

---
 http/info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/info.go b/http/info.go
index 58c4e95..ec192db 100644
--- a/http/info.go
+++ b/http/info.go
@@ -153,7 +153,7 @@ func (r TraceInfo) SetHeader(header HeaderSetter) {
 		sampled = traceSampled
 	}
 	if r.TraceId != nil && r.ParentId != nil {
-		header.Set(traceParentHeader, fmt.Sprintf("00-%016x-%08x-%x", *r.TraceId, *r.ParentId, int(sampled)))
+		header.Set(traceParentHeader, fmt.Sprintf("00-%016x-%08x-%x", uint64(*r.TraceId), uint64(*r.ParentId), int(sampled)))
 	} else if r.Sampled {
 		header.Set(traceStateHeader, orphanSampling)
 	}
-- 
2.43.0


From bc09fac99a2c0bbb707bca7709d972561f6dd2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:48 +0000
Subject: [PATCH 10/27] fix: TraceHandler drops what span observers add to the
 context

---
 http/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/server.go b/http/server.go
index 861304d..f257889 100644
--- a/http/server.go
+++ b/http/server.go
@@ -66,7 +66,7 @@ func (t traceHandler) ServeHTTP(writer http.ResponseWriter, request *http.Reques
 		writer.Header().Set(traceIDHeader, fmt.Sprintf("%x", s.Trace().Id()))
 		writer.Header().Set(childIDHeader, fmt.Sprintf("%x", s.Id()))
 	}
-	t.handler.ServeHTTP(wrapped, request.WithContext(s))
+	t.handler.ServeHTTP(wrapped, request.WithContext(ctx))
 
 	s.Annotate("http.responsecode", fmt.Sprint(statusCode()))
 }
-- 
2.43.0


From 9c1c8647553be09107495704b008a7f0aff637ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:48 +0000
Subject: [PATCH 11/27] fix: TraceRequest panics on a sampled request without
 headers

---
 http/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/http/client.go b/http/client.go
index aa2db08..45d96d7 100644
--- a/http/client.go
+++ b/http/client.go
@@ -20,6 +20,9 @@ func TraceRequest(ctx context.Context, scope *monkit.Scope, cl Client, req *http
 
 	s := monkit.SpanFromCtx(ctx)
 	s.Annotate("http.uri", req.URL.String())
+	if req.Header == nil {
+		req.Header = make(http.Header)
+	}
 	TraceInfoFromSpan(s).SetHeader(req.Header)
 	resp, err = cl.Do(req)
 	if err != nil {
-- 
2.43.0


From ab147de5cee1b191e04568e7bc983376f5480a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:49 +0000
Subject: [PATCH 12/27] fix: error name handlers deadlock when they use the
 failing function

---
 funcstats.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/funcstats.go b/funcstats.go
index 0d24efc..0c6a6b2 100644
--- a/funcstats.go
+++ b/funcstats.go
@@ -87,6 +87,11 @@ func (f *FuncStats) start(parent *Func) {
 
 func (f *FuncStats) end(err error, panicked bool, duration time.Duration) {
 	atomic.AddInt64(&f.current, -1)
+	var errname string
+	if err != nil && !panicked {
+		// outside of the mutex, since it calls handlers that may use f
+		errname = getErrorName(err)
+	}
 	f.parentsAndMutex.Lock()
 	if panicked {
 		f.panics += 1
@@ -100,7 +105,7 @@ func (f *FuncStats) end(err error, panicked bool, duration time.Duration) {
 		return
 	}
 	f.failureTimes.Insert(duration)
-	f.errors[getErrorName(err)] += 1
+	f.errors[errname] += 1
 	f.parentsAndMutex.Unlock()
 }
 
-- 
2.43.0


From 8e029d829db558fcacfc21e8828bfb5374945a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:50 +0000
Subject: [PATCH 13/27] fix: CollectSpans leaves its observer on the trace
 forever

---
 collect/ctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collect/ctx.go b/collect/ctx.go
index ae58acc..1fbe60b 100644
--- a/collect/ctx.go
+++ b/collect/ctx.go
@@ -58,7 +58,7 @@ func CollectSpans(ctx context.Context, work func(ctx context.Context)) (
 	}
 	collector := NewSpanCollector(nil)
 	defer collector.Stop()
-	s.Trace().ObserveSpans(collector)
+	defer s.Trace().ObserveSpans(collector)()
 	f := s.Func()
 	newF := f.Scope().FuncNamed(fmt.Sprintf("%s-TRACED", f.ShortName()))
 	func() {
-- 
2.43.0


From e53881017f90c5db5f411f4a43e5371e7b95a8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:51 +0000
Subject: [PATCH 14/27] fix: resetting a function with calls in progress makes
 current negative

---
 funcstats.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/funcstats.go b/funcstats.go
index 0c6a6b2..18d3429 100644
--- a/funcstats.go
+++ b/funcstats.go
@@ -63,8 +63,9 @@ func NewFuncStats(key SeriesKey) (f *FuncStats) {
 
 // Reset resets all recorded data.
 func (f *FuncStats) Reset() {
-	atomic.StoreInt64(&f.current, 0)
+	// calls in progress still have to end, so current is not reset
 	atomic.StoreInt64(&f.highwater, 0)
+	f.raiseHighwater(atomic.LoadInt64(&f.current))
 	f.parentsAndMutex.Lock()
 	f.errors = make(map[string]int64, len(f.errors))
 	f.panics = 0
@@ -75,7 +76,10 @@ func (f *FuncStats) Reset() {
 
 func (f *FuncStats) start(parent *Func) {
 	f.parentsAndMutex.Add(parent)
-	current := atomic.AddInt64(&f.current, 1)
+	f.raiseHighwater(atomic.AddInt64(&f.current, 1))
+}
+
+func (f *FuncStats) raiseHighwater(current int64) {
 	for {
 		highwater := atomic.LoadInt64(&f.highwater)
 		if current <= highwater ||
-- 
2.43.0


From c197b31758213542aa62af52c9f7dcb9867e5c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:52 +0000
Subject: [PATCH 15/27] fix: the index page links to a report that does not
 exist

---
 present/path.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/present/path.go b/present/path.go
index 29f7198..8eb6147 100644
--- a/present/path.go
+++ b/present/path.go
@@ -311,7 +311,6 @@ func writeIndex(w io.Writer) error {
 
 			<dt><a href="stats">/stats</a></dt>
 			<dt><a href="stats/json">/stats/json</a></dt>
-			<dt><a href="stats/svg">/stats/svg</a></dt>
 			<dd>Statistics about all observed functions, scopes and values.</dd>
 
 			<dt><a href="trace/json">/trace/json</a></dt>
-- 
2.43.0


From 7a3d2f25fd3a63d2179a0b40229ae448f19c7bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:30 +0000
Subject: [PATCH 16/27] fix: quotes and backslashes in span text break the SVG
 tooltip scripts

---
 present/trace.go | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/present/trace.go b/present/trace.go
index 18b770c..6691528 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -130,7 +130,7 @@ var (
 `))
 
 	svgFunc = template.Must(template.New("func").Parse(`
-  <g id="id-{{.SpanId}}" class="func parent-{{.ParentId}}" onmouseover="mouseover('{{.SpanId}}', '{{.ParentId}}', '{{.FuncName}}({{.FuncArgs}}) Duration:{{.FuncDuration}} Started:{{.FuncStartDuration}}');" onmouseout="mouseout('{{.SpanId}}', '{{.ParentId}}');" onclick="mouseclick('{{.SpanId}}', '{{.ParentId}}');">
+  <g id="id-{{.SpanId}}" class="func parent-{{.ParentId}}" onmouseover="mouseover('{{.SpanId}}', '{{.ParentId}}', '{{.JSFuncName}}({{.JSFuncArgs}}) Duration:{{.FuncDuration}} Started:{{.FuncStartDuration}}');" onmouseout="mouseout('{{.SpanId}}', '{{.ParentId}}');" onclick="mouseclick('{{.SpanId}}', '{{.ParentId}}');">
     <clipPath id="clip-{{.SpanId}}"><rect x="{{.SpanLeft}}" y="{{.SpanTop}}" width="{{.SpanWidth}}" height="{{.SpanHeight}}"/></clipPath>
     <rect id="rect-{{.SpanId}}" x="{{.SpanLeft}}" y="{{.SpanTop}}" width="{{.SpanWidth}}" height="{{.SpanHeight}}" fill="{{.SpanColor}}"/>
     <text id="text-{{.SpanId}}" x="{{.SpanLeft}}" y="{{.TextTop}}" fill="rgb(0,0,0)" font-size="{{.FontSize}}" clip-path="url(#clip-{{.SpanId}})">{{.FuncName}}({{.FuncArgs}}) ({{.FuncDuration}})</text>
@@ -138,6 +138,10 @@ var (
   </g>`))
 )
 
+// jsStringEscaper escapes text for use in a single quoted Javascript string.
+var jsStringEscaper = strings.NewReplacer(`\`, `\\`, `'`, `\'`,
+	"\n", `\n`, "\r", `\r`, "\u2028", `\u2028`, "\u2029", `\u2029`)
+
 type spanInformation struct {
 	Span        *collect.FinishedSpan
 	Parent      int64
@@ -316,6 +320,8 @@ func SpansToSVG(w io.Writer, spans []*collect.FinishedSpan) error {
 			FontSize          int
 			FuncName          string
 			FuncArgs          string
+			JSFuncName        string
+			JSFuncArgs        string
 			FuncDuration      string
 			FuncStartDuration string
 			SpanMid           int
@@ -339,19 +345,19 @@ func SpansToSVG(w io.Writer, spans []*collect.FinishedSpan) error {
 			SpanMid:           id*(barHeight+barSep) + barHeight/2,
 		}
 
-		var buf bytes.Buffer
-		err = xml.EscapeText(&buf, []byte(templateVals.FuncName))
-		if err != nil {
-			return err
-		}
-		templateVals.FuncName = buf.String()
-
-		buf.Reset()
-		err = xml.EscapeText(&buf, []byte(templateVals.FuncArgs))
-		if err != nil {
-			return err
+		templateVals.JSFuncName = jsStringEscaper.Replace(templateVals.FuncName)
+		templateVals.JSFuncArgs = jsStringEscaper.Replace(templateVals.FuncArgs)
+		for _, text := range []*string{
+			&templateVals.FuncName, &templateVals.FuncArgs,
+			&templateVals.JSFuncName, &templateVals.JSFuncArgs,
+		} {
+			var buf bytes.Buffer
+			err = xml.EscapeText(&buf, []byte(*text))
+			if err != nil {
+				return err
+			}
+			*text = buf.String()
 		}
-		templateVals.FuncArgs = buf.String()
 
 		if parentId, ok := s.Span.ParentId(); ok && byId[parentId] != nil {
 			row := 0
-- 
2.43.0


From 7d53c1492bb77ac9b43ed64b92c1123fcd89a9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:30 +0000
Subject: [PATCH 17/27] fix: proc_stat is missing for processes with spaces in
 their names

---
 environment/proc_linux.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/environment/proc_linux.go b/environment/proc_linux.go
index 25cdcaf..6acbe0d 100644
--- a/environment/proc_linux.go
+++ b/environment/proc_linux.go
@@ -15,6 +15,7 @@
 package environment
 
 import (
+	"bytes"
 	"fmt"
 	"os"
 
@@ -87,9 +88,15 @@ func readProcSelfStat(s *procSelfStat) error {
 	if err != nil {
 		return err
 	}
-	_, err = fmt.Sscanf(string(data), "%d %s %c %d %d %d %d %d %d %d %d "+
+	// the process name is in parentheses, and may contain anything itself
+	open, end := bytes.IndexByte(data, '('), bytes.LastIndexByte(data, ')')
+	if open < 0 || end < open {
+		return fmt.Errorf("unexpected format: %q", data)
+	}
+	s.Comm = string(data[open : end+1])
+	_, err = fmt.Sscanf(string(data[:open])+string(data[end+1:]), "%d %c %d %d %d %d %d %d %d %d "+
 		"%d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d "+
-		"%d %d %d %d %d %d %d %d %d %d", &s.Pid, &s.Comm, &s.State, &s.Ppid,
+		"%d %d %d %d %d %d %d %d %d %d", &s.Pid, &s.State, &s.Ppid,
 		&s.Pgrp, &s.Session, &s.TtyNr, &s.Tpgid, &s.Flags, &s.Minflt, &s.Cminflt,
 		&s.Majflt, &s.Cmajflt, &s.Utime, &s.Stime, &s.Cutime, &s.Cstime,
 		&s.Priority, &s.Nice, &s.NumThreads, &s.Itrealvalue, &s.Starttime,
-- 
2.43.0


From 7288329c2bd43986e952d47643bc4c12413f086f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:31 +0000
Subject: [PATCH 18/27] fix: SVG trace queries that take long are not
 well-formed XML

---
 present/trace.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/present/trace.go b/present/trace.go
index 6691528..ebd10d4 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -35,10 +35,13 @@ const (
 	fontOffset = int(barHeight * .2)
 )
 
+// svgProlog is separate from svgHeader, since nothing may come before it
+const svgProlog = `<?xml version="1.0" standalone="no"?>
+`
+
 var (
 	svgHeader = template.Must(template.New("header").Parse(
-		`<?xml version="1.0" standalone="no"?>
-<!DOCTYPE svg PUBLIC "-//W3C//DTD SVG 1.1//EN"
+		`<!DOCTYPE svg PUBLIC "-//W3C//DTD SVG 1.1//EN"
   "http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd">
 <svg version="1.1" xmlns="http://www.w3.org/2000/svg"
   xmlns:xlink="http://www.w3.org/1999/xlink"
@@ -249,6 +252,14 @@ func computeRow(spanTree map[int64]*spanInformation, si *spanInformation, starti
 // SpansToSVG takes a list of FinishedSpans and writes them to w in SVG format.
 // It draws a trace using the Spans where the Spans are ordered by start time.
 func SpansToSVG(w io.Writer, spans []*collect.FinishedSpan) error {
+	_, err := io.WriteString(w, svgProlog)
+	if err != nil {
+		return err
+	}
+	return spansToSVG(w, spans)
+}
+
+func spansToSVG(w io.Writer, spans []*collect.FinishedSpan) error {
 	var minStart, maxEnd time.Time
 
 	byId := make(map[int64]*collect.FinishedSpan)
@@ -401,14 +412,18 @@ func unwrapError(err error) error {
 // 'matcher' to 'w' in SVG format.
 func TraceQuerySVG(reg *monkit.Registry, w io.Writer,
 	matcher func(*monkit.Span) bool) error {
+	// the prolog goes first, since the keep alives may not come before it
+	_, err := io.WriteString(w, svgProlog)
+	if err != nil {
+		return err
+	}
 	spans, err := watchForSpansWithKeepalive(context.TODO(),
 		reg, w, matcher, []byte("\n"))
 	if err != nil {
 		return err
 	}
 
-	return SpansToSVG(w, spans)
-
+	return spansToSVG(w, spans)
 }
 
 // TraceQueryJSON uses WatchForSpans to write all Spans from 'reg' matching
-- 
2.43.0


From e9bbdf7a83683a79a92ac5cca9dc35663157e232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:34 +0000
Subject: [PATCH 19/27] fix: conflicting metric requests race with users of the
 existing metric

The panic message printed the existing source with %#v, which walks its
internals (locks, maps, counters) without synchronization while others are
using it. Print its type instead.
---
 scope.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/scope.go b/scope.go
index 5b17139..0b91cdf 100644
--- a/scope.go
+++ b/scope.go
@@ -114,7 +114,7 @@ func (s *Scope) FuncNamed(name string, tags ...SeriesTag) *Func {
 	})
 	f, ok := source.(*Func)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return f
@@ -142,7 +142,7 @@ func (s *Scope) Meter(name string, tags ...SeriesTag) *Meter {
 	})
 	m, ok := source.(*Meter)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -161,7 +161,7 @@ func (s *Scope) DiffMeter(name string, m1, m2 *Meter, tags ...SeriesTag) {
 		return NewDiffMeter(NewSeriesKey(name).WithTags(tags...), m1, m2)
 	})
 	if _, ok := source.(*DiffMeter); !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 }
@@ -173,7 +173,7 @@ func (s *Scope) IntVal(name string, tags ...SeriesTag) *IntVal {
 	})
 	m, ok := source.(*IntVal)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -192,7 +192,7 @@ func (s *Scope) FloatVal(name string, tags ...SeriesTag) *FloatVal {
 	})
 	m, ok := source.(*FloatVal)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -211,7 +211,7 @@ func (s *Scope) BoolVal(name string, tags ...SeriesTag) *BoolVal {
 	})
 	m, ok := source.(*BoolVal)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -230,7 +230,7 @@ func (s *Scope) StructVal(name string, tags ...SeriesTag) *StructVal {
 	})
 	m, ok := source.(*StructVal)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -243,7 +243,7 @@ func (s *Scope) DurationVal(name string, tags ...SeriesTag) *DurationVal {
 	})
 	m, ok := source.(*DurationVal)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -256,7 +256,7 @@ func (s *Scope) Timer(name string, tags ...SeriesTag) *Timer {
 	})
 	m, ok := source.(*Timer)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -269,7 +269,7 @@ func (s *Scope) Counter(name string, tags ...SeriesTag) *Counter {
 	})
 	m, ok := source.(*Counter)
 	if !ok {
-		panic(fmt.Sprintf("%s already used for another stats source: %#v",
+		panic(fmt.Sprintf("%s already used for another stats source: %T",
 			name, source))
 	}
 	return m
@@ -288,7 +288,7 @@ func (s *Scope) Gauge(name string, cb func() float64) {
 
 	if source, exists := s.sources[sourceName]; exists {
 		if _, ok := source.(gauge); !ok {
-			panic(fmt.Sprintf("%s already used for another stats source: %#v",
+			panic(fmt.Sprintf("%s already used for another stats source: %T",
 				name, source))
 		}
 	}
-- 
2.43.0


From a548d7594d8480e5ecb6d55ff7c9ab64bc47ebbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:06 +0000
Subject: [PATCH 20/27] fix: scopes of inlined callers are named unknown

---
 callers.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/callers.go b/callers.go
index e9cec27..8a2b70f 100644
--- a/callers.go
+++ b/callers.go
@@ -25,10 +25,11 @@ func callerPackage(frames int) string {
 		return "unknown"
 	}
 	frame, _ := runtime.CallersFrames(pc[:]).Next()
-	if frame.Func == nil {
+	// frame.Func is nil for inlined functions, but frame.Function is not empty
+	if frame.Function == "" {
 		return "unknown"
 	}
-	slash_pieces := strings.Split(frame.Func.Name(), "/")
+	slash_pieces := strings.Split(frame.Function, "/")
 	dot_pieces := strings.SplitN(slash_pieces[len(slash_pieces)-1], ".", 2)
 	return strings.Join(slash_pieces[:len(slash_pieces)-1], "/") + "/" + dot_pieces[0]
 }
-- 
2.43.0


From ff3ca811bbfe3829157fb5553957143606823b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:20 +0000
Subject: [PATCH 21/27] fix: FuncsText loses the error of writing a function's
 parents

A write that failed while the parents of a function were listed was
forgotten by the next one, so a report with a gap in it was returned
as if it had been written.
---
 present/funcs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/present/funcs.go b/present/funcs.go
index 131fb2f..9ccae75 100644
--- a/present/funcs.go
+++ b/present/funcs.go
@@ -153,6 +153,9 @@ func FuncsText(r *monkit.Registry, w io.Writer) (err error) {
 				}
 			}
 		})
+		if err != nil {
+			return
+		}
 		var err_out bytes.Buffer
 		total_errors := int64(0)
 		for errname, count := range f.Errors() {
-- 
2.43.0


From 9a9a5a0a664980aa37ad8fd7b6254edc1c149a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:05 +0000
Subject: [PATCH 22/27] fix: the recorded response code is not the status that
 was sent

A superfluous WriteHeader replaced the status that was already sent, and
an informational status replaced the implicit 200 of the body after it.
---
 http/http.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/http/http.go b/http/http.go
index 9503f19..87ca4ae 100644
--- a/http/http.go
+++ b/http/http.go
@@ -44,17 +44,22 @@ func Wrap(w http.ResponseWriter) (http.ResponseWriter, func() int) {
 }
 
 type responseWriterObserver struct {
-	w  http.ResponseWriter
-	sc int
+	w     http.ResponseWriter
+	sc    int
+	final bool
 }
 
 func (w *responseWriterObserver) WriteHeader(statusCode int) {
-	w.sc = statusCode
+	// only the first status is sent, apart from informational ones before it
+	if !w.final {
+		w.sc = statusCode
+		w.final = statusCode >= 200 || statusCode == http.StatusSwitchingProtocols
+	}
 	w.w.WriteHeader(statusCode)
 }
 
 func (w *responseWriterObserver) Write(p []byte) (n int, err error) {
-	if w.sc == 0 {
+	if w.sc < 200 {
 		w.sc = 200
 	}
 	return w.w.Write(p)
-- 
2.43.0


From cf0cab7726d03f360518da79219bfe2350201d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:31 +0000
Subject: [PATCH 23/27] fix: data race between Task.Func and the first run of
 the task

---
 ctx.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ctx.go b/ctx.go
index d0fad0b..97f5048 100644
--- a/ctx.go
+++ b/ctx.go
@@ -17,6 +17,7 @@ package monkit
 import (
 	"context"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/spacemonkeygo/monkit/v3/monotime"
@@ -206,14 +207,23 @@ type Task func(ctx *context.Context, args ...interface{}) func(*error)
 func (s *Scope) Task(tags ...SeriesTag) Task {
 	var initOnce sync.Once
 	var f *Func
+	var named int32 // set once f is
 	return Task(func(ctx *context.Context,
 		args ...interface{}) func(*error) {
 		ctx = cleanCtx(ctx)
-		if ctx == &taskSecret && taskArgs(f, args) {
-			return nil
+		if ctx == &taskSecret {
+			// others may be running the task for the first time
+			var known *Func
+			if atomic.LoadInt32(&named) != 0 {
+				known = f
+			}
+			if taskArgs(known, args) {
+				return nil
+			}
 		}
 		initOnce.Do(func() {
 			f = s.FuncNamed(callerFunc(3), tags...)
+			atomic.StoreInt32(&named, 1)
 		})
 		s, exit := newSpan(*ctx, f, args, nil, nil)
 		if ctx != &unparented {
-- 
2.43.0


From 38fb41f213d93901844d937292f180d7d17f2b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:48 +0000
Subject: [PATCH 24/27] fix: bars of traces longer than 88 days are drawn at
 overflown positions

---
 present/trace.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/present/trace.go b/present/trace.go
index ebd10d4..e1b296f 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -289,7 +289,8 @@ func spansToSVG(w io.Writer, spans []*collect.FinishedSpan) error {
 		if total <= 0 {
 			return 0
 		}
-		return int(((t.UnixNano() - minStart.UnixNano()) * graphWidth) / total)
+		// in floating point, since the product overflows after 88 days
+		return int(float64(t.UnixNano()-minStart.UnixNano()) * graphWidth / float64(total))
 	}
 
 	max := func(x, y int) int {
-- 
2.43.0


From 8c446e661a4e480f85e0bd2b47a5ded2026bbbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:58 +0000
Subject: [PATCH 25/27] fix: a sampling callback that starts a matching span
 deadlocks the remote trace query

---
 present/path.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/present/path.go b/present/path.go
index 8eb6147..41b988f 100644
--- a/present/path.go
+++ b/present/path.go
@@ -237,12 +237,16 @@ func FromRequest(reg *monkit.Registry, path string, query url.Values) (
 						return false
 					}
 					traceMtx.Lock()
-					defer traceMtx.Unlock()
-					if trace == nil {
+					first := trace == nil
+					if first {
 						trace = s.Trace()
 						trace.Set(SampledKey, true)
-						if cb, exists := trace.Get(SampledCBKey).(func(*monkit.Trace)); exists {
-							cb(trace)
+					}
+					traceMtx.Unlock()
+					// outside of the mutex, since it may start spans that match
+					if first {
+						if cb, exists := s.Trace().Get(SampledCBKey).(func(*monkit.Trace)); exists {
+							cb(s.Trace())
 						}
 					}
 					return true
-- 
2.43.0


From cc5f1ff7e4baae05b0349a41be5a8c3e5e713c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:39 +0000
Subject: [PATCH 26/27] fix: packages with a dot in the last element of their
 path have several scopes

---
 callers.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/callers.go b/callers.go
index 8a2b70f..e0406e1 100644
--- a/callers.go
+++ b/callers.go
@@ -31,7 +31,13 @@ func callerPackage(frames int) string {
 	}
 	slash_pieces := strings.Split(frame.Function, "/")
 	dot_pieces := strings.SplitN(slash_pieces[len(slash_pieces)-1], ".", 2)
-	return strings.Join(slash_pieces[:len(slash_pieces)-1], "/") + "/" + dot_pieces[0]
+	// dots in the last element of the path are escaped, repeatedly when inlined
+	name := dot_pieces[0]
+	for strings.Contains(name, "%25") {
+		name = strings.ReplaceAll(name, "%25", "%")
+	}
+	name = strings.ReplaceAll(name, "%2e", ".")
+	return strings.Join(slash_pieces[:len(slash_pieces)-1], "/") + "/" + name
 }
 
 func callerFunc(frames int) string {
-- 
2.43.0


From 75787f735e627397469d08de5fb53db4cbe18589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:12 +0000
Subject: [PATCH 27/27] fix: asking for the quantile not-a-number panics

---
 distgen.go.m4 | 2 +-
 durdist.go    | 2 +-
 floatdist.go  | 2 +-
 intdist.go    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/distgen.go.m4 b/distgen.go.m4
index ccd35a0..4725548 100644
--- a/distgen.go.m4
+++ b/distgen.go.m4
@@ -142,7 +142,7 @@ func (d *_NAME_`Dist') Query(quantile float64) _TYPE_ {
 		d.sorted = true
 	}
 
-	if quantile <= 0 {
+	if !(quantile > 0) { // or not a number
 		return d.clamp(float64(reservoir[0]))
 	}
 	if quantile >= 1 {
diff --git a/durdist.go b/durdist.go
index fe556a3..4640802 100644
--- a/durdist.go
+++ b/durdist.go
@@ -142,7 +142,7 @@ func (d *DurationDist) Query(quantile float64) time.Duration {
 		d.sorted = true
 	}
 
-	if quantile <= 0 {
+	if !(quantile > 0) { // or not a number
 		return d.clamp(float64(reservoir[0]))
 	}
 	if quantile >= 1 {
diff --git a/floatdist.go b/floatdist.go
index b4ff06d..2afc3af 100644
--- a/floatdist.go
+++ b/floatdist.go
@@ -141,7 +141,7 @@ func (d *FloatDist) Query(quantile float64) float64 {
 		d.sorted = true
 	}
 
-	if quantile <= 0 {
+	if !(quantile > 0) { // or not a number
 		return d.clamp(float64(reservoir[0]))
 	}
 	if quantile >= 1 {
diff --git a/intdist.go b/intdist.go
index 747b809..b0ff074 100644
--- a/intdist.go
+++ b/intdist.go
@@ -141,7 +141,7 @@ func (d *IntDist) Query(quantile float64) int64 {
 		d.sorted = true
 	}
 
-	if quantile <= 0 {
+	if !(quantile > 0) { // or not a number
 		return d.clamp(float64(reservoir[0]))
 	}
 	if quantile >= 1 {
-- 
2.43.0

