From 569ea2d434edc2d636c9d5aae6515d9814c4b2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 01/29] fix: keep translate key spaces from sharing the
 prefix's backing array

---
 internal/f2/id.go               | 2 +-
 internal/translate/translate.go | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/f2/id.go b/internal/f2/id.go
index 9bc01df..2fb8e7e 100644
--- a/internal/f2/id.go
+++ b/internal/f2/id.go
@@ -10,7 +10,7 @@ type idGen struct {
 }
 
 func newID(db *badger.DB, prefix []byte) (*idGen, error) {
-	seq, err := db.GetSequence(append(prefix, []byte("id")...), 4<<10)
+	seq, err := db.GetSequence(append(prefix[:len(prefix):len(prefix)], []byte("id")...), 4<<10)
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/translate/translate.go b/internal/translate/translate.go
index ff9da7b..84db055 100644
--- a/internal/translate/translate.go
+++ b/internal/translate/translate.go
@@ -17,6 +17,10 @@ type Translate struct {
 }
 
 func New(db *badger.DB, prefix []byte) (*Translate, error) {
+	// Each key space owns its bytes. Appending directly to prefix may share its
+	// spare capacity between all three (and with the caller).
+	prefix = bytes.Clone(prefix)
+	prefix = prefix[:len(prefix):len(prefix)]
 	seq, err := db.GetSequence(append(prefix, []byte("seq")...), 4<<10)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 9e008b843f0dee967680f5cd5c91848ed25ed84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 02/29] fix: index the resource label of the sample itself, not
 of the previous one

---
 internal/transform/transform.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/transform/transform.go b/internal/transform/transform.go
index f84019f..15d1f54 100644
--- a/internal/transform/transform.go
+++ b/internal/transform/transform.go
@@ -46,9 +46,11 @@ func (c *Context) processSample(sample *v1.Sample) {
 	c.minTs = 0
 	c.maxTs = 0
 	c.positions = bitmaps.New()
-	c.init()
+	c.WithResource(v1.RESOURCE_UNKOWN)
 	c.WithSample(sample.Id).
 		data(sample.Data)
+	// The resource is only known after going through the data.
+	c.init()
 	sample.MinTs = c.minTs
 	sample.MaxTs = c.maxTs
 	c.batch.Add(
-- 
2.43.0


From 9bb4734c6de3543f25190da7a20a6087024a8475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 03/29] fix: ignore unset timestamps when computing the time
 bounds of a sample

---
 internal/transform/transform.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/transform/transform.go b/internal/transform/transform.go
index 15d1f54..3c0241d 100644
--- a/internal/transform/transform.go
+++ b/internal/transform/transform.go
@@ -183,6 +183,10 @@ func (c *Context) attributes(prefix v1.PREFIX, kv []*commonv1.KeyValue) {
 }
 
 func (c *Context) Timestamp(ts uint64) {
+	if ts == 0 {
+		// unset
+		return
+	}
 	if c.minTs == 0 {
 		c.minTs = ts
 	}
@@ -199,9 +203,6 @@ func (c *Context) Reset() {
 }
 
 func (c *Context) Range(start, end uint64) {
-	if c.minTs == 0 {
-		c.minTs = start
-	}
-	c.minTs = min(c.minTs, start)
-	c.maxTs = max(c.maxTs, end)
+	c.Timestamp(start)
+	c.Timestamp(end)
 }
-- 
2.43.0


From 869a22d9d41f364f8af6f4f8e32b1965fb304b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 04/29] fix: index span attributes

---
 internal/transform/trace.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/transform/trace.go b/internal/transform/trace.go
index 5805585..ec6c369 100644
--- a/internal/transform/trace.go
+++ b/internal/transform/trace.go
@@ -41,6 +41,7 @@ func (c *Context) transformTrace(rm *tracev1.ResourceSpans) {
 						WithKey(hex.EncodeToString(span.ParentSpanId))
 				})
 			}
+			c.attributes(v1.PREFIX_ATTRIBUTES, span.Attributes)
 			c.Range(span.StartTimeUnixNano, span.EndTimeUnixNano)
 		}
 	}
-- 
2.43.0


From aebaf19bb512fa4607eb40b8c9bdddeff0087f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 05/29] fix: search the views of partial units at both ends of
 a time range

---
 internal/dataframe/dataframe.go |  3 +--
 internal/shards/shards.go       |  8 +------
 internal/view/view.go           | 40 +++++++++++++++++++++++++++++++--
 3 files changed, 40 insertions(+), 11 deletions(-)

diff --git a/internal/dataframe/dataframe.go b/internal/dataframe/dataframe.go
index e88c989..ce90182 100644
--- a/internal/dataframe/dataframe.go
+++ b/internal/dataframe/dataframe.go
@@ -12,7 +12,6 @@ import (
 	"github.com/apache/arrow/go/v17/arrow/memory"
 	"github.com/dgraph-io/badger/v4"
 	"github.com/gernest/arrow3"
-	"github.com/gernest/rbf/quantum"
 	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
 	"github.com/gernest/requiemdb/internal/arena"
 	"github.com/gernest/requiemdb/internal/batch"
@@ -79,7 +78,7 @@ func readRows(r arrow.Record, rows []int) []*v1.Data {
 }
 
 func (df *DataFrame) View(ctx context.Context, resource v1.Scan_SCOPE, start, end time.Time, columns []int, rows *bitmaps.Bitmap, f ViewFn) error {
-	all := quantum.ViewsByTimeRange(view.StdView, start, end, view.ChooseQuantum(end.Sub(start)))
+	all := view.Search(start, end)
 	var set string
 	switch resource {
 	case v1.Scan_METRICS:
diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index 9faac59..1fa00f3 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -12,7 +12,6 @@ import (
 
 	"github.com/gernest/rbf"
 	"github.com/gernest/rbf/cfg"
-	"github.com/gernest/rbf/quantum"
 	"github.com/gernest/requiemdb/internal/bitmaps"
 	"github.com/gernest/requiemdb/internal/rows"
 	"github.com/gernest/requiemdb/internal/view"
@@ -20,8 +19,6 @@ import (
 	"github.com/gernest/roaring/shardwidth"
 )
 
-const stdView = view.StdView
-
 type Shards struct {
 	config cfg.Config
 	mu     sync.RWMutex
@@ -104,10 +101,7 @@ func (s *Shards) Rows(start, end time.Time, columns *bitmaps.Bitmap) (*bitmaps.B
 		shard := col / shardwidth.ShardWidth
 		m[shard] = append(m[shard], col)
 	}
-	views := quantum.ViewsByTimeRange(stdView, start, end, view.ChooseQuantum(
-		end.Sub(start),
-	))
-	return s.rows(views, m)
+	return s.rows(view.Search(start, end), m)
 }
 
 func (s *Shards) rows(views []string, columns map[uint64][]uint64) (r *bitmaps.Bitmap, err error) {
diff --git a/internal/view/view.go b/internal/view/view.go
index 8deb4ab..ad2a983 100644
--- a/internal/view/view.go
+++ b/internal/view/view.go
@@ -47,9 +47,45 @@ func ChooseQuantum(duration time.Duration) quantum.TimeQuantum {
 	return QH
 }
 
+// Search returns names of all views covering [start, end).
 func Search(start, end time.Time) []string {
-	return quantum.ViewsByTimeRange(StdView, start, end,
-		ChooseQuantum(end.Sub(start)))
+	q := ChooseQuantum(end.Sub(start))
+	// Views cover whole units. Partial units on both ends must be part of the
+	// search.
+	from, to := floor(start, q), floor(end, q)
+	if to.Before(end) {
+		to = next(to, q)
+	}
+	return quantum.ViewsByTimeRange(StdView, from, to, q)
+}
+
+// floor returns the beginning of the unit of q that contains t.
+func floor(t time.Time, q quantum.TimeQuantum) time.Time {
+	t = t.UTC()
+	switch q {
+	case QY:
+		return time.Date(t.Year(), time.January, 1, 0, 0, 0, 0, time.UTC)
+	case QM:
+		return time.Date(t.Year(), t.Month(), 1, 0, 0, 0, 0, time.UTC)
+	case QD:
+		return time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC)
+	default:
+		return time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), 0, 0, 0, time.UTC)
+	}
+}
+
+// next returns the beginning of the unit of q that follows the one starting at t.
+func next(t time.Time, q quantum.TimeQuantum) time.Time {
+	switch q {
+	case QY:
+		return t.AddDate(1, 0, 0)
+	case QM:
+		return t.AddDate(0, 1, 0)
+	case QD:
+		return t.AddDate(0, 0, 1)
+	default:
+		return t.Add(time.Hour)
+	}
 }
 
 // Pos generates position in a bitmap
-- 
2.43.0


From 9d8517d7e274707466bf5a690ca490f08a60cd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 06/29] fix: a shard without matching rows empties the
 intersection

---
 internal/shards/shards.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index 1fa00f3..b4f9daf 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -139,22 +139,18 @@ func (s *Shards) rows(views []string, columns map[uint64][]uint64) (r *bitmaps.B
 			}
 		}
 		tx.Rollback()
-		if !b.IsEmpty() {
-			if r == nil {
-				// first column set
-				r = bitmaps.New()
-				r.Or(&b.Bitmap)
-			} else {
-				some := !r.IsEmpty()
-				r.And(&b.Bitmap)
-				if r.IsEmpty() && some {
-					// this shard resulted in no match. No need to keep searching
-					b.Release()
-					return
-				}
-			}
+		if r == nil {
+			// first column set
+			r = bitmaps.New()
+			r.Or(&b.Bitmap)
+		} else {
+			r.And(&b.Bitmap)
 		}
 		b.Release()
+		if r.IsEmpty() {
+			// this shard resulted in no match. No need to keep searching
+			return
+		}
 	}
 	return
 }
-- 
2.43.0


From f78a7e4b7b27a511dd33bbcd3d2b89dd14584925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 07/29] fix: search stored shards that were not opened yet by
 this process

---
 internal/shards/shards.go | 47 +++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/internal/shards/shards.go b/internal/shards/shards.go
index b4f9daf..1ecbd63 100644
--- a/internal/shards/shards.go
+++ b/internal/shards/shards.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"io"
 	"log/slog"
+	"os"
 	"path/filepath"
 	"slices"
 	"strconv"
@@ -105,14 +106,15 @@ func (s *Shards) Rows(start, end time.Time, columns *bitmaps.Bitmap) (*bitmaps.B
 }
 
 func (s *Shards) rows(views []string, columns map[uint64][]uint64) (r *bitmaps.Bitmap, err error) {
-	s.mu.RLock()
-	defer s.mu.RUnlock()
-
+	var db *rbf.DB
 	var tx *rbf.Tx
 	var fs []roaring.BitmapFilter
 	for k, f := range columns {
-		db, ok := s.db[k]
-		if !ok {
+		db, err = s.lookup(k)
+		if err != nil {
+			return
+		}
+		if db == nil {
 			// Matches should be true for all filters.
 			if r != nil {
 				r.Clear()
@@ -196,22 +198,49 @@ func (s *Shards) get(shard uint64) (*rbf.DB, error) {
 		return r, nil
 	}
 	s.mu.RUnlock()
-	path := filepath.Join(s.dir, strconv.FormatUint(shard, 10))
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	// It may have been opened while we were waiting for the lock.
+	r, ok = s.db[shard]
+	if ok {
+		return r, nil
+	}
 	config := s.config
 	config.Logger = slog.Default().With(
 		slog.Uint64("shard", shard),
 	)
-	r = rbf.NewDB(path, &config)
+	r = rbf.NewDB(s.path(shard), &config)
 	err := r.Open()
 	if err != nil {
 		return nil, err
 	}
-	s.mu.Lock()
 	s.db[shard] = r
-	s.mu.Unlock()
 	return r, nil
 }
 
+// lookup is like get but only opens shards that are already stored. Returns nil
+// for shards that were never written.
+func (s *Shards) lookup(shard uint64) (*rbf.DB, error) {
+	s.mu.RLock()
+	r, ok := s.db[shard]
+	s.mu.RUnlock()
+	if ok {
+		return r, nil
+	}
+	_, err := os.Stat(s.path(shard))
+	if err != nil {
+		if errors.Is(err, os.ErrNotExist) {
+			return nil, nil
+		}
+		return nil, err
+	}
+	return s.get(shard)
+}
+
+func (s *Shards) path(shard uint64) string {
+	return filepath.Join(s.dir, strconv.FormatUint(shard, 10))
+}
+
 func (s *Shards) Close() error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
-- 
2.43.0


From c600e81748c4f01d004326edeed73b99653b1594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 08/29] fix: report failures of reading samples and never
 answer a scan with nil data

---
 internal/store/scan.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/store/scan.go b/internal/store/scan.go
index c13c14c..52ffd98 100644
--- a/internal/store/scan.go
+++ b/internal/store/scan.go
@@ -66,6 +66,12 @@ func (s *Storage) Scan(ctx context.Context, scan *v1.Scan) (result *v1.Data, err
 	default:
 		return nil, fmt.Errorf("%d is not a supported resource", resource)
 	}
+	if err != nil {
+		return nil, err
+	}
+	if len(rs) == 0 {
+		return data.Zero(resource), nil
+	}
 	return data.Collapse(rs), nil
 }
 
-- 
2.43.0


From 360e55c7966547ae5189cabc8aa763f981a6692c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 09/29] fix: do not merge metrics of different kinds when
 collapsing samples

---
 internal/data/metrics.go |  6 +++---
 internal/data/sort.go    | 24 ++++++++++++++++++++++--
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/internal/data/metrics.go b/internal/data/metrics.go
index 7ab6622..c3986bf 100644
--- a/internal/data/metrics.go
+++ b/internal/data/metrics.go
@@ -25,7 +25,7 @@ func CollapseMetrics(ds []*metricsV1.MetricsData) *metricsV1.MetricsData {
 					sh := xm.hashScope(rh, sm.SchemaUrl, sm.Scope)
 					xm.scope[sh] = sm
 					for _, m := range sm.Metrics {
-						mh := xm.hashMetrics(sh, m.Name)
+						mh := xm.hashMetrics(sh, m)
 						xm.metrics[mh] = m
 					}
 				}
@@ -38,13 +38,13 @@ func CollapseMetrics(ds []*metricsV1.MetricsData) *metricsV1.MetricsData {
 					xm.scope[sh] = sm
 					resource.ScopeMetrics = append(resource.ScopeMetrics, sm)
 					for _, m := range sm.Metrics {
-						mh := xm.hashMetrics(sh, m.Name)
+						mh := xm.hashMetrics(sh, m)
 						xm.metrics[mh] = m
 					}
 					continue
 				}
 				for _, m := range sm.Metrics {
-					mh := xm.hashMetrics(sh, m.Name)
+					mh := xm.hashMetrics(sh, m)
 					om, ok := xm.metrics[mh]
 					if !ok {
 						scope.Metrics = append(scope.Metrics, m)
diff --git a/internal/data/sort.go b/internal/data/sort.go
index c2f3401..edc4c9e 100644
--- a/internal/data/sort.go
+++ b/internal/data/sort.go
@@ -7,6 +7,7 @@ import (
 
 	"github.com/cespare/xxhash/v2"
 	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
+	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
 	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
 	"google.golang.org/protobuf/proto"
 )
@@ -42,13 +43,32 @@ func newSorter[T any, R any, S any]() *Sorter[T, R, S] {
 	}
 }
 
-func (r *Sorter[T, R, S]) hashMetrics(scope uint64, name string) uint64 {
+func (r *Sorter[T, R, S]) hashMetrics(scope uint64, m *metricsv1.Metric) uint64 {
 	r.h.Reset()
 	r.hashNum(scope)
-	r.h.WriteString(name)
+	// data points of different kinds can't be merged
+	r.hashNum(metricKind(m))
+	r.h.WriteString(m.Name)
 	return r.h.Sum64()
 }
 
+func metricKind(m *metricsv1.Metric) uint64 {
+	switch m.Data.(type) {
+	case *metricsv1.Metric_Gauge:
+		return 1
+	case *metricsv1.Metric_Sum:
+		return 2
+	case *metricsv1.Metric_Histogram:
+		return 3
+	case *metricsv1.Metric_ExponentialHistogram:
+		return 4
+	case *metricsv1.Metric_Summary:
+		return 5
+	default:
+		return 0
+	}
+}
+
 func (r *Sorter[T, R, S]) hashNum(v uint64) {
 	binary.BigEndian.PutUint64(r.buf[:8], v)
 	r.h.Write(r.buf[:8])
-- 
2.43.0


From 92c3d2b50815285ae404eeb91ae1f8f674b4d769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 10/29] fix: tell apart resources and scopes whose fields
 concatenate to the same bytes

---
 internal/data/sort.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/internal/data/sort.go b/internal/data/sort.go
index edc4c9e..54a4da2 100644
--- a/internal/data/sort.go
+++ b/internal/data/sort.go
@@ -70,14 +70,14 @@ func metricKind(m *metricsv1.Metric) uint64 {
 }
 
 func (r *Sorter[T, R, S]) hashNum(v uint64) {
-	binary.BigEndian.PutUint64(r.buf[:8], v)
-	r.h.Write(r.buf[:8])
-	r.buf = r.buf[:0]
+	var b [8]byte
+	binary.BigEndian.PutUint64(b[:], v)
+	r.h.Write(b[:])
 }
 
 func (r *Sorter[T, R, S]) hashResource(schema string, resource *resourcev1.Resource) uint64 {
 	r.h.Reset()
-	r.h.WriteString(schema)
+	r.hashString(schema)
 	if resource != nil {
 		r.attr(resource.Attributes)
 	}
@@ -87,10 +87,10 @@ func (r *Sorter[T, R, S]) hashResource(schema string, resource *resourcev1.Resou
 func (r *Sorter[T, R, S]) hashScope(resource uint64, schema string, scope *commonv1.InstrumentationScope) uint64 {
 	r.h.Reset()
 	r.hashNum(resource)
-	r.h.WriteString(schema)
+	r.hashString(schema)
 	if scope != nil {
-		r.h.WriteString(scope.Name)
-		r.h.WriteString(scope.Version)
+		r.hashString(scope.Name)
+		r.hashString(scope.Version)
 		if scope.Attributes != nil {
 			r.attr(scope.Attributes)
 		}
@@ -134,6 +134,14 @@ func (r *Sorter[T, R, S]) Swap(i, j int) {
 func (r *Sorter[T, R, S]) attr(kv []*commonv1.KeyValue) {
 	for _, v := range kv {
 		r.buf, _ = proto.MarshalOptions{}.MarshalAppend(r.buf[:0], v)
+		r.hashNum(uint64(len(r.buf)))
 		r.h.Write(r.buf)
 	}
 }
+
+// hashString writes length prefixed v. Adjacent strings must not run into each
+// other.
+func (r *Sorter[T, R, S]) hashString(v string) {
+	r.hashNum(uint64(len(v)))
+	r.h.WriteString(v)
+}
-- 
2.43.0


From b01acfa4a292615a0cdf2594593b3ac6358f48b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 11/29] fix: match attribute filters against record attributes,
 not scope attributes

---
 internal/visit/visit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 6a250ab..3c72391 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -115,7 +115,7 @@ func (o *All) Compile(filters ...*v1.Scan_Filter) {
 			case v1.Scan_SCOPE_ATTRIBUTES:
 				o.SetScopeAttr(e.Attr.Key, e.Attr.Value)
 			case v1.Scan_ATTRIBUTES:
-				o.SetScopeAttr(e.Attr.Key, e.Attr.Value)
+				o.SetAttr(e.Attr.Key, e.Attr.Value)
 			}
 		}
 	}
-- 
2.43.0


From bc72615e40bfdbfce4bf1da003cdb4635ff04407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 12/29] fix: apply trace and span id filters to the ids they
 name

---
 internal/visit/logs.go  | 2 ++
 internal/visit/trace.go | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/visit/logs.go b/internal/visit/logs.go
index 861ccbd..e001ed1 100644
--- a/internal/visit/logs.go
+++ b/internal/visit/logs.go
@@ -24,6 +24,8 @@ func (Logs) Visit(data *logsv1.LogsData, visitor *All) *logsv1.LogsData {
 			for _, ms := range sm.LogRecords {
 				if !(visitor.AcceptLogLevel(ms.SeverityText) &&
 					visitor.AcceptTimestamp(ms.TimeUnixNano) &&
+					visitor.AcceptTraceID(ms.TraceId) &&
+					visitor.AcceptSpanID(ms.SpanId) &&
 					visitor.AcceptAttributes(ms.Attributes)) {
 					continue
 				}
diff --git a/internal/visit/trace.go b/internal/visit/trace.go
index a610ad4..3a25c95 100644
--- a/internal/visit/trace.go
+++ b/internal/visit/trace.go
@@ -25,7 +25,8 @@ func (Trace) Visit(data *tracev1.TracesData, visitor *All) *tracev1.TracesData {
 				if !(visitor.AcceptName(ms.Name) &&
 					visitor.AcceptTimestamp(ms.StartTimeUnixNano) &&
 					visitor.AcceptTraceID(ms.TraceId) &&
-					visitor.AcceptParentSpanID(ms.SpanId) &&
+					visitor.AcceptSpanID(ms.SpanId) &&
+					visitor.AcceptParentSpanID(ms.ParentSpanId) &&
 					visitor.AcceptAttributes(ms.Attributes)) {
 					continue
 				}
-- 
2.43.0


From 5fbc388693b55a7aeb83d93fc8d7b0ed55baca9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 13/29] fix: keep scope schema and metric metadata of trimmed
 records

---
 internal/visit/logs.go    |  3 ++-
 internal/visit/metrics.go | 40 +++++++++++++++++++++++++++++----------
 internal/visit/trace.go   |  3 ++-
 3 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/internal/visit/logs.go b/internal/visit/logs.go
index e001ed1..71017d4 100644
--- a/internal/visit/logs.go
+++ b/internal/visit/logs.go
@@ -31,7 +31,8 @@ func (Logs) Visit(data *logsv1.LogsData, visitor *All) *logsv1.LogsData {
 				}
 				if scope == nil {
 					scope = &logsv1.ScopeLogs{
-						Scope: sm.Scope,
+						Scope:     sm.Scope,
+						SchemaUrl: sm.SchemaUrl,
 					}
 				}
 				scope.LogRecords = append(scope.LogRecords, ms)
diff --git a/internal/visit/metrics.go b/internal/visit/metrics.go
index 886ebff..780f19d 100644
--- a/internal/visit/metrics.go
+++ b/internal/visit/metrics.go
@@ -38,11 +38,15 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_Gauge{
 								Gauge: &metricsV1.Gauge{
 									DataPoints: points,
@@ -62,11 +66,15 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_Sum{
 								Sum: &metricsV1.Sum{
 									DataPoints:             points,
@@ -89,11 +97,15 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_Histogram{
 								Histogram: &metricsV1.Histogram{
 									DataPoints:             points,
@@ -115,11 +127,15 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_ExponentialHistogram{
 								ExponentialHistogram: &metricsV1.ExponentialHistogram{
 									DataPoints:             points,
@@ -141,11 +157,15 @@ func (Metrics) Visit(data *metricsV1.MetricsData, visitor *All) *metricsV1.Metri
 					if len(points) > 0 {
 						if scope == nil {
 							scope = &metricsV1.ScopeMetrics{
-								Scope: sm.Scope,
+								Scope:     sm.Scope,
+								SchemaUrl: sm.SchemaUrl,
 							}
 						}
 						scope.Metrics = append(scope.Metrics, &metricsV1.Metric{
-							Name: ms.Name,
+							Name:        ms.Name,
+							Description: ms.Description,
+							Unit:        ms.Unit,
+							Metadata:    ms.Metadata,
 							Data: &metricsV1.Metric_Summary{
 								Summary: &metricsV1.Summary{
 									DataPoints: points,
diff --git a/internal/visit/trace.go b/internal/visit/trace.go
index 3a25c95..5c0aa20 100644
--- a/internal/visit/trace.go
+++ b/internal/visit/trace.go
@@ -32,7 +32,8 @@ func (Trace) Visit(data *tracev1.TracesData, visitor *All) *tracev1.TracesData {
 				}
 				if scope == nil {
 					scope = &tracev1.ScopeSpans{
-						Scope: sm.Scope,
+						Scope:     sm.Scope,
+						SchemaUrl: sm.SchemaUrl,
 					}
 				}
 				scope.Spans = append(scope.Spans, ms)
-- 
2.43.0


From a279fd8de081c51374a36e6377996eb366f3b3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 14/29] fix: report the end of the visitor's time range

---
 internal/visit/visit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 3c72391..3fd1044 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -262,7 +262,7 @@ func (a *All) AcceptAttributes(attr []*commonV1.KeyValue) bool {
 }
 
 func (a *All) TimeRange() (start, end uint64) {
-	return a.start_nano, a.start_nano
+	return a.start_nano, a.end_nano
 }
 
 func (a *All) AcceptLogLevel(lvl string) bool {
-- 
2.43.0


From ca91ed8fc38139869cc1cc0254e812b1c8d63877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 15/29] fix: treat attributes without a value as empty

---
 internal/f2/attr.go          | 2 +-
 internal/render/attribute.go | 2 +-
 internal/visit/visit.go      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/f2/attr.go b/internal/f2/attr.go
index 02112f2..ce42c2a 100644
--- a/internal/f2/attr.go
+++ b/internal/f2/attr.go
@@ -87,7 +87,7 @@ func (a *Attr) do(b *roaring64.Bitmap, kv []*v1.KeyValue) {
 }
 
 func toString(b *bytes.Buffer, a *v1.AnyValue) bool {
-	switch e := a.Value.(type) {
+	switch e := a.GetValue().(type) {
 	case *v1.AnyValue_StringValue:
 		b.WriteString(e.StringValue)
 		return true
diff --git a/internal/render/attribute.go b/internal/render/attribute.go
index 8a64086..fd07060 100644
--- a/internal/render/attribute.go
+++ b/internal/render/attribute.go
@@ -18,7 +18,7 @@ func attr(kv []*v1.KeyValue) string {
 }
 
 func value(b *bytes.Buffer, v *v1.AnyValue) {
-	switch e := v.Value.(type) {
+	switch e := v.GetValue().(type) {
 	case *v1.AnyValue_StringValue:
 		fmt.Fprintf(b, "%q", e.StringValue)
 	case *v1.AnyValue_BoolValue:
diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index 3fd1044..a97aa1e 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -291,7 +291,7 @@ func matchAttr(a *roaring64.Bitmap, ls []*commonV1.KeyValue) bool {
 	defer b.Release()
 	var h xxhash.Digest
 	for _, k := range ls {
-		switch e := k.Value.Value.(type) {
+		switch e := k.GetValue().GetValue().(type) {
 		case *commonV1.AnyValue_StringValue:
 			h.Reset()
 			h.WriteString(k.Key)
-- 
2.43.0


From b6230ed50eeb153e6ca238a0856402dbc68a73ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 16/29] fix: store the first sample of a view at the row of its
 id

---
 internal/dataframe/dataframe.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/dataframe/dataframe.go b/internal/dataframe/dataframe.go
index ce90182..2e999ec 100644
--- a/internal/dataframe/dataframe.go
+++ b/internal/dataframe/dataframe.go
@@ -221,21 +221,21 @@ func (df *DataFrame) appendView(ctx context.Context, view string, samples []*v1.
 		}
 		// Sample ID == Row ID, for each view we need to store a contiguous rows
 		// starting from 0
-		var lastId uint64
+		var next uint64
 		if r != nil {
-			lastId = uint64(r.NumRows()) - 1
+			next = uint64(r.NumRows())
 			defer r.Release()
 		}
 		empty := &v1.Data{}
 		for _, s := range samples {
 			setSample(s)
-			for i := lastId + 1; i < s.Id; i++ {
+			for i := next; i < s.Id; i++ {
 				// we fill the blanks with empty data. All records in all views have the
 				// same number of columns
 				schema.Append(empty)
 			}
 			schema.Append(s.Data)
-			lastId = s.Id
+			next = s.Id + 1
 		}
 		if r != nil {
 			b := schema.NewRecord()
-- 
2.43.0


From 63c5625e401091e927d6b69aac4ea783bb9ca0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 17/29] fix: keep resource and scope columns of metric points

---
 internal/f2/attr.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/f2/attr.go b/internal/f2/attr.go
index ce42c2a..60e3b9d 100644
--- a/internal/f2/attr.go
+++ b/internal/f2/attr.go
@@ -25,12 +25,14 @@ func newAttr() *Attr {
 func (a *Attr) Resource(r *resouncev1.Resource) {
 	a.resource = a.resource[:0]
 	a.resource = append(a.resource, r.GetAttributes()...)
+	a.rb.Clear()
 	a.do(&a.rb, a.resource)
 }
 
 func (a *Attr) Scope(scope *v1.InstrumentationScope) {
 	a.scope = a.scope[:0]
 	a.scope = append(a.scope, scope.GetAttributes()...)
+	a.sb.Clear()
 	a.do(&a.sb, a.scope)
 }
 
@@ -75,7 +77,6 @@ func (a *Attr) name(name []byte) {
 }
 
 func (a *Attr) do(b *roaring64.Bitmap, kv []*v1.KeyValue) {
-	b.Clear()
 	for _, v := range kv {
 		a.b.Reset()
 		a.b.WriteString(v.Key)
-- 
2.43.0


From a84203795e9747b9498ea49bd8180fce2c1471a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 18/29] fix: store sum points as counters, not as gauges

---
 internal/f2/metrics.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/f2/metrics.go b/internal/f2/metrics.go
index 652a7a2..3da1d32 100644
--- a/internal/f2/metrics.go
+++ b/internal/f2/metrics.go
@@ -142,10 +142,10 @@ func (m *Metrics) sum(mx *v1.Metric, a *Attr, g *metricsv1.Sum) {
 		mx.Exemplars = dp.Exemplars
 		switch e := dp.Value.(type) {
 		case *metricsv1.NumberDataPoint_AsDouble:
-			mx.Gauge = &e.AsDouble
+			mx.Counter = &e.AsDouble
 		case *metricsv1.NumberDataPoint_AsInt:
 			f := float64(e.AsInt)
-			mx.Gauge = &f
+			mx.Counter = &f
 		}
 		mx.Attributes, columns, mx.Hash = a.Attr(name, dp.Attributes)
 		id := m.id.Next()
-- 
2.43.0


From 7c589204cdecf3b9f53f97be10c9daca7d83aac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 19/29] fix: points without a value must not inherit the
 previous point's value

---
 internal/f2/metrics.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/f2/metrics.go b/internal/f2/metrics.go
index 3da1d32..9d9f430 100644
--- a/internal/f2/metrics.go
+++ b/internal/f2/metrics.go
@@ -113,6 +113,7 @@ func (m *Metrics) gauge(mx *v1.Metric, a *Attr, g *metricsv1.Gauge) {
 		mx.StartTimeUnixNano = dp.StartTimeUnixNano
 		mx.TimeUnixNano = dp.TimeUnixNano
 		mx.Exemplars = dp.Exemplars
+		mx.Gauge = nil
 		switch e := dp.Value.(type) {
 		case *metricsv1.NumberDataPoint_AsDouble:
 			mx.Gauge = &e.AsDouble
@@ -140,6 +141,7 @@ func (m *Metrics) sum(mx *v1.Metric, a *Attr, g *metricsv1.Sum) {
 		mx.StartTimeUnixNano = dp.StartTimeUnixNano
 		mx.TimeUnixNano = dp.TimeUnixNano
 		mx.Exemplars = dp.Exemplars
+		mx.Counter = nil
 		switch e := dp.Value.(type) {
 		case *metricsv1.NumberDataPoint_AsDouble:
 			mx.Counter = &e.AsDouble
-- 
2.43.0


From 07246dcf135b8381317f804b13bf3ad4cf20846f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 20/29] fix: freeze the row's own segments and check the right
 value for floats

---
 internal/rows/row.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/rows/row.go b/internal/rows/row.go
index 906b73e..1fbbe50 100644
--- a/internal/rows/row.go
+++ b/internal/rows/row.go
@@ -103,7 +103,7 @@ func (v Value) Int() uint64 {
 }
 
 func (v Value) Float64() float64 {
-	if v.int != nil {
+	if v.double != nil {
 		return *v.double
 	}
 	return 0
@@ -292,8 +292,8 @@ func (r *Row) IsEmpty() bool {
 }
 
 func (r *Row) Freeze() {
-	for _, s := range r.Segments {
-		s.Freeze()
+	for i := range r.Segments {
+		r.Segments[i].Freeze()
 	}
 }
 
-- 
2.43.0


From 69d8af698694a0dffa45e3b8965ef58ae74ddb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 21/29] fix: reading past the end of a compressed stream must
 not panic

---
 internal/compress/grpc.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/compress/grpc.go b/internal/compress/grpc.go
index d2398f8..4e10947 100644
--- a/internal/compress/grpc.go
+++ b/internal/compress/grpc.go
@@ -48,6 +48,10 @@ type readCodec struct {
 }
 
 func (r *readCodec) Read(p []byte) (n int, err error) {
+	if r.Decoder == nil {
+		// already handed back at the end of the stream
+		return 0, io.EOF
+	}
 	n, err = r.Decoder.Read(p)
 	if err != nil {
 		r.Reset(nil)
@@ -58,6 +62,9 @@ func (r *readCodec) Read(p []byte) (n int, err error) {
 }
 
 func (r *readCodec) WriteTo(w io.Writer) (n int64, err error) {
+	if r.Decoder == nil {
+		return 0, nil
+	}
 	n, err = r.Decoder.WriteTo(w)
 	r.Reset(nil)
 	putDecoder(r.Decoder)
-- 
2.43.0


From e29306bb29e2bdf30df54b400b43d9d4d30ee860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 22/29] fix: globals of a script must not be visible to the
 next user of a pooled runtime

---
 internal/js/rq.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/internal/js/rq.go b/internal/js/rq.go
index 42352a6..4d94af4 100644
--- a/internal/js/rq.go
+++ b/internal/js/rq.go
@@ -53,15 +53,23 @@ func (o *JS) GetNow() time.Time {
 
 func (o *JS) Release() {
 	o.Reset()
+	// Scripts can leave globals behind and change built in objects.
+	o.setup()
 	jsPool.Put(o)
 }
 
 func newJS() *JS {
-	r := goja.New()
 	o := &JS{
-		Runtime: r,
-		Output:  io.Discard,
+		Output: io.Discard,
 	}
+	o.setup()
+	return o
+}
+
+// setup gives o a new runtime.
+func (o *JS) setup() {
+	r := goja.New()
+	o.Runtime = r
 	r.SetFieldNameMapper(goja.TagFieldNameMapper("json", false))
 	err := errors.Join(
 		r.Set("SCAN", &Scan{o: o}),
@@ -70,7 +78,6 @@ func newJS() *JS {
 	if err != nil {
 		logger.Fail("failed creating new js runtime", "err", err)
 	}
-	return o
 }
 
 var jsPool = &sync.Pool{New: func() any { return newJS() }}
-- 
2.43.0


From 745cc78a50fc59d132773a2e40045f04047318ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 23/29] fix: concurrent lookups must not share a key buffer

---
 internal/translate/translate.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/translate/translate.go b/internal/translate/translate.go
index 84db055..0d592c5 100644
--- a/internal/translate/translate.go
+++ b/internal/translate/translate.go
@@ -125,7 +125,8 @@ var kb = &sync.Pool{New: func() any { return new(bytes.Buffer) }}
 // Find finds translated key. Returns 0 if no key was found
 func (b *Translate) Find(key []byte) (n uint64, err error) {
 	err = b.db.Update(func(txn *badger.Txn) error {
-		k := append(b.keys, key...)
+		// b.keys may have spare capacity, which concurrent lookups would share.
+		k := append(b.keys[:len(b.keys):len(b.keys)], key...)
 		it, err := txn.Get(k)
 		if err != nil {
 			return err
-- 
2.43.0


From 6e8c38ae73b61c215f59f828a104067b010c76f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:57 +0000
Subject: [PATCH 24/29] fix: hash long attribute filters like the attributes
 they are compared with

---
 internal/visit/visit.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/visit/visit.go b/internal/visit/visit.go
index a97aa1e..0913dfb 100644
--- a/internal/visit/visit.go
+++ b/internal/visit/visit.go
@@ -162,6 +162,7 @@ var sep = []byte("=")
 
 func attr(k, v string) uint64 {
 	var h xxhash.Digest
+	h.Reset()
 	h.WriteString(k)
 	h.Write(sep)
 	h.WriteString(v)
-- 
2.43.0


From 49554a5cf8d6ceaf1d63da6c36d38717f67f7f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:12 +0000
Subject: [PATCH 25/29] fix: a bitmap with columns in the last shard must not
 be split forever

---
 internal/rows/row.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/internal/rows/row.go b/internal/rows/row.go
index 1fbbe50..e4c6ef7 100644
--- a/internal/rows/row.go
+++ b/internal/rows/row.go
@@ -228,17 +228,25 @@ func NewRowFromBitmap(b *roaring.Bitmap) *Row {
 	if b == nil {
 		return r
 	}
-	rowNum := uint64(0)
-	for col, ok := b.MinAt(rowNum * shardwidth.ShardWidth); ok; col, ok = b.MinAt(rowNum * shardwidth.ShardWidth) {
-		rowNum = col / shardwidth.ShardWidth
-		seg := RowSegment{
-			shard:    rowNum,
-			data:     b.OffsetRange(rowNum*shardwidth.ShardWidth, rowNum*shardwidth.ShardWidth, (rowNum+1)*shardwidth.ShardWidth),
-			writable: true,
+	const containers = shardwidth.ShardWidth >> 16
+	itr, _ := b.Containers.Iterator(0)
+	defer itr.Close()
+	for itr.Next() {
+		key, c := itr.Value()
+		if c.N() == 0 {
+			continue
+		}
+		shard := key / containers
+		if n := len(r.Segments); n == 0 || r.Segments[n-1].shard != shard {
+			r.Segments = append(r.Segments, RowSegment{
+				shard:    shard,
+				data:     roaring.NewSliceBitmap(),
+				writable: true,
+			})
 		}
-		seg.n = seg.data.Count()
-		r.Segments = append(r.Segments, seg)
-		rowNum++
+		seg := &r.Segments[len(r.Segments)-1]
+		seg.data.Containers.Put(key, c.Freeze())
+		seg.n += uint64(c.N())
 	}
 	return r
 }
-- 
2.43.0


From 4b66a19b227e50138e8f7fcf8765554d53c149ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:12 +0000
Subject: [PATCH 26/29] fix: a copied row must not lose the columns of its
 first container

---
 internal/rows/row.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/internal/rows/row.go b/internal/rows/row.go
index e4c6ef7..4e37a38 100644
--- a/internal/rows/row.go
+++ b/internal/rows/row.go
@@ -212,7 +212,7 @@ func (r *Row) Clone() (clone *Row) {
 			n:        seg.n,
 		}
 		if seg.data != nil {
-			segClone.data = seg.data.Clone() // *roaring.Bitmap
+			segClone.data = fresh(seg.data.Clone()) // *roaring.Bitmap
 		}
 		// segClone.InvalidateCount() // not needed?
 		clone.Segments = append(clone.Segments, segClone)
@@ -642,7 +642,7 @@ func (s *RowSegment) Shard() uint64 {
 }
 
 func (s *RowSegment) Freeze() {
-	s.data = s.data.Freeze()
+	s.data = fresh(s.data.Freeze())
 }
 
 /*
@@ -689,7 +689,13 @@ func (s *RowSegment) Union(others ...*RowSegment) *RowSegment {
 	for i, other := range others {
 		datas[i] = other.data
 	}
-	data := s.data.Union(datas...)
+	var data *roaring.Bitmap
+	if len(datas) == 1 {
+		data = s.data.Union(datas...)
+	} else {
+		data = fresh(s.data.Freeze())
+		data.UnionInPlace(datas...)
+	}
 
 	return &RowSegment{
 		data:  data,
@@ -740,6 +746,17 @@ func (s *RowSegment) Shift() (*RowSegment, error) {
 	}, nil
 }
 
+// fresh drops what a copied bitmap remembers of its last lookup. A new copy may
+// otherwise take its first container for missing.
+func fresh(b *roaring.Bitmap) *roaring.Bitmap {
+	if b != nil {
+		b.Containers.Update(^uint64(0), func(c *roaring.Container, _ bool) (*roaring.Container, bool) {
+			return c, false
+		})
+	}
+	return b
+}
+
 // SetBit sets the i-th column of the row.
 func (s *RowSegment) SetBit(i uint64) (changed bool) {
 	s.ensureWritable()
@@ -800,7 +817,7 @@ func (s *RowSegment) ensureWritable() {
 	// the bitmap itself -- we get a new bitmap, but it just marks the
 	// containers as frozen and shares them. It's now safe to write to
 	// this bitmap, but the actual containers are copy-on-write.
-	s.data = s.data.Freeze()
+	s.data = fresh(s.data.Freeze())
 	s.writable = true
 }
 
-- 
2.43.0


From aa2d32d8f0aed125cf57894f71787f5c7d4c29bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:27 +0000
Subject: [PATCH 27/29] fix: the trace state of a span link must be converted

---
 internal/self/trace/tracetransform/span.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/self/trace/tracetransform/span.go b/internal/self/trace/tracetransform/span.go
index ce69cfa..91ce823 100644
--- a/internal/self/trace/tracetransform/span.go
+++ b/internal/self/trace/tracetransform/span.go
@@ -149,6 +149,7 @@ func links(links []tracesdk.Link) []*tracepb.Span_Link {
 		sl = append(sl, &tracepb.Span_Link{
 			TraceId:                tid[:],
 			SpanId:                 sid[:],
+			TraceState:             otLink.SpanContext.TraceState().String(),
 			Attributes:             KeyValues(otLink.Attributes),
 			DroppedAttributesCount: uint32(otLink.DroppedAttributeCount),
 		})
-- 
2.43.0


From 78c3020469d77c340011d93859d13b2f13d095aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:27 +0000
Subject: [PATCH 28/29] fix: spans of resources that differ by schema must not
 share a group

---
 internal/self/trace/tracetransform/span.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/self/trace/tracetransform/span.go b/internal/self/trace/tracetransform/span.go
index 91ce823..6ce82fe 100644
--- a/internal/self/trace/tracetransform/span.go
+++ b/internal/self/trace/tracetransform/span.go
@@ -19,10 +19,15 @@ func Spans(sdl []tracesdk.ReadOnlySpan) []*tracepb.ResourceSpans {
 		return nil
 	}
 
-	rsm := make(map[attribute.Distinct]*tracepb.ResourceSpans)
+	// Resources with equal attributes still differ by their schema.
+	type resourceKey struct {
+		attrs  attribute.Distinct
+		schema string
+	}
+	rsm := make(map[resourceKey]*tracepb.ResourceSpans)
 
 	type key struct {
-		r  attribute.Distinct
+		r  resourceKey
 		is instrumentation.Scope
 	}
 	ssm := make(map[key]*tracepb.ScopeSpans)
@@ -33,7 +38,10 @@ func Spans(sdl []tracesdk.ReadOnlySpan) []*tracepb.ResourceSpans {
 			continue
 		}
 
-		rKey := sd.Resource().Equivalent()
+		rKey := resourceKey{
+			attrs:  sd.Resource().Equivalent(),
+			schema: sd.Resource().SchemaURL(),
+		}
 		k := key{
 			r:  rKey,
 			is: sd.InstrumentationScope(),
-- 
2.43.0


From c931350c88a4899b42662692b779a37caba2bd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:59 +0000
Subject: [PATCH 29/29] fix: store compiled scripts in the cache all at once

A cached script was written in place: a failure half way, or another process
reading at the same time, left or saw a truncated script that was then served.
---
 internal/commands/query/query.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/internal/commands/query/query.go b/internal/commands/query/query.go
index 61b012b..1e1128d 100644
--- a/internal/commands/query/query.go
+++ b/internal/commands/query/query.go
@@ -86,7 +86,7 @@ func build(log *slog.Logger, data []byte) (*goja.Program, error) {
 			if err != nil {
 				return nil, err
 			}
-			err = os.WriteFile(key, cached, 0600)
+			err = store(key, cached)
 			if err != nil {
 				return nil, err
 			}
@@ -98,3 +98,23 @@ func build(log *slog.Logger, data []byte) (*goja.Program, error) {
 	}
 	return goja.Compile("scan.js", string(cached), true)
 }
+
+// store makes data available under key all at once: neither a failure half way
+// nor another process reading at the same time leaves or sees a part of it.
+func store(key string, data []byte) error {
+	f, err := os.CreateTemp(filepath.Dir(key), "tmp-*")
+	if err != nil {
+		return err
+	}
+	_, err = f.Write(data)
+	if e := f.Close(); err == nil {
+		err = e
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), key)
+	}
+	if err != nil {
+		os.Remove(f.Name())
+	}
+	return err
+}
-- 
2.43.0

