// Package zzst runs the storage against an oracle that knows every payload.
package zzst

import (
	"context"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"log/slog"
	"math/rand"
	"runtime/debug"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/dgraph-io/badger/v4"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/samples"
	"github.com/gernest/requiemdb/internal/shards"
	"github.com/gernest/requiemdb/internal/store"
	"github.com/gernest/requiemdb/internal/translate"
	"github.com/gernest/requiemdb/internal/zzvt"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

func init() {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
}

// Prefix is the name space of translated keys.
const Prefix = "7"

type World struct {
	R      *rand.Rand
	DB     *badger.DB
	Shards *shards.Shards
	Tr     *translate.Translate
	Store  *store.Storage
	Recs   []*Rec
	Dir    string
	NextID uint64
	Base   time.Time
	Span   time.Duration
	Hours  []time.Duration
	serial int
	Log    strings.Builder
}

// Rec is a stored sample as the oracle knows it.
type Rec struct {
	ID     uint64
	Kind   v1.RESOURCE
	Min    time.Time
	Labels map[string]bool
	Lines  []string
	Data   *v1.Data
}

// New makes an empty storage whose columns start at first.
func New(t testing.TB, r *rand.Rand, first uint64) *World {
	t.Helper()
	db, err := badger.Open(badger.DefaultOptions("").WithInMemory(true).WithLogger(nil))
	if err != nil {
		t.Fatal(err)
	}
	if first > 0 {
		err = db.Update(func(txn *badger.Txn) error {
			var b [8]byte
			binary.BigEndian.PutUint64(b[:], first)
			return txn.Set([]byte(Prefix+"seq"), b[:])
		})
		if err != nil {
			t.Fatal(err)
		}
	}
	w := &World{R: r, DB: db, Dir: t.TempDir()}
	w.open(t)
	w.Base = time.Date(2023, 12, 30, 22, 0, 0, 0, time.UTC)
	w.Span = 5 * 24 * time.Hour
	// few hours, as every view takes long to write
	hours := []time.Duration{25 * time.Hour, 26 * time.Hour, 27 * time.Hour, 50 * time.Hour, 1000 * time.Hour}
	r.Shuffle(len(hours), func(i, j int) { hours[i], hours[j] = hours[j], hours[i] })
	w.Hours = hours[:3]
	return w
}

func (w *World) open(t testing.TB) {
	tr, err := translate.New(w.DB, []byte(Prefix))
	if err != nil {
		t.Fatal(err)
	}
	w.Tr = tr
	w.Shards = shards.New(w.Dir, nil)
	w.Store, err = store.NewStore(w.DB, w.Shards, tr, nil, time.Now)
	if err != nil {
		t.Fatal(err)
	}
}

// Reopen closes everything but the database, and opens it again.
func (w *World) Reopen(t testing.TB) {
	w.Log.WriteString("reopen; ")
	w.Store.Close()
	w.Tr.Close()
	if err := w.Shards.Close(); err != nil {
		t.Fatal(err)
	}
	w.open(t)
}

func (w *World) Close() {
	w.Store.Close()
	w.Tr.Close()
	w.Shards.Close()
	w.DB.Close()
}

// ---- payloads

func str(k, v string) *commonv1.KeyValue {
	return &commonv1.KeyValue{Key: k, Value: &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: v}}}
}

func (w *World) pick(ss ...string) string { return ss[w.R.Intn(len(ss))] }

func (w *World) attrs() (o []*commonv1.KeyValue) {
	for _, k := range []string{"k", "l"} {
		if w.R.Intn(2) == 0 {
			o = append(o, str(k, w.pick("a", "b", "c")))
		}
	}
	return
}

func (w *World) time() uint64 {
	return uint64(w.Base.Add(w.Hours[w.R.Intn(len(w.Hours))]).UnixNano() + w.R.Int63n(int64(59*time.Minute)))
}

// Worlds runs f on n worlds, in parallel.
func Worlds(t *testing.T, name string, n int, f func(t *testing.T, r *rand.Rand, i int)) {
	debug.SetGCPercent(400)
	t.Run("worlds", func(t *testing.T) {
		for i := 0; i < n; i++ {
			t.Run(fmt.Sprint(i), func(t *testing.T) {
				t.Parallel()
				f(t, zzvt.Rand(fmt.Sprint(name, i)), i)
			})
		}
	})
}

// Payload makes data whose records are all different.
func (w *World) Payload(kind v1.RESOURCE) *v1.Data {
	n := func() int { return 1 + w.R.Intn(2) }
	at := w.time()
	ts := func() uint64 { return at + uint64(w.R.Intn(1e9)) }
	id := func() string { w.serial++; return fmt.Sprintf("r%d", w.serial) }
	res := func() *resourcev1.Resource { return &resourcev1.Resource{Attributes: w.attrs()} }
	scope := func() *commonv1.InstrumentationScope {
		return &commonv1.InstrumentationScope{Name: w.pick("s", "t"), Version: w.pick("1", "2"), Attributes: w.attrs()}
	}
	bytes := func(n int) []byte { return append(make([]byte, n-1), byte(w.R.Intn(3))) }
	switch kind {
	case v1.RESOURCE_METRICS:
		o := &metricsv1.MetricsData{}
		for i := n(); i > 0; i-- {
			rm := &metricsv1.ResourceMetrics{Resource: res(), SchemaUrl: w.pick("u", "v")}
			for j := n(); j > 0; j-- {
				sm := &metricsv1.ScopeMetrics{Scope: scope(), SchemaUrl: w.pick("u", "v")}
				for k := n(); k > 0; k-- {
					g := &metricsv1.Gauge{}
					m := &metricsv1.Metric{Name: w.pick("m", "n"), Description: id(), Data: &metricsv1.Metric_Gauge{Gauge: g}}
					for l := n(); l > 0; l-- {
						w.serial++
						g.DataPoints = append(g.DataPoints, &metricsv1.NumberDataPoint{Attributes: w.attrs(), TimeUnixNano: ts(), Value: &metricsv1.NumberDataPoint_AsInt{AsInt: int64(w.serial)}})
					}
					sm.Metrics = append(sm.Metrics, m)
				}
				rm.ScopeMetrics = append(rm.ScopeMetrics, sm)
			}
			o.ResourceMetrics = append(o.ResourceMetrics, rm)
		}
		return &v1.Data{Data: &v1.Data_Metrics{Metrics: o}}
	case v1.RESOURCE_LOGS:
		o := &logsv1.LogsData{}
		for i := n(); i > 0; i-- {
			rm := &logsv1.ResourceLogs{Resource: res(), SchemaUrl: w.pick("u", "v")}
			for j := n(); j > 0; j-- {
				sm := &logsv1.ScopeLogs{Scope: scope(), SchemaUrl: w.pick("u", "v")}
				for k := n(); k > 0; k-- {
					sm.LogRecords = append(sm.LogRecords, &logsv1.LogRecord{TimeUnixNano: ts(), SeverityText: w.pick("info", "warn"), Body: str("", id()).Value, Attributes: w.attrs(), TraceId: bytes(16), SpanId: bytes(8)})
				}
				rm.ScopeLogs = append(rm.ScopeLogs, sm)
			}
			o.ResourceLogs = append(o.ResourceLogs, rm)
		}
		return &v1.Data{Data: &v1.Data_Logs{Logs: o}}
	}
	o := &tracev1.TracesData{}
	for i := n(); i > 0; i-- {
		rm := &tracev1.ResourceSpans{Resource: res(), SchemaUrl: w.pick("u", "v")}
		for j := n(); j > 0; j-- {
			sm := &tracev1.ScopeSpans{Scope: scope(), SchemaUrl: w.pick("u", "v")}
			for k := n(); k > 0; k-- {
				at := ts()
				sm.Spans = append(sm.Spans, &tracev1.Span{TraceId: bytes(16), SpanId: bytes(8), ParentSpanId: bytes(8), Name: w.pick("m", "n"), TraceState: id(), StartTimeUnixNano: at, EndTimeUnixNano: at + uint64(w.R.Intn(100)), Attributes: w.attrs()})
			}
			rm.ScopeSpans = append(rm.ScopeSpans, sm)
		}
		o.ResourceSpans = append(o.ResourceSpans, rm)
	}
	return &v1.Data{Data: &v1.Data_Traces{Traces: o}}
}

// Describe lists the records, labels and times of data, by hand.
func Describe(d *v1.Data) (lines []string, labels map[string]bool, min uint64) {
	labels = map[string]bool{}
	add := func(prop int, kv ...string) { labels[fmt.Sprintf("%d|%s", prop, strings.Join(kv, "="))] = true }
	attr := func(prop int, kv []*commonv1.KeyValue) string {
		var o []string
		for _, x := range kv {
			o = append(o, x.Key+"="+fmt.Sprint(x.GetValue().GetStringValue()))
			add(prop, x.Key, x.GetValue().GetStringValue())
		}
		sort.Strings(o)
		return strings.Join(o, ",")
	}
	at := func(ts uint64) {
		if min == 0 || ts < min {
			min = ts
		}
	}
	res := func(r *resourcev1.Resource, schema string) string {
		add(13, schema)
		return fmt.Sprintf("resource %q %s", schema, attr(1, r.GetAttributes()))
	}
	scope := func(s *commonv1.InstrumentationScope, schema string) string {
		add(2, schema)
		add(3, s.GetName())
		add(4, s.GetVersion())
		return fmt.Sprintf(" scope %q %q %q %s", schema, s.GetName(), s.GetVersion(), attr(5, s.GetAttributes()))
	}
	for _, r := range d.GetMetrics().GetResourceMetrics() {
		a := res(r.GetResource(), r.GetSchemaUrl())
		for _, s := range r.GetScopeMetrics() {
			b := scope(s.GetScope(), s.GetSchemaUrl())
			for _, m := range s.GetMetrics() {
				add(6, m.GetName())
				for _, p := range m.GetGauge().GetDataPoints() {
					at(p.TimeUnixNano)
					lines = append(lines, a+b+fmt.Sprintf(" metric %q gauge %d %v {%s}", m.Name, p.TimeUnixNano, p.GetAsInt(), attr(7, p.Attributes)))
				}
			}
		}
	}
	for _, r := range d.GetLogs().GetResourceLogs() {
		a := res(r.GetResource(), r.GetSchemaUrl())
		for _, s := range r.GetScopeLogs() {
			b := scope(s.GetScope(), s.GetSchemaUrl())
			for _, m := range s.GetLogRecords() {
				at(m.TimeUnixNano)
				add(11, m.SeverityText)
				add(8, hex.EncodeToString(m.TraceId))
				add(9, hex.EncodeToString(m.SpanId))
				lines = append(lines, a+b+fmt.Sprintf(" log %d %q %q %x %x {%s}", m.TimeUnixNano, m.SeverityText, m.GetBody().GetStringValue(), m.TraceId, m.SpanId, attr(7, m.Attributes)))
			}
		}
	}
	for _, r := range d.GetTraces().GetResourceSpans() {
		a := res(r.GetResource(), r.GetSchemaUrl())
		for _, s := range r.GetScopeSpans() {
			b := scope(s.GetScope(), s.GetSchemaUrl())
			for _, m := range s.GetSpans() {
				at(m.StartTimeUnixNano)
				at(m.EndTimeUnixNano)
				add(6, m.Name)
				add(8, hex.EncodeToString(m.TraceId))
				add(9, hex.EncodeToString(m.SpanId))
				add(10, hex.EncodeToString(m.ParentSpanId))
				lines = append(lines, a+b+fmt.Sprintf(" span %d %d %q %q %x %x %x {%s}", m.StartTimeUnixNano, m.EndTimeUnixNano, m.Name, m.TraceState, m.TraceId, m.SpanId, m.ParentSpanId, attr(7, m.Attributes)))
			}
		}
	}
	sort.Strings(lines)
	return
}

// Save stores n samples in one batch.
func (w *World) Save(t testing.TB, n int) {
	t.Helper()
	ls := samples.Get()
	defer ls.Release()
	for ; n > 0; n-- {
		kind := v1.RESOURCE(1 + w.R.Intn(3))
		d := w.Payload(kind)
		lines, labels, min := Describe(d)
		rec := &Rec{ID: w.NextID, Kind: kind, Min: time.Unix(0, int64(min)).UTC(), Labels: labels, Lines: lines, Data: proto.Clone(d).(*v1.Data)}
		w.NextID += 1
		if w.R.Intn(4) == 0 {
			w.NextID += uint64(w.R.Intn(5))
		}
		w.Recs = append(w.Recs, rec)
		fmt.Fprintf(&w.Log, "save id=%d %s at %s; ", rec.ID, kind, rec.Min.Format("2006-01-02T15:04:05"))
		ls.Items = append(ls.Items, &v1.Sample{Id: rec.ID, Data: d})
	}
	if err := w.Store.SaveSamples(context.Background(), ls); err != nil {
		t.Fatalf("%s: %v", w.Log.String(), err)
	}
}

// ---- requests

var base = []int32{13, 2, 3, 4, 6, 8, 9, 10, 11}

func isAttr(p int32) bool { return p == 1 || p == 5 || p == 7 }

func filter(label string) *v1.Scan_Filter {
	var p int32
	i := strings.Index(label, "|")
	fmt.Sscan(label[:i], &p)
	v := label[i+1:]
	if isAttr(p) {
		k, x, _ := strings.Cut(v, "=")
		return &v1.Scan_Filter{Value: &v1.Scan_Filter_Attr{Attr: &v1.Scan_AttrFilter{Prop: v1.Scan_AttributeProp(p), Key: k, Value: x}}}
	}
	return &v1.Scan_Filter{Value: &v1.Scan_Filter_Base{Base: &v1.Scan_BaseFilter{Prop: v1.Scan_BaseProp(p), Value: v}}}
}

// Scan makes a request and the labels it asks for.
func (w *World) Scan() (*v1.Scan, []string) {
	s := &v1.Scan{Scope: v1.Scan_SCOPE(1 + w.R.Intn(3))}
	var want []string
	if len(w.Recs) > 0 {
		rec := w.Recs[w.R.Intn(len(w.Recs))]
		if w.R.Intn(6) > 0 {
			s.Scope = v1.Scan_SCOPE(rec.Kind)
		}
		var all []string
		for l := range rec.Labels {
			all = append(all, l)
		}
		sort.Strings(all)
		for n := w.R.Intn(4); n > 0; n-- {
			want = append(want, all[w.R.Intn(len(all))])
		}
		at := rec.Min
		if w.R.Intn(4) == 0 {
			at = w.Base.Add(time.Duration(w.R.Int63n(int64(w.Span))))
		}
		if w.R.Intn(2) == 0 {
			off := time.Duration(0)
			if w.R.Intn(3) == 0 {
				off = time.Duration(w.R.Int63n(int64(40*time.Hour))) - 10*time.Hour
				s.Offset = durationpb.New(off)
			}
			s.Now = timestamppb.New(at.Add(off + time.Duration(w.R.Int63n(int64(14*time.Minute)))))
		} else {
			d := []time.Duration{time.Second, time.Minute, time.Hour, 5 * time.Hour, 26 * time.Hour, 3 * 24 * time.Hour, 40 * 24 * time.Hour, 400 * 24 * time.Hour}[w.R.Intn(8)]
			st := at.Add(-time.Duration(w.R.Int63n(int64(d))))
			s.TimeRange = &v1.Scan_TimeRange{Start: timestamppb.New(st), End: timestamppb.New(st.Add(d))}
		}
	} else {
		s.Now = timestamppb.New(w.Base)
	}
	switch w.R.Intn(8) {
	case 0:
		want = append(want, "7|k=never")
	case 1:
		want = append(want, "6|never")
	case 2:
		want = append([]string{"1|never=a"}, want...)
	}
	for _, l := range want {
		s.Filters = append(s.Filters, filter(l))
	}
	return s, want
}

// window is the hours the consulted views have.
func window(s *v1.Scan) (time.Time, time.Time) {
	var a, b time.Time
	if s.TimeRange != nil {
		a, b = s.TimeRange.Start.AsTime(), s.TimeRange.End.AsTime()
	} else {
		b = s.Now.AsTime()
		if s.Offset != nil {
			b = b.Add(-s.Offset.AsDuration())
		}
		a = b.Add(-15 * time.Minute)
	}
	d := b.Sub(a)
	day := 24 * time.Hour
	floor := func(t time.Time) time.Time {
		y, m, dd := t.Date()
		switch {
		case d >= 360*day:
			return time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC)
		case d >= 30*day:
			return time.Date(y, m, 1, 0, 0, 0, 0, time.UTC)
		case d >= day:
			return time.Date(y, m, dd, 0, 0, 0, 0, time.UTC)
		}
		return t.Truncate(time.Hour)
	}
	f := floor(b)
	if f.Before(b) {
		y, m, dd := f.Date()
		switch {
		case d >= 360*day:
			f = time.Date(y+1, 1, 1, 0, 0, 0, 0, time.UTC)
		case d >= 30*day:
			f = time.Date(y, m+1, 1, 0, 0, 0, 0, time.UTC)
		case d >= day:
			f = time.Date(y, m, dd+1, 0, 0, 0, 0, time.UTC)
		default:
			f = f.Add(time.Hour)
		}
	}
	return floor(a), f
}

// Match lists the samples a request selects, in order of ids.
func (w *World) Match(s *v1.Scan, want []string) (o []*Rec) {
	a, b := window(s)
rec:
	for _, r := range w.Recs {
		if int32(r.Kind) != int32(s.Scope) || r.Min.Before(a) || !r.Min.Before(b) {
			continue
		}
		for _, l := range want {
			if !r.Labels[l] {
				continue rec
			}
		}
		o = append(o, r)
	}
	return
}

func kindOf(d *v1.Data) v1.RESOURCE {
	switch d.GetData().(type) {
	case *v1.Data_Metrics:
		return v1.RESOURCE_METRICS
	case *v1.Data_Logs:
		return v1.RESOURCE_LOGS
	case *v1.Data_Traces:
		return v1.RESOURCE_TRACES
	}
	return 0
}

// Check runs a request and compares the answer. It returns a description and
// what is wrong with it.
func (w *World) Check(s *v1.Scan, want []string) (desc, bad string) {
	m := w.Match(s, want)
	var ids []uint64
	for _, r := range m {
		ids = append(ids, r.ID)
	}
	desc = fmt.Sprintf("scan %s %q", v1.RESOURCE(s.Scope), want)
	if s.TimeRange != nil {
		desc += fmt.Sprintf(" from %s to %s", s.TimeRange.Start.AsTime().Format(time.RFC3339Nano), s.TimeRange.End.AsTime().Format(time.RFC3339Nano))
	} else {
		desc += fmt.Sprintf(" at %s", s.Now.AsTime().Format(time.RFC3339Nano))
		if s.Offset != nil {
			desc += fmt.Sprintf(" less %s", s.Offset.AsDuration())
		}
		if len(m) > 0 {
			m = m[len(m)-1:]
		}
	}
	desc += fmt.Sprintf(" selects %v", ids)
	got, err := w.Store.Scan(context.Background(), s)
	if err != nil {
		return desc, fmt.Sprintf("error %v", err)
	}
	if k := kindOf(got); k != v1.RESOURCE(s.Scope) {
		return desc, fmt.Sprintf("the answer has kind %s", k)
	}
	var lines []string
	for _, r := range m {
		lines = append(lines, r.Lines...)
	}
	sort.Strings(lines)
	have, _, _ := Describe(got)
	if len(m) == 0 && (len(got.GetMetrics().GetResourceMetrics())+len(got.GetLogs().GetResourceLogs())+len(got.GetTraces().GetResourceSpans())) > 0 {
		return desc, "the answer is not empty"
	}
	return desc, Diff(lines, have)
}

// Diff compares two sorted lists.
func Diff(want, got []string) string {
	n := map[string]int{}
	for _, l := range want {
		n[l]++
	}
	for _, l := range got {
		n[l]--
	}
	var o []string
	for l, k := range n {
		if k > 0 {
			o = append(o, "missing "+l)
		}
		if k < 0 {
			o = append(o, "not expected "+l)
		}
	}
	sort.Strings(o)
	if len(o) > 4 {
		o = o[:4]
	}
	return strings.Join(o, "\n")
}
