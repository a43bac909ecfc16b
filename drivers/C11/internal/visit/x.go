package visit_test

import (
	"encoding/hex"
	"fmt"
	"math/rand"
	"slices"
	"strings"
	"testing"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/visit"
	"github.com/gernest/requiemdb/internal/zzvt"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/proto"
)

// query11 is what a query asks for, in plain lists.
type query11 struct {
	base     map[v1.Scan_BaseProp][]string
	attrs    map[v1.Scan_AttributeProp][][2]string
	from, to uint64
}

func (q *query11) is(p v1.Scan_BaseProp, v string) bool {
	return len(q.base[p]) == 0 || slices.Contains(q.base[p], v)
}
func (q *query11) id(p v1.Scan_BaseProp, v []byte) bool { return q.is(p, hex.EncodeToString(v)) }
func (q *query11) has(p v1.Scan_AttributeProp, kv []*commonv1.KeyValue) bool {
	for _, w := range q.attrs[p] {
		if !slices.ContainsFunc(kv, func(a *commonv1.KeyValue) bool {
			s, ok := a.GetValue().GetValue().(*commonv1.AnyValue_StringValue)
			return ok && a.Key == w[0] && s.StringValue == w[1]
		}) {
			return false
		}
	}
	return true
}
func (q *query11) at(ts uint64, kv []*commonv1.KeyValue) bool {
	return q.from <= ts && ts < q.to && q.has(v1.Scan_ATTRIBUTES, kv)
}
func (q *query11) scope(schema string, s *commonv1.InstrumentationScope) bool {
	return q.is(v1.Scan_SCOPE_SCHEMA, schema) && q.is(v1.Scan_SCOPE_NAME, s.GetName()) && q.is(v1.Scan_SCOPE_VERSION, s.GetVersion()) && q.has(v1.Scan_SCOPE_ATTRIBUTES, s.GetAttributes())
}

func points11[T interface {
	GetTimeUnixNano() uint64
	GetAttributes() []*commonv1.KeyValue
}](q *query11, l *[]T) int {
	*l = slices.DeleteFunc(*l, func(p T) bool { return !q.at(p.GetTimeUnixNano(), p.GetAttributes()) })
	return len(*l)
}

// trim is the oracle.
func (q *query11) trim(d *v1.Data) *v1.Data {
	d = proto.Clone(d).(*v1.Data)
	if m := d.GetMetrics(); m != nil {
		m.ResourceMetrics = slices.DeleteFunc(m.ResourceMetrics, func(r *metricsv1.ResourceMetrics) bool {
			r.ScopeMetrics = slices.DeleteFunc(r.ScopeMetrics, func(s *metricsv1.ScopeMetrics) bool {
				s.Metrics = slices.DeleteFunc(s.Metrics, func(m *metricsv1.Metric) bool {
					if !q.is(v1.Scan_NAME, m.Name) {
						return true
					}
					switch e := m.Data.(type) {
					case *metricsv1.Metric_Gauge:
						return points11(q, &e.Gauge.DataPoints) == 0
					case *metricsv1.Metric_Sum:
						return points11(q, &e.Sum.DataPoints) == 0
					case *metricsv1.Metric_Histogram:
						return points11(q, &e.Histogram.DataPoints) == 0
					case *metricsv1.Metric_ExponentialHistogram:
						return points11(q, &e.ExponentialHistogram.DataPoints) == 0
					case *metricsv1.Metric_Summary:
						return points11(q, &e.Summary.DataPoints) == 0
					}
					return true
				})
				return !q.scope(s.SchemaUrl, s.Scope) || len(s.Metrics) == 0
			})
			return !q.is(v1.Scan_RESOURCE_SCHEMA, r.SchemaUrl) || !q.has(v1.Scan_RESOURCE_ATTRIBUTES, r.GetResource().GetAttributes()) || len(r.ScopeMetrics) == 0
		})
	}
	if m := d.GetLogs(); m != nil {
		m.ResourceLogs = slices.DeleteFunc(m.ResourceLogs, func(r *logsv1.ResourceLogs) bool {
			r.ScopeLogs = slices.DeleteFunc(r.ScopeLogs, func(s *logsv1.ScopeLogs) bool {
				s.LogRecords = slices.DeleteFunc(s.LogRecords, func(l *logsv1.LogRecord) bool {
					return !(q.at(l.TimeUnixNano, l.Attributes) && q.is(v1.Scan_LOGS_LEVEL, l.SeverityText) && q.id(v1.Scan_TRACE_ID, l.TraceId) && q.id(v1.Scan_SPAN_ID, l.SpanId))
				})
				return !q.scope(s.SchemaUrl, s.Scope) || len(s.LogRecords) == 0
			})
			return !q.is(v1.Scan_RESOURCE_SCHEMA, r.SchemaUrl) || !q.has(v1.Scan_RESOURCE_ATTRIBUTES, r.GetResource().GetAttributes()) || len(r.ScopeLogs) == 0
		})
	}
	if m := d.GetTraces(); m != nil {
		m.ResourceSpans = slices.DeleteFunc(m.ResourceSpans, func(r *tracev1.ResourceSpans) bool {
			r.ScopeSpans = slices.DeleteFunc(r.ScopeSpans, func(s *tracev1.ScopeSpans) bool {
				s.Spans = slices.DeleteFunc(s.Spans, func(l *tracev1.Span) bool {
					return !(q.at(l.StartTimeUnixNano, l.Attributes) && q.is(v1.Scan_NAME, l.Name) && q.id(v1.Scan_TRACE_ID, l.TraceId) && q.id(v1.Scan_SPAN_ID, l.SpanId) && q.id(v1.Scan_PARENT_SPAN_ID, l.ParentSpanId))
				})
				return !q.scope(s.SchemaUrl, s.Scope) || len(s.Spans) == 0
			})
			return !q.is(v1.Scan_RESOURCE_SCHEMA, r.SchemaUrl) || !q.has(v1.Scan_RESOURCE_ATTRIBUTES, r.GetResource().GetAttributes()) || len(r.ScopeSpans) == 0
		})
	}
	return d
}

var bases11 = []v1.Scan_BaseProp{v1.Scan_RESOURCE_SCHEMA, v1.Scan_SCOPE_SCHEMA, v1.Scan_SCOPE_NAME, v1.Scan_SCOPE_VERSION, v1.Scan_NAME, v1.Scan_TRACE_ID, v1.Scan_SPAN_ID, v1.Scan_PARENT_SPAN_ID, v1.Scan_LOGS_LEVEL}
var attrs11 = []v1.Scan_AttributeProp{v1.Scan_RESOURCE_ATTRIBUTES, v1.Scan_SCOPE_ATTRIBUTES, v1.Scan_ATTRIBUTES}

func filters11(g *zzvt.Gen, r *rand.Rand, q *query11, seen []string) (o []*v1.Scan_Filter) {
	id := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.Intn(2))
		}
		if len(seen) > 0 && r.Intn(4) > 0 {
			return seen[r.Intn(len(seen))]
		}
		return hex.EncodeToString(b)
	}
	for n := r.Intn(4); n > 0; n-- {
		if r.Intn(2) == 0 {
			p := bases11[r.Intn(len(bases11))]
			v := g.Word()
			switch p {
			case v1.Scan_TRACE_ID:
				v = id(16)
			case v1.Scan_SPAN_ID, v1.Scan_PARENT_SPAN_ID:
				v = id(8)
			case v1.Scan_LOGS_LEVEL:
				v = []string{"", "INFO", "WARN", "a"}[r.Intn(4)]
			}
			q.base[p] = append(q.base[p], v)
			o = append(o, &v1.Scan_Filter{Value: &v1.Scan_Filter_Base{Base: &v1.Scan_BaseFilter{Prop: p, Value: v}}})
		} else {
			p := attrs11[r.Intn(len(attrs11))]
			k, v := g.Word(), g.Word()
			q.attrs[p] = append(q.attrs[p], [2]string{k, v})
			o = append(o, &v1.Scan_Filter{Value: &v1.Scan_Filter_Attr{Attr: &v1.Scan_AttrFilter{Prop: p, Key: k, Value: v}}})
		}
	}
	return
}

func ids11(d *v1.Data) (o []string) {
	for _, r := range d.GetTraces().GetResourceSpans() {
		for _, s := range r.ScopeSpans {
			for _, l := range s.Spans {
				o = append(o, hex.EncodeToString(l.TraceId), hex.EncodeToString(l.SpanId), hex.EncodeToString(l.ParentSpanId))
			}
		}
	}
	for _, r := range d.GetLogs().GetResourceLogs() {
		for _, s := range r.ScopeLogs {
			for _, l := range s.LogRecords {
				o = append(o, hex.EncodeToString(l.TraceId), hex.EncodeToString(l.SpanId))
			}
		}
	}
	return
}

func TestVerifC11(t *testing.T) {
	var st zzvt.Stat
	defer st.Report(t)
	r := zzvt.Rand("c11")
	for i := 0; i < zzvt.N(6000); i++ {
		g := zzvt.NewGen(r)
		g.Holes = r.Intn(2) == 0
		switch r.Intn(3) {
		case 0:
			g.Words = []string{"", "a", "b"}
		case 1:
			g.Words = []string{"a", "deployment.environment.name-and-a-long-tail", strings.Repeat("x", 31), strings.Repeat("x", 32)}
		}
		base := uint64(1000 + r.Intn(3)*1_700_000_000_000_000_000)
		g.TS = func() uint64 { return base + uint64(r.Intn(6)) }
		d := g.Data(i)
		q := &query11{base: map[v1.Scan_BaseProp][]string{}, attrs: map[v1.Scan_AttributeProp][][2]string{}}
		q.from = base + uint64(r.Intn(4))
		q.to = q.from + uint64(r.Intn(5))
		if r.Intn(3) == 0 {
			q.from, q.to = 0, 1<<63
		}
		fs := filters11(g, r, q, ids11(d))
		desc := fmt.Sprintf("range=[%d,%d) filters=%v data=%v", q.from, q.to, fs, d)
		st.Case(desc)
		before := proto.Clone(d)
		a := visit.New()
		a.SetTimeRange(q.from, q.to)
		a.Compile(fs...)
		want := q.trim(d)
		got := a.Visit(d)
		if !proto.Equal(got, want) {
			t.Fatalf("%s\ngot  %v\nwant %v", desc, got, want)
		}
		if !proto.Equal(before, d) {
			t.Fatalf("%s\nthe sample was changed into %v", desc, d)
		}
		a.Release()
	}
}
