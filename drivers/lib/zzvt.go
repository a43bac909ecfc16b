// Package zzvt has what the bounded drivers share: seeded randomness, counting
// and generators of payloads. It reaches the repository through an overlay.
package zzvt

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"testing"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
)

// Rand is seeded from VERIF_SEED and a salt.
func Rand(salt string) *rand.Rand {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s", n, salt)
	return rand.New(rand.NewSource(int64(h.Sum64() >> 1)))
}

func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// N scales a number of cases with the tier.
func N(quick int) int {
	if Thorough() {
		return quick * 12
	}
	return quick
}

// Stat counts cases.
type Stat struct {
	mu       sync.Mutex
	cases    int
	distinct map[uint64]bool
	samples  []string
}

func (s *Stat) Case(desc string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.cases++
	if s.distinct == nil {
		s.distinct = map[uint64]bool{}
	}
	h := fnv.New64a()
	h.Write([]byte(desc))
	s.distinct[h.Sum64()] = true
	if len(s.samples) < 2 && len(desc) > 0 {
		if len(desc) > 300 {
			desc = desc[:300]
		}
		s.samples = append(s.samples, desc)
	}
}

func (s *Stat) Report(t testing.TB) {
	s.mu.Lock()
	defer s.mu.Unlock()
	fmt.Printf("\nVERIFSTAT cases=%d distinct=%d\n", s.cases, len(s.distinct))
	for _, x := range s.samples {
		fmt.Printf("VERIFSAMPLE %q\n", t.Name()+": "+x)
	}
	if s.cases == 0 {
		t.Fatal("no cases were run")
	}
}

// ---- payloads

// Gen makes payloads out of small domains so that identities collide.
type Gen struct {
	R *rand.Rand
	// Holes makes optional parts absent.
	Holes bool
	// Big is the largest list.
	Big int
	// TS makes a timestamp.
	TS func() uint64
	// Serial numbers records so that each is distinct.
	Serial int
	// NonStr allows attribute values that are not strings.
	NonStr bool
	// Words are the strings of attributes, names and schemas.
	Words []string
}

func NewGen(r *rand.Rand) *Gen {
	g := &Gen{R: r, Big: 3, NonStr: true, Words: []string{"", "a", "b", "ab", "a-b", "b:", "ü"}}
	g.TS = func() uint64 {
		switch r.Intn(6) {
		case 0:
			return 0
		case 1:
			return uint64(r.Intn(4))
		case 2:
			return r.Uint64() >> 1
		}
		return 1_700_000_000_000_000_000 + uint64(r.Intn(50))
	}
	return g
}

func (g *Gen) n() int       { return g.R.Intn(g.Big + 1) }
func (g *Gen) hole() bool   { return g.Holes && g.R.Intn(4) == 0 }
func (g *Gen) Word() string { return g.Words[g.R.Intn(len(g.Words))] }

func (g *Gen) Value(depth int) *commonv1.AnyValue {
	if g.hole() {
		if g.R.Intn(2) == 0 {
			return nil
		}
		return &commonv1.AnyValue{}
	}
	k := 0
	if g.NonStr {
		k = g.R.Intn(9)
	}
	switch k {
	case 4:
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_BoolValue{BoolValue: g.R.Intn(2) == 0}}
	case 5:
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_IntValue{IntValue: int64(g.R.Intn(3))}}
	case 6:
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_DoubleValue{DoubleValue: float64(g.R.Intn(3)) / 2}}
	case 7:
		return &commonv1.AnyValue{Value: &commonv1.AnyValue_BytesValue{BytesValue: []byte(g.Word())}}
	case 8:
		if depth > 0 {
			if g.R.Intn(2) == 0 {
				return &commonv1.AnyValue{Value: &commonv1.AnyValue_KvlistValue{KvlistValue: &commonv1.KeyValueList{Values: g.attrs(depth - 1)}}}
			}
			a := &commonv1.ArrayValue{}
			for i := g.n(); i > 0; i-- {
				if v := g.Value(depth - 1); v != nil {
					a.Values = append(a.Values, v)
				}
			}
			return &commonv1.AnyValue{Value: &commonv1.AnyValue_ArrayValue{ArrayValue: a}}
		}
	}
	return &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: g.Word()}}
}

func (g *Gen) attrs(depth int) (o []*commonv1.KeyValue) {
	for i := g.n(); i > 0; i-- {
		o = append(o, &commonv1.KeyValue{Key: g.Word(), Value: g.Value(depth)})
	}
	return
}

func (g *Gen) Attrs() []*commonv1.KeyValue { return g.attrs(1) }

func (g *Gen) Resource() *resourcev1.Resource {
	if g.hole() {
		return nil
	}
	return &resourcev1.Resource{Attributes: g.Attrs()}
}

func (g *Gen) Scope() *commonv1.InstrumentationScope {
	if g.hole() {
		return nil
	}
	return &commonv1.InstrumentationScope{Name: g.Word(), Version: g.Word(), Attributes: g.Attrs()}
}

func (g *Gen) serial() int { g.Serial++; return g.Serial }

func (g *Gen) ID(n int) []byte {
	if g.hole() || g.R.Intn(3) == 0 {
		return nil
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(g.R.Intn(2))
	}
	return b
}

func (g *Gen) Metric() *metricsv1.Metric {
	m := &metricsv1.Metric{Name: g.Word(), Description: g.Word(), Unit: g.Word()}
	if g.hole() {
		return m
	}
	switch g.R.Intn(5) {
	case 0:
		d := &metricsv1.Gauge{}
		for i := g.n(); i > 0; i-- {
			d.DataPoints = append(d.DataPoints, g.Number())
		}
		m.Data = &metricsv1.Metric_Gauge{Gauge: d}
	case 1:
		d := &metricsv1.Sum{AggregationTemporality: metricsv1.AggregationTemporality(g.R.Intn(3)), IsMonotonic: g.R.Intn(2) == 0}
		for i := g.n(); i > 0; i-- {
			d.DataPoints = append(d.DataPoints, g.Number())
		}
		m.Data = &metricsv1.Metric_Sum{Sum: d}
	case 2:
		d := &metricsv1.Histogram{AggregationTemporality: metricsv1.AggregationTemporality(g.R.Intn(3))}
		for i := g.n(); i > 0; i-- {
			d.DataPoints = append(d.DataPoints, &metricsv1.HistogramDataPoint{Attributes: g.Attrs(), TimeUnixNano: g.TS(), StartTimeUnixNano: g.TS(), Count: uint64(g.serial())})
		}
		m.Data = &metricsv1.Metric_Histogram{Histogram: d}
	case 3:
		d := &metricsv1.ExponentialHistogram{AggregationTemporality: metricsv1.AggregationTemporality(g.R.Intn(3))}
		for i := g.n(); i > 0; i-- {
			d.DataPoints = append(d.DataPoints, &metricsv1.ExponentialHistogramDataPoint{Attributes: g.Attrs(), TimeUnixNano: g.TS(), StartTimeUnixNano: g.TS(), Count: uint64(g.serial())})
		}
		m.Data = &metricsv1.Metric_ExponentialHistogram{ExponentialHistogram: d}
	case 4:
		d := &metricsv1.Summary{}
		for i := g.n(); i > 0; i-- {
			d.DataPoints = append(d.DataPoints, &metricsv1.SummaryDataPoint{Attributes: g.Attrs(), TimeUnixNano: g.TS(), StartTimeUnixNano: g.TS(), Count: uint64(g.serial())})
		}
		m.Data = &metricsv1.Metric_Summary{Summary: d}
	}
	return m
}

func (g *Gen) Number() *metricsv1.NumberDataPoint {
	p := &metricsv1.NumberDataPoint{Attributes: g.Attrs(), TimeUnixNano: g.TS(), StartTimeUnixNano: g.TS(), Flags: uint32(g.serial())}
	if g.hole() {
		return p
	}
	if g.R.Intn(2) == 0 {
		p.Value = &metricsv1.NumberDataPoint_AsDouble{AsDouble: float64(g.R.Intn(9)) / 4}
	} else {
		p.Value = &metricsv1.NumberDataPoint_AsInt{AsInt: int64(g.R.Intn(9) - 4)}
	}
	return p
}

func (g *Gen) Metrics() *metricsv1.MetricsData {
	o := &metricsv1.MetricsData{}
	for i := g.n(); i > 0; i-- {
		rm := &metricsv1.ResourceMetrics{Resource: g.Resource(), SchemaUrl: g.Word()}
		for j := g.n(); j > 0; j-- {
			sm := &metricsv1.ScopeMetrics{Scope: g.Scope(), SchemaUrl: g.Word()}
			for k := g.n(); k > 0; k-- {
				sm.Metrics = append(sm.Metrics, g.Metric())
			}
			rm.ScopeMetrics = append(rm.ScopeMetrics, sm)
		}
		o.ResourceMetrics = append(o.ResourceMetrics, rm)
	}
	return o
}

var sev = []string{"", "INFO", "WARN", "a"}

func (g *Gen) Log() *logsv1.LogRecord {
	r := &logsv1.LogRecord{TimeUnixNano: g.TS(), ObservedTimeUnixNano: g.TS(), SeverityText: sev[g.R.Intn(len(sev))], SeverityNumber: logsv1.SeverityNumber(g.R.Intn(5)), Attributes: g.Attrs(), TraceId: g.ID(16), SpanId: g.ID(8), Flags: uint32(g.serial())}
	if !g.hole() {
		r.Body = g.Value(1)
	}
	return r
}

func (g *Gen) Logs() *logsv1.LogsData {
	o := &logsv1.LogsData{}
	for i := g.n(); i > 0; i-- {
		rm := &logsv1.ResourceLogs{Resource: g.Resource(), SchemaUrl: g.Word()}
		for j := g.n(); j > 0; j-- {
			sm := &logsv1.ScopeLogs{Scope: g.Scope(), SchemaUrl: g.Word()}
			for k := g.n(); k > 0; k-- {
				sm.LogRecords = append(sm.LogRecords, g.Log())
			}
			rm.ScopeLogs = append(rm.ScopeLogs, sm)
		}
		o.ResourceLogs = append(o.ResourceLogs, rm)
	}
	return o
}

func (g *Gen) Span() *tracev1.Span {
	s := &tracev1.Span{Name: g.Word(), TraceId: g.ID(16), SpanId: g.ID(8), ParentSpanId: g.ID(8), StartTimeUnixNano: g.TS(), EndTimeUnixNano: g.TS(), Attributes: g.Attrs(), Flags: uint32(g.serial()), Kind: tracev1.Span_SpanKind(g.R.Intn(6))}
	if g.R.Intn(3) == 0 {
		s.Events = append(s.Events, &tracev1.Span_Event{Name: g.Word(), TimeUnixNano: g.TS(), Attributes: g.Attrs()})
	}
	return s
}

func (g *Gen) Traces() *tracev1.TracesData {
	o := &tracev1.TracesData{}
	for i := g.n(); i > 0; i-- {
		rm := &tracev1.ResourceSpans{Resource: g.Resource(), SchemaUrl: g.Word()}
		for j := g.n(); j > 0; j-- {
			sm := &tracev1.ScopeSpans{Scope: g.Scope(), SchemaUrl: g.Word()}
			for k := g.n(); k > 0; k-- {
				sm.Spans = append(sm.Spans, g.Span())
			}
			rm.ScopeSpans = append(rm.ScopeSpans, sm)
		}
		o.ResourceSpans = append(o.ResourceSpans, rm)
	}
	return o
}

func (g *Gen) Data(kind int) *v1.Data {
	switch kind % 3 {
	case 0:
		return &v1.Data{Data: &v1.Data_Metrics{Metrics: g.Metrics()}}
	case 1:
		return &v1.Data{Data: &v1.Data_Logs{Logs: g.Logs()}}
	}
	return &v1.Data{Data: &v1.Data_Traces{Traces: g.Traces()}}
}
