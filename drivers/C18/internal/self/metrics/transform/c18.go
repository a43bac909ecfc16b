package transform_test

import (
	"fmt"
	"math"
	"math/rand"
	"testing"
	"time"

	"github.com/gernest/requiemdb/internal/self/metrics/transform"
	"github.com/gernest/requiemdb/internal/zzvt"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/sdk/instrumentation"
	"go.opentelemetry.io/otel/sdk/metric/metricdata"
	"go.opentelemetry.io/otel/sdk/resource"
	cpb "go.opentelemetry.io/proto/otlp/common/v1"
	mpb "go.opentelemetry.io/proto/otlp/metrics/v1"
	rpb "go.opentelemetry.io/proto/otlp/resource/v1"
	"google.golang.org/protobuf/proto"
)

// The generator makes a value of the SDK together with what it has to become.
type gen18 struct {
	r *rand.Rand
	// what is left out
	bad int
}

func (g *gen18) n() int { return g.r.Intn(4) }
func (g *gen18) word() string {
	return []string{"", "a", "b", "ü", "long-name"}[g.r.Intn(5)]
}
func (g *gen18) f() float64 {
	switch g.r.Intn(8) {
	case 0:
		return 0
	case 1:
		return math.Inf(1 - 2*g.r.Intn(2))
	case 2:
		return math.Copysign(0, -1)
	case 3:
		return math.MaxFloat64
	}
	return g.r.NormFloat64()
}
func (g *gen18) i() int64 {
	switch g.r.Intn(5) {
	case 0:
		return 0
	case 1:
		return math.MinInt64
	case 2:
		return math.MaxInt64
	}
	return g.r.Int63n(100) - 50
}
func (g *gen18) u() uint64 {
	switch g.r.Intn(4) {
	case 0:
		return 0
	case 1:
		return math.MaxUint64
	}
	return uint64(g.r.Intn(1000))
}

func (g *gen18) time() (time.Time, uint64) {
	switch g.r.Intn(5) {
	case 0:
		return time.Time{}, 0
	case 1:
		return time.Unix(0, 0), 0
	}
	n := g.r.Int63()
	return time.Unix(0, n).In(time.FixedZone("x", g.r.Intn(7200))), uint64(n)
}

func list18[T any](n int, f func() T) []T {
	var o []T
	for i := 0; i < n; i++ {
		o = append(o, f())
	}
	return o
}

func (g *gen18) value() (attribute.Value, *cpb.AnyValue) {
	arr := func(vs []*cpb.AnyValue) *cpb.AnyValue {
		return &cpb.AnyValue{Value: &cpb.AnyValue_ArrayValue{ArrayValue: &cpb.ArrayValue{Values: vs}}}
	}
	str := func(s string) *cpb.AnyValue { return &cpb.AnyValue{Value: &cpb.AnyValue_StringValue{StringValue: s}} }
	dbl := func(s float64) *cpb.AnyValue { return &cpb.AnyValue{Value: &cpb.AnyValue_DoubleValue{DoubleValue: s}} }
	num := func(s int64) *cpb.AnyValue { return &cpb.AnyValue{Value: &cpb.AnyValue_IntValue{IntValue: s}} }
	boo := func(s bool) *cpb.AnyValue { return &cpb.AnyValue{Value: &cpb.AnyValue_BoolValue{BoolValue: s}} }
	var vs []*cpb.AnyValue
	switch g.r.Intn(9) {
	case 0:
		v := g.r.Intn(2) == 0
		return attribute.BoolValue(v), boo(v)
	case 1:
		v := g.i()
		return attribute.Int64Value(v), num(v)
	case 2:
		v := g.f()
		return attribute.Float64Value(v), dbl(v)
	case 3:
		v := g.word()
		return attribute.StringValue(v), str(v)
	case 4:
		v := list18(g.n(), func() bool { return g.r.Intn(2) == 0 })
		for _, e := range v {
			vs = append(vs, boo(e))
		}
		return attribute.BoolSliceValue(v), arr(vs)
	case 5:
		v := list18(g.n(), g.i)
		for _, e := range v {
			vs = append(vs, num(e))
		}
		return attribute.Int64SliceValue(v), arr(vs)
	case 6:
		v := list18(g.n(), g.f)
		for _, e := range v {
			vs = append(vs, dbl(e))
		}
		return attribute.Float64SliceValue(v), arr(vs)
	case 7:
		v := list18(g.n(), g.word)
		for _, e := range v {
			vs = append(vs, str(e))
		}
		return attribute.StringSliceValue(v), arr(vs)
	}
	return attribute.Value{}, str("INVALID")
}

func (g *gen18) kvs() (in []attribute.KeyValue, out []*cpb.KeyValue) {
	for i := g.n(); i > 0; i-- {
		v, o := g.value()
		k := fmt.Sprintf("%s%d", g.word(), i)
		in = append(in, attribute.KeyValue{Key: attribute.Key(k), Value: v})
		out = append(out, &cpb.KeyValue{Key: k, Value: o})
	}
	return
}

// set makes a set: its attributes are sorted by key, the last of a key wins
func (g *gen18) set() (attribute.Set, []*cpb.KeyValue) {
	in, out := g.kvs()
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j].Key < out[i].Key {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return attribute.NewSet(in...), out
}

func exemplars18[N int64 | float64](g *gen18, num func() N) (in []metricdata.Exemplar[N], out []*mpb.Exemplar) {
	for i := g.n(); i > 0; i-- {
		a, ao := g.kvs()
		t, to := g.time()
		e := metricdata.Exemplar[N]{FilteredAttributes: a, Time: t, Value: num(), SpanID: []byte(g.word()), TraceID: []byte(g.word())}
		o := &mpb.Exemplar{FilteredAttributes: ao, TimeUnixNano: to, SpanId: []byte(string(e.SpanID)), TraceId: []byte(string(e.TraceID))}
		switch v := any(e.Value).(type) {
		case int64:
			o.Value = &mpb.Exemplar_AsInt{AsInt: v}
		case float64:
			o.Value = &mpb.Exemplar_AsDouble{AsDouble: v}
		}
		in, out = append(in, e), append(out, o)
	}
	return
}

func points18[N int64 | float64](g *gen18, num func() N) (in []metricdata.DataPoint[N], out []*mpb.NumberDataPoint) {
	for i := g.n(); i > 0; i-- {
		a, ao := g.set()
		s, so := g.time()
		t, to := g.time()
		ex, exo := exemplars18(g, num)
		e := metricdata.DataPoint[N]{Attributes: a, StartTime: s, Time: t, Value: num(), Exemplars: ex}
		o := &mpb.NumberDataPoint{Attributes: ao, StartTimeUnixNano: so, TimeUnixNano: to, Exemplars: exo}
		switch v := any(e.Value).(type) {
		case int64:
			o.Value = &mpb.NumberDataPoint_AsInt{AsInt: v}
		case float64:
			o.Value = &mpb.NumberDataPoint_AsDouble{AsDouble: v}
		}
		in, out = append(in, e), append(out, o)
	}
	return
}

func extrema18[N int64 | float64](g *gen18, num func() N) (metricdata.Extrema[N], *float64) {
	if g.r.Intn(3) == 0 {
		return metricdata.Extrema[N]{}, nil
	}
	v := num()
	f := float64(v)
	return metricdata.NewExtrema(v), &f
}

func hists18[N int64 | float64](g *gen18, num func() N) (in []metricdata.HistogramDataPoint[N], out []*mpb.HistogramDataPoint) {
	for i := g.n(); i > 0; i-- {
		a, ao := g.set()
		s, so := g.time()
		t, to := g.time()
		ex, exo := exemplars18(g, num)
		mi, mio := extrema18(g, num)
		ma, mao := extrema18(g, num)
		e := metricdata.HistogramDataPoint[N]{Attributes: a, StartTime: s, Time: t, Count: g.u(), Bounds: list18(g.n(), g.f), BucketCounts: list18(g.n(), g.u), Min: mi, Max: ma, Sum: num(), Exemplars: ex}
		sum := float64(e.Sum)
		out = append(out, &mpb.HistogramDataPoint{Attributes: ao, StartTimeUnixNano: so, TimeUnixNano: to, Count: e.Count, Sum: &sum,
			BucketCounts: append([]uint64{}, e.BucketCounts...), ExplicitBounds: append([]float64{}, e.Bounds...), Exemplars: exo, Min: mio, Max: mao})
		in = append(in, e)
	}
	return
}

func exps18[N int64 | float64](g *gen18, num func() N) (in []metricdata.ExponentialHistogramDataPoint[N], out []*mpb.ExponentialHistogramDataPoint) {
	bucket := func() (metricdata.ExponentialBucket, *mpb.ExponentialHistogramDataPoint_Buckets) {
		b := metricdata.ExponentialBucket{Offset: int32(g.r.Uint32()), Counts: list18(g.n(), g.u)}
		return b, &mpb.ExponentialHistogramDataPoint_Buckets{Offset: b.Offset, BucketCounts: append([]uint64{}, b.Counts...)}
	}
	for i := g.n(); i > 0; i-- {
		a, ao := g.set()
		s, so := g.time()
		t, to := g.time()
		ex, exo := exemplars18(g, num)
		mi, mio := extrema18(g, num)
		ma, mao := extrema18(g, num)
		p, po := bucket()
		n, no := bucket()
		e := metricdata.ExponentialHistogramDataPoint[N]{Attributes: a, StartTime: s, Time: t, Count: g.u(), Min: mi, Max: ma, Sum: num(), Scale: int32(g.r.Uint32()), ZeroCount: g.u(), PositiveBucket: p, NegativeBucket: n, Exemplars: ex}
		sum := float64(e.Sum)
		out = append(out, &mpb.ExponentialHistogramDataPoint{Attributes: ao, StartTimeUnixNano: so, TimeUnixNano: to, Count: e.Count, Sum: &sum,
			Scale: e.Scale, ZeroCount: e.ZeroCount, Positive: po, Negative: no, Exemplars: exo, Min: mio, Max: mao})
		in = append(in, e)
	}
	return
}

func (g *gen18) temp() (metricdata.Temporality, mpb.AggregationTemporality, bool) {
	switch g.r.Intn(6) {
	case 0:
		return metricdata.Temporality(g.r.Intn(2) * 7), 0, false
	case 1, 2:
		return metricdata.DeltaTemporality, mpb.AggregationTemporality_AGGREGATION_TEMPORALITY_DELTA, true
	}
	return metricdata.CumulativeTemporality, mpb.AggregationTemporality_AGGREGATION_TEMPORALITY_CUMULATIVE, true
}

type dataOf18 func(m *mpb.Metric)

func agg18[N int64 | float64](g *gen18, num func() N) (metricdata.Aggregation, dataOf18, bool) {
	t, to, ok := g.temp()
	switch g.r.Intn(4) {
	case 0:
		p, po := points18(g, num)
		return metricdata.Gauge[N]{DataPoints: p}, func(m *mpb.Metric) { m.Data = &mpb.Metric_Gauge{Gauge: &mpb.Gauge{DataPoints: po}} }, true
	case 1:
		p, po := points18(g, num)
		mono := g.r.Intn(2) == 0
		return metricdata.Sum[N]{DataPoints: p, Temporality: t, IsMonotonic: mono}, func(m *mpb.Metric) {
			m.Data = &mpb.Metric_Sum{Sum: &mpb.Sum{DataPoints: po, AggregationTemporality: to, IsMonotonic: mono}}
		}, ok
	case 2:
		p, po := hists18(g, num)
		return metricdata.Histogram[N]{DataPoints: p, Temporality: t}, func(m *mpb.Metric) {
			m.Data = &mpb.Metric_Histogram{Histogram: &mpb.Histogram{DataPoints: po, AggregationTemporality: to}}
		}, ok
	}
	p, po := exps18(g, num)
	return metricdata.ExponentialHistogram[N]{DataPoints: p, Temporality: t}, func(m *mpb.Metric) {
		m.Data = &mpb.Metric_ExponentialHistogram{ExponentialHistogram: &mpb.ExponentialHistogram{DataPoints: po, AggregationTemporality: to}}
	}, ok
}

func (g *gen18) agg() (metricdata.Aggregation, dataOf18, bool) {
	switch g.r.Intn(8) {
	case 0:
		return nil, nil, false
	case 1:
		var in []metricdata.SummaryDataPoint
		var out []*mpb.SummaryDataPoint
		for i := g.n(); i > 0; i-- {
			a, ao := g.set()
			s, so := g.time()
			t, to := g.time()
			e := metricdata.SummaryDataPoint{Attributes: a, StartTime: s, Time: t, Count: g.u(), Sum: g.f()}
			o := &mpb.SummaryDataPoint{Attributes: ao, StartTimeUnixNano: so, TimeUnixNano: to, Count: e.Count, Sum: e.Sum}
			for j := g.n(); j > 0; j-- {
				q := metricdata.QuantileValue{Quantile: g.f(), Value: g.f()}
				e.QuantileValues = append(e.QuantileValues, q)
				o.QuantileValues = append(o.QuantileValues, &mpb.SummaryDataPoint_ValueAtQuantile{Quantile: q.Quantile, Value: q.Value})
			}
			in, out = append(in, e), append(out, o)
		}
		return metricdata.Summary{DataPoints: in}, func(m *mpb.Metric) { m.Data = &mpb.Metric_Summary{Summary: &mpb.Summary{DataPoints: out}} }, true
	case 2, 3, 4:
		return agg18(g, g.f)
	}
	return agg18(g, g.i)
}

func (g *gen18) tree() (*metricdata.ResourceMetrics, *mpb.ResourceMetrics) {
	in := &metricdata.ResourceMetrics{}
	out := &mpb.ResourceMetrics{Resource: &rpb.Resource{}}
	switch g.r.Intn(4) {
	case 0:
	default:
		a, ao := g.kvs()
		for i := range ao {
			for j := i + 1; j < len(ao); j++ {
				if ao[j].Key < ao[i].Key {
					ao[i], ao[j] = ao[j], ao[i]
				}
			}
		}
		// the SDK leaves invalid attributes of resources out
		var va []attribute.KeyValue
		var keep []*cpb.KeyValue
		for _, kv := range a {
			if kv.Valid() {
				va = append(va, kv)
			}
		}
		for _, kv := range ao {
			if s, ok := kv.Value.Value.(*cpb.AnyValue_StringValue); ok && s.StringValue == "INVALID" {
				continue
			}
			keep = append(keep, kv)
		}
		out.SchemaUrl = g.word()
		in.Resource = resource.NewWithAttributes(out.SchemaUrl, va...)
		out.Resource.Attributes = keep
	}
	for i := g.n(); i > 0; i-- {
		sm := metricdata.ScopeMetrics{Scope: instrumentation.Scope{Name: g.word(), Version: g.word(), SchemaURL: g.word()}}
		so := &mpb.ScopeMetrics{Scope: &cpb.InstrumentationScope{Name: sm.Scope.Name, Version: sm.Scope.Version}, SchemaUrl: sm.Scope.SchemaURL}
		for j := g.n(); j > 0; j-- {
			d, set, ok := g.agg()
			m := metricdata.Metrics{Name: g.word(), Description: g.word(), Unit: g.word(), Data: d}
			sm.Metrics = append(sm.Metrics, m)
			if !ok {
				g.bad++
				continue
			}
			mo := &mpb.Metric{Name: m.Name, Description: m.Description, Unit: m.Unit}
			set(mo)
			so.Metrics = append(so.Metrics, mo)
		}
		in.ScopeMetrics = append(in.ScopeMetrics, sm)
		out.ScopeMetrics = append(out.ScopeMetrics, so)
	}
	return in, out
}

// reported counts the errors in a chain that unwraps one at a time.
func reported18(err error) int {
	n := 0
	for err != nil {
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return n + 1
		}
		if _, list := err.(interface{ Is(error) bool }); list && fmt.Sprintf("%T", err) == "*transform.multiErr" {
			in := u.Unwrap()
			if in == nil {
				return n
			}
			if fmt.Sprintf("%T", in) != "*transform.multiErr" {
				return n + 1
			}
			n++
			err = in
			continue
		}
		return n + 1
	}
	return n
}

func TestVerifC18Metrics(t *testing.T) {
	var st zzvt.Stat
	defer st.Report(t)
	r := zzvt.Rand("c18")
	for c := 0; c < zzvt.N(3000); c++ {
		g := &gen18{r: r}
		in, want := g.tree()
		got, err := transform.ResourceMetrics(in)
		st.Case(fmt.Sprint(want))
		if !proto.Equal(got, want) {
			t.Fatalf("case %d: %v\nbecame %v\nwant   %v", c, in, got, want)
		}
		if (err != nil) != (g.bad > 0) {
			t.Fatalf("case %d: %d metrics cannot be converted, the error is %v", c, g.bad, err)
		}
		if n := reported18(err); n != g.bad {
			t.Fatalf("case %d: %d metrics cannot be converted, %d are reported: %v", c, g.bad, n, err)
		}
	}
	// fields the conversion is known to leave out
	in := &metricdata.ResourceMetrics{ScopeMetrics: []metricdata.ScopeMetrics{{Metrics: []metricdata.Metrics{{Name: "m", Data: metricdata.ExponentialHistogram[int64]{
		Temporality: metricdata.DeltaTemporality, DataPoints: []metricdata.ExponentialHistogramDataPoint[int64]{{ZeroThreshold: .5}}}}}}}}
	got, _ := transform.ResourceMetrics(in)
	if v := got.ScopeMetrics[0].Metrics[0].GetExponentialHistogram().DataPoints[0].ZeroThreshold; v != .5 {
		fmt.Printf("\nVERIFKNOWN id=zero-threshold the zero threshold 0.5 of an exponential histogram point became %v\n", v)
	}
}
