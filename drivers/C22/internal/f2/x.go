package f2

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"testing"

	"github.com/apache/arrow/go/v17/arrow"
	"github.com/apache/arrow/go/v17/arrow/memory"
	"github.com/dgraph-io/badger/v4"
	v1 "github.com/gernest/requiemdb/gen/go/store/v1"
	"github.com/gernest/requiemdb/internal/arrow3"
	"github.com/gernest/requiemdb/internal/zzvt"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
)

func rows(t *testing.T, r arrow.Record) []map[string]any {
	b, err := r.MarshalJSON()
	if err != nil {
		t.Fatal(err)
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var o []map[string]any
	if err := d.Decode(&o); err != nil {
		t.Fatal(err)
	}
	return o
}

func num(x any) uint64 {
	n, ok := x.(json.Number)
	if !ok {
		return 0
	}
	var u uint64
	fmt.Sscan(n.String(), &u)
	return u
}

// decompose is the oracle: the rows in order, and the texts each is found under.
func decompose(d *metricsv1.MetricsData) (o []*v1.Metric, texts []map[string]bool) {
	add := func(m *v1.Metric, name string, groups ...[]*commonv1.KeyValue) {
		tx := map[string]bool{"__name__=" + name: true}
		for _, g := range groups {
			for _, kv := range g {
				m.Attributes = append(m.Attributes, kv)
				if s, ok := kv.GetValue().GetValue().(*commonv1.AnyValue_StringValue); ok {
					tx[kv.Key+"="+s.StringValue] = true
				}
			}
		}
		m.Name = name
		o, texts = append(o, m), append(texts, tx)
	}
	value := func(p *metricsv1.NumberDataPoint) *float64 {
		switch v := p.Value.(type) {
		case *metricsv1.NumberDataPoint_AsInt:
			f := float64(v.AsInt)
			return &f
		case *metricsv1.NumberDataPoint_AsDouble:
			f := v.AsDouble
			return &f
		}
		return nil
	}
	for _, rm := range d.ResourceMetrics {
		ra := rm.Resource.GetAttributes()
		for _, sm := range rm.ScopeMetrics {
			sa := sm.Scope.GetAttributes()
			for _, m := range sm.Metrics {
				switch e := m.Data.(type) {
				case *metricsv1.Metric_Gauge:
					for _, p := range e.Gauge.GetDataPoints() {
						add(&v1.Metric{Kind: v1.Metric_GAUGE, Description: m.Description, Unit: m.Unit, StartTimeUnixNano: p.StartTimeUnixNano, TimeUnixNano: p.TimeUnixNano, Gauge: value(p), Exemplars: p.Exemplars}, m.Name, ra, sa, p.Attributes)
					}
				case *metricsv1.Metric_Sum:
					for _, p := range e.Sum.GetDataPoints() {
						add(&v1.Metric{Kind: v1.Metric_SUM, Description: m.Description, Unit: m.Unit, StartTimeUnixNano: p.StartTimeUnixNano, TimeUnixNano: p.TimeUnixNano, Counter: value(p), Exemplars: p.Exemplars, AggregationTemporality: e.Sum.AggregationTemporality, IsMonotonic: e.Sum.IsMonotonic}, m.Name, ra, sa, p.Attributes)
					}
				case *metricsv1.Metric_Histogram:
					for _, p := range e.Histogram.GetDataPoints() {
						add(&v1.Metric{Kind: v1.Metric_HISTOGRAM, Description: m.Description, Unit: m.Unit, StartTimeUnixNano: p.StartTimeUnixNano, TimeUnixNano: p.TimeUnixNano, Exemplars: p.Exemplars, AggregationTemporality: e.Histogram.AggregationTemporality,
							Histogram: &v1.HistogramDataPoint{Count: p.Count, Sum: p.Sum, BucketCounts: p.BucketCounts, ExplicitBounds: p.ExplicitBounds, Min: p.Min, Max: p.Max}}, m.Name, ra, sa, p.Attributes)
					}
				case *metricsv1.Metric_ExponentialHistogram:
					for _, p := range e.ExponentialHistogram.GetDataPoints() {
						add(&v1.Metric{Kind: v1.Metric_EXPONENTIAL_HISTOGRAM, Description: m.Description, Unit: m.Unit, StartTimeUnixNano: p.StartTimeUnixNano, TimeUnixNano: p.TimeUnixNano, Exemplars: p.Exemplars, AggregationTemporality: e.ExponentialHistogram.AggregationTemporality,
							ExponentialHistogram: &v1.ExponentialHistogramDataPoint{Count: p.Count, Sum: p.Sum, Scale: p.Scale, ZeroCount: p.ZeroCount, Positive: p.Positive, Negative: p.Negative, Min: p.Min, Max: p.Max, ZeroThreshold: p.ZeroThreshold}}, m.Name, ra, sa, p.Attributes)
					}
				case *metricsv1.Metric_Summary:
					for _, p := range e.Summary.GetDataPoints() {
						add(&v1.Metric{Kind: v1.Metric_SUMMARY, Description: m.Description, Unit: m.Unit, StartTimeUnixNano: p.StartTimeUnixNano, TimeUnixNano: p.TimeUnixNano,
							Summary: &v1.SummaryDataPoint{Count: p.Count, Sum: p.Sum, QuantileValues: p.QuantileValues}}, m.Name, ra, sa, p.Attributes)
					}
				}
			}
		}
	}
	return
}

func fill(r *rand.Rand, d *metricsv1.MetricsData) {
	f := func() *float64 {
		if r.Intn(3) == 0 {
			return nil
		}
		v := float64(r.Intn(100)) / 4
		return &v
	}
	for _, rm := range d.ResourceMetrics {
		for _, sm := range rm.ScopeMetrics {
			for _, m := range sm.Metrics {
				m.Description, m.Unit = []string{"", "about", "more"}[r.Intn(3)], []string{"", "By", "ms"}[r.Intn(3)]
				for _, p := range m.GetHistogram().GetDataPoints() {
					p.Count, p.Sum, p.Min, p.Max = uint64(r.Intn(9)), f(), f(), f()
					p.BucketCounts, p.ExplicitBounds = []uint64{1, uint64(r.Intn(5))}, []float64{float64(r.Intn(7))}
				}
				for _, p := range m.GetExponentialHistogram().GetDataPoints() {
					p.Count, p.Sum, p.Min, p.Max, p.ZeroCount, p.Scale = uint64(r.Intn(9)), f(), f(), f(), uint64(r.Intn(4)), int32(r.Intn(5)-2)
					p.ZeroThreshold = float64(r.Intn(3))
					p.Positive = &metricsv1.ExponentialHistogramDataPoint_Buckets{Offset: int32(r.Intn(4)), BucketCounts: []uint64{2, 3}}
					p.Negative = &metricsv1.ExponentialHistogramDataPoint_Buckets{Offset: 1, BucketCounts: []uint64{uint64(r.Intn(4))}}
				}
				for _, p := range m.GetSummary().GetDataPoints() {
					p.Count, p.Sum = uint64(r.Intn(9)), float64(r.Intn(30))
					p.QuantileValues = []*metricsv1.SummaryDataPoint_ValueAtQuantile{{Quantile: .5, Value: float64(r.Intn(5))}}
				}
				if s := m.GetSum(); s != nil {
					s.AggregationTemporality, s.IsMonotonic = metricsv1.AggregationTemporality(r.Intn(3)), r.Intn(2) == 0
				}
				if s := m.GetHistogram(); s != nil {
					s.AggregationTemporality = metricsv1.AggregationTemporality(r.Intn(3))
				}
				if s := m.GetExponentialHistogram(); s != nil {
					s.AggregationTemporality = metricsv1.AggregationTemporality(r.Intn(3))
				}
			}
		}
	}
}

func TestVerifC22(t *testing.T) {
	var st zzvt.Stat
	defer st.Report(t)
	for round := 0; round < zzvt.N(6); round++ {
		db, err := badger.Open(badger.DefaultOptions("").WithInMemory(true).WithLogger(nil))
		if err != nil {
			t.Fatal(err)
		}
		m, err := NewMetrics(db)
		if err != nil {
			t.Fatal(err)
		}
		r := zzvt.Rand(fmt.Sprint("c22/", round))
		g := zzvt.NewGen(r)
		g.Holes = round%2 == 1
		series := map[string]uint64{} // set of texts -> hash
		ofHash := map[uint64]string{}
		ids := map[uint64]bool{}
		var next uint64
		before := map[uint64]bool{}
		for step := 0; step < 60 && !t.Failed(); step++ {
			d := g.Metrics()
			fill(r, d)
			in := fmt.Sprint(d)
			st.Case(in)
			want, texts := decompose(d)
			other, err := arrow3.New[*v1.Metric](memory.DefaultAllocator)
			if err != nil {
				t.Fatal(err)
			}
			for _, w := range want {
				other.Append(w)
			}
			m.Append(d)
			if s := fmt.Sprint(d); s != in {
				t.Errorf("Append changes its payload %s\nto %s", in, s)
			}
			got, exp := rows(t, m.build.NewRecord()), rows(t, other.NewRecord())
			other.Release()
			if len(got) != len(exp) {
				t.Errorf("%d points make %d rows: %s", len(exp), len(got), in)
				continue
			}
			now := map[uint64]bool{}
			for it := m.positions.Iterator(); it.HasNext(); {
				now[it.Next()] = true
			}
			for p := range before {
				if !now[p] {
					t.Errorf("position %d of an earlier row is lost after %s", p, in)
				}
			}
			seen := len(before)
			for i := range got {
				id, hash := num(got[i]["id"]), num(got[i]["hash"])
				if ids[id] || id < next {
					t.Errorf("row %d reuses id %d: %s", i, id, in)
				}
				ids[id], next = true, id+1
				delete(got[i], "id")
				delete(got[i], "hash")
				delete(exp[i], "id")
				delete(exp[i], "hash")
				if !reflect.DeepEqual(got[i], exp[i]) {
					t.Errorf("row %d is\n%v\nwant\n%v\nof %s", i, got[i], exp[i], in)
				}
				cols := map[uint64]bool{}
				for x := range texts[i] {
					c := m.tr.Tr([]byte(x))
					cols[c] = true
					if !now[id<<20|c] {
						t.Errorf("row %d (id %d) is not under column %d of %q: %s", i, id, c, x, in)
					}
				}
				seen += len(cols)
				k := fmt.Sprint(cols)
				if h, ok := series[k]; ok && h != hash {
					t.Errorf("row %d has hash %d, an earlier point with name and attributes %v has %d: %s", i, hash, texts[i], h, in)
				}
				if o, ok := ofHash[hash]; ok && o != k {
					t.Errorf("row %d with columns %s has the hash of %s", i, k, o)
				}
				series[k], ofHash[hash] = hash, k
			}
			if len(now) != seen {
				t.Errorf("%d positions instead of %d after %s", len(now), seen, in)
			}
			before = now
		}
		m.Close()
		db.Close()
	}
}
