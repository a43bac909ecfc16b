package transform

import (
	"time"

	"github.com/gernest/requiemdb/internal/vf"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/sdk/metric/metricdata"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
)

// A function is specified over what it returns itself; that parts are the
// conversions of parts is said with vf.Made, so the whole tree is converted if
// every function is.

func vfNano(t time.Time) uint64 { return vf.Ite(t.IsZero(), 0, uint64(vf.Nanos(t))) }

// Attributes.

func vfIsBool(o *commonv1.AnyValue, v bool) bool {
	return o != nil && vf.Is[*commonv1.AnyValue_BoolValue](o.Value) && vf.Alloc(o) && vf.Alloc(o.Value.(*commonv1.AnyValue_BoolValue)) && o.GetBoolValue() == v
}
func vfIsInt(o *commonv1.AnyValue, v int64) bool {
	return o != nil && vf.Is[*commonv1.AnyValue_IntValue](o.Value) && vf.Alloc(o) && vf.Alloc(o.Value.(*commonv1.AnyValue_IntValue)) && o.GetIntValue() == v
}
func vfIsDouble(o *commonv1.AnyValue, v float64) bool {
	return o != nil && vf.Is[*commonv1.AnyValue_DoubleValue](o.Value) && vf.Alloc(o) && vf.Alloc(o.Value.(*commonv1.AnyValue_DoubleValue)) && vf.Same(o.GetDoubleValue(), v)
}
func vfIsString(o *commonv1.AnyValue, v string) bool {
	return o != nil && vf.Is[*commonv1.AnyValue_StringValue](o.Value) && vf.Alloc(o) && vf.Alloc(o.Value.(*commonv1.AnyValue_StringValue)) && o.GetStringValue() == v
}
func vfIsArray(o *commonv1.AnyValue) bool {
	return o != nil && vf.Is[*commonv1.AnyValue_ArrayValue](o.Value) && o.GetArrayValue() != nil
}

//vf:for boolSliceValues
//vf:props C18
func vfBools(vals []bool, out []*commonv1.AnyValue) {
	vf.Ensures("one each", len(out) == len(vals))
	vf.Ensures("in order", vf.Forall(func(k int) bool {
		vf.Trig(out[k])
		return vf.Implies(0 <= k && k < len(vals), vfIsBool(out[k], vals[k]))
	}))
	vf.Made("bools", out, vals)
	vf.LoopOver(func(i int, s []bool) {
		c := vf.Cur[[]*commonv1.AnyValue]()
		vf.Invariant("so far", vf.Forall(func(k int) bool {
			vf.Trig(c[k])
			return vf.Implies(0 <= k && k < i, vfIsBool(c[k], vals[k]))
		}))
	})
}

//vf:for int64SliceValues
//vf:props C18
func vfInts(vals []int64, out []*commonv1.AnyValue) {
	vf.Ensures("one each", len(out) == len(vals))
	vf.Ensures("in order", vf.Forall(func(k int) bool {
		vf.Trig(out[k])
		return vf.Implies(0 <= k && k < len(vals), vfIsInt(out[k], vals[k]))
	}))
	vf.Made("int64s", out, vals)
	vf.LoopOver(func(i int, s []int64) {
		c := vf.Cur[[]*commonv1.AnyValue]()
		vf.Invariant("so far", vf.Forall(func(k int) bool {
			vf.Trig(c[k])
			return vf.Implies(0 <= k && k < i, vfIsInt(c[k], vals[k]))
		}))
	})
}

//vf:for float64SliceValues
//vf:props C18
func vfDoubles(vals []float64, out []*commonv1.AnyValue) {
	vf.Ensures("one each", len(out) == len(vals))
	vf.Ensures("in order", vf.Forall(func(k int) bool {
		vf.Trig(out[k])
		return vf.Implies(0 <= k && k < len(vals), vfIsDouble(out[k], vals[k]))
	}))
	vf.Made("float64s", out, vals)
	vf.LoopOver(func(i int, s []float64) {
		c := vf.Cur[[]*commonv1.AnyValue]()
		vf.Invariant("so far", vf.Forall(func(k int) bool {
			vf.Trig(c[k])
			return vf.Implies(0 <= k && k < i, vfIsDouble(c[k], vals[k]))
		}))
	})
}

//vf:for stringSliceValues
//vf:props C18
func vfStrings(vals []string, out []*commonv1.AnyValue) {
	vf.Ensures("one each", len(out) == len(vals))
	vf.Ensures("in order", vf.Forall(func(k int) bool {
		vf.Trig(out[k])
		return vf.Implies(0 <= k && k < len(vals), vfIsString(out[k], vals[k]))
	}))
	vf.Made("strings", out, vals)
	vf.LoopOver(func(i int, s []string) {
		c := vf.Cur[[]*commonv1.AnyValue]()
		vf.Invariant("so far", vf.Forall(func(k int) bool {
			vf.Trig(c[k])
			return vf.Implies(0 <= k && k < i, vfIsString(c[k], vals[k]))
		}))
	})
}

//vf:for Value
//vf:props C18
func vfValue(v attribute.Value, out *commonv1.AnyValue) {
	t := v.Type()
	vf.Ensures("bool", vf.Implies(t == attribute.BOOL, vfIsBool(out, v.AsBool())))
	vf.Ensures("int", vf.Implies(t == attribute.INT64, vfIsInt(out, v.AsInt64())))
	vf.Ensures("float", vf.Implies(t == attribute.FLOAT64, vfIsDouble(out, v.AsFloat64())))
	vf.Ensures("string", vf.Implies(t == attribute.STRING, vfIsString(out, v.AsString())))
	vf.Ensures("bools", vf.Implies(t == attribute.BOOLSLICE, vfIsArray(out) && vf.Made("bools", out.GetArrayValue().Values, v.AsBoolSlice())))
	vf.Ensures("ints", vf.Implies(t == attribute.INT64SLICE, vfIsArray(out) && vf.Made("int64s", out.GetArrayValue().Values, v.AsInt64Slice())))
	vf.Ensures("floats", vf.Implies(t == attribute.FLOAT64SLICE, vfIsArray(out) && vf.Made("float64s", out.GetArrayValue().Values, v.AsFloat64Slice())))
	vf.Ensures("strings", vf.Implies(t == attribute.STRINGSLICE, vfIsArray(out) && vf.Made("strings", out.GetArrayValue().Values, v.AsStringSlice())))
	vf.Ensures("no type", vf.Implies(t == attribute.INVALID, vfIsString(out, "INVALID")))
	vf.Made("value", out, v)
}

//vf:for KeyValue
//vf:props C18
func vfKeyValue(kv attribute.KeyValue, out *commonv1.KeyValue) {
	vf.Ensures("key and value", out != nil && out.Key == string(kv.Key) && vf.Made("value", out.Value, kv.Value))
	vf.Made("kv", out, string(kv.Key), kv.Value)
}

//vf:for KeyValues
//vf:props C18
func vfKeyValues(attrs []attribute.KeyValue, out []*commonv1.KeyValue) {
	vf.Ensures("one each", len(out) == len(attrs))
	vf.Ensures("in order", vf.Forall(func(k int) bool {
		vf.Trig(out[k])
		return vf.Implies(0 <= k && k < len(attrs), vf.Made("kv", out[k], string(attrs[k].Key), attrs[k].Value))
	}))
	vf.Made("kvs", out, attrs)
	vf.LoopOver(func(i int, s []attribute.KeyValue) {
		c := vf.Cur[[]*commonv1.KeyValue]()
		vf.Invariant("as many", len(c) == i)
		vf.Invariant("so far", vf.Forall(func(k int) bool {
			vf.Trig(c[k])
			return vf.Implies(0 <= k && k < i, vf.Made("kv", c[k], string(attrs[k].Key), attrs[k].Value))
		}))
	})
}

// the attributes of a set, by its identity
func vfSetLen(s int) int                  { return vf.Fn[int]("attr:len", s) }
func vfSetKey(s, i int) string            { return vf.Fn[string]("attr:key", s, i) }
func vfSetVal(s, i int) attribute.Value   { return vf.Fn[attribute.Value]("attr:val", s, i) }
func vfSetOf(it attribute.Iterator) int   { return vf.Fn[int]("attr:iterSet", it) }
func vfIterPos(it attribute.Iterator) int { return vf.Fn[int]("attr:iterPos", it) }
func vfSetId(s attribute.Set) int         { return vf.Fn[int]("attr:distinct", s) }

//vf:for AttrIter
//vf:props C18
func vfAttrIter(iter attribute.Iterator, out []*commonv1.KeyValue) {
	set := vfSetOf(vf.Old(iter))
	vf.Requires("at the start", vfIterPos(iter) == -1)
	vf.Ensures("one each", len(out) == vfSetLen(set))
	vf.Ensures("in order", vf.Forall(func(k int) bool {
		vf.Trig(out[k])
		return vf.Implies(0 <= k && k < len(out), vf.Made("kv", out[k], vfSetKey(set, k), vfSetVal(set, k)))
	}))
	vf.Made("attrs", out, vfSetOf(iter))
	vf.LoopAny(func() {
		c := vf.Cur[[]*commonv1.KeyValue]()
		vf.Invariant("position", vfSetOf(vf.Cur[attribute.Iterator]()) == set && vfIterPos(vf.Cur[attribute.Iterator]()) == len(c)-1 && len(c) <= vfSetLen(set))
		vf.Invariant("so far", vf.Forall(func(k int) bool {
			vf.Trig(c[k])
			return vf.Implies(0 <= k && k < len(c), vf.Made("kv", c[k], vfSetKey(set, k), vfSetVal(set, k)))
		}))
	})
}

//vf:for timeUnixNano
//vf:props C18
func vfTime(t time.Time, n uint64) {
	vf.Ensures("nanoseconds since 1970, 0 of no time", n == vfNano(t))
}

//vf:for Temporality
//vf:props C18
func vfTemporality(t metricdata.Temporality, o metricsv1.AggregationTemporality, err error) {
	vf.Ensures("delta", vf.Implies(t == metricdata.DeltaTemporality, o == metricsv1.AggregationTemporality_AGGREGATION_TEMPORALITY_DELTA))
	vf.Ensures("cumulative", vf.Implies(t == metricdata.CumulativeTemporality, o == metricsv1.AggregationTemporality_AGGREGATION_TEMPORALITY_CUMULATIVE))
	vf.Ensures("others are reported", vf.Iff(err == nil, vfKnown(t)))
}

func vfKnown(t metricdata.Temporality) bool {
	return t == metricdata.DeltaTemporality || t == metricdata.CumulativeTemporality
}
func vfTemp(o metricsv1.AggregationTemporality, t metricdata.Temporality) bool {
	return vf.Iff(o == metricsv1.AggregationTemporality_AGGREGATION_TEMPORALITY_DELTA, t == metricdata.DeltaTemporality) &&
		vf.Iff(o == metricsv1.AggregationTemporality_AGGREGATION_TEMPORALITY_CUMULATIVE, t == metricdata.CumulativeTemporality)
}

//vf:for QuantileValues
//vf:props C18
func vfQuantiles(quantiles []metricdata.QuantileValue, out []*metricsv1.SummaryDataPoint_ValueAtQuantile) {
	vf.Ensures("one each", len(out) == len(quantiles))
	vf.Ensures("in order", vf.Forall(func(k int) bool {
		vf.Trig(out[k])
		return vf.Implies(0 <= k && k < len(quantiles), out[k] != nil && vf.Alloc(out[k]) && vf.Same(out[k].Quantile, quantiles[k].Quantile) && vf.Same(out[k].Value, quantiles[k].Value))
	}))
	vf.Made("quantiles", out, quantiles)
	vf.LoopOver(func(i int, s []metricdata.QuantileValue) {
		c := vf.Cur[[]*metricsv1.SummaryDataPoint_ValueAtQuantile]()
		vf.Invariant("as many", len(c) == i)
		vf.Invariant("so far", vf.Forall(func(k int) bool {
			vf.Trig(c[k])
			return vf.Implies(0 <= k && k < i, c[k] != nil && vf.Alloc(c[k]) && vf.Same(c[k].Quantile, quantiles[k].Quantile) && vf.Same(c[k].Value, quantiles[k].Value))
		}))
	})
}

func vfExemplarI(o *metricsv1.Exemplar, d metricdata.Exemplar[int64]) bool {
	return o != nil && vf.Made("kvs", o.FilteredAttributes, d.FilteredAttributes) && o.TimeUnixNano == vfNano(d.Time) && vf.Same(o.SpanId, d.SpanID) && vf.Same(o.TraceId, d.TraceID) &&
		vf.Is[*metricsv1.Exemplar_AsInt](o.Value) && vf.Alloc(o) && vf.Alloc(o.Value.(*metricsv1.Exemplar_AsInt)) && o.GetAsInt() == d.Value
}

//vf:for Exemplars[int64]
//vf:props C18
func vfExemplarsI(exemplars []metricdata.Exemplar[int64], out []*metricsv1.Exemplar) {
	vf.Ensures("one each", len(out) == len(exemplars))
	vf.Ensures("in order, with its fields", vf.Forall(func(k int) bool {
		vf.Trig(out[k])
		return vf.Implies(0 <= k && k < len(exemplars), vfExemplarI(out[k], exemplars[k]))
	}))
	vf.Made("exemplarsI", out, exemplars)
	vf.LoopOver(func(i int, s []metricdata.Exemplar[int64]) {
		c := vf.Cur[[]*metricsv1.Exemplar]()
		vf.Invariant("as many", len(c) == i)
		vf.Invariant("so far", vf.Forall(func(k int) bool {
			vf.Trig(c[k])
			return vf.Implies(0 <= k && k < i, vfExemplarI(c[k], exemplars[k]))
		}))
	})
}

func vfPointI(o *metricsv1.NumberDataPoint, d metricdata.DataPoint[int64]) bool {
	return o != nil && vf.Made("attrs", o.Attributes, vfSetId(d.Attributes)) && o.StartTimeUnixNano == vfNano(d.StartTime) && o.TimeUnixNano == vfNano(d.Time) &&
		vf.Made("exemplarsI", o.Exemplars, d.Exemplars) && vf.Is[*metricsv1.NumberDataPoint_AsInt](o.Value) && vf.Alloc(o) && vf.Alloc(o.Value.(*metricsv1.NumberDataPoint_AsInt)) && o.GetAsInt() == d.Value
}

//vf:for DataPoints[int64]
//vf:props C18
func vfPointsI(dPts []metricdata.DataPoint[int64], out []*metricsv1.NumberDataPoint) {
	vf.Ensures("one each", len(out) == len(dPts))
	vf.Ensures("in order, with its fields", vf.Forall(func(k int) bool {
		vf.Trig(out[k])
		return vf.Implies(0 <= k && k < len(dPts), vfPointI(out[k], dPts[k]))
	}))
	vf.Made("pointsI", out, dPts)
	vf.LoopOver(func(i int, s []metricdata.DataPoint[int64]) {
		c := vf.Cur[[]*metricsv1.NumberDataPoint]()
		vf.Invariant("as many", len(c) == i)
		vf.Invariant("so far", vf.Forall(func(k int) bool {
			vf.Trig(c[k])
			return vf.Implies(0 <= k && k < i, vfPointI(c[k], dPts[k]))
		}))
	})
}

func vfHPointI(o *metricsv1.HistogramDataPoint, d metricdata.HistogramDataPoint[int64]) bool {
	return o != nil && vf.Made("attrs", o.Attributes, vfSetId(d.Attributes)) && o.StartTimeUnixNano == vfNano(d.StartTime) && o.TimeUnixNano == vfNano(d.Time) &&
		o.Count == d.Count && vf.Alloc(o) && vf.Alloc(o.Sum) && vf.Alloc(o.Min) && vf.Alloc(o.Max) && o.Sum != nil && vf.Same(*o.Sum, float64(d.Sum)) && vf.Same(o.BucketCounts, d.BucketCounts) && vf.Same(o.ExplicitBounds, d.Bounds) &&
		vf.Iff(o.Min != nil, vfValidI(d.Min)) && vf.Implies(o.Min != nil, vf.Same(*o.Min, float64(vfExtrI(d.Min)))) &&
		vf.Iff(o.Max != nil, vfValidI(d.Max)) && vf.Implies(o.Max != nil, vf.Same(*o.Max, float64(vfExtrI(d.Max)))) &&
		vf.Made("exemplarsI", o.Exemplars, d.Exemplars)
}

//vf:for HistogramDataPoints[int64]
//vf:props C18
func vfHPointsI(dPts []metricdata.HistogramDataPoint[int64], out []*metricsv1.HistogramDataPoint) {
	vf.Ensures("one each", len(out) == len(dPts))
	vf.Ensures("in order, with its fields", vf.Forall(func(k int) bool {
		vf.Trig(out[k])
		return vf.Implies(0 <= k && k < len(dPts), vfHPointI(out[k], dPts[k]))
	}))
	vf.Made("hpointsI", out, dPts)
	vf.LoopOver(func(i int, s []metricdata.HistogramDataPoint[int64]) {
		c := vf.Cur[[]*metricsv1.HistogramDataPoint]()
		vf.Invariant("as many", len(c) == i)
		vf.Invariant("so far", vf.Forall(func(k int) bool {
			vf.Trig(c[k])
			return vf.Implies(0 <= k && k < i, vfHPointI(c[k], dPts[k]))
		}))
	})
}

func vfEPointI(o *metricsv1.ExponentialHistogramDataPoint, d metricdata.ExponentialHistogramDataPoint[int64]) bool {
	return o != nil && vf.Made("attrs", o.Attributes, vfSetId(d.Attributes)) && o.StartTimeUnixNano == vfNano(d.StartTime) && o.TimeUnixNano == vfNano(d.Time) &&
		o.Count == d.Count && vf.Alloc(o) && vf.Alloc(o.Sum) && vf.Alloc(o.Min) && vf.Alloc(o.Max) && o.Sum != nil && vf.Same(*o.Sum, float64(d.Sum)) && o.Scale == d.Scale && o.ZeroCount == d.ZeroCount &&
		vf.Iff(o.Min != nil, vfValidI(d.Min)) && vf.Implies(o.Min != nil, vf.Same(*o.Min, float64(vfExtrI(d.Min)))) &&
		vf.Iff(o.Max != nil, vfValidI(d.Max)) && vf.Implies(o.Max != nil, vf.Same(*o.Max, float64(vfExtrI(d.Max)))) &&
		vf.Made("exemplarsI", o.Exemplars, d.Exemplars) && vf.Alloc(o.Positive) && vf.Alloc(o.Negative) && vfBuckets(o.Positive, d.PositiveBucket) && vfBuckets(o.Negative, d.NegativeBucket)
}

//vf:for ExponentialHistogramDataPoints[int64]
//vf:props C18
func vfEPointsI(dPts []metricdata.ExponentialHistogramDataPoint[int64], out []*metricsv1.ExponentialHistogramDataPoint) {
	vf.Ensures("one each", len(out) == len(dPts))
	vf.Ensures("in order, with its fields", vf.Forall(func(k int) bool {
		vf.Trig(out[k])
		return vf.Implies(0 <= k && k < len(dPts), vfEPointI(out[k], dPts[k]))
	}))
	vf.Made("epointsI", out, dPts)
	vf.LoopOver(func(i int, s []metricdata.ExponentialHistogramDataPoint[int64]) {
		c := vf.Cur[[]*metricsv1.ExponentialHistogramDataPoint]()
		vf.Invariant("as many", len(c) == i)
		vf.Invariant("so far", vf.Forall(func(k int) bool {
			vf.Trig(c[k])
			return vf.Implies(0 <= k && k < i, vfEPointI(c[k], dPts[k]))
		}))
	})
}

//vf:for Gauge[int64]
//vf:props C18
func vfGaugeI(g metricdata.Gauge[int64], out *metricsv1.Metric_Gauge) {
	vf.Ensures("its points", out != nil && out.Gauge != nil && vf.Made("pointsI", out.Gauge.DataPoints, g.DataPoints))
	vf.Made("gaugeI", out, g)
}

//vf:for Sum[int64]
//vf:props C18
func vfSumI(s metricdata.Sum[int64], out *metricsv1.Metric_Sum, err error) {
	vf.Ensures("unknown temporality is reported", vf.Iff(err == nil, vfKnown(s.Temporality)))
	vf.Ensures("its points", vf.Implies(err == nil, out != nil && out.Sum != nil && vf.Made("pointsI", out.Sum.DataPoints, s.DataPoints)))
	vf.Ensures("temporality and monotonicity", vf.Implies(err == nil, vfTemp(out.Sum.AggregationTemporality, s.Temporality) && out.Sum.IsMonotonic == s.IsMonotonic))
	vf.Made("sumI", out, s)
}

//vf:for Histogram[int64]
//vf:props C18
func vfHistI(h metricdata.Histogram[int64], out *metricsv1.Metric_Histogram, err error) {
	vf.Ensures("unknown temporality is reported", vf.Iff(err == nil, vfKnown(h.Temporality)))
	vf.Ensures("its points", vf.Implies(err == nil, out != nil && out.Histogram != nil && vf.Made("hpointsI", out.Histogram.DataPoints, h.DataPoints)))
	vf.Ensures("temporality", vf.Implies(err == nil, vfTemp(out.Histogram.AggregationTemporality, h.Temporality)))
	vf.Made("histI", out, h)
}

//vf:for ExponentialHistogram[int64]
//vf:props C18
func vfExpI(h metricdata.ExponentialHistogram[int64], out *metricsv1.Metric_ExponentialHistogram, err error) {
	vf.Ensures("unknown temporality is reported", vf.Iff(err == nil, vfKnown(h.Temporality)))
	vf.Ensures("its points", vf.Implies(err == nil, out != nil && out.ExponentialHistogram != nil && vf.Made("epointsI", out.ExponentialHistogram.DataPoints, h.DataPoints)))
	vf.Ensures("temporality", vf.Implies(err == nil, vfTemp(out.ExponentialHistogram.AggregationTemporality, h.Temporality)))
	vf.Made("expI", out, h)
}

func vfExemplarF(o *metricsv1.Exemplar, d metricdata.Exemplar[float64]) bool {
	return o != nil && vf.Made("kvs", o.FilteredAttributes, d.FilteredAttributes) && o.TimeUnixNano == vfNano(d.Time) && vf.Same(o.SpanId, d.SpanID) && vf.Same(o.TraceId, d.TraceID) &&
		vf.Is[*metricsv1.Exemplar_AsDouble](o.Value) && vf.Alloc(o) && vf.Alloc(o.Value.(*metricsv1.Exemplar_AsDouble)) && vf.Same(o.GetAsDouble(), d.Value)
}

//vf:for Exemplars[float64]
//vf:props C18
func vfExemplarsF(exemplars []metricdata.Exemplar[float64], out []*metricsv1.Exemplar) {
	vf.Ensures("one each", len(out) == len(exemplars))
	vf.Ensures("in order, with its fields", vf.Forall(func(k int) bool {
		vf.Trig(out[k])
		return vf.Implies(0 <= k && k < len(exemplars), vfExemplarF(out[k], exemplars[k]))
	}))
	vf.Made("exemplarsF", out, exemplars)
	vf.LoopOver(func(i int, s []metricdata.Exemplar[float64]) {
		c := vf.Cur[[]*metricsv1.Exemplar]()
		vf.Invariant("as many", len(c) == i)
		vf.Invariant("so far", vf.Forall(func(k int) bool {
			vf.Trig(c[k])
			return vf.Implies(0 <= k && k < i, vfExemplarF(c[k], exemplars[k]))
		}))
	})
}

func vfPointF(o *metricsv1.NumberDataPoint, d metricdata.DataPoint[float64]) bool {
	return o != nil && vf.Made("attrs", o.Attributes, vfSetId(d.Attributes)) && o.StartTimeUnixNano == vfNano(d.StartTime) && o.TimeUnixNano == vfNano(d.Time) &&
		vf.Made("exemplarsF", o.Exemplars, d.Exemplars) && vf.Is[*metricsv1.NumberDataPoint_AsDouble](o.Value) && vf.Alloc(o) && vf.Alloc(o.Value.(*metricsv1.NumberDataPoint_AsDouble)) && vf.Same(o.GetAsDouble(), d.Value)
}

//vf:for DataPoints[float64]
//vf:props C18
func vfPointsF(dPts []metricdata.DataPoint[float64], out []*metricsv1.NumberDataPoint) {
	vf.Ensures("one each", len(out) == len(dPts))
	vf.Ensures("in order, with its fields", vf.Forall(func(k int) bool {
		vf.Trig(out[k])
		return vf.Implies(0 <= k && k < len(dPts), vfPointF(out[k], dPts[k]))
	}))
	vf.Made("pointsF", out, dPts)
	vf.LoopOver(func(i int, s []metricdata.DataPoint[float64]) {
		c := vf.Cur[[]*metricsv1.NumberDataPoint]()
		vf.Invariant("as many", len(c) == i)
		vf.Invariant("so far", vf.Forall(func(k int) bool {
			vf.Trig(c[k])
			return vf.Implies(0 <= k && k < i, vfPointF(c[k], dPts[k]))
		}))
	})
}

func vfHPointF(o *metricsv1.HistogramDataPoint, d metricdata.HistogramDataPoint[float64]) bool {
	return o != nil && vf.Made("attrs", o.Attributes, vfSetId(d.Attributes)) && o.StartTimeUnixNano == vfNano(d.StartTime) && o.TimeUnixNano == vfNano(d.Time) &&
		o.Count == d.Count && vf.Alloc(o) && vf.Alloc(o.Sum) && vf.Alloc(o.Min) && vf.Alloc(o.Max) && o.Sum != nil && vf.Same(*o.Sum, float64(d.Sum)) && vf.Same(o.BucketCounts, d.BucketCounts) && vf.Same(o.ExplicitBounds, d.Bounds) &&
		vf.Iff(o.Min != nil, vfValidF(d.Min)) && vf.Implies(o.Min != nil, vf.Same(*o.Min, float64(vfExtrF(d.Min)))) &&
		vf.Iff(o.Max != nil, vfValidF(d.Max)) && vf.Implies(o.Max != nil, vf.Same(*o.Max, float64(vfExtrF(d.Max)))) &&
		vf.Made("exemplarsF", o.Exemplars, d.Exemplars)
}

//vf:for HistogramDataPoints[float64]
//vf:props C18
func vfHPointsF(dPts []metricdata.HistogramDataPoint[float64], out []*metricsv1.HistogramDataPoint) {
	vf.Ensures("one each", len(out) == len(dPts))
	vf.Ensures("in order, with its fields", vf.Forall(func(k int) bool {
		vf.Trig(out[k])
		return vf.Implies(0 <= k && k < len(dPts), vfHPointF(out[k], dPts[k]))
	}))
	vf.Made("hpointsF", out, dPts)
	vf.LoopOver(func(i int, s []metricdata.HistogramDataPoint[float64]) {
		c := vf.Cur[[]*metricsv1.HistogramDataPoint]()
		vf.Invariant("as many", len(c) == i)
		vf.Invariant("so far", vf.Forall(func(k int) bool {
			vf.Trig(c[k])
			return vf.Implies(0 <= k && k < i, vfHPointF(c[k], dPts[k]))
		}))
	})
}

func vfEPointF(o *metricsv1.ExponentialHistogramDataPoint, d metricdata.ExponentialHistogramDataPoint[float64]) bool {
	return o != nil && vf.Made("attrs", o.Attributes, vfSetId(d.Attributes)) && o.StartTimeUnixNano == vfNano(d.StartTime) && o.TimeUnixNano == vfNano(d.Time) &&
		o.Count == d.Count && vf.Alloc(o) && vf.Alloc(o.Sum) && vf.Alloc(o.Min) && vf.Alloc(o.Max) && o.Sum != nil && vf.Same(*o.Sum, float64(d.Sum)) && o.Scale == d.Scale && o.ZeroCount == d.ZeroCount &&
		vf.Iff(o.Min != nil, vfValidF(d.Min)) && vf.Implies(o.Min != nil, vf.Same(*o.Min, float64(vfExtrF(d.Min)))) &&
		vf.Iff(o.Max != nil, vfValidF(d.Max)) && vf.Implies(o.Max != nil, vf.Same(*o.Max, float64(vfExtrF(d.Max)))) &&
		vf.Made("exemplarsF", o.Exemplars, d.Exemplars) && vf.Alloc(o.Positive) && vf.Alloc(o.Negative) && vfBuckets(o.Positive, d.PositiveBucket) && vfBuckets(o.Negative, d.NegativeBucket)
}

//vf:for ExponentialHistogramDataPoints[float64]
//vf:props C18
func vfEPointsF(dPts []metricdata.ExponentialHistogramDataPoint[float64], out []*metricsv1.ExponentialHistogramDataPoint) {
	vf.Ensures("one each", len(out) == len(dPts))
	vf.Ensures("in order, with its fields", vf.Forall(func(k int) bool {
		vf.Trig(out[k])
		return vf.Implies(0 <= k && k < len(dPts), vfEPointF(out[k], dPts[k]))
	}))
	vf.Made("epointsF", out, dPts)
	vf.LoopOver(func(i int, s []metricdata.ExponentialHistogramDataPoint[float64]) {
		c := vf.Cur[[]*metricsv1.ExponentialHistogramDataPoint]()
		vf.Invariant("as many", len(c) == i)
		vf.Invariant("so far", vf.Forall(func(k int) bool {
			vf.Trig(c[k])
			return vf.Implies(0 <= k && k < i, vfEPointF(c[k], dPts[k]))
		}))
	})
}

//vf:for Gauge[float64]
//vf:props C18
func vfGaugeF(g metricdata.Gauge[float64], out *metricsv1.Metric_Gauge) {
	vf.Ensures("its points", out != nil && out.Gauge != nil && vf.Made("pointsF", out.Gauge.DataPoints, g.DataPoints))
	vf.Made("gaugeF", out, g)
}

//vf:for Sum[float64]
//vf:props C18
func vfSumF(s metricdata.Sum[float64], out *metricsv1.Metric_Sum, err error) {
	vf.Ensures("unknown temporality is reported", vf.Iff(err == nil, vfKnown(s.Temporality)))
	vf.Ensures("its points", vf.Implies(err == nil, out != nil && out.Sum != nil && vf.Made("pointsF", out.Sum.DataPoints, s.DataPoints)))
	vf.Ensures("temporality and monotonicity", vf.Implies(err == nil, vfTemp(out.Sum.AggregationTemporality, s.Temporality) && out.Sum.IsMonotonic == s.IsMonotonic))
	vf.Made("sumF", out, s)
}

//vf:for Histogram[float64]
//vf:props C18
func vfHistF(h metricdata.Histogram[float64], out *metricsv1.Metric_Histogram, err error) {
	vf.Ensures("unknown temporality is reported", vf.Iff(err == nil, vfKnown(h.Temporality)))
	vf.Ensures("its points", vf.Implies(err == nil, out != nil && out.Histogram != nil && vf.Made("hpointsF", out.Histogram.DataPoints, h.DataPoints)))
	vf.Ensures("temporality", vf.Implies(err == nil, vfTemp(out.Histogram.AggregationTemporality, h.Temporality)))
	vf.Made("histF", out, h)
}

//vf:for ExponentialHistogram[float64]
//vf:props C18
func vfExpF(h metricdata.ExponentialHistogram[float64], out *metricsv1.Metric_ExponentialHistogram, err error) {
	vf.Ensures("unknown temporality is reported", vf.Iff(err == nil, vfKnown(h.Temporality)))
	vf.Ensures("its points", vf.Implies(err == nil, out != nil && out.ExponentialHistogram != nil && vf.Made("epointsF", out.ExponentialHistogram.DataPoints, h.DataPoints)))
	vf.Ensures("temporality", vf.Implies(err == nil, vfTemp(out.ExponentialHistogram.AggregationTemporality, h.Temporality)))
	vf.Made("expF", out, h)
}

func vfExtrI(e metricdata.Extrema[int64]) int64 { return vf.Field[int64](e, "value") }
func vfValidI(e metricdata.Extrema[int64]) bool { return vf.Field[bool](e, "valid") }

func vfExtrF(e metricdata.Extrema[float64]) float64 { return vf.Field[float64](e, "value") }
func vfValidF(e metricdata.Extrema[float64]) bool   { return vf.Field[bool](e, "valid") }

func vfBuckets(o *metricsv1.ExponentialHistogramDataPoint_Buckets, b metricdata.ExponentialBucket) bool {
	return o != nil && o.Offset == b.Offset && vf.Same(o.BucketCounts, b.Counts)
}

//vf:for ExponentialHistogramDataPointBuckets
//vf:props C18
func vfBucketsOf(bucket metricdata.ExponentialBucket, out *metricsv1.ExponentialHistogramDataPoint_Buckets) {
	vf.Ensures("offset and counts", vfBuckets(out, bucket))
}

//vf:for Summary
//vf:props C18
func vfSummary(s metricdata.Summary, out *metricsv1.Metric_Summary) {
	vf.Ensures("its points", out != nil && out.Summary != nil && vf.Made("spoints", out.Summary.DataPoints, s.DataPoints))
	vf.Made("summary", out, s)
}

func vfSPoint(o *metricsv1.SummaryDataPoint, d metricdata.SummaryDataPoint) bool {
	return o != nil && vf.Made("attrs", o.Attributes, vfSetId(d.Attributes)) && o.StartTimeUnixNano == vfNano(d.StartTime) && o.TimeUnixNano == vfNano(d.Time) &&
		vf.Alloc(o) && o.Count == d.Count && vf.Same(o.Sum, d.Sum) && vf.Made("quantiles", o.QuantileValues, d.QuantileValues)
}

//vf:for SummaryDataPoints
//vf:props C18
func vfSPoints(dPts []metricdata.SummaryDataPoint, out []*metricsv1.SummaryDataPoint) {
	vf.Ensures("one each", len(out) == len(dPts))
	vf.Ensures("in order, with its fields", vf.Forall(func(k int) bool {
		vf.Trig(out[k])
		return vf.Implies(0 <= k && k < len(dPts), vfSPoint(out[k], dPts[k]))
	}))
	vf.Made("spoints", out, dPts)
	vf.LoopOver(func(i int, s []metricdata.SummaryDataPoint) {
		c := vf.Cur[[]*metricsv1.SummaryDataPoint]()
		vf.Invariant("as many", len(c) == i)
		vf.Invariant("so far", vf.Forall(func(k int) bool {
			vf.Trig(c[k])
			return vf.Implies(0 <= k && k < i, vfSPoint(c[k], dPts[k]))
		}))
	})
}

func vfConvertible(d metricdata.Aggregation) bool {
	return (vf.Is[metricdata.Gauge[int64]](d)) ||
		(vf.Is[metricdata.Sum[int64]](d) && vfKnown(d.(metricdata.Sum[int64]).Temporality)) ||
		(vf.Is[metricdata.Histogram[int64]](d) && vfKnown(d.(metricdata.Histogram[int64]).Temporality)) ||
		(vf.Is[metricdata.ExponentialHistogram[int64]](d) && vfKnown(d.(metricdata.ExponentialHistogram[int64]).Temporality)) ||
		(vf.Is[metricdata.Gauge[float64]](d)) ||
		(vf.Is[metricdata.Sum[float64]](d) && vfKnown(d.(metricdata.Sum[float64]).Temporality)) ||
		(vf.Is[metricdata.Histogram[float64]](d) && vfKnown(d.(metricdata.Histogram[float64]).Temporality)) ||
		(vf.Is[metricdata.ExponentialHistogram[float64]](d) && vfKnown(d.(metricdata.ExponentialHistogram[float64]).Temporality)) ||
		vf.Is[metricdata.Summary](d)
}

//vf:for metric
//vf:props C18
func vfMetric(m metricdata.Metrics, out *metricsv1.Metric, err error) {
	vf.Ensures("name, description and unit", out != nil && out.Name == m.Name && out.Description == m.Description && out.Unit == m.Unit)
	vf.Ensures("unknown kinds and temporalities are reported", vf.Iff(err == nil, vfConvertible(m.Data)))
	vf.Ensures("Gauge of int64", vf.Implies(vf.Is[metricdata.Gauge[int64]](m.Data), vf.Is[*metricsv1.Metric_Gauge](out.Data) && vf.Made("gaugeI", out.Data.(*metricsv1.Metric_Gauge), m.Data.(metricdata.Gauge[int64]))))
	vf.Ensures("Sum of int64", vf.Implies(vf.Is[metricdata.Sum[int64]](m.Data) && vfKnown(m.Data.(metricdata.Sum[int64]).Temporality), vf.Is[*metricsv1.Metric_Sum](out.Data) && vf.Made("sumI", out.Data.(*metricsv1.Metric_Sum), m.Data.(metricdata.Sum[int64]))))
	vf.Ensures("Histogram of int64", vf.Implies(vf.Is[metricdata.Histogram[int64]](m.Data) && vfKnown(m.Data.(metricdata.Histogram[int64]).Temporality), vf.Is[*metricsv1.Metric_Histogram](out.Data) && vf.Made("histI", out.Data.(*metricsv1.Metric_Histogram), m.Data.(metricdata.Histogram[int64]))))
	vf.Ensures("ExponentialHistogram of int64", vf.Implies(vf.Is[metricdata.ExponentialHistogram[int64]](m.Data) && vfKnown(m.Data.(metricdata.ExponentialHistogram[int64]).Temporality), vf.Is[*metricsv1.Metric_ExponentialHistogram](out.Data) && vf.Made("expI", out.Data.(*metricsv1.Metric_ExponentialHistogram), m.Data.(metricdata.ExponentialHistogram[int64]))))
	vf.Ensures("Gauge of float64", vf.Implies(vf.Is[metricdata.Gauge[float64]](m.Data), vf.Is[*metricsv1.Metric_Gauge](out.Data) && vf.Made("gaugeF", out.Data.(*metricsv1.Metric_Gauge), m.Data.(metricdata.Gauge[float64]))))
	vf.Ensures("Sum of float64", vf.Implies(vf.Is[metricdata.Sum[float64]](m.Data) && vfKnown(m.Data.(metricdata.Sum[float64]).Temporality), vf.Is[*metricsv1.Metric_Sum](out.Data) && vf.Made("sumF", out.Data.(*metricsv1.Metric_Sum), m.Data.(metricdata.Sum[float64]))))
	vf.Ensures("Histogram of float64", vf.Implies(vf.Is[metricdata.Histogram[float64]](m.Data) && vfKnown(m.Data.(metricdata.Histogram[float64]).Temporality), vf.Is[*metricsv1.Metric_Histogram](out.Data) && vf.Made("histF", out.Data.(*metricsv1.Metric_Histogram), m.Data.(metricdata.Histogram[float64]))))
	vf.Ensures("ExponentialHistogram of float64", vf.Implies(vf.Is[metricdata.ExponentialHistogram[float64]](m.Data) && vfKnown(m.Data.(metricdata.ExponentialHistogram[float64]).Temporality), vf.Is[*metricsv1.Metric_ExponentialHistogram](out.Data) && vf.Made("expF", out.Data.(*metricsv1.Metric_ExponentialHistogram), m.Data.(metricdata.ExponentialHistogram[float64]))))
	vf.Ensures("Summary", vf.Implies(vf.Is[metricdata.Summary](m.Data), vf.Is[*metricsv1.Metric_Summary](out.Data) && vf.Made("summary", out.Data.(*metricsv1.Metric_Summary), m.Data.(metricdata.Summary))))
	vf.Made("metric", out, m)
}

// vfKept is how many of the first n metrics can be converted.
func vfKept(ms []metricdata.Metrics, n int) int { return vf.Fn[int]("kept", ms, n) }

func vfKeptIs(ms []metricdata.Metrics) bool {
	return vfKept(ms, 0) == 0 && vf.Forall(func(n int) bool {
		vf.Trig(vfKept(ms, n))
		vf.Trig(ms[n])
		return vf.Implies(0 <= n && n < len(ms), vfKept(ms, n+1) == vfKept(ms, n)+vf.Ite(vfConvertible(ms[n].Data), 1, 0))
	})
}

//vf:for (*multiErr).append
//vf:props C18
func vfAppend(e *multiErr, err error) {
	vf.Requires(e != nil)
	vf.Requires("no nil list", vf.Implies(vf.Is[*multiErr](err), err.(*multiErr) != nil))
	vf.Modifies(e.errs)
	vf.Ensures("added", len(e.errs) == len(vf.Old(e.errs))+vf.Ite(vf.Is[*multiErr](err), len(vf.Old(err.(*multiErr).errs)), 1))
}

func vfErrs(err error) int { return vf.Ite(err == nil, 0, len(err.(*multiErr).errs)) }

//vf:for Metrics
//vf:props C18
func vfMetrics(ms []metricdata.Metrics, out []*metricsv1.Metric, err error) {
	vf.Define(vfKeptIs(ms))
	vf.Ensures("those that can be converted", len(out) == vfKept(ms, len(ms)))
	vf.Ensures("in order", vf.Forall(func(k int) bool {
		vf.Trig(ms[k])
		return vf.Implies(0 <= k && k < len(ms) && vfConvertible(ms[k].Data), vf.Made("metric", out[vfKept(ms, k)], ms[k]))
	}))
	vf.Ensures("each other is reported", vf.Iff(err == nil, len(ms) == vfKept(ms, len(ms))) && vf.Implies(err != nil, vf.Is[*multiErr](err) && err.(*multiErr) != nil && vf.Alloc(err.(*multiErr)) && len(err.(*multiErr).errs) == len(ms)-vfKept(ms, len(ms))))
	vf.Made("metrics", out, ms)
	vf.LoopOver(func(i int, s []metricdata.Metrics) {
		c := vf.Cur[[]*metricsv1.Metric]()
		vf.Invariant("as many", len(c) == vfKept(ms, i) && len(vf.Cur[*multiErr]().errs) == i-vfKept(ms, i))
		vf.Invariant("not more", vf.Forall(func(k int) bool {
			vf.Trig(vfKept(ms, k))
			return vf.Implies(0 <= k && k < i, 0 <= vfKept(ms, k) && vfKept(ms, k+1) <= len(c))
		}))
		vf.Invariant("so far", vf.Forall(func(k int) bool {
			vf.Trig(ms[k])
			return vf.Implies(0 <= k && k < i && vfConvertible(ms[k].Data), vf.Made("metric", c[vfKept(ms, k)], ms[k]))
		}))
	})
}

// vfRejected is how many metrics of the first n scopes cannot be converted.
func vfRejected(sms []metricdata.ScopeMetrics, n int) int { return vf.Fn[int]("rejected", sms, n) }

func vfRejectedIs(sms []metricdata.ScopeMetrics) bool {
	return vfRejected(sms, 0) == 0 && vf.Forall(func(n int) bool {
		vf.Trig(vfRejected(sms, n))
		vf.Trig(sms[n])
		return vf.Implies(0 <= n && n < len(sms), vfRejected(sms, n+1) == vfRejected(sms, n)+len(sms[n].Metrics)-vfKept(sms[n].Metrics, len(sms[n].Metrics)))
	})
}

func vfScopeOf(o *metricsv1.ScopeMetrics, d metricdata.ScopeMetrics) bool {
	return o != nil && vf.Alloc(o) && o.Scope != nil && vf.Alloc(o.Scope) && o.Scope.Name == d.Scope.Name && o.Scope.Version == d.Scope.Version && o.SchemaUrl == d.Scope.SchemaURL && vf.Made("metrics", o.Metrics, d.Metrics)
}

//vf:for ScopeMetrics
//vf:props C18
func vfScopes(sms []metricdata.ScopeMetrics, out []*metricsv1.ScopeMetrics, err error) {
	vf.Define(vfRejectedIs(sms))
	vf.Ensures("one each", len(out) == len(sms))
	vf.Ensures("in order, with its fields", vf.Forall(func(k int) bool {
		vf.Trig(out[k])
		return vf.Implies(0 <= k && k < len(sms), vfScopeOf(out[k], sms[k]))
	}))
	vf.Ensures("every metric left out is reported", vf.Iff(err == nil, vfRejected(sms, len(sms)) == 0) && vf.Implies(err != nil, vf.Is[*multiErr](err) && len(err.(*multiErr).errs) == vfRejected(sms, len(sms))))
	vf.Made("scopes", out, sms)
	vf.LoopOver(func(i int, s []metricdata.ScopeMetrics) {
		c := vf.Cur[[]*metricsv1.ScopeMetrics]()
		vf.Invariant("as many", len(c) == i && len(vf.Cur[*multiErr]().errs) == vfRejected(sms, i))
		vf.Invariant("so far", vf.Forall(func(k int) bool {
			vf.Trig(c[k])
			return vf.Implies(0 <= k && k < i, vfScopeOf(c[k], sms[k]))
		}))
	})
}

//vf:for ResourceMetrics
//vf:props C18
func vfResource(rm *metricdata.ResourceMetrics, out *metricsv1.ResourceMetrics, err error) {
	vf.Requires(rm != nil)
	vf.Ensures("resource", out != nil && out.Resource != nil && vf.Made("attrs", out.Resource.Attributes, rm.Resource.Equivalent()) && out.SchemaUrl == rm.Resource.SchemaURL())
	vf.Ensures("scopes", vf.Made("scopes", out.ScopeMetrics, rm.ScopeMetrics))
	vf.Ensures("every metric left out is reported", vf.Iff(err == nil, vfRejected(rm.ScopeMetrics, len(rm.ScopeMetrics)) == 0))
}
