package transform

import (
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/batch"
	"github.com/gernest/requiemdb/internal/bitmaps"
	"github.com/gernest/requiemdb/internal/vf"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
)

// Timestamps found in parts of a payload. The n functions look at the first n
// elements only.

func tsNumber(s []*metricsv1.NumberDataPoint, n int, t uint64) bool {
	return vf.Exists(func(k int) bool { return 0 <= k && k < n && s[k].GetTimeUnixNano() == t })
}
func tsHistogram(s []*metricsv1.HistogramDataPoint, n int, t uint64) bool {
	return vf.Exists(func(k int) bool { return 0 <= k && k < n && s[k].GetTimeUnixNano() == t })
}
func tsExponential(s []*metricsv1.ExponentialHistogramDataPoint, n int, t uint64) bool {
	return vf.Exists(func(k int) bool { return 0 <= k && k < n && s[k].GetTimeUnixNano() == t })
}
func tsSummary(s []*metricsv1.SummaryDataPoint, n int, t uint64) bool {
	return vf.Exists(func(k int) bool { return 0 <= k && k < n && s[k].GetTimeUnixNano() == t })
}

func tsMetric(m *metricsv1.Metric, t uint64) bool {
	return vf.Is[*metricsv1.Metric_Gauge](m.Data) && tsNumber(m.Data.(*metricsv1.Metric_Gauge).Gauge.DataPoints, len(m.Data.(*metricsv1.Metric_Gauge).Gauge.DataPoints), t) ||
		vf.Is[*metricsv1.Metric_Sum](m.Data) && tsNumber(m.Data.(*metricsv1.Metric_Sum).Sum.DataPoints, len(m.Data.(*metricsv1.Metric_Sum).Sum.DataPoints), t) ||
		vf.Is[*metricsv1.Metric_Histogram](m.Data) && tsHistogram(m.Data.(*metricsv1.Metric_Histogram).Histogram.DataPoints, len(m.Data.(*metricsv1.Metric_Histogram).Histogram.DataPoints), t) ||
		vf.Is[*metricsv1.Metric_ExponentialHistogram](m.Data) && tsExponential(m.Data.(*metricsv1.Metric_ExponentialHistogram).ExponentialHistogram.DataPoints, len(m.Data.(*metricsv1.Metric_ExponentialHistogram).ExponentialHistogram.DataPoints), t) ||
		vf.Is[*metricsv1.Metric_Summary](m.Data) && tsSummary(m.Data.(*metricsv1.Metric_Summary).Summary.DataPoints, len(m.Data.(*metricsv1.Metric_Summary).Summary.DataPoints), t)
}
func tsMetrics(s []*metricsv1.Metric, n int, t uint64) bool {
	return vf.Exists(func(k int) bool { return 0 <= k && k < n && tsMetric(s[k], t) })
}
func tsScopeMetrics(s []*metricsv1.ScopeMetrics, n int, t uint64) bool {
	return vf.Exists(func(k int) bool { return 0 <= k && k < n && tsMetrics(s[k].Metrics, len(s[k].Metrics), t) })
}
func tsResourceMetrics(s []*metricsv1.ResourceMetrics, n int, t uint64) bool {
	return vf.Exists(func(k int) bool {
		return 0 <= k && k < n && tsScopeMetrics(s[k].ScopeMetrics, len(s[k].ScopeMetrics), t)
	})
}

func tsRecords(s []*logsv1.LogRecord, n int, t uint64) bool {
	return vf.Exists(func(k int) bool { return 0 <= k && k < n && s[k].GetTimeUnixNano() == t })
}
func tsScopeLogs(s []*logsv1.ScopeLogs, n int, t uint64) bool {
	return vf.Exists(func(k int) bool { return 0 <= k && k < n && tsRecords(s[k].LogRecords, len(s[k].LogRecords), t) })
}
func tsResourceLogs(s []*logsv1.ResourceLogs, n int, t uint64) bool {
	return vf.Exists(func(k int) bool { return 0 <= k && k < n && tsScopeLogs(s[k].ScopeLogs, len(s[k].ScopeLogs), t) })
}

func tsSpans(s []*tracev1.Span, n int, t uint64) bool {
	return vf.Exists(func(k int) bool {
		return 0 <= k && k < n && (s[k].GetStartTimeUnixNano() == t || s[k].GetEndTimeUnixNano() == t)
	})
}
func tsScopeSpans(s []*tracev1.ScopeSpans, n int, t uint64) bool {
	return vf.Exists(func(k int) bool { return 0 <= k && k < n && tsSpans(s[k].Spans, len(s[k].Spans), t) })
}
func tsResourceSpans(s []*tracev1.ResourceSpans, n int, t uint64) bool {
	return vf.Exists(func(k int) bool { return 0 <= k && k < n && tsScopeSpans(s[k].ScopeSpans, len(s[k].ScopeSpans), t) })
}

func tsData(d *v1.Data, t uint64) bool {
	return vf.Is[*v1.Data_Metrics](d.Data) && tsResourceMetrics(d.Data.(*v1.Data_Metrics).Metrics.ResourceMetrics, len(d.Data.(*v1.Data_Metrics).Metrics.ResourceMetrics), t) ||
		vf.Is[*v1.Data_Logs](d.Data) && tsResourceLogs(d.Data.(*v1.Data_Logs).Logs.ResourceLogs, len(d.Data.(*v1.Data_Logs).Logs.ResourceLogs), t) ||
		vf.Is[*v1.Data_Traces](d.Data) && tsResourceSpans(d.Data.(*v1.Data_Traces).Traces.ResourceSpans, len(d.Data.(*v1.Data_Traces).Traces.ResourceSpans), t)
}

func tsWithin(t, lo, hi uint64) bool { return t == 0 || lo != 0 && lo <= t && t <= hi }

// The same parts, with every timestamp within bounds.

func covNumber(s []*metricsv1.NumberDataPoint, n int, lo, hi uint64) bool {
	return vf.Forall(func(k int) bool { return vf.Implies(0 <= k && k < n, tsWithin(s[k].GetTimeUnixNano(), lo, hi)) })
}
func covHistogram(s []*metricsv1.HistogramDataPoint, n int, lo, hi uint64) bool {
	return vf.Forall(func(k int) bool { return vf.Implies(0 <= k && k < n, tsWithin(s[k].GetTimeUnixNano(), lo, hi)) })
}
func covExponential(s []*metricsv1.ExponentialHistogramDataPoint, n int, lo, hi uint64) bool {
	return vf.Forall(func(k int) bool { return vf.Implies(0 <= k && k < n, tsWithin(s[k].GetTimeUnixNano(), lo, hi)) })
}
func covSummary(s []*metricsv1.SummaryDataPoint, n int, lo, hi uint64) bool {
	return vf.Forall(func(k int) bool { return vf.Implies(0 <= k && k < n, tsWithin(s[k].GetTimeUnixNano(), lo, hi)) })
}

func covMetric(m *metricsv1.Metric, lo, hi uint64) bool {
	return vf.Implies(vf.Is[*metricsv1.Metric_Gauge](m.Data), covNumber(m.Data.(*metricsv1.Metric_Gauge).Gauge.DataPoints, len(m.Data.(*metricsv1.Metric_Gauge).Gauge.DataPoints), lo, hi)) &&
		vf.Implies(vf.Is[*metricsv1.Metric_Sum](m.Data), covNumber(m.Data.(*metricsv1.Metric_Sum).Sum.DataPoints, len(m.Data.(*metricsv1.Metric_Sum).Sum.DataPoints), lo, hi)) &&
		vf.Implies(vf.Is[*metricsv1.Metric_Histogram](m.Data), covHistogram(m.Data.(*metricsv1.Metric_Histogram).Histogram.DataPoints, len(m.Data.(*metricsv1.Metric_Histogram).Histogram.DataPoints), lo, hi)) &&
		vf.Implies(vf.Is[*metricsv1.Metric_ExponentialHistogram](m.Data), covExponential(m.Data.(*metricsv1.Metric_ExponentialHistogram).ExponentialHistogram.DataPoints, len(m.Data.(*metricsv1.Metric_ExponentialHistogram).ExponentialHistogram.DataPoints), lo, hi)) &&
		vf.Implies(vf.Is[*metricsv1.Metric_Summary](m.Data), covSummary(m.Data.(*metricsv1.Metric_Summary).Summary.DataPoints, len(m.Data.(*metricsv1.Metric_Summary).Summary.DataPoints), lo, hi))
}
func covMetrics(s []*metricsv1.Metric, n int, lo, hi uint64) bool {
	return vf.Forall(func(k int) bool { return vf.Implies(0 <= k && k < n, covMetric(s[k], lo, hi)) })
}
func covScopeMetrics(s []*metricsv1.ScopeMetrics, n int, lo, hi uint64) bool {
	return vf.Forall(func(k int) bool {
		return vf.Implies(0 <= k && k < n, covMetrics(s[k].Metrics, len(s[k].Metrics), lo, hi))
	})
}
func covResourceMetrics(s []*metricsv1.ResourceMetrics, n int, lo, hi uint64) bool {
	return vf.Forall(func(k int) bool {
		return vf.Implies(0 <= k && k < n, covScopeMetrics(s[k].ScopeMetrics, len(s[k].ScopeMetrics), lo, hi))
	})
}

func covRecords(s []*logsv1.LogRecord, n int, lo, hi uint64) bool {
	return vf.Forall(func(k int) bool { return vf.Implies(0 <= k && k < n, tsWithin(s[k].GetTimeUnixNano(), lo, hi)) })
}
func covScopeLogs(s []*logsv1.ScopeLogs, n int, lo, hi uint64) bool {
	return vf.Forall(func(k int) bool {
		return vf.Implies(0 <= k && k < n, covRecords(s[k].LogRecords, len(s[k].LogRecords), lo, hi))
	})
}
func covResourceLogs(s []*logsv1.ResourceLogs, n int, lo, hi uint64) bool {
	return vf.Forall(func(k int) bool {
		return vf.Implies(0 <= k && k < n, covScopeLogs(s[k].ScopeLogs, len(s[k].ScopeLogs), lo, hi))
	})
}

func covSpans(s []*tracev1.Span, n int, lo, hi uint64) bool {
	return vf.Forall(func(k int) bool {
		return vf.Implies(0 <= k && k < n, tsWithin(s[k].GetStartTimeUnixNano(), lo, hi) && tsWithin(s[k].GetEndTimeUnixNano(), lo, hi))
	})
}
func covScopeSpans(s []*tracev1.ScopeSpans, n int, lo, hi uint64) bool {
	return vf.Forall(func(k int) bool { return vf.Implies(0 <= k && k < n, covSpans(s[k].Spans, len(s[k].Spans), lo, hi)) })
}
func covResourceSpans(s []*tracev1.ResourceSpans, n int, lo, hi uint64) bool {
	return vf.Forall(func(k int) bool {
		return vf.Implies(0 <= k && k < n, covScopeSpans(s[k].ScopeSpans, len(s[k].ScopeSpans), lo, hi))
	})
}

func covData(d *v1.Data, lo, hi uint64) bool {
	return vf.Implies(vf.Is[*v1.Data_Metrics](d.Data), covResourceMetrics(d.Data.(*v1.Data_Metrics).Metrics.ResourceMetrics, len(d.Data.(*v1.Data_Metrics).Metrics.ResourceMetrics), lo, hi)) &&
		vf.Implies(vf.Is[*v1.Data_Logs](d.Data), covResourceLogs(d.Data.(*v1.Data_Logs).Logs.ResourceLogs, len(d.Data.(*v1.Data_Logs).Logs.ResourceLogs), lo, hi)) &&
		vf.Implies(vf.Is[*v1.Data_Traces](d.Data), covResourceSpans(d.Data.(*v1.Data_Traces).Traces.ResourceSpans, len(d.Data.(*v1.Data_Traces).Traces.ResourceSpans), lo, hi))
}

// tsOK: both bounds are set or none is.
func tsOK(c *Context) bool { return (c.minTs == 0) == (c.maxTs == 0) && c.minTs <= c.maxTs }

func tsIn(c *Context, t uint64) bool { return c.minTs <= t && t <= c.maxTs && c.minTs != 0 }

// tsWider: the bounds include the ones of the loop's start
func tsWider(c *Context) bool {
	return tsOK(c) && vf.Implies(vf.Before(c.minTs) != 0, tsIn(c, vf.Before(c.minTs)) && tsIn(c, vf.Before(c.maxTs)))
}
func tsWiderOld(c *Context) bool {
	return tsOK(c) && vf.Implies(vf.Old(c.minTs) != 0, tsIn(c, vf.Old(c.minTs)) && tsIn(c, vf.Old(c.maxTs)))
}

//vf:for (*Context).Timestamp
//vf:props C04
func vfTimestamp(c *Context, ts uint64) {
	vf.Requires("the bounds are consistent", tsOK(c))
	vf.Ensures("the bounds only grow", tsWiderOld(c))
	vf.Ensures("the timestamp is within the bounds", vf.Implies(ts != 0, tsIn(c, ts)))
	vf.Ensures("the bounds are ones that were seen", (c.minTs == vf.Old(c.minTs) || c.minTs == ts) && (c.maxTs == vf.Old(c.maxTs) || c.maxTs == ts))
	vf.Modifies(c.minTs, c.maxTs)
}

//vf:for (*Context).transformLogs
//vf:props C04
func vf04transformLogs(c *Context, rm *logsv1.ResourceLogs) {
	vf.Requires("the bounds are consistent", tsOK(c))
	vf.LoopOver(func(i int, s []*logsv1.ScopeLogs) {
		vf.Invariant("the bounds only grow", tsWider(c))
		vf.Invariant("every timestamp is within the bounds", covScopeLogs(s, i, c.minTs, c.maxTs))
		vf.Invariant("the bounds are timestamps of the data", (c.minTs == vf.Before(c.minTs) || tsScopeLogs(s, i, c.minTs)) && (c.maxTs == vf.Before(c.maxTs) || tsScopeLogs(s, i, c.maxTs)))
	})
	vf.LoopOver(func(i int, s []*logsv1.LogRecord) {
		vf.Invariant("the bounds only grow", tsWider(c))
		vf.Invariant("every timestamp is within the bounds", covRecords(s, i, c.minTs, c.maxTs))
		vf.Invariant("the bounds are timestamps of the data", (c.minTs == vf.Before(c.minTs) || tsRecords(s, i, c.minTs)) && (c.maxTs == vf.Before(c.maxTs) || tsRecords(s, i, c.maxTs)))
	})
	vf.Ensures("the bounds only grow", tsWiderOld(c))
	vf.Ensures("every timestamp is within the bounds", covScopeLogs(rm.ScopeLogs, len(rm.ScopeLogs), c.minTs, c.maxTs))
	vf.Ensures("the bounds are timestamps of the data", (c.minTs == vf.Old(c.minTs) || tsScopeLogs(rm.ScopeLogs, len(rm.ScopeLogs), c.minTs)) && (c.maxTs == vf.Old(c.maxTs) || tsScopeLogs(rm.ScopeLogs, len(rm.ScopeLogs), c.maxTs)))
	vf.Modifies(c.minTs, c.maxTs, c.label, c.positions.Bitmap)
}

//vf:for (*Context).transformTrace
//vf:props C04
func vf04transformTrace(c *Context, rm *tracev1.ResourceSpans) {
	vf.Requires("the bounds are consistent", tsOK(c))
	vf.LoopOver(func(i int, s []*tracev1.ScopeSpans) {
		vf.Invariant("the bounds only grow", tsWider(c))
		vf.Invariant("every timestamp is within the bounds", covScopeSpans(s, i, c.minTs, c.maxTs))
		vf.Invariant("the bounds are timestamps of the data", (c.minTs == vf.Before(c.minTs) || tsScopeSpans(s, i, c.minTs)) && (c.maxTs == vf.Before(c.maxTs) || tsScopeSpans(s, i, c.maxTs)))
	})
	vf.LoopOver(func(i int, s []*tracev1.Span) {
		vf.Invariant("the bounds only grow", tsWider(c))
		vf.Invariant("every timestamp is within the bounds", covSpans(s, i, c.minTs, c.maxTs))
		vf.Invariant("the bounds are timestamps of the data", (c.minTs == vf.Before(c.minTs) || tsSpans(s, i, c.minTs)) && (c.maxTs == vf.Before(c.maxTs) || tsSpans(s, i, c.maxTs)))
	})
	vf.Ensures("the bounds only grow", tsWiderOld(c))
	vf.Ensures("every timestamp is within the bounds", covScopeSpans(rm.ScopeSpans, len(rm.ScopeSpans), c.minTs, c.maxTs))
	vf.Ensures("the bounds are timestamps of the data", (c.minTs == vf.Old(c.minTs) || tsScopeSpans(rm.ScopeSpans, len(rm.ScopeSpans), c.minTs)) && (c.maxTs == vf.Old(c.maxTs) || tsScopeSpans(rm.ScopeSpans, len(rm.ScopeSpans), c.maxTs)))
	vf.Modifies(c.minTs, c.maxTs, c.label, c.positions.Bitmap)
}

//vf:for (*Context).transformMetrics
//vf:props C04
func vf04transformMetrics(c *Context, rm *metricsv1.ResourceMetrics) {
	vf.Requires("the bounds are consistent", tsOK(c))
	vf.LoopOver(func(i int, s []*metricsv1.ScopeMetrics) {
		vf.Invariant("the bounds only grow", tsWider(c))
		vf.Invariant("every timestamp is within the bounds", covScopeMetrics(s, i, c.minTs, c.maxTs))
		vf.Invariant("the bounds are timestamps of the data", (c.minTs == vf.Before(c.minTs) || tsScopeMetrics(s, i, c.minTs)) && (c.maxTs == vf.Before(c.maxTs) || tsScopeMetrics(s, i, c.maxTs)))
	})
	vf.LoopOver(func(i int, s []*metricsv1.Metric) {
		vf.Invariant("the bounds only grow", tsWider(c))
		vf.Invariant("every timestamp is within the bounds", covMetrics(s, i, c.minTs, c.maxTs))
		vf.Invariant("the bounds are timestamps of the data", (c.minTs == vf.Before(c.minTs) || tsMetrics(s, i, c.minTs)) && (c.maxTs == vf.Before(c.maxTs) || tsMetrics(s, i, c.maxTs)))
	})
	vf.LoopOver(func(i int, s []*metricsv1.NumberDataPoint) {
		vf.Invariant("the bounds only grow", tsWider(c))
		vf.Invariant("every timestamp is within the bounds", covNumber(s, i, c.minTs, c.maxTs))
		vf.Invariant("the bounds are timestamps of the data", (c.minTs == vf.Before(c.minTs) || tsNumber(s, i, c.minTs)) && (c.maxTs == vf.Before(c.maxTs) || tsNumber(s, i, c.maxTs)))
	})
	vf.LoopOver(func(i int, s []*metricsv1.HistogramDataPoint) {
		vf.Invariant("the bounds only grow", tsWider(c))
		vf.Invariant("every timestamp is within the bounds", covHistogram(s, i, c.minTs, c.maxTs))
		vf.Invariant("the bounds are timestamps of the data", (c.minTs == vf.Before(c.minTs) || tsHistogram(s, i, c.minTs)) && (c.maxTs == vf.Before(c.maxTs) || tsHistogram(s, i, c.maxTs)))
	})
	vf.LoopOver(func(i int, s []*metricsv1.ExponentialHistogramDataPoint) {
		vf.Invariant("the bounds only grow", tsWider(c))
		vf.Invariant("every timestamp is within the bounds", covExponential(s, i, c.minTs, c.maxTs))
		vf.Invariant("the bounds are timestamps of the data", (c.minTs == vf.Before(c.minTs) || tsExponential(s, i, c.minTs)) && (c.maxTs == vf.Before(c.maxTs) || tsExponential(s, i, c.maxTs)))
	})
	vf.LoopOver(func(i int, s []*metricsv1.SummaryDataPoint) {
		vf.Invariant("the bounds only grow", tsWider(c))
		vf.Invariant("every timestamp is within the bounds", covSummary(s, i, c.minTs, c.maxTs))
		vf.Invariant("the bounds are timestamps of the data", (c.minTs == vf.Before(c.minTs) || tsSummary(s, i, c.minTs)) && (c.maxTs == vf.Before(c.maxTs) || tsSummary(s, i, c.maxTs)))
	})
	vf.Ensures("the bounds only grow", tsWiderOld(c))
	vf.Ensures("every timestamp is within the bounds", covScopeMetrics(rm.ScopeMetrics, len(rm.ScopeMetrics), c.minTs, c.maxTs))
	vf.Ensures("the bounds are timestamps of the data", (c.minTs == vf.Old(c.minTs) || tsScopeMetrics(rm.ScopeMetrics, len(rm.ScopeMetrics), c.minTs)) && (c.maxTs == vf.Old(c.maxTs) || tsScopeMetrics(rm.ScopeMetrics, len(rm.ScopeMetrics), c.maxTs)))
	vf.Modifies(c.minTs, c.maxTs, c.label, c.positions.Bitmap)
}

//vf:for (*Context).data
//vf:props C04
//vf:optional
func vf04data(c *Context, d *v1.Data) {
	vf.Requires("the bounds are consistent", tsOK(c))
	vf.LoopOver(func(i int, s []*metricsv1.ResourceMetrics) {
		vf.Invariant("the bounds only grow", tsWider(c))
		vf.Invariant("every timestamp is within the bounds", covResourceMetrics(s, i, c.minTs, c.maxTs))
		vf.Invariant("the bounds are timestamps of the data", (c.minTs == vf.Before(c.minTs) || tsResourceMetrics(s, i, c.minTs)) && (c.maxTs == vf.Before(c.maxTs) || tsResourceMetrics(s, i, c.maxTs)))
	})
	vf.LoopOver(func(i int, s []*logsv1.ResourceLogs) {
		vf.Invariant("the bounds only grow", tsWider(c))
		vf.Invariant("every timestamp is within the bounds", covResourceLogs(s, i, c.minTs, c.maxTs))
		vf.Invariant("the bounds are timestamps of the data", (c.minTs == vf.Before(c.minTs) || tsResourceLogs(s, i, c.minTs)) && (c.maxTs == vf.Before(c.maxTs) || tsResourceLogs(s, i, c.maxTs)))
	})
	vf.LoopOver(func(i int, s []*tracev1.ResourceSpans) {
		vf.Invariant("the bounds only grow", tsWider(c))
		vf.Invariant("every timestamp is within the bounds", covResourceSpans(s, i, c.minTs, c.maxTs))
		vf.Invariant("the bounds are timestamps of the data", (c.minTs == vf.Before(c.minTs) || tsResourceSpans(s, i, c.minTs)) && (c.maxTs == vf.Before(c.maxTs) || tsResourceSpans(s, i, c.maxTs)))
	})
	vf.Ensures("the bounds only grow", tsWiderOld(c))
	vf.Ensures("every timestamp is within the bounds", covData(d, c.minTs, c.maxTs))
	vf.Ensures("the bounds are timestamps of the data", (c.minTs == vf.Old(c.minTs) || tsData(d, c.minTs)) && (c.maxTs == vf.Old(c.maxTs) || tsData(d, c.maxTs)))
	vf.Modifies(c.minTs, c.maxTs, c.label, c.positions.Bitmap)
}

// tsExact: the bounds of s are those of its data.
func tsExact(s *v1.Sample) bool {
	return (s.MinTs == 0) == (s.MaxTs == 0) && s.MinTs <= s.MaxTs &&
		covData(s.Data, s.MinTs, s.MaxTs) &&
		(s.MinTs == 0 || tsData(s.Data, s.MinTs) && tsData(s.Data, s.MaxTs))
}

//vf:for (*Context).processSample
//vf:props C04
//vf:optional
func vf04processSample(c *Context, s *v1.Sample) {
	vf.Ensures("the bounds are those of the data", tsExact(s))
	vf.Modifies(c.minTs, c.maxTs, c.label, c.positions, c.sampleID, vf.AnyOf[batch.Batch](), vf.AnyOf[bitmaps.Bitmap](), s.MinTs, s.MaxTs)
}

//vf:for (*Context).ProcessSamples
//vf:props C04
func vf04ProcessSamples(c *Context, ls []*v1.Sample, f batch.Fragments, err error) {
	vf.LoopOver(func(i int, s []*v1.Sample) {
		vf.Invariant("the bounds are those of the data", vf.Forall(func(k int) bool { return vf.Implies(0 <= k && k < i, tsExact(s[k])) }))
	})
	vf.Ensures("the bounds are those of the data", vf.Forall(func(k int) bool { return vf.Implies(0 <= k && k < len(ls), tsExact(ls[k])) }))
	vf.Modifies(c.minTs, c.maxTs, c.label, c.positions, c.sampleID, vf.AnyOf[batch.Batch](), vf.AnyOf[bitmaps.Bitmap](), vf.AnyOf[v1.Sample]())
}

//vf:for (*github.com/gernest/requiemdb/internal/batch.Batch).Add
//vf:props C04
//vf:trusted
func vf04Add(b *batch.Batch, id uint64) {
	vf.Modifies(vf.AnyOf[batch.Batch]())
}

//vf:for (*github.com/gernest/requiemdb/internal/batch.Batch).Build
//vf:props C04
//vf:trusted
func vf04Build(b *batch.Batch) {
	vf.Modifies(vf.AnyOf[batch.Batch]())
}

//vf:for (*Context).attributes
//vf:props C04
//vf:optional
func vfAttributes04(c *Context, prefix int32, kv []int) {
	vf.Modifies(c.label, c.positions.Bitmap)
}

//vf:for (*Context).addResource
//vf:props C04
//vf:optional
func vfAddResource04(c *Context, b any) {
	vf.Modifies(c.label, c.positions.Bitmap)
}

//vf:for (*Context).addScope
//vf:props C04
//vf:optional
func vfAddScope04(c *Context, b any) {
	vf.Modifies(c.label, c.positions.Bitmap)
}
