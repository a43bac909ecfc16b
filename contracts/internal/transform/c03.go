package transform

import (
	"encoding/hex"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/batch"
	"github.com/gernest/requiemdb/internal/bitmaps"
	"github.com/gernest/requiemdb/internal/vf"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
)

// labCol is the column of a property of the current resource kind.
func labCol(c *Context, p v1.PREFIX, key, value string) uint64 {
	return vf.ApplyStr(c.translate, vf.Dec(c.label.Resource)+":"+vf.Dec(p)+":"+key+vf.Ite(value != "", "="+value, ""))
}

func labIn(b *bitmaps.Bitmap, j uint64) bool { return vf.In(&b.Bitmap, j) }

// For every part of a payload: cov says that all its columns are recorded, hit
// that j is one of its columns. n limits lists to their first n elements.

func covAttrs(c *Context, b *bitmaps.Bitmap, p v1.PREFIX, s []*commonv1.KeyValue, n int) bool {
	return vf.Forall(func(k int) bool {
		return vf.Implies(0 <= k && k < n && s[k].Value.GetStringValue() != "", labIn(b, labCol(c, p, s[k].Key, s[k].Value.GetStringValue())))
	})
}
func hitAttrs(c *Context, p v1.PREFIX, s []*commonv1.KeyValue, n int, j uint64) bool {
	return vf.Exists(func(k int) bool {
		return 0 <= k && k < n && s[k].Value.GetStringValue() != "" && j == labCol(c, p, s[k].Key, s[k].Value.GetStringValue())
	})
}

func covRes(c *Context, b *bitmaps.Bitmap, schema string, r *resourcev1.Resource) bool {
	return vf.Implies(schema != "", labIn(b, labCol(c, v1.PREFIX_RESOURCE_SCHEMA, schema, ""))) &&
		covAttrs(c, b, v1.PREFIX_RESOURCE_ATTRIBUTES, r.GetAttributes(), len(r.GetAttributes()))
}
func hitRes(c *Context, schema string, r *resourcev1.Resource, j uint64) bool {
	return schema != "" && j == labCol(c, v1.PREFIX_RESOURCE_SCHEMA, schema, "") ||
		hitAttrs(c, v1.PREFIX_RESOURCE_ATTRIBUTES, r.GetAttributes(), len(r.GetAttributes()), j)
}

func covScope(c *Context, b *bitmaps.Bitmap, schema string, s *commonv1.InstrumentationScope) bool {
	return vf.Implies(schema != "", labIn(b, labCol(c, v1.PREFIX_SCOPE_SCHEMA, schema, ""))) &&
		vf.Implies(s.GetName() != "", labIn(b, labCol(c, v1.PREFIX_SCOPE_NAME, s.GetName(), ""))) &&
		vf.Implies(s.GetVersion() != "", labIn(b, labCol(c, v1.PREFIX_SCOPE_VERSION, s.GetVersion(), ""))) &&
		covAttrs(c, b, v1.PREFIX_SCOPE_ATTRIBUTES, s.GetAttributes(), len(s.GetAttributes()))
}
func hitScope(c *Context, schema string, s *commonv1.InstrumentationScope, j uint64) bool {
	return schema != "" && j == labCol(c, v1.PREFIX_SCOPE_SCHEMA, schema, "") ||
		s.GetName() != "" && j == labCol(c, v1.PREFIX_SCOPE_NAME, s.GetName(), "") ||
		s.GetVersion() != "" && j == labCol(c, v1.PREFIX_SCOPE_VERSION, s.GetVersion(), "") ||
		hitAttrs(c, v1.PREFIX_SCOPE_ATTRIBUTES, s.GetAttributes(), len(s.GetAttributes()), j)
}

func covID(c *Context, b *bitmaps.Bitmap, p v1.PREFIX, id []byte) bool {
	return vf.Implies(id != nil, labIn(b, labCol(c, p, hex.EncodeToString(id), "")))
}
func hitID(c *Context, p v1.PREFIX, id []byte, j uint64) bool {
	return id != nil && j == labCol(c, p, hex.EncodeToString(id), "")
}

func covRecord(c *Context, b *bitmaps.Bitmap, r *logsv1.LogRecord) bool {
	return vf.Implies(r.SeverityText != "", labIn(b, labCol(c, v1.PREFIX_LOGS_LEVEL, r.SeverityText, ""))) &&
		covAttrs(c, b, v1.PREFIX_ATTRIBUTES, r.Attributes, len(r.Attributes)) &&
		covID(c, b, v1.PREFIX_TRACE_ID, r.TraceId) && covID(c, b, v1.PREFIX_SPAN_ID, r.SpanId)
}
func hitRecord(c *Context, r *logsv1.LogRecord, j uint64) bool {
	return r.SeverityText != "" && j == labCol(c, v1.PREFIX_LOGS_LEVEL, r.SeverityText, "") ||
		hitAttrs(c, v1.PREFIX_ATTRIBUTES, r.Attributes, len(r.Attributes), j) ||
		hitID(c, v1.PREFIX_TRACE_ID, r.TraceId, j) || hitID(c, v1.PREFIX_SPAN_ID, r.SpanId, j)
}

func covSpan(c *Context, b *bitmaps.Bitmap, r *tracev1.Span) bool {
	return vf.Implies(r.Name != "", labIn(b, labCol(c, v1.PREFIX_NAME, r.Name, ""))) &&
		covAttrs(c, b, v1.PREFIX_ATTRIBUTES, r.Attributes, len(r.Attributes)) &&
		covID(c, b, v1.PREFIX_TRACE_ID, r.TraceId) && covID(c, b, v1.PREFIX_SPAN_ID, r.SpanId) && covID(c, b, v1.PREFIX_PARENT_SPAN_ID, r.ParentSpanId)
}
func hitSpan(c *Context, r *tracev1.Span, j uint64) bool {
	return r.Name != "" && j == labCol(c, v1.PREFIX_NAME, r.Name, "") ||
		hitAttrs(c, v1.PREFIX_ATTRIBUTES, r.Attributes, len(r.Attributes), j) ||
		hitID(c, v1.PREFIX_TRACE_ID, r.TraceId, j) || hitID(c, v1.PREFIX_SPAN_ID, r.SpanId, j) || hitID(c, v1.PREFIX_PARENT_SPAN_ID, r.ParentSpanId, j)
}

func cov3Number(c *Context, b *bitmaps.Bitmap, s []*metricsv1.NumberDataPoint, n int) bool {
	return vf.Forall(func(k int) bool {
		return vf.Implies(0 <= k && k < n, covAttrs(c, b, v1.PREFIX_ATTRIBUTES, s[k].GetAttributes(), len(s[k].GetAttributes())))
	})
}
func hit3Number(c *Context, s []*metricsv1.NumberDataPoint, n int, j uint64) bool {
	return vf.Exists(func(k int) bool {
		return 0 <= k && k < n && hitAttrs(c, v1.PREFIX_ATTRIBUTES, s[k].GetAttributes(), len(s[k].GetAttributes()), j)
	})
}

func cov3Histogram(c *Context, b *bitmaps.Bitmap, s []*metricsv1.HistogramDataPoint, n int) bool {
	return vf.Forall(func(k int) bool {
		return vf.Implies(0 <= k && k < n, covAttrs(c, b, v1.PREFIX_ATTRIBUTES, s[k].GetAttributes(), len(s[k].GetAttributes())))
	})
}
func hit3Histogram(c *Context, s []*metricsv1.HistogramDataPoint, n int, j uint64) bool {
	return vf.Exists(func(k int) bool {
		return 0 <= k && k < n && hitAttrs(c, v1.PREFIX_ATTRIBUTES, s[k].GetAttributes(), len(s[k].GetAttributes()), j)
	})
}

func cov3Exponential(c *Context, b *bitmaps.Bitmap, s []*metricsv1.ExponentialHistogramDataPoint, n int) bool {
	return vf.Forall(func(k int) bool {
		return vf.Implies(0 <= k && k < n, covAttrs(c, b, v1.PREFIX_ATTRIBUTES, s[k].GetAttributes(), len(s[k].GetAttributes())))
	})
}
func hit3Exponential(c *Context, s []*metricsv1.ExponentialHistogramDataPoint, n int, j uint64) bool {
	return vf.Exists(func(k int) bool {
		return 0 <= k && k < n && hitAttrs(c, v1.PREFIX_ATTRIBUTES, s[k].GetAttributes(), len(s[k].GetAttributes()), j)
	})
}

func cov3Summary(c *Context, b *bitmaps.Bitmap, s []*metricsv1.SummaryDataPoint, n int) bool {
	return vf.Forall(func(k int) bool {
		return vf.Implies(0 <= k && k < n, covAttrs(c, b, v1.PREFIX_ATTRIBUTES, s[k].GetAttributes(), len(s[k].GetAttributes())))
	})
}
func hit3Summary(c *Context, s []*metricsv1.SummaryDataPoint, n int, j uint64) bool {
	return vf.Exists(func(k int) bool {
		return 0 <= k && k < n && hitAttrs(c, v1.PREFIX_ATTRIBUTES, s[k].GetAttributes(), len(s[k].GetAttributes()), j)
	})
}

func covMetric3(c *Context, b *bitmaps.Bitmap, m *metricsv1.Metric) bool {
	return labIn(b, labCol(c, v1.PREFIX_NAME, m.Name, "")) &&
		vf.Implies(vf.Is[*metricsv1.Metric_Gauge](m.Data), cov3Number(c, b, m.Data.(*metricsv1.Metric_Gauge).Gauge.DataPoints, len(m.Data.(*metricsv1.Metric_Gauge).Gauge.DataPoints))) &&
		vf.Implies(vf.Is[*metricsv1.Metric_Sum](m.Data), cov3Number(c, b, m.Data.(*metricsv1.Metric_Sum).Sum.DataPoints, len(m.Data.(*metricsv1.Metric_Sum).Sum.DataPoints))) &&
		vf.Implies(vf.Is[*metricsv1.Metric_Histogram](m.Data), cov3Histogram(c, b, m.Data.(*metricsv1.Metric_Histogram).Histogram.DataPoints, len(m.Data.(*metricsv1.Metric_Histogram).Histogram.DataPoints))) &&
		vf.Implies(vf.Is[*metricsv1.Metric_ExponentialHistogram](m.Data), cov3Exponential(c, b, m.Data.(*metricsv1.Metric_ExponentialHistogram).ExponentialHistogram.DataPoints, len(m.Data.(*metricsv1.Metric_ExponentialHistogram).ExponentialHistogram.DataPoints))) &&
		vf.Implies(vf.Is[*metricsv1.Metric_Summary](m.Data), cov3Summary(c, b, m.Data.(*metricsv1.Metric_Summary).Summary.DataPoints, len(m.Data.(*metricsv1.Metric_Summary).Summary.DataPoints)))
}
func hitMetric3(c *Context, m *metricsv1.Metric, j uint64) bool {
	return j == labCol(c, v1.PREFIX_NAME, m.Name, "") ||
		vf.Is[*metricsv1.Metric_Gauge](m.Data) && hit3Number(c, m.Data.(*metricsv1.Metric_Gauge).Gauge.DataPoints, len(m.Data.(*metricsv1.Metric_Gauge).Gauge.DataPoints), j) ||
		vf.Is[*metricsv1.Metric_Sum](m.Data) && hit3Number(c, m.Data.(*metricsv1.Metric_Sum).Sum.DataPoints, len(m.Data.(*metricsv1.Metric_Sum).Sum.DataPoints), j) ||
		vf.Is[*metricsv1.Metric_Histogram](m.Data) && hit3Histogram(c, m.Data.(*metricsv1.Metric_Histogram).Histogram.DataPoints, len(m.Data.(*metricsv1.Metric_Histogram).Histogram.DataPoints), j) ||
		vf.Is[*metricsv1.Metric_ExponentialHistogram](m.Data) && hit3Exponential(c, m.Data.(*metricsv1.Metric_ExponentialHistogram).ExponentialHistogram.DataPoints, len(m.Data.(*metricsv1.Metric_ExponentialHistogram).ExponentialHistogram.DataPoints), j) ||
		vf.Is[*metricsv1.Metric_Summary](m.Data) && hit3Summary(c, m.Data.(*metricsv1.Metric_Summary).Summary.DataPoints, len(m.Data.(*metricsv1.Metric_Summary).Summary.DataPoints), j)
}

func cov3Metrics(c *Context, b *bitmaps.Bitmap, s []*metricsv1.Metric, n int) bool {
	return vf.Forall(func(k int) bool { return vf.Implies(0 <= k && k < n, covMetric3(c, b, s[k])) })
}
func hit3Metrics(c *Context, s []*metricsv1.Metric, n int, j uint64) bool {
	return vf.Exists(func(k int) bool { return 0 <= k && k < n && hitMetric3(c, s[k], j) })
}

func cov3Records(c *Context, b *bitmaps.Bitmap, s []*logsv1.LogRecord, n int) bool {
	return vf.Forall(func(k int) bool { return vf.Implies(0 <= k && k < n, covRecord(c, b, s[k])) })
}
func hit3Records(c *Context, s []*logsv1.LogRecord, n int, j uint64) bool {
	return vf.Exists(func(k int) bool { return 0 <= k && k < n && hitRecord(c, s[k], j) })
}

func cov3Spans(c *Context, b *bitmaps.Bitmap, s []*tracev1.Span, n int) bool {
	return vf.Forall(func(k int) bool { return vf.Implies(0 <= k && k < n, covSpan(c, b, s[k])) })
}
func hit3Spans(c *Context, s []*tracev1.Span, n int, j uint64) bool {
	return vf.Exists(func(k int) bool { return 0 <= k && k < n && hitSpan(c, s[k], j) })
}

func cov3ScopeMetrics(c *Context, b *bitmaps.Bitmap, s []*metricsv1.ScopeMetrics, n int) bool {
	return vf.Forall(func(k int) bool {
		return vf.Implies(0 <= k && k < n, covScope(c, b, s[k].SchemaUrl, s[k].Scope) && cov3Metrics(c, b, s[k].Metrics, len(s[k].Metrics)))
	})
}
func hit3ScopeMetrics(c *Context, s []*metricsv1.ScopeMetrics, n int, j uint64) bool {
	return vf.Exists(func(k int) bool {
		return 0 <= k && k < n && (hitScope(c, s[k].SchemaUrl, s[k].Scope, j) || hit3Metrics(c, s[k].Metrics, len(s[k].Metrics), j))
	})
}

func cov3ResourceMetrics(c *Context, b *bitmaps.Bitmap, s []*metricsv1.ResourceMetrics, n int) bool {
	return vf.Forall(func(k int) bool {
		return vf.Implies(0 <= k && k < n, covRes(c, b, s[k].SchemaUrl, s[k].Resource) && cov3ScopeMetrics(c, b, s[k].ScopeMetrics, len(s[k].ScopeMetrics)))
	})
}
func hit3ResourceMetrics(c *Context, s []*metricsv1.ResourceMetrics, n int, j uint64) bool {
	return vf.Exists(func(k int) bool {
		return 0 <= k && k < n && (hitRes(c, s[k].SchemaUrl, s[k].Resource, j) || hit3ScopeMetrics(c, s[k].ScopeMetrics, len(s[k].ScopeMetrics), j))
	})
}

func cov3ScopeLogs(c *Context, b *bitmaps.Bitmap, s []*logsv1.ScopeLogs, n int) bool {
	return vf.Forall(func(k int) bool {
		return vf.Implies(0 <= k && k < n, covScope(c, b, s[k].SchemaUrl, s[k].Scope) && cov3Records(c, b, s[k].LogRecords, len(s[k].LogRecords)))
	})
}
func hit3ScopeLogs(c *Context, s []*logsv1.ScopeLogs, n int, j uint64) bool {
	return vf.Exists(func(k int) bool {
		return 0 <= k && k < n && (hitScope(c, s[k].SchemaUrl, s[k].Scope, j) || hit3Records(c, s[k].LogRecords, len(s[k].LogRecords), j))
	})
}

func cov3ResourceLogs(c *Context, b *bitmaps.Bitmap, s []*logsv1.ResourceLogs, n int) bool {
	return vf.Forall(func(k int) bool {
		return vf.Implies(0 <= k && k < n, covRes(c, b, s[k].SchemaUrl, s[k].Resource) && cov3ScopeLogs(c, b, s[k].ScopeLogs, len(s[k].ScopeLogs)))
	})
}
func hit3ResourceLogs(c *Context, s []*logsv1.ResourceLogs, n int, j uint64) bool {
	return vf.Exists(func(k int) bool {
		return 0 <= k && k < n && (hitRes(c, s[k].SchemaUrl, s[k].Resource, j) || hit3ScopeLogs(c, s[k].ScopeLogs, len(s[k].ScopeLogs), j))
	})
}

func cov3ScopeSpans(c *Context, b *bitmaps.Bitmap, s []*tracev1.ScopeSpans, n int) bool {
	return vf.Forall(func(k int) bool {
		return vf.Implies(0 <= k && k < n, covScope(c, b, s[k].SchemaUrl, s[k].Scope) && cov3Spans(c, b, s[k].Spans, len(s[k].Spans)))
	})
}
func hit3ScopeSpans(c *Context, s []*tracev1.ScopeSpans, n int, j uint64) bool {
	return vf.Exists(func(k int) bool {
		return 0 <= k && k < n && (hitScope(c, s[k].SchemaUrl, s[k].Scope, j) || hit3Spans(c, s[k].Spans, len(s[k].Spans), j))
	})
}

func cov3ResourceSpans(c *Context, b *bitmaps.Bitmap, s []*tracev1.ResourceSpans, n int) bool {
	return vf.Forall(func(k int) bool {
		return vf.Implies(0 <= k && k < n, covRes(c, b, s[k].SchemaUrl, s[k].Resource) && cov3ScopeSpans(c, b, s[k].ScopeSpans, len(s[k].ScopeSpans)))
	})
}
func hit3ResourceSpans(c *Context, s []*tracev1.ResourceSpans, n int, j uint64) bool {
	return vf.Exists(func(k int) bool {
		return 0 <= k && k < n && (hitRes(c, s[k].SchemaUrl, s[k].Resource, j) || hit3ScopeSpans(c, s[k].ScopeSpans, len(s[k].ScopeSpans), j))
	})
}

//vf:for (*Context).attributes
//vf:props C03
//vf:optional
func vf03attributes(c *Context, p v1.PREFIX, kv []*commonv1.KeyValue) {
	vf.LoopOver(func(i int, s []*commonv1.KeyValue) {
		vf.Invariant("the kind is kept", c.label.Resource == vf.Before(c.label.Resource))
		vf.Invariant("nothing is forgotten", vf.Forall(func(j uint64) bool { return vf.Implies(vf.Before(labIn(c.positions, j)), labIn(c.positions, j)) }))
		vf.Invariant("every column is recorded", covAttrs(c, c.positions, p, s, i))
		vf.Invariant("nothing else is recorded", vf.Forall(func(j uint64) bool {
			return vf.Implies(labIn(c.positions, j), vf.Before(labIn(c.positions, j)) || hitAttrs(c, p, s, i, j))
		}))
	})
	vf.Ensures("the kind is kept", c.label.Resource == vf.Old(c.label.Resource))
	vf.Ensures("nothing is forgotten", vf.Forall(func(j uint64) bool { return vf.Implies(vf.Old(labIn(c.positions, j)), labIn(c.positions, j)) }))
	vf.Ensures("every column is recorded", covAttrs(c, c.positions, p, kv, len(kv)))
	vf.Ensures("nothing else is recorded", vf.Forall(func(j uint64) bool {
		return vf.Implies(labIn(c.positions, j), vf.Old(labIn(c.positions, j)) || hitAttrs(c, p, kv, len(kv), j))
	}))
	vf.Modifies(c.minTs, c.maxTs, c.label, c.positions.Bitmap)
}

//vf:for (*Context).addResource
//vf:props C03
//vf:optional
func vf03addResource(c *Context, b resourceBase) {
	vf.Requires("it is one of the three kinds", vf.Is[*metricsv1.ResourceMetrics](b) || vf.Is[*logsv1.ResourceLogs](b) || vf.Is[*tracev1.ResourceSpans](b))
	schema := vf.Ite(vf.Is[*metricsv1.ResourceMetrics](b), b.(*metricsv1.ResourceMetrics).GetSchemaUrl(), vf.Ite(vf.Is[*logsv1.ResourceLogs](b), b.(*logsv1.ResourceLogs).GetSchemaUrl(), b.(*tracev1.ResourceSpans).GetSchemaUrl()))
	r := vf.Ite(vf.Is[*metricsv1.ResourceMetrics](b), b.(*metricsv1.ResourceMetrics).GetResource(), vf.Ite(vf.Is[*logsv1.ResourceLogs](b), b.(*logsv1.ResourceLogs).GetResource(), b.(*tracev1.ResourceSpans).GetResource()))
	vf.Ensures("the kind is kept", c.label.Resource == vf.Old(c.label.Resource))
	vf.Ensures("nothing is forgotten", vf.Forall(func(j uint64) bool { return vf.Implies(vf.Old(labIn(c.positions, j)), labIn(c.positions, j)) }))
	vf.Ensures("every column is recorded", covRes(c, c.positions, schema, r))
	vf.Ensures("nothing else is recorded", vf.Forall(func(j uint64) bool {
		return vf.Implies(labIn(c.positions, j), vf.Old(labIn(c.positions, j)) || hitRes(c, schema, r, j))
	}))
	vf.Modifies(c.minTs, c.maxTs, c.label, c.positions.Bitmap)
}

//vf:for (*Context).addScope
//vf:props C03
//vf:optional
func vf03addScope(c *Context, b scopeBase) {
	vf.Requires("it is one of the three kinds", vf.Is[*metricsv1.ScopeMetrics](b) || vf.Is[*logsv1.ScopeLogs](b) || vf.Is[*tracev1.ScopeSpans](b))
	schema := vf.Ite(vf.Is[*metricsv1.ScopeMetrics](b), b.(*metricsv1.ScopeMetrics).GetSchemaUrl(), vf.Ite(vf.Is[*logsv1.ScopeLogs](b), b.(*logsv1.ScopeLogs).GetSchemaUrl(), b.(*tracev1.ScopeSpans).GetSchemaUrl()))
	r := vf.Ite(vf.Is[*metricsv1.ScopeMetrics](b), b.(*metricsv1.ScopeMetrics).GetScope(), vf.Ite(vf.Is[*logsv1.ScopeLogs](b), b.(*logsv1.ScopeLogs).GetScope(), b.(*tracev1.ScopeSpans).GetScope()))
	vf.Ensures("the kind is kept", c.label.Resource == vf.Old(c.label.Resource))
	vf.Ensures("nothing is forgotten", vf.Forall(func(j uint64) bool { return vf.Implies(vf.Old(labIn(c.positions, j)), labIn(c.positions, j)) }))
	vf.Ensures("every column is recorded", covScope(c, c.positions, schema, r))
	vf.Ensures("nothing else is recorded", vf.Forall(func(j uint64) bool {
		return vf.Implies(labIn(c.positions, j), vf.Old(labIn(c.positions, j)) || hitScope(c, schema, r, j))
	}))
	vf.Modifies(c.minTs, c.maxTs, c.label, c.positions.Bitmap)
}

//vf:for (*Context).transformLogs
//vf:props C03
func vf03transformLogs(c *Context, rm *logsv1.ResourceLogs) {
	vf.LoopOver(func(i int, s []*logsv1.ScopeLogs) {
		vf.Invariant("the kind is kept", c.label.Resource == vf.Before(c.label.Resource))
		vf.Invariant("nothing is forgotten", vf.Forall(func(j uint64) bool { return vf.Implies(vf.Before(labIn(c.positions, j)), labIn(c.positions, j)) }))
		vf.Invariant("every column is recorded", cov3ScopeLogs(c, c.positions, s, i))
		vf.Invariant("nothing else is recorded", vf.Forall(func(j uint64) bool {
			return vf.Implies(labIn(c.positions, j), vf.Before(labIn(c.positions, j)) || hit3ScopeLogs(c, s, i, j))
		}))
	})
	vf.LoopOver(func(i int, s []*logsv1.LogRecord) {
		vf.Invariant("the kind is kept", c.label.Resource == vf.Before(c.label.Resource))
		vf.Invariant("nothing is forgotten", vf.Forall(func(j uint64) bool { return vf.Implies(vf.Before(labIn(c.positions, j)), labIn(c.positions, j)) }))
		vf.Invariant("every column is recorded", cov3Records(c, c.positions, s, i))
		vf.Invariant("nothing else is recorded", vf.Forall(func(j uint64) bool {
			return vf.Implies(labIn(c.positions, j), vf.Before(labIn(c.positions, j)) || hit3Records(c, s, i, j))
		}))
	})
	vf.Ensures("the kind is kept", c.label.Resource == vf.Old(c.label.Resource))
	vf.Ensures("nothing is forgotten", vf.Forall(func(j uint64) bool { return vf.Implies(vf.Old(labIn(c.positions, j)), labIn(c.positions, j)) }))
	vf.Ensures("every column is recorded", covRes(c, c.positions, rm.SchemaUrl, rm.Resource) && cov3ScopeLogs(c, c.positions, rm.ScopeLogs, len(rm.ScopeLogs)))
	vf.Ensures("nothing else is recorded", vf.Forall(func(j uint64) bool {
		return vf.Implies(labIn(c.positions, j), vf.Old(labIn(c.positions, j)) || hitRes(c, rm.SchemaUrl, rm.Resource, j) || hit3ScopeLogs(c, rm.ScopeLogs, len(rm.ScopeLogs), j))
	}))
	vf.Modifies(c.minTs, c.maxTs, c.label, c.positions.Bitmap)
}

//vf:for (*Context).transformTrace
//vf:props C03
func vf03transformTrace(c *Context, rm *tracev1.ResourceSpans) {
	vf.LoopOver(func(i int, s []*tracev1.ScopeSpans) {
		vf.Invariant("the kind is kept", c.label.Resource == vf.Before(c.label.Resource))
		vf.Invariant("nothing is forgotten", vf.Forall(func(j uint64) bool { return vf.Implies(vf.Before(labIn(c.positions, j)), labIn(c.positions, j)) }))
		vf.Invariant("every column is recorded", cov3ScopeSpans(c, c.positions, s, i))
		vf.Invariant("nothing else is recorded", vf.Forall(func(j uint64) bool {
			return vf.Implies(labIn(c.positions, j), vf.Before(labIn(c.positions, j)) || hit3ScopeSpans(c, s, i, j))
		}))
	})
	vf.LoopOver(func(i int, s []*tracev1.Span) {
		vf.Invariant("the kind is kept", c.label.Resource == vf.Before(c.label.Resource))
		vf.Invariant("nothing is forgotten", vf.Forall(func(j uint64) bool { return vf.Implies(vf.Before(labIn(c.positions, j)), labIn(c.positions, j)) }))
		vf.Invariant("every column is recorded", cov3Spans(c, c.positions, s, i))
		vf.Invariant("nothing else is recorded", vf.Forall(func(j uint64) bool {
			return vf.Implies(labIn(c.positions, j), vf.Before(labIn(c.positions, j)) || hit3Spans(c, s, i, j))
		}))
	})
	vf.Ensures("the kind is kept", c.label.Resource == vf.Old(c.label.Resource))
	vf.Ensures("nothing is forgotten", vf.Forall(func(j uint64) bool { return vf.Implies(vf.Old(labIn(c.positions, j)), labIn(c.positions, j)) }))
	vf.Ensures("every column is recorded", covRes(c, c.positions, rm.SchemaUrl, rm.Resource) && cov3ScopeSpans(c, c.positions, rm.ScopeSpans, len(rm.ScopeSpans)))
	vf.Ensures("nothing else is recorded", vf.Forall(func(j uint64) bool {
		return vf.Implies(labIn(c.positions, j), vf.Old(labIn(c.positions, j)) || hitRes(c, rm.SchemaUrl, rm.Resource, j) || hit3ScopeSpans(c, rm.ScopeSpans, len(rm.ScopeSpans), j))
	}))
	vf.Modifies(c.minTs, c.maxTs, c.label, c.positions.Bitmap)
}

//vf:for (*Context).transformMetrics
//vf:props C03
func vf03transformMetrics(c *Context, rm *metricsv1.ResourceMetrics) {
	vf.LoopOver(func(i int, s []*metricsv1.ScopeMetrics) {
		vf.Invariant("the kind is kept", c.label.Resource == vf.Before(c.label.Resource))
		vf.Invariant("nothing is forgotten", vf.Forall(func(j uint64) bool { return vf.Implies(vf.Before(labIn(c.positions, j)), labIn(c.positions, j)) }))
		vf.Invariant("every column is recorded", cov3ScopeMetrics(c, c.positions, s, i))
		vf.Invariant("nothing else is recorded", vf.Forall(func(j uint64) bool {
			return vf.Implies(labIn(c.positions, j), vf.Before(labIn(c.positions, j)) || hit3ScopeMetrics(c, s, i, j))
		}))
	})
	vf.LoopOver(func(i int, s []*metricsv1.Metric) {
		vf.Invariant("the kind is kept", c.label.Resource == vf.Before(c.label.Resource))
		vf.Invariant("nothing is forgotten", vf.Forall(func(j uint64) bool { return vf.Implies(vf.Before(labIn(c.positions, j)), labIn(c.positions, j)) }))
		vf.Invariant("every column is recorded", cov3Metrics(c, c.positions, s, i))
		vf.Invariant("nothing else is recorded", vf.Forall(func(j uint64) bool {
			return vf.Implies(labIn(c.positions, j), vf.Before(labIn(c.positions, j)) || hit3Metrics(c, s, i, j))
		}))
	})
	vf.LoopOver(func(i int, s []*metricsv1.NumberDataPoint) {
		vf.Invariant("the kind is kept", c.label.Resource == vf.Before(c.label.Resource))
		vf.Invariant("nothing is forgotten", vf.Forall(func(j uint64) bool { return vf.Implies(vf.Before(labIn(c.positions, j)), labIn(c.positions, j)) }))
		vf.Invariant("every column is recorded", cov3Number(c, c.positions, s, i))
		vf.Invariant("nothing else is recorded", vf.Forall(func(j uint64) bool {
			return vf.Implies(labIn(c.positions, j), vf.Before(labIn(c.positions, j)) || hit3Number(c, s, i, j))
		}))
	})
	vf.LoopOver(func(i int, s []*metricsv1.HistogramDataPoint) {
		vf.Invariant("the kind is kept", c.label.Resource == vf.Before(c.label.Resource))
		vf.Invariant("nothing is forgotten", vf.Forall(func(j uint64) bool { return vf.Implies(vf.Before(labIn(c.positions, j)), labIn(c.positions, j)) }))
		vf.Invariant("every column is recorded", cov3Histogram(c, c.positions, s, i))
		vf.Invariant("nothing else is recorded", vf.Forall(func(j uint64) bool {
			return vf.Implies(labIn(c.positions, j), vf.Before(labIn(c.positions, j)) || hit3Histogram(c, s, i, j))
		}))
	})
	vf.LoopOver(func(i int, s []*metricsv1.ExponentialHistogramDataPoint) {
		vf.Invariant("the kind is kept", c.label.Resource == vf.Before(c.label.Resource))
		vf.Invariant("nothing is forgotten", vf.Forall(func(j uint64) bool { return vf.Implies(vf.Before(labIn(c.positions, j)), labIn(c.positions, j)) }))
		vf.Invariant("every column is recorded", cov3Exponential(c, c.positions, s, i))
		vf.Invariant("nothing else is recorded", vf.Forall(func(j uint64) bool {
			return vf.Implies(labIn(c.positions, j), vf.Before(labIn(c.positions, j)) || hit3Exponential(c, s, i, j))
		}))
	})
	vf.LoopOver(func(i int, s []*metricsv1.SummaryDataPoint) {
		vf.Invariant("the kind is kept", c.label.Resource == vf.Before(c.label.Resource))
		vf.Invariant("nothing is forgotten", vf.Forall(func(j uint64) bool { return vf.Implies(vf.Before(labIn(c.positions, j)), labIn(c.positions, j)) }))
		vf.Invariant("every column is recorded", cov3Summary(c, c.positions, s, i))
		vf.Invariant("nothing else is recorded", vf.Forall(func(j uint64) bool {
			return vf.Implies(labIn(c.positions, j), vf.Before(labIn(c.positions, j)) || hit3Summary(c, s, i, j))
		}))
	})
	vf.Ensures("the kind is kept", c.label.Resource == vf.Old(c.label.Resource))
	vf.Ensures("nothing is forgotten", vf.Forall(func(j uint64) bool { return vf.Implies(vf.Old(labIn(c.positions, j)), labIn(c.positions, j)) }))
	vf.Ensures("every column is recorded", covRes(c, c.positions, rm.SchemaUrl, rm.Resource) && cov3ScopeMetrics(c, c.positions, rm.ScopeMetrics, len(rm.ScopeMetrics)))
	vf.Ensures("nothing else is recorded", vf.Forall(func(j uint64) bool {
		return vf.Implies(labIn(c.positions, j), vf.Old(labIn(c.positions, j)) || hitRes(c, rm.SchemaUrl, rm.Resource, j) || hit3ScopeMetrics(c, rm.ScopeMetrics, len(rm.ScopeMetrics), j))
	}))
	vf.Modifies(c.minTs, c.maxTs, c.label, c.positions.Bitmap)
}

func covData3(c *Context, b *bitmaps.Bitmap, d *v1.Data) bool {
	return vf.Implies(vf.Is[*v1.Data_Metrics](d.Data), c.label.Resource == v1.RESOURCE_METRICS && cov3ResourceMetrics(c, b, d.Data.(*v1.Data_Metrics).Metrics.ResourceMetrics, len(d.Data.(*v1.Data_Metrics).Metrics.ResourceMetrics))) &&
		vf.Implies(vf.Is[*v1.Data_Logs](d.Data), c.label.Resource == v1.RESOURCE_LOGS && cov3ResourceLogs(c, b, d.Data.(*v1.Data_Logs).Logs.ResourceLogs, len(d.Data.(*v1.Data_Logs).Logs.ResourceLogs))) &&
		vf.Implies(vf.Is[*v1.Data_Traces](d.Data), c.label.Resource == v1.RESOURCE_TRACES && cov3ResourceSpans(c, b, d.Data.(*v1.Data_Traces).Traces.ResourceSpans, len(d.Data.(*v1.Data_Traces).Traces.ResourceSpans)))
}
func hitData3(c *Context, d *v1.Data, j uint64) bool {
	return vf.Is[*v1.Data_Metrics](d.Data) && hit3ResourceMetrics(c, d.Data.(*v1.Data_Metrics).Metrics.ResourceMetrics, len(d.Data.(*v1.Data_Metrics).Metrics.ResourceMetrics), j) ||
		vf.Is[*v1.Data_Logs](d.Data) && hit3ResourceLogs(c, d.Data.(*v1.Data_Logs).Logs.ResourceLogs, len(d.Data.(*v1.Data_Logs).Logs.ResourceLogs), j) ||
		vf.Is[*v1.Data_Traces](d.Data) && hit3ResourceSpans(c, d.Data.(*v1.Data_Traces).Traces.ResourceSpans, len(d.Data.(*v1.Data_Traces).Traces.ResourceSpans), j)
}

//vf:for (*Context).data
//vf:props C03
//vf:optional
func vf03data(c *Context, d *v1.Data) {
	vf.LoopOver(func(i int, s []*metricsv1.ResourceMetrics) {
		vf.Invariant("the kind is kept", c.label.Resource == vf.Before(c.label.Resource))
		vf.Invariant("nothing is forgotten", vf.Forall(func(j uint64) bool { return vf.Implies(vf.Before(labIn(c.positions, j)), labIn(c.positions, j)) }))
		vf.Invariant("every column is recorded", cov3ResourceMetrics(c, c.positions, s, i))
		vf.Invariant("nothing else is recorded", vf.Forall(func(j uint64) bool {
			return vf.Implies(labIn(c.positions, j), vf.Before(labIn(c.positions, j)) || hit3ResourceMetrics(c, s, i, j))
		}))
	})
	vf.LoopOver(func(i int, s []*logsv1.ResourceLogs) {
		vf.Invariant("the kind is kept", c.label.Resource == vf.Before(c.label.Resource))
		vf.Invariant("nothing is forgotten", vf.Forall(func(j uint64) bool { return vf.Implies(vf.Before(labIn(c.positions, j)), labIn(c.positions, j)) }))
		vf.Invariant("every column is recorded", cov3ResourceLogs(c, c.positions, s, i))
		vf.Invariant("nothing else is recorded", vf.Forall(func(j uint64) bool {
			return vf.Implies(labIn(c.positions, j), vf.Before(labIn(c.positions, j)) || hit3ResourceLogs(c, s, i, j))
		}))
	})
	vf.LoopOver(func(i int, s []*tracev1.ResourceSpans) {
		vf.Invariant("the kind is kept", c.label.Resource == vf.Before(c.label.Resource))
		vf.Invariant("nothing is forgotten", vf.Forall(func(j uint64) bool { return vf.Implies(vf.Before(labIn(c.positions, j)), labIn(c.positions, j)) }))
		vf.Invariant("every column is recorded", cov3ResourceSpans(c, c.positions, s, i))
		vf.Invariant("nothing else is recorded", vf.Forall(func(j uint64) bool {
			return vf.Implies(labIn(c.positions, j), vf.Before(labIn(c.positions, j)) || hit3ResourceSpans(c, s, i, j))
		}))
	})
	vf.Ensures("nothing is forgotten", vf.Forall(func(j uint64) bool { return vf.Implies(vf.Old(labIn(c.positions, j)), labIn(c.positions, j)) }))
	vf.Ensures("every column is recorded", covData3(c, c.positions, d))
	vf.Ensures("nothing else is recorded", vf.Forall(func(j uint64) bool {
		return vf.Implies(labIn(c.positions, j), vf.Old(labIn(c.positions, j)) || hitData3(c, d, j))
	}))
	vf.Modifies(c.minTs, c.maxTs, c.label, c.positions.Bitmap)
}

// The positions handed to the batch are exactly the columns of the sample.
//
//vf:for (*Context).processSample
//vf:props C03
func vf03processSample(c *Context, s *v1.Sample) {
	b := batch.VfLast(c.batch)
	vf.Ensures("the sample is handed to the batch once", batch.VfLen(c.batch) == vf.Old(batch.VfLen(c.batch))+1 && batch.VfLastID(c.batch) == s.Id)
	vf.Ensures("every column is recorded", covData3(c, b, s.Data) && labIn(b, labCol(c, v1.PREFIX_UNKNOWN, "", "")))
	vf.Ensures("nothing else is recorded", vf.Forall(func(j uint64) bool {
		return vf.Implies(labIn(b, j), hitData3(c, s.Data, j) || j == labCol(c, v1.PREFIX_UNKNOWN, "", ""))
	}))
	vf.Modifies(c.minTs, c.maxTs, c.label, c.positions, c.sampleID, vf.AnyOf[batch.Batch](), vf.AnyOf[bitmaps.Bitmap](), s.MinTs, s.MaxTs)
}
