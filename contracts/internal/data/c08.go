package data

import (
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/vf"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsV1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
)

// VfKind: d is data of the resource kind.
func VfKind(d *v1.Data, r v1.RESOURCE) bool {
	return d != nil &&
		vf.Implies(r == v1.RESOURCE_METRICS, vf.Is[*v1.Data_Metrics](d.Data) && d.Data.(*v1.Data_Metrics) != nil && d.Data.(*v1.Data_Metrics).Metrics != nil) &&
		vf.Implies(r == v1.RESOURCE_LOGS, vf.Is[*v1.Data_Logs](d.Data) && d.Data.(*v1.Data_Logs) != nil && d.Data.(*v1.Data_Logs).Logs != nil) &&
		vf.Implies(r == v1.RESOURCE_TRACES, vf.Is[*v1.Data_Traces](d.Data) && d.Data.(*v1.Data_Traces) != nil && d.Data.(*v1.Data_Traces).Traces != nil)
}

// VfHas: the parts of d are there.
func VfHas(d *v1.Data) bool {
	return vf.Implies(vf.Is[*v1.Data_Metrics](d.Data), d.Data.(*v1.Data_Metrics) != nil && d.Data.(*v1.Data_Metrics).Metrics != nil) &&
		vf.Implies(vf.Is[*v1.Data_Logs](d.Data), d.Data.(*v1.Data_Logs) != nil && d.Data.(*v1.Data_Logs).Logs != nil) &&
		vf.Implies(vf.Is[*v1.Data_Traces](d.Data), d.Data.(*v1.Data_Traces) != nil && d.Data.(*v1.Data_Traces).Traces != nil)
}

func vfKnown(r v1.RESOURCE) bool {
	return r == v1.RESOURCE_METRICS || r == v1.RESOURCE_LOGS || r == v1.RESOURCE_TRACES
}

//vf:for Zero
//vf:props C08
func vfZero(r v1.RESOURCE, d *v1.Data) {
	vf.Ensures("of the kind", vf.Implies(vfKnown(r), VfKind(d, r) && vf.Fresh(d)))
	vf.Ensures("empty", vf.Implies(vfKnown(r), len(d.GetMetrics().GetResourceMetrics()) == 0 && len(d.GetLogs().GetResourceLogs()) == 0 && len(d.GetTraces().GetResourceSpans()) == 0))
}

//vf:for Collapse
//vf:props C08
func vfCollapse(ts []*v1.Data, d *v1.Data) {
	vf.Requires("something to collapse", len(ts) > 0)
	vf.Requires("data", vf.Forall(func(j int) bool {
		vf.Trig(ts[j])
		return vf.Implies(0 <= j && j < len(ts), ts[j] != nil)
	}))
	vf.Modifies(vf.AnyOf[metricsV1.MetricsData](), vf.AnyOf[metricsV1.ResourceMetrics](), vf.AnyOf[metricsV1.ScopeMetrics](), vf.AnyOf[logsv1.LogsData](), vf.AnyOf[logsv1.ResourceLogs](), vf.AnyOf[tracev1.TracesData](), vf.AnyOf[tracev1.ResourceSpans]())
	vf.Ensures("metrics stay metrics", vf.Implies(vf.Old(VfKind(ts[0], v1.RESOURCE_METRICS)), VfKind(d, v1.RESOURCE_METRICS)))
	vf.Ensures("logs stay logs", vf.Implies(vf.Old(VfKind(ts[0], v1.RESOURCE_LOGS)), VfKind(d, v1.RESOURCE_LOGS)))
	vf.Ensures("traces stay traces", vf.Implies(vf.Old(VfKind(ts[0], v1.RESOURCE_TRACES)), VfKind(d, v1.RESOURCE_TRACES)))
	vf.Ensures("one is itself", vf.Implies(len(ts) == 1, d == ts[0]))
	vf.LoopOver(func(i int, s []*v1.Data) {})
}

//vf:for CollapseMetrics
//vf:props C08
//vf:trusted
func vfCollapseMetrics08(ds []*metricsV1.MetricsData, m *metricsV1.MetricsData) {
	vf.Modifies(vf.AnyOf[metricsV1.MetricsData](), vf.AnyOf[metricsV1.ResourceMetrics](), vf.AnyOf[metricsV1.ScopeMetrics]())
	vf.Ensures(m != nil && vf.Fresh(m))
}

//vf:for CollapseLogs
//vf:props C08
//vf:trusted
func vfCollapseLogs08(ds []*logsv1.LogsData, m *logsv1.LogsData) {
	vf.Modifies(vf.AnyOf[logsv1.LogsData](), vf.AnyOf[logsv1.ResourceLogs]())
	vf.Ensures(m != nil && vf.Fresh(m))
}

//vf:for CollapseTrace
//vf:props C08
//vf:trusted
func vfCollapseTrace08(ds []*tracev1.TracesData, m *tracev1.TracesData) {
	vf.Modifies(vf.AnyOf[tracev1.TracesData](), vf.AnyOf[tracev1.ResourceSpans]())
	vf.Ensures(m != nil && vf.Fresh(m))
}
