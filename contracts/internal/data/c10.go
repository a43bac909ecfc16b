package data

import (
	"github.com/gernest/requiemdb/internal/vf"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
)

// The identity of a part is a text of pieces that each have their length in
// front (or have a fixed length); its hash is the key of the identity maps.

func vfPiece(s string) string { return vf.Be64(uint64(len(s))) + s }

// vfAttrs is the text of the first n attributes.
func vfAttrs(kv []*commonv1.KeyValue, n int) string { return vf.Fn[string]("attrsText", kv, n) }

func vfAttrsText(kv []*commonv1.KeyValue) bool {
	return vf.Forall(func(n int) bool {
		vf.Trig(vfAttrs(kv, n))
		return vf.Implies(0 <= n && n <= len(kv), vfAttrs(kv, n) == vf.Ite(n == 0, "", vfAttrs(kv, n-1)+vfPiece(vf.Wire(kv[n-1]))))
	})
}

type vfSorter = Sorter[*metricsv1.Metric, *metricsv1.ResourceMetrics, *metricsv1.ScopeMetrics]
type vfSorterL = Sorter[*logsv1.LogRecord, *logsv1.ResourceLogs, *logsv1.ScopeLogs]

func vfKind(m *metricsv1.Metric) int {
	return vf.Ite(vf.Is[*metricsv1.Metric_Gauge](m.Data), 1, vf.Ite(vf.Is[*metricsv1.Metric_Sum](m.Data), 2, vf.Ite(vf.Is[*metricsv1.Metric_Histogram](m.Data), 3,
		vf.Ite(vf.Is[*metricsv1.Metric_ExponentialHistogram](m.Data), 4, vf.Ite(vf.Is[*metricsv1.Metric_Summary](m.Data), 5, 0)))))
}

//vf:for (*Sorter).hashMetrics
//vf:props C10
func vfHashMetrics(r *vfSorter, scope uint64, m *metricsv1.Metric, h uint64) {
	vf.Requires(r != nil && m != nil)
	vf.Modifies(r.h)
	vf.Ensures("scope, kind and name", h == vf.Hash64(vf.Be64(scope)+vf.Be64(uint64(vfKind(m)))+m.Name))
}

//vf:for (*Sorter).hashResource
//vf:props C10
func vfHashResource(r *vfSorter, schema string, resource *resourcev1.Resource, h uint64) {
	vf.Define(vfAttrsText(resource.GetAttributes()))
	vf.Requires(r != nil)
	vf.Modifies(r.h, r.buf, vf.Elems(r.buf))
	vf.Ensures("schema and attributes", h == vf.Hash64(vfPiece(schema)+vf.Ite(resource == nil, "", vfAttrs(resource.GetAttributes(), len(resource.GetAttributes())))))
	vf.LoopOver(func(i int, s []*commonv1.KeyValue) {
		vf.Invariant("attributes so far", vf.Text(&r.h) == vfPiece(schema)+vfAttrs(resource.GetAttributes(), i))
	})
}

//vf:for (*Sorter).hashScope
//vf:props C10
func vfHashScope(r *vfSorter, resource uint64, schema string, scope *commonv1.InstrumentationScope, h uint64) {
	vf.Define(vfAttrsText(scope.GetAttributes()))
	vf.Requires(r != nil)
	vf.Modifies(r.h, r.buf, vf.Elems(r.buf))
	vf.Ensures("resource, schema, name, version and attributes", h == vf.Hash64(vf.Be64(resource)+vfPiece(schema)+
		vf.Ite(scope == nil, "", vfPiece(scope.GetName())+vfPiece(scope.GetVersion())+vfAttrs(scope.GetAttributes(), len(scope.GetAttributes())))))
	vf.LoopOver(func(i int, s []*commonv1.KeyValue) {
		vf.Invariant("attributes so far", vf.Text(&r.h) == vf.Be64(resource)+vfPiece(schema)+vfPiece(scope.GetName())+vfPiece(scope.GetVersion())+vfAttrs(scope.GetAttributes(), i))
	})
}

//vf:for (*Sorter).Less
//vf:props C10
func vfLess(r *vfSorter, i, j int, less bool) {
	vf.Requires(r != nil && 0 <= i && i < len(r.id) && 0 <= j && j < len(r.id) && 0 <= r.id[i] && r.id[i] < len(r.rs) && 0 <= r.id[j] && r.id[j] < len(r.rs))
	vf.Requires("they are known", vf.Has(r.order, r.rs[r.id[i]]) && vf.Has(r.order, r.rs[r.id[j]]))
	vf.Ensures("earlier first appearance", vf.Iff(less, r.order[r.rs[r.id[i]]] < r.order[r.rs[r.id[j]]]))
}

//vf:for (*Sorter).Swap
//vf:props C10
func vfSwap(r *vfSorter, i, j int) {
	vf.Requires(r != nil && 0 <= i && i < len(r.id) && 0 <= j && j < len(r.id))
	vf.Modifies(vf.Elems(r.id))
	vf.Ensures("swapped", vf.Forall(func(k int) bool {
		vf.Trig(r.id[k])
		return vf.Implies(0 <= k && k < len(r.id), r.id[k] == vf.Ite(k == i, vf.Old(r.id[j]), vf.Ite(k == j, vf.Old(r.id[i]), vf.Old(r.id[k]))))
	}))
}

//vf:for (*Sorter).Len
//vf:props C10
func vfLen(r *vfSorter, n int) {
	vf.Requires(r != nil)
	vf.Ensures("all", n == len(r.rs))
}

//vf:for (*Sorter).Result
//vf:props C10
func vfResult(r *vfSorter, o []*metricsv1.ResourceMetrics) {
	vf.Requires(r != nil)
	vf.Requires("ids are positions", vf.Forall(func(k int) bool {
		vf.Trig(r.id[k])
		return vf.Implies(0 <= k && k < len(r.id), 0 <= r.id[k] && r.id[k] < len(r.rs) && vf.Has(r.resource, r.rs[r.id[k]]))
	}))
	vf.Ensures("as many", len(o) == len(r.id))
	vf.Ensures("each once", vf.Forall(func(k int) bool {
		vf.Trig(o[k])
		return vf.Implies(0 <= k && k < len(o), o[k] == r.resource[r.rs[r.id[k]]])
	}))
	vf.Ensures("not shared", vf.Fresh(o))
	vf.LoopOver(func(i int, s []int) {
		vf.Invariant("as many", len(vf.Cur[[]*metricsv1.ResourceMetrics]("o")) == i && vf.Fresh(vf.Cur[[]*metricsv1.ResourceMetrics]("o")))
		vf.Invariant("each once", vf.Forall(func(k int) bool {
			vf.Trig(vf.Cur[[]*metricsv1.ResourceMetrics]("o")[k])
			return vf.Implies(0 <= k && k < i, vf.Cur[[]*metricsv1.ResourceMetrics]("o")[k] == r.resource[r.rs[r.id[k]]])
		}))
	})
}

// A sorter from the pool knows no parts.
//
//vf:pool
//vf:props C10 C21
func vfPoolMetrics(m *metricsSorter) {
	vf.Ensures("it is there", m.Sorter != nil && m.resource != nil && m.scope != nil && m.metrics != nil && m.order != nil)
	vf.Ensures("no resources", vf.Forall(func(h uint64) bool { return !vf.Has(m.resource, h) && !vf.Has(m.order, h) }))
	vf.Ensures("no scopes", vf.Forall(func(h uint64) bool { return !vf.Has(m.scope, h) }))
	vf.Ensures("no metrics", vf.Forall(func(h uint64) bool { return !vf.Has(m.metrics, h) }))
	vf.Ensures("nothing sorted", len(m.rs) == 0 && len(m.id) == 0)
}

//vf:for (*metricsSorter).Release
//vf:props C10 C21
//vf:flag pool noframe
func vfReleaseMetrics(ms *metricsSorter) {
	vf.Requires("it is in use", ms != nil && ms.Sorter != nil && ms.resource != nil && ms.scope != nil && ms.metrics != nil && ms.order != nil && !vf.Pooled(ms))
}

//vf:pool
//vf:props C10 C21
func vfPoolLogs(m *logsSorter) {
	vf.Ensures("it is there", m.Sorter != nil && m.resource != nil && m.scope != nil && m.metrics != nil && m.order != nil)
	vf.Ensures("no resources", vf.Forall(func(h uint64) bool { return !vf.Has(m.resource, h) && !vf.Has(m.order, h) }))
	vf.Ensures("no scopes", vf.Forall(func(h uint64) bool { return !vf.Has(m.scope, h) }))
	vf.Ensures("nothing sorted", len(m.rs) == 0 && len(m.id) == 0)
}

//vf:for (*logsSorter).Release
//vf:props C10 C21
//vf:flag pool noframe
func vfReleaseLogs(l *logsSorter) {
	vf.Requires("it is in use", l != nil && l.Sorter != nil && l.resource != nil && l.scope != nil && l.metrics != nil && l.order != nil && !vf.Pooled(l))
}

//vf:pool
//vf:props C10 C21
func vfPoolTraces(m *traceSorter) {
	vf.Ensures("it is there", m.Sorter != nil && m.resource != nil && m.scope != nil && m.metrics != nil && m.order != nil)
	vf.Ensures("no resources", vf.Forall(func(h uint64) bool { return !vf.Has(m.resource, h) && !vf.Has(m.order, h) }))
	vf.Ensures("no scopes", vf.Forall(func(h uint64) bool { return !vf.Has(m.scope, h) }))
	vf.Ensures("nothing sorted", len(m.rs) == 0 && len(m.id) == 0)
}

//vf:for (*traceSorter).Release
//vf:props C10 C21
//vf:flag pool noframe
func vfReleaseTraces(l *traceSorter) {
	vf.Requires("it is in use", l != nil && l.Sorter != nil && l.resource != nil && l.scope != nil && l.metrics != nil && l.order != nil && !vf.Pooled(l))
}
