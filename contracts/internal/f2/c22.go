package f2

import (
	"bytes"

	"github.com/RoaringBitmap/roaring/roaring64"
	storev1 "github.com/gernest/requiemdb/gen/go/store/v1"
	"github.com/gernest/requiemdb/internal/vf"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
)

// vfColumn is the column of a text; vfAttrCol says that one of the first n
// attributes is a string with that column.
func vfColumn(s string) uint64 { return vf.Fn[uint64]("f2:column", s) }

func vfAttrCol(kv []*commonv1.KeyValue, n int, u uint64) bool {
	return vf.Fn[bool]("f2:attrCol", vf.Contents(kv), n, u)
}

func vfIsStr(v *commonv1.KeyValue) bool {
	return v.Value != nil && vf.Is[*commonv1.AnyValue_StringValue](v.Value.Value)
}

func vfHasCol(v *commonv1.KeyValue, u uint64) bool {
	return vfIsStr(v) && vfColumn(v.Key+"="+v.Value.GetStringValue()) == u
}

func vfAttrColIs(kv []*commonv1.KeyValue) bool {
	return vf.Forall(func(n int, u uint64) bool {
		vf.Trig(vfAttrCol(kv, n, u))
		return vf.Implies(0 <= n && n <= len(kv), vfAttrCol(kv, n, u) == vf.Ite(n == 0, false, vfAttrCol(kv, n-1, u) || vfHasCol(kv[n-1], u)))
	})
}

func vfNoNil(kv []*commonv1.KeyValue) bool {
	return vf.Forall(func(k int) bool {
		vf.Trig(kv[k])
		return vf.Implies(0 <= k && k < len(kv), kv[k] != nil)
	})
}

func vfNameCol(name string) uint64 { return vfColumn(vf.Str(nameKey) + vf.Str(equal) + name) }

func vfConst() bool {
	return vf.Str(equal) == "=" && vf.Str(nameKey) == "__name__" && vf.Str(metrics) == "metrics/"
}

//vf:for toString
//vf:props C22
func vfToString(b *bytes.Buffer, a *commonv1.AnyValue, ok bool) {
	vf.Requires(b != nil)
	vf.Modifies(*b)
	vf.Ensures("strings only", vf.Iff(ok, a != nil && vf.Is[*commonv1.AnyValue_StringValue](a.Value)))
	vf.Ensures("its text", vf.Text(b) == vf.Old(vf.Text(b))+vf.Ite(ok, a.GetStringValue(), ""))
}

//vf:for (*Attr).do
//vf:props C22
func vfDo(a *Attr, b *roaring64.Bitmap, kv []*commonv1.KeyValue) {
	vf.Define(vfAttrColIs(kv))
	vf.Requires(a != nil && b != nil && a.tr != nil && vfNoNil(kv) && vfConst())
	vf.Modifies(*b, a.b)
	vf.Ensures("the columns of the string attributes are added", vf.Forall(func(u uint64) bool {
		vf.Trig(vf.In(b, u))
		return vf.Iff(vf.In(b, u), vf.Old(vf.In(b, u)) || vfAttrCol(kv, len(kv), u))
	}))
	vf.Ensures("columns are below 2^20", vf.Forall(func(u uint64) bool {
		vf.Trig(vfAttrCol(kv, len(kv), u))
		return vf.Implies(vfAttrCol(kv, len(kv), u), u < 1<<20)
	}))
	vf.LoopOver(func(i int, s []*commonv1.KeyValue) {
		vf.Invariant("so far", vf.Forall(func(u uint64) bool {
			vf.Trig(vf.In(b, u))
			return vf.Iff(vf.In(b, u), vf.Old(vf.In(b, u)) || vfAttrCol(kv, i, u))
		}))
		vf.Invariant("columns are below 2^20", vf.Forall(func(u uint64) bool {
			vf.Trig(vfAttrCol(kv, i, u))
			return vf.Implies(vfAttrCol(kv, i, u), u < 1<<20)
		}))
	})
}

//vf:for (*Attr).name
//vf:props C22
func vfName(a *Attr, name []byte) {
	vf.Requires(a != nil && a.tr != nil && vfConst())
	vf.Modifies(a.ab, a.b)
	vf.Ensures("it is below 2^20", vfNameCol(vf.Str(name)) < 1<<20)
	vf.Ensures("the column of the name is added", vf.Forall(func(u uint64) bool {
		vf.Trig(vf.In(&a.ab, u))
		return vf.Iff(vf.In(&a.ab, u), vf.Old(vf.In(&a.ab, u)) || u == vfNameCol(vf.Str(name)))
	}))
}

func vfApart(a *Attr) bool {
	return (vf.Ref(a.attr) == 0 || vf.Ref(a.attr) != vf.Ref(a.resource) && vf.Ref(a.attr) != vf.Ref(a.scope)) &&
		(vf.Ref(a.resource) == 0 || vf.Ref(a.resource) != vf.Ref(a.scope))
}

func vfSmall(a *Attr) bool {
	return vf.Forall(func(u uint64) bool {
		vf.Trig(vf.In(&a.rb, u))
		return vf.Implies(vf.In(&a.rb, u), u < 1<<20)
	}) && vf.Forall(func(u uint64) bool {
		vf.Trig(vf.In(&a.sb, u))
		return vf.Implies(vf.In(&a.sb, u), u < 1<<20)
	})
}

// vfAttr: the columns of the resource and the scope are those of their
// attributes.
func vfAttr_(a *Attr) bool {
	return a != nil && a.tr != nil && vfConst() && vfApart(a) && vfNoNil(a.resource) && vfNoNil(a.scope) && vfSmall(a)
}

func vfSame(a, b []*commonv1.KeyValue) bool {
	return len(a) == len(b) && vf.Forall(func(k int) bool {
		vf.Trig(a[k])
		return vf.Implies(0 <= k && k < len(a), a[k] == b[k])
	})
}

//vf:for (*Attr).Resource
//vf:props C22
func vfResource(a *Attr, r *resourcev1.Resource) {
	vf.Requires(vfAttr_(a) && vfNoNil(r.GetAttributes()) && (vf.Ref(a.resource) == 0 || vf.Ref(a.resource) != vf.Ref(r.GetAttributes())))
	vf.Modifies(a.resource, vf.Elems(a.resource), a.rb, a.b)
	vf.Ensures("its attributes", vfSame(a.resource, r.GetAttributes()))
	vf.Ensures("its columns", vf.Forall(func(u uint64) bool {
		vf.Trig(vf.In(&a.rb, u))
		return vf.Iff(vf.In(&a.rb, u), vfAttrCol(a.resource, len(a.resource), u))
	}))
	vf.Ensures("well formed", vfAttr_(a))
}

//vf:for (*Attr).Scope
//vf:props C22
func vfScope(a *Attr, scope *commonv1.InstrumentationScope) {
	vf.Requires(vfAttr_(a) && vfNoNil(scope.GetAttributes()) && (vf.Ref(a.scope) == 0 || vf.Ref(a.scope) != vf.Ref(scope.GetAttributes())))
	vf.Modifies(a.scope, vf.Elems(a.scope), a.sb, a.b)
	vf.Ensures("its attributes", vfSame(a.scope, scope.GetAttributes()))
	vf.Ensures("its columns", vf.Forall(func(u uint64) bool {
		vf.Trig(vf.In(&a.sb, u))
		return vf.Iff(vf.In(&a.sb, u), vfAttrCol(a.scope, len(a.scope), u))
	}))
	vf.Ensures("well formed", vfAttr_(a))
}

//vf:for (*Attr).Attr
//vf:props C22
func vfAttrOf(a *Attr, name []byte, kv []*commonv1.KeyValue, all []*commonv1.KeyValue, cols *roaring64.Bitmap, hash uint64) {
	vf.Requires(vfAttr_(a) && vfNoNil(kv) && (vf.Ref(a.attr) == 0 || vf.Ref(a.attr) != vf.Ref(kv)))
	vf.Modifies(a.ab, a.b, a.attr, vf.Elems(a.attr), a.hash)
	vf.Ensures("all attributes", len(all) == len(a.resource)+len(a.scope)+len(kv) && vf.Forall(func(k int) bool {
		vf.Trig(all[k])
		return vf.Implies(0 <= k && k < len(all), all[k] == vf.Ite(k < len(a.resource), a.resource[k], vf.Ite(k < len(a.resource)+len(a.scope), a.scope[k-len(a.resource)], kv[k-len(a.resource)-len(a.scope)])))
	}))
	vf.Ensures("their columns and that of the name", cols == &a.ab && vf.Forall(func(u uint64) bool {
		vf.Trig(vf.In(cols, u))
		return vf.Iff(vf.In(cols, u), vf.In(&a.rb, u) || vf.In(&a.sb, u) || vfAttrCol(kv, len(kv), u) || u == vfNameCol(vf.Str(name)))
	}))
	vf.Ensures("columns are below 2^20", vf.Forall(func(u uint64) bool {
		vf.Trig(vf.In(cols, u))
		return vf.Implies(vf.In(cols, u), u < 1<<20)
	}))
	vf.Ensures("the hash is that of the columns", hash == vf.Hash64(vf.SetEnc(cols)))
	vf.Ensures("well formed", vfAttr_(a))
	vf.Ensures("no memory stays as it is", vf.Contents(vf.Zero[[]*commonv1.KeyValue]()) == vf.Old(vf.Contents(vf.Zero[[]*commonv1.KeyValue]())))
	vf.Ensures("new memory or the same", vf.Ref(all) == vf.Ref(a.attr) && (vf.Ref(a.attr) == vf.Old(vf.Ref(a.attr)) || vf.Fresh(a.attr)))
}

// ---- points

//vf:for (*idGen).Next
//vf:props C22
func vfNext(i *idGen, n uint64) {
	vf.Assume("fewer than 2^44 rows are ever stored", vf.Fn[bool]("seq:small", 0))
	vf.Requires(i != nil && i.seq != nil)
	vf.Modifies(vf.Ghost("seq"), vf.Ghost("kv"), vf.Ghost("failed"))
	vf.Ensures("a new id", n >= vf.Old(vf.SeqNext(vf.SeqKey(i.seq))) && n < vf.SeqNext(vf.SeqKey(i.seq)) && n < 1<<44)
}

//vf:for pos
//vf:props C22
func vfPosOf(row, col, p uint64) {
	vf.Requires(row < 1<<44)
	vf.Ensures("row and column", vf.Math(p) == vf.Math(row)*1048576+vf.Math(col)%1048576)
}

// vfCol: column u belongs to a point with attributes kv.
func vfCol(a *Attr, name string, kv []*commonv1.KeyValue, u uint64) bool {
	return vf.Old(vf.In(&a.rb, u) || vf.In(&a.sb, u) || vfAttrCol(kv, len(kv), u) || u == vfNameCol(name))
}

func vfRowIs(t int, mx *storev1.Metric, start, tm uint64) bool {
	return vf.Row[string](t, "Name") == mx.Name && vf.Row[string](t, "Description") == mx.Description && vf.Row[string](t, "Unit") == mx.Unit &&
		vf.Row[storev1.Metric_Kind](t, "Kind") == mx.Kind && vf.Row[uint64](t, "StartTimeUnixNano") == start && vf.Row[uint64](t, "TimeUnixNano") == tm
}

func vfRowAttr(t, k int) *commonv1.KeyValue { return vf.Row[*commonv1.KeyValue](t, "Attributes[]", k) }

func vfRowAttrs(t int, a *Attr, kv []*commonv1.KeyValue) bool {
	return len(vf.Row[[]*commonv1.KeyValue](t, "Attributes")) == len(a.resource)+len(a.scope)+len(kv) && vf.Forall(func(k int) bool {
		vf.Trig(vfRowAttr(t, k))
		return vf.Implies(0 <= k && k < len(a.resource), vfRowAttr(t, k) == vf.Old(a.resource[k]))
	}) && vf.Forall(func(k int) bool {
		vf.Trig(vfRowAttr(t, k))
		return vf.Implies(len(a.resource) <= k && k < len(a.resource)+len(a.scope), vfRowAttr(t, k) == vf.Old(a.scope[k-len(a.resource)]))
	}) && vf.Forall(func(k int) bool {
		vf.Trig(vfRowAttr(t, k))
		return vf.Implies(len(a.resource)+len(a.scope) <= k && k < len(a.resource)+len(a.scope)+len(kv), vfRowAttr(t, k) == vf.Old(kv[k-len(a.resource)-len(a.scope)]))
	})
}

// vfRowHash: the hash is that of the set of the columns.
func vfRowHash(t int, a *Attr, name string, kv []*commonv1.KeyValue) bool {
	s := vf.Fn[string]("unxxh", vf.Row[uint64](t, "Hash"))
	return vf.Hash64(s) == vf.Row[uint64](t, "Hash") && vf.Forall(func(u uint64) bool {
		vf.Trig(vf.SetDec(s, u))
		return vf.Iff(vf.SetDec(s, u), vfCol(a, name, kv, u))
	})
}

func vfId(t int) uint64 { return vf.Row[uint64](t, "Id") }

// vfRowCols: its columns are set.
func vfRowCols(m *Metrics, t int, a *Attr, name string, kv []*commonv1.KeyValue) bool {
	return vf.Forall(func(p uint64) bool {
		vf.Trig(vf.In(&m.positions, p))
		return vf.Implies(p/1048576 == vfId(t), vf.Iff(vf.In(&m.positions, p), vfCol(a, name, kv, p%1048576)))
	})
}

func vfM(m *Metrics) bool          { return m != nil && m.build != nil && m.id != nil && m.id.seq != nil }
func vfIssued(m *Metrics) uint64   { return vf.SeqNext(vf.SeqKey(m.id.seq)) }
func vfRowN(m *Metrics, k int) int { return vf.BuiltAt(m.build, k) }

func vfGaugeRow(t int, g *metricsv1.Gauge, d *metricsv1.NumberDataPoint) bool {
	return vf.Iff(vf.Row[*float64](t, "Gauge") != nil, d.Value != nil) &&
		vf.Implies(d.Value != nil, vf.Same(vf.Row[float64](t, "Gauge*"), vf.Ite(vf.Is[*metricsv1.NumberDataPoint_AsInt](d.Value), float64(d.GetAsInt()), d.GetAsDouble()))) && vf.Same(vf.Row[[]*metricsv1.Exemplar](t, "Exemplars"), d.Exemplars)
}

//vf:for (*Metrics).gauge
//vf:props C22
func vfGauge(m *Metrics, mx *storev1.Metric, a *Attr, g *metricsv1.Gauge) {
	vf.Requires(vfM(m) && mx != nil && g != nil && vfAttr_(a))
	vf.Requires("points", vf.Forall(func(k int) bool {
		vf.Trig(g.DataPoints[k])
		return vf.Implies(0 <= k && k < len(g.DataPoints), g.DataPoints[k] != nil && vfNoNil(g.DataPoints[k].Attributes) && (vf.Ref(a.attr) == 0 || vf.Ref(a.attr) != vf.Ref(g.DataPoints[k].Attributes)))
	}))
	vf.Requires("only issued rows have positions", vf.Forall(func(p uint64) bool {
		vf.Trig(vf.In(&m.positions, p))
		return vf.Implies(vf.In(&m.positions, p), p/1048576 < vfIssued(m))
	}))
	vf.Modifies(mx.StartTimeUnixNano, mx.TimeUnixNano, mx.Gauge, mx.Exemplars, mx.Attributes, mx.Hash, mx.Id, a.ab, a.b, a.attr, vf.Elems(a.attr), a.hash, m.positions, vf.Ghost("builders"), vf.Ghost("seq"), vf.Ghost("kv"), vf.Ghost("failed"))
	vf.Ensures("a row each", vf.Built(m.build) == vf.Old(vf.Built(m.build))+len(g.DataPoints))
	vf.Ensures("with its name, kind, unit and times", vf.Forall(func(q int) bool {
		vf.Trig(vfRowN(m, q))
		t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
		return vf.Implies(0 <= k && k < len(g.DataPoints), vfRowIs(t, mx, g.DataPoints[k].StartTimeUnixNano, g.DataPoints[k].TimeUnixNano))
	}))
	vf.Ensures("with its value", vf.Forall(func(q int) bool {
		vf.Trig(vfRowN(m, q))
		t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
		return vf.Implies(0 <= k && k < len(g.DataPoints), vfGaugeRow(t, g, g.DataPoints[k]))
	}))
	vf.Ensures("with all attributes", vf.Forall(func(q int) bool {
		vf.Trig(vfRowN(m, q))
		t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
		return vf.Implies(0 <= k && k < len(g.DataPoints), vfRowAttrs(t, a, g.DataPoints[k].Attributes))
	}))
	vf.Ensures("with the hash of its columns", vf.Forall(func(q int) bool {
		vf.Trig(vfRowN(m, q))
		t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
		return vf.Implies(0 <= k && k < len(g.DataPoints), vfRowHash(t, a, mx.Name, g.DataPoints[k].Attributes))
	}))
	vf.Ensures("under its columns", vf.Forall(func(q int) bool {
		vf.Trig(vfRowN(m, q))
		t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
		return vf.Implies(0 <= k && k < len(g.DataPoints), vfRowCols(m, t, a, mx.Name, g.DataPoints[k].Attributes))
	}))
	vf.Ensures("with a new id", vf.Forall(func(q int) bool {
		vf.Trig(vfRowN(m, q))
		t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
		return vf.Implies(0 <= k && k < len(g.DataPoints), vfId(t) >= vf.Old(vfIssued(m)) && vfId(t) < vfIssued(m))
	}))
	vf.Ensures("earlier rows stay", vf.Forall(func(k int) bool {
		vf.Trig(vf.BuiltAt(m.build, k))
		return vf.Implies(0 <= k && k < vf.Old(vf.Built(m.build)), vf.BuiltAt(m.build, k) == vf.Old(vf.BuiltAt(m.build, k)))
	}))
	vf.Ensures("and their columns", vf.Forall(func(p uint64) bool {
		vf.Trig(vf.In(&m.positions, p))
		return vf.Implies(p/1048576 < vf.Old(vfIssued(m)), vf.Iff(vf.In(&m.positions, p), vf.Old(vf.In(&m.positions, p))))
	}))
	vf.Ensures("only issued rows have positions", vf.Forall(func(p uint64) bool {
		vf.Trig(vf.In(&m.positions, p))
		return vf.Implies(vf.In(&m.positions, p), p/1048576 < vfIssued(m))
	}))
	vf.Ensures("well formed", vfAttr_(a))
	vf.LoopOver(func(i int, s []*metricsv1.NumberDataPoint) {
		vf.Invariant(vfAttr_(a) && vfIssued(m) >= vf.Old(vfIssued(m)))
		vf.Invariant("attributes stay", vf.Contents(a.resource) == vf.Old(vf.Contents(a.resource)) && vf.Contents(a.scope) == vf.Old(vf.Contents(a.scope)) && vf.Forall(func(k int) bool {
			vf.Trig(g.DataPoints[k])
			return vf.Implies(0 <= k && k < len(g.DataPoints), vf.Contents(g.DataPoints[k].Attributes) == vf.Old(vf.Contents(g.DataPoints[k].Attributes)))
		}))
		vf.Invariant("apart", vf.Forall(func(k int) bool {
			vf.Trig(g.DataPoints[k])
			return vf.Implies(0 <= k && k < len(g.DataPoints), vf.Ref(a.attr) == 0 || vf.Ref(a.attr) != vf.Ref(g.DataPoints[k].Attributes))
		}))
		vf.Invariant("rows", vf.Built(m.build) == vf.Old(vf.Built(m.build))+i)
		vf.Invariant("with its name, kind, unit and times", vf.Forall(func(q int) bool {
			vf.Trig(vfRowN(m, q))
			t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
			return vf.Implies(0 <= k && k < i, vfRowIs(t, mx, g.DataPoints[k].StartTimeUnixNano, g.DataPoints[k].TimeUnixNano))
		}))
		vf.Invariant("with its value", vf.Forall(func(q int) bool {
			vf.Trig(vfRowN(m, q))
			t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
			return vf.Implies(0 <= k && k < i, vfGaugeRow(t, g, g.DataPoints[k]))
		}))
		vf.Invariant("with all attributes", vf.Forall(func(q int) bool {
			vf.Trig(vfRowN(m, q))
			t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
			return vf.Implies(0 <= k && k < i, vfRowAttrs(t, a, g.DataPoints[k].Attributes))
		}))
		vf.Invariant("with the hash of its columns", vf.Forall(func(q int) bool {
			vf.Trig(vfRowN(m, q))
			t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
			return vf.Implies(0 <= k && k < i, vfRowHash(t, a, mx.Name, g.DataPoints[k].Attributes))
		}))
		vf.Invariant("under its columns", vf.Forall(func(q int) bool {
			vf.Trig(vfRowN(m, q))
			t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
			return vf.Implies(0 <= k && k < i, vfRowCols(m, t, a, mx.Name, g.DataPoints[k].Attributes))
		}))
		vf.Invariant("with a new id", vf.Forall(func(q int) bool {
			vf.Trig(vfRowN(m, q))
			t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
			return vf.Implies(0 <= k && k < i, vfId(t) >= vf.Old(vfIssued(m)) && vfId(t) < vfIssued(m))
		}))
		vf.Invariant("earlier rows stay", vf.Forall(func(k int) bool {
			vf.Trig(vf.BuiltAt(m.build, k))
			return vf.Implies(0 <= k && k < vf.Old(vf.Built(m.build)), vf.BuiltAt(m.build, k) == vf.Old(vf.BuiltAt(m.build, k)))
		}))
		vf.Invariant("and their columns", vf.Forall(func(p uint64) bool {
			vf.Trig(vf.In(&m.positions, p))
			return vf.Implies(p/1048576 < vf.Old(vfIssued(m)), vf.Iff(vf.In(&m.positions, p), vf.Old(vf.In(&m.positions, p))))
		}))
		vf.Invariant("only issued rows", vf.Forall(func(p uint64) bool {
			vf.Trig(vf.In(&m.positions, p))
			return vf.Implies(vf.In(&m.positions, p), p/1048576 < vfIssued(m))
		}))
	})
	vf.LoopIter(func(pos uint64) {
		id := vf.Cur[uint64]("id")
		vf.Invariant("set so far", vf.Forall(func(p uint64) bool {
			vf.Trig(vf.In(&m.positions, p))
			return vf.Implies(p/1048576 == id, vf.Iff(vf.In(&m.positions, p), vf.In(&a.ab, p%1048576) && p%1048576 < pos))
		}))
		vf.Invariant("other rows keep theirs", vf.Forall(func(p uint64) bool {
			vf.Trig(vf.In(&m.positions, p))
			return vf.Implies(p/1048576 != id, vf.Iff(vf.In(&m.positions, p), vf.Before(vf.In(&m.positions, p))))
		}))
	})
}

func vfSumRow(t int, g *metricsv1.Sum, d *metricsv1.NumberDataPoint) bool {
	return vf.Iff(vf.Row[*float64](t, "Counter") != nil, d.Value != nil) &&
		vf.Implies(d.Value != nil, vf.Same(vf.Row[float64](t, "Counter*"), vf.Ite(vf.Is[*metricsv1.NumberDataPoint_AsInt](d.Value), float64(d.GetAsInt()), d.GetAsDouble()))) && vf.Same(vf.Row[[]*metricsv1.Exemplar](t, "Exemplars"), d.Exemplars) && vf.Row[metricsv1.AggregationTemporality](t, "AggregationTemporality") == g.AggregationTemporality && vf.Row[bool](t, "IsMonotonic") == g.IsMonotonic
}

//vf:for (*Metrics).sum
//vf:props C22
func vfSum(m *Metrics, mx *storev1.Metric, a *Attr, g *metricsv1.Sum) {
	vf.Requires(vfM(m) && mx != nil && g != nil && vfAttr_(a))
	vf.Requires("points", vf.Forall(func(k int) bool {
		vf.Trig(g.DataPoints[k])
		return vf.Implies(0 <= k && k < len(g.DataPoints), g.DataPoints[k] != nil && vfNoNil(g.DataPoints[k].Attributes) && (vf.Ref(a.attr) == 0 || vf.Ref(a.attr) != vf.Ref(g.DataPoints[k].Attributes)))
	}))
	vf.Requires("only issued rows have positions", vf.Forall(func(p uint64) bool {
		vf.Trig(vf.In(&m.positions, p))
		return vf.Implies(vf.In(&m.positions, p), p/1048576 < vfIssued(m))
	}))
	vf.Modifies(mx.StartTimeUnixNano, mx.TimeUnixNano, mx.Counter, mx.Exemplars, mx.AggregationTemporality, mx.IsMonotonic, mx.Attributes, mx.Hash, mx.Id, a.ab, a.b, a.attr, vf.Elems(a.attr), a.hash, m.positions, vf.Ghost("builders"), vf.Ghost("seq"), vf.Ghost("kv"), vf.Ghost("failed"))
	vf.Ensures("a row each", vf.Built(m.build) == vf.Old(vf.Built(m.build))+len(g.DataPoints))
	vf.Ensures("with its name, kind, unit and times", vf.Forall(func(q int) bool {
		vf.Trig(vfRowN(m, q))
		t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
		return vf.Implies(0 <= k && k < len(g.DataPoints), vfRowIs(t, mx, g.DataPoints[k].StartTimeUnixNano, g.DataPoints[k].TimeUnixNano))
	}))
	vf.Ensures("with its value", vf.Forall(func(q int) bool {
		vf.Trig(vfRowN(m, q))
		t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
		return vf.Implies(0 <= k && k < len(g.DataPoints), vfSumRow(t, g, g.DataPoints[k]))
	}))
	vf.Ensures("with all attributes", vf.Forall(func(q int) bool {
		vf.Trig(vfRowN(m, q))
		t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
		return vf.Implies(0 <= k && k < len(g.DataPoints), vfRowAttrs(t, a, g.DataPoints[k].Attributes))
	}))
	vf.Ensures("with the hash of its columns", vf.Forall(func(q int) bool {
		vf.Trig(vfRowN(m, q))
		t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
		return vf.Implies(0 <= k && k < len(g.DataPoints), vfRowHash(t, a, mx.Name, g.DataPoints[k].Attributes))
	}))
	vf.Ensures("under its columns", vf.Forall(func(q int) bool {
		vf.Trig(vfRowN(m, q))
		t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
		return vf.Implies(0 <= k && k < len(g.DataPoints), vfRowCols(m, t, a, mx.Name, g.DataPoints[k].Attributes))
	}))
	vf.Ensures("with a new id", vf.Forall(func(q int) bool {
		vf.Trig(vfRowN(m, q))
		t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
		return vf.Implies(0 <= k && k < len(g.DataPoints), vfId(t) >= vf.Old(vfIssued(m)) && vfId(t) < vfIssued(m))
	}))
	vf.Ensures("earlier rows stay", vf.Forall(func(k int) bool {
		vf.Trig(vf.BuiltAt(m.build, k))
		return vf.Implies(0 <= k && k < vf.Old(vf.Built(m.build)), vf.BuiltAt(m.build, k) == vf.Old(vf.BuiltAt(m.build, k)))
	}))
	vf.Ensures("and their columns", vf.Forall(func(p uint64) bool {
		vf.Trig(vf.In(&m.positions, p))
		return vf.Implies(p/1048576 < vf.Old(vfIssued(m)), vf.Iff(vf.In(&m.positions, p), vf.Old(vf.In(&m.positions, p))))
	}))
	vf.Ensures("only issued rows have positions", vf.Forall(func(p uint64) bool {
		vf.Trig(vf.In(&m.positions, p))
		return vf.Implies(vf.In(&m.positions, p), p/1048576 < vfIssued(m))
	}))
	vf.Ensures("well formed", vfAttr_(a))
	vf.LoopOver(func(i int, s []*metricsv1.NumberDataPoint) {
		vf.Invariant(vfAttr_(a) && vfIssued(m) >= vf.Old(vfIssued(m)))
		vf.Invariant("attributes stay", vf.Contents(a.resource) == vf.Old(vf.Contents(a.resource)) && vf.Contents(a.scope) == vf.Old(vf.Contents(a.scope)) && vf.Forall(func(k int) bool {
			vf.Trig(g.DataPoints[k])
			return vf.Implies(0 <= k && k < len(g.DataPoints), vf.Contents(g.DataPoints[k].Attributes) == vf.Old(vf.Contents(g.DataPoints[k].Attributes)))
		}))
		vf.Invariant("apart", vf.Forall(func(k int) bool {
			vf.Trig(g.DataPoints[k])
			return vf.Implies(0 <= k && k < len(g.DataPoints), vf.Ref(a.attr) == 0 || vf.Ref(a.attr) != vf.Ref(g.DataPoints[k].Attributes))
		}))
		vf.Invariant("rows", vf.Built(m.build) == vf.Old(vf.Built(m.build))+i)
		vf.Invariant("with its name, kind, unit and times", vf.Forall(func(q int) bool {
			vf.Trig(vfRowN(m, q))
			t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
			return vf.Implies(0 <= k && k < i, vfRowIs(t, mx, g.DataPoints[k].StartTimeUnixNano, g.DataPoints[k].TimeUnixNano))
		}))
		vf.Invariant("with its value", vf.Forall(func(q int) bool {
			vf.Trig(vfRowN(m, q))
			t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
			return vf.Implies(0 <= k && k < i, vfSumRow(t, g, g.DataPoints[k]))
		}))
		vf.Invariant("with all attributes", vf.Forall(func(q int) bool {
			vf.Trig(vfRowN(m, q))
			t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
			return vf.Implies(0 <= k && k < i, vfRowAttrs(t, a, g.DataPoints[k].Attributes))
		}))
		vf.Invariant("with the hash of its columns", vf.Forall(func(q int) bool {
			vf.Trig(vfRowN(m, q))
			t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
			return vf.Implies(0 <= k && k < i, vfRowHash(t, a, mx.Name, g.DataPoints[k].Attributes))
		}))
		vf.Invariant("under its columns", vf.Forall(func(q int) bool {
			vf.Trig(vfRowN(m, q))
			t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
			return vf.Implies(0 <= k && k < i, vfRowCols(m, t, a, mx.Name, g.DataPoints[k].Attributes))
		}))
		vf.Invariant("with a new id", vf.Forall(func(q int) bool {
			vf.Trig(vfRowN(m, q))
			t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
			return vf.Implies(0 <= k && k < i, vfId(t) >= vf.Old(vfIssued(m)) && vfId(t) < vfIssued(m))
		}))
		vf.Invariant("earlier rows stay", vf.Forall(func(k int) bool {
			vf.Trig(vf.BuiltAt(m.build, k))
			return vf.Implies(0 <= k && k < vf.Old(vf.Built(m.build)), vf.BuiltAt(m.build, k) == vf.Old(vf.BuiltAt(m.build, k)))
		}))
		vf.Invariant("and their columns", vf.Forall(func(p uint64) bool {
			vf.Trig(vf.In(&m.positions, p))
			return vf.Implies(p/1048576 < vf.Old(vfIssued(m)), vf.Iff(vf.In(&m.positions, p), vf.Old(vf.In(&m.positions, p))))
		}))
		vf.Invariant("only issued rows", vf.Forall(func(p uint64) bool {
			vf.Trig(vf.In(&m.positions, p))
			return vf.Implies(vf.In(&m.positions, p), p/1048576 < vfIssued(m))
		}))
	})
	vf.LoopIter(func(pos uint64) {
		id := vf.Cur[uint64]("id")
		vf.Invariant("set so far", vf.Forall(func(p uint64) bool {
			vf.Trig(vf.In(&m.positions, p))
			return vf.Implies(p/1048576 == id, vf.Iff(vf.In(&m.positions, p), vf.In(&a.ab, p%1048576) && p%1048576 < pos))
		}))
		vf.Invariant("other rows keep theirs", vf.Forall(func(p uint64) bool {
			vf.Trig(vf.In(&m.positions, p))
			return vf.Implies(p/1048576 != id, vf.Iff(vf.In(&m.positions, p), vf.Before(vf.In(&m.positions, p))))
		}))
	})
}

func vfSummaryRow(t int, g *metricsv1.Summary, d *metricsv1.SummaryDataPoint) bool {
	return vf.Row[*storev1.SummaryDataPoint](t, "Summary") != nil && vf.Row[uint64](t, "Summary.Count") == d.Count && vf.Same(vf.Row[float64](t, "Summary.Sum"), d.Sum) && vf.Same(vf.Row[[]*metricsv1.SummaryDataPoint_ValueAtQuantile](t, "Summary.QuantileValues"), d.QuantileValues)
}

//vf:for (*Metrics).summary
//vf:props C22
func vfSummary(m *Metrics, mx *storev1.Metric, a *Attr, g *metricsv1.Summary) {
	vf.Requires(vfM(m) && mx != nil && g != nil && vfAttr_(a))
	vf.Requires("points", vf.Forall(func(k int) bool {
		vf.Trig(g.DataPoints[k])
		return vf.Implies(0 <= k && k < len(g.DataPoints), g.DataPoints[k] != nil && vfNoNil(g.DataPoints[k].Attributes) && (vf.Ref(a.attr) == 0 || vf.Ref(a.attr) != vf.Ref(g.DataPoints[k].Attributes)))
	}))
	vf.Requires("only issued rows have positions", vf.Forall(func(p uint64) bool {
		vf.Trig(vf.In(&m.positions, p))
		return vf.Implies(vf.In(&m.positions, p), p/1048576 < vfIssued(m))
	}))
	vf.Modifies(mx.StartTimeUnixNano, mx.TimeUnixNano, mx.Summary, mx.Attributes, mx.Hash, mx.Id, a.ab, a.b, a.attr, vf.Elems(a.attr), a.hash, m.positions, vf.Ghost("builders"), vf.Ghost("seq"), vf.Ghost("kv"), vf.Ghost("failed"))
	vf.Ensures("a row each", vf.Built(m.build) == vf.Old(vf.Built(m.build))+len(g.DataPoints))
	vf.Ensures("with its name, kind, unit and times", vf.Forall(func(q int) bool {
		vf.Trig(vfRowN(m, q))
		t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
		return vf.Implies(0 <= k && k < len(g.DataPoints), vfRowIs(t, mx, g.DataPoints[k].StartTimeUnixNano, g.DataPoints[k].TimeUnixNano))
	}))
	vf.Ensures("with its value", vf.Forall(func(q int) bool {
		vf.Trig(vfRowN(m, q))
		t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
		return vf.Implies(0 <= k && k < len(g.DataPoints), vfSummaryRow(t, g, g.DataPoints[k]))
	}))
	vf.Ensures("with all attributes", vf.Forall(func(q int) bool {
		vf.Trig(vfRowN(m, q))
		t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
		return vf.Implies(0 <= k && k < len(g.DataPoints), vfRowAttrs(t, a, g.DataPoints[k].Attributes))
	}))
	vf.Ensures("with the hash of its columns", vf.Forall(func(q int) bool {
		vf.Trig(vfRowN(m, q))
		t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
		return vf.Implies(0 <= k && k < len(g.DataPoints), vfRowHash(t, a, mx.Name, g.DataPoints[k].Attributes))
	}))
	vf.Ensures("under its columns", vf.Forall(func(q int) bool {
		vf.Trig(vfRowN(m, q))
		t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
		return vf.Implies(0 <= k && k < len(g.DataPoints), vfRowCols(m, t, a, mx.Name, g.DataPoints[k].Attributes))
	}))
	vf.Ensures("with a new id", vf.Forall(func(q int) bool {
		vf.Trig(vfRowN(m, q))
		t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
		return vf.Implies(0 <= k && k < len(g.DataPoints), vfId(t) >= vf.Old(vfIssued(m)) && vfId(t) < vfIssued(m))
	}))
	vf.Ensures("earlier rows stay", vf.Forall(func(k int) bool {
		vf.Trig(vf.BuiltAt(m.build, k))
		return vf.Implies(0 <= k && k < vf.Old(vf.Built(m.build)), vf.BuiltAt(m.build, k) == vf.Old(vf.BuiltAt(m.build, k)))
	}))
	vf.Ensures("and their columns", vf.Forall(func(p uint64) bool {
		vf.Trig(vf.In(&m.positions, p))
		return vf.Implies(p/1048576 < vf.Old(vfIssued(m)), vf.Iff(vf.In(&m.positions, p), vf.Old(vf.In(&m.positions, p))))
	}))
	vf.Ensures("only issued rows have positions", vf.Forall(func(p uint64) bool {
		vf.Trig(vf.In(&m.positions, p))
		return vf.Implies(vf.In(&m.positions, p), p/1048576 < vfIssued(m))
	}))
	vf.Ensures("well formed", vfAttr_(a))
	vf.LoopOver(func(i int, s []*metricsv1.SummaryDataPoint) {
		vf.Invariant(vfAttr_(a) && vfIssued(m) >= vf.Old(vfIssued(m)))
		vf.Invariant("attributes stay", vf.Contents(a.resource) == vf.Old(vf.Contents(a.resource)) && vf.Contents(a.scope) == vf.Old(vf.Contents(a.scope)) && vf.Forall(func(k int) bool {
			vf.Trig(g.DataPoints[k])
			return vf.Implies(0 <= k && k < len(g.DataPoints), vf.Contents(g.DataPoints[k].Attributes) == vf.Old(vf.Contents(g.DataPoints[k].Attributes)))
		}))
		vf.Invariant("apart", vf.Forall(func(k int) bool {
			vf.Trig(g.DataPoints[k])
			return vf.Implies(0 <= k && k < len(g.DataPoints), vf.Ref(a.attr) == 0 || vf.Ref(a.attr) != vf.Ref(g.DataPoints[k].Attributes))
		}))
		vf.Invariant("rows", vf.Built(m.build) == vf.Old(vf.Built(m.build))+i)
		vf.Invariant("with its name, kind, unit and times", vf.Forall(func(q int) bool {
			vf.Trig(vfRowN(m, q))
			t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
			return vf.Implies(0 <= k && k < i, vfRowIs(t, mx, g.DataPoints[k].StartTimeUnixNano, g.DataPoints[k].TimeUnixNano))
		}))
		vf.Invariant("with its value", vf.Forall(func(q int) bool {
			vf.Trig(vfRowN(m, q))
			t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
			return vf.Implies(0 <= k && k < i, vfSummaryRow(t, g, g.DataPoints[k]))
		}))
		vf.Invariant("with all attributes", vf.Forall(func(q int) bool {
			vf.Trig(vfRowN(m, q))
			t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
			return vf.Implies(0 <= k && k < i, vfRowAttrs(t, a, g.DataPoints[k].Attributes))
		}))
		vf.Invariant("with the hash of its columns", vf.Forall(func(q int) bool {
			vf.Trig(vfRowN(m, q))
			t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
			return vf.Implies(0 <= k && k < i, vfRowHash(t, a, mx.Name, g.DataPoints[k].Attributes))
		}))
		vf.Invariant("under its columns", vf.Forall(func(q int) bool {
			vf.Trig(vfRowN(m, q))
			t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
			return vf.Implies(0 <= k && k < i, vfRowCols(m, t, a, mx.Name, g.DataPoints[k].Attributes))
		}))
		vf.Invariant("with a new id", vf.Forall(func(q int) bool {
			vf.Trig(vfRowN(m, q))
			t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
			return vf.Implies(0 <= k && k < i, vfId(t) >= vf.Old(vfIssued(m)) && vfId(t) < vfIssued(m))
		}))
		vf.Invariant("earlier rows stay", vf.Forall(func(k int) bool {
			vf.Trig(vf.BuiltAt(m.build, k))
			return vf.Implies(0 <= k && k < vf.Old(vf.Built(m.build)), vf.BuiltAt(m.build, k) == vf.Old(vf.BuiltAt(m.build, k)))
		}))
		vf.Invariant("and their columns", vf.Forall(func(p uint64) bool {
			vf.Trig(vf.In(&m.positions, p))
			return vf.Implies(p/1048576 < vf.Old(vfIssued(m)), vf.Iff(vf.In(&m.positions, p), vf.Old(vf.In(&m.positions, p))))
		}))
		vf.Invariant("only issued rows", vf.Forall(func(p uint64) bool {
			vf.Trig(vf.In(&m.positions, p))
			return vf.Implies(vf.In(&m.positions, p), p/1048576 < vfIssued(m))
		}))
	})
	vf.LoopIter(func(pos uint64) {
		id := vf.Cur[uint64]("id")
		vf.Invariant("set so far", vf.Forall(func(p uint64) bool {
			vf.Trig(vf.In(&m.positions, p))
			return vf.Implies(p/1048576 == id, vf.Iff(vf.In(&m.positions, p), vf.In(&a.ab, p%1048576) && p%1048576 < pos))
		}))
		vf.Invariant("other rows keep theirs", vf.Forall(func(p uint64) bool {
			vf.Trig(vf.In(&m.positions, p))
			return vf.Implies(p/1048576 != id, vf.Iff(vf.In(&m.positions, p), vf.Before(vf.In(&m.positions, p))))
		}))
	})
}

func vfHistRow(t int, g *metricsv1.Histogram, d *metricsv1.HistogramDataPoint) bool {
	return vf.Same(vf.Row[[]*metricsv1.Exemplar](t, "Exemplars"), d.Exemplars) && vf.Row[metricsv1.AggregationTemporality](t, "AggregationTemporality") == g.AggregationTemporality && vf.Row[*storev1.HistogramDataPoint](t, "Histogram") != nil && vf.Row[uint64](t, "Histogram.Count") == d.Count && vf.Row[*float64](t, "Histogram.Sum") == d.Sum && vf.Same(vf.Row[[]uint64](t, "Histogram.BucketCounts"), d.BucketCounts) && vf.Same(vf.Row[[]float64](t, "Histogram.ExplicitBounds"), d.ExplicitBounds) && vf.Row[*float64](t, "Histogram.Min") == d.Min && vf.Row[*float64](t, "Histogram.Max") == d.Max
}

//vf:for (*Metrics).hist
//vf:props C22
func vfHist(m *Metrics, mx *storev1.Metric, a *Attr, g *metricsv1.Histogram) {
	vf.Requires(vfM(m) && mx != nil && g != nil && vfAttr_(a))
	vf.Requires("points", vf.Forall(func(k int) bool {
		vf.Trig(g.DataPoints[k])
		return vf.Implies(0 <= k && k < len(g.DataPoints), g.DataPoints[k] != nil && vfNoNil(g.DataPoints[k].Attributes) && (vf.Ref(a.attr) == 0 || vf.Ref(a.attr) != vf.Ref(g.DataPoints[k].Attributes)))
	}))
	vf.Requires("only issued rows have positions", vf.Forall(func(p uint64) bool {
		vf.Trig(vf.In(&m.positions, p))
		return vf.Implies(vf.In(&m.positions, p), p/1048576 < vfIssued(m))
	}))
	vf.Modifies(mx.StartTimeUnixNano, mx.TimeUnixNano, mx.Histogram, mx.Exemplars, mx.AggregationTemporality, mx.Attributes, mx.Hash, mx.Id, a.ab, a.b, a.attr, vf.Elems(a.attr), a.hash, m.positions, vf.Ghost("builders"), vf.Ghost("seq"), vf.Ghost("kv"), vf.Ghost("failed"))
	vf.Ensures("a row each", vf.Built(m.build) == vf.Old(vf.Built(m.build))+len(g.DataPoints))
	vf.Ensures("with its name, kind, unit and times", vf.Forall(func(q int) bool {
		vf.Trig(vfRowN(m, q))
		t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
		return vf.Implies(0 <= k && k < len(g.DataPoints), vfRowIs(t, mx, g.DataPoints[k].StartTimeUnixNano, g.DataPoints[k].TimeUnixNano))
	}))
	vf.Ensures("with its value", vf.Forall(func(q int) bool {
		vf.Trig(vfRowN(m, q))
		t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
		return vf.Implies(0 <= k && k < len(g.DataPoints), vfHistRow(t, g, g.DataPoints[k]))
	}))
	vf.Ensures("with all attributes", vf.Forall(func(q int) bool {
		vf.Trig(vfRowN(m, q))
		t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
		return vf.Implies(0 <= k && k < len(g.DataPoints), vfRowAttrs(t, a, g.DataPoints[k].Attributes))
	}))
	vf.Ensures("with the hash of its columns", vf.Forall(func(q int) bool {
		vf.Trig(vfRowN(m, q))
		t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
		return vf.Implies(0 <= k && k < len(g.DataPoints), vfRowHash(t, a, mx.Name, g.DataPoints[k].Attributes))
	}))
	vf.Ensures("under its columns", vf.Forall(func(q int) bool {
		vf.Trig(vfRowN(m, q))
		t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
		return vf.Implies(0 <= k && k < len(g.DataPoints), vfRowCols(m, t, a, mx.Name, g.DataPoints[k].Attributes))
	}))
	vf.Ensures("with a new id", vf.Forall(func(q int) bool {
		vf.Trig(vfRowN(m, q))
		t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
		return vf.Implies(0 <= k && k < len(g.DataPoints), vfId(t) >= vf.Old(vfIssued(m)) && vfId(t) < vfIssued(m))
	}))
	vf.Ensures("earlier rows stay", vf.Forall(func(k int) bool {
		vf.Trig(vf.BuiltAt(m.build, k))
		return vf.Implies(0 <= k && k < vf.Old(vf.Built(m.build)), vf.BuiltAt(m.build, k) == vf.Old(vf.BuiltAt(m.build, k)))
	}))
	vf.Ensures("and their columns", vf.Forall(func(p uint64) bool {
		vf.Trig(vf.In(&m.positions, p))
		return vf.Implies(p/1048576 < vf.Old(vfIssued(m)), vf.Iff(vf.In(&m.positions, p), vf.Old(vf.In(&m.positions, p))))
	}))
	vf.Ensures("only issued rows have positions", vf.Forall(func(p uint64) bool {
		vf.Trig(vf.In(&m.positions, p))
		return vf.Implies(vf.In(&m.positions, p), p/1048576 < vfIssued(m))
	}))
	vf.Ensures("well formed", vfAttr_(a))
	vf.LoopOver(func(i int, s []*metricsv1.HistogramDataPoint) {
		vf.Invariant(vfAttr_(a) && vfIssued(m) >= vf.Old(vfIssued(m)))
		vf.Invariant("attributes stay", vf.Contents(a.resource) == vf.Old(vf.Contents(a.resource)) && vf.Contents(a.scope) == vf.Old(vf.Contents(a.scope)) && vf.Forall(func(k int) bool {
			vf.Trig(g.DataPoints[k])
			return vf.Implies(0 <= k && k < len(g.DataPoints), vf.Contents(g.DataPoints[k].Attributes) == vf.Old(vf.Contents(g.DataPoints[k].Attributes)))
		}))
		vf.Invariant("apart", vf.Forall(func(k int) bool {
			vf.Trig(g.DataPoints[k])
			return vf.Implies(0 <= k && k < len(g.DataPoints), vf.Ref(a.attr) == 0 || vf.Ref(a.attr) != vf.Ref(g.DataPoints[k].Attributes))
		}))
		vf.Invariant("rows", vf.Built(m.build) == vf.Old(vf.Built(m.build))+i)
		vf.Invariant("with its name, kind, unit and times", vf.Forall(func(q int) bool {
			vf.Trig(vfRowN(m, q))
			t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
			return vf.Implies(0 <= k && k < i, vfRowIs(t, mx, g.DataPoints[k].StartTimeUnixNano, g.DataPoints[k].TimeUnixNano))
		}))
		vf.Invariant("with its value", vf.Forall(func(q int) bool {
			vf.Trig(vfRowN(m, q))
			t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
			return vf.Implies(0 <= k && k < i, vfHistRow(t, g, g.DataPoints[k]))
		}))
		vf.Invariant("with all attributes", vf.Forall(func(q int) bool {
			vf.Trig(vfRowN(m, q))
			t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
			return vf.Implies(0 <= k && k < i, vfRowAttrs(t, a, g.DataPoints[k].Attributes))
		}))
		vf.Invariant("with the hash of its columns", vf.Forall(func(q int) bool {
			vf.Trig(vfRowN(m, q))
			t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
			return vf.Implies(0 <= k && k < i, vfRowHash(t, a, mx.Name, g.DataPoints[k].Attributes))
		}))
		vf.Invariant("under its columns", vf.Forall(func(q int) bool {
			vf.Trig(vfRowN(m, q))
			t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
			return vf.Implies(0 <= k && k < i, vfRowCols(m, t, a, mx.Name, g.DataPoints[k].Attributes))
		}))
		vf.Invariant("with a new id", vf.Forall(func(q int) bool {
			vf.Trig(vfRowN(m, q))
			t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
			return vf.Implies(0 <= k && k < i, vfId(t) >= vf.Old(vfIssued(m)) && vfId(t) < vfIssued(m))
		}))
		vf.Invariant("earlier rows stay", vf.Forall(func(k int) bool {
			vf.Trig(vf.BuiltAt(m.build, k))
			return vf.Implies(0 <= k && k < vf.Old(vf.Built(m.build)), vf.BuiltAt(m.build, k) == vf.Old(vf.BuiltAt(m.build, k)))
		}))
		vf.Invariant("and their columns", vf.Forall(func(p uint64) bool {
			vf.Trig(vf.In(&m.positions, p))
			return vf.Implies(p/1048576 < vf.Old(vfIssued(m)), vf.Iff(vf.In(&m.positions, p), vf.Old(vf.In(&m.positions, p))))
		}))
		vf.Invariant("only issued rows", vf.Forall(func(p uint64) bool {
			vf.Trig(vf.In(&m.positions, p))
			return vf.Implies(vf.In(&m.positions, p), p/1048576 < vfIssued(m))
		}))
	})
	vf.LoopIter(func(pos uint64) {
		id := vf.Cur[uint64]("id")
		vf.Invariant("set so far", vf.Forall(func(p uint64) bool {
			vf.Trig(vf.In(&m.positions, p))
			return vf.Implies(p/1048576 == id, vf.Iff(vf.In(&m.positions, p), vf.In(&a.ab, p%1048576) && p%1048576 < pos))
		}))
		vf.Invariant("other rows keep theirs", vf.Forall(func(p uint64) bool {
			vf.Trig(vf.In(&m.positions, p))
			return vf.Implies(p/1048576 != id, vf.Iff(vf.In(&m.positions, p), vf.Before(vf.In(&m.positions, p))))
		}))
	})
}

func vfExpHistRow(t int, g *metricsv1.ExponentialHistogram, d *metricsv1.ExponentialHistogramDataPoint) bool {
	return vf.Same(vf.Row[[]*metricsv1.Exemplar](t, "Exemplars"), d.Exemplars) && vf.Row[metricsv1.AggregationTemporality](t, "AggregationTemporality") == g.AggregationTemporality && vf.Row[*storev1.ExponentialHistogramDataPoint](t, "ExponentialHistogram") != nil && vf.Row[uint64](t, "ExponentialHistogram.Count") == d.Count && vf.Row[*float64](t, "ExponentialHistogram.Sum") == d.Sum && vf.Row[int32](t, "ExponentialHistogram.Scale") == d.Scale && vf.Row[uint64](t, "ExponentialHistogram.ZeroCount") == d.ZeroCount && vf.Row[*metricsv1.ExponentialHistogramDataPoint_Buckets](t, "ExponentialHistogram.Positive") == d.Positive && vf.Row[*metricsv1.ExponentialHistogramDataPoint_Buckets](t, "ExponentialHistogram.Negative") == d.Negative && vf.Row[*float64](t, "ExponentialHistogram.Min") == d.Min && vf.Row[*float64](t, "ExponentialHistogram.Max") == d.Max && vf.Same(vf.Row[float64](t, "ExponentialHistogram.ZeroThreshold"), d.ZeroThreshold)
}

//vf:for (*Metrics).expHist
//vf:props C22
func vfExpHist(m *Metrics, mx *storev1.Metric, a *Attr, g *metricsv1.ExponentialHistogram) {
	vf.Requires(vfM(m) && mx != nil && g != nil && vfAttr_(a))
	vf.Requires("points", vf.Forall(func(k int) bool {
		vf.Trig(g.DataPoints[k])
		return vf.Implies(0 <= k && k < len(g.DataPoints), g.DataPoints[k] != nil && vfNoNil(g.DataPoints[k].Attributes) && (vf.Ref(a.attr) == 0 || vf.Ref(a.attr) != vf.Ref(g.DataPoints[k].Attributes)))
	}))
	vf.Requires("only issued rows have positions", vf.Forall(func(p uint64) bool {
		vf.Trig(vf.In(&m.positions, p))
		return vf.Implies(vf.In(&m.positions, p), p/1048576 < vfIssued(m))
	}))
	vf.Modifies(mx.StartTimeUnixNano, mx.TimeUnixNano, mx.ExponentialHistogram, mx.Exemplars, mx.AggregationTemporality, mx.Attributes, mx.Hash, mx.Id, a.ab, a.b, a.attr, vf.Elems(a.attr), a.hash, m.positions, vf.Ghost("builders"), vf.Ghost("seq"), vf.Ghost("kv"), vf.Ghost("failed"))
	vf.Ensures("a row each", vf.Built(m.build) == vf.Old(vf.Built(m.build))+len(g.DataPoints))
	vf.Ensures("with its name, kind, unit and times", vf.Forall(func(q int) bool {
		vf.Trig(vfRowN(m, q))
		t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
		return vf.Implies(0 <= k && k < len(g.DataPoints), vfRowIs(t, mx, g.DataPoints[k].StartTimeUnixNano, g.DataPoints[k].TimeUnixNano))
	}))
	vf.Ensures("with its value", vf.Forall(func(q int) bool {
		vf.Trig(vfRowN(m, q))
		t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
		return vf.Implies(0 <= k && k < len(g.DataPoints), vfExpHistRow(t, g, g.DataPoints[k]))
	}))
	vf.Ensures("with all attributes", vf.Forall(func(q int) bool {
		vf.Trig(vfRowN(m, q))
		t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
		return vf.Implies(0 <= k && k < len(g.DataPoints), vfRowAttrs(t, a, g.DataPoints[k].Attributes))
	}))
	vf.Ensures("with the hash of its columns", vf.Forall(func(q int) bool {
		vf.Trig(vfRowN(m, q))
		t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
		return vf.Implies(0 <= k && k < len(g.DataPoints), vfRowHash(t, a, mx.Name, g.DataPoints[k].Attributes))
	}))
	vf.Ensures("under its columns", vf.Forall(func(q int) bool {
		vf.Trig(vfRowN(m, q))
		t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
		return vf.Implies(0 <= k && k < len(g.DataPoints), vfRowCols(m, t, a, mx.Name, g.DataPoints[k].Attributes))
	}))
	vf.Ensures("with a new id", vf.Forall(func(q int) bool {
		vf.Trig(vfRowN(m, q))
		t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
		return vf.Implies(0 <= k && k < len(g.DataPoints), vfId(t) >= vf.Old(vfIssued(m)) && vfId(t) < vfIssued(m))
	}))
	vf.Ensures("earlier rows stay", vf.Forall(func(k int) bool {
		vf.Trig(vf.BuiltAt(m.build, k))
		return vf.Implies(0 <= k && k < vf.Old(vf.Built(m.build)), vf.BuiltAt(m.build, k) == vf.Old(vf.BuiltAt(m.build, k)))
	}))
	vf.Ensures("and their columns", vf.Forall(func(p uint64) bool {
		vf.Trig(vf.In(&m.positions, p))
		return vf.Implies(p/1048576 < vf.Old(vfIssued(m)), vf.Iff(vf.In(&m.positions, p), vf.Old(vf.In(&m.positions, p))))
	}))
	vf.Ensures("only issued rows have positions", vf.Forall(func(p uint64) bool {
		vf.Trig(vf.In(&m.positions, p))
		return vf.Implies(vf.In(&m.positions, p), p/1048576 < vfIssued(m))
	}))
	vf.Ensures("well formed", vfAttr_(a))
	vf.LoopOver(func(i int, s []*metricsv1.ExponentialHistogramDataPoint) {
		vf.Invariant(vfAttr_(a) && vfIssued(m) >= vf.Old(vfIssued(m)))
		vf.Invariant("attributes stay", vf.Contents(a.resource) == vf.Old(vf.Contents(a.resource)) && vf.Contents(a.scope) == vf.Old(vf.Contents(a.scope)) && vf.Forall(func(k int) bool {
			vf.Trig(g.DataPoints[k])
			return vf.Implies(0 <= k && k < len(g.DataPoints), vf.Contents(g.DataPoints[k].Attributes) == vf.Old(vf.Contents(g.DataPoints[k].Attributes)))
		}))
		vf.Invariant("apart", vf.Forall(func(k int) bool {
			vf.Trig(g.DataPoints[k])
			return vf.Implies(0 <= k && k < len(g.DataPoints), vf.Ref(a.attr) == 0 || vf.Ref(a.attr) != vf.Ref(g.DataPoints[k].Attributes))
		}))
		vf.Invariant("rows", vf.Built(m.build) == vf.Old(vf.Built(m.build))+i)
		vf.Invariant("with its name, kind, unit and times", vf.Forall(func(q int) bool {
			vf.Trig(vfRowN(m, q))
			t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
			return vf.Implies(0 <= k && k < i, vfRowIs(t, mx, g.DataPoints[k].StartTimeUnixNano, g.DataPoints[k].TimeUnixNano))
		}))
		vf.Invariant("with its value", vf.Forall(func(q int) bool {
			vf.Trig(vfRowN(m, q))
			t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
			return vf.Implies(0 <= k && k < i, vfExpHistRow(t, g, g.DataPoints[k]))
		}))
		vf.Invariant("with all attributes", vf.Forall(func(q int) bool {
			vf.Trig(vfRowN(m, q))
			t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
			return vf.Implies(0 <= k && k < i, vfRowAttrs(t, a, g.DataPoints[k].Attributes))
		}))
		vf.Invariant("with the hash of its columns", vf.Forall(func(q int) bool {
			vf.Trig(vfRowN(m, q))
			t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
			return vf.Implies(0 <= k && k < i, vfRowHash(t, a, mx.Name, g.DataPoints[k].Attributes))
		}))
		vf.Invariant("under its columns", vf.Forall(func(q int) bool {
			vf.Trig(vfRowN(m, q))
			t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
			return vf.Implies(0 <= k && k < i, vfRowCols(m, t, a, mx.Name, g.DataPoints[k].Attributes))
		}))
		vf.Invariant("with a new id", vf.Forall(func(q int) bool {
			vf.Trig(vfRowN(m, q))
			t, k := vfRowN(m, q), q-vf.Old(vf.Built(m.build))
			return vf.Implies(0 <= k && k < i, vfId(t) >= vf.Old(vfIssued(m)) && vfId(t) < vfIssued(m))
		}))
		vf.Invariant("earlier rows stay", vf.Forall(func(k int) bool {
			vf.Trig(vf.BuiltAt(m.build, k))
			return vf.Implies(0 <= k && k < vf.Old(vf.Built(m.build)), vf.BuiltAt(m.build, k) == vf.Old(vf.BuiltAt(m.build, k)))
		}))
		vf.Invariant("and their columns", vf.Forall(func(p uint64) bool {
			vf.Trig(vf.In(&m.positions, p))
			return vf.Implies(p/1048576 < vf.Old(vfIssued(m)), vf.Iff(vf.In(&m.positions, p), vf.Old(vf.In(&m.positions, p))))
		}))
		vf.Invariant("only issued rows", vf.Forall(func(p uint64) bool {
			vf.Trig(vf.In(&m.positions, p))
			return vf.Implies(vf.In(&m.positions, p), p/1048576 < vfIssued(m))
		}))
	})
	vf.LoopIter(func(pos uint64) {
		id := vf.Cur[uint64]("id")
		vf.Invariant("set so far", vf.Forall(func(p uint64) bool {
			vf.Trig(vf.In(&m.positions, p))
			return vf.Implies(p/1048576 == id, vf.Iff(vf.In(&m.positions, p), vf.In(&a.ab, p%1048576) && p%1048576 < pos))
		}))
		vf.Invariant("other rows keep theirs", vf.Forall(func(p uint64) bool {
			vf.Trig(vf.In(&m.positions, p))
			return vf.Implies(p/1048576 != id, vf.Iff(vf.In(&m.positions, p), vf.Before(vf.In(&m.positions, p))))
		}))
	})
}

var _ = storev1.Metric{}
var _ = metricsv1.Gauge{}
var _ = resourcev1.Resource{}
