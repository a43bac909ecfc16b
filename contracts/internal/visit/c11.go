package visit

import (
	"github.com/RoaringBitmap/roaring/roaring64"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/bitmaps"
	"github.com/gernest/requiemdb/internal/vf"
	commonV1 "go.opentelemetry.io/proto/otlp/common/v1"
)

func vfBase(f *v1.Scan_Filter, p v1.Scan_BaseProp) bool {
	return vf.Is[*v1.Scan_Filter_Base](f.Value) && f.Value.(*v1.Scan_Filter_Base).Base.Prop == p
}
func vfAttr(f *v1.Scan_Filter, p v1.Scan_AttributeProp) bool {
	return vf.Is[*v1.Scan_Filter_Attr](f.Value) && f.Value.(*v1.Scan_Filter_Attr).Attr.Prop == p
}

func vfText(f *v1.Scan_Filter) uint64 {
	return vf.Hash64(f.Value.(*v1.Scan_Filter_Base).Base.Value)
}
func vfPair(f *v1.Scan_Filter) uint64 {
	return vf.Hash64(f.Value.(*v1.Scan_Filter_Attr).Attr.Key + "=" + f.Value.(*v1.Scan_Filter_Attr).Attr.Value)
}
func vfHex(f *v1.Scan_Filter) string { return f.Value.(*v1.Scan_Filter_Base).Base.Value }

func vfAsk(u uint64) bool { return vf.Fn[bool]("ask", u) }

// vfTexts: the set b holds what it held before (was) and the texts that the
// first n filters ask the property p to be one of.
func vfTexts(b, was bool, u uint64, fs []*v1.Scan_Filter, n int, p v1.Scan_BaseProp) bool {
	return vf.Iff(b, was || vf.Exists(func(m int) bool {
		return 0 <= m && m < n && vfBase(fs[m], p) && u == vfText(fs[m])
	}))
}
func vfIDs(b, was bool, u uint64, fs []*v1.Scan_Filter, n int, p v1.Scan_BaseProp) bool {
	return vf.Iff(b, was || vf.Exists(func(m int) bool {
		return 0 <= m && m < n && vfBase(fs[m], p) && vf.UnhexOK(vfHex(fs[m])) && u == vf.Hash64(vf.Unhex(vfHex(fs[m])))
	}))
}
func vfPairs(b, was bool, u uint64, fs []*v1.Scan_Filter, n int, p v1.Scan_AttributeProp) bool {
	return vf.Iff(b, was || vf.Exists(func(m int) bool {
		return 0 <= m && m < n && vfAttr(fs[m], p) && u == vfPair(fs[m])
	}))
}

//vf:for (*All).Compile
//vf:props C11
func vfCompile(o *All, filters []*v1.Scan_Filter) {
	vf.Requires(o != nil)
	vf.Requires("filters have values", vf.Forall(func(m int) bool {
		vf.Trig(filters[m])
		return vf.Implies(0 <= m && m < len(filters), filters[m] != nil &&
			(vf.Is[*v1.Scan_Filter_Base](filters[m].Value) && filters[m].Value.(*v1.Scan_Filter_Base) != nil && filters[m].Value.(*v1.Scan_Filter_Base).Base != nil ||
				vf.Is[*v1.Scan_Filter_Attr](filters[m].Value) && filters[m].Value.(*v1.Scan_Filter_Attr) != nil && filters[m].Value.(*v1.Scan_Filter_Attr).Attr != nil))
	}))
	vf.Modifies(o.resource_schema, o.resource_attr, o.scope_schema, o.scope_name, o.scope_version, o.scope_attr, o.attr, o.name, o.trace_id, o.span_id, o.parent_span_id, o.log_level)
	vf.Ensures("resource schema", vf.Forall(func(u uint64) bool {
		vf.Trig(vfAsk(u))
		return vf.Implies(vfAsk(u), vfTexts(vf.In(&o.resource_schema, u), vf.Old(vf.In(&o.resource_schema, u)), u, filters, len(filters), v1.Scan_RESOURCE_SCHEMA))
	}))
	vf.Ensures("scope schema", vf.Forall(func(u uint64) bool {
		vf.Trig(vfAsk(u))
		return vf.Implies(vfAsk(u), vfTexts(vf.In(&o.scope_schema, u), vf.Old(vf.In(&o.scope_schema, u)), u, filters, len(filters), v1.Scan_SCOPE_SCHEMA))
	}))
	vf.Ensures("scope name", vf.Forall(func(u uint64) bool {
		vf.Trig(vfAsk(u))
		return vf.Implies(vfAsk(u), vfTexts(vf.In(&o.scope_name, u), vf.Old(vf.In(&o.scope_name, u)), u, filters, len(filters), v1.Scan_SCOPE_NAME))
	}))
	vf.Ensures("scope version", vf.Forall(func(u uint64) bool {
		vf.Trig(vfAsk(u))
		return vf.Implies(vfAsk(u), vfTexts(vf.In(&o.scope_version, u), vf.Old(vf.In(&o.scope_version, u)), u, filters, len(filters), v1.Scan_SCOPE_VERSION))
	}))
	vf.Ensures("name", vf.Forall(func(u uint64) bool {
		vf.Trig(vfAsk(u))
		return vf.Implies(vfAsk(u), vfTexts(vf.In(&o.name, u), vf.Old(vf.In(&o.name, u)), u, filters, len(filters), v1.Scan_NAME))
	}))
	vf.Ensures("log level", vf.Forall(func(u uint64) bool {
		vf.Trig(vfAsk(u))
		return vf.Implies(vfAsk(u), vfTexts(vf.In(&o.log_level, u), vf.Old(vf.In(&o.log_level, u)), u, filters, len(filters), v1.Scan_LOGS_LEVEL))
	}))
	vf.Ensures("trace id", vf.Forall(func(u uint64) bool {
		vf.Trig(vfAsk(u))
		return vf.Implies(vfAsk(u), vfIDs(vf.In(&o.trace_id, u), vf.Old(vf.In(&o.trace_id, u)), u, filters, len(filters), v1.Scan_TRACE_ID))
	}))
	vf.Ensures("span id", vf.Forall(func(u uint64) bool {
		vf.Trig(vfAsk(u))
		return vf.Implies(vfAsk(u), vfIDs(vf.In(&o.span_id, u), vf.Old(vf.In(&o.span_id, u)), u, filters, len(filters), v1.Scan_SPAN_ID))
	}))
	vf.Ensures("parent span id", vf.Forall(func(u uint64) bool {
		vf.Trig(vfAsk(u))
		return vf.Implies(vfAsk(u), vfIDs(vf.In(&o.parent_span_id, u), vf.Old(vf.In(&o.parent_span_id, u)), u, filters, len(filters), v1.Scan_PARENT_SPAN_ID))
	}))
	vf.Ensures("resource attributes", vf.Forall(func(u uint64) bool {
		vf.Trig(vfAsk(u))
		return vf.Implies(vfAsk(u), vfPairs(vf.In(&o.resource_attr, u), vf.Old(vf.In(&o.resource_attr, u)), u, filters, len(filters), v1.Scan_RESOURCE_ATTRIBUTES))
	}))
	vf.Ensures("scope attributes", vf.Forall(func(u uint64) bool {
		vf.Trig(vfAsk(u))
		return vf.Implies(vfAsk(u), vfPairs(vf.In(&o.scope_attr, u), vf.Old(vf.In(&o.scope_attr, u)), u, filters, len(filters), v1.Scan_SCOPE_ATTRIBUTES))
	}))
	vf.Ensures("attributes", vf.Forall(func(u uint64) bool {
		vf.Trig(vfAsk(u))
		return vf.Implies(vfAsk(u), vfPairs(vf.In(&o.attr, u), vf.Old(vf.In(&o.attr, u)), u, filters, len(filters), v1.Scan_ATTRIBUTES))
	}))
	vf.LoopOver(func(i int, fs []*v1.Scan_Filter) {
		vf.Invariant("resource schema", vf.Forall(func(u uint64) bool {
			vf.Trig(vfAsk(u))
			return vf.Implies(vfAsk(u), vfTexts(vf.In(&o.resource_schema, u), vf.Old(vf.In(&o.resource_schema, u)), u, filters, i, v1.Scan_RESOURCE_SCHEMA))
		}))
		vf.Invariant("scope schema", vf.Forall(func(u uint64) bool {
			vf.Trig(vfAsk(u))
			return vf.Implies(vfAsk(u), vfTexts(vf.In(&o.scope_schema, u), vf.Old(vf.In(&o.scope_schema, u)), u, filters, i, v1.Scan_SCOPE_SCHEMA))
		}))
		vf.Invariant("scope name", vf.Forall(func(u uint64) bool {
			vf.Trig(vfAsk(u))
			return vf.Implies(vfAsk(u), vfTexts(vf.In(&o.scope_name, u), vf.Old(vf.In(&o.scope_name, u)), u, filters, i, v1.Scan_SCOPE_NAME))
		}))
		vf.Invariant("scope version", vf.Forall(func(u uint64) bool {
			vf.Trig(vfAsk(u))
			return vf.Implies(vfAsk(u), vfTexts(vf.In(&o.scope_version, u), vf.Old(vf.In(&o.scope_version, u)), u, filters, i, v1.Scan_SCOPE_VERSION))
		}))
		vf.Invariant("name", vf.Forall(func(u uint64) bool {
			vf.Trig(vfAsk(u))
			return vf.Implies(vfAsk(u), vfTexts(vf.In(&o.name, u), vf.Old(vf.In(&o.name, u)), u, filters, i, v1.Scan_NAME))
		}))
		vf.Invariant("log level", vf.Forall(func(u uint64) bool {
			vf.Trig(vfAsk(u))
			return vf.Implies(vfAsk(u), vfTexts(vf.In(&o.log_level, u), vf.Old(vf.In(&o.log_level, u)), u, filters, i, v1.Scan_LOGS_LEVEL))
		}))
		vf.Invariant("trace id", vf.Forall(func(u uint64) bool {
			vf.Trig(vfAsk(u))
			return vf.Implies(vfAsk(u), vfIDs(vf.In(&o.trace_id, u), vf.Old(vf.In(&o.trace_id, u)), u, filters, i, v1.Scan_TRACE_ID))
		}))
		vf.Invariant("span id", vf.Forall(func(u uint64) bool {
			vf.Trig(vfAsk(u))
			return vf.Implies(vfAsk(u), vfIDs(vf.In(&o.span_id, u), vf.Old(vf.In(&o.span_id, u)), u, filters, i, v1.Scan_SPAN_ID))
		}))
		vf.Invariant("parent span id", vf.Forall(func(u uint64) bool {
			vf.Trig(vfAsk(u))
			return vf.Implies(vfAsk(u), vfIDs(vf.In(&o.parent_span_id, u), vf.Old(vf.In(&o.parent_span_id, u)), u, filters, i, v1.Scan_PARENT_SPAN_ID))
		}))
		vf.Invariant("resource attributes", vf.Forall(func(u uint64) bool {
			vf.Trig(vfAsk(u))
			return vf.Implies(vfAsk(u), vfPairs(vf.In(&o.resource_attr, u), vf.Old(vf.In(&o.resource_attr, u)), u, filters, i, v1.Scan_RESOURCE_ATTRIBUTES))
		}))
		vf.Invariant("scope attributes", vf.Forall(func(u uint64) bool {
			vf.Trig(vfAsk(u))
			return vf.Implies(vfAsk(u), vfPairs(vf.In(&o.scope_attr, u), vf.Old(vf.In(&o.scope_attr, u)), u, filters, i, v1.Scan_SCOPE_ATTRIBUTES))
		}))
		vf.Invariant("attributes", vf.Forall(func(u uint64) bool {
			vf.Trig(vfAsk(u))
			return vf.Implies(vfAsk(u), vfPairs(vf.In(&o.attr, u), vf.Old(vf.In(&o.attr, u)), u, filters, i, v1.Scan_ATTRIBUTES))
		}))
	})
}

// vfEmpty: b holds nothing.
func vfEmpty(b *roaring64.Bitmap) bool {
	return vf.Forall(func(u uint64) bool { return !vf.In(b, u) })
}

// A filter object from the pool asks for nothing.
//
//vf:pool
//vf:props C11 C21
func vfPoolAll(a *All) {
	vf.Ensures("resource schema", vfEmpty(&a.resource_schema))
	vf.Ensures("resource attributes", vfEmpty(&a.resource_attr))
	vf.Ensures("scope schema", vfEmpty(&a.scope_schema))
	vf.Ensures("scope name", vfEmpty(&a.scope_name))
	vf.Ensures("scope version", vfEmpty(&a.scope_version))
	vf.Ensures("scope attributes", vfEmpty(&a.scope_attr))
	vf.Ensures("attributes", vfEmpty(&a.attr))
	vf.Ensures("name", vfEmpty(&a.name))
	vf.Ensures("trace id", vfEmpty(&a.trace_id))
	vf.Ensures("span id", vfEmpty(&a.span_id))
	vf.Ensures("parent span id", vfEmpty(&a.parent_span_id))
	vf.Ensures("log level", vfEmpty(&a.log_level))
	vf.Ensures("time range", a.start_nano == 0 && a.end_nano == 0)
}

//vf:for (*All).Release
//vf:props C11 C21
//vf:flag pool noframe
func vfRelease(a *All) {
	vf.Requires("it is in use", a != nil && !vf.Pooled(a))
}

//vf:for (*All).SetTimeRange
//vf:props C11
func vfSetTimeRange(a *All, start, end uint64) {
	vf.Requires(a != nil)
	vf.Modifies(a.start_nano, a.end_nano)
	vf.Ensures("the range", a.start_nano == start && a.end_nano == end)
}

// vfHasAttrs: every pair of b is the key and text value of an attribute.
func vfHasAttrs(b *roaring64.Bitmap, ls []*commonV1.KeyValue) bool {
	return vf.Forall(func(u uint64) bool {
		vf.Trig(vf.In(b, u))
		return vf.Implies(vf.In(b, u), vf.Exists(func(k int) bool {
			return 0 <= k && k < len(ls) && vfIs(ls[k], u)
		}))
	})
}

// vfIs: l is a text attribute, u the hash of its pair.
func vfIs(l *commonV1.KeyValue, u uint64) bool {
	return vf.Is[*commonV1.AnyValue_StringValue](l.GetValue().GetValue()) &&
		u == vf.Hash64(l.Key+"="+l.GetValue().GetValue().(*commonV1.AnyValue_StringValue).StringValue)
}

func vfOneOf(b *roaring64.Bitmap, u uint64) bool { return b.IsEmpty() || vf.In(b, u) }

func vfAttrsOK(ls []*commonV1.KeyValue) bool {
	return vf.Forall(func(k int) bool {
		vf.Trig(ls[k])
		return vf.Implies(0 <= k && k < len(ls), ls[k] != nil &&
			vf.Implies(vf.Is[*commonV1.AnyValue_StringValue](ls[k].GetValue().GetValue()), ls[k].GetValue().GetValue().(*commonV1.AnyValue_StringValue) != nil))
	})
}

//vf:for matchAttr
//vf:props C11
func vfMatchAttr(a *roaring64.Bitmap, ls []*commonV1.KeyValue, ok bool) {
	vf.Requires(a != nil && string(sep) == "=")
	vf.Requires("attributes", vfAttrsOK(ls))
	vf.Ensures("has all", vf.Iff(ok, vf.Old(vfHasAttrs(a, ls))))
	vf.LoopOver(func(i int, s []*commonV1.KeyValue) {
		vf.Invariant("collected", vf.Forall(func(u uint64) bool {
			vf.Trig(vf.In(&vf.Cur[*bitmaps.Bitmap]("b").Bitmap, u))
			return vf.Iff(vf.In(&vf.Cur[*bitmaps.Bitmap]("b").Bitmap, u), vf.Exists(func(k int) bool {
				return 0 <= k && k < i && vfIs(ls[k], u)
			}))
		}))
	})
}
