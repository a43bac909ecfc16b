package tracetransform

import (
	"github.com/gernest/requiemdb/internal/vf"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
	"go.opentelemetry.io/otel/sdk/instrumentation"
	"go.opentelemetry.io/otel/sdk/resource"
	tracesdk "go.opentelemetry.io/otel/sdk/trace"
	"go.opentelemetry.io/otel/trace"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
)

// A function is specified over what it returns itself; that parts are the
// conversions of parts is said with vf.Made, so the whole tree is converted if
// every function is.

// Attributes.

func vfIsBool(o *commonv1.AnyValue, v bool) bool {
	return o != nil && vf.Is[*commonv1.AnyValue_BoolValue](o.Value) && vf.Alloc(o) && vf.Alloc(o.Value.(*commonv1.AnyValue_BoolValue)) && o.GetBoolValue() == v
}
func vfIsInt(o *commonv1.AnyValue, v int64) bool {
	return o != nil && vf.Is[*commonv1.AnyValue_IntValue](o.Value) && vf.Alloc(o) && vf.Alloc(o.Value.(*commonv1.AnyValue_IntValue)) && o.GetIntValue() == v
}
func vfIsDouble(o *commonv1.AnyValue, v float64) bool {
	return o != nil && vf.Is[*commonv1.AnyValue_DoubleValue](o.Value) && vf.Alloc(o) && vf.Alloc(o.Value.(*commonv1.AnyValue_DoubleValue)) && vf.Same(o.GetDoubleValue(), v)
}
func vfIsString(o *commonv1.AnyValue, v string) bool {
	return o != nil && vf.Is[*commonv1.AnyValue_StringValue](o.Value) && vf.Alloc(o) && vf.Alloc(o.Value.(*commonv1.AnyValue_StringValue)) && o.GetStringValue() == v
}
func vfIsArray(o *commonv1.AnyValue) bool {
	return o != nil && vf.Is[*commonv1.AnyValue_ArrayValue](o.Value) && o.GetArrayValue() != nil
}

//vf:for boolSliceValues
//vf:props C19
func vfBools(vals []bool, out []*commonv1.AnyValue) {
	vf.Ensures("one each", len(out) == len(vals))
	vf.Ensures("in order", vf.Forall(func(k int) bool {
		vf.Trig(out[k])
		return vf.Implies(0 <= k && k < len(vals), vfIsBool(out[k], vals[k]))
	}))
	vf.Made("bools", out, vals)
	vf.LoopOver(func(i int, s []bool) {
		c := vf.Cur[[]*commonv1.AnyValue]()
		vf.Invariant("so far", vf.Forall(func(k int) bool {
			vf.Trig(c[k])
			return vf.Implies(0 <= k && k < i, vfIsBool(c[k], vals[k]))
		}))
	})
}

//vf:for int64SliceValues
//vf:props C19
func vfInts(vals []int64, out []*commonv1.AnyValue) {
	vf.Ensures("one each", len(out) == len(vals))
	vf.Ensures("in order", vf.Forall(func(k int) bool {
		vf.Trig(out[k])
		return vf.Implies(0 <= k && k < len(vals), vfIsInt(out[k], vals[k]))
	}))
	vf.Made("int64s", out, vals)
	vf.LoopOver(func(i int, s []int64) {
		c := vf.Cur[[]*commonv1.AnyValue]()
		vf.Invariant("so far", vf.Forall(func(k int) bool {
			vf.Trig(c[k])
			return vf.Implies(0 <= k && k < i, vfIsInt(c[k], vals[k]))
		}))
	})
}

//vf:for float64SliceValues
//vf:props C19
func vfDoubles(vals []float64, out []*commonv1.AnyValue) {
	vf.Ensures("one each", len(out) == len(vals))
	vf.Ensures("in order", vf.Forall(func(k int) bool {
		vf.Trig(out[k])
		return vf.Implies(0 <= k && k < len(vals), vfIsDouble(out[k], vals[k]))
	}))
	vf.Made("float64s", out, vals)
	vf.LoopOver(func(i int, s []float64) {
		c := vf.Cur[[]*commonv1.AnyValue]()
		vf.Invariant("so far", vf.Forall(func(k int) bool {
			vf.Trig(c[k])
			return vf.Implies(0 <= k && k < i, vfIsDouble(c[k], vals[k]))
		}))
	})
}

//vf:for stringSliceValues
//vf:props C19
func vfStrings(vals []string, out []*commonv1.AnyValue) {
	vf.Ensures("one each", len(out) == len(vals))
	vf.Ensures("in order", vf.Forall(func(k int) bool {
		vf.Trig(out[k])
		return vf.Implies(0 <= k && k < len(vals), vfIsString(out[k], vals[k]))
	}))
	vf.Made("strings", out, vals)
	vf.LoopOver(func(i int, s []string) {
		c := vf.Cur[[]*commonv1.AnyValue]()
		vf.Invariant("so far", vf.Forall(func(k int) bool {
			vf.Trig(c[k])
			return vf.Implies(0 <= k && k < i, vfIsString(c[k], vals[k]))
		}))
	})
}

//vf:for Value
//vf:props C19
func vfValue(v attribute.Value, out *commonv1.AnyValue) {
	t := v.Type()
	vf.Ensures("bool", vf.Implies(t == attribute.BOOL, vfIsBool(out, v.AsBool())))
	vf.Ensures("int", vf.Implies(t == attribute.INT64, vfIsInt(out, v.AsInt64())))
	vf.Ensures("float", vf.Implies(t == attribute.FLOAT64, vfIsDouble(out, v.AsFloat64())))
	vf.Ensures("string", vf.Implies(t == attribute.STRING, vfIsString(out, v.AsString())))
	vf.Ensures("bools", vf.Implies(t == attribute.BOOLSLICE, vfIsArray(out) && vf.Made("bools", out.GetArrayValue().Values, v.AsBoolSlice())))
	vf.Ensures("ints", vf.Implies(t == attribute.INT64SLICE, vfIsArray(out) && vf.Made("int64s", out.GetArrayValue().Values, v.AsInt64Slice())))
	vf.Ensures("floats", vf.Implies(t == attribute.FLOAT64SLICE, vfIsArray(out) && vf.Made("float64s", out.GetArrayValue().Values, v.AsFloat64Slice())))
	vf.Ensures("strings", vf.Implies(t == attribute.STRINGSLICE, vfIsArray(out) && vf.Made("strings", out.GetArrayValue().Values, v.AsStringSlice())))
	vf.Ensures("no type", vf.Implies(t == attribute.INVALID, vfIsString(out, "INVALID")))
	vf.Made("value", out, v)
}

//vf:for KeyValue
//vf:props C19
func vfKeyValue(kv attribute.KeyValue, out *commonv1.KeyValue) {
	vf.Ensures("key and value", out != nil && out.Key == string(kv.Key) && vf.Made("value", out.Value, kv.Value))
	vf.Made("kv", out, string(kv.Key), kv.Value)
}

//vf:for KeyValues
//vf:props C19
func vfKeyValues(attrs []attribute.KeyValue, out []*commonv1.KeyValue) {
	vf.Ensures("one each", len(out) == len(attrs))
	vf.Ensures("in order", vf.Forall(func(k int) bool {
		vf.Trig(out[k])
		return vf.Implies(0 <= k && k < len(attrs), vf.Made("kv", out[k], string(attrs[k].Key), attrs[k].Value))
	}))
	vf.Made("kvs", out, attrs)
	vf.LoopOver(func(i int, s []attribute.KeyValue) {
		c := vf.Cur[[]*commonv1.KeyValue]()
		vf.Invariant("as many", len(c) == i)
		vf.Invariant("so far", vf.Forall(func(k int) bool {
			vf.Trig(c[k])
			return vf.Implies(0 <= k && k < i, vf.Made("kv", c[k], string(attrs[k].Key), attrs[k].Value))
		}))
	})
}

// the attributes of a set, by its identity
func vfSetLen(s int) int                  { return vf.Fn[int]("attr:len", s) }
func vfSetKey(s, i int) string            { return vf.Fn[string]("attr:key", s, i) }
func vfSetVal(s, i int) attribute.Value   { return vf.Fn[attribute.Value]("attr:val", s, i) }
func vfSetOf(it attribute.Iterator) int   { return vf.Fn[int]("attr:iterSet", it) }
func vfIterPos(it attribute.Iterator) int { return vf.Fn[int]("attr:iterPos", it) }
func vfSetId(s attribute.Set) int         { return vf.Fn[int]("attr:distinct", s) }

//vf:for Iterator
//vf:props C19
func vfAttrIter(iter attribute.Iterator, out []*commonv1.KeyValue) {
	set := vfSetOf(vf.Old(iter))
	vf.Requires("at the start", vfIterPos(iter) == -1)
	vf.Ensures("one each", len(out) == vfSetLen(set))
	vf.Ensures("in order", vf.Forall(func(k int) bool {
		vf.Trig(out[k])
		return vf.Implies(0 <= k && k < len(out), vf.Made("kv", out[k], vfSetKey(set, k), vfSetVal(set, k)))
	}))
	vf.Made("attrs", out, vfSetOf(iter))
	vf.LoopAny(func() {
		c := vf.Cur[[]*commonv1.KeyValue]()
		vf.Invariant("position", vfSetOf(vf.Cur[attribute.Iterator]()) == set && vfIterPos(vf.Cur[attribute.Iterator]()) == len(c)-1 && len(c) <= vfSetLen(set))
		vf.Invariant("so far", vf.Forall(func(k int) bool {
			vf.Trig(c[k])
			return vf.Implies(0 <= k && k < len(c), vf.Made("kv", c[k], vfSetKey(set, k), vfSetVal(set, k)))
		}))
	})
}

//vf:for ResourceAttributes
//vf:props C19
func vfResourceAttributes(res *resource.Resource, out []*commonv1.KeyValue) {
	vf.Ensures("its attributes", vf.Made("attrs", out, res.Equivalent()))
}

//vf:for Resource
//vf:props C19
func vfResource(r *resource.Resource, out *resourcev1.Resource) {
	vf.Ensures("its attributes", vf.Iff(out == nil, r == nil) && vf.Implies(r != nil, vf.Made("attrs", out.Attributes, r.Equivalent())))
	vf.Made("resource", out, r)
}

//vf:for InstrumentationScope
//vf:props C19
func vfScope(il instrumentation.Scope, out *commonv1.InstrumentationScope) {
	vf.Ensures("none", vf.Iff(out == nil, il.Name == "" && il.Version == "" && il.SchemaURL == ""))
	vf.Ensures("name and version", vf.Implies(out != nil, out.Name == il.Name && out.Version == il.Version))
	vf.Made("scope", out, il)
}

//vf:for status
//vf:props C19
func vfStatus(status codes.Code, message string, out *tracev1.Status) {
	vf.Ensures("code and message", out != nil && out.Message == message && out.Code == vf.Ite(status == codes.Ok, tracev1.Status_STATUS_CODE_OK, vf.Ite(status == codes.Error, tracev1.Status_STATUS_CODE_ERROR, tracev1.Status_STATUS_CODE_UNSET)))
}

//vf:for spanKind
//vf:props C19
func vfSpanKind(kind trace.SpanKind, out tracev1.Span_SpanKind) {
	vf.Ensures("internal", vf.Iff(kind == trace.SpanKindInternal, out == tracev1.Span_SPAN_KIND_INTERNAL))
	vf.Ensures("client", vf.Iff(kind == trace.SpanKindClient, out == tracev1.Span_SPAN_KIND_CLIENT))
	vf.Ensures("server", vf.Iff(kind == trace.SpanKindServer, out == tracev1.Span_SPAN_KIND_SERVER))
	vf.Ensures("producer", vf.Iff(kind == trace.SpanKindProducer, out == tracev1.Span_SPAN_KIND_PRODUCER))
	vf.Ensures("consumer", vf.Iff(kind == trace.SpanKindConsumer, out == tracev1.Span_SPAN_KIND_CONSUMER))
	vf.Ensures("or nothing", vf.Implies(kind < 1 || kind > 5, out == tracev1.Span_SPAN_KIND_UNSPECIFIED))
}

func vfId(b []byte, id string) bool { return vf.Str(b) == id }

func vfLink(o *tracev1.Span_Link, l tracesdk.Link) bool {
	return o != nil && vf.Alloc(o) && vf.Alloc(vf.Array(o.TraceId)) && vf.Alloc(vf.Array(o.SpanId)) &&
		vf.Str(o.TraceId) == vf.Bytes(l.SpanContext.TraceID()) && vf.Str(o.SpanId) == vf.Bytes(l.SpanContext.SpanID()) && o.TraceState == l.SpanContext.TraceState().String() &&
		vf.Made("kvs", o.Attributes, l.Attributes) && o.DroppedAttributesCount == uint32(l.DroppedAttributeCount)
}

//vf:for links
//vf:props C19
func vfLinks(links []tracesdk.Link, out []*tracev1.Span_Link) {
	vf.Ensures("one each", len(out) == len(links))
	vf.Ensures("in order, with its fields", vf.Forall(func(k int) bool {
		vf.Trig(out[k])
		return vf.Implies(0 <= k && k < len(links), vfLink(out[k], links[k]))
	}))
	vf.Made("links", out, links)
	vf.LoopOver(func(i int, s []tracesdk.Link) {
		c := vf.Cur[[]*tracev1.Span_Link]()
		vf.Invariant("as many", len(c) == i)
		vf.Invariant("so far", vf.Forall(func(k int) bool {
			vf.Trig(c[k])
			return vf.Implies(0 <= k && k < i, vfLink(c[k], links[k]))
		}))
	})
}

func vfEvent(o *tracev1.Span_Event, e tracesdk.Event) bool {
	return o != nil && vf.Alloc(o) && o.Name == e.Name && o.TimeUnixNano == uint64(e.Time.UnixNano()) && vf.Made("kvs", o.Attributes, e.Attributes) && o.DroppedAttributesCount == uint32(e.DroppedAttributeCount)
}

//vf:for spanEvents
//vf:props C19
func vfEvents(es []tracesdk.Event, out []*tracev1.Span_Event) {
	vf.Ensures("one each", len(out) == len(es))
	vf.Ensures("in order, with its fields", vf.Forall(func(k int) bool {
		vf.Trig(out[k])
		return vf.Implies(0 <= k && k < len(es), vfEvent(out[k], es[k]))
	}))
	vf.Made("events", out, es)
	vf.LoopAny(func() {
		c := vf.Cur[[]*tracev1.Span_Event]()
		i := vf.Cur[int]()
		vf.Invariant("position", 0 <= i && i <= len(es) && len(c) == len(es))
		vf.Invariant("so far", vf.Forall(func(k int) bool {
			vf.Trig(c[k])
			return vf.Implies(0 <= k && k < i, vfEvent(c[k], es[k]))
		}))
	})
}

//vf:for span
//vf:props C19
func vfSpan(sd tracesdk.ReadOnlySpan, out *tracev1.Span) {
	vf.Ensures("a span", vf.Iff(out == nil, sd == nil))
	vf.Ensures("ids", vf.Implies(sd != nil, vf.Str(out.TraceId) == vf.Bytes(sd.SpanContext().TraceID()) && vf.Str(out.SpanId) == vf.Bytes(sd.SpanContext().SpanID()) && out.TraceState == sd.SpanContext().TraceState().String()))
	vf.Ensures("parent", vf.Implies(sd != nil, vf.Ite(sd.Parent().SpanID().IsValid(), vf.Str(out.ParentSpanId) == vf.Bytes(sd.Parent().SpanID()), len(out.ParentSpanId) == 0)))
	vf.Ensures("name and kind", vf.Implies(sd != nil, out.Name == sd.Name() && vf.Iff(out.Kind == tracev1.Span_SPAN_KIND_INTERNAL, sd.SpanKind() == trace.SpanKindInternal) &&
		vf.Iff(out.Kind == tracev1.Span_SPAN_KIND_CLIENT, sd.SpanKind() == trace.SpanKindClient) && vf.Iff(out.Kind == tracev1.Span_SPAN_KIND_SERVER, sd.SpanKind() == trace.SpanKindServer) &&
		vf.Iff(out.Kind == tracev1.Span_SPAN_KIND_PRODUCER, sd.SpanKind() == trace.SpanKindProducer) && vf.Iff(out.Kind == tracev1.Span_SPAN_KIND_CONSUMER, sd.SpanKind() == trace.SpanKindConsumer)))
	vf.Ensures("times", vf.Implies(sd != nil, out.StartTimeUnixNano == uint64(sd.StartTime().UnixNano()) && out.EndTimeUnixNano == uint64(sd.EndTime().UnixNano())))
	vf.Ensures("status", vf.Implies(sd != nil, out.Status != nil && out.Status.Message == sd.Status().Description &&
		vf.Iff(out.Status.Code == tracev1.Status_STATUS_CODE_OK, sd.Status().Code == codes.Ok) && vf.Iff(out.Status.Code == tracev1.Status_STATUS_CODE_ERROR, sd.Status().Code == codes.Error)))
	vf.Ensures("attributes, events and links", vf.Implies(sd != nil, vf.Made("kvs", out.Attributes, sd.Attributes()) && vf.Made("events", out.Events, sd.Events()) && vf.Made("links", out.Links, sd.Links())))
	vf.Ensures("dropped counts", vf.Implies(sd != nil, out.DroppedAttributesCount == uint32(sd.DroppedAttributes()) && out.DroppedEventsCount == uint32(sd.DroppedEvents()) && out.DroppedLinksCount == uint32(sd.DroppedLinks())))
	vf.Made("span", out, sd)
}
