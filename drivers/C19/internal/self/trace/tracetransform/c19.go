package tracetransform_test

import (
	"fmt"
	"math"
	"math/rand"
	"testing"
	"time"

	"github.com/gernest/requiemdb/internal/self/trace/tracetransform"
	"github.com/gernest/requiemdb/internal/zzvt"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
	"go.opentelemetry.io/otel/sdk/instrumentation"
	"go.opentelemetry.io/otel/sdk/resource"
	tracesdk "go.opentelemetry.io/otel/sdk/trace"
	"go.opentelemetry.io/otel/sdk/trace/tracetest"
	"go.opentelemetry.io/otel/trace"
	cpb "go.opentelemetry.io/proto/otlp/common/v1"
	rpb "go.opentelemetry.io/proto/otlp/resource/v1"
	tpb "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/proto"
)

func av19(v attribute.Value) *cpb.AnyValue {
	var vs []*cpb.AnyValue
	arr := func() *cpb.AnyValue {
		return &cpb.AnyValue{Value: &cpb.AnyValue_ArrayValue{ArrayValue: &cpb.ArrayValue{Values: vs}}}
	}
	switch x := v.AsInterface().(type) {
	case bool:
		return &cpb.AnyValue{Value: &cpb.AnyValue_BoolValue{BoolValue: x}}
	case int64:
		return &cpb.AnyValue{Value: &cpb.AnyValue_IntValue{IntValue: x}}
	case float64:
		return &cpb.AnyValue{Value: &cpb.AnyValue_DoubleValue{DoubleValue: x}}
	case string:
		return &cpb.AnyValue{Value: &cpb.AnyValue_StringValue{StringValue: x}}
	case []bool:
		for _, e := range x {
			vs = append(vs, av19(attribute.BoolValue(e)))
		}
		return arr()
	case []int64:
		for _, e := range x {
			vs = append(vs, av19(attribute.Int64Value(e)))
		}
		return arr()
	case []float64:
		for _, e := range x {
			vs = append(vs, av19(attribute.Float64Value(e)))
		}
		return arr()
	case []string:
		for _, e := range x {
			vs = append(vs, av19(attribute.StringValue(e)))
		}
		return arr()
	}
	return &cpb.AnyValue{Value: &cpb.AnyValue_StringValue{StringValue: "INVALID"}}
}

func kvs19(in []attribute.KeyValue) (out []*cpb.KeyValue) {
	for _, a := range in {
		out = append(out, &cpb.KeyValue{Key: string(a.Key), Value: av19(a.Value)})
	}
	return
}

func attrs19(r *rand.Rand) (o []attribute.KeyValue) {
	for i := r.Intn(4); i > 0; i-- {
		k := attribute.Key(fmt.Sprint("k", r.Intn(3), i))
		var v attribute.Value
		switch r.Intn(9) {
		case 0:
			v = attribute.BoolValue(r.Intn(2) == 0)
		case 1:
			v = attribute.Int64Value(r.Int63() - math.MaxInt64/2)
		case 2:
			v = attribute.Float64Value(r.NormFloat64())
		case 3:
			v = attribute.StringValue([]string{"", "a", "ü"}[r.Intn(3)])
		case 4:
			v = attribute.BoolSliceValue([]bool{true, false, r.Intn(2) == 0}[:r.Intn(4)])
		case 5:
			v = attribute.Int64SliceValue([]int64{1, r.Int63(), -1}[:r.Intn(4)])
		case 6:
			v = attribute.Float64SliceValue([]float64{1, r.NormFloat64(), -1}[:r.Intn(4)])
		case 7:
			v = attribute.StringSliceValue([]string{"a", "", "b"}[:r.Intn(4)])
		}
		o = append(o, attribute.KeyValue{Key: k, Value: v})
	}
	return
}

func ctx19(r *rand.Rand) trace.SpanContext {
	var c trace.SpanContextConfig
	if r.Intn(4) > 0 {
		r.Read(c.TraceID[:])
	}
	switch r.Intn(4) {
	case 0:
	case 1:
		c.SpanID[r.Intn(8)] = 1
	default:
		r.Read(c.SpanID[:])
	}
	c.TraceState, _ = trace.ParseTraceState([]string{"", "a=b", "a=b,c=d"}[r.Intn(3)])
	c.TraceFlags = trace.TraceFlags(r.Intn(2))
	c.Remote = r.Intn(2) == 0
	return trace.NewSpanContext(c)
}

func time19(r *rand.Rand) time.Time { return time.Unix(0, r.Int63()).In(time.FixedZone("x", r.Intn(9000))) }

func id19[T [8]byte | [16]byte](id T) []byte {
	switch x := any(id).(type) {
	case [8]byte:
		return append([]byte{}, x[:]...)
	case [16]byte:
		return append([]byte{}, x[:]...)
	}
	return nil
}

func stub19(r *rand.Rand, rs []*resource.Resource) (tracetest.SpanStub, *tpb.Span) {
	s := tracetest.SpanStub{
		Name: fmt.Sprint("span", r.Intn(1000000)), SpanContext: ctx19(r), Parent: ctx19(r), SpanKind: trace.SpanKind(r.Intn(8)), StartTime: time19(r), EndTime: time19(r),
		Attributes: attrs19(r), Status: tracesdk.Status{Code: codes.Code(r.Intn(4)), Description: []string{"", "why"}[r.Intn(2)]},
		DroppedAttributes: r.Intn(3), DroppedEvents: r.Intn(9), DroppedLinks: r.Intn(5), ChildSpanCount: r.Intn(3),
		Resource:               rs[r.Intn(len(rs))],
		InstrumentationLibrary: instrumentation.Scope{Name: []string{"", "s", "t"}[r.Intn(3)], Version: []string{"", "1"}[r.Intn(2)], SchemaURL: []string{"", "x"}[r.Intn(2)]},
	}
	o := &tpb.Span{
		Name: s.Name, TraceId: id19([16]byte(s.SpanContext.TraceID())), SpanId: id19([8]byte(s.SpanContext.SpanID())), TraceState: s.SpanContext.TraceState().String(),
		StartTimeUnixNano: uint64(s.StartTime.UnixNano()), EndTimeUnixNano: uint64(s.EndTime.UnixNano()), Attributes: kvs19(s.Attributes),
		DroppedAttributesCount: uint32(s.DroppedAttributes), DroppedEventsCount: uint32(s.DroppedEvents), DroppedLinksCount: uint32(s.DroppedLinks),
		Status: &tpb.Status{Message: s.Status.Description},
	}
	if p := [8]byte(s.Parent.SpanID()); p != [8]byte{} {
		o.ParentSpanId = id19(p)
	}
	// SDK: unset, error, ok; wire: unset, ok, error
	o.Status.Code = map[codes.Code]tpb.Status_StatusCode{codes.Error: 2, codes.Ok: 1}[s.Status.Code]
	// SDK: unspecified, internal, server, client, producer, consumer
	o.Kind = map[trace.SpanKind]tpb.Span_SpanKind{1: 1, 2: 2, 3: 3, 4: 4, 5: 5}[s.SpanKind]
	for i := r.Intn(4); i > 0; i-- {
		l := tracesdk.Link{SpanContext: ctx19(r), Attributes: attrs19(r), DroppedAttributeCount: r.Intn(4)}
		s.Links = append(s.Links, l)
		o.Links = append(o.Links, &tpb.Span_Link{TraceId: id19([16]byte(l.SpanContext.TraceID())), SpanId: id19([8]byte(l.SpanContext.SpanID())),
			TraceState: l.SpanContext.TraceState().String(), Attributes: kvs19(l.Attributes), DroppedAttributesCount: uint32(l.DroppedAttributeCount)})
	}
	for i := r.Intn(4); i > 0; i-- {
		e := tracesdk.Event{Name: fmt.Sprint("e", r.Intn(3)), Time: time19(r), Attributes: attrs19(r), DroppedAttributeCount: r.Intn(4)}
		s.Events = append(s.Events, e)
		o.Events = append(o.Events, &tpb.Span_Event{Name: e.Name, TimeUnixNano: uint64(e.Time.UnixNano()), Attributes: kvs19(e.Attributes), DroppedAttributesCount: uint32(e.DroppedAttributeCount)})
	}
	return s, o
}

func TestVerifC19Spans(t *testing.T) {
	var st zzvt.Stat
	defer st.Report(t)
	r := zzvt.Rand("c19")
	for c := 0; c < zzvt.N(3000); c++ {
		var rs []*resource.Resource
		for i := 0; i <= r.Intn(4); i++ {
			switch r.Intn(6) {
			case 0:
				rs = append(rs, nil)
			case 1:
				rs = append(rs, resource.Empty())
			default:
				rs = append(rs, resource.NewWithAttributes([]string{"", "u", "v"}[r.Intn(3)], attribute.Int("k", r.Intn(2)), attribute.String("s", []string{"", "a"}[r.Intn(2)])))
			}
		}
		var in []tracesdk.ReadOnlySpan
		// a span belongs to the text of its resource and scope
		want := map[string]*tpb.ScopeSpans{}
		res := map[string]*tpb.ResourceSpans{}
		type rk struct{ r string }
		name := func(r *resource.Resource) string { return fmt.Sprintf("%q %q", r.SchemaURL(), r.Encoded(attribute.DefaultEncoder())) }
		desc := ""
		for i := r.Intn(9); i > 0; i-- {
			if r.Intn(9) == 0 {
				in = append(in, nil)
				continue
			}
			s, o := stub19(r, rs)
			in = append(in, s.Snapshot())
			n := name(s.Resource)
			k := fmt.Sprintf("%s %q", n, s.InstrumentationLibrary)
			desc += k + o.String() + "\n"
			if res[n] == nil {
				res[n] = &tpb.ResourceSpans{SchemaUrl: s.Resource.SchemaURL(), Resource: &rpb.Resource{Attributes: kvs19(s.Resource.Attributes())}}
			}
			if want[k] == nil {
				want[k] = &tpb.ScopeSpans{SchemaUrl: s.InstrumentationLibrary.SchemaURL}
				if s.InstrumentationLibrary != (instrumentation.Scope{}) {
					want[k].Scope = &cpb.InstrumentationScope{Name: s.InstrumentationLibrary.Name, Version: s.InstrumentationLibrary.Version}
				}
				res[n].ScopeSpans = append(res[n].ScopeSpans, want[k])
			}
			want[k].Spans = append(want[k].Spans, o)
		}
		got := tracetransform.Spans(in)
		st.Case(desc)
		if len(got) != len(res) {
			t.Fatalf("case %d: %d groups of %d resources\n%s\n%v", c, len(got), len(res), desc, got)
		}
		for n, w := range res {
			hit := 0
			for _, g := range got {
				x := proto.Clone(g).(*tpb.ResourceSpans)
				if x.Resource == nil {
					// no resource and an empty one are the same
					x.Resource = &rpb.Resource{}
				}
				if proto.Equal(x, w) {
					hit++
				}
			}
			if hit != 1 {
				t.Fatalf("case %d: %d groups of resource %s are right\nwant %v\ngot %v", c, hit, n, w, got)
			}
		}
	}
}
