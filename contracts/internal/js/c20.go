package js

import (
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/vf"
	"github.com/jinzhu/now"
)

var _ = now.With

// kept20 says that the filters of before are still there and n are new.
func kept20(s *Scan, n int) bool {
	return len(s.scan.Filters) == vf.Old(len(s.scan.Filters))+n &&
		vf.Forall(func(k int) bool {
			return vf.Implies(0 <= k && k < vf.Old(len(s.scan.Filters)), s.scan.Filters[k] == vf.Old(s.scan.Filters[k]))
		})
}

func last20(s *Scan) *v1.Scan_Filter { return s.scan.Filters[len(s.scan.Filters)-1] }

func isBase20(f *v1.Scan_Filter, p v1.Scan_BaseProp, value string) bool {
	return f != nil && vf.Is[*v1.Scan_Filter_Base](f.Value) && f.Value.(*v1.Scan_Filter_Base).Base.Prop == p && f.Value.(*v1.Scan_Filter_Base).Base.Value == value
}

func isAttr20(f *v1.Scan_Filter, p v1.Scan_AttributeProp, key, value string) bool {
	return f != nil && vf.Is[*v1.Scan_Filter_Attr](f.Value) && f.Value.(*v1.Scan_Filter_Attr).Attr.Prop == p && f.Value.(*v1.Scan_Filter_Attr).Attr.Key == key && f.Value.(*v1.Scan_Filter_Attr).Attr.Value == value
}

func start20(s *Scan) time.Time { return s.scan.TimeRange.Start.AsTime() }
func end20(s *Scan) time.Time   { return s.scan.TimeRange.End.AsTime() }

func scopeOf20(r string, old v1.Scan_SCOPE) v1.Scan_SCOPE {
	return vf.Ite(r == "metrics", v1.Scan_METRICS, vf.Ite(r == "logs", v1.Scan_LOGS, vf.Ite(r == "traces", v1.Scan_TRACES, old)))
}

//vf:for (*Scan).ResourceSchema
//vf:props C20
func vf20ResourceSchema(s *Scan, v string) {
	vf.Ensures("exactly one filter is added", kept20(s, 1))
	vf.Ensures("it is the named one", isBase20(last20(s), v1.Scan_RESOURCE_SCHEMA, v))
	vf.Modifies(s.scan.Filters)
}

//vf:for (*Scan).ScopeSchema
//vf:props C20
func vf20ScopeSchema(s *Scan, v string) {
	vf.Ensures("exactly one filter is added", kept20(s, 1))
	vf.Ensures("it is the named one", isBase20(last20(s), v1.Scan_SCOPE_SCHEMA, v))
	vf.Modifies(s.scan.Filters)
}

//vf:for (*Scan).ScopeName
//vf:props C20
func vf20ScopeName(s *Scan, v string) {
	vf.Ensures("exactly one filter is added", kept20(s, 1))
	vf.Ensures("it is the named one", isBase20(last20(s), v1.Scan_SCOPE_NAME, v))
	vf.Modifies(s.scan.Filters)
}

//vf:for (*Scan).ScopeVersion
//vf:props C20
func vf20ScopeVersion(s *Scan, v string) {
	vf.Ensures("exactly one filter is added", kept20(s, 1))
	vf.Ensures("it is the named one", isBase20(last20(s), v1.Scan_SCOPE_VERSION, v))
	vf.Modifies(s.scan.Filters)
}

//vf:for (*Scan).Name
//vf:props C20
func vf20Name(s *Scan, v string) {
	vf.Ensures("exactly one filter is added", kept20(s, 1))
	vf.Ensures("it is the named one", isBase20(last20(s), v1.Scan_NAME, v))
	vf.Modifies(s.scan.Filters)
}

//vf:for (*Scan).TraceID
//vf:props C20
func vf20TraceID(s *Scan, v string) {
	vf.Ensures("exactly one filter is added", kept20(s, 1))
	vf.Ensures("it is the named one", isBase20(last20(s), v1.Scan_TRACE_ID, v))
	vf.Modifies(s.scan.Filters)
}

//vf:for (*Scan).SpanID
//vf:props C20
func vf20SpanID(s *Scan, v string) {
	vf.Ensures("exactly one filter is added", kept20(s, 1))
	vf.Ensures("it is the named one", isBase20(last20(s), v1.Scan_SPAN_ID, v))
	vf.Modifies(s.scan.Filters)
}

//vf:for (*Scan).ParentSpanID
//vf:props C20
func vf20ParentSpanID(s *Scan, v string) {
	vf.Ensures("exactly one filter is added", kept20(s, 1))
	vf.Ensures("it is the named one", isBase20(last20(s), v1.Scan_PARENT_SPAN_ID, v))
	vf.Modifies(s.scan.Filters)
}

//vf:for (*Scan).LogLevel
//vf:props C20
func vf20LogLevel(s *Scan, v string) {
	vf.Ensures("exactly one filter is added", kept20(s, 1))
	vf.Ensures("it is the named one", isBase20(last20(s), v1.Scan_LOGS_LEVEL, v))
	vf.Modifies(s.scan.Filters)
}

//vf:for (*Scan).ResourceAttr
//vf:props C20
func vf20ResourceAttr(s *Scan, k, v string) {
	vf.Ensures("exactly one filter is added", kept20(s, 1))
	vf.Ensures("it is the named one", isAttr20(last20(s), v1.Scan_RESOURCE_ATTRIBUTES, k, v))
	vf.Modifies(s.scan.Filters)
}

//vf:for (*Scan).ScopeAttr
//vf:props C20
func vf20ScopeAttr(s *Scan, k, v string) {
	vf.Ensures("exactly one filter is added", kept20(s, 1))
	vf.Ensures("it is the named one", isAttr20(last20(s), v1.Scan_SCOPE_ATTRIBUTES, k, v))
	vf.Modifies(s.scan.Filters)
}

//vf:for (*Scan).Attr
//vf:props C20
func vf20Attr(s *Scan, k, v string) {
	vf.Ensures("exactly one filter is added", kept20(s, 1))
	vf.Ensures("it is the named one", isAttr20(last20(s), v1.Scan_ATTRIBUTES, k, v))
	vf.Modifies(s.scan.Filters)
}

//vf:for (*Scan).Limit
//vf:props C20
func vf20Limit(s *Scan, limit int64) {
	vf.Ensures("the limit is set", s.scan.Limit == uint64(limit))
	vf.Modifies(s.scan.Limit)
}

//vf:for (*Scan).Reverse
//vf:props C20
func vf20Reverse(s *Scan) {
	vf.Ensures("reversed", s.scan.Reverse)
	vf.Modifies(s.scan.Reverse)
}

//vf:for (*Scan).Now
//vf:props C20
func vf20Now(s *Scan, ms int64) {
	vf.Ensures("the time is set", s.scan.Now != nil && vf.Nanos(s.scan.Now.AsTime()) == vf.Nanos(time.UnixMilli(ms)))
	vf.Modifies(s.scan.Now)
}

func dur20(d string) int { return vf.ParseDur(d) }

//vf:for (*Scan).Offset
//vf:props C20
func vf20Offset(s *Scan, d string, err error) {
	vf.Ensures("a bad duration is an error", vf.Iff(err == nil, vf.ParseDurOK(d)))
	vf.Ensures("the offset is set", vf.Implies(err == nil, s.scan.Offset != nil && s.scan.Offset.AsDuration() == time.Duration(dur20(d))))
	vf.Ensures("a bad duration changes nothing", vf.Implies(err != nil, s.scan.Offset == vf.Old(s.scan.Offset)))
	vf.Modifies(s.scan.Offset)
}

//vf:for (*Scan).Resource
//vf:props C20
func vf20Resource(s *Scan, r string) {
	vf.Ensures("the resource is set", s.scan.Scope == scopeOf20(r, vf.Old(s.scan.Scope)))
	vf.Modifies(s.scan.Scope)
}

//vf:for (*Scan).TimeRange
//vf:props C20
func vf20TimeRange(s *Scan, from, to int64) {
	vf.Ensures("it starts at the first", vf.Nanos(start20(s)) == vf.Nanos(time.UnixMilli(from)))
	vf.Ensures("it ends at the second", vf.Nanos(end20(s)) == vf.Nanos(time.UnixMilli(to)))
	vf.Ensures("both ends are set", s.scan.TimeRange != nil && s.scan.TimeRange.Start != nil && s.scan.TimeRange.End != nil)
	vf.Modifies(s.scan.TimeRange)
}

//vf:for (*Scan).Today
//vf:props C20
func vf20Today(s *Scan) {
	vf.Ensures("it ends at the current time", vf.Implies(s.o.Now != nil, vf.Nanos(end20(s)) == vf.Nanos(s.o.Now())))
	vf.Ensures("it starts at the boundary", vf.Implies(s.o.Now != nil, vf.Nanos(start20(s)) == vf.Nanos(now.With(s.o.Now()).BeginningOfDay())))
	vf.Ensures("it starts at the boundary before its end", vf.Implies(s.o.Now == nil, vf.Nanos(start20(s)) == vf.Nanos(now.With(end20(s)).BeginningOfDay())))
	vf.Ensures("both ends are set", s.scan.TimeRange != nil && s.scan.TimeRange.Start != nil && s.scan.TimeRange.End != nil)
	vf.Modifies(s.scan.TimeRange)
}

//vf:for (*Scan).ThisWeek
//vf:props C20
func vf20ThisWeek(s *Scan) {
	vf.Ensures("it ends at the current time", vf.Implies(s.o.Now != nil, vf.Nanos(end20(s)) == vf.Nanos(s.o.Now())))
	vf.Ensures("it starts at the boundary", vf.Implies(s.o.Now != nil, vf.Nanos(start20(s)) == vf.Nanos(now.With(s.o.Now()).BeginningOfWeek())))
	vf.Ensures("it starts at the boundary before its end", vf.Implies(s.o.Now == nil, vf.Nanos(start20(s)) == vf.Nanos(now.With(end20(s)).BeginningOfWeek())))
	vf.Ensures("both ends are set", s.scan.TimeRange != nil && s.scan.TimeRange.Start != nil && s.scan.TimeRange.End != nil)
	vf.Modifies(s.scan.TimeRange)
}

//vf:for (*Scan).ThisMonth
//vf:props C20
func vf20ThisMonth(s *Scan) {
	vf.Ensures("it ends at the current time", vf.Implies(s.o.Now != nil, vf.Nanos(end20(s)) == vf.Nanos(s.o.Now())))
	vf.Ensures("it starts at the boundary", vf.Implies(s.o.Now != nil, vf.Nanos(start20(s)) == vf.Nanos(now.With(s.o.Now()).BeginningOfMonth())))
	vf.Ensures("it starts at the boundary before its end", vf.Implies(s.o.Now == nil, vf.Nanos(start20(s)) == vf.Nanos(now.With(end20(s)).BeginningOfMonth())))
	vf.Ensures("both ends are set", s.scan.TimeRange != nil && s.scan.TimeRange.Start != nil && s.scan.TimeRange.End != nil)
	vf.Modifies(s.scan.TimeRange)
}

//vf:for (*Scan).ThisYear
//vf:props C20
func vf20ThisYear(s *Scan) {
	vf.Ensures("it ends at the current time", vf.Implies(s.o.Now != nil, vf.Nanos(end20(s)) == vf.Nanos(s.o.Now())))
	vf.Ensures("it starts at the boundary", vf.Implies(s.o.Now != nil, vf.Nanos(start20(s)) == vf.Nanos(now.With(s.o.Now()).BeginningOfYear())))
	vf.Ensures("it starts at the boundary before its end", vf.Implies(s.o.Now == nil, vf.Nanos(start20(s)) == vf.Nanos(now.With(end20(s)).BeginningOfYear())))
	vf.Ensures("both ends are set", s.scan.TimeRange != nil && s.scan.TimeRange.Start != nil && s.scan.TimeRange.End != nil)
	vf.Modifies(s.scan.TimeRange)
}

//vf:for (*Scan).Ago
//vf:props C20
func vf20Ago(s *Scan, d string, err error) {
	vf.Requires("the duration can be negated", dur20(d) > -1<<63)
	vf.Ensures("a bad duration is an error", vf.Iff(err == nil, vf.ParseDurOK(d)))
	vf.Ensures("it ends at the current time", vf.Implies(err == nil && s.o.Now != nil, vf.Nanos(end20(s)) == vf.Nanos(s.o.Now())))
	vf.Ensures("it starts that long before its end", vf.Implies(err == nil, s.scan.TimeRange != nil && vf.Nanos(start20(s)) == vf.Nanos(end20(s))-dur20(d)))
	vf.Ensures("a bad duration changes nothing", vf.Implies(err != nil, s.scan.TimeRange == vf.Old(s.scan.TimeRange)))
	vf.Modifies(s.scan.TimeRange)
}

//vf:for (*Scan).Create
//vf:props C20
func vf20Create(s *Scan, resource string, r *Scan) {
	vf.Ensures("a new builder", vf.Fresh(r) && vf.Fresh(r.scan) && r.o == s.o)
	vf.Ensures("for the resource", r.scan.Scope == scopeOf20(resource, v1.Scan_SCOPE(0)))
	vf.Ensures("without anything else", len(r.scan.Filters) == 0 && r.scan.TimeRange == nil && r.scan.Limit == 0 && !r.scan.Reverse && r.scan.Now == nil && r.scan.Offset == nil)
	vf.Modifies()
}

//vf:for (*Scan).Scan
//vf:props C20
func vf20Scan(s *Scan, r *v1.Scan) {
	vf.Ensures("the request itself", r == s.scan)
	vf.Modifies()
}
