package x

import (
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/vf"
)

// vfRef is the reference time of a scan: the request's own time or the current
// time, less the offset.
func vfRef(now func() time.Time, scan *v1.Scan) int {
	t := vf.Ite(scan.Now != nil, vf.Nanos(scan.Now.AsTime()), vf.Nanos(now()))
	return t - vf.Ite(scan.Offset != nil, int(scan.Offset.AsDuration()), 0)
}

//vf:for TimeBounds
//vf:props C12 C08 C07 C11
func vfTimeBounds(now func() time.Time, scan *v1.Scan, start, end time.Time) {
	vf.Requires("there is a request", scan != nil)
	vf.Requires("the offset can be negated", scan.Offset.AsDuration() > -1<<63)
	vf.Ensures("an explicit range is its start", vf.Implies(scan.TimeRange != nil, vf.Nanos(start) == vf.Nanos(scan.TimeRange.Start.AsTime())))
	vf.Ensures("an explicit range is its end", vf.Implies(scan.TimeRange != nil, vf.Nanos(end) == vf.Nanos(scan.TimeRange.End.AsTime())))
	vf.Ensures("otherwise the end is the reference time", vf.Implies(scan.TimeRange == nil, vf.Nanos(end) == vfRef(now, scan)))
	vf.Ensures("otherwise the start is fifteen minutes earlier", vf.Implies(scan.TimeRange == nil, vf.Nanos(start) == vfRef(now, scan)-15*60*1000000000))
}
