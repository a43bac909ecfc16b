package dataframe

import (
	"context"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/bitmaps"
	"github.com/gernest/requiemdb/internal/vf"
)

// vfRead06 notes the views that were read, with the set that goes with each.
//
//vf:for (*DataFrame).read
//vf:props C06
//vf:trusted
func vfRead06(df *DataFrame, ctx context.Context, view, set string, columns []int, rows *bitmaps.Bitmap, f ViewFn, err error) {
	vf.Modifies(vf.Ghost("metricsread", "string"), vf.Ghost("tracesread", "string"), vf.Ghost("logsread", "string"))
	vf.Ensures(vf.Implies(set == "sets_metrics_"+view, vf.GhostInt("metricsread", view) == 1))
	vf.Ensures(vf.Implies(set == "sets_traces_"+view, vf.GhostInt("tracesread", view) == 1))
	vf.Ensures(vf.Implies(set == "sets_logs_"+view, vf.GhostInt("logsread", view) == 1))
	vf.Ensures(vf.Forall(func(k string) bool {
		vf.Trig(vf.GhostInt("metricsread", k))
		return vf.Implies(vf.Old(vf.GhostInt("metricsread", k)) == 1, vf.GhostInt("metricsread", k) == 1)
	}))
	vf.Ensures(vf.Forall(func(k string) bool {
		vf.Trig(vf.GhostInt("tracesread", k))
		return vf.Implies(vf.Old(vf.GhostInt("tracesread", k)) == 1, vf.GhostInt("tracesread", k) == 1)
	}))
	vf.Ensures(vf.Forall(func(k string) bool {
		vf.Trig(vf.GhostInt("logsread", k))
		return vf.Implies(vf.Old(vf.GhostInt("logsread", k)) == 1, vf.GhostInt("logsread", k) == 1)
	}))
}

// vfWasRead: the view and the set of the resource were read.
func vfWasRead(r v1.Scan_SCOPE, v string) bool {
	return vf.Implies(r == v1.Scan_METRICS, vf.GhostInt("metricsread", v) == 1) &&
		vf.Implies(r == v1.Scan_TRACES, vf.GhostInt("tracesread", v) == 1) &&
		vf.Implies(r == v1.Scan_LOGS, vf.GhostInt("logsread", v) == 1)
}

//vf:for (*DataFrame).View
//vf:props C06
func vfView06(df *DataFrame, ctx context.Context, resource v1.Scan_SCOPE, start, end time.Time, columns []int, rows *bitmaps.Bitmap, f ViewFn, err error) {
	vf.Modifies(vf.Ghost("metricsread", "string"), vf.Ghost("tracesread", "string"), vf.Ghost("logsread", "string"))
	vf.Ensures("every hour is read", vf.Implies(err == nil, vf.Forall(func(u int) bool {
		vf.Trig(vf.Fn[string]("timefmt", "2006010215", u, 0))
		return vf.Implies(vf.Nanos(start) <= u && u < vf.Nanos(end),
			vfWasRead(resource, "std_"+vf.Fn[string]("timefmt", "2006010215", u, 0)[:4]) ||
				vfWasRead(resource, "std_"+vf.Fn[string]("timefmt", "2006010215", u, 0)[:6]) ||
				vfWasRead(resource, "std_"+vf.Fn[string]("timefmt", "2006010215", u, 0)[:8]) ||
				vfWasRead(resource, "std_"+vf.Fn[string]("timefmt", "2006010215", u, 0)[:10]))
	})))
	vf.LoopOver(func(i int, all []string) {
		vf.Invariant("read", vf.Forall(func(m int) bool {
			vf.Trig(all[m])
			return vf.Implies(0 <= m && m < i, vfWasRead(resource, all[m]))
		}))
	})
}
