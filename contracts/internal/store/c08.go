package store

import (
	"context"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/bitmaps"
	"github.com/gernest/requiemdb/internal/data"
	"github.com/gernest/requiemdb/internal/dataframe"
	"github.com/gernest/requiemdb/internal/shards"
	"github.com/gernest/requiemdb/internal/translate"
	"github.com/gernest/requiemdb/internal/vf"
)

//vf:for (*Storage).CompileFilters
//vf:props C08
func vfCompileFilters08(s *Storage, scan *v1.Scan, r *bitmaps.Bitmap, err error) {
	vf.Requires(s != nil && scan != nil && r != nil && translate.VfT(s.translate))
	vf.Requires("nothing failed yet", vf.GhostInt("failed") == 0)
	vf.Requires("filters have values", vf.Forall(func(m int) bool {
		vf.Trig(scan.Filters[m])
		return vf.Implies(0 <= m && m < len(scan.Filters), vfIsFilter(scan, m))
	}))
	vf.Modifies(r.Bitmap, vf.Ghost("failed"))
	vf.Ensures("failures are reported", vf.Implies(err == nil, vf.GhostInt("failed") == 0))
	vf.LoopOver(func(i int, fs []*v1.Scan_Filter) {
		vf.Invariant("nothing failed", vf.GhostInt("failed") == 0)
	})
}

//vf:for (*Storage).Scan
//vf:props C08
//vf:flag noframe
func vfScan08(s *Storage, ctx context.Context, scan *v1.Scan, result *v1.Data, err error) {
	vf.Requires(s != nil && scan != nil && s.rdb != nil && s.frame != nil && shards.VfOpened(s.rdb) && translate.VfT(s.translate))
	vf.Requires("frame", dataframe.VfFrame(s.frame))
	vf.Requires("a resource", scan.Scope == v1.Scan_METRICS || scan.Scope == v1.Scan_TRACES || scan.Scope == v1.Scan_LOGS)
	vf.Requires("the offset can be negated", scan.Offset.AsDuration() > -1<<63)
	vf.Requires("nothing failed yet", vf.GhostInt("failed") == 0)
	vf.Requires("filters have values", vf.Forall(func(m int) bool {
		vf.Trig(scan.Filters[m])
		return vf.Implies(0 <= m && m < len(scan.Filters), vfIsFilter(scan, m))
	}))
	vf.Requires("sets", dataframe.VfSets())
	vf.Ensures("failures are reported", vf.Implies(err == nil, vf.GhostInt("failed") == 0))
	vf.Ensures("of the kind asked for", vf.Implies(err == nil, data.VfKind(result, v1.RESOURCE(scan.Scope))))
}
