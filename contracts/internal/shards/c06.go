package shards

import (
	"time"

	"github.com/gernest/requiemdb/internal/bitmaps"
	"github.com/gernest/requiemdb/internal/vf"
)

// vfRows06 counts the views that are searched.
//
//vf:for (*Shards).rows
//vf:props C06
//vf:trusted
func vfRows06(s *Shards, views []string, columns map[uint64][]uint64, r *bitmaps.Bitmap, err error) {
	vf.Modifies(vf.Ghost("searched", "string"))
	vf.Ensures(vf.Forall(func(m int) bool {
		vf.Trig(views[m])
		return vf.Implies(0 <= m && m < len(views), vf.GhostInt("searched", views[m]) == 1)
	}))
}

//vf:for (*Shards).Rows
//vf:props C06
func vfSearch06(s *Shards, start, end time.Time, columns *bitmaps.Bitmap, r *bitmaps.Bitmap, err error) {
	vf.Modifies(vf.Ghost("searched", "string"))
	vf.Ensures("every hour is searched", vf.Forall(func(u int) bool {
		vf.Trig(vf.Fn[string]("timefmt", "2006010215", u, 0))
		return vf.Implies(vf.Nanos(start) <= u && u < vf.Nanos(end),
			vf.GhostInt("searched", "std_"+vf.Fn[string]("timefmt", "2006010215", u, 0)[:4]) == 1 ||
				vf.GhostInt("searched", "std_"+vf.Fn[string]("timefmt", "2006010215", u, 0)[:6]) == 1 ||
				vf.GhostInt("searched", "std_"+vf.Fn[string]("timefmt", "2006010215", u, 0)[:8]) == 1 ||
				vf.GhostInt("searched", "std_"+vf.Fn[string]("timefmt", "2006010215", u, 0)[:10]) == 1)
	}))
}
