package shards

import (
	"time"

	"github.com/gernest/rbf"
	"github.com/gernest/requiemdb/internal/bitmaps"
	"github.com/gernest/requiemdb/internal/vf"
)

func vfOpened(s *Shards) bool {
	return s.db != nil && vf.Forall(func(k uint64) bool {
		vf.Trig(vf.Has(s.db, k))
		return vf.Implies(vf.Has(s.db, k), s.db[k] != nil)
	})
}

//vf:for (*Shards).get
//vf:props C08
func vfGet08(s *Shards, k uint64, r *rbf.DB, err error) {
	vf.Requires("open databases", s != nil && vfOpened(s))
	vf.Requires("nothing failed yet", vf.GhostInt("failed") == 0)
	vf.Modifies(vf.MapOf(s.db), vf.Ghost("failed"))
	vf.Ensures("open databases", vfOpened(s) && vf.Implies(err == nil, r != nil))
	vf.Ensures("failures are reported", vf.Implies(err == nil, vf.GhostInt("failed") == 0))
}

//vf:for (*Shards).lookup
//vf:props C08
//vf:optional
func vfLookup08(s *Shards, k uint64, r *rbf.DB, err error) {
	vf.Requires("open databases", s != nil && vfOpened(s))
	vf.Requires("nothing failed yet", vf.GhostInt("failed") == 0)
	vf.Modifies(vf.MapOf(s.db), vf.Ghost("failed"))
	vf.Ensures("open databases", vfOpened(s))
	vf.Ensures("failures are reported", vf.Implies(err == nil, vf.GhostInt("failed") == 0))
}

//vf:for (*Shards).rows
//vf:props C08
func vfRows08(s *Shards, views []string, columns map[uint64][]uint64, r *bitmaps.Bitmap, err error) {
	vf.Requires("open databases", s != nil && vfOpened(s))
	vf.Requires("nothing failed yet", vf.GhostInt("failed") == 0)
	vf.Modifies(vf.MapOf(s.db), vf.Ghost("failed"))
	vf.Ensures("open databases", vfOpened(s))
	vf.Ensures("it is new", vf.Implies(r != nil, vf.Owned(r)))
	vf.Ensures("failures are reported", vf.Implies(err == nil, vf.GhostInt("failed") == 0))
	vf.LoopMap(func(_ int, m map[uint64][]uint64) {
		r := vf.Cur[*bitmaps.Bitmap]("r")
		vf.Invariant("open databases", vfOpened(s))
		vf.Invariant("it is new", vf.Implies(r != nil, vf.Owned(r)))
		vf.Invariant("nothing failed", vf.GhostInt("failed") == 0)
	})
	vf.LoopOver(func(i int, f []uint64) {})
	vf.LoopOver(func(n int, views []string) {
		vf.Invariant("nothing failed", vf.GhostInt("failed") == 0)
	})
}

//vf:for (*Shards).Rows
//vf:props C08
func vfSearch08(s *Shards, start, end time.Time, columns *bitmaps.Bitmap, r *bitmaps.Bitmap, err error) {
	vf.Requires(s != nil && vfOpened(s) && columns != nil)
	vf.Requires("nothing failed yet", vf.GhostInt("failed") == 0)
	vf.Modifies(vf.MapOf(s.db), vf.Ghost("failed"))
	vf.Ensures("open databases", vfOpened(s))
	vf.Ensures("it is new", vf.Implies(r != nil, vf.Owned(r)))
	vf.Ensures("failures are reported", vf.Implies(err == nil, vf.GhostInt("failed") == 0))
	vf.LoopIter(func(pos uint64) {})
}

// VfOpened: open databases are not nil.
func VfOpened(s *Shards) bool { return vfOpened(s) }
