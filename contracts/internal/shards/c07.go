package shards

import (
	"time"

	"github.com/gernest/rbf"
	"github.com/gernest/rbf/cfg"
	"github.com/gernest/requiemdb/internal/bitmaps"
	"github.com/gernest/requiemdb/internal/vf"
	"github.com/gernest/roaring"
)

func vfPath(s *Shards, k uint64) string { return vf.Fn[string]("join2", s.dir, vf.Dec(k)) }

// vfOpen: open databases are those of their shards.
func vfOpen(s *Shards) bool {
	return s.db != nil && vf.Forall(func(k uint64) bool {
		vf.Trig(vf.Has(s.db, k))
		return vf.Implies(vf.Has(s.db, k), s.db[k] != nil && vf.Fn[string]("rbf:path", s.db[k]) == vfPath(s, k))
	})
}

//vf:for New
//vf:props C07
func vfNew07(path string, config *cfg.Config, s *Shards) {
	vf.Ensures("nothing is open", s != nil && vfOpen(s))
}

//vf:for (*Shards).get
//vf:props C07
func vfGet07(s *Shards, k uint64, r *rbf.DB, err error) {
	vf.Requires("open databases", s != nil && vfOpen(s))
	vf.Modifies(vf.MapOf(s.db))
	vf.Ensures("open databases", vfOpen(s))
	vf.Ensures("of that shard", vf.Implies(err == nil, r != nil && vf.Fn[string]("rbf:path", r) == vfPath(s, k)))
}

//vf:for (*Shards).lookup
//vf:props C07
//vf:optional
func vfLookup07(s *Shards, k uint64, r *rbf.DB, err error) {
	vf.Assume("there are no bits in a missing database", vf.Forall(func(p, v string, u, c uint64) bool {
		vf.Trig(vf.Fn[bool]("rbf:bit", p, v, u, c))
		return vf.Implies(vf.Fn[bool]("rbf:bit", p, v, u, c), vf.Fn[bool]("os:exists", p))
	}))
	vf.Requires("open databases", s != nil && vfOpen(s))
	vf.Modifies(vf.MapOf(s.db))
	vf.Ensures("open databases", vfOpen(s))
	vf.Ensures("of that shard", vf.Implies(err == nil && r != nil, vf.Fn[string]("rbf:path", r) == vfPath(s, k)))
	vf.Ensures("or it has no bits", vf.Implies(err == nil && r == nil, vf.Forall(func(v string, u, c uint64) bool {
		vf.Trig(vf.Fn[bool]("rbf:bit", vfPath(s, k), v, u, c))
		return !vf.Fn[bool]("rbf:bit", vfPath(s, k), v, u, c)
	})))
}

func vfAsk(u uint64) bool { return vf.Fn[bool]("ask", u) }

// vfAll: row u of the view has all columns of the shard.
func vfAll(s *Shards, v string, columns map[uint64][]uint64, k, u uint64) bool {
	return vf.Forall(func(i int) bool {
		vf.Trig(columns[k][i])
		return vf.Implies(0 <= i && i < len(columns[k]), vf.Fn[bool]("rbf:bit", vfPath(s, k), v, u, columns[k][i]%1048576))
	})
}

// vfSome: one of the first n views has all columns of the shard in row u.
func vfSome(s *Shards, views []string, n int, columns map[uint64][]uint64, k, u uint64) bool {
	return vf.Exists(func(m int) bool { return 0 <= m && m < n && vfAll(s, views[m], columns, k, u) })
}

//vf:for (*Shards).rows
//vf:props C07
func vfRows07(s *Shards, views []string, columns map[uint64][]uint64, r *bitmaps.Bitmap, err error) {
	vf.Requires("open databases", s != nil && vfOpen(s))
	vf.Requires("shards have columns", vf.Forall(func(k uint64) bool {
		vf.Trig(vf.Has(columns, k))
		return vf.Implies(vf.Has(columns, k), len(columns[k]) > 0)
	}))
	vf.Modifies(vf.MapOf(s.db))
	vf.Ensures("open databases", vfOpen(s))
	vf.Ensures("it is new", vf.Implies(r != nil, vf.Owned(r)))
	vf.Ensures("every match is found", vf.Forall(func(u uint64) bool {
		vf.Trig(vfAsk(u))
		return vf.Implies(err == nil && vfAsk(u) && vf.Exists(func(k uint64) bool { return vf.Has(columns, k) }) && vf.Forall(func(k uint64) bool {
			vf.Trig(vf.Has(columns, k))
			return vf.Implies(vf.Has(columns, k), vfSome(s, views, len(views), columns, k, u))
		}), r != nil && vf.In(&r.Bitmap, u))
	}))
	vf.Ensures("only matches are found", vf.Forall(func(u, k uint64) bool {
		vf.Trig(vfAsk(u), vf.Has(columns, k))
		return vf.Implies(err == nil && vfAsk(u) && r != nil && vf.In(&r.Bitmap, u) && vf.Has(columns, k), vfSome(s, views, len(views), columns, k, u))
	}))
	vf.LoopMap(func(_ int, m map[uint64][]uint64) {
		r := vf.Cur[*bitmaps.Bitmap]("r")
		vf.Invariant("open databases", vfOpen(s))
		vf.Invariant("it is new", vf.Implies(r != nil, vf.Owned(r)))
		vf.Invariant("none yet", vf.Iff(r == nil, vf.Forall(func(k uint64) bool { return vf.Implies(vf.Has(columns, k), !vf.Visited(k)) })))
		vf.Invariant("found", vf.Forall(func(u uint64) bool {
			vf.Trig(vfAsk(u))
			return vf.Implies(r != nil && vfAsk(u) && vf.Forall(func(k uint64) bool {
				vf.Trig(vf.Has(columns, k))
				return vf.Implies(vf.Has(columns, k) && vf.Visited(k), vfSome(s, views, len(views), columns, k, u))
			}), vf.In(&r.Bitmap, u))
		}))
		vf.Invariant("only", vf.Forall(func(u, k uint64) bool {
			vf.Trig(vfAsk(u), vf.Has(columns, k))
			return vf.Implies(r != nil && vfAsk(u) && vf.In(&r.Bitmap, u) && vf.Has(columns, k) && vf.Visited(k), vfSome(s, views, len(views), columns, k, u))
		}))
	})
	vf.LoopOver(func(i int, f []uint64) {
		fs := vf.Cur[[]roaring.BitmapFilter]("fs")
		vf.Invariant("as many filters", len(fs) == i)
		vf.Invariant("the columns", vf.Forall(func(j int) bool {
			vf.Trig(fs[j])
			vf.Trig(f[j])
			return vf.Implies(0 <= j && j < i, vf.Fn[uint64]("rbf:col", vf.Ref(fs[j])) == f[j]%1048576)
		}))
	})
	vf.LoopOver(func(n int, views []string) {
		b := vf.Cur[*bitmaps.Bitmap]("b")
		k := vf.Cur[uint64]("k")
		vf.Invariant("of the views", vf.Forall(func(u uint64) bool {
			vf.Trig(vfAsk(u))
			return vf.Implies(vfAsk(u) && vf.In(&b.Bitmap, u), vfSome(s, views, n, columns, k, u))
		}))
		vf.Invariant("all of the views", vf.Forall(func(u uint64, m int) bool {
			vf.Trig(vfAsk(u), views[m])
			return vf.Implies(vfAsk(u) && 0 <= m && m < n && vfAll(s, views[m], columns, k, u), vf.In(&b.Bitmap, u))
		}))
	})
}

// vfHasAll: row u of the view has all columns of c's shard.
func vfHasAll(s *Shards, v string, columns *bitmaps.Bitmap, c, u uint64) bool {
	return vf.Forall(func(d uint64) bool {
		vf.Trig(vf.In(&columns.Bitmap, d))
		return vf.Implies(vf.In(&columns.Bitmap, d) && d/1048576 == c/1048576, vf.Fn[bool]("rbf:bit", vfPath(s, c/1048576), v, u, d%1048576))
	})
}

func vfMatch(s *Shards, start, end time.Time, columns *bitmaps.Bitmap, c, u uint64) bool {
	return vf.Exists(func(m int) bool {
		return 0 <= m && m < vf.Fn[int]("views:n", start, end) && vfHasAll(s, vf.Fn[string]("views:at", start, end, m), columns, c, u)
	})
}

//vf:for (*Shards).Rows
//vf:props C07
func vfSearch07(s *Shards, start, end time.Time, columns *bitmaps.Bitmap, r *bitmaps.Bitmap, err error) {
	vf.Requires(s != nil && vfOpen(s) && columns != nil)
	vf.Modifies(vf.MapOf(s.db))
	vf.Ensures("open databases", vfOpen(s))
	vf.Ensures("it is new", vf.Implies(r != nil, vf.Owned(r)))
	vf.Ensures("only matches are found", vf.Forall(func(u, c uint64) bool {
		vf.Trig(vfAsk(u), vf.In(&columns.Bitmap, c))
		return vf.Implies(err == nil && vfAsk(u) && r != nil && vf.In(&r.Bitmap, u) && vf.In(&columns.Bitmap, c), vfMatch(s, start, end, columns, c, u))
	}))
	vf.Ensures("every match is found", vf.Forall(func(u uint64) bool {
		vf.Trig(vfAsk(u))
		return vf.Implies(err == nil && vfAsk(u) && vf.Exists(func(c uint64) bool { return vf.In(&columns.Bitmap, c) }) && vf.Forall(func(c uint64) bool {
			vf.Trig(vf.In(&columns.Bitmap, c))
			return vf.Implies(vf.In(&columns.Bitmap, c), vfMatch(s, start, end, columns, c, u))
		}), r != nil && vf.In(&r.Bitmap, u))
	}))
	vf.LoopIter(func(pos uint64) {
		m := vf.Cur[map[uint64][]uint64]("m")
		vf.Invariant("shards have columns", vf.Forall(func(k uint64) bool {
			vf.Trig(vf.Has(m, k))
			return vf.Implies(vf.Has(m, k), len(m[k]) > 0)
		}))
		vf.Invariant("of the filters", vf.Forall(func(k uint64, i int) bool {
			vf.Trig(m[k][i])
			return vf.Implies(vf.Has(m, k) && 0 <= i && i < len(m[k]), vf.In(&columns.Bitmap, m[k][i]) && m[k][i]/1048576 == k)
		}))
		vf.Invariant("all of them", vf.Forall(func(c uint64) bool {
			vf.Trig(vf.In(&columns.Bitmap, c))
			return vf.Implies(vf.In(&columns.Bitmap, c) && c < pos, vf.Has(m, c/1048576) && vf.Exists(func(i int) bool {
				return 0 <= i && i < len(m[c/1048576]) && m[c/1048576][i] == c
			}))
		}))
	})
}
