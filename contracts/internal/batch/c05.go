package batch

import (
	"time"

	"github.com/gernest/rbf/quantum"
	"github.com/gernest/requiemdb/internal/bitmaps"
	"github.com/gernest/requiemdb/internal/vf"
	"github.com/gernest/roaring"
)

// vfView is the view of the first k digits of a quantized time.
func vfView(q *QuantizedTime, k int) string { return "std_" + vf.Str(q.ymdh[:k]) }

func vfIsView(q *QuantizedTime, v string) bool {
	return v == vfView(q, 4) || v == vfView(q, 6) || v == vfView(q, 8) || v == vfView(q, 10)
}

func vfPos(id, col uint64) uint64 { return id*1048576 + col%1048576 }

// vfAsk and vfWant are arbitrary predicates: a statement guarded by one holds
// for every value, and is only used for the values a goal mentions.
func vfAsk(s uint64, v string, p uint64) bool { return vf.Fn[bool]("ask", s, v, p) }
func vfWant(j int, col uint64) bool           { return vf.Fn[bool]("want", j, col) }

func vfBit(f Fragments, s uint64, v string, p uint64) bool {
	return vf.Has(f, s) && vf.Has(f[s], v) && vf.In(f[s][v], p)
}

func vfGot(f Fragments, s uint64, v string, p uint64) bool {
	return vf.Implies(vfAsk(s, v, p), vfBit(f, s, v, p))
}

// vfFrags: there are no nil maps or bitmaps and no two fragments share one.
func vfFrags(f Fragments) bool {
	return f != nil &&
		vf.Forall(func(s uint64) bool {
			vf.Trig(vf.Has(f, s))
			return vf.Implies(vf.Has(f, s), f[s] != nil)
		}) &&
		vf.Forall(func(s uint64, v string) bool {
			vf.Trig(f[s][v])
			return vf.Implies(vf.Has(f, s) && vf.Has(f[s], v), f[s][v] != nil)
		}) &&
		vf.Forall(func(s, t uint64, v string, p uint64) bool {
			vf.Trig(vfAsk(s, v, p), vf.Ref(f[t]))
			return vf.Implies(vfAsk(s, v, p) && vf.Has(f, s) && vf.Has(f, t) && s != t, vf.Ref(f[s]) != vf.Ref(f[t]))
		}) &&
		vf.Forall(func(s, t uint64, v, w string, p uint64) bool {
			vf.Trig(vfAsk(s, v, p), vf.Ref(f[t][w]))
			return vf.Implies(vfAsk(s, v, p) && vf.Has(f, s) && vf.Has(f[s], v) && vf.Has(f, t) && vf.Has(f[t], w) && (s != t || v != w), vf.Ref(f[s][v]) != vf.Ref(f[t][w]))
		})
}

//vf:for (Fragments).GetOrCreate
//vf:props C05
func vfGetOrCreate(f Fragments, shard uint64, view string, r *roaring.Bitmap) {
	vf.Requires(vfFrags(f))
	vf.Modifies(vf.MapOf(f), vf.AnyOf[map[string]*roaring.Bitmap]())
	vf.Ensures("distinct fragments", vfFrags(f))
	vf.Ensures("it is the fragment", vf.Has(f, shard) && vf.Has(f[shard], view) && vf.Ref(f[shard][view]) == vf.Ref(r) && r != nil)
	vf.Ensures("bits are kept", vf.Forall(func(s uint64, v string, p uint64) bool {
		vf.Trig(vfAsk(s, v, p))
		return vf.Implies(vfAsk(s, v, p), vf.Iff(vfBit(f, s, v, p), vf.Old(vfBit(f, s, v, p))))
	}))
}

// vfHour: year, month, day and hour are those of t.
func vfHour(q *QuantizedTime, t time.Time) bool {
	return vf.Str(q.ymdh[:]) == vf.Fn[string]("timefmt", "2006010215", t) &&
		vf.Str(q.ymdh[:8]) == vf.Fn[string]("timefmt", "2006010215", t)[:8] &&
		vf.Str(q.ymdh[:6]) == vf.Fn[string]("timefmt", "2006010215", t)[:6] &&
		vf.Str(q.ymdh[:4]) == vf.Fn[string]("timefmt", "2006010215", t)[:4] &&
		q.ymdh[0] != 0 && q.ymdh[4] != 0 && q.ymdh[6] != 0 && q.ymdh[8] != 0
}

//vf:for (*QuantizedTime).Set
//vf:props C05
func vfSet(qt *QuantizedTime, t time.Time) {
	vf.Requires(qt != nil)
	vf.Modifies(qt.ymdh)
	vf.Ensures("the hour", vfHour(qt, t))
}

func vfAmong(vs []string, v string) bool {
	return vs[0] == v || vs[1] == v || vs[2] == v || vs[3] == v
}

//vf:for (*QuantizedTime).Views
//vf:props C05
func vfViews(qt *QuantizedTime, q quantum.TimeQuantum, vs []string, err error) {
	vf.Requires(qt != nil && string(q) == "YMDH")
	vf.Requires(qt.ymdh[0] != 0 && qt.ymdh[4] != 0 && qt.ymdh[6] != 0 && qt.ymdh[8] != 0)
	vf.Ensures("no error", err == nil)
	vf.Ensures("four views", len(vs) == 4)
	vf.Ensures("year", vfAmong(vs, vfView(qt, 4)))
	vf.Ensures("month", vfAmong(vs, vfView(qt, 6)))
	vf.Ensures("day", vfAmong(vs, vfView(qt, 8)))
	vf.Ensures("hour", vfAmong(vs, vfView(qt, 10)))
	vf.Ensures("no other", vf.Forall(func(m int) bool {
		vf.Trig(vs[m])
		return vf.Implies(0 <= m && m < 4, vfIsView(qt, vs[m]))
	}))
}

//vf:for (*Batch).Add
//vf:props C05
func vfAdd(b *Batch, id uint64, ts time.Time, labels *bitmaps.Bitmap) {
	vf.Requires(b != nil && vfBatch(b))
	vf.Requires("ids stay below 2^44", id < 17592186044416)
	vf.Modifies(b.ids, b.labels, b.times, vf.Elems(b.ids), vf.Elems(b.labels), vf.Elems(b.times))
	vf.Ensures("one more", len(b.ids) == vf.Old(len(b.ids))+1 && vfBatch(b))
	vf.Ensures("the id", b.ids[len(b.ids)-1] == id)
	vf.Ensures("the columns", vf.Ref(b.labels[len(b.ids)-1]) == vf.Ref(labels))
	vf.Ensures("the hour", vfHour(b.times[len(b.ids)-1], ts))
	vf.Ensures("the others are kept", vf.Forall(func(j int) bool {
		return vf.Implies(0 <= j && j < vf.Old(len(b.ids)), b.ids[j] == vf.Old(b.ids[j]) && vf.Ref(b.labels[j]) == vf.Old(vf.Ref(b.labels[j])) &&
			vf.Ref(b.times[j]) == vf.Old(vf.Ref(b.times[j])) && vf.Str(b.times[j].ymdh[:]) == vf.Old(vf.Str(b.times[j].ymdh[:])))
	}))
}

// vfBatch: the parallel lists are complete.
func vfBatch(b *Batch) bool {
	return len(b.ids) == len(b.labels) && len(b.ids) == len(b.times) &&
		vf.Forall(func(j int) bool {
			return vf.Implies(0 <= j && j < len(b.ids), b.ids[j] < 17592186044416 && b.times[j] != nil && b.times[j].ymdh[0] != 0 && b.times[j].ymdh[4] != 0 && b.times[j].ymdh[6] != 0 && b.times[j].ymdh[8] != 0)
		})
}

func vfHit(b *Batch, j int, s uint64, v string, p uint64) bool {
	return vf.Exists(func(col uint64) bool {
		return b.labels[j] != nil && vf.In(&b.labels[j].Bitmap, col) && s == col/1048576 && p == vfPos(b.ids[j], col) && vfIsView(b.times[j], v)
	})
}

func vfCov(b *Batch, j int, col uint64, f Fragments) bool {
	return vfGot(f, col/1048576, vfView(b.times[j], 4), vfPos(b.ids[j], col)) &&
		vfGot(f, col/1048576, vfView(b.times[j], 6), vfPos(b.ids[j], col)) &&
		vfGot(f, col/1048576, vfView(b.times[j], 8), vfPos(b.ids[j], col)) &&
		vfGot(f, col/1048576, vfView(b.times[j], 10), vfPos(b.ids[j], col))
}

//vf:for (*Batch).makeFragments
//vf:props C05
func vfMakeFragments(b *Batch, o Fragments, err error) {
	vf.Requires(b != nil && vfBatch(b) && vfFrags(b.frags))
	vf.Requires("nothing is pending", vf.Forall(func(s uint64) bool { return !vf.Has(b.frags, s) }))
	vf.Modifies(vf.AnyOf[map[uint64]map[string]*roaring.Bitmap](), vf.AnyOf[map[string]*roaring.Bitmap](), vf.AnyOf[roaring.Bitmap]())
	vf.Ensures("no error", err == nil)
	vf.Ensures("the fragments", vf.Ref(o) == vf.Ref(b.frags))
	vf.Ensures("every column is set", vf.Forall(func(j int, col uint64) bool {
		vf.Trig(vfWant(j, col))
		return vf.Implies(vfWant(j, col) && 0 <= j && j < len(b.ids) && b.labels[j] != nil && vf.In(&b.labels[j].Bitmap, col), vfCov(b, j, col, o))
	}))
	vf.Ensures("nothing else is set", vf.Forall(func(s uint64, v string, p uint64) bool {
		vf.Trig(vfAsk(s, v, p))
		return vf.Implies(vfAsk(s, v, p) && vfBit(o, s, v, p), vf.Exists(func(j int) bool { return 0 <= j && j < len(b.ids) && vfHit(b, j, s, v, p) }))
	}))
	vf.LoopOver(func(i int, ids []uint64) {
		vf.Invariant(vfFrags(b.frags))
		vf.Invariant("set", vf.Forall(func(j int, col uint64) bool {
			vf.Trig(vfWant(j, col))
			return vf.Implies(vfWant(j, col) && 0 <= j && j < i && b.labels[j] != nil && vf.In(&b.labels[j].Bitmap, col), vfCov(b, j, col, b.frags))
		}))
		vf.Invariant("only", vf.Forall(func(s uint64, v string, p uint64) bool {
			vf.Trig(vfAsk(s, v, p))
			return vf.Implies(vfAsk(s, v, p) && vfBit(b.frags, s, v, p), vf.Exists(func(j int) bool { return 0 <= j && j < i && vfHit(b, j, s, v, p) }))
		}))
	})
	vf.LoopOver(func(k int, views []string) {
		i := vf.Ind[uint64]()
		vf.Invariant(vfFrags(b.frags))
		vf.Invariant("the column", 0 <= vf.IterPos()-1 && vf.In(&b.labels[i].Bitmap, vf.IterPos()-1))
		vf.Invariant("the place", 0 <= vfPos(b.ids[i], vf.IterPos()-1) && vfPos(b.ids[i], vf.IterPos()-1) <= 18446744073709551615)
		vf.Invariant("set", vf.Forall(func(m int) bool {
			return vf.Implies(0 <= m && m < k, vfGot(b.frags, (vf.IterPos()-1)/1048576, views[m], vfPos(b.ids[i], vf.IterPos()-1)))
		}))
		vf.Invariant("kept", vf.Forall(func(s uint64, v string, p uint64) bool {
			vf.Trig(vfAsk(s, v, p))
			return vf.Implies(vfAsk(s, v, p) && vf.Before(vfBit(b.frags, s, v, p)), vfBit(b.frags, s, v, p))
		}))
		vf.Invariant("only that shard", vf.Forall(func(s uint64, v string, p uint64) bool {
			vf.Trig(vfAsk(s, v, p))
			return vf.Implies(vfAsk(s, v, p) && vfBit(b.frags, s, v, p) && !vf.Before(vfBit(b.frags, s, v, p)), s == (vf.IterPos()-1)/1048576)
		}))
		vf.Invariant("only that place", vf.Forall(func(s uint64, v string, p uint64) bool {
			vf.Trig(vfAsk(s, v, p))
			return vf.Implies(vfAsk(s, v, p) && vfBit(b.frags, s, v, p) && !vf.Before(vfBit(b.frags, s, v, p)), p == vfPos(b.ids[i], vf.IterPos()-1))
		}))
		vf.Invariant("only its views", vf.Forall(func(s uint64, v string, p uint64) bool {
			vf.Trig(vfAsk(s, v, p))
			return vf.Implies(vfAsk(s, v, p) && vfBit(b.frags, s, v, p) && !vf.Before(vfBit(b.frags, s, v, p)), vfIsView(b.times[i], v))
		}))
	})
	vf.LoopIter(func(pos uint64) {
		i := vf.Ind[uint64]()
		vf.Invariant(vfFrags(b.frags))
		vf.Invariant("set before", vf.Forall(func(j int, col uint64) bool {
			vf.Trig(vfWant(j, col))
			return vf.Implies(vfWant(j, col) && 0 <= j && j < i && b.labels[j] != nil && vf.In(&b.labels[j].Bitmap, col), vfCov(b, j, col, b.frags))
		}))
		vf.Invariant("set", vf.Forall(func(col uint64) bool {
			vf.Trig(vfWant(i, col))
			return vf.Implies(vfWant(i, col) && vf.In(&b.labels[i].Bitmap, col) && col < pos, vfCov(b, i, col, b.frags))
		}))
		vf.Invariant("only", vf.Forall(func(s uint64, v string, p uint64) bool {
			vf.Trig(vfAsk(s, v, p))
			return vf.Implies(vfAsk(s, v, p) && vfBit(b.frags, s, v, p), vf.Exists(func(j int) bool { return 0 <= j && j <= i && vfHit(b, j, s, v, p) }))
		}))
	})
}

// vfEmpty: nothing is pending and the fragments are new.
func vfEmpty(b *Batch) bool {
	return len(b.ids) == 0 && len(b.labels) == 0 && len(b.times) == 0 && b.frags != nil && vf.Fresh(b.frags) &&
		vf.Forall(func(s uint64) bool { return !vf.Has(b.frags, s) })
}

//vf:for New
//vf:props C05
func vfNew(b *Batch) {
	vf.Ensures("empty", b != nil && vfEmpty(b))
}

//vf:for (*Batch).Reset
//vf:props C05
func vfReset(b *Batch) {
	vf.Requires(b != nil && vfBatch(b))
	vf.Modifies(b.ids, b.labels, b.times, b.frags, vf.Elems(b.times), vf.Elems(b.labels), vf.AnyOf[QuantizedTime](), vf.AnyOf[bitmaps.Bitmap]())
	vf.Ensures("empty", vfEmpty(b))
	vf.LoopOver(func(i int, ts []*QuantizedTime) {
		vf.Invariant("kept", len(b.ids) == 0 && len(b.labels) == 0 && vf.Fresh(b.frags) && b.frags != nil && vf.Forall(func(s uint64) bool { return !vf.Has(b.frags, s) }))
	})
}

//vf:for (*Batch).Build
//vf:props C05
func vfBuild(b *Batch, o Fragments, err error) {
	vf.Requires(b != nil && vfBatch(b) && vfFrags(b.frags))
	vf.Requires("nothing is pending", vf.Forall(func(s uint64) bool { return !vf.Has(b.frags, s) }))
	vf.Modifies(b.ids, b.labels, b.times, b.frags, vf.Elems(b.times), vf.Elems(b.labels), vf.AnyOf[QuantizedTime](), vf.AnyOf[bitmaps.Bitmap](),
		vf.AnyOf[map[uint64]map[string]*roaring.Bitmap](), vf.AnyOf[map[string]*roaring.Bitmap](), vf.AnyOf[roaring.Bitmap]())
	vf.Ensures("no error", err == nil)
	vf.Ensures("nothing is left", vfEmpty(b))
	vf.Ensures("every column is set", vf.Forall(func(j int, col uint64) bool {
		vf.Trig(vfWant(j, col))
		return vf.Implies(vfWant(j, col) && vf.Old(0 <= j && j < len(b.ids) && b.labels[j] != nil && vf.In(&b.labels[j].Bitmap, col)),
			vfGot(o, col/1048576, vf.Old(vfView(b.times[j], 4)), vf.Old(vfPos(b.ids[j], col))) &&
				vfGot(o, col/1048576, vf.Old(vfView(b.times[j], 6)), vf.Old(vfPos(b.ids[j], col))) &&
				vfGot(o, col/1048576, vf.Old(vfView(b.times[j], 8)), vf.Old(vfPos(b.ids[j], col))) &&
				vfGot(o, col/1048576, vf.Old(vfView(b.times[j], 10)), vf.Old(vfPos(b.ids[j], col))))
	}))
	vf.Ensures("nothing else is set", vf.Forall(func(s uint64, v string, p uint64) bool {
		vf.Trig(vfAsk(s, v, p))
		return vf.Implies(vfAsk(s, v, p) && vfBit(o, s, v, p), vf.Exists(func(j int) bool { return vf.Old(0 <= j && j < len(b.ids) && vfHit(b, j, s, v, p)) }))
	}))
}
