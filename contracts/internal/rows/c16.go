package rows

import (
	"github.com/gernest/requiemdb/internal/vf"
	"github.com/gernest/roaring"
)

func vfShard(v uint64) uint64 { return v / 1048576 }

// vfCount: the count that is kept is the number of columns.
func vfCount(s *RowSegment) bool { return s.data != nil && vf.Math(s.n) == vf.Card(s.data) }

//vf:for fresh
//vf:props C16
//vf:trusted
func vfFresh(b, r *roaring.Bitmap) {
	vf.Modifies(*b)
	vf.Ensures("the bitmap", r == b)
	vf.Ensures("as copied", vf.Implies(b != nil, vf.Same(*r, vf.Fn[roaring.Bitmap]("roar:base", r))))
}

//vf:for (*RowSegment).ensureWritable
//vf:props C16
func vfEnsureWritable(s *RowSegment) {
	vf.Requires("data", s != nil && s.data != nil)
	vf.Modifies(s.data, s.writable)
	vf.Ensures("can be written", s.writable && s.data != nil)
	vf.Ensures("alone", vf.Implies(!vf.Old(s.writable), vf.Fresh(s.data)))
	vf.Ensures("or as before", vf.Implies(vf.Old(s.writable), s.data == vf.Old(s.data)))
	vf.Ensures("same columns", vf.Same(*s.data, vf.Old(*s.data)))
}

//vf:for (*RowSegment).Freeze
//vf:props C16
func vfFreeze(s *RowSegment) {
	vf.Requires("data", s != nil && s.data != nil)
	vf.Modifies(s.data)
	vf.Ensures("same columns", s.data != nil && vf.Same(*s.data, vf.Old(*s.data)))
}

//vf:for (*RowSegment).SetBit
//vf:props C16
func vfSegSetBit(s *RowSegment, i uint64, changed bool) {
	vf.Requires("count", s != nil && vfCount(s))
	vf.Modifies(s.data, s.writable, s.n, *s.data)
	vf.Ensures("alone", vf.Implies(!vf.Old(s.writable), vf.Fresh(s.data)))
	vf.Ensures("or as before", vf.Implies(vf.Old(s.writable), s.data == vf.Old(s.data)))
	vf.Ensures("count", vfCount(s) && s.writable)
	vf.Ensures("tells a change", vf.Iff(changed, !vf.Old(vf.In(s.data, i))))
	vf.Ensures("one more column", vf.Forall(func(v uint64) bool {
		vf.Trig(vf.In(s.data, v))
		return vf.Iff(vf.In(s.data, v), v == i || vf.Old(vf.In(s.data, v)))
	}))
}

//vf:for (*RowSegment).ClearBit
//vf:props C16
func vfSegClearBit(s *RowSegment, i uint64, changed bool) {
	vf.Requires("count", s != nil && vfCount(s))
	vf.Modifies(s.data, s.writable, s.n, *s.data)
	vf.Ensures("alone", vf.Implies(!vf.Old(s.writable), vf.Fresh(s.data)))
	vf.Ensures("or as before", vf.Implies(vf.Old(s.writable), s.data == vf.Old(s.data)))
	vf.Ensures("count", vfCount(s) && s.writable)
	vf.Ensures("tells a change", vf.Iff(changed, vf.Old(vf.In(s.data, i))))
	vf.Ensures("one column less", vf.Forall(func(v uint64) bool {
		vf.Trig(vf.In(s.data, v))
		return vf.Iff(vf.In(s.data, v), v != i && vf.Old(vf.In(s.data, v)))
	}))
}

//vf:for (*RowSegment).InvalidateCount
//vf:props C16
func vfSegInvalidate(s *RowSegment) {
	vf.Requires("data", s != nil && s.data != nil)
	vf.Modifies(s.n)
	vf.Ensures("count", vfCount(s))
}

//vf:for (*RowSegment).Count
//vf:props C16
func vfSegCount(s *RowSegment, n uint64) {
	vf.Requires("segment", s != nil)
	vf.Ensures("count", n == s.n)
}

//vf:for (*RowSegment).IntersectionCount
//vf:props C16
func vfSegIntersectionCount(s, other *RowSegment, n uint64) {
	vf.Requires("data", s != nil && s.data != nil && other != nil && other.data != nil)
	vf.Ensures("none", vf.Implies(n == 0, vf.Forall(func(v uint64) bool {
		vf.Trig(vf.In(other.data, v))
		return !(vf.In(s.data, v) && vf.In(other.data, v))
	})))
}

//vf:for (*RowSegment).Intersect
//vf:props C16
func vfSegIntersect(s, other, r *RowSegment) {
	vf.Requires("data", s != nil && s.data != nil && other != nil && other.data != nil)
	vf.Ensures("new", r != nil && vf.Fresh(r) && vf.Fresh(r.data) && vfCount(r) && r.shard == s.shard && !r.writable)
	vf.Ensures("common columns", vf.Forall(func(v uint64) bool {
		vf.Trig(vf.In(r.data, v))
		return vf.Iff(vf.In(r.data, v), vf.In(s.data, v) && vf.In(other.data, v))
	}))
}

//vf:for (*RowSegment).Xor
//vf:props C16
func vfSegXor(s, other, r *RowSegment) {
	vf.Requires("data", s != nil && s.data != nil && other != nil && other.data != nil)
	vf.Ensures("new", r != nil && vf.Fresh(r) && vf.Fresh(r.data) && vfCount(r) && r.shard == s.shard && !r.writable)
	vf.Ensures("columns of one", vf.Forall(func(v uint64) bool {
		vf.Trig(vf.In(r.data, v))
		return vf.Iff(vf.In(r.data, v), vf.In(s.data, v) != vf.In(other.data, v))
	}))
}

// vfOthers: all segments have data.
func vfOthers(others []*RowSegment) bool {
	return vf.Forall(func(k int) bool {
		vf.Trig(others[k])
		return vf.Implies(0 <= k && k < len(others), others[k] != nil && others[k].data != nil)
	})
}

// vfDatas: the first i bitmaps are those of the segments.
func vfDatas(datas []*roaring.Bitmap, others []*RowSegment, i int) bool {
	return vf.Forall(func(k int) bool {
		vf.Trig(datas[k])
		vf.Trig(others[k])
		return vf.Implies(0 <= k && k < i, datas[k] == others[k].data)
	})
}

//vf:for (*RowSegment).Union
//vf:props C16
func vfSegUnion(s *RowSegment, others []*RowSegment, r *RowSegment) {
	vf.Requires("data", s != nil && s.data != nil && vfOthers(others))
	vf.LoopOver(func(i int, o []*RowSegment) {
		vf.Invariant("bitmaps", len(vf.Cur[[]*roaring.Bitmap]("datas")) == len(others) && vfDatas(vf.Cur[[]*roaring.Bitmap]("datas"), others, i))
	})
	vf.Ensures("new", r != nil && vf.Fresh(r) && vf.Fresh(r.data) && vfCount(r) && r.shard == s.shard && !r.writable)
	vf.Ensures("own columns", vf.Forall(func(v uint64) bool {
		vf.Trig(vf.In(s.data, v))
		return vf.Implies(vf.In(s.data, v), vf.In(r.data, v))
	}))
	vf.Ensures("columns of others", vf.Forall(func(v uint64, k int) bool {
		vf.Trig(vf.In(others[k].data, v))
		return vf.Implies(0 <= k && k < len(others) && vf.In(others[k].data, v), vf.In(r.data, v))
	}))
	vf.Ensures("no other columns", vf.Forall(func(v uint64) bool {
		vf.Trig(vf.In(r.data, v))
		return vf.Implies(vf.In(r.data, v) && !vf.In(s.data, v), vf.Exists(func(k int) bool {
			return 0 <= k && k < len(others) && vf.In(others[k].data, v)
		}))
	}))
}

//vf:for (*RowSegment).Difference
//vf:props C16
func vfSegDifference(s *RowSegment, others []*RowSegment, r *RowSegment) {
	vf.Requires("data", s != nil && s.data != nil && vfOthers(others) && len(others) > 0)
	vf.LoopOver(func(i int, o []*RowSegment) {
		vf.Invariant("bitmaps", len(vf.Cur[[]*roaring.Bitmap]("datas")) == len(others) && vfDatas(vf.Cur[[]*roaring.Bitmap]("datas"), others, i))
	})
	vf.Ensures("new", r != nil && vf.Fresh(r) && vf.Fresh(r.data) && vfCount(r) && r.shard == s.shard && !r.writable)
	vf.Ensures("own columns only", vf.Forall(func(v uint64) bool {
		vf.Trig(vf.In(r.data, v))
		return vf.Implies(vf.In(r.data, v), vf.In(s.data, v))
	}))
	vf.Ensures("none of the others", vf.Forall(func(v uint64, k int) bool {
		vf.Trig(vf.In(others[k].data, v))
		return vf.Implies(0 <= k && k < len(others) && vf.In(others[k].data, v), !vf.In(r.data, v))
	}))
	vf.Ensures("all that remain", vf.Forall(func(v uint64) bool {
		vf.Trig(vf.In(s.data, v))
		return vf.Implies(vf.In(s.data, v) && !vf.In(r.data, v), vf.Exists(func(k int) bool {
			return 0 <= k && k < len(others) && vf.In(others[k].data, v)
		}))
	}))
}

//vf:for (*RowSegment).Merge
//vf:props C16
func vfSegMerge(s, other *RowSegment) {
	vf.Requires("segments of a shard", s != nil && vfCount(s) && other != nil && other.data != nil && s != other && s.data != other.data)
	vf.Modifies(s.data, s.writable, s.n, *s.data)
	vf.LoopAny(func() {
		vf.Invariant("count", vfCount(s) && s.writable && s.data != other.data)
		vf.Invariant("alone", vf.Implies(!vf.Old(s.writable), vf.Fresh(s.data)) && vf.Implies(vf.Old(s.writable), s.data == vf.Old(s.data)))
		vf.Invariant("next", vf.Ite(vf.Cur[bool]("eof"), vf.IterAt(vf.Cur[*roaring.Iterator]("itr")) > vf.Math(18446744073709551615)+1, vf.In(other.data, vf.Cur[uint64]("v")) && vf.IterAt(vf.Cur[*roaring.Iterator]("itr")) == vf.Math(vf.Cur[uint64]("v"))+1))
		vf.Invariant("merged so far", vf.Forall(func(v uint64) bool {
			vf.Trig(vf.In(s.data, v))
			vf.Trig(vf.In(other.data, v))
			return vf.Iff(vf.In(s.data, v), vf.Old(vf.In(s.data, v)) || vf.In(other.data, v) && vf.Math(v)+1 < vf.IterAt(vf.Cur[*roaring.Iterator]("itr")))
		}))
	})
	vf.Ensures("alone", vf.Implies(!vf.Old(s.writable), vf.Fresh(s.data)))
	vf.Ensures("or as before", vf.Implies(vf.Old(s.writable), s.data == vf.Old(s.data)))
	vf.Ensures("count", vfCount(s) && s.writable)
	vf.Ensures("all columns", vf.Forall(func(v uint64) bool {
		vf.Trig(vf.In(s.data, v))
		vf.Trig(vf.In(other.data, v))
		return vf.Iff(vf.In(s.data, v), vf.Old(vf.In(s.data, v)) || vf.In(other.data, v))
	}))
}

// vfListed: the values are ascending members of the bitmap, all below p are
// listed.
func vfListed(b *roaring.Bitmap, a []uint64, p int) bool {
	return vf.Forall(func(k int) bool {
		vf.Trig(a[k])
		return vf.Implies(0 <= k && k < len(a), vf.In(b, a[k]) && vf.Math(a[k])+1 < p)
	}) && vf.Forall(func(k, l int) bool {
		vf.Trig(a[k], a[l])
		return vf.Implies(0 <= k && k < l && l < len(a), a[k] < a[l])
	}) && vf.Forall(func(v uint64) bool {
		vf.Trig(vf.In(b, v))
		return vf.Implies(vf.In(b, v) && vf.Math(v)+1 < p, vf.Exists(func(k int) bool {
			return 0 <= k && k < len(a) && a[k] == v
		}))
	})
}

func vfNext(b *roaring.Bitmap, it *roaring.Iterator, v uint64, eof bool) bool {
	return vf.Ite(eof, vf.IterAt(it) == vf.Math(18446744073709551615)+2, vf.In(b, v) && vf.IterAt(it) == vf.Math(v)+1)
}

//vf:for (*RowSegment).Columns
//vf:props C16
func vfSegColumns(s *RowSegment, r []uint64) {
	vf.Requires("data", s != nil && vfCount(s))
	vf.LoopAny(func() {
		vf.Invariant("next", vfNext(s.data, vf.Cur[*roaring.Iterator]("itr"), vf.Cur[uint64]("v"), vf.Cur[bool]("eof")))
		vf.Invariant("listed so far", vfListed(s.data, vf.Cur[[]uint64]("a"), vf.IterAt(vf.Cur[*roaring.Iterator]("itr"))))
	})
	vf.Ensures("all columns, ascending", vfListed(s.data, r, vf.Math(18446744073709551615)+2))
}

// vfPart: the count of the part is right and its columns are those of a shard.
func vfPart(s RowSegment) bool {
	return s.data != nil && vf.Math(s.n) == vf.Card(s.data) && s.shard < 17592186044416 && vfWithin(s)
}

func vfWithin(s RowSegment) bool {
	return vf.Forall(func(v uint64) bool {
		vf.Trig(vf.In(s.data, v))
		return vf.Implies(vf.In(s.data, v), vf.Math(s.shard)*1048576 <= vf.Math(v) && vf.Math(v) < vf.Math(s.shard)*1048576+1048576)
	})
}

// vfParts: parts of different shards, in order.
func vfParts(s []RowSegment) bool {
	return vf.Forall(func(i int) bool {
		vf.Trig(s[i].shard)
		vf.Trig(s[i].data)
		return vf.Implies(0 <= i && i < len(s), s[i].data != nil && vf.Math(s[i].n) == vf.Card(s[i].data) && s[i].shard < 17592186044416)
	}) && vf.Forall(func(i int, v uint64) bool {
		vf.Trig(vf.In(s[i].data, v))
		return vf.Implies(0 <= i && i < len(s) && vf.In(s[i].data, v), vf.Math(s[i].shard)*1048576 <= vf.Math(v) && vf.Math(v) < vf.Math(s[i].shard)*1048576+1048576)
	}) && vf.Forall(func(i, j int) bool {
		vf.Trig(s[i].shard, s[j].shard)
		return vf.Implies(0 <= i && i < j && j < len(s), s[i].shard < s[j].shard)
	})
}

func vfHas(s []RowSegment, v uint64) bool {
	return vf.Exists(func(i int) bool {
		vf.Trig(vf.In(s[i].data, v))
		return 0 <= i && i < len(s) && vf.In(s[i].data, v)
	})
}

//vf:for (*RowSegment).ShardColumns
//vf:props C16
func vfSegShardColumns(s *RowSegment, r []int64) {
	vf.Requires("part", s != nil && vfPart(*s))
	vf.LoopAny(func() {
		vf.Invariant("next", vfNext(s.data, vf.Cur[*roaring.Iterator]("itr"), vf.Cur[uint64]("v"), vf.Cur[bool]("eof")))
		vf.Invariant("listed so far", vfListedIn(s.data, vf.Math(s.shard)*1048576, vf.Cur[[]int64]("a"), vf.IterAt(vf.Cur[*roaring.Iterator]("itr"))))
		vf.Invariant("all so far", vfAllListedIn(s.data, vf.Math(s.shard)*1048576, vf.Cur[[]int64]("a"), vf.IterAt(vf.Cur[*roaring.Iterator]("itr"))))
	})
	vf.Ensures("columns, ascending", vfListedIn(s.data, vf.Math(s.shard)*1048576, r, vf.Math(18446744073709551615)+2))
	vf.Ensures("all columns", vfAllListedIn(s.data, vf.Math(s.shard)*1048576, r, vf.Math(18446744073709551615)+2))
}

func vfListedIn(b *roaring.Bitmap, base int, a []int64, p int) bool {
	return vf.Forall(func(k int) bool {
		vf.Trig(a[k])
		return vf.Implies(0 <= k && k < len(a), 0 <= a[k] && a[k] < 1048576 && base+int(a[k])+1 < p && vf.In(b, uint64(base+int(a[k]))))
	}) && vf.Forall(func(k, l int) bool {
		vf.Trig(a[k], a[l])
		return vf.Implies(0 <= k && k < l && l < len(a), a[k] < a[l])
	})
}

func vfAllListedIn(b *roaring.Bitmap, base int, a []int64, p int) bool {
	return vf.Forall(func(v uint64) bool {
		vf.Trig(vf.In(b, v))
		return vf.Implies(vf.In(b, v) && vf.Math(v)+1 < p, vf.Exists(func(k int) bool {
			return 0 <= k && k < len(a) && base+int(a[k]) == vf.Math(v)
		}))
	})
}

//vf:for (*Row).Includes
//vf:props C16
func vfIncludes(r *Row, col uint64, ok bool) {
	vf.Requires("parts", r != nil && vfParts(r.Segments))
	vf.LoopOver(func(i int, s []RowSegment) {
		vf.Invariant("other shards", vf.Forall(func(k int) bool {
			vf.Trig(r.Segments[k].shard)
			return vf.Implies(0 <= k && k < i, r.Segments[k].shard != col/1048576)
		}))
	})
	vf.Ensures("a member", vf.Iff(ok, vfHas(r.Segments, col)))
}

//vf:for (*Row).Any
//vf:props C16
func vfAny(r *Row, ok bool) {
	vf.Requires("parts", r != nil && vfParts(r.Segments))
	vf.LoopOver(func(i int, s []RowSegment) {
		vf.Invariant("without columns", vf.Forall(func(k int, v uint64) bool {
			vf.Trig(vf.In(r.Segments[k].data, v))
			return vf.Implies(0 <= k && k < i, !vf.In(r.Segments[k].data, v))
		}))
	})
	vf.Ensures("none", vf.Implies(!ok, vf.Forall(func(v uint64) bool {
		vf.Trig(vfAsk(v))
		return !vfHas(r.Segments, v)
	})))
	vf.Ensures("some", vf.Implies(ok, vf.Exists(func(v uint64) bool {
		return vfHas(r.Segments, v)
	})))
}

func vfAsk(v uint64) bool { return vf.Fn[bool]("ask", v) }

//vf:for (*Row).IsEmpty
//vf:props C16
func vfIsEmpty(r *Row, ok bool) {
	vf.Requires("parts", r != nil && vfParts(r.Segments))
	vf.LoopOver(func(i int, s []RowSegment) {
		vf.Invariant("without columns", vf.Forall(func(k int, v uint64) bool {
			vf.Trig(vf.In(r.Segments[k].data, v))
			return vf.Implies(0 <= k && k < i, !vf.In(r.Segments[k].data, v))
		}))
	})
	vf.Ensures("none", vf.Implies(ok, vf.Forall(func(v uint64) bool {
		vf.Trig(vfAsk(v))
		return !vfHas(r.Segments, v)
	})))
	vf.Ensures("some", vf.Implies(!ok, vf.Exists(func(v uint64) bool {
		return vfHas(r.Segments, v)
	})))
}

// vfIs: the part is the i-th of the row.
func vfIs(p *RowSegment, s []RowSegment, i int) bool {
	return p.shard == s[i].shard && p.data == s[i].data && p.n == s[i].n && p.writable == s[i].writable
}

// vfRest: what is left of the parts are the last ones.
func vfRest(a, s []RowSegment) bool {
	return len(a) <= len(s) && vf.Forall(func(k int) bool {
		vf.Trig(a[k].shard)
		vf.Trig(a[k].data)
		return vf.Implies(0 <= k && k < len(a), a[k].shard == s[len(s)-len(a)+k].shard && a[k].data == s[len(s)-len(a)+k].data && a[k].n == s[len(s)-len(a)+k].n && a[k].writable == s[len(s)-len(a)+k].writable)
	})
}

//vf:for (*mergeSegmentIterator).next
//vf:props C16
func vfMergeNext(itr *mergeSegmentIterator, s0, s1 *RowSegment) {
	vf.Requires("iterator", itr != nil)
	vf.Modifies(itr.a0, itr.a1)
	vf.Ensures("end", vf.Iff(s0 == nil && s1 == nil, len(vf.Old(itr.a0)) == 0 && len(vf.Old(itr.a1)) == 0))
	vf.Ensures("rest", vfRest(itr.a0, vf.Old(itr.a0)) && vfRest(itr.a1, vf.Old(itr.a1)))
	vf.Ensures("left", len(itr.a0) == len(vf.Old(itr.a0)) || len(itr.a0) == len(vf.Old(itr.a0))-1)
	vf.Ensures("right", len(itr.a1) == len(vf.Old(itr.a1)) || len(itr.a1) == len(vf.Old(itr.a1))-1)
	vf.Ensures("both", vf.Implies(s0 != nil && s1 != nil, s0.shard == s1.shard && vfIs(s0, vf.Old(itr.a0), 0) && vfIs(s1, vf.Old(itr.a1), 0) &&
		len(itr.a0) == len(vf.Old(itr.a0))-1 && len(itr.a1) == len(vf.Old(itr.a1))-1))
	vf.Ensures("one is enough", vf.Implies(s0 == nil && s1 != nil, vfIs(s1, vf.Old(itr.a1), 0) && len(vf.Old(itr.a0)) == 0 && len(itr.a1) == len(vf.Old(itr.a1))-1))
	vf.Ensures("the first", vf.Implies(s0 != nil && s1 == nil,
		len(itr.a0) == len(vf.Old(itr.a0))-1 && len(itr.a1) == len(vf.Old(itr.a1)) && vfIs(s0, vf.Old(itr.a0), 0) && (len(itr.a1) == 0 || s0.shard < vf.Old(itr.a1)[0].shard) ||
			len(itr.a1) == len(vf.Old(itr.a1))-1 && len(itr.a0) == len(vf.Old(itr.a0)) && vfIs(s0, vf.Old(itr.a1), 0) && len(itr.a0) > 0 && s0.shard < vf.Old(itr.a0)[0].shard))
}

// vfOrdered: parts that were passed are of smaller shards than the others.
func vfOrdered(a []RowSegment, p int, b []RowSegment, q int) bool {
	return vf.Forall(func(i, j int) bool {
		vf.Trig(a[i].shard, b[j].shard)
		return vf.Implies(0 <= i && i < p && q <= j && j < len(b), a[i].shard < b[j].shard)
	})
}

//vf:for (*Row).Intersect
//vf:props C16
func vfRowIntersect(r, other, o *Row) {
	vf.Requires("parts", r != nil && other != nil && vfParts(r.Segments) && vfParts(other.Segments))
	vf.LoopAny(func() {
		a0, a1 := vf.Cur[mergeSegmentIterator]("itr").a0, vf.Cur[mergeSegmentIterator]("itr").a1
		s0, s1 := vf.Cur[*RowSegment]("s0"), vf.Cur[*RowSegment]("s1")
		out := vf.Cur[[]RowSegment]("segments")
		p, q := len(r.Segments)-len(a0), len(other.Segments)-len(a1)
		vf.Invariant("rest", vfRest(a0, r.Segments) && vfRest(a1, other.Segments))
		vf.Invariant("end", vf.Implies(s0 == nil && s1 == nil, len(a0) == 0 && len(a1) == 0))
		vf.Invariant("order", vfOrdered(r.Segments, p, other.Segments, q) && vfOrdered(other.Segments, q, r.Segments, p))
		vf.Invariant("current", vf.Implies(s0 != nil && s1 != nil, p > 0 && q > 0 && s0.shard == s1.shard && vfIs(s0, r.Segments, p-1) && vfIs(s1, other.Segments, q-1)))
		vf.Invariant("parts", vfParts(out))
		vf.Invariant("before", vfOrdered(out, len(out), r.Segments, p) && vfOrdered(out, len(out), other.Segments, q) && vf.Forall(func(k int) bool {
			vf.Trig(out[k].shard)
			return vf.Implies(0 <= k && k < len(out) && s0 != nil && s1 != nil, out[k].shard < s0.shard)
		}))
		vf.Invariant("only common columns", vf.Forall(func(k int, v uint64) bool {
			vf.Trig(vf.In(out[k].data, v))
			return vf.Implies(0 <= k && k < len(out) && vf.In(out[k].data, v), vfHas(r.Segments, v) && vfHas(other.Segments, v))
		}))
		vf.Invariant("all common columns", vf.Forall(func(i, j int, v uint64) bool {
			vf.Trig(vf.In(r.Segments[i].data, v), vf.In(other.Segments[j].data, v))
			return vf.Implies(0 <= i && i < p && 0 <= j && j < q && vf.In(r.Segments[i].data, v) && vf.In(other.Segments[j].data, v),
				vfHas(out, v) || s0 != nil && s1 != nil && i == p-1 && j == q-1)
		}))
	})
	vf.Ensures("parts", o != nil && vf.Fresh(o) && vfParts(o.Segments))
	vf.Ensures("only common columns", vf.Forall(func(k int, v uint64) bool {
		vf.Trig(vf.In(o.Segments[k].data, v))
		return vf.Implies(0 <= k && k < len(o.Segments) && vf.In(o.Segments[k].data, v), vfHas(r.Segments, v) && vfHas(other.Segments, v))
	}))
	vf.Ensures("all common columns", vf.Forall(func(i, j int, v uint64) bool {
		vf.Trig(vf.In(r.Segments[i].data, v), vf.In(other.Segments[j].data, v))
		return vf.Implies(0 <= i && i < len(r.Segments) && 0 <= j && j < len(other.Segments) && vf.In(r.Segments[i].data, v) && vf.In(other.Segments[j].data, v),
			vfHas(o.Segments, v))
	}))
}

//vf:for (*Row).Xor
//vf:props C16
func vfRowXor(r, other, o *Row) {
	vf.Requires("parts", r != nil && other != nil && vfParts(r.Segments) && vfParts(other.Segments))
	vf.LoopAny(func() {
		a0, a1 := vf.Cur[mergeSegmentIterator]("itr").a0, vf.Cur[mergeSegmentIterator]("itr").a1
		s0, s1 := vf.Cur[*RowSegment]("s0"), vf.Cur[*RowSegment]("s1")
		out := vf.Cur[[]RowSegment]("segments")
		p, q := len(r.Segments)-len(a0), len(other.Segments)-len(a1)
		vf.Invariant("rest", vfRest(a0, r.Segments) && vfRest(a1, other.Segments))
		vf.Invariant("end", vf.Implies(s0 == nil && s1 == nil, len(a0) == 0 && len(a1) == 0))
		vf.Invariant("order", vfOrdered(r.Segments, p, other.Segments, q) && vfOrdered(other.Segments, q, r.Segments, p))
		vf.Invariant("current", vf.Implies(s0 != nil && s1 != nil, p > 0 && q > 0 && s0.shard == s1.shard && vfIs(s0, r.Segments, p-1) && vfIs(s1, other.Segments, q-1)))
		vf.Invariant("current one", vf.Implies(s0 != nil && s1 == nil, vfLeft(s0, r.Segments, p, other.Segments, q) || vfLeft(s0, other.Segments, q, r.Segments, p)))
		vf.Invariant("current other", vf.Implies(s0 == nil && s1 != nil, vfLeft(s1, r.Segments, p, other.Segments, q) || vfLeft(s1, other.Segments, q, r.Segments, p)))
		vf.Invariant("parts", vfParts(out))
		vf.Invariant("before", vfOrdered(out, len(out), r.Segments, p) && vfOrdered(out, len(out), other.Segments, q) && vf.Forall(func(k int) bool {
			vf.Trig(out[k].shard)
			return vf.Implies(0 <= k && k < len(out), (s0 == nil || out[k].shard < s0.shard) && (s1 == nil || out[k].shard < s1.shard))
		}))
		vf.Invariant("only columns of one", vf.Forall(func(k int, v uint64) bool {
			vf.Trig(vf.In(out[k].data, v))
			return vf.Implies(0 <= k && k < len(out) && vf.In(out[k].data, v), vfHas(r.Segments, v) != vfHas(other.Segments, v))
		}))
		vf.Invariant("all of the first", vf.Forall(func(i int, v uint64) bool {
			vf.Trig(vf.In(r.Segments[i].data, v))
			return vf.Implies(0 <= i && i < p && vf.In(r.Segments[i].data, v) && !vfHas(other.Segments, v),
				vfHas(out, v) || s0 != nil && s0.data == r.Segments[i].data || s1 != nil && s1.data == r.Segments[i].data)
		}))
		vf.Invariant("all of the second", vf.Forall(func(i int, v uint64) bool {
			vf.Trig(vf.In(other.Segments[i].data, v))
			return vf.Implies(0 <= i && i < q && vf.In(other.Segments[i].data, v) && !vfHas(r.Segments, v),
				vfHas(out, v) || s0 != nil && s0.data == other.Segments[i].data || s1 != nil && s1.data == other.Segments[i].data)
		}))
	})
	vf.Ensures("parts", o != nil && vf.Fresh(o) && vfParts(o.Segments))
	vf.Ensures("only columns of one", vf.Forall(func(k int, v uint64) bool {
		vf.Trig(vf.In(o.Segments[k].data, v))
		return vf.Implies(0 <= k && k < len(o.Segments) && vf.In(o.Segments[k].data, v), vfHas(r.Segments, v) != vfHas(other.Segments, v))
	}))
	vf.Ensures("all of the first", vf.Forall(func(i int, v uint64) bool {
		vf.Trig(vf.In(r.Segments[i].data, v))
		return vf.Implies(0 <= i && i < len(r.Segments) && vf.In(r.Segments[i].data, v) && !vfHas(other.Segments, v), vfHas(o.Segments, v))
	}))
	vf.Ensures("all of the second", vf.Forall(func(i int, v uint64) bool {
		vf.Trig(vf.In(other.Segments[i].data, v))
		return vf.Implies(0 <= i && i < len(other.Segments) && vf.In(other.Segments[i].data, v) && !vfHas(r.Segments, v), vfHas(o.Segments, v))
	}))
}

// vfLeft: the part is the last passed one of a, b has none of its shard.
func vfLeft(s *RowSegment, a []RowSegment, p int, b []RowSegment, q int) bool {
	return p > 0 && vfIs(s, a, p-1) && vf.Forall(func(j int) bool {
		vf.Trig(b[j].shard)
		return vf.Implies(0 <= j && j < len(b), b[j].shard != s.shard)
	})
}

//vf:for (*Row).Clone
//vf:props C16
func vfRowClone(r, o *Row) {
	vf.Requires("parts", vf.Implies(r != nil, vfParts(r.Segments)))
	vf.LoopOver(func(i int, s []RowSegment) {
		out := vf.Cur[*Row]("clone").Segments
		vf.Invariant("copied", len(out) == i && vf.Forall(func(k int) bool {
			vf.Trig(out[k].shard)
			vf.Trig(out[k].data)
			vf.Trig(r.Segments[k].shard)
			return vf.Implies(0 <= k && k < i, out[k].shard == r.Segments[k].shard && out[k].n == r.Segments[k].n && vf.Fresh(out[k].data) && out[k].data != nil && out[k].writable && vf.Alloc(out[k].data))
		}))
		vf.Invariant("same columns", vf.Forall(func(k int) bool {
			vf.Trig(out[k].data)
			vf.Trig(r.Segments[k].data)
			return vf.Implies(0 <= k && k < i, vf.Same(*out[k].data, *r.Segments[k].data))
		}))
	})
	vf.Ensures("nil", vf.Iff(r == nil, o == nil))
	vf.Ensures("a copy", vf.Implies(r != nil, len(o.Segments) == len(r.Segments) && vf.Forall(func(k int) bool {
		vf.Trig(o.Segments[k].data)
		return vf.Implies(0 <= k && k < len(r.Segments), vf.Fresh(o.Segments[k].data) && vf.Same(*o.Segments[k].data, *r.Segments[k].data) && o.Segments[k].writable)
	})))
	vf.Ensures("parts", vf.Implies(r != nil, vfParts(o.Segments)))
}

//vf:for (*Row).Columns
//vf:props C16
func vfRowColumns(r *Row, o []uint64) {
	vf.Requires("parts", vf.Implies(r != nil, vfParts(r.Segments)))
	vf.LoopOver(func(i int, s []RowSegment) {
		a := vf.Cur[[]uint64]("a")
		vf.Invariant("members", vf.Forall(func(k int) bool {
			vf.Trig(a[k])
			return vf.Implies(0 <= k && k < len(a), vfHas(r.Segments, a[k]) && vf.Forall(func(j int) bool {
				vf.Trig(r.Segments[j].shard)
				return vf.Implies(i <= j && j < len(r.Segments), vf.Math(a[k]) < vf.Math(r.Segments[j].shard)*1048576)
			}))
		}))
		vf.Invariant("ascending", vf.Forall(func(k, l int) bool {
			vf.Trig(a[k], a[l])
			return vf.Implies(0 <= k && k < l && l < len(a), a[k] < a[l])
		}))
		vf.Invariant("all", vf.Forall(func(k int, v uint64) bool {
			vf.Trig(vf.In(r.Segments[k].data, v))
			return vf.Implies(0 <= k && k < i && vf.In(r.Segments[k].data, v), vf.Exists(func(m int) bool {
				return 0 <= m && m < len(a) && a[m] == v
			}))
		}))
	})
	vf.Ensures("none", vf.Implies(r == nil, len(o) == 0))
	vf.Ensures("members", vf.Forall(func(k int) bool {
		vf.Trig(o[k])
		return vf.Implies(0 <= k && k < len(o), vfHas(r.Segments, o[k]))
	}))
	vf.Ensures("ascending", vf.Forall(func(k, l int) bool {
		vf.Trig(o[k], o[l])
		return vf.Implies(0 <= k && k < l && l < len(o), o[k] < o[l])
	}))
	vf.Ensures("all", vf.Implies(r != nil, vf.Forall(func(k int, v uint64) bool {
		vf.Trig(vf.In(r.Segments[k].data, v))
		return vf.Implies(0 <= k && k < len(r.Segments) && vf.In(r.Segments[k].data, v), vf.Exists(func(m int) bool {
			return 0 <= m && m < len(o) && o[m] == v
		}))
	})))
}

// vfSum are the columns of the first n parts.
func vfSum(r *Row, n int) int { return vf.Fn[int]("rowsum", r, n) }

//vf:for (*Row).Count
//vf:props C16
func vfRowCount(r *Row, n uint64) {
	vf.Requires("parts", vf.Implies(r != nil, vfParts(r.Segments)))
	vf.Define(vf.Implies(r != nil, vf.Forall(func(k int) bool {
		vf.Trig(vfSum(r, k))
		return vfSum(r, k) == vf.Ite(k <= 0, 0, vfSum(r, k-1)+vf.Card(r.Segments[k-1].data))
	})))
	vf.LoopOver(func(i int, s []RowSegment) {
		vf.Invariant("sum", uint64(vfSum(r, i)) == vf.Cur[uint64]("n"))
	})
	vf.Ensures("none", vf.Implies(r == nil, n == 0))
	vf.Ensures("sum", vf.Implies(r != nil, n == uint64(vfSum(r, len(r.Segments)))))
}

// vfOwn: the parts do not share bitmaps.
func vfOwn(s []RowSegment) bool {
	return vf.Forall(func(i, j int) bool {
		vf.Trig(s[i].data, s[j].data)
		return vf.Implies(0 <= i && i < j && j < len(s), s[i].data != s[j].data)
	})
}

//vf:for (*Row).SetBit
//vf:props C16
func vfRowSetBit(r *Row, i uint64, changed bool) {
	vf.Requires("parts", r != nil && vfParts(r.Segments) && vfOwn(r.Segments))
	vf.Modifies(r.Segments, vf.Elems(r.Segments), vf.AnyOf[roaring.Bitmap]())
	vf.Ensures("order", vf.Forall(func(i, j int) bool {
		vf.Trig(r.Segments[i].shard, r.Segments[j].shard)
		return vf.Implies(0 <= i && i < j && j < len(r.Segments), r.Segments[i].shard < r.Segments[j].shard)
	}))
	vf.Ensures("counts", vf.Forall(func(i int) bool {
		vf.Trig(r.Segments[i].data)
		return vf.Implies(0 <= i && i < len(r.Segments), r.Segments[i].data != nil && vf.Math(r.Segments[i].n) == vf.Card(r.Segments[i].data) && r.Segments[i].shard < 17592186044416)
	}))
	vf.Ensures("own", vfOwn(r.Segments))
	vf.Ensures("parts", vfParts(r.Segments))
	vf.Ensures("a member", vfHas(r.Segments, i))
	vf.Ensures("tells a change", vf.Iff(changed, !vf.Old(vfHas(r.Segments, i))))
	vf.Ensures("kept", vf.Forall(func(m int, v uint64) bool {
		vf.Trig(vf.Old(vf.In(r.Segments[m].data, v)))
		return vf.Implies(0 <= m && m < vf.Old(len(r.Segments)) && vf.Old(vf.In(r.Segments[m].data, v)),
			m < len(r.Segments) && vf.In(r.Segments[m].data, v) || m+1 < len(r.Segments) && vf.In(r.Segments[m+1].data, v))
	}))
	vf.Ensures("no more", vf.Forall(func(v uint64) bool {
		vf.Trig(vfAsk(v))
		return vf.Implies(vfAsk(v) && v != i && vfHas(r.Segments, v), vf.Old(vfHas(r.Segments, v)))
	}))
}
