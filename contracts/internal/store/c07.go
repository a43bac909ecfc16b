package store

import (
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/bitmaps"
	"github.com/gernest/requiemdb/internal/vf"
)

// vfKey is the index key of filter m.
func vfKey(scan *v1.Scan, m int) string {
	b := scan.Filters[m].Value.(*v1.Scan_Filter_Base)
	a := scan.Filters[m].Value.(*v1.Scan_Filter_Attr)
	return vf.Ite(vf.Is[*v1.Scan_Filter_Base](scan.Filters[m].Value),
		vf.Dec(scan.Scope)+":"+vf.Dec(b.Base.Prop)+":"+b.Base.Value,
		vf.Dec(scan.Scope)+":"+vf.Dec(a.Attr.Prop)+":"+a.Attr.Key+vf.Ite(a.Attr.Value != "", "="+a.Attr.Value, ""))
}

func vfIsFilter(scan *v1.Scan, m int) bool {
	return scan.Filters[m] != nil &&
		(vf.Is[*v1.Scan_Filter_Base](scan.Filters[m].Value) && scan.Filters[m].Value.(*v1.Scan_Filter_Base).Base != nil ||
			vf.Is[*v1.Scan_Filter_Attr](scan.Filters[m].Value) && scan.Filters[m].Value.(*v1.Scan_Filter_Attr).Attr != nil)
}

func vfKnown(k string) bool      { return vf.Fn[bool]("known", k) }
func vfCol(k string) uint64      { return vf.Fn[uint64]("column", k) }
func vfAsk(u uint64) bool        { return vf.Fn[bool]("ask", u) }
func vfAll(scan *v1.Scan) string { return vf.Dec(scan.Scope) + ":" + vf.Dec(0) + ":" }

//vf:for (*Storage).CompileFilters
//vf:props C07
func vfCompileFilters(s *Storage, scan *v1.Scan, r *bitmaps.Bitmap, err error) {
	vf.Requires(s != nil && scan != nil && r != nil)
	vf.Requires("filters have values", vf.Forall(func(m int) bool {
		vf.Trig(scan.Filters[m])
		return vf.Implies(0 <= m && m < len(scan.Filters), vfIsFilter(scan, m))
	}))
	vf.Requires("no columns yet", vf.Forall(func(u uint64) bool { return !vf.In(&r.Bitmap, u) }))
	vf.Modifies(r.Bitmap)
	vf.Ensures("without filters the resource is selected", vf.Implies(err == nil && len(scan.Filters) == 0, vf.Forall(func(u uint64) bool {
		vf.Trig(vfAsk(u))
		return vf.Implies(vfAsk(u), vf.Iff(vf.In(&r.Bitmap, u), vfKnown(vfAll(scan)) && u == vfCol(vfAll(scan))))
	})))
	vf.Ensures("only columns of filters", vf.Implies(err == nil && len(scan.Filters) > 0, vf.Forall(func(u uint64) bool {
		vf.Trig(vfAsk(u))
		return vf.Implies(vfAsk(u) && vf.In(&r.Bitmap, u), vf.Exists(func(m int) bool {
			return 0 <= m && m < len(scan.Filters) && u == vfCol(vfKey(scan, m))
		}))
	})))
	vf.Ensures("the columns of all filters, or none", vf.Implies(err == nil && len(scan.Filters) > 0,
		vf.Forall(func(m int) bool {
			vf.Trig(scan.Filters[m])
			return vf.Implies(0 <= m && m < len(scan.Filters), vfKnown(vfKey(scan, m)) && vf.In(&r.Bitmap, vfCol(vfKey(scan, m))))
		}) || vf.Exists(func(m int) bool {
			return 0 <= m && m < len(scan.Filters) && !vfKnown(vfKey(scan, m))
		}) && vf.Forall(func(u uint64) bool { return !vf.In(&r.Bitmap, u) })))
	vf.LoopOver(func(i int, fs []*v1.Scan_Filter) {
		vf.Invariant("only columns of filters", vf.Forall(func(u uint64) bool {
			vf.Trig(vfAsk(u))
			return vf.Implies(vfAsk(u) && vf.In(&r.Bitmap, u), vf.Exists(func(m int) bool {
				return 0 <= m && m < i && u == vfCol(vfKey(scan, m))
			}))
		}))
		vf.Invariant("all columns", vf.Forall(func(m int) bool {
			vf.Trig(scan.Filters[m])
			return vf.Implies(0 <= m && m < i, vfKnown(vfKey(scan, m)) && vf.In(&r.Bitmap, vfCol(vfKey(scan, m))))
		}))
	})
}
