package view

import (
	"time"

	"github.com/gernest/rbf/quantum"
	"github.com/gernest/requiemdb/internal/vf"
)

// vfUnit: q is a single unit.
func vfUnit(q quantum.TimeQuantum) bool {
	return string(q) == "Y" || string(q) == "M" || string(q) == "D" || string(q) == "H"
}

// vfWhole: ns is the beginning of a unit of q.
func vfWhole(q quantum.TimeQuantum, ns int) bool {
	return vf.Fn[int]("civil:Minute", ns, 0) == 0 && vf.Fn[int]("civil:Second", ns, 0) == 0 && ns%1000000000 == 0 &&
		vf.Implies(string(q) == "Y" || string(q) == "M" || string(q) == "D", vf.Fn[int]("civil:Hour", ns, 0) == 0) &&
		vf.Implies(string(q) == "Y" || string(q) == "M", vf.Fn[int]("civil:Day", ns, 0) == 1) &&
		vf.Implies(string(q) == "Y", vf.Fn[int]("civil:Month", ns, 0) == 1)
}

// vfSame: a and b are in the same unit of q.
func vfSame(q quantum.TimeQuantum, a, b int) bool {
	return vf.Fn[int]("civil:Year", a, 0) == vf.Fn[int]("civil:Year", b, 0) &&
		vf.Implies(string(q) == "H" || string(q) == "M" || string(q) == "D", vf.Fn[int]("civil:Month", a, 0) == vf.Fn[int]("civil:Month", b, 0)) &&
		vf.Implies(string(q) == "H" || string(q) == "D", vf.Fn[int]("civil:Day", a, 0) == vf.Fn[int]("civil:Day", b, 0)) &&
		vf.Implies(string(q) == "H", vf.Fn[int]("civil:Hour", a, 0) == vf.Fn[int]("civil:Hour", b, 0))
}

func vfIn(views []string, v string) bool {
	return vf.Exists(func(m int) bool { return 0 <= m && m < len(views) && views[m] == v })
}

// VfCovers: one of the views contains the hour of every time in the range.
func VfCovers(views []string, start, end time.Time) bool {
	return vf.Forall(func(u int) bool {
		vf.Trig(vf.Fn[string]("timefmt", "2006010215", u, 0))
		return vf.Implies(vf.Nanos(start) <= u && u < vf.Nanos(end),
			vfIn(views, "std_"+vf.Fn[string]("timefmt", "2006010215", u, 0)[:4]) ||
				vfIn(views, "std_"+vf.Fn[string]("timefmt", "2006010215", u, 0)[:6]) ||
				vfIn(views, "std_"+vf.Fn[string]("timefmt", "2006010215", u, 0)[:8]) ||
				vfIn(views, "std_"+vf.Fn[string]("timefmt", "2006010215", u, 0)[:10]))
	})
}

//vf:for ChooseQuantum
//vf:props C06
//vf:flag inline
func vfChooseQuantum(d time.Duration, q quantum.TimeQuantum) {
	vf.Ensures("year", vf.Iff(string(q) == "Y", d >= 360*24*3600*1000000000))
	vf.Ensures("month", vf.Iff(string(q) == "M", d >= 30*24*3600*1000000000 && d < 360*24*3600*1000000000))
	vf.Ensures("day", vf.Iff(string(q) == "D", d >= 24*3600*1000000000 && d < 30*24*3600*1000000000))
	vf.Ensures("hour", vf.Iff(string(q) == "H", d < 24*3600*1000000000))
}

//vf:for floor
//vf:props C06
//vf:optional
func vfFloor(t time.Time, q quantum.TimeQuantum, r time.Time) {
	vf.Requires("a unit", vfUnit(q))
	vf.Ensures("the beginning of the unit", vfWhole(q, vf.Nanos(r)))
	vf.Ensures("of t", vfSame(q, vf.Nanos(r), vf.Nanos(t)) && vf.Nanos(r) <= vf.Nanos(t))
	vf.Ensures("utc", vf.Utc(r))
}

//vf:for next
//vf:props C06
//vf:optional
func vfNext(t time.Time, q quantum.TimeQuantum, r time.Time) {
	vf.Requires("the beginning of a unit", vfUnit(q) && vfWhole(q, vf.Nanos(t)) && vf.Utc(t))
	vf.Ensures("the beginning of a unit", vfWhole(q, vf.Nanos(r)))
	vf.Ensures("after the unit", vf.Forall(func(u int) bool {
		vf.Trig(vf.Fn[int]("civil:Year", u, 0))
		return vf.Implies(vfSame(q, u, vf.Nanos(t)), u < vf.Nanos(r))
	}))
	vf.Ensures("utc", vf.Utc(r))
}

//vf:for Search
//vf:props C06
func vfSearch(start, end time.Time, views []string) {
	vf.Ensures("every hour is covered", VfCovers(views, start, end))
}
