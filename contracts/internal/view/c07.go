package view

import (
	"time"

	"github.com/gernest/requiemdb/internal/vf"
)

// C06 says which views these are.
//
//vf:for Search
//vf:props C07 C08 C09
//vf:trusted
func vfSearch07(start, end time.Time, views []string) {
	vf.Ensures("the views", len(views) == vf.Fn[int]("views:n", start, end) && vf.Forall(func(m int) bool {
		vf.Trig(views[m])
		return vf.Implies(0 <= m && m < len(views), views[m] == vf.Fn[string]("views:at", start, end, m))
	}))
	vf.Ensures("names of views", vf.Forall(func(m int) bool {
		vf.Trig(vf.Fn[string]("views:at", start, end, m))
		return vf.Fn[bool]("isview", vf.Fn[string]("views:at", start, end, m))
	}))
}
