package commands

import "github.com/gernest/requiemdb/internal/vf"

// The directory of the cache is the same throughout.
//
//vf:for Cache
//vf:props C23
//vf:trusted
func vfCache(base []string, dir string) {
	vf.Ensures(vf.Implies(len(base) == 0, dir == vf.Fn[string]("cache:dir", 0)))
}
