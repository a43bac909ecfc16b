package arena

import "github.com/gernest/requiemdb/internal/vf"

// An arena from the pool holds nothing, and its memory is its own.
//
//vf:pool
//vf:props C08 C09 C15 C21
func vfPoolArena(a *Arena) {
	vf.Ensures("no bytes", len(a.data) == 0 && a.offset == 0)
	vf.Ensures("the memory is its own", vf.Ref(a.data) == 0 || vf.Owned(a.data))
}
