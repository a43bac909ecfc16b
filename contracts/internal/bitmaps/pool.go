package bitmaps

import "github.com/gernest/requiemdb/internal/vf"

// A bitmap from the pool is empty and has no key.
//
//vf:pool
//vf:props C03 C06 C07 C08 C09 C11 C20 C21
func vfPoolBitmap(b *Bitmap) {
	vf.Ensures("no values", vf.Forall(func(j uint64) bool { return !vf.In(&b.Bitmap, j) }))
	vf.Ensures("no key", len(b.key) == 0)
	vf.Ensures("the key is its own", vf.Ref(b.key) == 0 || vf.Owned(b.key))
}

//vf:for (*Bitmap).Release
//vf:props C03 C21
//vf:flag pool noframe
func vfRelease(s *Bitmap) {
	vf.Requires("it is in use", !vf.Pooled(s))
}
