package f2

import (
	"github.com/gernest/requiemdb/internal/translate"
	"github.com/gernest/requiemdb/internal/vf"
)

// vfCache: what the cache holds is what is stored.
func vfCache(t *translate.Translate) bool {
	return vf.Forall(func(k string) bool {
		vf.Trig(vf.Hash64(k))
		return vf.Implies(vf.CacheHas(vf.Hash64(k)), vf.KvHas(translate.VfKey(t, k)) && vf.CacheIs(vf.Hash64(k), vf.UnBe64(vf.KvVal(translate.VfKey(t, k)))))
	})
}

//vf:for (*cacheTr).Tr
//vf:props C01
func vfTr(b *cacheTr, key []byte, n uint64) {
	vf.Requires(b != nil && b.tr != nil && b.cache != nil)
	vf.Requires("translator", translate.VfT(b.tr))
	vf.Requires("cache", vfCache(b.tr))
	vf.Requires("nothing failed yet", vf.GhostInt("failed") == 0)
	vf.Modifies(vf.Ghost("kv"), vf.Ghost("seq"), vf.Ghost("failed"), vf.Ghost("cache"))
	vf.Ensures("the id of the key", vf.KvHas(translate.VfKey(b.tr, vf.Str(key))) && vf.KvVal(translate.VfKey(b.tr, vf.Str(key))) == vf.Be64(n))
	vf.Ensures("the cache holds what is stored", vfCache(b.tr))
	vf.Ensures("translator", translate.VfT(b.tr))
}
