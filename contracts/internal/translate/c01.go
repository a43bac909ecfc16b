package translate

import (
	"bytes"

	"github.com/dgraph-io/badger/v4"
	"github.com/gernest/requiemdb/internal/vf"
)

// The forward entry of key k and the backward entry of id n.
func VfKey(b *Translate, k string) string { return vf.Str(b.keys) + k }
func VfID(b *Translate, n uint64) string  { return vf.Str(b.ids) + vf.Be64(n) }

// vfSpaces: entries of keys, of ids and of the sequence do not meet.
func vfSpaces(b *Translate) bool {
	return vf.Forall(func(k string, n uint64) bool {
		vf.Trig(VfKey(b, k), VfID(b, n))
		return VfKey(b, k) != VfID(b, n)
	}) && vf.Forall(func(k string) bool {
		vf.Trig(VfKey(b, k))
		return VfKey(b, k) != vf.SeqKey(b.seq)
	}) && vf.Forall(func(n uint64) bool {
		vf.Trig(VfID(b, n))
		return VfID(b, n) != vf.SeqKey(b.seq)
	})
}

// vfForward: a stored key has an id that was issued, and leads back.
func vfForward(b *Translate) bool {
	return vf.Forall(func(k string) bool {
		vf.Trig(vf.KvHas(VfKey(b, k)))
		return vf.Implies(vf.KvHas(VfKey(b, k)),
			len(vf.KvVal(VfKey(b, k))) == 8 && vfN(b, k) < vf.SeqNext(vf.SeqKey(b.seq)) &&
				vf.KvHas(VfID(b, vfN(b, k))) && vf.KvVal(VfID(b, vfN(b, k))) == k)
	})
}
func vfN(b *Translate, k string) uint64 { return vf.UnBe64(vf.KvVal(VfKey(b, k))) }

// vfBackward: a stored id was issued and leads to its key and back.
func vfBackward(b *Translate) bool {
	return vf.Forall(func(n uint64) bool {
		vf.Trig(vf.KvHas(VfID(b, n)))
		return vf.Implies(vf.KvHas(VfID(b, n)),
			n < vf.SeqNext(vf.SeqKey(b.seq)) &&
				vf.KvHas(VfKey(b, vf.KvVal(VfID(b, n)))) && vf.KvVal(VfKey(b, vf.KvVal(VfID(b, n)))) == vf.Be64(n))
	})
}

func VfT(b *Translate) bool {
	return b != nil && b.db != nil && b.seq != nil && vfSpaces(b) && vfForward(b) && vfBackward(b)
}

// A buffer from the pool is empty.
//
//vf:pool
//vf:props C01 C21
func vfPoolBuffer(b *bytes.Buffer) {
	vf.Ensures("empty", vf.Text(b) == "")
}

//vf:for (*Translate).TranslateKey
//vf:props C01
//vf:flag pool
func vfTranslateKey(b *Translate, key []byte, n uint64, err error) {
	vf.Requires("translator", VfT(b))
	vf.Requires("nothing failed yet", vf.GhostInt("failed") == 0)
	vf.Modifies(vf.Ghost("kv"), vf.Ghost("seq"), vf.Ghost("failed"))
	vf.Ensures("the id is the stored one", vf.Implies(err == nil, vf.KvHas(VfKey(b, vf.Str(key))) && vf.KvVal(VfKey(b, vf.Str(key))) == vf.Be64(n)))
	vf.Ensures("it leads back to the key", vf.Implies(err == nil, vf.KvHas(VfID(b, n)) && vf.KvVal(VfID(b, n)) == vf.Str(key)))
	vf.Ensures("a known key keeps its id", vf.Implies(err == nil && vf.Old(vf.KvHas(VfKey(b, vf.Str(key)))), vf.Be64(n) == vf.Old(vf.KvVal(VfKey(b, vf.Str(key))))))
	vf.Ensures("other keys are as before", vf.Forall(func(k string) bool {
		vf.Trig(vf.KvHas(VfKey(b, k)))
		return vf.Implies(k != vf.Str(key), vf.KvHas(VfKey(b, k)) == vf.Old(vf.KvHas(VfKey(b, k))) && vf.KvVal(VfKey(b, k)) == vf.Old(vf.KvVal(VfKey(b, k))))
	}))
	vf.Ensures("nothing is stored on failure", vf.Implies(err != nil, vf.Forall(func(k string) bool {
		vf.Trig(vf.KvHas(VfKey(b, k)))
		return vf.KvHas(VfKey(b, k)) == vf.Old(vf.KvHas(VfKey(b, k))) && vf.KvVal(VfKey(b, k)) == vf.Old(vf.KvVal(VfKey(b, k)))
	})))
	vf.Ensures("keys lead to ids and back", vfForward(b))
	vf.Ensures("ids lead to keys and back", vfBackward(b))
	vf.Ensures("failures are reported", vf.Implies(err == nil, vf.GhostInt("failed") == 0))
}

//vf:for (*Translate).Find
//vf:props C01 C08
//vf:flag pool
func vfFind(b *Translate, key []byte, n uint64, err error) {
	vf.Requires("translator", VfT(b))
	vf.Requires("nothing failed yet", vf.GhostInt("failed") == 0)
	vf.Modifies(vf.Ghost("failed"))
	vf.Ensures("found", vf.Implies(err == nil, vf.KvHas(VfKey(b, vf.Str(key))) && vf.KvVal(VfKey(b, vf.Str(key))) == vf.Be64(n)))
	vf.Ensures("missing keys are reported", vf.Implies(err != nil, vf.Iff(vf.Fn[bool]("errorsIs", err, badger.ErrKeyNotFound), !vf.KvHas(VfKey(b, vf.Str(key))) && vf.GhostInt("failed") == 0)))
	vf.Ensures("failures are reported", vf.Implies(err == nil, vf.GhostInt("failed") == 0))
}

//vf:for (*Translate).TranslateID
//vf:props C01
//vf:flag pool
func vfTranslateID(b *Translate, id uint64, k string, err error) {
	vf.Requires("translator", VfT(b))
	vf.Requires("nothing failed yet", vf.GhostInt("failed") == 0)
	vf.Modifies(vf.Ghost("failed"))
	vf.Ensures("the key it was issued for", vf.Implies(err == nil, vf.KvHas(VfKey(b, k)) && vf.KvVal(VfKey(b, k)) == vf.Be64(id)))
	vf.Ensures("missing ids are reported", vf.Implies(!vf.KvHas(VfID(b, id)), err != nil))
	vf.Ensures("failures are reported", vf.Implies(err == nil, vf.GhostInt("failed") == 0))
}

//vf:for New
//vf:props C01
func vfNew(db *badger.DB, prefix []byte, t *Translate, err error) {
	vf.Requires(db != nil && vf.GhostInt("failed") == 0)
	vf.Modifies(vf.Ghost("kv"), vf.Ghost("failed"))
	vf.Ensures("made", vf.Implies(err == nil, t != nil && vf.Fresh(t) && t.db == db && t.seq != nil))
	vf.Ensures("spaces of the prefix", vf.Implies(err == nil, vf.Str(t.keys) == vf.Old(vf.Str(prefix))+"keys" && vf.Str(t.ids) == vf.Old(vf.Str(prefix))+"ids" && vf.SeqKey(t.seq) == vf.Old(vf.Str(prefix))+"seq"))
	vf.Ensures("spaces do not meet", vf.Implies(err == nil, vfSpaces(t)))
	vf.Ensures("stored keys are as before", vf.Implies(err == nil, vf.Forall(func(k string) bool {
		vf.Trig(vf.KvHas(VfKey(t, k)))
		return vf.KvHas(VfKey(t, k)) == vf.Old(vf.KvHas(vf.Str(prefix)+"keys"+k)) && vf.KvVal(VfKey(t, k)) == vf.Old(vf.KvVal(vf.Str(prefix)+"keys"+k))
	})))
	vf.Ensures("stored ids are as before", vf.Implies(err == nil, vf.Forall(func(n uint64) bool {
		vf.Trig(vf.KvHas(VfID(t, n)))
		return vf.KvHas(VfID(t, n)) == vf.Old(vf.KvHas(vf.Str(prefix)+"ids"+vf.Be64(n))) && vf.KvVal(VfID(t, n)) == vf.Old(vf.KvVal(vf.Str(prefix)+"ids"+vf.Be64(n)))
	})))
	vf.Ensures("failures are reported", vf.Implies(err == nil, vf.GhostInt("failed") == 0))
}

//vf:for (*Translate).TranslateBulkID
//vf:props C01
//vf:flag pool
func vfTranslateBulkID(b *Translate, ids []uint64, f func(key []byte) error, err error) {
	vf.Requires("translator", VfT(b))
	vf.Requires("nothing failed yet", vf.GhostInt("failed") == 0 && vf.GhostInt("calls") == 0)
	vf.Modifies(vf.Ghost("failed"), vf.Ghost("calls"))
	vf.Ensures("the keys in order", vf.Implies(err == nil, vf.GhostInt("calls") == len(ids) && vf.Forall(func(j int) bool {
		vf.Trig(vf.CallVal(j))
		return vf.Implies(0 <= j && j < len(ids), vf.KvHas(VfKey(b, vf.CallVal(j))) && vf.KvVal(VfKey(b, vf.CallVal(j))) == vf.Be64(ids[j]))
	})))
	vf.LoopOver(func(i int, s []uint64) {
		vf.Invariant("called", vf.GhostInt("calls") == i && vf.GhostInt("failed") == 0)
		vf.Invariant("the keys in order", vf.Forall(func(j int) bool {
			vf.Trig(vf.CallVal(j))
			return vf.Implies(0 <= j && j < i, vf.KvHas(VfKey(b, vf.CallVal(j))) && vf.KvVal(VfKey(b, vf.CallVal(j))) == vf.Be64(ids[j]))
		}))
	})
}
