package translate

import (
	"github.com/dgraph-io/badger/v4"
	"github.com/gernest/requiemdb/internal/vf"
)

// The column of a key, if it was ever stored (C01).
//
//vf:for (*Translate).Find
//vf:props C07
//vf:trusted
func vfFind07(b *Translate, key []byte, n uint64, err error) {
	vf.Ensures("found", vf.Implies(err == nil, vf.Fn[bool]("known", vf.Str(key)) && n == vf.Fn[uint64]("column", vf.Str(key))))
	vf.Ensures("not found", vf.Implies(err != nil, vf.Iff(vf.Fn[bool]("errorsIs", err, badger.ErrKeyNotFound), !vf.Fn[bool]("known", vf.Str(key)))))
}
