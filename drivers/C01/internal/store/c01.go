package store_test

import (
	"fmt"
	"testing"
	"time"

	"github.com/dgraph-io/badger/v4"
	"github.com/gernest/requiemdb/internal/seq"
	"github.com/gernest/requiemdb/internal/shards"
	"github.com/gernest/requiemdb/internal/store"
	"github.com/gernest/requiemdb/internal/translate"
	"github.com/gernest/requiemdb/internal/zzvt"
)

// The cache in front of the translation.
func TestVerifC01Cache(t *testing.T) {
	var st zzvt.Stat
	defer st.Report(t)
	for round := 0; round < zzvt.N(3); round++ {
		r := zzvt.Rand(fmt.Sprint("c01/cache/", round))
		dir := t.TempDir()
		db, err := badger.Open(badger.DefaultOptions(dir).WithLogger(nil).WithMemTableSize(8 << 20).WithValueLogFileSize(16 << 20))
		if err != nil {
			t.Fatal(err)
		}
		tr, err := translate.New(db, []byte("t"))
		if err != nil {
			t.Fatal(err)
		}
		sq, err := seq.New(db)
		if err != nil {
			t.Fatal(err)
		}
		var s *store.Storage
		mk := func() {
			s, err = store.NewStore(db, shards.New(t.TempDir(), nil), tr, sq, time.Now)
			if err != nil {
				t.Fatal(err)
			}
		}
		mk()
		ids, keys := map[string]uint64{}, map[uint64]string{}
		buf := make([]byte, 0, 64)
		for i := 0; i < 600; i++ {
			k := fmt.Sprintf("%d:%d:%s", r.Intn(3), r.Intn(12), []string{"a", "b", "a=b", "", "c"}[r.Intn(5)])
			buf = append(buf[:0], k...) // callers reuse their buffer
			n := s.Translate(buf)
			if o, ok := ids[k]; ok && o != n {
				t.Fatalf("%q is %d and then %d", k, o, n)
			}
			if o, ok := keys[n]; ok && o != k {
				t.Fatalf("%d is issued for %q and for %q", n, o, k)
			}
			ids[k], keys[n] = n, k
			if m, err := tr.Find([]byte(k)); err != nil || m != n {
				t.Fatalf("%q is %d but stored as %d, %v", k, n, m, err)
			}
			if o, err := tr.TranslateID(n); err != nil || o != k {
				t.Fatalf("id %d of %q leads to %q, %v", n, k, o, err)
			}
			st.Case(k)
			switch r.Intn(60) {
			case 0:
				s.Close()
				mk()
			case 1:
				time.Sleep(15 * time.Millisecond) // the cache takes over
			}
		}
		s.Close()
		tr.Close()
		db.Close()
	}
}
