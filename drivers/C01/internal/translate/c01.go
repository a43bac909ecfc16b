package translate_test

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"testing"

	"github.com/dgraph-io/badger/v4"
	"github.com/gernest/requiemdb/internal/translate"
	"github.com/gernest/requiemdb/internal/zzvt"
)

func open(t *testing.T, dir string) *badger.DB {
	db, err := badger.Open(badger.DefaultOptions(dir).WithLogger(nil).WithMemTableSize(8 << 20).WithValueLogFileSize(16 << 20).WithNumCompactors(2))
	if err != nil {
		t.Fatal(err)
	}
	return db
}

// key makes keys that resemble one another and the entries of the store.
func key(r *rand.Rand) []byte {
	parts := []string{"", "a", "b", "keys", "ids", "seq", "\x00", "\x00\x00\x00\x00\x00\x00\x00\x01", "\xff", "1:2:service=x", "1:2:service", "p", "pp", "日本", "="}
	var b []byte
	for i := r.Intn(4); i >= 0; i-- {
		b = append(b, parts[r.Intn(len(parts))]...)
	}
	if r.Intn(30) == 0 {
		b = append(b, bytes.Repeat([]byte("long"), r.Intn(2000))...)
	}
	return b
}

type world struct {
	tr    *translate.Translate
	byKey map[string]uint64
	byID  map[uint64]string
}

func TestVerifC01Translate(t *testing.T) {
	var st zzvt.Stat
	defer st.Report(t)
	for round := 0; round < zzvt.N(6); round++ {
		r := zzvt.Rand(fmt.Sprint("c01/", round))
		dir := t.TempDir()
		db := open(t, dir)
		// several key spaces in one database
		prefixes := [][]byte{[]byte("p"), []byte("pp"), append(make([]byte, 0, 64), "tr/"...), {1, 0, 0, 0, 0, 0, 0, 0}, {}}
		r.Shuffle(len(prefixes), func(i, j int) { prefixes[i], prefixes[j] = prefixes[j], prefixes[i] })
		prefixes = prefixes[:1+r.Intn(3)]
		ws := make([]*world, len(prefixes))
		start := func() {
			for i, p := range prefixes {
				before := append([]byte{}, p[:cap(p)]...)
				tr, err := translate.New(db, p)
				if err != nil {
					t.Fatal(err)
				}
				if !bytes.Equal(before, p[:cap(p)]) {
					t.Errorf("New changes the bytes behind its prefix %q", p)
				}
				if ws[i] == nil {
					ws[i] = &world{byKey: map[string]uint64{}, byID: map[uint64]string{}}
				}
				ws[i].tr = tr
			}
		}
		start()
		trace := []string{}
		for step := 0; step < 160; step++ {
			i := r.Intn(len(ws))
			w := ws[i]
			k := key(r)
			ctx := func() string { return fmt.Sprintf("prefix %q key %q after %v", prefixes[i], k, tail(trace)) }
			switch op := r.Intn(20); {
			case op < 9:
				buf := append([]byte{}, k...)
				n, err := w.tr.TranslateKey(buf)
				if err != nil {
					t.Fatalf("TranslateKey: %v (%s)", err, ctx())
				}
				if !bytes.Equal(buf, k) {
					t.Errorf("TranslateKey changed its key: %s", ctx())
				}
				// the caller goes on using its buffer
				for j := range buf {
					buf[j] = 'X'
				}
				old, known := w.byKey[string(k)]
				if known && old != n {
					t.Errorf("key has ids %d and %d: %s", old, n, ctx())
				}
				if o, taken := w.byID[n]; taken && o != string(k) {
					t.Errorf("id %d was issued for %q and again: %s", n, o, ctx())
				}
				w.byKey[string(k)], w.byID[n] = n, string(k)
				st.Case(fmt.Sprintf("translate %q known=%v", k, known))
				trace = append(trace, fmt.Sprintf("translate %q=%d", k, n))
			case op < 13:
				n, err := w.tr.Find(k)
				want, known := w.byKey[string(k)]
				switch {
				case known && (err != nil || n != want):
					t.Errorf("Find is %d, %v instead of %d: %s", n, err, want, ctx())
				case !known && !errors.Is(err, badger.ErrKeyNotFound):
					t.Errorf("Find of a missing key is %d, %v: %s", n, err, ctx())
				}
				st.Case(fmt.Sprintf("find %q known=%v", k, known))
			case op < 16:
				for id, want := range w.byID {
					got, err := w.tr.TranslateID(id)
					if err != nil || got != want {
						t.Errorf("TranslateID(%d) is %q, %v instead of %q: %s", id, got, err, want, ctx())
					}
					break
				}
				id := uint64(1<<40) + r.Uint64()>>20
				if _, ok := w.byID[id]; !ok {
					if got, err := w.tr.TranslateID(id); err == nil {
						t.Errorf("TranslateID of an id that was never issued is %q: %s", got, ctx())
					}
				}
				st.Case("ids")
			case op < 18:
				var ids []uint64
				var want []string
				for id, k := range w.byID {
					ids, want = append(ids, id), append(want, k)
					if len(ids) > 5 {
						break
					}
				}
				var got []string
				err := w.tr.TranslateBulkID(ids, func(k []byte) error { got = append(got, string(k)); return nil })
				if err != nil || fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
					t.Errorf("TranslateBulkID(%d) is %q, %v instead of %q", ids, got, err, want)
				}
				if len(ids) > 0 {
					stop := errors.New("stop")
					if err := w.tr.TranslateBulkID(ids, func(k []byte) error { return stop }); !errors.Is(err, stop) {
						t.Errorf("TranslateBulkID hides the error of its callback: %v", err)
					}
					if err := w.tr.TranslateBulkID([]uint64{ids[0], 1 << 50}, func(k []byte) error { return nil }); err == nil {
						t.Errorf("TranslateBulkID hides a missing id")
					}
				}
				st.Case(fmt.Sprint("bulk ", len(ids)))
			case op == 18:
				for _, w := range ws {
					if err := w.tr.Close(); err != nil {
						t.Fatal(err)
					}
				}
				start()
				trace = append(trace, "restart")
			default:
				if r.Intn(2) == 0 {
					for _, w := range ws {
						w.tr.Close()
					}
				}
				if err := db.Close(); err != nil {
					t.Fatal(err)
				}
				db = open(t, dir)
				start()
				trace = append(trace, "reopen")
			}
		}
		for i, w := range ws {
			for k, n := range w.byKey {
				if got, err := w.tr.Find([]byte(k)); err != nil || got != n {
					t.Errorf("prefix %q: in the end %q is %d, %v instead of %d", prefixes[i], k, got, err, n)
				}
				if got, err := w.tr.TranslateID(n); err != nil || got != k {
					t.Errorf("prefix %q: in the end %d is %q, %v instead of %q", prefixes[i], n, got, err, k)
				}
			}
		}
		db.Close()
	}
}

func tail(s []string) []string { return s[max(0, len(s)-8):] }

// More keys than one lease of ids, with restarts in between.
func TestVerifC01Leases(t *testing.T) {
	var st zzvt.Stat
	defer st.Report(t)
	dir := t.TempDir()
	db := open(t, dir)
	defer func() { db.Close() }()
	tr, err := translate.New(db, []byte("x"))
	if err != nil {
		t.Fatal(err)
	}
	ids := map[uint64]int{}
	of := map[int]uint64{}
	const n = 9000
	for i := 0; i < n; i++ {
		id, err := tr.TranslateKey([]byte(fmt.Sprint("k", i)))
		if err != nil {
			t.Fatal(err)
		}
		if j, ok := ids[id]; ok {
			t.Fatalf("keys k%d and k%d have the same id %d", j, i, id)
		}
		ids[id], of[i] = i, id
		if i == 4097 || i == 6000 {
			if i == 6000 {
				tr.Close()
			}
			db.Close()
			db = open(t, dir)
			if tr, err = translate.New(db, []byte("x")); err != nil {
				t.Fatal(err)
			}
		}
	}
	for i := 0; i < n; i += 7 {
		if k, err := tr.TranslateID(of[i]); err != nil || k != fmt.Sprint("k", i) {
			t.Fatalf("id %d of k%d is %q, %v", of[i], i, k, err)
		}
		if id, err := tr.TranslateKey([]byte(fmt.Sprint("k", i))); err != nil || id != of[i] {
			t.Fatalf("k%d is %d, %v instead of %d", i, id, err, of[i])
		}
	}
	st.Case("leases")
}

// Lookups next to translations of other keys.
func TestVerifC01Concurrent(t *testing.T) {
	var st zzvt.Stat
	defer st.Report(t)
	db := open(t, t.TempDir())
	defer db.Close()
	tr, err := translate.New(db, append(make([]byte, 0, 256), "conc/"...))
	if err != nil {
		t.Fatal(err)
	}
	want := map[string]uint64{}
	for i := 0; i < 200; i++ {
		k := fmt.Sprintf("%0*d", 1+i%40, i)
		n, err := tr.TranslateKey([]byte(k))
		if err != nil {
			t.Fatal(err)
		}
		want[k] = n
	}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for round := 0; round < zzvt.N(20); round++ {
				for k, n := range want {
					if got, err := tr.Find([]byte(k)); err != nil || got != n {
						t.Errorf("Find(%q) next to other lookups is %d, %v instead of %d", k, got, err, n)
						return
					}
					if _, err := tr.Find([]byte(k + "missing")); !errors.Is(err, badger.ErrKeyNotFound) {
						t.Errorf("Find of a missing key next to other lookups: %v", err)
						return
					}
				}
			}
		}()
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < 300; i++ {
			if _, err := tr.TranslateKey([]byte(fmt.Sprint("new", i))); err != nil {
				t.Errorf("TranslateKey: %v", err)
				return
			}
		}
	}()
	wg.Wait()
	st.Case("concurrent")
}
