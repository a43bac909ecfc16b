package store_test

import (
	"math/rand"
	"testing"

	"github.com/gernest/requiemdb/internal/zzst"
	"github.com/gernest/requiemdb/internal/zzvt"
)

// TestVerifFilters compares the answers of random requests with those found by
// going through all payloads.
func TestVerifFilters(t *testing.T) {
	var st zzvt.Stat
	defer st.Report(t)
	zzst.Worlds(t, "c07", zzvt.N(12), func(t *testing.T, r *rand.Rand, i int) {
		first := uint64(0)
		if i%3 > 0 {
			// columns lie in two shards
			first = 1<<20 - uint64(r.Intn(40))
		}
		w := zzst.New(t, r, first)
		defer w.Close()
		for round := 0; round < 3; round++ {
			if round > 0 || r.Intn(4) > 0 {
				w.Save(t, 1+r.Intn(4))
			}
			if round == 2 && r.Intn(3) == 0 {
				w.Reopen(t)
			}
			for n := 0; n < 30; n++ {
				desc, bad := w.Check(w.Scan())
				st.Case(w.Log.String() + desc)
				if bad != "" {
					t.Fatalf("columns from %d; %s%s:\n%s", first, w.Log.String(), desc, bad)
				}
			}
		}
	})
}
