package store_test

import (
	"math/rand"
	"testing"

	"github.com/gernest/requiemdb/internal/zzst"
	"github.com/gernest/requiemdb/internal/zzvt"
)

// TestVerifRanges compares the answers of requests with a time range with the
// samples whose hour is in the range.
func TestVerifRanges(t *testing.T) {
	var st zzvt.Stat
	defer st.Report(t)
	zzst.Worlds(t, "c06", zzvt.N(8), func(t *testing.T, r *rand.Rand, i int) {
		w := zzst.New(t, r, 0)
		defer w.Close()
		w.Save(t, 2+r.Intn(4))
		for n := 0; n < 40; n++ {
			s, want := w.Scan()
			if s.TimeRange == nil {
				continue
			}
			desc, bad := w.Check(s, want)
			st.Case(w.Log.String() + desc)
			if bad != "" {
				t.Fatalf("%s%s:\n%s", w.Log.String(), desc, bad)
			}
		}
	})
}
