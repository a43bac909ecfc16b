package batch

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/gernest/requiemdb/internal/bitmaps"
	"github.com/gernest/requiemdb/internal/zzvt"
)

// TestVerifBatch builds batches of random samples and compares every bit of the
// fragments with the positions computed here.
func TestVerifBatch(t *testing.T) {
	r := zzvt.Rand("C05")
	var st zzvt.Stat
	defer st.Report(t)
	edges := []time.Time{
		time.Unix(0, 0), time.Unix(0, 1), time.Unix(0, -1),
		time.Date(2023, 12, 31, 23, 59, 59, 999999999, time.UTC), time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC),
		time.Date(2024, 2, 29, 0, 0, 0, 0, time.UTC), time.Date(2024, 2, 28, 23, 59, 59, 0, time.UTC), time.Date(2024, 3, 1, 0, 0, 0, 0, time.UTC),
		time.Date(2024, 10, 9, 9, 59, 59, 999999999, time.UTC), time.Date(2024, 10, 10, 10, 0, 0, 0, time.UTC),
	}
	cols := []uint64{0, 1, 2, 65535, 65536, 1048575, 1048576, 1048577, 2097151, 2097152, 3 << 20, 1 << 32, 1<<32 + 1048575, 1 << 40}
	ids := []uint64{0, 1, 2, 63, 64, 65535, 65536, 1 << 20, 1<<32 - 1, 1 << 32, 1<<44 - 1}
	for c := 0; c < zzvt.N(150); c++ {
		b := New()
		var desc strings.Builder
		for round := 0; round < 1+r.Intn(3); round++ {
			want := map[string]bool{}
			n := r.Intn(6)
			for i := 0; i < n; i++ {
				id := ids[r.Intn(len(ids))]
				if r.Intn(2) == 0 {
					id = uint64(r.Int63n(1 << 44))
				}
				ts := edges[r.Intn(len(edges))].UTC()
				if r.Intn(2) == 0 {
					ts = time.Unix(r.Int63n(4e9), r.Int63n(1e9)).UTC()
				}
				fmt.Fprintf(&desc, "id=%d ts=%s", id, ts.Format(time.RFC3339Nano))
				bm := bitmaps.New()
				k := r.Intn(6)
				for j := 0; j < k; j++ {
					col := cols[r.Intn(len(cols))]
					if r.Intn(3) == 0 {
						col = uint64(r.Int63n(1 << 24))
					}
					fmt.Fprintf(&desc, " col=%d", col)
					bm.Add(col)
					y, m, d := ts.Date()
					for _, v := range []string{
						fmt.Sprintf("std_%04d", y), fmt.Sprintf("std_%04d%02d", y, int(m)),
						fmt.Sprintf("std_%04d%02d%02d", y, int(m), d), fmt.Sprintf("std_%04d%02d%02d%02d", y, int(m), d, ts.Hour()),
					} {
						want[fmt.Sprintf("shard %d view %s row %d column %d", col>>20, v, id, col&(1<<20-1))] = true
					}
				}
				desc.WriteString("; ")
				b.Add(id, ts, bm)
			}
			desc.WriteString("build; ")
			st.Case(desc.String())
			fr, err := b.Build()
			if err != nil {
				t.Fatalf("%s: %v", desc.String(), err)
			}
			got := map[string]bool{}
			for s, vs := range fr {
				for v, x := range vs {
					for _, p := range x.Slice() {
						got[fmt.Sprintf("shard %d view %s row %d column %d", s, v, p>>20, p&(1<<20-1))] = true
					}
				}
			}
			if d := diff05(want, got); d != "" {
				t.Fatalf("%s\n%s", desc.String(), d)
			}
		}
	}
}

func diff05(want, got map[string]bool) string {
	var o []string
	for k := range want {
		if !got[k] {
			o = append(o, "missing "+k)
		}
	}
	for k := range got {
		if !want[k] {
			o = append(o, "not expected "+k)
		}
	}
	sort.Strings(o)
	if len(o) > 5 {
		o = o[:5]
	}
	return strings.Join(o, "\n")
}
