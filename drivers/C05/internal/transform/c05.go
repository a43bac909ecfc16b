package transform_test

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/transform"
	"github.com/gernest/requiemdb/internal/zzvt"
)

// TestVerifPlacement sends samples through one context and compares the bits
// with the columns the translator gave out for each sample.
func TestVerifPlacement(t *testing.T) {
	r := zzvt.Rand("c05")
	var st zzvt.Stat
	defer st.Report(t)
	// columns are unique over the whole run, so those of a sample are known
	// from the order in which samples are processed
	var seen []uint64
	next := uint64(0)
	ctx := transform.NewContext(func(k []byte) uint64 {
		seen = append(seen, next)
		next += 1 + uint64(r.Intn(70000))
		return seen[len(seen)-1]
	})
	for i := 0; i < zzvt.N(300); i++ {
		g := zzvt.NewGen(r)
		g.TS = func() uint64 {
			if r.Intn(3) == 0 {
				return uint64(time.Date(2023, 12, 31, 23, 59, 59, 999999999, time.UTC).UnixNano()) + uint64(r.Intn(2))
			}
			return 1 + uint64(r.Int63n(4e18))
		}
		s := &v1.Sample{Id: uint64(r.Int63n(1 << 40)), Data: g.Data(r.Intn(3))}
		seen = seen[:0]
		fr, err := ctx.ProcessSamples(s)
		if err != nil {
			t.Fatal(err)
		}
		ts := times(s.Data)
		var min uint64
		for j, v := range ts {
			if j == 0 || v < min {
				min = v
			}
		}
		u := time.Unix(0, int64(min)).UTC()
		st.Case(fmt.Sprintf("id=%d at %s with %d columns", s.Id, u.Format(time.RFC3339Nano), len(seen)))
		want := map[string]bool{}
		for _, col := range seen {
			y, m, d := u.Date()
			for _, v := range []string{
				fmt.Sprintf("std_%04d", y), fmt.Sprintf("std_%04d%02d", y, int(m)),
				fmt.Sprintf("std_%04d%02d%02d", y, int(m), d), fmt.Sprintf("std_%04d%02d%02d%02d", y, int(m), d, u.Hour()),
			} {
				want[fmt.Sprintf("shard %d view %s row %d column %d", col>>20, v, s.Id, col&(1<<20-1))] = true
			}
		}
		var o []string
		for sh, vs := range fr {
			for v, x := range vs {
				for _, p := range x.Slice() {
					k := fmt.Sprintf("shard %d view %s row %d column %d", sh, v, p>>20, p&(1<<20-1))
					if !want[k] {
						o = append(o, "not expected "+k)
					}
					delete(want, k)
				}
			}
		}
		for k := range want {
			o = append(o, "missing "+k)
		}
		if len(o) > 0 {
			sort.Strings(o)
			if len(o) > 5 {
				o = o[:5]
			}
			t.Fatalf("sample %d starting at %s:\n%s", s.Id, u.Format(time.RFC3339Nano), strings.Join(o, "\n"))
		}
	}
}

// times lists all timestamps of a payload, by hand.
func times(d *v1.Data) (o []uint64) {
	for _, rm := range d.GetMetrics().GetResourceMetrics() {
		for _, sm := range rm.GetScopeMetrics() {
			for _, m := range sm.GetMetrics() {
				for _, p := range m.GetGauge().GetDataPoints() {
					o = append(o, p.GetTimeUnixNano())
				}
				for _, p := range m.GetSum().GetDataPoints() {
					o = append(o, p.GetTimeUnixNano())
				}
				for _, p := range m.GetHistogram().GetDataPoints() {
					o = append(o, p.GetTimeUnixNano())
				}
				for _, p := range m.GetExponentialHistogram().GetDataPoints() {
					o = append(o, p.GetTimeUnixNano())
				}
				for _, p := range m.GetSummary().GetDataPoints() {
					o = append(o, p.GetTimeUnixNano())
				}
			}
		}
	}
	for _, rl := range d.GetLogs().GetResourceLogs() {
		for _, sl := range rl.GetScopeLogs() {
			for _, r := range sl.GetLogRecords() {
				o = append(o, r.GetTimeUnixNano())
			}
		}
	}
	for _, rs := range d.GetTraces().GetResourceSpans() {
		for _, ss := range rs.GetScopeSpans() {
			for _, s := range ss.GetSpans() {
				o = append(o, s.GetStartTimeUnixNano(), s.GetEndTimeUnixNano())
			}
		}
	}
	return
}
