package transform_test

import (
	"fmt"
	"testing"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/transform"
	"github.com/gernest/requiemdb/internal/zzvt"
)

// times lists all timestamps of a payload, by hand.
func times(d *v1.Data) (o []uint64) {
	for _, rm := range d.GetMetrics().GetResourceMetrics() {
		for _, sm := range rm.GetScopeMetrics() {
			for _, m := range sm.GetMetrics() {
				for _, p := range m.GetGauge().GetDataPoints() {
					o = append(o, p.GetTimeUnixNano())
				}
				for _, p := range m.GetSum().GetDataPoints() {
					o = append(o, p.GetTimeUnixNano())
				}
				for _, p := range m.GetHistogram().GetDataPoints() {
					o = append(o, p.GetTimeUnixNano())
				}
				for _, p := range m.GetExponentialHistogram().GetDataPoints() {
					o = append(o, p.GetTimeUnixNano())
				}
				for _, p := range m.GetSummary().GetDataPoints() {
					o = append(o, p.GetTimeUnixNano())
				}
			}
		}
	}
	for _, rl := range d.GetLogs().GetResourceLogs() {
		for _, sl := range rl.GetScopeLogs() {
			for _, r := range sl.GetLogRecords() {
				o = append(o, r.GetTimeUnixNano())
			}
		}
	}
	for _, rs := range d.GetTraces().GetResourceSpans() {
		for _, ss := range rs.GetScopeSpans() {
			for _, s := range ss.GetSpans() {
				o = append(o, s.GetStartTimeUnixNano(), s.GetEndTimeUnixNano())
			}
		}
	}
	return
}

func TestVerifBounds(t *testing.T) {
	r := zzvt.Rand("c04")
	var st zzvt.Stat
	tr := func(k []byte) uint64 { return uint64(len(k)) }
	c := transform.NewContext(tr)
	for i := 0; i < zzvt.N(900); i++ {
		g := zzvt.NewGen(r)
		g.Holes = true
		g.Big = 1 + r.Intn(3)
		switch r.Intn(4) {
		case 0:
			n := uint64(0)
			g.TS = func() uint64 { n += uint64(r.Intn(3)); return n }
		case 1:
			n := uint64(1000)
			g.TS = func() uint64 { n -= uint64(r.Intn(3)); return n }
		case 2:
			g.TS = func() uint64 { return []uint64{0, 1, 1 << 62, 1<<63 - 1, 1700000000000000000}[r.Intn(5)] }
		}
		if r.Intn(10) == 0 {
			c = transform.NewContext(tr)
		}
		var ls []*v1.Sample
		for n := 1 + r.Intn(3); n > 0; n-- {
			ls = append(ls, &v1.Sample{Id: uint64(r.Intn(100)), Data: g.Data(r.Intn(3)), MinTs: uint64(r.Intn(3)), MaxTs: uint64(r.Intn(3))})
		}
		if _, err := c.ProcessSamples(ls...); err != nil {
			t.Fatal(err)
		}
		for k, s := range ls {
			var lo, hi uint64
			for _, x := range times(s.Data) {
				if x == 0 {
					continue
				}
				if lo == 0 || x < lo {
					lo = x
				}
				if x > hi {
					hi = x
				}
			}
			d := fmt.Sprintf("sample %d of %d: %v", k+1, len(ls), s.Data)
			st.Case(d)
			if s.MinTs != lo || s.MaxTs != hi {
				t.Fatalf("input: %s\ngot  [%d, %d]\nwant [%d, %d]", d, s.MinTs, s.MaxTs, lo, hi)
			}
		}
	}
	st.Report(t)
}
