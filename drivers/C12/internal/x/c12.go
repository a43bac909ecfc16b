package x_test

import (
	"fmt"
	"testing"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/x"
	"github.com/gernest/requiemdb/internal/zzvt"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

func TestVerifTimeBounds(t *testing.T) {
	r := zzvt.Rand("c12")
	var st zzvt.Stat
	ts := func() time.Time {
		switch r.Intn(4) {
		case 0:
			return time.Unix(r.Int63n(1<<33), r.Int63n(1e9))
		case 1:
			return time.Unix(-r.Int63n(1<<33), r.Int63n(1e9)).UTC()
		case 2:
			return time.Unix(0, 0).UTC()
		}
		return time.Date(2024, 3, 31, 1, 59, 59, 999999999, time.FixedZone("z", 7200))
	}
	for i := 0; i < zzvt.N(3000); i++ {
		now := ts()
		s := &v1.Scan{}
		ref := now
		if r.Intn(2) == 0 {
			n := ts()
			s.Now = timestamppb.New(n)
			ref = n
		}
		if r.Intn(2) == 0 {
			d := time.Duration(r.Int63()>>uint(r.Intn(40)+1)) * time.Duration(1-2*r.Intn(2))
			if r.Intn(5) == 0 {
				d = 0
			}
			s.Offset = durationpb.New(d)
			ref = ref.Add(-d)
		}
		ws, we := ref.Add(-15*time.Minute), ref
		if r.Intn(2) == 0 {
			a, b := ts(), ts()
			s.TimeRange = &v1.Scan_TimeRange{Start: timestamppb.New(a), End: timestamppb.New(b)}
			ws, we = a, b
		}
		if r.Intn(4) == 0 {
			s.Filters = []*v1.Scan_Filter{{}}
			s.Limit, s.Reverse = 3, true
		}
		d := fmt.Sprintf("now=%s scan={%v}", now, s)
		st.Case(d)
		gs, ge := x.TimeBounds(func() time.Time { return now }, s)
		if !gs.Equal(ws) || !ge.Equal(we) {
			t.Fatalf("input: %s\ngot  [%s, %s]\nwant [%s, %s]", d, gs.UTC(), ge.UTC(), ws.UTC(), we.UTC())
		}
	}
	st.Report(t)
}
