package view

import (
	"fmt"
	"testing"
	"time"

	"github.com/gernest/requiemdb/internal/zzvt"
)

func names06(u time.Time) [4]string {
	y, m, d := u.Date()
	return [4]string{
		fmt.Sprintf("std_%04d", y), fmt.Sprintf("std_%04d%02d", y, int(m)),
		fmt.Sprintf("std_%04d%02d%02d", y, int(m), d), fmt.Sprintf("std_%04d%02d%02d%02d", y, int(m), d, u.Hour()),
	}
}

func TestVerifSearch(t *testing.T) {
	r := zzvt.Rand("c06")
	var st zzvt.Stat
	defer st.Report(t)
	hour := time.Hour
	day := 24 * hour
	lens := []time.Duration{0, 1, time.Minute, hour - 1, hour, hour + 1, 3 * hour, 23 * hour, day - 1, day, day + 1, 2 * day, 10*day + 5*hour, 30*day - 1, 30 * day, 30*day + 1, 61 * day, 200 * day, 360*day - 1, 360 * day, 360*day + 1, 366 * day, 800 * day}
	starts := []time.Time{
		time.Date(2023, 12, 31, 23, 59, 59, 999999999, time.UTC), time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2024, 2, 29, 12, 30, 0, 0, time.UTC),
		time.Date(2024, 1, 31, 1, 0, 0, 1, time.UTC), time.Date(2023, 2, 28, 22, 15, 0, 0, time.UTC), time.Date(2024, 12, 1, 0, 0, 0, 0, time.UTC), time.Date(2024, 6, 30, 23, 0, 0, 0, time.UTC),
	}
	for i := 0; i < zzvt.N(500); i++ {
		s := starts[r.Intn(len(starts))]
		if r.Intn(2) == 0 {
			s = time.Unix(r.Int63n(4e9), r.Int63n(1e9)).UTC()
		}
		d := lens[r.Intn(len(lens))]
		if r.Intn(2) == 0 {
			d = time.Duration(r.Int63n(int64(lens[1+r.Intn(len(lens)-1)])) + 1)
		}
		e := s.Add(d)
		desc := s.Format(time.RFC3339Nano) + " to " + e.Format(time.RFC3339Nano)
		st.Case(desc)
		want := 3
		switch {
		case d >= 360*day:
			want = 0
		case d >= 30*day:
			want = 1
		case d >= day:
			want = 2
		}
		if q := string(ChooseQuantum(d)); q != "YMDH"[want:want+1] {
			t.Fatalf("a range of %v is searched by %q", d, q)
		}
		has := map[string]bool{}
		for _, v := range Search(s, e) {
			has[v] = true
			if len(v) != len("std_")+4+2*want {
				t.Fatalf("%s: view %s has another granularity", desc, v)
			}
		}
		if !e.After(s) {
			continue
		}
		for u := s.Truncate(hour); u.Before(e); u = u.Add(hour) {
			n := names06(u)
			if !has[n[0]] && !has[n[1]] && !has[n[2]] && !has[n[3]] {
				t.Fatalf("%s: no view has the hour %s", desc, n[3])
			}
		}
	}
}
