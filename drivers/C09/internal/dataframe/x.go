package dataframe_test

import (
	"context"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/bitmaps"
	"github.com/gernest/requiemdb/internal/dataframe"
	"github.com/gernest/requiemdb/internal/zzst"
	"github.com/gernest/requiemdb/internal/zzvt"
	"google.golang.org/protobuf/proto"
)

type row struct {
	id    uint64
	kind  v1.RESOURCE
	at    time.Time
	lines []string
}

// TestVerifC09 stores payloads under ids with gaps, in several batches, kinds
// and views, and asks for them by id.
func TestVerifC09(t *testing.T) {
	var st zzvt.Stat
	defer st.Report(t)
	zzst.Worlds(t, "c09", zzvt.N(8), func(t *testing.T, r *rand.Rand, i int) {
		w := zzst.New(t, r, 0)
		defer w.Close()
		df := dataframe.New(w.DB)
		base := time.Date(2024, 2, 28, 20, 0, 0, 0, time.UTC)
		var rows []row
		next := uint64(r.Intn(3))
		var log strings.Builder
		for b := 0; b < 2+r.Intn(4); b++ {
			var in []*v1.Sample
			hours := 1 + r.Intn(4)
			for k := r.Intn(6); k > 0; k-- {
				kind := v1.RESOURCE(1 + r.Intn(3))
				at := base.Add(time.Duration(r.Intn(hours))*time.Hour + time.Duration(r.Int63n(int64(time.Hour))))
				if r.Intn(5) == 0 {
					at = at.Truncate(time.Hour)
				}
				d := w.Payload(kind)
				lines, _, _ := zzst.Describe(d)
				rows = append(rows, row{next, kind, at, lines})
				fmt.Fprintf(&log, "%d:%s@%s ", next, kind, at.Format(time.RFC3339Nano))
				in = append(in, &v1.Sample{Id: next, Data: proto.Clone(d).(*v1.Data), MinTs: uint64(at.UnixNano())})
				next += 1 + uint64(r.Intn(3)*r.Intn(3))
			}
			log.WriteString("| ")
			if err := df.Append(context.Background(), in...); err != nil {
				t.Fatalf("%s: %v", log.String(), err)
			}
			for q := 0; q < 6; q++ {
				kind := v1.RESOURCE(1 + r.Intn(3))
				from := r.Intn(4)
				n := 1 + r.Intn(3)
				s := base.Add(time.Duration(from) * time.Hour)
				e := s.Add(time.Duration(n) * time.Hour)
				ask := bitmaps.New()
				for id := uint64(0); id < next+2; id++ {
					if q == 0 || r.Intn(2) == 0 {
						ask.Add(id)
					}
				}
				var want [][]string
				for _, x := range rows {
					if x.kind == kind && ask.Contains(x.id) && !x.at.Before(s) && x.at.Before(e) {
						want = append(want, x.lines)
					}
				}
				var got []*v1.Data
				var err error
				switch kind {
				case v1.RESOURCE_METRICS:
					got, err = df.Metrics(context.Background(), s, e, ask)
				case v1.RESOURCE_TRACES:
					got, err = df.Traces(context.Background(), s, e, ask)
				case v1.RESOURCE_LOGS:
					got, err = df.Logs(context.Background(), s, e, ask)
				}
				if err != nil {
					t.Fatalf("%s: %v", log.String(), err)
				}
				var have [][]string
				for _, d := range got {
					lines, _, _ := zzst.Describe(d)
					have = append(have, lines)
				}
				by := func(x [][]string) {
					sort.Slice(x, func(i, j int) bool { return fmt.Sprint(x[i]) < fmt.Sprint(x[j]) })
				}
				by(want)
				by(have)
				desc := fmt.Sprintf("stored %s; ids %v of %s in [%s, %s)", log.String(), ask.ToArray(), kind, s.Format(time.RFC3339), e.Format(time.RFC3339))
				st.Case(desc)
				if len(want)+len(have) > 0 && !reflect.DeepEqual(want, have) {
					t.Fatalf("%s:\nexpected %v\ngot      %v", desc, want, have)
				}
				ask.Release()
			}
		}
	})
}
