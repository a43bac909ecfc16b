package store_test

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/dgraph-io/badger/v4"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zzst"
	"github.com/gernest/requiemdb/internal/zzvt"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// names of the views of a time
func views(t time.Time) (o []string) {
	for _, f := range []string{"2006", "200601", "20060102", "2006010215"} {
		o = append(o, "std_"+t.UTC().Format(f))
	}
	return
}

var sets = map[v1.RESOURCE]string{v1.RESOURCE_METRICS: "sets_metrics_", v1.RESOURCE_TRACES: "sets_traces_", v1.RESOURCE_LOGS: "sets_logs_"}

// TestVerifC08 compares answers of all shapes, and breaks the storage under
// scans that need what is broken.
func TestVerifC08(t *testing.T) {
	var st zzvt.Stat
	defer st.Report(t)
	zzst.Worlds(t, "c08", zzvt.N(8), func(t *testing.T, r *rand.Rand, i int) {
		w := zzst.New(t, r, []uint64{0, 1<<20 - 20}[r.Intn(2)])
		defer func() { w.Close() }()
		check := func(s *v1.Scan, want []string) {
			desc, bad := w.Check(s, want)
			desc = w.Log.String() + desc
			st.Case(desc)
			if bad != "" {
				t.Fatalf("%s: %s", desc, bad)
			}
		}
		check(w.Scan())
		for b := 0; b < 3; b++ {
			w.Save(t, 3+r.Intn(5))
			for q := 0; q < 25; q++ {
				check(w.Scan())
			}
			// instant scans for what is stored
			for q := 0; q < 10; q++ {
				rec := w.Recs[r.Intn(len(w.Recs))]
				s := &v1.Scan{Scope: v1.Scan_SCOPE(rec.Kind), Now: timestamppb.New(rec.Min.Add(time.Duration(r.Int63n(int64(10 * time.Minute)))))}
				check(s, nil)
			}
			// failures
			for q := 0; q < 12; q++ {
				rec := w.Recs[r.Intn(len(w.Recs))]
				s := &v1.Scan{Scope: v1.Scan_SCOPE(rec.Kind), TimeRange: &v1.Scan_TimeRange{Start: timestamppb.New(rec.Min), End: timestamppb.New(rec.Min.Add(time.Minute))}}
				if r.Intn(2) == 0 {
					s.TimeRange.End = timestamppb.New(rec.Min.Add(time.Duration(1+r.Intn(30)) * time.Hour))
				}
				how := []string{"set missing", "set broken", "view broken", "view cut short"}[r.Intn(4)]
				old := map[string][]byte{}
				err := w.DB.Update(func(txn *badger.Txn) error {
					for _, v := range views(rec.Min) {
						k := v
						if how[:3] == "set" {
							k = sets[rec.Kind] + v
						}
						it, err := txn.Get([]byte(k))
						if err != nil {
							return err
						}
						old[k], err = it.ValueCopy(nil)
						if err != nil {
							return err
						}
						switch how {
						case "set missing":
							err = txn.Delete([]byte(k))
						case "view cut short":
							err = txn.Set([]byte(k), old[k][:len(old[k])/2])
						default:
							err = txn.Set([]byte(k), []byte("no"))
						}
						if err != nil {
							return err
						}
					}
					return nil
				})
				if err != nil {
					t.Fatal(err)
				}
				desc := fmt.Sprintf("%sscan %s for the sample %d, %s", w.Log.String(), rec.Kind, rec.ID, how)
				st.Case(desc)
				d, err := w.Store.Scan(context.Background(), s)
				if err == nil {
					t.Fatalf("%s: no error but %v", desc, d)
				}
				err = w.DB.Update(func(txn *badger.Txn) error {
					for k, v := range old {
						if err := txn.Set([]byte(k), v); err != nil {
							return err
						}
					}
					return nil
				})
				if err != nil {
					t.Fatal(err)
				}
			}
		}
		// shards that cannot be opened
		w.Reopen(t)
		ds, _ := filepath.Glob(filepath.Join(w.Dir, "*"))
		for _, d := range ds {
			if err := os.Rename(d, d+".away"); err != nil {
				t.Fatal(err)
			}
			if err := os.WriteFile(d, []byte("no"), 0o600); err != nil {
				t.Fatal(err)
			}
		}
		rec := w.Recs[0]
		s := &v1.Scan{Scope: v1.Scan_SCOPE(rec.Kind), Now: timestamppb.New(rec.Min.Add(time.Minute))}
		desc := w.Log.String() + "scan without shards"
		st.Case(desc)
		if d, err := w.Store.Scan(context.Background(), s); err == nil {
			t.Fatalf("%s: no error but %v", desc, d)
		}
		for _, d := range ds {
			if err := os.Remove(d); err != nil {
				t.Fatal(err)
			}
			if err := os.Rename(d+".away", d); err != nil {
				t.Fatal(err)
			}
		}
		check(w.Scan())
	})
}
