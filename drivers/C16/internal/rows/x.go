package rows_test

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"slices"
	"testing"

	"github.com/gernest/requiemdb/internal/rows"
	"github.com/gernest/requiemdb/internal/zzvt"
	"github.com/gernest/roaring"
)

const width16 = 1 << 20

type set16 map[uint64]bool

func (s set16) list() []uint64 {
	o := []uint64{}
	for v := range s {
		o = append(o, v)
	}
	slices.Sort(o)
	return o
}
func (s set16) clone() set16 {
	o := set16{}
	for v := range s {
		o[v] = true
	}
	return o
}

func col16(r *rand.Rand) uint64 {
	switch r.Intn(8) {
	case 0:
		return uint64(r.Intn(4)) * width16
	case 1:
		return uint64(1+r.Intn(4))*width16 - 1
	case 2:
		return ^uint64(0) - uint64(r.Intn(3))
	case 3:
		return 1<<63 + uint64(r.Intn(3))
	case 4:
		return r.Uint64()
	}
	return uint64(r.Intn(3))*width16 + uint64(r.Intn(6))
}

// check16 compares a row with a set in every way it can be observed.
func check16(r *rows.Row, s set16) string {
	want := s.list()
	if got := r.Columns(); !slices.Equal(got, want) {
		return fmt.Sprintf("columns are %v, want %v", got, want)
	}
	if n := r.Count(); n != uint64(len(want)) {
		return fmt.Sprintf("count is %d, want %d", n, len(want))
	}
	if r.IsEmpty() != (len(want) == 0) || r.Any() != (len(want) > 0) {
		return fmt.Sprintf("empty %v any %v with %d columns", r.IsEmpty(), r.Any(), len(want))
	}
	for _, v := range want {
		if !r.Includes(v) {
			return fmt.Sprintf("does not include %d", v)
		}
		for _, w := range []uint64{v - 1, v + 1, v ^ width16} {
			if r.Includes(w) != s[w] {
				return fmt.Sprintf("includes %d: %v", w, r.Includes(w))
			}
		}
	}
	low := []int64{}
	for _, v := range want {
		low = append(low, int64(v%width16))
	}
	if got := r.ShardColumns(); !slices.Equal(got, low) {
		return fmt.Sprintf("shard columns are %v, want %v", got, low)
	}
	return ""
}

func TestVerifC16(t *testing.T) {
	var st zzvt.Stat
	defer st.Report(t)
	r := zzvt.Rand("c16")
	for i := 0; i < zzvt.N(4000); i++ {
		var log []string
		// rows made here are not shared with others
		mk := func() (*rows.Row, set16) {
			s := set16{}
			var cols []uint64
			for n := r.Intn(12); n > 0; n-- {
				cols = append(cols, col16(r))
			}
			if len(cols) > 0 && r.Intn(3) == 0 {
				cols = append(cols, cols[0])
			}
			for _, c := range cols {
				s[c] = true
			}
			how := r.Intn(4)
			log = append(log, fmt.Sprintf("make %d %v", how, cols))
			switch how {
			case 0:
				return rows.NewRow(cols...), s
			case 1:
				b := roaring.NewBitmap()
				for _, c := range cols {
					b.Add(c)
				}
				return rows.NewRowFromBitmap(b), s
			case 2:
				if len(s) == 0 {
					return rows.NewRow(), s
				}
				b := roaring.NewBitmap()
				for _, c := range cols {
					b.Add(c)
				}
				return rows.NewRowFromRoaring(b.Roaring()), s
			}
			x := rows.NewRow()
			for _, c := range cols {
				x.SetBit(c)
			}
			if len(cols) > 0 && r.Intn(2) == 0 {
				// an emptied part
				c := cols[0]
				x = x.Difference(rows.NewRow(c))
				delete(s, c)
			}
			return x, s
		}
		a, sa := mk()
		for step := 1 + r.Intn(5); step > 0; step-- {
			b, sb := mk()
			c, sc := mk()
			var o *rows.Row
			so := set16{}
			op := r.Intn(9)
			log = append(log, fmt.Sprintf("op %d", op))
			switch op {
			case 0:
				o = a.Union(b, c)
				for _, s := range []set16{sa, sb, sc} {
					for v := range s {
						so[v] = true
					}
				}
			case 1:
				o = a.Intersect(b)
				for v := range sa {
					if sb[v] {
						so[v] = true
					}
				}
			case 2:
				o = a.Difference(b, c)
				for v := range sa {
					if !sb[v] && !sc[v] {
						so[v] = true
					}
				}
			case 3:
				o = a.Xor(b)
				for v := range sa {
					if !sb[v] {
						so[v] = true
					}
				}
				for v := range sb {
					if !sa[v] {
						so[v] = true
					}
				}
			case 4:
				o, so = a.Clone(), sa.clone()
				for n := r.Intn(4); n > 0; n-- {
					v := col16(r)
					if o.SetBit(v) == so[v] {
						t.Fatalf("%v\nSetBit(%d) tells the wrong thing", log, v)
					}
					so[v] = true
				}
			case 5:
				// in place
				a.Merge(b)
				for v := range sb {
					sa[v] = true
				}
				o, so = a, sa
			case 6:
				v := col16(r)
				if a.SetBit(v) == sa[v] {
					t.Fatalf("%v\nSetBit(%d) tells the wrong thing", log, v)
				}
				sa[v] = true
				o, so = a, sa
			case 7:
				o = a.Union()
				so = sa.clone()
			case 8:
				a.Freeze()
				o, so = a.Clone(), sa.clone()
			}
			st.Case(fmt.Sprint(log))
			for _, w := range []struct {
				n string
				r *rows.Row
				s set16
			}{{"result", o, so}, {"receiver", a, sa}, {"operand", b, sb}, {"second operand", c, sc}} {
				if m := check16(w.r, w.s); m != "" {
					t.Fatalf("%v\n%s: %s", log, w.n, m)
				}
			}
			if o.Count() > 0 {
				back := rows.NewRowFromRoaring(o.Roaring())
				if m := check16(back, so); m != "" {
					t.Fatalf("%v\nread back: %s", log, m)
				}
			}
			js, err := json.Marshal(o)
			if err != nil {
				t.Fatal(err)
			}
			var p struct{ Columns []uint64 }
			if err := json.Unmarshal(js, &p); err != nil || !slices.Equal(p.Columns, so.list()) {
				t.Fatalf("%v\nJSON is %s, columns are %v", log, js, so.list())
			}
			tab, err := o.ToTable()
			if err != nil || len(tab.Rows) != len(so) {
				t.Fatalf("%v\ntable has %d rows, want %d (%v)", log, len(tab.Rows), len(so), err)
			}
			for k, v := range so.list() {
				if tab.Rows[k][0].Int() != v {
					t.Fatalf("%v\nrow %d of the table is %d, want %d", log, k, tab.Rows[k][0].Int(), v)
				}
			}
			if op < 4 || op == 7 {
				// results share their parts with operands and are not written to
				a, sa = o.Clone(), so.clone()
			} else if op == 5 {
				a, sa = a.Clone(), sa.clone()
			} else if op != 6 {
				a, sa = o, so
			}
		}
	}
}
