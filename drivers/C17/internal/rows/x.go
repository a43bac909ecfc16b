package rows_test

import (
	"fmt"
	"math/rand"
	"slices"
	"sort"
	"testing"

	"github.com/gernest/requiemdb/internal/rows"
	"github.com/gernest/requiemdb/internal/zzvt"
)

type pair17 struct{ col, val uint64 }

// values17 reads every value out of the bits.
func values17(b rows.BSIData) map[uint64]uint64 {
	o := map[uint64]uint64{}
	for i, r := range b {
		for _, c := range r.Columns() {
			o[c] |= 1 << i
		}
	}
	return o
}

func gen17(r *rand.Rand, bits int) (o []pair17) {
	col := uint64(r.Intn(3)) * (1<<20 - 1)
	dense := r.Intn(12) == 0
	n := r.Intn(20)
	if dense {
		n = 4000 + r.Intn(3000)
	}
	for ; n > 0; n-- {
		v := r.Uint64() >> uint(64-bits+r.Intn(bits))
		o = append(o, pair17{col, v})
		if dense {
			col += uint64(1 + r.Intn(2))
			continue
		}
		switch r.Intn(4) {
		case 0:
			col += 1 << 16
		case 1:
			col += 1<<20 - uint64(r.Intn(3))
		default:
			col += uint64(1 + r.Intn(3))
		}
	}
	return
}

func build17(b *rows.BsiBuilder, ps []pair17) (rows.BSIData, map[uint64]uint64) {
	m := map[uint64]uint64{}
	for _, p := range ps {
		b.Insert(p.col, p.val)
		if p.val != 0 {
			m[p.col] = p.val
		}
	}
	return b.Build(), m
}

func diff17(got, want map[uint64]uint64) string {
	for c, v := range want {
		if got[c] != v {
			return fmt.Sprintf("column %d is %d, want %d", c, got[c], v)
		}
	}
	for c, v := range got {
		if w, ok := want[c]; !ok {
			return fmt.Sprintf("column %d is %d, want none", c, v)
		} else if w != v {
			return fmt.Sprintf("column %d is %d, want %d", c, v, w)
		}
	}
	return ""
}

func head17(ps []pair17) any {
	if len(ps) > 24 {
		return fmt.Sprint(ps[:24], " and more: ", len(ps))
	}
	return ps
}

func TestVerifC17(t *testing.T) {
	var st zzvt.Stat
	defer st.Report(t)
	r := zzvt.Rand("c17")
	var b rows.BsiBuilder
	for i := 0; i < zzvt.N(2500); i++ {
		bits := 1 + r.Intn(8)
		if r.Intn(4) == 0 {
			bits = 1 + r.Intn(62)
		}
		px, py := gen17(r, bits), gen17(r, bits)
		if r.Intn(3) == 0 {
			py = nil
			for _, p := range px {
				if r.Intn(3) > 0 {
					py = append(py, pair17{p.col, r.Uint64() >> uint(64-bits)})
				}
			}
		}
		desc := fmt.Sprintf("x=%v y=%v", head17(px), head17(py))
		st.Case(desc)
		x, mx := build17(&b, px)
		y, my := build17(&b, py)
		for k, v := range []struct {
			b rows.BSIData
			m map[uint64]uint64
		}{{x, mx}, {y, my}} {
			if m := diff17(values17(v.b), v.m); m != "" {
				t.Fatalf("%s\nbuilt data %d: %s", desc, k, m)
			}
			for i, r := range v.b {
				if n := r.Count(); n != uint64(len(r.Columns())) {
					t.Fatalf("%s\nbit %d counts %d columns and lists %d", desc, i, n, len(r.Columns()))
				}
			}
		}
		sum := map[uint64]uint64{}
		for c, v := range mx {
			sum[c] += v
		}
		for c, v := range my {
			sum[c] += v
		}
		s := rows.AddBSI(x, y)
		if m := diff17(values17(s), sum); m != "" {
			t.Fatalf("%s\nsum: %s", desc, m)
		}
		for i, r := range s {
			if n := r.Count(); n != uint64(len(r.Columns())) {
				t.Fatalf("%s\nbit %d of the sum counts %d columns and lists %d", desc, i, n, len(r.Columns()))
			}
		}
		if m := diff17(values17(x), mx) + diff17(values17(y), my); m != "" {
			t.Fatalf("%s\nadding changed an operand: %s", desc, m)
		}
		// enumeration of the sum
		f := rows.NewRow()
		var want []pair17
		for c, v := range sum {
			if r.Intn(4) > 0 {
				f.SetBit(c)
				want = append(want, pair17{c, v})
			}
		}
		for n := r.Intn(3); n > 0; n-- {
			c := uint64(r.Intn(1 << 21))
			if f.SetBit(c) {
				want = append(want, pair17{c, sum[c]})
			}
		}
		sort.Slice(want, func(i, j int) bool {
			if want[i].val != want[j].val {
				return want[i].val > want[j].val
			}
			return want[i].col < want[j].col
		})
		var off, lim *uint64
		d2 := ""
		if r.Intn(2) == 0 {
			n := uint64(r.Intn(len(want) + 3))
			off = &n
			d2 += fmt.Sprintf(" offset %d", n)
		}
		if r.Intn(2) == 0 {
			n := uint64(r.Intn(len(want) + 3))
			lim = &n
			d2 += fmt.Sprintf(" limit %d", n)
		}
		if off != nil {
			want = want[min(int(*off), len(want)):]
		}
		if lim != nil {
			want = want[:min(int(*lim), len(want))]
		}
		var got []pair17
		last := ^uint64(0)
		s.PivotDescending(f, 0, lim, off, func(v uint64, cols ...uint64) {
			if v >= last && last != ^uint64(0) {
				t.Fatalf("%s%s\nvalue %d after %d", desc, d2, v, last)
			}
			last = v
			for _, c := range cols {
				got = append(got, pair17{c, v})
			}
		})
		if !slices.Equal(got, want) {
			t.Fatalf("%s%s\nenumeration is %v, want %v", desc, d2, head17(got), head17(want))
		}
	}
}
