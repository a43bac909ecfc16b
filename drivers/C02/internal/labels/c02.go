package labels_test

import (
	"fmt"
	"strconv"
	"testing"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/labels"
	"github.com/gernest/requiemdb/internal/zzvt"
)

func TestVerifLabel(t *testing.T) {
	r := zzvt.Rand("c02")
	var st zzvt.Stat
	words := []string{"", "a", ":", "1:2", "a:b", "naïve", "\x00", "longer than sixteen bytes of text", "%d", "1", "13"}
	word := func(key bool) string {
		s := ""
		for n := r.Intn(3); n >= 0; n-- {
			s += words[r.Intn(len(words))]
		}
		if !key && r.Intn(4) == 0 {
			s += "=" + words[r.Intn(len(words))]
		}
		return s
	}
	num := func() int32 {
		if r.Intn(4) == 0 {
			return int32(r.Uint32())
		}
		return int32(r.Intn(14))
	}
	type id struct {
		r, p int32
		k, v string
	}
	seen := map[string]id{}
	old := labels.NewLabel()
	for i := 0; i < zzvt.N(4000); i++ {
		x := id{num(), num(), word(true), word(false)}
		l := old
		if r.Intn(3) == 0 {
			old.Release()
			old = labels.NewLabel()
			l = old
		} else if r.Intn(2) == 0 {
			l.Reset()
		}
		if r.Intn(2) == 0 {
			l.WithValue(x.v).WithKey(x.k).WithPrefix(v1.PREFIX(x.p)).WithResource(v1.RESOURCE(x.r))
		} else {
			l.WithResource(v1.RESOURCE(x.r)).WithPrefix(v1.PREFIX(x.p)).WithKey(x.k).WithValue(x.v)
		}
		want := strconv.Itoa(int(x.r)) + ":" + strconv.Itoa(int(x.p)) + ":" + x.k
		if x.v != "" {
			want += "=" + x.v
		}
		st.Case(fmt.Sprintf("%+v", x))
		for n := 0; n < 1+r.Intn(2); n++ {
			if got := string(l.Encode()); got != want {
				t.Fatalf("input: %+v\ngot  %q\nwant %q", x, got, want)
			}
			if got := l.String(); got != want {
				t.Fatalf("input: %+v\ngot  %q\nwant %q (String)", x, got, want)
			}
		}
		if y, ok := seen[want]; ok && y != x {
			t.Fatalf("input: %+v and %+v share the key %q", x, y, want)
		}
		seen[want] = x
	}
	// whatever a label had, Reset and the pool give an empty one
	for i := 0; i < 200; i++ {
		l := labels.NewLabel().WithResource(v1.RESOURCE(num())).WithPrefix(v1.PREFIX(num())).WithKey(word(true)).WithValue(word(false))
		l.Encode()
		if r.Intn(2) == 0 {
			l.Reset()
		} else {
			l.Release()
			l = labels.NewLabel()
		}
		if got := l.String(); got != "0:0:" {
			t.Fatalf("input: a label after Reset or Release\nits key is %q, want %q", got, "0:0:")
		}
		l.Release()
	}
	// two labels in use at the same time
	a, b := labels.NewLabel(), labels.NewLabel()
	a.Reset().WithResource(1).WithPrefix(2).WithKey("x").WithValue("y")
	ka := a.Encode()
	b.Reset().WithResource(2).WithPrefix(3).WithKey("longer").WithValue("z")
	b.Encode()
	if string(ka) != "1:2:x=y" {
		t.Fatalf("input: two labels encoded in turn\nthe first key became %q", ka)
	}
	st.Report(t)
}
