package keys_test

import (
	"fmt"
	"strconv"
	"testing"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/keys"
	"github.com/gernest/requiemdb/internal/zzvt"
)

func TestVerifSampleKey(t *testing.T) {
	r := zzvt.Rand("c02k")
	var st zzvt.Stat
	k := keys.New()
	for i := 0; i < zzvt.N(4000); i++ {
		res, id := int32(r.Intn(5)), r.Uint64()>>uint(r.Intn(64))
		if r.Intn(4) == 0 {
			res = int32(r.Uint32()) >> uint(r.Intn(32))
		}
		if r.Intn(3) == 0 {
			k.Release()
			k = keys.New()
		}
		k.WithResource(v1.RESOURCE(res)).WithID(id)
		st.Case(fmt.Sprint(res, id))
		wp := strconv.Itoa(int(res)) + ":"
		want := wp + strconv.FormatUint(id, 10)
		for n := r.Intn(3); n >= 0; n-- {
			if r.Intn(2) == 0 {
				if g := string(k.Prefix()); g != wp {
					t.Fatalf("input: resource=%d id=%d\nprefix %q, want %q", res, id, g, wp)
				}
			} else if g := string(k.Encode()); g != want {
				t.Fatalf("input: resource=%d id=%d\nkey %q, want %q", res, id, g, want)
			}
		}
	}
	st.Report(t)
}
