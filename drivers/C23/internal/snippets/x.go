package snippets

import (
	"fmt"
	"testing"
	"time"

	"github.com/dop251/goja"
	"github.com/gernest/requiemdb/internal/zzvt"
)

func TestVerifC23(t *testing.T) {
	var st zzvt.Stat
	defer st.Report(t)
	r := zzvt.Rand("c23")
	s, err := New()
	if err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	bodies := []string{"%d", "%d ;", " %d", "[%d][0]", "(function(){return %d})()", "'%d'", "%d +", "{", "let x = %d; x; with(x){}", "", "%d\n", "%d\x00"}
	buf := make([]byte, 0, 64)
	for i := 0; i < zzvt.N(3000); i++ {
		src := fmt.Sprintf(bodies[r.Intn(len(bodies))]+"/**/", r.Intn(8))
		st.Case(src)
		// the caller's buffer is used again for every script
		buf = append(buf[:0], src...)
		p, err := s.GetProgramData(buf)
		want, werr := goja.Compile("index.js", src, true)
		if (err != nil) != (werr != nil) {
			t.Errorf("%q after %d requests: error %v, compiling it gives %v", src, i, err, werr)
			return
		}
		if r.Intn(4) == 0 {
			time.Sleep(time.Millisecond) // the cache takes entries in the background
		}
		if err != nil {
			continue
		}
		a, e1 := goja.New().RunProgram(p)
		b, e2 := goja.New().RunProgram(want)
		if fmt.Sprint(a, e1) != fmt.Sprint(b, e2) {
			t.Errorf("%q after %d requests: runs to %v %v, its compilation to %v %v", src, i, a, e1, b, e2)
			return
		}
	}
}
