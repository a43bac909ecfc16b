package arena

import (
	"bytes"
	"fmt"
	"testing"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/x"
	"github.com/gernest/requiemdb/internal/zzvt"
	"github.com/klauspost/compress/zstd"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	"google.golang.org/protobuf/proto"
)

// Histories of several arenas: every result stays what it was until its arena
// is released, whatever else is done meanwhile, and failures leave no trace.
func TestVerifArena(t *testing.T) {
	var st zzvt.Stat
	defer st.Report(t)
	r := zzvt.Rand("C15a")
	g := zzvt.NewGen(r)
	dec, _ := zstd.NewReader(nil)
	bad := &commonv1.KeyValue{Key: "\xff"} // not encodable
	type kept struct {
		got, copy []byte
		msg       proto.Message
		z         bool
	}
	type arenaWorld struct {
		a    *Arena
		kept []kept
		all  []byte
	}
	for i := 0; i < zzvt.N(150); i++ {
		var ws []*arenaWorld
		used := map[*Arena]bool{}
		check := func(w *arenaWorld) {
			for _, k := range w.kept {
				if !bytes.Equal(k.got, k.copy) {
					t.Fatal("a result changed before its arena was released")
				}
			}
		}
		for s := 0; s < 40; s++ {
			if len(ws) == 0 || r.Intn(6) == 0 {
				a := New()
				if used[a] {
					t.Fatal("one arena handed out twice")
				}
				used[a] = true
				if len(a.data) != 0 || a.offset != 0 {
					t.Fatal("a new arena is not empty")
				}
				ws = append(ws, &arenaWorld{a: a})
			}
			n := r.Intn(len(ws))
			w := ws[n]
			var msg proto.Message
			switch r.Intn(4) {
			case 0:
				msg = &v1.Sample{}
			default:
				msg = g.Data(r.Intn(3))
			}
			fail := r.Intn(5) == 0
			if fail {
				msg = &logsv1.LogRecord{SeverityText: "lost", Attributes: []*commonv1.KeyValue{{Key: "k"}, bad}}
			}
			op := r.Intn(6)
			st.Case(fmt.Sprint(op, fail, proto.Size(msg), len(w.kept)))
			switch op {
			case 0, 1:
				b, err := w.a.Marshal(msg)
				if (err != nil) != fail {
					t.Fatal(err)
				}
				if err != nil {
					break
				}
				o := proto.Clone(msg)
				proto.Reset(o)
				if err := proto.Unmarshal(b, o); err != nil || !proto.Equal(o, msg) {
					t.Fatal("Marshal", err)
				}
				w.kept = append(w.kept, kept{got: b, copy: bytes.Clone(b)})
			case 2, 3:
				b, err := w.a.Compress(msg)
				if (err != nil) != fail {
					t.Fatal(err)
				}
				if err != nil {
					break
				}
				p, err := dec.DecodeAll(b, nil)
				if err != nil {
					t.Fatal(err)
				}
				o := proto.Clone(msg)
				proto.Reset(o)
				if err := proto.Unmarshal(p, o); err != nil || !proto.Equal(o, msg) {
					t.Fatal("Compress", err)
				}
				proto.Reset(o)
				if err := x.Decompress(o)(b); err != nil || !proto.Equal(o, msg) {
					t.Fatal("x.Decompress", err)
				}
				w.kept = append(w.kept, kept{got: b, copy: bytes.Clone(b)})
			case 4:
				nw := w.a.NewWriter()
				var want []byte
				for k := r.Intn(4); k > 0; k-- {
					p := make([]byte, r.Intn(300))
					r.Read(p)
					want = append(want, p...)
					if m, err := nw.Write(p); m != len(p) || err != nil {
						t.Fatal(m, err)
					}
				}
				if !bytes.Equal(w.a.Bytes(), want) {
					t.Fatal("Write")
				}
				b := w.a.Bytes()
				w.kept = append(w.kept, kept{got: b, copy: bytes.Clone(b)})
			case 5:
				check(w)
				w.a.Release()
				delete(used, w.a)
				ws = append(ws[:n], ws[n+1:]...)
			}
			for _, w := range ws {
				check(w)
			}
		}
		for _, w := range ws {
			w.a.Release()
		}
	}
}
