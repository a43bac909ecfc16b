package compress

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sync"
	"testing"

	"github.com/gernest/requiemdb/internal/zzvt"
	"github.com/klauspost/compress/zstd"
)

var dec, _ = zstd.NewReader(nil)

// plain decodes without the package under test.
func plain(b []byte) ([]byte, error) { return dec.DecodeAll(b, nil) }

func text(r *rand.Rand) []byte {
	n := r.Intn(200)
	switch r.Intn(8) {
	case 0:
		n = 0
	case 1:
		n = r.Intn(300 << 10)
	}
	b := make([]byte, n)
	switch r.Intn(3) {
	case 0:
		r.Read(b)
	case 1:
		for i := range b {
			b[i] = byte(i / 7 % 5)
		}
	}
	return b
}

var errBad = errors.New("bad stream")

// badWriter fails after n bytes.
type badWriter struct{ n int }

func (b *badWriter) Write(p []byte) (int, error) {
	if len(p) > b.n {
		n := b.n
		b.n = 0
		return n, errBad
	}
	b.n -= len(p)
	return len(p), nil
}

// badReader fails after its bytes.
type badReader struct {
	b   []byte
	err error
}

func (b *badReader) Read(p []byte) (int, error) {
	if len(b.b) == 0 {
		return 0, b.err
	}
	n := copy(p, b.b)
	b.b = b.b[n:]
	return n, nil
}

func same(t *testing.T, what string, got, want []byte) {
	t.Helper()
	if !bytes.Equal(got, want) {
		t.Fatalf("%s: got %d bytes, want %d", what, len(got), len(want))
	}
}

// step does one thing and checks it; the steps of one history share the pools.
func step(t *testing.T, r *rand.Rand, st *zzvt.Stat) func() {
	in := text(r)
	z, err := Compress(in)
	if err != nil {
		t.Fatal(err)
	}
	op := r.Intn(9)
	st.Case(fmt.Sprintf("%d %d %x", op, len(in), in[:min(len(in), 8)]))
	switch op {
	case 0:
		p, err := plain(z)
		if err != nil {
			t.Fatal(err)
		}
		same(t, "Compress", p, in)
		p, err = Decompress(z)
		if err != nil {
			t.Fatal(err)
		}
		same(t, "Decompress", p, in)
		return func() { same(t, "a result changed later", p, in) }
	case 1: // cut
		if len(in) == 0 {
			return nil
		}
		c := z[:r.Intn(len(z))]
		got, err := Decompress(c)
		if want, e := plain(c); (e == nil) != (err == nil) {
			t.Fatalf("cut input: %v, want %v", err, e)
		} else if err == nil {
			same(t, "cut", got, want)
		} else if got != nil {
			t.Fatalf("cut input gives data with an error")
		}
	case 2: // a bit changed
		if len(z) == 0 {
			return nil
		}
		c := bytes.Clone(z)
		c[r.Intn(len(c))] ^= 1 << r.Intn(8)
		got, err := Decompress(c)
		if want, e := plain(c); e == nil && err == nil {
			same(t, "changed", got, want)
		} else if (e == nil) != (err == nil) {
			t.Fatalf("changed input: %v, want %v", err, e)
		}
	case 3: // To
		var b bytes.Buffer
		b.WriteString("head")
		if err := To(&b, in); err != nil {
			t.Fatal(err)
		}
		p, err := plain(b.Bytes()[4:])
		if err != nil || b.String()[:4] != "head" {
			t.Fatal("To: ", err)
		}
		same(t, "To", p, in)
	case 4: // a writer that fails
		if len(z) < 2 {
			return nil
		}
		w := &badWriter{r.Intn(len(z) - 1)}
		if err := To(w, in); err == nil {
			t.Fatal("To: the failure of the writer is lost")
		}
	case 5: // gRPC, in pieces
		var b bytes.Buffer
		w, err := codec{}.Compress(&b)
		if err != nil {
			t.Fatal(err)
		}
		for rest := in; len(rest) > 0; {
			n := 1 + r.Intn(len(rest))
			if m, err := w.Write(rest[:n]); err != nil || m != n {
				t.Fatal(m, err)
			}
			rest = rest[n:]
		}
		if err := w.Close(); err != nil {
			t.Fatal(err)
		}
		p, err := plain(b.Bytes())
		if err != nil {
			t.Fatal(err)
		}
		same(t, "codec", p, in)
	case 6: // gRPC, read in pieces, then read again behind the end
		d, err := codec{}.Decompress(bytes.NewReader(z))
		if err != nil {
			t.Fatal(err)
		}
		if r.Intn(3) == 0 {
			var b bytes.Buffer
			if _, err := d.(io.WriterTo).WriteTo(&b); err != nil {
				t.Fatal(err)
			}
			same(t, "codec WriteTo", b.Bytes(), in)
		} else {
			var got []byte
			buf := make([]byte, 1+r.Intn(5000))
			for {
				n, err := d.Read(buf)
				got = append(got, buf[:n]...)
				if err == io.EOF {
					break
				}
				if err != nil {
					t.Fatal(err)
				}
			}
			same(t, "codec read", got, in)
		}
		return func() {
			// whoever has the reader still holds it: it must not touch what
			// others got from the pool since
			other, z2 := getDecoder(), z
			other.Reset(bytes.NewReader(z2))
			if n, err := d.Read(make([]byte, 10)); n != 0 || err == nil {
				t.Fatalf("read behind the end: %d %v", n, err)
			}
			got, err := io.ReadAll(other)
			putDecoder(other)
			if err != nil {
				t.Fatal(err)
			}
			same(t, "a stream of someone else", got, in)
		}
	case 7: // a reader that fails
		if len(in) == 0 {
			return nil
		}
		d, err := codec{}.Decompress(&badReader{bytes.Clone(z[:r.Intn(len(z))]), errBad})
		if err != nil {
			t.Fatal(err)
		}
		got, err := io.ReadAll(d)
		if err == nil {
			t.Fatal("the failure of the reader is lost")
		}
		same(t, "what came before the failure", got, in[:len(got)])
	case 8: // a destination that fails
		w, err := codec{}.Compress(&badWriter{r.Intn(len(z) + 1)})
		if err != nil {
			t.Fatal(err)
		}
		_, e := w.Write(in)
		if c := w.Close(); e == nil && c == nil {
			b := &badWriter{len(z)}
			if err := To(b, in); err != nil {
				t.Fatal("the failure of the destination is lost")
			}
		}
	}
	return nil
}

func TestVerifCompress(t *testing.T) {
	var st zzvt.Stat
	defer st.Report(t)
	r := zzvt.Rand("C15")
	for i := 0; i < zzvt.N(60); i++ {
		var later []func()
		for k := 0; k < 20; k++ {
			if f := step(t, r, &st); f != nil {
				later = append(later, f)
			}
		}
		for _, f := range later {
			f()
		}
	}
}

// Many at once.
func TestVerifConcurrent(t *testing.T) {
	var st zzvt.Stat
	defer st.Report(t)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		r := zzvt.Rand(fmt.Sprint("C15c", g))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < zzvt.N(60); i++ {
				if r.Intn(4) == 0 {
					To(&badWriter{r.Intn(20)}, text(r))
					Decompress([]byte("not compressed"))
				}
				in := text(r)
				z, err := Compress(in)
				if err != nil {
					t.Error(err)
					return
				}
				p, err := Decompress(z)
				if err != nil || !bytes.Equal(p, in) {
					t.Errorf("%d bytes come back as %d: %v", len(in), len(p), err)
					return
				}
				st.Case(fmt.Sprint(g, i, len(in)))
			}
		}()
	}
	wg.Wait()
}

// What is in the pools holds on to nothing.
func TestVerifDetached(t *testing.T) {
	var st zzvt.Stat
	defer st.Report(t)
	r := zzvt.Rand("C15d")
	for i := 0; i < zzvt.N(100); i++ {
		in := text(r)
		w := &recorder{}
		switch r.Intn(3) {
		case 0:
			To(w, in)
		case 1:
			e, _ := codec{}.Compress(w)
			e.Write(in)
			e.Close()
		case 2:
			w.fail = true
			e, _ := codec{}.Compress(w)
			e.Write(in)
			e.Close()
		}
		w.closed = true
		for k := 0; k < 3; k++ {
			e := getEncoder()
			func() {
				// one that is attached to nothing cannot write
				defer func() { recover() }()
				e.Write([]byte("x"))
				e.Flush()
			}()
			defer putEncoder(e)
		}
		if w.late {
			t.Fatal("an encoder from the pool still writes to its last destination")
		}
		st.Case(fmt.Sprint(i, len(in)))
	}
}

type recorder struct{ fail, closed, late bool }

func (w *recorder) Write(p []byte) (int, error) {
	if w.closed {
		w.late = true
	}
	if w.fail {
		return 0, errBad
	}
	return len(p), nil
}
