package arena

import (
	"io"

	"github.com/gernest/requiemdb/internal/compress"
	"github.com/gernest/requiemdb/internal/vf"
	"google.golang.org/protobuf/proto"
)

// vfA: the arena's memory is its own, and its last part starts within it.
func vfA(a *Arena) bool {
	return a != nil && (vf.Ref(a.data) == 0 || vf.Owned(a.data)) && 0 <= a.offset && a.offset <= len(a.data)
}

//vf:for (*Arena).NewWriter
//vf:props C15
//vf:flag inline
func vfNewWriter(a *Arena, w io.Writer) {
	vf.Requires(vfA(a))
	vf.Modifies(a.offset)
	vf.Ensures("a new part", vf.Is[*Arena](w) && w.(*Arena) == a && a.offset == len(a.data))
	vf.Ensures("well formed", vfA(a))
}

//vf:for (*Arena).Bytes
//vf:props C15
//vf:flag inline
func vfBytes(a *Arena, b []byte) {
	vf.Requires(vfA(a))
	vf.Ensures("the last part", len(b) == len(a.data)-a.offset && vf.Str(b) == vf.Str(a.data[a.offset:]))
}

//vf:for (*Arena).Write
//vf:props C15
func vfWrite(a *Arena, p []byte, n int, err error) {
	vf.Requires(vfA(a))
	vf.Modifies(a.data, vf.Elems(a.data))
	vf.Ensures("all of it", n == len(p) && err == nil)
	vf.Ensures("behind the rest", len(a.data) == vf.Old(len(a.data))+len(p) && vf.Str(a.data[vf.Old(len(a.data)):]) == vf.Old(vf.Str(p)))
	vf.Ensures("what was handed out before stays", vf.Forall(func(n int) bool {
		vf.Trig(vf.Str(vf.Old(a.data)[:n]))
		vf.Trig(vf.Str(a.data[:n]))
		return vf.Implies(0 <= n && n <= vf.Old(len(a.data)), vf.Str(vf.Old(a.data)[:n]) == vf.Old(vf.Str(a.data[:n])) && vf.Str(a.data[:n]) == vf.Old(vf.Str(a.data[:n])))
	}))
	vf.Ensures("well formed", vfA(a))
}

//vf:for (*Arena).Marshal
//vf:props C15
//vf:flag inline
func vfMarshal(a *Arena, msg proto.Message, b []byte, err error) {
	vf.Requires(vfA(a))
	vf.Modifies(a.data, a.offset, vf.Elems(a.data))
	vf.Ensures("the message", vf.Implies(err == nil, vf.Str(b) == vf.Wire(msg)))
	vf.Ensures("behind the rest", vf.Str(a.data) == vf.Old(vf.Str(a.data))+vf.Ite(err == nil, vf.Wire(msg), ""))
	vf.Ensures("what was handed out before stays", vf.Str(vf.Old(a.data)) == vf.Old(vf.Str(a.data)))
	vf.Ensures("well formed", vfA(a))
}

//vf:for (*Arena).Compress
//vf:props C15
func vfCompress(a *Arena, msg proto.Message, b []byte, err error) {
	vf.Requires(vfA(a))
	vf.Modifies(a.data, a.offset, vf.Elems(a.data), vf.Ghost("zstd"))
	vf.Ensures("it decodes to the message", vf.Implies(err == nil, compress.VfValid(vf.Str(b)) && compress.VfPlain(vf.Str(b)) == vf.Wire(msg)))
	vf.Ensures("what was handed out before stays", vf.Str(vf.Old(a.data)) == vf.Old(vf.Str(a.data)))
	vf.Ensures("well formed", vfA(a))
}

//vf:for (*Arena).Release
//vf:props C15
//vf:flag pool
func vfRelease(a *Arena) {
	vf.Requires(vfA(a) && !vf.Pooled(a))
	vf.Modifies(a.data, a.offset, vf.Elems(a.data))
	vf.Ensures("handed back", vf.Pooled(a))
}
