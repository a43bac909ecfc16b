package compress

import (
	"io"

	"github.com/gernest/requiemdb/internal/vf"
	"github.com/klauspost/compress/zstd"
)

// VfPlain is the text that s decodes to, VfValid says that it decodes.
func VfPlain(s string) string { return vf.Fn[string]("zstd:dec", s) }
func VfValid(s string) bool   { return vf.Fn[bool]("zstd:ok", s) }

// Encoders and decoders in the pools are attached to nothing.
//
//vf:pool
//vf:props C15 C21
func vfPoolEncoder(e *zstd.Encoder) {
	vf.Ensures("attached to nothing", vf.Detached(e) && vf.Text(e) == "")
}

//vf:pool
//vf:props C15 C21
func vfPoolDecoder(e *zstd.Decoder) {
	vf.Ensures("attached to nothing", vf.Detached(e) && vf.Text(e) == "")
}

//vf:for Compress
//vf:props C15
//vf:flag pool
func vfCompress(data []byte, out []byte, err error) {
	vf.Modifies(vf.Ghost("zstd"))
	vf.Ensures("it decodes to the data", vf.Implies(err == nil, VfValid(vf.Str(out)) && VfPlain(vf.Str(out)) == vf.Str(data)))
	vf.Ensures("the data stays", vf.Str(data) == vf.Old(vf.Str(data)))
}

//vf:for Decompress
//vf:props C15
//vf:flag pool
func vfDecompress(data []byte, out []byte, err error) {
	vf.Modifies(vf.Ghost("zstd"))
	vf.Ensures("what the data decodes to", vf.Implies(err == nil, vf.Str(out) == VfPlain(vf.Str(data))))
	vf.Ensures("malformed data gives an error, and nothing else", vf.Iff(err == nil, VfValid(vf.Str(data))))
	vf.Ensures("the data stays", vf.Str(data) == vf.Old(vf.Str(data)))
}

//vf:for To
//vf:props C15
//vf:flag pool inline
func vfTo(w io.Writer, data []byte, err error) {
	vf.Modifies(vf.Ghost("zstd"))
	vf.Ensures("the data stays", vf.Str(data) == vf.Old(vf.Str(data)))
}

//vf:for (codec).Compress
//vf:props C15
//vf:flag pool
func vfCodecCompress(c codec, w io.Writer, wc io.WriteCloser, err error) {
	vf.Modifies(vf.Ghost("zstd"))
	e := wc.(*writeCodec).Encoder
	vf.Ensures("an encoder of its own", err == nil && vf.Is[*writeCodec](wc) && wc.(*writeCodec) != nil && e != nil && vf.Fresh(e) && !vf.Pooled(e))
	vf.Ensures("that writes there", vf.EncTo(e, w) && vf.Text(e) == "")
}

//vf:for (codec).Decompress
//vf:props C15
//vf:flag pool
func vfCodecDecompress(c codec, r io.Reader, rc io.Reader, err error) {
	vf.Modifies(vf.Ghost("zstd"))
	e := rc.(*readCodec).Decoder
	vf.Ensures("a decoder of its own", err == nil && vf.Is[*readCodec](rc) && rc.(*readCodec) != nil && e != nil && vf.Fresh(e) && !vf.Pooled(e))
	vf.Ensures("that reads from there", vf.DecFrom(e, r))
}

//vf:for (*writeCodec).Close
//vf:props C15
//vf:flag pool
func vfWriteClose(w *writeCodec, err error) {
	vf.Requires(w != nil && w.Encoder != nil && !vf.Pooled(w.Encoder))
	vf.Modifies(vf.Ghost("zstd"), *w.Encoder, w.Encoder)
	vf.Ensures("the encoder is handed back and forgotten", w.Encoder == nil && vf.Pooled(vf.Old(w.Encoder)))
}

//vf:for (*readCodec).Read
//vf:props C15
//vf:flag pool
func vfRead(r *readCodec, p []byte, n int, err error) {
	vf.Requires(r != nil && (r.Decoder == nil || !vf.Pooled(r.Decoder)))
	vf.Modifies(vf.Ghost("zstd"), *r.Decoder, r.Decoder, vf.Elems(p))
	vf.Ensures("it is kept while there is more", vf.Implies(err == nil, r.Decoder == vf.Old(r.Decoder) && r.Decoder != nil))
	vf.Ensures("handed back and forgotten at the end", vf.Implies(err != nil, r.Decoder == nil && (vf.Old(r.Decoder) == nil || vf.Pooled(vf.Old(r.Decoder)))))
	vf.Ensures("not handed back twice", vf.Implies(vf.Old(r.Decoder) == nil, n == 0 && err != nil))
	vf.Ensures("no more than asked for", n <= len(p))
}

//vf:for (*readCodec).WriteTo
//vf:props C15
//vf:flag pool
func vfWriteTo(r *readCodec, w io.Writer, n int64, err error) {
	vf.Requires(r != nil && (r.Decoder == nil || !vf.Pooled(r.Decoder)))
	vf.Modifies(vf.Ghost("zstd"), *r.Decoder, r.Decoder)
	vf.Ensures("handed back and forgotten", r.Decoder == nil && (vf.Old(r.Decoder) == nil || vf.Pooled(vf.Old(r.Decoder))))
	vf.Ensures("what it decodes to is written", vf.Implies(vf.Old(r.Decoder) != nil && err == nil, vf.Written(w) == vf.Old(vf.Written(w))+VfPlain(vf.Old(vf.Text(r.Decoder)))))
	vf.Ensures("malformed data gives an error", vf.Implies(vf.Old(r.Decoder) != nil && !VfValid(vf.Old(vf.Text(r.Decoder))), err != nil))
}
