// Package vf holds the vocabulary of the contracts. Nothing in it is ever
// executed: contracts are read by the condition generator in /verif/vgen.
package vf

// clauses
func Requires(a ...any)  {}
func Ensures(a ...any)   {}
func Invariant(a ...any) {}
func Lemma(a ...any)     {}
func Define(a ...any)    {}
func Assume(a ...any)    {}
func Modifies(a ...any)  {}
func Uses(a ...any)      {}
func LoopOver(f any)     {}
func LoopMap(f any)      {}
func LoopAny(f any)      {}
func LoopIter(f any)     {}

// logic
func Forall(f any) bool                            { panic("spec") }
func Exists(f any) bool                            { panic("spec") }
func Trig(a ...any)                                {}
func Implies(a, b bool) bool                       { panic("spec") }
func Iff(a, b bool) bool                           { panic("spec") }
func Ite[T any](c bool, a, b T) T                  { panic("spec") }
func Old[T any](v T) T                             { panic("spec") }
func Same(a, b any) bool                           { panic("spec") }
func Is[T any](v any) bool                         { panic("spec") }
func Cur[T any](name ...string) T                  { panic("spec") }
func Zero[T any]() T                               { panic("spec") }
func Has[K comparable, V any](m map[K]V, k K) bool { panic("spec") }

// memory
func Fresh(p any) bool { panic("spec") }
func Ref(p any) int    { panic("spec") }
func Root(p any) int   { panic("spec") }
func Held(p any) int   { panic("spec") }

// In is membership in a bitmap, given by pointer.
func In(bm any, v uint64) bool { panic("spec") }

// Text is what was written to a buffer, builder or hasher.
func Text(p any) string { panic("spec") }

// Visited reports map keys an enclosing loop has seen.
func Visited[K any](k K) bool { panic("spec") }

// regions for Modifies
func Elems(s any) any                     { panic("spec") }
func AnyOf[T any]() any                   { panic("spec") }
func MapOf(m any) any                     { panic("spec") }
func Ghost(n string, keyed ...string) any { panic("spec") }

// ghost state
func GhostInt(n string, p ...any) int { panic("spec") }

// Nanos are the nanoseconds of a time since the unix epoch.
func Nanos(t any) int { panic("spec") }

// Be64 is the 8 byte big endian encoding.
func Be64(v uint64) string { panic("spec") }

// Owned says that only the owner refers to p: new when it comes from a pool.
func Owned(p any) bool { panic("spec") }

// Pooled says that p is in its pool.
func Pooled(p any) bool { panic("spec") }

// Str is the content of a byte slice.
func Str(b any) string { panic("spec") }

// Before is a value in the state in which the loop was entered.
func Before[T any](v T) T { panic("spec") }

// ApplyStr applies an unknown function of a byte string.
func ApplyStr(f any, s string) uint64 { panic("spec") }

// Dec is the decimal representation.
func Dec[T any](v T) string { panic("spec") }

// Wire is the encoding of a message.
func Wire(m any) string { panic("spec") }

// Unhex is what a hex text decodes to, if UnhexOK.
func Unhex(s string) string { panic("spec") }
func UnhexOK(s string) bool { panic("spec") }

// ParseDur is the duration a text denotes, if ParseDurOK.
func ParseDur(s string) int    { panic("spec") }
func ParseDurOK(s string) bool { panic("spec") }

// Fn applies a function of the library models.
func Fn[T any](name string, a ...any) T { panic("spec") }

// IterPos is one more than the value the iterator of the loop returned last.
func IterPos() uint64 { panic("spec") }

// Ind is the position of the enclosing loop over a slice of T.
func Ind[T any]() int { panic("spec") }

// Utc: the location of the time is UTC.
func Utc(t any) bool { panic("spec") }

// KvHas and KvVal are the content of the database.
func KvHas(key string) bool   { panic("spec") }
func KvVal(key string) string { panic("spec") }

// CacheHas and CacheIs are the content of a ristretto cache of uint64 values.
func CacheHas(h uint64) bool   { panic("spec") }
func CacheIs(h, v uint64) bool { panic("spec") }

// CacheOf says that the entry is of that type, CacheAt is the entry.
func CacheOf[T any](h uint64) bool { panic("spec") }
func CacheAt[T any](h uint64) T    { panic("spec") }

// FsHas and FsVal are the files and their contents; PathJoin is
// filepath.Join of two, Dec the decimal form of a number.
func FsHas(path string) bool      { panic("spec") }
func FsVal(path string) string    { panic("spec") }
func PathJoin(a, b string) string { panic("spec") }

// SeqKey is the database key of a badger sequence, SeqNext bounds what it
// issued.
func SeqKey(s any) string       { panic("spec") }
func SeqNext(key string) uint64 { panic("spec") }
func UnBe64(s string) uint64    { panic("spec") }
func Hash64(s string) uint64    { panic("spec") }

// CallVal is what the i-th call of an unknown callback was given; the number
// of calls is GhostInt("calls").
func CallVal(i int) string { panic("spec") }

// Tok is the token of a message (0: without data), TokKind the tag of the type
// of its data, TagOf the tag of a type.
func Tok(m any) int     { panic("spec") }
func TokKind(t int) int { panic("spec") }
func TagOf[T any]() int { panic("spec") }

// RowsIn and RowAt are the rows of an encoded record, RecRows and RecAt those
// of a record, Built and BuiltAt those of a builder.
func RowsIn(s string) int       { panic("spec") }
func RowAt(s string, i int) int { panic("spec") }
func RecRows(r any) int         { panic("spec") }
func RecAt(r any, i int) int    { panic("spec") }
func Built(s any) int           { panic("spec") }
func BuiltAt(s any, i int) int  { panic("spec") }

// SetDec: the encoded bitmap has the value.
func SetDec(s string, u uint64) bool { panic("spec") }

// Math is u as a mathematical number.
func Math(u uint64) int { panic("spec") }

// Card is the number of members of a bitmap, IterAt one more than the value an
// iterator over one returned last (2^64+1: it is past the end).
func Card(bm any) int   { panic("spec") }
func IterAt(it any) int { panic("spec") }

// Alloc: the pointer is nil or points to memory (true of every pointer).
func Alloc(p any) bool { panic("spec") }

// Made: the first value is what the function with this clause in its contract
// returned for the other values.
func Made(name string, a ...any) bool { panic("spec") }

// Field is a field, also of a type of another package.
func Field[T any](v any, name string) T { panic("spec") }

// Bytes are the elements of an array of bytes, Array is what a slice points to.
func Bytes(a any) string { panic("spec") }
func Array(s any) *int   { panic("spec") }

// Row is a field of a row of a builder: "F", "F.G" of a message, "F[]" with an
// index for an element, "F*" for what a pointer points to.
func Row[T any](row int, path string, i ...int) T { panic("spec") }

// SetEnc is the serialised form of a bitmap.
func SetEnc(bm any) string { panic("spec") }

// Contents are the elements of a slice, as they are now, as one value.
func Contents(s any) int { panic("spec") }

// EncTo: the encoder writes to w; DecFrom: the decoder reads from r; Detached: it
// is attached to nothing. Text of an encoder is what it collected, of a decoder
// what is left to decode. Written is what went to an unknown writer.
func EncTo(e, w any) bool     { panic("spec") }
func DecFrom(d, r any) bool   { panic("spec") }
func Detached(e any) bool     { panic("spec") }
func Written(w any) string    { panic("spec") }
func ReaderText(r any) string { panic("spec") }
