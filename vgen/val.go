package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic value:
//
//	*Term    scalars, references (pointers, maps, channels), opaque structs, byte arrays (as Str)
//	*SliceV  slices
//	*IfaceV  interfaces
//	*StructV struct values
//	*TupleV  multiple results
//	*FuncV   function values known by name
//	*Loc     pointer into something that is not an object of its own
//	*IterV   range iterators
type Val interface{}

type SliceV struct {
	elem types.Type
	a    *Term // backing array
	o    *Term // offset, byte slices only
	n, c *Term
	// a part of an array (a is a copy of it): what is written goes to both
	base, boff *Term
}
type IfaceV struct {
	t, p *Term
	ct   types.Type // known dynamic type
	cv   Val
}
type StructV struct {
	typ types.Type
	fs  []Val
}
type TupleV struct{ vs []Val }
type FuncV struct {
	fn   *ssa.Function
	bind []Val
	id   int64
	name string // builtin/model closures
	ext  func(x *Exec, fr *Frame, st *State, args []Val, k Cont)
}
type Loc struct {
	pre string
	idx []*Term
	typ types.Type
	// string valued byte of an array
	bytePos *Term
	// the same component of the array this is a part of
	also *Loc
}
type IterV struct {
	kind  string // map, str, bitmap
	m     *Term
	mt    *types.Map
	s     string
	pos   int
	seen  string // heap holding the visited set
	ref   *Term
	str   *Term
	isMap bool
}

// ---- types

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func typeKey(t types.Type) string {
	return types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Path() })
}

// opaque struct types are represented by a single mathematical value.
type opaqueInfo struct {
	sort Sort
	zero *Term
}

var emptySet = ConstArr(SSet, False)

// maxOpq marks structs that are modelled as mathematical values.
var opaque = map[string]opaqueInfo{
	"github.com/RoaringBitmap/roaring/roaring64.Bitmap":         {SSet, emptySet},
	"github.com/gernest/roaring.Bitmap":                         {SSet, emptySet},
	"bytes.Buffer":                                              {SStr, StrLit("")},
	"strings.Builder":                                           {SStr, StrLit("")},
	"github.com/cespare/xxhash/v2.Digest":                       {SStr, App("xxhUnready", SStr)}, // a zero digest is not ready for use
	"sync.Mutex":                                                {SInt, Int(0)},
	"sync.RWMutex":                                              {SInt, Int(0)},
	"sync.Once":                                                 {SInt, Int(0)},
	"sync.Pool":                                                 {SInt, Int(0)},
	"time.Location":                                             {SInt, Int(0)},
	"github.com/dgraph-io/badger/v4.DB":                         {SInt, Int(0)},
	"github.com/dgraph-io/badger/v4.Txn":                        {SInt, Int(0)},
	"github.com/dgraph-io/badger/v4.Item":                       {SInt, Int(0)},
	"github.com/dgraph-io/badger/v4.Sequence":                   {SInt, Int(0)},
	"github.com/dgraph-io/ristretto.Cache":                      {SInt, Int(0)},
	"github.com/klauspost/compress/zstd.Encoder":                {SStr, StrLit("")},
	"github.com/klauspost/compress/zstd.Decoder":                {SStr, StrLit("")},
	"github.com/dop251/goja.Runtime":                            {SInt, Int(0)},
	"github.com/dop251/goja.Program":                            {SInt, Int(0)},
	"text/tabwriter.Writer":                                     {SStr, StrLit("")},
	"google.golang.org/protobuf/internal/impl.MessageState":     {SInt, Int(0)},
	"google.golang.org/protobuf/runtime/protoimpl.MessageState": {SInt, Int(0)},
	"github.com/gernest/rbf.DB":                                 {SInt, Int(0)},
	"github.com/gernest/rbf.Tx":                                 {SInt, Int(0)},
	"google.golang.org/protobuf/internal/pragma.DoNotCopy":      {SInt, Int(0)},
}

func opaqueOf(t types.Type) (opaqueInfo, string, bool) {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		k := typeKey(n)
		o, ok := opaque[k]
		return o, k, ok
	}
	return opaqueInfo{}, "", false
}

func isTime(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

func isByte(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isStruct(t types.Type) bool {
	if _, _, ok := opaqueOf(t); ok {
		return false
	}
	if isTime(t) {
		return false
	}
	_, ok := under(t).(*types.Struct)
	return ok
}
func isByteArray(t types.Type) bool {
	a, ok := under(t).(*types.Array)
	return ok && isByte(a.Elem())
}
func isArray(t types.Type) bool {
	_, ok := under(t).(*types.Array)
	return ok
}

// isObj reports types whose locations have an identity of their own (a
// reference), instead of being a component of the enclosing object.
func isObj(t types.Type) bool {
	if _, _, ok := opaqueOf(t); ok {
		return true
	}
	return isStruct(t) || isArray(t)
}

type comp struct {
	suf  string
	sort Sort
}

// comps lists the scalar components of values of type t.
func comps(t types.Type) []comp {
	if o, _, ok := opaqueOf(t); ok {
		return []comp{{"", o.sort}}
	}
	if isTime(t) {
		return []comp{{".ns", SInt}, {".loc", SInt}}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []comp{{"", SBool}}
		case u.Info()&types.IsInteger != 0, u.Kind() == types.UnsafePointer:
			return []comp{{"", SInt}}
		case u.Info()&types.IsFloat != 0, u.Info()&types.IsComplex != 0:
			return []comp{{"", SFlt}}
		case u.Info()&types.IsString != 0:
			return []comp{{"", SStr}}
		case u.Kind() == types.UntypedNil:
			return []comp{{"", SInt}}
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []comp{{"", SInt}}
	case *types.Slice:
		if isByte(u.Elem()) {
			return []comp{{".a", SInt}, {".o", SInt}, {".n", SInt}, {".c", SInt}}
		}
		return []comp{{".a", SInt}, {".n", SInt}, {".c", SInt}}
	case *types.Interface:
		return []comp{{".t", SInt}, {".p", SInt}}
	case *types.Array:
		if isByte(u.Elem()) {
			return []comp{{"", SStr}}
		}
		return []comp{{"", arrSort(SInt, valSort(u.Elem()))}}
	case *types.TypeParam:
		return []comp{{"", SInt}}
	}
	panic(fmt.Sprintf("comps: %s", t))
}

func valSort(t types.Type) Sort {
	cs := comps(t)
	return cs[0].sort
}

func isSignedInt(t types.Type) (bits int, signed, ok bool) {
	b, k := under(t).(*types.Basic)
	if !k || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	default:
		return 64, false, true
	}
}

var two = big.NewInt(2)

func pow2(n int) *Term { return BigInt(new(big.Int).Exp(two, big.NewInt(int64(n)), nil)) }

func intRange(t types.Type) (lo, hi *Term, ok bool) {
	b, s, k := isSignedInt(t)
	if !k {
		return nil, nil, false
	}
	if s {
		return Sub(Int(0), pow2(b-1)), Sub(pow2(b-1), Int(1)), true
	}
	return Int(0), Sub(pow2(b), Int(1)), true
}

// wrap reduces a mathematical result to the range of t.
func wrap(v *Term, t types.Type) *Term {
	b, s, ok := isSignedInt(t)
	if !ok {
		return v
	}
	if v.isInt() {
		m := new(big.Int).Mod(v.ival, new(big.Int).Exp(two, big.NewInt(int64(b)), nil))
		if s && m.Cmp(new(big.Int).Exp(two, big.NewInt(int64(b-1)), nil)) >= 0 {
			m.Sub(m, new(big.Int).Exp(two, big.NewInt(int64(b)), nil))
		}
		return BigInt(m)
	}
	lo, hi, _ := intRange(t)
	in := And(Le(lo, v), Le(v, hi))
	if s {
		return Ite(in, v, Sub(Mod(Add(v, pow2(b-1)), pow2(b)), pow2(b-1)))
	}
	return Ite(in, v, Mod(v, pow2(b)))
}

// ---- type tags of interfaces

var (
	tagMu  sync.Mutex
	tagOf  = map[string]int64{}
	tagTyp = map[int64]types.Type{}
	funcs  = map[int64]*FuncV{}
	funcN  int64
	funcBy = map[*ssa.Function]int64{}
)

func typeTag(t types.Type) int64 {
	k := typeKey(t)
	tagMu.Lock()
	defer tagMu.Unlock()
	if n, ok := tagOf[k]; ok {
		return n
	}
	n := int64(len(tagOf) + 1)
	tagOf[k] = n
	tagTyp[n] = t
	return n
}
func tagType(n int64) types.Type {
	tagMu.Lock()
	defer tagMu.Unlock()
	return tagTyp[n]
}

func funcTerm(f *FuncV) *Term {
	tagMu.Lock()
	defer tagMu.Unlock()
	if f.id == 0 {
		if f.fn != nil && len(f.bind) == 0 {
			if id, ok := funcBy[f.fn]; ok {
				f.id = id
				return Int(-1000000 - id)
			}
		}
		funcN++
		f.id = funcN
		funcs[f.id] = f
		if f.fn != nil && len(f.bind) == 0 {
			funcBy[f.fn] = f.id
		}
	}
	return Int(-1000000 - f.id)
}
func termFunc(t *Term) *FuncV {
	if !t.isInt() || !t.ival.IsInt64() {
		return nil
	}
	tagMu.Lock()
	defer tagMu.Unlock()
	return funcs[-1000000-t.i64()]
}

// ---- boxing of non pointer values in interfaces

func boxTerm(t *Term) *Term {
	switch t.sort {
	case SInt:
		return t
	case SBool:
		return Ite(t, Int(1), Int(0))
	}
	if t.op == "app" && t.name == "unbox:"+string(t.sort) {
		return t.args[0]
	}
	fn, un := "box:"+string(t.sort), "unbox:"+string(t.sort)
	v := Var("?b", t.sort)
	_ = v
	b := BVar("b", t.sort)
	addAxiom(fn, "inv", Forall([]*Term{b}, Eq(App(un, t.sort, App(fn, SInt, b)), b), []*Term{App(fn, SInt, b)}))
	return App(fn, SInt, t)
}

func unboxTerm(p *Term, s Sort) *Term {
	switch s {
	case SInt:
		return p
	case SBool:
		return Not(Eq(p, Int(0)))
	}
	if p.op == "app" && p.name == "box:"+string(s) {
		return p.args[0]
	}
	return App("unbox:"+string(s), s, p)
}

// ---- byte arrays
//
// BArr values: bnew(s) holds s at its start, bw(b, at, s) is b overwritten with
// s at position at. sv(b, o, n) is the content of n bytes at o.

func bnew(s *Term) *Term {
	addBytesAxioms()
	return App("bnew", SByt, s)
}

var bytesAxOnce sync.Once

// addBytesAxioms gives the solver the readings sv makes of lengths that are
// equal by their terms, for lengths that are only provably equal.
func addBytesAxioms() {
	bytesAxOnce.Do(func() {
		s, b := BVar("s", SStr), BVar("b", SByt)
		at, o, n := BVar("at", SInt), BVar("o", SInt), BVar("n", SInt)
		sl := App("slen", SInt, s)
		nw := App("bnew", SByt, s)
		addAxiom("bnew", "all", Forall([]*Term{s}, Eq(App("sv", SStr, nw, Int(0), sl), s), []*Term{nw}))
		w := App("bw", SByt, b, at, s)
		addAxiom("bw", "own", Forall([]*Term{b, at, s}, Eq(App("sv", SStr, w, at, sl), s), []*Term{w}))
		r := App("sv", SStr, w, o, n)
		addAxiom("bw", "tail", Forall([]*Term{b, at, s, o, n}, Implies(And(Eq(Add(o, n), Add(at, sl)), Le(o, at)),
			Eq(r, Cat(App("sv", SStr, b, o, Sub(at, o)), s))), []*Term{r}))
		addAxiom("bw", "before", Forall([]*Term{b, at, s, o, n}, Implies(Le(Add(o, n), at),
			Eq(r, App("sv", SStr, b, o, n))), []*Term{r}))
	})
}

func bwr(b, at, s *Term) *Term {
	return App("bw", SByt, b, at, s)
}

func sv(b, o, n *Term) *Term {
	if n.isInt() && n.ival.Sign() == 0 {
		return StrLit("")
	}
	if b.op == "ite" {
		c := b.args[0]
		return Ite(c, sv(b.args[1], under1(o, c, True), under1(n, c, True)), sv(b.args[2], under1(o, c, False), under1(n, c, False)))
	}
	switch {
	case b.op == "app" && b.name == "bnew":
		if o.isInt() && o.ival.Sign() == 0 && Eq(n, Slen(b.args[0])) == True {
			return b.args[0]
		}
		if s := prefixStr(b.args[0], o, n); s != nil {
			return s
		}
	case b.op == "app" && b.name == "bw":
		b0, at, s := b.args[0], b.args[1], b.args[2]
		end := Add(at, Slen(s))
		if Eq(o, at) == True && Eq(n, Slen(s)) == True {
			return s
		}
		if Eq(Add(o, n), end) == True {
			return Cat(sv(b0, o, Sub(at, o)), s)
		}
		if Eq(Add(o, n), at) == True {
			return sv(b0, o, n)
		}
		if d := Sub(at, Add(o, n)); d.isInt() && d.ival.Sign() >= 0 {
			return sv(b0, o, n)
		}
		if d := Sub(o, end); d.isInt() && d.ival.Sign() >= 0 {
			return sv(b0, o, n)
		}
		if Eq(o, at) == True {
			if s2 := prefixStr(s, Int(0), n); s2 != nil {
				return s2
			}
		}
	}
	return App("sv", SStr, b, o, n)
}

// prefixStr takes whole pieces of a concatenation.
func prefixStr(s, o, n *Term) *Term {
	var ps []*Term
	if s.op == "cat" {
		ps = s.args
	} else {
		ps = []*Term{s}
	}
	pos := Int(0)
	for i := 0; i < len(ps); i++ {
		if Eq(pos, o) == True {
			var out []*Term
			l := Int(0)
			for j := i; j < len(ps); j++ {
				if Eq(l, n) == True {
					break
				}
				if ps[j].op == "str" && n.isInt() && l.isInt() {
					rest := n.i64() - l.i64()
					if rest < int64(len(ps[j].name)) {
						out = append(out, StrLit(ps[j].name[:rest]))
						l = n
						break
					}
				}
				if pl := Slen(ps[j]); pl.isInt() && n.isInt() && l.isInt() {
					if rest := n.i64() - l.i64(); rest < pl.i64() {
						out = append(out, substr(ps[j], Int(0), Int(rest)))
						l = n
						break
					}
				}
				out = append(out, ps[j])
				l = Add(l, Slen(ps[j]))
			}
			if Eq(l, n) == True {
				return Cat(out...)
			}
			return nil
		}
		if ps[i].op == "str" && o.isInt() && pos.isInt() && o.i64() < pos.i64()+int64(len(ps[i].name)) {
			k := o.i64() - pos.i64()
			rest := append([]*Term{StrLit(ps[i].name[k:])}, ps[i+1:]...)
			return prefixStr(Cat(rest...), Int(0), n)
		}
		pos = Add(pos, Slen(ps[i]))
	}
	return nil
}

// assumeC simplifies t under c (or not c), for ites only.
func assumeC(t, c *Term, v bool) *Term {
	if t.op == "ite" && t.args[0] == c {
		if v {
			return assumeC(t.args[1], c, v)
		}
		return assumeC(t.args[2], c, v)
	}
	if t.op == "+" {
		r := Int(0)
		for _, a := range t.args {
			r = Add(r, assumeC(a, c, v))
		}
		return r
	}
	return t
}

// ---- values

func zeroVal(t types.Type) Val {
	if o, _, ok := opaqueOf(t); ok {
		return o.zero
	}
	if isTime(t) {
		return &StructV{t, []Val{zeroTimeNs, Int(0)}}
	}
	switch u := under(t).(type) {
	case *types.Struct:
		s := &StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.fs = append(s.fs, zeroVal(u.Field(i).Type()))
		}
		return s
	case *types.Slice:
		return nilSlice(u.Elem())
	case *types.Interface:
		return &IfaceV{t: Int(0), p: Int(0)}
	case *types.Array:
		if isByte(u.Elem()) {
			return StrLit(strings.Repeat("\x00", int(u.Len())))
		}
		return ConstArr(comps(t)[0].sort, zeroVal(u.Elem()).(*Term))
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.vs = append(tv.vs, zeroVal(u.At(i).Type()))
		}
		return tv
	}
	switch comps(t)[0].sort {
	case SInt:
		return Int(0)
	case SBool:
		return False
	case SStr:
		return StrLit("")
	case SFlt:
		return App("flt:0", SFlt)
	}
	panic("zeroVal " + t.String())
}

// The zero time.Time in nanoseconds since the unix epoch.
var zeroTimeNs = func() *Term {
	v, _ := new(big.Int).SetString("-62135596800000000000", 10)
	return BigInt(v)
}()

func nilSlice(elem types.Type) *SliceV {
	s := &SliceV{elem: elem, a: Int(0), n: Int(0), c: Int(0)}
	if isByte(elem) {
		s.o = Int(0)
	}
	return s
}

// flat splits a value of type t into its components (see comps). Struct
// values are not flat.
func (x *Exec) flat(st *State, v Val, t types.Type) []*Term {
	switch w := v.(type) {
	case *Term:
		return []*Term{w}
	case *SliceV:
		if w.o != nil {
			return []*Term{w.a, w.o, w.n, w.c}
		}
		return []*Term{w.a, w.n, w.c}
	case *IfaceV:
		if w.p == nil {
			w.t = Int(typeTag(w.ct))
			w.p = x.boxVal(st, w.cv, w.ct)
		}
		return []*Term{w.t, w.p}
	case *FuncV:
		return []*Term{funcTerm(w)}
	case *StructV:
		if isTime(w.typ) {
			return []*Term{w.fs[0].(*Term), w.fs[1].(*Term)}
		}
		var out []*Term
		u := under(w.typ).(*types.Struct)
		for i, f := range w.fs {
			out = append(out, x.flat(st, f, u.Field(i).Type())...)
		}
		return out
	case *Loc:
		return []*Term{x.locRef(st, w)}
	case *IterV:
		return []*Term{Int(0)}
	case nil:
		panic("flat nil " + t.String())
	}
	panic(fmt.Sprintf("flat %T", v))
}

// unflat is the inverse of flat.
func unflat(t types.Type, ts []*Term) Val {
	if _, _, ok := opaqueOf(t); ok {
		return ts[0]
	}
	if isTime(t) {
		return &StructV{t, []Val{ts[0], ts[1]}}
	}
	switch u := under(t).(type) {
	case *types.Slice:
		if isByte(u.Elem()) {
			return &SliceV{elem: u.Elem(), a: ts[0], o: ts[1], n: ts[2], c: ts[3]}
		}
		return &SliceV{elem: u.Elem(), a: ts[0], n: ts[1], c: ts[2]}
	case *types.Interface:
		return mkIface(ts[0], ts[1])
	case *types.Signature:
		if f := termFunc(ts[0]); f != nil {
			return f
		}
		return ts[0]
	}
	return ts[0]
}

func mkIface(t, p *Term) *IfaceV {
	v := &IfaceV{t: t, p: p}
	if t.isInt() && t.i64() != 0 {
		v.ct = tagType(t.i64())
		if v.ct != nil {
			if isStruct(v.ct) {
				v.ct = nil
			} else if cs := compsOK(v.ct); len(cs) == 1 {
				v.cv = unflat(v.ct, []*Term{unboxTerm(p, cs[0].sort)})
			} else {
				v.ct = nil
			}
		}
	}
	return v
}

func compsOK(t types.Type) (cs []comp) {
	if isStruct(t) {
		return nil
	}
	defer func() {
		if recover() != nil {
			cs = nil
		}
	}()
	return comps(t)
}

// boxVal turns a value into the payload of an interface.
func (x *Exec) boxVal(st *State, v Val, t types.Type) *Term {
	switch w := v.(type) {
	case *Term:
		return boxTerm(w)
	case *FuncV:
		return funcTerm(w)
	case *Loc:
		return x.locRef(st, w)
	case *IfaceV:
		panic("box iface")
	default:
		// a boxed copy
		r := x.newRef(st)
		x.storeBoxed(st, r, v, t)
		return r
	}
}

func (x *Exec) storeBoxed(st *State, r *Term, v Val, t types.Type) {
	switch w := v.(type) {
	case *StructV:
		if !isTime(w.typ) {
			x.store(st, refLoc(t, r), v, t)
			return
		}
	}
	x.store(st, &Loc{pre: "box:" + typeKey(t), idx: []*Term{r}, typ: t}, v, t)
}

// ---- locations

func refLoc(t types.Type, ref *Term) *Loc {
	if _, k, ok := opaqueOf(t); ok {
		return &Loc{pre: "o:" + k, idx: []*Term{ref}, typ: t}
	}
	if isStruct(t) {
		return &Loc{pre: typeKey(t), idx: []*Term{ref}, typ: t}
	}
	if a, ok := under(t).(*types.Array); ok {
		if isByte(a.Elem()) {
			return &Loc{pre: "bmem", idx: []*Term{ref}, typ: t}
		}
		return &Loc{pre: "mem:" + typeKey(a.Elem()), idx: []*Term{ref}, typ: t}
	}
	return &Loc{pre: "c:" + typeKey(t), idx: []*Term{ref}, typ: t}
}

func subName(owner, f string) string { return "sub:" + owner + "." + f }

func subRef(owner, f string, ref *Term) *Term {
	n := subName(owner, f)
	r := BVar("r", SInt)
	s := App(n, SInt, r)
	tagMu.Lock()
	k, ok := tagOf["#"+n]
	if !ok {
		k = int64(len(tagOf) + 1)
		tagOf["#"+n] = k
	}
	tagMu.Unlock()
	addAxiom(n, "sub", Forall([]*Term{r}, And(
		Eq(App("inv:"+n, SInt, s), r),
		Eq(App("kind", SInt, s), Int(k)),
		Lt(s, Int(0)),
		Eq(App("root", SInt, s), App("root", SInt, r)),
	), []*Term{s}))
	addAxiom("root", "pos", Forall([]*Term{r}, Implies(Le(Int(0), r), Eq(App("root", SInt, r), r)), []*Term{App("root", SInt, r)}))
	return App(n, SInt, ref)
}

func rootOf(r *Term) *Term {
	for isSub(r) {
		r = r.args[0]
	}
	if _, ok := isAlloc(r); ok {
		return r
	}
	if r.isInt() {
		return r
	}
	if r.op == "ite" {
		return Ite(r.args[0], rootOf(r.args[1]), rootOf(r.args[2]))
	}
	v := BVar("r", SInt)
	addAxiom("root", "pos", Forall([]*Term{v}, Implies(Le(Int(0), v), Eq(App("root", SInt, v), v)), []*Term{App("root", SInt, v)}))
	return App("root", SInt, r)
}

func fieldLoc(l *Loc, i int) *Loc {
	s := under(l.typ).(*types.Struct)
	f := s.Field(i)
	if len(l.idx) == 1 && isObj(f.Type()) && !isTime(f.Type()) {
		return refLoc(f.Type(), subRef(l.pre, f.Name(), l.idx[0]))
	}
	r := &Loc{pre: l.pre + "." + f.Name(), idx: l.idx, typ: f.Type()}
	if l.also != nil {
		r.also = fieldLoc(l.also, i)
	}
	return r
}

func heapSort(s Sort, n int) Sort {
	for i := 0; i < n; i++ {
		s = arrSort(SInt, s)
	}
	return s
}

func isProtoInternal(f *types.Var) bool {
	switch f.Name() {
	case "state", "sizeCache", "unknownFields":
		k := typeKey(f.Type())
		return strings.Contains(k, "protobuf") || f.Name() != "state"
	}
	return false
}

func (x *Exec) load(st *State, l *Loc) Val {
	if l.bytePos != nil {
		b := x.heapGet(st, "bmem", heapSort(SByt, 1))
		return byteAt(Select(b, l.idx[0]), l.bytePos)
	}
	if isStruct(l.typ) {
		s := under(l.typ).(*types.Struct)
		v := &StructV{typ: l.typ}
		for i := 0; i < s.NumFields(); i++ {
			if isProtoInternal(s.Field(i)) || s.Field(i).Name() == "_" {
				v.fs = append(v.fs, zeroVal(s.Field(i).Type()))
				continue
			}
			v.fs = append(v.fs, x.load(st, fieldLoc(l, i)))
		}
		return v
	}
	if a, ok := under(l.typ).(*types.Array); ok && !isOpq(l.typ) && len(l.idx) == 1 {
		if isByte(a.Elem()) {
			b := x.heapGet(st, "bmem", heapSort(SByt, 1))
			return sv(Select(b, l.idx[0]), Int(0), Int(a.Len()))
		}
		return Select(x.heapGet(st, l.pre, heapSort(valSort(a.Elem()), 2)), l.idx[0])
	}
	var ts []*Term
	for ci, c := range comps(l.typ) {
		if len(l.idx) > 0 {
			regHeap(l.pre+c.suf, l.typ, ci)
		}
		h := x.heapGet(st, l.pre+c.suf, heapSort(c.sort, len(l.idx)))
		for _, i := range l.idx {
			h = Select(h, i)
		}
		ts = append(ts, h)
	}
	x.loadFacts(st, l.typ, ts)
	return unflat(l.typ, ts)
}

func isOpq(t types.Type) bool { _, _, ok := opaqueOf(t); return ok }

func (x *Exec) store(st *State, l *Loc, v Val, t types.Type) {
	if l.also != nil {
		x.store(st, l.also, v, t)
		m := *l
		m.also = nil
		l = &m
	}
	if l.bytePos != nil {
		b := x.heapGet(st, "bmem", heapSort(SByt, 1))
		x.heapSet(st, "bmem", Store(b, l.idx[0], bwr(Select(b, l.idx[0]), l.bytePos, App("chr", SStr, v.(*Term)))), l.idx)
		return
	}
	if isStruct(l.typ) {
		s := under(l.typ).(*types.Struct)
		sv, ok := v.(*StructV)
		if !ok {
			panic(fmt.Sprintf("store struct %s with %T", l.typ, v))
		}
		for i := 0; i < s.NumFields(); i++ {
			if isProtoInternal(s.Field(i)) || s.Field(i).Name() == "_" {
				continue
			}
			x.store(st, fieldLoc(l, i), sv.fs[i], s.Field(i).Type())
		}
		return
	}
	if a, ok := under(l.typ).(*types.Array); ok && !isOpq(l.typ) && len(l.idx) == 1 {
		if isByte(a.Elem()) {
			b := x.heapGet(st, "bmem", heapSort(SByt, 1))
			x.heapSet(st, "bmem", Store(b, l.idx[0], bnew(v.(*Term))), l.idx)
			return
		}
		h := x.heapGet(st, l.pre, heapSort(valSort(a.Elem()), 2))
		x.heapSet(st, l.pre, Store(h, l.idx[0], v.(*Term)), l.idx)
		return
	}
	ts := x.flat(st, v, t)
	for i, c := range comps(l.typ) {
		name := l.pre + c.suf
		if len(l.idx) > 0 {
			regHeap(name, l.typ, i)
		}
		h := x.heapGet(st, name, heapSort(c.sort, len(l.idx)))
		if ts[i].sort != c.sort {
			panic(fmt.Sprintf("store %s: sort %s into %s", name, ts[i].sort, c.sort))
		}
		x.heapSet(st, name, storeN(h, l.idx, ts[i]), l.idx)
	}
}

func storeN(h *Term, idx []*Term, v *Term) *Term {
	if len(idx) == 0 {
		return v
	}
	if len(idx) == 1 {
		return Store(h, idx[0], v)
	}
	return Store(h, idx[0], storeN(Select(h, idx[0]), idx[1:], v))
}

func byteAt(b, i *Term) *Term {
	if b.op == "app" && b.name == "bnew" && b.args[0].op == "str" && i.isInt() && i.i64() < int64(len(b.args[0].name)) && i.i64() >= 0 {
		return Int(int64(b.args[0].name[i.i64()]))
	}
	if b.op == "app" && b.name == "bnew" {
		if l := Slen(b.args[0]); i.isInt() && l.isInt() && i.i64() >= 0 && i.i64() < l.i64() {
			return Schr(b.args[0], i)
		}
	}
	if b.op == "app" && b.name == "bw" {
		at, l := b.args[1], Slen(b.args[2])
		if i.isInt() && at.isInt() && l.isInt() {
			if i.i64() >= at.i64() && i.i64() < at.i64()+l.i64() {
				return Schr(b.args[2], Sub(i, at))
			}
			return byteAt(b.args[0], i)
		}
	}
	return App("bat", SInt, b, i)
}

// Schr is a byte of a string.
func Schr(s, i *Term) *Term {
	if s.op == "str" && i.isInt() && i.i64() >= 0 && i.i64() < int64(len(s.name)) {
		return Int(int64(s.name[i.i64()]))
	}
	if s.op == "app" && s.name == "chr" && i.isInt() && i.i64() == 0 && s.args[0].isInt() {
		return s.args[0]
	}
	if s.op == "app" && s.name == "sv" && i.isInt() && s.args[2].isInt() && i.i64() >= 0 && i.i64() < s.args[2].i64() {
		return byteAt(s.args[0], Add(s.args[1], i))
	}
	return App("schr", SInt, s, i)
}

// locRef turns a pointer into a component into a reference. Objects have one,
// for scalars a copy is made.
func (x *Exec) locRef(st *State, l *Loc) *Term {
	if len(l.idx) == 1 && isObj(l.typ) && l.bytePos == nil {
		return l.idx[0]
	}
	x.note("address of a component escapes: the pointee is copied (" + l.pre + ")")
	v := x.load(st, l)
	r := x.newRef(st)
	x.store(st, refLoc(l.typ, r), v, l.typ)
	return r
}
