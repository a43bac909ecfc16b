package main

import (
	"go/ast"
	"go/types"
)

// zstd: an encoder collects what is written to it and sends one text that
// decodes to it to its destination when it is closed; a decoder decodes the text
// of the reader it is attached to. Both may be attached to nothing. Writing to a
// destination may fail half way.

const zstdPkg = "github.com/klauspost/compress/zstd."

func init() {
	const et, ep, dt, dp, wr = "gs:zenc:t", "gs:zenc:p", "gs:zdec:t", "gs:zdec:p", "gs:written"
	ghostHeapTab["zstd"] = map[string]Sort{et: arrSort(SInt, SInt), ep: arrSort(SInt, SInt), dt: arrSort(SInt, SInt), dp: arrSort(SInt, SInt), wr: arrSort(SInt, SStr)}
	ints := func(x *Exec, st *State, n string) *Term { return x.heapGet(st, n, arrSort(SInt, SInt)) }
	set := func(x *Exec, st *State, n string, r, v *Term) {
		x.heapSet(st, n, Store(ints(x, st, n), r, v), []*Term{r})
	}
	on := func(a, b string) func(e *specEnv, ta types.Type, c *ast.CallExpr) Val {
		return func(e *specEnv, ta types.Type, c *ast.CallExpr) Val {
			r := e.refOf(c.Args[0])
			i := e.x.flat(e.st, e.eval(c.Args[1]), e.typ(c.Args[1]))
			if len(i) == 1 {
				i = []*Term{Int(typeTag(e.typ(c.Args[1]))), i[0]}
			}
			return And(Eq(Select(ints(e.x, e.st, a), r), i[0]), Eq(Select(ints(e.x, e.st, b), r), i[1]))
		}
	}
	extIntrinsics["encTo"] = on(et, ep)
	extIntrinsics["decFrom"] = on(dt, dp)
	extIntrinsics["detached"] = func(e *specEnv, ta types.Type, c *ast.CallExpr) Val {
		r := e.refOf(c.Args[0])
		if typeKey(elemOrSelf(e.typ(c.Args[0]))) == zstdPkg+"Decoder" {
			return Eq(Select(ints(e.x, e.st, dt), r), Int(0))
		}
		return Eq(Select(ints(e.x, e.st, et), r), Int(0))
	}
	extIntrinsics["written"] = func(e *specEnv, ta types.Type, c *ast.CallExpr) Val {
		i := e.x.flat(e.st, e.eval(c.Args[0]), e.typ(c.Args[0]))
		return Select(e.x.heapGet(e.st, wr, arrSort(SInt, SStr)), i[len(i)-1])
	}
	extIntrinsics["readerText"] = func(e *specEnv, ta types.Type, c *ast.CallExpr) Val {
		i := e.x.flat(e.st, e.eval(c.Args[0]), e.typ(c.Args[0]))
		return App("rdr:str", SStr, i[len(i)-1])
	}
	// send hands text to a destination
	send := func(x *Exec, fr *Frame, st *State, t, p, s *Term, site *callInfo, k func(st *State, failed bool)) {
		x.slenFact(st, s)
		var ty types.Type
		if t.isInt() {
			ty = tagType(t.i64())
		}
		if ty != nil && typeKey(elemOrSelf(ty)) == "bytes.Buffer" {
			bufChanged(x, st, p)
			bt := elemOfPtr(ty)
			x.opqStore(st, bt, p, Cat(x.opqLoad(st, bt, p), s))
			k(st, false)
			return
		}
		if ty != nil {
			if fn := x.p.prog.LookupMethod(ty, nil, "Write"); fn != nil && fn.Blocks != nil {
				x.callFn(fr, st, fn, []Val{p, x.newBytes(st, s)}, nil, site.site, func(st *State, res []Val) {
					e := x.flat(st, res[1], types.Universe.Lookup("error").Type())
					if e[0] == Int(0) {
						k(st, false)
						return
					}
					b := st.clone()
					x.assume(b, Not(Eq(e[0], Int(0))))
					k(b, true)
					x.assume(st, Eq(e[0], Int(0)))
					k(st, false)
				})
				return
			}
		}
		h := x.heapGet(st, wr, arrSort(SInt, SStr))
		b := st.clone()
		part := Fresh("part", SStr)
		x.slenFact(b, part)
		x.heapSet(b, wr, Store(h, p, Cat(Select(h, p), part)), []*Term{p})
		k(b, true)
		x.heapSet(st, wr, Store(h, p, Cat(Select(h, p), s)), []*Term{p})
		k(st, false)
	}
	newOne := func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		s := st.clone()
		k(s, []Val{Int(0), otherErr(x, s)})
		r := x.newRef(st)
		i := x.flat(st, c.args[0], types.NewInterfaceType(nil, nil))
		set(x, st, et, r, Int(0))
		set(x, st, dt, r, Int(0))
		set(x, st, ep, r, Int(0))
		set(x, st, dp, r, Int(0))
		if i[0] != Int(0) {
			x.fail("zstd attached when it is made")
		}
		x.opqStore(st, elemOfPtr(c.resType(0)), r, StrLit(""))
		k(st, []Val{r, zeroVal(c.resType(1))})
	}
	models[zstdPkg+"NewWriter"] = newOne
	models[zstdPkg+"NewReader"] = newOne
	enc, dec := "(*"+zstdPkg+"Encoder).", "(*"+zstdPkg+"Decoder)."
	models[enc+"Reset"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		i := x.flat(st, c.args[1], types.NewInterfaceType(nil, nil))
		r := term(c.args[0])
		set(x, st, et, r, i[0])
		set(x, st, ep, r, i[1])
		x.opqStore(st, recvElem(c), c.args[0], StrLit(""))
		return nil
	})
	models[enc+"Write"] = func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		r := term(c.args[0])
		d := x.bytesOf(st, c.args[1].(*SliceV))
		t, p := Select(ints(x, st, et), r), Select(ints(x, st, ep), r)
		s := st.clone()
		part := Fresh("part", SStr)
		send(x, fr, s, t, p, part, c, func(s *State, failed bool) {
			x.opqStore(s, recvElem(c), c.args[0], Fresh("lost", SStr))
			k(s, []Val{Fresh("n", SInt), otherErr(x, s)})
		})
		x.opqStore(st, recvElem(c), c.args[0], Cat(x.opqLoad(st, recvElem(c), c.args[0]), d))
		k(st, []Val{c.args[1].(*SliceV).n, zeroVal(c.resType(1))})
	}
	models[enc+"Close"] = func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		r := term(c.args[0])
		t, p := Select(ints(x, st, et), r), Select(ints(x, st, ep), r)
		s := st.clone()
		part := Fresh("part", SStr)
		send(x, fr, s, t, p, part, c, func(s *State, failed bool) {
			k(s, []Val{otherErr(x, s)})
		})
		z := Fresh("z", SStr)
		x.fact(st, And(App("zstd:ok", SBool, z), Eq(App("zstd:dec", SStr, z), x.opqLoad(st, recvElem(c), c.args[0]))))
		send(x, fr, st, t, p, z, c, func(st *State, failed bool) {
			if failed {
				k(st, []Val{otherErr(x, st)})
				return
			}
			k(st, []Val{zeroVal(c.resType(0))})
		})
	}
	models[dec+"Reset"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		i := x.flat(st, c.args[1], types.NewInterfaceType(nil, nil))
		r := term(c.args[0])
		set(x, st, dt, r, i[0])
		set(x, st, dp, r, i[1])
		x.opqStore(st, recvElem(c), c.args[0], Ite(Eq(i[0], Int(0)), StrLit(""), App("rdr:str", SStr, i[1])))
		e := freshErr(x, st).(*IfaceV)
		return []Val{&IfaceV{t: Ite(Eq(i[0], Int(0)), e.t, Int(0)), p: Ite(Eq(i[0], Int(0)), e.p, Int(0))}}
	})
	models[dec+"WriteTo"] = func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		r := term(c.args[0])
		i := x.flat(st, c.args[1], types.NewInterfaceType(nil, nil))
		src := x.opqLoad(st, recvElem(c), c.args[0])
		ok := And(App("zstd:ok", SBool, src), Not(Eq(Select(ints(x, st, dt), r), Int(0))))
		s := st.clone()
		x.assume(s, Not(ok))
		send(x, fr, s, i[0], i[1], Fresh("part", SStr), c, func(s *State, failed bool) {
			k(s, []Val{Fresh("n", SInt), otherErr(x, s)})
		})
		x.assume(st, ok)
		z := App("zstd:dec", SStr, src)
		send(x, fr, st, i[0], i[1], z, c, func(st *State, failed bool) {
			x.opqStore(st, recvElem(c), c.args[0], StrLit(""))
			if failed {
				k(st, []Val{Fresh("n", SInt), otherErr(x, st)})
				return
			}
			k(st, []Val{Slen(z), zeroVal(c.resType(1))})
		})
	}
	models[dec+"Read"] = func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		p := c.args[1].(*SliceV)
		chunk := Fresh("chunk", SStr)
		x.slenFact(st, chunk)
		x.fact(st, Le(Slen(chunk), p.n))
		h := x.heapGet(st, "bmem", heapSort(SByt, 1))
		x.heapSet(st, "bmem", Store(h, p.a, bwr(Select(h, p.a), p.off0(), chunk)), []*Term{p.a})
		x.opqStore(st, recvElem(c), c.args[0], Fresh("rest", SStr))
		s := st.clone()
		k(s, []Val{Slen(chunk), otherErr(x, s)})
		k(st, []Val{Slen(chunk), zeroVal(c.resType(1))})
	}
}

func elemOrSelf(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}
