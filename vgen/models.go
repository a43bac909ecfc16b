package main

import (
	"go/ast"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// models are the trusted specifications of library functions. Every model used
// by a proof is listed in its evidence.
var models = map[string]model{}

func pureModel(f func(x *Exec, st *State, c *callInfo) []Val) model {
	return func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) { k(st, f(x, st, c)) }
}

func term(v Val) *Term { return v.(*Term) }

func timeV(t types.Type, ns, loc *Term) Val { return &StructV{t, []Val{ns, loc}} }
func tns(v Val) *Term                       { return v.(*StructV).fs[0].(*Term) }
func tloc(v Val) *Term                      { return v.(*StructV).fs[1].(*Term) }

var secNs = Int(1000000000)

// opqLoad and opqStore access a modelled object.
func (x *Exec) opqLoad(st *State, t types.Type, ref Val) *Term {
	return x.load(st, x.ptrLocP(ref, t)).(*Term)
}
func (x *Exec) opqStore(st *State, t types.Type, ref Val, v *Term) {
	x.store(st, x.ptrLocP(ref, t), v, t)
}
func (x *Exec) ptrLocP(v Val, t types.Type) *Loc {
	switch w := v.(type) {
	case *Loc:
		return w
	case *Term:
		return refLoc(t, w)
	}
	x.fail("receiver %T", v)
	return nil
}
func recvElem(c *callInfo) types.Type { return elemOfPtr(c.sig.Recv().Type()) }

func ifaceNil(x *Exec, st *State, v Val, t types.Type) *Term {
	ts := x.flat(st, v, t)
	return Eq(ts[0], Int(0))
}

// freshErr makes a non nil error.
func freshErr(x *Exec, st *State) Val {
	r := x.newRef(st)
	return &IfaceV{t: Int(typeTag(types.Universe.Lookup("string").Type())), p: r}
}

const bufView = "lock:bufview"

// bufChanged: what Bytes returned before is not valid any more.
func bufChanged(x *Exec, st *State, r Val) {
	t, ok := r.(*Term)
	h, on := st.heaps[bufView]
	if !ok || !on {
		return
	}
	v := Select(h, t)
	if _, ok := isAlloc(v); !ok {
		return // Bytes was not called here
	}
	b := x.heapGet(st, "bmem", heapSort(SByt, 1))
	x.heapSet(st, "bmem", Store(b, v, Fresh("stale", SByt)), []*Term{v})
}

func lockModel(n int64, need int64) model {
	return func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		ref, ok := c.args[0].(*Term)
		if !ok {
			x.fail("lock of %T", c.args[0])
		}
		h := x.heapGet(st, "lock", arrSort(SInt, SInt))
		if x.guardOn {
			x.oblige(st, "guarded", map[int64]string{0: "lock is not held when it is taken", 1: "lock is held when it is released", 2: "lock is held when it is released"}[need], x.pos(c.site), Eq(Select(h, ref), Int(need)))
		}
		x.heapSet(st, "lock", Store(h, ref, Int(n)), []*Term{ref})
		if n != 0 {
			x.lockHavoc(st, ref)
		}
		k(st, nil)
	}
}

// lockHavoc forgets the fields guarded by a lock when it is taken.
func (x *Exec) lockHavoc(st *State, ref *Term) {
	if !x.guardOn || ref.op != "app" || !strings.HasPrefix(ref.name, "sub:") {
		return
	}
	if _, ok := isAlloc(ref.args[0]); ok {
		return
	}
	m := strings.TrimPrefix(ref.name, "sub:")
	for _, f := range sortedKeys(x.p.guards) {
		if x.p.guards[f] != m {
			continue
		}
		ty := x.p.fieldType(f)
		if ty == nil {
			continue
		}
		if isObj(ty) || isStruct(ty) {
			continue
		}
		nb := Fresh("A", SInt)
		st.add(Le(st.alloc(), nb), false)
		st.abase, st.aoff = nb, 0
		for _, l := range x.locHeaps(&Loc{pre: f, idx: []*Term{ref.args[0]}, typ: ty}) {
			x.havocLoc(st, l)
		}
		if m, ok := under(ty).(*types.Map); ok {
			r := x.load(st, &Loc{pre: f, idx: []*Term{ref.args[0]}, typ: ty}).(*Term)
			pre, ks := mapHeaps(m)
			ls := []*modLoc{{pre + "#has", arrSort(SInt, arrSort(ks, SBool)), []*Term{r}}, {pre + "#n", arrSort(SInt, SInt), []*Term{r}}}
			for _, p := range mapPaths(m) {
				ls = append(ls, &modLoc{p.suf, arrSort(SInt, arrSort(ks, p.sort)), []*Term{r}})
			}
			for _, l := range ls {
				x.havocLoc(st, l)
			}
		}
	}
}

// fieldType finds the type of a field heap name pkg.Type.field.
func (p *Program) fieldType(f string) types.Type {
	i := strings.LastIndexByte(f, '.')
	j := strings.LastIndexByte(f[:i], '.')
	pk := p.byPath[f[:j]]
	if pk == nil {
		return nil
	}
	tn, ok := pk.Types.Scope().Lookup(f[j+1 : i]).(*types.TypeName)
	if !ok {
		return nil
	}
	s, ok := tn.Type().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for n := 0; n < s.NumFields(); n++ {
		if s.Field(n).Name() == f[i+1:] {
			return s.Field(n).Type()
		}
	}
	return nil
}

const rb64 = "(*github.com/RoaringBitmap/roaring/roaring64.Bitmap)."

func setFn(name string, f func(a, b *Term) *Term) {
	A, B, i := BVar("a", SSet), BVar("b", SSet), BVar("i", SInt)
	t := App(name, SSet, A, B)
	sel := mk("select", "", SBool, []*Term{t, i}, nil, nil)
	sa, sb := mk("select", "", SBool, []*Term{A, i}, nil, nil), mk("select", "", SBool, []*Term{B, i}, nil, nil)
	addAxiom(name, "def", Forall([]*Term{A, B, i}, Eq(sel, f(sa, sb)), []*Term{sel}))
}

func setOp(name string, a, b *Term) *Term {
	switch name {
	case "setand":
		setFn(name, func(a, b *Term) *Term { return And(a, b) })
	case "setor":
		if a == emptySet {
			return b
		}
		if b == emptySet {
			return a
		}
		setFn(name, func(a, b *Term) *Term { return Or(a, b) })
	case "setdiff":
		setFn(name, func(a, b *Term) *Term { return And(a, Not(b)) })
	case "setxor":
		setFn(name, func(a, b *Term) *Term { return Not(Eq(a, b)) })
	}
	return App(name, SSet, a, b)
}

// card is the number of members of a bitmap.
func card(s *Term) *Term {
	b, i := BVar("s", SSet), BVar("i", SInt)
	t := App("card", SInt, b)
	sel := mk("select", "", SBool, []*Term{b, i}, nil, nil)
	addAxiom("card", "nonneg", Forall([]*Term{b}, And(Le(Int(0), t), Lt(t, pow2(64))), []*Term{t}))
	addAxiom("card", "zero", Forall([]*Term{b, i}, Implies(Eq(t, Int(0)), Not(sel)), []*Term{t, sel}))
	c := BVar("c", SSet)
	sel2 := mk("select", "", SBool, []*Term{c, i}, nil, nil)
	tc := App("card", SInt, App("setand", SSet, b, c))
	addAxiom("card", "zeroand", Forall([]*Term{b, c, i}, Implies(Eq(tc, Int(0)), Not(And(sel, sel2))), []*Term{tc, sel2}))
	d := App("setnin", SInt, b, c)
	in := func(s, i *Term) *Term { return mk("select", "", SBool, []*Term{s, i}, nil, nil) }
	tb := App("card", SInt, c)
	// b∩c has as many members as c if and only if c is a part of b
	addAxiom("card", "part", Forall([]*Term{b, c, i}, Implies(And(Eq(tc, tb), in(c, i)), in(b, i)), []*Term{tc, in(c, i)}))
	addAxiom("card", "notpart", Forall([]*Term{b, c}, Implies(Not(Eq(tc, tb)), And(in(c, d), Not(in(b, d)), Le(Int(0), d), Lt(d, pow2(64)))), []*Term{tc}))
	w := App("setwit", SInt, b)
	addAxiom("card", "wit", Forall([]*Term{b}, Implies(Not(Eq(t, Int(0))), And(mk("select", "", SBool, []*Term{b, w}, nil, nil), Le(Int(0), w), Lt(w, pow2(64)))), []*Term{t}))
	return App("card", SInt, s)
}

func civil(name string, ns *Term) *Term { return App("civil:"+name, SInt, ns) }

func init() {
	// ---- sync
	models["(*sync.Mutex).Lock"] = lockModel(1, 0)
	models["(*sync.Mutex).Unlock"] = lockModel(0, 1)
	models["(*sync.RWMutex).Lock"] = lockModel(1, 0)
	models["(*sync.RWMutex).Unlock"] = lockModel(0, 1)
	models["(*sync.RWMutex).RLock"] = lockModel(2, 0)
	models["(*sync.RWMutex).RUnlock"] = lockModel(0, 2)
	models["(*sync.Pool).Get"] = poolGet
	models["(*sync.Pool).Put"] = poolPut

	// ---- time
	models["time.Now"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{timeV(c.resType(0), Fresh("now", SInt), Int(1))}
	})
	models["(time.Time).Add"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		if d := term(c.args[1]); d.isInt() && d.i64()%3600000000000 == 0 {
			// whole hours keep minutes and seconds in UTC
			for _, n := range []string{"Minute", "Second"} {
				x.fact(st, Implies(Eq(tloc(c.args[0]), Int(0)), Eq(App("civil:"+n, SInt, Add(tns(c.args[0]), d), Int(0)), App("civil:"+n, SInt, tns(c.args[0]), Int(0)))))
			}
		}
		return []Val{timeV(c.resType(0), Add(tns(c.args[0]), term(c.args[1])), tloc(c.args[0]))}
	})
	models["(time.Time).UTC"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{timeV(c.resType(0), tns(c.args[0]), Int(0))}
	})
	models["(time.Time).UnixNano"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{wrap(tns(c.args[0]), types.Typ[types.Int64])}
	})
	models["(time.Time).Unix"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{Div(tns(c.args[0]), secNs)}
	})
	models["(time.Time).Nanosecond"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{Mod(tns(c.args[0]), secNs)}
	})
	models["time.Unix"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{timeV(c.resType(0), Add(Mul(term(c.args[0]), secNs), term(c.args[1])), Int(1))}
	})
	models["time.UnixMilli"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{timeV(c.resType(0), Mul(term(c.args[0]), Int(1000000)), Int(1))}
	})
	models["time.UnixMicro"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{timeV(c.resType(0), Mul(term(c.args[0]), Int(1000)), Int(1))}
	})
	models["(time.Time).IsZero"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		z, _ := new(big.Int).SetString("-62135596800000000000", 10)
		return []Val{Eq(tns(c.args[0]), BigInt(z))}
	})
	cmp := func(f func(a, b *Term) *Term) model {
		return pureModel(func(x *Exec, st *State, c *callInfo) []Val { return []Val{f(tns(c.args[0]), tns(c.args[1]))} })
	}
	models["(time.Time).Before"] = cmp(Lt)
	models["(time.Time).After"] = cmp(func(a, b *Term) *Term { return Lt(b, a) })
	models["(time.Time).Equal"] = cmp(Eq)
	models["(time.Time).Compare"] = cmp(func(a, b *Term) *Term { return Ite(Lt(a, b), Int(-1), Ite(Eq(a, b), Int(0), Int(1))) })
	models["(time.Time).Sub"] = cmp(func(a, b *Term) *Term {
		d := Sub(a, b)
		mx := Sub(pow2(63), Int(1))
		mn := Sub(Int(0), pow2(63))
		return Ite(Lt(mx, d), mx, Ite(Lt(d, mn), mn, d))
	})
	for _, n := range []string{"Year", "Month", "Day", "Hour", "Minute", "Second", "YearDay", "Weekday"} {
		n := n
		models["(time.Time)."+n] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
			t := App("civil:"+n, SInt, tns(c.args[0]), tloc(c.args[0]))
			return []Val{t}
		})
	}
	models["time.Date"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		var as []*Term
		for _, a := range c.args[:7] {
			as = append(as, term(a))
		}
		loc := term(c.args[7])
		civilAxioms()
		as = append(as, loc)
		return []Val{timeV(c.resType(0), App("civil:Date", SInt, as...), loc)}
	})
	models["(*time.Location).String"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{App("locname", SStr, term(c.args[0]))}
	})

	// ---- protobuf times
	tsT := "(*google.golang.org/protobuf/types/known/timestamppb.Timestamp)."
	models[tsT+"AsTime"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		t := elemOfPtr(c.sig.Recv().Type())
		r := term(c.args[0])
		s := term(x.fieldOf(st, r, t, "Seconds"))
		n := term(x.fieldOf(st, r, t, "Nanos"))
		return []Val{timeV(c.resType(0), Ite(Eq(r, Int(0)), Int(0), Add(Mul(s, secNs), n)), Int(0))}
	})
	models["google.golang.org/protobuf/types/known/timestamppb.New"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		t := elemOfPtr(c.resType(0))
		r := x.newObj(st, t)
		x.setField(st, r, t, "Seconds", Div(tns(c.args[0]), secNs))
		x.setField(st, r, t, "Nanos", Mod(tns(c.args[0]), secNs))
		return []Val{r}
	})
	dT := "(*google.golang.org/protobuf/types/known/durationpb.Duration)."
	models[dT+"AsDuration"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		t := elemOfPtr(c.sig.Recv().Type())
		r := term(c.args[0])
		s := term(x.fieldOf(st, r, t, "Seconds"))
		n := term(x.fieldOf(st, r, t, "Nanos"))
		exact := Add(Mul(s, secNs), n)
		mx := Sub(pow2(63), Int(1))
		mn := Sub(Int(0), pow2(63))
		v := Ite(And(Le(mn, exact), Le(exact, mx)), exact, Ite(Lt(s, Int(0)), mn, mx))
		return []Val{Ite(Eq(r, Int(0)), Int(0), v)}
	})
	models["google.golang.org/protobuf/types/known/durationpb.New"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		t := elemOfPtr(c.resType(0))
		r := x.newObj(st, t)
		d := term(c.args[0])
		// truncated division
		q := Ite(Le(Int(0), d), Div(d, secNs), Sub(Int(0), Div(Sub(Int(0), d), secNs)))
		x.setField(st, r, t, "Seconds", q)
		x.setField(st, r, t, "Nanos", Sub(d, Mul(q, secNs)))
		return []Val{r}
	})
	models["time.ParseDuration"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		s := term(c.args[0])
		d := App("parsedur", SInt, s)
		e := App("parsedurErr", SInt, s)
		x.fact(st, And(Le(Sub(Int(0), pow2(63)), d), Lt(d, pow2(63))))
		x.fact(st, Le(Int(0), e))
		return []Val{d, &IfaceV{t: Ite(Eq(e, Int(0)), Int(0), Int(typeTag(types.Typ[types.String]))), p: e}}
	})

	// ---- errors, fmt
	{
		var v []*Term
		for _, n := range []string{"a", "b", "c", "d"} {
			v = append(v, BVar(n, SInt))
		}
		r := App("errorsIs", SBool, v...)
		addAxiom("errorsIs", "self", Forall(v, Implies(And(Eq(v[0], v[2]), Eq(v[1], v[3])), r), []*Term{r}))
		addAxiom("errorsIs", "nil", Forall(v, Implies(And(Eq(v[0], Int(0)), Not(Eq(v[2], Int(0)))), Not(r)), []*Term{r}))
	}
	errNew := pureModel(func(x *Exec, st *State, c *callInfo) []Val { return []Val{freshErr(x, st)} })
	models["os.Exit"] = func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {}
	models["errors.New"] = errNew
	models["fmt.Errorf"] = errNew
	models["errors.Is"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		a := x.flat(st, c.args[0], c.sig.Params().At(0).Type())
		b := x.flat(st, c.args[1], c.sig.Params().At(1).Type())
		r := App("errorsIs", SBool, a[0], a[1], b[0], b[1])
		x.fact(st, Implies(And(Eq(a[0], b[0]), Eq(a[1], b[1])), r))
		x.fact(st, Implies(And(Eq(a[0], Int(0)), Not(Eq(b[0], Int(0)))), Not(r)))
		return []Val{r}
	})

	// ---- strings.Builder, bytes.Buffer, digests: a string
	for _, ty := range []string{"(*strings.Builder).", "(*bytes.Buffer).", "(*github.com/cespare/xxhash/v2.Digest)."} {
		models[ty+"WriteString"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
			t := recvElem(c)
			s := term(c.args[1])
			x.slenFact(st, s)
			bufChanged(x, st, c.args[0])
			x.opqStore(st, t, c.args[0], Cat(x.opqLoad(st, t, c.args[0]), s))
			return []Val{Slen(s), zeroVal(c.resType(1))}
		})
		models[ty+"Write"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
			t := recvElem(c)
			s := x.bytesOf(st, c.args[1].(*SliceV))
			bufChanged(x, st, c.args[0])
			x.opqStore(st, t, c.args[0], Cat(x.opqLoad(st, t, c.args[0]), s))
			return []Val{c.args[1].(*SliceV).n, zeroVal(c.resType(1))}
		})
		models[ty+"WriteByte"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
			t := recvElem(c)
			bufChanged(x, st, c.args[0])
			x.opqStore(st, t, c.args[0], Cat(x.opqLoad(st, t, c.args[0]), chr(term(c.args[1]))))
			return []Val{zeroVal(c.resType(0))}
		})
		models[ty+"WriteRune"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
			t := recvElem(c)
			r := term(c.args[1])
			var s *Term
			if r.isInt() {
				s = StrLit(string(rune(r.i64())))
			} else {
				s = App("rune", SStr, r)
			}
			x.slenFact(st, s)
			bufChanged(x, st, c.args[0])
			x.opqStore(st, t, c.args[0], Cat(x.opqLoad(st, t, c.args[0]), s))
			return []Val{Slen(s), zeroVal(c.resType(1))}
		})
		models[ty+"Reset"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
			bufChanged(x, st, c.args[0])
			x.opqStore(st, recvElem(c), c.args[0], StrLit(""))
			return nil
		})
		models[ty+"Grow"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val { return nil })
		models[ty+"Len"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
			s := x.opqLoad(st, recvElem(c), c.args[0])
			x.slenFact(st, s)
			return []Val{Slen(s)}
		})
		models[ty+"String"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
			return []Val{x.opqLoad(st, recvElem(c), c.args[0])}
		})
		models[ty+"Bytes"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
			// the result is valid until the buffer changes
			v := x.newBytes(st, x.opqLoad(st, recvElem(c), c.args[0]))
			if r, ok := c.args[0].(*Term); ok && strings.HasPrefix(ty, "(*bytes.") {
				h := x.heapGet(st, bufView, arrSort(SInt, SInt))
				x.heapSet(st, bufView, Store(h, r, v.a), []*Term{r})
			} else {
				x.note("bytes.Buffer.Bytes is taken to return a copy")
			}
			return []Val{v}
		})
	}
	models["(*github.com/cespare/xxhash/v2.Digest).Sum64"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{hash64(x, st, x.opqLoad(st, recvElem(c), c.args[0]))}
	})
	models["github.com/cespare/xxhash/v2.Sum64"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{hash64(x, st, x.bytesOf(st, c.args[0].(*SliceV)))}
	})
	models["github.com/cespare/xxhash/v2.Sum64String"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{hash64(x, st, term(c.args[0]))}
	})
	models["github.com/cespare/xxhash/v2.New"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		r := x.newRef(st)
		x.opqStore(st, elemOfPtr(c.resType(0)), r, StrLit(""))
		return []Val{r}
	})
	models["bytes.Clone"] = func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		s := c.args[0].(*SliceV)
		if z := Eq(s.a, Int(0)); !z.isConst() && x.pure == 0 {
			s2 := st.clone()
			x.assume(s2, z)
			k(s2, []Val{&SliceV{elem: s.elem, a: Int(0), o: Int(0), n: Int(0), c: Int(0)}})
			x.assume(st, Not(z))
			k(st, []Val{x.newBytes(st, x.bytesOf(st, s))})
			return
		}
		k(st, []Val{x.cloneBytes(st, s)})
	}
	models["slices.Clone"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		s := c.args[0].(*SliceV)
		if s.o != nil {
			return []Val{x.cloneBytes(st, s)}
		}
		z := &SliceV{elem: s.elem, a: Int(0), n: Int(0), c: Int(0)}
		return []Val{x.appendSlice(st, z, s)}
	})
	models["bytes.Equal"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{Eq(x.bytesOf(st, c.args[0].(*SliceV)), x.bytesOf(st, c.args[1].(*SliceV)))}
	})

	models["fmt.Appendf"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		s := x.format(st, c, term(c.args[1]), c.args[2].(*SliceV))
		return []Val{x.appendBytes(st, c.args[0].(*SliceV), s)}
	})
	models["fmt.Sprintf"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{x.format(st, c, term(c.args[0]), c.args[1].(*SliceV))}
	})

	// ---- binary
	models["(encoding/binary.bigEndian).Uint64"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		s := c.args[1].(*SliceV)
		b := x.bytesOf(st, &SliceV{elem: s.elem, a: s.a, o: s.o, n: Int(8), c: s.c})
		if x.panics {
			x.oblige(st, "bounds", "eight bytes are there", x.pos(c.site), Le(Int(8), s.n))
		}
		return []Val{unbe64(x, st, b)}
	})
	models["(encoding/binary.bigEndian).PutUint64"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		s := c.args[1].(*SliceV)
		if x.panics {
			x.oblige(st, "bounds", "eight bytes are there", x.pos(c.site), Le(Int(8), s.n))
		}
		h := x.heapGet(st, "bmem", heapSort(SByt, 1))
		x.heapSet(st, "bmem", Store(h, s.a, bwr(Select(h, s.a), s.o, be64s(x, st, term(c.args[2])))), []*Term{s.a})
		return nil
	})
	models["(encoding/binary.bigEndian).AppendUint64"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{x.appendBytes(st, c.args[1].(*SliceV), be64s(x, st, term(c.args[2])))}
	})
	models["math.Float64bits"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		t := App("fbits", SInt, term(c.args[0]))
		x.fact(st, And(Le(Int(0), t), Lt(t, pow2(64))))
		b := BVar("f", SFlt)
		addAxiom("fbits", "inv", Forall([]*Term{b}, Eq(App("unfbits", SFlt, App("fbits", SInt, b)), b), []*Term{App("fbits", SInt, b)}))
		return []Val{t}
	})
	models["math.Float64frombits"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{App("unfbits", SFlt, term(c.args[0]))}
	})
	models["strconv.FormatUint"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{x.decBase(st, term(c.args[0]), term(c.args[1]))}
	})
	models["strconv.FormatInt"] = models["strconv.FormatUint"]
	models["strconv.Itoa"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{x.dec(st, term(c.args[0]))}
	})
	models["strconv.AppendUint"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{x.appendBytes(st, c.args[0].(*SliceV), x.decBase(st, term(c.args[1]), term(c.args[2])))}
	})
	models["strconv.AppendInt"] = models["strconv.AppendUint"]
	models["encoding/hex.EncodeToString"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		b := x.bytesOf(st, c.args[0].(*SliceV))
		h := App("hex", SStr, b)
		q := BVar("s", SStr)
		addAxiom("hex", "inv", Forall([]*Term{q}, Eq(App("unhex", SStr, App("hex", SStr, q)), q), []*Term{App("hex", SStr, q)}))
		addAxiom("hex", "len", Forall([]*Term{q}, Eq(Slen(App("hex", SStr, q)), Mul(Int(2), Slen(q))), []*Term{App("hex", SStr, q)}))
		return []Val{h}
	})

	wire := func(x *Exec, st *State, v Val) *Term {
		x.note("the encoding of a message is taken to be a fixed text that does not change while it is used")
		m := v.(*IfaceV)
		return App("wire", SStr, m.t, m.p)
	}
	models["(google.golang.org/protobuf/proto.MarshalOptions).MarshalAppend"] = func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		if x.prop == "C15" {
			// it can also fail, with a part written
			s := st.clone()
			k(s, []Val{x.appendBytes(s, c.args[1].(*SliceV), Fresh("part", SStr)), otherErr(x, s)})
		} else {
			x.note("encoding a message is taken not to fail")
		}
		k(st, []Val{x.appendBytes(st, c.args[1].(*SliceV), wire(x, st, c.args[2])), &IfaceV{t: Int(0), p: Int(0)}})
	}
	extIntrinsics["wire"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		v := e.eval(a.Args[0])
		if i, ok := v.(*IfaceV); ok {
			ts := e.x.flat(e.st, i, e.typ(a.Args[0]))
			return App("wire", SStr, ts[0], ts[1])
		}
		return App("wire", SStr, Int(typeTag(e.typ(a.Args[0]))), v.(*Term))
	}
	models["encoding/hex.DecodeString"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		s := term(c.args[0])
		e := App("unhexErr", SInt, s)
		x.fact(st, Le(Int(0), e))
		x.note("hex.DecodeString is taken to decode hex text and to fail on everything else")
		return []Val{x.newBytes(st, App("unhex", SStr, s)), &IfaceV{t: Ite(Eq(e, Int(0)), Int(0), Int(typeTag(types.Typ[types.String]))), p: e}}
	})

	// ---- roaring64
	bmT := func(c *callInfo) types.Type { return recvElem(c) }
	models["github.com/RoaringBitmap/roaring/roaring64.New"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		r := x.newRef(st)
		x.opqStore(st, elemOfPtr(c.resType(0)), r, emptySet)
		return []Val{r}
	})
	models["github.com/RoaringBitmap/roaring/roaring64.NewBitmap"] = models["github.com/RoaringBitmap/roaring/roaring64.New"]
	models[rb64+"Add"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		x.opqStore(st, bmT(c), c.args[0], Store(x.opqLoad(st, bmT(c), c.args[0]), term(c.args[1]), True))
		return nil
	})
	models[rb64+"CheckedAdd"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		s := x.opqLoad(st, bmT(c), c.args[0])
		x.opqStore(st, bmT(c), c.args[0], Store(s, term(c.args[1]), True))
		return []Val{Not(Select(s, term(c.args[1])))}
	})
	models[rb64+"Remove"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		x.opqStore(st, bmT(c), c.args[0], Store(x.opqLoad(st, bmT(c), c.args[0]), term(c.args[1]), False))
		return nil
	})
	models[rb64+"Clear"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		x.opqStore(st, bmT(c), c.args[0], emptySet)
		return nil
	})
	models[rb64+"Contains"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{Select(x.opqLoad(st, bmT(c), c.args[0]), term(c.args[1]))}
	})
	models[rb64+"IsEmpty"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{Eq(card(x.opqLoad(st, bmT(c), c.args[0])), Int(0))}
	})
	models[rb64+"GetCardinality"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{card(x.opqLoad(st, bmT(c), c.args[0]))}
	})
	models[rb64+"Clone"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		r := x.newRef(st)
		x.opqStore(st, bmT(c), r, x.opqLoad(st, bmT(c), c.args[0]))
		return []Val{r}
	})
	for n, op := range map[string]string{"And": "setand", "Or": "setor", "AndNot": "setdiff", "Xor": "setxor"} {
		op := op
		models[rb64+n] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
			x.opqStore(st, bmT(c), c.args[0], setOp(op, x.opqLoad(st, bmT(c), c.args[0]), x.opqLoad(st, bmT(c), c.args[1])))
			return nil
		})
		models["github.com/RoaringBitmap/roaring/roaring64."+n] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
			r := x.newRef(st)
			t := elemOfPtr(c.resType(0))
			x.opqStore(st, t, r, setOp(op, x.opqLoad(st, t, c.args[0]), x.opqLoad(st, t, c.args[1])))
			return []Val{r}
		})
	}
}

// dec is the decimal representation of an integer.
func (x *Exec) dec(st *State, v *Term) *Term {
	b := BVar("v", SInt)
	t := App("dec", SStr, b)
	addAxiom("dec", "inj", Forall([]*Term{b}, Eq(App("undec", SInt, t), b), []*Term{t}))
	s := App("dec", SStr, v)
	x.slenFact(st, s)
	return s
}

func hash64(x *Exec, st *State, s *Term) *Term {
	t := App("xxh", SInt, s)
	x.fact(st, And(Le(Int(0), t), Lt(t, pow2(64))))
	b := BVar("s", SStr)
	u := App("xxh", SInt, b)
	addAxiom("xxh", "inj", Forall([]*Term{b}, Eq(App("unxxh", SStr, u), b), []*Term{u}))
	x.note("xxhash64 is taken to be collision free")
	return t
}

func unbe64(x *Exec, st *State, s *Term) *Term {
	if s.op == "app" && s.name == "be64" {
		return s.args[0]
	}
	be64(Int(0))
	t := App("unbe64", SInt, s)
	x.fact(st, And(Le(Int(0), t), Lt(t, pow2(64))))
	return t
}

func be64s(x *Exec, st *State, v *Term) *Term {
	t := be64(v)
	x.fact(st, Eq(App("slen", SInt, t), Int(8)))
	return t
}

func (x *Exec) cloneBytes(st *State, s *SliceV) Val {
	b := x.bytesOf(st, s)
	r := x.newBytes(st, b)
	z := Eq(s.a, Int(0))
	return &SliceV{elem: s.elem, a: Ite(z, Int(0), r.a), o: Int(0), n: Ite(z, Int(0), s.n), c: Ite(z, Int(0), r.c)}
}

// fieldOf reads a field of the object at ref.
func (x *Exec) fieldOf(st *State, ref *Term, t types.Type, name string) Val {
	s := under(t).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return x.load(st, fieldLoc(refLoc(t, ref), i))
		}
	}
	x.fail("no field %s", name)
	return nil
}

func (x *Exec) setField(st *State, ref *Term, t types.Type, name string, v Val) {
	s := under(t).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			x.store(st, fieldLoc(refLoc(t, ref), i), v, s.Field(i).Type())
			return
		}
	}
	x.fail("no field %s", name)
}

// newObj allocates a zeroed object.
func (x *Exec) newObj(st *State, t types.Type) *Term {
	r := x.newRef(st)
	x.store(st, refLoc(t, r), zeroVal(t), t)
	return r
}

// ---- pools

// poolSite finds the type an object taken from a pool is asserted to.
func poolSite(in ssa.Instruction) types.Type {
	c, ok := in.(*ssa.Call)
	if !ok || c.Referrers() == nil {
		return nil
	}
	for _, r := range *c.Referrers() {
		if a, ok := r.(*ssa.TypeAssert); ok {
			return a.AssertedType
		}
	}
	return nil
}

func poolGet(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
	t := poolSite(c.site)
	if t == nil {
		x.fail("object of a pool has no known type")
	}
	pre := st.clone()
	r := x.newRef(st)
	if pt, ok := under(t).(*types.Pointer); ok {
		if isStruct(pt.Elem()) {
			// every field has some value
			x.store(st, refLoc(pt.Elem(), r), x.freshVal(st, "pool", pt.Elem()), pt.Elem())
		} else if o, _, ok := opaqueOf(pt.Elem()); ok {
			x.store(st, refLoc(pt.Elem(), r), Fresh("pool", o.sort), pt.Elem())
		}
	}
	for _, cl := range x.poolClean(t) {
		env := &specEnv{x: x, st: st, old: pre, vars: map[types.Object]Val{cl.c.params[0]: r}, info: cl.c.pkg.TypesInfo, lets: []map[types.Object]exprT{cl.c.lets}, poolGet: true}
		st.add(x.evalClause(env, cl), false)
	}
	h := x.heapGet(st, "lock:pooled", arrSort(SInt, SBool))
	x.heapSet(st, "lock:pooled", Store(h, r, False), []*Term{r})
	k(st, []Val{&IfaceV{ct: t, cv: r}})
}

func (x *Exec) poolClean(t types.Type) []*Clause {
	c := x.p.pools[typeKey(t)]
	if c == nil {
		x.note("objects of type " + shortName(typeKey(t)) + " from a pool have arbitrary content")
		return nil
	}
	var out []*Clause
	for _, cl := range c.clauses {
		if cl.kind == "ensures" {
			out = append(out, cl)
		}
	}
	return out
}

func poolPut(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
	iv, ok := c.args[1].(*IfaceV)
	if !ok || iv.ct == nil {
		x.fail("object handed to a pool has no known type")
	}
	r, ok := iv.cv.(*Term)
	if !ok {
		k(st, nil)
		return
	}
	h := x.heapGet(st, "lock:pooled", arrSort(SInt, SBool))
	if x.checkPool() {
		for _, cl := range x.poolClean(iv.ct) {
			env := &specEnv{x: x, st: st, old: x.entry, vars: map[types.Object]Val{cl.c.params[0]: r}, info: cl.c.pkg.TypesInfo, lets: []map[types.Object]exprT{cl.c.lets}, poolPut: true}
			x.oblige(st, "pool", shortName(typeKey(iv.ct))+" handed back: "+cl.label, x.pos(c.site), x.evalClause(env, cl))
		}
		x.oblige(st, "pool", shortName(typeKey(iv.ct))+" handed back once", x.pos(c.site), Not(Select(h, r)))
	}
	x.heapSet(st, "lock:pooled", Store(h, r, True), []*Term{r})
	k(st, nil)
}

func (x *Exec) checkPool() bool { return x.c != nil && x.c.flags["pool"] }

// format renders a constant format of %d and %s verbs.
func (x *Exec) format(st *State, c *callInfo, f *Term, args *SliceV) *Term {
	if f.op != "str" {
		x.fail("format is not a constant")
	}
	var ps []*Term
	n := int64(0)
	s := f.name
	for s != "" {
		i := strings.IndexByte(s, '%')
		if i < 0 || i+1 >= len(s) {
			ps = append(ps, StrLit(s))
			break
		}
		if i > 0 {
			ps = append(ps, StrLit(s[:i]))
		}
		v := s[i+1]
		s = s[i+2:]
		if v == '%' {
			ps = append(ps, StrLit("%"))
			continue
		}
		a := x.load(st, elemLoc(args.elem, args.a, Int(n))).(*IfaceV)
		n++
		if a.ct == nil && a.t != nil && a.t.isInt() {
			if t := tagType(a.t.i64()); t != nil {
				a = &IfaceV{ct: t, cv: x.unboxVal(st, a.p, t)}
			}
		}
		if a.ct == nil {
			x.fail("format of a value of unknown type")
		}
		b, ok := under(a.ct).(*types.Basic)
		switch {
		case ok && v == 'd' && b.Info()&types.IsInteger != 0:
			ps = append(ps, x.dec(st, a.cv.(*Term)))
		case ok && (v == 's' || v == 'v') && b.Info()&types.IsString != 0 && types.NewMethodSet(a.ct).Len() == 0:
			t := a.cv.(*Term)
			x.slenFact(st, t)
			ps = append(ps, t)
		case v == 's' && isByteSlice(a.ct):
			ps = append(ps, x.bytesOf(st, a.cv.(*SliceV)))
		default:
			ts := x.flat(st, a, types.NewInterfaceType(nil, nil))
			r := App("fmt:"+string(v), SStr, ts...)
			x.slenFact(st, r)
			ps = append(ps, r)
		}
	}
	if !args.n.isInt() || args.n.i64() != n {
		x.fail("format and arguments do not match")
	}
	return Cat(ps...)
}

// decBase is the text of a number in a base.
func (x *Exec) decBase(st *State, v, base *Term) *Term {
	if base.isInt() && base.i64() == 10 {
		return x.dec(st, v)
	}
	return App("base", SStr, v, base)
}

func init() {
	// calendar boundaries of github.com/jinzhu/now with its default settings
	p := "github.com/jinzhu/now."
	models[p+"With"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		t := elemOfPtr(c.resType(0))
		r := x.newObj(st, t)
		x.setField(st, r, t, "Time", c.args[0])
		return []Val{r}
	})
	for _, n := range []string{"Minute", "Hour", "Day", "Week", "Month", "Quarter", "Half", "Year"} {
		for _, e := range []string{"BeginningOf", "EndOf"} {
			models["(*"+p+"Now)."+e+n] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
				t := elemOfPtr(c.sig.Recv().Type())
				v := x.fieldOf(st, term(c.args[0]), t, "Time")
				return []Val{timeV(c.resType(0), App("civil:"+e+n, SInt, tns(v), tloc(v)), tloc(v))}
			})
		}
	}
}
