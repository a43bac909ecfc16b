package main

import (
	"go/ast"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// badger: a database is a map from keys to values (one database is in use).
// An update is applied as a whole or not at all. Sequences issue every number
// at most once. Anything may fail; a failure that is not "key not found" sets
// the ghost "failed".

const (
	bdg     = "github.com/dgraph-io/badger/v4."
	kvHas   = "gs:kv:has"
	kvVal   = "gs:kv:val"
	kvFail  = "gs:failed"
	itemVal = "kv:item"
)

// pendSet is a slice handed to a transaction: it has to stay as it is until
// the commit.
type pendSet struct {
	cond *Term
	s    *SliceV
	v    *Term
	pos  string
}

func init() {
	ghostHeapTab["kv"] = map[string]Sort{kvHas: arrSort(SStr, SBool), kvVal: arrSort(SStr, SStr)}
	ghostHeapTab["kv:has"] = map[string]Sort{kvHas: arrSort(SStr, SBool)}
	ghostHeapTab["kv:val"] = map[string]Sort{kvVal: arrSort(SStr, SStr)}
	ghostHeapTab["seq"] = map[string]Sort{"gs:seq": arrSort(SStr, SInt)}
	ghostHeapTab["cache"] = map[string]Sort{"gs:cache:has": arrSort(SInt, SBool), "gs:cache:t": arrSort(SInt, SInt), "gs:cache:p": arrSort(SInt, SInt)}
	ghostHeapTab["failed"] = map[string]Sort{kvFail: SInt}

	extIntrinsics["kvHas"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		return Select(kvHeap(e.x, e.st, kvHas), e.eval(a.Args[0]).(*Term))
	}
	extIntrinsics["kvVal"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		return Select(kvHeap(e.x, e.st, kvVal), e.eval(a.Args[0]).(*Term))
	}
	extIntrinsics["cacheHas"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		return Select(e.x.heapGet(e.st, "gs:cache:has", arrSort(SInt, SBool)), e.eval(a.Args[0]).(*Term))
	}
	extIntrinsics["cacheIs"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		h := e.eval(a.Args[0]).(*Term)
		t := Select(e.x.heapGet(e.st, "gs:cache:t", arrSort(SInt, SInt)), h)
		p := Select(e.x.heapGet(e.st, "gs:cache:p", arrSort(SInt, SInt)), h)
		return And(Eq(t, Int(typeTag(types.Typ[types.Uint64]))), Eq(p, e.eval(a.Args[1]).(*Term)))
	}

	extIntrinsics["seqNext"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		return Select(e.x.heapGet(e.st, "gs:seq", arrSort(SStr, SInt)), e.eval(a.Args[0]).(*Term))
	}
	extIntrinsics["unBe64"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		return unbe64(e.x, e.st, e.eval(a.Args[0]).(*Term))
	}
	extIntrinsics["hash64"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		return hash64(e.x, e.st, e.eval(a.Args[0]).(*Term))
	}
	extIntrinsics["callVal"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		return Select(e.x.heapGet(e.st, "gs:calls:val", arrSort(SInt, SStr)), e.eval(a.Args[0]).(*Term))
	}
	ghostHeapTab["calls"] = map[string]Sort{"gs:calls": SInt, "gs:calls:val": arrSort(SInt, SStr)}
	fail := func(x *Exec, st *State) Val {
		x.heapSet(st, kvFail, Int(1), nil)
		return otherErr(x, st, bdg+"ErrKeyNotFound")
	}
	run := func(rw bool) model {
		return func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
			catAxioms()
			f, ok := c.args[1].(*FuncV)
			if !ok {
				x.fail("transaction of an unknown function")
			}
			s0 := st.clone()
			k(s0, []Val{fail(x, s0)})
			has, val := kvHeap(x, st, kvHas), kvHeap(x, st, kvVal)
			tx := x.newRef(st)
			h := x.heapGet(st, "kv:rw", arrSort(SInt, SBool))
			x.heapSet(st, "kv:rw", Store(h, tx, Bool(rw)), []*Term{tx})
			np := len(st.pend)
			undo := func(s *State) {
				x.heapSet(s, kvHas, has, []*Term{})
				x.heapSet(s, kvVal, val, []*Term{})
				s.pend = s.pend[:np:np]
			}
			et := c.resType(0)
			x.callFunc(fr, st, f, []Val{tx}, c.site, func(s *State, res []Val) {
				ts := x.flat(s, res[0], et)
				isNil := Eq(ts[0], Int(0))
				if isNil != True {
					b := s
					if isNil != False {
						b = s.clone()
						x.assume(b, Not(isNil))
					}
					if rw {
						undo(b)
					}
					k(b, res)
				}
				if isNil == False {
					return
				}
				x.assume(s, isNil)
				if !rw {
					k(s, []Val{zeroVal(et)})
					return
				}
				for _, p := range s.pend[np:] {
					x.oblige(s, "commit", "what is stored is unchanged until the commit", p.pos, Implies(p.cond, Eq(x.bytesOf(s, p.s), p.v)))
				}
				b := s.clone()
				undo(b)
				k(b, []Val{fail(x, b)})
				s.pend = s.pend[:np:np]
				k(s, []Val{zeroVal(et)})
			})
		}
	}
	db := "(*" + bdg + "DB)."
	txn := "(*" + bdg + "Txn)."
	item := "(*" + bdg + "Item)."
	seq := "(*" + bdg + "Sequence)."
	models[db+"View"] = run(false)
	models[db+"Update"] = run(true)
	models[txn+"Get"] = func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		key := x.bytesOf(st, c.args[1].(*SliceV))
		has := Select(kvHeap(x, st, kvHas), key)
		v := Select(kvHeap(x, st, kvVal), key)
		s1, s2 := st.clone(), st.clone()
		k(s2, []Val{Int(0), fail(x, s2)})
		if has != False {
			x.assume(st, has)
			r := x.newRef(st)
			h := x.heapGet(st, itemVal, arrSort(SInt, SStr))
			x.heapSet(st, itemVal, Store(h, r, v), []*Term{r})
			k(st, []Val{r, zeroVal(c.resType(1))})
		}
		if has != True {
			x.assume(s1, Not(has))
			e := errNamed(bdg + "ErrKeyNotFound")
			k(s1, []Val{Int(0), e})
		}
	}
	models[txn+"Set"] = func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		ks, vs := c.args[1].(*SliceV), c.args[2].(*SliceV)
		key, val := x.bytesOf(st, ks), x.bytesOf(st, vs)
		rw := Select(x.heapGet(st, "kv:rw", arrSort(SInt, SBool)), term(c.args[0]))
		s2 := st.clone()
		k(s2, []Val{fail(x, s2)})
		if rw == False {
			return
		}
		x.heapSet(st, kvHas, Store(kvHeap(x, st, kvHas), key, True), []*Term{key})
		x.heapSet(st, kvVal, Store(kvHeap(x, st, kvVal), key, val), []*Term{key})
		p := append([]pendSet{}, st.pend...)
		st.pend = append(p, pendSet{True, ks, key, x.pos(c.site)}, pendSet{True, vs, val, x.pos(c.site)})
		k(st, []Val{zeroVal(c.resType(0))})
	}
	models[item+"Value"] = func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		v := Select(x.heapGet(st, itemVal, arrSort(SInt, SStr)), term(c.args[0]))
		s0 := st.clone()
		k(s0, []Val{fail(x, s0)})
		x.slenFact(st, v)
		s := x.newBytes(st, v)
		s.c = s.n
		done := func(t *State, res []Val) {
			// the value is only valid during the call
			h := x.heapGet(t, "bmem", heapSort(SByt, 1))
			x.heapSet(t, "bmem", Store(h, s.a, Fresh("gone", SByt)), []*Term{s.a})
			k(t, res)
		}
		if f, ok := c.args[1].(*FuncV); ok {
			x.callFunc(fr, st, f, []Val{s}, c.site, done)
			return
		}
		f, ok := c.args[1].(*Term)
		if !ok {
			x.fail("value callback %T", c.args[1])
		}
		// an unknown callback: what it is given is recorded
		n := x.heapGet(st, "gs:calls", SInt)
		a := x.heapGet(st, "gs:calls:val", arrSort(SInt, SStr))
		x.heapSet(st, "gs:calls:val", Store(a, n, v), []*Term{n})
		x.heapSet(st, "gs:calls", Add(n, Int(1)), nil)
		e := x.freshVal(st, "cb", c.resType(0))
		_ = f
		done(st, []Val{e})
	}
	models[item+"ValueCopy"] = func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		v := Select(x.heapGet(st, itemVal, arrSort(SInt, SStr)), term(c.args[0]))
		s0 := st.clone()
		k(s0, []Val{zeroVal(c.resType(0)), fail(x, s0)})
		x.slenFact(st, v)
		k(st, []Val{x.newBytes(st, v), zeroVal(c.resType(1))})
	}
	models[db+"GetSequence"] = func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		catAxioms()
		s0 := st.clone()
		k(s0, []Val{Int(0), fail(x, s0)})
		r := x.newRef(st)
		s := c.args[1].(*SliceV)
		h := x.heapGet(st, seqKeyH, arrSort(SInt, SStr))
		x.heapSet(st, seqKeyH, Store(h, r, x.bytesOf(st, s)), []*Term{r})
		// the lease is stored under the key, which the sequence keeps
		x.fact(st, Eq(App("seq:buf", SInt, r), s.a))
		x.seqStore(st, x.bytesOf(st, s))
		k(st, []Val{r, zeroVal(c.resType(1))})
	}
	models[seq+"Next"] = func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		s0 := st.clone()
		k(s0, []Val{Int(0), fail(x, s0)})
		key := seqKey(x, st, term(c.args[0]))
		h := x.heapGet(st, "gs:seq", arrSort(SStr, SInt))
		n := Fresh("id", SInt)
		x.fact(st, And(Le(Int(0), n), Le(Select(h, key), n), Lt(n, pow2(64))))
		x.fact(st, Implies(App("seq:small", SBool, Int(0)), Lt(n, pow2(44))))
		x.heapSet(st, "gs:seq", Store(h, key, Add(n, Int(1))), []*Term{key})
		x.seqStore(st, key)
		k(st, []Val{n, zeroVal(c.resType(1))})
	}
	models[seq+"Release"] = func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		s0 := st.clone()
		k(s0, []Val{fail(x, s0)})
		x.seqStore(st, seqKey(x, st, term(c.args[0])))
		k(st, []Val{zeroVal(c.resType(0))})
	}
	extIntrinsics["seqKey"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		return seqKey(e.x, e.st, e.refOf(a.Args[0]))
	}
	models["errors.Join"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		s := c.args[0].(*SliceV)
		if !s.n.isInt() {
			x.fail("errors.Join of an unknown list")
		}
		e := Eq(Int(0), Int(0))
		var first []*Term
		_ = first
		et := c.resType(0)
		for i := int64(0); i < s.n.i64(); i++ {
			ts := x.flat(st, x.load(st, elemLoc(s.elem, s.a, Add(s.off0(), Int(i)))), et)
			e = And(e, Eq(ts[0], Int(0)))
		}
		r := x.newRef(st)
		b := errNamed(bdg + "ErrKeyNotFound")
		t := Int(typeTag(types.Universe.Lookup("string").Type()))
		_ = b
		return []Val{&IfaceV{t: Ite(e, Int(0), t), p: Ite(e, Int(0), r)}}
	})

	// ristretto: a cache may forget everything
	rc := "(*github.com/dgraph-io/ristretto.Cache)."
	ch, ct, cp := "gs:cache:has", "gs:cache:t", "gs:cache:p"
	models[rc+"Get"] = func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		key := ifacePayload(x, st, c.args[1], c.sig.Params().At(0).Type())
		s0 := st.clone()
		k(s0, []Val{&IfaceV{t: Int(0), p: Int(0)}, False})
		x.assume(st, Select(x.heapGet(st, ch, arrSort(SInt, SBool)), key))
		t := Select(x.heapGet(st, ct, arrSort(SInt, SInt)), key)
		p := Select(x.heapGet(st, cp, arrSort(SInt, SInt)), key)
		k(st, []Val{&IfaceV{t: t, p: p}, True})
	}
	models[rc+"Set"] = func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		key := ifacePayload(x, st, c.args[1], c.sig.Params().At(0).Type())
		v := x.flat(st, c.args[2], c.sig.Params().At(1).Type())
		s0 := st.clone()
		k(s0, []Val{False})
		// also the entry of another key may go
		for i, n := range []string{ch, ct, cp} {
			s := SInt
			w := []*Term{True, v[0], nil}[i]
			if i == 2 {
				w = v[1]
			}
			if i == 0 {
				s = SBool
			}
			h := x.heapGet(st, n, arrSort(SInt, s))
			x.heapSet(st, n, Store(h, key, w), []*Term{key})
		}
		k(st, []Val{True})
	}
	models[rc+"SetWithTTL"] = models[rc+"Set"]
	models[rc+"Close"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val { return nil })
	models["github.com/dgraph-io/ristretto.NewCache"] = func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		s0 := st.clone()
		k(s0, []Val{Int(0), fail(x, s0)})
		r := x.newRef(st)
		k(st, []Val{r, zeroVal(c.resType(1))})
	}
}

func (s *SliceV) off0() *Term {
	if s.o == nil {
		return Int(0)
	}
	return s.o
}

func ifacePayload(x *Exec, st *State, v Val, t types.Type) *Term {
	return x.flat(st, v, t)[1]
}

func kvHeap(x *Exec, st *State, n string) *Term {
	if n == kvHas {
		return x.heapGet(st, n, arrSort(SStr, SBool))
	}
	return x.heapGet(st, n, arrSort(SStr, SStr))
}

// seqStore: the lease of a sequence is stored under its key.
func (x *Exec) seqStore(st *State, key *Term) {
	x.heapSet(st, kvHas, Store(kvHeap(x, st, kvHas), key, Fresh("lease", SBool)), []*Term{key})
	x.heapSet(st, kvVal, Store(kvHeap(x, st, kvVal), key, Fresh("lease", SStr)), []*Term{key})
}

// catAxioms: concatenation can be undone.
func catAxioms() {
	a, b := BVar("a", SStr), BVar("b", SStr)
	c := mk("cat", "", SStr, []*Term{a, b}, nil, nil)
	addAxiom("cat", "tail", Forall([]*Term{a, b}, Eq(App("ctail", SStr, c, App("slen", SInt, a)), b), []*Term{c}))
	addAxiom("cat", "nil", Forall([]*Term{b}, Eq(mk("cat", "", SStr, []*Term{StrLit(""), b}, nil, nil), b), []*Term{mk("cat", "", SStr, []*Term{StrLit(""), b}, nil, nil)}))
	addAxiom("cat", "head", Forall([]*Term{a, b}, Eq(App("chead", SStr, c, App("slen", SInt, a)), a), []*Term{c}))
	lc := App("slen", SInt, c)
	addAxiom("cat", "len", Forall([]*Term{a, b}, Eq(lc, Add(App("slen", SInt, a), App("slen", SInt, b))), []*Term{lc}))
}

// strDistinct recognises concatenations that differ in a literal after a
// common beginning.
func strDistinct(a, b *Term) bool {
	as, bs := []*Term{a}, []*Term{b}
	if a.op == "cat" {
		as = a.args
	}
	if b.op == "cat" {
		bs = b.args
	}
	for len(as) > 0 && len(bs) > 0 && as[0] == bs[0] {
		as, bs = as[1:], bs[1:]
	}
	if len(as) > 0 && len(bs) > 0 && as[0].op == "str" && bs[0].op == "str" {
		p, q := as[0].name, bs[0].name
		if !strings.HasPrefix(p, q) && !strings.HasPrefix(q, p) {
			return true
		}
	}
	return false
}

var _ = ssa.NewConst

const seqKeyH = "kv:seqkey"

func seqKey(x *Exec, st *State, r *Term) *Term {
	return Select(x.heapGet(st, seqKeyH, arrSort(SInt, SStr)), r)
}
