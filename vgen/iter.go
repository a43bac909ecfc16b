package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Iterators over roaring bitmaps: a set and the smallest value that was not
// visited yet.

const (
	ritSet = "rit:set"
	ritPos = "rit:pos"
	ritRev = "rit:rev"
)

// nextIn is the smallest member of s that is not smaller than p, if any.
func nextIn(s, p *Term) *Term {
	S, P, u := BVar("s", SSet), BVar("p", SInt), BVar("u", SInt)
	n := App("nextin", SInt, S, P)
	sel := mk("select", "", SBool, []*Term{S, u}, nil, nil)
	addAxiom("nextin", "def", Forall([]*Term{S, P, u}, Implies(And(sel, Le(P, u)), And(Le(n, u), Le(P, n), mk("select", "", SBool, []*Term{S, n}, nil, nil))), []*Term{n, sel}))
	return App("nextin", SInt, s, p)
}

func iterHas(s, p *Term) *Term {
	n := nextIn(s, p)
	return And(Select(s, n), Le(p, n))
}

func (x *Exec) iterState(st *State, ref *Term) (s, p *Term) {
	return Select(x.heapGet(st, ritSet, arrSort(SInt, SSet)), ref), Select(x.heapGet(st, ritPos, arrSort(SInt, SInt)), ref)
}

func (x *Exec) newIter(st *State, set *Term, rev bool) *IfaceV {
	r := x.newRef(st)
	x.heapSet(st, ritRev, Store(x.heapGet(st, ritRev, arrSort(SInt, SBool)), r, Bool(rev)), []*Term{r})
	x.heapSet(st, ritSet, Store(x.heapGet(st, ritSet, arrSort(SInt, SSet)), r, set), []*Term{r})
	x.heapSet(st, ritPos, Store(x.heapGet(st, ritPos, arrSort(SInt, SInt)), r, Int(0)), []*Term{r})
	return &IfaceV{t: Int(typeTag(types.Typ[types.Uint8])), p: r}
}

func init() {
	models[rb64+"Iterator"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{x.newIter(st, x.opqLoad(st, recvElem(c), c.args[0]), false)}
	})
	models[rb64+"ReverseIterator"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{x.newIter(st, x.opqLoad(st, recvElem(c), c.args[0]), true)}
	})
	for _, n := range []string{"IntIterable64", "IntPeekable64"} {
		p := "iface:(github.com/RoaringBitmap/roaring/roaring64." + n + ")."
		models[p+"HasNext"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
			r := x.flat(st, c.args[0], types.NewInterfaceType(nil, nil))[1]
			s, q := x.iterState(st, r)
			if Select(x.heapGet(st, ritRev, arrSort(SInt, SBool)), r) == True {
				if q != Int(0) {
					x.fail("descending iteration goes on")
				}
				return []Val{Not(Eq(card(s), Int(0)))}
			}
			return []Val{iterHas(s, q)}
		})
		models[p+"Next"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
			r := x.flat(st, c.args[0], types.NewInterfaceType(nil, nil))[1]
			s, q := x.iterState(st, r)
			if x.panics {
				x.oblige(st, "iterator", "the iterator has a next value", x.pos(c.site), iterHas(s, q))
			}
			v := nextIn(s, q)
			if Select(x.heapGet(st, ritRev, arrSort(SInt, SBool)), r) == True {
				// the largest value (only the first step is known)
				if q != Int(0) {
					x.fail("descending iteration goes on")
				}
				v = Fresh("last", SInt)
				u := BVar("u", SInt)
				sel := mk("select", "", SBool, []*Term{s, u}, nil, nil)
				x.fact(st, And(Implies(Not(Eq(card(s), Int(0))), Select(s, v)), Forall([]*Term{u}, Implies(sel, Le(u, v)), []*Term{sel})))
			}
			x.fact(st, And(Le(Int(0), v), Lt(v, pow2(64))))
			x.heapSet(st, ritPos, Store(x.heapGet(st, ritPos, arrSort(SInt, SInt)), r, Add(v, Int(1))), []*Term{r})
			return []Val{v}
		})
	}
	for _, ty := range []string{"(*strings.Builder)."} {
		_ = ty
	}
	models["(time.Time).Format"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{fmtTime(x, st, term(c.args[1]), tns(c.args[0]), tloc(c.args[0]))}
	})
	models["(time.Time).AppendFormat"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{x.appendBytes(st, c.args[1].(*SliceV), fmtTime(x, st, term(c.args[2]), tns(c.args[0]), tloc(c.args[0])))}
	})
}

// fmtTime formats a time. Layouts of fixed width give texts without NULs of
// that width (years have four digits).
func fmtTime(x *Exec, st *State, layout, ns, loc *Term) *Term {
	r := App("timefmt", SStr, layout, ns, loc)
	if layout.op == "str" && layout.name == "2006010215" {
		x.fact(st, Eq(App("slen", SInt, r), Int(10)))
		for i := int64(0); i < 10; i++ {
			c := App("schr", SInt, r, Int(i))
			x.fact(st, And(Le(Int(48), c), Le(c, Int(57))))
		}
	} else {
		x.slenFact(st, r)
	}
	return r
}

// iterOf finds the iterator a loop is driven by.
func iterOf(b *ssa.BasicBlock) ssa.Value {
	for _, in := range b.Instrs {
		if c, ok := in.(*ssa.Call); ok && c.Call.IsInvoke() && c.Call.Method.Name() == "HasNext" {
			return c.Call.Value
		}
	}
	return nil
}

const rbm = "(*github.com/gernest/roaring.Bitmap)."

func init() {
	// gernest/roaring bitmaps are sets
	nb := pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		r := x.newRef(st)
		s := emptySet
		t := elemOfPtr(c.resType(0))
		if len(c.args) == 1 {
			sl := c.args[0].(*SliceV)
			if !sl.n.isInt() {
				x.fail("bitmap of an unknown number of values")
			}
			for i := int64(0); i < sl.n.i64(); i++ {
				s = Store(s, x.load(st, elemLoc(sl.elem, sl.a, Int(i))).(*Term), True)
			}
		}
		x.opqStore(st, t, r, s)
		return []Val{r}
	})
	for _, n := range []string{"NewBTreeBitmap", "NewBitmap", "NewFileBitmap", "NewSliceBitmap"} {
		models["github.com/gernest/roaring."+n] = nb
	}
	models[rbm+"DirectAdd"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		t := recvElem(c)
		s := x.opqLoad(st, t, c.args[0])
		x.opqStore(st, t, c.args[0], Store(s, term(c.args[1]), True))
		return []Val{Not(Select(s, term(c.args[1])))}
	})
	models[rbm+"Contains"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{Select(x.opqLoad(st, recvElem(c), c.args[0]), term(c.args[1]))}
	})
}
