package main

import (
	"go/ast"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Bitmaps of gernest/roaring. A copy made by Clone or Freeze has unknown
// content (it may miss its first container) until what it remembers of its last
// lookup is dropped; roar:base is what it should hold.

func roarBase(r *Term) *Term { return App("roar:base", SSet, r) }

func inSet(s, v *Term) *Term { return mk("select", "", SBool, []*Term{s, v}, nil, nil) }

// cardStep relates the number of members before and after one changes.
func (x *Exec) cardStep(st *State, s, t, v *Term, add bool) {
	card(s)
	had := Select(s, v)
	if add {
		x.fact(st, Eq(App("card", SInt, t), Ite(had, App("card", SInt, s), Add(App("card", SInt, s), Int(1)))))
	} else {
		x.fact(st, Eq(App("card", SInt, t), Ite(had, Sub(App("card", SInt, s), Int(1)), App("card", SInt, s))))
	}
	x.fact(st, Implies(had, Lt(Int(0), App("card", SInt, s))))
}

// setOfAll is a new set that holds the members of base and of every bitmap of
// the slice (less: of base and of none of them).
func (x *Exec) setOfAll(st *State, t types.Type, base *Term, sl *SliceV, less bool) *Term {
	r := Fresh("all", SSet)
	w := Fresh("allwit", arrSort(SInt, SInt))
	v, j := BVar("v", SInt), BVar("j", SInt)
	at := func(j *Term) *Term { return x.opqLoad(st, t, x.load(st, elemLoc(sl.elem, sl.a, j))) }
	wit := Select(w, v)
	some := And(Le(Int(0), wit), Lt(wit, sl.n), inSet(at(wit), v))
	rng := And(Le(Int(0), j), Lt(j, sl.n))
	if less {
		x.fact(st, Forall([]*Term{v}, Implies(inSet(r, v), inSet(base, v)), []*Term{inSet(r, v)}))
		x.fact(st, Forall([]*Term{v}, Implies(And(inSet(base, v), Not(inSet(r, v))), some), []*Term{inSet(base, v)}))
		x.fact(st, Forall([]*Term{v, j}, Implies(And(rng, inSet(at(j), v)), Not(inSet(r, v))), []*Term{inSet(at(j), v)}))
		return r
	}
	x.fact(st, Forall([]*Term{v}, Implies(inSet(base, v), inSet(r, v)), []*Term{inSet(base, v)}))
	x.fact(st, Forall([]*Term{v}, Implies(And(inSet(r, v), Not(inSet(base, v))), some), []*Term{inSet(r, v)}))
	x.fact(st, Forall([]*Term{v, j}, Implies(And(rng, inSet(at(j), v)), inSet(r, v)), []*Term{inSet(at(j), v)}))
	return r
}

func init() {
	set := func(x *Exec, st *State, c *callInfo, v Val) *Term { return x.opqLoad(st, recvElem(c), v) }
	mkNew := func(x *Exec, st *State, c *callInfo, s *Term) Val {
		r := x.newRef(st)
		x.opqStore(st, recvElem(c), r, s)
		return r
	}
	models[rbm+"Count"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{card(set(x, st, c, c.args[0]))}
	})
	models[rbm+"Any"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{Not(Eq(card(set(x, st, c, c.args[0])), Int(0)))}
	})
	models[rbm+"IntersectionCount"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{card(setOp("setand", set(x, st, c, c.args[0]), set(x, st, c, c.args[1])))}
	})
	for n, op := range map[string]string{"Intersect": "setand", "Xor": "setxor"} {
		models[rbm+n] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
			return []Val{mkNew(x, st, c, setOp(op, set(x, st, c, c.args[0]), set(x, st, c, c.args[1])))}
		})
	}
	models[rbm+"Union"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		sl := c.args[1].(*SliceV)
		s := x.setOfAll(st, recvElem(c), set(x, st, c, c.args[0]), sl, false)
		// all others at once are added to a copy
		u := Fresh("copied", SSet)
		x.fact(st, Implies(Eq(sl.n, Int(1)), Eq(u, s)))
		return []Val{mkNew(x, st, c, u)}
	})
	models[rbm+"UnionInPlace"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		s := x.setOfAll(st, recvElem(c), set(x, st, c, c.args[0]), c.args[1].(*SliceV), false)
		x.opqStore(st, recvElem(c), c.args[0], s)
		return nil
	})
	models[rbm+"Difference"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		sl := c.args[1].(*SliceV)
		if x.panics {
			x.oblige(st, "difference", "there is something to take away", x.pos(c.site), Lt(Int(0), sl.n))
		}
		return []Val{mkNew(x, st, c, x.setOfAll(st, recvElem(c), set(x, st, c, c.args[0]), sl, true))}
	})
	for _, n := range []string{"Clone", "Freeze"} {
		models[rbm+n] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
			s := set(x, st, c, c.args[0])
			r := mkNew(x, st, c, Fresh("copied", SSet))
			x.fact(st, Eq(roarBase(r.(*Term)), s))
			return []Val{r}
		})
	}
	change := func(add bool) model {
		return pureModel(func(x *Exec, st *State, c *callInfo) []Val {
			s := set(x, st, c, c.args[0])
			sl := c.args[1].(*SliceV)
			if !sl.n.isInt() {
				x.fail("an unknown number of values is added")
			}
			b := False
			if add {
				b = True
			}
			ch := False
			for i := int64(0); i < sl.n.i64(); i++ {
				v := x.load(st, elemLoc(sl.elem, sl.a, Int(i))).(*Term)
				t := Store(s, v, b)
				x.cardStep(st, s, t, v, add)
				if add {
					ch = Or(ch, Not(Select(s, v)))
				} else {
					ch = Or(ch, Select(s, v))
				}
				s = t
			}
			x.opqStore(st, recvElem(c), c.args[0], s)
			// errors come from the operation log, which is not used
			return []Val{ch, zeroVal(c.resType(1))}
		})
	}
	models[rbm+"Add"] = change(true)
	models[rbm+"Remove"] = change(false)

	// ascending iteration; past the end the position is beyond all values
	models[rbm+"Iterator"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		it := x.newIter(st, set(x, st, c, c.args[0]), false)
		return []Val{it.p}
	})
	models["(*github.com/gernest/roaring.Iterator).Next"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		r := c.args[0].(*Term)
		s, q := x.iterState(st, r)
		has := iterHas(s, q)
		v := nextIn(s, q)
		x.fact(st, Implies(has, And(Le(Int(0), v), Lt(v, pow2(64)))))
		x.heapSet(st, ritPos, Store(x.heapGet(st, ritPos, arrSort(SInt, SInt)), r, Ite(has, Add(v, Int(1)), Add(pow2(64), Int(1)))), []*Term{r})
		return []Val{Ite(has, v, Int(0)), Not(has)}
	})
	extIntrinsics["iterAt"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		_, p := e.x.iterState(e.st, e.eval(a.Args[0]).(*Term))
		return p
	}
	extIntrinsics["alloc"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		r := e.refOf(a.Args[0])
		return And(Le(r, e.st.alloc()), Le(rootOf(r), e.st.alloc()))
	}
	extIntrinsics["card"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		p := e.eval(a.Args[0])
		t := elemOfPtr(e.typ(a.Args[0]))
		return card(e.x.load(e.st, e.ptr(p, t)).(*Term))
	}

	// the smallest index for which a monotone predicate holds
	models["sort.Search"] = func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		n := term(c.args[0])
		r := Fresh("search", SInt)
		x.fact(st, And(Le(Int(0), r), Le(r, n)))
		at := func(i *Term) *Term {
			var res *Term
			cnt := 0
			x.pure++
			st2 := st.clone()
			x.callFunc(fr.clone(), st2, c.args[1].(*FuncV), []Val{i}, c.site, func(_ *State, vs []Val) { res = vs[0].(*Term); cnt++ })
			x.pure--
			if cnt != 1 {
				x.fail("sort.Search with a predicate that branches")
			}
			return res
		}
		x.fact(st, Implies(Lt(r, n), at(r)))
		x.fact(st, Implies(Lt(Int(0), r), Not(at(Sub(r, Int(1))))))
		k(st, []Val{r})
	}
}

var _ ssa.Instruction
