package main

import (
	"go/ast"
	"go/types"
)

// Columnar schemas (gernest/arrow3): a builder holds a list of rows, a record
// and a parquet text are immutable lists of rows. A row is the token of the
// message it was made from; 0 stands for a message without data. Conversions
// are taken to keep the rows and their order.

const (
	a3    = "(*github.com/gernest/arrow3.Schema["
	a3N   = "a3:n"
	a3Row = "a3:row"
)

func recN(p *Term) *Term      { return App("rec:n", SInt, p) }
func recRow(p, i *Term) *Term { return App("rec:row", SInt, p, i) }

// ParqN and parqRow are the rows of an encoded record.
func parqN(t *Term) *Term      { return App("parq:n", SInt, t) }
func parqRow(t, i *Term) *Term { return App("parq:row", SInt, t, i) }

// dataTok is the token of a message.
func (x *Exec) dataTok(st *State, ref *Term, t types.Type) *Term {
	f := x.fieldOf(st, ref, t, "Data")
	s := under(t).(*types.Struct)
	var ft types.Type
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "Data" {
			ft = s.Field(i).Type()
		}
	}
	ts := x.flat(st, f, ft)
	x.tokFact(st, nil)
	return Ite(Eq(ts[0], Int(0)), Int(0), App("tok", SInt, ts[0], ref))
}

func kvSetFailed(x *Exec, st *State) { x.heapSet(st, kvFail, Int(1), nil) }

func forallIdx(n *Term, f func(i *Term) (*Term, *Term)) *Term {
	i := BVar("i", SInt)
	b, tr := f(i)
	return Forall([]*Term{i}, Implies(And(Le(Int(0), i), Lt(i, n)), b), []*Term{tr})
}

func init() {
	extIntrinsics["tok"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		return e.x.dataTok(e.st, e.eval(a.Args[0]).(*Term), elemOfPtr(e.typ(a.Args[0])))
	}
	extIntrinsics["tagOf"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		return Int(typeTag(ta))
	}
	extIntrinsics["tokKind"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		return App("tok:kind", SInt, e.eval(a.Args[0]).(*Term))
	}
	extIntrinsics["rowsIn"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		return parqN(e.eval(a.Args[0]).(*Term))
	}
	extIntrinsics["rowAt"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		return parqRow(e.eval(a.Args[0]).(*Term), e.eval(a.Args[1]).(*Term))
	}
	extIntrinsics["built"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		return Select(e.x.heapGet(e.st, a3N, arrSort(SInt, SInt)), e.refOf(a.Args[0]))
	}
	extIntrinsics["recRows"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		return recN(e.refOf(a.Args[0]))
	}
	extIntrinsics["recAt"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		return recRow(e.refOf(a.Args[0]), e.eval(a.Args[1]).(*Term))
	}
	extIntrinsics["builtAt"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		return Select(Select(e.x.heapGet(e.st, a3Row, heapSort(SInt, 2)), e.refOf(a.Args[0])), e.eval(a.Args[1]).(*Term))
	}
	extIntrinsics["setDec"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		return mk("select", "", SBool, []*Term{App("rb64dec", SSet, e.eval(a.Args[0]).(*Term)), e.eval(a.Args[1]).(*Term)}, nil, nil)
	}
	extIntrinsics["math"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		return e.eval(a.Args[0]).(*Term)
	}
	ghostHeapTab["builders"] = map[string]Sort{a3N: arrSort(SInt, SInt), a3Row: heapSort(SInt, 2)}

	nm := func(n string) []string {
		return []string{"(*github.com/gernest/arrow3.Schema[T])." + n}
	}
	reg := func(n string, m model) {
		for _, k := range nm(n) {
			models[k] = m
		}
	}
	count := func(x *Exec, st *State, s *Term) *Term {
		return Select(x.heapGet(st, a3N, arrSort(SInt, SInt)), s)
	}
	setCount := func(x *Exec, st *State, s, n *Term) {
		x.heapSet(st, a3N, Store(x.heapGet(st, a3N, arrSort(SInt, SInt)), s, n), []*Term{s})
	}
	rowsOf := func(x *Exec, st *State, s *Term) *Term {
		return Select(x.heapGet(st, a3Row, heapSort(SInt, 2)), s)
	}
	reg("Append", pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		s := term(c.args[0])
		n := count(x, st, s)
		t := x.dataTok(st, term(c.args[1]), elemOfPtr(c.fn.Signature.Params().At(0).Type()))
		x.tokFact(st, t)
		h := x.heapGet(st, a3Row, heapSort(SInt, 2))
		x.heapSet(st, a3Row, Store(h, s, Store(Select(h, s), n, t)), []*Term{s})
		setCount(x, st, s, Add(n, Int(1)))
		return nil
	}))
	take := func(x *Exec, st *State, s *Term) *IfaceV {
		r := x.newRef(st)
		n, rows := count(x, st, s), rowsOf(x, st, s)
		x.fact(st, And(Eq(recN(r), n), Le(Int(0), n)))
		x.fact(st, forallIdx(n, func(i *Term) (*Term, *Term) {
			return Eq(recRow(r, i), mk("select", "", SInt, []*Term{rows, i}, nil, nil)), recRow(r, i)
		}))
		setCount(x, st, s, Int(0))
		return &IfaceV{t: Int(typeTag(types.Typ[types.Int16])), p: r}
	}
	reg("NewRecord", pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{take(x, st, term(c.args[0]))}
	}))
	// write sends the encoding of records in two parts to a writer.
	write := func(x *Exec, fr *Frame, st *State, c *callInfo, recs []*Term, k Cont) {
		et := c.resType(0)
		s0 := st.clone()
		kvSetFailed(x, s0)
		a, b := Fresh("parqA", SStr), Fresh("parqB", SStr)
		x.slenFact(st, a)
		x.slenFact(st, b)
		t := Cat(a, b)
		tot := Int(0)
		for _, r := range recs {
			at := tot
			x.fact(st, forallIdx(recN(r), func(i *Term) (*Term, *Term) {
				return Eq(parqRow(t, Add(i, at)), recRow(r, i)), recRow(r, i)
			}))
			i := BVar("i", SInt)
			x.fact(st, Forall([]*Term{i}, Implies(And(Le(at, i), Lt(i, Add(at, recN(r)))), Eq(parqRow(t, i), recRow(r, Sub(i, at)))), []*Term{parqRow(t, i)}))
			tot = Add(tot, recN(r))
		}
		x.fact(st, Eq(parqN(t), tot))
		w, ok := c.args[1].(*IfaceV)
		if !ok {
			x.fail("writer %T", c.args[1])
		}
		wt := c.sig.Params().At(0).Type()
		obj, _, _ := types.LookupFieldOrMethod(wt, false, nil, "Write")
		m := obj.(*types.Func)
		// failing midway: something was written
		k(s0, []Val{freshErrOther(x, s0)})
		f, args := x.invoke(fr, st, w, m, wt, []Val{x.newBytes(st, a)}, nil)
		x.callFunc(fr, st, f.(*FuncV), args, nil, func(st *State, res []Val) {
			if ts := x.flat(st, res[1], et); !ts[0].isInt() || ts[0].i64() != 0 {
				x.fail("writer of a record fails")
			}
			f, args := x.invoke(fr, st, w, m, wt, []Val{x.newBytes(st, b)}, nil)
			x.callFunc(fr, st, f.(*FuncV), args, nil, func(st *State, res []Val) {
				k(st, []Val{zeroVal(et)})
			})
		})
	}
	reg("WriteParquet", func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		r := take(x, st, term(c.args[0]))
		write(x, fr, st, c, []*Term{r.p}, k)
	})
	reg("WriteParquetRecords", func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		s := c.args[2].(*SliceV)
		if !s.n.isInt() {
			x.fail("unknown list of records")
		}
		var rs []*Term
		for i := int64(0); i < s.n.i64(); i++ {
			rs = append(rs, x.flat(st, x.load(st, elemLoc(s.elem, s.a, Int(i))), s.elem)[1])
		}
		write(x, fr, st, c, rs, k)
	})
	reg("Read", func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		s0 := st.clone()
		kvSetFailed(x, s0)
		k(s0, []Val{zeroVal(c.resType(0)), freshErrOther(x, s0)})
		ts := x.flat(st, c.args[2], c.sig.Params().At(1).Type())
		t := App("rdr:str", SStr, ts[1])
		r := x.newRef(st)
		x.fact(st, And(Eq(recN(r), parqN(t)), Le(Int(0), parqN(t)), Lt(parqN(t), pow2(62))))
		i := BVar("i", SInt)
		x.fact(st, Forall([]*Term{i}, Eq(recRow(r, i), parqRow(t, i)), []*Term{recRow(r, i)}))
		x.fact(st, Forall([]*Term{i}, Eq(recRow(r, i), parqRow(t, i)), []*Term{parqRow(t, i)}))
		k(st, []Val{&IfaceV{t: Int(typeTag(types.Typ[types.Int16])), p: r}, zeroVal(c.resType(1))})
	})
	reg("Proto", pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		rec := x.flat(st, c.args[1], c.sig.Params().At(0).Type())[1]
		rows := c.args[2].(*SliceV)
		rt := c.fn.Signature.Results().At(0).Type().Underlying().(*types.Slice)
		mt := rt.Elem()
		o := x.freshVal(st, "proto", rt).(*SliceV)
		x.fact(st, Eq(o.n, rows.n))
		i := BVar("i", SInt)
		e := x.load(st, elemLoc(mt, o.a, i)).(*Term)
		q := x.load(st, elemLoc(rows.elem, rows.a, i)).(*Term)
		x.fact(st, Forall([]*Term{i}, Implies(And(Le(Int(0), i), Lt(i, rows.n)), And(Not(Eq(e, Int(0))), Eq(x.dataTok(st, e, elemOfPtr(mt)), recRow(rec, q)))), []*Term{e}))
		// oneof wrappers and the messages in them are not nil
		et := elemOfPtr(mt)
		if nt, ok := et.(*types.Named); ok {
			var ft types.Type
			sx := under(et).(*types.Struct)
			for i := 0; i < sx.NumFields(); i++ {
				if sx.Field(i).Name() == "Data" {
					ft = sx.Field(i).Type()
				}
			}
			ts := x.flat(st, x.fieldOf(st, e, et, "Data"), ft)
			sc := nt.Obj().Pkg().Scope()
			for _, n := range sc.Names() {
				tn, ok := sc.Lookup(n).(*types.TypeName)
				if !ok || !types.Implements(types.NewPointer(tn.Type()), ft.Underlying().(*types.Interface)) {
					continue
				}
				ws, ok := tn.Type().Underlying().(*types.Struct)
				if !ok || ws.NumFields() != 1 {
					continue
				}
				inner := x.fieldOf(st, ts[1], tn.Type(), ws.Field(0).Name()).(*Term)
				x.fact(st, Forall([]*Term{i}, Implies(And(Le(Int(0), i), Lt(i, rows.n), Eq(ts[0], Int(typeTag(types.NewPointer(tn.Type()))))), And(Not(Eq(ts[1], Int(0))), Not(Eq(inner, Int(0))))), []*Term{e}))
			}
		}
		return []Val{o}
	}))
	reg("Parquet", pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		return []Val{x.freshVal(st, "schema", c.resType(0))}
	}))
	models["github.com/gernest/arrow3.New"] = func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		s0 := st.clone()
		k(s0, []Val{Int(0), freshErrOther(x, s0)})
		r := x.newRef(st)
		setCount(x, st, r, Int(0))
		k(st, []Val{r, zeroVal(types.Universe.Lookup("error").Type())})
	}
	rc := "iface:(github.com/apache/arrow/go/v17/arrow.Record)."
	models[rc+"NumRows"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		r := x.flat(st, c.args[0], types.NewInterfaceType(nil, nil))[1]
		x.fact(st, And(Le(Int(0), recN(r)), Lt(recN(r), pow2(62))))
		return []Val{recN(r)}
	})
	models[rc+"Release"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val { return nil })
	models["bytes.NewReader"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		r := x.newRef(st)
		x.fact(st, Eq(App("rdr:str", SStr, r), x.bytesOf(st, c.args[0].(*SliceV))))
		return []Val{r}
	})

	// bitmaps as bytes
	models[rb64+"UnmarshalBinary"] = func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		s0 := st.clone()
		kvSetFailed(x, s0)
		x.opqStore(s0, recvElem(c), c.args[0], Fresh("broken", SSet))
		k(s0, []Val{freshErrOther(x, s0)})
		x.opqStore(st, recvElem(c), c.args[0], App("rb64dec", SSet, x.bytesOf(st, c.args[1].(*SliceV))))
		k(st, []Val{zeroVal(c.resType(0))})
	}
	marshal := func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		s0 := st.clone()
		kvSetFailed(x, s0)
		k(s0, []Val{zeroVal(c.resType(0)), freshErrOther(x, s0)})
		s := BVar("s", SSet)
		enc := App("rb64enc", SStr, s)
		addAxiom("rb64enc", "dec", Forall([]*Term{s}, Eq(App("rb64dec", SSet, enc), s), []*Term{enc}))
		t := App("rb64enc", SStr, x.opqLoad(st, recvElem(c), c.args[0]))
		x.slenFact(st, t)
		k(st, []Val{x.newBytes(st, t), zeroVal(c.resType(1))})
	}
	models[rb64+"MarshalBinary"] = marshal
	models[rb64+"ToBytes"] = marshal
	models[rb64+"RunOptimize"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val { return nil })
}

// tokFact relates a token to the kind of its message.
func (x *Exec) tokFact(st *State, t *Term) {
	a, b := BVar("a", SInt), BVar("b", SInt)
	k := App("tok", SInt, a, b)
	addAxiom("tok", "kind", Forall([]*Term{a, b}, And(Eq(App("tok:kind", SInt, k), a), Not(Eq(k, Int(0)))), []*Term{k}))
}

func freshErrOther(x *Exec, st *State) Val { return otherErr(x, st, bdg+"ErrKeyNotFound") }
