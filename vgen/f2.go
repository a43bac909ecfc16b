package main

import (
	"go/ast"
	"go/constant"
	"go/types"
)

// Rows of the columnar builder of internal/arrow3: what is appended is copied
// column by column, so a row is a snapshot of the fields of the message (one
// level of messages deep). The conversion itself is not under contract.

const f2p = "github.com/gernest/requiemdb/internal/f2"

func rowField(x *Exec, st *State, row *Term, path string, t types.Type) []*Term {
	var out []*Term
	if isByteSlice(t) || isStruct(t) {
		x.fail("row field %s", t)
	}
	for _, c := range comps(t) {
		out = append(out, App("row:"+path+c.suf, c.sort, row))
	}
	return out
}

func (x *Exec) rowFacts(st *State, row *Term, cond *Term, pre string, ref *Term, t types.Type, deep bool) {
	s := under(t).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Exported() {
			continue
		}
		v := x.fieldOf(st, ref, t, f.Name())
		if isByteSlice(f.Type()) || isStruct(f.Type()) {
			continue
		}
		a, b := rowField(x, st, row, pre+f.Name(), f.Type()), x.flat(st, v, f.Type())
		e := True
		for j := range a {
			e = And(e, Eq(a[j], b[j]))
		}
		x.fact(st, Implies(cond, e))
		if sl, ok := v.(*SliceV); ok && sl.o == nil && deep {
			k := BVar("k", SInt)
			var ra []*Term
			for _, c := range comps(sl.elem) {
				ra = append(ra, App("row:"+pre+f.Name()+"[]"+c.suf, c.sort, row, k))
			}
			la := x.flat(st, x.load(st, elemLoc(sl.elem, sl.a, Add(sl.off0(), k))), sl.elem)
			e := True
			for j := range ra {
				e = And(e, Eq(ra[j], la[j]))
			}
			x.fact(st, Implies(cond, Forall([]*Term{k}, Implies(And(Le(Int(0), k), Lt(k, sl.n)), e), []*Term{ra[0]})))
		}
		p, ok := under(f.Type()).(*types.Pointer)
		if !ok {
			continue
		}
		r := b[0]
		set := And(cond, Not(Eq(r, Int(0))))
		if isStruct(p.Elem()) {
			if deep {
				x.rowFacts(st, row, set, pre+f.Name()+".", r, p.Elem(), false)
			}
			continue
		}
		a = rowField(x, st, row, pre+f.Name()+"*", p.Elem())
		b = x.flat(st, x.load(st, refLoc(p.Elem(), r)), p.Elem())
		for j := range a {
			x.fact(st, Implies(set, Eq(a[j], b[j])))
		}
	}
}

func init() {
	a3r := "(*github.com/gernest/requiemdb/internal/arrow3.Schema[T])."
	models[a3r+"Append"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		s := term(c.args[0])
		n := Select(x.heapGet(st, a3N, arrSort(SInt, SInt)), s)
		row := Fresh("row", SInt)
		x.rowFacts(st, row, True, "", term(c.args[1]), elemOfPtr(c.fn.Signature.Params().At(0).Type()), true)
		h := x.heapGet(st, a3Row, heapSort(SInt, 2))
		x.heapSet(st, a3Row, Store(h, s, Store(Select(h, s), n, row)), []*Term{s})
		x.heapSet(st, a3N, Store(x.heapGet(st, a3N, arrSort(SInt, SInt)), s, Add(n, Int(1))), []*Term{s})
		x.note("arrow3 builders are taken to copy every field of what is appended")
		return nil
	})
	// row of a field: vf.Row[T](row, "Field"), "Field[]" with an index for an
	// element, "Field*" for what a pointer points to
	extIntrinsics["row"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		var ts []*Term
		for _, b := range append([]ast.Expr{a.Args[0]}, a.Args[2:]...) {
			ts = append(ts, e.eval(b).(*Term))
		}
		return e.x.uninterp(e.st, "row:"+constant.StringVal(e.info.Types[a.Args[1]].Value), ta, ts)
	}
	// the elements of a slice, as they are now, as one value
	extIntrinsics["contents"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		s := e.eval(a.Args[0]).(*SliceV)
		i := BVar("i", SInt)
		t, ok := e.x.load(e.st, elemLoc(s.elem, s.a, i)).(*Term)
		if !ok || t.op != "select" || t.args[1] != i || (s.o != nil && s.o != Int(0)) {
			e.x.fail("vf.Contents of %T", t)
		}
		return t.args[0]
	}
	extIntrinsics["setEnc"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		p := e.eval(a.Args[0])
		t := elemOfPtr(e.typ(a.Args[0]))
		encAxiom()
		return App("rb64enc", SStr, e.x.load(e.st, e.ptr(p, t)).(*Term))
	}
	models["iface:("+f2p+".Translate).Tr"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		s := x.bytesOf(st, c.args[1].(*SliceV))
		b := BVar("s", SStr)
		t := App("f2:column", SInt, b)
		addAxiom("f2:column", "range", Forall([]*Term{b}, And(Le(Int(0), t), Lt(t, Int(1<<20))), []*Term{t}))
		x.note("translating a name gives the same column every time (C01), below 2^20")
		return []Val{App("f2:column", SInt, s)}
	})
	models[rb64+"WriteTo"] = func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		encAxiom()
		t := App("rb64enc", SStr, x.opqLoad(st, recvElem(c), c.args[0]))
		x.slenFact(st, t)
		w, ok := c.args[1].(*IfaceV)
		if !ok {
			x.fail("writer %T", c.args[1])
		}
		wt := c.sig.Params().At(0).Type()
		obj, _, _ := types.LookupFieldOrMethod(wt, false, nil, "Write")
		f, args := x.invoke(fr, st, w, obj.(*types.Func), wt, []Val{x.newBytes(st, t)}, nil)
		x.callFunc(fr, st, f.(*FuncV), args, nil, func(st *State, res []Val) {
			k(st, []Val{Slen(t), res[1]})
		})
	}
}

// encAxiom: a serialised bitmap denotes the bitmap.
func encAxiom() {
	s := BVar("s", SSet)
	enc := App("rb64enc", SStr, s)
	addAxiom("rb64enc", "dec", Forall([]*Term{s}, Eq(App("rb64dec", SSet, enc), s), []*Term{enc}))
}
