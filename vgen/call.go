package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func itoa(n int) string { return strconv.Itoa(n) }

// callee evaluates the function and arguments of a call.
func (x *Exec) callee(fr *Frame, st *State, cc *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range cc.Args {
		args = append(args, x.val(fr, st, a))
	}
	if cc.IsInvoke() {
		recv, ok := x.val(fr, st, cc.Value).(*IfaceV)
		if !ok {
			x.fail("invoke on %T", x.val(fr, st, cc.Value))
		}
		return x.invoke(fr, st, recv, cc.Method, cc.Value.Type(), args, cc)
	}
	return x.val(fr, st, cc.Value), args
}

func (x *Exec) invoke(fr *Frame, st *State, recv *IfaceV, m *types.Func, it types.Type, args []Val, site *ssa.CallCommon) (Val, []Val) {
	if recv.ct != nil {
		if f := x.p.prog.LookupMethod(recv.ct, m.Pkg(), m.Name()); f != nil {
			return &FuncV{fn: f}, append([]Val{recv.cv}, args...)
		}
	}
	name := "iface:" + m.FullName()
	all := append([]Val{recv}, args...)
	sig := m.Type().(*types.Signature)
	return &FuncV{name: name, ext: func(x *Exec, fr *Frame, st *State, args []Val, k Cont) {
		if x.panics {
			if r, ok := args[0].(*IfaceV); ok {
				ts := x.flat(st, r, it)
				x.oblige(st, "nil", "method call on a nil interface", "", Not(Eq(ts[0], Int(0))))
			}
		}
		if f, ok := models[name]; ok {
			x.models[name] = true
			f(x, fr, st, &callInfo{name: name, args: args, sig: sig}, k)
			return
		}
		if r, ok := args[0].(*IfaceV); ok {
			if ts := x.p.implementors(it); len(ts) > 0 && len(ts) <= 8 {
				f := x.flat(st, r, it)
				var rest []*Term
				for _, t := range ts {
					is := Eq(f[0], Int(typeTag(t)))
					fn := x.p.prog.LookupMethod(t, m.Pkg(), m.Name())
					if fn == nil || !x.feasible(st, is) {
						rest = append(rest, Not(is))
						continue
					}
					s2 := st.clone()
					x.assume(s2, is)
					v := x.unboxVal(s2, f[1], t)
					x.paths++
					var fr2 *Frame
					if fr != nil {
						fr2 = fr.clone()
					}
					_ = fr2
					x.callFunc(fr, s2, &FuncV{fn: fn}, append([]Val{v}, args[1:]...), nil, k)
					rest = append(rest, Not(is))
				}
				other := And(rest...)
				if !x.feasible(st, other) {
					return
				}
				x.assume(st, other)
			}
		}
		x.external(fr, st, m.FullName(), sig, args, k)
	}}, all
}

// implementors lists the types of the program that implement an interface of
// the repository.
func (p *Program) implementors(it types.Type) []types.Type {
	n, ok := types.Unalias(it).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return nil
	}
	if r, ok := p.impls[n.String()]; ok {
		return r
	}
	var out []types.Type
	iface := under(it).(*types.Interface)
	pkgs := p.prog.AllPackages()
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].Pkg.Path() < pkgs[j].Pkg.Path() })
	for _, sp := range pkgs {
		if strings.Contains(sp.Pkg.Path(), "/zzvt") {
			continue
		}
		for _, nm := range sortedKeys(sp.Members) {
			t, ok := sp.Members[nm].(*ssa.Type)
			if !ok || types.IsInterface(t.Type()) {
				continue
			}
			if nt, ok := t.Type().(*types.Named); !ok || nt.TypeParams().Len() > 0 {
				continue
			}
			if pt := types.NewPointer(t.Type()); types.Implements(pt, iface) {
				out = append(out, pt)
			} else if types.Implements(t.Type(), iface) {
				out = append(out, t.Type())
			}
		}
	}
	if p.impls == nil {
		p.impls = map[string][]types.Type{}
	}
	p.impls[n.String()] = out
	return out
}

func (x *Exec) call(fr *Frame, st *State, cc *ssa.CallCommon, site ssa.Instruction, k Cont) {
	fn, args := x.callee(fr, st, cc)
	x.callVal(fr, st, cc, fn, args, site, k)
}

func (x *Exec) callVal(fr *Frame, st *State, cc *ssa.CallCommon, fn Val, args []Val, site ssa.Instruction, k Cont) {
	switch f := fn.(type) {
	case *ssa.Builtin:
		x.builtin(fr, st, f.Name(), cc, args, site, k)
	case *FuncV:
		x.callFunc(fr, st, f, args, site, k)
	case *Term:
		sig := under(cc.Value.Type()).(*types.Signature)
		x.callUnknown(fr, st, f, sig, args, site, k)
	default:
		x.fail("call of %T", fn)
	}
}

func (x *Exec) callFunc(fr *Frame, st *State, f *FuncV, args []Val, site ssa.Instruction, k Cont) {
	if f.ext != nil {
		f.ext(x, fr, st, args, k)
		return
	}
	x.callStatic(fr, st, f.fn, args, f.bind, site, k)
}

// callUnknown calls a function value about which nothing is known: a pure
// function of its arguments.
func (x *Exec) callUnknown(fr *Frame, st *State, f *Term, sig *types.Signature, args []Val, site ssa.Instruction, k Cont) {
	if f.op == "ite" {
		// one of several known functions
		a, b := termFunc(f.args[1]), termFunc(f.args[2])
		if a != nil && b != nil {
			s2 := st.clone()
			x.assume(st, f.args[0])
			x.callFunc(fr, st, a, args, site, k)
			x.assume(s2, Not(f.args[0]))
			x.callFunc(fr, s2, b, args, site, k)
			return
		}
	}
	if x.panics {
		x.oblige(st, "nil", "call of a nil function", x.pos(site), Not(Eq(f, Int(0))))
	}
	k(st, x.applyPure(st, f, sig, args))
}

// applyPure applies an unknown function as an uninterpreted one.
func (x *Exec) applyPure(st *State, f *Term, sig *types.Signature, args []Val) []Val {
	x.note("unknown function values are pure functions of their arguments")
	ts := []*Term{f}
	for i, a := range args {
		var pt types.Type
		if i < sig.Params().Len() {
			pt = sig.Params().At(i).Type()
		}
		ts = append(ts, x.argTerms(st, a, pt)...)
	}
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		res = append(res, x.uninterp(st, "apply"+itoa(i)+":"+typeKey(sig), rt, ts))
	}
	return res
}

// argTerms flattens an argument, byte slices by content.
func (x *Exec) argTerms(st *State, a Val, t types.Type) []*Term {
	if s, ok := a.(*SliceV); ok && s.o != nil {
		return []*Term{x.bytesOf(st, s)}
	}
	return x.flat(st, a, t)
}

// uninterp makes a value of type t that is a function of ts.
func (x *Exec) uninterp(st *State, name string, t types.Type, ts []*Term) Val {
	if isStruct(t) {
		r := &StructV{typ: t}
		s := under(t).(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if isProtoInternal(s.Field(i)) {
				r.fs = append(r.fs, zeroVal(s.Field(i).Type()))
				continue
			}
			r.fs = append(r.fs, x.uninterp(st, name+"."+s.Field(i).Name(), s.Field(i).Type(), ts))
		}
		return r
	}
	if isByteSlice(t) {
		s := App(name+"#bytes", SStr, ts...)
		return x.newBytes(st, s)
	}
	var out []*Term
	for _, c := range comps(t) {
		out = append(out, App(name+c.suf, c.sort, ts...))
	}
	x.loadFacts(st, t, out)
	return unflat(t, out)
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (x *Exec) callStatic(fr *Frame, st *State, fn *ssa.Function, args, bind []Val, site ssa.Instruction, k Cont) {
	name := fn.String()
	key := fnKey(fn)
	if m, ok := models[key]; ok {
		x.models[key] = true
		m(x, fr, st, &callInfo{name: key, fn: fn, args: args, sig: fn.Signature, site: site}, k)
		return
	}
	if c := x.p.contractFor(name, x.prop); c != nil && x.pure == 0 && !c.flags["inline"] {
		x.useContract(fr, st, c, fn, args, site, k)
		return
	}
	if fn.Blocks != nil && x.inlineOK(fn) {
		x.inline(fr, st, fn, args, bind, site, k)
		return
	}
	var as []Val
	as = append(as, args...)
	x.external(fr, st, key, fn.Signature, as, k)
}

func (x *Exec) inlineOK(fn *ssa.Function) bool {
	n := 0
	for _, s := range x.callStk {
		if s == fn.String() {
			n++
		}
	}
	return n < 3
}

func (x *Exec) inline(fr *Frame, st *State, fn *ssa.Function, args, bind []Val, site ssa.Instruction, k Cont) {
	name := fn.String()
	if x.pure == 0 {
		x.inlined[name] = true
	}
	x.callStk = append(x.callStk, name)
	base := st.clone()
	type exit struct {
		st  *State
		res []Val
	}
	var exits []exit
	x.callFn(fr, st, fn, args, bind, site, func(s *State, res []Val) {
		exits = append(exits, exit{s, res})
	})
	x.callStk = x.callStk[:len(x.callStk)-1]
	if len(exits) == 0 {
		return
	}
	merge := len(exits) > 1 && len(exits) <= 24
	for i := 0; merge && i < fn.Signature.Results().Len(); i++ {
		if !mergeable(fn.Signature.Results().At(i).Type()) {
			merge = false
		}
	}
	for _, e := range exits {
		if e.st.abase != exits[0].st.abase {
			merge = false
		}
		for _, r := range e.res {
			if l, ok := r.(*Loc); ok && len(l.idx) > 1 {
				merge = false // a pointer to a component stays one
			}
		}
	}
	if !merge {
		for _, e := range exits {
			k(e.st, e.res)
		}
		return
	}
	var ss []*State
	var conds []*Term
	for _, e := range exits {
		ss = append(ss, e.st)
		conds = append(conds, pcSince(e.st, base))
	}
	conds = disjoint(conds)
	m := x.mergeStates(base, ss, conds)
	var res []Val
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		v := exits[len(exits)-1].res[i]
		for j := len(exits) - 2; j >= 0; j-- {
			v = x.iteVal(m, conds[j], exits[j].res[i], v, fn.Signature.Results().At(i).Type())
		}
		res = append(res, v)
	}
	k(m, res)
}

// external havocs the results of a function without body, contract or model.
func (x *Exec) external(fr *Frame, st *State, name string, sig *types.Signature, args []Val, k Cont) {
	x.externals[name] = true
	if x.pure > 0 {
		// specifications need functional results
		var ts []*Term
		for i, a := range args {
			j := i
			if sig.Recv() != nil {
				j--
			}
			var pt types.Type
			if j < 0 {
				pt = sig.Recv().Type()
			} else if j < sig.Params().Len() {
				pt = sig.Params().At(j).Type()
			}
			ts = append(ts, x.argTerms(st, a, pt)...)
		}
		var res []Val
		for i := 0; i < sig.Results().Len(); i++ {
			res = append(res, x.uninterp(st, "ext"+itoa(i)+":"+name, sig.Results().At(i).Type(), ts))
		}
		k(st, res)
		return
	}
	nb := Fresh("A", SInt)
	st.add(Le(st.alloc(), nb), false)
	st.abase, st.aoff = nb, 0
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		res = append(res, x.freshVal(st, "ext", sig.Results().At(i).Type()))
	}
	k(st, res)
}

type callInfo struct {
	name string
	fn   *ssa.Function
	args []Val
	sig  *types.Signature
	site ssa.Instruction
}

func (c *callInfo) resType(i int) types.Type { return c.sig.Results().At(i).Type() }

type model func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont)

// ---- contracts at call sites

func (x *Exec) useContract(fr *Frame, st *State, c *Contract, fn *ssa.Function, args []Val, site ssa.Instruction, k Cont) {
	x.byContr[c.target] = true
	if c.trusted {
		x.trusted[c.target] = true
	}
	pre := st.clone()
	env := &specEnv{x: x, st: st, old: pre, vars: map[types.Object]Val{}, info: c.pkg.TypesInfo, lets: []map[types.Object]exprT{c.lets}}
	np := len(args)
	for i, o := range c.params {
		if i < np && o != nil {
			env.vars[o] = args[i]
		}
	}
	for _, cl := range c.clauses {
		if cl.kind != "requires" {
			continue
		}
		t := x.evalClause(env, cl)
		x.oblige(st, "requires", shortName(c.target)+": "+cl.label, x.pos(site), t)
		if len(t.bound) == 0 {
			st.add(t, false)
		}
	}
	// effects
	env.st = st
	var locs []*modLoc
	for _, cl := range c.clauses {
		if cl.kind == "modifies" {
			for _, e := range cl.exprs {
				locs = append(locs, x.modLocs(env, e)...)
			}
		}
	}
	nb := Fresh("A", SInt)
	st.add(Le(st.alloc(), nb), false)
	st.abase, st.aoff = nb, 0
	for _, l := range locs {
		x.havocLoc(st, l)
	}
	var res []Val
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		rt := fn.Signature.Results().At(i).Type()
		v := x.freshVal(st, "r_"+fn.Name(), rt)
		res = append(res, v)
		if np+i < len(c.params) && c.params[np+i] != nil {
			env.vars[c.params[np+i]] = v
		}
	}
	env.st = st
	for _, cl := range c.clauses {
		if cl.kind == "ensures" || cl.kind == "made" {
			t := x.evalClause(env, cl)
			st.add(t, false)
		}
	}
	if st.dead {
		return
	}
	k(st, res)
}

// modLoc is a memory region a function may change.
type modLoc struct {
	heap string
	sort Sort
	idx  []*Term // nil: everything
}

func (x *Exec) havocLoc(st *State, l *modLoc) {
	h := x.heapGet(st, l.heap, l.sort)
	if l.idx == nil {
		nh := Fresh("H:"+l.heap, l.sort)
		x.setHeapBase(nh, st.abase)
		x.heapFacts(nh, l.heap, l.sort, st.abase)
		if strings.HasPrefix(l.heap, "g:") {
			x.heapSet(st, l.heap, nh, []*Term{})
			return
		}
		x.heapSet(st, l.heap, nh, nil)
		return
	}
	s := l.sort
	for range l.idx {
		s = s.elem()
	}
	v := Fresh("M:"+l.heap, s)
	x.heapSet(st, l.heap, storeN(h, l.idx, v), l.idx)
	x.havocFacts(st, l.heap, s, v)
}

// locHeaps lists the heap components of location l.
func (x *Exec) locHeaps(l *Loc) []*modLoc {
	if isStruct(l.typ) {
		s := under(l.typ).(*types.Struct)
		var out []*modLoc
		for i := 0; i < s.NumFields(); i++ {
			if isProtoInternal(s.Field(i)) || s.Field(i).Name() == "_" {
				continue
			}
			out = append(out, x.locHeaps(fieldLoc(l, i))...)
		}
		return out
	}
	if a, ok := under(l.typ).(*types.Array); ok && !isOpq(l.typ) && len(l.idx) == 1 {
		if isByte(a.Elem()) {
			return []*modLoc{{"bmem", heapSort(SByt, 1), l.idx}}
		}
		return []*modLoc{{l.pre, heapSort(valSort(a.Elem()), 2), l.idx}}
	}
	var out []*modLoc
	for i, c := range comps(l.typ) {
		if len(l.idx) > 0 {
			regHeap(l.pre+c.suf, l.typ, i)
		}
		ml := &modLoc{l.pre + c.suf, heapSort(c.sort, len(l.idx)), l.idx}
		if len(l.idx) == 0 {
			ml.idx = nil
		}
		out = append(out, ml)
	}
	return out
}

// ---- builtins

func (x *Exec) builtin(fr *Frame, st *State, name string, cc *ssa.CallCommon, args []Val, site ssa.Instruction, k Cont) {
	argT := func(i int) types.Type { return cc.Args[i].Type() }
	switch name {
	case "len", "cap":
		var r *Term
		switch v := args[0].(type) {
		case *SliceV:
			r = v.n
			if name == "cap" {
				r = v.c
			}
		case *Term:
			switch u := under(argT(0)).(type) {
			case *types.Basic:
				x.slenFact(st, v)
				r = Slen(v)
			case *types.Map:
				r = x.mapLen(st, v, u)
			case *types.Pointer:
				r = Int(under(u.Elem()).(*types.Array).Len())
			case *types.Array:
				r = Int(u.Len())
			case *types.Chan:
				r = Fresh("chanlen", SInt)
				st.add(Le(Int(0), r), false)
			default:
				x.fail("len of %s", argT(0))
			}
		}
		k(st, []Val{r})
	case "append":
		s := args[0].(*SliceV)
		if len(args) == 1 {
			k(st, []Val{s})
			return
		}
		if t, ok := args[1].(*Term); ok { // append([]byte, string...)
			k(st, []Val{x.appendBytes(st, s, t)})
			return
		}
		b := args[1].(*SliceV)
		if s.o != nil {
			if b.n.isInt() && b.n.i64() <= 16 && b.a.op != "int" {
				if _, ok := isAlloc(b.a); ok {
					// variadic bytes
					add := []*Term{}
					h := x.heapGet(st, "bmem", heapSort(SByt, 1))
					whole := sv(Select(h, b.a), b.o, b.n)
					if whole.op == "app" && whole.name == "sv" {
						for i := int64(0); i < b.n.i64(); i++ {
							v := x.load(st, &Loc{pre: "bmem", idx: []*Term{b.a}, typ: s.elem, bytePos: Add(b.o, Int(i))}).(*Term)
							add = append(add, chr(v))
						}
						k(st, []Val{x.appendBytes(st, s, Cat(add...))})
						return
					}
				}
			}
			k(st, []Val{x.appendBytes(st, s, x.bytesOf(st, b))})
			return
		}
		k(st, []Val{x.appendSlice(st, s, b)})
	case "copy":
		d := args[0].(*SliceV)
		var n *Term
		if d.o != nil {
			var src *Term
			if t, ok := args[1].(*Term); ok {
				src = t
			} else {
				src = x.bytesOf(st, args[1].(*SliceV))
			}
			x.slenFact(st, src)
			l := Slen(src)
			n = minT(d.n, l)
			h := x.heapGet(st, "bmem", heapSort(SByt, 1))
			var w *Term
			if Eq(n, l) == True || x.implied(st, Le(l, d.n)) {
				w, n = src, l
			} else {
				w = substr(src, Int(0), n)
				if w.op == "app" {
					x.fact(st, Eq(App("slen", SInt, w), n))
				}
			}
			x.heapSet(st, "bmem", Store(h, d.a, bwr(Select(h, d.a), d.o, w)), []*Term{d.a})
		} else {
			s := args[1].(*SliceV)
			n = minT(d.n, s.n)
			for _, p := range elemPaths(d.elem) {
				h := x.heapGet(st, p.suf, heapSort(p.sort, 2))
				src := Select(h, s.a)
				if d.base != nil {
					h = Store(h, d.base, copyArrAt(p.sort, Select(h, d.base), src, d.boff, n))
					x.heapSet(st, p.suf, h, []*Term{d.base})
				}
				x.heapSet(st, p.suf, Store(h, d.a, copyArr(p.sort, Select(h, d.a), src, n)), []*Term{d.a})
			}
		}
		k(st, []Val{n})
	case "delete":
		m := under(argT(0)).(*types.Map)
		r := args[0].(*Term)
		if r.isInt() && r.i64() == 0 {
			k(st, nil)
			return
		}
		x.checkGuardMap(fr, st, cc.Args[0], site, true)
		x.mapDelete(st, r, m, args[1])
		k(st, nil)
	case "clear":
		switch u := under(argT(0)).(type) {
		case *types.Map:
			r := args[0].(*Term)
			x.checkGuardMap(fr, st, cc.Args[0], site, true)
			x.mapInit(st, r, u)
		case *types.Slice:
			s := args[0].(*SliceV)
			if s.o != nil {
				h := x.heapGet(st, "bmem", heapSort(SByt, 1))
				x.heapSet(st, "bmem", Store(h, s.a, bwr(Select(h, s.a), s.o, zeros(s.n))), []*Term{s.a})
			} else {
				zs := elemZeros(s.elem)
				for i, p := range elemPaths(s.elem) {
					h := x.heapGet(st, p.suf, heapSort(p.sort, 2))
					x.heapSet(st, p.suf, Store(h, s.a, copyArr(p.sort, Select(h, s.a), ConstArr(arrSort(SInt, p.sort), zs[i]), s.n)), []*Term{s.a})
				}
			}
		}
		k(st, nil)
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if t.sort == SFlt {
				r = App("f"+name, SFlt, r, t)
				continue
			}
			if name == "min" {
				r = minT(r, t)
			} else {
				r = Ite(Le(r, t), t, r)
			}
		}
		k(st, []Val{r})
	case "ssa:wrapnilchk":
		k(st, []Val{args[0]})
	case "print", "println", "close":
		k(st, nil)
	case "recover":
		k(st, []Val{zeroVal(types.NewInterfaceType(nil, nil))})
	default:
		x.fail("builtin %s", name)
	}
}

func (x *Exec) implied(st *State, t *Term) bool {
	if t == True || st.facts[t] {
		return true
	}
	return !x.feasible(st, Not(t))
}

func minT(a, b *Term) *Term { return Ite(Le(a, b), a, b) }

func chr(v *Term) *Term {
	if v.isInt() {
		return StrLit(string([]byte{byte(v.i64())}))
	}
	b := BVar("c", SInt)
	t := App("chr", SStr, b)
	addAxiom("chr", "len", Forall([]*Term{b}, Eq(App("slen", SInt, t), Int(1)), []*Term{t}))
	addAxiom("chr", "inj", Forall([]*Term{b}, Implies(And(Le(Int(0), b), Lt(b, Int(256))), Eq(App("schr", SInt, t, Int(0)), b)), []*Term{t}))
	return App("chr", SStr, v)
}

func copyArr(s Sort, d, src, n *Term) *Term {
	as := arrSort(SInt, s)
	fn := "acopy:" + string(s)
	D, S, N, i := BVar("d", as), BVar("s", as), BVar("n", SInt), BVar("i", SInt)
	t := App(fn, as, D, S, N)
	sel := mk("select", "", s, []*Term{t, i}, nil, nil)
	addAxiom(fn, "def", Forall([]*Term{D, S, N, i}, Eq(sel, Ite(And(Le(Int(0), i), Lt(i, N)), mk("select", "", s, []*Term{S, i}, nil, nil), mk("select", "", s, []*Term{D, i}, nil, nil))), []*Term{sel}))
	return App(fn, as, d, src, n)
}

// copyArrAt replaces the n values from o on.
func copyArrAt(s Sort, d, src, o, n *Term) *Term {
	as := arrSort(SInt, s)
	fn := "acopyat:" + string(s)
	D, S, O, N, i := BVar("d", as), BVar("s", as), BVar("o", SInt), BVar("n", SInt), BVar("i", SInt)
	t := App(fn, as, D, S, O, N)
	sel := mk("select", "", s, []*Term{t, i}, nil, nil)
	addAxiom(fn, "def", Forall([]*Term{D, S, O, N, i}, Eq(sel, Ite(And(Le(O, i), Lt(i, Add(O, N))), mk("select", "", s, []*Term{S, Sub(i, O)}, nil, nil), mk("select", "", s, []*Term{D, i}, nil, nil))), []*Term{sel}))
	return App(fn, as, d, src, o, n)
}

// ---- lock discipline

// checkGuard requires that guarded fields are only touched under their lock.
func (x *Exec) checkGuard(fr *Frame, st *State, l *Loc, in ssa.Instruction, write bool) {
	g, ok := x.p.guards[l.pre]
	if !ok || !x.guardOn {
		return
	}
	x.guardObl(st, l.pre, g, l.idx, in, write)
}

func (x *Exec) guardObl(st *State, pre, mutex string, idx []*Term, in ssa.Instruction, write bool) {
	if len(idx) == 0 {
		return
	}
	// objects made by this function are not shared yet
	if _, ok := isAlloc(idx[0]); ok {
		return
	}
	i := strings.LastIndexByte(mutex, '.')
	ref := App("sub:"+mutex[:i]+"."+mutex[i+1:], SInt, idx[0])
	h := x.heapGet(st, "lock", arrSort(SInt, SInt))
	held := Select(h, ref)
	goal := Not(Eq(held, Int(0)))
	what := "read"
	if write {
		goal = Eq(held, Int(1))
		what = "write"
	}
	x.oblige(st, "guarded", fmt.Sprintf("%s of %s under %s", what, shortName(pre), shortName(mutex)), x.pos(in), Or(goal, Lt(x.abase0, rootOf(idx[0]))))
}

// checkGuardMap does the same for the contents of a guarded map.
func (x *Exec) checkGuardMap(fr *Frame, st *State, m ssa.Value, in ssa.Instruction, write bool) {
	if !x.guardOn {
		return
	}
	u, ok := m.(*ssa.UnOp)
	if !ok {
		return
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return
	}
	l, ok := fr.env[fa].(*Loc)
	if !ok {
		return
	}
	if g, ok := x.p.guards[l.pre]; ok {
		x.guardObl(st, l.pre, g, l.idx, in, write)
	}
}
