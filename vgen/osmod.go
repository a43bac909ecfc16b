package main

import (
	"go/ast"
	"go/types"
)

// Files: a map from paths to contents. Every operation may fail; a write that
// fails leaves any content behind. Compiled scripts: goja.Compile either fails,
// for the texts it fails for, or makes a program of the text.

const fsHas, fsVal = "gs:fs:has", "gs:fs:val"

func init() {
	ghostHeapTab["fs"] = map[string]Sort{fsHas: arrSort(SStr, SBool), fsVal: arrSort(SStr, SStr)}
	has := func(x *Exec, st *State) *Term { return x.heapGet(st, fsHas, arrSort(SStr, SBool)) }
	val := func(x *Exec, st *State) *Term { return x.heapGet(st, fsVal, arrSort(SStr, SStr)) }
	put := func(x *Exec, st *State, p, h, v *Term) {
		x.heapSet(st, fsHas, Store(has(x, st), p, h), []*Term{p})
		if v != nil {
			x.heapSet(st, fsVal, Store(val(x, st), p, v), []*Term{p})
		}
	}
	extIntrinsics["fsHas"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		return Select(has(e.x, e.st), e.eval(a.Args[0]).(*Term))
	}
	extIntrinsics["fsVal"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		return Select(val(e.x, e.st), e.eval(a.Args[0]).(*Term))
	}
	extIntrinsics["dec"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		return e.x.dec(e.st, e.eval(a.Args[0]).(*Term))
	}
	extIntrinsics["pathJoin"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		return joinPath(e.x, e.st, e.eval(a.Args[0]).(*Term), e.eval(a.Args[1]).(*Term))
	}
	models["os.ReadFile"] = func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		p := term(c.args[0])
		x.slenFact(st, Select(val(x, st), p))
		none, other := st.clone(), st.clone()
		x.assume(none, Not(Select(has(x, none), p)))
		k(none, []Val{zeroVal(c.resType(0)), errNamed("os.ErrNotExist")})
		k(other, []Val{zeroVal(c.resType(0)), otherErr(x, other, "os.ErrNotExist")})
		x.assume(st, Select(has(x, st), p))
		k(st, []Val{x.newBytes(st, Select(val(x, st), p)), zeroVal(c.resType(1))})
	}
	models["os.IsNotExist"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		a := x.flat(st, c.args[0], c.sig.Params().At(0).Type())
		b := errNamed("os.ErrNotExist")
		r := App("errorsIs", SBool, a[0], a[1], b.t, b.p)
		x.fact(st, Implies(And(Eq(a[0], b.t), Eq(a[1], b.p)), r))
		x.fact(st, Implies(Eq(a[0], Int(0)), Not(r)))
		return []Val{r}
	})
	models["os.WriteFile"] = func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		p, d := term(c.args[0]), x.bytesOf(st, c.args[1].(*SliceV))
		s := st.clone()
		put(x, s, p, Fresh("has", SBool), Fresh("part", SStr))
		k(s, []Val{otherErr(x, s)})
		put(x, st, p, True, d)
		k(st, []Val{zeroVal(c.resType(0))})
	}
	name := func(x *Exec, st *State, f *Term) *Term {
		n := App("file:name", SStr, f)
		x.slenFact(st, n)
		return n
	}
	models["os.CreateTemp"] = func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		s := st.clone()
		k(s, []Val{Int(0), otherErr(x, s)})
		r := x.newRef(st)
		n := name(x, st, r)
		x.assume(st, Not(Select(has(x, st), n)))
		if pat := term(c.args[1]); pat.op == "str" && len(pat.name) > 0 && (pat.name[0] < '0' || pat.name[0] > '9') && pat.name[0] != '*' {
			// its name does not start with a digit
			x.assume(st, Not(App("path:number", SBool, n)))
		}
		put(x, st, n, True, StrLit(""))
		k(st, []Val{r, zeroVal(c.resType(1))})
	}
	of := "(*os.File)."
	models[of+"Name"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val { return []Val{name(x, st, term(c.args[0]))} })
	models[of+"Write"] = func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		n, d := name(x, st, term(c.args[0])), x.bytesOf(st, c.args[1].(*SliceV))
		s := st.clone()
		put(x, s, n, Fresh("has", SBool), Fresh("part", SStr))
		k(s, []Val{Fresh("n", SInt), otherErr(x, s)})
		put(x, st, n, Select(has(x, st), n), Cat(Select(val(x, st), n), d))
		k(st, []Val{c.args[1].(*SliceV).n, zeroVal(c.resType(1))})
	}
	mayFail := func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		s := st.clone()
		k(s, []Val{otherErr(x, s)})
		k(st, []Val{zeroVal(c.resType(0))})
	}
	models[of+"Close"] = mayFail
	models[of+"Sync"] = mayFail
	models["os.Rename"] = func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		a, b := term(c.args[0]), term(c.args[1])
		s := st.clone()
		k(s, []Val{otherErr(x, s)})
		h, v := Select(has(x, st), a), Select(val(x, st), a)
		x.assume(st, h)
		put(x, st, a, False, nil)
		put(x, st, b, True, v)
		k(st, []Val{zeroVal(c.resType(0))})
	}
	models["os.Remove"] = func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		s := st.clone()
		k(s, []Val{otherErr(x, s)})
		put(x, st, term(c.args[0]), False, nil)
		k(st, []Val{zeroVal(c.resType(0))})
	}
	models["path/filepath.Dir"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		r := App("path:dir", SStr, term(c.args[0]))
		x.slenFact(st, r)
		return []Val{r}
	})
	models["fmt.Sprint"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		s := c.args[0].(*SliceV)
		if !s.n.isInt() || s.n.i64() != 1 {
			x.fail("fmt.Sprint of several values")
		}
		return []Val{x.format(st, c, StrLit("%d"), s)}
	})
	// programs
	models["github.com/dop251/goja.Compile"] = func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		ok := App("goja:ok", SBool, term(c.args[0]), term(c.args[1]), x.flat(st, c.args[2], types.Typ[types.Bool])[0])
		s := st.clone()
		x.assume(s, Not(ok))
		k(s, []Val{Int(0), otherErr(x, s)})
		x.assume(st, ok)
		r := x.newRef(st)
		x.fact(st, And(Eq(App("goja:name", SStr, r), term(c.args[0])), Eq(App("goja:src", SStr, r), term(c.args[1])), Eq(App("goja:strict", SBool, r), c.args[2].(*Term))))
		k(st, []Val{r, zeroVal(c.resType(1))})
	}
	extIntrinsics["cacheOf"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		h := e.eval(a.Args[0]).(*Term)
		return Eq(Select(e.x.heapGet(e.st, "gs:cache:t", arrSort(SInt, SInt)), h), Int(typeTag(ta)))
	}
	extIntrinsics["cacheAt"] = func(e *specEnv, ta types.Type, a *ast.CallExpr) Val {
		h := e.eval(a.Args[0]).(*Term)
		return Select(e.x.heapGet(e.st, "gs:cache:p", arrSort(SInt, SInt)), h)
	}
}

// joinPath: entries of one directory with different numbers for names differ.
func joinPath(x *Exec, st *State, a, b *Term) *Term {
	r := App("join2", SStr, a, b)
	u, v := BVar("a", SStr), BVar("b", SStr)
	j := App("join2", SStr, u, v)
	_ = v
	n := BVar("n", SInt)
	d := x.dec(st, Int(0))
	if d.op == "app" {
		d = App(d.name, SStr, n)
		j = App("join2", SStr, u, d)
		addAxiom("join2", "number", Forall([]*Term{u, n}, And(Eq(App("path:base", SInt, j), n), App("path:number", SBool, j)), []*Term{j}))
	}
	x.slenFact(st, r)
	return r
}
