package main

import "go/types"

// Bitmap databases: bit (row, column) of a view of the database at a path is
// an unknown predicate. A row filter calls back for every row that has the bits
// of all its column filters.

type rowFilterV struct {
	cb Val
	fs *SliceV
}

const (
	rbfP = "github.com/gernest/rbf."
	roaP = "github.com/gernest/roaring."
)

func rbfBit(path, view, row, col *Term) *Term { return App("rbf:bit", SBool, path, view, row, col) }

func init() {
	models[rbfP+"NewDB"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		r := x.newRef(st)
		x.fact(st, Eq(App("rbf:path", SStr, r), term(c.args[0])))
		return []Val{r}
	})
	db, tx := "(*github.com/gernest/rbf.DB).", "(*github.com/gernest/rbf.Tx)."
	models[db+"Open"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		e := x.freshVal(st, "open", c.resType(0))
		x.heapSet(st, kvFail, Ite(Eq(x.flat(st, e, c.resType(0))[0], Int(0)), x.heapGet(st, kvFail, SInt), Int(1)), nil)
		return []Val{e}
	})
	models[db+"Close"] = models[db+"Open"]
	models[db+"Begin"] = func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		if x.panics {
			x.oblige(st, "nil", "database is open", x.pos(c.site), Not(Eq(term(c.args[0]), Int(0))))
		}
		s2 := st.clone()
		r := x.newRef(st)
		x.fact(st, Eq(App("rbf:db", SInt, r), term(c.args[0])))
		k(st, []Val{r, zeroVal(c.resType(1))})
		kvSetFailed(x, s2)
		k(s2, []Val{Int(0), freshErr(x, s2)})
	}
	models[tx+"Rollback"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val { return nil })
	models[roaP+"NewBitmapColumnFilter"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		r := x.newRef(st)
		x.fact(st, Eq(App("rbf:col", SInt, r), Mod(term(c.args[0]), Int(1<<20))))
		return []Val{&IfaceV{t: Int(typeTag(types.Typ[types.Uint16])), p: r}}
	})
	models[roaP+"NewBitmapRowFilter"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		s := c.args[1].(*SliceV)
		return []Val{&IfaceV{ct: types.Typ[types.UnsafePointer], cv: &rowFilterV{c.args[0], s}}}
	})
	models[tx+"ApplyFilter"] = func(x *Exec, fr *Frame, st *State, c *callInfo, k Cont) {
		iv, ok := c.args[3].(*IfaceV)
		var rf *rowFilterV
		if ok && iv.ct != nil {
			rf, _ = iv.cv.(*rowFilterV)
		}
		if rf == nil {
			x.fail("filter of unknown kind")
		}
		if n, ok := c.args[2].(*Term); !ok || !n.isInt() || n.i64() != 0 {
			x.fail("filter does not start at the first container")
		}
		cb, ok := rf.cb.(*FuncV)
		if !ok {
			x.fail("callback of a row filter is not known")
		}
		path := App("rbf:path", SStr, App("rbf:db", SInt, term(c.args[0])))
		view := term(c.args[1])
		match := func(u *Term) *Term {
			i := BVar("i", SInt)
			f := x.flat(st, x.load(st, elemLoc(rf.fs.elem, rf.fs.a, i)), rf.fs.elem)
			return Forall([]*Term{i}, Implies(And(Le(Int(0), i), Lt(i, rf.fs.n)), rbfBit(path, view, u, App("rbf:col", SInt, f[1]))), []*Term{f[1]})
		}
		// one call for an arbitrary row
		u := Fresh("row", SInt)
		s1 := st.clone()
		x.fact(s1, And(Le(Int(0), u), Lt(u, pow2(64))))
		type exit struct {
			st  *State
			res []Val
		}
		var exits []exit
		x.callFunc(fr, s1, cb, []Val{u}, c.site, func(s *State, res []Val) { exits = append(exits, exit{s, res}) })
		if len(exits) != 1 {
			x.fail("callback of a row filter branches")
		}
		e := exits[0]
		if ts := x.flat(e.st, e.res[0], types.Universe.Lookup("error").Type()); !ts[0].isInt() || ts[0].i64() != 0 {
			x.fail("callback of a row filter fails")
		}
		var heap string
		for _, n := range sortedKeys(e.st.heaps) {
			if e.st.heaps[n] != x.heapGet(st, n, e.st.heaps[n].sort) {
				if heap != "" {
					x.fail("callback of a row filter changes %s and %s", heap, n)
				}
				heap = n
			}
		}
		if heap != "" {
			old, now := st.heaps[heap], e.st.heaps[heap]
			if now.op != "store" || Store(old, now.args[1], now.args[2]) != now {
				x.fail("callback of a row filter does more than adding the row")
			}
			ref := now.args[1]
			was := Select(old, ref)
			if was.sort != SSet || now.args[2] != Store(was, u, True) {
				x.fail("callback of a row filter does more than adding the row")
			}
			ns := Fresh("rows", SSet)
			b := BVar("u", SInt)
			sel := mk("select", "", SBool, []*Term{ns, b}, nil, nil)
			x.heapSet(st, heap, Store(old, ref, ns), []*Term{ref})
			s2 := st.clone()
			x.fact(st, Forall([]*Term{b}, Eq(sel, Or(mk("select", "", SBool, []*Term{was, b}, nil, nil), And(Le(Int(0), b), match(b)))), []*Term{sel}))
			k(st, []Val{zeroVal(c.resType(0))})
			kvSetFailed(x, s2)
			k(s2, []Val{freshErr(x, s2)})
			return
		}
		s2 := st.clone()
		k(st, []Val{zeroVal(c.resType(0))})
		kvSetFailed(x, s2)
		k(s2, []Val{freshErr(x, s2)})
	}
	// ---- slices.Grow
	models["slices.Grow"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		s := c.args[0].(*SliceV)
		if s.o != nil {
			return []Val{s}
		}
		n := term(c.args[1])
		r := x.newRef(st)
		for _, p := range elemPaths(s.elem) {
			h := x.heapGet(st, p.suf, heapSort(p.sort, 2))
			x.heapSet(st, p.suf, Store(h, r, Select(h, s.a)), []*Term{r})
		}
		q := Fresh("cap", SInt)
		x.fact(st, And(Le(Add(s.n, n), q), Le(q, pow2(62))))
		fits := Le(n, Sub(s.c, s.n))
		return []Val{&SliceV{elem: s.elem, a: Ite(fits, s.a, r), n: s.n, c: Ite(fits, s.c, q)}}
	})
	// ---- files
	models["os.Stat"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		// the error says that there is no file exactly when there is none
		e := x.freshVal(st, "stat", c.resType(1)).(*IfaceV)
		ts := x.flat(st, e, c.resType(1))
		p := term(c.args[0])
		x.fact(st, Implies(Eq(ts[0], Int(0)), App("os:exists", SBool, p)))
		b := errNamed("os.ErrNotExist")
		x.fact(st, Eq(App("errorsIs", SBool, ts[0], ts[1], b.t, b.p), Not(App("os:exists", SBool, p))))
		x.fact(st, Not(And(Eq(ts[0], Int(0)), Not(App("os:exists", SBool, p)))))
		x.heapSet(st, kvFail, Ite(App("os:exists", SBool, p), Ite(Eq(ts[0], Int(0)), x.heapGet(st, kvFail, SInt), Int(1)), x.heapGet(st, kvFail, SInt)), nil)
		return []Val{x.freshVal(st, "info", c.resType(0)), e}
	})
	models["path/filepath.Join"] = pureModel(func(x *Exec, st *State, c *callInfo) []Val {
		s := c.args[0].(*SliceV)
		if !s.n.isInt() {
			x.fail("filepath.Join of an unknown list")
		}
		var as []*Term
		for i := int64(0); i < s.n.i64(); i++ {
			as = append(as, term(x.load(st, elemLoc(s.elem, s.a, Int(i)))))
		}
		if len(as) == 2 {
			return []Val{joinPath(x, st, as[0], as[1])}
		}
		r := App("join"+itoa(len(as)), SStr, as...)
		x.slenFact(st, r)
		return []Val{r}
	})
}
