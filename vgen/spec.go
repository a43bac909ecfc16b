package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type exprT = ast.Expr

// specEnv is the context a specification expression is evaluated in.
type specEnv struct {
	x         *Exec
	st, old   *State
	vars      map[types.Object]Val
	lets      []map[types.Object]exprT
	info      *types.Info
	fr        *Frame
	head      *ssa.BasicBlock
	seen      *Term
	inOld     bool
	poolGet   bool
	loopEntry *State
	loopInits map[*ssa.Phi]Val
	poolPut   bool
	depth     int
}

func (x *Exec) specEnvRoot(st *State) *specEnv {
	e := &specEnv{x: x, st: st, old: x.entry, vars: map[types.Object]Val{}, info: x.c.pkg.TypesInfo, lets: []map[types.Object]exprT{x.c.lets}}
	for k, v := range x.params {
		e.vars[k] = v
	}
	return e
}

func (e *specEnv) with() *specEnv {
	n := *e
	n.vars = make(map[types.Object]Val, len(e.vars)+4)
	for k, v := range e.vars {
		n.vars[k] = v
	}
	n.lets = append([]map[types.Object]exprT{}, e.lets...)
	n.depth++
	if n.depth > 60 {
		e.x.fail("specification is too deep")
	}
	return &n
}

func (x *Exec) evalClause(env *specEnv, c *Clause) *Term {
	env.info = c.c.pkg.TypesInfo
	x.pure++
	defer func() { x.pure-- }()
	v := env.eval(c.expr)
	t, ok := v.(*Term)
	if !ok || t.sort != SBool {
		x.fail("clause %s of %s is not boolean", c.label, c.c.name)
	}
	return t
}

func (e *specEnv) typ(x ast.Expr) types.Type { return e.info.Types[x].Type }

func (e *specEnv) boolOf(a ast.Expr) *Term { return e.eval(a).(*Term) }

func (e *specEnv) eval(a ast.Expr) Val {
	x := e.x
	tv := e.info.Types[a]
	if tv.Value != nil && tv.Type != nil {
		if _, ok := under(tv.Type).(*types.Basic); ok {
			return constOf(tv.Value, tv.Type)
		}
	}
	switch a := a.(type) {
	case *ast.ParenExpr:
		return e.eval(a.X)
	case *ast.Ident:
		return e.ident(a)
	case *ast.UnaryExpr:
		switch a.Op {
		case token.NOT:
			return Not(e.boolOf(a.X))
		case token.SUB:
			return Sub(Int(0), e.eval(a.X).(*Term))
		case token.AND:
			l := e.loc(a.X)
			return locVal(l)
		}
	case *ast.BinaryExpr:
		return e.binary(a)
	case *ast.SelectorExpr:
		return e.selector(a)
	case *ast.StarExpr:
		p := e.eval(a.X)
		t := elemOfPtr(e.typ(a.X))
		return x.load(e.st, e.ptr(p, t))
	case *ast.IndexExpr:
		if tv, ok := e.info.Types[a.Index]; ok && tv.IsType() {
			x.fail("generic function value in specification")
		}
		v := e.eval(a.X)
		switch u := under(e.typ(a.X)).(type) {
		case *types.Slice:
			s := v.(*SliceV)
			i := e.eval(a.Index).(*Term)
			if s.o != nil {
				return x.load(e.st, &Loc{pre: "bmem", idx: []*Term{s.a}, typ: u.Elem(), bytePos: Add(s.o, i)})
			}
			return x.load(e.st, elemLoc(u.Elem(), s.a, i))
		case *types.Map:
			k := x.mapKey(e.st, u, e.eval(a.Index))
			val := x.mapGet(e.st, v.(*Term), u, k)
			return val
		case *types.Basic:
			return strByte(v.(*Term), e.eval(a.Index).(*Term))
		case *types.Array:
			if isByte(u.Elem()) {
				return strByte(v.(*Term), e.eval(a.Index).(*Term))
			}
			return unflat(u.Elem(), []*Term{Select(v.(*Term), e.eval(a.Index).(*Term))})
		case *types.Pointer:
			ar := under(u.Elem()).(*types.Array)
			l := elemLoc(ar.Elem(), v.(*Term), e.eval(a.Index).(*Term))
			return x.load(e.st, l)
		}
	case *ast.SliceExpr:
		v := e.eval(a.X)
		get := func(i ast.Expr) *Term {
			if i == nil {
				return nil
			}
			return e.eval(i).(*Term)
		}
		lo, hi := get(a.Low), get(a.High)
		if lo == nil {
			lo = Int(0)
		}
		switch w := v.(type) {
		case *Term:
			if hi == nil {
				hi = Slen(w)
			}
			return substr(w, lo, hi)
		case *SliceV:
			if hi == nil {
				hi = w.n
			}
			if w.o != nil {
				return &SliceV{elem: w.elem, a: w.a, o: Add(w.o, lo), n: Sub(hi, lo), c: Sub(w.c, lo)}
			}
		}
	case *ast.CallExpr:
		return e.call(a)
	case *ast.TypeAssertExpr:
		iv := e.eval(a.X).(*IfaceV)
		t := e.typ(a)
		if iv.ct != nil && types.Identical(iv.ct, t) {
			return iv.cv
		}
		ts := x.flat(e.st, iv, e.typ(a.X))
		return x.unboxVal(e.st, ts[1], t)
	case *ast.CompositeLit:
		t := e.typ(a)
		switch u := under(t).(type) {
		case *types.Struct:
			v := zeroVal(t)
			s, ok := v.(*StructV)
			if !ok {
				break
			}
			for i, el := range a.Elts {
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					for j := 0; j < u.NumFields(); j++ {
						if u.Field(j).Name() == kv.Key.(*ast.Ident).Name {
							s.fs[j] = e.conv(kv.Value, u.Field(j).Type())
						}
					}
				} else {
					s.fs[i] = e.conv(el, u.Field(i).Type())
				}
			}
			return s
		}
	case *ast.FuncLit:
		x.fail("function literal in specification")
	}
	x.fail("specification expression %T is not supported", a)
	return nil
}

// conv evaluates a with an implicit conversion to t.
func (e *specEnv) conv(a ast.Expr, t types.Type) Val {
	if id, ok := a.(*ast.Ident); ok && id.Name == "nil" && e.info.Uses[id] == types.Universe.Lookup("nil") {
		return zeroVal(t)
	}
	v := e.eval(a)
	at := e.typ(a)
	if types.IsInterface(t) && at != nil && !types.IsInterface(at) {
		if _, ok := v.(*IfaceV); !ok {
			return &IfaceV{ct: at, cv: v}
		}
	}
	return v
}

func (e *specEnv) ident(a *ast.Ident) Val {
	x := e.x
	o := e.info.Uses[a]
	if o == nil {
		o = e.info.Defs[a]
	}
	if v, ok := e.vars[o]; ok {
		return v
	}
	for i := len(e.lets) - 1; i >= 0; i-- {
		if l, ok := e.lets[i][o]; ok {
			return e.eval(l)
		}
	}
	switch o := o.(type) {
	case *types.Nil:
		t := e.typ(a)
		if t == nil || t == types.Typ[types.UntypedNil] {
			return Int(0)
		}
		return zeroVal(t)
	case *types.Var:
		if o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
			return e.global(o)
		}
		x.fail("specification variable %s has no value here", o.Name())
	case *types.Func:
		if f := x.p.prog.FuncValue(o); f != nil {
			return &FuncV{fn: f}
		}
	}
	x.fail("identifier %s in specification", a.Name)
	return nil
}

func (e *specEnv) global(o *types.Var) Val {
	x := e.x
	sp := x.p.prog.Package(o.Pkg())
	if sp == nil {
		x.fail("global %s", o.Name())
	}
	g := sp.Var(o.Name())
	t := o.Type()
	if v := x.constGlobal(e.st, g, t); v != nil {
		return v
	}
	av := x.globalAddr(g)
	if l, ok := av.(*Loc); ok {
		return x.load(e.st, l)
	}
	return x.load(e.st, refLoc(t, av.(*Term)))
}

func (e *specEnv) ptr(p Val, t types.Type) *Loc {
	switch w := p.(type) {
	case *Loc:
		return w
	case *Term:
		return refLoc(t, w)
	}
	e.x.fail("pointer %T in specification", p)
	return nil
}

// loc evaluates an addressable expression.
func (e *specEnv) loc(a ast.Expr) *Loc {
	x := e.x
	switch a := a.(type) {
	case *ast.ParenExpr:
		return e.loc(a.X)
	case *ast.StarExpr:
		return e.ptr(e.eval(a.X), elemOfPtr(e.typ(a.X)))
	case *ast.Ident:
		if o, ok := e.info.Uses[a].(*types.Var); ok && o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
			sp := x.p.prog.Package(o.Pkg())
			av := x.globalAddr(sp.Var(o.Name()))
			if l, ok := av.(*Loc); ok {
				return l
			}
			return refLoc(o.Type(), av.(*Term))
		}
	case *ast.SelectorExpr:
		if sel, ok := e.info.Selections[a]; ok && sel.Kind() == types.FieldVal {
			var l *Loc
			t := e.typ(a.X)
			if pt, ok := under(t).(*types.Pointer); ok {
				l = e.ptr(e.eval(a.X), pt.Elem())
			} else {
				l = e.loc(a.X)
			}
			for n, i := range sel.Index() {
				if n > 0 {
					if pt, ok := under(l.typ).(*types.Pointer); ok {
						l = e.ptr(x.load(e.st, l), pt.Elem())
					}
				}
				l = fieldLoc(l, i)
			}
			return l
		}
	case *ast.IndexExpr:
		if s, ok := under(e.typ(a.X)).(*types.Slice); ok {
			v := e.eval(a.X).(*SliceV)
			return elemLoc(s.Elem(), v.a, e.eval(a.Index).(*Term))
		}
	}
	x.fail("not addressable in specification: %T", a)
	return nil
}

func (e *specEnv) selector(a *ast.SelectorExpr) Val {
	x := e.x
	sel, ok := e.info.Selections[a]
	if !ok {
		// package qualified
		switch o := e.info.Uses[a.Sel].(type) {
		case *types.Var:
			return e.global(o)
		case *types.Func:
			if f := x.p.prog.FuncValue(o); f != nil {
				return &FuncV{fn: f}
			}
		}
		x.fail("selector %s", a.Sel.Name)
	}
	if sel.Kind() != types.FieldVal {
		x.fail("method value in specification")
	}
	v := e.eval(a.X)
	t := e.typ(a.X)
	for _, i := range sel.Index() {
		if pt, ok := under(t).(*types.Pointer); ok {
			l := fieldLoc(e.ptr(v, pt.Elem()), i)
			t = l.typ
			v = x.load(e.st, l)
			continue
		}
		s := v.(*StructV)
		v = s.fs[i]
		t = under(t).(*types.Struct).Field(i).Type()
	}
	return v
}

func (e *specEnv) binary(a *ast.BinaryExpr) Val {
	x := e.x
	switch a.Op {
	case token.LAND:
		l := e.boolOf(a.X)
		if l == False {
			return False
		}
		return And(l, e.boolOf(a.Y))
	case token.LOR:
		l := e.boolOf(a.X)
		if l == True {
			return True
		}
		return Or(l, e.boolOf(a.Y))
	case token.EQL, token.NEQ:
		xt, yt := e.typ(a.X), e.typ(a.Y)
		isNil := func(y ast.Expr) bool {
			if p, ok := y.(*ast.ParenExpr); ok {
				y = p.X
			}
			id, ok := y.(*ast.Ident)
			return ok && e.info.Uses[id] == types.Universe.Lookup("nil")
		}
		var r *Term
		switch {
		case isNil(a.Y):
			r = x.eqVal(e.st, e.eval(a.X), zeroVal(xt), xt)
		case isNil(a.X):
			r = x.eqVal(e.st, e.eval(a.Y), zeroVal(yt), yt)
		default:
			l, rr := e.eval(a.X), e.eval(a.Y)
			r = x.binopV(e.st, token.EQL, l, rr, xt, yt, types.Typ[types.Bool], nil).(*Term)
		}
		if a.Op == token.NEQ {
			return Not(r)
		}
		return r
	}
	l, r := e.eval(a.X), e.eval(a.Y)
	lt, ok := l.(*Term)
	rt, ok2 := r.(*Term)
	if ok && ok2 && lt.sort == SInt && rt.sort == SInt {
		switch a.Op {
		case token.ADD:
			return Add(lt, rt)
		case token.SUB:
			return Sub(lt, rt)
		case token.MUL:
			return Mul(lt, rt)
		case token.QUO:
			if rt.isInt() {
				return Div(lt, rt)
			}
		case token.REM:
			if rt.isInt() {
				return Mod(lt, rt)
			}
		}
	}
	return x.binopV(e.st, a.Op, l, r, e.typ(a.X), e.typ(a.Y), e.typ(a), nil)
}

func (e *specEnv) vfIntrinsic(f ast.Expr) (string, types.Type) {
	switch g := f.(type) {
	case *ast.Ident:
		if o := e.info.Uses[g]; o != nil && o.Pkg() != nil && o.Pkg().Path() == vfPath {
			return strings.ToLower(o.Name()[:1]) + o.Name()[1:], nil
		}
	case *ast.SelectorExpr:
		return e.vfIntrinsic(g.Sel)
	case *ast.IndexExpr:
		n, _ := e.vfIntrinsic(g.X)
		if n != "" {
			return n, e.info.Types[g.Index].Type
		}
	case *ast.IndexListExpr:
		n, _ := e.vfIntrinsic(g.X)
		return n, nil
	case *ast.ParenExpr:
		return e.vfIntrinsic(g.X)
	}
	return "", nil
}

func (e *specEnv) quantifier(univ bool, a ast.Expr) Val {
	x := e.x
	fl, ok := a.(*ast.FuncLit)
	if !ok {
		x.fail("quantifier needs a function literal")
	}
	n := e.with()
	var bs []*Term
	guard := True
	for _, f := range fl.Type.Params.List {
		for _, nm := range f.Names {
			o := e.info.Defs[nm]
			t := o.Type()
			cs := comps(t)
			if len(cs) != 1 {
				x.fail("quantified variable of type %s", t)
			}
			b := BVar(nm.Name, cs[0].sort)
			bs = append(bs, b)
			n.vars[o] = unflat(t, []*Term{b})
			if bt, ok := under(t).(*types.Basic); ok && bt.Info()&types.IsInteger != 0 && bt.Kind() != types.Int {
				lo, hi, _ := intRange(t)
				guard = And(guard, Le(lo, b), Le(b, hi))
			}
		}
	}
	var pats [][]*Term
	lets := map[types.Object]exprT{}
	n.lets = append(n.lets, lets)
	var body *Term
	for _, s := range fl.Body.List {
		switch s := s.(type) {
		case *ast.ExprStmt:
			c := s.X.(*ast.CallExpr)
			if nm, _ := n.vfIntrinsic(c.Fun); nm == "trig" {
				var p []*Term
				for _, q := range c.Args {
					v := n.eval(q)
					ts := x.flat(n.st, v, n.typ(q))
					t := ts[0]
					if t.op == "and" {
						// membership in a map that may be nil
						for _, a := range t.args {
							if a.op == "select" {
								t = a
							}
						}
					}
					p = append(p, t)
				}
				pats = append(pats, p)
			}
		case *ast.AssignStmt:
			for i, l := range s.Lhs {
				lets[e.info.Defs[l.(*ast.Ident)]] = s.Rhs[i]
			}
		case *ast.ReturnStmt:
			body = n.boolOf(s.Results[0])
		}
	}
	if body == nil {
		x.fail("quantifier without body")
	}
	if univ {
		return Forall(bs, Implies(guard, body), pats...)
	}
	return Exists(bs, And(guard, body))
}

func (e *specEnv) call(a *ast.CallExpr) Val {
	x := e.x
	// conversions
	if tv := e.info.Types[a.Fun]; tv.IsType() {
		from := e.typ(a.Args[0])
		if types.IsInterface(tv.Type) {
			return e.conv(a.Args[0], tv.Type)
		}
		v := e.eval(a.Args[0])
		if sv, ok := v.(*StructV); ok && !isTime(sv.typ) {
			return &StructV{tv.Type, sv.fs}
		}
		return x.convert(e.st, v, from, tv.Type)
	}
	if n, ta := e.vfIntrinsic(a.Fun); n != "" {
		return e.intrinsic(n, ta, a)
	}
	if id, ok := a.Fun.(*ast.Ident); ok {
		if b, ok := e.info.Uses[id].(*types.Builtin); ok {
			v := e.eval(a.Args[0])
			switch b.Name() {
			case "len":
				switch w := v.(type) {
				case *SliceV:
					return w.n
				case *Term:
					switch u := under(e.typ(a.Args[0])).(type) {
					case *types.Map:
						return x.mapLen(e.st, w, u)
					case *types.Array:
						return Int(u.Len())
					}
					if len(w.bound) == 0 {
						x.slenFact(e.st, w)
					}
					return Slen(w)
				}
			case "cap":
				return v.(*SliceV).c
			}
			x.fail("builtin %s in specification", b.Name())
		}
	}
	// macros, ghosts, real functions
	var fo *types.Func
	var recv ast.Expr
	var sel *types.Selection
	switch f := a.Fun.(type) {
	case *ast.Ident:
		fo, _ = e.info.Uses[f].(*types.Func)
	case *ast.SelectorExpr:
		if s, ok := e.info.Selections[f]; ok {
			fo, _ = s.Obj().(*types.Func)
			recv = f.X
			sel = s
		} else {
			fo, _ = e.info.Uses[f.Sel].(*types.Func)
		}
	}
	if fo == nil {
		// a function value
		fv := e.eval(a.Fun)
		sig := under(e.typ(a.Fun)).(*types.Signature)
		var args []Val
		for i, q := range a.Args {
			args = append(args, e.conv(q, sig.Params().At(i).Type()))
		}
		if f, ok := fv.(*FuncV); ok {
			return e.run(f, args, sig)
		}
		r := x.applyPure(e.st, fv.(*Term), sig, args)
		return r[0]
	}
	sig := fo.Type().(*types.Signature)
	var args []Val
	if fd, ok := x.p.macros[fo]; ok && recv == nil {
		return e.macro(fo, fd, a, sig)
	}
	if x.p.ghosts[fo] {
		var ts []*Term
		for i, q := range a.Args {
			v := e.conv(q, sig.Params().At(i).Type())
			if s, ok := v.(*SliceV); ok {
				if s.o != nil {
					ts = append(ts, x.bytesOf(e.st, s))
				} else {
					ts = append(ts, s.a, s.n)
				}
				continue
			}
			ts = append(ts, x.flat(e.st, v, sig.Params().At(i).Type())...)
		}
		rt := sig.Results().At(0).Type()
		var out []*Term
		for _, c := range comps(rt) {
			out = append(out, App("g:"+fo.Name()+c.suf, c.sort, ts...))
		}
		return unflat(rt, out)
	}
	var recvV Val
	if recv != nil {
		recvV = e.recvValue(recv, sel, fo)
	}
	for i, q := range a.Args {
		pt := types.Type(nil)
		if i < sig.Params().Len() {
			pt = sig.Params().At(i).Type()
		}
		if sig.Variadic() && i >= sig.Params().Len()-1 {
			x.fail("variadic call in specification")
		}
		args = append(args, e.conv(q, pt))
	}
	if iv, ok := recvV.(*IfaceV); ok && types.IsInterface(sel.Recv()) {
		f, as := x.invoke(nil, e.st, iv, fo, sel.Recv(), args, nil)
		return e.run(f.(*FuncV), as, sig)
	}
	if recv != nil {
		args = append([]Val{recvV}, args...)
	}
	fn := x.p.prog.FuncValue(fo)
	if fn == nil {
		// a function of a package without syntax
		x.fail("function %s in specification", fo.FullName())
	}
	return e.run(&FuncV{fn: fn}, args, sig)
}

func (e *specEnv) recvValue(recv ast.Expr, sel *types.Selection, fo *types.Func) Val {
	x := e.x
	idx := sel.Index()
	t := e.typ(recv)
	want := fo.Type().(*types.Signature).Recv().Type()
	_, wantPtr := types.Unalias(want).(*types.Pointer)
	if len(idx) == 1 {
		_, isPtr := under(t).(*types.Pointer)
		if types.IsInterface(t) {
			return e.eval(recv)
		}
		if wantPtr && !isPtr {
			return locVal(e.loc(recv))
		}
		v := e.eval(recv)
		if !wantPtr && isPtr {
			return x.load(e.st, e.ptr(v, elemOfPtr(t)))
		}
		return v
	}
	// promoted through embedded fields
	var l *Loc
	if pt, ok := under(t).(*types.Pointer); ok {
		l = e.ptr(e.eval(recv), pt.Elem())
	} else {
		l = e.loc(recv)
	}
	for _, i := range idx[:len(idx)-1] {
		if pt, ok := under(l.typ).(*types.Pointer); ok {
			l = e.ptr(x.load(e.st, l), pt.Elem())
		}
		l = fieldLoc(l, i)
	}
	if types.IsInterface(l.typ) {
		return x.load(e.st, l)
	}
	if _, isPtr := under(l.typ).(*types.Pointer); isPtr {
		v := x.load(e.st, l)
		if wantPtr {
			return v
		}
		return x.load(e.st, e.ptr(v, elemOfPtr(l.typ)))
	}
	if wantPtr {
		return locVal(l)
	}
	return x.load(e.st, l)
}

func (e *specEnv) macro(fo *types.Func, fd *ast.FuncDecl, a *ast.CallExpr, sig *types.Signature) Val {
	x := e.x
	n := e.with()
	n.info = x.p.pkgOf[fo].TypesInfo
	ps := paramObjs(n.info, fd)
	for i, q := range a.Args {
		n.vars[ps[i]] = e.conv(q, sig.Params().At(i).Type())
	}
	lets := map[types.Object]exprT{}
	n.lets = append(n.lets, lets)
	return n.block(fd.Body.List, lets)
}

// block evaluates the statements of a macro: definitions, ifs and returns.
func (n *specEnv) block(list []ast.Stmt, lets map[types.Object]exprT) Val {
	x := n.x
	for i, s := range list {
		switch s := s.(type) {
		case *ast.AssignStmt:
			for i, l := range s.Lhs {
				n.vars[n.info.Defs[l.(*ast.Ident)]] = n.eval(s.Rhs[i])
			}
		case *ast.ReturnStmt:
			return n.eval(s.Results[0])
		case *ast.IfStmt:
			c := n.boolOf(s.Cond)
			if c == True {
				return n.block(append(append([]ast.Stmt{}, s.Body.List...), list[i+1:]...), lets)
			}
			var rest []ast.Stmt
			if s.Else != nil {
				if b, ok := s.Else.(*ast.BlockStmt); ok {
					rest = b.List
				} else {
					rest = []ast.Stmt{s.Else}
				}
			}
			rest = append(append([]ast.Stmt{}, rest...), list[i+1:]...)
			if c == False {
				return n.block(rest, lets)
			}
			r, ok := s.Body.List[len(s.Body.List)-1].(*ast.ReturnStmt)
			if !ok {
				x.fail("if without return in a specification function")
			}
			va := n.block(s.Body.List, lets)
			vb := n.block(rest, lets)
			return x.iteVal(n.st, c, va, vb, n.typ(r.Results[0]))
		case *ast.SwitchStmt:
			x.fail("switch in a specification function")
		default:
			x.fail("statement %T in a specification function", s)
		}
	}
	x.fail("specification function does not return")
	return nil
}

// run evaluates a real function as a pure one.
func (e *specEnv) run(f *FuncV, args []Val, sig *types.Signature) Val {
	x := e.x
	x.pure++
	defer func() { x.pure-- }()
	base := e.st.clone()
	s := e.st.clone()
	type exit struct {
		st  *State
		res []Val
	}
	var exits []exit
	stk := x.callStk
	x.callFunc(nil, s, f, args, nil, func(st *State, res []Val) { exits = append(exits, exit{st, res}) })
	x.callStk = stk
	if len(exits) == 0 {
		x.fail("specification function %v has no result", f.fn)
	}
	m := exits[0].st
	res := exits[0].res
	if len(exits) > 1 {
		var ss []*State
		var conds []*Term
		for _, ex := range exits {
			ss = append(ss, ex.st)
			conds = append(conds, pcSince(ex.st, base))
		}
		m = x.mergeStates(base, ss, conds)
		res = nil
		for i := 0; i < sig.Results().Len(); i++ {
			v := exits[len(exits)-1].res[i]
			for j := len(exits) - 2; j >= 0; j-- {
				v = x.iteVal(m, conds[j], exits[j].res[i], v, sig.Results().At(i).Type())
			}
			res = append(res, v)
		}
	}
	if m.heapv != base.heapv || m.aoff != base.aoff {
		e.st.heaps = m.heaps
		e.st.heapv = m.heapv
		e.st.aoff, e.st.abase = m.aoff, m.abase
	}
	for _, t := range factsSince(m, base) {
		if len(t.bound) == 0 {
			e.st.add(t, false)
		}
	}
	if len(res) == 1 {
		return res[0]
	}
	return &TupleV{res}
}

func (e *specEnv) intrinsic(n string, ta types.Type, a *ast.CallExpr) Val {
	x := e.x
	arg := func(i int) Val { return e.eval(a.Args[i]) }
	term := func(i int) *Term { return arg(i).(*Term) }
	switch n {
	case "forall":
		return e.quantifier(true, a.Args[0])
	case "exists":
		return e.quantifier(false, a.Args[0])
	case "implies":
		l := term(0)
		if l == False {
			return True
		}
		return Implies(l, term(1))
	case "iff":
		return Eq(term(0), term(1))
	case "ite":
		c := term(0)
		return x.iteVal(e.st, c, arg(1), arg(2), e.typ(a))
	case "old":
		if e.old == nil {
			x.fail("old without a pre state")
		}
		o := e.with()
		o.st = e.old
		before := e.old.pc
		v := o.eval(a.Args[0])
		for nd := e.old.pc; nd != before && nd != nil; nd = nd.up {
			if !nd.cond && len(nd.t.bound) == 0 {
				e.st.add(nd.t, false)
			}
		}
		return v
	case "before":
		// the state when the loop was entered
		if e.loopEntry == nil {
			x.fail("before outside of a loop")
		}
		o := e.with()
		o.st = e.loopEntry
		f := e.fr.clone()
		for p, v := range e.loopInits {
			f.env[p] = v
		}
		o.fr = f
		before := e.loopEntry.pc
		v := o.eval(a.Args[0])
		for nd := e.loopEntry.pc; nd != before && nd != nil; nd = nd.up {
			if !nd.cond && len(nd.t.bound) == 0 {
				e.st.add(nd.t, false)
			}
		}
		return v
	case "applyStr":
		// a function value applied to strings
		f := e.eval(a.Args[0])
		var ts []*Term
		if fv, ok := f.(*FuncV); ok {
			ts = append(ts, funcTerm(fv))
		} else {
			ts = append(ts, f.(*Term))
		}
		for _, q := range a.Args[1:] {
			ts = append(ts, e.eval(q).(*Term))
		}
		sig := under(e.typ(a.Args[0])).(*types.Signature)
		nm := "apply0:" + typeKey(sig)
		if lo, hi, ok := intRange(sig.Results().At(0).Type()); ok {
			bs := make([]*Term, len(ts))
			for i := range ts {
				bs[i] = BVar("a"+strconv.Itoa(i), ts[i].sort)
			}
			r := App(nm, SInt, bs...)
			addAxiom(nm, "range", Forall(bs, And(Le(lo, r), Le(r, hi)), []*Term{r}))
		}
		return unflat(sig.Results().At(0).Type(), []*Term{App(nm, SInt, ts...)})
	case "dec":
		x.dec(e.st, Int(0))
		return App("dec", SStr, term(0))
	case "has":
		m := under(e.typ(a.Args[0])).(*types.Map)
		return x.mapHas(e.st, term(0), m, x.mapKey(e.st, m, arg(1)))
	case "visited":
		return Select(e.seen, x.flat(e.st, arg(0), e.typ(a.Args[0]))[0])
	case "in":
		// membership of a bitmap
		p := e.eval(a.Args[0])
		t := elemOfPtr(e.typ(a.Args[0]))
		s := x.load(e.st, e.ptr(p, t)).(*Term)
		return Select(s, term(1))
	case "fresh":
		r := e.refOf(a.Args[0])
		return And(Lt(e.old.alloc(), rootOf(r)), Or(Lt(e.old.alloc(), r), Lt(r, Int(0))))
	case "owned":
		// an object that only its owner refers to
		if e.poolPut {
			return True
		}
		r := e.refOf(a.Args[0])
		return And(Lt(e.old.alloc(), rootOf(r)), Or(Lt(e.old.alloc(), r), Lt(r, Int(0))))
	case "fn":
		nm := constant.StringVal(e.info.Types[a.Args[0]].Value)
		var ts []*Term
		for i := 1; i < len(a.Args); i++ {
			ts = append(ts, x.argTerms(e.st, arg(i), e.typ(a.Args[i]))...)
		}
		rt := e.typ(a)
		cs := comps(rt)
		if isTime(rt) || len(cs) != 1 {
			x.fail("vf.Fn needs a simple type")
		}
		if cs[0].sort == SStr {
			// texts given by a definition do not come in the normal form of cat
			a, b, c := BVar("a", SStr), BVar("b", SStr), BVar("c", SStr)
			ct := func(a, b *Term) *Term { return mk("app", "cat", SStr, []*Term{a, b}, nil, nil) }
			addAxiom(nm, "right", Forall([]*Term{a}, Eq(ct(a, StrLit("")), a), []*Term{ct(a, StrLit(""))}))
			addAxiom(nm, "left", Forall([]*Term{a}, Eq(ct(StrLit(""), a), a), []*Term{ct(StrLit(""), a)}))
			addAxiom(nm, "assoc", Forall([]*Term{a, b, c}, Eq(ct(ct(a, b), c), ct(a, ct(b, c))), []*Term{ct(ct(a, b), c)}))
		}
		return unflat(rt, []*Term{App(nm, cs[0].sort, ts...)})
	case "utc":
		return Eq(tloc(arg(0)), Int(0))
	case "parseDur":
		return App("parsedur", SInt, term(0))
	case "unhex":
		return App("unhex", SStr, term(0))
	case "unhexOK":
		return Eq(App("unhexErr", SInt, term(0)), Int(0))
	case "parseDurOK":
		return Eq(App("parsedurErr", SInt, term(0)), Int(0))
	case "pooled":
		h := x.heapGet(e.st, "lock:pooled", arrSort(SInt, SBool))
		return Select(h, term(0))
	case "ref":
		return e.refOf(a.Args[0])
	case "root":
		return rootOf(e.refOf(a.Args[0]))
	case "same":
		l, r := arg(0), arg(1)
		t := e.typ(a.Args[0])
		if sa, ok := l.(*SliceV); ok && sa.o == nil {
			sb := r.(*SliceV)
			return And(Eq(sa.a, sb.a), Eq(sa.n, sb.n))
		}
		return x.eqVal(e.st, l, r, t)
	case "is":
		iv := arg(0).(*IfaceV)
		ts := x.flat(e.st, iv, e.typ(a.Args[0]))
		return Eq(ts[0], Int(typeTag(ta)))
	case "cur":
		name := ""
		if len(a.Args) > 0 {
			name = e.info.Types[a.Args[0]].Value.String()
			name = strings.Trim(name, "\"")
		}
		return e.cur(e.typ(a), name)
	case "ind":
		// the position of an enclosing loop over a slice of T
		for f := e.fr; f != nil; f = f.parent {
			for h := range f.loops {
				sp := x.loopAssign[h]
				if sp == nil || sp.kind != "loopOver" || !types.Identical(types.Unalias(sp.elem), types.Unalias(ta)) {
					continue
				}
				sh := shapeOf(h, x.p.loopInfo(f.fn).head[h])
				i := f.env[sh.phi].(*Term)
				if sh.plus1 {
					i = Add(i, Int(1))
				}
				return i
			}
		}
		x.fail("no loop over %s around", ta)
	case "iterPos":
		// how far the iterator of the enclosing loop came
		for b := range e.fr.loops {
			if v := iterOf(b); v != nil {
				if it, ok := e.fr.env[v]; ok {
					_, p := x.iterState(e.st, x.flat(e.st, it, types.NewInterfaceType(nil, nil))[1])
					return p
				}
			}
		}
		x.fail("no iterator loop around")
	case "str":
		v := arg(0)
		if s, ok := v.(*SliceV); ok {
			return x.bytesOf(e.st, s)
		}
		return v
	case "text":
		// content of a buffer or hasher
		t := elemOfPtr(e.typ(a.Args[0]))
		return x.load(e.st, e.ptr(arg(0), t))
	case "held":
		p := e.eval(a.Args[0]).(*Term)
		return Select(x.heapGet(e.st, "lock", arrSort(SInt, SInt)), p)
	case "nanos":
		return arg(0).(*StructV).fs[0]
	case "zero":
		return zeroVal(e.typ(a))
	case "elemsEq":
		// same elements in the same order, in the states of both sides
		x.fail("elemsEq")
	case "mathInt":
		return term(0)
	case "ghostInt":
		return e.ghostState(a, SInt)
	case "be64":
		return be64(term(0))
	case "frombe64":
		return App("unbe64", SInt, term(0))
	}
	if f, ok := extIntrinsics[n]; ok {
		return f(e, ta, a)
	}
	x.fail("unknown intrinsic %s", n)
	return nil
}

var extIntrinsics = map[string]func(e *specEnv, ta types.Type, a *ast.CallExpr) Val{}

func (e *specEnv) ghostState(a *ast.CallExpr, s Sort) Val {
	x := e.x
	n := strings.Trim(e.info.Types[a.Args[0]].Value.String(), "\"")
	if len(a.Args) == 1 {
		return x.heapGet(e.st, "gs:"+n, s)
	}
	r := e.refOf(a.Args[1])
	if r.sort == SStr {
		ghostHeapTab[n] = map[string]Sort{"gs:" + n: arrSort(SStr, s)}
		return Select(x.heapGet(e.st, "gs:"+n, arrSort(SStr, s)), r)
	}
	return Select(x.heapGet(e.st, "gs:"+n, arrSort(SInt, s)), r)
}

func (e *specEnv) refOf(a ast.Expr) *Term {
	switch w := e.eval(a).(type) {
	case *Term:
		return w
	case *SliceV:
		return w.a
	case *IfaceV:
		return e.x.flat(e.st, w, e.typ(a))[1]
	case *Loc:
		return w.idx[0]
	}
	e.x.fail("refOf")
	return nil
}

// cur finds the current value of a local variable by type.
func (e *specEnv) cur(t types.Type, name string) Val {
	x := e.x
	if e.fr == nil {
		x.fail("cur outside of a loop")
	}
	head := e.head
	if name != "" {
		// a local variable of that name that closures share
		for f := e.fr; f != nil; f = f.parent {
			var best *ssa.Alloc
			named := false
			for v := range f.env {
				if p, ok := v.(*ssa.Phi); ok && p.Comment == name && types.Identical(p.Type(), t) {
					named = true
				}
				if a, ok := v.(*ssa.Alloc); ok && a.Comment == name && types.Identical(elemOfPtr(a.Type()), t) && (best == nil || a.Pos() > best.Pos()) {
					best = a
				}
			}
			if named {
				break
			}
			if best != nil {
				return x.load(e.st, e.ptr(f.env[best], t))
			}
		}
	}
	for f := e.fr; f != nil; f = f.parent {
		// header variables, innermost loop first
		var heads []*ssa.BasicBlock
		if f == e.fr {
			heads = append(heads, head)
		}
		li := x.p.loopInfo(f.fn)
		var outer []*ssa.BasicBlock
		for h := range f.loops {
			if h != head && li.head[h] != nil {
				outer = append(outer, h)
			}
		}
		// inner loops have smaller bodies
		for i := range outer {
			for j := i + 1; j < len(outer); j++ {
				if len(li.head[outer[j]].body) < len(li.head[outer[i]].body) {
					outer[i], outer[j] = outer[j], outer[i]
				}
			}
		}
		heads = append(heads, outer...)
		for _, h := range heads {
			if h != head && head != nil && f == e.fr && !li.head[h].body[head] {
				continue
			}
			var hit []*ssa.Phi
			for _, p := range x.phisOf(h) {
				if types.Identical(p.Type(), t) {
					if p.Comment == name && name != "" {
						hit = []*ssa.Phi{p}
						break
					}
					if p.Comment == "rangeindex" {
						continue
					}
					hit = append(hit, p)
				}
			}
			if len(hit) == 1 {
				return f.env[hit[0]]
			}
			if len(hit) > 1 {
				x.fail("several variables of type %s in the loop of %s", t, f.fn)
			}
		}
		// local cells and values defined before the loop
		var best ssa.Value
		var bestPos token.Pos
		amb := false
		for v := range f.env {
			var vt types.Type
			if a, ok := v.(*ssa.Alloc); ok {
				vt = elemOfPtr(a.Type())
				if types.Identical(vt, t) && (name == "" || a.Comment == name) && !strings.HasPrefix(a.Comment, "complit") {
					if best != nil && name == "" {
						amb = true
					}
					if best == nil || a.Pos() > bestPos {
						best, bestPos = v, a.Pos()
					}
				}
			}
		}
		if best != nil && (!amb || name != "") {
			return x.load(e.st, e.ptr(f.env[best], t))
		}
		best = nil
		for v := range f.env {
			in, ok := v.(ssa.Instruction)
			if !ok || !types.Identical(v.Type(), t) {
				continue
			}
			if _, ok := v.(*ssa.Phi); ok && li.head[in.Block()] != nil {
				continue
			}
			if head != nil && f == e.fr && (!in.Block().Dominates(head) || in.Block() == head) {
				continue
			}
			if best == nil || v.Pos() > best.Pos() {
				best = v
			}
		}
		if best != nil {
			return f.env[best]
		}
	}
	x.fail("no variable of type %s", t)
	return nil
}

// modLocs evaluates an argument of a modifies clause.
func (x *Exec) modLocs(env *specEnv, a ast.Expr) []*modLoc {
	x.pure++
	defer func() { x.pure-- }()
	if c, ok := a.(*ast.CallExpr); ok {
		n, ta := env.vfIntrinsic(c.Fun)
		switch n {
		case "elems":
			s := env.eval(c.Args[0]).(*SliceV)
			if s.o != nil {
				return []*modLoc{{"bmem", heapSort(SByt, 1), []*Term{s.a}}}
			}
			var out []*modLoc
			for _, p := range elemPaths(s.elem) {
				out = append(out, &modLoc{p.suf, heapSort(p.sort, 2), []*Term{s.a}})
			}
			return out
		case "anyOf":
			// any object of type T
			if m, ok := under(ta).(*types.Map); ok {
				pre, ks := mapHeaps(m)
				out := []*modLoc{{pre + "#has", arrSort(SInt, arrSort(ks, SBool)), nil}, {pre + "#n", arrSort(SInt, SInt), nil}}
				for _, p := range mapPaths(m) {
					out = append(out, &modLoc{p.suf, arrSort(SInt, arrSort(ks, p.sort)), nil})
				}
				return out
			}
			l := refLoc(ta, Int(0))
			var out []*modLoc
			for _, m := range x.locHeaps(l) {
				m.idx = nil
				out = append(out, m)
			}
			return out
		case "mapOf":
			m := under(env.typ(c.Args[0])).(*types.Map)
			r := env.eval(c.Args[0]).(*Term)
			pre, ks := mapHeaps(m)
			out := []*modLoc{{pre + "#has", arrSort(SInt, arrSort(ks, SBool)), []*Term{r}}, {pre + "#n", arrSort(SInt, SInt), []*Term{r}}}
			for _, p := range mapPaths(m) {
				out = append(out, &modLoc{p.suf, arrSort(SInt, arrSort(ks, p.sort)), []*Term{r}})
			}
			return out
		case "ghost":
			nm := strings.Trim(env.info.Types[c.Args[0]].Value.String(), "\"")
			if len(c.Args) > 1 {
				// keyed by strings
				ghostHeapTab[nm] = map[string]Sort{"gs:" + nm: arrSort(SStr, SInt)}
			}
			var out []*modLoc
			for h, s := range ghostHeaps(nm) {
				out = append(out, &modLoc{h, s, nil})
			}
			return out
		}
	}
	return x.locHeaps(env.loc(a))
}

func ghostHeaps(n string) map[string]Sort {
	if g, ok := ghostHeapTab[n]; ok {
		return g
	}
	return map[string]Sort{"gs:" + n: SInt}
}

var ghostHeapTab = map[string]map[string]Sort{}

func be64(v *Term) *Term {
	b := BVar("v", SInt)
	t := App("be64", SStr, b)
	rng := And(Le(Int(0), b), Lt(b, pow2(64)))
	addAxiom("be64", "inj", Forall([]*Term{b}, Implies(rng, Eq(App("unbe64", SInt, t), b)), []*Term{t}))
	addAxiom("be64", "len", Forall([]*Term{b}, Eq(App("slen", SInt, t), Int(8)), []*Term{t}))
	s := BVar("s", SStr)
	u := App("unbe64", SInt, s)
	addAxiom("unbe64", "rng", Forall([]*Term{s}, And(Le(Int(0), u), Lt(u, pow2(64))), []*Term{u}))
	addAxiom("unbe64", "inv", Forall([]*Term{s}, Implies(Eq(App("slen", SInt, s), Int(8)), Eq(App("be64", SStr, u), s)), []*Term{u}))
	return App("be64", SStr, v)
}
