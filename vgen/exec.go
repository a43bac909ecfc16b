package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Cont func(st *State, res []Val)

type pcNode struct {
	up   *pcNode
	t    *Term
	cond bool // a branch decision or an assumption, as opposed to a fact
}

type wNode struct {
	up   *wNode
	heap string
	idx  []*Term
	n    int
	cond *Term
}

type State struct {
	heaps  map[string]*Term
	pc     *pcNode
	abase  *Term
	aoff   int64
	writes *wNode
	heapv  int // bumped by every heap change
	dead   bool
	facts  map[*Term]bool
	trace  []string
	pend   []pendSet
}

var heapVersion int

func heapVersionAdd() {
	termMu.Lock()
	heapVersion++
	termMu.Unlock()
}

func (s *State) clone() *State {
	n := *s
	n.heaps = make(map[string]*Term, len(s.heaps)+4)
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	n.facts = make(map[*Term]bool, len(s.facts)+8)
	for k := range s.facts {
		n.facts[k] = true
	}
	n.trace = append([]string{}, s.trace...)
	return &n
}

func (s *State) alloc() *Term { return Add(s.abase, Int(s.aoff)) }

func (s *State) add(t *Term, cond bool) {
	if t == True || !cond && len(t.bound) > 0 {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.add(a, cond)
		}
		return
	}
	if s.facts[t] {
		return
	}
	s.facts[t] = true
	s.pc = &pcNode{s.pc, t, cond}
	if t == False {
		s.dead = true
	}
}

func (s *State) pcList() []*Term {
	var out []*Term
	for n := s.pc; n != nil; n = n.up {
		out = append(out, n.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	site ssa.Instruction
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	bind   []Val
	defers []deferred
	loops  map[*ssa.BasicBlock]*LoopCtx
	unroll map[*ssa.BasicBlock]int
	k      Cont
	stop   func(st *State, fr *Frame, b, prev *ssa.BasicBlock) bool
	stopAt *ssa.BasicBlock
	parent *Frame
	depth  int
	site   ssa.Instruction
	opnd   map[string]Val
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env)+8)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.loops = make(map[*ssa.BasicBlock]*LoopCtx, len(f.loops))
	for k, v := range f.loops {
		n.loops[k] = v
	}
	n.unroll = make(map[*ssa.BasicBlock]int, len(f.unroll))
	for k, v := range f.unroll {
		n.unroll[k] = v
	}
	n.defers = append([]deferred{}, f.defers...)
	return &n
}

type Obl struct {
	fn, kind, label string
	pos             string
	pc              []*Term
	goal            *Term
	res             solverRes
	expectFail      bool // vacuity guard: must not be provable
	group           string
}

type Exec struct {
	p                              *Program
	prop                           string
	c                              *Contract
	root                           *ssa.Function
	z                              *z3proc
	obls                           []*Obl
	recMode                        int
	pure                           int
	entry                          *State
	params                         map[types.Object]Val
	notes                          map[string]int
	heapBase                       map[*Term]*Term
	abase0                         *Term
	inlined                        map[string]bool
	byContr                        map[string]bool
	models                         map[string]bool
	paths                          int
	exits                          int
	maxPaths                       int
	loopWS                         map[*ssa.BasicBlock]map[string]bool
	callStk                        []string
	panics                         bool
	errs                           []string
	curVals                        []map[string]Val
	rootRes                        []Val
	loopUsed                       map[*LoopSpec]int
	budget                         int
	until                          time.Time
	h0                             string
	mergeAll                       bool
	entryLk                        string
	heapSrt                        map[string]Sort
	noInline                       map[string]bool
	guards                         map[string]bool
	fastFeas                       bool
	loopAssign                     loopAssignT
	externals, trusted, specInline map[string]bool
	guardOn                        bool
	guarded                        map[string]int
	rootFr                         *Frame
}

type execErr struct{ msg string }

func (x *Exec) fail(f string, a ...any) {
	panic(execErr{fmt.Sprintf(f, a...)})
}

func (x *Exec) note(s string) { x.notes[s]++ }

// ---- heaps

func (x *Exec) heapInit(name string, s Sort) *Term {
	v := Var(x.h0+name, s)
	x.heapBase[v] = x.abase0
	x.heapFacts(v, name, s, x.abase0)
	return v
}

func (x *Exec) heapGet(st *State, name string, s Sort) *Term {
	x.heapSrt[name] = s
	if h, ok := st.heaps[name]; ok {
		if h.sort != s {
			panic(fmt.Sprintf("heap %s has sort %s, want %s", name, h.sort, s))
		}
		return h
	}
	h := x.heapInit(name, s)
	st.heaps[name] = h
	return h
}

func (x *Exec) heapSet(st *State, name string, h *Term, idx []*Term) {
	if x.pure > 0 {
		// writes of pure evaluations are kept local to the evaluation
	}
	if st.heaps[name] == h {
		return
	}
	st.heaps[name] = h
	if x.heapSrt[name] == "" {
		x.heapSrt[name] = h.sort
	}
	heapVersionAdd()
	st.heapv = heapVersion
	n := 0
	if st.writes != nil {
		n = st.writes.n
	}
	st.writes = &wNode{st.writes, name, idx, n + 1, nil}
}

// kinds of heap components for well-formedness facts
var (
	kindMu   sync.Mutex
	heapKind = map[string]string{}
	heapTyp  = map[string]types.Type{}
)

func heapKindOf(n string) string {
	kindMu.Lock()
	defer kindMu.Unlock()
	return heapKind[n]
}

func heapRange(n string) (lo, hi *Term, ok bool) {
	kindMu.Lock()
	t := heapTyp[n]
	kindMu.Unlock()
	if t == nil {
		return nil, nil, false
	}
	return intRange(t)
}

// regHeap records what component i of type t means for heap name.
func regHeap(name string, t types.Type, i int) {
	kindMu.Lock()
	defer kindMu.Unlock()
	if _, ok := heapKind[name]; ok {
		return
	}
	k := ""
	switch u := under(t).(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		k = "ref"
	case *types.Slice:
		k = "len"
		if i == 0 {
			k = "ref"
		}
	case *types.Interface:
		k = "len"
		if i == 1 {
			k = "ref"
		}
	case *types.Basic:
		if _, _, ok := intRange(t); ok {
			k = "int"
			heapTyp[name] = t
		}
		_ = u
	}
	if isOpq(t) || isTime(t) {
		k = ""
	}
	heapKind[name] = k
}

func (x *Exec) setHeapBase(v, base *Term) { x.heapBase[v] = base }

// heapFacts attaches well-formedness of reference and length components to a
// heap variable.
func (x *Exec) heapFacts(v *Term, name string, s Sort, base *Term) {
	depth := 0
	e := s
	for (strings.HasPrefix(string(e), "(Array Int ") || depth == 1 && strings.HasPrefix(string(e), "(Array ")) && depth < 2 {
		e = e.elem()
		depth++
	}
	if e != SInt || depth == 0 {
		return
	}
	k := heapKindOf(name)
	if k == "" {
		return
	}
	var bs []*Term
	t := v
	for i := 0; i < depth; i++ {
		b := BVar("h", t.sort.key())
		bs = append(bs, b)
		t = mk("select", "", t.sort.elem(), []*Term{t, b}, nil, nil)
	}
	var f *Term
	switch k {
	case "ref":
		rootOf(Var("x", SInt))
		f = Implies(Le(App("root", SInt, bs[0]), base), And(Le(t, base), Le(App("root", SInt, t), base)))
	case "len":
		f = Le(Int(0), t)
	case "int":
		lo, hi, ok := heapRange(name)
		if !ok {
			return
		}
		f = And(Le(lo, t), Le(t, hi))
	default:
		return
	}
	addAxiom("var:"+v.name, "wf", Forall(bs, f, []*Term{t}))
}

// loadFacts adds ground well-formedness of loaded values.
func (x *Exec) loadFacts(st *State, t types.Type, ts []*Term) {
	if len(ts) > 0 && len(ts[0].bound) > 0 {
		return
	}
	for _, v := range ts {
		if len(v.bound) > 0 {
			return
		}
	}
	if isOpq(t) || isTime(t) {
		return
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if lo, hi, ok := intRange(t); ok && !ts[0].isInt() {
			st.add(And(Le(lo, ts[0]), Le(ts[0], hi)), false)
		}
	case *types.Pointer, *types.Map, *types.Chan:
		x.refFact(st, ts[0])
	case *types.Slice:
		a, n, c := ts[0], ts[len(ts)-2], ts[len(ts)-1]
		x.refFact(st, a)
		if !n.isInt() {
			st.add(And(Le(Int(0), n), Le(n, c), Le(c, pow2(62))), false)
			st.add(Implies(Eq(a, Int(0)), Eq(c, Int(0))), false)
		}
		if isByte(u.Elem()) && !ts[1].isInt() {
			st.add(Le(Int(0), ts[1]), false)
		}
	case *types.Interface:
		x.refFact(st, ts[1])
		if !ts[0].isInt() {
			st.add(Le(Int(0), ts[0]), false)
			x.ifaceFacts(st, t, ts[0], ts[1])
		}
	}
}

// ifaceFacts: an interface with unexported methods holds nil or one of the
// implementing types of its package, and generated oneof wrappers are not nil
// pointers.
func (x *Exec) ifaceFacts(st *State, t types.Type, tag, p *Term) {
	im := x.p.implementers(t)
	if im == nil {
		return
	}
	var or []*Term
	or = append(or, Eq(tag, Int(0)))
	for _, i := range im {
		or = append(or, Eq(tag, Int(typeTag(i))))
	}
	st.add(Or(or...), false)
	// oneof wrappers are never typed nil pointers in well-formed messages
	st.add(Implies(Not(Eq(tag, Int(0))), Not(Eq(p, Int(0)))), false)
	x.note("oneof wrappers of well-formed messages are not nil pointers")
}

func (p *Program) implementers(t types.Type) []types.Type {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return nil
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok || it.NumMethods() == 0 || it.Method(0).Exported() || n.Obj().Pkg() == nil {
		return nil
	}
	kindMu.Lock()
	defer kindMu.Unlock()
	k := typeKey(t)
	if r, ok := p.impls[k]; ok {
		return r
	}
	var out []types.Type
	sc := n.Obj().Pkg().Scope()
	for _, nm := range sc.Names() {
		tn, ok := sc.Lookup(nm).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		if types.IsInterface(tn.Type()) {
			continue
		}
		pt := types.NewPointer(tn.Type())
		if types.Implements(pt, it) {
			out = append(out, pt)
		}
	}
	p.impls[k] = out
	return out
}

func (x *Exec) refFact(st *State, v *Term) {
	if v.isInt() {
		return
	}
	if _, ok := isAlloc(v); ok {
		return
	}
	if isSub(v) {
		return
	}
	if v.op == "ite" {
		x.refFact(st, v.args[1])
		x.refFact(st, v.args[2])
		return
	}
	base := x.baseOf(v)
	if base != nil {
		knownOld.LoadOrStore(v, oldRef{base, 0})
		st.add(Le(v, base), false)
		st.add(Le(rootOf(v), base), false)
		return
	}
	if _, ok := knownOld.Load(v); !ok && v.op == "var" {
		knownOld.Store(v, oldRef{st.abase, st.aoff})
	}
	st.add(Le(v, st.alloc()), false)
	st.add(Le(rootOf(v), st.alloc()), false)
}

// baseOf returns the allocation base that bounds a value loaded from a heap
// variable.
func (x *Exec) baseOf(v *Term) *Term {
	var idx *Term
	for v.op == "select" {
		idx = v.args[1]
		v = v.args[0]
	}
	if v.op == "var" {
		b := x.heapBase[v]
		if b == nil || idx == nil {
			return b
		}
		// objects made later may hold anything
		for isSub(idx) {
			idx = idx.args[0]
		}
		if idx.isInt() || idx.op == "var" && strings.HasPrefix(idx.name, "glob:") {
			return b
		}
		if o, ok := knownOld.Load(idx); ok {
			w := o.(oldRef)
			if w.base == b && w.off == 0 || allocOrder(w.base) < allocOrder(b) {
				return b
			}
		}
	}
	return nil
}

func (x *Exec) newRef(st *State) *Term {
	st.aoff++
	return st.alloc()
}

func (x *Exec) assume(st *State, t *Term) { st.add(t, true) }
func (x *Exec) fact(st *State, t *Term)   { st.add(t, false) }

// feasible decides whether cond can hold on this path.
func (x *Exec) feasible(st *State, cond *Term) bool {
	if cond == True {
		return !st.dead
	}
	if cond == False || st.dead {
		return false
	}
	if st.facts[cond] {
		return true
	}
	if st.facts[Not(cond)] {
		return false
	}
	if len(cond.bound) > 0 {
		return true
	}
	if x.z == nil {
		return true
	}
	if x.recMode > 0 {
		return x.z.check(buildScript(cone(st.pcList(), cond), false), 40) != "unsat"
	}
	as := append(st.pcList(), cond)
	return x.z.check(buildScript(as, false), 150) != "unsat"
}

// symsOf collects the variables of a term; ok is false for quantified terms.
type symInfo struct {
	syms map[string]bool
	qf   bool
}

var symCache sync.Map

func symsOf(t *Term) *symInfo {
	if v, ok := symCache.Load(t); ok {
		return v.(*symInfo)
	}
	r := &symInfo{syms: map[string]bool{}, qf: true}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case "forall", "exists":
			r.qf = false
		case "var":
			r.syms[t.name] = true
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	symCache.Store(t, r)
	return r
}

// cone keeps the quantifier free facts that are connected to cond.
func cone(pc []*Term, cond *Term) []*Term {
	rel := map[string]bool{}
	for s := range symsOf(cond).syms {
		if !isEntryHeap(s) {
			rel[s] = true
		}
	}
	used := make([]bool, len(pc))
	for hop := 0; hop < 2; hop++ {
		add := map[string]bool{}
		for i, p := range pc {
			if used[i] {
				continue
			}
			in := symsOf(p)
			if !in.qf {
				used[i] = true
				continue
			}
			hit := false
			for s := range in.syms {
				if rel[s] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				for s := range in.syms {
					if !isEntryHeap(s) {
						add[s] = true
					}
				}
			}
		}
		for s := range add {
			rel[s] = true
		}
	}
	out := []*Term{}
	for i, p := range pc {
		if used[i] && symsOf(p).qf {
			out = append(out, p)
		}
	}
	return append(out, cond)
}

// oblige records a proof obligation.
func (x *Exec) oblige(st *State, kind, label, pos string, goal *Term) {
	if x.recMode > 0 || x.pure > 0 {
		return
	}
	if goal == True {
		x.obls = append(x.obls, &Obl{fn: x.fnName(), kind: kind, label: label, pos: pos, goal: True})
		return
	}
	if st.facts[goal] {
		x.obls = append(x.obls, &Obl{fn: x.fnName(), kind: kind, label: label, pos: pos, goal: True})
		return
	}
	x.obls = append(x.obls, &Obl{fn: x.fnName(), kind: kind, label: label, pos: pos, pc: st.pcList(), goal: goal})
}

func (x *Exec) fnName() string {
	if x.c != nil {
		return shortName(x.c.target)
	}
	return "?"
}

func shortName(s string) string {
	s = strings.ReplaceAll(s, modPath+"/internal/", "")
	return s
}

func (x *Exec) pos(in ssa.Instruction) string {
	if in == nil || !in.Pos().IsValid() {
		return ""
	}
	p := x.p.fset.Position(in.Pos())
	return strings.TrimPrefix(p.Filename, x.p.repo+"/") + ":" + fmt.Sprint(p.Line)
}

// ---- running

func (x *Exec) callFn(parent *Frame, st *State, fn *ssa.Function, args, bind []Val, site ssa.Instruction, k Cont) {
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, bind: bind, loops: map[*ssa.BasicBlock]*LoopCtx{}, unroll: map[*ssa.BasicBlock]int{}, parent: parent, site: site}
	if parent != nil {
		fr.depth = parent.depth + 1
	}
	if fr.depth > 40 {
		x.fail("inlining too deep at %s", fn)
	}
	fr.k = k
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.env[f] = bind[i]
	}
	x.runBlock(fr, st, fn.Blocks[0], nil)
}

func (x *Exec) runBlock(fr *Frame, st *State, b, prev *ssa.BasicBlock) {
	if st.dead {
		return
	}
	x.budget--
	if x.budget < 0 {
		x.fail("path budget exceeded in %s", fr.fn)
	}
	if time.Now().After(x.until) {
		x.fail("executing the function takes too long, given up in %s", fr.fn)
	}
	if fr.stop != nil && fr.stop(st, fr, b, prev) {
		return
	}
	if li := x.p.loopInfo(fr.fn).head[b]; li != nil {
		if prev != nil && li.body[prev] {
			// back edge
			if lc := fr.loops[b]; lc != nil {
				lc.back(fr, st, prev)
				return
			}
			fr.unroll[b]++
			if fr.unroll[b] > 64 {
				x.fail("loop at %s does not unroll", x.p.fset.Position(firstPos(b)))
			}
			x.evalPhis(fr, st, b, prev)
			x.runInstrs(fr, st, b, numPhis(b))
			return
		}
		x.enterLoop(fr, st, b, prev, li)
		return
	}
	x.evalPhis(fr, st, b, prev)
	x.runInstrs(fr, st, b, numPhis(b))
}

func firstPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return token.NoPos
}

func numPhis(b *ssa.BasicBlock) int {
	n := 0
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			n++
		} else {
			break
		}
	}
	return n
}

func predIndex(b, prev *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == prev {
			return i
		}
	}
	return -1
}

func (x *Exec) evalPhis(fr *Frame, st *State, b, prev *ssa.BasicBlock) {
	n := numPhis(b)
	if n == 0 {
		return
	}
	i := predIndex(b, prev)
	vs := make([]Val, n)
	for j := 0; j < n; j++ {
		vs[j] = x.val(fr, st, b.Instrs[j].(*ssa.Phi).Edges[i])
	}
	for j := 0; j < n; j++ {
		fr.env[b.Instrs[j].(*ssa.Phi)] = vs[j]
	}
}

func (x *Exec) val(fr *Frame, st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return constVal(v)
	case *ssa.Global:
		return x.globalAddr(v)
	case *ssa.Function:
		return &FuncV{fn: v}
	case *ssa.Builtin:
		return v
	}
	r, ok := fr.env[v]
	if !ok {
		x.fail("no value for %s = %s in %s", v.Name(), v, fr.fn)
	}
	return r
}

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	t := c.Type()
	return constOf(c.Value, t)
}

func constOf(cv constant.Value, t types.Type) Val {
	b, ok := under(t).(*types.Basic)
	if ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return Bool(constant.BoolVal(cv))
		case b.Info()&types.IsString != 0:
			return StrLit(constant.StringVal(cv))
		case b.Info()&types.IsInteger != 0:
			i := constant.ToInt(cv)
			if bi, ok := constant.Val(i).(*big.Int); ok {
				return BigInt(new(big.Int).Set(bi))
			}
			n, _ := constant.Int64Val(i)
			return Int(n)
		case b.Info()&types.IsFloat != 0:
			return fltConst(cv)
		}
	}
	if types.IsInterface(t) {
		return nil
	}
	panic("const " + t.String())
}

func fltConst(cv constant.Value) *Term {
	s := constant.ToFloat(cv).ExactString()
	if constant.Sign(constant.ToFloat(cv)) == 0 {
		s = "0"
	}
	return App("flt:"+s, SFlt)
}

func (x *Exec) globalAddr(g *ssa.Global) Val {
	t := under(g.Type()).(*types.Pointer).Elem()
	if isObj(t) {
		return Var("glob:"+g.String(), SInt)
	}
	return &Loc{pre: "g:" + g.String(), typ: t}
}

func (x *Exec) runInstrs(fr *Frame, st *State, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.If:
			x.branch(fr, st, b, in)
			return
		case *ssa.Jump:
			x.runBlock(fr, st, b.Succs[0], b)
			return
		case *ssa.Return:
			var res []Val
			for _, r := range in.Results {
				res = append(res, x.val(fr, st, r))
			}
			fr.k(st, res)
			return
		case *ssa.Panic:
			if x.panics {
				x.oblige(st, "panic", "unreachable panic", x.pos(in), False)
			}
			return
		case *ssa.RunDefers:
			ds := fr.defers
			fr.defers = nil
			j := i + 1
			x.runDefers(fr, st, ds, func(st *State) {
				fr2 := fr.clone()
				x.runInstrs(fr2, st, b, j)
			})
			return
		case *ssa.Call:
			j := i + 1
			x.call(fr, st, &in.Call, in, func(st *State, res []Val) {
				fr2 := fr.clone()
				fr2.env[in] = packRes(in.Type(), res)
				x.runInstrs(fr2, st, b, j)
			})
			return
		case *ssa.Next:
			j := i + 1
			x.next(fr, st, in, func(st *State, v Val, done bool) {
				fr2 := fr.clone()
				fr2.env[in] = v
				x.runInstrs(fr2, st, b, j)
			})
			return
		case *ssa.Select:
			j := i + 1
			x.selectStmt(fr, st, in, func(st *State, v Val) {
				fr2 := fr.clone()
				fr2.env[in] = v
				x.runInstrs(fr2, st, b, j)
			})
			return
		case *ssa.TypeAssert:
			if x.typeAssertForks(fr, st, in, func(st *State, v Val) {
				fr2 := fr.clone()
				fr2.env[in] = v
				x.runInstrs(fr2, st, b, i+1)
			}) {
				return
			}
		default:
			x.step(fr, st, in)
		}
	}
}

func packRes(t types.Type, res []Val) Val {
	if tt, ok := t.(*types.Tuple); ok {
		if tt.Len() == 1 && len(res) == 1 {
			return res[0]
		}
		return &TupleV{res}
	}
	if len(res) == 0 {
		return nil
	}
	return res[0]
}

func (x *Exec) runDefers(fr *Frame, st *State, ds []deferred, k func(st *State)) {
	if len(ds) == 0 {
		k(st)
		return
	}
	d := ds[len(ds)-1]
	x.callVal(fr, st, d.call, d.fn, d.args, d.site, func(st *State, _ []Val) {
		x.runDefers(fr, st, ds[:len(ds)-1], k)
	})
}

func (x *Exec) branch(fr *Frame, st *State, b *ssa.BasicBlock, in *ssa.If) {
	c := x.val(fr, st, in.Cond).(*Term)
	if c == True {
		x.runBlock(fr, st, b.Succs[0], b)
		return
	}
	if c == False {
		x.runBlock(fr, st, b.Succs[1], b)
		return
	}
	ft := x.feasible(st, c)
	ff := true
	if ft {
		ff = x.feasible(st, Not(c))
	}
	if ft && !ff {
		x.fact(st, c)
		x.runBlock(fr, st, b.Succs[0], b)
		return
	}
	if !ft {
		x.fact(st, Not(c))
		x.runBlock(fr, st, b.Succs[1], b)
		return
	}
	if x.mergeRegion(fr, st, b, c) {
		return
	}
	x.paths++
	st2 := st.clone()
	fr2 := fr.clone()
	x.assume(st, c)
	x.runBlock(fr, st, b.Succs[0], b)
	x.assume(st2, Not(c))
	x.runBlock(fr2, st2, b.Succs[1], b)
}

// mergeRegion joins the paths of a small loop free region without side effects
// at its post dominator.
func (x *Exec) mergeRegion(fr *Frame, st *State, b *ssa.BasicBlock, c *Term) bool {
	join := x.p.loopInfo(fr.fn).ipdom(b)
	if join == nil || join == b || fr.stopAt == join {
		return false
	}
	li := x.p.loopInfo(fr.fn)
	if li.head[join] != nil {
		return false
	}
	for _, in := range join.Instrs[:numPhis(join)] {
		if !mergeable(in.(*ssa.Phi).Type()) {
			return false
		}
	}
	reg := li.region(b, join, 14)
	if reg == nil {
		return false
	}
	for blk := range reg {
		for _, in := range blk.Instrs {
			switch in := in.(type) {
			case *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.Select, *ssa.Next, *ssa.Return, *ssa.RunDefers:
				_ = in
				return false
			}
		}
	}
	type arr struct {
		st   *State
		fr   *Frame
		prev *ssa.BasicBlock
		vs   []Val
	}
	var arrs []arr
	run := func(s *State, f *Frame, succ *ssa.BasicBlock, cond *Term) {
		x.assume(s, cond)
		f.stopAt = join
		f.stop = func(st *State, fr *Frame, bb, prev *ssa.BasicBlock) bool {
			if bb == join {
				a := arr{st: st, fr: fr, prev: prev}
				i := predIndex(join, prev)
				for _, in := range join.Instrs[:numPhis(join)] {
					a.vs = append(a.vs, x.val(fr, st, in.(*ssa.Phi).Edges[i]))
				}
				arrs = append(arrs, a)
				return true
			}
			return false
		}
		x.runBlock(f, s, succ, b)
	}
	s1, f1 := st.clone(), fr.clone()
	s2, f2 := st.clone(), fr.clone()
	run(s1, f1, b.Succs[0], c)
	run(s2, f2, b.Succs[1], Not(c))
	if len(arrs) == 0 {
		return true
	}
	same := true
	for _, a := range arrs {
		if (a.st.abase != arrs[0].st.abase && x.recMode == 0 && !x.mergeAll) || len(a.fr.defers) != len(fr.defers) || len(arrs) > 8 {
			same = false
		}
	}
	if !same {
		for _, a := range arrs {
			f := a.fr.clone()
			f.stop, f.stopAt = fr.stop, fr.stopAt
			x.runBlock(f, a.st, join, a.prev)
		}
		return true
	}
	if len(arrs) == 1 {
		f := arrs[0].fr.clone()
		f.stop, f.stopAt = fr.stop, fr.stopAt
		x.runBlock(f, arrs[0].st, join, arrs[0].prev)
		return true
	}
	var conds []*Term
	var ss []*State
	for _, a := range arrs {
		conds = append(conds, pcSince(a.st, st))
		ss = append(ss, a.st)
	}
	conds = disjoint(conds)
	m := x.mergeStates(st, ss, conds)
	nf := fr.clone()
	// values of the region that dominate nothing later are dropped
	for j, in := range join.Instrs[:numPhis(join)] {
		phi := in.(*ssa.Phi)
		v := arrs[len(arrs)-1].vs[j]
		for i := len(arrs) - 2; i >= 0; i-- {
			v = x.iteVal(m, conds[i], arrs[i].vs[j], v, phi.Type())
		}
		nf.env[phi] = v
	}
	if nf.stop != nil && nf.stop(m, nf, join, arrs[0].prev) {
		// the enclosing region ends here too: let it see the merged phis
		return true
	}
	x.runInstrs(nf, m, join, numPhis(join))
	return true
}

func mergeable(t types.Type) bool {
	switch under(t).(type) {
	case *types.Basic, *types.Pointer, *types.Map, *types.Slice, *types.Interface, *types.Struct, *types.Signature:
		return true
	}
	return false
}

// disjoint tells apart paths that no branch decision does (a library call may
// have several outcomes).
func disjoint(cs []*Term) []*Term {
	apart := func(i, j int) bool {
		n := 4000
		return !maySat([]*Term{cs[i], cs[j]}, map[*Term]bool{}, &n)
	}
	ok := true
	for i := range cs {
		for j := range cs[:i] {
			ok = ok && apart(i, j)
		}
	}
	if ok {
		return cs
	}
	ch := Fresh("choice", SInt)
	out := make([]*Term, len(cs))
	for i, c := range cs {
		out[i] = And(c, Eq(ch, Int(int64(i))))
	}
	return out
}

// maySat looks for values of the atoms of ts that make all of them true (false
// only if there are none). It gives up after *n steps.
func maySat(ts []*Term, as map[*Term]bool, n *int) bool {
	var undo []*Term
	defer func() {
		for _, a := range undo {
			delete(as, a)
		}
	}()
	var split []*Term
	for len(ts) > 0 {
		if *n--; *n < 0 {
			return true
		}
		t := ts[len(ts)-1]
		ts = ts[:len(ts)-1]
		v := true
		for t.op == "not" {
			t, v = t.args[0], !v
		}
		switch {
		case t == True || t == False:
			if (t == True) != v {
				return false
			}
		case t.op == "and" && v || t.op == "or" && !v:
			for _, a := range t.args {
				if !v {
					a = Not(a)
				}
				ts = append(ts, a)
			}
		case t.op == "and" || t.op == "or" || t.op == "ite":
			if !v {
				t = mk("not", "", SBool, []*Term{t}, nil, nil)
			}
			split = append(split, t)
		default:
			w, ok := as[t]
			if ok && w != v {
				return false
			}
			if !ok {
				as[t] = v
				undo = append(undo, t)
			}
		}
	}
	if len(split) == 0 {
		return true
	}
	t, v := split[0], true
	for t.op == "not" {
		t, v = t.args[0], !v
	}
	neg := func(a *Term) *Term {
		if v {
			return a
		}
		return Not(a)
	}
	if t.op == "ite" {
		c := t.args[0]
		return maySat(append([]*Term{c, neg(t.args[1])}, split[1:]...), as, n) ||
			maySat(append([]*Term{Not(c), neg(t.args[2])}, split[1:]...), as, n)
	}
	for _, a := range t.args {
		if maySat(append([]*Term{neg(a)}, split[1:]...), as, n) {
			return true
		}
	}
	return false
}

// pcSince is the conjunction of the branch decisions of st after base.
func pcSince(st, base *State) *Term {
	var cs []*Term
	for n := st.pc; n != base.pc; n = n.up {
		if n == nil {
			break
		}
		if n.cond {
			cs = append(cs, n.t)
		}
	}
	for i, j := 0, len(cs)-1; i < j; i, j = i+1, j-1 {
		cs[i], cs[j] = cs[j], cs[i]
	}
	return And(cs...)
}

func factsSince(st, base *State) []*Term {
	var cs []*Term
	for n := st.pc; n != base.pc && n != nil; n = n.up {
		if !n.cond {
			cs = append(cs, n.t)
		}
	}
	for i, j := 0, len(cs)-1; i < j; i, j = i+1, j-1 {
		cs[i], cs[j] = cs[j], cs[i]
	}
	return cs
}

// mergeStates joins states that have the same allocation base.
func (x *Exec) mergeStates(base *State, ss []*State, conds []*Term) *State {
	m := base.clone()
	names := map[string]bool{}
	for _, s := range ss {
		for k := range s.heaps {
			names[k] = true
		}
	}
	for k := range names {
		get := func(s *State) *Term {
			if h, ok := s.heaps[k]; ok {
				return h
			}
			return x.heapInit(k, x.heapSrt[k])
		}
		v := get(ss[len(ss)-1])
		for i := len(ss) - 2; i >= 0; i-- {
			v = mergeHeap(conds[i], get(ss[i]), v)
		}
		m.heaps[k] = v
	}
	heapVersionAdd()
	m.heapv = ss[0].heapv
	for _, s := range ss[1:] {
		if s.heapv != m.heapv {
			m.heapv = heapVersion
		}
	}
	m.abase = ss[0].abase
	m.aoff = ss[0].aoff
	for _, s := range ss {
		if s.abase != m.abase {
			m.abase = Fresh("A", SInt)
			m.aoff = 0
			for _, s := range ss {
				m.add(Le(s.alloc(), m.abase), false)
			}
			break
		}
	}
	m.writes = base.writes
	for i, s := range ss {
		if s.abase == m.abase && s.aoff > m.aoff {
			m.aoff = s.aoff
		}
		for n := s.writes; n != base.writes && n != nil; n = n.up {
			c := conds[i]
			if len(n.idx) > 0 {
				if _, ok := isAlloc(n.idx[0]); ok {
					c = nil
				}
			} else if n.cond == nil {
				c = nil
			}
			if c != nil && n.cond != nil {
				c = And(c, n.cond)
			}
			m.writes = &wNode{m.writes, n.heap, n.idx, wn(m.writes) + 1, c}
		}
	}
	m.pend = base.pend[:len(base.pend):len(base.pend)]
	for i, s := range ss {
		for _, p := range s.pend[min(len(base.pend), len(s.pend)):] {
			p.cond = And(conds[i], p.cond)
			m.pend = append(m.pend, p)
		}
	}
	for i, s := range ss {
		for _, f := range factsSince(s, base) {
			m.add(Implies(conds[i], f), false)
		}
	}
	m.add(Or(conds...), true)
	return m
}

// mergeHeap is Ite(c, a, b), pushed below stores to the same reference.
func mergeHeap(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == "store" && a.args[0] == b {
		return Store(b, a.args[1], Ite(c, a.args[2], Select(b, a.args[1])))
	}
	if b.op == "store" && b.args[0] == a {
		return Store(a, b.args[1], Ite(c, Select(a, b.args[1]), b.args[2]))
	}
	if a.op == "store" && b.op == "store" && a.args[1] == b.args[1] {
		return Store(mergeHeap(c, a.args[0], b.args[0]), a.args[1], Ite(c, a.args[2], b.args[2]))
	}
	return Ite(c, a, b)
}

// iteVal merges two values.
func (x *Exec) iteVal(st *State, c *Term, a, b Val, t types.Type) Val {
	if a == b {
		return a
	}
	if fa, ok := a.(*FuncV); ok {
		if fb, ok := b.(*FuncV); ok && fa.fn == fb.fn && len(fa.bind) == 0 {
			return a
		}
	}
	if sa, ok := a.(*StructV); ok && !isTime(sa.typ) {
		sb := b.(*StructV)
		u := under(sa.typ).(*types.Struct)
		r := &StructV{typ: sa.typ}
		for i := range sa.fs {
			r.fs = append(r.fs, x.iteVal(st, c, sa.fs[i], sb.fs[i], u.Field(i).Type()))
		}
		return r
	}
	if ta, ok := a.(*TupleV); ok {
		tb := b.(*TupleV)
		tt := t.(*types.Tuple)
		r := &TupleV{}
		for i := range ta.vs {
			r.vs = append(r.vs, x.iteVal(st, c, ta.vs[i], tb.vs[i], tt.At(i).Type()))
		}
		return r
	}
	fa, fb := x.flat(st, a, t), x.flat(st, b, t)
	var out []*Term
	for i := range fa {
		out = append(out, Ite(c, fa[i], fb[i]))
	}
	r := unflat(t, out)
	if ia, ok := a.(*IfaceV); ok {
		if ib, ok := b.(*IfaceV); ok && ia.ct != nil && ib.ct != nil && types.Identical(ia.ct, ib.ct) {
			if ri, ok := r.(*IfaceV); ok {
				ri.ct = ia.ct
				ri.cv = x.iteVal(st, c, ia.cv, ib.cv, ia.ct)
			}
		}
	}
	return r
}

// ---- simple instructions

func (x *Exec) deref(st *State, ref *Term, in ssa.Instruction) {
	c := Not(Eq(ref, Int(0)))
	if c == True || st.facts[c] {
		return
	}
	if isSub(ref) {
		return
	}
	if x.panics {
		x.oblige(st, "nil", "nil dereference", x.pos(in), c)
	}
	if len(c.bound) == 0 {
		x.assume(st, c)
	}
}

// ptrLoc interprets pointer value v to type elem as a location.
func (x *Exec) ptrLoc(st *State, v Val, elem types.Type, in ssa.Instruction) *Loc {
	switch w := v.(type) {
	case *Loc:
		return w
	case *Term:
		if g := w.op == "var" && strings.HasPrefix(w.name, "glob:"); !g {
			x.deref(st, w, in)
		}
		return refLoc(elem, w)
	}
	x.fail("pointer %T at %s", v, x.pos(in))
	return nil
}

// addr makes the pointer value for a location.
func locVal(l *Loc) Val {
	if l.bytePos == nil && len(l.idx) == 1 && isObj(l.typ) && !isTime(l.typ) {
		r := refLoc(l.typ, l.idx[0])
		if r.pre == l.pre {
			return l.idx[0]
		}
	}
	return l
}

func elemOfPtr(t types.Type) types.Type { return under(t).(*types.Pointer).Elem() }

func (x *Exec) step(fr *Frame, st *State, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		t := elemOfPtr(in.Type())
		r := x.newRef(st)
		l := refLoc(t, r)
		if a, ok := under(t).(*types.Array); ok && !isByte(a.Elem()) && !isOpq(t) {
			x.zeroElems(st, a.Elem(), r)
		} else {
			x.store(st, l, zeroVal(t), t)
		}
		fr.env[in] = r
	case *ssa.DebugRef:
	case *ssa.Store:
		p := x.val(fr, st, in.Addr)
		t := elemOfPtr(in.Addr.Type())
		l := x.ptrLoc(st, p, t, in)
		x.checkGuard(fr, st, l, in, true)
		x.store(st, l, x.val(fr, st, in.Val), in.Val.Type())
	case *ssa.UnOp:
		fr.env[in] = x.unop(fr, st, in)
	case *ssa.BinOp:
		fr.env[in] = x.binop(fr, st, in)
	case *ssa.FieldAddr:
		p := x.val(fr, st, in.X)
		l := x.ptrLoc(st, p, elemOfPtr(in.X.Type()), in)
		fr.env[in] = locVal(fieldLoc(l, in.Field))
	case *ssa.Field:
		v := x.val(fr, st, in.X)
		fr.env[in] = v.(*StructV).fs[in.Field]
	case *ssa.IndexAddr:
		i := x.val(fr, st, in.Index).(*Term)
		fr.env[in] = x.indexAddr(fr, st, x.val(fr, st, in.X), in.X.Type(), i, in)
	case *ssa.Index:
		v := x.val(fr, st, in.X)
		i := x.val(fr, st, in.Index).(*Term)
		switch u := under(in.X.Type()).(type) {
		case *types.Basic:
			fr.env[in] = strByte(v.(*Term), i)
		case *types.Array:
			if isByte(u.Elem()) {
				fr.env[in] = strByte(v.(*Term), i)
			} else {
				fr.env[in] = unflat(u.Elem(), []*Term{Select(v.(*Term), i)})
			}
		}
	case *ssa.Lookup:
		fr.env[in] = x.lookup(fr, st, in)
	case *ssa.MapUpdate:
		m := x.val(fr, st, in.Map).(*Term)
		x.deref(st, m, in)
		x.mapSet(st, m, under(in.Map.Type()).(*types.Map), x.val(fr, st, in.Key), x.val(fr, st, in.Value))
		x.checkGuardMap(fr, st, in.Map, in, true)
	case *ssa.MakeMap:
		r := x.newRef(st)
		x.mapInit(st, r, under(in.Type()).(*types.Map))
		fr.env[in] = r
	case *ssa.MakeChan:
		fr.env[in] = x.newRef(st)
	case *ssa.MakeSlice:
		n := x.val(fr, st, in.Len).(*Term)
		c := x.val(fr, st, in.Cap).(*Term)
		fr.env[in] = x.makeSlice(st, under(in.Type()).(*types.Slice).Elem(), n, c)
	case *ssa.Slice:
		fr.env[in] = x.slice(fr, st, in)
	case *ssa.MakeInterface:
		v := x.val(fr, st, in.X)
		fr.env[in] = &IfaceV{ct: in.X.Type(), cv: v}
		iv := fr.env[in].(*IfaceV)
		x.flat(st, iv, in.Type())
	case *ssa.ChangeInterface:
		fr.env[in] = x.val(fr, st, in.X)
	case *ssa.ChangeType:
		v := x.val(fr, st, in.X)
		if s, ok := v.(*StructV); ok {
			v = &StructV{in.Type(), s.fs}
		}
		fr.env[in] = v
	case *ssa.Convert:
		fr.env[in] = x.convert(st, x.val(fr, st, in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		x.fail("multiconvert")
	case *ssa.SliceToArrayPointer:
		x.fail("slice to array pointer")
	case *ssa.MakeClosure:
		f := &FuncV{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.bind = append(f.bind, x.val(fr, st, b))
		}
		fr.env[in] = f
	case *ssa.Extract:
		v := x.val(fr, st, in.Tuple)
		fr.env[in] = v.(*TupleV).vs[in.Index]
	case *ssa.Range:
		fr.env[in] = x.rangeIter(fr, st, in)
	case *ssa.Defer:
		d := deferred{call: &in.Call, site: in}
		d.fn, d.args = x.callee(fr, st, &in.Call)
		fr.defers = append(fr.defers, d)
	case *ssa.Go:
		x.note("goroutine started in " + fr.fn.String() + " is verified separately, not interleaved")
	case *ssa.Send:
		x.note("channel send in " + fr.fn.String() + " has no modelled effect")
	case *ssa.TypeAssert:
		x.fail("type assert")
	default:
		x.fail("unsupported instruction %T in %s", in, fr.fn)
	}
}

func strByte(s, i *Term) *Term {
	if s.op == "str" && i.isInt() && i.i64() >= 0 && i.i64() < int64(len(s.name)) {
		return Int(int64(s.name[i.i64()]))
	}
	return Schr(s, i)
}

func (x *Exec) indexAddr(fr *Frame, st *State, v Val, t types.Type, i *Term, in ssa.Instruction) Val {
	switch u := under(t).(type) {
	case *types.Slice:
		s := v.(*SliceV)
		x.bounds(st, i, s.n, in)
		if s.o != nil {
			return &Loc{pre: "bmem", idx: []*Term{s.a}, typ: u.Elem(), bytePos: Add(s.o, i)}
		}
		l := elemLoc(u.Elem(), s.a, i)
		if s.base != nil {
			l.also = elemLoc(u.Elem(), s.base, Add(s.boff, i))
		}
		return l
	case *types.Pointer:
		a := under(u.Elem()).(*types.Array)
		var r *Term
		switch w := v.(type) {
		case *Term:
			r = w
		case *Loc:
			x.fail("array inside a component")
		}
		x.bounds(st, i, Int(a.Len()), in)
		if isByte(a.Elem()) {
			return &Loc{pre: "bmem", idx: []*Term{r}, typ: a.Elem(), bytePos: i}
		}
		return elemLoc(a.Elem(), r, i)
	}
	x.fail("index of %s", t)
	return nil
}

func elemLoc(t types.Type, a, i *Term) *Loc {
	return &Loc{pre: "mem:" + typeKey(t), idx: []*Term{a, i}, typ: t}
}

func (x *Exec) bounds(st *State, i, n *Term, in ssa.Instruction) {
	c := And(Le(Int(0), i), Lt(i, n))
	if c == True {
		return
	}
	if x.panics {
		x.oblige(st, "bounds", "index out of range", x.pos(in), c)
	}
	if len(c.bound) == 0 {
		x.assume(st, c)
	}
}

func (x *Exec) unop(fr *Frame, st *State, in *ssa.UnOp) Val {
	v := x.val(fr, st, in.X)
	switch in.Op {
	case token.MUL:
		t := elemOfPtr(in.X.Type())
		if g, ok := in.X.(*ssa.Global); ok {
			if gv := x.constGlobal(st, g, t); gv != nil {
				return gv
			}
		}
		l := x.ptrLoc(st, v, t, in)
		x.checkGuard(fr, st, l, in, false)
		return x.load(st, l)
	case token.NOT:
		return Not(v.(*Term))
	case token.SUB:
		if v.(*Term).sort == SFlt {
			return App("fneg", SFlt, v.(*Term))
		}
		return wrap(Sub(Int(0), v.(*Term)), in.Type())
	case token.XOR:
		_, hi, _ := intRange(in.Type())
		if _, s, _ := isSignedInt(in.Type()); s {
			return Sub(Int(-1), v.(*Term))
		}
		return Sub(hi, v.(*Term))
	case token.ARROW:
		x.note("channel receive yields an arbitrary value")
		r := x.freshVal(st, "recv", in.Type())
		return r
	}
	x.fail("unop %s", in.Op)
	return nil
}

func (x *Exec) constGlobal(st *State, g *ssa.Global, t types.Type) Val {
	switch g.String() {
	case "time.UTC":
		return Int(0)
	case "time.Local":
		return Int(1)
	}
	if types.Identical(t, types.Universe.Lookup("error").Type()) && (!strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) || x.p.globInit[g] != nil) {
		return errGlobal(g)
	}
	if s, ok := x.p.constGlob[g]; ok {
		if isByteSlice(t) {
			a := Int(-5000000 - int64(len(g.String()))*0 - int64(globID(g)))
			// the array of a constant []byte global
			sl := &SliceV{elem: under(t).(*types.Slice).Elem(), a: a, o: Int(0), n: Int(int64(len(s))), c: Int(int64(len(s)))}
			h := x.heapGet(st, "bmem", heapSort(SByt, 1))
			x.fact(st, Eq(sv(Select(h, a), Int(0), Int(int64(len(s)))), StrLit(s)))
			return sl
		}
	}
	return nil
}

// errGlobal is the value of a package variable that holds an error: none of
// them is nil, and they differ.
func errGlobal(g *ssa.Global) *IfaceV { return errNamed(g.String()) }

var errAlias = map[string]string{"os.ErrNotExist": "io/fs.ErrNotExist", "os.ErrExist": "io/fs.ErrExist"}
var errIDs = map[string]int{}

func errNamed(n string) *IfaceV {
	if a, ok := errAlias[n]; ok {
		n = a
	}
	tagMu.Lock()
	if errIDs[n] == 0 {
		errIDs[n] = len(errIDs) + 1
	}
	id := errIDs[n]
	tagMu.Unlock()
	return &IfaceV{t: Int(typeTag(types.Universe.Lookup("string").Type())), p: Int(-7000000 - int64(id))}
}

// otherErr makes an error that is none of the given ones.
func otherErr(x *Exec, st *State, names ...string) Val {
	e := freshErr(x, st).(*IfaceV)
	for _, n := range names {
		b := errNamed(n)
		x.fact(st, Not(App("errorsIs", SBool, e.t, e.p, b.t, b.p)))
	}
	return e
}

var globIDs = map[*ssa.Global]int{}

func globID(g *ssa.Global) int {
	tagMu.Lock()
	defer tagMu.Unlock()
	if n, ok := globIDs[g]; ok {
		return n
	}
	globIDs[g] = len(globIDs) + 1
	return globIDs[g]
}

func isByteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	return ok && isByte(s.Elem())
}

func (x *Exec) eqVal(st *State, a, b Val, t types.Type) *Term {
	switch u := under(t).(type) {
	case *types.Interface:
		ia, ib := a.(*IfaceV), b.(*IfaceV)
		fa, fb := x.flat(st, ia, t), x.flat(st, ib, t)
		if fb[0].isInt() && fb[0].i64() == 0 {
			return Eq(fa[0], Int(0))
		}
		if fa[0].isInt() && fa[0].i64() == 0 {
			return Eq(fb[0], Int(0))
		}
		return And(Eq(fa[0], fb[0]), Eq(fa[1], fb[1]))
	case *types.Slice:
		sa, sb := a.(*SliceV), b.(*SliceV)
		if sb.a.isInt() && sb.a.i64() == 0 {
			return Eq(sa.a, Int(0))
		}
		if sa.a.isInt() && sa.a.i64() == 0 {
			return Eq(sb.a, Int(0))
		}
		// only in specifications: same content
		if sa.o != nil {
			return Eq(x.bytesOf(st, sa), x.bytesOf(st, sb))
		}
		if isStruct(u.Elem()) {
			return And(Eq(sa.a, sb.a), Eq(sa.n, sb.n))
		}
		return And(Eq(sa.a, sb.a), Eq(sa.n, sb.n))
	case *types.Struct:
		if isOpq(t) {
			return Eq(a.(*Term), b.(*Term))
		}
		if isTime(t) {
			return Eq(a.(*StructV).fs[0].(*Term), b.(*StructV).fs[0].(*Term))
		}
		r := True
		for i := 0; i < u.NumFields(); i++ {
			if isProtoInternal(u.Field(i)) {
				continue
			}
			r = And(r, x.eqVal(st, a.(*StructV).fs[i], b.(*StructV).fs[i], u.Field(i).Type()))
		}
		return r
	}
	fa, fb := x.flat(st, a, t), x.flat(st, b, t)
	r := True
	for i := range fa {
		r = And(r, Eq(fa[i], fb[i]))
	}
	return r
}

func (x *Exec) binop(fr *Frame, st *State, in *ssa.BinOp) Val {
	a, b := x.val(fr, st, in.X), x.val(fr, st, in.Y)
	return x.binopV(st, in.Op, a, b, in.X.Type(), in.Y.Type(), in.Type(), in)
}

func (x *Exec) binopV(st *State, op token.Token, a, b Val, xt, yt, rt types.Type, in ssa.Instruction) Val {
	switch op {
	case token.EQL, token.NEQ:
		t := xt
		if types.IsInterface(xt) != types.IsInterface(yt) {
			// comparison of an interface with a concrete value
			if types.IsInterface(yt) {
				a, b = b, a
				xt, yt = yt, xt
			}
			if bi, ok := b.(*IfaceV); ok {
				_ = bi
			} else {
				b = &IfaceV{ct: yt, cv: b}
			}
			t = xt
		}
		e := x.eqVal(st, a, b, t)
		if op == token.NEQ {
			e = Not(e)
		}
		return e
	}
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		x.fail("binop %s on %T %T", op, a, b)
	}
	if ta.sort == SStr {
		switch op {
		case token.ADD:
			return Cat(ta, tb)
		case token.LSS:
			return App("strlt", SBool, ta, tb)
		case token.GTR:
			return App("strlt", SBool, tb, ta)
		case token.LEQ:
			return Not(App("strlt", SBool, tb, ta))
		case token.GEQ:
			return Not(App("strlt", SBool, ta, tb))
		}
	}
	if ta.sort == SFlt {
		switch op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return App("f"+op.String(), SFlt, ta, tb)
		case token.LSS:
			return App("flt", SBool, ta, tb)
		case token.GTR:
			return App("flt", SBool, tb, ta)
		case token.LEQ:
			return App("fle", SBool, ta, tb)
		case token.GEQ:
			return App("fle", SBool, tb, ta)
		}
	}
	if ta.sort == SBool {
		switch op {
		case token.AND, token.LAND:
			return And(ta, tb)
		case token.OR, token.LOR:
			return Or(ta, tb)
		}
	}
	switch op {
	case token.ADD:
		return wrap(Add(ta, tb), rt)
	case token.SUB:
		return wrap(Sub(ta, tb), rt)
	case token.MUL:
		return wrap(Mul(ta, tb), rt)
	case token.QUO:
		if x.panics && !tb.isInt() {
			x.oblige(st, "div", "division by zero", x.pos(in), Not(Eq(tb, Int(0))))
		}
		_, s, _ := isSignedInt(rt)
		if !s {
			return Div(ta, tb)
		}
		// truncated division
		if tb.isInt() && tb.ival.Sign() > 0 {
			return Ite(Le(Int(0), ta), Div(ta, tb), Sub(Int(0), Div(Sub(Int(0), ta), tb)))
		}
		return wrap(App("sdiv", SInt, ta, tb), rt)
	case token.REM:
		_, s, _ := isSignedInt(rt)
		if !s {
			return Mod(ta, tb)
		}
		if tb.isInt() && tb.ival.Sign() > 0 {
			return Ite(Le(Int(0), ta), Mod(ta, tb), Sub(Int(0), Mod(Sub(Int(0), ta), tb)))
		}
		return App("srem", SInt, ta, tb)
	case token.LSS:
		return Lt(ta, tb)
	case token.GTR:
		return Lt(tb, ta)
	case token.LEQ:
		return Le(ta, tb)
	case token.GEQ:
		return Le(tb, ta)
	case token.SHL:
		if tb.isInt() && tb.i64() < 200 {
			return wrap(Mul(ta, pow2(int(tb.i64()))), rt)
		}
		return wrap(Mul(ta, App("pow2", SInt, tb)), rt)
	case token.SHR:
		if tb.isInt() && tb.i64() < 200 {
			return Div(ta, pow2(int(tb.i64())))
		}
		return App("shr", SInt, ta, tb)
	case token.AND:
		if ta.isInt() {
			ta, tb = tb, ta
		}
		if tb.isInt() {
			// low bit masks
			m := new(big.Int).Add(tb.ival, big.NewInt(1))
			if m.Sign() > 0 && new(big.Int).And(m, tb.ival).Sign() == 0 {
				return Mod(ta, BigInt(m))
			}
		}
		return App("bitand", SInt, ta, tb)
	case token.OR:
		return App("bitor", SInt, ta, tb)
	case token.XOR:
		return App("bitxor", SInt, ta, tb)
	case token.AND_NOT:
		return App("bitandnot", SInt, ta, tb)
	}
	x.fail("binop %s", op)
	return nil
}

// freshVal makes an arbitrary value of type t.
func (x *Exec) freshVal(st *State, hint string, t types.Type) Val {
	if tt, ok := t.(*types.Tuple); ok {
		r := &TupleV{}
		for i := 0; i < tt.Len(); i++ {
			r.vs = append(r.vs, x.freshVal(st, hint, tt.At(i).Type()))
		}
		return r
	}
	if isStruct(t) {
		r := &StructV{typ: t}
		s := under(t).(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if isProtoInternal(s.Field(i)) {
				r.fs = append(r.fs, zeroVal(s.Field(i).Type()))
				continue
			}
			r.fs = append(r.fs, x.freshVal(st, hint+"."+s.Field(i).Name(), s.Field(i).Type()))
		}
		return r
	}
	var ts []*Term
	for _, c := range comps(t) {
		ts = append(ts, Fresh(hint+c.suf, c.sort))
	}
	x.loadFacts(st, t, ts)
	if isTime(t) {
		x.timeFacts(st, ts[0])
	}
	return unflat(t, ts)
}

func (x *Exec) timeFacts(st *State, ns *Term) {}

// ---- slices

func (x *Exec) makeSlice(st *State, elem types.Type, n, c *Term) *SliceV {
	r := x.newRef(st)
	s := &SliceV{elem: elem, a: r, n: n, c: c}
	if isByte(elem) {
		s.o = Int(0)
		h := x.heapGet(st, "bmem", heapSort(SByt, 1))
		x.heapSet(st, "bmem", Store(h, r, bnew(zeros(n))), []*Term{r})
		return s
	}
	x.zeroElems(st, elem, r)
	return s
}

func zeros(n *Term) *Term {
	if n.isInt() && n.i64() <= 64 {
		return StrLit(strings.Repeat("\x00", int(n.i64())))
	}
	z := App("zeros", SStr, n)
	b := BVar("n", SInt)
	zb := App("zeros", SStr, b)
	addAxiom("zeros", "len", Forall([]*Term{b}, Implies(Le(Int(0), b), Eq(App("slen", SInt, zb), b)), []*Term{zb}))
	return z
}

// elemPaths lists the heaps that hold elements of type t.
func elemPaths(t types.Type) []comp {
	var out []comp
	var rec func(pre string, t types.Type)
	rec = func(pre string, t types.Type) {
		if isStruct(t) {
			s := under(t).(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if isProtoInternal(s.Field(i)) || s.Field(i).Name() == "_" {
					continue
				}
				rec(pre+"."+s.Field(i).Name(), s.Field(i).Type())
			}
			return
		}
		for i, c := range comps(t) {
			regHeap(pre+c.suf, t, i)
			out = append(out, comp{pre + c.suf, c.sort})
		}
	}
	rec("mem:"+typeKey(t), t)
	return out
}

func elemZeros(t types.Type) []*Term {
	var out []*Term
	var rec func(t types.Type)
	rec = func(t types.Type) {
		if isStruct(t) {
			s := under(t).(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if isProtoInternal(s.Field(i)) || s.Field(i).Name() == "_" {
					continue
				}
				rec(s.Field(i).Type())
			}
			return
		}
		x := &Exec{}
		out = append(out, x.flat(nil, zeroVal(t), t)...)
	}
	rec(t)
	return out
}

func (x *Exec) zeroElems(st *State, elem types.Type, r *Term) {
	zs := elemZeros(elem)
	for i, p := range elemPaths(elem) {
		h := x.heapGet(st, p.suf, heapSort(p.sort, 2))
		x.heapSet(st, p.suf, Store(h, r, ConstArr(arrSort(SInt, p.sort), zs[i])), []*Term{r})
	}
}

// appendVals appends one element. The result never shares memory with s (see
// the copying model in DESIGN.md), byte slices are exact.
func (x *Exec) appendVals(st *State, s *SliceV, vs []Val) *SliceV {
	if len(vs) == 0 {
		return s
	}
	r := x.newRef(st)
	n := s.n
	ps := elemPaths(s.elem)
	arrs := make([]*Term, len(ps))
	for i, p := range ps {
		h := x.heapGet(st, p.suf, heapSort(p.sort, 2))
		arrs[i] = Select(h, s.a)
		if s.a.isInt() && s.a.i64() == 0 {
			arrs[i] = ConstArr(arrSort(SInt, p.sort), elemZeros(s.elem)[i])
		}
	}
	for _, v := range vs {
		ts := x.flat(st, v, s.elem)
		// struct values: drop protobuf internals is not supported for values
		for i := range ps {
			arrs[i] = Store(arrs[i], n, ts[i])
		}
		n = Add(n, Int(1))
	}
	for i, p := range ps {
		h := x.heapGet(st, p.suf, heapSort(p.sort, 2))
		x.heapSet(st, p.suf, Store(h, r, arrs[i]), []*Term{r})
	}
	c := Fresh("cap", SInt)
	x.fact(st, And(Le(n, c), Le(c, pow2(62))))
	return &SliceV{elem: s.elem, a: r, n: n, c: c}
}

// appendSlice appends all of b.
func (x *Exec) appendSlice(st *State, s, b *SliceV) *SliceV {
	if b.n.isInt() && b.n.i64() <= 16 {
		var vs []Val
		for i := int64(0); i < b.n.i64(); i++ {
			vs = append(vs, x.load(st, elemLoc(s.elem, b.a, Int(i))))
		}
		return x.appendVals(st, s, vs)
	}
	if s.n.isInt() && s.n.i64() == 0 && s.a.isInt() && s.a.i64() == 0 {
		// append(nil, b...) is nil for an empty b
		r := x.newRef(st)
		for _, p := range elemPaths(s.elem) {
			h := x.heapGet(st, p.suf, heapSort(p.sort, 2))
			x.heapSet(st, p.suf, Store(h, r, Select(h, b.a)), []*Term{r})
		}
		c := Fresh("cap", SInt)
		x.fact(st, And(Le(b.n, c), Le(c, pow2(62))))
		z := Eq(b.n, Int(0))
		return &SliceV{elem: s.elem, a: Ite(z, Int(0), r), n: b.n, c: Ite(z, Int(0), c)}
	}
	r := x.newRef(st)
	n := Add(s.n, b.n)
	for _, p := range elemPaths(s.elem) {
		h := x.heapGet(st, p.suf, heapSort(p.sort, 2))
		na := concatArr(p.sort, Select(h, s.a), s.n, Select(h, b.a), b.n)
		x.heapSet(st, p.suf, Store(h, r, na), []*Term{r})
	}
	c := Fresh("cap", SInt)
	x.fact(st, And(Le(n, c), Le(c, pow2(62))))
	return &SliceV{elem: s.elem, a: r, n: n, c: c}
}

// concatArr(a, n, b, m) is a[0..n) followed by b.
func concatArr(s Sort, a, n, b, m *Term) *Term {
	if n.isInt() && n.ival.Sign() == 0 {
		return b
	}
	as := arrSort(SInt, s)
	fn := "acat:" + string(s)
	A, N, B, i := BVar("a", as), BVar("n", SInt), BVar("b", as), BVar("i", SInt)
	t := App(fn, as, A, N, B)
	sel := mk("select", "", s, []*Term{t, i}, nil, nil)
	selA := mk("select", "", s, []*Term{A, i}, nil, nil)
	addAxiom(fn, "def", Forall([]*Term{A, N, B, i}, Eq(sel, Ite(Lt(i, N), selA, Select(B, Sub(i, N)))), []*Term{sel}))
	// elements of b are found again
	j := BVar("j", SInt)
	selB := mk("select", "", s, []*Term{B, j}, nil, nil)
	addAxiom(fn, "def2", Forall([]*Term{A, N, B, j}, Implies(Le(Int(0), j), Eq(mk("select", "", s, []*Term{t, Add(N, j)}, nil, nil), selB)), []*Term{t, selB}))
	addAxiom(fn, "def3", Forall([]*Term{A, N, B, i}, Implies(Lt(i, N), Eq(sel, selA)), []*Term{t, selA}))
	return App(fn, as, a, n, b)
}

func (x *Exec) bytesOf(st *State, s *SliceV) *Term {
	h := x.heapGet(st, "bmem", heapSort(SByt, 1))
	r := sv(Select(h, s.a), s.o, s.n)
	if r.op == "app" && r.name == "sv" && len(r.bound) == 0 {
		x.fact(st, Eq(App("slen", SInt, r), s.n))
		x.slenFact(st, r)
	}
	if s.a.isInt() && s.a.i64() == 0 {
		return StrLit("")
	}
	return r
}

// newBytes allocates a byte slice with content s.
func (x *Exec) newBytes(st *State, s *Term) *SliceV {
	r := x.newRef(st)
	h := x.heapGet(st, "bmem", heapSort(SByt, 1))
	x.heapSet(st, "bmem", Store(h, r, bnew(s)), []*Term{r})
	n := Slen(s)
	x.slenFact(st, s)
	return &SliceV{elem: types.Typ[types.Uint8], a: r, o: Int(0), n: n, c: n}
}

func (x *Exec) slenFact(st *State, s *Term) {
	n := Slen(s)
	if !n.isInt() && len(n.bound) == 0 {
		var ps []*Term
		if s.op == "cat" {
			ps = s.args
		} else {
			ps = []*Term{s}
		}
		for _, p := range ps {
			l := Slen(p)
			if !l.isInt() {
				x.fact(st, And(Le(Int(0), l), Le(l, pow2(40))))
				x.fact(st, Eq(Eq(l, Int(0)), Eq(p, StrLit(""))))
			}
		}
	}
}

// appendBytes is exact: it writes in place if the capacity allows.
func (x *Exec) appendBytes(st *State, s *SliceV, add *Term) *SliceV {
	x.slenFact(st, add)
	l := Slen(add)
	if l.isInt() && l.ival.Sign() == 0 {
		return s
	}
	old := x.bytesOf(st, s)
	h := x.heapGet(st, "bmem", heapSort(SByt, 1))
	r := x.newRef(st)
	if d := Sub(s.c, s.n); d.isInt() && d.ival.Sign() == 0 {
		// no spare capacity (what is added is rarely empty)
		if !l.isInt() {
			x.note("append to a slice without spare capacity is taken to copy it also when nothing is added")
		}
		x.heapSet(st, "bmem", Store(h, r, bnew(Cat(old, add))), []*Term{r})
		c, n := Fresh("cap", SInt), Add(s.n, l)
		x.fact(st, And(Le(n, c), Le(c, pow2(62))))
		return &SliceV{elem: s.elem, a: r, o: Int(0), n: n, c: c}
	}
	fits := Le(Add(s.n, l), s.c)
	if s.a.isInt() && s.a.i64() == 0 {
		fits = Eq(l, Int(0))
	}
	if st.facts[Not(fits)] {
		fits = False
	}
	na := Ite(fits, s.a, r)
	in := Store(h, s.a, bwr(Select(h, s.a), Add(s.o, s.n), add))
	out := Store(h, r, bnew(Cat(old, add)))
	x.heapSet(st, "bmem", Ite(fits, in, out), []*Term{na})
	c := Fresh("cap", SInt)
	n := Add(s.n, l)
	if w := Cat(old, add); w.op == "cat" && Eq(n, Slen(w)) != True {
		x.fact(st, Eq(App("slen", SInt, w), n))
	}
	if x.prop == "C15" {
		w := bnew(Cat(old, add))
		x.fact(st, Eq(App("sv", SStr, w, Int(0), s.n), old))
		x.fact(st, Eq(App("sv", SStr, w, s.n, l), add))
	}
	x.fact(st, And(Le(n, c), Le(c, pow2(62))))
	return &SliceV{elem: s.elem, a: na, o: Ite(fits, s.o, Int(0)), n: n, c: Ite(fits, s.c, c)}
}

func (x *Exec) slice(fr *Frame, st *State, in *ssa.Slice) Val {
	v := x.val(fr, st, in.X)
	get := func(e ssa.Value) *Term {
		if e == nil {
			return nil
		}
		return x.val(fr, st, e).(*Term)
	}
	lo, hi, mx := get(in.Low), get(in.High), get(in.Max)
	if lo == nil {
		lo = Int(0)
	}
	switch u := under(in.X.Type()).(type) {
	case *types.Basic: // string
		s := v.(*Term)
		if hi == nil {
			hi = Slen(s)
		}
		return substr(s, lo, hi)
	case *types.Pointer:
		a := under(u.Elem()).(*types.Array)
		r, ok := v.(*Term)
		if !ok {
			x.fail("slice of array component")
		}
		n := Int(a.Len())
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		if isByte(a.Elem()) {
			return &SliceV{elem: a.Elem(), a: r, o: lo, n: Sub(hi, lo), c: Sub(mx, lo)}
		}
		if !(lo.isInt() && lo.ival.Sign() == 0) {
			x.fail("slice of array with offset")
		}
		return &SliceV{elem: a.Elem(), a: r, n: hi, c: mx}
	}
	return x.sliceOf(st, v.(*SliceV), lo, hi, mx, in)
}

func substr(s, lo, hi *Term) *Term {
	if lo.isInt() && lo.ival.Sign() == 0 && Eq(hi, Slen(s)) == True {
		return s
	}
	if s.op == "str" && lo.isInt() && hi.isInt() && lo.i64() <= hi.i64() && hi.i64() <= int64(len(s.name)) && lo.i64() >= 0 {
		return StrLit(s.name[lo.i64():hi.i64()])
	}
	if s.op == "app" && s.name == "sv" && lo.isInt() && hi.isInt() && s.args[2].isInt() && lo.i64() >= 0 && hi.i64() <= s.args[2].i64() && lo.i64() <= hi.i64() {
		return sv(s.args[0], Add(s.args[1], lo), Sub(hi, lo))
	}
	return App("substr", SStr, s, lo, hi)
}

func (x *Exec) sliceOf(st *State, s *SliceV, lo, hi, mx *Term, in ssa.Instruction) Val {
	if hi == nil {
		hi = s.n
	}
	c := s.c
	if mx != nil {
		c = mx
	}
	ok := And(Le(Int(0), lo), Le(lo, hi), Le(hi, c), Le(c, s.c))
	if ok != True {
		if x.panics {
			x.oblige(st, "bounds", "slice bounds out of range", x.pos(in), ok)
		}
		if len(ok.bound) == 0 {
			x.assume(st, ok)
		}
	}
	if s.o != nil {
		return &SliceV{elem: s.elem, a: s.a, o: Add(s.o, lo), n: Sub(hi, lo), c: Sub(c, lo)}
	}
	if lo.isInt() && lo.ival.Sign() == 0 {
		return &SliceV{elem: s.elem, a: s.a, n: hi, c: c, base: s.base, boff: s.boff}
	}
	// a copy with the same content
	x.note("a sub slice with a non zero start is modelled as a copy")
	r := x.newRef(st)
	for _, p := range elemPaths(s.elem) {
		h := x.heapGet(st, p.suf, heapSort(p.sort, 2))
		x.heapSet(st, p.suf, Store(h, r, shiftArr(p.sort, Select(h, s.a), lo)), []*Term{r})
	}
	v := &SliceV{elem: s.elem, a: r, n: Sub(hi, lo), c: Sub(c, lo), base: s.base, boff: s.boff}
	if v.base == nil {
		v.base, v.boff = s.a, lo
	} else {
		v.boff = Add(v.boff, lo)
	}
	return v
}

func shiftArr(s Sort, a, k *Term) *Term {
	as := arrSort(SInt, s)
	fn := "ashift:" + string(s)
	A, K, i := BVar("a", as), BVar("k", SInt), BVar("i", SInt)
	t := App(fn, as, A, K)
	sel := mk("select", "", s, []*Term{t, i}, nil, nil)
	addAxiom(fn, "def", Forall([]*Term{A, K, i}, Eq(sel, mk("select", "", s, []*Term{A, Add(K, i)}, nil, nil)), []*Term{sel}))
	return App(fn, as, a, k)
}

func (x *Exec) convert(st *State, v Val, from, to types.Type) Val {
	fu, tu := under(from), under(to)
	if tb, ok := tu.(*types.Basic); ok {
		switch {
		case tb.Info()&types.IsString != 0:
			switch f := fu.(type) {
			case *types.Slice:
				if isByte(f.Elem()) {
					return x.bytesOf(st, v.(*SliceV))
				}
				return App("runes", SStr, x.flat(st, v, from)...)
			case *types.Basic:
				if f.Info()&types.IsString != 0 {
					return v
				}
				return App("runestr", SStr, v.(*Term))
			}
		case tb.Info()&types.IsInteger != 0:
			if f, ok := fu.(*types.Basic); ok && f.Info()&types.IsFloat != 0 {
				r := App("f2i", SInt, v.(*Term))
				return wrap(r, to)
			}
			if _, ok := fu.(*types.Basic); ok {
				return x.convInt(v.(*Term), from, to)
			}
		case tb.Info()&types.IsFloat != 0:
			if f, ok := fu.(*types.Basic); ok && f.Info()&types.IsInteger != 0 {
				return i2f(v.(*Term))
			}
			if tb.Kind() == types.Float32 {
				return App("f32", SFlt, v.(*Term))
			}
			return v
		}
	}
	if ts, ok := tu.(*types.Slice); ok {
		if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsString != 0 && isByte(ts.Elem()) {
			return x.newBytes(st, v.(*Term))
		}
		return v
	}
	return v
}

func i2f(v *Term) *Term {
	if v.isInt() {
		return App("flt:"+v.ival.String(), SFlt)
	}
	return App("i2f", SFlt, v)
}

func (x *Exec) convInt(v *Term, from, to types.Type) *Term {
	fl, fh, _ := intRange(from)
	tl, th, _ := intRange(to)
	if tl.ival.Cmp(fl.ival) <= 0 && th.ival.Cmp(fh.ival) >= 0 {
		return v
	}
	return wrap(v, to)
}

// ---- maps

func mapHeaps(m *types.Map) (pre string, ks Sort) {
	ks = SInt
	if cs := comps(m.Key()); len(cs) == 1 {
		ks = cs[0].sort
	}
	return "map:" + typeKey(m.Key()) + ":" + typeKey(m.Elem()), ks
}

func (x *Exec) mapKey(st *State, m *types.Map, k Val) *Term {
	ts := x.flat(st, k, m.Key())
	if len(ts) != 1 {
		x.fail("map key %s", m.Key())
	}
	return ts[0]
}

func (x *Exec) mapInit(st *State, r *Term, m *types.Map) {
	pre, ks := mapHeaps(m)
	h := x.heapGet(st, pre+"#has", arrSort(SInt, arrSort(ks, SBool)))
	x.heapSet(st, pre+"#has", Store(h, r, ConstArr(arrSort(ks, SBool), False)), []*Term{r})
	for _, p := range mapPaths(m) {
		v := x.heapGet(st, p.suf, arrSort(SInt, arrSort(ks, p.sort)))
		_ = v
	}
	n := x.heapGet(st, pre+"#n", arrSort(SInt, SInt))
	x.heapSet(st, pre+"#n", Store(n, r, Int(0)), []*Term{r})
}

func mapPaths(m *types.Map) []comp {
	pre, _ := mapHeaps(m)
	var out []comp
	if isStruct(m.Elem()) {
		s := under(m.Elem()).(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			for j, c := range comps(s.Field(i).Type()) {
				regHeap(pre+"."+s.Field(i).Name()+c.suf, s.Field(i).Type(), j)
				out = append(out, comp{pre + "." + s.Field(i).Name() + c.suf, c.sort})
			}
		}
		return out
	}
	for j, c := range comps(m.Elem()) {
		regHeap(pre+c.suf, m.Elem(), j)
		out = append(out, comp{pre + c.suf, c.sort})
	}
	return out
}

func (x *Exec) mapHas(st *State, r *Term, m *types.Map, k *Term) *Term {
	pre, ks := mapHeaps(m)
	h := x.heapGet(st, pre+"#has", arrSort(SInt, arrSort(ks, SBool)))
	return And(Not(Eq(r, Int(0))), Select(Select(h, r), k))
}

func (x *Exec) mapGet(st *State, r *Term, m *types.Map, k *Term) Val {
	_, ks := mapHeaps(m)
	var ts []*Term
	for _, p := range mapPaths(m) {
		h := x.heapGet(st, p.suf, arrSort(SInt, arrSort(ks, p.sort)))
		ts = append(ts, Select(Select(h, r), k))
	}
	if isStruct(m.Elem()) {
		s := under(m.Elem()).(*types.Struct)
		v := &StructV{typ: m.Elem()}
		j := 0
		for i := 0; i < s.NumFields(); i++ {
			n := len(comps(s.Field(i).Type()))
			x.loadFacts(st, s.Field(i).Type(), ts[j:j+n])
			v.fs = append(v.fs, unflat(s.Field(i).Type(), ts[j:j+n]))
			j += n
		}
		return v
	}
	x.loadFacts(st, m.Elem(), ts)
	return unflat(m.Elem(), ts)
}

func (x *Exec) mapSet(st *State, r *Term, m *types.Map, key, v Val) {
	k := x.mapKey(st, m, key)
	pre, ks := mapHeaps(m)
	h := x.heapGet(st, pre+"#has", arrSort(SInt, arrSort(ks, SBool)))
	n := x.heapGet(st, pre+"#n", arrSort(SInt, SInt))
	had := Select(Select(h, r), k)
	x.heapSet(st, pre+"#n", Store(n, r, Ite(had, Select(n, r), Add(Select(n, r), Int(1)))), []*Term{r})
	x.heapSet(st, pre+"#has", Store(h, r, Store(Select(h, r), k, True)), []*Term{r})
	ts := x.flat(st, v, m.Elem())
	for i, p := range mapPaths(m) {
		vh := x.heapGet(st, p.suf, arrSort(SInt, arrSort(ks, p.sort)))
		x.heapSet(st, p.suf, Store(vh, r, Store(Select(vh, r), k, ts[i])), []*Term{r})
	}
}

func (x *Exec) mapDelete(st *State, r *Term, m *types.Map, key Val) {
	k := x.mapKey(st, m, key)
	pre, ks := mapHeaps(m)
	h := x.heapGet(st, pre+"#has", arrSort(SInt, arrSort(ks, SBool)))
	n := x.heapGet(st, pre+"#n", arrSort(SInt, SInt))
	had := Select(Select(h, r), k)
	x.heapSet(st, pre+"#n", Store(n, r, Ite(had, Sub(Select(n, r), Int(1)), Select(n, r))), []*Term{r})
	x.heapSet(st, pre+"#has", Store(h, r, Store(Select(h, r), k, False)), []*Term{r})
}

func (x *Exec) mapLen(st *State, r *Term, m *types.Map) *Term {
	pre, _ := mapHeaps(m)
	n := x.heapGet(st, pre+"#n", arrSort(SInt, SInt))
	v := Select(n, r)
	if !v.isInt() && len(v.bound) == 0 {
		x.fact(st, Le(Int(0), v))
	}
	return Ite(Eq(r, Int(0)), Int(0), v)
}

func (x *Exec) lookup(fr *Frame, st *State, in *ssa.Lookup) Val {
	v := x.val(fr, st, in.X)
	k := x.val(fr, st, in.Index)
	if b, ok := under(in.X.Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
		x.bounds(st, k.(*Term), Slen(v.(*Term)), in)
		return strByte(v.(*Term), k.(*Term))
	}
	m := under(in.X.Type()).(*types.Map)
	x.checkGuardMap(fr, st, in.X, in, false)
	r := v.(*Term)
	kt := x.mapKey(st, m, k)
	has := x.mapHas(st, r, m, kt)
	val := x.mapGet(st, r, m, kt)
	res := x.iteVal(st, has, val, zeroVal(m.Elem()), m.Elem())
	if in.CommaOk {
		return &TupleV{[]Val{res, has}}
	}
	return res
}

func (x *Exec) rangeIter(fr *Frame, st *State, in *ssa.Range) Val {
	v := x.val(fr, st, in.X)
	if m, ok := under(in.X.Type()).(*types.Map); ok {
		x.checkGuardMap(fr, st, in.X, in, false)
		_, ks := mapHeaps(m)
		r := x.newRef(st)
		name := "iter:" + string(ks)
		h := x.heapGet(st, name, arrSort(SInt, arrSort(ks, SBool)))
		x.heapSet(st, name, Store(h, r, ConstArr(arrSort(ks, SBool), False)), []*Term{r})
		return &IterV{kind: "map", m: v.(*Term), mt: m, seen: name, ref: r}
	}
	s := v.(*Term)
	if s.op != "str" {
		for f := range st.facts {
			if f.op == "=" && len(f.args) == 2 {
				if f.args[0] == s && f.args[1].op == "str" {
					s = f.args[1]
					break
				}
				if f.args[1] == s && f.args[0].op == "str" {
					s = f.args[0]
					break
				}
			}
		}
	}
	return &IterV{kind: "str", str: s}
}

// next runs the Next instruction of a loop header, forking on termination.
func (x *Exec) next(fr *Frame, st *State, in *ssa.Next, k func(st *State, v Val, done bool)) {
	it := x.val(fr, st, in.Iter).(*IterV)
	switch it.kind {
	case "str":
		if it.str.op != "str" {
			x.fail("range over an unknown string")
		}
		if it.pos >= len(it.str.name) {
			k(st, &TupleV{[]Val{False, Int(0), Int(0)}}, true)
			return
		}
		n := *it
		n.pos++
		fr.env[in.Iter] = &n
		k(st, &TupleV{[]Val{True, Int(int64(it.pos)), Int(int64(it.str.name[it.pos]))}}, false)
		return
	case "map":
		pre, ks := mapHeaps(it.mt)
		h := x.heapGet(st, it.seen, arrSort(SInt, arrSort(ks, SBool)))
		seen := Select(h, it.ref)
		hasH := x.heapGet(st, pre+"#has", arrSort(SInt, arrSort(ks, SBool)))
		dom := Select(hasH, it.m)
		// done: everything was visited
		d := st.clone()
		dfr := fr.clone()
		b := BVar("k", ks)
		x.assume(d, Or(Eq(it.m, Int(0)), Forall([]*Term{b}, Implies(Select(dom, b), Select(seen, b)), []*Term{Select(dom, b)})))
		zk, zv := zeroVal(it.mt.Key()), zeroVal(it.mt.Elem())
		_ = dfr
		key := Fresh("key", ks)
		x.loadFacts(st, it.mt.Key(), []*Term{key})
		x.assume(st, And(Not(Eq(it.m, Int(0))), Select(dom, key), Not(Select(seen, key))))
		x.heapSet(st, it.seen, Store(h, it.ref, Store(seen, key, True)), []*Term{it.ref})
		val := x.mapGet(st, it.m, it.mt, key)
		k(st, &TupleV{[]Val{True, unflat(it.mt.Key(), []*Term{key}), val}}, false)
		k(d, &TupleV{[]Val{False, zk, zv}}, true)
		return
	}
	x.fail("next of %s", it.kind)
}

func (x *Exec) selectStmt(fr *Frame, st *State, in *ssa.Select, k func(st *State, v Val)) {
	n := len(in.States)
	for i := 0; i < n; i++ {
		s := st.clone()
		tt := in.Type().(*types.Tuple)
		v := &TupleV{vs: []Val{Int(int64(i)), Fresh("ok", SBool)}}
		for j := 2; j < tt.Len(); j++ {
			v.vs = append(v.vs, x.freshVal(s, "recv", tt.At(j).Type()))
		}
		k(s, v)
	}
}

// ---- interfaces

func (x *Exec) typeAssertForks(fr *Frame, st *State, in *ssa.TypeAssert, k func(st *State, v Val)) bool {
	iv := x.val(fr, st, in.X).(*IfaceV)
	if types.IsInterface(in.AssertedType) {
		// interface to interface
		if iv.ct != nil {
			ok := types.Implements(iv.ct, under(in.AssertedType).(*types.Interface))
			if in.CommaOk {
				fr.env[in] = &TupleV{[]Val{iv, Bool(ok)}}
			} else {
				fr.env[in] = iv
			}
			return false
		}
		x.fail("assertion to interface %s", in.AssertedType)
	}
	if iv.ct != nil {
		same := types.Identical(types.Unalias(iv.ct), types.Unalias(in.AssertedType))
		var v Val
		if same {
			v = iv.cv
		} else {
			v = zeroVal(in.AssertedType)
			if !in.CommaOk {
				if x.panics {
					x.oblige(st, "assert", "failing type assertion", x.pos(in), False)
				}
				st.dead = true
				return true
			}
		}
		if in.CommaOk {
			fr.env[in] = &TupleV{[]Val{v, Bool(same)}}
		} else {
			fr.env[in] = v
		}
		return false
	}
	ts := x.flat(st, iv, in.X.Type())
	is := Eq(ts[0], Int(typeTag(in.AssertedType)))
	v := x.unboxVal(st, ts[1], in.AssertedType)
	if in.CommaOk {
		fr.env[in] = &TupleV{[]Val{x.iteVal(st, is, v, zeroVal(in.AssertedType), in.AssertedType), is}}
		return false
	}
	if x.panics {
		x.oblige(st, "assert", "failing type assertion", x.pos(in), is)
	}
	x.assume(st, is)
	fr.env[in] = v
	return false
}

func (x *Exec) unboxVal(st *State, p *Term, t types.Type) Val {
	if isStruct(t) {
		return x.load(st, refLoc(t, p))
	}
	cs := comps(t)
	if len(cs) == 1 {
		v := unflat(t, []*Term{unboxTerm(p, cs[0].sort)})
		if tt, ok := v.(*Term); ok {
			x.loadFacts(st, t, []*Term{tt})
		}
		return v
	}
	return x.load(st, &Loc{pre: "box:" + typeKey(t), idx: []*Term{p}, typ: t})
}

func debugf(f string, a ...any) {
	if os.Getenv("VGEN_TRACE") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

type loopAssignT = map[*ssa.BasicBlock]*LoopSpec

// isEntryHeap recognises the heap variables of an entry state (H7:name).
func isEntryHeap(s string) bool {
	if len(s) < 3 || s[0] != 'H' {
		return false
	}
	i := 1
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		i++
	}
	return i > 1 && i < len(s) && s[i] == ':'
}
