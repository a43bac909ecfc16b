package main

import (
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type LoopCtx struct {
	back func(fr *Frame, st *State, prev *ssa.BasicBlock)
	head *ssa.BasicBlock
}

type wset struct {
	refs    []*Term
	unknown bool
	fresh   bool
	sort    Sort
}

// loopCand is an automatic invariant "unchanged since entry, or allocated in
// the loop" for a reference.
type loopCand struct {
	phi  *ssa.Phi
	heap string
	ref  *Term
	comp int
	dead bool
}

func isRefComp(t types.Type, i int) bool {
	if isOpq(t) || isTime(t) {
		return false
	}
	switch under(t).(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return i == 0
	case *types.Slice:
		return i == 0
	case *types.Interface:
		return i == 1
	}
	return false
}

// concreteTrip reports loops with a known small number of iterations.
func (x *Exec) concreteTrip(fr *Frame, st *State, b, prev *ssa.BasicBlock, li *loopHead) bool {
	sh := shapeOf(b, li)
	if sh == nil {
		return false
	}
	if sh.next != nil {
		it, ok := fr.env[sh.next.Iter].(*IterV)
		return ok && it.kind == "str" && it.str.op == "str" && len(it.str.name) <= 40
	}
	if !sh.step1 {
		return false
	}
	var n Val
	if sh.over != nil {
		if v, ok := fr.env[sh.over]; ok {
			if s, ok := v.(*SliceV); ok {
				n = s.n
			}
		} else if c, ok := sh.over.(*ssa.Const); ok {
			if s, ok := constVal(c).(*SliceV); ok {
				n = s.n
			}
		}
	}
	if n == nil {
		switch y := sh.bound.(type) {
		case *ssa.Const:
			n = constVal(y)
		default:
			n = fr.env[y]
		}
	}
	t, ok := n.(*Term)
	if !ok || !t.isInt() || t.i64() > 40 {
		return false
	}
	i := x.val(fr, st, sh.init)
	it, ok := i.(*Term)
	return ok && it.isInt()
}

func (x *Exec) phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs[:numPhis(b)] {
		out = append(out, in.(*ssa.Phi))
	}
	return out
}

func (x *Exec) enterLoop(fr *Frame, st *State, b, prev *ssa.BasicBlock, li *loopHead) {
	if x.concreteTrip(fr, st, b, prev, li) {
		fr.unroll[b] = 0
		delete(fr.loops, b)
		x.evalPhis(fr, st, b, prev)
		x.runInstrs(fr, st, b, numPhis(b))
		return
	}
	mark := termSeqNow()
	sh := shapeOf(b, li)
	phis := x.phisOf(b)
	entryAlloc := st.alloc()
	x.evalPhis(fr, st, b, prev)
	inits := map[*ssa.Phi]Val{}
	for _, p := range phis {
		inits[p] = fr.env[p]
	}
	spec := x.matchLoop(fr, st, b, sh)
	ws := map[string]*wset{}
	dead := map[string]bool{}
	key := func(c *loopCand) string {
		if c.phi != nil {
			return "phi:" + c.phi.Name() + ":" + string(rune('0'+c.comp))
		}
		return c.heap + "@" + itoa(c.ref.id)
	}
	cands := func() []*loopCand {
		var out []*loopCand
		add := func(c *loopCand) {
			if !dead[key(c)] {
				out = append(out, c)
			}
		}
		for _, p := range phis {
			for i := range compsOf(p.Type()) {
				if isRefComp(p.Type(), i) {
					add(&loopCand{phi: p, comp: i})
				}
			}
		}
		for _, n := range sortedKeys(ws) {
			w := ws[n]
			if w.unknown || heapKindOf(n) != "ref" {
				continue
			}
			for _, r := range w.refs {
				add(&loopCand{heap: n, ref: r})
			}
		}
		return out
	}
	entry := st.clone()
	// havoc prepares an arbitrary iteration in f, s.
	var hv []candHv
	havoc := func(f *Frame, s *State) {
		hv = nil
		s.abase = Fresh("A", SInt)
		s.aoff = 0
		s.add(Le(entryAlloc, s.abase), false)
		for _, n := range sortedKeys(ws) {
			w := ws[n]
			h := x.heapGet(s, n, w.sort)
			switch {
			case w.unknown:
				nh := Fresh("H:"+n, w.sort)
				x.setHeapBase(nh, s.abase)
				x.heapFacts(nh, n, w.sort, s.abase)
				x.heapSet(s, n, nh, nil)
			case len(w.refs) == 0 && len(strings.TrimPrefix(n, "g:")) != len(n) && !strings.HasPrefix(string(w.sort), "(Array Int"):
				x.heapSet(s, n, Fresh("H:"+n, w.sort), nil)
			default:
				for _, r := range w.refs {
					v := Fresh("L:"+n, w.sort.elem())
					h = Store(h, r, v)
					x.heapSet(s, n, h, []*Term{r})
					x.havocFacts(s, n, w.sort.elem(), v)
				}
				if w.fresh {
					s.writes = &wNode{s.writes, n, []*Term{Add(s.abase, Int(1))}, wn(s.writes) + 1, nil}
				}
			}
		}
		for _, p := range phis {
			v := x.freshVal(s, "phi_"+p.Comment, p.Type())
			f.env[p] = v
		}
		if sh != nil && sh.phi != nil {
			i := f.env[sh.phi].(*Term)
			init := inits[sh.phi].(*Term)
			if sh.step1 {
				s.add(Le(init, i), false)
				var bound *Term
				if sh.over != nil {
					if v, ok := f.env[sh.over].(*SliceV); ok && !li.body[blockOf(sh.over)] {
						bound = v.n
					}
				} else if c, ok := sh.bound.(*ssa.Const); ok {
					bound = constVal(c).(*Term)
				} else if !li.body[blockOf(sh.bound)] {
					if t, ok := f.env[sh.bound].(*Term); ok {
						bound = t
					}
				}
				if bound != nil {
					if sh.plus1 {
						s.add(Or(Eq(i, init), Lt(i, bound)), false)
					} else {
						s.add(Or(Eq(i, init), Le(i, bound)), false)
					}
				}
			}
		}
		for _, c := range cands() {
			v, iv := x.candVal(f.env[c.phi0()], s, c), x.candVal(inits[c.phi], entry, c)
			if v == nil || iv == nil || v == iv {
				continue
			}
			hv = append(hv, candHv{v, iv})
			s.add(Or(Eq(v, iv), And(Lt(entryAlloc, rootOf(v)), Le(rootOf(v), s.abase))), false)
			if iv.isInt() && iv.i64() == 0 {
				s.add(Or(Eq(v, iv), Lt(entryAlloc, v), isSubTerm(v)), false)
			}
		}
	}
	for round := 0; ; round++ {
		if round > 8 {
			x.fail("loop write set does not converge in %s", fr.fn)
		}
		x.recMode++
		s, f := st.clone(), fr.clone()
		havoc(f, s)
		if spec != nil {
			for _, t := range x.loopInv(spec, f, s, b, sh, entry, inits) {
				s.add(t.t, false)
			}
		}
		w0 := s.writes
		hvs := hv
		changed := false
		cs := cands()
		f.k = func(*State, []Val) {}
		f.stop = func(_ *State, _ *Frame, bb, _ *ssa.BasicBlock) bool { return !li.body[bb] }
		f.stopAt = nil
		f.loops[b] = &LoopCtx{head: b, back: func(bf *Frame, bs *State, bprev *ssa.BasicBlock) {
			for n := bs.writes; n != w0 && n != nil; n = n.up {
				w := ws[n.heap]
				if w == nil {
					w = &wset{sort: bs.heaps[n.heap].sort}
					ws[n.heap] = w
					changed = true
				}
				if w.unknown {
					continue
				}
				if n.idx == nil {
					if strings.HasPrefix(n.heap, "g:") && !strings.HasPrefix(string(w.sort), "(Array Int") {
						continue
					}
					w.unknown = true
					changed = true
					debugf("loop %s: unknown write to %s", x.blockPos(b), n.heap)
					continue
				}
				if len(n.idx) == 0 {
					continue
				}
				inv, fresh, ok := x.classify(bs, n.idx[0], mark, entryAlloc, hvs)
				if !ok {
					debugf("loop %s: unclassified write to %s at %s", x.blockPos(b), n.heap, n.idx[0])
					w.unknown = true
					changed = true
					continue
				}
				if fresh && !w.fresh {
					w.fresh = true
					changed = true
				}
				for _, r := range inv {
					has := false
					for _, q := range w.refs {
						if q == r {
							has = true
						}
					}
					if !has {
						w.refs = append(w.refs, r)
						changed = true
					}
				}
			}
			i := predIndex(b, bprev)
			for _, c := range cs {
				if dead[key(c)] {
					continue
				}
				var v *Term
				if c.phi != nil {
					v = x.candVal(x.val(bf, bs, c.phi.Edges[i]), bs, c)
				} else {
					v = x.candVal(nil, bs, c)
				}
				iv := x.candVal(inits[c.phi], entry, c)
				if v == nil || iv == nil || !x.candHolds(bs, v, iv, entryAlloc, f, c) {
					dead[key(c)] = true
					changed = true
					debugf("loop %s: candidate %s dropped: %v", x.blockPos(b), key(c), v)
				}
			}
		}}
		x.runInstrs(f, s, b, numPhis(b))
		x.recMode--
		if !changed {
			break
		}
	}
	// the real run
	where := x.blockPos(b)
	if spec != nil {
		x.loopUsed[spec]++
		for _, t := range x.loopInv(spec, fr, st, b, sh, entry, inits) {
			x.oblige(st, "loop-entry", t.label, where, t.t)
		}
	}
	havoc(fr, st)
	if spec != nil {
		for _, t := range x.loopInv(spec, fr, st, b, sh, entry, inits) {
			s := t.t
			st.add(s, false)
		}
		x.guardReach(st, "loop", where)
	}
	fr.loops[b] = &LoopCtx{head: b, back: func(bf *Frame, bs *State, bprev *ssa.BasicBlock) {
		if spec == nil || x.recMode > 0 {
			return
		}
		f2 := bf.clone()
		x.evalPhis(f2, bs, b, bprev)
		for _, t := range x.loopInv(spec, f2, bs, b, sh, entry, inits) {
			x.oblige(bs, "loop", t.label, where, t.t)
		}
	}}
	x.runInstrs(fr, st, b, numPhis(b))
}

func (c *loopCand) phi0() ssa.Value {
	if c.phi == nil {
		return nil
	}
	return c.phi
}

func isSubTerm(v *Term) *Term { return Lt(v, Int(0)) }

func wn(w *wNode) int {
	if w == nil {
		return 0
	}
	return w.n
}

func blockOf(v ssa.Value) *ssa.BasicBlock {
	if in, ok := v.(ssa.Instruction); ok {
		return in.Block()
	}
	return nil
}

func compsOf(t types.Type) []comp {
	if isStruct(t) {
		return nil
	}
	return comps(t)
}

func (x *Exec) blockPos(b *ssa.BasicBlock) string {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return x.pos(in)
		}
	}
	return b.Parent().Name()
}

func (x *Exec) candVal(v Val, st *State, c *loopCand) *Term {
	if c.phi != nil {
		if v == nil {
			return nil
		}
		return x.flat(st, v, c.phi.Type())[c.comp]
	}
	h, ok := st.heaps[c.heap]
	if !ok {
		h = x.heapInit(c.heap, x.heapSrt[c.heap])
	}
	if len(h.sort) > 0 && h.sort.elem() != SInt {
		return nil
	}
	return Select(h, c.ref)
}

func (x *Exec) candHolds(st *State, v, iv, entryAlloc *Term, f *Frame, c *loopCand) bool {
	var rec func(v *Term) bool
	rec = func(v *Term) bool {
		if v == iv {
			return true
		}
		if b, ok := isAlloc(v); ok && isNewer(b, v, entryAlloc) {
			return true
		}
		if v.op == "ite" {
			return rec(v.args[1]) && rec(v.args[2])
		}
		return false
	}
	if rec(v) {
		return true
	}
	goal := Or(Eq(v, iv), Lt(entryAlloc, rootOf(v)))
	if iv.isInt() && iv.i64() == 0 {
		goal = Or(Eq(v, iv), And(Lt(entryAlloc, rootOf(v)), Or(Lt(entryAlloc, v), isSubTerm(v))))
	}
	if st.facts[goal] {
		return true
	}
	as := append(st.pcList(), Not(goal))
	r := x.z.check(buildScript(as, false), 300)
	if r != "unsat" && os.Getenv("VGEN_CAND") != "" {
		os.WriteFile("/tmp/cand.smt2", []byte(buildScript(as, false)), 0o644)
		debugf("cand %s: %s", v, r)
	}
	return r == "unsat"
}

// isNewer reports whether allocation v (of base b) was made after the point
// where the allocation counter was entry.
func isNewer(b, v, entry *Term) bool {
	eb, ek, _ := splitOff(entry)
	if eb.op != "var" || !strings.HasPrefix(eb.name, "A!") {
		return false
	}
	_, k, _ := splitOff(v)
	if eb == b {
		return k > ek
	}
	return allocOrder(b) > allocOrder(eb)
}

// classify splits the references a write may go to into ones that do not
// change in the loop and ones allocated in the loop.
func (x *Exec) classify(st *State, r *Term, mark int, entryAlloc *Term, cs []candHv) (inv []*Term, fresh, ok bool) {
	var rec func(r *Term) bool
	rec = func(r *Term) bool {
		if b, isA := isAlloc(r); isA && isNewer(b, r, entryAlloc) {
			fresh = true
			return true
		}
		if r.op == "ite" {
			return rec(r.args[1]) && rec(r.args[2])
		}
		if isSub(r) && !oldTerm(r, mark) {
			n := len(inv)
			if !rec(r.args[0]) {
				return false
			}
			for i := n; i < len(inv); i++ {
				inv[i] = App(r.name, SInt, inv[i])
			}
			return true
		}
		if oldTerm(r, mark) {
			inv = append(inv, r)
			return true
		}
		for _, c := range cs {
			if c.v == r {
				fresh = true
				if !(c.iv.isInt() && c.iv.i64() == 0) {
					inv = append(inv, c.iv)
				}
				return true
			}
		}
		// known to be new?
		// (writes to nil panic or write nothing)
		goal := Or(Eq(r, Int(0)), Lt(entryAlloc, rootOf(r)))
		if st.facts[goal] || x.z.check(buildScript(append(st.pcList(), Not(goal)), false), 300) == "unsat" {
			fresh = true
			return true
		}
		return false
	}
	ok = rec(r)
	return
}

type candHv struct{ v, iv *Term }

// oldTerm reports terms that only mention variables created before mark.
func oldTerm(t *Term, mark int) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		if t.op == "var" {
			return t.id <= mark || isEntryHeap(t.name) || strings.HasPrefix(t.name, "glob:")
		}
		for _, a := range t.args {
			if !rec(a) {
				return false
			}
		}
		return true
	}
	return rec(t)
}

func termSeqNow() int {
	termMu.Lock()
	defer termMu.Unlock()
	return termSeq
}

func (x *Exec) havocFacts(st *State, heap string, s Sort, v *Term) {
	if s == SInt {
		switch heapKindOf(heap) {
		case "ref":
			knownOld.Store(v, oldRef{st.abase, 0})
			st.add(Le(v, st.abase), false)
			st.add(Le(rootOf(v), st.abase), false)
		case "len":
			st.add(And(Le(Int(0), v), Le(v, pow2(62))), false)
		default:
			if lo, hi, ok := heapRange(heap); ok {
				st.add(And(Le(lo, v), Le(v, hi)), false)
			}
		}
	} else if strings.HasPrefix(string(s), "(Array Int Int") && heapKindOf(heap) != "" {
		x.setHeapBase(v, st.abase)
		b := BVar("h", SInt)
		t := mk("select", "", SInt, []*Term{v, b}, nil, nil)
		switch heapKindOf(heap) {
		case "ref":
			addAxiom("var:"+v.name, "wf", Forall([]*Term{b}, And(Le(t, st.abase), Le(App("root", SInt, t), st.abase)), []*Term{t}))
		case "len":
			addAxiom("var:"+v.name, "wf", Forall([]*Term{b}, Le(Int(0), t), []*Term{t}))
		}
	}
}

type labelled struct {
	label string
	t     *Term
}

// loopInv evaluates the invariants of a loop at its header.
func (x *Exec) loopInv(spec *LoopSpec, fr *Frame, st *State, b *ssa.BasicBlock, sh *loopShape, entry *State, inits map[*ssa.Phi]Val) []labelled {
	env := x.specEnvRoot(st)
	env.loopEntry, env.loopInits = entry, inits
	env.fr = fr
	env.head = b
	env.lets = append(env.lets, spec.lets)
	switch spec.kind {
	case "loopOver":
		i := fr.env[sh.phi].(*Term)
		if sh.plus1 {
			i = Add(i, Int(1))
		}
		env.vars[spec.params[0]] = i
		var s Val
		if v, ok := fr.env[sh.over]; ok && sh.over.Type() != nil {
			s = v
		} else {
			s = x.val(fr, st, sh.over)
		}
		if li := x.p.loopInfo(fr.fn).head[b]; li != nil && li.body[blockOf(sh.over)] {
			// the slice is computed anew in every iteration
			s = x.reeval(fr, st, sh.over)
		}
		env.vars[spec.params[1]] = s
	case "loopIter":
		it := x.val(fr, st, iterOf(b))
		_, p := x.iterState(st, x.flat(st, it, types.NewInterfaceType(nil, nil))[1])
		env.vars[spec.params[0]] = p
	case "loopMap":
		it := fr.env[sh.next.Iter].(*IterV)
		_, ks := mapHeaps(it.mt)
		h := x.heapGet(st, it.seen, arrSort(SInt, arrSort(ks, SBool)))
		env.seen = Select(h, it.ref)
		env.vars[spec.params[1]] = it.m
		env.vars[spec.params[0]] = Int(0)
	}
	var out []labelled
	for _, c := range spec.clauses {
		if c.kind != "invariant" {
			continue
		}
		t := x.evalClause(env, c)
		out = append(out, labelled{c.label, t})
	}
	return out
}

// reeval evaluates a value that is recomputed in a loop header.
func (x *Exec) reeval(fr *Frame, st *State, v ssa.Value) Val {
	switch w := v.(type) {
	case *ssa.UnOp:
		f := fr.clone()
		if in, ok := w.X.(ssa.Instruction); ok {
			f.env[w.X] = x.reeval(fr, st, w.X)
			_ = in
		}
		return x.unop(f, st, w)
	case *ssa.FieldAddr:
		f := fr.clone()
		if _, ok := w.X.(ssa.Instruction); ok {
			f.env[w.X] = x.reeval(fr, st, w.X)
		}
		x.step(f, st, w)
		return f.env[w]
	case *ssa.Call:
		var r Val
		n := 0
		x.pure++
		x.call(fr.clone(), st.clone(), &w.Call, w, func(_ *State, res []Val) { r = packRes(w.Type(), res); n++ })
		x.pure--
		if n == 1 {
			return r
		}
		x.fail("slice of a loop is computed with branches")
	}
	return x.val(fr, st, v)
}

// matchLoop finds the specification of a loop.
func (x *Exec) matchLoop(fr *Frame, st *State, b *ssa.BasicBlock, sh *loopShape) *LoopSpec {
	if x.c == nil {
		return nil
	}
	if s, ok := x.loopAssign[b]; ok {
		return s
	}
	var match []*LoopSpec
	for _, s := range x.c.loops {
		switch s.kind {
		case "loopIter":
			if iterOf(b) != nil {
				match = append(match, s)
			}
		case "loopOver":
			if sh == nil || sh.over == nil || sh.phi == nil {
				continue
			}
			sl, ok := under(sh.over.Type()).(*types.Slice)
			if !ok || !types.Identical(types.Unalias(sl.Elem()), types.Unalias(s.elem)) {
				continue
			}
			match = append(match, s)
		case "loopMap":
			if sh == nil || sh.next == nil {
				continue
			}
			it, ok := fr.env[sh.next.Iter].(*IterV)
			if !ok || it.kind != "map" || !types.Identical(it.mt.Key(), s.key) || !types.Identical(it.mt.Elem(), s.elem) {
				continue
			}
			match = append(match, s)
		}
	}
	if len(match) == 0 {
		for _, s := range x.c.loops {
			if s.kind == "loopAny" {
				match = append(match, s)
			}
		}
	}
	if len(match) == 0 {
		return nil
	}
	pick := match[len(match)-1]
	if len(match) > 1 {
		used := map[*LoopSpec]bool{}
		for _, s := range x.loopAssign {
			used[s] = true
		}
		for _, m := range match {
			if !used[m] {
				pick = m
				break
			}
		}
	}
	x.loopAssign[b] = pick
	return pick
}

func (x *Exec) guardReach(st *State, kind, where string) {
	if x.recMode > 0 || x.pure > 0 {
		return
	}
	k := kind + where
	if x.guarded[k] >= 3 {
		return
	}
	x.guarded[k]++
	x.obls = append(x.obls, &Obl{fn: x.fnName(), kind: "reach", label: kind, pos: where, pc: st.pcList(), goal: False, expectFail: true})
}
