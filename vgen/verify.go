package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// execDeadline ends the symbolic execution of all contracts.
var execCount int

var execDeadline = time.Now().Add(420 * time.Second)

func newExec(p *Program, prop string, c *Contract) *Exec {
	x := &Exec{
		p: p, prop: prop, c: c,
		params: map[types.Object]Val{}, notes: map[string]int{}, heapBase: map[*Term]*Term{},
		inlined: map[string]bool{}, byContr: map[string]bool{}, models: map[string]bool{},
		loopUsed: map[*LoopSpec]int{}, heapSrt: map[string]Sort{},
		externals: map[string]bool{}, trusted: map[string]bool{}, specInline: map[string]bool{},
		guarded: map[string]int{},
	}
	x.reset()
	x.budget = 60000
	execCount++
	x.h0 = "H" + itoa(execCount) + ":"
	x.until = time.Now().Add(150 * time.Second)
	if x.until.After(execDeadline) {
		x.until = execDeadline
	}
	x.mergeAll = c != nil && c.flags["merge"]
	return x
}

func (x *Exec) reset() { x.loopAssign = loopAssignT{} }

// verify executes the function of a contract and collects its obligations.
func verify(p *Program, prop string, c *Contract) (x *Exec) {
	x = newExec(p, prop, c)
	z, err := startZ3()
	if err == nil {
		x.z = z
		defer z.close()
	}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(execErr); ok {
				x.errs = append(x.errs, e.msg)
			} else {
				x.errs = append(x.errs, fmt.Sprintf("internal: %v", r))
				if os.Getenv("VGEN_DEBUG") != "" {
					debug.PrintStack()
				}
			}
		}
	}()
	fn := c.ssaFn
	x.root = fn
	x.abase0 = Fresh("A", SInt)
	st := &State{heaps: map[string]*Term{}, abase: x.abase0, facts: map[*Term]bool{}}
	st.add(Le(Int(0), x.abase0), false)
	x.panics = c.flags["nopanic"]
	x.guardOn = c.flags["guarded"]
	var args []Val
	for i, pr := range fn.Params {
		v := x.freshVal(st, "p_"+pr.Name(), pr.Type())
		args = append(args, v)
		if i < len(c.params) && c.params[i] != nil {
			x.params[c.params[i]] = v
		}
	}
	var bind []Val
	for _, f := range fn.FreeVars {
		bind = append(bind, x.freshVal(st, "fv_"+f.Name(), f.Type()))
	}
	x.entry = st
	env := x.specEnvRoot(st)
	for _, cl := range c.clauses {
		if cl.kind == "requires" || cl.kind == "define" || cl.kind == "assume" {
			st.add(x.evalClause(env, cl), false)
			if cl.kind == "assume" {
				x.note("assumed in " + shortName(c.target) + ": " + cl.label)
			}
		}
	}
	x.entry = st.clone()
	x.guardReach(st, "entry", c.target)
	var locs []*modLoc
	{
		env := x.specEnvRoot(x.entry)
		for _, cl := range c.clauses {
			if cl.kind == "modifies" {
				for _, e := range cl.exprs {
					locs = append(locs, x.modLocs(env, e)...)
				}
			}
		}
	}
	np := len(args)
	x.callFn(nil, st, fn, args, bind, nil, func(st *State, res []Val) {
		if st.dead {
			return
		}
		x.exits++
		env := x.specEnvRoot(st)
		for i, r := range res {
			if np+i < len(c.params) && c.params[np+i] != nil {
				env.vars[c.params[np+i]] = r
			}
		}
		x.guardReach(st, "exit", c.target)
		for _, cl := range c.clauses {
			switch cl.kind {
			case "ensures":
				t := x.evalClause(env, cl)
				x.oblige(st, "ensures", cl.label, "", t)
			case "lemma":
				t := x.evalClause(env, cl)
				x.oblige(st, "lemma", cl.label, "", t)
				st.add(t, false)
			}
		}
		if !c.flags["noframe"] {
			x.frame(st, locs)
		}
	})
	if x.exits == 0 && len(x.errs) == 0 && !c.flags["noexit"] {
		x.errs = append(x.errs, "no path reaches the end of the function")
	}
	for _, l := range c.loops {
		if x.loopUsed[l] == 0 && !c.flags["optloops"] {
			x.note("loop specification of " + c.name + " matched no loop")
		}
	}
	return x
}

// frame checks that only fresh objects and declared locations were written.
func (x *Exec) frame(st *State, locs []*modLoc) {
	seen := map[string]bool{}
	for n := st.writes; n != nil; n = n.up {
		if strings.HasPrefix(n.heap, "iter:") || strings.HasPrefix(n.heap, "lock") {
			continue
		}
		if n.heap == kvFail && !failProps[x.prop] {
			continue
		}
		if n.idx != nil && len(n.idx) > 0 {
			if _, ok := isAlloc(n.idx[0]); ok {
				continue
			}
		}
		k := n.heap
		for _, i := range n.idx {
			k += "@" + itoa(i.id)
		}
		if n.cond != nil {
			k += "?" + itoa(n.cond.id)
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		goal := False
		for _, l := range locs {
			if l.heap != n.heap {
				continue
			}
			if l.idx == nil {
				goal = True
				break
			}
			if n.idx == nil {
				continue
			}
			e := True
			for i := range l.idx {
				if i < len(n.idx) {
					e = And(e, Eq(l.idx[i], n.idx[i]))
				}
			}
			goal = Or(goal, e)
		}
		if goal != True && n.idx != nil && len(n.idx) > 0 {
			var fr func(r *Term) *Term
			fr = func(r *Term) *Term {
				if r.op == "ite" {
					return Ite(r.args[0], fr(r.args[1]), fr(r.args[2]))
				}
				b := r
				for isSub(b) {
					b = b.args[0]
				}
				// (writes to nil panic or write nothing)
				return Or(Eq(b, Int(0)), Lt(x.abase0, rootOf(r)))
			}
			goal = Or(goal, fr(n.idx[0]))
		}
		if n.cond != nil {
			goal = Implies(n.cond, goal)
		}
		x.oblige(st, "frame", "writes only what it may: "+shortName(n.heap), "", goal)
	}
}

// verifyPool checks that the New functions of pools of c's type return clean
// objects.
func verifyPool(p *Program, prop string, c *Contract) (x *Exec) {
	x = newExec(p, prop, c)
	z, err := startZ3()
	if err == nil {
		x.z = z
		defer z.close()
	}
	defer x.recovered()
	want := typeKey(c.params[0].Type())
	found := 0
	for _, fn := range p.poolNews() {
		if fn.Pkg == nil || fn.Pkg.Pkg != c.pkg.Types {
			continue
		}
		x.root = fn
		x.abase0 = Fresh("A", SInt)
		st := &State{heaps: map[string]*Term{}, abase: x.abase0, facts: map[*Term]bool{}}
		st.add(Le(Int(0), x.abase0), false)
		x.entry = st.clone()
		var bind []Val
		for _, f := range fn.FreeVars {
			bind = append(bind, x.freshVal(st, "fv_"+f.Name(), f.Type()))
		}
		x.callFn(nil, st, fn, nil, bind, nil, func(st *State, res []Val) {
			iv, ok := res[0].(*IfaceV)
			if !ok || iv.ct == nil || typeKey(iv.ct) != want {
				return
			}
			found++
			x.exits++
			x.guardReach(st, "exit", fn.String())
			for _, cl := range c.clauses {
				if cl.kind != "ensures" {
					continue
				}
				env := &specEnv{x: x, st: st, old: x.entry, vars: map[types.Object]Val{c.params[0]: iv.cv}, info: c.pkg.TypesInfo, lets: []map[types.Object]exprT{c.lets}, poolGet: true}
				x.oblige(st, "pool", "new "+shortName(want)+": "+cl.label, "", x.evalClause(env, cl))
			}
		})
	}
	if found == 0 {
		x.note("no pool of " + shortName(want) + " found")
	}
	return x
}

func (x *Exec) recovered() {
	if r := recover(); r != nil {
		if e, ok := r.(execErr); ok {
			x.errs = append(x.errs, e.msg)
		} else {
			x.errs = append(x.errs, fmt.Sprintf("internal: %v", r))
			if os.Getenv("VGEN_DEBUG") != "" {
				debug.PrintStack()
			}
		}
	}
}

// poolNews lists the constructors of all pools.
func (p *Program) poolNews() []*ssa.Function {
	var out []*ssa.Function
	for fn := range ssautil.AllFunctions(p.prog) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || typeKey(elemOfPtr(fa.X.Type())) != "sync.Pool" {
					continue
				}
				switch v := s.Val.(type) {
				case *ssa.Function:
					out = append(out, v)
				case *ssa.MakeClosure:
					out = append(out, v.Fn.(*ssa.Function))
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// evalAxioms registers the axioms of the contract files.
func (p *Program) evalAxioms() (errs []string) {
	for _, c := range p.axioms {
		x := newExec(p, "", c)
		func() {
			defer func() {
				if r := recover(); r != nil {
					errs = append(errs, fmt.Sprintf("axiom %s: %v", c.name, r))
				}
			}()
			x.abase0 = Fresh("A", SInt)
			st := &State{heaps: map[string]*Term{}, abase: x.abase0, facts: map[*Term]bool{}}
			x.entry = st
			env := x.specEnvRoot(st)
			for i, cl := range c.clauses {
				t := x.evalClause(env, cl)
				syms := map[string]bool{}
				symbols([]*Term{t}, map[*Term]bool{}, syms)
				for _, s := range sortedKeys(syms) {
					if strings.HasPrefix(s, "g:") {
						addAxiom(s, c.name+itoa(i), t)
					}
				}
				p.axiomNames = append(p.axiomNames, c.name+": "+cl.label)
			}
		}()
	}
	return
}

// failProps are the properties whose contracts speak about failures.
var failProps = map[string]bool{"C01": true, "C08": true, "C09": true}
