package main

import (
	"fmt"
	"os"
	"strings"
	"time"
)

// part is one conjunct of a goal, with what it may use.
type part struct {
	hyps []*Term
	goal *Term
}

// splitGoal takes a goal apart: conjunctions become one part each, universal
// quantifiers are opened with fresh constants, hypotheses move to the left. The
// goal follows from the parts together.
func splitGoal(goal *Term, hyps []*Term, out *[]part) {
	if len(*out) > 40 {
		*out = append(*out, part{hyps, goal})
		return
	}
	with := func(h *Term) []*Term { return append(append([]*Term{}, hyps...), h) }
	open := func(t *Term) *Term {
		n := len(t.args) - 1
		m := map[*Term]*Term{}
		for _, v := range t.args[:n] {
			m[v] = Fresh("sk", v.sort)
		}
		return subst(t.args[n], m)
	}
	switch goal.op {
	case "and":
		for _, a := range goal.args {
			splitGoal(a, hyps, out)
		}
		return
	case "forall":
		splitGoal(open(goal), hyps, out)
		return
	case "=>":
		h := goal.args[0]
		for h.op == "exists" {
			h = open(h)
		}
		if v, last := lastOf(h); v != nil {
			// the last element is a case of its own
			g := subst(goal.args[1], map[*Term]*Term{v: last})
			old := hyps
			hyps = append(append([]*Term{}, old...), subst(h, map[*Term]*Term{v: last}))
			splitGoal(g, hyps, out)
			hyps = append(append([]*Term{}, old...), h, Lt(v, last))
			splitGoal(goal.args[1], hyps, out)
			return
		}
		splitGoal(goal.args[1], with(h), out)
		return
	case "ite":
		if goal.sort == SBool && len(goal.args) == 3 {
			splitGoal(goal.args[1], with(goal.args[0]), out)
			splitGoal(goal.args[2], with(Not(goal.args[0])), out)
			return
		}
	case "not":
		a := goal.args[0]
		if a.op == "exists" {
			splitGoal(Not(open(a)), hyps, out)
			return
		}
		if a.op == "or" {
			for _, b := range a.args {
				splitGoal(Not(b), hyps, out)
			}
			return
		}
	case "=":
		if goal.args[0].sort == SBool && (hasQuant(goal.args[0]) || hasQuant(goal.args[1])) {
			splitGoal(Implies(goal.args[0], goal.args[1]), hyps, out)
			splitGoal(Implies(goal.args[1], goal.args[0]), hyps, out)
			return
		}
	}
	*out = append(*out, part{hyps, goal})
}

// lastOf finds a bound v < e+1 on a constant that opening a quantifier made.
func lastOf(h *Term) (v, last *Term) {
	if h.op == "and" {
		for _, a := range h.args {
			if v, last := lastOf(a); v != nil {
				return v, last
			}
		}
		return nil, nil
	}
	if h.op != "not" || h.args[0].op != "<=" {
		return nil, nil
	}
	e, v := h.args[0].args[0], h.args[0].args[1]
	if v.op != "var" || !strings.HasPrefix(v.name, "sk!") || e.op != "+" {
		return nil, nil
	}
	last = Sub(e, Int(1))
	if last.op == "+" || occurs(last, v) {
		return nil, nil
	}
	return v, last
}

func occurs(t, v *Term) bool {
	return subst(t, map[*Term]*Term{v: Int(0)}) != t
}

// proveParts tries the conjuncts of a goal one by one.
func proveParts(pc []*Term, goal *Term, secs int, long bool) (solverRes, bool) {
	st := time.Now()
	var ps []part
	splitGoal(goal, nil, &ps)
	if len(ps) < 2 && !hasQuant(goal) {
		return solverRes{}, false
	}
	const noAuto = "(set-option :smt.auto_config false)\n(set-option :smt.mbqi false)\n"
	be := ""
	for i, p := range ps {
		if p.goal == True {
			continue
		}
		sc := canonical(buildScript(append(append(append([]*Term{}, pc...), p.hyps...), Not(p.goal)), true))
		if os.Getenv("VGEN_PARTS") != "" {
			os.WriteFile("/tmp/part.smt2", []byte(sc+"(check-sat)\n"), 0644)
		}
		var r solverRes
		if long {
			r = race([]attempt{
				{"z3-5.3.2", "z3-new", noAuto, secs},
				{"z3-5.3.2/auto", "z3-new", "", secs},
				{"z3-4.8.12", "z3", noAuto, secs},
				{"cvc5-1.1.2", "cvc5", "(set-logic ALL)\n", secs},
			}, sc, st)
		} else {
			r = race([]attempt{{"z3-5.3.2", "z3-new", noAuto, secs}, {"z3-4.8.12/auto", "z3", "", secs}, {"cvc5-1.1.2", "cvc5", "(set-logic ALL)\n", secs}}, sc, st)
		}
		if os.Getenv("VGEN_PARTS") != "" {
			fmt.Fprintf(os.Stderr, "part %d of %d: %s %s %.2f (%.1f)\n", i, len(ps), r.verdict, r.backend, r.secs, time.Since(st).Seconds())
		}
		if r.verdict != "unsat" {
			return r, false
		}
		be = r.backend
	}
	return solverRes{"unsat", be + "/parts", time.Since(st).Seconds(), ""}, true
}
