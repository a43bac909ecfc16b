package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// axioms are closed facts about uninterpreted symbols. They become part of
// every query that mentions the symbol.
type axiomEntry struct {
	name string
	t    *Term
}

var (
	axMu   sync.Mutex
	axioms = map[string][]axiomEntry{}
	axSeen = map[string]bool{}
)

func addAxiom(sym string, name string, t *Term) {
	axMu.Lock()
	defer axMu.Unlock()
	k := sym + "|" + name
	if axSeen[k] {
		return
	}
	axSeen[k] = true
	axioms[sym] = append(axioms[sym], axiomEntry{name, t})
}

type script struct {
	b       bytes.Buffer
	sorts   map[Sort]bool
	decl    map[string]bool
	defined map[*Term]string
	refs    map[*Term]int
	strs    []*Term
}

func q(s string) string {
	simple := true
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '?' || c == '.' || c == '$') {
			simple = false
			break
		}
	}
	if simple && s != "" && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	return "|" + strings.NewReplacer("|", "!", "\\", "/").Replace(s) + "|"
}

func newScript() *script {
	return &script{sorts: map[Sort]bool{}, decl: map[string]bool{}, defined: map[*Term]string{}, refs: map[*Term]int{}}
}

func (s *script) useSort(x Sort) {
	if s.sorts[x] {
		return
	}
	s.sorts[x] = true
	if strings.HasPrefix(string(x), "(Array ") {
		k, v := x.split()
		s.useSort(k)
		s.useSort(v)
		return
	}
	switch x {
	case SInt, SBool:
		return
	}
	fmt.Fprintf(&s.b, "(declare-sort %s 0)\n", x)
}

func (s *script) count(t *Term, seen map[*Term]bool) {
	s.refs[t]++
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.args {
		s.count(a, seen)
	}
	for _, p := range t.pats {
		for _, a := range p {
			s.count(a, seen)
		}
	}
}

// declare emits declarations and definitions for t bottom up.
func (s *script) declare(t *Term, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.args {
		s.declare(a, seen)
	}
	for _, p := range t.pats {
		for _, a := range p {
			s.declare(a, seen)
		}
	}
	s.useSort(t.sort)
	switch t.op {
	case "var":
		if !s.decl[t.name] {
			s.decl[t.name] = true
			fmt.Fprintf(&s.b, "(declare-const %s %s)\n", q(t.name), t.sort)
		}
	case "str":
		n := "str:" + t.name
		if !s.decl[n] {
			s.decl[n] = true
			s.strs = append(s.strs, t)
			fmt.Fprintf(&s.b, "(declare-const %s Str)\n", q(strName(t)))
		}
	case "app":
		if !s.decl["f:"+t.name] {
			s.decl["f:"+t.name] = true
			var as []string
			for _, a := range t.args {
				as = append(as, string(a.sort))
			}
			fmt.Fprintf(&s.b, "(declare-fun %s (%s) %s)\n", q(t.name), strings.Join(as, " "), t.sort)
		}
	case "cat":
		if !s.decl["f:cat"] {
			s.decl["f:cat"] = true
			fmt.Fprintf(&s.b, "(declare-fun cat (Str Str) Str)\n")
		}
	}
	if len(t.bound) == 0 && len(t.args) > 0 && s.refs[t] > 1 {
		txt := s.text(t, nil)
		n := fmt.Sprintf("t%d", t.id)
		fmt.Fprintf(&s.b, "(define-fun %s () %s %s)\n", n, t.sort, txt)
		s.defined[t] = n
	}
}

func strName(t *Term) string {
	n := t.name
	if len(n) > 30 {
		n = n[:30]
	}
	return fmt.Sprintf("s%d:%s", t.id, strings.Map(func(r rune) rune {
		if r < 32 || r > 126 || r == '"' || r == '|' || r == '\\' {
			return '.'
		}
		return r
	}, n))
}

func (s *script) text(t *Term, local map[*Term]string) string {
	if n, ok := s.defined[t]; ok {
		return n
	}
	if n, ok := local[t]; ok {
		return n
	}
	switch t.op {
	case "var", "bvar":
		return q(t.name)
	case "true", "false":
		return t.op
	case "int":
		if t.ival.Sign() < 0 {
			return "(- " + strings.TrimPrefix(t.ival.String(), "-") + ")"
		}
		return t.ival.String()
	case "str":
		return q(strName(t))
	case "const":
		return fmt.Sprintf("((as const %s) %s)", t.sort, s.text(t.args[0], local))
	case "cat":
		r := s.text(t.args[len(t.args)-1], local)
		for i := len(t.args) - 2; i >= 0; i-- {
			r = "(cat " + s.text(t.args[i], local) + " " + r + ")"
		}
		return r
	case "forall", "exists":
		var vs []string
		n := len(t.args) - 1
		for _, v := range t.args[:n] {
			vs = append(vs, "("+q(v.name)+" "+string(v.sort)+")")
		}
		body := s.letText(t.args[n], local)
		for _, p := range t.pats {
			var ps []string
			for _, x := range p {
				ps = append(ps, s.text(x, local))
			}
			body += " :pattern (" + strings.Join(ps, " ") + ")"
		}
		if len(t.pats) > 0 {
			body = "(! " + body + ")"
		}
		return "(" + t.op + " (" + strings.Join(vs, " ") + ") " + body + ")"
	}
	op := t.op
	if op == "app" {
		op = q(t.name)
		if len(t.args) == 0 {
			return op
		}
	}
	var b strings.Builder
	b.WriteByte('(')
	b.WriteString(op)
	for _, a := range t.args {
		b.WriteByte(' ')
		b.WriteString(s.text(a, local))
	}
	b.WriteByte(')')
	return b.String()
}

// letText shares repeated sub terms with bound variables.
func (s *script) letText(t *Term, local map[*Term]string) string {
	cnt := map[*Term]int{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if _, ok := s.defined[t]; ok {
			return
		}
		if _, ok := local[t]; ok {
			return
		}
		if len(t.args) == 0 {
			return
		}
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		if t.op == "forall" || t.op == "exists" {
			// inner terms are handled when printing the quantifier
			order = append(order, t)
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		order = append(order, t)
	}
	walk(t)
	l := map[*Term]string{}
	for k, v := range local {
		l[k] = v
	}
	var pre, post strings.Builder
	for _, x := range order {
		if cnt[x] > 1 && x != t {
			n := fmt.Sprintf("l%d", x.id)
			txt := s.text(x, l)
			fmt.Fprintf(&pre, "(let ((%s %s)) ", n, txt)
			post.WriteByte(')')
			l[x] = n
		}
	}
	return pre.String() + s.text(t, l) + post.String()
}

func symbols(ts []*Term, seen map[*Term]bool, syms map[string]bool) {
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "app" {
			syms[t.name] = true
		} else if t.op == "cat" || t.op == "str" {
			syms[t.op] = true
		} else if t.op == "var" {
			syms["var:"+t.name] = true
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, p := range t.pats {
			for _, a := range p {
				rec(a)
			}
		}
	}
	for _, t := range ts {
		rec(t)
	}
}

// buildScript renders assertions. The axioms of every used symbol are added.
func buildScript(as []*Term, withQuant bool) string {
	s := newScript()
	var out []*Term
	seen := map[*Term]bool{}
	syms := map[string]bool{}
	done := map[string]bool{}
	symbols(as, seen, syms)
	if withQuant {
		for {
			n := 0
			var names []string
			for y := range syms {
				if !done[y] {
					names = append(names, y)
				}
			}
			sort.Strings(names)
			for _, y := range names {
				done[y] = true
				axMu.Lock()
				es := axioms[y]
				axMu.Unlock()
				for _, e := range es {
					out = append(out, e.t)
					symbols([]*Term{e.t}, seen, syms)
					n++
				}
			}
			if n == 0 && len(names) == 0 {
				break
			}
		}
	}
	for _, a := range as {
		if !withQuant && hasQuant(a) {
			continue
		}
		out = append(out, a)
	}
	cs := map[*Term]bool{}
	for _, a := range out {
		s.count(a, cs)
	}
	ds := map[*Term]bool{}
	var asserts bytes.Buffer
	for _, a := range out {
		s.declare(a, ds)
		txt := s.text(a, nil)
		fmt.Fprintf(&asserts, "(assert %s)\n", txt)
	}
	if len(s.strs) > 0 {
		if !s.decl["f:slen"] {
			s.decl["f:slen"] = true
			s.b.WriteString("(declare-fun slen (Str) Int)\n")
		}
		if len(s.strs) > 1 {
			s.b.WriteString("(assert (distinct")
			for _, t := range s.strs {
				s.b.WriteString(" " + q(strName(t)))
			}
			s.b.WriteString("))\n")
		}
		for _, t := range s.strs {
			fmt.Fprintf(&s.b, "(assert (= (slen %s) %d))\n", q(strName(t)), len(t.name))
		}
	}
	return s.b.String() + asserts.String()
}

var quantMemo sync.Map

func hasQuant(t *Term) bool {
	if v, ok := quantMemo.Load(t); ok {
		return v.(bool)
	}
	r := t.op == "forall" || t.op == "exists"
	for _, a := range t.args {
		if r {
			break
		}
		r = hasQuant(a)
	}
	quantMemo.Store(t, r)
	return r
}

// ---- solver processes

type z3proc struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	init bool
}

func startZ3() (*z3proc, error) {
	c := exec.Command("z3-new", "-in", "-smt2")
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := c.Start(); err != nil {
		return nil, err
	}
	return &z3proc{cmd: c, in: in, out: bufio.NewReaderSize(out, 1<<16)}, nil
}

var (
	feasCount  atomic.Int64
	feasNs     atomic.Int64
	solverNs   atomic.Int64
	solverRuns atomic.Int64
	backMu     sync.Mutex
	backends   = map[string]int{}
)

// check runs one script and returns sat, unsat or unknown.
func (z *z3proc) check(sc string, ms int) string {
	feasCount.Add(1)
	st := time.Now()
	defer func() { feasNs.Add(int64(time.Since(st))) }()
	if !z.init {
		z.init = true
		fmt.Fprintf(z.in, "(set-option :smt.auto_config false)\n(set-option :smt.mbqi false)\n")
	}
	fmt.Fprintf(z.in, "(push)\n(set-option :timeout %d)\n%s(check-sat)\n(pop)\n(echo \"done\")\n", ms, sc)
	res := "unknown"
	for {
		l, err := z.out.ReadString('\n')
		if err != nil {
			return "unknown"
		}
		l = strings.Trim(strings.TrimSpace(l), "\"")
		switch l {
		case "sat", "unsat", "unknown":
			res = l
		case "done":
			return res
		default:
			if strings.HasPrefix(l, "(error") {
				fmt.Fprintln(os.Stderr, "z3:", l)
				if os.Getenv("VGEN_DEBUG") != "" {
					os.WriteFile("/tmp/z3err.smt2", []byte(sc), 0644)
				}
			}
		}
	}
}

func (z *z3proc) close() {
	z.in.Close()
	z.cmd.Process.Kill()
	z.cmd.Wait()
}

type solverRes struct {
	verdict string
	backend string
	secs    float64
	out     string
}

func runSolver(name string, args []string, script string, to time.Duration) (string, string) {
	return runSolverCtx(context.Background(), name, args, script, to)
}

func runSolverCtx(ctx context.Context, name string, args []string, script string, to time.Duration) (string, string) {
	ctx, cancel := context.WithTimeout(ctx, to)
	defer cancel()
	c := exec.CommandContext(ctx, name, args...)
	c.Stdin = strings.NewReader(script)
	var o bytes.Buffer
	c.Stdout = &o
	c.Stderr = &o
	c.Run()
	s := o.String()
	for _, l := range strings.Split(s, "\n") {
		switch strings.TrimSpace(l) {
		case "unsat", "sat", "unknown":
			return strings.TrimSpace(l), s
		}
	}
	return "unknown", s
}

var dumpDir = os.Getenv("VGEN_DUMP")

type attempt struct {
	name, cmd, pre string
	secs           int
}

// race runs attempts at once and returns the first answer.
func race(as []attempt, sc string, st time.Time) solverRes {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan solverRes, len(as))
	for _, a := range as {
		go func() {
			args := []string{"-in", "-smt2", fmt.Sprintf("-T:%d", a.secs)}
			if a.cmd == "cvc5" {
				args = []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", a.secs*1000), "-q"}
			}
			v, o := runSolverCtx(ctx, a.cmd, args, a.pre+sc+"(check-sat)\n", time.Duration(a.secs+2)*time.Second)
			solverRuns.Add(1)
			ch <- solverRes{v, a.name, time.Since(st).Seconds(), o}
		}()
	}
	var last solverRes
	for range as {
		r := <-ch
		if r.verdict != "unknown" {
			return r
		}
		last = r
	}
	return last
}

// prove decides pc => goal with a portfolio.
func prove(name string, pc []*Term, goal *Term, secs int, thorough bool) solverRes {
	st := time.Now()
	if goal == True {
		return solverRes{"unsat", "simplifier", 0, ""}
	}
	as := append(append([]*Term{}, pc...), Not(goal))
	sc := canonical(buildScript(as, true))
	if dumpDir != "" {
		os.MkdirAll(dumpDir, 0755)
		fn := strings.Map(func(r rune) rune {
			if r == '/' || r == ' ' || r == '*' || r == '(' || r == ')' {
				return '_'
			}
			return r
		}, name)
		os.WriteFile(filepath.Join(dumpDir, fn+".smt2"), []byte(sc+"(check-sat)\n"), 0644)
	}
	first := secs
	if first > 3 {
		first = 3
	}
	const noAuto = "(set-option :smt.auto_config false)\n(set-option :smt.mbqi false)\n"
	rounds := [][]attempt{
		{{"z3-5.3.2", "z3-new", noAuto, first}},
		{{"z3-5.3.2/auto", "z3-new", "", secs}, {"z3-4.8.12/auto", "z3", "", secs}},
		{
			{"z3-5.3.2", "z3-new", noAuto, secs},
			{"z3-5.3.2/seed", "z3-new", noAuto + "(set-option :smt.arith.solver 2)\n(set-option :smt.random_seed 7)\n(set-option :smt.case_split 3)\n", secs},
			{"z3-4.8.12", "z3", noAuto, secs},
			{"cvc5-1.1.2", "cvc5", "(set-logic ALL)\n", secs},
		},
	}
	var last solverRes
	for i, r := range rounds {
		last = race(r, sc, st)
		if i == 0 && strings.Contains(last.out, "(error") {
			fmt.Fprintln(os.Stderr, "solver error in", name, firstLine(last.out))
			if os.Getenv("VGEN_DEBUG") != "" {
				os.WriteFile("/tmp/z3err.smt2", []byte(sc), 0644)
			}
		}
		if last.verdict != "unknown" {
			break
		}
		if i == 0 && secs > 2 {
			if r, ok := proveParts(pc, goal, 3, false); ok {
				last = r
				last.secs = time.Since(st).Seconds()
				break
			}
		}
	}
	solverNs.Add(int64(time.Since(st)))
	backMu.Lock()
	if last.verdict == "unsat" {
		backends[last.backend]++
	}
	backMu.Unlock()
	return last
}

// proveLong gives an obligation that was left open a long second try.
func proveLong(name string, pc []*Term, goal *Term, secs int) solverRes {
	st := time.Now()
	if r, ok := proveParts(pc, goal, max(secs/4, 5), true); ok {
		solverNs.Add(int64(time.Since(st)))
		backMu.Lock()
		backends[r.backend]++
		backMu.Unlock()
		return r
	}
	sc := canonical(buildScript(append(append([]*Term{}, pc...), Not(goal)), true))
	const noAuto = "(set-option :smt.auto_config false)\n(set-option :smt.mbqi false)\n"
	r := race([]attempt{
		{"z3-5.3.2", "z3-new", noAuto, secs},
		{"z3-5.3.2/auto", "z3-new", "", secs},
		{"z3-5.3.2/seed", "z3-new", noAuto + "(set-option :smt.arith.solver 2)\n(set-option :smt.random_seed 7)\n(set-option :smt.case_split 3)\n", secs},
		{"z3-5.3.2/seed11", "z3-new", noAuto + "(set-option :smt.random_seed 11)\n", secs},
		{"z3-4.8.12", "z3", noAuto, secs},
		{"z3-4.8.12/auto", "z3", "", secs},
		{"cvc5-1.1.2", "cvc5", "(set-logic ALL)\n", secs},
	}, sc, st)
	solverNs.Add(int64(time.Since(st)))
	backMu.Lock()
	if r.verdict == "unsat" {
		backends[r.backend]++
	}
	backMu.Unlock()
	return r
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

var canonRe = regexp.MustCompile(`\|[^|]*\||[^\s()|]+`)
var (
	canonT = regexp.MustCompile(`^t\d+$`)
	canonV = regexp.MustCompile(`^(.*)!\d+$`)
	canonH = regexp.MustCompile(`^([A-Z])(\d+):(.*)$`)
	canonB = regexp.MustCompile(`^\?([A-Za-z_]+)\d+$`)
)

// canonical numbers the generated names of a script in the order in which they
// occur, so that how a solver does does not depend on what was executed before.
func canonical(sc string) string {
	ren := map[string]string{}
	cnt := map[string]int{}
	num := func(k string) int { cnt[k]++; return cnt[k] }
	return canonRe.ReplaceAllStringFunc(sc, func(w string) string {
		if n, ok := ren[w]; ok {
			return n
		}
		in, bar := w, ""
		if len(w) > 1 && w[0] == '|' {
			in, bar = w[1:len(w)-1], "|"
		}
		n := in
		if canonT.MatchString(in) {
			n = fmt.Sprintf("t%d", num("t"))
		} else if m := canonV.FindStringSubmatch(in); m != nil {
			n = fmt.Sprintf("%s!%d", m[1], num(m[1]+"!"))
		} else if m := canonB.FindStringSubmatch(in); m != nil {
			n = fmt.Sprintf("?%s%d", m[1], num("?"+m[1]))
		} else if m := canonH.FindStringSubmatch(in); m != nil {
			n = fmt.Sprintf("%s%d:%s", m[1], num(m[1]+":"+m[3]), m[3])
		}
		ren[w] = bar + n + bar
		return ren[w]
	})
}
