package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Terms are hash consed, typed by SMT sorts.

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "Str"
	SFlt  Sort = "Flt"
	SByt  Sort = "BArr"
	SSet  Sort = "(Array Int Bool)"
)

func arrSort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// elemSort returns the value sort of array sort s.
func (s Sort) elem() Sort { _, v := s.split(); return v }
func (s Sort) key() Sort  { k, _ := s.split(); return k }
func (s Sort) split() (Sort, Sort) {
	if !strings.HasPrefix(string(s), "(Array ") {
		panic("not an array sort: " + string(s))
	}
	in := string(s[7 : len(s)-1])
	d := 0
	for i, c := range in {
		switch c {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return Sort(in[:i]), Sort(in[i+1:])
			}
		}
	}
	panic("bad sort")
}

type Term struct {
	op   string // var int true false app str and or not => = ite + * div mod < <= select store const forall exists cat
	name string
	args []*Term
	ival *big.Int
	sort Sort
	id   int
	pats [][]*Term
	// free bound variables
	bound map[*Term]bool
}

var (
	termMu  sync.Mutex
	termTab = map[string]*Term{}
	termSeq int
	freshN  = map[string]int{}
)

func mk(op, name string, s Sort, args []*Term, iv *big.Int, pats [][]*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(string(s))
	if iv != nil {
		b.WriteString(iv.String())
	}
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	for _, p := range pats {
		b.WriteByte(';')
		for _, a := range p {
			b.WriteByte(',')
			b.WriteString(strconv.Itoa(a.id))
		}
	}
	k := b.String()
	termMu.Lock()
	defer termMu.Unlock()
	if t, ok := termTab[k]; ok {
		return t
	}
	termSeq++
	t := &Term{op: op, name: name, sort: s, args: args, ival: iv, id: termSeq, pats: pats}
	if op == "bvar" {
		t.bound = map[*Term]bool{t: true}
	} else {
		var m map[*Term]bool
		own := false
		for _, a := range args {
			if len(a.bound) == 0 {
				continue
			}
			if m == nil {
				m = a.bound
				continue
			}
			for x := range a.bound {
				if !m[x] {
					if !own {
						c := map[*Term]bool{}
						for y := range m {
							c[y] = true
						}
						m, own = c, true
					}
					m[x] = true
				}
			}
		}
		if op == "forall" || op == "exists" {
			c := map[*Term]bool{}
			for y := range m {
				c[y] = true
			}
			for _, q := range args[:len(args)-1] {
				delete(c, q)
			}
			m = c
		}
		t.bound = m
	}
	termTab[k] = t
	return t
}

var (
	True  = mk("true", "", SBool, nil, nil, nil)
	False = mk("false", "", SBool, nil, nil, nil)
)

func Var(name string, s Sort) *Term { return mk("var", name, s, nil, nil, nil) }

func Fresh(hint string, s Sort) *Term {
	termMu.Lock()
	freshN[hint]++
	n := freshN[hint]
	termMu.Unlock()
	return Var(fmt.Sprintf("%s!%d", hint, n), s)
}
func BVar(hint string, s Sort) *Term {
	termMu.Lock()
	freshN["?"+hint]++
	n := freshN["?"+hint]
	termMu.Unlock()
	return mk("bvar", fmt.Sprintf("?%s%d", hint, n), s, nil, nil, nil)
}

func Int(v int64) *Term       { return BigInt(big.NewInt(v)) }
func Uint(v uint64) *Term     { return BigInt(new(big.Int).SetUint64(v)) }
func BigInt(v *big.Int) *Term { return mk("int", "", SInt, nil, v, nil) }
func (t *Term) isInt() bool   { return t.op == "int" }
func (t *Term) i64() int64    { return t.ival.Int64() }
func (t *Term) isConst() bool {
	return t.op == "int" || t.op == "str" || t.op == "true" || t.op == "false"
}
func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}
func StrLit(s string) *Term { return mk("str", s, SStr, nil, nil, nil) }

func App(name string, s Sort, args ...*Term) *Term {
	return mk("app", name, s, args, nil, nil)
}

func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.args[0]
	}
	return mk("not", "", SBool, []*Term{a}, nil, nil)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == True || seen[a] {
			return true
		}
		if a == False || seen[Not(a)] {
			return false
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", "", SBool, out, nil, nil)
}

func Or(as ...*Term) *Term {
	ns := make([]*Term, len(as))
	for i, a := range as {
		ns[i] = Not(a)
	}
	r := And(ns...)
	if r.op == "and" {
		os := make([]*Term, len(r.args))
		for i, a := range r.args {
			os[i] = Not(a)
		}
		return mk("or", "", SBool, os, nil, nil)
	}
	return Not(r)
}

func Implies(a, b *Term) *Term {
	if a == True || b == True {
		return b
	}
	if a == False {
		return True
	}
	if b == False {
		return Not(a)
	}
	if a == b {
		return True
	}
	return mk("=>", "", SBool, []*Term{a, b}, nil, nil)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts %s %s: %s = %s", a.sort, b.sort, a, b))
	}
	if a.isConst() && b.isConst() {
		return False
	}
	if a.sort == SStr && (a.op == "cat" || b.op == "cat") && strDistinct(a, b) {
		return False
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.sort == SInt {
		d := Sub(a, b)
		if d.isInt() {
			return Bool(d.ival.Sign() == 0)
		}
	}
	// constants against ite
	if a.op == "ite" && b.isConst() || b.op == "ite" && a.isConst() {
		if b.op == "ite" {
			a, b = b, a
		}
		if a.args[1].isConst() || a.args[2].isConst() {
			return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", SBool, []*Term{a, b}, nil, nil)
}

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Ite sorts %s %s", a.sort, b.sort))
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	if a.sort == SBool {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return mk("ite", "", a.sort, []*Term{c, a, b}, nil, nil)
}

// ---- linear arithmetic normal form

func lin(t *Term, k *big.Int, m map[*Term]*big.Int, c *big.Int) {
	switch t.op {
	case "int":
		c.Add(c, new(big.Int).Mul(k, t.ival))
	case "+":
		for _, a := range t.args {
			lin(a, k, m, c)
		}
	case "*":
		if t.args[0].op == "int" {
			lin(t.args[1], new(big.Int).Mul(k, t.args[0].ival), m, c)
			return
		}
		fallthrough
	default:
		if m[t] == nil {
			m[t] = new(big.Int)
		}
		m[t].Add(m[t], k)
	}
}

func fromLin(m map[*Term]*big.Int, c *big.Int) *Term {
	var ks []*Term
	for t, k := range m {
		if k.Sign() != 0 {
			ks = append(ks, t)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var args []*Term
	for _, t := range ks {
		k := m[t]
		if k.IsInt64() && k.Int64() == 1 {
			args = append(args, t)
		} else {
			args = append(args, mk("*", "", SInt, []*Term{BigInt(k), t}, nil, nil))
		}
	}
	if c.Sign() != 0 || len(args) == 0 {
		args = append(args, BigInt(c))
	}
	if len(args) == 1 {
		return args[0]
	}
	return mk("+", "", SInt, args, nil, nil)
}

func Add(a, b *Term) *Term {
	m := map[*Term]*big.Int{}
	c := new(big.Int)
	lin(a, big.NewInt(1), m, c)
	lin(b, big.NewInt(1), m, c)
	return fromLin(m, c)
}
func Sub(a, b *Term) *Term {
	m := map[*Term]*big.Int{}
	c := new(big.Int)
	lin(a, big.NewInt(1), m, c)
	lin(b, big.NewInt(-1), m, c)
	return fromLin(m, c)
}
func Mul(a, b *Term) *Term {
	if b.isInt() {
		a, b = b, a
	}
	if a.isInt() {
		m := map[*Term]*big.Int{}
		c := new(big.Int)
		lin(b, a.ival, m, c)
		return fromLin(m, c)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("*", "", SInt, []*Term{a, b}, nil, nil)
}

// Div and Mod are the SMT (Euclidean) operations.
func Div(a, b *Term) *Term {
	if b.isInt() && b.ival.Sign() > 0 {
		if a.isInt() {
			q, m := new(big.Int), new(big.Int)
			q.DivMod(a.ival, b.ival, m)
			return BigInt(q)
		}
		if b.ival.IsInt64() && b.i64() == 1 {
			return a
		}
		// (k*b + r) div b
		m := map[*Term]*big.Int{}
		c := new(big.Int)
		lin(a, big.NewInt(1), m, c)
		whole := map[*Term]*big.Int{}
		rest := map[*Term]*big.Int{}
		wc, rc := new(big.Int), new(big.Int)
		wc.DivMod(c, b.ival, rc)
		for t, k := range m {
			q, r := new(big.Int), new(big.Int)
			q.DivMod(k, b.ival, r)
			if r.Sign() == 0 {
				whole[t] = q
			} else {
				rest[t] = k
			}
		}
		if len(whole) > 0 || (wc.Sign() != 0 && len(rest) > 0) {
			return Add(fromLin(whole, wc), Div(fromLin(rest, rc), b))
		}
	}
	return mk("div", "", SInt, []*Term{a, b}, nil, nil)
}
func Mod(a, b *Term) *Term {
	if b.isInt() && b.ival.Sign() > 0 {
		if a.isInt() {
			return BigInt(new(big.Int).Mod(a.ival, b.ival))
		}
		m := map[*Term]*big.Int{}
		c := new(big.Int)
		lin(a, big.NewInt(1), m, c)
		rest := map[*Term]*big.Int{}
		ch := false
		for t, k := range m {
			r := new(big.Int).Mod(k, b.ival)
			if r.Sign() == 0 {
				ch = true
				continue
			}
			rest[t] = k
		}
		rc := new(big.Int).Mod(c, b.ival)
		if ch || rc.Cmp(c) != 0 {
			return Mod(fromLin(rest, rc), b)
		}
		if a.op == "mod" && a.args[1] == b {
			return a
		}
	}
	return mk("mod", "", SInt, []*Term{a, b}, nil, nil)
}
func Le(a, b *Term) *Term {
	d := Sub(b, a)
	if d.isInt() {
		return Bool(d.ival.Sign() >= 0)
	}
	return mk("<=", "", SBool, []*Term{a, b}, nil, nil)
}
func Lt(a, b *Term) *Term { return Not(Le(b, a)) }

// under1 is t where the condition c has the given value.
func under1(t, c, v *Term) *Term { return subst(t, map[*Term]*Term{c: v}) }

func Select(a, i *Term) *Term {
	if a.sort.elem() == SByt && i.op == "ite" && a.op != "const" && a.op != "var" {
		c := i.args[0]
		return Ite(c, Select(under1(a, c, True), i.args[1]), Select(under1(a, c, False), i.args[2]))
	}
	for {
		switch a.op {
		case "store":
			e := Eq(a.args[1], i)
			if e == True {
				return a.args[2]
			}
			if e == False || distinctRefs(a.args[1], i) {
				a = a.args[0]
				continue
			}
		case "const":
			return a.args[0]
		case "ite":
			ix, iy := i, i
			if a.sort.elem() == SByt {
				ix, iy = under1(i, a.args[0], True), under1(i, a.args[0], False)
			}
			x, y := Select(a.args[1], ix), Select(a.args[2], iy)
			return Ite(a.args[0], x, y)
		}
		break
	}
	return mk("select", "", a.sort.elem(), []*Term{a, i}, nil, nil)
}

func Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk("store", "", a.sort, []*Term{a, i, v}, nil, nil)
}
func ConstArr(s Sort, v *Term) *Term { return mk("const", "", s, []*Term{v}, nil, nil) }

// distinctRefs reports references known to differ by construction: allocations
// are A+k with k>0, entry references (parameters, loads of the entry heap) are
// bounded by A.
var knownOld sync.Map // *Term -> base alloc term it is bounded by

func splitOff(t *Term) (*Term, int64, bool) {
	if t.op == "+" && len(t.args) == 2 && t.args[1].isInt() {
		return t.args[0], t.args[1].i64(), true
	}
	return t, 0, true
}

func isAlloc(t *Term) (*Term, bool) {
	b, k, _ := splitOff(t)
	if b.op == "var" && strings.HasPrefix(b.name, "A!") && k > 0 {
		return b, true
	}
	return nil, false
}

// allocs are ordered: bases created later are at least as large.
func allocOrder(b *Term) int {
	n, _ := strconv.Atoi(b.name[2:])
	return n
}

func distinctRefs(a, b *Term) bool {
	if a.isInt() && b.isInt() {
		return a != b
	}
	// 0 and negative numbers against allocations
	if _, ok := isAlloc(a); ok && b.isInt() && b.ival.Sign() <= 0 {
		return true
	}
	if _, ok := isAlloc(b); ok && a.isInt() && a.ival.Sign() <= 0 {
		return true
	}
	if isSub(a) && isSub(b) {
		if a.name != b.name {
			return true
		}
		return distinctRefs(a.args[0], b.args[0])
	}
	if x, ok := isAlloc(a); ok {
		if isSub(b) {
			return true
		}
		if isOlder(b, x, a) {
			return true
		}
		if y, ok := isAlloc(b); ok && x != y {
			return true
		}
	}
	if x, ok := isAlloc(b); ok {
		if isSub(a) {
			return true
		}
		if isOlder(a, x, b) {
			return true
		}
	}
	return false
}

// oldRef bounds a reference: it is at most base+off.
type oldRef struct {
	base *Term
	off  int64
}

// isOlder reports that r is bounded below allocation v with base x.
func isOlder(r, x, v *Term) bool {
	o, ok := knownOld.Load(r)
	if !ok {
		return false
	}
	w := o.(oldRef)
	if w.base == x {
		_, k, _ := splitOff(v)
		return w.off < k
	}
	return allocOrder(w.base) < allocOrder(x)
}

func isSub(t *Term) bool { return t.op == "app" && strings.HasPrefix(t.name, "sub:") }

func Forall(vs []*Term, body *Term, pats ...[]*Term) *Term {
	return quant("forall", vs, body, pats)
}
func Exists(vs []*Term, body *Term) *Term { return quant("exists", vs, body, nil) }
func quant(op string, vs []*Term, body *Term, pats [][]*Term) *Term {
	if body == True || body == False {
		return body
	}
	var used []*Term
	for _, v := range vs {
		if body.bound[v] {
			used = append(used, v)
		}
	}
	if len(used) == 0 {
		return body
	}
	if op == "forall" && body.op == "and" && len(pats) == 0 {
		var cs []*Term
		for _, a := range body.args {
			cs = append(cs, quant(op, vs, a, nil))
		}
		return And(cs...)
	}
	var ok [][]*Term
	for _, p := range pats {
		m := map[*Term]bool{}
		for _, t := range p {
			for b := range t.bound {
				m[b] = true
			}
		}
		good := true
		for _, v := range used {
			if !m[v] {
				good = false
			}
		}
		if good {
			ok = append(ok, p)
		}
	}
	return mk(op, "", SBool, append(append([]*Term{}, used...), body), nil, ok)
}

// ---- strings

func Cat(as ...*Term) *Term {
	var out []*Term
	var add func(a *Term)
	add = func(a *Term) {
		if a.op == "cat" {
			for _, x := range a.args {
				add(x)
			}
			return
		}
		if a.op == "str" {
			if a.name == "" {
				return
			}
			if n := len(out); n > 0 && out[n-1].op == "str" {
				out[n-1] = StrLit(out[n-1].name + a.name)
				return
			}
		}
		out = append(out, a)
	}
	for _, a := range as {
		add(a)
	}
	if len(out) == 0 {
		return StrLit("")
	}
	if len(out) == 1 {
		return out[0]
	}
	if len(out) <= 24 {
		for i, a := range out {
			if a.op == "ite" {
				l := append(append(append([]*Term{}, out[:i]...), a.args[1]), out[i+1:]...)
				r := append(append(append([]*Term{}, out[:i]...), a.args[2]), out[i+1:]...)
				return Ite(a.args[0], Cat(l...), Cat(r...))
			}
		}
	}
	return mk("cat", "", SStr, out, nil, nil)
}

func Slen(a *Term) *Term {
	switch a.op {
	case "str":
		return Int(int64(len(a.name)))
	case "cat":
		r := Int(0)
		for _, x := range a.args {
			r = Add(r, Slen(x))
		}
		return r
	case "ite":
		return Ite(a.args[0], Slen(a.args[1]), Slen(a.args[2]))
	case "app":
		if a.name == "be64" {
			return Int(8)
		}
		if a.name == "timefmt" && a.args[0].op == "str" && a.args[0].name == "2006010215" {
			return Int(10)
		}
	}
	return App("slen", SInt, a)
}

// subst replaces bound/free variables.
func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = rec(a)
			if as[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, as, rec)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, as []*Term, rec func(*Term) *Term) *Term {
	switch t.op {
	case "and":
		return And(as...)
	case "or":
		return Or(as...)
	case "not":
		return Not(as[0])
	case "=>":
		return Implies(as[0], as[1])
	case "=":
		return Eq(as[0], as[1])
	case "ite":
		return Ite(as[0], as[1], as[2])
	case "+":
		r := Int(0)
		for _, a := range as {
			r = Add(r, a)
		}
		return r
	case "*":
		return Mul(as[0], as[1])
	case "div":
		return Div(as[0], as[1])
	case "mod":
		return Mod(as[0], as[1])
	case "<=":
		return Le(as[0], as[1])
	case "select":
		return Select(as[0], as[1])
	case "store":
		return Store(as[0], as[1], as[2])
	case "cat":
		return Cat(as...)
	case "forall", "exists":
		var ps [][]*Term
		for _, p := range t.pats {
			var q []*Term
			for _, x := range p {
				q = append(q, rec(x))
			}
			ps = append(ps, q)
		}
		return mk(t.op, "", SBool, as, nil, ps)
	case "app":
		if t.name == "slen" {
			return Slen(as[0])
		}
	}
	return mk(t.op, t.name, t.sort, as, t.ival, t.pats)
}

func (t *Term) String() string {
	var b strings.Builder
	n := 0
	var rec func(t *Term)
	rec = func(t *Term) {
		n++
		if n > 400 {
			b.WriteString("…")
			return
		}
		switch t.op {
		case "var", "bvar":
			b.WriteString(t.name)
		case "int":
			b.WriteString(t.ival.String())
		case "str":
			b.WriteString(strconv.Quote(t.name))
		case "true", "false":
			b.WriteString(t.op)
		default:
			b.WriteByte('(')
			if t.op == "app" {
				b.WriteString(t.name)
			} else {
				b.WriteString(t.op)
			}
			for _, a := range t.args {
				b.WriteByte(' ')
				rec(a)
			}
			b.WriteByte(')')
		}
	}
	rec(t)
	return b.String()
}
