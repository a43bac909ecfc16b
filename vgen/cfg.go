package main

import (
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type loopHead struct {
	body map[*ssa.BasicBlock]bool
}

type cfgInfo struct {
	fn   *ssa.Function
	head map[*ssa.BasicBlock]*loopHead
	ipd  map[*ssa.BasicBlock]*ssa.BasicBlock
}

var (
	cfgMu sync.Mutex
	cfgs  = map[*ssa.Function]*cfgInfo{}
)

func (p *Program) loopInfo(fn *ssa.Function) *cfgInfo {
	cfgMu.Lock()
	defer cfgMu.Unlock()
	if c, ok := cfgs[fn]; ok {
		return c
	}
	c := &cfgInfo{fn: fn, head: map[*ssa.BasicBlock]*loopHead{}, ipd: map[*ssa.BasicBlock]*ssa.BasicBlock{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				h := c.head[s]
				if h == nil {
					h = &loopHead{body: map[*ssa.BasicBlock]bool{s: true}}
					c.head[s] = h
				}
				var stack []*ssa.BasicBlock
				if !h.body[b] {
					h.body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, q := range x.Preds {
						if !h.body[q] {
							h.body[q] = true
							stack = append(stack, q)
						}
					}
				}
			}
		}
	}
	// post dominators, blocks ending in a panic are ignored
	n := len(fn.Blocks)
	pd := make([]map[int]bool, n)
	isPanic := make([]bool, n)
	all := map[int]bool{}
	for i, b := range fn.Blocks {
		all[i] = true
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); ok {
				isPanic[i] = true
			}
		}
	}
	for i, b := range fn.Blocks {
		if len(b.Succs) == 0 {
			pd[i] = map[int]bool{i: true}
		} else {
			pd[i] = all
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if len(b.Succs) == 0 {
				continue
			}
			var r map[int]bool
			for _, s := range b.Succs {
				if isPanic[s.Index] {
					continue
				}
				if r == nil {
					r = map[int]bool{}
					for k := range pd[s.Index] {
						r[k] = true
					}
				} else {
					for k := range r {
						if !pd[s.Index][k] {
							delete(r, k)
						}
					}
				}
			}
			if r == nil {
				r = map[int]bool{}
			}
			r[i] = true
			if len(r) != len(pd[i]) {
				pd[i] = r
				ch = true
			}
		}
	}
	for i, b := range fn.Blocks {
		// the immediate one is dominated by all others
		best := -1
		for k := range pd[i] {
			if k == i {
				continue
			}
			if best < 0 || len(pd[k]) > len(pd[best]) {
				best = k
			}
		}
		if best >= 0 {
			c.ipd[b] = fn.Blocks[best]
		}
	}
	cfgs[fn] = c
	return c
}

func (c *cfgInfo) ipdom(b *ssa.BasicBlock) *ssa.BasicBlock { return c.ipd[b] }

// region lists the blocks strictly between b and join, nil if there are too
// many or a loop is among them.
func (c *cfgInfo) region(b, join *ssa.BasicBlock, max int) map[*ssa.BasicBlock]bool {
	r := map[*ssa.BasicBlock]bool{}
	stack := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if x == join || r[x] {
			continue
		}
		if x == b || c.head[x] != nil {
			return nil
		}
		r[x] = true
		if len(r) > max {
			return nil
		}
		stack = append(stack, x.Succs...)
	}
	return r
}

// loopShape describes the counter of a loop header.
type loopShape struct {
	phi   *ssa.Phi
	plus1 bool      // the compared value is phi+1
	bound ssa.Value // compared with
	over  ssa.Value // bound is len(over)
	next  *ssa.Next
	cond  *ssa.BinOp
	step1 bool
	init  ssa.Value
}

func shapeOf(b *ssa.BasicBlock, li *loopHead) *loopShape {
	sh := &loopShape{}
	for _, in := range b.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			sh.next = n
			return sh
		}
	}
	if len(b.Instrs) == 0 {
		return nil
	}
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	c, ok := iff.Cond.(*ssa.BinOp)
	if !ok || c.Op != token.LSS {
		return nil
	}
	sh.cond = c
	ph := func(v ssa.Value) bool {
		if p, ok := v.(*ssa.Phi); ok && p.Block() == b {
			sh.phi = p
			return true
		}
		return false
	}
	if !ph(c.X) {
		if a, ok := c.X.(*ssa.BinOp); ok && a.Op == token.ADD && isOne(a.Y) && ph(a.X) {
			sh.plus1 = true
		} else {
			return nil
		}
	}
	sh.bound = c.Y
	if l, ok := c.Y.(*ssa.Call); ok {
		if bi, ok := l.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			sh.over = l.Call.Args[0]
		}
	}
	sh.step1 = true
	for i, p := range b.Preds {
		e := sh.phi.Edges[i]
		if li.body[p] {
			if a, ok := e.(*ssa.BinOp); !ok || a.Op != token.ADD || a.X != ssa.Value(sh.phi) || !isOne(a.Y) {
				sh.step1 = false
			}
		} else {
			sh.init = e
		}
	}
	return sh
}

func isOne(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return false
	}
	b, ok := under(c.Type()).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && c.Int64() == 1
}
