package main

import "go/constant"

// This file turns loops whose first test is decided before they start (a flag
// that is set, then tested) into loops that test at the end of each turn, so
// that the way a loop is written does not show in what is said about it.

// rotateLoops rotates every loop it can; the flat form stays in SSA.
func (fl *Flat) rotateLoops() {
	done := false
	for _, h := range append([]*Block{}, fl.Blocks...) {
		if h.Header && fl.rotate(h) {
			done = true
		}
	}
	if !done {
		return
	}
	for _, b := range fl.Blocks {
		b.Header = false
	}
	fl.markHeaders()
}

// decided gives the value of a test when the phis of its block come from pred i.
func decided(c *Node, h *Block, i int) (bool, bool) {
	switch c.Op {
	case OpConst:
		if c.Const != nil && c.Const.Kind() == constant.Bool {
			return constant.BoolVal(c.Const), true
		}
	case OpPhi:
		if c.Blk == h {
			return decided(c.Args[i], h, i)
		}
	case OpNot:
		v, ok := decided(c.Args[0], h, i)
		return !v, ok
	}
	return false, false
}

func (fl *Flat) rotate(h *Block) bool {
	last := h.Nodes[len(h.Nodes)-1]
	if last.Op != OpIf || len(h.Succs) != 2 {
		return false
	}
	var phis []*Node
	own := map[*Node]bool{}
	for _, n := range h.Nodes[:len(h.Nodes)-1] {
		switch n.Op {
		case OpPhi:
			phis = append(phis, n)
		case OpNot:
			own[n] = true
		default:
			return false
		}
	}
	reach := map[*Block]bool{}
	var fw func(b *Block)
	fw = func(b *Block) {
		for _, e := range b.Succs {
			if e.To != nil && !reach[e.To] {
				reach[e.To] = true
				fw(e.To)
			}
		}
	}
	fw(h)
	var in []int
	way := -1
	for i, p := range h.Preds {
		if reach[p] {
			continue
		}
		v, ok := decided(last.Args[0], h, i)
		if !ok {
			return false
		}
		w := 1
		if v {
			w = 0
		}
		if way >= 0 && way != w {
			return false
		}
		way = w
		in = append(in, i)
	}
	if len(in) == 0 || len(in) == len(h.Preds) {
		return false
	}
	s := h.Succs[way].To
	if s == h || len(s.Preds) != 1 || s.Nodes[0].Op == OpPhi {
		return false
	}
	// it must come back to h only through s
	back := map[*Block]bool{}
	var bk func(b *Block)
	bk = func(b *Block) {
		for _, e := range b.Succs {
			if e.To != nil && e.To != h && !back[e.To] {
				back[e.To] = true
				bk(e.To)
			}
		}
	}
	if e := h.Succs[1-way].To; e == h {
		return false
	} else {
		back[e] = true
		bk(e)
		for i, p := range h.Preds {
			isIn := false
			for _, k := range in {
				isIn = isIn || k == i
			}
			if !isIn && back[p] {
				return false
			}
		}
	}
	// values of the test itself must stay in h
	isPhi := map[*Node]bool{}
	for _, n := range phis {
		isPhi[n] = true
	}
	inBlock := map[*Node]bool{}
	for _, b := range fl.Blocks {
		for _, n := range b.Nodes {
			inBlock[n] = true
			for _, a := range n.Args {
				if own[a] && b != h {
					return false
				}
			}
			if n.Defer != nil && (own[n.Defer] || isPhi[n.Defer]) {
				return false
			}
		}
	}
	for _, n := range fl.Nodes {
		if n.Op != OpTuple && inBlock[n] {
			continue
		}
		for _, a := range n.Args {
			if (own[a] || isPhi[a]) && !inBlock[n] {
				return false
			}
		}
	}
	// the new head
	id := 0
	for _, b := range fl.Blocks {
		id = max(id, b.ID+1)
	}
	l := &Block{ID: id, Fr: h.Fr}
	fl.Blocks = append(fl.Blocks, l)
	fresh := map[*Node]*Node{}
	for _, p := range phis {
		n := fl.node(OpPhi, p.T)
		n.Pos, n.Name, n.Src = p.Pos, p.Name, p.Src
		fl.emit(l, n)
		fresh[p] = n
		inBlock[n] = true
	}
	inSet := map[int]bool{}
	for _, i := range in {
		inSet[i] = true
	}
	for i, p := range h.Preds {
		if !inSet[i] {
			continue
		}
		for k := range p.Succs {
			if e := p.Succs[k]; e.To == h && e.Pred == i {
				p.Succs[k] = Edge{l, len(l.Preds)}
				l.Preds = append(l.Preds, p)
				for _, ph := range phis {
					fresh[ph].Args = append(fresh[ph].Args, ph.Args[i])
				}
			}
		}
	}
	h.Succs[way] = Edge{l, len(l.Preds)}
	l.Preds = append(l.Preds, h)
	for _, ph := range phis {
		fresh[ph].Args = append(fresh[ph].Args, ph)
	}
	j := fl.node(OpJump, nil)
	fl.emit(l, j)
	l.Succs = []Edge{{s, 0}}
	s.Preds[0] = l
	// h keeps the ways back
	var preds []*Block
	args := map[*Node][]*Node{}
	for i, p := range h.Preds {
		if inSet[i] {
			continue
		}
		for k := range p.Succs {
			if e := p.Succs[k]; e.To == h && e.Pred == i {
				p.Succs[k].Pred = len(preds)
			}
		}
		preds = append(preds, p)
		for _, ph := range phis {
			args[ph] = append(args[ph], ph.Args[i])
		}
	}
	h.Preds = preds
	for _, ph := range phis {
		ph.Args = args[ph]
	}
	// SSA again
	for _, ph := range phis {
		fl.repair(ph, h, fresh[ph], l)
	}
	return true
}

// repair gives every use of a the definition that reaches it: a, made in ha, or
// b, made in hb.
func (fl *Flat) repair(a *Node, ha *Block, b *Node, hb *Block) {
	start := map[*Block]*Node{}
	made := []*Node{}
	var at, end func(x *Block) *Node
	end = func(x *Block) *Node {
		switch x {
		case ha:
			return a
		case hb:
			return b
		}
		return at(x)
	}
	at = func(x *Block) *Node {
		if n, ok := start[x]; ok {
			return n
		}
		if len(x.Preds) == 0 {
			return a
		}
		if len(x.Preds) == 1 {
			start[x] = nil
			n := end(x.Preds[0])
			start[x] = n
			return n
		}
		n := fl.node(OpPhi, a.T)
		n.Pos, n.Name, n.Src, n.Blk, n.Fr = a.Pos, a.Name, a.Src, x, x.Fr
		start[x] = n
		for _, p := range x.Preds {
			n.Args = append(n.Args, end(p))
		}
		made = append(made, n)
		return n
	}
	type use struct {
		n *Node
		i int
	}
	var uses []use
	var vals []*Node
	for _, x := range fl.Blocks {
		for _, n := range x.Nodes {
			for i, y := range n.Args {
				if y != a || n == b {
					continue
				}
				var v *Node
				switch {
				case n.Op == OpPhi:
					v = end(x.Preds[i])
				case x == ha:
					continue
				case x == hb:
					v = b
				default:
					v = at(x)
				}
				uses = append(uses, use{n, i})
				vals = append(vals, v)
			}
		}
	}
	// phis that add nothing
	repl := map[*Node]*Node{}
	var root func(n *Node) *Node
	root = func(n *Node) *Node {
		for repl[n] != nil {
			n = repl[n]
		}
		return n
	}
	for again := true; again; {
		again = false
		for _, n := range made {
			if repl[n] != nil {
				continue
			}
			var only *Node
			trivial := true
			for _, x := range n.Args {
				if x = root(x); x == n || x == only {
					continue
				}
				if only != nil {
					trivial = false
					break
				}
				only = x
			}
			if trivial && only != nil {
				repl[n] = only
				again = true
			}
		}
	}
	used := map[*Node]bool{}
	var mark func(n *Node)
	mark = func(n *Node) {
		n = root(n)
		if used[n] {
			return
		}
		used[n] = true
		for _, m := range made {
			if m == n {
				for _, x := range n.Args {
					mark(x)
				}
			}
		}
	}
	for i, u := range uses {
		u.n.Args[u.i] = root(vals[i])
		mark(vals[i])
	}
	for _, n := range made {
		if repl[n] != nil || !used[n] {
			continue
		}
		for i := range n.Args {
			n.Args[i] = root(n.Args[i])
		}
		n.Blk.Nodes = append([]*Node{n}, n.Blk.Nodes...)
	}
}
