package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The range analysis: a relational abstract interpretation (conjunctions of
// linear inequalities over integers and lengths) of one entry point with its
// helpers inlined, on top of the exploded graph. Loop invariants start from
// what holds on entry plus a fixed set of templates, and are reduced to what
// every back edge preserves.

var maxLen = new(big.Int).Lsh(big.NewInt(1), 47)

// maxAlloc bounds a sum of a few lengths of what exists.
var maxAlloc = new(big.Int).Lsh(big.NewInt(1), 51)

type numRun struct {
	c    *Ctx
	fl   *Flat
	x    *Exploder
	load map[int]map[int]Sym
	bad  map[[2]int]bool
	in   map[*XNode]*Num
	edge map[*XEdge]*Num
	vals map[*XNode]map[int]bool
	r    *Result
	fail func(n *Node, kind, detail string, xn *XNode)
	pass func(n *Node, kind string)
	// conds are the comparisons whose operands still have the values compared
	conds map[*Num]map[int]bool
	typ   map[Sym]types.Type
	done  bool
	// fits says that positions and amounts are assumed to fit an int
	fits bool
	intr map[NV]bool
	// onReturn and onStore see the final state of returns and of field stores.
	onReturn func(s *Num, n *Node)
	onStore  func(s *Num, n *Node)
}

func intType(t types.Type) (*types.Basic, bool) {
	if t == nil {
		return nil, false
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return nil, false
	}
	return b, true
}

func typeRange(t types.Type) (lo, hi *big.Int) {
	b, ok := intType(t)
	if !ok {
		return nil, nil
	}
	bits, uns := uint(64), b.Info()&types.IsUnsigned != 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	}
	one := big.NewInt(1)
	if uns {
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, bits), one)
	}
	h := new(big.Int).Lsh(one, bits-1)
	return new(big.Int).Neg(h), new(big.Int).Sub(h, one)
}

// lenable says whether len applies, and the fixed length of an array.
func lenable(t types.Type) (ok bool, fixed int64) {
	if t == nil {
		return false, -1
	}
	u := t.Underlying()
	if p, is := u.(*types.Pointer); is {
		if a, is := p.Elem().Underlying().(*types.Array); is {
			return true, a.Len()
		}
		return false, -1
	}
	switch v := u.(type) {
	case *types.Slice:
		return true, -1
	case *types.Array:
		return true, v.Len()
	case *types.Basic:
		return v.Info()&types.IsString != 0, -1
	}
	return false, -1
}

func (m *numRun) rng(v NV) (lo, hi *big.Int) {
	switch v.Kind {
	case 'l', 'c':
		return big.NewInt(0), maxLen
	case 'v':
		return typeRange(m.typ[v.Sym])
	}
	return nil, nil
}

func (m *numRun) valOf(n *Node) Lin {
	if n.Op == OpConst {
		if n.Const == nil {
			return linK(0)
		}
		if c := constant.ToInt(n.Const); c.Kind() == constant.Int {
			if b, ok := new(big.Int).SetString(c.ExactString(), 10); ok {
				return linB(b)
			}
		}
	}
	m.typ[Sym(n.ID)] = n.T
	return linV(NV{Sym(n.ID), 'v'})
}

func (m *numRun) lenOf(n *Node) Lin {
	if n.Op == OpConst {
		if n.Const != nil && n.Const.Kind() == constant.String {
			return linK(int64(len(constant.StringVal(n.Const))))
		}
		return linK(0)
	}
	if _, f := lenable(n.T); f >= 0 {
		return linK(f)
	}
	return linV(NV{Sym(n.ID), 'l'})
}

func (m *numRun) capOf(n *Node) Lin {
	if n.Op == OpConst {
		return m.lenOf(n)
	}
	if _, f := lenable(n.T); f >= 0 {
		return linK(f)
	}
	if b, ok := n.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return m.lenOf(n)
	}
	return linV(NV{Sym(n.ID), 'c'})
}

func (m *numRun) setVal(s *Num, n *Node, l *Lin) {
	m.typ[Sym(n.ID)] = n.T
	m.stale(s, n)
	s.assign(NV{Sym(n.ID), 'v'}, l)
}

func (m *numRun) setLen(s *Num, n *Node, l, c *Lin) {
	if _, f := lenable(n.T); f >= 0 {
		return
	}
	m.stale(s, n)
	lv, cv := NV{Sym(n.ID), 'l'}, NV{Sym(n.ID), 'c'}
	s.assign(lv, l)
	s.assign(cv, c)
	s.ge(linV(cv).sub(linV(lv)))
}

func (m *numRun) stale(s *Num, n *Node) {
	for id := range m.conds[s] {
		for _, a := range m.fl.Nodes[id].Args {
			if a == n {
				delete(m.conds[s], id)
			}
		}
	}
}

func (m *numRun) cloneNum(s *Num) *Num {
	n := s.clone()
	mp := map[int]bool{}
	for k := range m.conds[s] {
		mp[k] = true
	}
	m.conds[n] = mp
	return n
}

// exact says whether l fits type t in s.
func exact(s *Num, l Lin, t types.Type) bool {
	lo, hi := typeRange(t)
	if lo == nil {
		return false
	}
	return s.entails(l.plusB(linK(1), new(big.Int).Neg(lo))) && s.entails(linB(hi).sub(l))
}

func (m *numRun) need(s *Num, xn *XNode, n *Node, kind, what string, goals ...Lin) bool {
	ok := true
	for _, g := range goals {
		if !s.entails(g) {
			ok = false
		}
	}
	if m.done {
		if ok {
			m.pass(n, kind)
		} else {
			m.fail(n, kind, what, xn)
		}
	}
	return ok
}

// step transfers one node.
func (m *numRun) step(s *Num, xn *XNode, n *Node) {
	m.step1(s, xn, n)
	if n.Op == OpLoad && n.Args[0].Op == OpFieldAddr && !s.dead && m.c.bnum.filled[n.Args[0].Field] {
		s.ge(m.fill(n).addK(-1))
	}
	if n.Op == OpCall && n.Callee != nil && !s.dead {
		m.posts(s, n)
	}
}

func (m *numRun) step1(s *Num, xn *XNode, n *Node) {
	if s.dead {
		return
	}
	_, isInt := intType(n.T)
	isLen, fixed := lenable(n.T)
	switch n.Op {
	case OpPhi, OpConst, OpParam:
		return
	case OpBin:
		m.bin(s, xn, n, isInt)
		if isLen && fixed < 0 && n.Tok == token.ADD {
			l := m.lenOf(n.Args[0]).plus(m.lenOf(n.Args[1]), 1)
			m.setLen(s, n, &l, nil)
			s.eq(linV(NV{Sym(n.ID), 'c'}).sub(linV(NV{Sym(n.ID), 'l'})))
		}
		return
	case OpUn:
		if isInt {
			if n.Tok == token.SUB {
				l := m.valOf(n.Args[0]).neg()
				if exact(s, l, n.T) {
					m.setVal(s, n, &l)
					return
				}
			}
			m.setVal(s, n, nil)
		}
		return
	case OpConv, OpChangeIface, OpUnwrap, OpMakeIface:
		if len(n.Args) == 0 {
			return
		}
		a := n.Args[0]
		if isInt {
			if ab, ok := intType(a.T); ok {
				l := m.valOf(a)
				if nb, _ := intType(n.T); m.fits && ab.Kind() == types.Uint && nb.Kind() == types.Int {
					_, hi := typeRange(n.T)
					s.ge(linB(hi).sub(l))
				}
				if exact(s, l, n.T) {
					m.setVal(s, n, &l)
					return
				}
			}
			m.setVal(s, n, nil)
			return
		}
		if isLen {
			if fixed >= 0 {
				if _, ok := a.T.Underlying().(*types.Slice); ok {
					m.need(s, xn, n, "array conversion", fmt.Sprintf("the converted slice may have fewer than %d elements", fixed), m.lenOf(a).addK(-fixed))
				}
				return
			}
			if ok, _ := lenable(a.T); ok {
				l := m.lenOf(a)
				_, as := a.T.Underlying().(*types.Slice)
				_, ns := n.T.Underlying().(*types.Slice)
				if as != ns && !byteSlice(a.T) && !byteSlice(n.T) {
					m.setLen(s, n, nil, nil)
					return
				}
				if as && ns {
					c := m.capOf(a)
					m.setLen(s, n, &l, &c)
				} else {
					m.setLen(s, n, &l, nil)
				}
				return
			}
			m.setLen(s, n, nil, nil)
		}
		return
	case OpMakeSlice:
		l, c := m.valOf(n.Args[0]), m.valOf(n.Args[1])
		m.need(s, xn, n, "allocation", "the size of the allocation may be negative, or not bounded by data that exists", l, linB(maxAlloc).sub(c), c.sub(l))
		s.ge(l)
		s.ge(c.sub(l))
		s.ge(linB(maxLen).sub(c))
		m.setLen(s, n, &l, &c)
		return
	case OpSlice:
		a := n.Args[0]
		lo, ln, cp := linK(0), m.lenOf(a), m.capOf(a)
		if n.Args[1] != nil {
			lo = m.valOf(n.Args[1])
		}
		hi := ln
		if n.Args[2] != nil {
			hi = m.valOf(n.Args[2])
		}
		top := cp
		mx := cp
		goals := []Lin{lo, hi.sub(lo)}
		if n.Args[3] != nil {
			mx = m.valOf(n.Args[3])
			goals = append(goals, top.sub(mx), mx.sub(hi))
		} else {
			goals = append(goals, top.sub(hi))
		}
		m.need(s, xn, n, "slice bounds", "the bounds of the slice expression may be out of range", goals...)
		for _, g := range goals {
			s.ge(g)
		}
		l, c := hi.sub(lo), mx.sub(lo)
		if b, ok := n.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			m.setLen(s, n, &l, nil)
		} else {
			m.setLen(s, n, &l, &c)
		}
		return
	case OpIndexAddr, OpIndex:
		i, l := m.valOf(n.Args[1]), m.lenOf(n.Args[0])
		m.need(s, xn, n, "index", "the index may be out of range", i, l.sub(i).addK(-1))
		s.ge(i)
		s.ge(l.sub(i).addK(-1))
	case OpLookup:
		if b, ok := n.Args[0].T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			i, l := m.valOf(n.Args[1]), m.lenOf(n.Args[0])
			m.need(s, xn, n, "index", "the index may be out of range", i, l.sub(i).addK(-1))
			s.ge(i)
			s.ge(l.sub(i).addK(-1))
		}
	case OpTypeAssert:
		if !n.CommaOk && m.done {
			m.fail(n, "type assertion", "the type assertion panics when the value has another type", xn)
		}
	case OpPanic:
		if m.done {
			m.fail(n, "panic", "the code panics", xn)
		}
		return
	case OpCall:
		m.call(s, xn, n)
		return
	case OpReturn:
		if m.onReturn != nil && m.done {
			m.onReturn(s, n)
		}
		return
	case OpStore, OpMapUpdate:
		if n.Op == OpStore && m.onStore != nil && m.done && n.Args[0].Op == OpFieldAddr {
			m.onStore(s, n)
		}
		s.drop(func(v NV) bool { return v.Sym < -(1 << 39) })
		return
	case OpLoad, OpField, OpExtract:
		if n.Op == OpExtract && isInt {
			if rg := n.Args[0]; rg.Op == OpNext && n.Idx == 1 {
				m.setVal(s, n, nil)
				if it := rg.Args[0]; it.Op == OpRange {
					if b, ok := it.Args[0].T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
						v := m.valOf(n)
						s.ge(v)
						// at the end of the iteration the index is zero
						_ = v
					}
				}
				return
			}
		}
		if mp, ok := m.load[xn.ID]; ok && !m.bad[[2]int{xn.ID, n.ID}] {
			if y, ok := mp[n.ID]; ok && y != Sym(n.ID) {
				if !m.validSym(y) {
					break
				}
				if sn := m.x.symNode(y); sn != nil && sn.Op == OpConst {
					if isInt {
						l := m.valOf(sn)
						m.setVal(s, n, &l)
					} else if isLen && fixed < 0 {
						l := m.lenOf(sn)
						m.setLen(s, n, &l, nil)
					}
					return
				}
				if isInt {
					if _, ok := m.typ[y]; !ok {
						m.typ[y] = n.T
					}
					l := linV(NV{y, 'v'})
					m.setVal(s, n, &l)
				} else if isLen && fixed < 0 {
					l, c := linV(NV{y, 'l'}), linV(NV{y, 'c'})
					m.setLen(s, n, &l, &c)
				}
				return
			}
		}
	}
	if isInt {
		m.setVal(s, n, nil)
	} else if isLen && fixed < 0 {
		m.setLen(s, n, nil, nil)
	}
}

func (m *numRun) validSym(y Sym) bool { return true }

func byteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (m *numRun) bin(s *Num, xn *XNode, n *Node, isInt bool) {
	a, b := n.Args[0], n.Args[1]
	if n.Tok == token.QUO || n.Tok == token.REM {
		if _, ok := intType(b.T); ok {
			d := m.valOf(b)
			ok := s.entails(d.addK(-1)) || s.entails(d.neg().addK(-1)) || s.excludes(d)
			if m.done {
				if ok {
					m.pass(n, "division")
				} else {
					m.fail(n, "division", "the divisor may be zero", xn)
				}
			}
		}
	}
	if !isInt {
		if _, ok := intType(a.T); ok {
			if m.conds[s] == nil {
				m.conds[s] = map[int]bool{}
			}
			m.conds[s][n.ID] = true
		} else if ok, _ := lenable(a.T); ok {
			if m.conds[s] == nil {
				m.conds[s] = map[int]bool{}
			}
			m.conds[s][n.ID] = true
		}
		return
	}
	if n.Tok == token.QUO {
		defer func() {
			if m.conds[s] == nil {
				m.conds[s] = map[int]bool{}
			}
			m.conds[s][n.ID] = true
		}()
	}
	x, y := m.valOf(a), m.valOf(b)
	try := func(l Lin) {
		if exact(s, l, n.T) {
			m.setVal(s, n, &l)
		} else {
			m.setVal(s, n, nil)
		}
	}
	v := NV{Sym(n.ID), 'v'}
	switch n.Tok {
	case token.ADD:
		if l := x.plus(y, 1); m.counter(n, map[*Node]bool{}) {
			m.setVal(s, n, &l)
		} else {
			try(l)
		}
	case token.SUB:
		try(x.sub(y))
	case token.MUL:
		switch {
		case y.isConst():
			try(linK(0).plusB(x, y.K))
		case x.isConst():
			try(linK(0).plusB(y, x.K))
		default:
			m.product(s, n, x, y)
		}
	case token.SHL:
		if y.isConst() && y.K.IsInt64() && y.K.Int64() < 63 {
			try(linK(0).plusB(x, new(big.Int).Lsh(big.NewInt(1), uint(y.K.Int64()))))
		} else {
			m.setVal(s, n, nil)
		}
	case token.QUO, token.SHR, token.REM:
		d := y
		if n.Tok == token.SHR {
			if !y.isConst() || !y.K.IsInt64() || y.K.Int64() > 62 {
				m.setVal(s, n, nil)
				return
			}
			d = linB(new(big.Int).Lsh(big.NewInt(1), uint(y.K.Int64())))
		}
		nonneg := s.entails(x)
		if d.isConst() && d.K.Sign() > 0 && (nonneg || n.Tok == token.SHR) {
			q := NV{Sym(n.ID), 'q'}
			// x = d*q + r, 0 <= r <= d-1
			self := x.has(v)
			if self {
				m.setVal(s, n, nil)
				return
			}
			m.setVal(s, n, nil)
			s.forget(q)
			r := x.plusB(linV(q), new(big.Int).Neg(d.K))
			s.ge(r)
			s.ge(linB(d.K).sub(r).addK(-1))
			if nonneg {
				s.ge(linV(q))
			}
			if n.Tok == token.REM {
				s.eq(linV(v).sub(r))
			} else {
				s.eq(linV(v).sub(linV(q)))
			}
			return
		}
		pos := s.entails(d.addK(-1))
		m.setVal(s, n, nil)
		if nonneg && pos {
			s.ge(linV(v))
			s.ge(x.sub(linV(v)))
			if n.Tok == token.REM {
				s.ge(d.sub(linV(v)).addK(-1))
			}
		}
	case token.AND:
		xn, yn := s.entails(x), s.entails(y)
		m.setVal(s, n, nil)
		if xn {
			s.ge(linV(v))
			s.ge(x.sub(linV(v)))
		}
		if yn {
			s.ge(linV(v))
			s.ge(y.sub(linV(v)))
		}
	default:
		m.setVal(s, n, nil)
	}
}

// counter says whether n starts from small constants and lengths and only ever
// grows by small constants: it takes more steps than there is time for to
// overflow.
func (m *numRun) counter(n *Node, seen map[*Node]bool) bool {
	if seen[n] {
		return true
	}
	seen[n] = true
	small := func(c *Node) bool {
		l := m.valOf(c)
		return l.isConst() && l.K.IsInt64() && l.K.Int64() >= -1<<16 && l.K.Int64() <= 1<<16
	}
	if b, ok := intType(n.T); !ok || b.Kind() != types.Int && b.Kind() != types.Uint && b.Kind() != types.Int64 && b.Kind() != types.Uint64 {
		return false
	}
	switch n.Op {
	case OpConst:
		return small(n)
	case OpCall:
		return n.Builtin == "len"
	case OpPhi:
		for _, a := range n.Args {
			if !m.counter(a, seen) {
				return false
			}
		}
		return true
	case OpBin:
		if n.Tok != token.ADD {
			return false
		}
		a, b := n.Args[0], n.Args[1]
		if small(b) && m.valOf(b).K.Sign() >= 0 {
			return m.counter(a, seen)
		}
		return small(a) && m.valOf(a).K.Sign() >= 0 && m.counter(b, seen)
	}
	return false
}

// stride says whether n is a counter that starts at c and grows by k > 1.
func (m *numRun) stride(n *Node) (c, k int64, ok bool) {
	if _, isInt := intType(n.T); !isInt || !m.counter(n, map[*Node]bool{}) {
		return 0, 0, false
	}
	started := false
	for _, a := range n.Args {
		if l := m.valOf(a); l.isConst() {
			if started && l.K.Int64() != c {
				return 0, 0, false
			}
			c, started = l.K.Int64(), true
			continue
		}
		if a.Op != OpBin || a.Tok != token.ADD || a.Args[0] != n {
			return 0, 0, false
		}
		l := m.valOf(a.Args[1])
		if !l.isConst() || l.K.Int64() < 2 || k != 0 && l.K.Int64() != k {
			return 0, 0, false
		}
		k = l.K.Int64()
	}
	return c, k, started && k > 1
}

// product bounds d * (y / d) by y.
func (m *numRun) product(s *Num, n *Node, x, y Lin) {
	type bound struct{ d, y Lin }
	var got []bound
	for _, q := range m.fl.Nodes {
		if q.Op != OpBin || q.Tok != token.QUO {
			continue
		}
		if _, ok := intType(q.T); !ok {
			continue
		}
		qv, d, num := m.valOf(q), m.valOf(q.Args[1]), m.valOf(q.Args[0])
		if !m.conds[s][q.ID] || !s.entails(num) || !s.entails(d.addK(-1)) {
			continue
		}
		if s.entailsEq(x.sub(d)) && s.entailsEq(y.sub(qv)) || s.entailsEq(y.sub(d)) && s.entailsEq(x.sub(qv)) {
			got = append(got, bound{d, num})
		}
	}
	m.setVal(s, n, nil)
	v := m.valOf(n)
	for _, b := range got {
		s.ge(v)
		s.ge(b.y.sub(v))
		s.ge(v.sub(b.y).plus(b.d, 1).addK(-1))
	}
}

func (m *numRun) call(s *Num, xn *XNode, n *Node) {
	_, isInt := intType(n.T)
	isLen, fixed := lenable(n.T)
	if n.Builtin == "" {
		s.drop(func(v NV) bool { return v.Sym < -(1 << 39) })
		for i := 0; i < slotBase; i++ {
			sl := slot(n, i)
			for _, k := range []byte{'v', 'l', 'c'} {
				s.forget(NV{sl, k})
			}
			if tp, ok := n.T.(*types.Tuple); ok && i < tp.Len() {
				m.typ[sl] = tp.At(i).Type()
			}
		}
	}
	switch n.Builtin {
	case "len":
		a := n.Args[0]
		if ok, _ := lenable(a.T); ok {
			l := m.lenOf(a)
			m.setVal(s, n, &l)
			return
		}
		m.setVal(s, n, nil)
		s.ge(m.valOf(n))
		return
	case "cap":
		a := n.Args[0]
		if ok, _ := lenable(a.T); ok {
			l := m.capOf(a)
			m.setVal(s, n, &l)
			return
		}
	case "copy":
		m.setVal(s, n, nil)
		v := m.valOf(n)
		s.ge(v)
		s.ge(m.lenOf(n.Args[0]).sub(v))
		s.ge(m.lenOf(n.Args[1]).sub(v))
		return
	case "append":
		l := m.lenOf(n.Args[0])
		for _, a := range n.Args[1:] {
			l = l.plus(m.lenOf(a), 1)
		}
		m.setLen(s, n, &l, nil)
		return
	case "min", "max":
		if isInt {
			m.setVal(s, n, nil)
			v := m.valOf(n)
			for _, a := range n.Args {
				if n.Builtin == "min" {
					s.ge(m.valOf(a).sub(v))
				} else {
					s.ge(v.sub(m.valOf(a)))
				}
			}
			return
		}
	}
	name := n.extName()
	arg := func(i int) *Node {
		if i < len(n.Args) {
			return n.Args[i]
		}
		return nil
	}
	if i := strings.Index(name, "encoding/binary."); i >= 0 {
		sz := int64(0)
		switch {
		case strings.HasSuffix(name, "Uint64"):
			sz = 8
		case strings.HasSuffix(name, "Uint32"):
			sz = 4
		case strings.HasSuffix(name, "Uint16"):
			sz = 2
		}
		if sz > 0 && !strings.Contains(name, "Append") && len(n.Args) >= 2 {
			m.need(s, xn, n, "fixed size", fmt.Sprintf("%s may be given fewer than %d bytes", n.Callee.Name(), sz), m.lenOf(arg(1)).addK(-sz))
		}
	}
	if isInt {
		m.setVal(s, n, nil)
		switch {
		case strings.HasSuffix(name, "FileInfo).Size") || strings.HasSuffix(name, "FileInfo.Size"):
			v := m.valOf(n)
			s.ge(v)
			s.ge(linB(maxLen).sub(v))
		case strings.HasPrefix(name, "bytes.Index"), strings.HasPrefix(name, "strings.Index"), strings.HasPrefix(name, "bytes.LastIndex"), strings.HasPrefix(name, "strings.LastIndex"):
			v := m.valOf(n)
			s.ge(v.addK(1))
			s.ge(m.lenOf(arg(0)).sub(v))
		}
		return
	}
	if tp, ok := n.T.(*types.Tuple); ok && tp.Len() == 2 {
		if _, ok := intType(tp.At(0).Type()); ok && (strings.HasSuffix(name, "Read") || strings.HasSuffix(name, "ReadAt") || strings.HasSuffix(name, "Write") || strings.HasSuffix(name, "WriteAt")) && len(n.Args) >= 2 && byteSlice(n.Args[1].T) {
			v := linV(NV{slot(n, 0), 'v'})
			s.ge(v)
			s.ge(m.lenOf(n.Args[1]).sub(v))
		}
	}
	if isLen && fixed < 0 {
		m.setLen(s, n, nil, nil)
	}
}

// assume adds what a branch says.
func (m *numRun) assume(s *Num, c *Node, out bool) {
	for c != nil && c.Op == OpNot {
		c, out = c.Args[0], !out
	}
	if c == nil || c.Op != OpBin || !m.conds[s][c.ID] {
		return
	}
	a, b := c.Args[0], c.Args[1]
	var x, y Lin
	if _, ok := intType(a.T); ok {
		x, y = m.valOf(a), m.valOf(b)
	} else {
		// a comparison of strings with the empty string, of slices with nil
		empty := func(n *Node) bool {
			return n.Op == OpConst && (n.Const == nil || n.Const.Kind() == constant.String && constant.StringVal(n.Const) == "")
		}
		o := a
		if empty(a) {
			o = b
		} else if !empty(b) {
			return
		}
		str := false
		if bt, ok := o.T.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			str = true
		}
		eq := c.Tok == token.EQL && out || c.Tok == token.NEQ && !out
		ne := c.Tok == token.EQL && !out || c.Tok == token.NEQ && out
		if eq {
			s.eq(m.lenOf(o))
		} else if ne && str {
			s.ge(m.lenOf(o).addK(-1))
		}
		return
	}
	t := c.Tok
	if !out {
		switch t {
		case token.LSS:
			t = token.GEQ
		case token.LEQ:
			t = token.GTR
		case token.GTR:
			t = token.LEQ
		case token.GEQ:
			t = token.LSS
		case token.EQL:
			t = token.NEQ
		case token.NEQ:
			t = token.EQL
		}
	}
	switch t {
	case token.LSS:
		s.ge(y.sub(x).addK(-1))
	case token.LEQ:
		s.ge(y.sub(x))
	case token.GTR:
		s.ge(x.sub(y).addK(-1))
	case token.GEQ:
		s.ge(x.sub(y))
	case token.EQL:
		s.eq(x.sub(y))
	case token.NEQ:
		d := x.sub(y)
		switch {
		case s.entails(d):
			s.ge(d.addK(-1))
		case s.entails(d.neg()):
			s.ge(d.neg().addK(-1))
		default:
			s.addNeq(d)
		}
	}
}

// cross transfers an edge: the branch, then the phis of the target.
func (m *numRun) cross(s *Num, e *XEdge) *Num {
	s = m.cloneNum(s)
	if s.dead {
		return s
	}
	if e.Cond != nil {
		m.assume(s, e.Cond, e.Out)
		if e.CondNode != nil && e.CondNode != e.Cond {
			m.assume(s, e.CondNode, e.Out)
		}
	}
	type asg struct {
		to  NV
		tmp NV
	}
	var as []asg
	for _, n := range e.E.To.Nodes {
		if n.Op != OpPhi {
			break
		}
		a := n.Args[e.E.Pred]
		put := func(k byte, l Lin) {
			if l.has(NV{Sym(n.ID), k}) && len(l.C) == 1 && l.K.Sign() == 0 {
				return
			}
			tmp := NV{Sym(n.ID), k + 100}
			s.forget(tmp)
			s.eq(linV(tmp).sub(l))
			as = append(as, asg{NV{Sym(n.ID), k}, tmp})
		}
		if _, ok := intType(n.T); ok {
			m.typ[Sym(n.ID)] = n.T
			put('v', m.valOf(a))
		} else if ok, f := lenable(n.T); ok && f < 0 {
			put('l', m.lenOf(a))
			put('c', m.capOf(a))
		}
	}
	for _, a := range as {
		s.forget(a.to)
		m.stale(s, m.fl.Nodes[a.to.Sym])
	}
	for _, a := range as {
		s.rename(a.tmp, a.to)
	}
	for _, n := range e.E.To.Nodes {
		if n.Op != OpPhi {
			break
		}
		if c, k, ok := m.stride(n); ok {
			// always c plus a multiple of k
			q := NV{Sym(n.ID), 'q'}
			s.forget(q)
			s.eq(m.valOf(n).plus(linV(q), -k).addK(-c))
			s.ge(linV(q))
		}
	}
	// values that are dead in the target are projected away
	keep := map[Sym]bool{}
	for id := range m.conds[s] {
		if m.x.isLive(e.E.To, id) {
			for _, a := range m.fl.Nodes[id].Args {
				keep[Sym(a.ID)] = true
			}
		} else {
			delete(m.conds[s], id)
		}
	}
	if e.To != nil && e.To.St != nil {
		for _, y := range e.To.St.mem {
			keep[y] = true
		}
		for _, y := range e.To.St.alias {
			keep[y] = true
		}
	}
	for _, v := range s.mentioned() {
		switch {
		case keep[v.Sym] || v.Sym < -(1<<39):
			continue
		case v.Sym < 0:
		case v.Kind > 'v':
		case m.fl.Nodes[v.Sym].Op == OpParam || m.x.isLive(e.E.To, int(v.Sym)):
			continue
		}
		if v.Kind == 'q' && s.inParity(v) {
			continue
		}
		s.forget(v)
	}
	return s
}

func (s *Num) mentioned() []NV {
	seen := map[NV]bool{}
	for _, c := range s.cons {
		for v := range c.L.C {
			seen[v] = true
		}
	}
	var out []NV
	for v := range seen {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return nvLess(out[i], out[j]) })
	return out
}

// inParity says whether v carries the divisibility of something else.
func (s *Num) inParity(v NV) bool {
	for _, c := range s.cons {
		if k, ok := c.L.C[v]; ok && c.Eq && len(c.L.C) > 1 && (!k.IsInt64() || k.Int64() > 1 || k.Int64() < -1) {
			return true
		}
	}
	return false
}

// templates are the candidate invariants of a loop header.
func (m *numRun) templates(s *Num, b *Block) {
	// the variables of the loop itself, and those of the loops around it
	var phis []Lin
	own := map[NV]bool{}
	for _, n := range b.Nodes {
		if n.Op != OpPhi {
			break
		}
		var l Lin
		if _, ok := intType(n.T); ok {
			l = m.valOf(n)
		} else if ok, f := lenable(n.T); ok && f < 0 {
			l = m.lenOf(n)
		} else {
			continue
		}
		phis = append(phis, l)
		own[l.vars()[0]] = true
	}
	for _, v := range s.mentioned() {
		if v.Sym >= 0 && v.Kind != 'c' && v.Kind <= 'v' && !own[v] {
			n := m.fl.Nodes[v.Sym]
			if n.Op == OpPhi || n.Op == OpBin && len(n.Args) == 2 && (n.Args[0].Op == OpPhi || n.Args[1].Op == OpPhi) {
				phis = append(phis, linV(v))
			}
		}
	}
	var others []NV
	for _, v := range s.mentioned() {
		if m.interesting(v) {
			others = append(others, v)
		}
	}
	for _, p := range phis {
		for _, k := range []int64{1, 0, -1} {
			if s.entails(p.addK(k)) {
				s.ge(p.addK(k))
			}
		}
		if g := linB(maxLen).sub(p); s.entails(g) {
			s.ge(g)
		}
		for _, v := range others {
			o := linV(v)
			if p.has(v) {
				continue
			}
			for _, k := range []int64{0, -1} {
				if g := o.sub(p).addK(k); s.entails(g) {
					s.ge(g)
				}
				if g := p.sub(o).addK(k); s.entails(g) {
					s.ge(g)
				}
			}
		}
	}
}

// interesting says whether a value bounds something: it is compared, or it is
// the length of what is indexed, sliced or measured.
func (m *numRun) interesting(v NV) bool {
	if m.intr == nil {
		m.intr = map[NV]bool{}
		for _, n := range m.fl.Nodes {
			switch n.Op {
			case OpBin:
				for _, a := range n.Args {
					if _, ok := intType(a.T); ok {
						m.intr[NV{Sym(a.ID), 'v'}] = true
					}
				}
			case OpIndexAddr, OpIndex, OpSlice, OpLookup:
				m.intr[NV{Sym(n.Args[0].ID), 'l'}] = true
			case OpCall:
				if n.Builtin == "len" {
					m.intr[NV{Sym(n.Args[0].ID), 'l'}] = true
				}
			}
		}
	}
	return m.intr[v]
}

func (m *numRun) run() error {
	x := m.x
	x.After = func(xn *XNode, st *State, n *Node) {
		switch n.Op {
		case OpLoad, OpField, OpExtract:
		default:
			return
		}
		y := x.res(st, n)
		mp := m.load[xn.ID]
		if mp == nil {
			mp = map[int]Sym{}
			m.load[xn.ID] = mp
		}
		if o, ok := mp[n.ID]; ok && o != y {
			m.bad[[2]int{xn.ID, n.ID}] = true
		}
		mp[n.ID] = y
	}
	if err := x.Run(); err != nil {
		return err
	}
	// reverse postorder
	order := map[*XNode]int{}
	var post []*XNode
	var visit func(n *XNode)
	state := map[*XNode]bool{}
	visit = func(n *XNode) {
		state[n] = true
		for _, e := range n.Succs {
			if e.To != nil && !state[e.To] {
				visit(e.To)
			}
		}
		post = append(post, n)
	}
	visit(x.Root)
	for i := range post {
		order[post[len(post)-1-i]] = i
	}
	onCycle := cycles(x)
	dirty := map[*XNode]bool{x.Root: true}
	inv := map[*XNode]*Num{}
	entry := newNum(m.rng)
	m.conds[entry] = map[int]bool{}
	for _, p := range m.fl.Params {
		if ok, f := lenable(p.T); ok && f < 0 {
			s := m.capOf(p).sub(m.lenOf(p))
			entry.ge(s)
		}
	}
	rounds := 0
	for len(dirty) > 0 {
		var cur *XNode
		for n := range dirty {
			if cur == nil || order[n] < order[cur] {
				cur = n
			}
		}
		delete(dirty, cur)
		rounds++
		if rounds > 60*len(x.Nodes)+2000 {
			return fmt.Errorf("the range analysis of %s does not converge", short(m.fl.Fn))
		}
		var ins []*Num
		if cur == x.Root {
			ins = append(ins, entry)
		}
		for _, e := range cur.Preds {
			if s := m.edge[e]; s != nil {
				ins = append(ins, s)
			}
		}
		var st *Num
		// every cycle goes through the header of a loop
		retreat := cur.B.Header && onCycle[cur]
		if retreat && inv[cur] != nil && !inv[cur].dead {
			st = newNum(m.rng)
			for _, c := range inv[cur].cons {
				keepIn(st, c, liveNums(ins), -1)
			}
			m.conds[st] = map[int]bool{}
		} else {
			st = joinNum(ins, m.rng)
			m.conds[st] = m.joinConds(ins)
			if retreat {
				m.conds[st] = map[int]bool{}
				m.templates(st, cur.B)
			}
		}
		if old := inv[cur]; old != nil && sameNum(old, st) && sameConds(m.conds[old], m.conds[st]) {
			continue
		}
		if os.Getenv("NUM") == "3" {
			if old := inv[cur]; old != nil {
				for _, c := range old.cons {
					if !st.keys[c.key()] {
						for _, e := range cur.Preds {
							if s := m.edge[e]; s != nil && !s.entails(c.L) {
								fmt.Printf("-- %s x%d b%d loses %s from x%d b%d\n", short(m.fl.Fn), cur.ID, cur.B.ID, c.key(), e.From.ID, e.From.B.ID)
								for _, d := range s.cons {
									fmt.Println("      ", d.key())
								}
							}
						}
					}
				}
			}
		}
		inv[cur] = st
		if os.Getenv("NUM") == "2" {
			fmt.Printf("-- %s x%d b%d\n", short(m.fl.Fn), cur.ID, cur.B.ID)
			for _, c := range st.cons {
				fmt.Println("   ", c.key())
			}
		}
		w := m.cloneNum(st)
		for _, n := range cur.B.Nodes {
			m.step(w, cur, n)
		}
		for _, e := range cur.Succs {
			if e.To == nil {
				continue
			}
			m.edge[e] = m.cross(w, e)
			dirty[e.To] = true
		}
	}
	m.done = true
	for _, xn := range x.Nodes {
		if st := inv[xn]; st != nil && !st.dead {
			w := m.cloneNum(st)
			if os.Getenv("NUM") != "" {
				fmt.Printf("== %s x%d b%d\n", short(m.fl.Fn), xn.ID, xn.B.ID)
				for _, c := range w.cons {
					fmt.Println("   ", c.key())
				}
			}
			for _, n := range xn.B.Nodes {
				m.step(w, xn, n)
			}
		}
	}
	m.in = inv
	return nil
}

// cycles are the nodes that can be reached again from themselves.
func cycles(x *Exploder) map[*XNode]bool {
	idx, low := map[*XNode]int{}, map[*XNode]int{}
	on := map[*XNode]bool{}
	out := map[*XNode]bool{}
	var stack []*XNode
	n := 0
	var visit func(v *XNode)
	visit = func(v *XNode) {
		n++
		idx[v], low[v] = n, n
		stack = append(stack, v)
		on[v] = true
		self := false
		for _, e := range v.Succs {
			w := e.To
			if w == nil {
				continue
			}
			if w == v {
				self = true
			}
			if idx[w] == 0 {
				visit(w)
				if low[w] < low[v] {
					low[v] = low[w]
				}
			} else if on[w] && idx[w] < low[v] {
				low[v] = idx[w]
			}
		}
		if low[v] != idx[v] {
			return
		}
		var comp []*XNode
		for {
			w := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			on[w] = false
			comp = append(comp, w)
			if w == v {
				break
			}
		}
		if len(comp) > 1 || self {
			for _, w := range comp {
				out[w] = true
			}
		}
	}
	visit(x.Root)
	return out
}

func liveNums(in []*Num) []*Num {
	var out []*Num
	for _, s := range in {
		if s != nil && !s.dead {
			out = append(out, s)
		}
	}
	return out
}

func (m *numRun) joinConds(ins []*Num) map[int]bool {
	out := map[int]bool{}
	ins = liveNums(ins)
	if len(ins) == 0 {
		return out
	}
	for k := range m.conds[ins[0]] {
		all := true
		for _, s := range ins[1:] {
			if !m.conds[s][k] {
				all = false
			}
		}
		if all {
			out[k] = true
		}
	}
	return out
}

func sameConds(a, b map[int]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

func sameNum(a, b *Num) bool {
	if a.dead != b.dead || len(a.keys) != len(b.keys) || len(a.neq) != len(b.neq) {
		return false
	}
	for k := range a.keys {
		if !b.keys[k] {
			return false
		}
	}
	return true
}

// boundsPolicy inlines the helpers of a function: what no other package and no
// interface can call. Recursive and very large helpers are decided on their own,
// for any argument.
func (c *Ctx) boundsPolicy(f *ssa.Function, fr *Frame) bool {
	if f.Parent() == nil && getterField(f) != nil {
		return true
	}
	return boundsHelper(f) && c.inlinedSize(f, nil) <= 1500
}

// inlinedSize is the number of instructions of a function with its helpers; a
// recursive function is infinitely large.
func (c *Ctx) inlinedSize(f *ssa.Function, up []*ssa.Function) int {
	const inf = 1 << 20
	for _, g := range up {
		if g == f {
			return inf
		}
	}
	if c.bsize == nil {
		c.bsize = map[*ssa.Function]int{}
	}
	if n, ok := c.bsize[f]; ok {
		return n
	}
	up = append(up, f)
	n := 0
	walk := func(g *ssa.Function) {
		for _, b := range g.Blocks {
			n += len(b.Instrs)
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				h := ci.Common().StaticCallee()
				if ci.Common().IsInvoke() {
					h = c.W.devirt(ci.Common().Value.Type(), ci.Common().Method)
				}
				if h != nil && h.Blocks != nil && c.W.inRepo(h) && boundsHelper(h) {
					n += c.inlinedSize(h, up)
				}
			}
		}
	}
	walk(f)
	for _, a := range f.AnonFuncs {
		walk(a)
	}
	if n > inf {
		n = inf
	}
	c.bsize[f] = n
	return n
}

func boundsHelper(f *ssa.Function) bool {
	if f.Parent() != nil {
		return true
	}
	o := f.Object()
	return o != nil && !o.Exported()
}

// bpost is a postcondition of a function that is not inlined.
type bpost struct {
	res  int
	kind string // "len<=" and "val<=" a parameter's length, "len>=1", "val>=0", "val>=-1"
	par  int
}

// boundsInfo is what the range analysis infers about the whole program: the
// postconditions of functions and the fields of entities that always hold at
// least one element. Both start from every candidate and lose what some return
// or some store does not establish.
type boundsInfo struct {
	posts  map[*ssa.Function][]bpost
	filled map[*types.Var]bool
	flats  map[*ssa.Function]*Flat
	roots  []*ssa.Function
	rounds int
}

func (m *numRun) posts(s *Num, n *Node) {
	for _, p := range m.c.bnum.posts[n.Callee] {
		y := Sym(n.ID)
		if n.Callee.Signature.Results().Len() > 1 {
			y = slot(n, p.res)
		}
		v, l := linV(NV{y, 'v'}), linV(NV{y, 'l'})
		switch p.kind {
		case "len<=":
			s.ge(m.lenOf(n.Args[p.par]).sub(l))
		case "len>=1":
			s.ge(l.addK(-1))
		case "val>=0":
			s.ge(v)
		case "val>=-1":
			s.ge(v.addK(1))
		case "val<=":
			s.ge(m.lenOf(n.Args[p.par]).sub(v))
		}
	}
}

// fill is the length of a list or the value of a number.
func (m *numRun) fill(n *Node) Lin {
	if _, ok := intType(n.T); ok {
		return m.valOf(n)
	}
	return m.lenOf(n)
}

// holds says whether a return establishes a postcondition.
func (m *numRun) holds(s *Num, n *Node, p bpost) bool {
	a := n.Args[p.res]
	switch p.kind {
	case "len<=":
		return s.entails(m.lenOf(m.fl.Params[p.par]).sub(m.lenOf(a)))
	case "len>=1":
		return s.entails(m.lenOf(a).addK(-1))
	case "val>=0":
		return s.entails(m.valOf(a))
	case "val>=-1":
		return s.entails(m.valOf(a).addK(1))
	case "val<=":
		return s.entails(m.lenOf(m.fl.Params[p.par]).sub(m.valOf(a)))
	}
	return false
}

func (c *Ctx) boundsFlat(f *ssa.Function) (*Flat, error) {
	if fl, ok := c.bnum.flats[f]; ok {
		return fl, nil
	}
	fl, err := flatten(c.W, f, c.boundsPolicy)
	if err == nil {
		c.bnum.flats[f] = fl
	}
	return fl, err
}

// boundsRun analyses one function; without path facts when there are too many.
func (c *Ctx) boundsRun(f *ssa.Function, set func(m *numRun)) (coarse bool, err error) {
	fl, err := c.boundsFlat(f)
	if err != nil {
		return false, err
	}
	for _, coarse := range []bool{false, true} {
		m := &numRun{c: c, fl: fl, x: explode(fl, c.Shapes, c.Sums, nil), load: map[int]map[int]Sym{}, bad: map[[2]int]bool{}, edge: map[*XEdge]*Num{}, conds: map[*Num]map[int]bool{}, typ: map[Sym]types.Type{}}
		m.x.Coarse = coarse
		m.x.Limit = 1500
		m.pass = func(*Node, string) {}
		m.fail = func(*Node, string, string, *XNode) {}
		set(m)
		if err = m.run(); err == nil {
			return coarse, nil
		}
	}
	return true, err
}

// infer computes boundsInfo.
func (c *Ctx) infer() error {
	if c.bnum != nil {
		return nil
	}
	b := &boundsInfo{posts: map[*ssa.Function][]bpost{}, filled: map[*types.Var]bool{}, flats: map[*ssa.Function]*Flat{}}
	c.bnum = b
	var all []*ssa.Function
	owner := map[*types.Var]*types.Named{}
	for _, f := range c.W.Funcs {
		if f.Blocks == nil || f.Parent() != nil || !strings.Contains(short(f), "libs/") {
			continue
		}
		all = append(all, f)
		if g := getterField(f); g != nil {
			_, isList := g.Type().Underlying().(*types.Slice)
			if _, isNum := intType(g.Type()); isList || isNum {
				if st := f.Signature.Recv(); st != nil {
					b.filled[g] = true
					owner[g] = derefNamed(st.Type())
				}
			}
		}
	}
	// an entity must get the field where it is made
	for _, f := range all {
		fs := append([]*ssa.Function{f}, f.AnonFuncs...)
		for _, g := range fs {
			for _, blk := range g.Blocks {
				stored := map[ssa.Value]map[*types.Var]bool{}
				for _, in := range blk.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
							if stored[fa.X] == nil {
								stored[fa.X] = map[*types.Var]bool{}
							}
							stored[fa.X][fieldOf(fa.X.Type(), fa.Field)] = true
						} else if n := derefNamed(st.Val.Type()); n != nil {
							if _, isPtr := st.Val.Type().(*types.Pointer); !isPtr {
								// a copy of an entity that is checked where it is made
								copied := false
								if ld, ok := st.Val.(*ssa.UnOp); ok && ld.Op == token.MUL {
									copied = true
								}
								for v, o := range owner {
									if o == n {
										if !copied {
											delete(b.filled, v)
											continue
										}
										if stored[st.Addr] == nil {
											stored[st.Addr] = map[*types.Var]bool{}
										}
										stored[st.Addr][v] = true
									}
								}
							}
						}
					}
				}
				for _, in := range blk.Instrs {
					if al, ok := in.(*ssa.Alloc); ok {
						if n := derefNamed(al.Type()); n != nil {
							for v, o := range owner {
								if o == n && !stored[al][v] {
									delete(b.filled, v)
								}
							}
						}
					}
				}
			}
		}
	}
	// who is called without being inlined, by whom
	standalone := map[*ssa.Function]bool{}
	for _, f := range all {
		standalone[f] = !c.boundsPolicy(f, nil) || getterField(f) != nil
	}
	cands := map[*ssa.Function]bool{}
	for _, f := range all {
		if !standalone[f] {
			continue
		}
		ps := f.Params
		rs := f.Signature.Results()
		var out []bpost
		for i := 0; i < rs.Len(); i++ {
			if ok, fx := lenable(rs.At(i).Type()); ok && fx < 0 {
				if _, isSl := rs.At(i).Type().Underlying().(*types.Slice); isSl && rs.Len() == 1 {
					out = append(out, bpost{i, "len>=1", 0})
				}
				for j, p := range ps {
					if ok, fx := lenable(p.Type()); ok && fx < 0 {
						out = append(out, bpost{i, "len<=", j})
					}
				}
			} else if bt, ok := intType(rs.At(i).Type()); ok && bt.Info()&types.IsUnsigned == 0 {
				out = append(out, bpost{i, "val>=0", 0}, bpost{i, "val>=-1", 0})
				for j, p := range ps {
					if ok, fx := lenable(p.Type()); ok && fx < 0 {
						out = append(out, bpost{i, "val<=", j})
					}
				}
			}
		}
		if len(out) > 0 && getterField(f) == nil {
			b.posts[f] = out
			cands[f] = true
		}
	}
	stores := func(f *ssa.Function) bool {
		fl, err := c.boundsFlat(f)
		if err != nil {
			return true
		}
		for _, n := range fl.Nodes {
			if n.Op == OpStore && n.Args[0].Op == OpFieldAddr && b.filled[n.Args[0].Field] {
				return true
			}
		}
		return false
	}
	inl := map[*ssa.Function]bool{}
	var list []*ssa.Function
	for _, f := range all {
		if !boundsHelper(f) {
			list = append(list, f)
		}
	}
	for pass := 0; pass < 3; pass++ {
		for _, f := range list {
			fl, err := c.boundsFlat(f)
			if err != nil {
				return err
			}
			for g := range fl.Inl {
				inl[g] = true
			}
		}
		have := map[*ssa.Function]bool{}
		for _, f := range list {
			have[f] = true
		}
		n := len(list)
		for _, f := range all {
			if !have[f] && (standalone[f] || pass > 0 && !inl[f]) {
				list = append(list, f)
			}
		}
		if pass > 0 && len(list) == n {
			break
		}
	}
	b.roots = list
	for {
		b.rounds++
		changed := false
		for _, f := range list {
			if len(b.posts[f]) == 0 && !stores(f) {
				continue
			}
			keep := map[bpost]bool{}
			for _, p := range b.posts[f] {
				keep[p] = true
			}
			_, err := c.boundsRun(f, func(m *numRun) {
				m.onReturn = func(s *Num, n *Node) {
					if s.dead {
						return
					}
					for p := range keep {
						if keep[p] && !m.holds(s, n, p) {
							keep[p] = false
						}
					}
				}
				m.onStore = func(s *Num, n *Node) {
					fv := n.Args[0].Field
					if b.filled[fv] && !s.entails(m.fill(n.Args[1]).addK(-1)) {
						delete(b.filled, fv)
						changed = true
					}
				}
			})
			if err != nil {
				return err
			}
			var out []bpost
			for _, p := range b.posts[f] {
				if keep[p] {
					out = append(out, p)
				}
			}
			if len(out) != len(b.posts[f]) {
				b.posts[f] = out
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	return nil
}

// bounds checks every function of the given packages.
func (c *Ctx) bounds(r *Result, fits bool, in func(f *ssa.Function) bool, exempt func(root *ssa.Function, n *Node, kind string) bool) error {
	if err := c.infer(); err != nil {
		return err
	}
	np := 0
	for _, p := range c.bnum.posts {
		np += len(p)
	}
	if os.Getenv("NUM") != "" {
		for v := range c.bnum.filled {
			fmt.Println("filled", v.Pos(), v.Name(), c.W.pos(v.Pos()))
		}
		for f, ps := range c.bnum.posts {
			for _, p := range ps {
				fmt.Println("post", short(f), p.res, p.kind, p.par)
			}
		}
	}
	r.Notes = append(r.Notes, fmt.Sprintf("%d postconditions of functions and %d never empty or zero fields inferred in %d rounds", np, len(c.bnum.filled), c.bnum.rounds))
	for _, f := range c.bnum.roots {
		if !in(f) {
			continue
		}
		if o := os.Getenv("ONLY"); o != "" && !strings.HasSuffix(short(f), o) {
			continue
		}
		if !c.mayFail(f, map[*ssa.Function]bool{}) {
			continue
		}
		r.fn(short(f))
		okAt := map[string]string{}
		badAt := map[string]bool{}
		coarse, err := c.boundsRun(f, func(m *numRun) {
			m.fits = fits
			m.pass = func(n *Node, kind string) {
				if exempt(f, n, kind) {
					return
				}
				okAt[fmt.Sprintf("%s@%d@%d", kind, n.ID, n.Pos)] = kind
			}
			m.fail = func(n *Node, kind, detail string, xn *XNode) {
				if exempt(f, n, kind) {
					return
				}
				k := fmt.Sprintf("%s@%d@%d", kind, n.ID, n.Pos)
				if badAt[k] {
					return
				}
				badAt[k] = true
				r.fail(kind, short(n.Fr.Fn)+" "+c.W.srcText(n), c.W.pos(nodePos(n)), detail, m.x.trace(xn))
			}
		})
		if err != nil {
			return err
		}
		if coarse {
			r.Notes = append(r.Notes, short(f)+": decided without path facts")
		}
		for k, kind := range okAt {
			if !badAt[k] {
				r.ok(kind, short(f))
			}
		}
	}
	return nil
}

func nodePos(n *Node) token.Pos {
	if n.Pos.IsValid() {
		return n.Pos
	}
	for _, a := range n.Args {
		if a != nil && a.Pos.IsValid() {
			return a.Pos
		}
	}
	if n.Fr != nil {
		return n.Fr.Fn.Pos()
	}
	return token.NoPos
}

func markHelpers(f *ssa.Function, seen map[*ssa.Function]bool) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && boundsHelper(g) && !seen[g] {
					seen[g] = true
					markHelpers(g, seen)
				}
			}
		}
	}
}

// mayFail says whether a function or one of its helpers has an operation that
// can fail on a bound.
func (c *Ctx) mayFail(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.Slice, *ssa.IndexAddr, *ssa.Index, *ssa.MakeSlice, *ssa.Panic, *ssa.SliceToArrayPointer:
				return true
			case *ssa.TypeAssert:
				if !v.CommaOk {
					return true
				}
			case *ssa.BinOp:
				if v.Op == token.QUO || v.Op == token.REM {
					if _, ok := intType(v.X.Type()); ok {
						return true
					}
				}
			case *ssa.Lookup:
				if _, ok := v.X.Type().Underlying().(*types.Map); !ok {
					return true
				}
			case *ssa.MakeClosure:
				if c.mayFail(v.Fn.(*ssa.Function), seen) {
					return true
				}
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && g.Blocks != nil && c.W.inRepo(g) && boundsHelper(g) && c.mayFail(g, seen) {
					return true
				}
				if g := ci.Common().StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "encoding/binary" {
					return true
				}
			}
		}
	}
	return false
}

// srcText describes an operation by its operands, for stable finding keys.
func (w *World) srcText(n *Node) string {
	nm := func(a *Node) string {
		if a == nil {
			return ""
		}
		switch a.Op {
		case OpConst:
			if a.Const != nil {
				return a.Const.ExactString()
			}
			return "nil"
		case OpParam:
			return a.Name
		}
		if v, ok := a.Src.(ssa.Value); ok {
			if a.Op == OpCall && a.Builtin == "len" {
				return "len"
			}
			_ = v
		}
		return a.Op.String()
	}
	var s []string
	for _, a := range n.Args {
		s = append(s, nm(a))
	}
	return strings.Join(s, ":")
}
