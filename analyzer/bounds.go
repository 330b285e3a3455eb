package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// NV is a variable of the numeric domain: the value of a node, the length or
// the capacity of what it holds, or an auxiliary unknown.
type NV struct {
	Sym  Sym
	Kind byte // 'v' value, 'l' length, 'c' capacity, 'q' quotient
}

func (v NV) String() string { return fmt.Sprintf("%c%d", v.Kind, v.Sym) }

func nvLess(a, b NV) bool {
	if a.Sym != b.Sym {
		return a.Sym < b.Sym
	}
	return a.Kind < b.Kind
}

// Lin is a linear expression with integer coefficients.
type Lin struct {
	C map[NV]*big.Int
	K *big.Int
}

func linK(k int64) Lin          { return Lin{map[NV]*big.Int{}, big.NewInt(k)} }
func linB(k *big.Int) Lin       { return Lin{map[NV]*big.Int{}, new(big.Int).Set(k)} }
func linV(v NV) Lin             { return Lin{map[NV]*big.Int{v: big.NewInt(1)}, big.NewInt(0)} }
func (a Lin) neg() Lin          { return linK(0).plus(a, -1) }
func (a Lin) addK(k int64) Lin  { return a.plus(linK(k), 1) }
func (a Lin) sub(b Lin) Lin     { return a.plus(b, -1) }
func (a Lin) isConst() bool     { return len(a.C) == 0 }
func (a Lin) has(v NV) bool     { _, ok := a.C[v]; return ok }
func (a Lin) scale(m int64) Lin { return linK(0).plus(a, m) }

func (a Lin) plus(b Lin, m int64) Lin { return a.plusB(b, big.NewInt(m)) }

func (a Lin) plusB(b Lin, m *big.Int) Lin {
	out := Lin{make(map[NV]*big.Int, len(a.C)+len(b.C)), new(big.Int).Set(a.K)}
	for v, c := range a.C {
		out.C[v] = c
	}
	for v, c := range b.C {
		n := new(big.Int).Mul(c, m)
		if o, ok := out.C[v]; ok {
			n.Add(n, o)
		}
		if n.Sign() == 0 {
			delete(out.C, v)
		} else {
			out.C[v] = n
		}
	}
	out.K.Add(out.K, new(big.Int).Mul(b.K, m))
	return out
}

func (a Lin) vars() []NV {
	out := make([]NV, 0, len(a.C))
	for v := range a.C {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return nvLess(out[i], out[j]) })
	return out
}

func (a Lin) key() string {
	var b strings.Builder
	for _, v := range a.vars() {
		b.WriteString(a.C[v].String())
		b.WriteByte('*')
		b.WriteByte(v.Kind)
		b.WriteString(strconv.FormatInt(int64(v.Sym), 10))
		b.WriteByte(' ')
	}
	b.WriteString(a.K.String())
	return b.String()
}

// Con is lin >= 0, or lin == 0.
type Con struct {
	L  Lin
	Eq bool
}

func (c Con) key() string {
	if c.Eq {
		return "=" + c.L.key()
	}
	return c.L.key()
}

// norm divides by the greatest common divisor of the coefficients, rounding
// the constant of an inequality down. bad says that the constraint cannot hold.
func (c Con) norm() (out Con, trivial, bad bool) {
	if len(c.L.C) == 0 {
		s := c.L.K.Sign()
		if c.Eq {
			return c, s == 0, s != 0
		}
		return c, s >= 0, s < 0
	}
	g := new(big.Int)
	for _, k := range c.L.C {
		g.GCD(nil, nil, g, new(big.Int).Abs(k))
	}
	flip := false
	if c.Eq {
		vs := c.L.vars()
		flip = c.L.C[vs[0]].Sign() < 0
	}
	if g.Cmp(big.NewInt(1)) == 0 && !flip {
		return c, false, false
	}
	l := Lin{make(map[NV]*big.Int, len(c.L.C)), new(big.Int)}
	for v, k := range c.L.C {
		l.C[v] = new(big.Int).Quo(k, g)
		if flip {
			l.C[v].Neg(l.C[v])
		}
	}
	m := new(big.Int)
	l.K.DivMod(c.L.K, g, m)
	if c.Eq {
		if m.Sign() != 0 {
			return c, false, true
		}
		if flip {
			l.K.Neg(l.K)
		}
	}
	return Con{l, c.Eq}, false, false
}

// Num is a conjunction of linear constraints and disequalities.
type Num struct {
	cons []Con
	keys map[string]bool
	neq  []Lin
	dead bool
	memo map[string]bool
	rng  func(NV) (lo, hi *big.Int)
}

func newNum(rng func(NV) (lo, hi *big.Int)) *Num {
	return &Num{keys: map[string]bool{}, rng: rng}
}

func (s *Num) clone() *Num {
	n := &Num{cons: append([]Con{}, s.cons...), keys: make(map[string]bool, len(s.keys)), neq: append([]Lin{}, s.neq...), dead: s.dead, rng: s.rng}
	for k := range s.keys {
		n.keys[k] = true
	}
	return n
}

func (s *Num) add(c Con) {
	if s.dead {
		return
	}
	c, triv, bad := c.norm()
	if bad {
		s.dead = true
		return
	}
	if triv {
		return
	}
	if !c.Eq && s.byRange(c.L) {
		return
	}
	k := c.key()
	if s.keys[k] {
		return
	}
	s.keys[k] = true
	s.cons = append(s.cons, c)
	s.memo = nil
}

func sameCoeffs(a, b Lin) bool {
	if len(a.C) != len(b.C) {
		return false
	}
	for v, k := range a.C {
		o, ok := b.C[v]
		if !ok || o.Cmp(k) != 0 {
			return false
		}
	}
	return true
}

// byRange says whether l >= 0 follows from the ranges of its variables alone.
func (s *Num) byRange(l Lin) bool {
	min := new(big.Int).Set(l.K)
	for v, k := range l.C {
		lo, hi := s.rng(v)
		b := lo
		if k.Sign() < 0 {
			b = hi
		}
		if b == nil {
			return false
		}
		min.Add(min, new(big.Int).Mul(k, b))
	}
	return min.Sign() >= 0
}

func (s *Num) ge(l Lin)     { s.add(Con{L: l}) }
func (s *Num) eq(l Lin)     { s.add(Con{L: l, Eq: true}) }
func (s *Num) addNeq(l Lin) { s.neq = append(s.neq, l); s.memo = nil }
func (s *Num) drop(f func(NV) bool) {
	hit := func(l Lin) bool {
		for v := range l.C {
			if f(v) {
				return true
			}
		}
		return false
	}
	var out []Con
	keys := map[string]bool{}
	for _, c := range s.cons {
		if !hit(c.L) {
			out = append(out, c)
			keys[c.key()] = true
		}
	}
	s.cons, s.keys = out, keys
	var ne []Lin
	for _, l := range s.neq {
		if !hit(l) {
			ne = append(ne, l)
		}
	}
	s.neq, s.memo = ne, nil
}

// forget projects v away.
func (s *Num) forget(v NV) {
	touched := false
	for _, c := range s.cons {
		if c.L.has(v) {
			touched = true
			break
		}
	}
	if !touched {
		for _, l := range s.neq {
			if l.has(v) {
				touched = true
			}
		}
		if !touched {
			return
		}
	}
	// a capacity is never less than the length
	if (v.Kind == 'l' || v.Kind == 'c') && s.mentions(NV{v.Sym, 'l'}) && s.mentions(NV{v.Sym, 'c'}) {
		s.ge(linV(NV{v.Sym, 'c'}).sub(linV(NV{v.Sym, 'l'})))
	}
	old := s.cons
	neq := s.neq
	s.cons, s.keys, s.neq, s.memo = nil, map[string]bool{}, nil, nil
	// an equality with a unit coefficient defines v
	for _, c := range old {
		if k, ok := c.L.C[v]; ok && c.Eq && k.IsInt64() && (k.Int64() == 1 || k.Int64() == -1) {
			for _, d := range old {
				if m, ok := d.L.C[v]; ok {
					// d - m/k * c
					f := new(big.Int).Neg(m)
					f.Mul(f, k)
					s.add(Con{d.L.plusB(c.L, f), d.Eq})
				} else {
					s.add(d)
				}
			}
			// what v is equal to has the range of v
			def := linV(v).plusB(c.L, new(big.Int).Neg(k))
			big62 := new(big.Int).Lsh(big.NewInt(1), 62)
			if lov, hiv := s.rng(v); lov != nil || hiv != nil {
				if lov != nil && new(big.Int).Abs(lov).Cmp(big62) < 0 {
					s.ge(def.plusB(linB(lov), big.NewInt(-1)))
				}
				if hiv != nil && hiv.Cmp(big62) < 0 {
					s.ge(linB(hiv).sub(def))
				}
			}
			for _, l := range neq {
				if m, ok := l.C[v]; ok {
					f := new(big.Int).Neg(m)
					f.Mul(f, k)
					s.neq = append(s.neq, l.plusB(c.L, f))
				} else {
					s.neq = append(s.neq, l)
				}
			}
			return
		}
	}
	var lo, hi []Con
	lov, hiv := s.rng(v)
	if lov != nil {
		lo = append(lo, Con{L: linV(v).plusB(linK(1), new(big.Int).Neg(lov))})
	}
	if hiv != nil {
		hi = append(hi, Con{L: linB(hiv).sub(linV(v))})
	}
	for _, c := range old {
		k, ok := c.L.C[v]
		if !ok {
			s.add(c)
			continue
		}
		if c.Eq {
			lo = append(lo, Con{L: pick(c.L, k.Sign() > 0)})
			hi = append(hi, Con{L: pick(c.L, k.Sign() < 0)})
			continue
		}
		if k.Sign() > 0 {
			lo = append(lo, c)
		} else {
			hi = append(hi, c)
		}
	}
	many := len(lo)*len(hi) > 400
	if len(lo)*len(hi) <= 10000 {
		var made []Con
		for _, a := range lo {
			for _, b := range hi {
				ka, kb := a.L.C[v], new(big.Int).Neg(b.L.C[v])
				l := linK(0).plusB(a.L, kb).plusB(b.L, ka)
				if many && len(l.C) > 2 {
					continue
				}
				n, _, bad := Con{L: l}.norm()
				if bad {
					s.dead = true
					return
				}
				put := true
				for i, o := range made {
					if sameCoeffs(o.L, n.L) {
						if n.L.K.Cmp(o.L.K) < 0 {
							made[i] = n
						}
						put = false
						break
					}
				}
				if put {
					made = append(made, n)
				}
			}
		}
		for _, c := range made {
			s.add(c)
		}
	}
	for _, l := range neq {
		if !l.has(v) {
			s.neq = append(s.neq, l)
		}
	}
}

func (s *Num) mentions(v NV) bool {
	for _, c := range s.cons {
		if c.L.has(v) {
			return true
		}
	}
	return false
}

func pick(l Lin, pos bool) Lin {
	if pos {
		return l
	}
	return l.neg()
}

// assign makes v equal to l, which may mention the old v.
func (s *Num) assign(v NV, l *Lin) {
	if l != nil && l.has(v) {
		tmp := NV{v.Sym, v.Kind + 100}
		s.eq(linV(tmp).sub(*l))
		s.forget(v)
		s.rename(tmp, v)
		return
	}
	s.forget(v)
	if l != nil {
		s.eq(linV(v).sub(*l))
	}
}

func (s *Num) rename(from, to NV) {
	old, neq := s.cons, s.neq
	s.cons, s.keys, s.neq, s.memo = nil, map[string]bool{}, nil, nil
	sub := func(l Lin) Lin {
		k, ok := l.C[from]
		if !ok {
			return l
		}
		return l.plusB(linV(from), new(big.Int).Neg(k)).plusB(linV(to), k)
	}
	for _, c := range old {
		s.add(Con{sub(c.L), c.Eq})
	}
	for _, l := range neq {
		s.neq = append(s.neq, sub(l))
	}
}

// entails says whether l >= 0 follows.
func (s *Num) entails(l Lin) bool {
	if s.dead {
		return true
	}
	c, triv, bad := Con{L: l}.norm()
	if triv {
		return true
	}
	_ = bad
	k := c.key()
	if s.keys[k] {
		return true
	}
	if r, ok := s.memo[k]; ok {
		return r
	}
	if s.byRange(c.L) {
		return true
	}
	for _, o := range s.cons {
		if !o.Eq && o.L.K.Cmp(c.L.K) <= 0 && sameCoeffs(o.L, c.L) {
			return true
		}
	}
	if s.memo == nil {
		s.memo = map[string]bool{}
	}
	r := s.refutes(c.L.neg().addK(-1))
	s.memo[k] = r
	return r
}

func (s *Num) entailsEq(l Lin) bool { return s.entails(l) && s.entails(l.neg()) }

// refutes says whether the constraints and g >= 0 have no solution.
func (s *Num) refutes(g Lin) bool {
	// constraints connected to the goal
	reach := map[NV]bool{}
	for v := range g.C {
		reach[v] = true
	}
	used := make([]bool, len(s.cons))
	var cs []Con
	for depth := 0; depth < 12; depth++ {
		grew := false
		var add []NV
		for i, c := range s.cons {
			if used[i] {
				continue
			}
			hit := false
			for v := range c.L.C {
				if reach[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				cs = append(cs, c)
				for v := range c.L.C {
					add = append(add, v)
				}
				grew = true
			}
		}
		for _, v := range add {
			reach[v] = true
		}
		if !grew {
			break
		}
	}
	cs = append(cs, Con{L: g})
	var vs []NV
	for v := range reach {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return nvLess(vs[i], vs[j]) })
	for _, v := range vs {
		if v.Kind == 'c' {
			if l := (NV{v.Sym, 'l'}); reach[l] {
				cs = append(cs, Con{L: linV(v).sub(linV(l))})
			}
		}
		lo, hi := s.rng(v)
		if lo != nil {
			cs = append(cs, Con{L: linV(v).plusB(linK(1), new(big.Int).Neg(lo))})
		}
		if hi != nil {
			cs = append(cs, Con{L: linB(hi).sub(linV(v))})
		}
	}
	var ne []Lin
	for _, l := range s.neq {
		all := true
		for v := range l.C {
			if !reach[v] {
				all = false
			}
		}
		if all {
			ne = append(ne, l)
		}
	}
	return infeasible(cs, ne)
}

// infeasible decides, soundly but not completely for integers, that a set of
// constraints has no solution: substitution of unit equalities, rounding of
// the remaining inequalities, then a rational certificate. Disequalities are
// split on.
func infeasible(cs []Con, ne []Lin) bool {
	var ok bool
	cs, ne, ok = eliminate(cs, ne)
	if !ok {
		return true
	}
	if farkas(cs) {
		return true
	}
	for i, l := range ne {
		if i >= 4 {
			break
		}
		rest := append(append([]Lin{}, ne[:i]...), ne[i+1:]...)
		if infeasible(append(append([]Con{}, cs...), Con{L: l.addK(-1)}), rest) &&
			infeasible(append(append([]Con{}, cs...), Con{L: l.neg().addK(-1)}), rest) {
			return true
		}
	}
	return false
}

func eliminate(cs []Con, ne []Lin) ([]Con, []Lin, bool) {
	for {
		found := -1
		var pv NV
		for i, c := range cs {
			if !c.Eq {
				continue
			}
			for _, v := range c.L.vars() {
				k := c.L.C[v]
				if k.IsInt64() && (k.Int64() == 1 || k.Int64() == -1) {
					found, pv = i, v
					break
				}
			}
			if found >= 0 {
				break
			}
		}
		var out []Con
		if found < 0 {
			for _, c := range cs {
				n, triv, bad := c.norm()
				if bad {
					return nil, nil, false
				}
				if !triv {
					out = append(out, n)
				}
			}
			return out, ne, true
		}
		e := cs[found]
		k := e.L.C[pv]
		for i, c := range cs {
			if i == found {
				continue
			}
			if m, ok := c.L.C[pv]; ok {
				f := new(big.Int).Neg(m)
				f.Mul(f, k)
				c = Con{c.L.plusB(e.L, f), c.Eq}
			}
			n, triv, bad := c.norm()
			if bad {
				return nil, nil, false
			}
			if !triv {
				out = append(out, n)
			}
		}
		var ne2 []Lin
		for _, l := range ne {
			if m, ok := l.C[pv]; ok {
				f := new(big.Int).Neg(m)
				f.Mul(f, k)
				l = l.plusB(e.L, f)
			}
			ne2 = append(ne2, l)
		}
		cs, ne = out, ne2
	}
}

// farkas looks for a non-negative combination of the constraints that adds up
// to a negative constant (phase one of the simplex method, exact arithmetic).
func farkas(cs []Con) bool {
	// duplicates and dominated constraints are dropped
	best := map[string]int{}
	var rows []Lin
	for _, c := range cs {
		ls := []Lin{c.L}
		if c.Eq {
			ls = append(ls, c.L.neg())
		}
		for _, l := range ls {
			if len(l.C) == 0 {
				if l.K.Sign() < 0 {
					return true
				}
				continue
			}
			k := Lin{l.C, big.NewInt(0)}.key()
			if i, ok := best[k]; ok {
				if l.K.Cmp(rows[i].K) < 0 {
					rows[i] = l
				}
				continue
			}
			best[k] = len(rows)
			rows = append(rows, l)
		}
	}
	if len(rows) == 0 {
		return false
	}
	idx := map[NV]int{}
	for _, r := range rows {
		for _, v := range r.vars() {
			if _, ok := idx[v]; !ok {
				idx[v] = len(idx)
			}
		}
	}
	// unknowns: lambda_j >= 0; equations: sum lambda_j c_j[v] = 0 for every v
	// and sum lambda_j k_j = -1.
	m, n := len(idx)+1, len(rows)
	t := make([][]*big.Rat, m+1)
	for i := range t {
		t[i] = make([]*big.Rat, n+1)
		for j := range t[i] {
			t[i][j] = new(big.Rat)
		}
	}
	for j, r := range rows {
		for v, c := range r.C {
			t[idx[v]][j].SetInt(c)
		}
		// -k_j so that the right hand side is +1
		t[m-1][j].SetInt(new(big.Int).Neg(r.K))
	}
	t[m-1][n].SetInt64(1)
	// artificial basis; objective row is the sum of the rows (to be driven to 0)
	basis := make([]int, m)
	for i := 0; i < m; i++ {
		basis[i] = -1
	}
	for j := 0; j <= n; j++ {
		t[m][j].Set(t[m-1][j])
		for i := 0; i < m-1; i++ {
			t[m][j].Add(t[m][j], t[i][j])
		}
	}
	for iter := 0; iter < 4000; iter++ {
		if t[m][n].Sign() == 0 {
			return true
		}
		// Bland: entering column with positive reduced cost
		e := -1
		for j := 0; j < n; j++ {
			if t[m][j].Sign() > 0 {
				e = j
				break
			}
		}
		if e < 0 {
			return false
		}
		l := -1
		var bestR *big.Rat
		for i := 0; i < m; i++ {
			if t[i][e].Sign() <= 0 {
				continue
			}
			r := new(big.Rat).Quo(t[i][n], t[i][e])
			if l < 0 || r.Cmp(bestR) < 0 || r.Cmp(bestR) == 0 && basis[i] < basis[l] {
				l, bestR = i, r
			}
		}
		if l < 0 {
			return false
		}
		p := new(big.Rat).Inv(t[l][e])
		for j := 0; j <= n; j++ {
			if t[l][j].Sign() != 0 {
				t[l][j].Mul(t[l][j], p)
			}
		}
		for i := 0; i <= m; i++ {
			if i == l || t[i][e].Sign() == 0 {
				continue
			}
			f := new(big.Rat).Set(t[i][e])
			for j := 0; j <= n; j++ {
				if t[l][j].Sign() != 0 {
					t[i][j].Sub(t[i][j], new(big.Rat).Mul(f, t[l][j]))
				}
			}
		}
		basis[l] = e
	}
	return false
}

// joinNum keeps what every state entails, among the constraints of each.
func joinNum(sts []*Num, rng func(NV) (lo, hi *big.Int)) *Num {
	var live []*Num
	for _, s := range sts {
		if s != nil && !s.dead {
			live = append(live, s)
		}
	}
	out := newNum(rng)
	if len(live) == 0 {
		out.dead = true
		return out
	}
	if len(live) == 1 {
		return live[0].clone()
	}
	seen := map[string]bool{}
	for i, s := range live {
		for _, c := range s.cons {
			if seen[c.key()] {
				continue
			}
			seen[c.key()] = true
			keepIn(out, c, live, i)
		}
		for _, l := range s.neq {
			ok := true
			for j, o := range live {
				if j != i && !o.excludes(l) {
					ok = false
				}
			}
			if ok {
				out.addNeq(l)
			}
		}
	}
	return out
}

// excludes says whether l cannot be zero.
func (s *Num) excludes(l Lin) bool {
	if s.entails(l.addK(-1)) || s.entails(l.neg().addK(-1)) {
		return true
	}
	k, k2 := l.key(), l.neg().key()
	for _, o := range s.neq {
		if q := o.key(); q == k || q == k2 {
			return true
		}
	}
	return false
}

func keepIn(out *Num, c Con, live []*Num, skip int) {
	if c.Eq {
		all := true
		for j, o := range live {
			if j != skip && !o.entailsEq(c.L) {
				all = false
				break
			}
		}
		if all {
			out.add(c)
			return
		}
		keepIn(out, Con{L: c.L}, live, skip)
		keepIn(out, Con{L: c.L.neg()}, live, skip)
		return
	}
	for j, o := range live {
		if j != skip && !o.entails(c.L) {
			return
		}
	}
	out.add(c)
}
