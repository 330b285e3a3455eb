package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// This file gives conditions a form that only depends on what they say: cubes
// over variables with a few values are turned into decision diagrams, and from
// those an irredundant cover is read in a fixed order.

// tooMuch is what a computation that is too big panics with.
type tooMuch struct{}

func (tooMuch) Error() string { return "too many cases to compare" }

// work counts the steps taken, and workLimit bounds them. Counting steps, not
// time, keeps the outcome the same on every machine.
var work, workLimit int

func worked(n int) {
	work += n
	if workLimit > 0 && work > workLimit {
		panic(tooMuch{})
	}
}

type mnode struct {
	v   int // index of the variable
	ch  []*mnode
	id  int
	val bool // of a leaf
}

type coverOf struct {
	cubes []cube
	fn    *mnode
}

type mdd struct {
	vars []string
	size []int
	tab  map[string]*mnode
	and  map[[2]int]*mnode
	not_ map[int]*mnode
	cov  map[[2]int]coverOf
	t, f *mnode
	n    int
}

func newMDD(p *printer, none map[string]cube, cubes ...[]cube) *mdd {
	set := map[string]bool{}
	for _, l := range cubes {
		for _, c := range l {
			for k := range c {
				set[k] = true
			}
		}
	}
	m := &mdd{tab: map[string]*mnode{}, and: map[[2]int]*mnode{}, not_: map[int]*mnode{}, cov: map[[2]int]coverOf{}}
	for k := range set {
		m.vars = append(m.vars, k)
	}
	sort.Strings(m.vars)
	for _, k := range m.vars {
		n := 2
		if d := p.doms[k]; d != nil {
			n = len(d.names)
		}
		if none[k] != nil {
			n++
		}
		m.size = append(m.size, n)
	}
	m.f = &mnode{v: len(m.vars), id: 0}
	m.t = &mnode{v: len(m.vars), id: 1, val: true}
	m.n = 2
	return m
}

func (m *mdd) mk(v int, ch []*mnode) *mnode {
	same := true
	var sb strings.Builder
	fmt.Fprint(&sb, v)
	for _, c := range ch {
		if c != ch[0] {
			same = false
		}
		fmt.Fprint(&sb, ",", c.id)
	}
	if same {
		return ch[0]
	}
	k := sb.String()
	if n, ok := m.tab[k]; ok {
		return n
	}
	n := &mnode{v: v, ch: ch, id: m.n}
	m.n++
	m.tab[k] = n
	if m.n > 400000 {
		panic("a condition has too many cases")
	}
	return n
}

func (m *mdd) co(n *mnode, v, i int) *mnode {
	if n.v != v {
		return n
	}
	return n.ch[i]
}

func (m *mdd) conj(a, b *mnode) *mnode {
	switch {
	case a == m.f || b == m.f:
		return m.f
	case a == m.t || a == b:
		return b
	case b == m.t:
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	k := [2]int{a.id, b.id}
	if r, ok := m.and[k]; ok {
		return r
	}
	worked(1)
	v := a.v
	if b.v < v {
		v = b.v
	}
	ch := make([]*mnode, m.size[v])
	for i := range ch {
		ch[i] = m.conj(m.co(a, v, i), m.co(b, v, i))
	}
	r := m.mk(v, ch)
	m.and[k] = r
	return r
}

func (m *mdd) neg(a *mnode) *mnode {
	if a == m.t {
		return m.f
	}
	if a == m.f {
		return m.t
	}
	if r, ok := m.not_[a.id]; ok {
		return r
	}
	ch := make([]*mnode, len(a.ch))
	for i := range ch {
		ch[i] = m.neg(a.ch[i])
	}
	r := m.mk(a.v, ch)
	m.not_[a.id] = r
	return r
}

func (m *mdd) disj(a, b *mnode) *mnode { return m.neg(m.conj(m.neg(a), m.neg(b))) }

func (m *mdd) of(l []cube) *mnode {
	r := m.f
	for _, c := range l {
		n := m.t
		for v := len(m.vars) - 1; v >= 0; v-- {
			mask, ok := c[m.vars[v]]
			if !ok {
				continue
			}
			ch := make([]*mnode, m.size[v])
			for i := range ch {
				ch[i] = m.f
				if mask>>uint(i)&1 == 1 {
					ch[i] = n
				}
			}
			n = m.mk(v, ch)
		}
		r = m.disj(r, n)
	}
	return r
}

// cover reads an irredundant cover of a function between lo and hi.
func (m *mdd) cover(lo, hi *mnode) ([]cube, *mnode) {
	if lo == m.f {
		return nil, m.f
	}
	if hi == m.t {
		return []cube{{}}, m.t
	}
	key := [2]int{lo.id, hi.id}
	if r, ok := m.cov[key]; ok {
		return r.cubes, r.fn
	}
	v := lo.v
	if hi.v < v {
		v = hi.v
	}
	n := m.size[v]
	all := m.t
	for i := 0; i < n; i++ {
		all = m.conj(all, m.co(hi, v, i))
	}
	// what has to be said for every value alone
	type part struct {
		cubes []cube
		mask  uint64
		fn    *mnode
	}
	var parts []*part
	rest := m.f
	fns := make([]*mnode, n)
	for i := 0; i < n; i++ {
		cs, fn := m.cover(m.conj(m.co(lo, v, i), m.neg(all)), m.co(hi, v, i))
		fns[i] = fn
		rest = m.disj(rest, m.conj(m.co(lo, v, i), m.neg(fn)))
		if len(cs) == 0 {
			continue
		}
		done := false
		for _, p := range parts {
			if p.fn == fn && fmt.Sprint(p.cubes) == fmt.Sprint(cs) {
				p.mask |= 1 << uint(i)
				done = true
			}
		}
		if !done {
			parts = append(parts, &part{cs, 1 << uint(i), fn})
		}
	}
	var out []cube
	for _, p := range parts {
		for _, c := range p.cubes {
			d := cube{m.vars[v]: p.mask}
			for k, x := range c {
				d[k] = x
			}
			out = append(out, d)
		}
	}
	cs, fd := m.cover(rest, all)
	out = append(out, cs...)
	for i := range fns {
		fns[i] = m.disj(fns[i], fd)
	}
	worked(len(out))
	r := m.mk(v, fns)
	m.cov[key] = coverOf{out, r}
	return out, r
}

// theory lists what no run meets: conditions on orders and lengths that
// contradict one another.
func (p *printer) theory(cubes ...[]cube) (out []cube, none map[string]cube) {
	none = map[string]cube{}
	about := map[*Term]string{}
	var ts []*Term
	for _, l := range cubes {
		for _, c := range l {
			for k := range c {
				if t := p.about[k]; t != nil && (t.op == "lt" || t.op == "eq") && p.doms[k] == nil {
					if _, ok := about[t]; !ok {
						about[t] = k
						ts = append(ts, t)
					}
				}
			}
		}
	}
	// what is asked of a part that is not there has no answer
	all := map[string]bool{}
	for _, l := range cubes {
		for _, c := range l {
			for k := range c {
				all[k] = true
			}
		}
	}
	var keys []string
	for k := range all {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		t := p.about[k]
		if t == nil || strings.HasPrefix(k, "failed ") {
			continue
		}
		done := map[*Term]bool{}
		ask := func(y *Term) {
			if done[y] {
				return
			}
			done[y] = true
			for _, h := range p.a.absent(y) {
				hk, m := p.lit(h.cond, h.val)
				if hk != k && all[hk] {
					if none[k] == nil {
						none[k] = cube{}
					}
					none[k][hk] = m
				}
			}
		}
		if p.doms[k] != nil {
			ask(t)
		}
		p.a.mentions(t, func(x *Term) bool {
			if x.op == "acc" && len(x.a) > 0 {
				ask(x.a[0])
			}
			return false
		})
	}
	for _, k := range keys {
		if none[k] == nil {
			continue
		}
		there := cube{k: p.doms[k].full() + 1}
		for hk, m := range none[k] {
			out = append(out, cube{hk: m, k: p.doms[k].full()})
			there[hk] = p.doms[hk].full() &^ m
			if none[hk] != nil {
				// present means asked and answered
				there[hk] &^= p.doms[hk].full() + 1
			}
		}
		out = append(out, there)
	}
	for _, t := range ts {
		k := about[t]
		if t.op == "eq" && (t.a[0].op == "nil" || t.a[1].op == "nil") {
			x := t.a[0]
			if x.op == "nil" {
				x = t.a[1]
			}
			if k2, ok := about[p.a.less(p.a.konst(0), p.a.length(x))]; ok && isSlice(x.typ) {
				out = append(out, cube{k: 2, k2: 2})
			}
			continue
		}
		if t.op != "lt" {
			continue
		}
		le, lok := about[p.a.less(t.a[1], t.a[0])]
		eq, eok := about[p.a.equal(t.a[0], t.a[1])]
		if lok && k < le {
			out = append(out, cube{k: 2, le: 2})
		}
		if eok {
			out = append(out, cube{k: 2, eq: 2})
		}
		if lok && eok {
			out = append(out, cube{k: 1, le: 1, eq: 1})
		}
	}
	return out, none
}

type litOf struct {
	cond *Term
	val  bool
}

// absent gives the conditions that each say that something is not there.
func (a *termAn) absent(y *Term) []litOf {
	var out []litOf
	if h := a.presence(y); h != nil {
		out = append(out, litOf{h, false})
	}
	switch y.op {
	case "acc", "field", "get", "param", "idx":
		if t := a.mk("eq", "", order(y, a.mk("nil", ""))...); a.presence(y) == nil {
			out = append(out, litOf{t, true})
		}
	}
	return out
}

func order(x, y *Term) []*Term {
	if x.id > y.id {
		x, y = y, x
	}
	return []*Term{x, y}
}

func isSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// unfold says of which missing parts there is no answer.
func (p *printer) unfold(cs []cube, none map[string]cube, m *mdd, lo *mnode) []cube {
	if len(none) == 0 {
		return cs
	}
	var out []cube
	seen := map[string]bool{}
	var add func(c cube)
	add = func(c cube) {
		var ks []string
		for k, m := range c {
			if none[k] != nil && m&(p.doms[k].full()+1) != 0 {
				ks = append(ks, k)
			}
		}
		if len(ks) == 0 {
			if s := p.showConj(c); !seen[s] {
				seen[s] = true
				out = append(out, c)
			}
			return
		}
		sort.Strings(ks)
		k := ks[0]
		with := func() cube {
			d := cube{}
			for x, m := range c {
				if x != k {
					d[x] = m
				}
			}
			return d
		}
		if m := c[k] & p.doms[k].full(); m != 0 {
			d := with()
			d[k] = m
			add(d)
		}
		for hk, m := range none[k] {
			d := with()
			if old, ok := d[hk]; ok {
				m &= old
			}
			if m != 0 {
				d[hk] = m
				add(d)
			}
		}
	}
	for _, c := range cs {
		add(c)
	}
	if len(out) == len(cs) {
		return out
	}
	// without those that are not needed, the longest first
	show := map[string]cube{}
	var names []string
	for _, c := range out {
		s := p.showConj(c)
		show[s] = c
		names = append(names, s)
	}
	sort.Slice(names, func(i, j int) bool {
		a, b := names[i], names[j]
		if x, y := len(show[a]), len(show[b]); x != y {
			return x > y
		}
		return a < b
	})
	for i := 0; i < len(names); i++ {
		r := m.f
		for j, n := range names {
			if j != i {
				r = m.disj(r, m.of([]cube{show[n]}))
			}
		}
		if m.conj(lo, m.neg(r)) == m.f {
			names = append(names[:i:i], names[i+1:]...)
			i--
		}
	}
	var kept []cube
	for _, n := range names {
		kept = append(kept, show[n])
	}
	return kept
}

// simplify gives the cover of on, where dc need not be decided.
func (p *printer) simplify(on, dc []cube) []cube {
	th, none := p.theory(on, dc)
	dc = append(th, dc...)
	m := newMDD(p, none, on, dc)
	f := m.of(on)
	d := m.of(dc)
	cs, _ := m.cover(m.conj(f, m.neg(d)), m.disj(f, d))
	return p.unfold(cs, none, m, m.conj(f, m.neg(d)))
}
