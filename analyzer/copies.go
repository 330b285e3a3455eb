package main

import (
	"fmt"
	"sort"
	"strings"
)

// This file summarises loops that go through a file piece by piece. Of a list (or
// the content of a created file) that each turn makes longer, the offsets and
// the amounts that the loop keeps are functions of its length, which holds as
// they hold at first and every turn keeps them so. If every turn then adds the
// bytes of a file from where the previous one ended, the loop as a whole adds
// one stretch of that file; how long it is follows from when the loop ends.

type copyFact struct {
	list  string           // the variable of the list
	lin   map[string]int64 // variable -> how it changes with the length of the list
	total bool             // the turns add one stretch of a file
	noTot bool
}

// turn is what the variables of a loop are when it goes on.
type turn struct {
	vals map[string]*Term
	lits map[int]bool
}

// leave is what a turn added to the list when it ended the loop.
type leave struct {
	rest []*Term
	lits map[int]bool
}

func (l *tinst) addTurn(t turn) {
	k := memKey(t.vals) + "#" + litKey(t.lits)
	if l.turnKeys == nil {
		l.turnKeys = map[string]bool{}
	}
	if !l.turnKeys[k] {
		l.turnKeys[k] = true
		l.turns = append(l.turns, t)
	}
}

func (l *tinst) addLeave(e leave) {
	k := "leave" + effKey(e.rest) + "#" + litKey(e.lits)
	if l.turnKeys == nil {
		l.turnKeys = map[string]bool{}
	}
	if !l.turnKeys[k] {
		l.turnKeys[k] = true
		l.leaves = append(l.leaves, e)
	}
}

// enters notes what is known where the loop begins.
func (l *tinst) enters(lits map[int]bool) {
	if l.entry == nil {
		l.entry = copyLits(lits)
		return
	}
	for id, v := range l.entry {
		if w, ok := lits[id]; !ok || v != w {
			delete(l.entry, id)
		}
	}
}

func (l *tinst) muTerm(a *termAn, k string) *Term { return a.mk("mu", l.id+":"+k) }

// fileLoops finds what can be said about the loops over files; true if something
// new was found.
func (a *termAn) fileLoops() bool {
	found := false
	byHead := map[int][]*tinst{}
	for _, in := range a.insts {
		if len(in.turns) > 0 {
			byHead[in.h.ID] = append(byHead[in.h.ID], in)
		}
	}
	for b, ins := range byHead {
		if f, ok := a.copies[b]; ok {
			if f == nil {
				continue
			}
			if !f.noTot {
				good := true
				for _, in := range ins {
					if a.total(in, f) == nil {
						good = false
					}
				}
				if good != f.total {
					f.total, f.noTot, found = good, !good, true
				}
			}
			continue
		}
		if f := a.copyFact(ins); f != nil {
			a.copies[b] = f
			found = true
		}
	}
	return found
}

// copyFact finds the list of a loop and the variables that follow its length.
func (a *termAn) copyFact(ins []*tinst) *copyFact {
	var keys []string
	for k := range ins[0].turns[0].vals {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		ok := true
		for _, in := range ins {
			mu := in.muTerm(a, k)
			for _, t := range in.turns {
				v := t.vals[k]
				if v == nil {
					ok = false
					break
				}
				rest, longer := after(mu, v)
				file := false
				for _, x := range rest {
					if x.op == "at" || x.op == "read" {
						file = true
					}
				}
				ok = ok && longer && file
			}
		}
		if !ok {
			continue
		}
		f := &copyFact{list: k, lin: map[string]int64{}}
		for _, x := range keys {
			if x == k || x[0] != 'n' {
				continue
			}
			c, same := int64(0), true
			for _, in := range ins {
				v := in.vars[x]
				if v == nil || v.typ == nil || !isInteger(v.typ) {
					same = false
					break
				}
				for _, t := range in.turns {
					if t.vals[x] == nil {
						same = false
						break
					}
					grown := a.lin(a.length(t.vals[k]), a.neg(a.length(in.muTerm(a, k))))
					d := a.lin(t.vals[x], a.neg(in.muTerm(a, x)))
					now := int64(0)
					switch {
					case d == grown:
						now = 1
					case d == a.neg(grown):
						now = -1
					}
					if now == 0 || c != 0 && c != now {
						same = false
					}
					c = now
				}
			}
			if same && c != 0 {
				f.lin[x] = c
			}
		}
		if len(f.lin) > 0 {
			return f
		}
	}
	return nil
}

// follows gives a variable as a function of the length of the list.
func (a *termAn) follows(init *Term, c int64, list, first *Term) *Term {
	return a.lin(init, a.times(a.konst(c), a.lin(a.length(list), a.neg(a.length(first)))))
}

// loopFree: the term is the same in each turn.
func (a *termAn) loopFree(in *tinst, t *Term) bool {
	return !a.mentions(t, func(x *Term) bool {
		return (x.op == "mu" && strings.HasPrefix(x.s, in.id+":")) || x.op == "ctr" && x.s == in.id
	})
}

// stretch: what a turn adds is a stretch of a file; base is where it starts,
// less the length of the list.
func (a *termAn) stretch(in *tinst, f *copyFact, rest []*Term) (file, base, n *Term) {
	if len(rest) != 1 || rest[0].op != "read" {
		return nil, nil, nil
	}
	r := rest[0]
	base = a.lin(r.a[1], a.neg(a.length(in.muTerm(a, f.list))))
	if !a.loopFree(in, base) || !a.loopFree(in, r.a[0]) {
		return nil, nil, nil
	}
	return r.a[0], base, r.a[2]
}

// total gives the stretch of a file that a loop adds as a whole.
func (a *termAn) total(in *tinst, f *copyFact) *Term {
	v := in.vars[f.list]
	if v == nil || len(v.inits) != 1 || len(in.turns) == 0 || len(in.leaves) == 0 {
		return nil
	}
	mu, first := in.muTerm(a, f.list), v.inits[0]
	var file, base *Term
	same := func(fl, b *Term) bool {
		if fl == nil || file != nil && (fl != file || b != base) {
			return false
		}
		file, base = fl, b
		return true
	}
	for _, t := range in.turns {
		rest, _ := after(mu, t.vals[f.list])
		if fl, b, _ := a.stretch(in, f, rest); !same(fl, b) {
			return nil
		}
	}
	for _, e := range in.leaves {
		if len(e.rest) == 0 {
			continue
		}
		if fl, b, _ := a.stretch(in, f, e.rest); !same(fl, b) {
			return nil
		}
	}
	from := a.lin(base, a.length(first))
	n := a.byLimit(in, f, mu, first)
	if n == nil {
		n = a.byCount(in, f, mu)
	}
	if n == nil {
		return nil
	}
	return a.mk("read", "", file, from, n)
}

// positive gives what a comparison says is greater than 0.
func (a *termAn) positive(id int, v bool) *Term {
	t := a.tt.all[id]
	if t.op != "lt" {
		return nil
	}
	if v {
		return a.lin(t.a[1], a.neg(t.a[0]))
	}
	return a.lin(t.a[0], a.neg(t.a[1]), a.konst(1))
}

// byLimit: the loop ends once the list has what it is to have, and no turn adds
// more than what is missing.
func (a *termAn) byLimit(in *tinst, f *copyFact, mu, first *Term) *Term {
	tot := a.mk("tot", in.id)
	var limits []*Term
	for i, e := range in.leaves {
		n := a.konst(0)
		if len(e.rest) > 0 {
			n = e.rest[0].a[2]
		}
		// the length of the list, by what the loop adds as a whole
		size := a.mk("len", "", mu)
		lits, _ := a.relits(e.lits, func(x *Term) *Term {
			if x == size {
				return a.lin(a.length(first), tot, a.neg(n))
			}
			return nil
		}, map[*Term]*Term{})
		var here []*Term
		for id, v := range lits {
			if d := a.positive(id, v); d != nil && a.coef(d, tot) == 1 {
				// tot >= limit
				if lim := a.lin(tot, a.neg(d), a.konst(1)); a.loopFree(in, lim) && !a.mentions(lim, func(x *Term) bool { return x == tot }) {
					here = append(here, lim)
				}
			}
		}
		if i == 0 {
			limits = here
			continue
		}
		var both []*Term
		for _, x := range limits {
			for _, y := range here {
				if x == y {
					both = append(both, x)
				}
			}
		}
		limits = both
	}
	sort.Slice(limits, func(i, j int) bool { return limits[i].id < limits[j].id })
	for _, lim := range limits {
		left := a.lin(lim, a.length(first), a.neg(a.mk("len", "", mu)))
		ok := true
		atMost := func(n *Term, lits map[int]bool) bool {
			d := a.lin(left, a.neg(n)) // has to be >= 0
			if k, isK := d.intVal(); isK {
				return k >= 0
			}
			for id, v := range lits {
				if p := a.positive(id, v); p != nil {
					if k, isK := a.lin(d, a.neg(p)).intVal(); isK && k >= -1 {
						return true
					}
				}
			}
			return false
		}
		for _, t := range in.turns {
			rest, _ := after(mu, t.vals[f.list])
			ok = ok && atMost(rest[0].a[2], t.lits)
		}
		for _, e := range in.leaves {
			if len(e.rest) > 0 {
				ok = ok && atMost(e.rest[0].a[2], e.lits)
			}
		}
		if ok {
			return lim
		}
	}
	return nil
}

// nonnegAt: the term is not negative where the loop begins.
func (a *termAn) nonnegAt(in *tinst, t *Term) bool {
	if nonneg(t) || in.entry[a.mk("lt", "", a.konst(0), t).id] {
		return true
	}
	if t.op == "+" || t.op == "bin" && t.s == "/" || t.op == "*" {
		for _, x := range t.a {
			if !a.nonnegAt(in, x) {
				return false
			}
		}
		return true
	}
	return false
}

// byCount: a counter ends the loop, and says how much each turn adds.
func (a *termAn) byCount(in *tinst, f *copyFact, mu *Term) *Term {
	if in.stride > 1 {
		return nil
	}
	ctr := a.mk("ctr", in.id)
	// how many turns meet a condition on the counter
	upTo := func(id int, run bool) *Term {
		d := a.positive(id, run)
		if d == nil || a.coef(d, ctr) != -1 {
			return nil
		}
		if n := a.lin(d, ctr); a.loopFree(in, n) && a.nonnegAt(in, n) {
			return n
		}
		return nil
	}
	// what the turns add that do, or do not, meet a condition
	adds := func(id int, want bool) *Term {
		var n *Term
		for _, t := range in.turns {
			rest, _ := after(mu, t.vals[f.list])
			x := rest[0].a[2]
			v, has := t.lits[id]
			if !has || !a.loopFree(in, x) {
				return nil
			}
			if v != want {
				continue
			}
			if n != nil && n != x {
				return nil
			}
			n = x
		}
		return n
	}
	var ids []int
	for id := range in.leaves[0].lits {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		run, ok := a.boundLit(in, a.tt.all[id])
		if !ok || run == in.leaves[0].lits[id] {
			continue
		}
		times := upTo(id, run)
		if times == nil {
			continue
		}
		last := (*Term)(nil)
		for _, e := range in.leaves {
			w, has := e.lits[id]
			n := a.konst(0)
			if len(e.rest) > 0 {
				n = e.rest[0].a[2]
			}
			ok = ok && has && w != run && a.loopFree(in, n) && (last == nil || last == n)
			last = n
		}
		for _, t := range in.turns {
			w, has := t.lits[id]
			ok = ok && has && w == run
		}
		if !ok {
			continue
		}
		if each := adds(id, run); each != nil {
			return a.lin(a.times(each, times), last)
		}
		// the last turns add another amount
		var more []int
		for x := range in.turns[0].lits {
			if x != id {
				more = append(more, x)
			}
		}
		sort.Ints(more)
		for _, x := range more {
			// one of them does
			if e := a.tt.all[x]; e.op == "eq" {
				d := a.lin(e.a[0], a.neg(e.a[1]))
				if a.coef(d, ctr) == 1 {
					d = a.neg(d)
				}
				k := a.lin(d, ctr) // the turn it is
				if a.coef(d, ctr) != -1 || !a.loopFree(in, k) || !a.nonnegAt(in, k) {
					continue
				}
				if n, isK := a.lin(times, a.neg(k)).intVal(); !isK || n < 1 {
					continue
				}
				if e1, e2 := adds(x, false), adds(x, true); e1 != nil && e2 != nil {
					return a.lin(a.times(e1, a.lin(times, a.konst(-1))), e2, last)
				}
				continue
			}
			for _, w := range []bool{true, false} {
				some := upTo(x, w)
				if some == nil {
					continue
				}
				others := a.lin(times, a.neg(some))
				if k, isK := others.intVal(); !isK || k < 0 {
					continue
				}
				if e1, e2 := adds(x, w), adds(x, !w); e1 != nil && e2 != nil {
					return a.lin(a.times(e1, some), a.times(e2, others), last)
				}
			}
		}
	}
	return nil
}

// leaveCopy: the loop is left; what it added becomes one stretch. Returns false
// when the loop is not one that copies a file.
func (a *termAn) leaveCopy(s *tstate, f *tframe, it map[int]bool, as func(func(*Term) *Term)) bool {
	l := f.in
	fact := a.copies[l.h.ID]
	if fact == nil {
		return false
	}
	for id, v := range it {
		if !v && a.tt.all[id].op == "ok" {
			return false
		}
	}
	mu := l.muTerm(a, fact.list)
	var longest *Term
	see := func(t *Term) {
		a.mentions(t, func(x *Term) bool {
			if rest, ok := after(mu, x); ok && (longest == nil || len(rest) >= len(longest.a)) {
				longest = x
			}
			return false
		})
	}
	for _, t := range s.env {
		see(t)
	}
	for _, t := range s.mem {
		see(t)
	}
	as(func(t *Term) *Term { see(t); return t })
	var rest []*Term
	if longest != nil {
		rest, _ = after(mu, longest)
		if longest.a[0] != mu {
			rest = longest.a
		}
	}
	if !fact.total {
		if !fact.noTot {
			if len(s.eff) > 0 {
				rest = []*Term{a.mk("effect", "")}
			}
			l.addLeave(leave{rest, it})
		}
		return false
	}
	l.addLeave(leave{rest, it})
	if len(rest) > 1 || len(rest) == 1 && rest[0].op != "read" {
		return false
	}
	first := l.vars[fact.list].inits[0]
	whole := a.cat(first, a.mk("stretch", l.id+":"+fact.list))
	n := a.konst(0)
	if len(rest) == 1 {
		n = rest[0].a[2]
	}
	size := a.mk("len", "", mu)
	var rep func(x *Term) *Term
	done := map[*Term]*Term{}
	rep = func(x *Term) *Term {
		switch {
		case x == size:
			return a.lin(a.length(whole), a.neg(n))
		case longest == nil && x == mu:
			return whole
		case longest != nil && x == longest:
			return whole
		}
		if longest != nil {
			if more, ok := after(longest, x); ok {
				parts := []*Term{whole}
				for _, y := range more {
					parts = append(parts, a.rebuild(y, rep, done))
				}
				return a.cat(parts...)
			}
		}
		return nil
	}
	s.lits = copyLits(f.lits)
	a.replace(s, rep)
	as(func(t *Term) *Term { return a.rebuild(t, rep, done) })
	s.eff = append([]*Term{}, f.eff...)
	return true
}

// stretches puts what the loops over files add, which is only known once they
// were gone through, in the results.
func (a *termAn) stretches() error {
	memo := map[string]*Term{}
	var err error
	var rep func(x *Term) *Term
	busy := map[string]bool{}
	done := map[*Term]*Term{}
	get := func(id string) *Term {
		if t, ok := memo[id]; ok {
			return t
		}
		i := strings.LastIndex(id, ":")
		in := a.insts[id[:i]]
		if busy[id] || in == nil {
			err = fmt.Errorf("a loop over a file depends on itself")
			return a.mk("?", id)
		}
		busy[id] = true
		t := a.total(in, a.copies[in.h.ID])
		if t == nil {
			err = fmt.Errorf("a loop over a file cannot be summarised")
			return a.mk("?", id)
		}
		t = a.rebuild(t, rep, done)
		memo[id] = t
		return t
	}
	rep = func(x *Term) *Term {
		if x.op == "stretch" {
			return get(x.s)
		}
		return nil
	}
	any := false
	for _, t := range a.tt.all {
		any = any || t.op == "stretch"
	}
	if !any {
		return nil
	}
	re := func(t *Term) *Term { return a.rebuild(t, rep, done) }
	list := func(l []*Term) []*Term {
		out := make([]*Term, len(l))
		for i, t := range l {
			out[i] = re(t)
		}
		return out
	}
	sets := func(l []litSet) []litSet {
		var out []litSet
		for _, x := range l {
			if lits, ok := a.relits(x.lits, rep, done); ok {
				out = append(out, litSet{lits, list(x.eff)})
			}
		}
		return out
	}
	for _, in := range a.insts {
		for _, v := range in.vars {
			v.inits = list(v.inits)
			var st []muStep
			for _, x := range v.steps {
				if lits, ok := a.relits(x.lits, rep, done); ok {
					st = append(st, muStep{re(x.t), lits})
				}
			}
			v.steps = st
		}
		in.iters, in.exits = sets(in.iters), sets(in.exits)
	}
	var outs []outcome
	for _, o := range a.outs {
		lits, ok := a.relits(o.lits, rep, done)
		if !ok {
			continue
		}
		o.lits, o.eff, o.res = lits, list(o.eff), list(o.res)
		outs = append(outs, o)
	}
	a.outs = outs
	return err
}
