package main

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file shows terms in a closed form that does not depend on how the
// source is laid out, and groups the ways out of a function by what they
// give: each group with the condition under which it happens, as the set of
// prime implicants of that condition.

// sumCase is one group of ways out of a function.
type sumCase struct {
	kind string // return, error, panic
	text string
	dnf  []string
	at   string
}

func (s sumCase) String() string {
	r := s.kind
	if s.text != "" {
		r += " " + s.text
	}
	return r
}

// termPolicy follows plain functions, closures, methods of the same type and
// of working records that no interface offers.
func (c *Ctx) termPolicy(root *ssa.Function) func(*ssa.Function, *Frame) bool {
	var rt *types.Named
	if r := root.Signature.Recv(); r != nil {
		rt = derefNamed(r.Type())
	}
	e := c.effects()
	return func(f *ssa.Function, fr *Frame) bool {
		if f.Blocks == nil || fr.has(f) {
			return false
		}
		if f.Parent() != nil {
			return true
		}
		if !c.W.inRepo(f) {
			return false
		}
		r := f.Signature.Recv()
		if r == nil {
			return true
		}
		n := derefNamed(r.Type())
		if n == nil {
			return false
		}
		if c.follow[f] {
			return true
		}
		if rt != nil && n.Obj() == rt.Obj() {
			return true
		}
		if f.Pkg == root.Pkg && e.kindOf(n) != 'b' && !e.offered(n) {
			return true
		}
		return false
	}
}

type printer struct {
	a     *termAn
	stack []*Term
	memo  map[int]string
	depth map[int]int
	recs  map[string]string
	open  []*tinst
	ord   map[int]int
	doms  map[string]*dom
	where map[string]string
	quiet bool
	color map[int]string // names of loop variables that depend on one another
	deep  map[string]string

	accums map[int]bool
	bodies map[string]bodyText
	about  map[string]*Term

	raw  bool           // tables and structures show which one they are
	num  map[int]string // and otherwise which of several of one type
	uses map[int]int
}

var rawObj = regexp.MustCompile(`@[0-9]+@|<[^<>~]*~[0-9a-f]+>`)

func (p *printer) forget() {
	p.memo, p.deep, p.bodies = map[int]string{}, map[string]string{}, map[string]bodyText{}
}

// many says whether several tables or structures of one type are used in more
// than one place.
func (p *printer) many() bool {
	if p.uses == nil {
		p.uses = map[int]int{}
		for _, t := range p.a.tt.all {
			for _, x := range t.a {
				if x.op == "obj" {
					p.uses[x.id]++
				}
			}
		}
	}
	seen := map[*Term]bool{}
	for _, t := range p.a.tt.all {
		if t.op == "obj" && len(t.a) > 0 && t.a[0].op == "type" && p.uses[t.id] > 1 {
			if seen[t.a[0]] {
				return true
			}
			seen[t.a[0]] = true
		}
	}
	return false
}

// tell numbers what is made in an outcome when there are several of one type,
// in the order in which they are shown.
func (p *printer) tell(o outcome) {
	if !p.many() {
		return
	}
	var ids []int
	seen, names := map[int]bool{}, map[string]bool{}
	var add func(s string)
	add = func(s string) {
		for _, m := range rawObj.FindAllString(s, -1) {
			if m[0] == '<' {
				if !names[m] {
					names[m] = true
					add(p.where[m])
				}
				continue
			}
			id, _ := strconv.Atoi(m[1 : len(m)-1])
			if !seen[id] && p.uses[id] > 1 {
				seen[id] = true
				ids = append(ids, id)
			}
		}
	}
	kept, was := p.where, p.num
	memo, deep, bodies := p.memo, p.deep, p.bodies
	p.raw, p.num, p.where = true, nil, map[string]string{}
	p.forget()
	add(p.all(o.res, ", "))
	add(p.effs(o.eff))
	if lits, ok := p.conds(nil, o.lits); ok {
		add(p.showConj(lits))
	}
	p.raw, p.where = false, kept
	p.forget()
	defer func() {
		if len(p.num) == 0 && len(was) == 0 {
			p.memo, p.deep, p.bodies = memo, deep, bodies
		}
	}()
	kinds := map[string]int{}
	for _, id := range ids {
		kinds[p.show(p.a.tt.all[id])]++
	}
	n := map[string]int{}
	num := map[int]string{}
	for _, id := range ids {
		if k := p.show(p.a.tt.all[id]); kinds[k] > 1 {
			n[k]++
			num[id] = strconv.Itoa(n[k])
		}
	}
	p.num = num
	p.forget()
}

// muDeps lists the loop variables the text of a loop variable mentions.
func (p *printer) muDeps(t *Term) []*Term {
	l, v := p.muOf(t)
	if v == nil {
		return nil
	}
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x.op == "mu" {
			out = append(out, x)
			return
		}
		for _, y := range x.a {
			walk(y)
		}
	}
	for _, x := range v.inits {
		walk(x)
	}
	if v.constant(t) {
		return out
	}
	var lits func(m map[int]bool)
	var turns func(l *tinst, v *muVar, t *Term)
	asked := map[*Term]bool{}
	lits = func(m map[int]bool) {
		for id := range m {
			x := p.a.tt.all[id]
			if x.op == "was" {
				x = x.a[0]
			}
			if asked[x] {
				continue
			}
			asked[x] = true
			mu := p.anyAbout(x)
			if mu == nil {
				walk(x)
				continue
			}
			il, iv := p.muOf(mu)
			turns(il, iv, mu)
		}
	}
	turns = func(l *tinst, v *muVar, t *Term) {
		acc := p.accum(t)
		for _, st := range v.steps {
			if st.t == t {
				continue
			}
			lits(st.lits)
			if !acc {
				walk(st.t)
				continue
			}
			parts, _ := p.catParts(st.t, t, 0)
			for _, x := range parts {
				if x.op == "each" {
					il, iv := p.muOf(x.a[0])
					turns(il, iv, x.a[0])
				} else {
					walk(x)
				}
			}
		}
		for _, x := range l.exits {
			lits(x.lits)
		}
	}
	turns(l, v, t)
	return out
}

// accum: the loop variable is a list that each turn only adds to.
func (p *printer) accum(t *Term) bool {
	if k, ok := p.accums[t.id]; ok {
		return k
	}
	p.accums[t.id] = false
	_, v := p.muOf(t)
	if v == nil {
		return false
	}
	some := false
	for _, st := range v.steps {
		if st.t == t {
			continue
		}
		if _, ok := p.catParts(st.t, t, 0); !ok {
			return false
		}
		some = true
	}
	p.accums[t.id] = some
	return some
}

// catParts gives what t adds to base: lists, and what whole loops add.
func (p *printer) catParts(t, base *Term, d int) ([]*Term, bool) {
	if t == base {
		return nil, true
	}
	if d > 12 {
		return nil, false
	}
	switch t.op {
	case "cat":
		l, ok := p.catParts(t.a[0], base, d+1)
		if !ok || p.a.mentions(p.a.mk("list", "", t.a[1:]...), func(x *Term) bool { return x == base }) {
			return nil, false
		}
		l = append([]*Term{}, l...)
		for _, x := range t.a[1:] {
			l = append(l, p.spread(x, d+1)...)
		}
		return l, true
	case "mu":
		_, v := p.muOf(t)
		if v == nil || len(v.inits) != 1 || v.constant(t) || !p.accum(t) {
			return nil, false
		}
		l, ok := p.catParts(v.inits[0], base, d+1)
		if !ok {
			return nil, false
		}
		return append(append([]*Term{}, l...), p.a.mk("each", "", t)), true
	}
	return nil, false
}

// spread gives the parts of a list.
func (p *printer) spread(t *Term, d int) []*Term {
	if empty(t) {
		return nil
	}
	if t.op != "mu" || d > 12 {
		return []*Term{t}
	}
	l, v := p.muOf(t)
	if v == nil || len(v.inits) != 1 || v.constant(t) || !p.accum(t) {
		return []*Term{t}
	}
	for _, o := range p.open {
		if o == l {
			return []*Term{t}
		}
	}
	return append(p.spread(v.inits[0], d+1), p.a.mk("each", "", t))
}

// empty: a list without elements.
func empty(t *Term) bool {
	return t.op == "nil" || t.op == "list" && len(t.a) == 0 || t.op == "str" && t.s == `""`
}

// some gives the condition under which one of the lists has an element, as the
// name of one condition; ok is false when that cannot be said.
func (p *printer) some(parts []*Term) (string, cube, bool) {
	if len(parts) != 1 || parts[0].op != "each" {
		return "", nil, false
	}
	mu := parts[0].a[0]
	l, v := p.muOf(mu)
	return p.anyOf(l, mu, func(add func(map[int]bool, string, cube)) bool {
		for _, st := range v.steps {
			if st.t == mu {
				continue
			}
			parts, ok := p.catParts(st.t, mu, 0)
			if !ok {
				return false
			}
			sure := false
			for _, x := range parts {
				sure = sure || x.op == "list" && len(x.a) > 0
			}
			if sure {
				add(st.lits, "", nil)
				continue
			}
			k, c, ok := p.some(parts)
			if !ok {
				return false
			}
			add(st.lits, k, c)
		}
		return true
	})
}

// flag: the loop variable tells whether some turn met a condition.
func (p *printer) flag(t *Term, d int) (start, ok bool) {
	if t.typ == nil || d > 8 {
		return false, false
	}
	if b, isB := t.typ.Underlying().(*types.Basic); !isB || b.Info()&types.IsBoolean == 0 {
		return false, false
	}
	_, v := p.muOf(t)
	if v == nil || len(v.inits) != 1 || v.constant(t) {
		return false, false
	}
	x := v.inits[0]
	if x.op == "mu" {
		// the inner part of a flag is shown with it
		start = p.flagInit(x, d+1)
	} else if x.op == "bool" {
		start = x.s == "true"
	} else {
		return false, false
	}
	for _, st := range v.steps {
		if !p.flagStep(st.t, t, start, d+1) {
			return false, false
		}
	}
	return start, x.op == "bool"
}

func (p *printer) flagInit(t *Term, d int) bool {
	_, v := p.muOf(t)
	if v == nil || len(v.inits) != 1 || d > 8 {
		return false
	}
	x := v.inits[0]
	if x.op == "mu" {
		return p.flagInit(x, d+1)
	}
	return x.op == "bool" && x.s == "true"
}

func (p *printer) flagStep(t, base *Term, start bool, d int) bool {
	if t == base || t.op == "bool" && (t.s == "true") != start {
		return true
	}
	if t.op != "mu" || d > 8 {
		return false
	}
	_, v := p.muOf(t)
	if v == nil || len(v.inits) != 1 || !p.flagStep(v.inits[0], base, start, d+1) {
		return false
	}
	for _, st := range v.steps {
		if !p.flagStep(st.t, t, start, d+1) {
			return false
		}
	}
	return true
}

func (p *printer) flagAny(t *Term) (string, cube, bool) {
	l, v := p.muOf(t)
	return p.anyOf(l, t, func(add func(map[int]bool, string, cube)) bool {
		for _, st := range v.steps {
			switch st.t.op {
			case "bool":
				add(st.lits, "", nil)
			case "mu":
				if st.t == t {
					continue
				}
				k, c, ok := p.flagAny(st.t)
				if !ok {
					return false
				}
				add(st.lits, k, c)
			}
		}
		return true
	})
}

// anyOf names the condition that holds in some turn of a loop.
func (p *printer) anyOf(l *tinst, mu *Term, steps func(func(map[int]bool, string, cube)) bool) (string, cube, bool) {
	for _, x := range p.open {
		if x == l {
			return "", nil, false // so far, not in all turns
		}
	}
	for _, x := range p.stack {
		if x == mu {
			return "", nil, false
		}
	}
	bound := p.bound(l)
	p.stack = append(p.stack, mu)
	p.open = append(p.open, l)
	defer func() {
		p.stack = p.stack[:len(p.stack)-1]
		p.open = p.open[:len(p.open)-1]
	}()
	ok := true
	g := p.group(l, func(add func(string, map[int]bool, cube)) {
		ok = steps(func(lits map[int]bool, k string, more cube) {
			var c cube
			if k != "" {
				c = cube{k: 2}
				for x, m := range more {
					c[x] = m
				}
			}
			add("", lits, c)
		})
	})
	if !ok || len(g) != 1 {
		return "", nil, false
	}
	d, c := p.hoist(l, g)
	return "any(" + bound + ": " + strings.TrimPrefix(d, " if ") + ")", c, true
}

// whole puts the conditions that were taken out of a name back.
func (p *printer) whole(k string, c cube) string {
	if len(c) == 0 {
		return k
	}
	return "any(once: " + k + " & " + p.showConj(c) + ")"
}

// anyAbout: the loop variable behind a condition that anyLit recognises.
func (p *printer) anyAbout(t *Term) *Term {
	var mu *Term
	switch t.op {
	case "lt":
		if k, ok := t.a[0].intVal(); ok && k == 0 && t.a[1].op == "len" {
			if x := t.a[1].a[0]; x.op == "mu" && p.accum(x) {
				mu = x
			}
		}
	case "eq":
		if t.a[0].op == "len" && t.a[1].op == "len" {
			for i := range t.a {
				x, y := t.a[i].a[0], t.a[1-i].a[0]
				if parts, ok := p.catParts(x, y, 0); ok && len(parts) == 1 && parts[0].op == "each" {
					mu = parts[0].a[0]
				}
			}
		}
	}
	if mu == nil || !p.sure(mu) {
		return nil
	}
	return mu
}

// sure: each turn that adds to the list adds some element for certain.
func (p *printer) sure(mu *Term) bool {
	_, v := p.muOf(mu)
	for _, st := range v.steps {
		if st.t == mu {
			continue
		}
		parts, ok := p.catParts(st.t, mu, 0)
		if !ok {
			return false
		}
		has := false
		for _, x := range parts {
			has = has || x.op == "list" && len(x.a) > 0
		}
		if !has && !(len(parts) == 1 && parts[0].op == "each" && p.sure(parts[0].a[0])) {
			return false
		}
	}
	return true
}

// anyLit recognises the ways to say that a loop met a condition.
func (p *printer) anyLit(t *Term, v bool) (string, bool, bool) {
	switch t.op {
	case "mu":
		if start, ok := p.flag(t, 0); ok {
			if k, c, ok := p.flagAny(t); ok {
				return p.whole(k, c), v != start, true
			}
		}
	case "lt":
		if k, ok := t.a[0].intVal(); ok && k == 0 && t.a[1].op == "len" {
			x := t.a[1].a[0]
			if x.op == "mu" && p.accum(x) {
				if _, w := p.muOf(x); len(w.inits) == 1 && empty(w.inits[0]) {
					if k, c, ok := p.some([]*Term{p.a.mk("each", "", x)}); ok {
						return p.whole(k, c), v, true
					}
				}
			}
		}
	case "eq":
		if t.a[0].op == "len" && t.a[1].op == "len" {
			for i := range t.a {
				x, y := t.a[i].a[0], t.a[1-i].a[0]
				if parts, ok := p.catParts(x, y, 0); ok && len(parts) > 0 {
					if k, c, ok := p.some(parts); ok {
						return p.whole(k, c), !v, true
					}
				}
			}
		}
	}
	return "", false, false
}

func (v *muVar) constant(t *Term) bool {
	for _, st := range v.steps {
		if st.t != t {
			return false
		}
	}
	return true
}

func (p *printer) muOf(t *Term) (*tinst, *muVar) {
	i := strings.Index(t.s, ":")
	l := p.loopOf(t.s[:i])
	return l, l.vars[t.s[i+1:]]
}

// colors names the loop variables that depend on one another by what they are:
// two have the same name when no unfolding of their equations tells them apart.
func (p *printer) colors() {
	var mus []*Term
	deps := map[*Term][]*Term{}
	for _, t := range p.a.tt.all {
		if t.op == "mu" {
			mus = append(mus, t)
			deps[t] = p.muDeps(t)
		}
	}
	// strongly connected components
	index, low, on := map[*Term]int{}, map[*Term]int{}, map[*Term]bool{}
	var stack []*Term
	var coupled []*Term
	n := 0
	var scc func(t *Term)
	scc = func(t *Term) {
		n++
		index[t], low[t] = n, n
		stack = append(stack, t)
		on[t] = true
		for _, d := range deps[t] {
			if index[d] == 0 {
				scc(d)
				low[t] = min(low[t], low[d])
			} else if on[d] {
				low[t] = min(low[t], index[d])
			}
		}
		if low[t] != index[t] {
			return
		}
		var c []*Term
		for {
			x := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			on[x] = false
			c = append(c, x)
			if x == t {
				break
			}
		}
		if len(c) > 1 {
			for _, x := range c {
				if _, v := p.muOf(x); v != nil && !v.constant(x) {
					coupled = append(coupled, x)
				}
			}
		}
	}
	for _, t := range mus {
		if index[t] == 0 {
			scc(t)
		}
	}
	if len(coupled) == 0 {
		return
	}
	p.color = map[int]string{}
	for _, t := range coupled {
		_, v := p.muOf(t)
		p.color[t.id] = "<" + typeName(v.typ) + ">"
	}
	text := map[int]string{}
	classes := 0
	for round := 0; ; round++ {
		next := map[int]string{}
		set := map[string]bool{}
		for _, t := range coupled {
			p.memo, p.deep, p.bodies = map[int]string{}, map[string]string{}, map[string]bodyText{}
			text[t.id] = p.equation(t)
			h := fnv.New32a()
			h.Write([]byte(text[t.id]))
			_, v := p.muOf(t)
			next[t.id] = fmt.Sprintf("<%s~%06x>", typeName(v.typ), h.Sum32()&0xffffff)
			set[next[t.id]] = true
		}
		if len(set) <= classes {
			break
		}
		classes = len(set)
		p.color = next
	}
	p.memo, p.deep, p.bodies = map[int]string{}, map[string]string{}, map[string]bodyText{}
	p.where = map[string]string{}
	for _, t := range coupled {
		p.where[p.color[t.id]] = p.equation(t)
	}
}

// equation shows what a named loop variable is.
func (p *printer) equation(t *Term) string {
	l, v := p.muOf(t)
	open, stack := p.open, p.stack
	p.open, p.stack = nil, nil
	defer func() { p.open, p.stack = open, stack }()
	var inits []string
	for _, x := range v.inits {
		inits = append(inits, p.t(x))
	}
	sort.Strings(inits)
	return p.muBody(t, l, v, inits)
}

func (a *termAn) printer() *printer {
	p := &printer{a: a, memo: map[int]string{}, depth: map[int]int{}, recs: map[string]string{}, ord: map[int]int{}, doms: map[string]*dom{}, where: map[string]string{}, deep: map[string]string{}, accums: map[int]bool{}, bodies: map[string]bodyText{}, about: map[string]*Term{}}
	p.colors()
	// the same call made again on one way is another one
	var walk func(l []*Term, seen map[string][]*Term)
	walk = func(l []*Term, seen map[string][]*Term) {
		for _, t := range l {
			switch t.op {
			case "ext", "dyn":
				n := p.extText(t) + "(" + p.all(t.a, ", ") + ")"
				k := 0
				for i, x := range seen[n] {
					if x == t {
						k = i + 1
					}
				}
				if k == 0 {
					seen[n] = append(seen[n], t)
					k = len(seen[n])
				}
				if k > p.ord[t.id] {
					p.ord[t.id] = k
				}
			case "loop", "done":
				for _, it := range a.insts[t.s].iters {
					inner := map[string][]*Term{}
					for k, v := range seen {
						inner[k] = v
					}
					walk(it.eff, inner)
				}
			}
		}
	}
	for _, o := range a.outs {
		walk(o.eff, map[string][]*Term{})
	}
	p.memo, p.deep, p.bodies = map[int]string{}, map[string]string{}, map[string]bodyText{}
	p.where = map[string]string{}
	p.colors()
	return p
}

func (p *printer) extCall(t *Term) string {
	s := p.extText(t) + "(" + p.all(t.a, ", ") + ")"
	if k := p.ord[t.id]; k > 1 {
		s += "#" + strconv.Itoa(k)
	}
	return s
}

func (p *printer) extText(t *Term) string {
	if t.op == "dyn" {
		return "dyn"
	}
	return strings.SplitN(t.s, "@", 2)[0]
}

func (p *printer) level(h string) int {
	n := 1
	l := p.a.insts[h].tloop
	for l != nil && l.parent != nil {
		n++
		l = l.parent
	}
	return n
}

func (p *printer) star(h string) string {
	if n := p.level(h); n > 1 {
		return fmt.Sprintf("*%d", n)
	}
	return "*"
}

func (p *printer) all(l []*Term, sep string) string {
	var s []string
	for _, t := range l {
		s = append(s, p.t(t))
	}
	return strings.Join(s, sep)
}

func (p *printer) sorted(l []*Term, sep string) string {
	var s []string
	for _, t := range l {
		s = append(s, p.t(t))
	}
	sort.Strings(s)
	return strings.Join(s, sep)
}

// pure says that a term shows no loop variable, so its text can be kept.
func (p *printer) t(t *Term) string {
	if p.quiet {
		return p.abbr(t, p.show(t))
	}
	if len(p.open) == 0 {
		if s, ok := p.memo[t.id]; ok {
			return s
		}
		s := p.abbr(t, p.show(t))
		p.memo[t.id] = s
		return s
	}
	k := p.place("", t)
	if s, ok := p.deep[k]; ok {
		return s
	}
	s := p.abbr(t, p.show(t))
	p.deep[k] = s
	return s
}

type bodyText struct {
	s string
	c cube
}

// place names a term where it is shown.
func (p *printer) place(kind string, t *Term) string {
	var sb strings.Builder
	sb.WriteString(kind + strconv.Itoa(t.id))
	if p.quiet {
		sb.WriteString("q")
	}
	for _, l := range p.open {
		sb.WriteString("|" + l.id)
	}
	for _, x := range p.stack {
		sb.WriteString("/" + strconv.Itoa(x.id))
	}
	return sb.String()
}

// abbr names long texts by what they say, so that the name stays the same as
// long as the text does.
func (p *printer) abbr(t *Term, s string) string {
	if len(s) < 110 {
		return s
	}
	switch t.op {
	case "mu", "new", "call", "list", "cat", "acc", "ext", "dyn", "each":
	default:
		return s
	}
	h := fnv.New32a()
	h.Write([]byte(s))
	pre := t.op
	switch t.op {
	case "new", "call":
		pre = t.s[strings.LastIndex(t.s, ".")+1:]
		if t.op == "new" {
			pre = t.s
		}
	case "ext":
		pre = p.extText(t)
	case "mu", "each":
		pre = s[:strings.IndexAny(s+"(", "(")]
		if strings.HasPrefix(s, "(") {
			pre = "more"
		}
	}
	n := fmt.Sprintf("<%s~%04x>", pre, h.Sum32()&0xffff)
	p.where[n] = s
	return n
}

func (p *printer) show(t *Term) string {
	switch t.op {
	case "int", "str", "bool", "float", "nil":
		if t.op == "nil" {
			return "nil"
		}
		return t.s
	case "param":
		if t.s == "0" && p.a.fl.Fn.Signature.Recv() != nil {
			return "self"
		}
		return p.a.paramName(t.s)
	case "global", "fn", "zero":
		return t.s
	case "closure":
		return "closure"
	case "type":
		return t.s
	case "field":
		return p.t(t.a[0]) + "." + t.s
	case "acc":
		return p.t(t.a[0]) + "." + t.s + "(" + p.all(t.a[1:], ", ") + ")"
	case "call":
		if t.s == "bytes.Join" && len(t.a) == 2 && empty(t.a[1]) {
			l := p.t(t.a[0])
			return "each(" + l + ": " + l + "[*])"
		}
		return t.s + "(" + p.all(t.a, ", ") + ")"
	case "ext", "dyn":
		return "'" + p.extCall(t) + "'"
	case "res":
		return p.t(t.a[0]) + "#" + t.s
	case "out":
		return "out" + t.s + ":" + p.t(t.a[0])
	case "err":
		return "err(" + p.all(t.a, ", ") + ")"
	case "list":
		return "[" + p.all(t.a, ", ") + "]"
	case "cat":
		var l []string
		for _, x := range t.a {
			s := p.t(x)
			if x.op == "mu" && strings.HasPrefix(p.show(x), "(") {
				if s = p.show(x); strings.HasPrefix(s, "(") && strings.HasSuffix(s, ")") {
					s = s[1 : len(s)-1]
				}
			}
			l = append(l, s)
		}
		return "(" + strings.Join(l, " ++ ") + ")"
	case "slice":
		hi := ""
		if len(t.a) == 3 {
			hi = p.t(t.a[2])
		}
		return p.t(t.a[0]) + "[" + p.t(t.a[1]) + ":" + hi + "]"
	case "idx", "get":
		return p.t(t.a[0]) + "[" + p.t(t.a[1]) + "]"
	case "has":
		return "(" + p.t(t.a[1]) + " in " + p.t(t.a[0]) + ")"
	case "len":
		return "len(" + p.t(t.a[0]) + ")"
	case "+":
		return "(" + p.sorted(t.a, " + ") + ")"
	case "*":
		return p.sorted(t.a, "*")
	case "lt":
		return "(" + p.t(t.a[0]) + " < " + p.t(t.a[1]) + ")"
	case "eq":
		return "(" + p.sorted(t.a, " == ") + ")"
	case "not":
		return "!" + p.t(t.a[0])
	case "bin":
		return "(" + p.all(t.a, " "+t.s+" ") + ")"
	case "new":
		return t.s + "{" + p.all(t.a, ", ") + "}"
	case "kv":
		return t.s + ": " + p.t(t.a[0])
	case "ctr":
		return p.star(t.s)
	case "rkey":
		return "key(" + p.t(t.a[0]) + ")"
	case "set":
		switch len(t.a) {
		case 2:
			return p.t(t.a[0]) + "." + t.s + " := " + p.t(t.a[1])
		case 3:
			return p.t(t.a[0]) + "[" + p.t(t.a[1]) + "] := " + p.t(t.a[2])
		}
	case "rval":
		return p.t(t.a[0]) + "[key]"
	case "more":
		return "more(" + p.t(t.a[0].a[0]) + ")"
	case "mu":
		return p.mu(t)
	case "each":
		l, v := p.muOf(t.a[0])
		s, c := p.eachText(t.a[0], l, v)
		if len(c) > 0 {
			s = "each(once: " + s + " if " + p.showConj(c) + ")"
		}
		return s
	case "error":
		return "error"
	case "loop", "done":
		return p.loopText(t)
	case "obj":
		if len(t.a) > 0 {
			which := p.num[t.id]
			if p.raw {
				which = fmt.Sprintf("@%d@", t.id)
			}
			if n := p.t(t.a[0]); strings.HasPrefix(n, "map[") {
				return "{" + strings.Replace(n[4:], "]", ":", 1) + "}" + which
			}
			return "new " + p.t(t.a[0]) + which
		}
		return "obj"
	}
	s := t.op
	if t.s != "" && t.op != "?" {
		s += "<" + t.s + ">"
	}
	return s + "(" + p.all(t.a, ", ") + ")"
}

// paramName numbers the parameters that are used.
func (a *termAn) paramName(s string) string {
	k, err := strconv.Atoi(s)
	if err != nil {
		return "$" + s
	}
	n := k
	for i := 0; i < k; i++ {
		if a.heads.dead[a.fl.Fn][i] {
			n--
		}
	}
	return "$" + strconv.Itoa(n)
}

func (p *printer) loopOf(h string) *tinst { return p.a.insts[h] }

// bound shows what a loop goes through.
func (p *printer) bound(l *tinst) string {
	set := map[string]bool{}
	ctr := p.a.mk("ctr", l.id)
	add := func(ls litSet) {
		for id := range ls.lits {
			t := p.a.tt.all[id]
			if !p.isBound(l, t) {
				continue
			}
			switch {
			case t.op == "more":
				set[p.t(t.a[0].a[0])] = true
			case t.a[0] == ctr && t.a[1].op == "len":
				set[p.t(t.a[1].a[0])] = true
			default:
				set[p.t(t)] = true
			}
		}
	}
	for _, x := range l.iters {
		add(x)
	}
	for _, x := range l.exits {
		add(x)
	}
	var s []string
	for k := range set {
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}

// isBound: what keeps a loop going.
func (p *printer) isBound(l *tinst, t *Term) bool {
	run, ok := p.a.boundLit(l, t)
	if !ok {
		return false
	}
	for _, x := range l.exits {
		if v, ok := x.lits[t.id]; ok && v != run {
			return true
		}
	}
	return false
}

// cube is a conjunction: for each variable the values it may have.
type cube map[string]uint64

// dom says what the values of a variable are called.
type dom struct {
	names []string // empty: a condition that holds or not
}

func (d *dom) full() uint64 {
	if d == nil || len(d.names) == 0 {
		return 3
	}
	return 1<<uint(len(d.names)) - 1
}

// lit gives the variable of a literal and the values it leaves.
func (p *printer) lit(t *Term, v bool) (string, uint64) {
	if e := p.a.atEnd(t); e != nil {
		t, v = e, !v
	}
	if o := p.a.oneOf(t); o != nil {
		k := p.t(t.a[0])
		p.doms[k] = &dom{o.names}
		p.vterm(k, t.a[0])
		m := uint64(1) << uint(o.idx)
		if !v {
			m = p.doms[k].full() &^ m
		}
		return k, m
	}
	if k, w, ok := p.anyLit(t, v); ok {
		if w {
			return k, 2
		}
		return k, 1
	}
	p.vterm(p.t(t), t)
	if v {
		return p.t(t), 2
	}
	return p.t(t), 1
}

// vterm remembers what a condition is about.
func (p *printer) vterm(k string, t *Term) { p.about[k] = t }

// conds shows literals, without the bounds of a loop and the successes of
// calls; ok is false when they contradict one another.
func (p *printer) conds(l *tinst, lits map[int]bool) (out cube, ok bool) {
	out = cube{}
	var ids []int
	for id := range lits {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { // past conditions last
		a, b := p.a.tt.all[ids[i]].op == "was", p.a.tt.all[ids[j]].op == "was"
		return a != b && b || a == b && ids[i] < ids[j]
	})
	asked := map[*Term]bool{} // what was asked something is there
	for _, id := range ids {
		p.a.mentions(p.a.tt.all[id], func(x *Term) bool {
			if x.op == "acc" && len(x.a) > 0 {
				asked[x.a[0]] = true
			}
			return false
		})
	}
	missing, present := map[*Term]bool{}, map[*Term]bool{}
	for y := range asked {
		for _, h := range p.a.absent(y) {
			if h.val {
				missing[h.cond] = true
			} else {
				present[h.cond] = true
			}
		}
	}
	for _, id := range ids {
		v := lits[id]
		t := p.a.tt.all[id]
		if missing[t] && v || present[t] && !v {
			return nil, false
		}
		was := t.op == "was"
		if was {
			t = t.a[0]
		}
		if t.op == "past" {
			if lp := p.loopOf(t.s); l != nil && p.early(lp) {
				out["all("+p.bound(lp)+")"] = 2
			}
			continue
		}
		if l != nil && p.isBound(l, t) {
			continue
		}
		if l == nil && p.inRange(t, v) {
			continue
		}
		if t.op == "ok" {
			if v {
				continue
			}
			out["failed "+p.t(t.a[0])] = 2
			p.vterm("failed "+p.t(t.a[0]), t.a[0])
			continue
		}
		k, m := p.lit(t, v)
		if old, have := out[k]; have {
			m &= old
			if m == 0 && was {
				k, m = "earlier "+k, 2
				if !v {
					m = 1
				}
			}
		}
		if m == 0 {
			return nil, false
		}
		out[k] = m
	}
	return out, true
}

// inRange: the bound of some loop, which holds in each of its iterations.
func (p *printer) inRange(t *Term, v bool) bool {
	for _, l := range p.a.insts {
		if run, ok := p.a.boundLit(l, t); ok && run == v && p.isBound(l, t) {
			return true
		}
	}
	return false
}

type guarded struct {
	text string
	dnf  []cube
	dc   []cube
}

func (p *printer) group(l *tinst, add func(func(text string, lits map[int]bool, more cube))) []guarded {
	var g []guarded
	add(func(text string, lits map[int]bool, more cube) {
		c, ok := p.conds(l, lits)
		if !ok {
			return
		}
		for k, m := range more {
			if old, have := c[k]; have {
				m &= old
			}
			if m == 0 {
				return
			}
			c[k] = m
		}
		for i := range g {
			if g[i].text == text {
				g[i].dnf = append(g[i].dnf, c)
				return
			}
		}
		g = append(g, guarded{text, []cube{c}, nil})
	})
	sort.Slice(g, func(i, j int) bool { return g[i].text < g[j].text })
	// an iteration that leaves the loop takes no step
	var dc []cube
	for _, x := range l.exits {
		if p.a.onlyBound(l, x.lits) {
			continue
		}
		if c, ok := p.conds(l, x.lits); ok {
			dc = append(dc, c)
		}
	}
	for i := range g {
		g[i].dc = dc
	}
	return g
}

func (p *printer) guarded(g guarded) string {
	d := p.showDNF(p.simplify(g.dnf, g.dc))
	if d == "" {
		return g.text
	}
	return g.text + " if " + d
}

func (p *printer) mu(t *Term) (out string) {
	if n, ok := p.color[t.id]; ok {
		return n
	}
	for i := len(p.stack) - 1; i >= 0; i-- {
		if p.stack[i] == t {
			if i == len(p.stack)-1 {
				return "@"
			}
			return fmt.Sprintf("@%d", len(p.stack)-1-i)
		}
	}
	i := strings.Index(t.s, ":")
	l := p.loopOf(t.s[:i])
	v := l.vars[t.s[i+1:]]
	if v == nil {
		return "?" + t.s
	}
	// constant
	same := true
	for _, st := range v.steps {
		if st.t != t {
			same = false
		}
	}
	var inits []string
	for _, x := range v.inits {
		inits = append(inits, p.t(x))
	}
	sort.Strings(inits)
	if same {
		return strings.Join(inits, " or ")
	}
	for _, o := range p.open {
		if o == l {
			// the value at the start of an iteration
			defer func() { out = "before:" + out }()
			break
		}
	}
	return p.muBody(t, l, v, inits)
}

func (p *printer) muBody(t *Term, l *tinst, v *muVar, inits []string) string {
	init := strings.Join(inits, " or ")
	if p.accum(t) {
		s, c := p.eachText(t, l, v)
		if len(c) > 0 {
			s = "each(once: " + s + " if " + p.showConj(c) + ")"
		}
		if len(v.inits) == 1 {
			x := v.inits[0]
			if empty(x) {
				return s
			}
			if x.op == "zeros" && len(v.steps) == 1 && "len("+p.bound(l)+")" == p.t(x.a[0]) {
				return s
			}
		}
		return "(" + init + " ++ " + s + ")"
	}
	bound := p.bound(l)
	p.stack = append(p.stack, t)
	p.open = append(p.open, l)
	defer func() {
		p.stack = p.stack[:len(p.stack)-1]
		p.open = p.open[:len(p.open)-1]
	}()
	kind := ""
	for _, st := range v.steps {
		k := ""
		switch {
		case st.t == t:
			continue
		case st.t.op == "+" && p.a.mentions1(st.t, t):
			k = "sum"
		default:
			k = "fix"
		}
		if kind != "" && kind != k {
			k = "fix"
		}
		kind = k
	}
	g := p.group(l, func(add func(string, map[int]bool, cube)) {
		for _, st := range v.steps {
			switch {
			case st.t == t:
			case kind == "sum":
				add(p.t(p.a.lin(st.t, p.a.neg(t))), st.lits, nil)
			default:
				add(p.t(st.t), st.lits, nil)
			}
		}
	})
	var parts []string
	for _, x := range g {
		parts = append(parts, p.guarded(x))
	}
	body := strings.Join(parts, "; ")
	if kind == "sum" {
		s := "sum(" + bound + ": " + body + ")"
		if init == "0" {
			return s
		}
		return "(" + init + " + " + s + ")"
	}
	return "fix(" + init + " | " + bound + ": " + body + ")"
}

// eachText shows what the turns of a loop add to a list, and the conditions
// under which any of them does that are the same in all turns.
func (p *printer) eachText(t *Term, l *tinst, v *muVar) (string, cube) {
	k := p.place("E", t)
	if x, ok := p.bodies[k]; ok {
		return x.s, x.c
	}
	s, c := p.eachText1(t, l, v)
	p.bodies[k] = bodyText{s, c}
	return s, c
}

func (p *printer) eachText1(t *Term, l *tinst, v *muVar) (string, cube) {
	bound := p.bound(l)
	p.stack = append(p.stack, t)
	p.open = append(p.open, l)
	defer func() {
		p.stack = p.stack[:len(p.stack)-1]
		p.open = p.open[:len(p.open)-1]
	}()
	g := p.group(l, func(add func(string, map[int]bool, cube)) {
		for _, st := range v.steps {
			if st.t == t {
				continue
			}
			parts, _ := p.catParts(st.t, t, 0)
			if len(parts) == 1 && parts[0].op == "each" {
				il, iv := p.muOf(parts[0].a[0])
				s, c := p.eachText(parts[0].a[0], il, iv)
				add(p.abbr(parts[0], s), st.lits, c)
				continue
			}
			add(p.t(p.a.cat(parts...)), st.lits, nil)
		}
	})
	body, c := p.hoist(l, g)
	if body == "["+bound+"["+p.star(l.id)+"]]" {
		return bound, c // a copy of it
	}
	return "each(" + bound + ": " + body + ")", c
}

// hoist shows what the turns of a loop do, without the conditions that are the
// same in all turns.
func (p *printer) hoist(l *tinst, g []guarded) (string, cube) {
	var all [][]cube
	var common cube
	for i, x := range g {
		d := p.simplify(x.dnf, x.dc)
		all = append(all, d)
		for j, c := range d {
			if i == 0 && j == 0 {
				common = cube{}
				for k, m := range c {
					if t := p.about[k]; t != nil && len(p.open) > 1 && !p.varies(l, t) {
						common[k] = m
					}
				}
				continue
			}
			for k, m := range common {
				if c[k] != m {
					delete(common, k)
				}
			}
		}
	}
	var parts []string
	for i, x := range g {
		for _, c := range all[i] {
			for k := range common {
				delete(c, k)
			}
		}
		s := x.text
		if d := p.showDNF(all[i]); d != "" {
			s += " if " + d
		}
		parts = append(parts, s)
	}
	return strings.Join(parts, "; "), common
}

// madeIn: a value that the turns of the loop make.
func (p *printer) madeIn(l *tinst, t *Term) bool {
	i := strings.IndexAny(t.s, "0123456789")
	if j := strings.LastIndex(t.s, "@"); j >= 0 {
		i = j + 1
	}
	if i < 0 {
		return true
	}
	j := i
	for j < len(t.s) && t.s[j] >= '0' && t.s[j] <= '9' {
		j++
	}
	id, err := strconv.Atoi(t.s[i:j])
	if err != nil || id >= len(p.a.fl.Nodes) || p.a.fl.Nodes[id].Blk == nil {
		return true
	}
	return l.body[p.a.fl.Nodes[id].Blk]
}

// varies: the term may differ from one turn of the loop to the next.
func (p *printer) varies(l *tinst, t *Term) bool {
	in := func(id string) bool {
		if i := strings.Index(id, ":"); i >= 0 {
			id = id[:i]
		}
		x := p.loopOf(id)
		return x == nil || x == l || l.body[x.h]
	}
	return p.a.mentions(t, func(x *Term) bool {
		switch x.op {
		case "ctr", "mu", "loop", "done":
			return in(x.s)
		case "each", "more", "rkey", "rval":
			return true
		case "ext", "dyn", "obj":
			return p.madeIn(l, x)
		}
		return false
	})
}

// mentions1: t is a sum with x once.
func (a *termAn) mentions1(t, x *Term) bool {
	n := 0
	for _, y := range t.a {
		if y == x {
			n++
		} else if a.mentions(y, func(z *Term) bool { return z == x }) {
			return false
		}
	}
	return n == 1
}

// loopText shows the effects of the iterations of a loop.
func (p *printer) loopText(t *Term) string {
	s, c := p.loopBody(t)
	if len(c) > 0 {
		s = "for(once: " + s + " if " + p.showConj(c) + ")"
	}
	return s
}

func (p *printer) loopBody(t *Term) (string, cube) {
	k := p.place("L", t)
	if x, ok := p.bodies[k]; ok {
		return x.s, x.c
	}
	s, c := p.loopBody1(t)
	p.bodies[k] = bodyText{s, c}
	return s, c
}

func (p *printer) loopBody1(t *Term) (string, cube) {
	l := p.loopOf(t.s)
	bound := p.bound(l)
	p.open = append(p.open, l)
	defer func() { p.open = p.open[:len(p.open)-1] }()
	g := p.group(l, func(add func(string, map[int]bool, cube)) {
		for _, it := range l.iters {
			if x := p.effects(it.eff); len(x) == 1 && (x[0].op == "loop" || x[0].op == "done") {
				if s, c := p.loopBody(x[0]); s != "" {
					add(s, it.lits, c)
				}
			} else if s := p.effs(it.eff); s != "" {
				add(s, it.lits, nil)
			}
		}
	})
	if len(g) == 0 {
		return "", nil
	}
	body, c := p.hoist(l, g)
	return "for(" + bound + ": " + body + ")", c
}

// local: made by the function itself.
func (p *printer) local(t *Term) bool {
	if t.op == "mu" {
		i := strings.Index(t.s, ":")
		v := p.loopOf(t.s[:i]).vars[t.s[i+1:]]
		if v == nil {
			return false
		}
		for _, st := range v.steps {
			if st.t != t {
				return false
			}
		}
		for _, x := range v.inits {
			if !p.local(x) {
				return false
			}
		}
		return len(v.inits) > 0
	}
	return t.op == "obj"
}

// overwrites: what x does to an entry of a map or list makes t do nothing.
func overwrites(x, t *Term) bool {
	return (x.op == "set" && len(x.a) == 3 || x.op == "del") && (t.op == "set" && len(t.a) == 3 || t.op == "del") &&
		x.s == "" && t.s == "" && x.a[0] == t.a[0] && x.a[1] == t.a[1]
}

// effects gives the effects that can show.
func (p *printer) effects(l []*Term) []*Term {
	var out []*Term
	for i, t := range l {
		switch t.op {
		case "set", "del":
			if i+1 < len(l) && overwrites(l[i+1], t) {
				continue
			}
			if p.quiet && p.local(t.a[0]) {
				continue
			}
		case "loop", "done":
			if p.loopText(t) == "" {
				continue
			}
		}
		out = append(out, t)
	}
	return out
}

func (p *printer) effs(l []*Term) string {
	var s []string
	// the order of changes to different places does not matter
	from, places := 0, map[string]bool{}
	flush := func() {
		sort.Strings(s[from:])
		from, places = len(s), map[string]bool{}
	}
	for _, t := range p.effects(l) {
		x := ""
		if t.op == "set" {
			at := t.s
			if len(t.a) == 3 {
				at = "[]"
			}
			if places[at] {
				flush()
			}
			places[at] = true
		} else if t.op != "file" {
			flush()
		}
		if t.op == "ext" || t.op == "dyn" {
			x = p.extCall(t)
		} else {
			x = p.t(t)
		}
		if x != "" {
			s = append(s, x)
		}
		if t.op != "set" && t.op != "file" {
			from = len(s)
		}
	}
	flush()
	return strings.Join(s, ", ")
}

// early: a loop that can be left before its end.
func (p *printer) early(l *tinst) bool {
	for _, x := range l.exits {
		if p.a.onlyBound(l, x.lits) {
			continue
		}
		// a failure that is passed on is no end of its own
		failed := false
		for id, v := range x.lits {
			if !v && p.a.tt.all[id].op == "ok" {
				failed = true
			}
		}
		if !failed {
			return true
		}
	}
	return false
}

// summary groups the ways out.
func (a *termAn) summary() ([]sumCase, map[string]string) {
	p := a.printer()
	type acc struct {
		kind, text string
		dnf        []cube
		at         string
	}
	var l []*acc
	at := ""
	add := func(kind, text string, lits cube) {
		for _, x := range l {
			if x.kind == kind && x.text == text {
				x.dnf = append(x.dnf, lits)
				if !strings.Contains(x.at+" ", at+" ") {
					x.at += " " + at
				}
				return
			}
		}
		l = append(l, &acc{kind, text, []cube{lits}, at})
	}
	res := a.fl.Fn.Signature.Results()
	hasErr := res.Len() > 0 && isErrorType(res.At(res.Len()-1).Type())
	var errs []cube
	for _, o := range a.split(a.outs) {
		at = a.w.pos(o.pos)
		if p.num != nil {
			p.num = nil
			p.forget()
		}
		o.eff = p.settle(o.eff)
		p.tell(o)
		lits, ok := p.conds(nil, o.lits)
		if !ok {
			continue
		}
		if hasErr && !o.panic && o.res[len(o.res)-1].op != "nil" && a.failed(o) {
			if !a.files {
				errs = append(errs, lits)
			}
			continue // a failure that is passed on
		}
		for _, e := range o.eff {
			if e.op == "done" {
				if lp := p.loopOf(e.s); p.early(lp) {
					lits["all("+p.bound(lp)+")"] = 2
				}
			}
		}
		eff := ""
		if !(hasErr && !o.panic && o.res[len(o.res)-1].op == "error") {
			eff = p.effs(o.eff)
		}
		do := func(s string) string {
			if eff != "" {
				return s + " do " + eff
			}
			return s
		}
		if o.panic {
			add("panic", do(""), lits)
			continue
		}
		vals := o.res
		var er *Term
		if hasErr {
			er, vals = vals[len(vals)-1], vals[:len(vals)-1]
		}
		switch {
		case er == nil || er.op == "nil":
			add("return", do(p.all(vals, ", ")), lits)
		case er.op == "err":
			ok := a.mk("ok", "", er.a[0])
			known, isKnown := o.lits[ok.id]
			if !isKnown || known {
				add("return", do(p.all(vals, ", ")), lits)
			}
		case er.op == "error":
			add("error", do(""), lits)
			errs = append(errs, lits)
		default:
			add("error", do(p.t(er)), lits)
		}
	}
	var out []sumCase
	for _, x := range l {
		var dc []cube
		if x.kind == "return" {
			dc = errs
		}
		pr := p.simplify(x.dnf, dc)
		var d []string
		for _, c := range pr {
			d = append(d, p.showConj(c))
		}
		sort.Strings(d)
		out = append(out, sumCase{x.kind, x.text, d, x.at})
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].kind != out[j].kind {
			return out[i].kind > out[j].kind
		}
		return out[i].text < out[j].text
	})
	// only the names that are used
	used := map[string]string{}
	var use func(s string)
	use = func(s string) {
		for n, d := range p.where {
			if _, ok := used[n]; !ok && strings.Contains(s, n) {
				used[n] = d
				use(d)
			}
		}
	}
	for _, o := range out {
		use(o.text)
		for _, d := range o.dnf {
			use(d)
		}
	}
	return out, used
}

// split turns outcomes whose results are conditions into one for each answer.
func (a *termAn) split(l []outcome) []outcome {
	var out []outcome
	for _, o := range l {
		again := false
		for i, r := range o.res {
			if r == nil || r.op == "bool" || r.typ == nil {
				continue
			}
			if b, ok := r.typ.Underlying().(*types.Basic); !ok || b.Kind() != types.Bool && b.Kind() != types.UntypedBool {
				continue
			}
			cond, pos := r, true
			if r.op == "not" {
				cond, pos = r.a[0], false
			}
			if cond.op != "lt" && cond.op != "eq" && cond.op != "acc" && cond.op != "mu" {
				continue // what another function answered
			}
			var two []outcome
			for _, v := range []bool{true, false} {
				if old, ok := o.lits[cond.id]; ok && old != v {
					continue
				}
				q := o
				q.res = append([]*Term(nil), o.res...)
				q.res[i] = a.boolT(v == pos)
				q.lits = copyLits(o.lits)
				q.lits[cond.id] = v
				two = append(two, q)
			}
			out = append(out, a.split(two)...)
			again = true
			break
		}
		if !again {
			out = append(out, o)
		}
	}
	return out
}

// failed: the outcome lies behind a failed call.
func (a *termAn) failed(o outcome) bool {
	for id, v := range o.lits {
		if t := a.tt.all[id]; t.op == "ok" && !v {
			return true
		}
	}
	return false
}

func (p *printer) showConj(c cube) string {
	var s []string
	for k, m := range c {
		d := p.doms[k]
		switch {
		case d == nil && m == 2:
			s = append(s, k)
		case d == nil:
			s = append(s, "!"+k)
		default:
			var n []string
			for i, x := range d.names {
				if m>>uint(i)&1 == 1 {
					n = append(n, x)
				}
			}
			s = append(s, k+" is "+strings.Join(n, "|"))
		}
	}
	sort.Strings(s)
	return strings.Join(s, " & ")
}

func (p *printer) showDNF(l []cube) string {
	var s []string
	for _, c := range l {
		s = append(s, p.showConj(c))
	}
	sort.Strings(s)
	return strings.Join(s, " or ")
}

// oneKind says which alternative a predicate of an instance asks for.
type oneKind struct {
	names []string
	idx   int
}

// oneOf: the term asks which of several exclusive parts an instance has.
func (a *termAn) oneOf(t *Term) *oneKind {
	if t.op != "acc" || len(t.a) != 1 || t.a[0].typ == nil {
		return nil
	}
	n := derefNamed(t.a[0].typ)
	if n == nil {
		return nil
	}
	kinds, ok := a.kinds[n]
	if !ok {
		kinds = a.kindsOf(n)
		a.kinds[n] = kinds
	}
	for i, k := range kinds {
		if k == t.s {
			return &oneKind{kinds, i}
		}
	}
	return nil
}

// kindsOf: the predicates of a type whose instances have exactly one part.
func (a *termAn) kindsOf(n *types.Named) []string {
	var im types.Type = types.NewPointer(n)
	if _, ok := n.Underlying().(*types.Interface); ok {
		is := a.w.impls(n)
		if len(is) != 1 {
			return nil
		}
		im = is[0]
	}
	c := derefNamed(im)
	vecs := a.shapes.vecs[c]
	if len(vecs) < 2 || a.shapes.bad[c] != "" {
		return nil
	}
	some := map[*types.Var]bool{}
	for _, v := range vecs {
		for f, x := range v {
			if x == IsNil {
				some[f] = true
			}
		}
	}
	none := false
	for _, v := range vecs {
		k := 0
		for f := range some {
			switch v[f] {
			case NonNil:
				k++
			case IsNil:
			default:
				return nil
			}
		}
		if k > 1 {
			return nil
		}
		none = none || k == 0
	}
	var out []string
	strs := 0
	ms := a.w.Prog.MethodSets.MethodSet(im)
	for i := 0; i < ms.Len(); i++ {
		m := a.w.Prog.MethodValue(ms.At(i))
		if m == nil || m.Synthetic != "" {
			continue
		}
		ac, ok := a.w.accessorOf(m)
		if !ok || !ac.has || len(ac.path) != 1 {
			continue
		}
		if b, str := ac.path[0].Type().Underlying().(*types.Basic); some[ac.path[0]] || none && str && b.Kind() == types.String {
			// a part that is a string is there when it is not empty
			out = append(out, ac.name)
			if !some[ac.path[0]] {
				strs++
			}
		}
	}
	if len(out) != len(some)+strs || none != (strs == 1) {
		return nil
	}
	sort.Strings(out)
	return out
}

// dumpTerms shows the summary of a function.
func (c *Ctx) dumpTerms(fn *ssa.Function) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "== %s\n", short(fn))
	c.files = strings.HasSuffix(fn.Pkg.Pkg.Path(), "infrastructure/files")
	secs, _, err := c.closed(fn, short(fn), nil, 0)
	if err != nil {
		fmt.Fprintf(&sb, "  undecided: %v\n", err)
	}
	for _, s := range secs {
		fmt.Fprintf(&sb, "-- %s\n", s.name)
		for _, l := range s.lines {
			fmt.Fprintf(&sb, "  %s\n", l)
		}
	}
	return sb.String()
}

// foot is what an effect reaches: the tables and structures it is given, and the
// calls it makes or uses the result of.
type foot struct {
	objs  map[int]bool
	uses  map[int]bool
	calls map[int]bool
	ok    bool
}

func (p *printer) footOf(t *Term) foot {
	f := foot{map[int]bool{}, map[int]bool{}, map[int]bool{}, true}
	seen := map[int]bool{}
	var see func(x *Term)
	see = func(x *Term) {
		if seen[x.id] {
			return
		}
		seen[x.id] = true
		switch x.op {
		case "obj":
			f.objs[x.id] = true
		case "ext":
			f.uses[x.id] = true
		case "param":
			if i, err := strconv.Atoi(x.s); err != nil || i >= len(p.a.fl.Fn.Params) || isTable(p.a.fl.Fn.Params[i].Type()) {
				f.objs[x.id] = true
			}
		case "free", "global", "?":
			f.ok = false
		}
		for _, y := range x.a {
			see(y)
		}
	}
	lits := func(l map[int]bool) {
		for id := range l {
			see(p.a.tt.all[id])
		}
	}
	done := map[string]bool{}
	var eff func(l []*Term)
	eff = func(l []*Term) {
		for _, x := range l {
			see(x)
			switch x.op {
			case "ext":
				f.calls[x.id] = true
				g := p.a.heads.by(strings.SplitN(x.s, "@", 2)[0])
				f.ok = f.ok && g != nil && !p.a.heads.unk[g]
			case "set":
				b := x.a[0]
				for b.op == "get" || b.op == "field" {
					b = b.a[0]
				}
				f.ok = f.ok && len(x.a) == 3 && b.op == "obj"
			case "loop", "done":
				it := p.loopOf(x.s)
				f.ok = f.ok && x.op == "done" && !p.early(it)
				if done[x.s] {
					continue
				}
				done[x.s] = true
				for _, l := range append(append([]litSet{}, it.iters...), it.exits...) {
					lits(l.lits)
					eff(l.eff)
				}
				for _, v := range it.vars {
					for _, st := range v.steps {
						see(st.t)
						lits(st.lits)
					}
				}
			default:
				f.ok = false
			}
		}
	}
	eff([]*Term{t})
	return f
}

// apart: neither effect can tell whether the other was there.
func (f foot) apart(g foot) bool {
	meet := func(a, b map[int]bool) bool {
		for x := range a {
			if b[x] {
				return true
			}
		}
		return false
	}
	return f.ok && g.ok && !meet(f.objs, g.objs) && !meet(f.calls, g.uses) && !meet(g.calls, f.uses)
}

// settle puts the effects that have nothing to do with each other in an order
// that does not depend on the one they have in the source.
func (p *printer) settle(l []*Term) []*Term {
	if len(l) < 2 {
		return l
	}
	feet := make([]foot, len(l))
	some := false
	for i, t := range l {
		feet[i] = p.footOf(t)
		for j := 0; j < i; j++ {
			some = some || feet[j].apart(feet[i])
		}
	}
	if !some {
		return l
	}
	text := make([]string, len(l))
	for i, t := range l {
		text[i] = p.effs([]*Term{t})
	}
	var out []*Term
	used := make([]bool, len(l))
	for len(out) < len(l) {
		best := -1
		for i := range l {
			if used[i] {
				continue
			}
			free := true
			for j := 0; j < i; j++ {
				free = free && (used[j] || feet[j].apart(feet[i]))
			}
			if free && (best < 0 || text[i] < text[best]) {
				best = i
			}
		}
		used[best] = true
		out = append(out, l[best])
	}
	return out
}
