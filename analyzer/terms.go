package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file is a guarded value numbering: a path-sensitive dataflow whose
// abstract values are terms over the parameters of an entry point. Loops are
// summarised by what one iteration does (steps, effects and their guards).

// Term is one hash-consed abstract value.
type Term struct {
	id  int
	op  string
	s   string
	a   []*Term
	typ types.Type

	getter bool // of an address: an accessor returns what is there
}

type termTab struct {
	m   map[string]*Term
	all []*Term
}

func (tt *termTab) mk(op, s string, a ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(s)
	for _, x := range a {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(x.id))
	}
	k := sb.String()
	if t, ok := tt.m[k]; ok {
		return t
	}
	t := &Term{id: len(tt.all), op: op, s: s, a: a}
	tt.m[k] = t
	tt.all = append(tt.all, t)
	return t
}

// tstate is the part of a state the term analysis adds.
type tstate struct {
	env    map[int]*Term
	mem    map[string]*Term
	lits   map[int]bool
	eff    []*Term
	frames []*tframe
}

type tframe struct {
	in   *tinst
	lits map[int]bool
	eff  []*Term
	mem  map[string]*Term
	ctrs map[int]*Term
	keep map[int]*Term
	key  string
}

func (s *tstate) clone() *tstate {
	n := &tstate{env: make(map[int]*Term, len(s.env)), mem: make(map[string]*Term, len(s.mem)), lits: make(map[int]bool, len(s.lits)), eff: append([]*Term{}, s.eff...), frames: append([]*tframe{}, s.frames...)}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.lits {
		n.lits[k] = v
	}
	return n
}

func litKey(m map[int]bool) string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%d%v", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func effKey(l []*Term) string {
	var s []string
	for _, t := range l {
		s = append(s, strconv.Itoa(t.id))
	}
	return strings.Join(s, ",")
}

func memKey(m map[string]*Term) string {
	var s []string
	for k, t := range m {
		s = append(s, k+"="+strconv.Itoa(t.id))
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func (s *tstate) key() string {
	var l []string
	for k, t := range s.env {
		l = append(l, strconv.Itoa(k)+"="+strconv.Itoa(t.id))
	}
	sort.Strings(l)
	var f []string
	for _, x := range s.frames {
		f = append(f, x.key)
	}
	return strings.Join(l, ",") + "#" + memKey(s.mem) + "#" + litKey(s.lits) + "#" + effKey(s.eff) + "#" + strings.Join(f, "/")
}

func ctrKey(m map[int]*Term) string {
	var l []string
	for k, t := range m {
		l = append(l, fmt.Sprintf("%d=%d", k, t.id))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

type litSet struct {
	lits map[int]bool
	eff  []*Term
}

type muVar struct {
	h     *tinst
	name  string
	typ   types.Type
	inits []*Term
	steps []muStep
}

type muStep struct {
	t    *Term
	lits map[int]bool
}

type tloop struct {
	h       *Block
	body    map[*Block]bool
	memVar  map[string]bool
	counter map[int]*cnt // phi id -> counter
	ways    int          // out of it
	stride  int64        // the counters all go on by as much, from 0
	parent  *tloop
}

// tinst is a loop entered with given values.
type tinst struct {
	*tloop
	id       string
	vars     map[string]*muVar
	iters    []litSet
	exits    []litSet
	turns    []turn
	leaves   []leave
	turnKeys map[string]bool
	entry    map[int]bool
}

type cnt struct {
	step int64
}

// outcome is one way out of the function.
type outcome struct {
	lits  map[int]bool
	eff   []*Term
	res   []*Term
	panic bool
	pos   token.Pos
	xn    *XNode
}

// termAn analyses one entry point.
type termAn struct {
	w        *World
	e        *effects
	fl       *Flat
	x        *Exploder
	tt       *termTab
	sts      []*tstate
	idx      map[string]int
	loops    map[*Block]*tloop
	insts    map[string]*tinst
	ents     map[types.Object]bool
	kinds    map[*types.Named][]string
	shapes   *ShapeDB
	ikeys    map[string]string
	outs     []outcome
	okey     map[string]bool
	again    bool
	heads    *heads
	filled   map[int]bool            // values of a map that are only absent when they are nil
	same     map[int]map[string]bool // loop variables that keep their first value
	differ   map[int]map[string]bool
	walk     map[int]map[string]bool // loop variables that are what is left of a list
	grow     map[int]map[string]bool // lists that each turn makes longer, by as much
	unstride map[int]bool            // loops whose counters do not start at 0
	longer   map[int]*Term           // how long what was added to them is
	files    bool                    // files hold what is written to them
	amounts  map[int]*Term           // what a call on a file that succeeds returns
	copies   map[int]*copyFact       // loops over files
}

func (c *Ctx) terms(fn *ssa.Function, policy func(*ssa.Function, *Frame) bool) (*termAn, error) {
	return c.termsOf(fn, policy, &heads{})
}

func (c *Ctx) termsOf(fn *ssa.Function, policy func(*ssa.Function, *Frame) bool, hd *heads) (*termAn, error) {
	fl, err := flatten(c.W, fn, policy)
	if err != nil {
		return nil, err
	}
	fl.rotateLoops()
	memVars := map[int]map[string]bool{}
	bs, err := c.builders()
	if err != nil {
		return nil, err
	}
	ents := map[types.Object]bool{}
	for _, b := range bs {
		if b.res != nil {
			ents[b.res.Obj()] = true
		}
	}
	same, differ, walk, grow := map[int]map[string]bool{}, map[int]map[string]bool{}, map[int]map[string]bool{}, map[int]map[string]bool{}
	unstride := map[int]bool{}
	copies := map[int]*copyFact{}
	for round := 0; round < 24; round++ {
		a := &termAn{files: c.files, filled: map[int]bool{}, amounts: map[int]*Term{}, copies: copies, heads: hd, same: same, differ: differ, walk: walk, grow: grow, unstride: unstride, longer: map[int]*Term{}, w: c.W, e: c.effects(), fl: fl, tt: &termTab{m: map[string]*Term{}}, idx: map[string]int{}, loops: map[*Block]*tloop{}, insts: map[string]*tinst{}, ikeys: map[string]string{}, ents: ents, kinds: map[*types.Named][]string{}, shapes: c.Shapes, okey: map[string]bool{}}
		a.findLoops()
		for b, l := range a.loops {
			if m := memVars[b.ID]; m != nil {
				l.memVar = m
			} else {
				memVars[b.ID] = l.memVar
			}
		}
		x := explode(fl, c.Shapes, c.Sums, a)
		a.x = x
		x.AliasInts = true
		x.OnEdge = a.onEdge
		x.OnPhi = a.onPhi
		x.PruneMon = a.prune
		x.Init = func(st *State) {
			st.Mon = a.intern(&tstate{env: map[int]*Term{}, mem: map[string]*Term{}, lits: map[int]bool{}})
		}
		if err := x.Run(); err != nil {
			return nil, err
		}
		if a.again {
			continue
		}
		// variables that no iteration changes have one value, not one per loop
		if a.constVars() {
			continue
		}
		if a.files {
			if a.fileLoops() {
				continue
			}
			if err := a.stretches(); err != nil {
				return nil, err
			}
		}
		return a, nil
	}
	return nil, fmt.Errorf("the loops of %s change memory in a way the analysis cannot summarise", short(fn))
}

// constVars finds loop variables that keep the value they start with.
func (a *termAn) constVars() bool {
	cand := map[int]map[string]bool{}
	found := false
	for _, in := range a.insts {
		for k, v := range in.vars {
			if len(v.steps) == 0 {
				continue
			}
			keep := len(v.inits) == 1
			me := a.mk("mu", in.id+":"+k)
			for _, st := range v.steps {
				if st.t != me && !(len(v.inits) == 1 && st.t == v.inits[0]) {
					keep = false
				}
			}
			b := in.h.ID
			if a.differ[b][k] || a.same[b][k] || a.walk[b][k] || a.grow[b][k] {
				continue
			}
			if k[0] == 'n' && a.grows(in, v, me) > 0 {
				if a.grow[b] == nil {
					a.grow[b] = map[string]bool{}
				}
				a.grow[b][k] = true
				found = true
				continue
			}
			if left(v, me) {
				if a.walk[b] == nil {
					a.walk[b] = map[string]bool{}
				}
				a.walk[b][k] = true
				found = true
				continue
			}
			if cand[b] == nil {
				cand[b] = map[string]bool{}
			}
			if old, ok := cand[b][k]; !ok || old {
				cand[b][k] = keep
			}
		}
	}
	for b, m := range cand {
		for k, keep := range m {
			if keep && k[0] == 'n' {
				if a.same[b] == nil {
					a.same[b] = map[string]bool{}
				}
				a.same[b][k] = true
				found = true
			}
		}
	}
	return found
}

// grows: each turn adds as many elements to the list, and its length says when
// the loop ends; the result is how many.
func (a *termAn) grows(in *tinst, v *muVar, me *Term) int64 {
	if v.typ == nil || !isSlice(v.typ) || len(v.inits) != 1 || len(v.steps) == 0 {
		return 0
	}
	n := int64(0)
	for _, st := range v.steps {
		k := int64(0)
		if st.t.op == "cat" && st.t.a[0] == me {
			k, _ = a.length(a.cat(st.t.a[1:]...)).intVal()
		}
		if k <= 0 || n != 0 && k != n {
			return 0
		}
		n = k
	}
	size := a.length(me)
	for _, x := range in.exits {
		for id := range x.lits {
			if t := a.tt.all[id]; t.op == "lt" && (a.coef(t.a[0], size) != 0 || a.coef(t.a[1], size) != 0) {
				return n
			}
		}
	}
	return 0
}

// left: each step leaves an end of the list it found.
func left(v *muVar, me *Term) bool {
	cut := false
	if v.typ == nil || !isSlice(v.typ) || len(v.inits) != 1 {
		return false
	}
	for _, st := range v.steps {
		switch {
		case st.t == me:
		case st.t.op == "slice" && len(st.t.a) == 2 && st.t.a[0] == me:
			cut = true
		default:
			return false
		}
	}
	return cut
}

// split takes a list apart: what it is an end of, where it begins and ends.
func (a *termAn) splitSlice(t *Term) (base, lo, hi *Term) {
	if t.op != "slice" {
		return t, a.konst(0), nil
	}
	if len(t.a) == 3 {
		hi = t.a[2]
	}
	return t.a[0], t.a[1], hi
}

func (a *termAn) intern(s *tstate) string {
	k := s.key()
	if i, ok := a.idx[k]; ok {
		return strconv.Itoa(i)
	}
	a.idx[k] = len(a.sts)
	a.sts = append(a.sts, s)
	return strconv.Itoa(len(a.sts) - 1)
}

func (a *termAn) get(st *State) *tstate {
	i, _ := strconv.Atoi(st.Mon)
	return a.sts[i].clone()
}

func (a *termAn) peek(st *State) *tstate {
	i, _ := strconv.Atoi(st.Mon)
	return a.sts[i]
}

// findLoops computes the natural loops of the flat form.
func (a *termAn) findLoops() {
	for _, h := range a.fl.Blocks {
		if !h.Header {
			continue
		}
		// blocks reachable from h
		reach := map[*Block]bool{}
		var fw func(b *Block)
		fw = func(b *Block) {
			for _, e := range b.Succs {
				if e.To != nil && !reach[e.To] {
					reach[e.To] = true
					fw(e.To)
				}
			}
		}
		fw(h)
		// h dominates p: p is not reachable from the entry without h
		seen := map[*Block]bool{h: true}
		var un func(b *Block)
		un = func(b *Block) {
			if seen[b] {
				return
			}
			seen[b] = true
			for _, e := range b.Succs {
				if e.To != nil {
					un(e.To)
				}
			}
		}
		un(a.fl.Entry)
		delete(seen, h)
		body := map[*Block]bool{h: true}
		var bw func(b *Block)
		bw = func(b *Block) {
			if body[b] {
				return
			}
			body[b] = true
			for _, p := range b.Preds {
				if reach[p] {
					bw(p)
				}
			}
		}
		for _, p := range h.Preds {
			if reach[p] && !seen[p] {
				bw(p)
			}
		}
		l := &tloop{h: h, body: body, memVar: map[string]bool{}, counter: map[int]*cnt{}}
		for b := range body {
			for _, e := range b.Succs {
				if !body[e.To] {
					l.ways++
				}
			}
		}
		for _, n := range h.Nodes {
			if n.Op != OpPhi {
				break
			}
			if !isInteger(n.T) {
				continue
			}
			step, ok := int64(0), true
			for i, p := range h.Preds {
				if !body[p] {
					continue
				}
				d, good := stepOf(n, n.Args[i], map[*Node]bool{})
				if !good || step != 0 && d != step {
					ok = false
					break
				}
				step = d
			}
			if ok && step != 0 {
				l.counter[n.ID] = &cnt{step}
			}
		}
		for _, c := range l.counter {
			if l.stride != 0 && l.stride != c.step || c.step < 2 || a.unstride[h.ID] {
				l.stride = -1
			} else if l.stride == 0 {
				l.stride = c.step
			}
		}
		a.loops[h] = l
	}
	for _, l := range a.loops {
		for _, m := range a.loops {
			if m != l && m.body[l.h] && (l.parent == nil || l.parent.body[m.h]) {
				l.parent = m
			}
		}
	}
}

// stepOf: v is phi plus a constant on every way.
func stepOf(phi, v *Node, seen map[*Node]bool) (int64, bool) {
	if seen[v] {
		return 0, false
	}
	seen[v] = true
	switch v.Op {
	case OpBin:
		if v.Tok != token.ADD && v.Tok != token.SUB {
			return 0, false
		}
		c := v.Args[1]
		if v.Args[0] != phi {
			if v.Tok == token.SUB || v.Args[1] != phi {
				return 0, false
			}
			c = v.Args[0]
		}
		if c.Op != OpConst || c.Const == nil || c.Const.Kind() != constant.Int {
			return 0, false
		}
		k, ok := constant.Int64Val(c.Const)
		if v.Tok == token.SUB {
			k = -k
		}
		return k, ok && k != 0
	case OpPhi:
		if v == phi {
			return 0, false
		}
		d, have := int64(0), false
		for _, x := range v.Args {
			k, ok := stepOf(phi, x, seen)
			if !ok || have && k != d {
				return 0, false
			}
			d, have = k, true
		}
		return d, have
	}
	return 0, false
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// ---- term constructors

func (a *termAn) mk(op, s string, args ...*Term) *Term { return a.tt.mk(op, s, args...) }

func (a *termAn) konst(v int64) *Term { return a.mk("int", strconv.FormatInt(v, 10)) }

func (t *Term) intVal() (int64, bool) {
	if t.op != "int" {
		return 0, false
	}
	k, err := strconv.ParseInt(t.s, 10, 64)
	return k, err == nil
}

// lin builds a normalised sum.
func (a *termAn) lin(parts ...*Term) *Term {
	co := map[int]int64{}
	k := int64(0)
	var add func(t *Term, f int64)
	add = func(t *Term, f int64) {
		if v, ok := t.intVal(); ok {
			k += f * v
			return
		}
		switch t.op {
		case "+":
			for _, x := range t.a {
				add(x, f)
			}
			return
		case "*":
			if v, ok := t.a[0].intVal(); ok && len(t.a) == 2 {
				add(t.a[1], f*v)
				return
			}
		}
		co[t.id] += f
	}
	for _, p := range parts {
		add(p, 1)
	}
	var ids []int
	for id, c := range co {
		if c != 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	var out []*Term
	for _, id := range ids {
		if c := co[id]; c == 1 {
			out = append(out, a.tt.all[id])
		} else {
			out = append(out, a.mk("*", "", a.konst(c), a.tt.all[id]))
		}
	}
	if k != 0 || len(out) == 0 {
		out = append(out, a.konst(k))
	}
	if len(out) == 1 {
		return out[0]
	}
	return a.mk("+", "", out...)
}

func (a *termAn) times(x, y *Term) *Term {
	if _, ok := y.intVal(); ok {
		x, y = y, x
	}
	if k, ok := x.intVal(); ok {
		if v, ok := y.intVal(); ok {
			return a.konst(k * v)
		}
		if k == 1 {
			return y
		}
		if k == 0 {
			return a.konst(0)
		}
		if y.op == "+" {
			var l []*Term
			for _, z := range y.a {
				l = append(l, a.times(x, z))
			}
			return a.lin(l...)
		}
		if y.op == "*" {
			if v, ok := y.a[0].intVal(); ok {
				return a.times(a.konst(k*v), y.a[1])
			}
		}
		return a.mk("*", "", x, y)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return a.mk("*", "", x, y)
}

func (a *termAn) neg(x *Term) *Term { return a.times(a.konst(-1), x) }

// cat concatenates lists or bytes.
func (a *termAn) cat(parts ...*Term) *Term {
	var l []*Term
	var add func(t *Term)
	add = func(t *Term) {
		switch t.op {
		case "cat":
			for _, x := range t.a {
				add(x)
			}
			return
		case "nil":
			return
		case "list":
			if len(t.a) == 0 {
				return
			}
			if len(l) > 0 && l[len(l)-1].op == "list" {
				l[len(l)-1] = a.mk("list", "", append(append([]*Term{}, l[len(l)-1].a...), t.a...)...)
				return
			}
		case "str":
			if t.s == `""` {
				return
			}
		case "at":
			// writing where what was written ends
			if t.a[0] == a.length(a.mk("cat", "", l...)) {
				return
			}
		case "read":
			if len(l) == 0 {
				break
			}
			if p := l[len(l)-1]; p.op == "read" && p.a[0] == t.a[0] && a.lin(p.a[1], p.a[2]) == t.a[1] {
				l[len(l)-1] = a.mk("read", "", p.a[0], p.a[1], a.lin(p.a[2], t.a[2]))
				return
			}
		}
		l = append(l, t)
	}
	for _, p := range parts {
		add(p)
	}
	if len(l) == 0 {
		return a.mk("list", "")
	}
	if len(l) == 1 {
		return l[0]
	}
	return a.mk("cat", "", l...)
}

func (a *termAn) length(t *Term) *Term {
	switch t.op {
	case "list":
		return a.konst(int64(len(t.a)))
	case "nil":
		return a.konst(0)
	case "str":
		if s, err := strconv.Unquote(t.s); err == nil {
			return a.konst(int64(len(s)))
		}
	case "le64":
		return a.konst(8)
	case "at":
		return a.konst(0)
	case "read":
		return t.a[2]
	case "zeros":
		return t.a[0]
	case "cat":
		var l []*Term
		for _, x := range t.a {
			l = append(l, a.length(x))
		}
		return a.lin(l...)
	case "slice":
		if len(t.a) == 3 {
			return a.lin(t.a[2], a.neg(t.a[1]))
		}
		return a.lin(a.length(t.a[0]), a.neg(t.a[1]))
	case "bytes":
		return a.length(t.a[0])
	}
	if n := a.longer[t.id]; n != nil {
		return n
	}
	return a.mk("len", "", t)
}

func (a *termAn) slice(x, lo, hi *Term) *Term {
	if lo == nil {
		lo = a.konst(0)
	}
	if x.op == "bytes" && len(x.a) == 1 {
		x = x.a[0]
	}
	if x.op == "slice" {
		base := x.a[1]
		if hi == nil && len(x.a) == 3 {
			hi = a.lin(x.a[2], a.neg(base))
		}
		if hi != nil {
			hi = a.lin(base, hi)
		}
		lo = a.lin(base, lo)
		x = x.a[0]
	}
	if k, ok := lo.intVal(); ok && k == 0 && (hi == nil || hi == a.length(x)) {
		return x
	}
	if hi == a.length(x) {
		hi = nil
	}
	if x.op == "cat" {
		// some of the parts it is made of
		from, to, at := -1, len(x.a), a.konst(0)
		for i, y := range x.a {
			if at == lo {
				from = i
			}
			at = a.lin(at, a.length(y))
			if hi != nil && at == hi && to == len(x.a) {
				to = i + 1
			}
		}
		if from >= 0 && (hi == nil || to < len(x.a)) && from < to {
			return a.cat(x.a[from:to]...)
		}
	}
	if hi == nil {
		return a.mk("slice", "", x, lo)
	}
	if k, ok := a.lin(hi, a.neg(lo)).intVal(); ok && k == 1 {
		return a.mk("list", "", a.index(x, lo))
	}
	return a.mk("slice", "", x, lo, hi)
}

func (a *termAn) index(x, i *Term) *Term {
	if x.op == "slice" {
		return a.index(x.a[0], a.lin(x.a[1], i))
	}
	if x.op == "list" {
		if k, ok := i.intVal(); ok && k >= 0 && int(k) < len(x.a) {
			return x.a[k]
		}
		if len(x.a) == 1 {
			return x.a[0]
		}
	}
	return a.mk("idx", "", x, i)
}

func (a *termAn) not(t *Term) *Term {
	switch t.op {
	case "not":
		return t.a[0]
	case "bool":
		if t.s == "true" {
			return a.mk("bool", "false")
		}
		return a.mk("bool", "true")
	}
	return a.mk("not", "", t)
}

func (a *termAn) boolT(b bool) *Term { return a.mk("bool", strconv.FormatBool(b)) }

func nonneg(t *Term) bool {
	switch t.op {
	case "len", "ctr", "n":
		return true
	case "int":
		k, ok := t.intVal()
		return ok && k >= 0
	}
	if t.typ != nil {
		if b, ok := t.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return true
		}
	}
	return false
}

// neverEmpty: the length of a list that its builder refuses empty (C13).
func (a *termAn) neverEmpty(t *Term) bool {
	if t.op != "len" || t.a[0].op != "acc" || len(t.a[0].a) != 1 || t.a[0].a[0].typ == nil || t.a[0].typ == nil {
		return false
	}
	if _, ok := t.a[0].typ.Underlying().(*types.Slice); !ok {
		return false
	}
	n := derefNamed(t.a[0].a[0].typ)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	if filledSpec == nil {
		filledSpec = map[string]bool{}
		for _, sp := range readBuildSpec() {
			for _, v := range sp.value {
				for _, q := range sp.require {
					if q[0] == v[0] && q[1] == "filled" {
						filledSpec[sp.name+"."+v[1]] = true
					}
				}
			}
		}
	}
	name := n.Obj().Name()
	return filledSpec[strings.TrimPrefix(n.Obj().Pkg().Path(), modPath+"/")+"."+strings.ToUpper(name[:1])+name[1:]+"."+t.a[0].s]
}

var filledSpec map[string]bool

func (a *termAn) less(x, y *Term) *Term {
	if k, ok := x.intVal(); ok {
		if v, ok := y.intVal(); ok {
			return a.boolT(k < v)
		}
	}
	if x == y {
		return a.boolT(false)
	}
	if k, ok := x.intVal(); ok && k <= 0 && a.neverEmpty(y) {
		return a.boolT(true)
	}
	if k, ok := y.intVal(); ok && k <= 0 && nonneg(x) {
		return a.boolT(false)
	}
	if k, ok := y.intVal(); ok && k >= 1 && nonneg(x) && x.op != "ctr" {
		return a.not(a.less(a.konst(k-1), x))
	}
	if k, ok := x.intVal(); ok && y.op == "+" {
		min, pos := int64(0), true
		for _, p := range y.a {
			if c, ok := p.intVal(); ok {
				min += c
			} else if !nonneg(p) {
				pos = false
			}
		}
		if pos && k < min {
			return a.boolT(true)
		}
	}
	// move constants to one side: x < y  <=>  x - y < 0
	d := a.lin(y, a.neg(x))
	if k, ok := d.intVal(); ok {
		return a.boolT(k > 0)
	}
	// a counter stands alone
	if d.op == "+" {
		for _, q := range d.a {
			switch {
			case q.op == "ctr":
				return a.not(a.mk("lt", "", q, a.lin(a.neg(d), q, a.konst(1))))
			case q.op == "*" && q.a[1].op == "ctr" && x != q.a[1]:
				if k, ok := q.a[0].intVal(); ok && k == -1 {
					return a.mk("lt", "", q.a[1], a.lin(d, q.a[1]))
				}
			}
		}
	}
	// of sums, what is subtracted goes to the other side: N + k < P, k >= 0
	syms := 0
	for _, q := range d.a {
		if _, ok := q.intVal(); !ok {
			syms++
		}
		if a.mentions(q, func(z *Term) bool { return z.op == "ctr" }) {
			syms = -1000
		}
	}
	if d.op == "+" && syms > 0 {
		flip := false
		if k, ok := d.a[len(d.a)-1].intVal(); ok && k >= 1 {
			flip = true
			d = a.lin(a.konst(1), a.neg(d))
		}
		var pos, neg []*Term
		for _, q := range d.a {
			k, isK := q.intVal()
			if !isK && q.op == "*" {
				k, _ = q.a[0].intVal()
			}
			if k < 0 {
				neg = append(neg, a.neg(q))
			} else {
				pos = append(pos, q)
			}
		}
		x, y = a.lin(neg...), a.lin(pos...)
		if flip {
			return a.not(a.mk("lt", "", x, y))
		}
	}
	return a.mk("lt", "", x, y)
}

// ld64 is the number the first 8 bytes hold.
func (a *termAn) ld64(x *Term) *Term {
	if x.op == "slice" && len(x.a) == 3 {
		x = a.slice(x.a[0], x.a[1], nil)
	}
	return a.mk("ld64", "", x)
}

func (a *termAn) equal(x, y *Term) *Term {
	if x == y {
		return a.boolT(true)
	}
	if x.op == "int" && y.op == "int" || x.op == "str" && y.op == "str" || x.op == "bool" && y.op == "bool" {
		return a.boolT(false)
	}
	if x.op == "bool" {
		x, y = y, x
	}
	if y.op == "bool" {
		if y.s == "true" {
			return x
		}
		return a.not(x)
	}
	if x.op == "nil" {
		x, y = y, x
	}
	if y.op == "nil" {
		switch x.op {
		case "new", "obj", "list", "error", "closure", "fn":
			return a.boolT(false)
		case "err":
			return a.mk("ok", "", x.a[0])
		case "param":
			if i, err := strconv.Atoi(x.s); err == nil && a.heads != nil && a.heads.fresh[a.fl.Fn][i] {
				return a.boolT(false)
			}
		case "get":
			if a.filled[x.id] {
				return a.not(a.mk("has", "", x.a...))
			}
		}
		if h := a.presence(x); h != nil {
			return a.not(h)
		}
	}
	for i := 0; i < 2; i++ {
		if k, ok := y.intVal(); ok && k == 0 {
			if x.op == "call" && x.s == "bytes.Compare" {
				return a.equal(x.a[0], x.a[1])
			}
			if nonneg(x) {
				return a.not(a.less(a.konst(0), x))
			}
		} else if ok && k == 1 && a.neverEmpty(x) {
			return a.not(a.less(y, x))
		}
		x, y = y, x
	}
	if x.id > y.id {
		x, y = y, x
	}
	return a.mk("eq", "", x, y)
}

// atEnd: the condition says that a position in a list is its end; as a position
// is not past the end (C10), it says that it is not before it.
func (a *termAn) atEnd(t *Term) *Term {
	if t.op != "eq" {
		return nil
	}
	d := a.lin(t.a[0], a.neg(t.a[1]))
	if d.op != "+" || len(d.a) != 2 {
		return nil
	}
	for i, q := range d.a {
		if q.op == "*" {
			q = q.a[1]
		}
		o := d.a[1-i]
		if o.op == "*" {
			o = o.a[1]
		}
		if q.op != "len" || o.op != "mu" || a.lin(d, o) != q && a.lin(d, q) != o {
			continue
		}
		for _, z := range a.tt.all {
			if z.op == "slice" && z.a[0] == q.a[0] && z.a[1] == o {
				return a.less(o, q)
			}
		}
	}
	return nil
}

// ---- evaluation

func (a *termAn) node(s *tstate, n *Node) *Term {
	switch n.Op {
	case OpConst:
		if n.Nil {
			return a.mk("nil", "")
		}
		if n.Const == nil {
			return a.zero(n.T)
		}
		switch n.Const.Kind() {
		case constant.Int:
			if b, ok := n.T.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
				return a.mk("float", n.Const.ExactString())
			}
			return a.mk("int", n.Const.ExactString())
		case constant.Bool:
			return a.boolT(constant.BoolVal(n.Const))
		case constant.String:
			return a.mk("str", strconv.Quote(constant.StringVal(n.Const)))
		}
		return a.mk("float", n.Const.ExactString())
	case OpParam:
		t := a.mk("param", strconv.Itoa(n.Idx))
		t.typ = n.T
		return t
	case OpGlobal:
		return a.mk("global", n.Name)
	case OpFunc:
		if n.Builtin != "" {
			return a.mk("fn", n.Builtin)
		}
		return a.mk("fn", short(n.Callee))
	}
	if t, ok := s.env[n.ID]; ok {
		return t
	}
	return a.mk("?", fmt.Sprintf("n%d", n.ID))
}

func (a *termAn) zero(t types.Type) *Term {
	if nilable(t) {
		return a.mk("nil", "")
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return a.boolT(false)
		case u.Info()&types.IsInteger != 0:
			return a.konst(0)
		case u.Info()&types.IsString != 0:
			return a.mk("str", `""`)
		}
	case *types.Struct:
		return a.mk("new", typeName(t))
	}
	return a.mk("zero", typeName(t))
}

func shortPkg(p *types.Package) string { return p.Name() }

// typeName names a type; what a package keeps to itself may have any name.
func typeName(t types.Type) string {
	return privName.ReplaceAllString(types.TypeString(t, shortPkg), "${1}private")
}

var privName = regexp.MustCompile(`\b([a-zA-Z0-9_]+\.)[a-z][a-zA-Z0-9_]*\b`)

var accsOf = map[*types.Named][]accessor{}

// accessors lists the accessors of a struct for one of its own fields.
func (a *termAn) accessors(n *types.Named) []accessor {
	if l, ok := accsOf[n]; ok {
		return l
	}
	var out []accessor
	defer func() { accsOf[n] = out }()
	ms := types.NewMethodSet(types.NewPointer(n))
	for i := 0; i < ms.Len(); i++ {
		m := a.w.Prog.MethodValue(ms.At(i))
		if m == nil || m.Synthetic != "" {
			continue
		}
		if ac, ok := a.w.accessorOf(m); ok && len(ac.path) == 1 {
			out = append(out, ac)
		}
	}
	return out
}

func (a *termAn) getterOf(base types.Type, f *types.Var) string {
	if n := derefNamed(base); n != nil {
		for _, ac := range a.accessors(n) {
			if !ac.has && ac.path[0] == f {
				return ac.name
			}
		}
	}
	return ""
}

// presence: what a part of an instance being there is asked with.
func (a *termAn) presence(x *Term) *Term {
	if x.op != "acc" && x.op != "field" || len(x.a) != 1 || x.a[0].typ == nil {
		return nil
	}
	n := derefNamed(x.a[0].typ)
	if n == nil {
		return nil
	}
	if _, ok := n.Underlying().(*types.Interface); ok {
		is := a.w.impls(n)
		if len(is) != 1 {
			return nil
		}
		if n = derefNamed(is[0]); n == nil {
			return nil
		}
	}
	l := a.accessors(n)
	for _, g := range l {
		if g.has || g.name != x.s {
			continue
		}
		for _, h := range l {
			if h.has && h.path[0] == g.path[0] {
				t := a.mk("acc", h.name, x.a[0])
				if t.typ == nil {
					t.typ = types.Typ[types.Bool]
				}
				return t
			}
		}
	}
	return nil
}

// fieldKey names a field by the accessor that returns it, if there is one.
func (a *termAn) fieldKey(base types.Type, f *types.Var) string {
	n := derefNamed(base)
	if n == nil {
		return f.Name()
	}
	if g := a.getterOf(base, f); g != "" {
		return g
	}
	// by its type when that says which
	if st, ok := n.Underlying().(*types.Struct); ok && !f.Exported() {
		k := 0
		for i := 0; i < st.NumFields(); i++ {
			if g := st.Field(i); types.Identical(g.Type(), f.Type()) && a.w.fieldRead(g) {
				k++
			}
		}
		if k == 1 && a.w.fieldRead(f) {
			return "<" + typeName(f.Type()) + ">"
		}
		if !a.w.fieldRead(f) {
			return "_" + f.Name()
		}
	}
	return f.Name()
}

// fieldRead: some function of the repository reads the field.
func (w *World) fieldRead(f *types.Var) bool {
	if w.reads == nil {
		w.reads = map[*types.Var]bool{}
		for _, fn := range w.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Field:
						if st := structOf(in.X.Type()); st != nil {
							w.reads[st.Field(in.Field)] = true
						}
					case *ssa.FieldAddr:
						st := structOf(in.X.Type())
						if st == nil {
							continue
						}
						for _, r := range *in.Referrers() {
							if s, ok := r.(*ssa.Store); !ok || s.Addr != in {
								w.reads[st.Field(in.Field)] = true
							}
						}
					}
				}
			}
		}
	}
	return w.reads[f]
}

// val is what a value shows when it leaves the function: local records and
// buffers are replaced by their content.
func (a *termAn) val(s *tstate, t *Term) *Term { return a.valD(s, t, 0) }

func (a *termAn) valD(s *tstate, t *Term, d int) *Term {
	if t.op != "obj" || d > 6 {
		return t
	}
	switch t.s[:1] {
	case "s": // struct
		pre := t.s + "."
		var kv []*Term
		for k, v := range s.mem {
			if strings.HasPrefix(k, pre) && !strings.HasPrefix(k[len(pre):], "_") {
				kv = append(kv, a.mk("kv", k[len(pre):], a.valD(s, v, d+1)))
			}
		}
		sort.Slice(kv, func(i, j int) bool { return kv[i].s < kv[j].s })
		return a.mk("new", t.a[0].s, kv...)
	case "b", "c": // buffer, cell
		if v, ok := s.mem[t.s+".*"]; ok {
			return a.valD(s, v, d+1)
		}
		if t.s[:1] == "c" && len(t.a) > 0 {
			return t.a[0]
		}
	case "a": // array
		return a.elems(s, t)
	}
	return t
}

func (a *termAn) elems(s *tstate, t *Term) *Term {
	var l []*Term
	for i := 0; ; i++ {
		v, ok := s.mem[fmt.Sprintf("%s.%d", t.s, i)]
		if !ok {
			break
		}
		l = append(l, a.val(s, v))
	}
	if v, ok := s.mem[t.s+".*"]; ok {
		return v
	}
	return a.mk("list", "", l...)
}

func (a *termAn) clear(s *tstate, obj string) {
	for k := range s.mem {
		if strings.HasPrefix(k, obj+".") {
			delete(s.mem, k)
		}
	}
}

// Step evaluates one node.
func (a *termAn) Step(x *Exploder, xn *XNode, st *State, n *Node) {
	switch n.Op {
	case OpPhi, OpJump, OpIf, OpEnter, OpExit, OpNilCheck, OpTuple, OpDeferReg, OpDeferFlag:
		return
	}
	s := a.get(st)
	a.eval(s, xn, n)
	st.Mon = a.intern(s)
}

func (a *termAn) eval(s *tstate, xn *XNode, n *Node) {
	arg := func(i int) *Term { return a.node(s, n.Args[i]) }
	set := func(t *Term) {
		if t.typ == nil && n.T != nil {
			t.typ = n.T
		}
		s.env[n.ID] = t
	}
	switch n.Op {
	case OpReturn:
		o := outcome{lits: s.lits, eff: s.eff, pos: n.Pos, xn: xn}
		if a.files {
			o.eff = a.filesLeft(s)
		}
		for i, r := range n.Args {
			v := a.val(s, a.node(s, r))
			if v.op == "nil" && isSlice(a.fl.Fn.Signature.Results().At(i).Type()) {
				v = a.mk("list", "") // an empty list, however it is made
			}
			o.res = append(o.res, v)
		}
		a.record(o)
	case OpPanic:
		a.record(outcome{lits: s.lits, eff: s.eff, pos: n.Pos, xn: xn, panic: true})
	case OpAlloc:
		el := n.T.Underlying().(*types.Pointer).Elem()
		var t *Term
		id := strconv.Itoa(n.ID)
		switch el.Underlying().(type) {
		case *types.Array:
			t = a.mk("obj", "a"+id)
			if al, ok := n.Src.(*ssa.Alloc); ok && al.Comment == "makeslice" {
				t = a.mk("obj", "b"+id)
				a.clear(s, t.s)
				s.mem[t.s+".*"] = a.mk("zeros", "", a.konst(el.Underlying().(*types.Array).Len()))
				set(t)
				return
			}
		case *types.Struct:
			t = a.mk("obj", "s"+id, a.mk("type", typeName(el)))
		default:
			t = a.mk("obj", "c"+id, a.zero(el))
		}
		a.clear(s, t.s)
		t.typ = n.T
		set(t)
	case OpLoad:
		set(a.load(s, arg(0), n.T))
	case OpFieldAddr:
		set(a.addr(arg(0), n.Args[0].T, n.Field))
	case OpField:
		b := arg(0)
		k := a.fieldKey(n.Args[0].T, n.Field)
		if b.op == "new" {
			for _, kv := range b.a {
				if kv.s == k {
					set(kv.a[0])
					return
				}
			}
			set(a.zero(n.T))
			return
		}
		set(a.mk("field", k, b))
	case OpIndexAddr:
		t := a.mk("iaddr", "", arg(0), arg(1))
		set(t)
	case OpIndex:
		set(a.index(a.val(s, arg(0)), arg(1)))
	case OpLookup:
		m := arg(0)
		if _, isMap := n.Args[0].T.Underlying().(*types.Map); !isMap {
			set(a.index(m, arg(1)))
			return
		}
		if k := arg(1); k.op == "rkey" && k.a[0] == m {
			set(a.mk("rval", "", m))
			return
		}
		g := a.mk("get", "", m, a.val(s, arg(1)))
		if mt := n.Args[0].T.Underlying().(*types.Map); n.Src != nil && a.w.filled(n.Src.Parent(), mt) {
			if types.Identical(mt.Elem().Underlying(), types.Typ[types.Bool]) {
				set(a.mk("has", "", g.a...))
				return
			}
			a.filled[g.id] = true
		}
		set(g)
	case OpBin:
		set(a.bin(n, a.val(s, arg(0)), a.val(s, arg(1))))
	case OpNot:
		set(a.not(arg(0)))
	case OpUn:
		if n.Tok == token.SUB && isInteger(n.T) {
			set(a.neg(arg(0)))
		} else {
			set(a.mk("un", n.Tok.String(), arg(0)))
		}
	case OpConv:
		set(a.conv(s, n, arg(0)))
	case OpMakeIface, OpChangeIface, OpUnwrap:
		s.env[n.ID] = arg(0)
	case OpTypeAssert:
		set(a.mk("as", typeName(n.T), arg(0)))
	case OpExtract:
		set(a.extract(s, n))
	case OpSlice:
		b := arg(0)
		var lo, hi *Term
		if n.Args[1] != nil {
			lo = arg(1)
		}
		if n.Args[2] != nil {
			hi = arg(2)
		}
		if b.op == "obj" && (lo == nil && hi == nil) {
			if b.s[0] == 'a' {
				set(a.elems(s, b))
			} else {
				s.env[n.ID] = b
			}
			return
		}
		if b.op == "obj" && b.s[0] == 'b' {
			if (lo == nil || lo == a.konst(0)) && hi == a.length(s.mem[b.s+".*"]) {
				s.env[n.ID] = b
				return
			}
			if cur := s.mem[b.s+".*"]; (lo == nil || lo == a.konst(0)) && hi == a.konst(0) && cur.op == "zeros" {
				s.mem[b.s+".*"] = a.mk("list", "") // only a capacity
				s.env[n.ID] = b
				return
			}
			// a window of a local buffer: kept as such for writes
			if lo == nil {
				lo = a.konst(0)
			}
			l := []*Term{b, lo}
			if hi != nil {
				l = append(l, hi)
			}
			set(a.mk("win", "", l...))
			return
		}
		set(a.slice(a.val(s, b), lo, hi))
	case OpMakeSlice:
		t := a.mk("obj", "b"+strconv.Itoa(n.ID))
		a.clear(s, t.s)
		ln := arg(0)
		if k, ok := ln.intVal(); ok && k == 0 {
			s.mem[t.s+".*"] = a.mk("list", "")
		} else {
			s.mem[t.s+".*"] = a.mk("zeros", "", ln)
		}
		set(t)
	case OpMakeMap:
		t := a.mk("obj", "m"+strconv.Itoa(n.ID), a.mk("type", typeName(n.T)))
		set(t)
	case OpMakeClosure:
		set(a.mk("closure", short(n.Callee)))
	case OpRange:
		set(a.mk("range", "", arg(0)))
	case OpNext:
		set(a.mk("next", "", arg(0)))
	case OpStore:
		a.store(s, arg(0), a.node(s, n.Args[1]), n)
	case OpMapUpdate:
		k, v := a.val(s, arg(1)), a.val(s, arg(2))
		m := arg(0)
		s.eff = append(s.eff, a.mk("set", "", m, k, v))
		a.killMap(s, m)
	case OpCall:
		a.call(s, n)
	case OpGo, OpOther:
		s.eff = append(s.eff, a.mk("other", n.Op.String()))
		if n.T != nil {
			set(a.mk("?", fmt.Sprintf("n%d", n.ID)))
		}
	default:
		if n.T != nil {
			set(a.mk("?", fmt.Sprintf("n%d", n.ID)))
		}
	}
}

func (a *termAn) record(o outcome) {
	k := fmt.Sprint(o.pos) + litKey(o.lits) + "#" + effKey(o.eff) + "#" + effKey(o.res)
	if a.okey[k] {
		return
	}
	a.okey[k] = true
	a.outs = append(a.outs, o)
}

func (a *termAn) addr(b *Term, bt types.Type, f *types.Var) *Term {
	t := a.mk("addr", a.fieldKey(bt, f), b)
	t.typ = f.Type()
	t.getter = a.getterOf(bt, f) != ""
	return t
}

func (a *termAn) load(s *tstate, ad *Term, t types.Type) *Term {
	switch ad.op {
	case "obj":
		switch ad.s[0] {
		case 'c':
			if v, ok := s.mem[ad.s+".*"]; ok {
				return v
			}
			return ad.a[0]
		case 's':
			return a.val(s, ad)
		case 'a':
			return a.elems(s, ad)
		}
	case "addr":
		if v, ok := s.mem[a.cell(ad)]; ok {
			return v
		}
		b := ad.a[0]
		if b.op == "obj" && b.s[0] == 's' {
			return a.zero(t)
		}
		if b.op == "new" {
			for _, kv := range b.a {
				if kv.s == ad.s {
					return kv.a[0]
				}
			}
			return a.zero(t)
		}
		op := "field"
		if !(b.op == "param" && b.s == "0") && ad.getter {
			op = "acc" // what its accessor returns
		}
		r := a.mk(op, ad.s, b)
		if r.typ == nil {
			r.typ = t
		}
		return r
	case "iaddr":
		b := ad.a[0]
		if b.op == "obj" && b.s[0] == 'a' {
			if k, ok := ad.a[1].intVal(); ok {
				if v, ok := s.mem[fmt.Sprintf("%s.%d", b.s, k)]; ok {
					return v
				}
			}
			return a.index(a.elems(s, b), ad.a[1])
		}
		if b.op == "win" {
			return a.index(a.slice(a.val(s, b.a[0]), b.a[1], nil), ad.a[1])
		}
		return a.index(a.val(s, b), ad.a[1])
	}
	return ad // the value a pointer shows
}

func (a *termAn) cell(ad *Term) string {
	b := ad.a[0]
	if b.op == "obj" {
		return b.s + "." + ad.s
	}
	return fmt.Sprintf("x%d.%s", b.id, ad.s)
}

func (a *termAn) store(s *tstate, ad, v *Term, n *Node) {
	switch ad.op {
	case "obj":
		if ad.s[0] == 's' {
			// a whole record
			a.clear(s, ad.s)
			r := a.val(s, v)
			if r.op == "new" {
				for _, kv := range r.a {
					s.mem[ad.s+"."+kv.s] = kv.a[0]
				}
			} else if st := structOf(n.Args[0].T); st != nil {
				for i := 0; i < st.NumFields(); i++ {
					k := a.fieldKey(n.Args[0].T, st.Field(i))
					s.mem[ad.s+"."+k] = a.mk("field", k, r)
				}
			}
			return
		}
		s.mem[ad.s+".*"] = v
		return
	case "addr":
		k := a.cell(ad)
		if strings.HasPrefix(k, "x") {
			for m := range s.mem {
				if m != k && strings.HasPrefix(m, "x") && strings.HasSuffix(m, "."+ad.s) {
					delete(s.mem, m)
				}
			}
			r := a.val(s, v)
			s.eff = append(s.eff, a.mk("set", ad.s, ad.a[0], r))
			a.killField(s, ad.s)
			s.mem[k] = v
			return
		}
		s.mem[k] = v
		return
	case "iaddr":
		b := ad.a[0]
		if b.op == "obj" && b.s[0] == 'a' {
			if k, ok := ad.a[1].intVal(); ok {
				s.mem[fmt.Sprintf("%s.%d", b.s, k)] = v
				return
			}
		}
		if b.op == "obj" && b.s[0] == 'b' {
			s.mem[b.s+".*"] = a.putAt(s, b, ad.a[1], a.mk("list", "", a.val(s, v)), true)
			return
		}
		s.eff = append(s.eff, a.mk("set", "", b, ad.a[1], a.val(s, v)))
		return
	}
	s.eff = append(s.eff, a.mk("store", "", ad, a.val(s, v)))
}

// putAt writes what at an offset of a local buffer; elem says it is one element.
func (a *termAn) putAt(s *tstate, b, off, what *Term, elem bool) *Term {
	cur := s.mem[b.s+".*"]
	if cur == nil {
		cur = a.mk("?", "buffer")
	}
	// filled in order by a counter of an enclosing loop
	if elem && off.op == "ctr" && (cur.op == "mu" || cur.op == "zeros") {
		if cur.op == "mu" {
			return a.cat(cur, what)
		}
		return a.cat(a.mk("fill", "", cur), what)
	}
	wl := a.length(what)
	if k, ok := off.intVal(); ok {
		if wn, ok2 := wl.intVal(); ok2 && k >= 0 {
			if r := a.overlay(cur, k, wn, what); r != nil {
				return r
			}
		}
	}
	if off == a.konst(0) && a.length(cur) == wl {
		return what
	}
	return a.mk("put", "", cur, off, what)
}

// overlay replaces [k, k+n) of a buffer made of parts of known length.
func (a *termAn) overlay(cur *Term, k, n int64, what *Term) *Term {
	parts := []*Term{cur}
	if cur.op == "cat" {
		parts = cur.a
	}
	var out []*Term
	pos := int64(0)
	done := false
	for i, p := range parts {
		ln, ok := a.length(p).intVal()
		if !ok {
			if done {
				out = append(out, parts[i:]...)
				return a.cat(out...)
			}
			if p.op == "zeros" && i == len(parts)-1 && k >= pos {
				// zeros of an unknown length that reach the end
				if k > pos {
					out = append(out, a.mk("zeros", "", a.konst(k-pos)))
				}
				out = append(out, what)
				out = append(out, a.mk("zeros", "", a.lin(a.length(p), a.konst(pos-k-n))))
				return a.cat(out...)
			}
			return nil
		}
		if done || pos+ln <= k {
			out = append(out, p)
			pos += ln
			continue
		}
		if k < pos || k+n > pos+ln {
			return nil
		}
		if p.op == "zeros" {
			if k > pos {
				out = append(out, a.mk("zeros", "", a.konst(k-pos)))
			}
			out = append(out, what)
			if k+n < pos+ln {
				out = append(out, a.mk("zeros", "", a.konst(pos+ln-k-n)))
			}
		} else if k == pos && n == ln {
			out = append(out, what)
		} else {
			return nil
		}
		done = true
		pos += ln
	}
	if !done {
		return nil
	}
	return a.cat(out...)
}

func (a *termAn) mentions(t *Term, f func(*Term) bool) bool {
	seen := map[int]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		if f(t) {
			return true
		}
		for _, x := range t.a {
			if w(x) {
				return true
			}
		}
		return false
	}
	return w(t)
}

func (a *termAn) killMap(s *tstate, m *Term) {
	for id := range s.lits {
		if a.mentions(a.tt.all[id], func(t *Term) bool {
			return (t.op == "has" || t.op == "get" || t.op == "len") && sameMap(t.a[0], m)
		}) {
			a.past(s, id)
		}
	}
}

// past keeps what was known before a change as the condition it is, but no
// longer as a fact.
func (a *termAn) past(s *tstate, id int) {
	t := a.tt.all[id]
	if t.op == "was" {
		return
	}
	w := a.mk("was", "", t)
	if _, ok := s.lits[w.id]; !ok {
		s.lits[w.id] = s.lits[id]
	}
	delete(s.lits, id)
}

func sameMap(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op == "obj" && b.op == "obj" {
		return false
	}
	if a.typ != nil && b.typ != nil {
		return types.Identical(a.typ.Underlying(), b.typ.Underlying())
	}
	return true
}

func (a *termAn) killField(s *tstate, f string) {
	for id := range s.lits {
		if a.mentions(a.tt.all[id], func(t *Term) bool { return t.op == "field" && t.s == f }) {
			a.past(s, id)
		}
	}
}

func (a *termAn) bin(n *Node, x, y *Term) *Term {
	switch n.Tok {
	case token.EQL:
		return a.equal(x, y)
	case token.NEQ:
		return a.not(a.equal(x, y))
	case token.LSS:
		return a.less(x, y)
	case token.GTR:
		return a.less(y, x)
	case token.LEQ:
		return a.not(a.less(y, x))
	case token.GEQ:
		return a.not(a.less(x, y))
	}
	if isInteger(n.T) {
		switch n.Tok {
		case token.ADD:
			return a.lin(x, y)
		case token.SUB:
			return a.lin(x, a.neg(y))
		case token.MUL:
			return a.times(x, y)
		}
	}
	if n.Tok == token.ADD {
		if b, ok := n.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return a.cat(x, y)
		}
	}
	return a.mk("bin", n.Tok.String(), x, y)
}

func (a *termAn) conv(s *tstate, n *Node, x *Term) *Term {
	to, from := n.T.Underlying(), n.Args[0].T.Underlying()
	tb, tok := to.(*types.Basic)
	fb, fok := from.(*types.Basic)
	if tok && fok && tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0 {
		if _, isC := x.intVal(); isC {
			return x
		}
		if size(tb) < size(fb) && size(tb) < 8 {
			return a.mk("conv", tb.Name(), x)
		}
		return x
	}
	if tok && tb.Info()&types.IsString != 0 && fok && fb.Info()&types.IsInteger != 0 {
		return a.mk("conv", "string", x)
	}
	if tok && tb.Info()&types.IsInteger != 0 && size(tb) == 8 && x.op == "conv" && x.s == "float64" && x.a[0].op == "len" {
		return x.a[0]
	}
	if tok && fok && (tb.Info()&types.IsFloat != 0) != (fb.Info()&types.IsFloat != 0) {
		return a.mk("conv", tb.Name(), x)
	}
	return x // strings and bytes, named types: the same content
}

func size(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	}
	return 8
}

func (a *termAn) extract(s *tstate, n *Node) *Term {
	src := n.Args[0]
	t := a.node(s, src)
	switch src.Op {
	case OpLookup:
		if n.Idx == 0 {
			return t
		}
		if t.op == "get" || t.op == "has" {
			return a.mk("has", "", t.a...)
		}
	case OpNext:
		switch n.Idx {
		case 0:
			return a.mk("more", "", t.a[0])
		case 1:
			return a.mk("rkey", "", t.a[0].a[0])
		case 2:
			return a.mk("rval", "", t.a[0].a[0])
		}
	case OpTypeAssert:
		if n.Idx == 0 {
			return t
		}
		return a.mk("is", t.s, t.a...)
	}
	if tp, ok := src.T.(*types.Tuple); ok {
		if n.Idx == tp.Len()-1 && isErrorType(tp.At(n.Idx).Type()) {
			if src.Op == OpCall && src.Callee != nil && a.heads.sure[src.Callee] {
				return a.mk("nil", "")
			}
			return a.mk("err", "", t)
		}
		if m := a.amounts[t.id]; m != nil && n.Idx == 0 {
			if s.lits[a.mk("ok", "", t).id] {
				return m
			}
			return a.mk("n", "", t)
		}
		if n.Idx == 0 {
			return t
		}
	}
	return a.mk("res", strconv.Itoa(n.Idx), t)
}

// ---- calls

var pureExt = map[string]bool{
	"fmt": true, "strings": true, "bytes": true, "strconv": true, "math": true, "errors": true, "unicode": true, "unicode/utf8": true,
	"path": true, "path/filepath": true, "encoding/hex": true, "encoding/binary": true, "crypto/sha512": true, "crypto/sha256": true, "sort": false, "time": true, "math/big": true, "slices": true, "math/bits": true,
}

func (a *termAn) call(s *tstate, n *Node) {
	set := func(t *Term) {
		if t.typ == nil && n.T != nil {
			t.typ = n.T
		}
		s.env[n.ID] = t
	}
	raw := make([]*Term, len(n.Args))
	for i := range n.Args {
		raw[i] = a.node(s, n.Args[i])
	}
	v := func(i int) *Term {
		if raw[i].op == "win" {
			w := raw[i]
			var hi *Term
			if len(w.a) > 2 {
				hi = w.a[2]
			}
			return a.slice(a.val(s, w.a[0]), w.a[1], hi)
		}
		return a.val(s, raw[i])
	}
	args := func(from int) []*Term {
		var l []*Term
		for i := from; i < len(raw); i++ {
			l = append(l, v(i))
		}
		return l
	}
	if n.Builtin != "" {
		switch n.Builtin {
		case "len":
			set(a.length(v(0)))
		case "append":
			if len(raw) == 1 {
				set(v(0))
			} else {
				set(a.cat(v(0), v(1)))
			}
		case "copy":
			dst, off := raw[0], a.konst(0)
			if dst.op == "win" {
				dst, off = dst.a[0], dst.a[1]
			}
			if dst.op == "obj" && dst.s[0] == 'b' {
				s.mem[dst.s+".*"] = a.putAt(s, dst, off, v(1), false)
			} else {
				s.eff = append(s.eff, a.mk("copy", "", args(0)...))
			}
			set(a.length(v(1)))
		case "delete":
			s.eff = append(s.eff, a.mk("del", "", raw[0], v(1)))
			a.killMap(s, raw[0])
		default:
			set(a.mk("call", n.Builtin, args(0)...))
		}
		return
	}
	name := ""
	if n.Meth != nil {
		name = n.Meth.Name()
	} else if n.Callee != nil {
		name = n.Callee.Name()
	}
	if n.Name == "dynamic" {
		l := args(0)
		// a function the instance was made with is taken to be a function
		if f := l[0]; f.op == "field" && service(f) {
			set(a.mk("call", f.s, l[1:]...))
			return
		}
		t := a.mk("dyn", strconv.Itoa(n.ID), l...)
		s.eff = append(s.eff, t)
		set(t)
		return
	}
	// builders
	if rt := a.recvType(n); rt != nil && a.isBuilder(rt) {
		switch {
		case name == "Create":
			t := a.mk("obj", "B"+strconv.Itoa(n.ID), a.mk("type", typeName(rt)))
			a.clear(s, t.s)
			set(t)
			return
		case name == "Now":
			b := raw[0]
			if b.op == "obj" && b.s[0] == 'B' {
				var kv []*Term
				for k, x := range s.mem {
					if strings.HasPrefix(k, b.s+".") {
						kv = append(kv, a.mk("kv", k[len(b.s)+1:], a.val(s, x)))
					}
				}
				sort.Slice(kv, func(i, j int) bool { return kv[i].s < kv[j].s })
				set(a.mk("new", b.a[0].s, kv...))
			} else {
				set(a.mk("call", typeName(rt)+".Now", b))
			}
			return
		case len(raw) <= 2 && n.T != nil && types.Identical(n.T, n.Meth.Type().(*types.Signature).Results().At(0).Type()) && derefNamed(n.T) == derefNamed(rt):
			b := raw[0]
			var x *Term
			if len(raw) == 2 {
				x = v(1)
			} else {
				x = a.boolT(true)
			}
			if b.op == "obj" && b.s[0] == 'B' {
				s.mem[b.s+"."+strings.TrimPrefix(name, "With")] = x
			} else {
				s.eff = append(s.eff, a.mk("set", name, b, x))
			}
			s.env[n.ID] = b
			return
		}
	}
	if n.Callee != nil && n.Callee.Pkg != nil && !a.w.inRepo(n.Callee) || n.Callee == nil && n.Meth != nil && !pkgInRepo(n.Meth.Pkg()) {
		a.external(s, n, raw, v, args, set)
		return
	}
	if n.Meth == nil && n.Callee == nil {
		t := a.mk("dyn", strconv.Itoa(n.ID), args(0)...)
		s.eff = append(s.eff, t)
		set(t)
		return
	}
	// repository functions that are not followed
	if n.Callee != nil && n.Callee.Blocks != nil {
		mods := a.w.modset(n.Callee)
		for f := range mods.fields {
			for k := range s.mem {
				if strings.HasPrefix(k, "x") && strings.HasSuffix(k, "."+f.Name()) {
					delete(s.mem, k)
				}
			}
		}
	}
	l := args(0)
	if hn, ok := a.heads.names[n.Callee]; ok && n.Callee != nil {
		var keep []*Term
		for i, x := range l {
			if a.heads.dead[n.Callee][i] || i == 0 && n.Callee.Signature.Recv() != nil && x.op == "param" && x.s == "0" {
				continue
			}
			if x.op == "nil" && a.heads.fresh[n.Callee][i] {
				x = a.mk("obj", "m"+strconv.Itoa(n.ID)+"/"+strconv.Itoa(i), a.mk("type", typeName(n.Callee.Params[i].Type())))
			}
			keep = append(keep, x)
		}
		if a.heads.eff[n.Callee] {
			t := a.mk("ext", hn+"@"+strconv.Itoa(n.ID), keep...)
			s.eff = append(s.eff, t)
			set(t)
		} else {
			set(a.mk("call", hn, keep...))
		}
		if a.heads.sure[n.Callee] && n.Callee.Signature.Results().Len() == 1 {
			s.env[n.ID] = a.mk("nil", "")
		}
		return
	}
	if n.Meth != nil || n.Callee.Signature.Recv() != nil {
		recv := l[0]
		if rt := a.recvType(n); service(recv) && a.isService(rt) {
			q := ""
			if rt != nil {
				q = typeName(rt) + "."
			}
			set(a.mk("call", q+name, l[1:]...))
			return
		}
		set(a.mk("acc", name, l...))
		return
	}
	set(a.mk("call", short(n.Callee), l...))
}

// isService: not an entity that a builder makes.
func (a *termAn) isService(t types.Type) bool {
	n := derefNamed(t)
	if n == nil || a.ents[n.Obj()] {
		return false
	}
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		r := ms.At(i).Type().(*types.Signature).Results()
		if r.Len() > 0 && isErrorType(r.At(r.Len()-1).Type()) {
			return true
		}
	}
	return false
}

// service: the receiver itself or a part of it.
func service(t *Term) bool {
	for t.op == "field" {
		t = t.a[0]
	}
	return t.op == "param" && t.s == "0"
}

func (a *termAn) recvType(n *Node) types.Type {
	if n.Meth != nil {
		if r := n.Meth.Type().(*types.Signature).Recv(); r != nil {
			if n.Src != nil {
				if c, ok := n.Src.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					return c.Common().Value.Type()
				}
			}
			return r.Type()
		}
	}
	if n.Callee != nil && n.Callee.Signature.Recv() != nil {
		return n.Callee.Signature.Recv().Type()
	}
	return nil
}

func (a *termAn) isBuilder(t types.Type) bool {
	n := derefNamed(t)
	if n == nil || !pkgInRepo(n.Obj().Pkg()) {
		return false
	}
	if _, ok := n.Underlying().(*types.Interface); ok {
		return isBuilderIface(n)
	}
	return a.e.kindOf(n) == 'b'
}

func extName(f *ssa.Function, m *types.Func) string {
	if f != nil {
		if o, ok := f.Object().(*types.Func); ok {
			m = o
		}
	}
	if m == nil {
		return f.Name()
	}
	s := m.Name()
	if r := m.Type().(*types.Signature).Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		return typeName(t) + "." + s
	}
	if m.Pkg() != nil {
		s = m.Pkg().Name() + "." + s
	}
	return s
}

func (a *termAn) external(s *tstate, n *Node, raw []*Term, v func(int) *Term, args func(int) []*Term, set func(*Term)) {
	var name, pkg string
	if n.Callee != nil {
		name = n.Callee.String()
		pkg = n.Callee.Pkg.Pkg.Path()
	} else {
		name = n.Meth.FullName()
		if n.Meth.Pkg() != nil {
			pkg = n.Meth.Pkg().Path()
		}
	}
	short := extName(n.Callee, n.Meth)
	switch {
	case name == "errors.New" || name == "fmt.Errorf":
		set(a.mk("error", ""))
		return
	case strings.HasSuffix(name, "littleEndian).Uint64"):
		set(a.ld64(v(1)))
		return
	case strings.HasSuffix(name, "littleEndian).AppendUint64"):
		set(a.cat(v(1), a.mk("le64", "", v(2))))
		return
	case strings.HasSuffix(name, "littleEndian).PutUint64"):
		dst, off := raw[1], a.konst(0)
		if dst.op == "win" {
			dst, off = dst.a[0], dst.a[1]
		}
		if dst.op == "obj" && dst.s[0] == 'b' {
			s.mem[dst.s+".*"] = a.putAt(s, dst, off, a.mk("le64", "", v(2)), false)
			return
		}
		s.eff = append(s.eff, a.mk("set", "le64", args(1)...))
		return
	case name == "crypto/sha512.New":
		t := a.mk("obj", "h"+strconv.Itoa(n.ID))
		a.clear(s, t.s)
		s.mem[t.s+".*"] = a.mk("list", "")
		set(t)
		return
	case name == "crypto/sha512.Sum512":
		set(a.mk("call", "sha512", v(0)))
		return
	case name == "bytes.Equal":
		set(a.equal(v(0), v(1)))
		return
	}
	if len(raw) > 0 && raw[0].op == "obj" && raw[0].s[0] == 'h' {
		k := raw[0].s + ".*"
		switch n.Meth.Name() {
		case "Write":
			s.mem[k] = a.cat(s.mem[k], v(1))
			set(a.mk("call", "hash.Write"))
			return
		case "Sum":
			set(a.cat(v(1), a.mk("call", "sha512", s.mem[k])))
			return
		}
	}
	if name == "(error).Error" {
		set(a.mk("error", ""))
		return
	}
	if pure, known := pureExt[pkg]; a.files && (!known || !pure || name == "time.Now" || name == "errors.Is") && a.fileCall(s, n, raw, v, args, set, name, short) {
		return
	}
	if pure, known := pureExt[pkg]; known && pure && !(name == "time.Now") {
		buf := n.Callee != nil && n.Callee.Signature.Recv() != nil && len(raw) > 0 && (strings.Contains(name, "bytes.Buffer)") || strings.Contains(name, "strings.Builder)"))
		if buf && raw[0].op == "obj" {
			k := raw[0].s + ".*"
			cur, ok := s.mem[k]
			if !ok {
				cur = a.mk("list", "")
			}
			switch n.Callee.Name() {
			case "Write", "WriteString":
				s.mem[k] = a.cat(cur, v(1))
				set(a.mk("call", "buffer.Write"))
				return
			case "WriteByte":
				s.mem[k] = a.cat(cur, a.mk("list", "", v(1)))
				set(a.mk("call", "buffer.Write"))
				return
			case "Bytes", "String":
				set(cur)
				return
			case "Len":
				set(a.length(cur))
				return
			}
		}
		set(a.mk("call", short, args(0)...))
		return
	}
	t := a.mk("ext", short+"@"+strconv.Itoa(n.ID), args(0)...)
	s.eff = append(s.eff, t)
	for i := range raw {
		o := raw[i]
		if o.op == "win" {
			o = o.a[0]
		}
		if o.op == "obj" && o.s[0] == 'b' {
			s.mem[o.s+".*"] = a.mk("out", strconv.Itoa(i), t)
		}
	}
	if n.T != nil {
		set(t)
	}
}

// ---- edges

func (a *termAn) onEdge(xn *XNode, st *State, cond *Node, out bool) {
	if cond == nil {
		return
	}
	s := a.get(st)
	t := a.node(s, cond)
	if cond.Op == OpDeferFlag {
		return
	}
	for t.op == "not" {
		t, out = t.a[0], !out
	}
	if t.op == "bool" {
		if (t.s == "true") != out {
			a.x.Drop = true
		}
		return
	}
	if v, ok := s.lits[t.id]; ok {
		if v != out {
			a.x.Drop = true
		}
		return
	}
	if o := a.oneOf(t); o != nil {
		left := len(o.names)
		for i, k := range o.names {
			v, ok := s.lits[a.mk("acc", k, t.a[0]).id]
			if i == o.idx && !ok {
				v, ok = out, true
			}
			if ok && !v {
				left--
			} else if ok && v && i != o.idx && out {
				left = 0
				break
			}
		}
		if left <= 0 {
			a.x.Drop = true
			return
		}
	}
	if !a.learnOrder(s, t, out) {
		a.x.Drop = true
		return
	}
	t, out = a.sole(s, t, out)
	if a.files && !a.learnOK(s, t, out) {
		a.x.Drop = true
		return
	}
	s.lits[t.id] = out
	if len(s.frames) > 0 {
		// the counter of a loop with greater steps only has some values
		if l := s.frames[len(s.frames)-1].in; l.stride > 1 {
			if run, ok := a.boundLit(l, t); ok && run == out {
				at := a.equal(a.mk("bin", "%", a.mk("ctr", l.id), a.konst(l.stride)), a.konst(0))
				s.lits[at.id] = true
			}
		}
	}
	st.Mon = a.intern(s)
}

// sole: of a number in a known range, that it is the least or the greatest in it
// is said by a comparison.
func (a *termAn) sole(s *tstate, t *Term, out bool) (*Term, bool) {
	if t.op != "eq" {
		return t, out
	}
	for i := range t.a {
		k, ok := t.a[i].intVal()
		x := t.a[1-i]
		if !ok || x.op == "int" {
			continue
		}
		known := func(c *Term) (bool, bool) {
			v := true
			for c.op == "not" {
				c, v = c.a[0], !v
			}
			w, ok := s.lits[c.id]
			return w == v, ok
		}
		flip := func(c *Term, v bool) (*Term, bool) {
			for c.op == "not" {
				c, v = c.a[0], !v
			}
			return c, v
		}
		lo, hi := a.less(a.konst(k-1), x), a.less(a.konst(k), x)
		if v, ok := known(lo); ok && v {
			return flip(hi, !out)
		}
		if v, ok := known(hi); ok && !v {
			return flip(lo, out)
		}
	}
	return t, out
}

// learnOrder rejects comparisons that contradict the known ones.
func (a *termAn) learnOrder(s *tstate, t *Term, out bool) bool {
	if t.op != "lt" {
		return true
	}
	// 0 < x known and x < 1 asked, or the same difference with the other sign
	x, y := t.a[0], t.a[1]
	if out {
		if r := a.mk("lt", "", y, x); s.lits[r.id] {
			return false
		}
	}
	return true
}

func (a *termAn) onPhi(xn *XNode, st *State, e Edge) {
	s := a.get(st)
	type asg struct {
		n *Node
		t *Term
	}
	var as []asg
	for _, n := range e.To.Nodes {
		if n.Op != OpPhi {
			break
		}
		as = append(as, asg{n, a.node(s, n.Args[e.Pred])})
	}
	// loops that are left
	for len(s.frames) > 0 {
		f := s.frames[len(s.frames)-1]
		l := f.in
		if l.body[e.To] {
			break
		}
		it := diffLits(s.lits, f.lits)
		l.addExit(litSet{it, s.eff})
		if a.files && a.leaveCopy(s, f, it, func(g func(*Term) *Term) {
			for i := range as {
				as[i].t = g(as[i].t)
			}
		}) {
			s.frames = s.frames[:len(s.frames)-1]
			continue
		}
		if a.onlyBound(l, it) && len(s.eff) == 0 {
			a.finish(s, l, it)
			for i := range as {
				as[i].t = a.node(s, as[i].n.Args[e.Pred])
			}
			s.lits = copyLits(f.lits)
			if len(s.frames) > 1 && l.ways > 1 {
				s.lits[a.mk("past", l.id).id] = true
			}
			s.eff = append(append([]*Term{}, f.eff...), a.mk("done", l.id))
		} else {
			s.eff = append(append(append([]*Term{}, f.eff...), a.mk("loop", l.id)), s.eff...)
		}
		s.frames = s.frames[:len(s.frames)-1]
		for k := range a.grow[l.h.ID] {
			id, err := strconv.Atoi(k[1:])
			if err != nil || f.keep[id] == nil {
				continue
			}
			// behind a loop, a list has a length of its own
			x, y := f.keep[id], a.mk("mu", l.id+":"+k)
			done := map[*Term]*Term{}
			for id, t := range s.env {
				s.env[id] = a.swap(t, x, y, done)
			}
			for id, t := range s.mem {
				s.mem[id] = a.swap(t, x, y, done)
			}
			for i := range as {
				as[i].t = a.swap(as[i].t, x, y, done)
			}
		}
	}
	if l := a.loops[e.To]; l != nil {
		if l.body[xn.B] {
			a.backEdge(s, s.frames[len(s.frames)-1].in, xn, e, func(f func(*Node, *Term)) {
				for _, x := range as {
					f(x.n, x.t)
				}
			})
		} else {
			var vals []*Term
			for _, x := range as {
				vals = append(vals, x.t)
			}
			in := a.instance(s, l, vals)
			in.enters(s.lits)
			ctrs, keep := map[int]*Term{}, map[int]*Term{}
			for _, x := range as {
				if c := l.counter[x.n.ID]; c != nil {
					ctr := a.mk("ctr", in.id)
					step := c.step
					if l.stride > 1 {
						step = 1
						if k, ok := x.t.intVal(); !ok || k != 0 {
							a.unstride[l.h.ID] = true
							a.again = true
						}
					}
					s.env[x.n.ID] = a.lin(x.t, a.times(a.konst(step), ctr))
					ctrs[x.n.ID] = s.env[x.n.ID]
					continue
				}
				k := "n" + strconv.Itoa(x.n.ID)
				if a.same[l.h.ID][k] {
					s.env[x.n.ID] = x.t
					keep[x.n.ID] = x.t
					continue
				}
				if a.walk[l.h.ID][k] {
					base, lo, hi := a.splitSlice(a.val(s, x.t))
					in.mu("o"+k, types.Typ[types.Int]).addInit(lo)
					at := a.mk("mu", in.id+":o"+k)
					at.typ = types.Typ[types.Int]
					s.env[x.n.ID] = a.slice(base, at, hi)
					keep[x.n.ID] = s.env[x.n.ID]
					continue
				}
				if a.grow[l.h.ID][k] {
					in.mu("g"+k, x.n.T).addInit(a.mk("list", ""))
					in.mu(k, x.n.T).addInit(a.val(s, x.t))
					a.mk("mu", in.id+":"+k).typ = x.n.T
					g := a.mk("mu", in.id+":g"+k)
					g.typ = x.n.T
					a.longer[g.id] = a.mk("ctr", in.id)
					s.env[x.n.ID] = a.cat(a.val(s, x.t), g)
					keep[x.n.ID] = s.env[x.n.ID]
					continue
				}
				if fact := a.copies[l.h.ID]; fact != nil && fact.lin[k] != 0 {
					list := s.mem[fact.list]
					for _, y := range as {
						if fact.list == "n"+strconv.Itoa(y.n.ID) {
							list = a.val(s, y.t)
						}
					}
					keep[x.n.ID] = a.follows(a.val(s, x.t), fact.lin[k], in.muTerm(a, fact.list), list)
					s.env[x.n.ID] = keep[x.n.ID]
					continue
				}
				mv := in.mu(k, x.n.T)
				mv.addInit(a.val(s, x.t))
				t := a.mk("mu", in.id+":"+k)
				t.typ = x.n.T
				s.env[x.n.ID] = t
			}
			for k := range l.memVar {
				init, ok := s.mem[k]
				if !ok {
					init = a.defaultMem(k)
				}
				if init == nil {
					continue
				}
				in.mu(k, nil).addInit(init)
				s.mem[k] = a.mk("mu", in.id+":"+k)
			}
			f := &tframe{in: in, lits: copyLits(s.lits), eff: s.eff, mem: copyMem(s.mem), ctrs: ctrs, keep: keep}
			f.key = fmt.Sprintf("%s{%s}{%s}{%s}%v%v", in.id, litKey(f.lits), effKey(f.eff), memKey(f.mem), ctrKey(ctrs), ctrKey(keep))
			s.frames = append(s.frames, f)
			s.eff = nil
		}
		st.Mon = a.intern(s)
		return
	}
	for _, x := range as {
		s.env[x.n.ID] = x.t
	}
	st.Mon = a.intern(s)
}

// swap puts y in the place of x, also where it is the start of a list.
func (a *termAn) swap(t, x, y *Term, done map[*Term]*Term) *Term {
	if t == x {
		return y
	}
	if len(t.a) == 0 {
		return t
	}
	if r, ok := done[t]; ok {
		return r
	}
	l, same := make([]*Term, len(t.a)), true
	for i, z := range t.a {
		l[i] = a.swap(z, x, y, done)
		same = same && l[i] == z
	}
	r := t
	if rest, ok := after(x, t); ok {
		l = []*Term{y}
		for _, z := range rest {
			l = append(l, a.swap(z, x, y, done))
		}
		r = a.cat(l...)
	} else if !same {
		r = a.mk(t.op, t.s, l...)
		if r.typ == nil {
			r.typ = t.typ
		}
	}
	done[t] = r
	return r
}

// instance names a loop entered with the current values.
func (a *termAn) instance(s *tstate, l *tloop, vals []*Term) *tinst {
	var keep []string
	for id, t := range s.env {
		if a.x.isLive(l.h, id) {
			keep = append(keep, strconv.Itoa(id)+"="+strconv.Itoa(t.id))
		}
	}
	sort.Strings(keep)
	k := fmt.Sprintf("%d|%s|%s|%s", l.h.ID, strings.Join(keep, ","), effKey(vals), memKey(s.mem))
	id, ok := a.ikeys[k]
	if !ok {
		id = fmt.Sprintf("%d.%d", l.h.ID, len(a.insts))
		a.ikeys[k] = id
		a.insts[id] = &tinst{tloop: l, id: id, vars: map[string]*muVar{}}
	}
	return a.insts[id]
}

// finish replaces the counter of a loop that went through its whole range.
func (a *termAn) finish(s *tstate, l *tinst, lits map[int]bool) {
	ctr := a.mk("ctr", l.id)
	var end *Term
	for id := range lits {
		t := a.tt.all[id]
		if t.op == "lt" && t.a[0] == ctr && nonneg(t.a[1]) {
			end = t.a[1]
		}
	}
	if end == nil || l.stride > 1 {
		return
	}
	for id, t := range s.env {
		s.env[id] = a.subst(t, ctr, end)
	}
	for k, t := range s.mem {
		s.mem[k] = a.subst(t, ctr, end)
	}
}

// subst replaces a part of sums.
func (a *termAn) subst(t, x, y *Term) *Term {
	if t == x {
		return y
	}
	if t.op == "+" {
		var l []*Term
		for _, z := range t.a {
			l = append(l, a.subst(z, x, y))
		}
		return a.lin(l...)
	}
	if t.op == "*" {
		return a.times(a.subst(t.a[0], x, y), a.subst(t.a[1], x, y))
	}
	return t
}

func (a *termAn) defaultMem(k string) *Term {
	if k[0] != 'x' {
		return nil
	}
	i := strings.Index(k, ".")
	id, err := strconv.Atoi(k[1:i])
	if err != nil || id >= len(a.tt.all) {
		return nil
	}
	return a.mk("field", k[i+1:], a.tt.all[id])
}

func (a *termAn) backEdge(s *tstate, l *tinst, xn *XNode, e Edge, phis func(func(*Node, *Term))) {
	f := s.frames[len(s.frames)-1]
	it := diffLits(s.lits, f.lits)
	l.addIter(litSet{it, s.eff})
	env := map[int]*Term{}
	tn, follow := turn{map[string]*Term{}, it}, map[string][2]*Term{}
	phis(func(n *Node, t *Term) {
		if c := l.counter[n.ID]; c != nil {
			env[n.ID] = f.ctrs[n.ID]
			return
		}
		k := "n" + strconv.Itoa(n.ID)
		if a.same[l.h.ID][k] {
			if old := f.keep[n.ID]; old == nil || a.val(s, t) != a.val(s, old) {
				delete(a.same[l.h.ID], k)
				if a.differ[l.h.ID] == nil {
					a.differ[l.h.ID] = map[string]bool{}
				}
				a.differ[l.h.ID][k] = true
				a.again = true
			}
			env[n.ID] = f.keep[n.ID]
			return
		}
		if a.walk[l.h.ID][k] {
			env[n.ID] = f.keep[n.ID]
			base, _, hi := a.splitSlice(f.keep[n.ID])
			b2, lo, h2 := a.splitSlice(a.val(s, t))
			if b2 == base && h2 == hi {
				l.mu("o"+k, types.Typ[types.Int]).addStep(lo, it)
				return
			}
			delete(a.walk[l.h.ID], k)
			if a.differ[l.h.ID] == nil {
				a.differ[l.h.ID] = map[string]bool{}
			}
			a.differ[l.h.ID][k] = true
			a.again = true
			return
		}
		if a.grow[l.h.ID][k] {
			old := f.keep[n.ID]
			env[n.ID] = old
			if rest, ok := after(old, a.val(s, t)); ok {
				if c, ok := a.length(a.cat(rest...)).intVal(); ok && c > 0 {
					g, m := a.mk("mu", l.id+":g"+k), a.mk("mu", l.id+":"+k)
					l.mu("g"+k, n.T).addStep(a.cat(append([]*Term{g}, rest...)...), it)
					l.mu(k, n.T).addStep(a.swap(a.val(s, t), old, m, map[*Term]*Term{}), it)
					if c == 1 {
						return
					}
				}
			}
			delete(a.grow[l.h.ID], k)
			if a.differ[l.h.ID] == nil {
				a.differ[l.h.ID] = map[string]bool{}
			}
			a.differ[l.h.ID][k] = true
			a.again = true
			return
		}
		if fact := a.copies[l.h.ID]; fact != nil && fact.lin[k] != 0 {
			env[n.ID] = f.keep[n.ID]
			follow[k] = [2]*Term{f.keep[n.ID], a.val(s, t)}
			return
		}
		l.mu(k, n.T).addStep(a.val(s, t), it)
		tn.vals[k] = a.val(s, t)
		r := a.mk("mu", l.id+":"+k)
		env[n.ID] = r
	})
	for id, t := range env {
		s.env[id] = t
	}
	// memory
	live := a.reach(s, e.To)
	for k, t := range s.mem {
		if k[0] == '#' {
			continue
		}
		if l.memVar[k] {
			l.mu(k, nil).addStep(a.val(s, t), it)
			tn.vals[k] = a.val(s, t)
			continue
		}
		if old, ok := f.mem[k]; ok && old == t {
			continue
		}
		if k[0] != 'x' && k[0] != 'F' && !live[k[:strings.Index(k, ".")]] {
			continue
		}
		l.memVar[k] = true
		a.again = true
	}
	if a.files {
		l.addTurn(tn)
		for k, x := range follow {
			fact := a.copies[l.h.ID]
			mu := l.muTerm(a, fact.list)
			list := tn.vals[fact.list]
			if list == nil {
				list = mu
			}
			grown := a.lin(a.length(list), a.neg(a.length(mu)))
			if x[1] != a.lin(x[0], a.times(a.konst(fact.lin[k]), grown)) {
				a.copies[l.h.ID] = nil
				a.again = true
				break
			}
		}
	}
	s.mem = copyMem(f.mem)
	s.lits = copyLits(f.lits)
	s.eff = nil
}

// reach: the local objects that can still be reached at the entry of b.
func (a *termAn) reach(s *tstate, b *Block) map[string]bool {
	out := map[string]bool{}
	var w func(t *Term)
	seen := map[int]bool{}
	w = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == "obj" && !out[t.s] {
			out[t.s] = true
			for k, v := range s.mem {
				if strings.HasPrefix(k, t.s+".") {
					w(v)
				}
			}
		}
		for _, x := range t.a {
			w(x)
		}
	}
	for id, t := range s.env {
		if a.x.isLive(b, id) {
			w(t)
		}
	}
	for k, v := range s.mem {
		if k[0] == 'x' {
			w(v)
		}
	}
	return out
}

func (a *termAn) prune(b *Block, st *State) {
	s := a.get(st)
	for id := range s.env {
		if !a.x.isLive(b, id) {
			delete(s.env, id)
		}
	}
	live := a.reach(s, b)
	for k := range s.mem {
		if k[0] == 'x' || k[0] == '#' || k[0] == 'F' {
			continue
		}
		if !live[k[:strings.Index(k, ".")]] {
			delete(s.mem, k)
		}
	}
	st.Mon = a.intern(s)
}

func (l *tinst) mu(k string, t types.Type) *muVar {
	v, ok := l.vars[k]
	if !ok {
		v = &muVar{h: l, name: k, typ: t}
		l.vars[k] = v
	}
	return v
}

func (v *muVar) addInit(t *Term) {
	for _, x := range v.inits {
		if x == t {
			return
		}
	}
	v.inits = append(v.inits, t)
}

func (v *muVar) addStep(t *Term, lits map[int]bool) {
	k := litKey(lits)
	for _, x := range v.steps {
		if x.t == t && litKey(x.lits) == k {
			return
		}
	}
	v.steps = append(v.steps, muStep{t, lits})
}

func (l *tinst) addIter(s litSet) { l.iters = addSet(l.iters, s) }
func (l *tinst) addExit(s litSet) { l.exits = addSet(l.exits, s) }

func addSet(l []litSet, s litSet) []litSet {
	k := litKey(s.lits) + "#" + effKey(s.eff)
	for _, x := range l {
		if litKey(x.lits)+"#"+effKey(x.eff) == k {
			return l
		}
	}
	return append(l, s)
}

func diffLits(a, b map[int]bool) map[int]bool {
	out := map[int]bool{}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			out[k] = v
		}
	}
	return out
}

func copyLits(a map[int]bool) map[int]bool {
	out := make(map[int]bool, len(a))
	for k, v := range a {
		out[k] = v
	}
	return out
}

func copyMem(a map[string]*Term) map[string]*Term {
	out := make(map[string]*Term, len(a))
	for k, v := range a {
		out[k] = v
	}
	return out
}

// after gives what t adds to the end of list.
func after(list, t *Term) ([]*Term, bool) {
	if t.op != "cat" {
		return nil, false
	}
	l := []*Term{list}
	if list.op == "cat" {
		l = list.a
	}
	if len(t.a) <= len(l) {
		return nil, false
	}
	for i, x := range l {
		if t.a[i] != x {
			return nil, false
		}
	}
	return t.a[len(l):], true
}

// onlyBound: the literals say no more than that the loop went through its range.
func (a *termAn) onlyBound(l *tinst, lits map[int]bool) bool {
	n := 0
	for id, v := range lits {
		if a.tt.all[id].op == "past" {
			continue
		}
		if run, ok := a.boundLit(l, a.tt.all[id]); ok && v != run {
			n++
			continue
		}
		return false
	}
	return n == 1
}

// boundLit: the condition compares the counter of the loop with something; run
// is its value while the loop goes on.
func (a *termAn) boundLit(l *tinst, t *Term) (run, ok bool) {
	if t.op == "more" {
		return true, true
	}
	if t.op != "lt" {
		return false, false
	}
	ctr := a.mk("ctr", l.id)
	in := func(x *Term) bool { return a.mentions(x, func(y *Term) bool { return y == ctr }) }
	x, y := t.a[0], t.a[1]
	switch c := a.coef(x, ctr); {
	case c != 0 && !in(y):
		return c > 0, true
	case c != 0:
		return false, false
	}
	if c := a.coef(y, ctr); c != 0 && !in(x) {
		return c < 0, true
	}
	return false, false
}

// coef: how a sum changes with one of its parts.
func (a *termAn) coef(t, x *Term) int64 {
	switch {
	case t == x:
		return 1
	case t.op == "*" && len(t.a) == 2 && t.a[1] == x:
		k, _ := t.a[0].intVal()
		return k
	case t.op == "+":
		for _, y := range t.a {
			if c := a.coef(y, x); c != 0 {
				return c
			}
		}
	}
	return 0
}

// filled says that only true, or only what is not nil, is ever put into the maps
// of a type that a package makes and keeps to itself.
func (w *World) filled(in *ssa.Function, m *types.Map) bool {
	if w.filledMaps == nil {
		w.filledMaps = map[string]bool{}
		for _, f := range w.Funcs {
			note := func(t types.Type, full bool) {
				if p, ok := t.(*types.Pointer); ok {
					t = p.Elem()
				}
				if _, ok := t.Underlying().(*types.Map); ok {
					k := pkgOf(f) + " " + t.Underlying().String()
					was, ok := w.filledMaps[k]
					w.filledMaps[k] = full && (was || !ok)
				}
			}
			tuple := func(tu *types.Tuple) {
				for i := 0; i < tu.Len(); i++ {
					note(tu.At(i).Type(), false)
				}
			}
			if f.Parent() == nil && token.IsExported(f.Name()) {
				tuple(f.Signature.Params()) // results are the outside world's to read
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch u := in.(type) {
					case *ssa.MapUpdate:
						full := false
						switch v := u.Value.(type) {
						case *ssa.Const:
							full = v.Value != nil && v.Value.String() == "true"
						case *ssa.MakeMap, *ssa.Alloc:
							full = true
						}
						note(u.Map.Type(), full)
					case ssa.CallInstruction:
						if g := u.Common().StaticCallee(); g == nil || pkgOf(g) != pkgOf(f) {
							if _, ok := u.Common().Value.(*ssa.Builtin); !ok {
								tuple(u.Common().Signature().Params())
								tuple(u.Common().Signature().Results())
							}
						}
					}
				}
			}
		}
	}
	return w.filledMaps[pkgOf(in)+" "+m.String()]
}

func pkgOf(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		return ""
	}
	return f.Pkg.Pkg.Path()
}
