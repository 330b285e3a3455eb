package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Fact is what the path-sensitive dataflow knows about a value.
type Fact uint8

const (
	Unknown Fact = iota
	IsNil
	NonNil
	IsTrue
	IsFalse
)

func (f Fact) String() string { return []string{"?", "nil", "nonnil", "true", "false"}[f] }

// Sym is a symbolic value: the node that defined it, or a negative number for
// tuple slots and unknown memory contents.
type Sym int

const slotBase = 10

func slot(n *Node, i int) Sym { return Sym(-(1000 + n.ID*slotBase + i)) }

func slotNode(s Sym) (id, idx int, ok bool) {
	if s > -1000 {
		return 0, 0, false
	}
	v := int(-s) - 1000
	return v / slotBase, v % slotBase, true
}

// Loc is an abstract memory location.
type Loc struct {
	Base  Sym
	Field *types.Var
	Kind  uint8 // 'f' field, 'c' cell/deref, 'v' map value, 'o' map ok
	Key   Sym
}

// State is one abstract state.
type State struct {
	facts map[Sym]Fact
	alias map[Sym]Sym
	mem   map[Loc]Sym
	fresh map[Sym]bool
	cmp   map[string]bool
	cmpOp map[string][]Sym
	Mon   string
}

func newState() *State {
	return &State{facts: map[Sym]Fact{}, alias: map[Sym]Sym{}, mem: map[Loc]Sym{}, fresh: map[Sym]bool{}, cmp: map[string]bool{}, cmpOp: map[string][]Sym{}}
}

func (s *State) clone() *State {
	n := &State{facts: make(map[Sym]Fact, len(s.facts)), alias: make(map[Sym]Sym, len(s.alias)), mem: make(map[Loc]Sym, len(s.mem)), fresh: make(map[Sym]bool, len(s.fresh)), cmp: make(map[string]bool, len(s.cmp)), cmpOp: make(map[string][]Sym, len(s.cmpOp)), Mon: s.Mon}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.alias {
		n.alias[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.fresh {
		n.fresh[k] = v
	}
	for k, v := range s.cmp {
		n.cmp[k] = v
		n.cmpOp[k] = s.cmpOp[k]
	}
	return n
}

// XNode is a node of the exploded graph: a block entered in a state.
type XNode struct {
	ID     int
	B      *Block
	St     *State // entry state
	Preds  []*XEdge
	Succs  []*XEdge
	Parent *XEdge
}

// XEdge is an edge of the exploded graph.
type XEdge struct {
	From, To *XNode
	// Cond is the branch condition value (resolved node) and its outcome, if any.
	Cond *Node
	Out  bool
	Ins  *insCtx
	// E is the edge of the flow graph that was taken.
	E Edge
	// CondNode is the condition, resolved in the state of the branch.
	CondNode *Node
}

type insCtx struct{ st *State }

// Monitor receives every executed node.
type Monitor interface {
	// Step is called before node n executes in st; it may change st.Mon.
	Step(x *Exploder, xn *XNode, st *State, n *Node)
}

// Exploder runs the path-sensitive dataflow over a flattened entry point.
type Exploder struct {
	W      *World
	Fl     *Flat
	Shapes *ShapeDB
	Sums   *SumDB
	Mon    Monitor
	After  func(xn *XNode, st *State, n *Node)
	// OnEdge is called on the state of an edge before it is pruned.
	OnEdge func(xn *XNode, st *State, cond *Node, out bool)
	// SplitErr makes every opaque call returning an error fork into its
	// failing and its succeeding outcome.
	SplitErr bool
	Nodes    []*XNode
	Root     *XNode
	live     [][]uint64
	future   []map[futKey]bool
	index    map[string]*XNode
	Returns  map[string][]Fact // distinct result vectors
	RetSt    []retRec
	Limit    int
	err      error
	curX     *XNode
	steps    int
	Init     func(st *State)
	NoPhiAl  bool
	// WantField keeps the content of a field although the code does not read it again.
	WantField func(f *types.Var) bool
	// OnPhi is called before the phis of the target of an edge are assigned.
	OnPhi func(xn *XNode, st *State, e Edge)
	// Drop, set by OnEdge, says that the edge cannot be taken.
	Drop bool
	// PruneMon drops from st.Mon what block b does not need.
	PruneMon func(b *Block, st *State)
	// Coarse forgets everything at block boundaries.
	Coarse bool
	// AliasInts makes joins copy integers path-sensitively (bounds rules).
	AliasInts bool
}

type retRec struct {
	xn    *XNode
	n     *Node
	st    *State
	facts []Fact
}

type futKey struct {
	f    *types.Var
	base int
	k    uint8
}

func explode(fl *Flat, sh *ShapeDB, sums *SumDB, mon Monitor) *Exploder {
	x := &Exploder{W: fl.W, Fl: fl, Shapes: sh, Sums: sums, Mon: mon, index: map[string]*XNode{}, Returns: map[string][]Fact{}, Limit: 60000}
	return x
}

func (x *Exploder) Run() error {
	x.liveness()
	st := newState()
	if x.Init != nil {
		x.Init(st)
	}
	x.Root = x.enter(x.Fl.Entry, st, nil)
	for i := 0; i < len(x.Nodes); i++ {
		if x.err != nil {
			return x.err
		}
		if len(x.Nodes) > x.Limit {
			return fmt.Errorf("path-sensitive dataflow of %s exceeds %d states (undecided)", short(x.Fl.Fn), x.Limit)
		}
		x.runBlock(x.Nodes[i])
	}
	return x.err
}

// liveness computes live-in sets and the set of locations read later.
func (x *Exploder) liveness() {
	nn := (len(x.Fl.Nodes) + 63) / 64
	max := 0
	for _, b := range x.Fl.Blocks {
		if b.ID > max {
			max = b.ID
		}
	}
	x.live = make([][]uint64, max+1)
	x.future = make([]map[futKey]bool, max+1)
	for _, b := range x.Fl.Blocks {
		x.live[b.ID] = make([]uint64, nn)
		x.future[b.ID] = map[futKey]bool{}
	}
	uses := func(n *Node) []*Node {
		u := n.Args
		if n.Op == OpDeferFlag || n.Op == OpDeferReg && n.Defer != nil {
			u = append(append([]*Node{}, u...), n.Defer)
		}
		return u
	}
	var addUse func(s []uint64, a *Node)
	addUse = func(s []uint64, a *Node) {
		if a == nil {
			return
		}
		if a.Op == OpTuple {
			for _, y := range a.Args {
				addUse(s, y)
			}
			return
		}
		s[a.ID/64] |= 1 << (a.ID % 64)
	}
	locals := map[*Block]map[futKey]bool{}
	for _, b := range x.Fl.Blocks {
		m := map[futKey]bool{}
		for _, n := range b.Nodes {
			switch n.Op {
			case OpLoad:
				a := n.Args[0]
				switch a.Op {
				case OpFieldAddr:
					m[futKey{f: a.Field, k: 'f'}] = true
				case OpAlloc, OpGlobal, OpParam:
					m[futKey{base: a.ID, k: 'c'}] = true
				default:
					m[futKey{k: 'd'}] = true
				}
			case OpLookup:
				m[futKey{k: 'm'}] = true
			case OpMakeIface, OpReturn, OpCall:
				// shapes of entities are read when they are converted to their interface
				for _, a := range n.Args {
					if a == nil {
						continue
					}
					if st := structOf(a.T); st != nil {
						for i := 0; i < st.NumFields(); i++ {
							m[futKey{f: st.Field(i), k: 'f'}] = true
						}
					}
				}
			}
		}
		locals[b] = m
	}
	changed := true
	tmp := make([]uint64, nn)
	for changed {
		changed = false
		for i := len(x.Fl.Blocks) - 1; i >= 0; i-- {
			b := x.Fl.Blocks[i]
			for k := range tmp {
				tmp[k] = 0
			}
			fut := x.future[b.ID]
			nf := len(fut)
			for k := range locals[b] {
				fut[k] = true
			}
			for _, e := range b.Succs {
				for k, v := range x.live[e.To.ID] {
					tmp[k] |= v
				}
				for _, n := range e.To.Nodes {
					if n.Op != OpPhi {
						break
					}
					tmp[n.ID/64] &^= 1 << (n.ID % 64)
				}
				for _, n := range e.To.Nodes {
					if n.Op != OpPhi {
						break
					}
					addUse(tmp, n.Args[e.Pred])
				}
				for k := range x.future[e.To.ID] {
					fut[k] = true
				}
			}
			for j := len(b.Nodes) - 1; j >= 0; j-- {
				n := b.Nodes[j]
				if n.Op != OpDeferReg || true {
					tmp[n.ID/64] &^= 1 << (n.ID % 64)
				}
				if n.Op == OpPhi {
					// keep the phi live-in: it is assigned on the edge
					tmp[n.ID/64] |= 1 << (n.ID % 64)
					continue
				}
				for _, a := range uses(n) {
					addUse(tmp, a)
				}
			}
			lv := x.live[b.ID]
			for k := range tmp {
				if tmp[k] != lv[k] {
					lv[k] = tmp[k]
					changed = true
				}
			}
			if len(fut) != nf {
				changed = true
			}
		}
	}
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func (x *Exploder) isLive(b *Block, id int) bool {
	return x.live[b.ID][id/64]&(1<<(id%64)) != 0
}

// enter canonicalises st for block b and interns the exploded node.
func (x *Exploder) enter(b *Block, st *State, e *XEdge) *XNode {
	if x.Coarse {
		st = newState()
	}
	x.pruneState(b, st)
	key := x.key(b, st)
	xn, ok := x.index[key]
	if !ok {
		xn = &XNode{ID: len(x.Nodes), B: b, St: st, Parent: e}
		x.Nodes = append(x.Nodes, xn)
		x.index[key] = xn
	}
	if e != nil {
		e.To = xn
		xn.Preds = append(xn.Preds, e)
		e.From.Succs = append(e.From.Succs, e)
	}
	return xn
}

func (x *Exploder) pruneState(b *Block, st *State) {
	need := map[Sym]bool{}
	aliveID := func(id int) bool { return id < len(x.Fl.Nodes) && x.isLive(b, id) }
	for k, v := range st.alias {
		live := false
		if k >= 0 {
			live = aliveID(int(k))
		} else if id, _, ok := slotNode(k); ok {
			live = aliveID(id)
		}
		if !live {
			delete(st.alias, k)
			continue
		}
		need[v] = true
	}
	isNeeded := func(s Sym) bool {
		if need[s] {
			return true
		}
		if s >= 0 {
			n := x.Fl.Nodes[s]
			if n.Op == OpConst || n.Op == OpGlobal || n.Op == OpFunc || n.Op == OpParam && x.WantField != nil {
				return true
			}
			return aliveID(int(s))
		}
		if id, _, ok := slotNode(s); ok {
			return aliveID(id)
		}
		return false
	}
	// live interface wrappers keep what they wrap
	x.wrappers(0)
	for _, id := range wrapIDs {
		if aliveID(id) {
			need[Sym(id)] = true
		}
	}
	fut := x.future[b.ID]
	keep := map[Loc]bool{}
	for {
		ch := false
		// a live MakeIface node keeps its operand
		mark := func(s Sym) {
			for s >= 0 && x.Fl.Nodes[s].Op == OpMakeIface {
				a := x.res(st, x.Fl.Nodes[s].Args[0])
				if need[a] {
					break
				}
				need[a] = true
				ch = true
				s = a
			}
		}
		for s := range need {
			mark(s)
		}
		for l, v := range st.mem {
			if keep[l] {
				continue
			}
			rel := false
			switch l.Kind {
			case 'f':
				rel = fut[futKey{f: l.Field, k: 'f'}] || x.WantField != nil && x.WantField(l.Field)
			case 'c':
				rel = fut[futKey{base: int(l.Base), k: 'c'}] || fut[futKey{k: 'd'}]
			default:
				rel = fut[futKey{k: 'm'}] && isNeededKey(isNeeded, l)
			}
			if rel && (isNeeded(l.Base) || x.wrappedNeeded(st, l.Base, need, aliveID)) {
				keep[l] = true
				ch = true
				if !need[v] {
					need[v] = true
				}
				need[l.Base] = true
			}
		}
		if !ch {
			break
		}
	}
	for l := range st.mem {
		if !keep[l] {
			delete(st.mem, l)
		}
	}
	for s := range st.facts {
		if !isNeeded(s) {
			delete(st.facts, s)
		} else if s >= 0 && x.Fl.Nodes[s].Op == OpConst {
			delete(st.facts, s)
		}
	}
	for s := range st.fresh {
		if !isNeeded(s) && !x.wrappedNeeded(st, s, need, aliveID) {
			delete(st.fresh, s)
		}
	}
	for k, ops := range st.cmpOp {
		for _, o := range ops {
			if !isNeeded(o) {
				delete(st.cmp, k)
				delete(st.cmpOp, k)
				break
			}
		}
	}
	if x.PruneMon != nil {
		x.PruneMon(b, st)
	}
}

func isNeededKey(f func(Sym) bool, l Loc) bool { return f(l.Key) }

// wrappedNeeded: an alloc is needed if a live MakeIface/Unwrap over it is.
func (x *Exploder) wrappedNeeded(st *State, s Sym, need map[Sym]bool, alive func(int) bool) bool {
	if s < 0 {
		return false
	}
	for _, w := range x.wrappers(int(s)) {
		if need[Sym(w)] || alive(w) {
			return true
		}
	}
	return false
}

func (x *Exploder) wrappers(id int) []int {
	if wrapCache == nil || wrapFor != x.Fl {
		wrapCache = map[int][]int{}
		wrapIDs = nil
		wrapFor = x.Fl
		for _, n := range x.Fl.Nodes {
			if n.Op == OpMakeIface {
				a := n.Args[0]
				wrapCache[a.ID] = append(wrapCache[a.ID], n.ID)
				wrapIDs = append(wrapIDs, n.ID)
			}
		}
	}
	return wrapCache[id]
}

var wrapCache map[int][]int
var wrapIDs []int
var wrapFor *Flat

func (x *Exploder) key(b *Block, st *State) string {
	var parts []string
	for k, v := range st.facts {
		parts = append(parts, fmt.Sprintf("f%d=%d", k, v))
	}
	for k, v := range st.alias {
		parts = append(parts, fmt.Sprintf("a%d=%d", k, v))
	}
	for k, v := range st.mem {
		fn := ""
		if k.Field != nil {
			fn = fmt.Sprintf("%s@%d", k.Field.Name(), k.Field.Pos())
		}
		parts = append(parts, fmt.Sprintf("m%d.%s.%c.%d=%d", k.Base, fn, k.Kind, k.Key, v))
	}
	for k := range st.fresh {
		parts = append(parts, fmt.Sprintf("n%d", k))
	}
	for k, v := range st.cmp {
		parts = append(parts, fmt.Sprintf("c%s=%v", k, v))
	}
	sort.Strings(parts)
	return fmt.Sprintf("%d|%s|%s", b.ID, st.Mon, strings.Join(parts, ";"))
}

// res resolves a node to its current symbol.
func (x *Exploder) res(st *State, n *Node) Sym {
	s := Sym(n.ID)
	for i := 0; i < 64; i++ {
		a, ok := st.alias[s]
		if !ok {
			// the alias of a value that is no longer live was pruned
			if m := x.symNode(s); m != nil {
				switch m.Op {
				case OpExtract:
					if a := slot(m.Args[0], m.Idx); a != s {
						s = a
						continue
					}
				case OpChangeIface, OpUnwrap:
					s = Sym(m.Args[0].ID)
					continue
				}
			}
			return s
		}
		s = a
	}
	return s
}

// base strips interface wrapping for memory locations.
func (x *Exploder) base(st *State, s Sym) Sym {
	for s >= 0 && (x.Fl.Nodes[s].Op == OpMakeIface) {
		s = x.res(st, x.Fl.Nodes[s].Args[0])
	}
	return s
}

func (x *Exploder) symNode(s Sym) *Node {
	if s >= 0 && int(s) < len(x.Fl.Nodes) {
		return x.Fl.Nodes[s]
	}
	return nil
}

func (x *Exploder) intrinsic(n *Node) Fact {
	switch n.Op {
	case OpConst:
		if n.Nil {
			return IsNil
		}
		if n.Const != nil && n.Const.Kind() == constant.Bool {
			if constant.BoolVal(n.Const) {
				return IsTrue
			}
			return IsFalse
		}
		if n.Const == nil {
			if bt, ok := n.T.Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
				return IsFalse
			}
		}
		return Unknown
	case OpAlloc, OpMakeIface, OpMakeMap, OpMakeSlice, OpMakeClosure, OpFieldAddr, OpIndexAddr, OpFunc, OpGlobal:
		return NonNil
	case OpSlice:
		if p, ok := n.Args[0].T.Underlying().(*types.Pointer); ok {
			if _, ok := p.Elem().Underlying().(*types.Array); ok {
				return NonNil
			}
		}
	case OpCall:
		if n.Callee != nil {
			switch n.Callee.String() {
			case "errors.New", "fmt.Errorf":
				return NonNil
			}
		}
		if n.Builtin == "append" && len(n.Args) == 2 {
			if a := n.Args[1]; a.Op == OpSlice {
				if p, ok := a.Args[0].T.Underlying().(*types.Pointer); ok {
					if ar, ok := p.Elem().Underlying().(*types.Array); ok && ar.Len() > 0 {
						return NonNil
					}
				}
			}
		}
	}
	return Unknown
}

// fact returns what is known about a symbol.
func (x *Exploder) fact(st *State, s Sym) Fact {
	if f, ok := st.facts[s]; ok {
		return f
	}
	if n := x.symNode(s); n != nil {
		return x.intrinsic(n)
	}
	return Unknown
}

// Fact returns what is known about node n in st.
func (x *Exploder) Fact(st *State, n *Node) Fact { return x.fact(st, x.res(st, n)) }

func (x *Exploder) setFact(st *State, s Sym, f Fact) bool {
	if f == Unknown {
		return true
	}
	if o := x.fact(st, s); o != Unknown {
		return o == f
	}
	st.facts[s] = f
	// implications of map lookups
	if id, idx, ok := slotNode(s); ok {
		n := x.Fl.Nodes[id]
		if n.Op == OpLookup {
			switch {
			case idx == 1 && f == IsTrue:
				if nilable(lookupElem(n)) && x.fact(st, slot(n, 0)) == Unknown {
					st.facts[slot(n, 0)] = NonNil
				}
			case idx == 1 && f == IsFalse:
				if nilable(lookupElem(n)) && x.fact(st, slot(n, 0)) == Unknown {
					st.facts[slot(n, 0)] = IsNil
				}
			case idx == 0 && f == NonNil:
				if x.fact(st, slot(n, 1)) == Unknown {
					st.facts[slot(n, 1)] = IsTrue
				}
			}
		}
	}
	// shape implications
	if x.Shapes != nil {
		for l, v := range st.mem {
			if v == s && l.Kind == 'f' {
				if !x.applyShape(st, l) {
					return false
				}
			}
		}
	}
	return true
}

func lookupElem(n *Node) types.Type {
	if m, ok := n.Args[0].T.Underlying().(*types.Map); ok {
		return m.Elem()
	}
	return types.Typ[types.Int]
}

// applyShape uses the constructor-derived invariants of an immutable type.
func (x *Exploder) applyShape(st *State, l Loc) bool {
	owner := x.Shapes.owner[l.Field]
	if owner == nil {
		return true
	}
	vecs := x.Shapes.vecs[owner]
	if len(vecs) == 0 || st.fresh[l.Base] {
		return true
	}
	if n := x.symNode(l.Base); n != nil && n.Op == OpAlloc {
		return true
	}
	var cand []map[*types.Var]Fact
	for _, v := range vecs {
		ok := true
		for f, want := range v {
			if want == Unknown {
				continue
			}
			if m, has := st.mem[Loc{Base: l.Base, Field: f, Kind: 'f'}]; has {
				if got := x.fact(st, m); got != Unknown && got != want {
					ok = false
					break
				}
			}
		}
		if ok {
			cand = append(cand, v)
		}
	}
	if len(cand) == 0 {
		return false // no constructor produces such an instance: infeasible path
	}
	for m, s := range st.mem {
		if m.Base != l.Base || m.Kind != 'f' {
			continue
		}
		var f Fact
		for i, v := range cand {
			if i == 0 {
				f = v[m.Field]
			} else if v[m.Field] != f {
				f = Unknown
			}
		}
		if f != Unknown && x.fact(st, s) == Unknown {
			st.facts[s] = f
		}
	}
	return true
}

// kill forgets everything about a redefined symbol.
func (x *Exploder) kill(st *State, s Sym) {
	delete(st.facts, s)
	delete(st.alias, s)
	delete(st.fresh, s)
	var re Sym
	found := false
	for k, v := range st.alias {
		if v == s && (!found || k < re) {
			re, found = k, true
		}
	}
	if found {
		delete(st.alias, re)
		for k, v := range st.alias {
			if v == s {
				st.alias[k] = re
			}
		}
		for l, v := range st.mem {
			if v == s {
				st.mem[l] = re
			}
		}
	}
	for l, v := range st.mem {
		if v == s || l.Base == s || (l.Kind == 'v' || l.Kind == 'o') && l.Key == s {
			delete(st.mem, l)
		}
	}
	for k, ops := range st.cmpOp {
		for _, o := range ops {
			if o == s {
				delete(st.cmp, k)
				delete(st.cmpOp, k)
				break
			}
		}
	}
}

func (x *Exploder) killKeepFact(st *State, s Sym) {
	f := st.facts[s]
	var re Sym
	found := false
	for k, v := range st.alias {
		if v == s && (!found || k < re) {
			re, found = k, true
		}
	}
	x.kill(st, s)
	if found && f != Unknown {
		st.facts[re] = f
	}
}

func (x *Exploder) loc(st *State, addr *Node) (Loc, bool) {
	switch addr.Op {
	case OpFieldAddr:
		return Loc{Base: x.base(st, x.res(st, addr.Args[0])), Field: addr.Field, Kind: 'f'}, true
	case OpIndexAddr:
		return Loc{}, false
	}
	if _, ok := addr.T.Underlying().(*types.Pointer); ok {
		s := x.res(st, addr)
		if n := x.symNode(s); n != nil && n.Op == OpFieldAddr {
			return Loc{Base: x.base(st, x.res(st, n.Args[0])), Field: n.Field, Kind: 'f'}, true
		}
		return Loc{Base: s, Kind: 'c'}, true
	}
	return Loc{}, false
}

func (x *Exploder) isAllocSym(s Sym) bool {
	n := x.symNode(s)
	return n != nil && n.Op == OpAlloc
}

func (x *Exploder) unkSym(l Loc) Sym {
	// a stable negative symbol below every slot
	h := 17
	for _, c := range fmt.Sprintf("%d.%v.%c.%d", l.Base, l.Field, l.Kind, l.Key) {
		h = h*31 + int(c)
		h &= 0x3fffffff
	}
	return Sym(-(1 << 40) - h)
}

func (x *Exploder) runBlock(xn *XNode) {
	x.exec(xn, xn.St.clone(), 0)
}

func (x *Exploder) exec(xn *XNode, st *State, i int) {
	b := xn.B
	for ; i < len(b.Nodes); i++ {
		n := b.Nodes[i]
		x.steps++
		if n.Op == OpPhi {
			if x.Mon != nil {
				x.Mon.Step(x, xn, st, n)
			}
			continue
		}
		if x.Mon != nil {
			x.Mon.Step(x, xn, st, n)
		}
		switch n.Op {
		case OpIf:
			x.branch(xn, st, n)
			return
		case OpJump:
			x.edge(xn, st, b.Succs[0], nil, false)
			return
		case OpReturn:
			var fs []Fact
			var k []string
			for _, a := range n.Args {
				f := x.Fact(st, a)
				if !nilable(a.T) && f != IsTrue && f != IsFalse {
					f = Unknown
				}
				fs = append(fs, f)
				k = append(k, f.String())
			}
			x.Returns[strings.Join(k, ",")] = fs
			x.RetSt = append(x.RetSt, retRec{xn, n, st.clone(), fs})
			return
		case OpPanic:
			return
		}
		outs := x.step(st, n)
		if outs == nil {
			if x.After != nil {
				x.After(xn, st, n)
			}
			continue
		}
		for _, o := range outs {
			if x.After != nil {
				x.After(xn, o, n)
			}
			x.exec(xn, o, i+1)
		}
		return
	}
	// fallthrough (should not happen: every block ends with a terminator)
	if len(b.Succs) == 1 {
		x.edge(xn, st, b.Succs[0], nil, false)
	} else if len(b.Succs) > 1 {
		x.err = fmt.Errorf("flatten %s: block b%d without terminator", short(x.Fl.Fn), b.ID)
	}
}

func (x *Exploder) edge(xn *XNode, st *State, e Edge, cond *Node, out bool) {
	st = st.clone()
	if x.OnEdge != nil {
		x.Drop = false
		x.OnEdge(xn, st, cond, out)
		if x.Drop {
			return
		}
	}
	if x.OnPhi != nil {
		x.OnPhi(xn, st, e)
	}
	var cn *Node
	if cond != nil {
		cn = x.symNode(x.res(st, cond))
	}
	// parallel phi assignment
	type asg struct {
		n *Node
		s Sym
		f Fact
	}
	var as []asg
	for _, n := range e.To.Nodes {
		if n.Op != OpPhi {
			break
		}
		a := n.Args[e.Pred]
		s := x.res(st, a)
		as = append(as, asg{n, s, x.fact(st, s)})
	}
	for _, a := range as {
		if a.s != Sym(a.n.ID) {
			x.killKeepFact(st, Sym(a.n.ID))
		}
	}
	for _, a := range as {
		id := Sym(a.n.ID)
		if a.s == id {
			continue
		}
		sn := x.symNode(a.s)
		switch {
		case sn != nil && sn.Op == OpConst && (sn.Nil || a.f == IsTrue || a.f == IsFalse):
			st.alias[id] = a.s
		case e.To.Header || x.NoPhiAl:
			if a.f != Unknown {
				st.facts[id] = a.f
			}
		case !trackable(a.n.T) && !x.AliasInts:
		default:
			st.alias[id] = a.s
		}
		// a killed source cannot be aliased to itself
		if st.alias[id] == id {
			delete(st.alias, id)
		}
	}
	ed := &XEdge{From: xn, CondNode: cn, Cond: cond, Out: out, Ins: &insCtx{st}, E: e}
	x.enter(e.To, st, ed)
}

func trackable(t types.Type) bool {
	if nilable(t) {
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (x *Exploder) branch(xn *XNode, st *State, n *Node) {
	c := n.Args[0]
	v := x.eval(st, c)
	b := xn.B
	for i, out := range []bool{true, false} {
		if v == IsTrue && !out || v == IsFalse && out {
			continue
		}
		s2 := st
		if v == Unknown {
			s2 = st.clone()
			if !x.learn(s2, c, out, 0) {
				continue
			}
		}
		x.edge(xn, s2, b.Succs[i], c, out)
	}
}

// eval decides a boolean node in a state.
func (x *Exploder) eval(st *State, c *Node) Fact {
	s := x.res(st, c)
	if f := x.fact(st, s); f != Unknown {
		return f
	}
	n := x.symNode(s)
	if n == nil {
		return Unknown
	}
	switch n.Op {
	case OpNot:
		switch x.eval(st, n.Args[0]) {
		case IsTrue:
			return IsFalse
		case IsFalse:
			return IsTrue
		}
	case OpBin:
		if n.Tok == token.EQL || n.Tok == token.NEQ {
			a, bb := n.Args[0], n.Args[1]
			fa, fb := x.Fact(st, a), x.Fact(st, bb)
			eq := Unknown
			if fa == IsNil && fb == NonNil || fa == NonNil && fb == IsNil || fa == IsTrue && fb == IsFalse || fa == IsFalse && fb == IsTrue {
				eq = IsFalse
			} else if fa == IsNil && fb == IsNil || fa == fb && (fa == IsTrue || fa == IsFalse) {
				eq = IsTrue
			}
			if eq != Unknown {
				if n.Tok == token.NEQ {
					if eq == IsTrue {
						return IsFalse
					}
					return IsTrue
				}
				return eq
			}
		}
		if ca, cb := x.constOf(st, n.Args[0]), x.constOf(st, n.Args[1]); ca != nil && cb != nil {
			switch n.Tok {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				if ca.Kind() == cb.Kind() && ca.Kind() != constant.Unknown {
					if ca.Kind() == constant.Bool && n.Tok != token.EQL && n.Tok != token.NEQ {
						return Unknown
					}
					if constant.Compare(ca, n.Tok, cb) {
						return IsTrue
					}
					return IsFalse
				}
			}
		}
		if k, _, neg, ok := x.cmpKey(st, n); ok {
			if v, has := st.cmp[k]; has {
				if v != neg {
					return IsTrue
				}
				return IsFalse
			}
		}
	}
	return Unknown
}

func (x *Exploder) constOf(st *State, n *Node) constant.Value {
	m := x.symNode(x.res(st, n))
	if m != nil && m.Op == OpConst {
		return m.Const
	}
	return nil
}

// cmpKey canonicalises a comparison; neg says the node is the negation of the key.
func (x *Exploder) cmpKey(st *State, n *Node) (string, []Sym, bool, bool) {
	if n.Op != OpBin {
		return "", nil, false, false
	}
	var ops []Sym
	var expr func(a *Node, d int) string
	expr = func(a *Node, d int) string {
		s := x.res(st, a)
		m := x.symNode(s)
		if m != nil && m.Op == OpConst && m.Const != nil {
			return "k" + m.Const.ExactString()
		}
		if m != nil && d < 3 {
			if m.Op == OpCall && (m.Builtin == "len" || m.Builtin == "cap") {
				return m.Builtin + "(" + expr(m.Args[0], d+1) + ")"
			}
			if m.Op == OpConv {
				if _, ok := m.T.Underlying().(*types.Basic); ok {
					return "conv" + m.T.Underlying().String() + "(" + expr(m.Args[0], d+1) + ")"
				}
			}
		}
		ops = append(ops, s)
		return fmt.Sprintf("s%d", s)
	}
	l, r := expr(n.Args[0], 0), expr(n.Args[1], 0)
	switch n.Tok {
	case token.EQL:
		if l > r {
			l, r = r, l
		}
		return l + "==" + r, ops, false, true
	case token.NEQ:
		if l > r {
			l, r = r, l
		}
		return l + "==" + r, ops, true, true
	case token.LSS:
		return l + "<" + r, ops, false, true
	case token.GEQ:
		return l + "<" + r, ops, true, true
	case token.GTR:
		return r + "<" + l, ops, false, true
	case token.LEQ:
		return r + "<" + l, ops, true, true
	}
	return "", nil, false, false
}

// learn adds the consequences of c == out; false means infeasible.
func (x *Exploder) learn(st *State, c *Node, out bool, depth int) bool {
	if depth > 20 {
		return true
	}
	s := x.res(st, c)
	want := IsFalse
	if out {
		want = IsTrue
	}
	if f := x.fact(st, s); f != Unknown {
		return f == want
	}
	if !x.setFact(st, s, want) {
		return false
	}
	n := x.symNode(s)
	if n == nil {
		return true
	}
	switch n.Op {
	case OpNot:
		return x.learn(st, n.Args[0], !out, depth+1)
	case OpBin:
		if n.Tok == token.EQL || n.Tok == token.NEQ {
			eq := out == (n.Tok == token.EQL)
			a, b := n.Args[0], n.Args[1]
			if x.Fact(st, a) == IsNil {
				a, b = b, a
			}
			if x.Fact(st, b) == IsNil && nilable(a.T) {
				f := NonNil
				if eq {
					f = IsNil
				}
				return x.setFact(st, x.res(st, a), f)
			}
			for k := 0; k < 2; k++ {
				if fb := x.Fact(st, b); fb == IsTrue || fb == IsFalse {
					return x.learn(st, a, (fb == IsTrue) == eq, depth+1)
				}
				a, b = b, a
			}
		}
		if k, ops, neg, ok := x.cmpKey(st, n); ok && len(ops) > 0 {
			st.cmp[k] = out != neg
			st.cmpOp[k] = ops
		}
	}
	return true
}

// step executes one node; it returns several states when it splits.
func (x *Exploder) step(st *State, n *Node) []*State {
	id := Sym(n.ID)
	switch n.Op {
	case OpStore:
		x.store(st, n.Args[0], n.Args[1])
		return nil
	case OpMapUpdate:
		m := x.base(st, x.res(st, n.Args[0]))
		k := x.res(st, n.Args[1])
		v := x.res(st, n.Args[2])
		x.killMaps(st, n.Args[0].T)
		st.mem[Loc{Base: m, Kind: 'v', Key: k}] = v
		st.mem[Loc{Base: m, Kind: 'o', Key: k}] = Sym(x.Fl.boolConst(true).ID)
		return nil
	case OpDeferReg:
		st.facts[id] = IsTrue
		return nil
	case OpDeferFlag:
		x.killKeepFact(st, id)
		d := Sym(n.Defer.ID)
		if st.facts[d] == IsTrue {
			st.facts[id] = IsTrue
		} else {
			st.facts[id] = IsFalse
		}
		delete(st.facts, d)
		return nil
	case OpNilCheck:
		return nil
	case OpEnter, OpExit, OpJump, OpIf, OpReturn, OpPanic, OpTuple:
		return nil
	case OpGo:
		return nil
	}
	x.killKeepFact(st, id)
	switch n.Op {
	case OpAlloc:
		for l := range st.mem {
			if l.Base == id {
				delete(st.mem, l)
			}
		}
		st.fresh[id] = true
	case OpChangeIface, OpUnwrap:
		s := x.res(st, n.Args[0])
		if s != id {
			st.alias[id] = s
		}
	case OpConv:
		if nilable(n.T) && nilable(n.Args[0].T) {
			if s := x.res(st, n.Args[0]); s != id {
				st.alias[id] = s
			}
		}
	case OpTypeAssert:
		if n.CommaOk {
			x.killKeepFact(st, slot(n, 0))
			x.killKeepFact(st, slot(n, 1))
		} else {
			s := x.base(st, x.res(st, n.Args[0]))
			if s != id {
				st.alias[id] = s
			}
			if x.fact(st, s) == Unknown {
				st.facts[s] = NonNil
			}
		}
	case OpExtract:
		st.alias[id] = x.resSym(st, slot(n.Args[0], n.Idx))
	case OpField:
		// field of a struct value: not tracked
	case OpLoad:
		l, ok := x.loc(st, n.Args[0])
		if !ok {
			break
		}
		if s, has := st.mem[l]; has {
			s = x.resSym(st, s)
			if s != id {
				st.alias[id] = s
			}
			break
		}
		if l.Kind == 'f' && st.fresh[l.Base] || l.Kind == 'c' && st.fresh[l.Base] {
			if z := x.zero(n.T); z != nil {
				st.alias[id] = Sym(z.ID)
				st.mem[l] = Sym(z.ID)
				break
			}
		}
		st.mem[l] = id
		if x.Shapes != nil && l.Kind == 'f' {
			x.applyShape(st, l)
		}
	case OpLookup:
		m := x.base(st, x.res(st, n.Args[0]))
		k := x.res(st, n.Args[1])
		lv, lo := Loc{Base: m, Kind: 'v', Key: k}, Loc{Base: m, Kind: 'o', Key: k}
		x.killKeepFact(st, slot(n, 0))
		x.killKeepFact(st, slot(n, 1))
		if v, ok := st.mem[lv]; ok {
			st.alias[slot(n, 0)] = x.resSym(st, v)
			if o, ok := st.mem[lo]; ok {
				st.alias[slot(n, 1)] = x.resSym(st, o)
			}
		} else if n.Args[0].T != nil {
			if _, isMap := n.Args[0].T.Underlying().(*types.Map); isMap {
				st.mem[lv] = slot(n, 0)
				st.mem[lo] = slot(n, 1)
			}
		}
		if !n.CommaOk {
			st.alias[id] = x.resSym(st, slot(n, 0))
		}
	case OpNext:
		for i := 0; i < 3; i++ {
			x.killKeepFact(st, slot(n, i))
		}
	case OpBin, OpNot:
		if f := x.evalFresh(st, n); f != Unknown {
			st.facts[id] = f
		}
	case OpCall:
		return x.stepCall(st, n)
	}
	return nil
}

func (x *Exploder) evalFresh(st *State, n *Node) Fact {
	b, ok := n.T.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsBoolean == 0 {
		return Unknown
	}
	return x.eval(st, n)
}

func (x *Exploder) resSym(st *State, s Sym) Sym {
	for i := 0; i < 64; i++ {
		a, ok := st.alias[s]
		if !ok {
			return s
		}
		s = a
	}
	return s
}

func (x *Exploder) zero(t types.Type) *Node {
	if nilable(t) {
		return x.Fl.nilConst()
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		if b.Info()&types.IsBoolean != 0 {
			return x.Fl.boolConst(false)
		}
		if b.Info()&types.IsInteger != 0 {
			return x.Fl.constNode(ssa.NewConst(constant.MakeInt64(0), t))
		}
		if b.Info()&types.IsString != 0 {
			return x.Fl.constNode(ssa.NewConst(constant.MakeString(""), t))
		}
	}
	return nil
}

func (x *Exploder) killMaps(st *State, t types.Type) {
	for l := range st.mem {
		if l.Kind == 'v' || l.Kind == 'o' {
			bt := x.symType(l.Base)
			if bt == nil || t == nil || types.Identical(bt.Underlying(), t.Underlying()) {
				delete(st.mem, l)
			}
		}
	}
}

func (x *Exploder) symType(s Sym) types.Type {
	if n := x.symNode(s); n != nil {
		return n.T
	}
	return nil
}

func (x *Exploder) store(st *State, addr, val *Node) {
	l, ok := x.loc(st, addr)
	if !ok {
		return
	}
	v := x.res(st, val)
	for m := range st.mem {
		if m == l || m.Kind != l.Kind {
			continue
		}
		if l.Kind == 'f' && m.Field == l.Field && m.Base != l.Base && !x.isAllocSym(m.Base) && !(x.isAllocSym(l.Base)) {
			delete(st.mem, m)
		}
		if l.Kind == 'c' && m.Base != l.Base && !x.isAllocSym(m.Base) && !x.isAllocSym(l.Base) {
			delete(st.mem, m)
		}
	}
	// storing a whole struct invalidates its fields
	if l.Kind == 'c' {
		for m := range st.mem {
			if m.Kind == 'f' && m.Base == l.Base {
				delete(st.mem, m)
			}
		}
		if structOf(addr.T) != nil {
			delete(st.fresh, l.Base)
			x.copyStruct(st, l.Base, val)
		}
	}
	st.mem[l] = v
}

// copyStruct transfers the known fields of a struct value that was loaded from
// memory immediately before being stored.
func (x *Exploder) copyStruct(st *State, dst Sym, val *Node) {
	ld := x.symNode(x.res(st, val))
	if ld == nil || ld.Op != OpLoad {
		return
	}
	src := x.base(st, x.res(st, ld.Args[0]))
	if !x.isAllocSym(src) {
		return
	}
	// nothing may have written memory between the load and the store
	after := false
	for _, n := range ld.Blk.Nodes {
		if n == ld {
			after = true
			continue
		}
		if !after {
			continue
		}
		if n.Op == OpStore {
			if n.Args[1] == val || n.Args[1] == ld {
				break
			}
			return
		}
		if n.Op == OpCall {
			return
		}
	}
	for m, s := range st.mem {
		if m.Kind == 'f' && m.Base == src {
			st.mem[Loc{Base: dst, Field: m.Field, Kind: 'f'}] = s
		}
	}
	if st.fresh[src] {
		st.fresh[dst] = true
	}
}

func (x *Exploder) killCell(st *State, s Sym) {
	for l := range st.mem {
		if l.Base == s && l.Kind == 'c' {
			delete(st.mem, l)
		}
	}
	delete(st.fresh, s)
}

func (x *Exploder) stepCall(st *State, n *Node) []*State {
	for i := 0; i < slotBase; i++ {
		x.killKeepFact(st, slot(n, i))
	}
	if n.Builtin == "delete" {
		m := x.base(st, x.res(st, n.Args[0]))
		k := x.res(st, n.Args[1])
		x.killMaps(st, n.Args[0].T)
		st.mem[Loc{Base: m, Kind: 'o', Key: k}] = Sym(x.Fl.boolConst(false).ID)
		if z := x.zero(n.Args[0].T.Underlying().(*types.Map).Elem()); z != nil {
			st.mem[Loc{Base: m, Kind: 'v', Key: k}] = Sym(z.ID)
		} else {
			delete(st.mem, Loc{Base: m, Kind: 'o', Key: k})
		}
		return nil
	}
	if n.Builtin != "" {
		return nil
	}
	repo := n.Callee != nil && x.W.inRepo(n.Callee) && n.Callee.Blocks != nil
	if repo {
		mods := x.W.modset(n.Callee)
		for l := range st.mem {
			switch l.Kind {
			case 'f':
				if mods.fields[l.Field] {
					delete(st.mem, l)
					delete(st.fresh, l.Base)
				}
			case 'c':
				if !x.isAllocSym(l.Base) && mods.cells || x.isAllocSym(l.Base) && x.passes(st, n, l.Base) {
					delete(st.mem, l)
					delete(st.fresh, l.Base)
				}
			case 'v', 'o':
				if mods.maps {
					delete(st.mem, l)
				}
			}
		}
	} else {
		for _, a := range n.Args {
			if a != nil {
				x.killCell(st, x.res(st, a))
			}
		}
	}
	// result facts
	var res *types.Tuple
	if n.T != nil {
		if t, ok := n.T.(*types.Tuple); ok {
			res = t
		}
	}
	if repo && x.Sums != nil {
		if vecs, ok := x.Sums.get(n.Callee); ok {
			var outs []*State
			for _, v := range vecs {
				o := st.clone()
				ok := true
				for i, f := range v {
					if f == Unknown {
						continue
					}
					s := Sym(n.ID)
					if res != nil && res.Len() > 1 || res != nil {
						s = slot(n, i)
					}
					if !x.setFact(o, s, f) {
						ok = false
					}
				}
				if ok {
					if es, has := x.errSlot(n); has && x.SplitErr && x.fact(o, es) == Unknown {
						o2 := o.clone()
						o.facts[es] = IsNil
						o2.facts[es] = NonNil
						outs = append(outs, o2)
					}
					outs = append(outs, o)
				}
			}
			if len(vecs) == 0 {
				return []*State{} // never returns
			}
			if len(outs) == 1 {
				*st = *outs[0]
				return nil
			}
			return outs
		}
	}
	if es, ok := x.errSlot(n); ok && !isErrCtor(n) && (x.SplitErr || !repo && res != nil && res.Len() == 2 && nilable(res.At(0).Type())) {
		a := st.clone()
		a.facts[es] = IsNil
		b := st.clone()
		b.facts[es] = NonNil
		if !repo && res != nil && res.Len() == 2 && nilable(res.At(0).Type()) && n.Name != "dynamic" {
			if _, sl := res.At(0).Type().Underlying().(*types.Slice); !sl {
				a.facts[slot(n, 0)] = NonNil
			}
		}
		return []*State{a, b}
	}
	return nil
}

func isErrCtor(n *Node) bool {
	if n.Callee == nil || n.Callee.Pkg == nil {
		return false
	}
	switch n.Callee.Pkg.Pkg.Path() {
	case "errors", "fmt":
		return true
	}
	return false
}

// errSlot is the symbol of the error result of a call.
func (x *Exploder) errSlot(n *Node) (Sym, bool) {
	if n.T == nil {
		if n.Callee != nil {
			r := n.Callee.Signature.Results()
			if r.Len() > 0 && isErrorType(r.At(r.Len()-1).Type()) {
				return slot(n, 9), true
			}
		}
		return 0, false
	}
	switch t := n.T.(type) {
	case *types.Tuple:
		if t.Len() > 0 && isErrorType(t.At(t.Len()-1).Type()) {
			return slot(n, t.Len()-1), true
		}
	default:
		if isErrorType(n.T) && (n.Callee == nil || n.Callee.Signature.Results().Len() == 1) {
			return Sym(n.ID), true
		}
	}
	return 0, false
}

func (x *Exploder) passes(st *State, n *Node, s Sym) bool {
	for _, a := range n.Args {
		if a != nil && x.base(st, x.res(st, a)) == s {
			return true
		}
	}
	return false
}

// trace renders the path leading to xn as source positions.
func (x *Exploder) trace(xn *XNode) []string {
	var out []string
	for e := xn.Parent; e != nil; e = e.From.Parent {
		if e.Cond != nil && e.Cond.Pos.IsValid() {
			out = append(out, fmt.Sprintf("%s [%s] %v", x.W.pos(e.Cond.Pos), short(e.From.B.Fr.Fn), e.Out))
		}
		if len(out) > 60 {
			break
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// modset: fields, cells and maps a function may write, transitively.
type modSet struct {
	fields map[*types.Var]bool
	cells  bool
	maps   bool
}

var modMemo = map[*ssa.Function]*modSet{}

func (w *World) modset(f *ssa.Function) *modSet {
	if m, ok := modMemo[f]; ok {
		return m
	}
	m := &modSet{fields: map[*types.Var]bool{}}
	modMemo[f] = m
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					switch a := in.Addr.(type) {
					case *ssa.FieldAddr:
						if _, ok := a.X.(*ssa.Alloc); !ok {
							m.fields[fieldOf(a.X.Type(), a.Field)] = true
						}
					case *ssa.Alloc:
					default:
						m.cells = true
					}
				case *ssa.MapUpdate:
					if _, ok := in.Map.(*ssa.MakeMap); !ok {
						m.maps = true
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, t := range w.callees(c) {
						visit(t)
					}
					if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
						m.maps = true
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	visit(f)
	return m
}

// callees resolves a call to its repository targets.
func (w *World) callees(c ssa.CallInstruction) []*ssa.Function {
	cc := c.Common()
	if f := cc.StaticCallee(); f != nil {
		if w.inRepo(f) {
			return []*ssa.Function{f}
		}
		return nil
	}
	if cc.IsInvoke() {
		n, ok := types.Unalias(cc.Value.Type()).(*types.Named)
		if !ok {
			return nil
		}
		var out []*ssa.Function
		for _, t := range w.impls(n) {
			if f := w.methodOf(t, cc.Method.Name()); f != nil {
				out = append(out, f)
			}
		}
		return out
	}
	return nil
}
