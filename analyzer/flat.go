package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the operation of a node of the flattened intermediate representation:
// the SSA form of an entry point with its repository callees inlined.
type Op int

const (
	OpConst Op = iota
	OpParam
	OpGlobal
	OpFunc
	OpUndef
	OpPhi
	OpAlloc
	OpLoad
	OpFieldAddr
	OpIndexAddr
	OpField
	OpIndex
	OpBin
	OpNot
	OpUn
	OpConv
	OpMakeIface
	OpChangeIface
	OpUnwrap
	OpTypeAssert
	OpExtract
	OpTuple
	OpLookup
	OpSlice
	OpMakeSlice
	OpMakeMap
	OpMakeClosure
	OpCall
	OpRange
	OpNext
	OpOther
	OpStore
	OpMapUpdate
	OpGo
	OpDeferReg
	OpDeferFlag
	OpNilCheck
	OpEnter
	OpExit
	OpIf
	OpJump
	OpReturn
	OpPanic
)

var opNames = []string{"const", "param", "global", "func", "undef", "phi", "alloc", "load", "fieldaddr", "indexaddr", "field", "index", "bin", "not", "un", "conv", "makeiface", "changeiface", "unwrap", "typeassert", "extract", "tuple", "lookup", "slice", "makeslice", "makemap", "makeclosure", "call", "range", "next", "other", "store", "mapupdate", "go", "deferreg", "deferflag", "nilcheck", "enter", "exit", "if", "jump", "return", "panic"}

func (o Op) String() string { return opNames[o] }

// Frame is one inlined activation.
type Frame struct {
	Fn     *ssa.Function
	Parent *Frame
	Site   token.Pos
	Depth  int
}

func (f *Frame) has(fn *ssa.Function) bool {
	for ; f != nil; f = f.Parent {
		if f.Fn == fn {
			return true
		}
	}
	return false
}

// Node is one operation.
type Node struct {
	ID      int
	Op      Op
	Args    []*Node
	Blk     *Block
	T       types.Type
	Fr      *Frame
	Callee  *ssa.Function
	Meth    *types.Func
	Builtin string
	Const   constant.Value
	Nil     bool
	Tok     token.Token
	Idx     int
	CommaOk bool
	Pos     token.Pos
	Src     ssa.Instruction
	Glob    *ssa.Global
	Field   *types.Var
	Name    string
	Defer   *Node
	PopN    int // OpExit: matching enter
}

// Edge is a control flow edge; Pred is its index in To.Preds.
type Edge struct {
	To   *Block
	Pred int
}

// Block is a basic block.
type Block struct {
	ID     int
	Nodes  []*Node
	Preds  []*Block
	Succs  []Edge
	Header bool
	Fr     *Frame
}

// Flat is a flattened entry point.
type Flat struct {
	W      *World
	Fn     *ssa.Function
	Blocks []*Block
	Entry  *Block
	Params []*Node
	Nodes  []*Node
	Root   *Frame
	consts map[string]*Node
	policy func(f *ssa.Function, fr *Frame) bool
	err    error
	Inl    map[*ssa.Function]bool
}

const maxNodes = 400000

func (fl *Flat) node(op Op, t types.Type, args ...*Node) *Node {
	n := &Node{ID: len(fl.Nodes), Op: op, T: t, Args: args}
	fl.Nodes = append(fl.Nodes, n)
	return n
}

func (fl *Flat) block(fr *Frame) *Block {
	b := &Block{ID: len(fl.Blocks), Fr: fr}
	fl.Blocks = append(fl.Blocks, b)
	return b
}

func (fl *Flat) emit(b *Block, n *Node) *Node {
	n.Blk = b
	n.Fr = b.Fr
	b.Nodes = append(b.Nodes, n)
	return n
}

func link(from, to *Block) {
	from.Succs = append(from.Succs, Edge{to, len(to.Preds)})
	to.Preds = append(to.Preds, from)
}

func (fl *Flat) constNode(c *ssa.Const) *Node {
	var key string
	if c.Value == nil {
		if !nilable(c.Type()) {
			key = "zero:" + c.Type().String()
		} else {
			key = "nil"
		}
	} else {
		key = c.Value.Kind().String() + ":" + c.Value.ExactString()
	}
	if n, ok := fl.consts[key]; ok {
		return n
	}
	n := fl.node(OpConst, c.Type())
	n.Const = c.Value
	n.Nil = key == "nil"
	fl.consts[key] = n
	return n
}

func (fl *Flat) intern(key string, mk func() *Node) *Node {
	if n, ok := fl.consts[key]; ok {
		return n
	}
	n := mk()
	fl.consts[key] = n
	return n
}

func (fl *Flat) boolConst(b bool) *Node {
	return fl.constNode(ssa.NewConst(constant.MakeBool(b), types.Typ[types.Bool]))
}

func (fl *Flat) nilConst() *Node {
	return fl.constNode(ssa.NewConst(nil, types.Universe.Lookup("error").Type()))
}

// flatten builds the flat form of fn. policy says which repository callees are
// inlined; recursion is never inlined.
func flatten(w *World, fn *ssa.Function, policy func(*ssa.Function, *Frame) bool) (*Flat, error) {
	fl := &Flat{W: w, Fn: fn, consts: map[string]*Node{}, policy: policy, Inl: map[*ssa.Function]bool{}}
	fl.Root = &Frame{Fn: fn}
	fl.Entry = fl.block(fl.Root)
	var args []*Node
	for i, p := range fn.Params {
		n := fl.node(OpParam, p.Type())
		n.Idx = i
		n.Name = p.Name()
		n.Fr = fl.Root
		n.Blk = fl.Entry
		fl.Params = append(fl.Params, n)
		args = append(args, n)
	}
	var binds []*Node
	for i, p := range fn.FreeVars {
		n := fl.node(OpParam, p.Type())
		n.Idx = 1000 + i
		n.Name = p.Name()
		n.Fr = fl.Root
		n.Blk = fl.Entry
		binds = append(binds, n)
	}
	rets := fl.build(fn, args, binds, fl.Root, fl.Entry)
	for _, r := range rets {
		n := fl.node(OpReturn, nil, r.vals...)
		n.Pos = r.pos
		n.Src = r.src
		fl.emit(r.blk, n)
	}
	if fl.err != nil {
		return nil, fl.err
	}
	fl.prune()
	fl.markHeaders()
	return fl, nil
}

type retSite struct {
	blk  *Block
	vals []*Node
	pos  token.Pos
	src  ssa.Instruction
}

type builder struct {
	fl     *Flat
	fn     *ssa.Function
	fr     *Frame
	vals   map[ssa.Value]*Node
	start  map[*ssa.BasicBlock]*Block
	end    map[*ssa.BasicBlock]*Block
	defers []*Node
	rets   []retSite
}

func (fl *Flat) build(fn *ssa.Function, args, binds []*Node, fr *Frame, entry *Block) []retSite {
	fl.Inl[fn] = true
	b := &builder{fl: fl, fn: fn, fr: fr, vals: map[ssa.Value]*Node{}, start: map[*ssa.BasicBlock]*Block{}, end: map[*ssa.BasicBlock]*Block{}}
	for i, p := range fn.Params {
		if i < len(args) {
			b.vals[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			b.vals[p] = binds[i]
		}
	}
	order := fn.DomPreorder()
	for _, sb := range order {
		if sb == fn.Recover && len(sb.Preds) == 0 && sb != fn.Blocks[0] {
			continue
		}
		if sb == fn.Blocks[0] {
			eb := entry
			if len(sb.Preds) > 0 {
				eb = fl.block(fr)
				// the extra predecessor comes last: phis cannot exist in it for the entry edge
				defer func(e *Block) {}(eb)
				b.start[sb] = eb
				continue
			}
			b.start[sb] = eb
			continue
		}
		b.start[sb] = fl.block(fr)
	}
	if entry.Fr == nil {
		entry.Fr = fr
	}
	var entryLoop *Block
	if s := b.start[fn.Blocks[0]]; s != entry {
		entryLoop = s
	}
	type phiRec struct {
		n *Node
		p *ssa.Phi
	}
	var phis []phiRec
	for _, sb := range order {
		cur, ok := b.start[sb]
		if !ok {
			continue
		}
		for _, in := range sb.Instrs {
			if fl.err != nil || len(fl.Nodes) > maxNodes {
				if fl.err == nil {
					fl.err = fmt.Errorf("flattening %s exceeds %d nodes", short(fl.Fn), maxNodes)
				}
				return nil
			}
			if p, ok := in.(*ssa.Phi); ok {
				n := fl.node(OpPhi, p.Type())
				n.Pos = p.Pos()
				n.Src = p
				n.Name = p.Comment
				fl.emit(cur, n)
				b.vals[p] = n
				phis = append(phis, phiRec{n, p})
				continue
			}
			cur = b.instr(cur, in)
		}
		b.end[sb] = cur
	}
	// wire edges in the SSA order of predecessors.
	for _, sb := range order {
		st, ok := b.start[sb]
		if !ok {
			continue
		}
		if st == entryLoop {
			link(entry, st)
			fl.emit(entry, fl.node(OpJump, nil))
		}
	}
	used := map[*ssa.BasicBlock]map[*ssa.BasicBlock]int{}
	for _, sb := range order {
		e, ok := b.end[sb]
		if !ok {
			continue
		}
		e.Succs = make([]Edge, len(sb.Succs))
		for i, s := range sb.Succs {
			e.Succs[i] = Edge{To: b.start[s], Pred: -1}
			_ = i
		}
	}
	for _, sb := range order {
		st, ok := b.start[sb]
		if !ok {
			continue
		}
		for _, p := range sb.Preds {
			pe, ok := b.end[p]
			if !ok {
				continue
			}
			idx := len(st.Preds)
			st.Preds = append(st.Preds, pe)
			m := used[p]
			if m == nil {
				m = map[*ssa.BasicBlock]int{}
				used[p] = m
			}
			k := 0
			for i, s := range p.Succs {
				if s == sb {
					if k == m[sb] {
						pe.Succs[i].Pred = idx
						m[sb]++
						break
					}
					k++
				}
			}
		}
	}
	for _, pr := range phis {
		sb := pr.p.Block()
		for i, p := range sb.Preds {
			if _, ok := b.end[p]; !ok {
				continue
			}
			pr.n.Args = append(pr.n.Args, b.val(pr.p.Edges[i]))
		}
	}
	return b.rets
}

func (b *builder) val(v ssa.Value) *Node {
	if n, ok := b.vals[v]; ok {
		return n
	}
	fl := b.fl
	switch v := v.(type) {
	case *ssa.Const:
		return fl.constNode(v)
	case *ssa.Global:
		return fl.intern("global:"+v.String(), func() *Node {
			n := fl.node(OpGlobal, v.Type())
			n.Glob = v
			n.Name = v.String()
			return n
		})
	case *ssa.Function:
		return fl.intern("func:"+v.String(), func() *Node {
			n := fl.node(OpFunc, v.Type())
			n.Callee = v
			return n
		})
	case *ssa.Builtin:
		return fl.intern("builtin:"+v.Name(), func() *Node {
			n := fl.node(OpFunc, v.Type())
			n.Builtin = v.Name()
			return n
		})
	}
	fl.err = fmt.Errorf("flatten %s: operand %s (%T) used before definition in %s", short(fl.Fn), v.Name(), v, short(b.fn))
	return fl.node(OpUndef, v.Type())
}

func (b *builder) instr(cur *Block, in ssa.Instruction) *Block {
	fl := b.fl
	mk := func(op Op, t types.Type, args ...*Node) *Node {
		n := fl.node(op, t, args...)
		n.Pos = in.Pos()
		n.Src = in
		return fl.emit(cur, n)
	}
	set := func(v ssa.Value, n *Node) { b.vals[v] = n }
	switch v := in.(type) {
	case *ssa.Alloc:
		n := mk(OpAlloc, v.Type())
		n.Name = v.Comment
		set(v, n)
	case *ssa.BinOp:
		n := mk(OpBin, v.Type(), b.val(v.X), b.val(v.Y))
		n.Tok = v.Op
		set(v, n)
	case *ssa.UnOp:
		switch v.Op {
		case token.MUL:
			x := b.val(v.X)
			set(v, mk(OpLoad, v.Type(), x))
		case token.NOT:
			set(v, mk(OpNot, v.Type(), b.val(v.X)))
		default:
			n := mk(OpUn, v.Type(), b.val(v.X))
			n.Tok = v.Op
			set(v, n)
		}
	case *ssa.ChangeType:
		set(v, mk(OpConv, v.Type(), b.val(v.X)))
	case *ssa.Convert:
		set(v, mk(OpConv, v.Type(), b.val(v.X)))
	case *ssa.MultiConvert:
		set(v, mk(OpConv, v.Type(), b.val(v.X)))
	case *ssa.SliceToArrayPointer:
		set(v, mk(OpConv, v.Type(), b.val(v.X)))
	case *ssa.ChangeInterface:
		set(v, mk(OpChangeIface, v.Type(), b.val(v.X)))
	case *ssa.MakeInterface:
		set(v, mk(OpMakeIface, v.Type(), b.val(v.X)))
	case *ssa.TypeAssert:
		n := mk(OpTypeAssert, v.AssertedType, b.val(v.X))
		n.CommaOk = v.CommaOk
		set(v, n)
	case *ssa.Extract:
		t := b.val(v.Tuple)
		if t.Op == OpTuple {
			set(v, t.Args[v.Index])
			break
		}
		n := mk(OpExtract, v.Type(), t)
		n.Idx = v.Index
		set(v, n)
	case *ssa.Field:
		n := mk(OpField, v.Type(), b.val(v.X))
		n.Idx = v.Field
		n.Field = fieldOf(v.X.Type(), v.Field)
		set(v, n)
	case *ssa.FieldAddr:
		n := mk(OpFieldAddr, v.Type(), b.val(v.X))
		n.Idx = v.Field
		n.Field = fieldOf(v.X.Type(), v.Field)
		set(v, n)
	case *ssa.Index:
		set(v, mk(OpIndex, v.Type(), b.val(v.X), b.val(v.Index)))
	case *ssa.IndexAddr:
		set(v, mk(OpIndexAddr, v.Type(), b.val(v.X), b.val(v.Index)))
	case *ssa.Lookup:
		n := mk(OpLookup, v.Type(), b.val(v.X), b.val(v.Index))
		n.CommaOk = v.CommaOk
		set(v, n)
	case *ssa.Slice:
		args := []*Node{b.val(v.X), nil, nil, nil}
		if v.Low != nil {
			args[1] = b.val(v.Low)
		}
		if v.High != nil {
			args[2] = b.val(v.High)
		}
		if v.Max != nil {
			args[3] = b.val(v.Max)
		}
		set(v, mk(OpSlice, v.Type(), args...))
	case *ssa.MakeSlice:
		set(v, mk(OpMakeSlice, v.Type(), b.val(v.Len), b.val(v.Cap)))
	case *ssa.MakeMap:
		set(v, mk(OpMakeMap, v.Type()))
	case *ssa.MakeChan:
		set(v, mk(OpOther, v.Type(), b.val(v.Size)))
	case *ssa.MakeClosure:
		args := []*Node{}
		for _, x := range v.Bindings {
			args = append(args, b.val(x))
		}
		n := mk(OpMakeClosure, v.Type(), args...)
		n.Callee = v.Fn.(*ssa.Function)
		set(v, n)
	case *ssa.Range:
		set(v, mk(OpRange, v.X.Type(), b.val(v.X)))
	case *ssa.Next:
		set(v, mk(OpNext, v.Type(), b.val(v.Iter)))
	case *ssa.Select:
		n := mk(OpOther, v.Type())
		set(v, n)
	case *ssa.Store:
		mk(OpStore, nil, b.val(v.Addr), b.val(v.Val))
	case *ssa.MapUpdate:
		mk(OpMapUpdate, nil, b.val(v.Map), b.val(v.Key), b.val(v.Value))
	case *ssa.Send:
		mk(OpOther, nil, b.val(v.Chan), b.val(v.X))
	case *ssa.DebugRef:
	case *ssa.Call:
		n, c := b.call(cur, v, &v.Call)
		if v.Call.Signature().Results().Len() > 0 || n != nil {
			set(v, n)
		}
		return c
	case *ssa.Go:
		_, args, callee, meth := b.target(&v.Call)
		n := mk(OpGo, nil, args...)
		n.Callee, n.Meth = callee, meth
	case *ssa.Defer:
		fnv, args, callee, meth := b.target(&v.Call)
		n := fl.node(OpDeferReg, nil, args...)
		n.Pos, n.Src = in.Pos(), in
		n.Callee, n.Meth = callee, meth
		if fnv != nil && fnv.Op == OpFunc {
			n.Builtin = fnv.Builtin
		}
		n.Name = "defer"
		if fnv != nil && fnv.Op == OpMakeClosure {
			n.Defer = fnv
		}
		fl.emit(cur, n)
		b.defers = append(b.defers, n)
	case *ssa.RunDefers:
		for i := len(b.defers) - 1; i >= 0; i-- {
			d := b.defers[i]
			flag := fl.node(OpDeferFlag, types.Typ[types.Bool])
			flag.Defer = d
			flag.Pos = d.Pos
			fl.emit(cur, flag)
			iff := fl.node(OpIf, nil, flag)
			iff.Pos = d.Pos
			fl.emit(cur, iff)
			run := fl.block(b.fr)
			join := fl.block(b.fr)
			link(cur, run)
			link(cur, join)
			var rc *Block
			if d.Callee != nil && b.shouldInline(d.Callee) {
				var binds []*Node
				if d.Defer != nil {
					binds = d.Defer.Args
				}
				_, rc = b.inline(run, d.Callee, d.Args, binds, d.Pos, d.Meth != nil)
			} else {
				n := fl.node(OpCall, nil, d.Args...)
				n.Callee, n.Meth, n.Builtin = d.Callee, d.Meth, d.Builtin
				n.Pos, n.Src = d.Pos, d.Src
				n.Name = "deferred"
				fl.emit(run, n)
				rc = run
			}
			fl.emit(rc, fl.node(OpJump, nil))
			link(rc, join)
			cur = join
		}
	case *ssa.Jump:
		mk(OpJump, nil)
	case *ssa.If:
		mk(OpIf, nil, b.val(v.Cond))
	case *ssa.Panic:
		mk(OpPanic, nil, b.val(v.X))
	case *ssa.Return:
		r := retSite{blk: cur, pos: v.Pos(), src: v}
		for _, x := range v.Results {
			r.vals = append(r.vals, b.val(x))
		}
		b.rets = append(b.rets, r)
	default:
		fl.err = fmt.Errorf("flatten %s: unsupported instruction %T in %s", short(fl.Fn), in, short(b.fn))
	}
	return cur
}

func fieldOf(t types.Type, i int) *types.Var {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		return s.Field(i)
	}
	return nil
}

// target resolves a call: function value node, arguments, static callee (after
// devirtualisation) or interface method.
func (b *builder) target(c *ssa.CallCommon) (fnv *Node, args []*Node, callee *ssa.Function, meth *types.Func) {
	if c.IsInvoke() {
		args = append(args, b.val(c.Value))
		for _, a := range c.Args {
			args = append(args, b.val(a))
		}
		return nil, args, b.fl.W.devirt(c.Value.Type(), c.Method), c.Method
	}
	for _, a := range c.Args {
		args = append(args, b.val(a))
	}
	if f := c.StaticCallee(); f != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			return b.val(mc), args, f, nil
		}
		return nil, args, f, nil
	}
	fnv = b.val(c.Value)
	switch fnv.Op {
	case OpMakeClosure:
		return fnv, args, fnv.Callee, nil
	case OpFunc:
		return fnv, args, fnv.Callee, nil
	}
	return fnv, args, nil, nil
}

func (b *builder) shouldInline(f *ssa.Function) bool {
	if f.Blocks == nil || b.fr.has(f) || b.fr.Depth > 40 {
		return false
	}
	if !b.fl.W.inRepo(f) {
		return false
	}
	if f.Parent() != nil || b.fl.policy == nil {
		return true
	}
	return b.fl.policy(f, b.fr)
}

func (b *builder) call(cur *Block, v *ssa.Call, c *ssa.CallCommon) (*Node, *Block) {
	fl := b.fl
	fnv, args, callee, meth := b.target(c)
	if meth != nil {
		n := fl.node(OpNilCheck, nil, args[0])
		n.Pos, n.Src, n.Meth = v.Pos(), v, meth
		fl.emit(cur, n)
	}
	if callee != nil && b.shouldInline(callee) {
		var binds []*Node
		if fnv != nil && fnv.Op == OpMakeClosure {
			binds = fnv.Args
		}
		return b.inline(cur, callee, args, binds, v.Pos(), meth != nil)
	}
	n := fl.node(OpCall, v.Type(), args...)
	n.Callee, n.Meth = callee, meth
	n.Pos, n.Src = v.Pos(), v
	if fnv != nil {
		if fnv.Builtin != "" {
			n.Builtin = fnv.Builtin
		} else if callee == nil {
			n.Name = "dynamic"
			n.Args = append([]*Node{fnv}, args...)
		}
	}
	fl.emit(cur, n)
	return n, cur
}

func (b *builder) inline(cur *Block, callee *ssa.Function, args, binds []*Node, pos token.Pos, unwrap bool) (*Node, *Block) {
	fl := b.fl
	if unwrap && len(callee.Params) > 0 {
		u := fl.node(OpUnwrap, callee.Params[0].Type(), args[0])
		u.Pos = pos
		fl.emit(cur, u)
		args = append([]*Node{u}, args[1:]...)
	}
	fr := &Frame{Fn: callee, Parent: b.fr, Site: pos, Depth: b.fr.Depth + 1}
	en := fl.node(OpEnter, nil, args...)
	en.Callee, en.Pos = callee, pos
	fl.emit(cur, en)
	entry := fl.block(fr)
	fl.emit(cur, fl.node(OpJump, nil))
	link(cur, entry)
	rets := fl.build(callee, args, binds, fr, entry)
	cont := fl.block(b.fr)
	nres := callee.Signature.Results().Len()
	for _, r := range rets {
		fl.emit(r.blk, fl.node(OpJump, nil))
		link(r.blk, cont)
	}
	vals := make([]*Node, nres)
	for i := 0; i < nres; i++ {
		t := callee.Signature.Results().At(i).Type()
		switch {
		case len(rets) == 0:
			vals[i] = fl.node(OpUndef, t)
			vals[i].Blk = cont
		case len(rets) == 1:
			vals[i] = rets[0].vals[i]
		default:
			p := fl.node(OpPhi, t)
			p.Pos = pos
			p.Name = fmt.Sprintf("result%d of %s", i, callee.Name())
			for _, r := range rets {
				p.Args = append(p.Args, r.vals[i])
			}
			fl.emit(cont, p)
			vals[i] = p
		}
	}
	ex := fl.node(OpExit, nil, vals...)
	ex.Callee, ex.Pos = callee, pos
	ex.PopN = en.ID
	fl.emit(cont, ex)
	switch nres {
	case 0:
		return nil, cont
	case 1:
		return vals[0], cont
	}
	t := fl.node(OpTuple, nil, vals...)
	return t, cont
}

// prune drops unreachable blocks.
func (fl *Flat) prune() {
	seen := map[*Block]bool{}
	st := []*Block{fl.Entry}
	seen[fl.Entry] = true
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		for _, e := range b.Succs {
			if e.To != nil && !seen[e.To] {
				seen[e.To] = true
				st = append(st, e.To)
			}
		}
	}
	var out []*Block
	for _, b := range fl.Blocks {
		if seen[b] {
			out = append(out, b)
		}
	}
	fl.Blocks = out
}

func (fl *Flat) markHeaders() {
	state := map[*Block]int{}
	type item struct {
		b *Block
		i int
	}
	st := []item{{fl.Entry, 0}}
	state[fl.Entry] = 1
	for len(st) > 0 {
		t := &st[len(st)-1]
		if t.i >= len(t.b.Succs) {
			state[t.b] = 2
			st = st[:len(st)-1]
			continue
		}
		n := t.b.Succs[t.i].To
		t.i++
		switch state[n] {
		case 0:
			state[n] = 1
			st = append(st, item{n, 0})
		case 1:
			n.Header = true
		}
	}
}

func (n *Node) String() string {
	var s []string
	for _, a := range n.Args {
		if a == nil {
			s = append(s, "_")
		} else if a.Op == OpConst {
			if a.Nil {
				s = append(s, "nil")
			} else if a.Const != nil {
				s = append(s, a.Const.String())
			} else {
				s = append(s, "zero")
			}
		} else {
			s = append(s, fmt.Sprintf("n%d", a.ID))
		}
	}
	x := ""
	if n.Callee != nil {
		x = " " + short(n.Callee)
	} else if n.Meth != nil {
		x = " ." + n.Meth.Name()
	}
	if n.Builtin != "" {
		x += " builtin " + n.Builtin
	}
	if n.Field != nil {
		x += " ." + n.Field.Name()
	}
	if n.Tok != 0 {
		x += " " + n.Tok.String()
	}
	if n.Name != "" {
		x += " '" + n.Name + "'"
	}
	if n.Op == OpExtract || n.Op == OpParam {
		x += fmt.Sprintf(" #%d", n.Idx)
	}
	return fmt.Sprintf("n%d = %s%s(%s)", n.ID, n.Op, x, strings.Join(s, ", "))
}

func (fl *Flat) dump() string {
	var sb strings.Builder
	for _, b := range fl.Blocks {
		fmt.Fprintf(&sb, "b%d [%s]", b.ID, b.Fr.Fn.Name())
		if b.Header {
			sb.WriteString(" header")
		}
		sb.WriteString(" preds:")
		for _, p := range b.Preds {
			fmt.Fprintf(&sb, " b%d", p.ID)
		}
		sb.WriteString("\n")
		for _, n := range b.Nodes {
			fmt.Fprintf(&sb, "    %s   @%s\n", n, fl.W.pos(n.Pos))
		}
		sb.WriteString("    ->")
		for _, e := range b.Succs {
			fmt.Fprintf(&sb, " b%d(p%d)", e.To.ID, e.Pred)
		}
		sb.WriteString("\n")
	}
	return sb.String()
}
