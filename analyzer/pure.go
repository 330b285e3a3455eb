package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ownership of memory: which values a reference may point into, which calls
// write through it, which keep it.

// root is where a reference comes from.
type root struct {
	kind byte // 'f' fresh, 'p' parameter, 'o' held by an instance, 'g' package variable, 's' state of a service or builder
	val  ssa.Value
	idx  int
	text string
}

func (r root) key() string {
	return fmt.Sprintf("%c|%d|%p|%s", r.kind, r.idx, r.val, r.text)
}

type rootSet map[string]root

func (s rootSet) add(r root) bool {
	k := r.key()
	if _, ok := s[k]; ok {
		return false
	}
	s[k] = r
	return true
}

func (s rootSet) addAll(o rootSet) bool {
	ch := false
	for _, r := range o {
		if s.add(r) {
			ch = true
		}
	}
	return ch
}

func (s rootSet) sorted() []root {
	var ks []string
	for k := range s {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []root
	for _, k := range ks {
		out = append(out, s[k])
	}
	return out
}

// effSum is what a call does with its arguments (receiver and free variables included).
type effSum struct {
	mut    map[int]string // argument written through: how
	retain map[int]bool   // argument kept in memory that outlives the call
	ret    []rootSet      // where each result may point into
}

// effWrite is one write through a reference.
type effWrite struct {
	f    *ssa.Function
	in   ssa.Instruction
	to   ssa.Value // the reference written through
	what string
	base *types.Named // struct type, for field writes
	fld  *types.Var
}

type effects struct {
	w     *World
	sums  map[*ssa.Function]*effSum
	memo  map[ssa.Value]rootSet
	busy  map[ssa.Value]bool
	kinds map[*types.Named]byte
	clos  map[*ssa.Function][]*ssa.MakeClosure
}

func newEffects(w *World) *effects {
	e := &effects{w: w, sums: map[*ssa.Function]*effSum{}, kinds: map[*types.Named]byte{}, clos: map[*ssa.Function][]*ssa.MakeClosure{}}
	for _, f := range w.Funcs {
		s := &effSum{mut: map[int]string{}, retain: map[int]bool{}}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			s.ret = append(s.ret, rootSet{})
		}
		e.sums[f] = s
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					if g, ok := mc.Fn.(*ssa.Function); ok {
						e.clos[g] = append(e.clos[g], mc)
					}
				}
			}
		}
	}
	for round := 0; round < 30; round++ {
		e.memo = map[ssa.Value]rootSet{}
		e.busy = map[ssa.Value]bool{}
		ch := false
		for _, f := range w.Funcs {
			if e.summarise(f) {
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	return e
}

// kindOf: 'b' builder, 's' service with state of its own, 'i' immutable instance.
func (e *effects) kindOf(n *types.Named) byte {
	if n == nil || !pkgInRepo(n.Obj().Pkg()) {
		return 's'
	}
	if k, ok := e.kinds[n]; ok {
		return k
	}
	k := byte('i')
	ms := types.NewMethodSet(types.NewPointer(n))
	switch {
	case ms.Lookup(n.Obj().Pkg(), "Now") != nil && ms.Lookup(n.Obj().Pkg(), "Create") != nil:
		k = 'b'
	case strings.Contains(n.Obj().Pkg().Path(), "/infrastructure/"):
		k = 's'
	case !e.offered(n):
		k = 's' // a working record
	}
	e.kinds[n] = k
	return k
}

// offered: the type is behind an exported interface of its package.
func (e *effects) offered(n *types.Named) bool {
	for _, i := range e.w.Ifaces {
		if i.Obj().Pkg() != n.Obj().Pkg() || !i.Obj().Exported() {
			continue
		}
		if it, ok := i.Underlying().(*types.Interface); ok && it.NumMethods() > 0 && (types.Implements(n, it) || types.Implements(types.NewPointer(n), it)) {
			return true
		}
	}
	return false
}

func isRef(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return true
	case *types.Tuple:
		return u.Len() > 0
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if isRef(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return isRef(u.Elem())
	}
	return false
}

// roots: where the memory v refers to may come from.
func (e *effects) roots(v ssa.Value) rootSet {
	if s, ok := e.memo[v]; ok {
		return s
	}
	if e.busy[v] {
		return rootSet{}
	}
	e.busy[v] = true
	s := e.roots1(v)
	delete(e.busy, v)
	if len(e.busy) == 0 {
		e.memo[v] = s
	}
	return s
}

func (e *effects) roots1(v ssa.Value) rootSet {
	out := rootSet{}
	switch v := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
	case *ssa.Parameter:
		for i, p := range v.Parent().Params {
			if p == v {
				out.add(root{kind: 'p', idx: i, val: v})
			}
		}
	case *ssa.FreeVar:
		for i, fv := range v.Parent().FreeVars {
			if fv != v {
				continue
			}
			for _, mc := range e.clos[v.Parent()] {
				out.addAll(e.roots(mc.Bindings[i]))
			}
		}
	case *ssa.Global:
		out.add(root{kind: 'g', val: v, text: v.Name()})
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeClosure, *ssa.MakeChan:
		out.add(root{kind: 'f', val: v})
	case *ssa.Phi:
		for _, x := range v.Edges {
			out.addAll(e.roots(x))
		}
	case *ssa.Slice:
		out.addAll(e.roots(v.X))
	case *ssa.ChangeType:
		out.addAll(e.roots(v.X))
	case *ssa.ChangeInterface:
		out.addAll(e.roots(v.X))
	case *ssa.MakeInterface:
		out.addAll(e.roots(v.X))
	case *ssa.TypeAssert:
		out.addAll(e.roots(v.X))
	case *ssa.Convert, *ssa.SliceToArrayPointer:
		out.add(root{kind: 'f', val: v})
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			out.addAll(e.callRoots(c, v.Index))
			break
		}
		switch t := v.Tuple.(type) {
		case *ssa.TypeAssert:
			out.addAll(e.roots(t.X))
		case *ssa.Lookup:
			out.addAll(e.content(t.X))
		case *ssa.Next:
			if r, ok := t.Iter.(*ssa.Range); ok {
				out.addAll(e.content(r.X))
			}
		}
	case *ssa.FieldAddr:
		out.addAll(e.roots(v.X))
	case *ssa.IndexAddr:
		out.addAll(e.roots(v.X))
	case *ssa.Field:
		out.addAll(e.roots(v.X))
	case *ssa.Index:
		out.addAll(e.content(v.X))
	case *ssa.Lookup:
		out.addAll(e.content(v.X))
	case *ssa.UnOp:
		if v.Op != token.MUL {
			break
		}
		switch a := v.X.(type) {
		case *ssa.FieldAddr:
			out.addAll(e.fieldContent(a))
		case *ssa.IndexAddr:
			out.addAll(e.content(a.X))
		case *ssa.Alloc:
			out.addAll(e.cellContent(a))
		case *ssa.Global:
			out.add(root{kind: 'g', val: a, text: a.Name()})
		case *ssa.FreeVar:
			for i, fv := range a.Parent().FreeVars {
				if fv != a {
					continue
				}
				for _, mc := range e.clos[a.Parent()] {
					if al, ok := mc.Bindings[i].(*ssa.Alloc); ok {
						out.addAll(e.cellContent(al))
					} else {
						out.addAll(e.roots(mc.Bindings[i]))
					}
				}
			}
		default:
			out.addAll(e.roots(a))
		}
	case *ssa.Call:
		out.addAll(e.callRoots(v, 0))
	default:
		out.add(root{kind: 'f', val: v})
	}
	return out
}

// content: what the elements of a collection may refer to.
func (e *effects) content(v ssa.Value) rootSet {
	out := rootSet{}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			for _, x := range v.Edges {
				walk(x)
			}
			return
		case *ssa.Slice:
			walk(v.X)
			return
		case *ssa.ChangeType:
			walk(v.X)
			return
		case *ssa.MakeSlice, *ssa.MakeMap, *ssa.Alloc:
			e.stored(v, out, walk, map[ssa.Value]bool{})
			return
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				for _, a := range v.Call.Args {
					walk(a)
				}
				e.stored(v, out, walk, map[ssa.Value]bool{})
				return
			}
		case *ssa.UnOp:
			if al, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
				if _, isArr := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); !isArr {
					for _, r := range *al.Referrers() {
						if st, ok := r.(*ssa.Store); ok && st.Addr == al {
							walk(st.Val)
						}
					}
					return
				}
			}
		}
		out.addAll(e.roots(v))
	}
	walk(v)
	return out
}

// stored adds what is stored into the elements of a locally made collection.
func (e *effects) stored(v ssa.Value, out rootSet, walk func(ssa.Value), seen map[ssa.Value]bool) {
	if seen[v] || v.Referrers() == nil {
		return
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.IndexAddr:
			if r.X != v {
				continue
			}
			for _, q := range *r.Referrers() {
				if st, ok := q.(*ssa.Store); ok && st.Addr == r {
					out.addAll(e.roots(st.Val))
				}
			}
		case *ssa.MapUpdate:
			if r.Map == v {
				out.addAll(e.roots(r.Value))
			}
		case *ssa.Phi:
			e.stored(r, out, walk, seen)
		case *ssa.Slice:
			e.stored(r, out, walk, seen)
		case *ssa.Store:
			if r.Addr == v {
				out.addAll(e.roots(r.Val))
			}
		}
	}
}

// fieldContent: what a field of a struct may refer to.
func (e *effects) fieldContent(a *ssa.FieldAddr) rootSet {
	out := rootSet{}
	n := derefNamed(a.X.Type())
	f := fieldOf(a.X.Type(), a.Field)
	if al, ok := a.X.(*ssa.Alloc); ok {
		// a struct of this function: what it stored there
		for _, r := range *al.Referrers() {
			if fa, ok := r.(*ssa.FieldAddr); ok && fa.Field == a.Field {
				for _, q := range *fa.Referrers() {
					if st, ok := q.(*ssa.Store); ok && st.Addr == fa {
						out.addAll(e.roots(st.Val))
					}
				}
			}
			if st, ok := r.(*ssa.Store); ok && st.Addr == al {
				out.addAll(e.roots(st.Val))
			}
		}
		return out
	}
	if e.kindOf(n) == 's' {
		name := f.Name()
		if n != nil {
			name = n.Obj().Name() + "." + name
		}
		out.add(root{kind: 's', text: name})
		return out
	}
	what := "an instance"
	if n != nil {
		what = "a " + n.Obj().Pkg().Name() + "." + n.Obj().Name()
		if e.kindOf(n) == 'b' {
			what = "values given to the builder " + n.Obj().Pkg().Name() + "." + n.Obj().Name()
		}
	}
	out.add(root{kind: 'o', text: f.Name() + " of " + what})
	return out
}

// cellContent: what a local variable may refer to.
func (e *effects) cellContent(a *ssa.Alloc) rootSet {
	out := rootSet{}
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == v {
					out.addAll(e.roots(r.Val))
				}
			case *ssa.MakeClosure:
				if g, ok := r.Fn.(*ssa.Function); ok {
					for i, b := range r.Bindings {
						if b == v && i < len(g.FreeVars) {
							visit(g.FreeVars[i])
						}
					}
				}
			}
		}
	}
	visit(a)
	return out
}

// callRoots: where result i of a call may point into.
func (e *effects) callRoots(c *ssa.Call, i int) rootSet {
	out := rootSet{}
	cc := &c.Call
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			out.add(root{kind: 'f', val: c})
			out.addAll(e.roots(cc.Args[0]))
		} else {
			out.add(root{kind: 'f', val: c})
		}
		return out
	}
	ts := e.targets(c)
	if len(ts) == 0 {
		if f := cc.StaticCallee(); f != nil && f.Pkg != nil && (f.Pkg.Pkg.Path() == "bytes" || f.Pkg.Pkg.Path() == "slices") {
			out.add(root{kind: 'f', val: c})
			for _, a := range cc.Args {
				if isRef(a.Type()) {
					out.addAll(e.roots(a))
				}
			}
			return out
		}
		if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "math/big" && f.Signature.Results().Len() > 0 && types.Identical(f.Signature.Results().At(0).Type(), f.Signature.Recv().Type()) {
			out.addAll(e.roots(cc.Args[0]))
			return out
		}
		out.add(root{kind: 'f', val: c})
		return out
	}
	args := e.args(c)
	for _, t := range ts {
		s := e.sums[t]
		if s == nil || i >= len(s.ret) {
			continue
		}
		for _, r := range s.ret[i] {
			switch r.kind {
			case 'f':
				out.add(root{kind: 'f', val: c})
			case 'p':
				if r.idx < len(args) {
					out.addAll(e.roots(args[r.idx]))
				}
			default:
				out.add(r)
			}
		}
	}
	return out
}

func (e *effects) args(c ssa.CallInstruction) []ssa.Value {
	cc := c.Common()
	if cc.IsInvoke() {
		return append([]ssa.Value{cc.Value}, cc.Args...)
	}
	return cc.Args
}

func (e *effects) targets(c ssa.CallInstruction) []*ssa.Function {
	ts := e.w.callees(c)
	if len(ts) == 0 && !c.Common().IsInvoke() {
		if mc, ok := c.Common().Value.(*ssa.MakeClosure); ok {
			if g, ok := mc.Fn.(*ssa.Function); ok {
				return []*ssa.Function{g}
			}
		}
	}
	var out []*ssa.Function
	for _, t := range ts {
		if e.sums[t] != nil {
			out = append(out, t)
		}
	}
	return out
}

var stdWriters = map[string]int{
	"(*os.File).Read": 1, "(*os.File).ReadAt": 1, "io.ReadFull": 1, "io.ReadAtLeast": 1,
	"(encoding/binary.littleEndian).PutUint64": 1, "(encoding/binary.littleEndian).PutUint32": 1, "(encoding/binary.littleEndian).PutUint16": 1,
	"(encoding/binary.bigEndian).PutUint64": 1, "(encoding/binary.bigEndian).PutUint32": 1, "(encoding/binary.bigEndian).PutUint16": 1,
	"encoding/binary.PutUvarint": 0, "encoding/binary.PutVarint": 0, "encoding/hex.Encode": 0, "encoding/hex.Decode": 0,
	"crypto/rand.Read": 0, "(*bytes.Buffer).Read": 1, "(*bytes.Reader).Read": 1, "(*bufio.Reader).Read": 1,
}

// writes lists the writes of a function through references, one level.
func (e *effects) writes(f *ssa.Function) []effWrite {
	var out []effWrite
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				switch a := in.Addr.(type) {
				case *ssa.Alloc, *ssa.Global:
				case *ssa.FreeVar:
				case *ssa.FieldAddr:
					out = append(out, effWrite{f: f, in: in, to: a.X, what: "the field " + fieldOf(a.X.Type(), a.Field).Name(), base: derefNamed(a.X.Type()), fld: fieldOf(a.X.Type(), a.Field)})
				case *ssa.IndexAddr:
					out = append(out, effWrite{f: f, in: in, to: a.X, what: "an element"})
				default:
					out = append(out, effWrite{f: f, in: in, to: a, what: "the value pointed to"})
				}
			case *ssa.MapUpdate:
				out = append(out, effWrite{f: f, in: in, to: in.Map, what: "an entry"})
			case ssa.CallInstruction:
				cc := in.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "delete", "clear":
						out = append(out, effWrite{f: f, in: in, to: cc.Args[0], what: "an entry"})
					case "copy":
						out = append(out, effWrite{f: f, in: in, to: cc.Args[0], what: "elements"})
					case "append":
						// the elements beyond a re-sliced end are overwritten
						if s := cutSlice(cc.Args[0], map[ssa.Value]bool{}); s != nil {
							out = append(out, effWrite{f: f, in: in, to: s.X, what: "elements beyond the cut"})
						} else if !cappedSlice(cc.Args[0]) {
							// the list may have room left, which its owner sees
							out = append(out, effWrite{f: f, in: in, to: cc.Args[0], what: beyondEnd})
						}
					}
					continue
				}
				g := cc.StaticCallee()
				if g == nil {
					if cc.IsInvoke() && cc.Method.Pkg() != nil && (cc.Method.Pkg().Path() == "io") && strings.HasPrefix(cc.Method.Name(), "Read") && len(cc.Args) > 0 {
						out = append(out, effWrite{f: f, in: in, to: cc.Args[0], what: "elements"})
					}
					continue
				}
				if e.w.inRepo(g) {
					continue
				}
				if i, ok := stdWriters[g.String()]; ok && i < len(cc.Args) {
					out = append(out, effWrite{f: f, in: in, to: cc.Args[i], what: "elements"})
				}
				if g.Pkg == nil {
					if o := g.Origin(); o != nil && o.Pkg != nil && o.Pkg.Pkg.Path() == "slices" && slicesWrites(o.Name()) {
						out = append(out, effWrite{f: f, in: in, to: cc.Args[0], what: "elements"})
					}
					continue
				}
				switch g.Pkg.Pkg.Path() {
				case "sort", "slices":
					if len(cc.Args) > 0 && (g.Pkg.Pkg.Path() == "sort" && !strings.HasPrefix(g.Name(), "Search") && !strings.Contains(g.Name(), "IsSorted") && !strings.Contains(g.Name(), "AreSorted") || slicesWrites(g.Name())) {
						out = append(out, effWrite{f: f, in: in, to: cc.Args[0], what: "elements"})
					}
				case "math/big":
					if g.Signature.Recv() != nil && bigWrites(g) {
						out = append(out, effWrite{f: f, in: in, to: cc.Args[0], what: "the number"})
					}
				}
			}
		}
	}
	return out
}

func slicesWrites(n string) bool {
	for _, p := range []string{"Sort", "Reverse", "Delete", "Insert", "Replace", "Compact"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func bigWrites(g *ssa.Function) bool {
	if strings.HasPrefix(g.Name(), "Set") || strings.HasPrefix(g.Name(), "Unmarshal") || strings.HasPrefix(g.Name(), "GobDecode") || g.Name() == "Scan" {
		return true
	}
	rs := g.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if types.Identical(rs.At(i).Type(), g.Signature.Recv().Type()) {
			return true
		}
	}
	return false
}

// cutSlice: the slice v is the start of a longer one.
func cutSlice(v ssa.Value, seen map[ssa.Value]bool) *ssa.Slice {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Slice:
		if v.High != nil && v.Max == nil {
			if _, isPtr := v.X.Type().Underlying().(*types.Pointer); !isPtr {
				return v
			}
		}
		if v.Max == nil {
			return cutSlice(v.X, seen)
		}
	case *ssa.Phi:
		for _, x := range v.Edges {
			if s := cutSlice(x, seen); s != nil {
				return s
			}
		}
	}
	return nil
}

// beyondEnd is what an append may write of the list it extends.
const beyondEnd = "elements beyond the end"

// cappedSlice: the slice v is cut with no room left.
func cappedSlice(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	return ok && s.Max != nil
}

// held: what keeping v keeps, one level of elements included.
func (e *effects) held(v ssa.Value) rootSet {
	out := rootSet{}
	out.addAll(e.roots(v))
	if sl, ok := v.Type().Underlying().(*types.Slice); ok && isRef(sl.Elem()) {
		out.addAll(e.content(v))
	}
	return out
}

// summarise updates the summary of f; it reports whether it changed.
func (e *effects) summarise(f *ssa.Function) bool {
	s := e.sums[f]
	ch := false
	mark := func(rs rootSet, how string) {
		for _, r := range rs {
			if r.kind == 'p' && r.val != nil && r.val.Parent() == f {
				if _, ok := s.mut[r.idx]; !ok {
					s.mut[r.idx] = how
					ch = true
				}
			}
		}
	}
	for _, w := range e.writes(f) {
		mark(e.roots(w.to), w.what+" at "+e.w.pos(w.in.Pos()))
	}
	keep := func(v ssa.Value) {
		if !isRef(v.Type()) {
			return
		}
		for _, r := range e.held(v) {
			if r.kind == 'p' && r.val != nil && r.val.Parent() == f && !s.retain[r.idx] {
				s.retain[r.idx] = true
				ch = true
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				switch in.Addr.(type) {
				case *ssa.FieldAddr:
					keep(in.Val)
				}
			case *ssa.Return:
				for i, v := range in.Results {
					if isRef(v.Type()) && i < len(s.ret) && s.ret[i].addAll(e.local(f, e.roots(v))) {
						ch = true
					}
				}
			case ssa.CallInstruction:
				args := e.args(in)
				for _, t := range e.targets(in) {
					ts := e.sums[t]
					for i := range args {
						if how, ok := ts.mut[i]; ok {
							mark(e.roots(args[i]), how)
						}
						if ts.retain[i] {
							keep(args[i])
						}
					}
				}
			}
		}
	}
	return ch
}

// local forgets which allocation of f a root is: callers see a fresh one.
func (e *effects) local(f *ssa.Function, rs rootSet) rootSet {
	out := rootSet{}
	for _, r := range rs {
		if r.kind == 'f' {
			r = root{kind: 'f'}
		} else if r.kind == 'p' {
			if r.val == nil || r.val.Parent() != f {
				continue
			}
			r = root{kind: 'p', idx: r.idx}
		}
		out.add(r)
	}
	return out
}
