package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file reads the builders of the repository: what their setters store, and
// where every value an instance exposes comes from on each path of Now.

// accessor is what a public method without parameters returns.
type accessor struct {
	name  string
	path  []*types.Var // fields walked from the receiver
	deref bool         // the last value is a pointer that is dereferenced
	has   bool         // reports whether the value is present
	inner bool         // the path goes through another accessor's structure
}

// accessorOf reads an accessor that returns what a field holds; ok is false when
// it computes something.
func (w *World) accessorOf(f *ssa.Function) (accessor, bool) {
	if m, ok := accMemo[f]; ok {
		return m.a, m.ok
	}
	accMemo[f] = accRes{}
	a, ok := w.readAccessor(f)
	accMemo[f] = accRes{a, ok}
	return a, ok
}

type accRes struct {
	a  accessor
	ok bool
}

var accMemo = map[*ssa.Function]accRes{}

func (w *World) readAccessor(f *ssa.Function) (a accessor, ok bool) {
	a.name = f.Name()
	if f.Blocks == nil || len(f.Params) != 1 || instrCount(f) > 60 || f.Signature.Results().Len() != 1 {
		return a, false
	}
	fl, err := flatten(w, f, func(g *ssa.Function, fr *Frame) bool { return w.isGetter(g) })
	if err != nil {
		return a, false
	}
	for _, n := range fl.Nodes {
		switch n.Op {
		case OpStore, OpMapUpdate, OpGo, OpDeferReg:
			return a, false
		}
	}
	x := explode(fl, nil, nil, nil)
	x.AliasInts = true
	x.WantField = func(*types.Var) bool { return true }
	if err := x.Run(); err != nil || len(x.RetSt) == 0 {
		return a, false
	}
	// x.path: the fields walked from the receiver to a symbol
	pathOf := func(st *State, s Sym) ([]*types.Var, bool, bool) { return x.symPath(st, s, 0) }
	key := func(p []*types.Var, d bool) string {
		k := fmt.Sprint(d)
		for _, v := range p {
			k += "/" + fieldName(v)
		}
		return k
	}
	set, have := "", false
	accept := func(p []*types.Var, d, has bool) bool {
		k := key(p, d) + fmt.Sprint(has)
		if have && k != set {
			return false
		}
		set, have = k, true
		a.path, a.deref, a.has = p, d, has
		return len(p) > 0
	}
	var pend []retRec
	for _, r := range x.RetSt {
		s := x.res(r.st, r.n.Args[0])
		m := x.symNode(s)
		if m == nil {
			return a, false
		}
		if p, d, ok := pathOf(r.st, s); ok {
			if !accept(p, d, false) {
				return a, false
			}
			continue
		}
		if p, d, ok := x.presence(r.st, m); ok {
			if !accept(p, d, true) {
				return a, false
			}
			continue
		}
		if m.Op == OpConst {
			pend = append(pend, r)
			continue
		}
		return a, false
	}
	for _, r := range pend {
		s := x.res(r.st, r.n.Args[0])
		m := x.symNode(s)
		want := Unknown
		switch {
		case m.Nil:
			want = IsNil
		case x.fact(r.st, s) == IsTrue:
			want = NonNil
		case x.fact(r.st, s) == IsFalse:
			want = IsNil
		default:
			return a, false
		}
		found := false
		for l, v := range r.st.mem {
			if l.Kind != 'f' {
				continue
			}
			v = x.resSym(r.st, v)
			if x.fact(r.st, v) != want {
				continue
			}
			p, d, ok := pathOf(r.st, v)
			if ok && (!have || key(p, d)+fmt.Sprint(!m.Nil) == set) && (have || len(pend) > 1) {
				if accept(p, d, !m.Nil) {
					found = true
				}
			}
		}
		if !found {
			return a, false
		}
	}
	return a, have
}

// symPath: the fields walked from the receiver to a symbol.
func (x *Exploder) symPath(st *State, s Sym, d int) ([]*types.Var, bool, bool) {
	m := x.symNode(x.resSym(st, s))
	if m == nil || d > 10 {
		return nil, false, false
	}
	switch m.Op {
	case OpParam:
		return nil, false, m.Idx == 0
	case OpUnwrap, OpChangeIface, OpMakeIface:
		return x.symPath(st, x.res(st, m.Args[0]), d+1)
	case OpLoad:
		if fa := m.Args[0]; fa.Op == OpFieldAddr {
			p, deref, ok := x.symPath(st, x.res(st, fa.Args[0]), d+1)
			if !ok || deref {
				return nil, false, false
			}
			return append(append([]*types.Var{}, p...), fa.Field), false, true
		}
		p, deref, ok := x.symPath(st, x.res(st, m.Args[0]), d+1)
		if !ok || deref || len(p) == 0 {
			return nil, false, false
		}
		return p, true, true
	}
	return nil, false, false
}

// presence: the value compares a field with its absent value.
func (x *Exploder) presence(st *State, m *Node) ([]*types.Var, bool, bool) {
	if m.Op != OpBin || m.Tok != token.NEQ {
		return nil, false, false
	}
	for i := 0; i < 2; i++ {
		k := x.symNode(x.res(st, m.Args[i]))
		if k == nil || k.Op != OpConst {
			continue
		}
		if k.Nil || k.Const != nil && k.Const.Kind() == constant.String && constant.StringVal(k.Const) == "" {
			p, d, ok := x.symPath(st, x.res(st, m.Args[1-i]), 0)
			return p, d, ok
		}
	}
	return nil, false, false
}

// setter is a builder method that records a value.
type setter struct {
	fn    *ssa.Function
	name  string // name of the value: the method name without With
	field *types.Var
	ptr   bool // the address of the value is stored
	flag  bool // stores a constant true
	why   string
}

// buildRet is one way out of Now with an instance.
type buildRet struct {
	x     *Exploder
	st    *State
	root  Sym
	node  *Node
	where string
}

type builderInfo struct {
	t       *types.Named
	name    string // public name: package.Interface it builds
	now     *ssa.Function
	create  *ssa.Function
	setters []*setter
	rets    []buildRet
	notes   []nowNote
	bothNil []string // ways out with neither an instance nor an error, or with both
	x       *Exploder
	res     *types.Named // the public interface built
}

// builders finds every builder: a structure with Create and Now.
func (c *Ctx) builders() ([]*builderInfo, error) {
	if c.build != nil {
		return c.build, nil
	}
	var out []*builderInfo
	for _, f := range c.W.Funcs {
		if f.Name() != "Now" || f.Signature.Recv() == nil || f.Synthetic != "" || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 2 || !isErrorType(f.Signature.Results().At(1).Type()) {
			continue
		}
		t := derefNamed(f.Signature.Recv().Type())
		cr := c.W.methodOf(types.NewPointer(t), "Create")
		if t == nil || cr == nil {
			continue
		}
		bi := &builderInfo{t: t, now: f, create: cr}
		res, ok := types.Unalias(f.Signature.Results().At(0).Type()).(*types.Named)
		if !ok {
			continue
		}
		bi.res = res
		bi.name = strings.TrimPrefix(res.Obj().Pkg().Path(), modPath+"/") + "." + res.Obj().Name()
		ms := types.NewMethodSet(types.NewPointer(t))
		for i := 0; i < ms.Len(); i++ {
			m := c.W.Prog.MethodValue(ms.At(i))
			if m == nil || m.Object() == nil || !m.Object().Exported() || m.Name() == "Now" || m.Name() == "Create" || m.Signature.Results().Len() != 1 || m.Signature.Params().Len() > 1 {
				continue
			}
			if !types.Identical(m.Signature.Results().At(0).Type(), cr.Signature.Results().At(0).Type()) {
				continue
			}
			s := &setter{fn: m, name: strings.TrimPrefix(m.Name(), "With")}
			if err := c.readSetter(bi, s); err != nil {
				return nil, err
			}
			bi.setters = append(bi.setters, s)
		}
		if err := c.readNow(bi); err != nil {
			return nil, err
		}
		out = append(out, bi)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	c.build = out
	return out, nil
}

func (c *Ctx) buildPolicy(pkg *ssa.Package) func(*ssa.Function, *Frame) bool {
	return func(f *ssa.Function, fr *Frame) bool {
		return f.Pkg == pkg && (f.Signature.Recv() == nil || derefNamed(f.Signature.Recv().Type()) == derefNamed(fr.root().Fn.Signature.Recv().Type())) || c.W.isGetter(f)
	}
}

func (f *Frame) root() *Frame {
	for f.Parent != nil {
		f = f.Parent
	}
	return f
}

func (c *Ctx) readSetter(bi *builderInfo, s *setter) error {
	fl, err := flatten(c.W, s.fn, c.buildPolicy(s.fn.Pkg))
	if err != nil {
		return err
	}
	x := explode(fl, c.Shapes, c.Sums, nil)
	x.AliasInts = true
	x.WantField = func(f *types.Var) bool { return true }
	stores := map[*types.Var]bool{}
	for _, n := range fl.Nodes {
		if n.Op == OpStore && n.Args[0].Op == OpFieldAddr && derefNamed(n.Args[0].Args[0].T) == bi.t {
			stores[n.Args[0].Field] = true
		}
	}
	if err := x.Run(); err != nil {
		return err
	}
	if len(stores) != 1 {
		s.why = fmt.Sprintf("it changes %d values of the builder instead of one", len(stores))
		return nil
	}
	for f := range stores {
		s.field = f
	}
	if len(x.RetSt) == 0 {
		s.why = "it never returns"
		return nil
	}
	for _, r := range x.RetSt {
		b := x.symNode(x.base(r.st, x.res(r.st, r.n.Args[0])))
		if b == nil || b.Op != OpParam || b.Idx != 0 {
			s.why = "it does not return the builder it was called on"
			return nil
		}
		v, ok := r.st.mem[Loc{Base: Sym(fl.Params[0].ID), Field: s.field, Kind: 'f'}]
		if !ok {
			s.why = "it does not store its argument on every path"
			return nil
		}
		v = x.resSym(r.st, v)
		m := x.symNode(v)
		if len(fl.Params) == 1 {
			if m != nil && x.fact(r.st, v) == IsTrue {
				s.flag = true
				continue
			}
			s.why = "it does not set its flag"
			return nil
		}
		if v == Sym(fl.Params[1].ID) {
			continue
		}
		if m != nil && m.Op == OpAlloc {
			if cv, ok := r.st.mem[Loc{Base: v, Kind: 'c'}]; ok && x.resSym(r.st, cv) == Sym(fl.Params[1].ID) {
				s.ptr = true
				continue
			}
		}
		s.why = "it stores something else than its argument"
		return nil
	}
	return nil
}

func (c *Ctx) readNow(bi *builderInfo) error {
	fl, err := flatten(c.W, bi.now, c.buildPolicy(bi.now.Pkg))
	if err != nil {
		return err
	}
	mon := &nowMon{c: c, bi: bi}
	x := explode(fl, c.Shapes, c.Sums, mon)
	x.SplitErr = true
	x.WantField = func(f *types.Var) bool { return true }
	if err := x.Run(); err != nil {
		return err
	}
	bi.x = x
	seen := map[string]bool{}
	for _, r := range x.RetSt {
		v, e := x.Fact(r.st, r.n.Args[0]), x.Fact(r.st, r.n.Args[1])
		where := c.W.pos(r.n.Pos)
		if !(v == IsNil && e == NonNil) && !(v == NonNil && e == IsNil) {
			if !seen[where] {
				seen[where] = true
				bi.bothNil = append(bi.bothNil, fmt.Sprintf("%s: instance %s, error %s", where, v, e))
			}
		}
		if v == IsNil || e == NonNil {
			continue
		}
		bi.rets = append(bi.rets, buildRet{x: x, st: r.st, root: x.base(r.st, x.res(r.st, r.n.Args[0])), node: r.n, where: where})
	}
	return nil
}

// nowMon looks at what Now does to the values of its builder.
type nowMon struct {
	c  *Ctx
	bi *builderInfo
}

func (m *nowMon) note(kind, what string, n *Node, f *types.Var) {
	for _, e := range m.bi.notes {
		if e.kind == kind && e.f == f && e.what == what {
			return
		}
	}
	m.bi.notes = append(m.bi.notes, nowNote{kind, what, m.c.W.pos(n.Pos), f})
}

type nowNote struct {
	kind, what, where string
	f                 *types.Var
}

func (m *nowMon) Step(x *Exploder, xn *XNode, st *State, n *Node) {
	isBuilder := func(a *Node) bool {
		b := x.symNode(x.base(st, x.res(st, a)))
		return b != nil && b.Op == OpParam && b.Idx == 0
	}
	switch n.Op {
	case OpStore:
		a := n.Args[0]
		if a.Op != OpFieldAddr || !isBuilder(a.Args[0]) {
			return
		}
		cur, ok := st.mem[Loc{Base: x.base(st, x.res(st, a.Args[0])), Field: a.Field, Kind: 'f'}]
		if x.Fact(st, n.Args[1]) != IsNil {
			m.note("replace", "it replaces the value it was given", n, a.Field)
			return
		}
		if !ok || !x.absent(st, x.resSym(st, cur)) {
			m.note("clear", "it forgets a value it was given", n, a.Field)
		}
	case OpLoad:
		a := n.Args[0]
		if a.Op == OpFieldAddr || a.Op == OpIndexAddr {
			return
		}
		s := x.res(st, a)
		p := x.symNode(s)
		if p == nil || p.Op != OpLoad || p.Args[0].Op != OpFieldAddr || !isBuilder(p.Args[0].Args[0]) {
			return
		}
		if x.fact(st, s) != NonNil {
			m.note("deref", "it panics instead of refusing when the value was not given", n, p.Args[0].Field)
		} else {
			m.note("derefok", "", n, p.Args[0].Field)
		}
	case OpNilCheck:
		s := x.res(st, n.Args[0])
		p := x.symNode(s)
		if p == nil || p.Op != OpLoad || p.Args[0].Op != OpFieldAddr || !isBuilder(p.Args[0].Args[0]) {
			return
		}
		if x.fact(st, s) != NonNil && m.bi.setterOf(p.Args[0].Field) != nil {
			m.note("deref", "it panics instead of refusing when the value was not given", n, p.Args[0].Field)
		}
	}
}

func (bi *builderInfo) setterOf(f *types.Var) *setter {
	for _, s := range bi.setters {
		if s.field == f {
			return s
		}
	}
	return nil
}

// absent: the value is known to be nil, empty, zero or false.
func (x *Exploder) absent(st *State, s Sym) bool {
	switch x.fact(st, s) {
	case IsNil, IsFalse:
		return true
	}
	if m := x.symNode(s); m != nil && m.Op == OpConst && (m.Const == nil || m.Const.ExactString() == "0" || m.Const.ExactString() == `""`) {
		return true
	}
	l, v := fmt.Sprintf("len(s%d)", s), fmt.Sprintf("s%d", s)
	for _, k := range []string{"k0<" + l, "k0<" + v, `k""<` + v} {
		if o, ok := st.cmp[k]; ok && !o {
			return true
		}
	}
	for _, k := range []string{l + "<k1", v + "<k1", "k0==" + l, "k0==" + v, `k""==` + v} {
		if o, ok := st.cmp[k]; ok && o {
			return true
		}
	}
	return false
}

// present: the value is known not to be nil, empty, zero or false.
func (x *Exploder) present(st *State, s Sym) bool {
	m := x.symNode(s)
	if x.fact(st, s) == IsTrue {
		return true
	}
	if m != nil && m.T != nil {
		if _, sl := m.T.Underlying().(*types.Slice); !sl && x.fact(st, s) == NonNil {
			return true
		}
	}
	l, v := fmt.Sprintf("len(s%d)", s), fmt.Sprintf("s%d", s)
	for _, k := range []string{"k0<" + l, "k0<" + v, `k""<` + v} {
		if st.cmp[k] {
			return true
		}
	}
	for _, k := range []string{l + "<k1", v + "<k1", "k0==" + l, "k0==" + v, `k""==` + v} {
		if o, ok := st.cmp[k]; ok && !o {
			return true
		}
	}
	return false
}

// origin says where a value exposed by a new instance comes from.
type origin struct {
	kind string // field, zero, const, alloc, other
	bf   *types.Var
	sym  Sym
	text string
}

func (bi *builderInfo) originOf(r buildRet, s Sym, d int) origin {
	x := r.x
	s = x.resSym(r.st, s)
	m := x.symNode(s)
	if m == nil || d > 8 {
		return origin{kind: "other", sym: s, text: "?"}
	}
	switch m.Op {
	case OpConst:
		if m.Nil || m.Const == nil || m.Const.ExactString() == "0" || m.Const.ExactString() == `""` || m.Const.ExactString() == "false" {
			return origin{kind: "zero", sym: s, text: "zero"}
		}
		return origin{kind: "const", sym: s, text: m.Const.ExactString()}
	case OpLoad:
		a := m.Args[0]
		if a.Op == OpFieldAddr {
			b := x.symNode(x.base(r.st, x.res(r.st, a.Args[0])))
			if b != nil && b.Op == OpParam && b.Idx == 0 {
				return origin{kind: "field", bf: a.Field, sym: s, text: a.Field.Name()}
			}
		}
		if o := bi.originOf(r, x.res(r.st, a), d+1); o.kind == "field" {
			return o
		}
	case OpConv, OpMakeIface:
		return bi.originOf(r, x.res(r.st, m.Args[0]), d+1)
	case OpAlloc:
		return origin{kind: "alloc", sym: s, text: m.Name}
	}
	return origin{kind: "other", sym: s, text: m.String()}
}

// read evaluates an accessor path on a new instance.
func (bi *builderInfo) read(r buildRet, path []*types.Var) (Sym, bool) {
	cur := r.root
	for _, f := range path {
		v, ok := r.st.mem[Loc{Base: cur, Field: f, Kind: 'f'}]
		if !ok {
			if r.st.fresh[cur] {
				if z := r.x.zero(f.Type()); z != nil {
					cur = Sym(z.ID)
					continue
				}
			}
			return 0, false
		}
		cur = r.x.base(r.st, r.x.resSym(r.st, v))
	}
	return cur, true
}

// exposed lists the accessors of what Now returns, by public name, with nested
// structures created along the way ("Content.Value").
func (c *Ctx) exposed(bi *builderInfo) map[string]accessor {
	out := map[string]accessor{}
	for _, r := range bi.rets {
		root := r.x.symNode(r.root)
		if root == nil || root.Op != OpAlloc {
			continue
		}
		c.walkAccessors(bi, r, r.root, nil, "", out, 0)
	}
	return out
}

func (c *Ctx) walkAccessors(bi *builderInfo, r buildRet, s Sym, prefix []*types.Var, name string, out map[string]accessor, d int) {
	n := r.x.symNode(s)
	if n == nil || n.Op != OpAlloc || d > 3 {
		return
	}
	t := derefNamed(n.T)
	if t == nil || !pkgInRepo(t.Obj().Pkg()) {
		return
	}
	ms := types.NewMethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		m := c.W.Prog.MethodValue(ms.At(i))
		if m == nil || m.Object() == nil || !m.Object().Exported() || m.Signature.Params().Len() != 0 || m.Signature.Results().Len() != 1 {
			continue
		}
		a, ok := c.W.accessorOf(m)
		if !ok {
			continue
		}
		full := name + m.Name()
		a.name = full
		a.path = append(append([]*types.Var{}, prefix...), a.path...)
		out[full] = a
		if a.has || a.deref {
			continue
		}
		v, ok := bi.read(r, a.path)
		if ok {
			c.walkAccessors(bi, r, v, a.path, full+".", out, d+1)
		}
	}
}

func (c *Ctx) dumpBuilders() string {
	bs, err := c.builders()
	if err != nil {
		return err.Error()
	}
	var out []string
	for _, bi := range bs {
		out = append(out, "== "+bi.name+"  ["+short(bi.now)+"] rets="+fmt.Sprint(len(bi.rets))+" "+strings.Join(bi.bothNil, "; "))
		by := map[*types.Var]string{}
		for _, s := range bi.setters {
			f := "?"
			if s.field != nil {
				f = s.field.Name()
				by[s.field] = s.name
			}
			out = append(out, "   set "+s.name+" -> "+f+" "+s.why)
		}
		acc := c.exposed(bi)
		var ks []string
		for k := range acc {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			a := acc[k]
			var l []string
			for _, r := range bi.rets {
				v, ok := bi.read(r, a.path)
				if !ok {
					l = append(l, "-")
					continue
				}
				o := bi.originOf(r, v, 0)
				tx := o.text
				if o.kind == "field" {
					tx = "<" + by[o.bf] + ">"
					if r.x.present(r.st, o.sym) {
						tx += "+"
					}
				} else {
					tx = o.kind + " " + tx
				}
				l = append(l, tx+":"+r.x.fact(r.st, v).String())
			}
			fl := ""
			if a.deref {
				fl += "*"
			}
			if a.has {
				fl += "?"
			}
			out = append(out, "   get "+k+fl+" = "+strings.Join(l, " | "))
		}
	}
	return strings.Join(out, "\n")
}

func pathKey(p []*types.Var) string {
	k := ""
	for _, v := range p {
		k += "/" + fieldName(v)
	}
	return k
}
