package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C01"] = rule{"Crash atomicity of the database file: typestate over the flattened operations of the database, every file-system call classified by effect and by the path or handle it concerns. Only create, delete and commit may change files; creating must have found no such file; commit may change the database path only by renaming onto it a file it wrote beside it, whose writes all succeeded and were flushed to disk before the rename.", func(c *Ctx, r *Result) error { return runDB(c, r, "C01") }}
	rules["C04"] = rule{"Lock typestate over the flattened commit: every file mutation happens between a successful acquisition and the release of the lock of the committed context, created on the path of its database; every way out releases it; nothing is touched when acquisition fails.", func(c *Ctx, r *Result) error { return runDB(c, r, "C04") }}
	rules["C05"] = rule{"Effect analysis of the open context: which operation may change which part of a context, on which outcome and to which value; reads change nothing, writing only appends the given content, cancelling only empties the pending contents, a failed operation changes nothing, and a successful commit installs the reference it saved, the connection to the new file and empties the pending contents.", func(c *Ctx, r *Result) error { return runDB(c, r, "C05") }}
	rules["C07"] = rule{"Handle discipline: a context is only reached through a lookup of the caller's handle known to have succeeded; a failed lookup ends in an error without effect; a new context is stored under a handle that no open context has (an ever-increasing counter or a lookup known to have failed) after every open context was compared by name.", func(c *Ctx, r *Result) error { return runDB(c, r, "C07") }}
	rules["C08"] = rule{"Resource typestate over the flattened operations of the database: every file handle opened on a path is closed or handed to an open context on every way out, no handle is used after it was closed, and a failed operation leaves the connection of its context open.", func(c *Ctx, r *Result) error { return runDB(c, r, "C08") }}
}

type dbMon struct {
	m        *dbModel
	op       string
	x        *Exploder
	r        *Result
	prop     string
	mutFn    map[string]bool
	pathOf   map[int]map[string]bool
	handled  map[string]bool
	nameLoop map[int]bool
}

func runDB(c *Ctx, r *Result, prop string) error {
	m, err := c.db()
	if err != nil {
		return err
	}
	for _, op := range dbOpNames {
		f := m.ops[op]
		pol := m.policy
		if op == "Write" {
			pol = func(g *ssa.Function, fr *Frame) bool {
				return m.policy(g, fr) || g.Pkg != nil && g.Pkg.Pkg.Path() == modPath+"/libs/databases/domain/contents"
			}
		}
		fl, err := flatten(c.W, f, pol)
		if err != nil {
			return err
		}
		for g := range fl.Inl {
			r.fn(short(g))
		}
		x := explode(fl, c.Shapes, c.Sums, nil)
		x.SplitErr = true
		d := &dbMon{m: m, op: op, x: x, r: r, prop: prop, pathOf: map[int]map[string]bool{}, handled: map[string]bool{}}
		x.Mon = d
		x.WantField = func(f *types.Var) bool {
			return op == "Write" && f.Pkg() != nil && f.Pkg().Path() == modPath+"/libs/databases/domain/contents"
		}
		x.After = d.after
		x.OnEdge = d.edge
		if err := x.Run(); err != nil {
			return err
		}
		d.finish()
	}
	switch prop {
	case "C01":
		r.need("mutation", 5)
		r.need("rename-onto-database", 1)
		r.need("success-return", 3)
	case "C04":
		r.need("locked-mutation", 5)
		r.need("lock-target", 1)
		r.need("release", 2)
	case "C05":
		r.need("context-write", 5)
		r.need("return", 20)
	case "C07":
		r.need("lookup-verified-return", 8)
		r.need("fresh-handle", 1)
	case "C08":
		r.need("handle", 4)
		r.need("return", 20)
	}
	return nil
}

func (d *dbMon) fail(prop, kind, what string, n *Node, xn *XNode, detail string) {
	if prop != d.prop {
		return
	}
	where := "?"
	fn := short(d.x.Fl.Fn)
	if n != nil {
		where = d.m.c.W.pos(n.Pos)
		if n.Fr != nil {
			fn = short(n.Fr.Fn)
		}
	}
	var tr []string
	if xn != nil {
		tr = d.x.trace(xn)
	}
	d.r.fail(kind, d.op+"|"+fn+"|"+what, where, detail, tr)
}

func (d *dbMon) good(prop, kind, what string) {
	if prop == d.prop {
		k := kind + "|" + what
		if !d.handled[k] {
			d.handled[k] = true
			d.r.ok(kind, d.op+": "+what)
		}
	}
}

func (d *dbMon) nameOK() bool {
	switch d.op {
	case "Exists", "New", "Delete", "Open":
		return true
	}
	return false
}

func (d *dbMon) class(term string) pclass {
	if !d.nameOK() && strings.Contains(term, "param1") {
		return pUnknown
	}
	k, _ := d.m.classOf(term)
	return k
}

// handle resolves a handle value: the call that opened it, or the connection of
// the context.
func (d *dbMon) handle(st *State, n *Node) (id int, ctxConn bool, ok bool) {
	s := d.x.base(st, d.x.res(st, n))
	if cid, idx, isSlot := slotNode(s); isSlot && idx == 0 {
		return cid, false, true
	}
	if nd := d.x.symNode(s); nd != nil && nd.Op == OpLoad && nd.Args[0].Op == OpFieldAddr && nd.Args[0].Field == d.m.conn {
		return 0, true, true
	}
	return 0, false, false
}

// ctxOf tells whether a pointer designates the context of the caller's handle.
func (d *dbMon) ctxOf(st *State, n *Node) bool {
	s := d.x.base(st, d.x.res(st, n))
	id, idx, ok := slotNode(s)
	if !ok || idx != 0 {
		return false
	}
	lk := d.x.Fl.Nodes[id]
	return d.ctxLookup(st, lk)
}

// ctxLookup: a lookup of the contexts by the caller's handle.
func (d *dbMon) ctxLookup(st *State, lk *Node) bool {
	if lk.Op != OpLookup || !d.isCtxMap(st, lk.Args[0]) || len(d.x.Fl.Params) < 2 {
		return false
	}
	return d.x.res(st, lk.Args[1]) == Sym(d.x.Fl.Params[1].ID)
}

func (d *dbMon) isCtxMap(st *State, n *Node) bool {
	m := d.x.symNode(d.x.res(st, n))
	if m == nil || m.Op != OpLoad || m.Args[0].Op != OpFieldAddr || m.Args[0].Field != d.m.ctxMap {
		return false
	}
	b := d.x.symNode(d.x.base(st, d.x.res(st, m.Args[0].Args[0])))
	return b != nil && b.Op == OpParam && b.Idx == 0
}

func (d *dbMon) emptySlice(st *State, n *Node) bool {
	m := d.x.symNode(d.x.res(st, n))
	if m == nil {
		return false
	}
	zero := func(a *Node) bool {
		return a != nil && a.Op == OpConst && a.Const != nil && a.Const.ExactString() == "0"
	}
	switch m.Op {
	case OpConst:
		return m.Nil
	case OpMakeSlice:
		return zero(m.Args[0])
	case OpSlice:
		if zero(m.Args[2]) {
			return true
		}
		if p, ok := m.Args[0].T.Underlying().(*types.Pointer); ok && m.Args[0].Op == OpAlloc {
			if ar, ok := p.Elem().Underlying().(*types.Array); ok {
				return ar.Len() == 0
			}
		}
	}
	return false
}

func (d *dbMon) mut(st *State, n *Node, xn *XNode, what string) {
	st.Mon = monAdd(st.Mon, "U")
	switch d.op {
	case "New", "Delete", "Commit":
	default:
		d.fail("C01", "mutation", what, n, xn, d.op+" changes files ("+what+"), only creating, deleting and committing may")
		return
	}
	d.good("C01", "mutation", what+" @"+d.m.c.W.pos(n.Pos))
	if d.op == "Commit" {
		if monHas(st.Mon, "K") {
			d.good("C04", "locked-mutation", what+" @"+d.m.c.W.pos(n.Pos))
		} else {
			d.fail("C04", "locked-mutation", what, n, xn, "commit changes a file ("+what+") without holding the lock of the database")
		}
	}
}

// Step looks at effects before they happen.
func (d *dbMon) Step(x *Exploder, xn *XNode, st *State, n *Node) {
	switch n.Op {
	case OpStore:
		d.store(xn, st, n)
	case OpMapUpdate:
		if d.isCtxMap(st, n.Args[0]) {
			d.mapUpdate(xn, st, n)
		}
	case OpNext:
		if d.op == "Open" && monHas(st.Mon, "iter") && n.Args[0].Op == OpRange && d.isCtxMap(st, n.Args[0].Args[0]) {
			if !monHas(st.Mon, "neq") && !monHas(st.Mon, "dup") {
				d.fail("C07", "one-context-per-database", "skipped", n, xn, "opening can go on without having compared the name of an open context with the given one")
			}
			st.Mon = monDel(st.Mon, "iter")
			st.Mon = monDel(st.Mon, "neq")
		}
	case OpGo:
		d.fail("C04", "concurrency", "go", n, xn, "a database operation starts a goroutine: its effects can no longer be ordered against the lock")
		d.fail("C01", "concurrency", "go", n, xn, "a database operation starts a goroutine: its effects can no longer be ordered")
	case OpNilCheck, OpFieldAddr, OpLoad:
		if n.Op == OpLoad && n.Args[0].Op == OpFieldAddr && derefNamed(n.Args[0].Args[0].T) == d.m.ctx {
			b := n.Args[0].Args[0]
			if d.ctxOf(st, b) && !monHas(st.Mon, "V") {
				d.fail("C07", "unverified-context", n.Args[0].Field.Name(), n, xn, d.op+" uses the context of a handle not known to designate an open context")
			}
		}
	}
}

func (d *dbMon) store(xn *XNode, st *State, n *Node) {
	a := n.Args[0]
	am := d.x.symNode(d.x.res(st, a))
	if am != nil && am.Op == OpFieldAddr {
		a = am
	}
	if a.Op == OpIndexAddr {
		sl := d.x.symNode(d.x.res(st, a.Args[0]))
		if sl != nil && sl.Op == OpLoad && sl.Args[0].Op == OpFieldAddr && sl.Args[0].Field == d.m.list {
			d.fail("C05", "context-write", "pending element", n, xn, d.op+" overwrites a pending content in place")
		}
		return
	}
	if a.Op == OpFieldAddr && derefNamed(a.Args[0].T) == d.m.app {
		if b := d.x.symNode(d.x.base(st, d.x.res(st, a.Args[0]))); b != nil && b.Op == OpAlloc {
			return
		}
		d.appStore(xn, st, n, a)
		return
	}
	if a.Op != OpFieldAddr {
		if t := derefNamed(a.T); t == d.m.ctx && a.Op != OpAlloc {
			d.fail("C05", "context-write", "whole context", n, xn, d.op+" overwrites a whole context in place")
		}
		return
	}
	if derefNamed(a.Args[0].T) != d.m.ctx {
		return
	}
	if b := d.x.symNode(d.x.base(st, d.x.res(st, a.Args[0]))); b != nil && b.Op == OpAlloc {
		if a.Field == d.m.name {
			if d.x.res(st, n.Args[1]) == Sym(d.x.Fl.Params[1].ID) {
				st.Mon = monAdd(st.Mon, "nm")
			}
		}
		if a.Field == d.m.lock {
			lk := d.x.symNode(d.x.res(st, n.Args[1]))
			if lk != nil && lk.Op == OpCall && lk.extName() == "github.com/juju/fslock.New" && d.class(d.x.pathTerm(st, lk.Args[0])) == pLive {
				d.good("C04", "lock-target", "lock created on the database path")
				st.Mon = monAdd(st.Mon, "lk")
			} else {
				d.fail("C04", "lock-target", "open", n, xn, "the lock of the new context is not created on the path of its database")
			}
		}
		if a.Field == d.m.conn {
			if id, _, ok := d.handle(st, n.Args[1]); ok {
				st.Mon = monAdd(st.Mon, fmt.Sprintf("G%d", id))
				if monHas(st.Mon, fmt.Sprintf("P%d", id)) {
					st.Mon = monAdd(st.Mon, "cn")
				}
			}
		}
		return
	}
	f := a.Field
	if !d.ctxOf(st, a.Args[0]) {
		d.fail("C05", "context-write", f.Name()+" of another context", n, xn, d.op+" changes the "+f.Name()+" of a context other than the one it was called with")
		return
	}
	if !monHas(st.Mon, "V") {
		d.fail("C07", "unverified-context", f.Name(), n, xn, d.op+" changes the context of a handle not known to designate an open context")
	}
	key := f.Name()
	role := "other"
	switch f {
	case d.m.conn:
		role = "conn"
	case d.m.ref:
		role = "ref"
	case d.m.list:
		role = "list"
	case d.m.off:
		role = "off"
	case d.m.name, d.m.lock:
		role = "identity"
	}
	bad := func(why string) {
		d.fail("C05", "context-write", key, n, xn, d.op+" sets the "+key+" of its context "+why)
	}
	switch {
	case d.op == "Write" && role == "list":
		if why := d.appendOfContent(st, n.Args[1]); why != "" {
			bad(why)
			break
		}
		if monHas(st.Mon, "Mlist") {
			bad("twice in one call: the content becomes pending more than once")
			break
		}
		d.good("C05", "context-write", "Write appends the given content")
	case d.op == "Cancel" && role == "list":
		if !d.emptySlice(st, n.Args[1]) {
			bad("to something else than an empty list")
			break
		}
		d.good("C05", "context-write", "Cancel empties the pending contents")
	case d.op == "Commit" && role == "list":
		if !d.emptySlice(st, n.Args[1]) {
			bad("to something else than an empty list")
			break
		}
		d.good("C05", "context-write", "Commit empties the pending contents")
	case d.op == "Commit" && role == "ref":
		s := d.x.base(st, d.x.res(st, n.Args[1]))
		if !monHas(st.Mon, fmt.Sprintf("e%d", s)) {
			bad("to a reference that is not the one it encoded into the new file")
			break
		}
		d.good("C05", "context-write", "Commit installs the reference it saved")
	case d.op == "Commit" && role == "conn":
		id, _, ok := d.handle(st, n.Args[1])
		if !ok || !monHas(st.Mon, fmt.Sprintf("P%d", id)) || !monHas(st.Mon, fmt.Sprintf("A%d", id)) {
			bad("to a handle that was not opened on the database path after the new file was put in place")
			break
		}
		st.Mon = monAdd(st.Mon, fmt.Sprintf("G%d", id))
		d.good("C05", "context-write", "Commit installs the connection to the new file")
	case d.op == "Commit" && role == "off":
		d.good("C05", "context-write", "Commit installs the data offset")
	default:
		bad("although only a commit may change what is committed and only writing, cancelling and committing may change what is pending")
	}
	st.Mon = monAdd(st.Mon, "M"+role)
	if d.op == "Commit" && !monHas(st.Mon, "R") {
		bad("before the new file was put in place")
	}
}

// appendOfContent checks that a value is the pending list of the context plus
// exactly one content made of the caller's arguments.
func (d *dbMon) appendOfContent(st *State, v *Node) string {
	x := d.x
	m := x.symNode(x.res(st, v))
	if m == nil || m.Op != OpCall || m.Builtin != "append" || len(m.Args) != 2 {
		return "to something else than its pending contents plus the given one"
	}
	b := x.symNode(x.res(st, m.Args[0]))
	if b == nil || b.Op != OpLoad || b.Args[0].Op != OpFieldAddr || b.Args[0].Field != d.m.list || !d.ctxOf(st, b.Args[0].Args[0]) {
		return "to a list that does not start with its own pending contents"
	}
	el, ok := x.varargs(st, m.Args[1])
	if !ok || len(el) != 1 {
		return "to a list that does not add exactly one content"
	}
	al := x.base(st, x.res(st, el[0]))
	if !x.isAllocSym(al) {
		return "to a list extended by something not built from the given content"
	}
	get := func(name string) (Sym, bool) {
		g := d.m.c.W.methodOf(d.x.symNode(al).T, name)
		if g == nil {
			return 0, false
		}
		f := getterField(g)
		if f == nil {
			return 0, false
		}
		s, ok := st.mem[Loc{Base: al, Field: f, Kind: 'f'}]
		return x.resSym(st, s), ok
	}
	for i, name := range []string{"Hash", "Data", "Kind"} {
		s, ok := get(name)
		if !ok || s != Sym(x.Fl.Params[2+i].ID) {
			return "adding a content whose " + strings.ToLower(name) + " is not the given one"
		}
	}
	return ""
}

// getterField: the field a trivial getter returns.
func getterField(f *ssa.Function) *types.Var {
	if f.Blocks == nil || len(f.Blocks) != 1 {
		return nil
	}
	var out *types.Var
	for _, in := range f.Blocks[0].Instrs {
		if r, ok := in.(*ssa.Return); ok && len(r.Results) == 1 {
			if u, ok := r.Results[0].(*ssa.UnOp); ok && u.Op == token.MUL {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && fa.X == f.Params[0] {
					out = fieldOf(fa.X.Type(), fa.Field)
				}
			}
		}
	}
	return out
}

// appStore: fields of the application itself.
func (d *dbMon) appStore(xn *XNode, st *State, n, a *Node) {
	bt, ok := a.Field.Type().Underlying().(*types.Basic)
	if d.op == "Open" && ok && bt.Info()&types.IsInteger != 0 {
		if d.isIncrement(st, n.Args[1], a.Field) {
			st.Mon = monAdd(st.Mon, "inc"+fieldName(a.Field))
			return
		}
		st.Mon = monAdd(st.Mon, "noinc"+fieldName(a.Field))
		return
	}
	d.fail("C05", "application-write", a.Field.Name(), n, xn, d.op+" changes the "+a.Field.Name()+" shared by every context")
}

// isIncrement: value is field + positive constant.
func (d *dbMon) isIncrement(st *State, v *Node, f *types.Var) bool {
	m := d.x.symNode(d.x.res(st, v))
	if m == nil || m.Op != OpBin || m.Tok != token.ADD {
		return false
	}
	for i := 0; i < 2; i++ {
		l := d.x.symNode(d.x.res(st, m.Args[i]))
		k := m.Args[1-i]
		if l != nil && l.Op == OpLoad && l.Args[0].Op == OpFieldAddr && l.Args[0].Field == f && k.Op == OpConst && k.Const != nil && k.Const.Kind() == constant.Int && constant.Sign(k.Const) > 0 {
			return true
		}
	}
	return false
}

func (d *dbMon) mapUpdate(xn *XNode, st *State, n *Node) {
	x := d.x
	v := x.base(st, x.res(st, n.Args[2]))
	if d.ctxOf(st, n.Args[2]) && x.res(st, n.Args[1]) == Sym(x.Fl.Params[1].ID) && !d.nameOK() {
		return // the same context under the same handle
	}
	if d.op != "Open" || !x.isAllocSym(v) {
		d.fail("C07", "context-map", "update", n, xn, d.op+" stores a context under a handle that is not its own")
		d.fail("C05", "context-map", "update", n, xn, d.op+" stores a context under a handle that is not its own")
		return
	}
	k := x.res(st, n.Args[1])
	// freshness of the handle
	fresh := ""
	if o, ok := st.mem[Loc{Base: x.base(st, x.res(st, n.Args[0])), Kind: 'o', Key: k}]; ok && x.fact(st, o) == IsFalse {
		fresh = "lookup known to fail"
	}
	if fresh == "" {
		if f := d.counterOf(st, k); f != nil {
			if why := d.m.counterOK(f); why == "" {
				if monHas(st.Mon, "inc"+fieldName(f)) && !monHas(st.Mon, "noinc"+fieldName(f)) {
					fresh = "counter " + f.Name()
				} else {
					st.Mon = monAdd(st.Mon, "needinc"+fieldName(f))
					fresh = "counter " + f.Name() + " incremented later"
				}
			} else {
				d.fail("C07", "fresh-handle", "counter", n, xn, "the handle of a new context comes from "+f.Name()+", "+why)
				return
			}
		}
	}
	if fresh == "" {
		d.fail("C07", "fresh-handle", "open", n, xn, "the handle of a new context can be the handle of another open context")
	} else {
		d.good("C07", "fresh-handle", fresh)
	}
	st.Mon = monAdd(st.Mon, "I")
	st.Mon = monAdd(st.Mon, fmt.Sprintf("k%d", k))
	for _, t := range []struct{ tok, what string }{{"nm", "name"}, {"lk", "lock"}, {"cn", "connection"}} {
		if !monHas(st.Mon, t.tok) {
			d.fail("C07", "context-contents", t.what, n, xn, "the new context is not given the "+t.what+" of the database it was opened on")
		} else {
			d.good("C07", "context-contents", t.what)
		}
	}
	if !monHas(st.Mon, "cmp") {
		d.fail("C07", "one-context-per-database", "open", n, xn, "a context can be opened without comparing the name with that of every open context")
	} else {
		d.good("C07", "one-context-per-database", "open contexts are all compared by name")
	}
}

// counterOf: the application field whose value is the symbol.
func (d *dbMon) counterOf(st *State, k Sym) *types.Var {
	m := d.x.symNode(k)
	for i := 0; i < 4 && m != nil; i++ {
		if m.Op == OpLoad && m.Args[0].Op == OpFieldAddr && derefNamed(m.Args[0].Args[0].T) == d.m.app {
			return m.Args[0].Field
		}
		if m.Op == OpConv {
			m = d.x.symNode(d.x.res(st, m.Args[0]))
			continue
		}
		if m.Op == OpBin && m.Tok == token.ADD {
			// counter + constant
			if m.Args[1].Op == OpConst {
				m = d.x.symNode(d.x.res(st, m.Args[0]))
				continue
			}
		}
		break
	}
	return nil
}

// counterOK: the field is only ever increased, and only by Open.
func (m *dbModel) counterOK(f *types.Var) string {
	for _, in := range m.c.W.fieldWrites()[f] {
		st := in.(*ssa.Store)
		b, ok := st.Val.(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return "which " + short(in.Parent()) + " sets to something else than itself plus one"
		}
		k, ok := b.Y.(*ssa.Const)
		l, ok2 := b.X.(*ssa.UnOp)
		if !ok || !ok2 || constant.Sign(k.Value) <= 0 {
			return "which " + short(in.Parent()) + " sets to something else than itself plus one"
		}
		fa, ok := l.X.(*ssa.FieldAddr)
		if !ok || fieldOf(fa.X.Type(), fa.Field) != f {
			return "which " + short(in.Parent()) + " sets to something else than itself plus one"
		}
	}
	return ""
}

func (d *dbMon) edge(xn *XNode, st *State, cond *Node, out bool) {
	x := d.x
	for _, lk := range x.Fl.Nodes {
		if lk.Op != OpLookup || lk.Blk == nil {
			continue
		}
		if f, ok := st.facts[slot(lk, 1)]; ok && d.ctxLookup(st, lk) {
			if f == IsTrue {
				st.Mon = monAdd(st.Mon, "V")
			} else if f == IsFalse {
				st.Mon = monAdd(st.Mon, "N")
			}
		}
		if f, ok := st.facts[slot(lk, 0)]; ok && f == NonNil && d.ctxLookup(st, lk) {
			st.Mon = monAdd(st.Mon, "V")
		}
	}
	if cond == nil || d.op != "Open" {
		return
	}
	// the loop over the open contexts
	cn := x.symNode(x.res(st, cond))
	if cn != nil && cn.Op == OpBin && (cn.Tok == token.EQL || cn.Tok == token.NEQ) {
		isName := func(a *Node) (*Node, bool) {
			m := x.symNode(x.res(st, a))
			if m != nil && m.Op == OpLoad && m.Args[0].Op == OpFieldAddr && m.Args[0].Field == d.m.name {
				return m.Args[0].Args[0], true
			}
			return nil, false
		}
		isParam := func(a *Node) bool { return x.res(st, a) == Sym(x.Fl.Params[1].ID) }
		for i := 0; i < 2; i++ {
			b, ok := isName(cn.Args[i])
			if !ok || !isParam(cn.Args[1-i]) {
				continue
			}
			if (cn.Tok == token.EQL) == out {
				st.Mon = monAdd(st.Mon, "dup")
			} else if id, idx, ok := slotNode(x.base(st, x.res(st, b))); ok && idx == 2 && x.Fl.Nodes[id].Op == OpNext {
				st.Mon = monAdd(st.Mon, "neq")
			}
		}
	}
	if id, idx, ok := slotNode(x.res(st, cond)); ok && idx == 0 {
		nx := x.Fl.Nodes[id]
		if nx.Op == OpNext && nx.Args[0].Op == OpRange && d.isCtxMap(st, nx.Args[0].Args[0]) {
			if out {
				st.Mon = monAdd(st.Mon, "iter")
				st.Mon = monDel(st.Mon, "neq")
			} else {
				st.Mon = monAdd(st.Mon, "cmp")
			}
		}
	}
}

func (d *dbMon) after(xn *XNode, st *State, n *Node) {
	if n.Op == OpLookup {
		return
	}
	if n.Op != OpCall {
		return
	}
	x := d.x
	if n.Builtin == "delete" && d.isCtxMapArg(st, n) {
		if d.op == "Close" && x.res(st, n.Args[1]) == Sym(x.Fl.Params[1].ID) {
			st.Mon = monAdd(st.Mon, "D")
			return
		}
		d.fail("C07", "context-map", "delete", n, xn, d.op+" forgets an open context")
		d.fail("C05", "context-map", "delete", n, xn, d.op+" forgets an open context")
		return
	}
	if n.Builtin == "copy" || n.Builtin == "clear" {
		if s := x.symNode(x.res(st, n.Args[0])); s != nil && s.Op == OpLoad && s.Args[0].Op == OpFieldAddr && (s.Args[0].Field == d.m.list || s.Args[0].Field == d.m.ctxMap) {
			d.fail("C05", "context-write", n.Builtin, n, xn, d.op+" overwrites pending contents in place")
		}
		return
	}
	if n.Meth != nil && n.Meth.Name() == "ToContent" && len(n.Args) == 2 && strings.HasSuffix(n.Args[0].T.String(), "references.Adapter") {
		st.Mon = monAdd(st.Mon, fmt.Sprintf("e%d", x.base(st, x.res(st, n.Args[1]))))
		return
	}
	if n.Callee != nil && d.m.c.W.inRepo(n.Callee) {
		return
	}
	name := n.extName()
	if name == "" {
		if n.Name == "dynamic" {
			d.fail("C01", "undecided", "function value", n, xn, d.op+" calls a function value whose effects are unknown")
		}
		return
	}
	k, hi := classify(name, n)
	es, hasErr := x.errSlot(n)
	failedCall := hasErr && x.fact(st, es) == NonNil
	id := n.ID
	switch k {
	case fxPure, fxNewLock:
	case fxUnknown:
		d.fail("C01", "undecided", name, n, xn, d.op+" calls "+name+", whose effect on files is not classified")
	case fxRead:
		for _, a := range n.Args {
			if hid, isCtx, ok := d.handle(st, a); ok {
				d.useAfterClose(xn, st, n, hid, isCtx, name)
			}
		}
		if (name == "os.Stat" || name == "os.Lstat") && failedCall {
			if d.class(x.pathTerm(st, n.Args[0])) == pLive {
				st.Mon = monAdd(st.Mon, "absent")
			}
		}
	case fxSeek:
		if hid, isCtx, ok := d.handle(st, n.Args[hi]); ok {
			d.useAfterClose(xn, st, n, hid, isCtx, name)
		}
	case fxOpen:
		if failedCall {
			return
		}
		st.Mon = monAdd(st.Mon, fmt.Sprintf("H%d", id))
		st.Mon = monDel(st.Mon, fmt.Sprintf("Q%d", id))
		if d.class(x.pathTerm(st, n.Args[0])) == pLive {
			st.Mon = monAdd(st.Mon, fmt.Sprintf("P%d", id))
		}
		if monHas(st.Mon, "R") {
			st.Mon = monAdd(st.Mon, fmt.Sprintf("A%d", id))
		}
	case fxCreate:
		d.mut(st, n, xn, name)
		term := x.pathTerm(st, n.Args[0])
		switch cl := d.class(term); {
		case cl == pLive && d.op == "New":
			if !monHas(st.Mon, "absent") {
				d.fail("C01", "create-over", name, n, xn, "creating a database can truncate an existing one: no failed existence probe of its path precedes "+name)
			} else {
				d.good("C01", "create-over", "existence probe precedes "+name)
			}
		case cl == pAside && d.op == "Commit":
		default:
			d.fail("C01", "mutation-target", name+" "+className(cl), n, xn, fmt.Sprintf("%s creates or truncates %s", d.op, describe(cl)))
		}
		if failedCall {
			return
		}
		st.Mon = monAdd(st.Mon, fmt.Sprintf("H%d", id))
		st.Mon = monDel(st.Mon, fmt.Sprintf("Q%d", id))
		for _, t := range []string{"W", "Y", "X"} {
			st.Mon = monDel(st.Mon, fmt.Sprintf("%s%d", t, id))
		}
		if d.pathOf[id] == nil {
			d.pathOf[id] = map[string]bool{}
		}
		d.pathOf[id][term] = true
	case fxMkdir:
		d.mut(st, n, xn, name)
	case fxPath:
		d.mut(st, n, xn, name)
		term := x.pathTerm(st, n.Args[0])
		cl := d.class(term)
		switch {
		case name == "os.Remove" && cl == pLive && d.op == "Delete":
			d.good("C01", "delete-target", "removes the named database only")
			if !failedCall {
				st.Mon = monAdd(st.Mon, "removed")
			}
		case name == "os.Remove" && cl == pAside && term != "field:"+fieldName(d.m.dir)+"@param0" && d.op == "Commit":
			for hid, ts := range d.pathOf {
				if ts[term] && !monHas(st.Mon, "R") {
					st.Mon = monAdd(st.Mon, fmt.Sprintf("X%d", hid))
				}
			}
		default:
			d.fail("C01", "mutation-target", name+" "+className(cl), n, xn, fmt.Sprintf("%s applies %s to %s", d.op, name, describe(cl)))
		}
	case fxRename:
		d.mut(st, n, xn, name)
		src, dst := x.pathTerm(st, n.Args[0]), x.pathTerm(st, n.Args[1])
		cs, cd := d.class(src), d.class(dst)
		if d.op != "Commit" || cd != pLive || cs != pAside {
			d.fail("C01", "mutation-target", "rename "+className(cs)+" "+className(cd), n, xn, fmt.Sprintf("%s renames %s onto %s: a crash in between leaves no complete database under its name", d.op, describe(cs), describe(cd)))
			return
		}
		var cand []int
		for hid, ts := range d.pathOf {
			if ts[src] && len(ts) == 1 && (monHas(st.Mon, fmt.Sprintf("H%d", hid)) || monHas(st.Mon, fmt.Sprintf("Q%d", hid))) {
				cand = append(cand, hid)
			}
		}
		if len(cand) != 1 {
			d.fail("C01", "rename-onto-database", "source", n, xn, "the file renamed onto the database is not one this commit created")
			return
		}
		t := strconv.Itoa(cand[0])
		switch {
		case monHas(st.Mon, "X"+t):
			d.fail("C01", "rename-onto-database", "failed write", n, xn, "a file whose writing failed is renamed onto the database")
		case !monHas(st.Mon, "W"+t):
			d.fail("C01", "rename-onto-database", "unwritten", n, xn, "a file that was not written is renamed onto the database")
		case !monHas(st.Mon, "Y"+t):
			d.fail("C01", "rename-onto-database", "unflushed", n, xn, "a file that was not flushed to disk after its last write is renamed onto the database: a crash can leave an incomplete database")
		case monHas(st.Mon, "R"):
			d.fail("C01", "rename-onto-database", "twice", n, xn, "the database is replaced twice in one commit")
		default:
			d.good("C01", "rename-onto-database", "written, flushed, then renamed")
		}
		if !failedCall {
			st.Mon = monAdd(st.Mon, "R")
			st.Mon = monAdd(st.Mon, "L"+t)
		}
	case fxWrite, fxSync:
		hid, isCtx, ok := d.handle(st, n.Args[hi])
		if strings.HasPrefix(name, "io.Copy") {
			if sid, sctx, sok := d.handle(st, n.Args[1]); sok {
				d.useAfterClose(xn, st, n, sid, sctx, name)
			}
			if !ok {
				// copy into something that is not a file
				if m := x.symNode(x.base(st, x.res(st, n.Args[0]))); m != nil && m.Op == OpAlloc {
					return
				}
			}
		}
		if !ok {
			d.fail("C01", "undecided", name, n, xn, d.op+" writes through a handle the analysis cannot relate to an open file")
			return
		}
		d.useAfterClose(xn, st, n, hid, isCtx, name)
		if k == fxSync {
			if !failedCall && !isCtx && !monHas(st.Mon, fmt.Sprintf("X%d", hid)) {
				st.Mon = monAdd(st.Mon, fmt.Sprintf("Y%d", hid))
			}
			if failedCall {
				st.Mon = monAdd(st.Mon, fmt.Sprintf("X%d", hid))
			}
			return
		}
		d.mut(st, n, xn, name)
		if isCtx || d.pathOf[hid] == nil {
			d.fail("C01", "mutation-target", name+" connection", n, xn, d.op+" writes through a connection to the database file itself")
			return
		}
		if monHas(st.Mon, fmt.Sprintf("L%d", hid)) {
			d.fail("C01", "mutation-target", name+" after rename", n, xn, "the file is still written after it became the database")
		}
		st.Mon = monAdd(st.Mon, fmt.Sprintf("W%d", hid))
		st.Mon = monDel(st.Mon, fmt.Sprintf("Y%d", hid))
		if failedCall {
			st.Mon = monAdd(st.Mon, fmt.Sprintf("X%d", hid))
		}
	case fxClose:
		hid, isCtx, ok := d.handle(st, n.Args[hi])
		if !ok {
			return
		}
		if isCtx {
			if monHas(st.Mon, "Z") {
				d.fail("C08", "use-after-close", "connection", n, xn, d.op+" closes the connection of its context twice")
			}
			if !d.connOfCaller(st, n.Args[hi]) {
				d.fail("C08", "foreign-close", "connection", n, xn, d.op+" closes the connection of another context")
			}
			if !failedCall {
				st.Mon = monAdd(st.Mon, "Z")
			}
			return
		}
		t := strconv.Itoa(hid)
		if monHas(st.Mon, "Q"+t) && n.Name != "deferred" {
			d.fail("C08", "use-after-close", "twice", n, xn, d.op+" closes a file twice")
		}
		st.Mon = monDel(st.Mon, "H"+t)
		st.Mon = monAdd(st.Mon, "Q"+t)
		d.good("C08", "handle", "closed @"+d.m.c.W.pos(n.Pos))
	case fxLock:
		own := d.lockOfCaller(st, n.Args[0])
		if !own {
			d.fail("C04", "lock-target", "acquire", n, xn, d.op+" takes a lock that is not the one of its context")
			return
		}
		if !failedCall {
			st.Mon = monAdd(st.Mon, "K")
		}
	case fxUnlock:
		if !d.lockOfCaller(st, n.Args[0]) {
			d.fail("C04", "lock-target", "release", n, xn, d.op+" releases a lock that is not the one of its context")
		}
		if !monHas(st.Mon, "K") {
			d.fail("C04", "release", "unheld", n, xn, d.op+" releases a lock it does not hold")
		}
		st.Mon = monDel(st.Mon, "K")
	}
}

func (d *dbMon) connOfCaller(st *State, n *Node) bool {
	m := d.x.symNode(d.x.base(st, d.x.res(st, n)))
	return m != nil && m.Op == OpLoad && m.Args[0].Op == OpFieldAddr && d.ctxOf(st, m.Args[0].Args[0])
}

func (d *dbMon) lockOfCaller(st *State, n *Node) bool {
	m := d.x.symNode(d.x.base(st, d.x.res(st, n)))
	return m != nil && m.Op == OpLoad && m.Args[0].Op == OpFieldAddr && m.Args[0].Field == d.m.lock && d.ctxOf(st, m.Args[0].Args[0])
}

func (d *dbMon) isCtxMapArg(st *State, n *Node) bool { return d.isCtxMap(st, n.Args[0]) }

func (d *dbMon) useAfterClose(xn *XNode, st *State, n *Node, hid int, isCtx bool, name string) {
	if isCtx && monHas(st.Mon, "Z") || !isCtx && monHas(st.Mon, fmt.Sprintf("Q%d", hid)) {
		d.fail("C08", "use-after-close", name, n, xn, d.op+" uses a file after closing it")
	}
	if isCtx && !d.connOfCaller(st, n.Args[0]) {
		ok := false
		for _, a := range n.Args {
			if d.connOfCaller(st, a) {
				ok = true
			}
		}
		if !ok {
			d.fail("C05", "foreign-connection", name, n, xn, d.op+" uses the connection of a context other than the one it was called with")
		}
	}
}

func className(c pclass) string { return []string{"database", "aside", "unknown"}[c] }

func describe(c pclass) string {
	return []string{"the database file itself", "a file beside the database", "a path the analysis cannot relate to the database"}[c]
}

func (d *dbMon) finish() {
	x := d.x
	for _, ret := range x.RetSt {
		st := ret.st
		where := fmt.Sprintf("return @%s", d.m.c.W.pos(ret.n.Pos))
		nr := len(ret.n.Args)
		ef := Unknown
		if nr > 0 {
			ef = x.Fact(st, ret.n.Args[nr-1])
		}
		success := ef != NonNil
		failure := ef != IsNil
		node := ret.n
		d.good("C05", "return", where)
		d.good("C08", "return", where)
		// C08: no leak
		for _, h := range monList(st.Mon, "H") {
			id := h[1:]
			owned := monHas(st.Mon, "G"+id) && success && (monHas(st.Mon, "I") || monHas(st.Mon, "Mconn"))
			if !owned {
				nid, _ := strconv.Atoi(id)
				d.fail("C08", "leak", x.Fl.Nodes[nid].extName()+" in "+short(x.Fl.Nodes[nid].Fr.Fn), x.Fl.Nodes[nid], ret.xn, fmt.Sprintf("%s can return (%s) without closing a file it opened", d.op, where))
			} else {
				d.good("C08", "handle", "owned by the context at "+where)
			}
		}
		if monHas(st.Mon, "Z") {
			switch {
			case d.op == "Close" && success && monHas(st.Mon, "D"):
			case d.op == "Commit" && success && monHas(st.Mon, "Mconn"):
			default:
				d.fail("C08", "closed-connection", "context", node, ret.xn, d.op+" can return leaving its context with a closed connection")
			}
		} else {
			if d.op == "Close" && success {
				d.fail("C08", "closed-connection", "close", node, ret.xn, "closing a context can succeed without closing its connection")
			}
			if d.op == "Commit" && success && monHas(st.Mon, "Mconn") {
				d.fail("C08", "leak", "previous connection", node, ret.xn, "a successful commit leaves the previous connection open")
			}
		}
		// C04
		if d.op == "Commit" {
			if monHas(st.Mon, "K") {
				d.fail("C04", "release", "return", node, ret.xn, "commit can return ("+where+") still holding the lock of the database")
			} else {
				d.good("C04", "release", where)
			}
		}
		// C01 outcome
		if success {
			switch d.op {
			case "Commit":
				if !monHas(st.Mon, "R") {
					d.fail("C01", "success-return", "commit", node, ret.xn, "commit can report success without having replaced the database file")
				} else {
					d.good("C01", "success-return", where)
				}
			case "Delete":
				if !monHas(st.Mon, "removed") {
					d.fail("C01", "success-return", "delete", node, ret.xn, "deleting can report success without removing the database")
				} else {
					d.good("C01", "success-return", where)
				}
			case "New":
				if !monHas(st.Mon, "U") {
					d.fail("C01", "success-return", "new", node, ret.xn, "creating can report success without creating the database")
				} else {
					d.good("C01", "success-return", where)
				}
			}
		}
		// C05 outcome
		mods := monList(st.Mon, "M")
		if failure && len(mods) > 0 {
			d.fail("C05", "failed-operation", strings.Join(mods, "+"), node, ret.xn, d.op+" can fail after having changed its context ("+strings.Join(mods, ", ")+")")
		}
		if ef == IsNil {
			want := map[string][]string{"Write": {"Mlist"}, "Cancel": {"Mlist"}, "Commit": {"Mref", "Mconn", "Moff", "Mlist"}}[d.op]
			for _, w := range want {
				if !monHas(st.Mon, w) {
					d.fail("C05", "successful-operation", w, node, ret.xn, d.op+" can succeed without updating the "+map[string]string{"Mlist": "pending contents", "Mref": "reference", "Mconn": "connection", "Moff": "data offset"}[w]+" of its context")
				} else {
					d.good("C05", "successful-operation", w)
				}
			}
		}
		// C07
		switch d.op {
		case "Exists", "New", "Delete":
		case "Open":
			if monHas(st.Mon, "dup") && success {
				d.fail("C07", "one-context-per-database", "duplicate", node, ret.xn, "opening can succeed although a context is already open on the same database")
			}
			if ef == IsNil {
				if !monHas(st.Mon, "I") {
					d.fail("C07", "open", "registered", node, ret.xn, "opening can succeed without registering the context")
				}
				for _, t := range monList(st.Mon, "needinc") {
					f := strings.TrimPrefix(t, "needinc")
					if !monHas(st.Mon, "inc"+f) || monHas(st.Mon, "noinc"+f) {
						d.fail("C07", "fresh-handle", "counter", node, ret.xn, "opening can succeed without advancing the counter its handle came from")
					}
				}
				d.openHandle(ret, st)
			}
			if failure && monHas(st.Mon, "I") {
				d.fail("C07", "open", "failed", node, ret.xn, "opening can fail after having registered the context")
			}
		default:
			if success && !monHas(st.Mon, "V") {
				if d.op == "ReadAll" || d.op == "ReadAllByHashes" {
					d.good("C07", "lookup-verified-return", "nothing to read "+where)
				} else {
					d.fail("C07", "lookup-verified-return", d.op, node, ret.xn, d.op+" can succeed with a handle that designates no open context")
				}
			} else {
				d.good("C07", "lookup-verified-return", where)
			}
			if monHas(st.Mon, "N") && !monHas(st.Mon, "V") && (monHas(st.Mon, "U") || len(mods) > 0 || monHas(st.Mon, "D")) {
				d.fail("C07", "rejected-without-effect", d.op, node, ret.xn, d.op+" changes something although its handle designates no open context")
			}
			if d.op == "Close" && ef == IsNil && !monHas(st.Mon, "D") {
				d.fail("C07", "close", "forget", node, ret.xn, "closing can succeed while the handle keeps designating the context")
			}
			if d.op == "Close" && failure && monHas(st.Mon, "D") {
				d.fail("C07", "close", "failed", node, ret.xn, "closing can fail after the context was forgotten")
			}
		}
	}
}

// openHandle: the handle given to the caller is the key of the new context.
func (d *dbMon) openHandle(ret retRec, st *State) {
	x := d.x
	a := x.symNode(x.res(st, ret.n.Args[0]))
	ok := false
	var v Sym
	if a != nil {
		if a.Op == OpFieldAddr {
			if s, has := st.mem[Loc{Base: x.base(st, x.res(st, a.Args[0])), Field: a.Field, Kind: 'f'}]; has {
				v, ok = x.resSym(st, s), true
			}
		} else if s, has := st.mem[Loc{Base: Sym(a.ID), Kind: 'c'}]; has {
			v, ok = x.resSym(st, s), true
		}
	}
	if !ok || !monHas(st.Mon, fmt.Sprintf("k%d", v)) {
		d.fail("C07", "open", "returned handle", ret.n, ret.xn, "the handle given to the caller is not the one the context is registered under")
		return
	}
	d.good("C07", "open", "returned handle is the registered one")
}
