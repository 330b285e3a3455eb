package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file models the file-backed database: which operations there are, which
// calls touch the file system, and what path, handle and context they concern.

const dbIface = "libs/databases/applications"

var dbOpNames = []string{"Exists", "New", "Delete", "Open", "Cancel", "Commit", "Close", "ContentKeysByKind", "CommitByHash", "Commits", "Read", "ReadByHash", "ReadAll", "ReadAllByHashes", "Write"}

// dbModel holds the anchors derived from the code.
type dbModel struct {
	c       *Ctx
	ops     map[string]*ssa.Function
	app     *types.Named // implementation of the database application
	pkg     *ssa.Package
	ctx     *types.Named // the open context
	ctxMap  *types.Var   // application field: open contexts by handle
	dir     *types.Var   // application field: directory of the databases
	name    *types.Var   // context field: database name
	conn    *types.Var   // context field: connection
	lock    *types.Var   // context field: lock
	ref     *types.Var   // context field: reference
	list    *types.Var   // context field: pending contents
	off     *types.Var   // context field: offset of the data
	effects map[*ssa.Function]bool
}

func (c *Ctx) db() (*dbModel, error) {
	m := &dbModel{c: c, ops: map[string]*ssa.Function{}, effects: map[*ssa.Function]bool{}}
	for _, n := range dbOpNames {
		f, err := c.W.ifaceMethod(dbIface, "Application", n)
		if err != nil {
			return nil, err
		}
		m.ops[n] = f
	}
	m.app = derefNamed(m.ops["Open"].Params[0].Type())
	m.pkg = m.ops["Open"].Pkg
	s, ok := m.app.Underlying().(*types.Struct)
	if !ok {
		return nil, fmt.Errorf("unresolved anchor: the database application is not a structure")
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if mt, ok := f.Type().Underlying().(*types.Map); ok {
			if n := derefNamed(mt.Elem()); n != nil && n.Obj().Pkg() == m.app.Obj().Pkg() {
				if _, isS := n.Underlying().(*types.Struct); isS {
					m.ctxMap, m.ctx = f, n
				}
			}
		}
	}
	if m.ctx == nil {
		return nil, fmt.Errorf("unresolved anchor: the map of open contexts")
	}
	cs := m.ctx.Underlying().(*types.Struct)
	set := func(dst **types.Var, f *types.Var, what string) error {
		if *dst != nil {
			return fmt.Errorf("unresolved anchor: two candidate context fields for the %s", what)
		}
		*dst = f
		return nil
	}
	for i := 0; i < cs.NumFields(); i++ {
		f := cs.Field(i)
		var err error
		switch t := f.Type().String(); {
		case t == "*os.File":
			err = set(&m.conn, f, "connection")
		case strings.HasSuffix(t, "fslock.Lock"):
			err = set(&m.lock, f, "lock")
		case strings.HasSuffix(t, "references.Reference"):
			err = set(&m.ref, f, "reference")
		case t == "string":
			err = set(&m.name, f, "name")
		}
		if sl, ok := f.Type().Underlying().(*types.Slice); ok {
			if n, ok := types.Unalias(sl.Elem()).(*types.Named); ok && strings.HasSuffix(n.String(), "contents.Content") {
				err = set(&m.list, f, "pending contents")
			}
		}
		if err != nil {
			return nil, err
		}
	}
	for what, f := range map[string]*types.Var{"connection": m.conn, "lock": m.lock, "reference": m.ref, "name": m.name, "pending contents": m.list} {
		if f == nil {
			return nil, fmt.Errorf("unresolved anchor: context field for the %s", what)
		}
	}
	// the data offset is the unsigned context field Read adds to the pointer
	for _, b := range m.ops["Read"].Blocks {
		_ = b
	}
	m.off = m.offsetField()
	if m.off == nil {
		return nil, fmt.Errorf("unresolved anchor: context field for the data offset")
	}
	m.dir = m.dirField()
	if m.dir == nil {
		return nil, fmt.Errorf("unresolved anchor: application field for the database directory")
	}
	writes := c.W.fieldWrites()
	for _, f := range []*types.Var{m.dir, m.name, m.lock, m.ctxMap} {
		if len(writes[f]) > 0 {
			return nil, fmt.Errorf("undecided: field %s is reassigned in %s, paths and locks can no longer be related to a context", f.Name(), short(writes[f][0].Parent()))
		}
	}
	return m, nil
}

// offsetField: the integer context field the Read operation depends on.
func (m *dbModel) offsetField() *types.Var {
	var out *types.Var
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || f.Blocks == nil || f.Pkg != m.pkg {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					if derefNamed(fa.X.Type()) == m.ctx {
						v := fieldOf(fa.X.Type(), fa.Field)
						if bt, ok := v.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
							out = v
						}
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, t := range m.c.W.callees(ci) {
						visit(t)
					}
				}
			}
		}
	}
	visit(m.ops["Read"])
	return out
}

// dirField: the string field of the application the Exists operation depends on.
func (m *dbModel) dirField() *types.Var {
	var out *types.Var
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || f.Blocks == nil || f.Pkg != m.pkg {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && derefNamed(fa.X.Type()) == m.app {
					v := fieldOf(fa.X.Type(), fa.Field)
					if bt, ok := v.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.String {
						out = v
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, t := range m.c.W.callees(ci) {
						visit(t)
					}
				}
			}
		}
	}
	visit(m.ops["Exists"])
	return out
}

// effectful: the function may touch files or locks, directly or not.
func (m *dbModel) effectful(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if v, ok := m.effects[f]; ok {
			return v
		}
		if seen[f] || f.Blocks == nil {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if t := ci.Common().StaticCallee(); t != nil && !m.c.W.inRepo(t) {
					if k, _ := classify(t.String(), nil); k != fxPure {
						return true
					}
				}
				for _, t := range m.c.W.callees(ci) {
					if visit(t) {
						return true
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			if visit(a) {
				return true
			}
		}
		return false
	}
	v := visit(f)
	m.effects[f] = v
	return v
}

func (m *dbModel) policy(f *ssa.Function, fr *Frame) bool {
	return f.Pkg == m.pkg || m.effectful(f) || m.c.W.isGetter(f)
}

// Effects of external calls.
type fx int

const (
	fxPure    fx = iota
	fxRead       // reads a file or its metadata
	fxOpen       // opens a file for reading
	fxCreate     // creates or truncates a file, returns a handle
	fxMkdir      // creates directories
	fxPath       // changes what a path designates (remove, truncate, write)
	fxRename     // rename
	fxWrite      // writes through a handle
	fxSync       // flushes a handle
	fxClose      // closes a handle
	fxSeek       // moves a handle
	fxLock       // takes a lock
	fxUnlock     // releases a lock
	fxNewLock    // creates a lock object
	fxUnknown    // unclassified: undecided
)

var fxTable = map[string]fx{
	"os.Create": fxCreate, "os.Open": fxOpen, "os.Stat": fxRead, "os.Lstat": fxRead, "os.ReadFile": fxRead, "os.ReadDir": fxRead,
	"os.Remove": fxPath, "os.RemoveAll": fxPath, "os.Truncate": fxPath, "os.WriteFile": fxPath, "os.Chmod": fxPath, "os.Chown": fxPath, "os.Chtimes": fxPath, "os.Symlink": fxPath, "os.Link": fxPath,
	"os.Mkdir": fxMkdir, "os.MkdirAll": fxMkdir, "os.Rename": fxRename,
	"os.IsNotExist": fxPure, "os.IsExist": fxPure, "os.Getenv": fxPure, "os.Getpid": fxPure,
	"(*os.File).Write": fxWrite, "(*os.File).WriteAt": fxWrite, "(*os.File).WriteString": fxWrite, "(*os.File).Truncate": fxWrite, "(*os.File).ReadFrom": fxWrite,
	"(*os.File).Sync": fxSync, "(*os.File).Close": fxClose, "(*os.File).Seek": fxSeek,
	"(*os.File).Read": fxRead, "(*os.File).ReadAt": fxRead, "(*os.File).Stat": fxRead, "(*os.File).Name": fxPure, "(*os.File).Fd": fxUnknown,
	"io.Copy": fxWrite, "io.CopyN": fxWrite, "io.CopyBuffer": fxWrite, "io.WriteString": fxWrite,
	"io.ReadAll": fxRead, "io.ReadFull": fxRead, "io.ReadAtLeast": fxRead, "io.NewSectionReader": fxPure, "io.LimitReader": fxPure,
	"io/ioutil.WriteFile": fxPath, "io/ioutil.ReadFile": fxRead, "io/ioutil.ReadAll": fxRead,
	"(*github.com/juju/fslock.Lock).TryLock": fxLock, "(*github.com/juju/fslock.Lock).Lock": fxLock, "(*github.com/juju/fslock.Lock).LockWithTimeout": fxLock,
	"(*github.com/juju/fslock.Lock).Unlock": fxUnlock, "github.com/juju/fslock.New": fxNewLock,
}

// classify gives the effect of an external function and, for handle operations,
// the index of the handle argument.
func classify(name string, n *Node) (fx, int) {
	if name == "os.OpenFile" {
		if n != nil && len(n.Args) > 1 && n.Args[1].Op == OpConst && n.Args[1].Const != nil {
			if v, ok := constant.Int64Val(n.Args[1].Const); ok && v == 0 {
				return fxOpen, 0
			}
		}
		return fxCreate, 0
	}
	if k, ok := fxTable[name]; ok {
		return k, 0
	}
	for _, p := range []string{"os.", "(*os.", "io.", "io/ioutil.", "syscall.", "(*github.com/juju/fslock", "github.com/juju/fslock", "os/exec.", "(*os/exec", "net.", "bufio.", "(*bufio.", "golang.org/x/sys", "unsafe."} {
		if strings.HasPrefix(name, p) {
			if strings.HasPrefix(name, "io.") && (strings.HasSuffix(name, "Error")) {
				return fxPure, 0
			}
			return fxUnknown, 0
		}
	}
	return fxPure, 0
}

func (n *Node) extName() string {
	if n.Callee != nil {
		return n.Callee.String()
	}
	if n.Meth != nil {
		return n.Meth.FullName()
	}
	return ""
}

// varargs returns the elements of a variadic or literal slice argument.
func (x *Exploder) varargs(st *State, n *Node) ([]*Node, bool) {
	m := x.symNode(x.res(st, n))
	if m == nil {
		return nil, false
	}
	if m.Op == OpConst && m.Nil {
		return nil, true
	}
	if m.Op != OpSlice || m.Args[1] != nil || m.Args[2] != nil {
		return nil, false
	}
	al := m.Args[0]
	if al.Op != OpAlloc {
		return nil, false
	}
	p, ok := al.T.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	ar, ok := p.Elem().Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	out := make([]*Node, ar.Len())
	for _, nd := range x.Fl.Nodes {
		if nd.Op == OpStore && nd.Args[0].Op == OpIndexAddr && nd.Args[0].Args[0] == al {
			ix := nd.Args[0].Args[1]
			if ix.Op != OpConst || ix.Const == nil {
				return nil, false
			}
			i, ok := constant.Int64Val(ix.Const)
			if !ok || i < 0 || i >= int64(len(out)) || out[i] != nil {
				return nil, false
			}
			out[i] = nd.Args[1]
		}
	}
	for _, o := range out {
		if o == nil {
			return nil, false
		}
	}
	return out, true
}

// strTerm is a structural description of a string value: what it is made of.
func (x *Exploder) strTerm(st *State, n *Node) []string { return x.strTermD(st, n, 0) }

func (x *Exploder) strTermD(st *State, n *Node, d int) []string {
	if d > 12 {
		return []string{"?deep"}
	}
	s := x.res(st, n)
	m := x.symNode(s)
	if m == nil {
		return []string{fmt.Sprintf("?s%d", s)}
	}
	switch m.Op {
	case OpConst:
		if m.Const != nil && m.Const.Kind() == constant.String {
			if v := constant.StringVal(m.Const); v != "" {
				return []string{"'" + v + "'"}
			}
			return nil
		}
		if m.Const == nil {
			return nil
		}
		return []string{m.Const.ExactString()}
	case OpMakeIface, OpConv, OpChangeIface, OpUnwrap:
		return x.strTermD(st, m.Args[0], d+1)
	case OpParam:
		return []string{fmt.Sprintf("param%d", m.Idx)}
	case OpLoad:
		if m.Args[0].Op == OpFieldAddr {
			return []string{"field:" + fieldName(m.Args[0].Field) + "@" + x.baseTerm(st, m.Args[0].Args[0])}
		}
		if m.Args[0].Op == OpGlobal {
			return []string{"global:" + m.Args[0].Name}
		}
	case OpBin:
		if m.Tok == token.ADD {
			return append(append([]string{}, x.strTermD(st, m.Args[0], d+1)...), x.strTermD(st, m.Args[1], d+1)...)
		}
	case OpCall:
		switch m.extName() {
		case "path/filepath.Join", "path.Join":
			if el, ok := x.varargs(st, m.Args[0]); ok {
				var parts []string
				for _, e := range el {
					parts = append(parts, strings.Join(x.strTermD(st, e, d+1), "+"))
				}
				return []string{"join(" + strings.Join(parts, " / ") + ")"}
			}
		case "path/filepath.Clean", "path.Clean":
			return x.strTermD(st, m.Args[0], d+1)
		case "fmt.Sprintf", "fmt.Sprint":
			off := 1
			format := ""
			if m.extName() == "fmt.Sprint" {
				return []string{fmt.Sprintf("?n%d", m.ID)}
			}
			if fm := x.symNode(x.res(st, m.Args[0])); fm != nil && fm.Op == OpConst && fm.Const != nil && fm.Const.Kind() == constant.String {
				format = constant.StringVal(fm.Const)
			} else {
				break
			}
			el, ok := x.varargs(st, m.Args[off])
			if !ok {
				break
			}
			var out []string
			k := 0
			lit := ""
			for i := 0; i < len(format); i++ {
				if format[i] != '%' {
					lit += string(format[i])
					continue
				}
				if i+1 >= len(format) {
					return []string{fmt.Sprintf("?n%d", m.ID)}
				}
				i++
				switch format[i] {
				case '%':
					lit += "%"
				case 's', 'v', 'd':
					if lit != "" {
						out = append(out, "'"+lit+"'")
						lit = ""
					}
					if k >= len(el) {
						return []string{fmt.Sprintf("?n%d", m.ID)}
					}
					out = append(out, x.strTermD(st, el[k], d+1)...)
					k++
				default:
					return []string{fmt.Sprintf("?n%d", m.ID)}
				}
			}
			if lit != "" {
				out = append(out, "'"+lit+"'")
			}
			return out
		case "strings.Join":
			if el, ok := x.varargs(st, m.Args[0]); ok {
				sep := x.strTermD(st, m.Args[1], d+1)
				var out []string
				for i, e := range el {
					if i > 0 {
						out = append(out, sep...)
					}
					out = append(out, x.strTermD(st, e, d+1)...)
				}
				return out
			}
		}
	}
	return []string{fmt.Sprintf("?n%d", m.ID)}
}

func fieldName(v *types.Var) string {
	if v == nil {
		return "?"
	}
	return fmt.Sprintf("%s#%d", v.Name(), v.Pos())
}

// baseTerm describes the object a field belongs to: the receiver, or any
// instance of a type.
func (x *Exploder) baseTerm(st *State, n *Node) string {
	m := x.symNode(x.base(st, x.res(st, n)))
	if m != nil && m.Op == OpParam {
		return fmt.Sprintf("param%d", m.Idx)
	}
	if t := derefNamed(n.T); t != nil {
		return "a " + t.Obj().Name()
	}
	return "?"
}

// term joins a string term; canonical path forms: dir+"/"+name is a join.
func (x *Exploder) pathTerm(st *State, n *Node) string {
	parts := x.strTerm(st, n)
	return canonPath(parts)
}

func canonPath(parts []string) string {
	if len(parts) == 1 {
		return parts[0]
	}
	// dir + "/" + rest
	for i, p := range parts {
		if (p == "'/'" || p == "global:os.PathSeparator" || p == "47") && i > 0 && i < len(parts)-1 {
			return "join(" + strings.Join(parts[:i], "+") + " / " + strings.Join(parts[i+1:], "+") + ")"
		}
	}
	return strings.Join(parts, "+")
}

// path classes
type pclass int

const (
	pLive pclass = iota
	pAside
	pUnknown
)

// classOf tells whether a path designates a database file, a file beside it
// whose name differs from it, or something the analysis cannot relate to it.
func (m *dbModel) classOf(term string) (pclass, string) {
	dirT := "field:" + fieldName(m.dir) + "@param0"
	in, ok := strings.CutPrefix(term, "join("+dirT+" / ")
	if !ok {
		if term == dirT {
			return pAside, "directory"
		}
		return pUnknown, ""
	}
	in = strings.TrimSuffix(in, ")")
	nameF := "field:" + fieldName(m.name) + "@a " + m.ctx.Obj().Name()
	isName := func(s string) bool { return s == nameF || s == "param1" }
	if isName(in) {
		return pLive, in
	}
	parts := strings.Split(in, "+")
	hasName, lit, other := false, false, false
	for _, p := range parts {
		switch {
		case isName(p):
			hasName = true
		case strings.HasPrefix(p, "'"):
			if strings.Contains(p, "/") || strings.Contains(p, "..") {
				other = true
			}
			lit = true
		case strings.HasPrefix(p, "field:") && strings.HasSuffix(p, "@param0"):
		default:
			other = true
		}
	}
	if hasName && lit && !other {
		return pAside, in
	}
	return pUnknown, in
}
