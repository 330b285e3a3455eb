package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C02"] = rule{
		text: "Error discipline: every function is explored path-sensitively with each error-returning call forked into its failing and its succeeding outcome; a path on which a call failed may only leave the function with an error known to be non-nil (or by panicking).",
		run:  runC02,
	}
}

func monAdd(m, k string) string {
	if monHas(m, k) {
		return m
	}
	l := strings.Split(m, ",")
	if m == "" {
		l = nil
	}
	i := 0
	for i < len(l) && l[i] < k {
		i++
	}
	l = append(l[:i], append([]string{k}, l[i:]...)...)
	return strings.Join(l, ",")
}

func monHas(m, k string) bool {
	for _, x := range strings.Split(m, ",") {
		if x == k {
			return true
		}
	}
	return false
}

func monDel(m, k string) string {
	var l []string
	for _, x := range strings.Split(m, ",") {
		if x != k && x != "" {
			l = append(l, x)
		}
	}
	return strings.Join(l, ",")
}

func monList(m, prefix string) []string {
	var l []string
	for _, x := range strings.Split(m, ",") {
		if x != "" && strings.HasPrefix(x, prefix) {
			l = append(l, x)
		}
	}
	return l
}

// calleeName names the target of a call for diagnostics and known findings.
func calleeName(n *Node) string {
	switch {
	case n.Callee != nil:
		return short(n.Callee)
	case n.Meth != nil:
		return n.Meth.FullName()
	case n.Builtin != "":
		return n.Builtin
	}
	return "function value"
}

// errExempt: failures that are not failures of the operation.
func errExempt(n *Node) string {
	switch calleeName(n) {
	case "os.Stat", "os.Lstat":
		return "existence probe"
	case "(*github.com/juju/fslock.Lock).Unlock":
		return "lock release"
	case "(*os.File).Close":
		if n.Name == "deferred" {
			return "deferred close"
		}
	}
	return ""
}

// alternation: the parser tries alternatives and the tree is searched branch by
// branch; a branch that does not match is not a failure of the whole.
func alternation(f *ssa.Function, n *Node) bool {
	switch {
	case f.Pkg.Pkg.Path() == modPath+"/libs/asts/applications":
		return n.Callee != nil && n.Callee.Pkg == f.Pkg && n.Callee.Signature.Recv() != nil
	case f.Pkg.Pkg.Path() == modPath+"/libs/asts/domain/trees":
		return calleeMethod(n) == "Fetch"
	}
	return false
}

func calleeMethod(n *Node) string {
	if n.Meth != nil {
		return n.Meth.Name()
	}
	if n.Callee != nil {
		return n.Callee.Name()
	}
	return ""
}

func runC02(c *Ctx, r *Result) error {
	scope := []string{"libs/databases/", "libs/cryptography/", "libs/interpreters/", "libs/queries/", "libs/asts/", "instances/", "guis/"}
	for _, f := range c.W.Funcs {
		if f.Parent() != nil {
			continue
		}
		in := false
		for _, s := range scope {
			if strings.Contains(short(f), s) {
				in = true
			}
		}
		if !in || !hasErrorCall(f) {
			continue
		}
		if err := c.errDiscipline(f, r); err != nil {
			return err
		}
	}
	return nil
}

func hasErrorCall(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				res := ci.Common().Signature().Results()
				if res.Len() > 0 && isErrorType(res.At(res.Len()-1).Type()) {
					return true
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		if hasErrorCall(a) {
			return true
		}
	}
	return false
}

func (c *Ctx) errDiscipline(f *ssa.Function, r *Result) error {
	fl, err := flatten(c.W, f, func(*ssa.Function, *Frame) bool { return false })
	if err != nil {
		return err
	}
	r.fn(short(f))
	x := explode(fl, c.Shapes, c.Sums, nil)
	x.SplitErr = true
	calls := map[int]*Node{}
	x.After = func(xn *XNode, st *State, n *Node) {
		if n.Op != OpCall || isErrCtor(n) {
			return
		}
		es, ok := x.errSlot(n)
		if !ok || errExempt(n) != "" || alternation(f, n) {
			return
		}
		calls[n.ID] = n
		st.Mon = monDel(monDel(st.Mon, fmt.Sprintf("F%d", n.ID)), fmt.Sprintf("Z%d", n.ID))
		if x.fact(st, es) == IsNil {
			return
		}
		st.Mon = monAdd(st.Mon, fmt.Sprintf("E%d", n.ID))
	}
	x.OnEdge = func(xn *XNode, st *State, cond *Node, out bool) {
		// the end-of-file sentinel with nothing read is an answer, not a failure
		if cond == nil {
			return
		}
		cn := x.symNode(x.res(st, cond))
		if cn == nil {
			return
		}
		for _, k := range monList(st.Mon, "E") {
			var id int
			fmt.Sscanf(k, "E%d", &id)
			call := fl.Nodes[id]
			es, _ := x.errSlot(call)
			if x.isEOF(st, cn, out, es) {
				st.Mon = monAdd(st.Mon, fmt.Sprintf("F%d", id))
			}
			if x.zeroAmount(st, call) {
				st.Mon = monAdd(st.Mon, fmt.Sprintf("Z%d", id))
			}
			if f, z := fmt.Sprintf("F%d", id), fmt.Sprintf("Z%d", id); monHas(st.Mon, f) && monHas(st.Mon, z) {
				st.Mon = monDel(monDel(monDel(st.Mon, k), f), z)
			}
		}
	}
	if err := x.Run(); err != nil {
		return err
	}
	bad := map[int]bool{}
	for _, ret := range x.RetSt {
		pend := monList(ret.st.Mon, "E")
		if len(pend) == 0 {
			continue
		}
		res := f.Signature.Results()
		okRet := false
		var es Sym
		if res.Len() > 0 && isErrorType(res.At(res.Len()-1).Type()) {
			a := ret.n.Args[len(ret.n.Args)-1]
			okRet = x.Fact(ret.st, a) == NonNil
			es = x.res(ret.st, a)
		}
		_ = es
		if okRet {
			continue
		}
		for _, k := range pend {
			var id int
			fmt.Sscanf(k, "E%d", &id)
			bad[id] = true
			n := fl.Nodes[id]
			r.fail("failed-call", short(f)+"|"+calleeName(n), c.W.pos(n.Pos), fmt.Sprintf("%s can report success although its call of %s failed (return at %s)", short(f), calleeName(n), c.W.pos(ret.n.Pos)), x.trace(ret.xn))
		}
	}
	for id, n := range calls {
		if !bad[id] {
			r.ok("failed-call", short(f)+" -> "+calleeName(n))
		}
	}
	return nil
}

// isEOF: the branch establishes that the error is io.EOF.
func (x *Exploder) isEOF(st *State, cn *Node, out bool, es Sym) bool {
	eof := func(n *Node) bool {
		m := x.symNode(x.res(st, n))
		return m != nil && m.Op == OpLoad && m.Args[0].Op == OpGlobal && m.Args[0].Name == "io.EOF"
	}
	switch {
	case cn.Op == OpBin && (cn.Tok == token.EQL || cn.Tok == token.NEQ):
		if out != (cn.Tok == token.EQL) {
			return false
		}
		a, b := cn.Args[0], cn.Args[1]
		return x.res(st, a) == es && eof(b) || x.res(st, b) == es && eof(a)
	case cn.Op == OpCall && calleeName(cn) == "errors.Is" && out:
		return x.res(st, cn.Args[0]) == es && eof(cn.Args[1])
	}
	return false
}

// zeroAmount: the path establishes that the integer result of the call is zero.
func (x *Exploder) zeroAmount(st *State, call *Node) bool {
	t, ok := call.T.(*types.Tuple)
	if !ok || t.Len() < 2 {
		return false
	}
	s := slot(call, 0)
	for k, v := range st.cmp {
		switch k {
		case fmt.Sprintf("k0==s%d", s):
			if v {
				return true
			}
		case fmt.Sprintf("k0<s%d", s):
			if !v {
				return true
			}
		case fmt.Sprintf("s%d<k1", s):
			if v {
				return true
			}
		}
	}
	return false
}
