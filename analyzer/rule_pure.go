package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C15"] = rule{"every write through a reference, in every function, targets memory made by the operation itself, the values of a builder being filled or the state of a service; never the fields, lists, bytes, tables or numbers of a built instance, nor a list or bytes the caller passed; memory handed to an instance is not written afterwards", runC15}
}

// api: the function can be called from outside its package.
func api(f *ssa.Function) bool {
	return f.Parent() == nil && f.Object() != nil && f.Object().Exported()
}

func reaches(from, to ssa.Instruction, def ssa.Value) bool {
	var defBlk *ssa.BasicBlock
	defIdx := -1
	if in, ok := def.(ssa.Instruction); ok {
		defBlk = in.Block()
		for i, x := range defBlk.Instrs {
			if x == in {
				defIdx = i
			}
		}
	}
	at := func(in ssa.Instruction) int {
		for i, x := range in.Block().Instrs {
			if x == in {
				return i
			}
		}
		return -1
	}
	fi, ti := at(from), at(to)
	if from.Block() == to.Block() && fi < ti && !(defBlk == from.Block() && defIdx > fi && defIdx < ti) {
		return true
	}
	if defBlk == from.Block() && defIdx > fi {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, from.Block().Succs...)
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		if b == to.Block() && !(defBlk == b && defIdx < ti) {
			return true
		}
		if b == defBlk {
			continue
		}
		work = append(work, b.Succs...)
	}
	return false
}

func runC15(c *Ctx, r *Result) error {
	e := c.effects()
	nf := 0
	for _, f := range c.W.Funcs {
		if f.Synthetic != "" && f.Name() == "init" {
			continue
		}
		nf++
		isInit := f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
		var ws []effWrite
		ws = append(ws, e.writes(f)...)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				args := e.args(ci)
				for _, t := range e.targets(ci) {
					for i := range args {
						if how, ok := e.sums[t].mut[i]; ok {
							ws = append(ws, effWrite{f: f, in: in, to: args[i], what: "through " + short(t) + ", " + how})
						}
					}
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok && !isInit {
						r.fail("write", short(f)+"|global "+g.Name(), c.W.pos(in.Pos()), fmt.Sprintf("%s changes the package variable %s", short(f), g.Name()), nil)
					}
				}
			}
		}
		for _, w := range ws {
			bad := false
			r.fn(short(f))
			for _, ro := range e.roots(w.to).sorted() {
				why := ""
				switch ro.kind {
				case 'o':
					// lists of instances are extended by their own packages only,
					// the ones given to a builder belong to its caller
					if strings.Contains(w.what, beyondEnd) && !strings.Contains(ro.text, "values given to the builder") {
						continue
					}
					why = "the " + ro.text
				case 'g':
					if !isInit {
						why = "the package variable " + ro.text
					}
				case 'p':
					if ro.val == nil || ro.val.Parent() != f || !api(f) {
						continue
					}
					if ro.idx == 0 && f.Signature.Recv() != nil {
						if k := e.kindOf(derefNamed(f.Signature.Recv().Type())); k != 'i' {
							continue
						}
						why = "the instance it is called on"
					} else {
						why = "the argument " + f.Params[ro.idx].Name() + " of its caller"
					}
				}
				if why != "" {
					bad = true
					r.fail("write", short(f)+"|"+why, c.W.pos(w.in.Pos()), fmt.Sprintf("%s writes (%s) into %s", short(f), w.what, why), nil)
				}
			}
			if !bad {
				r.ok("write", short(f)+": "+w.what+" @"+c.W.pos(w.in.Pos()))
			}
		}
		// memory handed to an instance
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var vals []ssa.Value
				who := ""
				switch in := in.(type) {
				case *ssa.Store:
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
						vals = append(vals, in.Val)
						who = "field " + fieldOf(fa.X.Type(), fa.Field).Name()
					}
				case ssa.CallInstruction:
					args := e.args(in)
					for _, t := range e.targets(in) {
						for i := range args {
							if e.sums[t].retain[i] {
								vals = append(vals, args[i])
								who = short(t)
							}
						}
					}
				}
				for _, v := range vals {
					if !isRef(v.Type()) {
						continue
					}
					bad := false
					for _, ro := range e.held(v).sorted() {
						if ro.kind != 'f' || ro.val == nil {
							continue
						}
						for _, w := range e.writes(f) {
							if _, ok := w.to.Type().Underlying().(*types.Slice); !ok && w.what != "the number" {
								if p, ok := w.to.Type().Underlying().(*types.Pointer); !ok {
									continue
								} else if _, ok := p.Elem().Underlying().(*types.Array); !ok {
									continue
								}
							}
							if w.in == in || w.what == beyondEnd {
								continue
							}
							for _, q := range e.roots(w.to) {
								if q.kind == 'f' && q.val == ro.val && reaches(in, w.in, ro.val) {
									bad = true
									r.fail("handed", short(f)+"|"+who, c.W.pos(w.in.Pos()), fmt.Sprintf("%s writes %s into memory it already handed to %s (%s)", short(f), w.what, who, c.W.pos(in.Pos())), nil)
								}
							}
						}
					}
					if !bad {
						r.ok("handed", short(f)+" to "+who+" @"+c.W.pos(in.Pos()))
					}
				}
			}
		}
	}
	r.Notes = append(r.Notes, fmt.Sprintf("%d functions", nf))
	r.need("write", 300)
	r.need("handed", 300)
	return nil
}

func (c *Ctx) effects() *effects {
	if c.eff == nil {
		c.eff = newEffects(c.W)
	}
	return c.eff
}

func init() {
	rules["C17"] = rule{"no function of the library reads the clock, randomness, the environment or files (the database excepted), starts a goroutine, lets the order of a table's entries reach a result, or keeps state in a service; every instance is built by a builder created for it", runC17}
}

var impure = map[string]string{
	"time.Now": "the clock", "time.Since": "the clock", "time.Until": "the clock", "time.Sleep": "the clock", "time.After": "the clock", "time.Tick": "the clock",
}

var impurePkgs = map[string]string{
	"math/rand": "chance", "math/rand/v2": "chance", "crypto/rand": "chance", "os": "the environment or files", "os/exec": "other programs", "os/user": "the environment", "net": "the network", "net/http": "the network", "syscall": "the environment", "runtime": "the runtime", "runtime/debug": "the runtime", "io/ioutil": "files", "hash/maphash": "chance", "unsafe": "addresses",
}

func runC17(c *Ctx, r *Result) error {
	e := c.effects()
	for _, f := range c.W.Funcs {
		if f.Synthetic != "" && f.Name() == "init" || strings.HasSuffix(f.Name(), "ForTests") {
			continue
		}
		infra := f.Pkg != nil && strings.Contains(f.Pkg.Pkg.Path(), "/infrastructure/")
		r.fn(short(f))
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Go, *ssa.Select, *ssa.Send:
					r.fail("source", short(f)+"|goroutine", c.W.pos(in.Pos()), fmt.Sprintf("%s depends on the scheduling of goroutines", short(f)), nil)
				case *ssa.Range:
					if _, ok := in.X.Type().Underlying().(*types.Map); ok {
						c.mapLoop(r, f, in)
					}
				case ssa.CallInstruction:
					g := in.Common().StaticCallee()
					if g == nil || c.W.inRepo(g) || g.Pkg == nil {
						continue
					}
					name := g.Pkg.Pkg.Path() + "." + g.Name()
					what := impure[name]
					if p, ok := impurePkgs[g.Pkg.Pkg.Path()]; ok && !(infra && g.Pkg.Pkg.Path() == "os") {
						what = p
					}
					if infra && name == "time.Now" && c.onlyCreationTime(in) {
						r.ok("source", "the clock gives only the creation time of a commit @"+c.W.pos(in.Pos()))
						continue
					}
					if what != "" {
						r.fail("source", short(f)+"|"+name, c.W.pos(in.Pos()), fmt.Sprintf("%s depends on %s (%s)", short(f), what, name), nil)
					} else {
						r.ok("source", short(f)+" calls "+name)
					}
				}
			}
		}
		// state kept in services
		for _, w := range e.writes(f) {
			if w.base == nil || w.fld == nil {
				continue
			}
			if _, local := w.to.(*ssa.Alloc); local {
				continue
			}
			if k := e.kindOf(w.base); k == 'i' {
				fresh := true
				for _, ro := range e.roots(w.to) {
					if ro.kind != 'f' {
						fresh = false
					}
				}
				if !fresh {
					r.fail("state", short(f)+"|"+w.fld.Name(), c.W.pos(w.in.Pos()), fmt.Sprintf("%s keeps state in the field %s of a %s", short(f), w.fld.Name(), w.base.Obj().Name()), nil)
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok && !strings.HasPrefix(f.Name(), "init") {
						r.fail("state", short(f)+"|global "+g.Name(), c.W.pos(in.Pos()), fmt.Sprintf("%s keeps state in the package variable %s", short(f), g.Name()), nil)
					}
				}
			}
		}
		c.builderUse(r, e, f)
	}
	r.need("source", 250)
	r.need("builder", 180)
	r.need("table", 4)
	return nil
}

// onlyCreationTime: a clock reading is used for nothing but CreatedOn.
func (c *Ctx) onlyCreationTime(in ssa.CallInstruction) bool {
	v := in.Value()
	if v == nil {
		return false
	}
	var uses func(v ssa.Value, seen map[ssa.Value]bool) bool
	uses = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.Phi:
				if !uses(u, seen) {
					return false
				}
			case *ssa.Call:
				if u.Call.IsInvoke() && u.Call.Method.Name() == "CreatedOn" {
					continue
				}
				if g := u.Call.StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "time" {
					if !uses(u, seen) {
						return false
					}
					continue
				}
				return false
			case *ssa.Store:
				al, ok := u.Addr.(*ssa.Alloc)
				if !ok {
					return false
				}
				for _, l := range *al.Referrers() {
					if ld, ok := l.(*ssa.UnOp); ok && !uses(ld, seen) {
						return false
					}
				}
			case *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	return uses(v, map[ssa.Value]bool{})
}

// builderUse: setters and Now are called on a builder created for one instance.
func (c *Ctx) builderUse(r *Result, e *effects, f *ssa.Function) {
	if f.Signature.Recv() != nil && e.kindOf(derefNamed(f.Signature.Recv().Type())) == 'b' && (f.Name() == "Create" || strings.HasPrefix(f.Name(), "With")) {
		return
	}
	type use struct {
		in   ssa.CallInstruction
		name string
		rs   rootSet
	}
	var nows []use
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok || !ci.Common().IsInvoke() {
				continue
			}
			n, _ := types.Unalias(ci.Common().Value.Type()).(*types.Named)
			if n == nil || !pkgInRepo(n.Obj().Pkg()) || !isBuilderIface(n) {
				continue
			}
			name := ci.Common().Method.Name()
			if name == "Create" {
				continue
			}
			rs := e.roots(ci.Common().Value)
			bad := ""
			for _, ro := range rs.sorted() {
				if ro.kind == 'o' || ro.kind == 's' || ro.kind == 'g' {
					bad = ro.text
				}
			}
			if bad != "" {
				r.fail("builder", short(f)+"|"+n.Obj().Name(), c.W.pos(in.Pos()), fmt.Sprintf("%s calls %s on a shared builder (%s) instead of one it created", short(f), name, bad), nil)
				continue
			}
			r.ok("builder", short(f)+"."+name+" @"+c.W.pos(in.Pos()))
			if name == "Now" {
				nows = append(nows, use{ci, n.Obj().Name(), rs})
			}
		}
	}
	for _, a := range nows {
		for _, b := range nows {
			for _, ra := range a.rs {
				for _, rb := range b.rs {
					if ra.kind == 'f' && ra.val != nil && ra.val == rb.val && reaches(a.in, b.in, ra.val) {
						r.fail("builder", short(f)+"|reuse|"+a.name, c.W.pos(b.in.Pos()), fmt.Sprintf("%s builds a second instance with a builder that already built one (%s)", short(f), c.W.pos(a.in.Pos())), nil)
					}
				}
			}
		}
	}
}

func isBuilderIface(n *types.Named) bool {
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	now, cr := false, false
	for i := 0; i < it.NumMethods(); i++ {
		switch it.Method(i).Name() {
		case "Now":
			now = true
		case "Create":
			cr = true
		}
	}
	return now && cr
}

// mapLoop: nothing that depends on the order of the entries leaves the loop.
func (c *Ctx) mapLoop(r *Result, f *ssa.Function, rg *ssa.Range) {
	e := c.effects()
	var next *ssa.Next
	for _, u := range *rg.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return
	}
	head := next.Block()
	// blocks of the loop: those that reach the head again
	in := map[*ssa.BasicBlock]bool{head: true}
	var preds func(b *ssa.BasicBlock)
	preds = func(b *ssa.BasicBlock) {
		if in[b] || !head.Dominates(b) {
			return
		}
		in[b] = true
		for _, p := range b.Preds {
			preds(p)
		}
	}
	for _, p := range head.Preds {
		if head.Dominates(p) {
			preds(p)
		}
	}
	fail := func(pos ssa.Instruction, what string) {
		r.fail("table", short(f)+"|"+what, c.W.pos(pos.Pos()), fmt.Sprintf("%s lets the order in which a table is iterated reach its result: %s", short(f), what), nil)
	}
	// values that depend on the entry
	dep := map[ssa.Value]bool{next: true}
	for ch := true; ch; {
		ch = false
		for _, b := range f.Blocks {
			for _, x := range b.Instrs {
				v, ok := x.(ssa.Value)
				if !ok || dep[v] {
					continue
				}
				for _, o := range x.Operands(nil) {
					if *o != nil && dep[*o] {
						if _, isPhi := x.(*ssa.Phi); isPhi && x.Block() == head {
							continue
						}
						dep[v] = true
						ch = true
					}
				}
			}
		}
	}
	bad := false
	inner := func(b *ssa.BasicBlock) bool { return in[b] }
	for _, b := range f.Blocks {
		if !in[b] {
			// an early way out that carries an entry
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && head.Dominates(b) {
				for _, v := range ret.Results {
					if dep[v] && !isErrorType(v.Type()) {
						if v2, ok := v.(*ssa.Phi); ok && !inner(v2.Block()) {
							continue
						}
						bad = true
						fail(ret, "it returns the first entry that matches")
					}
				}
			}
			continue
		}
		for _, x := range b.Instrs {
			switch x := x.(type) {
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() == "append" && dependsOnEntry(dep, x.Call.Args) && !sortedAfter(x, head, in) {
						bad = true
						fail(x, "it lists the entries")
					}
					continue
				}
				args := e.args(x)
				for _, t := range e.targets(x) {
					for i := range args {
						if _, ok := e.sums[t].mut[i]; !ok {
							continue
						}
						for _, ro := range e.roots(args[i]) {
							if ro.kind != 'f' || !insideLoop(ro.val, in) {
								if _, isMap := args[i].Type().Underlying().(*types.Map); !isMap {
									bad = true
									fail(x, "it changes "+args[i].Name()+" through "+t.Name())
								}
							}
						}
					}
				}
			case *ssa.Phi:
				if b != head {
					continue
				}
				// what one entry leaves to the next
				for i, ed := range x.Edges {
					if !in[head.Preds[i]] {
						continue
					}
					if !orderFree(x, ed, dep, map[ssa.Value]bool{}) && !sortedPhi(x, head, in) {
						bad = true
						fail(x, "the last entries decide the value of "+phiName(x))
					}
				}
			case *ssa.Store:
				switch a := x.Addr.(type) {
				case *ssa.Alloc:
					if !in[a.Block()] && dep[x.Val] {
						bad = true
						fail(x, "the last entry decides a variable")
					}
				case *ssa.FieldAddr:
					if al, ok := a.X.(*ssa.Alloc); (!ok || !in[al.Block()]) && dep[x.Val] {
						bad = true
						fail(x, "the last entry decides a field")
					}
				case *ssa.IndexAddr:
					if al, ok := a.X.(*ssa.Alloc); (!ok || !in[al.Block()]) && !dep[a.Index] {
						bad = true
						fail(x, "an element is written by position")
					}
				}
			}
		}
	}
	if !bad {
		r.ok("table", short(f)+" @"+c.W.pos(rg.Pos()))
	}
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func insideLoop(v ssa.Value, in map[*ssa.BasicBlock]bool) bool {
	x, ok := v.(ssa.Instruction)
	return ok && in[x.Block()]
}

func dependsOnEntry(dep map[ssa.Value]bool, args []ssa.Value) bool {
	return true // the number of entries appended before also depends on the order
}

// orderFree: the value a loop leaves for the next entry does not depend on the
// order: unchanged, counted, accumulated with + or set to a constant.
func orderFree(p *ssa.Phi, v ssa.Value, dep map[ssa.Value]bool, seen map[ssa.Value]bool) bool {
	if v == p || seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.BinOp:
		switch v.Op.String() {
		case "+", "|", "&", "^":
			if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return (v.X == ssa.Value(p) || orderFreePhi(p, v.X, seen)) && !usesPhi(v.Y, p) || (v.Y == ssa.Value(p)) && !usesPhi(v.X, p)
			}
		}
		return false
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !orderFree(p, e, dep, seen) {
				return false
			}
		}
		return true
	}
	return !dep[v] && !usesPhi(v, p)
}

func orderFreePhi(p *ssa.Phi, v ssa.Value, seen map[ssa.Value]bool) bool {
	q, ok := v.(*ssa.Phi)
	return ok && q == p
}

func usesPhi(v ssa.Value, p *ssa.Phi) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == ssa.Value(p) {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		in, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}
		for _, o := range in.Operands(nil) {
			if *o != nil && walk(*o) {
				return true
			}
		}
		return false
	}
	return walk(v)
}

// sortedAfter: the list being made is sorted before anything else uses it.
func sortedAfter(call *ssa.Call, head *ssa.BasicBlock, in map[*ssa.BasicBlock]bool) bool {
	for _, u := range *call.Referrers() {
		p, ok := u.(*ssa.Phi)
		if !ok {
			return false
		}
		if p.Block() == head {
			if !sortedPhi(p, head, in) {
				return false
			}
			continue
		}
		if !in[p.Block()] {
			return false
		}
		for _, w := range *p.Referrers() {
			q, ok := w.(*ssa.Phi)
			if !ok || q.Block() != head || !sortedPhi(q, head, in) {
				return false
			}
		}
	}
	return true
}

func sortedPhi(p *ssa.Phi, head *ssa.BasicBlock, in map[*ssa.BasicBlock]bool) bool {
	var sorter ssa.Instruction
	var outside []ssa.Instruction
	for _, u := range *p.Referrers() {
		if in[u.Block()] {
			continue
		}
		outside = append(outside, u)
		if mi, ok := u.(*ssa.MakeInterface); ok {
			for _, w := range *mi.Referrers() {
				if isSort(w) {
					sorter = w
				}
			}
		}
		if isSort(u) {
			sorter = u
		}
	}
	if sorter == nil {
		return len(outside) == 0
	}
	for _, u := range outside {
		if u == sorter {
			continue
		}
		if mi, ok := u.(*ssa.MakeInterface); ok && len(*mi.Referrers()) == 1 && (*mi.Referrers())[0] == sorter {
			continue
		}
		if u.Block() == sorter.Block() {
			before := false
			for _, x := range u.Block().Instrs {
				if x == sorter {
					before = true
				}
				if x == u && !before {
					return false
				}
			}
			continue
		}
		if !sorter.Block().Dominates(u.Block()) {
			return false
		}
	}
	return true
}

func isSort(in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	g := c.Call.StaticCallee()
	if g == nil {
		return false
	}
	if g.Origin() != nil {
		g = g.Origin()
	}
	return g.Pkg != nil && (g.Pkg.Pkg.Path() == "sort" || g.Pkg.Pkg.Path() == "slices") && (strings.HasPrefix(g.Name(), "S") || strings.HasPrefix(g.Name(), "I") || strings.HasPrefix(g.Name(), "F"))
}
