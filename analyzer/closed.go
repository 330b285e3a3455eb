package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// This file closes the summary of an entry point over recursion: the functions
// at which a recursion comes back are shown as sections of their own, under
// names that do not depend on what the source calls them.

// section is the summary of one function.
type section struct {
	name  string
	where string // position
	lines []string
	at    map[string]string // where a line comes from
}

type heads struct {
	names map[*ssa.Function]string
	dead  map[*ssa.Function]map[int]bool // parameters that are never used
	order []*ssa.Function
	fns   map[*ssa.Function]bool
	eff   map[*ssa.Function]bool
	unk   map[*ssa.Function]bool         // functions that reach a call of something unknown, or keep or change what is not theirs
	fresh map[*ssa.Function]map[int]bool // parameters replaced by an empty table when they are nil
	sure  map[*ssa.Function]bool         // functions whose error is never anything but nil
}

// neverFails gives the functions of a set whose last result is an error that is
// nil wherever they return.
func neverFails(fns []*ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range fns {
		if rs := f.Signature.Results(); rs.Len() > 0 && isErrorType(rs.At(rs.Len()-1).Type()) && f.Recover == nil {
			out[f] = true
		}
	}
	var none func(v ssa.Value, seen map[ssa.Value]bool) bool
	none = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Const:
			return v.IsNil()
		case *ssa.Phi:
			for _, e := range v.Edges {
				if !none(e, seen) {
					return false
				}
			}
			return true
		case *ssa.Call:
			return out[v.Call.StaticCallee()]
		case *ssa.Extract:
			c, ok := v.Tuple.(*ssa.Call)
			return ok && v.Index == c.Call.Signature().Results().Len()-1 && out[c.Call.StaticCallee()]
		}
		return false
	}
	for again := true; again; {
		again = false
		for f := range out {
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !none(r.Results[len(r.Results)-1], map[ssa.Value]bool{}) {
					delete(out, f)
					again = true
					break
				}
			}
		}
	}
	return out
}

// unknownCall: a call of a function value, or into the outside world.
func (c *Ctx) unknownCall(ci ssa.CallInstruction) bool {
	cc := ci.Common()
	if cc.IsInvoke() {
		return false
	}
	if f := cc.StaticCallee(); f != nil {
		if c.W.inRepo(f) || f.Pkg == nil {
			return false
		}
		if c.files {
			return false
		}
		pure, known := pureExt[f.Pkg.Pkg.Path()]
		return !(known && pure) || f.String() == "time.Now"
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return false
	}
	// a function kept in a field of the receiver is taken to be one
	if u, ok := cc.Value.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			if p, ok := fa.X.(*ssa.Parameter); ok && p.Parent().Signature.Recv() != nil && p == p.Parent().Params[0] {
				return false
			}
		}
	}
	return true
}

func (c *Ctx) followable(root *ssa.Function) func(*ssa.Function, *Frame) bool {
	return c.termPolicy(root)
}

// findHeads finds the functions at which the recursion below an entry comes back.
func (c *Ctx) findHeads(entry *ssa.Function, anchors []anchor, alt int) *heads {
	h := &heads{names: map[*ssa.Function]string{}, dead: map[*ssa.Function]map[int]bool{}, fns: map[*ssa.Function]bool{}}
	pol := c.termPolicy(entry)
	calls := func(f *ssa.Function) []ssa.CallInstruction {
		var out []ssa.CallInstruction
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					out = append(out, ci)
				}
			}
		}
		return out
	}
	var subs func(f *ssa.Function) []*ssa.Function
	subs = func(f *ssa.Function) []*ssa.Function {
		var out []*ssa.Function
		for _, ci := range calls(f) {
			for _, g := range c.W.callees(ci) {
				if g == entry || pol(g, nil) {
					out = append(out, g)
				}
			}
			if g := ci.Common().StaticCallee(); g != nil && g.Parent() != nil {
				out = append(out, g)
			}
		}
		return out
	}
	var found []*ssa.Function
	next := map[*ssa.Function][]*ssa.Function{}
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	var dfs func(f *ssa.Function)
	dfs = func(f *ssa.Function) {
		if h.fns[f] {
			return
		}
		found = append(found, f)
		h.fns[f] = true
		next[f] = subs(f)
		for _, g := range next[f] {
			if callers[g] == nil {
				callers[g] = map[*ssa.Function]bool{}
			}
			callers[g][f] = true
			dfs(g)
		}
	}
	dfs(entry)
	isHead := map[*ssa.Function]bool{}
	named := assign(entry, found, anchors, alt%2 == 1)
	shown := map[*ssa.Function]bool{}
	for f := range named {
		isHead[f] = true
	}
	// what is below a function that another property describes is not shown
	for _, n := range anchors {
		for f, x := range named {
			if n.name == x && n.opaque {
				next[f] = nil
			}
		}
	}
	var mark func(f *ssa.Function)
	mark = func(f *ssa.Function) {
		if !shown[f] {
			shown[f] = true
			for _, g := range next[f] {
				mark(g)
			}
		}
	}
	mark(entry)
	var kept []*ssa.Function
	for _, f := range found {
		if shown[f] {
			kept = append(kept, f)
		}
	}
	all := found
	found = kept
	callers = map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range found {
		for _, g := range next[f] {
			if callers[g] == nil {
				callers[g] = map[*ssa.Function]bool{}
			}
			callers[g][f] = true
		}
	}
	for f := range isHead {
		if !shown[f] {
			delete(isHead, f)
		}
	}
	alt /= 2
	if !cut(entry, found, next, callers, isHead, alt) {
		return nil
	}
	k := 0
	sort.SliceStable(found[1:], func(i, j int) bool {
		a, b := found[1+i], found[1+j]
		if x, y := len(callers[a]), len(callers[b]); x != y {
			return x > y
		}
		return paramTypes(a) < paramTypes(b)
	})
	for _, f := range found {
		if f == entry {
			h.names[f] = f.Name()
			continue
		}
		if !isHead[f] {
			continue
		}
		if n, ok := named[f]; ok {
			h.names[f] = n
			if next[f] == nil && opaque(anchors, n) {
				continue
			}
		} else if api(f) {
			h.names[f] = f.Name()
		} else {
			k++
			h.names[f] = fmt.Sprintf("rec%d", k)
		}
		h.order = append(h.order, f)
	}
	// parameters that are only handed on to unused parameters
	deadOf := map[*ssa.Function]map[int]bool{}
	for _, f := range all {
		if f == entry || api(f) {
			continue
		}
		d := map[int]bool{}
		for i := range f.Params {
			if f.Signature.Recv() != nil && i == 0 {
				continue
			}
			d[i] = true
		}
		deadOf[f] = d
	}
	for again := true; again; {
		again = false
		for _, f := range all {
			for i, p := range f.Params {
				if !deadOf[f][i] {
					continue
				}
				used := false
				for _, r := range *p.Referrers() {
					ci, ok := r.(ssa.CallInstruction)
					if !ok {
						if _, dbg := r.(*ssa.DebugRef); dbg {
							continue
						}
						used = true
						break
					}
					g := ci.Common().StaticCallee()
					for j, x := range ci.Common().Args {
						if x == p && !deadOf[g][j] {
							used = true
						}
					}
					if ci.Common().Value == p {
						used = true
					}
				}
				if used {
					delete(deadOf[f], i)
					again = true
				}
			}
		}
	}
	for f := range h.names {
		h.dead[f] = deadOf[f]
	}
	h.sure = neverFails(all)
	h.fresh = map[*ssa.Function]map[int]bool{}
	for f := range h.names {
		if f != entry {
			h.fresh[f] = defaulted(f)
		}
	}
	// functions that reach a call of something unknown, or write to what they are given
	h.eff = map[*ssa.Function]bool{}
	for again := true; again; {
		again = false
		for _, f := range all {
			if h.eff[f] {
				continue
			}
			does := len(c.effects().sums[f].mut) > 0 // writes to what it is given
			for _, ci := range calls(f) {
				does = does || c.unknownCall(ci)
			}
			for _, g := range subs(f) {
				does = does || h.eff[g]
			}
			if does {
				h.eff[f] = true
				again = true
			}
		}
	}
	// functions that do something to what is not a table or structure they are given
	h.unk = map[*ssa.Function]bool{}
	for again := true; again; {
		again = false
		for _, f := range all {
			if h.unk[f] {
				continue
			}
			does := false
			for i := range c.effects().sums[f].mut {
				does = does || i < 0 || i >= len(f.Params) || f.Signature.Recv() != nil && i == 0 || !isTable(f.Params[i].Type())
			}
			for _, ci := range calls(f) {
				does = does || c.unknownCall(ci)
			}
			for _, g := range subs(f) {
				does = does || h.unk[g]
			}
			if does {
				h.unk[f] = true
				again = true
			}
		}
	}
	return h
}

// defaulted gives the parameters of a function that are maps, and that it replaces
// by an empty one when they are nil before it does anything with them.
func defaulted(f *ssa.Function) map[int]bool {
	out := map[int]bool{}
	for i, p := range f.Params {
		if _, ok := p.Type().Underlying().(*types.Map); !ok {
			continue
		}
		asks, gives, ok := false, false, true
		for _, r := range *p.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef:
			case *ssa.BinOp:
				k, isK := r.Y.(*ssa.Const)
				asks = true
				ok = ok && isK && k.IsNil() && (r.Op == token.EQL || r.Op == token.NEQ)
			case *ssa.Phi:
				gives = true
				for _, e := range r.Edges {
					m, isM := e.(*ssa.MakeMap)
					ok = ok && (e == p || isM && len(*m.Referrers()) == 1)
				}
			default:
				ok = false
			}
		}
		if asks && gives && ok {
			out[i] = true
		}
	}
	return out
}

// isTable: a map, or a pointer to a map.
func isTable(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (h *heads) by(name string) *ssa.Function {
	for f, n := range h.names {
		if n == name {
			return f
		}
	}
	return nil
}

// closed gives the sections of an entry point.
func (c *Ctx) closed(entry *ssa.Function, name string, anchors []anchor, alt int) ([]section, *heads, error) {
	h := c.findHeads(entry, anchors, alt)
	if h == nil {
		return nil, nil, nil
	}
	pol := c.termPolicy(entry)
	follow := func(f *ssa.Function, fr *Frame) bool {
		if _, ok := h.names[f]; ok {
			return false
		}
		return pol(f, fr)
	}
	var out []section
	for _, f := range append([]*ssa.Function{entry}, h.order...) {
		if os.Getenv("DBG_CLOSED") != "" {
			fmt.Fprintln(os.Stderr, time.Now().Format("15:04:05.0"), h.names[f])
		}
		a, err := c.termsOf(f, follow, h)
		if err != nil {
			return nil, h, fmt.Errorf("%s: %v", short(f), err)
		}
		s := section{name: name, where: c.W.pos(f.Pos()), at: map[string]string{}}
		if f != entry {
			s.name = name + "/" + h.names[f]
		}
		if os.Getenv("DBG_CLOSED") != "" {
			fmt.Fprintln(os.Stderr, time.Now().Format("15:04:05.0"), h.names[f], "states", len(a.outs))
		}
		sum, where := a.summary()
		for _, x := range sum {
			l := x.String()
			if len(x.dnf) == 0 || len(x.dnf) == 1 && x.dnf[0] == "" {
				s.lines = append(s.lines, l)
				s.at[l] = x.at
			}
			for _, d := range x.dnf {
				if d != "" {
					s.lines = append(s.lines, l+" WHEN "+d)
					s.at[l+" WHEN "+d] = x.at
				}
			}
		}
		var names []string
		for n := range where {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			s.lines = append(s.lines, "where "+n+" = "+where[n])
		}
		out = append(out, s)
	}
	return out, h, nil
}

// target finds an entry point: "pkg Iface.Method" or "pkg Func".
func (c *Ctx) target(s string) (*ssa.Function, error) {
	pkg, name, ok := strings.Cut(s, " ")
	if !ok {
		return nil, fmt.Errorf("malformed target %s", s)
	}
	if i, m, ok := strings.Cut(name, "."); ok {
		return c.W.ifaceMethod(pkg, i, m)
	}
	sp := c.W.pkg(pkg)
	if sp == nil {
		return nil, fmt.Errorf("unresolved anchor: package %s", pkg)
	}
	f := sp.Func(name)
	if f == nil || f.Blocks == nil {
		return nil, fmt.Errorf("unresolved anchor: function %s", s)
	}
	return f, nil
}

// methodsOf lists the methods of an exported interface as targets.
func (c *Ctx) methodsOf(pkg, iface string) ([]string, error) {
	n := c.W.iface(pkg, iface)
	if n == nil {
		return nil, fmt.Errorf("unresolved anchor: interface %s.%s", pkg, iface)
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return nil, fmt.Errorf("unresolved anchor: %s.%s is no interface", pkg, iface)
	}
	var out []string
	for i := 0; i < it.NumMethods(); i++ {
		out = append(out, pkg+" "+iface+"."+it.Method(i).Name())
	}
	sort.Strings(out)
	return out, nil
}

// anchor is a function that is shown as a section of its own; its signature
// tells it again when the source calls it something else.
type anchor struct {
	name   string
	sig    []string
	opaque bool
}

func opaque(l []anchor, name string) bool {
	for _, n := range l {
		if n.name == name {
			return n.opaque
		}
	}
	return false
}

func sigOf(f *ssa.Function) []string {
	var s []string
	for _, tu := range []*types.Tuple{f.Signature.Params(), f.Signature.Results()} {
		for i := 0; i < tu.Len(); i++ {
			s = append(s, strings.ReplaceAll(typeName(tu.At(i).Type()), " ", ""))
		}
	}
	sort.Strings(s)
	return s
}

// alike tells how much of two signatures is the same.
func alike(a, b []string) float64 {
	n := map[string]int{}
	for _, x := range a {
		n[x]++
	}
	both := 0
	for _, x := range b {
		if n[x] > 0 {
			n[x]--
			both++
		}
	}
	if len(a)+len(b) == 0 {
		return 1
	}
	return float64(2*both) / float64(len(a)+len(b))
}

// assign finds the functions the anchors stand for: by their names, and by
// their signatures when there is none of that name, or when bySig asks for it.
func assign(entry *ssa.Function, fns []*ssa.Function, anchors []anchor, bySig bool) map[*ssa.Function]string {
	out := map[*ssa.Function]string{}
	have := map[string]bool{}
	for _, f := range fns {
		for _, n := range anchors {
			if bySig && len(n.sig) > 0 {
				continue
			}
			if f != entry && f.Name() == n.name && f.Parent() == nil {
				out[f] = n.name
				have[n.name] = true
			}
		}
	}
	for {
		var best *ssa.Function
		name, score := "", 0.6
		for _, n := range anchors {
			if have[n.name] || len(n.sig) == 0 {
				continue
			}
			for _, f := range fns {
				if f == entry || f.Parent() != nil || out[f] != "" || api(f) {
					continue
				}
				x := alike(n.sig, sigOf(f))
				if f.Name() == n.name {
					x += 0.01
				}
				if x > score {
					best, name, score = f, n.name, x
				}
			}
		}
		if best == nil {
			return out
		}
		out[best] = name
		have[name] = true
	}
}

func paramTypes(f *ssa.Function) string {
	var s []string
	ps := f.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		s = append(s, typeName(ps.At(i).Type()))
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

// cut gives the least set of functions that breaks every recursion which does
// not pass through the entry; among equals, the functions with most callers
// and then the first by the types of the parameters. A positive alt asks for
// one of the other cuts of the same size.
func cut(entry *ssa.Function, fns []*ssa.Function, next map[*ssa.Function][]*ssa.Function, callers map[*ssa.Function]map[*ssa.Function]bool, pick map[*ssa.Function]bool, alt int) bool {
	reach := func(from *ssa.Function, without map[*ssa.Function]bool) map[*ssa.Function]bool {
		out := map[*ssa.Function]bool{}
		var w func(f *ssa.Function)
		w = func(f *ssa.Function) {
			for _, g := range next[f] {
				if g != entry && !without[g] && !out[g] {
					out[g] = true
					w(g)
				}
			}
		}
		w(from)
		return out
	}
	var cyc []*ssa.Function
	for _, f := range fns {
		if f != entry && f.Parent() == nil && reach(f, nil)[f] {
			cyc = append(cyc, f)
		}
	}
	sort.SliceStable(cyc, func(i, j int) bool {
		if a, b := len(callers[cyc[i]]), len(callers[cyc[j]]); a != b {
			return a > b
		}
		return paramTypes(cyc[i]) < paramTypes(cyc[j])
	})
	acyclic := func(without map[*ssa.Function]bool) bool {
		for _, f := range cyc {
			if !without[f] && reach(f, without)[f] {
				return false
			}
		}
		return true
	}
	any := false
	var try func(from, left int) bool
	try = func(from, left int) bool {
		if left == 0 {
			if !acyclic(pick) {
				return false
			}
			any = true
			alt--
			return alt < 0
		}
		for i := from; i < len(cyc); i++ {
			if pick[cyc[i]] {
				continue
			}
			pick[cyc[i]] = true
			if try(i+1, left-1) {
				return true
			}
			delete(pick, cyc[i])
		}
		return false
	}
	for n := 0; n <= len(cyc); n++ {
		if try(0, n) {
			return true
		}
		if any {
			break // no further cut of the least size
		}
	}
	return false
}
