package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ShapeDB holds, for every immutable entity type, the combinations of nil and
// non-nil fields its construction sites can produce.
type ShapeDB struct {
	owner map[*types.Var]*types.Named
	vecs  map[*types.Named][]map[*types.Var]Fact
	keys  map[*types.Named]map[string]bool
	sites map[*types.Named][]shapeSite
	bad   map[*types.Named]string
	mut   map[*types.Named]string
}

type shapeSite struct {
	root *ssa.Function
	pos  string
	vec  map[*types.Var]Fact
	st   string
}

// fieldWrites lists every store to a struct field whose base is not a local
// allocation of the same function (i.e. every mutation of an existing object).
func (w *World) fieldWrites() map[*types.Var][]ssa.Instruction {
	out := map[*types.Var][]ssa.Instruction{}
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if _, ok := fa.X.(*ssa.Alloc); ok {
					continue
				}
				v := fieldOf(fa.X.Type(), fa.Field)
				out[v] = append(out[v], in)
			}
		}
	}
	return out
}

func plainPolicy(f *ssa.Function, fr *Frame) bool {
	return f.Signature.Recv() == nil
}

func (w *World) buildShapes(sums *SumDB) (*ShapeDB, error) {
	db := &ShapeDB{owner: map[*types.Var]*types.Named{}, vecs: map[*types.Named][]map[*types.Var]Fact{}, keys: map[*types.Named]map[string]bool{}, sites: map[*types.Named][]shapeSite{}, bad: map[*types.Named]string{}, mut: map[*types.Named]string{}}
	writes := w.fieldWrites()
	for _, n := range w.Named {
		s, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			if ins := writes[s.Field(i)]; len(ins) > 0 {
				db.mut[n] = s.Field(i).Name() + " written in " + short(ins[0].Parent())
			}
		}
		if db.mut[n] != "" {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			db.owner[s.Field(i)] = n
		}
	}
	// roots: functions callable from outside their package, or never called
	for _, f := range w.Funcs {
		if f.Parent() != nil {
			continue
		}
		if f.Signature.Recv() == nil && !isExportedFn(f) && f.Name() != "init" && !strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		if !w.mentionsEntityAlloc(f, db, map[*ssa.Function]bool{}) {
			continue
		}
		fl, err := flatten(w, f, plainPolicy)
		if err != nil {
			return nil, err
		}
		x := explode(fl, nil, sums, nil)
		x.After = func(xn *XNode, st *State, n *Node) {
			if n.Op != OpMakeIface {
				return
			}
			db.record(x, f, st, n)
		}
		if err := x.Run(); err != nil {
			return nil, err
		}
	}
	return db, nil
}

func isExportedFn(f *ssa.Function) bool {
	o := f.Object()
	return o != nil && o.Exported()
}

func (w *World) mentionsEntityAlloc(f *ssa.Function, db *ShapeDB, seen map[*ssa.Function]bool) bool {
	if seen[f] || f.Blocks == nil {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if mi, ok := in.(*ssa.MakeInterface); ok {
				if n := derefNamed(mi.X.Type()); n != nil && pkgInRepo(n.Obj().Pkg()) {
					if _, isS := n.Underlying().(*types.Struct); isS && db.mut[n] == "" {
						return true
					}
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				if t := c.Common().StaticCallee(); t != nil && w.inRepo(t) && t.Signature.Recv() == nil {
					if w.mentionsEntityAlloc(t, db, seen) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (db *ShapeDB) record(x *Exploder, root *ssa.Function, st *State, n *Node) {
	t := derefNamed(n.Args[0].T)
	if t == nil || db.mut[t] != "" || !pkgInRepo(t.Obj().Pkg()) {
		return
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	b := x.base(st, x.res(st, n.Args[0]))
	if !x.isAllocSym(b) {
		return // conversion of an existing instance
	}
	vec := map[*types.Var]Fact{}
	var ks []string
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		v, has := st.mem[Loc{Base: b, Field: f, Kind: 'f'}]
		fact := Unknown
		if has {
			fact = x.fact(st, v)
		} else if st.fresh[b] {
			if z := x.zero(f.Type()); z != nil {
				fact = x.intrinsic(z)
			}
		}
		if !nilable(f.Type()) && fact != IsTrue && fact != IsFalse {
			fact = Unknown
		}
		vec[f] = fact
		ks = append(ks, fact.String())
	}
	k := strings.Join(ks, ",")
	if db.keys[t] == nil {
		db.keys[t] = map[string]bool{}
	}
	if !db.keys[t][k] {
		db.keys[t][k] = true
		db.vecs[t] = append(db.vecs[t], vec)
	}
	db.sites[t] = append(db.sites[t], shapeSite{root: root, pos: x.W.pos(n.Pos), vec: vec, st: k})
}

// String lists the shapes for diagnostics.
func (db *ShapeDB) String() string {
	var out []string
	for n, vs := range db.vecs {
		s := n.Underlying().(*types.Struct)
		var l []string
		for _, v := range vs {
			var fs []string
			for i := 0; i < s.NumFields(); i++ {
				if nilable(s.Field(i).Type()) || v[s.Field(i)] != Unknown {
					fs = append(fs, s.Field(i).Name()+"="+v[s.Field(i)].String())
				}
			}
			l = append(l, "{"+strings.Join(fs, " ")+"}")
		}
		sort.Strings(l)
		out = append(out, strings.TrimPrefix(n.Obj().Pkg().Path(), modPath+"/")+"."+n.Obj().Name()+": "+strings.Join(l, " "))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// SumDB computes, per function, the possible nil/non-nil vectors of results.
type SumDB struct {
	w       *World
	shapes  *ShapeDB
	vecs    map[*ssa.Function]map[string][]Fact
	final   map[*ssa.Function]bool
	active  map[*ssa.Function]bool
	round   map[*ssa.Function]bool
	unknown map[*ssa.Function]bool
	depth   int
	grow    int
	touched bool
}

func newSums(w *World, sh *ShapeDB) *SumDB {
	return &SumDB{w: w, shapes: sh, vecs: map[*ssa.Function]map[string][]Fact{}, final: map[*ssa.Function]bool{}, active: map[*ssa.Function]bool{}, round: map[*ssa.Function]bool{}, unknown: map[*ssa.Function]bool{}}
}

func (s *SumDB) list(f *ssa.Function) [][]Fact {
	var ks []string
	for k := range s.vecs[f] {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out [][]Fact
	for _, k := range ks {
		out = append(out, s.vecs[f][k])
	}
	return out
}

func hasTrackedResult(f *ssa.Function) bool {
	r := f.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		if trackable(r.At(i).Type()) {
			return true
		}
	}
	return false
}

// sumPolicy inlines plain helper functions and entity getters.
func (s *SumDB) sumPolicy(f *ssa.Function, fr *Frame) bool {
	if s.w.isGetter(f) {
		return true
	}
	return f.Signature.Recv() == nil && instrCount(f) < 200
}

func instrCount(f *ssa.Function) int {
	n := 0
	for _, b := range f.Blocks {
		n += len(b.Instrs)
	}
	return n
}

func (s *SumDB) get(f *ssa.Function) ([][]Fact, bool) {
	if f.Blocks == nil || !hasTrackedResult(f) || s.unknown[f] {
		return nil, false
	}
	if s.final[f] {
		return s.list(f), true
	}
	if s.active[f] {
		s.touched = true
		return s.list(f), true
	}
	if s.round[f] {
		s.touched = true
		return s.list(f), true
	}
	outer := s.depth == 0
	s.depth++
	s.active[f] = true
	saved := s.touched
	s.touched = false
	var bad bool
	for {
		before := s.grow
		if outer {
			s.round = map[*ssa.Function]bool{}
		}
		if err := s.eval(f); err != nil {
			bad = true
			break
		}
		if !outer || s.grow == before {
			break
		}
	}
	delete(s.active, f)
	s.depth--
	if bad {
		s.unknown[f] = true
		s.touched = saved
		return nil, false
	}
	if outer {
		s.final[f] = true
		for g := range s.round {
			s.final[g] = true
		}
		s.round = map[*ssa.Function]bool{}
	} else if !s.touched {
		s.final[f] = true
	} else {
		s.round[f] = true
	}
	s.touched = saved || s.touched
	return s.list(f), true
}

func (s *SumDB) eval(f *ssa.Function) error {
	fl, err := flatten(s.w, f, s.sumPolicy)
	if err != nil {
		return err
	}
	x := explode(fl, s.shapes, s, nil)
	x.Limit = 20000
	if err := x.Run(); err != nil {
		return err
	}
	if s.vecs[f] == nil {
		s.vecs[f] = map[string][]Fact{}
	}
	for k, v := range x.Returns {
		if _, ok := s.vecs[f][k]; !ok {
			s.vecs[f][k] = v
			s.grow++
		}
	}
	return nil
}

// isGetter: a small loop-free method of a repository struct that writes nothing
// and calls nothing but other getters.
func (w *World) isGetter(f *ssa.Function) bool {
	return w.getter(f, map[*ssa.Function]bool{})
}

var getterMemo = map[*ssa.Function]int{}

func (w *World) getter(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if m, ok := getterMemo[f]; ok {
		return m == 1
	}
	if f.Blocks == nil || f.Signature.Recv() == nil || f.Signature.Params().Len() > 0 || seen[f] || instrCount(f) > 40 {
		return false
	}
	seen[f] = true
	ok := func() bool {
		for _, b := range f.Blocks {
			for _, s := range b.Succs {
				if s.Index <= b.Index && s.Dominates(b) {
					return false
				}
			}
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if _, ok := in.Addr.(*ssa.Alloc); !ok {
						return false
					}
				case *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Panic, *ssa.MakeInterface:
					return false
				case *ssa.Call:
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
						continue
					}
					ts := w.callees(in)
					if len(ts) != 1 || !w.getter(ts[0], seen) {
						return false
					}
				}
			}
		}
		return true
	}()
	delete(seen, f)
	if len(seen) == 0 || ok {
		if ok {
			getterMemo[f] = 1
		} else {
			getterMemo[f] = 0
		}
	}
	return ok
}

func vecString(vs [][]Fact) string {
	var l []string
	for _, v := range vs {
		var k []string
		for _, f := range v {
			k = append(k, f.String())
		}
		l = append(l, "("+strings.Join(k, ",")+")")
	}
	return fmt.Sprint(l)
}
