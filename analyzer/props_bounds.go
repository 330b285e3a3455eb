package main

import (
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C10 and C16: the range analysis, over the packages each is about.

func init() {
	rules["C10"] = rule{text: "every index, slice, allocation, fixed-size read, conversion to an array, type assertion and division of the decoders and of the database service stays within what exists, on every path, for every content", run: func(c *Ctx, r *Result) error {
		writes := c.reaches(func(f *ssa.Function) bool {
			return f.Pkg != nil && f.Pkg.Pkg.Path() == "os" && (f.Name() == "Rename" || f.Name() == "Create")
		})
		r.Assume = append(r.Assume, boundsAssume...)
		r.need("index", 40)
		r.need("slice bounds", 40)
		r.need("fixed size", 15)
		r.need("allocation", 2)
		return c.bounds(r, false, func(f *ssa.Function) bool {
			return c.production(f, "libs/databases/", "libs/cryptography/")
		}, func(root *ssa.Function, n *Node, kind string) bool {
			// what a commit allocates is bounded by its configuration
			return kind == "allocation" && writes[root]
		})
	}}
	rules["C16"] = rule{text: "every index, slice, type assertion and division of the grammars, interpreters and queries stays within what exists, on every path, for every grammar, program, query and input", run: func(c *Ctx, r *Result) error {
		match := c.byteCycles()
		skipped := map[string]bool{}
		r.Assume = append(r.Assume, boundsAssume...)
		r.Assume = append(r.Assume, "positions and amounts a grammar, program or query holds fit an int")
		r.need("index", 60)
		r.need("slice bounds", 40)
		err := c.bounds(r, true, func(f *ssa.Function) bool {
			return c.production(f, "libs/asts/", "libs/interpreters/", "libs/queries/")
		}, func(root *ssa.Function, n *Node, kind string) bool {
			// how much a grammar or a program asks to hold is its own affair
			if kind == "allocation" {
				return true
			}
			// how much of the bytes a recursive match leaves is C18
			if (kind == "slice bounds" || kind == "index") && match[root] && byteSlice(n.Args[0].T) {
				skipped[short(root)] = true
				return true
			}
			return false
		})
		for _, f := range sortedKeys(skipped) {
			r.Notes = append(r.Notes, "positions in the bytes being matched by "+f+" are not decided")
		}
		return err
	}}
}

var boundsAssume = []string{
	"int has 64 bits; nothing that exists is longer than 2^47",
	"a counter that starts small and grows by a constant does not overflow",
	"entities are built by the constructors of their packages",
}

// production says whether f is under one of the directories and not a helper of tests.
func (c *Ctx) production(f *ssa.Function, dirs ...string) bool {
	if strings.HasSuffix(filepath.Base(c.W.Prog.Fset.Position(f.Pos()).Filename), "test_helper.go") {
		return false
	}
	if f.Pkg == nil {
		return false
	}
	p := strings.TrimPrefix(f.Pkg.Pkg.Path(), modPath+"/") + "/"
	for _, d := range dirs {
		if strings.HasPrefix(p, d) {
			return true
		}
	}
	return false
}

// outgoing are the functions f may call, closures included.
func (c *Ctx) outgoing(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				out = append(out, c.W.callees(ci)...)
				if g := ci.Common().StaticCallee(); g != nil {
					out = append(out, g)
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				out = append(out, mc.Fn.(*ssa.Function))
			}
		}
	}
	return out
}

// reaches are the functions of the repository from which one that is wanted
// can be called.
func (c *Ctx) reaches(want func(f *ssa.Function) bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range c.W.Funcs {
			if out[f] {
				continue
			}
			for _, g := range c.outgoing(f) {
				if out[g] || want(g) {
					out[f], changed = true, true
					break
				}
			}
		}
	}
	return out
}

// byteCycles are the functions that take and return bytes, or a part of a
// tree, and can be called again by what they call.
func (c *Ctx) byteCycles() map[*ssa.Function]bool {
	next := map[*ssa.Function][]*ssa.Function{}
	for _, f := range c.W.Funcs {
		next[f] = c.outgoing(f)
	}
	out := map[*ssa.Function]bool{}
	for _, f := range c.W.Funcs {
		takes := false
		for _, p := range f.Params {
			if s, ok := p.Type().Underlying().(*types.Slice); ok && byteSlice(s) {
				takes = true
			}
		}
		if !takes {
			continue
		}
		seen := map[*ssa.Function]bool{}
		todo := append([]*ssa.Function{}, next[f]...)
		for len(todo) > 0 {
			g := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			if seen[g] {
				continue
			}
			seen[g] = true
			todo = append(todo, next[g]...)
		}
		if seen[f] {
			out[f] = true
		}
	}
	return out
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
