package main

import (
	"embed"
	"fmt"
	"go/ast"
	"golang.org/x/tools/go/ssa"
	"hash/fnv"
	"os"
	"sort"
	"strings"
)

//go:embed specs/*.txt
var specFS embed.FS

// termProp is a property decided by comparing what the functions behind some
// exported operations compute, in closed form, with the specification in specs/.
type termProp struct {
	id      string
	text    string
	targets []string            // "pkg Iface.Method", "pkg Iface.*" or "pkg Func"
	anchors []string            // functions shown as sections of their own
	opaque  []string            // functions that are only named
	follow  []string            // methods of entities whose calls are replaced by what they compute
	files   bool                // operations on files are replaced by what they read and write
	sigs    map[string][]string // if set, collects the signatures of the anchors
}

const termText = "the guarded closed form (results, effects and the condition of each) of every listed operation, computed from the typed SSA form by path-sensitive value numbering with loops and recursion summarised, equals the specification of the property; "

var termProps []termProp

func termRule(p termProp) {
	termProps = append(termProps, p)
	rules[p.id] = rule{termText + p.text, func(c *Ctx, r *Result) error { return runTerms(c, r, p) }}
}

func (c *Ctx) termTargets(p termProp) ([]string, error) {
	var out []string
	for _, t := range p.targets {
		if pre, ok := strings.CutSuffix(t, ".*"); ok {
			pkg, ifc, _ := strings.Cut(pre, " ")
			l, err := c.methodsOf(pkg, ifc)
			if err != nil {
				return nil, err
			}
			out = append(out, l...)
			continue
		}
		out = append(out, t)
	}
	return out, nil
}

// termSections computes the sections of one target; alt asks for another way of
// cutting its recursions.
func (c *Ctx) termSections(p termProp, t string, r *Result, alt int) ([]section, error) {
	f, err := c.target(t)
	if err != nil {
		return nil, err
	}
	c.follow, c.files = map[*ssa.Function]bool{}, p.files
	for _, x := range p.follow {
		g, err := c.target(x)
		if err != nil {
			return nil, err
		}
		c.follow[g] = true
	}
	secs, h, err := c.closed(f, t, p.anchorList(), alt)
	if h != nil && r != nil {
		for g := range h.fns {
			r.fn(short(g))
		}
	}
	if err != nil {
		return nil, fmt.Errorf("%s: %v", c.W.pos(f.Pos()), err)
	}
	if p.sigs != nil {
		for g, n := range h.names {
			p.sigs[n] = sigOf(g)
		}
	}
	for i, s := range secs {
		for _, a := range p.anchors {
			if s.name == t+"/"+a {
				secs[i].name = "shared/" + a
			}
		}
	}
	return secs, nil
}

// boundedSections computes the sections, where other ways of cutting the
// recursions only get a share of the work.
func (c *Ctx) boundedSections(p termProp, t string, r *Result, alt int) (secs []section, err error) {
	work, workLimit = 0, firstWork
	if alt > 0 {
		workLimit = altWork
	}
	if os.Getenv("DBG_WORK") != "" {
		defer func() { fmt.Fprintln(os.Stderr, "work", p.id, t, alt, work) }()
	}
	defer func() {
		workLimit = 0
		if e := recover(); e != nil {
			if _, ok := e.(tooMuch); !ok {
				panic(e)
			}
			secs, err = nil, tooMuch{}
		}
	}()
	return c.termSections(p, t, r, alt)
}

// The most steps the first cut and every other one may take; on the pinned tree
// no target takes more than 200000.
const (
	firstWork = 60000000
	altWork   = 5000000
)

// anchorList gives the anchors with the signatures the specification notes.
func (p termProp) anchorList() []anchor {
	sigs := map[string][]string{}
	if b, err := specFS.ReadFile("specs/" + p.id + ".txt"); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if w := strings.Fields(l); len(w) > 2 && w[0] == "#anchor" && !ast.IsExported(w[1]) {
				sigs[w[1]] = w[2:]
			}
		}
	}
	var out []anchor
	for _, n := range p.anchors {
		out = append(out, anchor{n, sigs[n], false})
	}
	for _, n := range p.opaque {
		out = append(out, anchor{n, sigs[n], true})
	}
	return out
}

func renderSections(l []section) string {
	var sb strings.Builder
	for _, s := range l {
		fmt.Fprintf(&sb, "== %s\n", s.name)
		for _, x := range s.lines {
			sb.WriteString("  " + strings.ReplaceAll(x, " WHEN ", "\n      WHEN ") + "\n")
		}
	}
	return sb.String()
}

func parseSections(text string) map[string][]string {
	out := map[string][]string{}
	cur := ""
	for _, l := range strings.Split(text, "\n") {
		switch {
		case l == "" || strings.HasPrefix(l, "#"):
		case strings.HasPrefix(l, "== "):
			cur = l[3:]
			out[cur] = nil
		case strings.HasPrefix(l, "      WHEN "):
			k := len(out[cur]) - 1
			out[cur][k] += " WHEN " + l[11:]
		default:
			out[cur] = append(out[cur], strings.TrimPrefix(l, "  "))
		}
	}
	return out
}

func tag(s string) string {
	h := fnv.New32a()
	h.Write([]byte(s))
	return fmt.Sprintf("%08x", h.Sum32())
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func runTerms(c *Ctx, r *Result, p termProp) error {
	b, err := specFS.ReadFile("specs/" + p.id + ".txt")
	if err != nil {
		return err
	}
	want := parseSections(string(b))
	ts, err := c.termTargets(p)
	if err != nil {
		return err
	}
	got := map[string]bool{}
	var bad []section
	for _, t := range ts {
		var first []section
		matched := false
		for alt := 0; alt < 8 && !matched; alt++ {
			secs, err := c.boundedSections(p, t, r, alt)
			if err == error(tooMuch{}) && alt > 0 {
				break // this cut tells nothing
			}
			if err != nil {
				r.fail("undecided", t, "?", err.Error(), nil)
				break
			}
			if secs == nil {
				continue // no other cut
			}
			if first == nil {
				first = secs
			}
			matched = true
			for _, s := range secs {
				if extra, missing := diffSection(s, want); len(extra)+len(missing) > 0 {
					matched = false
				}
			}
			if matched {
				for _, s := range secs {
					if got[s.name] {
						continue // shared
					}
					got[s.name] = true
					for _, l := range s.lines {
						r.ok(lineKind(l), s.name+": "+clip(l, 300))
					}
				}
			}
		}
		if !matched {
			bad = append(bad, first...)
		}
	}
	for _, s := range bad {
		extra, missing := diffSection(s, want)
		if got[s.name] {
			continue
		}
		got[s.name] = true
		if len(want[s.name]) == 0 {
			r.fail("section", s.name, s.where, "no specification of this recursion", nil)
			continue
		}
		var path []string
		for _, l := range missing {
			path = append(path, "specified: "+clip(l, 1200))
		}
		for _, l := range extra {
			path = append(path, "found: "+clip(l, 1200))
		}
		for i := len(extra) + len(missing); i < len(want[s.name]); i++ {
			r.ok("unchanged", s.name)
		}
		if len(path) == 0 {
			continue
		}
		at := s.where
		for _, l := range extra {
			if x := s.at[l]; x != "" && !strings.HasPrefix(l, "where") {
				at = x
				break
			}
		}
		what := "does not do what is specified"
		if len(extra) > 0 {
			what += "; found: " + clip(extra[0], 400)
		} else {
			what += "; missing: " + clip(missing[0], 400)
		}
		r.fail("outcome", s.name+" "+tag(strings.Join(path, "\n")), at, s.name+" "+what, path)
	}
	for n := range want {
		if !got[n] && !r.failed("undecided", n) {
			r.fail("section", n, "?", "the operation or recursion "+n+" that the specification describes was not found", nil)
		}
	}
	return nil
}

// diffSection compares a section with the specification.
func diffSection(s section, want map[string][]string) (extra, missing []string) {
	w, has := map[string]bool{}, map[string]bool{}
	for _, l := range want[s.name] {
		w[l] = true
	}
	for _, l := range s.lines {
		has[l] = true
		if !w[l] {
			extra = append(extra, l)
		}
	}
	for l := range w {
		if !has[l] {
			missing = append(missing, l)
		}
	}
	sort.Strings(missing)
	return extra, missing
}

func lineKind(l string) string {
	k, _, _ := strings.Cut(l, " ")
	return k
}
