package main

import (
	_ "embed"
	"fmt"
	"sort"
	"strings"
)

//go:embed spec_builders.txt
var specBuilders string

// The committed contract of the builders, by public name.
type buildSpec struct {
	name      string
	value     [][2]string // setter, accessor
	require   [][2]string // setter, given or filled
	oneof     [][]string
	anyof     [][]string
	tag       [][2]string // accessor, setter
	has       [][2]string // presence accessor, accessor
	delegates bool        // some ways out return what another builder built
}

func readBuildSpec() map[string]*buildSpec {
	out := map[string]*buildSpec{}
	var cur *buildSpec
	for _, l := range strings.Split(specBuilders, "\n") {
		f := strings.Fields(l)
		if len(f) == 0 || strings.HasPrefix(f[0], "#") {
			continue
		}
		switch f[0] {
		case "builder":
			cur = &buildSpec{name: f[1]}
			out[f[1]] = cur
		case "value":
			cur.value = append(cur.value, [2]string{f[1], f[2]})
		case "require":
			cur.require = append(cur.require, [2]string{f[1], f[2]})
		case "has":
			cur.has = append(cur.has, [2]string{f[1], f[2]})
		case "tag":
			cur.tag = append(cur.tag, [2]string{f[1], f[2]})
		case "oneof":
			cur.oneof = append(cur.oneof, f[1:])
		case "anyof":
			cur.anyof = append(cur.anyof, f[1:])
		case "delegates":
			cur.delegates = true
		}
	}
	return out
}

func (sp *buildSpec) shows(setter string) bool {
	for _, v := range sp.value {
		if v[0] == setter {
			return true
		}
	}
	return false
}

// given: what is known, at the return, about the value a setter recorded.
// 0 unknown, 1 given, 2 given and not empty, -1 absent
func (bi *builderInfo) given(r buildRet, s *setter) int {
	p := r.x.Fl.Params[0]
	v, ok := r.st.mem[Loc{Base: Sym(p.ID), Field: s.field, Kind: 'f'}]
	if !ok {
		return 0
	}
	v = r.x.resSym(r.st, v)
	switch {
	case r.x.absent(r.st, v):
		return -1
	case r.x.present(r.st, v):
		return 2
	case r.x.fact(r.st, v) == NonNil:
		return 1
	}
	return 0
}

func (bi *builderInfo) setter(name string) *setter {
	for _, s := range bi.setters {
		if s.name == name {
			return s
		}
	}
	return nil
}

// shows: the value an accessor returns on a way out, as seen from the setters.
func (bi *builderInfo) shows(r buildRet, a accessor) (origin, bool) {
	v, ok := bi.read(r, a.path)
	if !ok {
		return origin{}, false
	}
	return bi.originOf(r, v, 0), true
}

func init() {
	rules["C13"] = rule{"for every builder: each setter records its argument and nothing else; on every way out of building with an instance, each accessor of the instance returns the value recorded by its setter, or its absence when it was not given", runC13}
	rules["C14"] = rule{"for every builder: building returns either an instance or an error; an instance is only returned when every mandatory value was given and exactly one of each group of alternatives; presence accessors agree with the part they announce", runC14}
}

type builderCtx struct {
	bi   *builderInfo
	sp   *buildSpec
	acc  map[string]accessor
	opaq map[int]bool
}

func (c *Ctx) builderContracts(r *Result) ([]builderCtx, error) {
	bs, err := c.builders()
	if err != nil {
		return nil, err
	}
	spec := readBuildSpec()
	seen := map[string]bool{}
	var out []builderCtx
	for _, bi := range bs {
		seen[bi.name] = true
		r.fn(short(bi.now))
		for _, s := range bi.setters {
			r.fn(short(s.fn))
		}
		out = append(out, builderCtx{bi: bi, sp: spec[bi.name], acc: c.exposed(bi)})
	}
	var missing []string
	for n := range spec {
		if !seen[n] {
			missing = append(missing, n)
		}
	}
	sort.Strings(missing)
	if len(missing) > 0 {
		return nil, fmt.Errorf("unresolved anchor: the builder of %s", strings.Join(missing, ", "))
	}
	return out, nil
}

func isAllocRet(r buildRet) bool {
	n := r.x.symNode(r.root)
	return n != nil && n.Op == OpAlloc
}

func runC13(c *Ctx, r *Result) error {
	cs, err := c.builderContracts(r)
	if err != nil {
		return err
	}
	for _, b := range cs {
		bi := b.bi
		used := map[interface{}]string{}
		for _, s := range bi.setters {
			if s.why != "" {
				r.fail("setter", bi.name+"|"+s.name, c.W.pos(s.fn.Pos()), fmt.Sprintf("the setter %s of the builder of %s does not record its argument: %s", s.fn.Name(), bi.name, s.why), nil)
				continue
			}
			if o := used[s.field]; o != "" {
				r.fail("setter", bi.name+"|"+s.name, c.W.pos(s.fn.Pos()), fmt.Sprintf("the setters %s and %s of the builder of %s overwrite each other", s.name, o, bi.name), nil)
				continue
			}
			used[s.field] = s.name
			r.ok("setter", bi.name+"."+s.name)
		}
		for _, n := range bi.notes {
			if s := bi.setterOf(n.f); s != nil && (n.kind == "replace" || n.kind == "clear") && b.sp != nil && b.sp.shows(s.name) {
				r.fail("value", bi.name+"|"+s.name+"|"+n.kind, n.where, fmt.Sprintf("building a %s changes the given %s: %s", bi.name, s.name, n.what), nil)
			}
		}
		if b.sp == nil {
			continue
		}
		for _, v := range b.sp.value {
			s := bi.setter(v[0])
			if s == nil {
				return fmt.Errorf("unresolved anchor: setter %s of the builder of %s", v[0], bi.name)
			}
			if s.why != "" {
				continue
			}
			n := 0
			for _, ret := range bi.rets {
				if !isAllocRet(ret) {
					if !b.sp.delegates {
						r.fail("undecided", bi.name+"|return", ret.where, fmt.Sprintf("building a %s returns something that is not a new instance", bi.name), nil)
					}
					continue
				}
				a, ok := b.acc[v[1]]
				if !ok {
					r.fail("value", bi.name+"|"+v[0], ret.where, fmt.Sprintf("the accessor %s of a %s does not return what the instance was built with", v[1], bi.name), nil)
					continue
				}
				n++
				if why := c.valueOK(b, ret, s, a); why != "" {
					r.fail("value", bi.name+"|"+v[0], ret.where, fmt.Sprintf("on one way out of building a %s, %s: %s", bi.name, v[1], why), nil)
				} else {
					r.ok("value", fmt.Sprintf("%s.%s returns what %s was given @%s", bi.name, v[1], v[0], ret.where))
				}
			}
			_ = n
		}
		for _, t := range b.sp.tag {
			s := bi.setter(t[1])
			a, ok := b.acc[t[0]]
			if s == nil || !ok {
				return fmt.Errorf("unresolved anchor: accessor %s of %s", t[0], bi.name)
			}
			for _, ret := range bi.rets {
				v, ok := bi.read(ret, a.path)
				f := Unknown
				if ok {
					f = ret.x.fact(ret.st, v)
				}
				// the tag follows the alternative that is shown
				shown := false
				for _, vv := range b.sp.value {
					if vv[0] == t[1] {
						if o, ok := bi.shows(ret, b.acc[vv[1]]); ok && o.kind == "field" && o.bf == s.field {
							shown = true
						}
					}
				}
				if shown && f == IsTrue || !shown && f == IsFalse {
					r.ok("value", fmt.Sprintf("%s.%s follows %s @%s", bi.name, t[0], t[1], ret.where))
				} else {
					r.fail("value", bi.name+"|"+t[0], ret.where, fmt.Sprintf("on one way out of building a %s, %s does not tell whether it was given %s", bi.name, t[0], t[1]), nil)
				}
			}
		}
	}
	r.need("setter", 150)
	r.need("value", 200)
	return nil
}

// valueOK: the accessor shows what the setter recorded.
func (c *Ctx) valueOK(b builderCtx, ret buildRet, s *setter, a accessor) string {
	bi := b.bi
	v, readable := bi.read(ret, a.path)
	if !readable {
		// the structure that would hold it is absent
		if bi.given(ret, s) == -1 || c.otherShown(b, ret, s) {
			return ""
		}
		for i := len(a.path) - 1; i > 0; i-- {
			if p, ok := bi.read(ret, a.path[:i]); ok && ret.x.fact(ret.st, p) == IsNil && bi.given(ret, s) == -1 {
				return ""
			}
		}
		return "the analysis cannot tell what it returns"
	}
	o := bi.originOf(ret, v, 0)
	switch o.kind {
	case "field":
		if o.bf == s.field {
			return ""
		}
		name := o.bf.Name()
		if os := bi.setterOf(o.bf); os != nil {
			name = os.name
		}
		if c.otherShown(b, ret, s) && sharedAccessor(b, s.name, name) {
			return ""
		}
		return "it returns what " + name + " was given"
	case "zero", "const":
		if s.flag || isBoolField(s) {
			f := Unknown
			if m, ok := ret.st.mem[Loc{Base: Sym(ret.x.Fl.Params[0].ID), Field: s.field, Kind: 'f'}]; ok {
				f = ret.x.fact(ret.st, ret.x.resSym(ret.st, m))
			}
			if f != Unknown && f == ret.x.fact(ret.st, v) {
				return ""
			}
			return "it does not follow the flag it was given"
		}
		if o.kind == "const" {
			return "it returns the constant " + o.text
		}
		if bi.given(ret, s) == -1 || c.otherShown(b, ret, s) {
			return ""
		}
		return "it is empty although it may have been given"
	}
	if ret.x.fact(ret.st, v) == IsNil && (bi.given(ret, s) == -1 || c.otherShown(b, ret, s)) {
		return ""
	}
	return "it returns something else than what it was given (" + o.text + ")"
}

func isBoolField(s *setter) bool { return s.field != nil && s.field.Type().String() == "bool" }

func sharedAccessor(b builderCtx, x, y string) bool {
	ax, ay := "", ""
	for _, v := range b.sp.value {
		if v[0] == x {
			ax = v[1]
		}
		if v[0] == y {
			ay = v[1]
		}
	}
	return ax != "" && ax == ay
}

// otherShown: an alternative of the setter is the one shown on this way out.
func (c *Ctx) otherShown(b builderCtx, ret buildRet, s *setter) bool {
	for _, g := range b.sp.oneof {
		in := false
		for _, n := range g {
			if n == s.name {
				in = true
			}
		}
		if !in {
			continue
		}
		for _, n := range g {
			o := b.bi.setter(n)
			if o == nil || o == s {
				continue
			}
			for _, v := range b.sp.value {
				if v[0] != n {
					continue
				}
				if a, ok := b.acc[v[1]]; ok {
					if or, ok := b.bi.shows(ret, a); ok && or.kind == "field" && or.bf == o.field {
						return true
					}
				}
			}
		}
	}
	return false
}

func runC14(c *Ctx, r *Result) error {
	cs, err := c.builderContracts(r)
	if err != nil {
		return err
	}
	for _, b := range cs {
		bi := b.bi
		for _, w := range bi.bothNil {
			r.fail("outcome", bi.name, w, fmt.Sprintf("building a %s can return neither an instance nor an error, or both (%s)", bi.name, w), nil)
		}
		if len(bi.bothNil) == 0 {
			r.ok("outcome", bi.name)
		}
		for _, n := range bi.notes {
			s := bi.setterOf(n.f)
			if s == nil {
				continue
			}
			if n.kind == "deref" {
				r.fail("refusal", bi.name+"|"+s.name, n.where, fmt.Sprintf("building a %s without %s: %s", bi.name, s.name, n.what), nil)
			} else if n.kind == "derefok" {
				r.ok("refusal", bi.name+"."+s.name+" is read only once known given @"+n.where)
			}
		}
		if b.sp == nil {
			continue
		}
		for _, q := range b.sp.require {
			s := bi.setter(q[0])
			if s == nil {
				return fmt.Errorf("unresolved anchor: setter %s of the builder of %s", q[0], bi.name)
			}
			if s.field == nil {
				continue
			}
			want := 1
			what := "was not given"
			if q[1] == "filled" {
				want = 2
				what = "is empty or was not given"
			}
			for _, ret := range bi.rets {
				if b.sp.delegates && !isAllocRet(ret) {
					continue
				}
				if bi.given(ret, s) >= want {
					r.ok("mandatory", fmt.Sprintf("%s.%s %s @%s", bi.name, s.name, q[1], ret.where))
				} else {
					r.fail("mandatory", bi.name+"|"+s.name, ret.where, fmt.Sprintf("a %s can be built although %s %s", bi.name, s.name, what), nil)
				}
			}
		}
		for gi, g := range b.sp.oneof {
			for _, ret := range bi.rets {
				n := 0
				for _, name := range g {
					s := bi.setter(name)
					if s == nil {
						return fmt.Errorf("unresolved anchor: setter %s of the builder of %s", name, bi.name)
					}
					for _, v := range b.sp.value {
						if v[0] != name {
							continue
						}
						a, ok := b.acc[v[1]]
						if !ok {
							continue
						}
						if o, ok := bi.shows(ret, a); ok && o.kind == "field" && o.bf == s.field && bi.given(ret, s) >= 1 {
							n++
						}
					}
				}
				if n == 1 {
					r.ok("alternative", fmt.Sprintf("%s: one of %s @%s", bi.name, strings.Join(g, ", "), ret.where))
				} else {
					r.fail("alternative", fmt.Sprintf("%s|%d", bi.name, gi), ret.where, fmt.Sprintf("a %s can be built showing %d of its alternatives (%s) instead of exactly one", bi.name, n, strings.Join(g, ", ")), nil)
				}
			}
		}
		for gi, g := range b.sp.anyof {
			for _, ret := range bi.rets {
				n := 0
				for _, name := range g {
					s := bi.setter(name)
					if s == nil {
						return fmt.Errorf("unresolved anchor: setter %s of the builder of %s", name, bi.name)
					}
					if bi.given(ret, s) >= 1 {
						n++
					}
				}
				if n > 0 {
					r.ok("alternative", fmt.Sprintf("%s: at least one of %s @%s", bi.name, strings.Join(g, ", "), ret.where))
				} else {
					r.fail("alternative", fmt.Sprintf("%s|any|%d", bi.name, gi), ret.where, fmt.Sprintf("a %s can be built with none of %s", bi.name, strings.Join(g, ", ")), nil)
				}
			}
		}
		for _, h := range b.sp.has {
			ha, ok1 := b.acc[h[0]]
			xa, ok2 := b.acc[h[1]]
			if ok1 && ok2 && ha.has && !xa.has && pathKey(ha.path) == pathKey(xa.path) {
				r.ok("presence", bi.name+"."+h[0])
			} else {
				r.fail("presence", bi.name+"|"+h[0], c.W.pos(bi.now.Pos()), fmt.Sprintf("%s of a %s does not tell whether %s is there", h[0], bi.name, h[1]), nil)
			}
		}
	}
	r.need("outcome", 60)
	r.need("mandatory", 80)
	r.need("alternative", 30)
	r.need("presence", 40)
	return nil
}

// dumpSpec proposes a contract from the current source; it is reviewed and
// committed by hand.
func (c *Ctx) dumpSpec() string {
	bs, err := c.builders()
	if err != nil {
		return err.Error()
	}
	var out []string
	for _, bi := range bs {
		out = append(out, "builder "+bi.name)
		acc := c.exposed(bi)
		var names []string
		for k := range acc {
			names = append(names, k)
		}
		sort.Slice(names, func(i, j int) bool {
			if a, b := strings.Count(names[i], "."), strings.Count(names[j], "."); a != b {
				return a < b
			}
			return names[i] < names[j]
		})
		find := func(s string) string {
			for _, n := range names {
				if (n == s || strings.HasSuffix(n, "."+s)) && !acc[n].has {
					return n
				}
			}
			return ""
		}
		val := map[string]string{}
		for _, s := range bi.setters {
			if g := find(s.name); g != "" {
				val[s.name] = g
				out = append(out, "  value "+s.name+" "+g)
			} else {
				out = append(out, "  # no accessor for "+s.name)
			}
		}
		shown := map[string][]bool{}
		for _, s := range bi.setters {
			lv := 2
			for _, ret := range bi.rets {
				if g := bi.given(ret, s); g < lv {
					lv = g
				}
				sh := false
				if val[s.name] != "" {
					if o, ok := bi.shows(ret, acc[val[s.name]]); ok && o.kind == "field" && o.bf == s.field {
						sh = true
					}
				}
				shown[s.name] = append(shown[s.name], sh)
			}
			if lv == 2 {
				out = append(out, "  require "+s.name+" filled")
			} else if lv == 1 {
				out = append(out, "  require "+s.name+" given")
			}
		}
		var alt []string
		for _, s := range bi.setters {
			n := 0
			for _, x := range shown[s.name] {
				if x {
					n++
				}
			}
			if n > 0 && n < len(bi.rets) {
				alt = append(alt, s.name)
			}
		}
		exactly := len(alt) > 1
		for i := range bi.rets {
			n := 0
			for _, a := range alt {
				if shown[a][i] {
					n++
				}
			}
			if n != 1 {
				exactly = false
			}
		}
		if exactly {
			out = append(out, "  oneof "+strings.Join(alt, " "))
		} else if len(alt) > 0 {
			out = append(out, "  # optional "+strings.Join(alt, " "))
		}
		for _, n := range names {
			if !acc[n].has {
				continue
			}
			for _, m := range names {
				if !acc[m].has && pathKey(acc[m].path) == pathKey(acc[n].path) {
					out = append(out, "  has "+n+" "+m)
				}
			}
		}
	}
	return strings.Join(out, "\n")
}
