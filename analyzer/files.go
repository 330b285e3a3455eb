package main

import (
	"go/constant"
	"golang.org/x/tools/go/ssa"
	"sort"
	"strconv"
	"strings"
)

// This file gives the operations on files a meaning when a specification speaks
// of what files hold: a created file holds what is written to it, reading at an
// offset gives those bytes of the file, and an operation that succeeds did all
// it was asked to (the contract of os.File). Loops that copy a file piece by
// piece then come to reading it at once, see copies.

// amount notes that a call that succeeds returns n first.
func (a *termAn) amount(t, n *Term) *Term {
	a.amounts[t.id] = n
	return t
}

func (a *termAn) fileCall(s *tstate, n *Node, raw []*Term, v func(int) *Term, args func(int) []*Term, set func(*Term), name, short string) bool {
	var file *Term // a file that was created here
	if len(raw) > 0 && raw[0].op == "obj" && raw[0].s[0] == 'F' {
		file = raw[0]
	}
	flags := func() int64 {
		if n.Callee == nil || len(n.Args) < 2 {
			return -1
		}
		if c, ok := n.Src.(ssa.CallInstruction); ok && len(c.Common().Args) > 1 {
			if k, ok := c.Common().Args[1].(*ssa.Const); ok {
				if x, ok := constant.Int64Val(k.Value); ok {
					return x
				}
			}
		}
		return -1
	}
	add := func(l ...*Term) {
		k := file.s + ".*"
		cur := s.mem[k]
		if cur == nil {
			cur = a.mk("list", "")
		}
		s.mem[k] = a.cat(append([]*Term{cur}, l...)...)
	}
	create := func() {
		t := a.mk("obj", "F"+strconv.Itoa(n.ID))
		a.clear(s, t.s)
		s.mem[t.s+".*"] = a.mk("list", "")
		set(t)
	}
	whole := func(i int) *Term { return a.length(v(i)) }
	const rdonly, trunc, creat = 0, 0x200, 0x40
	switch name {
	case "os.Create", "os.CreateTemp":
		create()
		return true
	case "os.OpenFile":
		switch f := flags(); {
		case f == rdonly:
			set(a.mk("call", "os.Open", v(0)))
			return true
		case f > 0 && f&trunc != 0 && f&creat != 0:
			create()
			return true
		}
	case "os.WriteFile":
		s.eff = append(s.eff, a.mk("file", "", v(1)))
		set(a.mk("err", "", a.mk("call", "os.WriteFile", v(0))))
		return true
	case "(*os.File).ReadAt", "(io.ReaderAt).ReadAt":
		ln, dst, off := whole(1), raw[1], a.konst(0)
		r := a.mk("read", "", v(0), v(2), ln)
		if dst.op == "win" {
			dst, off = dst.a[0], dst.a[1]
		}
		if dst.op == "obj" && dst.s[0] == 'b' {
			s.mem[dst.s+".*"] = a.putAt(s, dst, off, r, false)
		}
		set(a.amount(a.mk("call", "ReadAt", v(0), v(2), ln), ln))
		return true
	case "errors.Is":
		set(a.equal(v(0), v(1)))
		return true
	case "(*os.File).Write", "(*os.File).WriteString", "io.WriteString", "(io.Writer).Write":
		if file != nil {
			d := v(1)
			add(d)
			set(a.amount(a.mk("call", "Write", file, d), a.length(d)))
			return true
		}
	case "(*os.File).WriteAt":
		if file != nil {
			d := v(1)
			add(a.mk("at", "", v(2)), d)
			set(a.amount(a.mk("call", "WriteAt", file, d, v(2)), a.length(d)))
			return true
		}
	case "(*os.File).Seek":
		if file != nil {
			w, ok := raw[2].intVal()
			if z, isZ := v(1).intVal(); ok && w > 0 && isZ && z == 0 {
				set(a.mk("call", "Seek", file)) // stays, or goes to the end
				return true
			}
			t := a.mk("call", "Seek", args(0)...)
			if ok && w == 0 {
				add(a.mk("at", "", v(1)))
				a.amount(t, v(1))
			} else {
				add(a.mk("at", "", t))
			}
			set(t)
			return true
		}
	case "(*os.File).Close", "(*os.File).Sync", "(*os.File).Stat", "(*os.File).Name", "(*os.File).Chmod", "(*os.File).Fd":
	default:
		// what else is done with a file that was created
		for _, o := range raw {
			if o.op == "obj" && o.s[0] == 'F' {
				file = o
				var l []*Term
				for _, x := range args(0) {
					if x != o {
						l = append(l, x)
					}
				}
				add(a.mk("call", short, l...))
			}
		}
	}
	t := a.mk("call", short, args(0)...)
	for i := range raw {
		o := raw[i]
		if o.op == "win" {
			o = o.a[0]
		}
		if o.op == "obj" && o.s[0] == 'b' {
			s.mem[o.s+".*"] = a.mk("out", strconv.Itoa(i), t)
		}
	}
	switch {
	case n.T != nil && isErrorType(n.T):
		set(a.mk("err", "", t))
	case n.T != nil:
		set(t)
	}
	return true
}

// filesLeft adds to the effects what the files created hold at the end.
func (a *termAn) filesLeft(s *tstate) []*Term {
	eff := s.eff
	var ks []string
	for k := range s.mem {
		if k[0] == 'F' {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		t := s.mem[k]
		l := []*Term{t}
		if t.op == "cat" {
			l = t.a
		}
		for len(l) > 0 && l[len(l)-1].op == "at" {
			l = l[:len(l)-1]
		}
		if len(l) == 0 || len(l) == 1 && (l[0].op == "list" && len(l[0].a) == 0 || l[0].op == "call" && strings.HasPrefix(l[0].s, "io.Copy")) {
			continue // nothing, or a copy of another file as it is
		}
		eff = append(append([]*Term{}, eff...), a.mk("file", "", a.cat(l...)))
	}
	return eff
}

// learnOK: what follows when a call is known to have succeeded, or to have
// failed with a given error; false if it contradicts what is known.
func (a *termAn) learnOK(s *tstate, t *Term, out bool) bool {
	if t.op == "eq" && out {
		for _, e := range t.a {
			if e.op == "err" {
				ok := a.mk("ok", "", e.a[0])
				if s.lits[ok.id] {
					return false
				}
				s.lits[ok.id] = false
			}
		}
		return true
	}
	if t.op != "ok" || !out {
		return true
	}
	c := t.a[0]
	for id, v := range s.lits {
		if l := a.tt.all[id]; l.op == "eq" && (l.a[0].op == "err" && l.a[0].a[0] == c || l.a[1].op == "err" && l.a[1].a[0] == c) {
			if v {
				return false
			}
			delete(s.lits, id)
		}
	}
	n := a.amounts[c.id]
	if n == nil {
		return true
	}
	me := a.mk("n", "", c)
	return a.replace(s, func(x *Term) *Term {
		if x == me {
			return n
		}
		return nil
	})
}

// replace rebuilds what is known in a state with some terms replaced; false if
// this contradicts what is known.
func (a *termAn) replace(s *tstate, f func(*Term) *Term) bool {
	done := map[*Term]*Term{}
	for k, t := range s.env {
		s.env[k] = a.rebuild(t, f, done)
	}
	for k, t := range s.mem {
		s.mem[k] = a.rebuild(t, f, done)
	}
	for i, t := range s.eff {
		if r := a.rebuild(t, f, done); r != t {
			s.eff = append([]*Term{}, s.eff...)
			s.eff[i] = r
		}
	}
	lits, ok := a.relits(s.lits, f, done)
	s.lits = lits
	return ok
}

func (a *termAn) relits(lits map[int]bool, f func(*Term) *Term, done map[*Term]*Term) (map[int]bool, bool) {
	out, ok := map[int]bool{}, true
	for id, v := range lits {
		t := a.tt.all[id]
		r := a.rebuild(t, f, done)
		for r.op == "not" {
			r, v = r.a[0], !v
		}
		if r.op == "bool" {
			ok = ok && (r.s == "true") == v
			continue
		}
		out[r.id] = v
	}
	return out, ok
}

// rebuild replaces terms in a term and normalises what they are part of.
func (a *termAn) rebuild(t *Term, f func(*Term) *Term, done map[*Term]*Term) *Term {
	if r := f(t); r != nil {
		return r
	}
	if len(t.a) == 0 {
		return t
	}
	if r, ok := done[t]; ok {
		return r
	}
	l, same := make([]*Term, len(t.a)), true
	for i, x := range t.a {
		l[i] = a.rebuild(x, f, done)
		same = same && l[i] == x
	}
	r := t
	if !same {
		switch {
		case t.op == "+":
			r = a.lin(l...)
		case t.op == "*":
			r = a.times(l[0], l[1])
		case t.op == "cat":
			r = a.cat(l...)
		case t.op == "len":
			r = a.length(l[0])
		case t.op == "lt":
			r = a.less(l[0], l[1])
		case t.op == "eq":
			r = a.equal(l[0], l[1])
		case t.op == "not":
			r = a.not(l[0])
		case t.op == "slice":
			var hi *Term
			if len(l) > 2 {
				hi = l[2]
			}
			r = a.slice(l[0], l[1], hi)
		case t.op == "idx":
			r = a.index(l[0], l[1])
		default:
			r = a.mk(t.op, t.s, l...)
			if r.typ == nil {
				r.typ = t.typ
			}
			if n := a.amounts[t.id]; n != nil && a.amounts[r.id] == nil {
				a.amounts[r.id] = a.rebuild(n, f, done)
			}
		}
	}
	done[t] = r
	return r
}
