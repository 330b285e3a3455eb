package main

import (
	"flag"
	"fmt"
	"golang.org/x/tools/go/ssa"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Ctx is what a rule works on.
type Ctx struct {
	W      *World
	Shapes *ShapeDB
	Sums   *SumDB
	Tier   string
	Verif  string
	build  []*builderInfo
	eff    *effects
	follow map[*ssa.Function]bool
	files  bool // the specification at hand speaks of what files hold
	bsize  map[*ssa.Function]int
	bnum   *boundsInfo
}

type rule struct {
	text string
	run  func(c *Ctx, r *Result) error
}

var rules = map[string]rule{}

func main() {
	prop := flag.String("property", "", "property id, or a comma separated list")
	repo := flag.String("repo", "/repo", "repository under analysis")
	verif := flag.String("verif", "/verif", "where evidence is written")
	known := flag.String("known", "", "known findings file")
	dump := flag.String("dump", "", "diagnostics: shapes, sums, or flat:<substring>")
	flag.Parse()
	if *known == "" {
		*known = *verif + "/known-findings.txt"
	}
	if p := os.Getenv("CPUPROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	t0 := time.Now()
	c, lerr := prepare(*repo)
	if *dump != "" {
		if lerr != nil {
			fmt.Println(lerr)
			os.Exit(1)
		}
		diagnose(c, *dump)
		return
	}
	code := 0
	ids := strings.Split(*prop, ",")
	if *prop == "all" {
		ids = nil
		for id := range rules {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	for _, id := range ids {
		t1 := time.Now()
		if len(ids) == 1 {
			t1 = t0
		}
		ru, ok := rules[id]
		if !ok {
			fmt.Println("unknown property", id)
			os.Exit(2)
		}
		r := newResult(id, ru.text)
		if lerr != nil {
			r.fail("undecided", "load", *repo, lerr.Error(), nil)
		} else {
			c.Tier, c.Verif = tier, *verif
			safely(c, r, ru)
		}
		if k := r.emit(*verif, *known, tier, seed, "other", t1); k > code {
			code = k
		}
	}
	pprof.StopCPUProfile()
	os.Exit(code)
}

func safely(c *Ctx, r *Result, ru rule) {
	defer func() {
		if e := recover(); e != nil {
			r.fail("undecided", "analyzer", "?", fmt.Sprintf("the analyzer could not process the current source: %v\n%s", e, debug.Stack()), nil)
		}
	}()
	if err := ru.run(c, r); err != nil {
		r.fail("undecided", err.Error(), "?", err.Error(), nil)
	}
}

func prepare(repo string) (c *Ctx, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("loading failed: %v\n%s", e, debug.Stack())
		}
	}()
	w, err := loadWorld(repo)
	if err != nil {
		return nil, err
	}
	sh, err := w.buildShapes(newSums(w, nil))
	if err != nil {
		return nil, err
	}
	return &Ctx{W: w, Shapes: sh, Sums: newSums(w, sh)}, nil
}

func diagnose(c *Ctx, what string) {
	switch {
	case what == "shapes":
		fmt.Println(c.Shapes)
	case what == "sums":
		for _, f := range c.W.Funcs {
			v, ok := c.Sums.get(f)
			fmt.Println(short(f), ok, vecString(v))
		}
	case what == "spec":
		fmt.Println(c.dumpSpec())
	case what == "builders":
		fmt.Println(c.dumpBuilders())
	case strings.HasPrefix(what, "golden:"):
		for _, p := range termProps {
			if p.id != what[7:] {
				continue
			}
			ts, err := c.termTargets(p)
			p.sigs = map[string][]string{}
			seen := map[string]bool{}
			for _, t := range ts {
				var secs, fresh []section
				if secs, err = c.termSections(p, t, nil, 0); err != nil {
					break
				}
				for _, s := range secs {
					if !seen[s.name] {
						seen[s.name] = true
						fresh = append(fresh, s)
					}
				}
				fmt.Print(renderSections(fresh))
			}
			for _, n := range append(append([]string{}, p.anchors...), p.opaque...) {
				fmt.Println("#anchor", n, strings.Join(p.sigs[n], " "))
			}
			if err != nil {
				fmt.Println(err)
				os.Exit(1)
			}
		}
	case strings.HasPrefix(what, "terms:"):
		for _, f := range c.W.Funcs {
			if strings.Contains(short(f), what[6:]) {
				fmt.Println(c.dumpTerms(f))
			}
		}
	case strings.HasPrefix(what, "flat:"):
		for _, f := range c.W.Funcs {
			if strings.Contains(short(f), what[5:]) {
				pol := plainPolicy
				if os.Getenv("BP") != "" {
					pol = c.boundsPolicy
				}
				fl, err := flatten(c.W, f, pol)
				if err != nil {
					fmt.Println(err)
					continue
				}
				fmt.Println(fl.dump())
			}
		}
	}
}
