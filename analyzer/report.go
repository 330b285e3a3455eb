package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Violation is one construct that breaks a property. Key identifies it without
// line numbers, so that a recorded finding keeps matching.
type Violation struct {
	Key    string   `json:"key"`
	Where  string   `json:"where"`
	Detail string   `json:"detail"`
	Path   []string `json:"path,omitempty"`
}

// Result is what a rule decided.
type Result struct {
	Property   string
	Rule       string
	Functions  map[string]bool
	Obls       map[string]int // obligations by kind
	Discharged map[string]int
	Bad        []Violation
	Notes      []string
	Samples    []string
	Minimum    map[string]int // least number of obligations expected per kind
	Assume     []string
	seen       map[string]bool
}

func newResult(p, rule string) *Result {
	return &Result{Property: p, Rule: rule, Functions: map[string]bool{}, Obls: map[string]int{}, Discharged: map[string]int{}, Minimum: map[string]int{}, seen: map[string]bool{}}
}

func (r *Result) fn(name string) { r.Functions[name] = true }

// ok records a discharged obligation.
func (r *Result) ok(kind, what string) {
	r.Obls[kind]++
	r.Discharged[kind]++
	if len(r.Samples) < 400 {
		r.Samples = append(r.Samples, kind+": "+what)
	}
}

// fail records a failed obligation.
func (r *Result) fail(kind, key, where, detail string, path []string) {
	r.Obls[kind]++
	k := kind + "|" + key
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.Bad = append(r.Bad, Violation{Key: k, Where: where, Detail: detail, Path: path})
}

func (r *Result) failed(kind, key string) bool { return r.seen[kind+"|"+key] }

// need sets the least number of obligations of a kind the rule must meet; fewer
// means the rule no longer sees the code it is about.
func (r *Result) need(kind string, n int) { r.Minimum[kind] = n }

func (r *Result) finish() {
	var ks []string
	for k := range r.Minimum {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if r.Obls[k] < r.Minimum[k] {
			r.fail("vacuity", k, "?", fmt.Sprintf("only %d obligations of kind %q were found in the current source, at least %d expected: the rule no longer sees the code it decides", r.Obls[k], k, r.Minimum[k]), nil)
		}
	}
	sort.SliceStable(r.Bad, func(i, j int) bool { return r.Bad[i].Key < r.Bad[j].Key })
}

// loadKnown reads the committed findings of a property.
func loadKnown(path, prop string) (map[string]string, error) {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		if os.IsNotExist(err) {
			return out, nil
		}
		return nil, err
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		// known: property=<id> key=<key> :: <what fails>
		rest, ok := strings.CutPrefix(l, "known: property=")
		if !ok {
			return nil, fmt.Errorf("malformed known-findings line: %s", l)
		}
		id, rest, ok := strings.Cut(rest, " key=")
		if !ok {
			return nil, fmt.Errorf("malformed known-findings line: %s", l)
		}
		key, what, ok := strings.Cut(rest, " :: ")
		if !ok {
			return nil, fmt.Errorf("malformed known-findings line: %s", l)
		}
		if id == prop {
			out[key] = what
		}
	}
	return out, nil
}

func total(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

// emit prints the verdict and writes the evidence file; it returns the exit code.
func (r *Result) emit(verif, known, tier string, seed int, level string, t0 time.Time) int {
	r.finish()
	kf, err := loadKnown(known, r.Property)
	if err != nil {
		r.fail("machinery", "known-findings", known, err.Error(), nil)
	}
	var bad, knownHit []Violation
	for _, v := range r.Bad {
		if _, ok := kf[v.Key]; ok {
			knownHit = append(knownHit, v)
		} else {
			bad = append(bad, v)
		}
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	replay := filepath.Join(dir, r.Property+".violations.txt")
	os.Remove(replay)
	var fns []string
	for f := range r.Functions {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	sort.Strings(r.Samples)
	cov := map[string]any{
		"explanation":            r.Rule,
		"obligations":            total(r.Obls),
		"discharged":             total(r.Discharged),
		"obligations_by_kind":    r.Obls,
		"discharged_by_kind":     r.Discharged,
		"functions_analysed":     len(fns),
		"functions":              fns,
		"samples":                r.Samples,
		"notes":                  r.Notes,
		"known_findings_present": len(knownHit),
		"checker_cmd":            "/verif/check.sh " + r.Property,
		"trusted_base":           []string{"go/types and golang.org/x/tools/go/ssa v0.52.0", "the analyzer in /verif/analyzer", "models of the standard library calls named in the rule"},
	}
	ev := map[string]any{
		"property": r.Property,
		"tier":     tier,
		"seed":     seed,
		"level":    level,
		"coverage": cov,
		"wall_s":   time.Since(t0).Seconds(),
	}
	if len(r.Assume) > 0 {
		ev["assumptions"] = r.Assume
	}
	if len(bad) > 0 {
		var l []any
		for _, v := range bad {
			l = append(l, map[string]any{"summary": v.Where + ": " + v.Detail + " [" + v.Key + "]", "replay": replay})
		}
		cov["violation_details"] = l
	}
	ev["violations"] = len(bad)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, r.Property+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	for _, v := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", r.Property, kf[v.Key], v.Where)
	}
	if len(bad) > 0 {
		var sb strings.Builder
		for _, v := range bad {
			fmt.Fprintf(&sb, "%s\n  at %s\n  %s\n", v.Key, v.Where, v.Detail)
			for _, p := range v.Path {
				fmt.Fprintf(&sb, "    via %s\n", p)
			}
		}
		os.WriteFile(replay, []byte(sb.String()), 0o644)
		for _, v := range bad {
			fmt.Printf("%s: %s [%s]\n", v.Where, v.Detail, v.Key)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, replay)
		return 1
	}
	fmt.Printf("OK property=%s obligations=%d discharged=%d functions=%d\n", r.Property, total(r.Obls), total(r.Discharged), len(fns))
	return 0
}
