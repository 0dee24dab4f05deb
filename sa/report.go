package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Rep collects the obligations of one property on one run.
type Rep struct {
	prop   string
	tier   string
	seed   int
	verif  string
	start  time.Time
	p      *Prog
	obl    int
	ok     int
	rules  map[string]*ruleStat
	fails  []failure
	known  []string
	fns    map[string]bool
	sample []string
	notes  []string
	assume []string
	undec  int
	cases  int
}

type ruleStat struct {
	what  string
	n, ok int
}

type failure struct {
	key string // rule@construct: identifies the finding, independent of line numbers
	pos string
	msg string
}

func newRep(p *Prog, prop, tier, verif string) *Rep {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return &Rep{prop: prop, tier: tier, seed: seed, verif: verif, start: time.Now(), p: p, rules: map[string]*ruleStat{}, fns: map[string]bool{}}
}

// Rule declares a rule applied by the check.
func (r *Rep) Rule(id, what string) {
	if r.rules[id] == nil {
		r.rules[id] = &ruleStat{what: what}
	}
}

func (r *Rep) stat(rule string) *ruleStat {
	if r.rules[rule] == nil {
		r.rules[rule] = &ruleStat{}
	}
	return r.rules[rule]
}

// Ok records a discharged obligation.
func (r *Rep) Ok(rule, construct string) {
	r.obl++
	r.ok++
	s := r.stat(rule)
	s.n++
	s.ok++
	if len(r.sample) < 12 && (s.n == 1 || s.n == 7) {
		r.sample = append(r.sample, rule+" @ "+construct)
	}
}

// Fail records a violated (or undecided) obligation.
func (r *Rep) Fail(rule, construct, pos, format string, a ...any) {
	r.obl++
	r.stat(rule).n++
	key := strings.Join(strings.Fields(rule+"@"+construct), "_")
	for _, f := range r.fails {
		if f.key == key {
			return
		}
	}
	r.fails = append(r.fails, failure{key, pos, fmt.Sprintf(format, a...)})
}

// Undecided records an obligation the analysis could not decide: neither discharged nor a violation.
func (r *Rep) Undecided(rule, construct, format string, a ...any) {
	r.obl++
	r.stat(rule).n++
	r.undec++
	r.notes = append(r.notes, "undecided: "+rule+" @ "+construct+": "+fmt.Sprintf(format, a...))
	fmt.Printf("UNDECIDED property=%s %s @ %s: %s\n", r.prop, rule, construct, fmt.Sprintf(format, a...))
}

func (r *Rep) Check(cond bool, rule, construct, pos, format string, a ...any) bool {
	if cond {
		r.Ok(rule, construct)
	} else {
		r.Fail(rule, construct, pos, format, a...)
	}
	return cond
}

// Min: a rule that matches fewer instances than were confirmed by hand is reported; one that matches none fails.
func (r *Rep) Min(rule string, n int) {
	if got := r.stat(rule).n; got > 0 && got < n {
		r.Undecided(rule, "instances", "rule matched %d instances, %d were confirmed in this codebase", got, n)
	} else if got < n {
		r.Fail(rule, "instances", "-", "rule matched %d instances, at least %d were confirmed in this codebase: the analysis no longer reaches what it is meant to check", got, n)
	}
}

func (r *Rep) Fn(names ...string) {
	for _, n := range names {
		r.fns[n] = true
	}
}

func (r *Rep) useEngine(e *Engine) {
	for f := range e.inl {
		r.fns[shortFn(f)] = true
	}
}

func (r *Rep) knownFindings() map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(r.verif, "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property="+r.prop+" ") {
			continue
		}
		f := strings.Fields(strings.TrimPrefix(l, "known: "))
		for _, w := range f {
			if strings.HasPrefix(w, "key=") {
				k := strings.TrimPrefix(w, "key=")
				i := strings.Index(l, w)
				out[k] = strings.TrimSpace(l[i+len(w):])
			}
		}
	}
	return out
}

// Finish prints the verdict, writes the evidence and returns the exit code.
func (r *Rep) Finish() int {
	known := r.knownFindings()
	var viol []failure
	used := map[string]bool{}
	for _, f := range r.fails {
		if why, ok := known[f.key]; ok {
			if !used[f.key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", r.prop, why, f.pos)
			}
			used[f.key] = true
			continue
		}
		viol = append(viol, f)
	}
	os.MkdirAll(filepath.Join(r.verif, "evidence"), 0o755)
	replay := filepath.Join("evidence", r.prop+".violations.txt")
	if len(viol) > 0 {
		var b strings.Builder
		for _, f := range viol {
			fmt.Fprintf(&b, "%s: %s\n  key: %s\n", f.pos, f.msg, f.key)
		}
		os.WriteFile(filepath.Join(r.verif, replay), []byte(b.String()), 0o644)
		for i, f := range viol {
			if i >= 40 {
				fmt.Printf("... and %d more\n", len(viol)-i)
				break
			}
			fmt.Printf("%s: [%s] %s\n", f.pos, f.key, f.msg)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, filepath.Join(r.verif, replay))
	} else {
		os.Remove(filepath.Join(r.verif, replay))
	}
	var rules []map[string]any
	var ids []string
	for id := range r.rules {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		s := r.rules[id]
		rules = append(rules, map[string]any{"rule": id, "what": s.what, "obligations": s.n, "discharged": s.ok})
	}
	var fns []string
	for f := range r.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]any{
		"explanation":        "static analysis of /repo's current source: obligations generated from the type-checked SSA program and decided by the rules listed; nothing of ddlctl is executed",
		"obligations":        r.obl,
		"discharged":         r.ok,
		"known_findings":     len(used),
		"undecided":          r.undec,
		"cases_compared":     r.cases,
		"packages_loaded":    len(r.p.pkgs),
		"functions_in_scope": len(r.p.fns),
		"functions_analysed": fns,
		"rules":              rules,
		"samples":            r.sample,
	}
	if len(r.notes) > 0 {
		cov["notes"] = r.notes
	}
	ev := map[string]any{
		"property": r.prop, "tier": r.tier, "seed": r.seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(r.start).Seconds(), "violations": len(viol),
	}
	if len(r.assume) > 0 {
		ev["assumptions"] = r.assume
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(r.verif, "evidence", r.prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d known findings, %d undecided, %d violations (%.1fs)\n", r.prop, r.obl, r.ok, len(used), r.undec, len(viol), time.Since(r.start).Seconds())
	if len(viol) > 0 {
		return 1
	}
	return 0
}
