package main

import (
	"fmt"
	"strings"
)

var pxCache map[string]map[string]*pxResult
var pxDialects map[string]*pxDialect

// parserResults compares the parsers of all dialects with their grammars, once per run.
func parserResults(r *Rep, rule string) bool {
	p, broken, err := specProg()
	if err != nil {
		r.Fail("load", "program", "-", "the program cannot be analysed: %v", err)
		return false
	}
	r.p = p
	if pxCache == nil {
		pxCache = map[string]map[string]*pxResult{}
		pxDialects = map[string]*pxDialect{}
		for _, n := range sortedKeys(specPkgs) {
			d := loadPx(p, broken, n)
			pxDialects[n] = d
			if d.err == "" {
				pxCache[n] = d.decide(r)
			}
		}
	}
	return true
}

func parserCheck(r *Rep, rule string, mine func(class string) bool) {
	if !parserResults(r, rule) {
		return
	}
	for _, dn := range sortedKeys(specPkgs) {
		d := pxDialects[dn]
		if d.err != "" {
			r.Undecided(rule, dn+".Parser", "%s", d.err)
			continue
		}
		r.reportPx(rule, d, "Parser", pxCache[dn], mine)
	}
	r.Min(rule, 30)
}

// reportPx reports the comparison of the methods of one type.
func (r *Rep) reportPx(rule string, d *pxDialect, typ string, res map[string]*pxResult, mine func(class string) bool) {
	for _, m := range sortedKeys(res) {
		x := res[m]
		name := d.name + "." + typ + "." + m
		if f := d.code[m]; f != nil {
			r.Fn(shortFn(f))
		}
		r.cases += x.cases
		hit := false
		for _, df := range x.diffs {
			if mine(df.class) {
				hit = true
				r.Fail(rule, name, r.p.pos(df.pos), "%s: %s", name, df.msg)
				break
			}
		}
		switch {
		case hit:
		case len(x.diffs) > 0:
			r.Ok(rule, name+" (differs in another respect)")
		case len(x.undec) > 0:
			r.Undecided(rule, name, "%s", strings.Join(sortedKeys(x.undec), "; "))
		default:
			r.Ok(rule, fmt.Sprintf("%s (%d joint paths)", name, x.cases))
		}
	}
}

// recordedNames compares the functions that turn a token into a recorded name or expression.
func recordedNames(r *Rep) {
	p, broken, err := specProg()
	if err != nil {
		return
	}
	r.Rule("name-recorded", "a recorded name, quotation mark and expression equal the reference in every case")
	for _, d := range sortedKeys(specPkgs) {
		if why, ok := broken[d]; ok {
			r.Undecided("name-recorded", d, "reference definitions do not fit the current source: %s", why)
			continue
		}
		ts, missing := specTargets(p, d)
		for _, m := range missing {
			if isRecorder(m) {
				r.Undecided("name-recorded", d+"."+m, "no such function")
			}
		}
		for _, t := range ts {
			if isRecorder(t.name) {
				r.compareSpec("name-recorded", p, t, func(c *Cmp, e *Engine) { c.sizes = func(*T) []int { return []int{0, 1, 2, 3} } })
			}
		}
	}
}

func isRecorder(n string) bool {
	switch n {
	case "NewRawIdent", "NewIdent", "NewObjectName", "Expr_Append", "Literal_String", "TokenType_String":
		return true
	}
	return false
}

func init() {
	checks["P12"] = func(r *Rep) {
		r.Rule("no-token-skipped", "on every path between cut points the parser accepts only tokens the grammar allows there, stops where the grammar does and keeps the text the grammar keeps")
		parserCheck(r, "no-token-skipped", func(c string) bool { return c == "accept" || c == "position" || c == "flow" || c == "drop" })
	}
	checks["P13"] = func(r *Rep) {
		r.Rule("clause-recorded", "on every path between cut points the parser accepts what the grammar allows and records it where the grammar does")
		parserCheck(r, "clause-recorded", func(c string) bool { return true })
		recordedNames(r)
		checkAppend(r)
	}
}
