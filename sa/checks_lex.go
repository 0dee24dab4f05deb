package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P16: the lexers turn characters into tokens the way the reference does.
func init() {
	checks["P16"] = func(r *Rep) {
		r.Rule("lexing", "on every path between cut points a lexer method stops at the character the reference stops at, with the same token")
		r.Rule("keyword", "every word stands for the token type it has in the reference")
		r.Rule("token-types", "the token types of a dialect are all different, and those shown as such have the text of the reference")
		p, broken, err := specProg()
		if err != nil {
			r.Fail("load", "program", "-", "the program cannot be analysed: %v", err)
			return
		}
		r.p = p
		for _, dn := range sortedKeys(specPkgs) {
			lexTypes(r, p, dn, broken[dn+"_lex"])
			d := loadLex(p, broken, dn)
			if d.err != "" {
				r.Undecided("lexing", dn+".Lexer", "%s", d.err)
				continue
			}
			r.reportPx("lexing", d, "Lexer", d.decide(r), func(string) bool { return true })
			code, spec := d.keyword(d.code), d.keyword(d.spec)
			if spec == nil || code == nil {
				r.Undecided("keyword", dn, "the function that looks a word up is not found")
				continue
			}
			r.compareSpec("keyword", p, specTarget{dn, code.Name(), code, spec}, func(c *Cmp, e *Engine) { c.maxRuns = 200000 })
		}
		r.Min("lexing", 16)
		r.Min("keyword", 4)
		r.Min("token-types", 8)
	}
}

// keyword is the one function that turns a word into a token type.
func (d *pxDialect) keyword(ms map[string]*ssa.Function) *ssa.Function {
	found := map[*ssa.Function]bool{}
	for _, m := range ms {
		eachCall(m, func(in ssa.CallInstruction) {
			if f := in.Common().StaticCallee(); f != nil && isRepoFn(f) && isKeywordLookup(f) {
				found[f] = true
			}
		})
	}
	if len(found) != 1 {
		return nil
	}
	for f := range found {
		return f
	}
	return nil
}

func lexTypes(r *Rep, p *Prog, dn, broken string) {
	sp := p.pkg(specPkgs[dn])
	if sp == nil {
		r.Undecided("token-types", dn, "no such package")
		return
	}
	sc := sp.Pkg.Scope()
	by := map[string][]string{}
	n := 0
	for _, name := range sc.Names() {
		c, ok := sc.Lookup(name).(*types.Const)
		if !ok || c.Val().Kind() != constant.String {
			continue
		}
		if t, ok := c.Type().(*types.Named); !ok || t.Obj().Name() != "TokenType" {
			continue
		}
		n++
		v := constant.StringVal(c.Val())
		by[v] = append(by[v], name)
	}
	bad := false
	for _, v := range sortedKeys(by) {
		if len(by[v]) > 1 {
			bad = true
			sort.Strings(by[v])
			r.Fail("token-types", dn+"."+strings.Join(by[v], "="), p.pos(sc.Lookup(by[v][1]).Pos()), "%s are the same token type: no check or case can tell them apart", strings.Join(by[v], " and "))
		}
	}
	if n == 0 {
		r.Undecided("token-types", dn, "no token types found")
		return
	}
	if !bad {
		r.Ok("token-types", fmt.Sprintf("%s: %d token types differ", dn, n))
	}
	f := sp.Func("verifTokenTexts")
	if f == nil {
		r.Undecided("token-types", dn+" texts", "the reference lexer does not fit the current source: %s", broken)
		return
	}
	rs, err := newEngine(p).Analyse(f, newState(), nil)
	if err != nil || len(rs) != 1 {
		r.Undecided("token-types", dn+" texts", "the reference texts cannot be evaluated")
		return
	}
	its, ok := onlyItems(stripAs(rs[0].vals[0]))
	if !ok || len(its)%2 != 0 {
		r.Undecided("token-types", dn+" texts", "the reference texts cannot be evaluated")
		return
	}
	bad = false
	for i := 0; i < len(its); i += 2 {
		if its[i] != its[i+1] {
			bad = true
			r.Fail("token-types", dn+" "+its[i+1].s, "?", "%s: a type or value shown as %s was %s in the reference", dn, its[i].s, its[i+1].s)
		}
	}
	if !bad {
		r.Ok("token-types", fmt.Sprintf("%s: %d texts", dn, len(its)/2))
	}
}
