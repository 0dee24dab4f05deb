package main

import (
	"fmt"
	"go/constant"
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// The regular expressions that recognise annotations: each is compared with its reference form. Which texts match is
// decided exactly (the two automata are walked together); which part is taken is compared on texts derived from the
// reference form, one for every way through it.

type rxRef struct {
	pkg, holder string // the variable, or the function, that holds the expression
	pattern     string
	index       int // the group that is taken; 0: none
}

var rxRefs = []rxRef{
	{"pkg/internal/lang/util", "StmtRegexCreateTable", `^\s*(//+\s*|/\*\s*)?\S+\s*:\s*table(s)?\s*[: ]\s*((CREATE\s+TABLE\s+)?\S+.*)`, 3},
	{"pkg/internal/lang/util", "StmtRegexCreateTableConstraint", `^\s*(//+\s*|/\*\s*)?\S+\s*:\s*constraint(s)?\s*[: ]\s*(\S+.*)`, 3},
	{"pkg/internal/lang/util", "StmtRegexCreateTableOptions", `^\s*(//+\s*|/\*\s*)?\S+\s*:\s*option(s)?\s*[: ]\s*(\S+.*)`, 3},
	{"pkg/internal/lang/util", "StmtRegexCreateIndex", `^\s*(//+\s*|/\*\s*)?\S+\s*:\s*index(es)?\s*[: ]\s*(\S+.*)`, 3},
	{"pkg/internal/generator", "stmtRegexCreateTable", `(?i)\s*CREATE\s+(.*)?TABLE\s+(.*)?(\S+)`, 0},
	{"pkg/internal/generator", "stmtRegexCreateIndex", `(?i)\s*CREATE\s+(.*)?INDEX\s+(.*)?(\S+)`, 0},
	{"pkg/internal/lang/go", "_DDLTagGoCommentLineRegex", `^\s*(//+\s*|/\*\s*)?(ddltag)\s*:\s*(.*)\s*(\*/)?`, 0},
}

// rxOf finds the expression compiled into a variable: a call of MustCompile or Compile whose result reaches it.
func (p *Prog) rxOf(pkg, holder string) (pattern string, index int, pos string) {
	sp := p.pkg(pkg)
	if sp == nil {
		return "", -1, ""
	}
	g, _ := sp.Members[holder].(*ssa.Global)
	if g == nil {
		return "", -1, ""
	}
	var root func(v ssa.Value, d int) ssa.Value
	root = func(v ssa.Value, d int) ssa.Value {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			return root(x.X, d)
		case *ssa.Alloc:
			for _, u := range *x.Referrers() {
				switch u := u.(type) {
				case *ssa.Store:
					if u.Val == x {
						return u.Addr
					}
				case *ssa.UnOp:
					for _, w := range *u.Referrers() {
						if s, ok := w.(*ssa.Store); ok && s.Val == u {
							return s.Addr
						}
					}
				}
			}
		}
		return v
	}
	index = -1
	look := func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || root(st.Addr, 0) != g {
					continue
				}
				if c, ok := st.Val.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
					n, _ := constant.Int64Val(c.Value)
					index = int(n)
				}
				call, ok := st.Val.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || !strings.HasPrefix(call.Call.StaticCallee().String(), "regexp.MustCompile") {
					continue
				}
				if s, ok := textOf(call.Call.Args[0]); ok {
					pattern, pos = s, p.pos(call.Pos())
				}
			}
		}
	}
	if f := sp.Func("init"); f != nil {
		look(f)
	}
	for _, f := range p.fns {
		if pkgOf(f) == sp.Pkg {
			look(f)
		}
	}
	return pattern, index, pos
}

// textOf is a constant text, or a format applied to one value that stands for the tag.
func textOf(v ssa.Value) (string, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return constant.StringVal(x.Value), true
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && f.String() == "fmt.Sprintf" {
			if s, ok := textOf(x.Call.Args[0]); ok && strings.Count(s, "%") == 1 && strings.Contains(s, "%s") {
				return strings.Replace(s, "%s", "ddltag", 1), true
			}
		}
	case *ssa.BinOp:
		a, ok1 := textOf(x.X)
		b, ok2 := textOf(x.Y)
		if !ok1 && ok2 {
			a = "ddltag"
		} else if ok1 && !ok2 {
			b = "ddltag"
		} else if !ok1 {
			return "", false
		}
		return a + b, true
	}
	return "", false
}

type rxAuto struct {
	prog *syntax.Prog
}

func rxCompile(s string) (*rxAuto, error) {
	re, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		return nil, err
	}
	prog, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil, err
	}
	for _, in := range prog.Inst {
		if in.Op == syntax.InstEmptyWidth && syntax.EmptyOp(in.Arg)&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
			return nil, fmt.Errorf("expression with line or word boundaries")
		}
	}
	return &rxAuto{prog}, nil
}

// closure follows the instructions that read nothing; it reports whether the match is reached.
func (a *rxAuto) closure(pcs []uint32, first, last bool) (out []uint32, match bool) {
	seen := map[uint32]bool{}
	var walk func(pc uint32)
	walk = func(pc uint32) {
		if seen[pc] {
			return
		}
		seen[pc] = true
		in := a.prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			walk(in.Out)
			walk(in.Arg)
		case syntax.InstCapture, syntax.InstNop:
			walk(in.Out)
		case syntax.InstEmptyWidth:
			if op := syntax.EmptyOp(in.Arg); (op&syntax.EmptyBeginText == 0 || first) && (op&syntax.EmptyEndText == 0 || last) {
				walk(in.Out)
			}
		case syntax.InstMatch:
			match = true
		case syntax.InstFail:
		default:
			out = append(out, pc)
		}
	}
	for _, pc := range pcs {
		walk(pc)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out, match
}

// next is where the threads are after one character; a new one starts behind it.
func (a *rxAuto) next(pcs []uint32, first bool, r rune) []uint32 {
	ts, _ := a.closure(pcs, first, false)
	var out []uint32
	for _, pc := range ts {
		if a.prog.Inst[pc].MatchRune(r) {
			out = append(out, a.prog.Inst[pc].Out)
		}
	}
	return append(out, uint32(a.prog.Start))
}

func (a *rxAuto) alphabet(set map[rune]bool) {
	add := func(r rune) {
		for _, x := range []rune{r - 1, r, r + 1} {
			if x >= 0 && x <= unicode.MaxRune {
				set[x] = true
			}
		}
	}
	for _, in := range a.prog.Inst {
		switch in.Op {
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			for _, r := range in.Rune {
				add(r)
				if len(in.Rune) == 1 && syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
					for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
						add(f)
					}
				}
			}
		}
	}
	for _, r := range "\n a" {
		add(r)
	}
}

// rxSame decides whether two expressions match the same texts; if not, a text on which they differ.
func rxSame(a, b *rxAuto) (witness string, same, decided bool) {
	set := map[rune]bool{}
	a.alphabet(set)
	b.alphabet(set)
	var all []rune
	for r := range set {
		all = append(all, r)
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	// one character per class
	sig := map[string]bool{}
	var rs []rune
	for _, r := range all {
		k := ""
		for _, x := range []*rxAuto{a, b} {
			for i := range x.prog.Inst {
				switch x.prog.Inst[i].Op {
				case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
					if x.prog.Inst[i].MatchRune(r) {
						k += "1"
					} else {
						k += "0"
					}
				}
			}
		}
		if !sig[k] {
			sig[k] = true
			rs = append(rs, r)
		}
	}
	type pair struct {
		x, y   []uint32
		dx, dy bool // matched already
		w      string
	}
	key := func(p pair) string { return fmt.Sprint(p.x, p.y, p.dx, p.dy) }
	seen := map[string]bool{}
	queue := []pair{{x: []uint32{uint32(a.prog.Start)}, y: []uint32{uint32(b.prog.Start)}}}
	norm := func(u *rxAuto, pcs []uint32, first bool) ([]uint32, bool) {
		s := map[uint32]bool{}
		for _, x := range pcs {
			s[x] = true
		}
		var out []uint32
		for x := range s {
			out = append(out, x)
		}
		sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
		_, m := u.closure(out, first, false)
		return out, m
	}
	for n := 0; len(queue) > 0; n++ {
		p := queue[0]
		queue = queue[1:]
		first := p.w == "" && n == 0
		if n > 30000 {
			return "", false, false
		}
		var m bool
		if !p.dx {
			p.x, m = norm(a, p.x, first)
			p.dx = m
		}
		if !p.dy {
			p.y, m = norm(b, p.y, first)
			p.dy = m
		}
		if p.dx && p.dy {
			continue
		}
		_, ex := a.closure(p.x, first, true)
		_, ey := b.closure(p.y, first, true)
		if (p.dx || ex) != (p.dy || ey) {
			return p.w, false, true
		}
		if p.dx {
			p.x = nil
		}
		if p.dy {
			p.y = nil
		}
		if !first {
			k := key(p)
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		for _, r := range rs {
			q := pair{dx: p.dx, dy: p.dy, w: p.w + string(r)}
			if !p.dx {
				q.x = a.next(p.x, first, r)
			}
			if !p.dy {
				q.y = b.next(p.y, first, r)
			}
			queue = append(queue, q)
		}
	}
	return "", true, true
}

// rxTexts are texts derived from an expression: every alternative, repetitions none, once and twice, every pair of choices.
func rxTexts(re *syntax.Regexp) []string {
	switch re.Op {
	case syntax.OpLiteral:
		return []string{string(re.Rune)}
	case syntax.OpCharClass:
		var out []string
		for _, r := range []rune{' ', '\t', 'a', ':', '"', '/', '*'} {
			for i := 0; i+1 < len(re.Rune); i += 2 {
				if re.Rune[i] <= r && r <= re.Rune[i+1] {
					out = append(out, string(r))
				}
			}
		}
		if len(out) == 0 && len(re.Rune) > 0 {
			out = []string{string(re.Rune[0])}
		}
		if len(out) > 2 {
			out = out[:2]
		}
		return out
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return []string{"x", " ", "*/"}
	case syntax.OpCapture:
		return rxTexts(re.Sub[0])
	case syntax.OpStar, syntax.OpPlus, syntax.OpQuest:
		xs := rxTexts(re.Sub[0])
		var out []string
		if re.Op != syntax.OpPlus {
			out = append(out, "")
		}
		out = append(out, xs...)
		if re.Op != syntax.OpQuest && len(xs) > 0 {
			out = append(out, xs[0]+xs[len(xs)-1])
			if re.Sub[0].Op == syntax.OpAnyCharNotNL || re.Sub[0].Op == syntax.OpAnyChar {
				out = append(out, "x y", " y z", " y */", "   ", ": w", " : constraint: v")
			}
		}
		return out
	case syntax.OpConcat:
		// every choice of every two parts, the rest as short as they come
		var subs [][]string
		for _, s := range re.Sub {
			subs = append(subs, rxTexts(s))
		}
		build := func(i int, x string, j int, y string) string {
			t := ""
			for k, xs := range subs {
				switch {
				case k == i:
					t += x
				case k == j:
					t += y
				case len(xs) > 0:
					t += xs[0]
				}
			}
			return t
		}
		set := map[string]bool{}
		var out []string
		add := func(t string) {
			if !set[t] {
				set[t] = true
				out = append(out, t)
			}
		}
		for i := range subs {
			if len(subs) == 1 {
				for _, x := range subs[i] {
					add(x)
				}
			}
			for j := i + 1; j < len(subs); j++ {
				for _, x := range subs[i] {
					for _, y := range subs[j] {
						add(build(i, x, j, y))
					}
				}
			}
		}
		return out
	case syntax.OpAlternate:
		var out []string
		for _, s := range re.Sub {
			out = append(out, rxTexts(s)...)
		}
		return out
	}
	return []string{""}
}

func checkAnnotationForms(r *Rep, p *Prog) {
	r.Rule("annotation-forms", "each regular expression that recognises annotations matches exactly the texts of its reference form and takes the same part")
	for _, ref := range rxRefs {
		got, index, pos := p.rxOf(ref.pkg, ref.holder)
		name := ref.pkg[strings.LastIndex(ref.pkg, "/")+1:] + "." + ref.holder
		if got == "" {
			r.Undecided("annotation-forms", name, "no compiled expression found in %s", ref.holder)
			continue
		}
		a, err := rxCompile(got)
		if err != nil {
			r.Undecided("annotation-forms", name, "%v", err)
			continue
		}
		b, err := rxCompile(ref.pattern)
		if err != nil {
			r.Fail("annotation-forms", name, pos, "reference form: %v", err)
			continue
		}
		w, same, ok := rxSame(a, b)
		if !ok {
			r.Undecided("annotation-forms", name, "too many states")
			continue
		}
		if !same {
			verb := "does not match"
			if regexp.MustCompile(got).MatchString(w) {
				verb = "matches"
			}
			r.Fail("annotation-forms", name, pos, "%s %s the text %q, unlike the reference form %s", ref.holder, verb, w, ref.pattern)
			continue
		}
		bad := false
		n := 0
		if ref.index > 0 {
			parsed, _ := syntax.Parse(ref.pattern, syntax.Perl)
			x, y := regexp.MustCompile(got), regexp.MustCompile(ref.pattern)
			if index < 0 {
				r.Undecided("annotation-forms", name, "the group that is taken is not a constant")
				continue
			}
			for _, s := range rxTexts(parsed) {
				want := y.FindStringSubmatch(s)
				have := x.FindStringSubmatch(s)
				n++
				if len(want) > 0 && (len(have) <= index || have[index] != want[ref.index]) {
					part := "nothing"
					if len(have) > index {
						part = fmt.Sprintf("%q", have[index])
					}
					r.Fail("annotation-forms", name, pos, "%s takes %s from the text %q, expected %q", ref.holder, part, s, want[ref.index])
					bad = true
					break
				}
			}
		}
		if !bad {
			r.Ok("annotation-forms", fmt.Sprintf("%s (%d texts)", name, n))
		}
	}
	r.Min("annotation-forms", len(rxRefs))
}
