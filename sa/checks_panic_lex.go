package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What the lexers cut out of the text lies within it. Each method is taken apart into paths between cut points, with
// positions relative to where the method or the loop began; a position is within the text when the path has seen a
// character before it, when the round of the loop or the method began there, or when a called method stopped there -
// which are obligations of the rounds, the calls and the called methods in turn.

type lexPanic struct {
	r       *Rep
	dn      string
	demands map[string]bool
	changed bool
	last    bool
	holds   map[string]string
	rules   map[string]string
	name    string
}

func (l *lexPanic) demand(key string) bool {
	if !l.demands[key] {
		l.demands[key], l.changed = true, true
	}
	return true
}

func (l *lexPanic) ob(rule, key, bad string) {
	if !l.last {
		return
	}
	key = rule + "@" + key
	l.rules[key] = rule
	if old, ok := l.holds[key]; !ok || old == "" {
		l.holds[key] = bad
	}
}

// begin is a position that b is at or after: where the loop was entered, or where the called method began.
func begin(st *State, b *T) (*T, int64, bool) {
	switch b.op {
	case "tb":
		for _, en := range entersOf(st) {
			if b == mkBase(fmt.Sprintf("L%d", en.ord), true) {
				if b2, n, ok := winPos(en.cur); ok && b2 != b {
					return b2, int64(n), true
				}
			}
		}
	case "endpos":
		if len(b.a) > 0 && b.a[0].op == "pos" {
			b2, n := posOf(b.a[0])
			return b2, int64(n), true
		}
	}
	return nil, 0, false
}

// upTo: position (b, k) is at or before (b2, k2).
func upTo(st *State, b *T, k int64, b2 *T, k2 int64) bool {
	for i := 0; i < 20 && b2 != nil; i++ {
		if b == b2 {
			return k <= k2
		}
		b3, n, ok := begin(st, b2)
		if !ok {
			return false
		}
		b2, k2 = b3, k2+n
	}
	return false
}

// within: the path knows, or demands, that (b, k) is not past the end of the text.
func (l *lexPanic) within(st *State, b *T, k int64) bool {
	if b == nil {
		return k == 0
	}
	for j := k - 1; j <= k+8; j++ { // a character was seen before it, or at or after it
		if v, known := st.decide(mkLt(mkAdd(b, j), mkLen(charText))); known && v {
			return true
		}
		if v, known := st.decide(mkEq(mkChar(b, int(j)), mkInt(0))); known && !v {
			return true
		}
	}
	if k > 0 {
		return false
	}
	switch {
	case b.op == "tb" && b == mkBase("0", true):
		return l.demand("entry " + l.name)
	case b.op == "tb":
		return l.demand("loop " + l.name + " " + b.s)
	case b.op == "endpos":
		return l.demand("end " + strings.SplitN(b.s, "#", 2)[0])
	}
	return false
}

// unclear: not a place in the text the analysis follows, but something computed.
func unclear(b *T) bool { return b != nil && b.op != "tb" && b.op != "endpos" }

func textSlice(t *T) (*T, bool) {
	t = stripAs(t)
	for t.op == "slice" && len(t.a) > 0 {
		t = stripAs(t.a[0])
	}
	return t, t == charText
}

func (l *lexPanic) slice(st *State, x, lo, hi *T) string {
	if x != charText {
		return "?"
	}
	var lb, hb *T
	lk, hk := int64(0), int64(0)
	if lo != nil {
		lb, lk = splitAdd(lo)
	}
	if unclear(lb) {
		return "?"
	}
	toEnd := hi == nil || hi == mkLen(charText)
	if !toEnd {
		if hb, hk = splitAdd(hi); unclear(hb) {
			return "?"
		}
		if !l.within(st, hb, hk) {
			return "the part of the text cut out ends at " + short(hi) + ", which may be past the end of the text"
		}
	}
	switch {
	case lb == nil && lk == 0:
	case lb == nil:
		return "?"
	case lk < 0 && lb == mkBase("0", true):
		return "the part of the text cut out starts before the position"
	case toEnd:
		if !l.within(st, lb, lk) {
			return "the part of the text cut out starts at " + short(lo) + ", which may be past the end of the text"
		}
	case !upTo(st, lb, lk, hb, hk):
		return "the part of the text cut out starts at " + short(lo) + ", which may be after its end " + short(hi)
	}
	return ""
}

func (l *lexPanic) index(st *State, i *T) string {
	b, k := splitAdd(i)
	if unclear(b) {
		return "?"
	}
	if k < 0 && (b == nil || b == mkBase("0", true)) {
		return "the character at " + short(i) + " may be before the start of the text"
	}
	if v, known := st.decide(mkLt(i, mkLen(charText))); known && v {
		return ""
	}
	if b != nil {
		for j := k; j <= k+8; j++ {
			if v, known := st.decide(mkLt(mkAdd(b, j), mkLen(charText))); known && v {
				return ""
			}
			if v, known := st.decide(mkEq(mkChar(b, int(j)), mkInt(0))); known && !v {
				return ""
			}
		}
	}
	return "the character at " + short(i) + " may be past the end of the text"
}

// stays: the round leaves the position where it was when the loop was entered.
func stays(it *pxItem, b *T, n int64) bool {
	for _, en := range it.enters {
		if en.ord == it.ord {
			if b2, n2, ok := winPos(en.cur); ok && upTo(it.st, b2, int64(n2), b, n) {
				return true
			}
		}
	}
	return false
}

// scan analyses one method of the lexer.
func (l *lexPanic) scan(d *pxDialect, name string) error {
	l.name = name
	e := newEngine(d.p)
	obj := l.dn + ".Lexer." + name
	e.probe = func(fr *Frame, st *State, in ssa.Instruction, kind string, ts ...*T) {
		pos := d.p.pos(in.Pos())
		switch kind {
		case "slice":
			if x, ok := textSlice(ts[0]); ok {
				l.ob("text", obj+"/slice/"+shortFn(in.Parent())+"\x00"+pos, l.slice(st, stripAs(ts[0]), ts[1], ts[2]))
				_ = x
			}
		case "index":
			if _, ok := textSlice(ts[0]); ok {
				bad := "?"
				if stripAs(ts[0]) == charText {
					bad = l.index(st, ts[1])
				}
				l.ob("text", obj+"/index/"+shortFn(in.Parent())+"\x00"+pos, bad)
			}
		}
	}
	x := &px{e: e, recvT: d.cn, nts: d.nts, win: d.cw, trackCalls: true}
	e.opaque = func(*ssa.Function) bool { return false }
	r, err := x.run(d.code[name])
	if err != nil {
		return err
	}
	for _, c := range x.calls {
		if l.demands["entry "+c.name] {
			bad := ""
			if !l.within(c.st, c.at.b, int64(c.at.n)) {
				bad = c.name + " is called at a position that may be past the end of the text"
			}
			l.ob("text", obj+"/call/"+c.name+"\x00"+d.p.pos(c.pos), bad)
		}
	}
	for _, it := range r.items {
		pos := d.p.pos(it.pos)
		for _, en := range it.enters {
			key := fmt.Sprintf("loop %s L%d", name, en.ord)
			if l.demands[key] {
				bad := ""
				if b, n, ok := winPos(en.cur); !ok {
					bad = "?"
				} else if !l.within(it.st, b, int64(n)) {
					bad = "the loop is entered at a position that may be past the end of the text"
				}
				l.ob("text", obj+"/enter\x00"+d.p.pos(en.pos), bad)
			}
		}
		b, n, ok := winPos(it.cur)
		switch it.kind {
		case "back":
			lb := mkBase(fmt.Sprintf("L%d", it.ord), true)
			bad := ""
			switch {
			case !ok:
				bad = "?"
			case !upTo(it.st, lb, 0, b, int64(n)) && !stays(it, b, int64(n)):
				bad = "the position goes back in the loop"
			case l.demands["loop "+name+" "+lb.s] && !l.within(it.st, b, int64(n)):
				bad = "a round of the loop may end past the end of the text"
			}
			l.ob("text", obj+"/round\x00"+pos, bad)
		case "ok":
			bad := ""
			switch {
			case !ok:
				bad = "?"
			case !upTo(it.st, mkBase("0", true), 0, b, int64(n)):
				bad = "the position goes back"
			case l.demands["end "+name] && !l.within(it.st, b, int64(n)):
				bad = "it may stop past the end of the text"
			}
			l.ob("text", obj+"/end\x00"+pos, bad)
		}
	}
	return nil
}

// lexPanics gives the packages whose lexer is understood.
func lexPanics(r *Rep) map[string]bool {
	done := map[string]bool{}
	r.Rule("text", "what a lexer reads or cuts out of the text lies within it")
	p, broken, err := specProg()
	if err != nil {
		r.Undecided("text", "program", "%v", err)
		return done
	}
	for _, dn := range sortedKeys(specPkgs) {
		d := loadLex(p, broken, dn)
		if d.err != "" {
			r.Undecided("text", dn+".Lexer", "%s", d.err)
			continue
		}
		done[pkgOf(d.code[d.root]).Path()] = true
		l := &lexPanic{r: r, dn: dn, demands: map[string]bool{}, holds: map[string]string{}, rules: map[string]string{}}
		names := append([]string{}, sortedKeys(d.nts)...)
		bad := map[string]error{}
		for round := 0; round < 20; round++ {
			l.changed = false
			for _, n := range names {
				if err := l.scan(d, n); err != nil {
					bad[n] = err
				}
			}
			if l.last && !l.changed {
				break
			}
			if !l.changed {
				l.last = true
			}
		}
		if l.demands["entry "+d.root] {
			// the parser asks for tokens again and again, also after the end
			r.Undecided("text", dn+"."+d.root, "relies on a position within the text, but is called after the end as well")
		}
		for _, n := range names {
			r.Fn(dn + ".Lexer." + n)
			if bad[n] != nil {
				r.Undecided("text", dn+".Lexer."+n, "%v", bad[n])
			}
		}
		for _, k := range sortedKeys(l.holds) {
			key, pos, _ := strings.Cut(k, "\x00")
			switch why := l.holds[k]; why {
			case "":
				r.Ok("text", key)
			case "?":
				r.Undecided("text", key, "not decided at %s", pos)
			default:
				r.Fail("text", key, pos, "%s", why)
			}
		}
	}
	r.Min("text", 40)
	return done
}
