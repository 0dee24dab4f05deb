package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The lexer reads a text of symbolic characters the way the parser reads symbolic tokens: its window is a number of
// counters that stay a constant distance apart and the character at one of them, which is 0 past the end.

type charWin struct {
	input string         // the field that holds the text
	ints  map[string]int // counters and their distance from the position
	char  string         // the field that holds the character at the position, if there is one
	text  *T
}

func (w *charWin) field(n string) bool {
	_, ok := w.ints[n]
	return ok || n == w.char
}

var charType = types.Typ[types.Uint8]

func mkChar(base *T, n int) *T { return mkT(charType, "tok", strconv.Itoa(n), base) }

func (w *charWin) set(st *State, recv, base *T, n int) {
	st.store(mkFaddr(recv, w.input), w.text)
	for f, k := range w.ints {
		st.store(mkFaddr(recv, f), mkAdd(base, int64(n+k)))
	}
	if w.char != "" {
		st.store(mkFaddr(recv, w.char), mkChar(base, n))
	}
}

// at gives the position in the form used for tokens when the window is consistent, the raw contents otherwise.
func (w *charWin) at(st *State, recv *T) [3]*T {
	var base *T
	n, first := 0, true
	ok := true
	var raw []*T
	for _, f := range sortedKeys(w.ints) {
		v := st.load(mkFaddr(recv, f), types.Typ[types.Int])
		raw = append(raw, v)
		b, k := splitAdd(v)
		k -= int64(w.ints[f])
		if first {
			base, n, first = b, int(k), false
		} else if b != base || int(k) != n {
			ok = false
		}
	}
	if base == nil || base.op != "tb" && base.op != "endpos" {
		ok = false
	}
	if w.char != "" {
		c := st.load(mkFaddr(recv, w.char), charType)
		raw = append(raw, c)
		if ok && c != mkChar(base, n) {
			v, known := st.decide(mkEq(mkChar(base, n), c))
			ok = known && v
		}
	}
	if st.load(mkFaddr(recv, w.input), types.Typ[types.String]) != w.text {
		ok = false
	}
	if !ok {
		return [3]*T{mk("window", "", raw...), mk("window", ""), mk("window", "")}
	}
	return [3]*T{mkChar(base, n), mkChar(base, n+1), mkPos(base, n+2)}
}

// textEnd: the position (base, n) is at or past the end of the text.
func atEnd(s *State, cur [3]*T) bool {
	b, n, ok := winPos(cur)
	if !ok {
		return false
	}
	v, known := s.decide(mkLt(mkAdd(b, int64(n)), mkLen(charText)))
	return known && !v
}

var charText = mkT(types.Typ[types.String], "text", "input")

func (w *charWin) hook(st *State, ci *CallInfo) ([]CallRes, bool) {
	if f := ci.fn; f != nil && isRepoFn(f) && f.Signature.Recv() == nil && isKeywordLookup(f) {
		return one(st, mkT(f.Signature.Results().At(0).Type(), "call", "keyword", ci.args[0]))
	}
	return nil, false
}

// isKeywordLookup recognises func(string) TokenType.
func isKeywordLookup(f *ssa.Function) bool {
	sig := f.Signature
	if sig.Params().Len() != 1 || sig.Results().Len() != 1 || sig.Recv() != nil || len(f.Blocks) == 0 {
		return false
	}
	n, ok := sig.Results().At(0).Type().(*types.Named)
	if !ok || n.Obj().Name() != "TokenType" {
		return false
	}
	b, ok := sig.Params().At(0).Type().(*types.Basic)
	return ok && b.Kind() == types.String
}

// charSets caches, per condition on a single character, the values it holds for.
var charSets = map[*T]*charSet{}

type charSet struct {
	of *T // nil: not a condition on one character
	in [256]bool
}

func charCond(a *T) *charSet {
	if c, ok := charSets[a]; ok {
		return c
	}
	c := &charSet{}
	charSets[a] = c
	var of *T
	one := true
	var walk func(t *T)
	walk = func(t *T) {
		if t.op == "tok" && t.typ == charType {
			if of != nil && of != t {
				one = false
			}
			of = t
			return
		}
		if len(t.a) == 0 && !t.isConst() && t.op != "bool" {
			one = false
		}
		for _, x := range t.a {
			walk(x)
		}
	}
	switch a.op {
	case "eq", "lt", "in", "call":
		walk(a)
	default:
		one = false
	}
	if !one || of == nil {
		return c
	}
	for i := range c.in {
		v := subst(a, map[*T]*T{of: mkInt(int64(i))})
		if v.op != "bool" {
			return c
		}
		c.in[i] = v == tTrue
	}
	c.of = of
	return c
}

// charDomain: the values a character can have under what is known.
func (s *State) charDomain(ch *T) *[256]bool {
	var d [256]bool
	for i := range d {
		d[i] = true
	}
	n, _ := strconv.Atoi(ch.s)
	for l, v := range s.known {
		if l.op == "lt" && !v && l.a[1] == mkLen(charText) {
			if b, k := splitAdd(l.a[0]); b == ch.a[0] && int(k) <= n {
				for i := 1; i < 256; i++ {
					d[i] = false
				}
			}
			continue
		}
		if c := charCond(l); c.of == ch {
			for i := range d {
				if c.in[i] != v {
					d[i] = false
				}
			}
		}
	}
	return &d
}

// decideChar decides conditions on characters and on the end of the text.
func (s *State) decideChar(a *T) (bool, bool) {
	if a.op == "lt" && a.a[1] == mkLen(charText) {
		b, k := splitAdd(a.a[0])
		if b == nil {
			return false, false
		}
		for l, v := range s.known {
			if l.op == "lt" && l.a[1] == a.a[1] {
				if c, j := splitAdd(l.a[0]); c == b && (v && j >= k || !v && j <= k) {
					return v, true
				}
				continue
			}
			if c := charCond(l); c.of != nil && c.of.a[0] == b {
				// a character other than 0 is in the text, and so is everything before it
				if n, _ := strconv.Atoi(c.of.s); int64(n) >= k && c.in[0] != v {
					return true, true
				}
			}
		}
		return false, false
	}
	c := charCond(a)
	if c.of == nil {
		return false, false
	}
	d := s.charDomain(c.of)
	hit, miss := false, false
	for i := range d {
		if d[i] {
			if c.in[i] {
				hit = true
			} else {
				miss = true
			}
		}
	}
	switch {
	case !hit && !miss:
		return false, false
	case !hit:
		return false, true
	case !miss:
		return true, true
	}
	return false, false
}

// mkCharAt is the character of a text at an index.
func mkCharAt(x, i *T, typ types.Type) *T {
	if x == charText {
		if b, k := splitAdd(i); b != nil && (b.op == "tb" || b.op == "endpos") {
			return mkChar(b, int(k))
		}
	}
	return mkElem(x, i, typ)
}

func charBase(b *T) bool {
	for b.op == "endpos" {
		b = b.a[0].a[0]
	}
	return b.op == "tb" && len(b.a) > 0
}

// lexWin finds the window of a lexer type from what its constructor leaves behind.
func lexWin(p *Prog, n *types.Named) (*charWin, *ssa.Function, string) {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil, nil, "not a struct"
	}
	w := &charWin{ints: map[string]int{}, text: charText}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		b, ok := f.Type().Underlying().(*types.Basic)
		switch {
		case ok && b.Kind() == types.String && w.input == "":
			w.input = f.Name()
		case ok && b.Kind() == types.Int:
			w.ints[f.Name()] = 0
		case ok && b.Kind() == types.Uint8 && w.char == "":
			w.char = f.Name()
		default:
			return nil, nil, "field " + f.Name() + " is none of the text, a position and the character at it"
		}
	}
	var ctor *ssa.Function
	for _, m := range n.Obj().Pkg().Scope().Names() {
		f, ok := n.Obj().Pkg().Scope().Lookup(m).(*types.Func)
		if !ok {
			continue
		}
		sig := f.Type().(*types.Signature)
		if sig.Params().Len() != 1 || sig.Results().Len() != 1 || !isStrTyp(sig.Params().At(0).Type()) {
			continue
		}
		if pt, ok := sig.Results().At(0).Type().(*types.Pointer); ok && types.Identical(pt.Elem(), n) {
			ctor = p.ssa.FuncValue(f)
		}
	}
	if ctor == nil {
		return nil, nil, "no constructor"
	}
	e := newEngine(p)
	rs, err := e.Analyse(ctor, newState(), []*T{charText})
	if err != nil {
		return nil, ctor, err.Error()
	}
	base := map[string]*T{}
	for _, r := range rs {
		if r.kind != rRet || len(r.vals) != 1 {
			return nil, ctor, "the constructor does not always return"
		}
		o := stripAs(r.vals[0])
		if v := r.st.load(mkFaddr(o, w.input), types.Typ[types.String]); v != charText {
			return nil, ctor, "the constructor does not keep the text"
		}
		for f := range w.ints {
			v := r.st.load(mkFaddr(o, f), types.Typ[types.Int])
			k, ok := v.intVal()
			if !ok || base[f] != nil && base[f] != v {
				return nil, ctor, "field " + f + " does not start at a constant"
			}
			base[f], w.ints[f] = v, int(k)
		}
		if w.char != "" {
			v := r.st.load(mkFaddr(o, w.char), charType)
			in, known := r.st.decide(mkLt(mkInt(0), mkLen(charText)))
			switch {
			case v == mkElem(charText, mkInt(0), charType) && known && in:
			case v == mkInt(0) && known && !in:
			default:
				return nil, ctor, "the lexer does not start with the first character"
			}
		}
	}
	return w, ctor, ""
}

func loadLex(p *Prog, broken map[string]string, d string) *pxDialect {
	x := &pxDialect{name: d, p: p, root: "NextToken", nts: map[string]bool{}, shared: map[*ssa.Function]bool{}}
	if why, ok := broken[d+"_lex"]; ok {
		x.err = "the reference lexer does not fit the current source: " + why
		return x
	}
	pkg := specPkgs[d]
	x.cn, _, _ = parserOf(p, pkg, "Lexer")
	x.sn, _, _ = parserOf(p, pkg, "verifL")
	if x.cn == nil || x.sn == nil {
		x.err = "no lexer in " + pkg
		return x
	}
	var why string
	if x.sw, _, why = lexWin(p, x.sn); why != "" {
		x.err = "reference: " + why
		return x
	}
	if x.cw, _, why = lexWin(p, x.cn); why != "" {
		x.err = "the lexer's state is not understood: " + why
		return x
	}
	x.code, x.spec = methodsOf(p, x.cn), methodsOf(p, x.sn)
	for n, s := range x.spec {
		switch n {
		case "readChar", "isEOF", "peekChar":
			continue
		}
		if c := x.code[n]; c != nil && sameSig(c, s) {
			x.nts[n] = true
		}
	}
	return x
}

// lexSkips are the characters the reference lexer passes over before a token: NextToken and skipWhitespace end at the
// same place, NextToken with the same token, when they start after any of them.
const lexSkips = " \t\n\r"

func afterSkips(s *State, t *T) *T {
	m := map[*T]*T{}
	anyTerm(t, func(x *T) bool {
		if x.op != "pos" || m[x] != nil {
			return false
		}
		b, n := posOf(x)
		if !charBase(b) {
			return false
		}
		k := n
		for ; k < n+8; k++ {
			v, known := s.decide(mkLt(mkAdd(b, int64(k)), mkLen(charText)))
			if !known || !v {
				break
			}
			d, all := s.charDomain(mkChar(b, k)), true
			for i := range d {
				all = all && (!d[i] || strings.IndexByte(lexSkips, byte(i)) >= 0)
			}
			if !all {
				break
			}
		}
		if k != n {
			m[x] = mkPos(b, k)
		}
		return false
	})
	if len(m) == 0 {
		return t
	}
	var do func(t *T) *T
	do = func(t *T) *T {
		if len(t.a) == 0 {
			return t
		}
		args := make([]*T, len(t.a))
		for i, x := range t.a {
			args[i] = do(x)
		}
		if t.op == "endpos" && (t.s == "NextToken" || t.s == "skipWhitespace") || t.op == "ntret" && strings.HasPrefix(t.s, "NextToken#") {
			if y := m[args[0]]; y != nil {
				args[0] = y
			}
		}
		return rebuild(t, args)
	}
	return do(t)
}

// fixChars replaces the characters that can only be one by that one.
func fixChars(s *State, t *T) *T {
	m := map[*T]*T{}
	anyTerm(t, func(x *T) bool {
		if x.op == "endpos" || x.op == "ntret" {
			return false
		}
		if x.op == "tok" && x.typ == charType {
			d, n, v := s.charDomain(x), 0, 0
			for i := range d {
				if d[i] {
					n, v = n+1, i
				}
			}
			if n == 1 {
				m[x] = mkInt(int64(v))
			}
		}
		return false
	})
	if len(m) == 0 {
		return t
	}
	return subst(t, m)
}
