package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P14: lexing and parsing terminate. Every loop is counted over something fixed, or reads on in the text: on every
// path round it at least one character of the text, or one token other than the end, is behind the new position.
// Recursion happens only after reading on.

// stepPoint is a position on a path: a base and a distance from it.
type stepPoint struct {
	b *T
	n int
}

type pxCall struct {
	name string
	at   stepPoint
	st   *State
	pos  token.Pos
}

type termCheck struct {
	d      *pxDialect
	eof    *T // the type of the token at the end of the text
	tfield string
	ftyp   types.Type
	prog   map[string]bool // methods that read on whenever they succeed
	r      *Rep
}

// known says whether something of the text other than its end is known at (b, j) or later within the window.
func (t *termCheck) known(s *State, b *T, j int) bool {
	if t.d.cw != nil {
		v, ok := s.decide(mkLt(mkAdd(b, int64(j)), mkLen(charText)))
		return ok && v
	}
	v, ok := s.decide(mkEq(mkFld(mkT(t.tokT(), "tok", fmt.Sprint(j), b), t.tfield, t.ftyp), t.eof))
	if ok {
		return !v
	}
	return false
}

func (t *termCheck) tokT() types.Type {
	st := t.d.cn.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == t.d.cc {
			return st.Field(i).Type()
		}
	}
	return nil
}

// moved: on the way from one position to the other, the text was read on ("" if so, otherwise why not).
func (t *termCheck) moved(s *State, enters []*pxEnter, from, to stepPoint) string {
	type seg struct {
		b    *T
		a, z int
		nt   string // the call that led to b
	}
	var segs []seg
	b, z := to.b, to.n
	for k := 0; ; k++ {
		if k > 200 {
			return "the positions are not connected"
		}
		if b == from.b {
			segs = append(segs, seg{b, from.n, z, ""})
			break
		}
		switch {
		case b.op == "endpos":
			segs = append(segs, seg{b, 0, z, b.s})
			b, z = posOf(b.a[0])
		case b.op == "tb" && strings.HasPrefix(b.s, "L"):
			ord := 0
			fmt.Sscanf(b.s, "L%d", &ord)
			if ord >= len(enters) {
				return "the positions are not connected"
			}
			segs = append(segs, seg{b, 0, z, ""})
			c, n, ok := winPos(enters[ord].cur)
			if !ok {
				return "the position at a loop is not known"
			}
			b, z = c, n
		default:
			return "the positions are not connected"
		}
	}
	for _, g := range segs {
		if g.z < g.a {
			return "it goes back in the text"
		}
	}
	adv := false
	for i := len(segs) - 1; i >= 0; i-- {
		g := segs[i]
		if g.nt != "" && t.prog[g.nt] {
			return ""
		}
		if g.z > g.a {
			adv = true
		}
		if !adv {
			continue
		}
		lo := 0
		if g.z > g.a {
			lo = g.a
		}
		for j := lo; j <= g.z+2; j++ {
			if t.known(s, g.b, j) {
				return ""
			}
		}
	}
	if adv {
		return "all it reads may be the end of the text"
	}
	return "it may leave the text where it is"
}

func (t *termCheck) run(name string, nts map[string]bool, peel int) (*pxRun, *px, error) {
	e := newEngine(t.d.p)
	x := &px{e: e, recvT: t.d.cn, fcur: t.d.cc, fpeek: t.d.ck, nts: nts, win: t.d.cw, peel: peel, trackCalls: true}
	if t.d.cw != nil {
		e.opaque = func(*ssa.Function) bool { return false }
	} else {
		e.opaque = func(f *ssa.Function) bool { return pxOpaque(x, f, t.d.shared) }
		e.inline = pxInline
	}
	run, err := x.run(t.d.code[name])
	t.r.useEngine(e)
	return run, x, err
}

type termRun struct {
	run *pxRun
	x   *px
}

// decide examines all methods of one type; seen collects the loops that were cut and how they fared.
func (t *termCheck) decide(typ string, seen map[*ssa.BasicBlock]string) {
	d, r := t.d, t.r
	nts := map[string]bool{}
	for n, f := range d.code {
		if d.cw == nil && isParseName(n) && n != d.root && hasErrResult(f) || d.cw != nil && d.nts[n] {
			nts[n] = true
		}
	}
	var names []string
	for n := range nts {
		names = append(names, n)
	}
	if !nts[d.root] {
		names = append(names, d.root)
	}
	sort.Strings(names)
	runs := map[string]termRun{}
	for _, n := range names {
		if d.code[n] == nil {
			r.Undecided("progress", d.name+"."+typ+"."+n, "no such method")
			continue
		}
		r.Fn(shortFn(d.code[n]))
		run, x, err := t.run(n, nts, 0)
		if err != nil {
			r.Undecided("progress", d.name+"."+typ+"."+n, "%s", err)
			continue
		}
		runs[n] = termRun{run, x}
	}
	start := func() stepPoint { return stepPoint{mkBase("0", d.cw != nil), 0} }
	// which methods read on whenever they succeed
	t.prog = map[string]bool{}
	for more := true; more; {
		more = false
		for _, n := range names {
			if t.prog[n] || runs[n].run == nil {
				continue
			}
			all := true
			for _, it := range runs[n].run.items {
				if it.kind != "ok" && it.kind != "unknown" {
					continue
				}
				b, k, ok := winPos(it.cur)
				if !ok || t.moved(it.st, it.enters, start(), stepPoint{b, k}) != "" {
					all = false
					break
				}
			}
			if all {
				t.prog[n] = true
				more = true
			}
		}
	}
	// loops
	ms := &measures{by: map[*ssa.BasicBlock]map[string]bool{}, why: map[*ssa.BasicBlock]string{}, from: map[*ssa.BasicBlock]map[string]bool{}}
	for _, n := range names {
		if runs[n].run == nil {
			continue
		}
		for _, it := range runs[n].run.items {
			if it.kind != "back" || it.header == nil {
				continue
			}
			ms.add(it.header, n, t, it)
		}
	}
	// a loop that only a method it calls might carry on is looked at again with the methods looked through
	for n := range ms.unsure() {
		var keep map[string]bool
		if d.cw != nil {
			keep = map[string]bool{d.root: true}
		}
		run, _, err := t.run(n, keep, 1)
		if err != nil {
			continue
		}
		again := &measures{by: map[*ssa.BasicBlock]map[string]bool{}, why: map[*ssa.BasicBlock]string{}, from: map[*ssa.BasicBlock]map[string]bool{}}
		for _, it := range run.items {
			if it.kind == "back" && it.header != nil {
				again.add(it.header, n, t, it)
			}
		}
		for h, m := range again.by {
			if len(m) > 0 && len(ms.from[h]) == 1 && ms.from[h][n] {
				ms.by[h] = m
			}
		}
	}
	for h, m := range ms.by {
		seen[h] = ""
		if len(m) == 0 {
			seen[h] = ms.why[h]
		}
	}
	// recursion
	type edge struct {
		from, to string
		pos      token.Pos
		why      string
	}
	var still []edge
	collect := func(n string, x *px) (out []edge) {
		for _, c := range x.calls {
			if why := t.moved(c.st, entersOf(c.st), start(), c.at); why != "" {
				out = append(out, edge{n, c.name, c.pos, why})
			}
		}
		return
	}
	for _, n := range names {
		if runs[n].x != nil {
			still = append(still, collect(n, runs[n].x)...)
		}
	}
	cyclic := func() []edge {
		adj := map[string]map[string]bool{}
		for _, e := range still {
			if adj[e.from] == nil {
				adj[e.from] = map[string]bool{}
			}
			adj[e.from][e.to] = true
		}
		var reach func(a, b string, seen map[string]bool) bool
		reach = func(a, b string, seen map[string]bool) bool {
			if a == b {
				return true
			}
			if seen[a] {
				return false
			}
			seen[a] = true
			for x := range adj[a] {
				if reach(x, b, seen) {
					return true
				}
			}
			return false
		}
		var out []edge
		for _, e := range still {
			if reach(e.to, e.from, map[string]bool{}) {
				out = append(out, e)
			}
		}
		return out
	}
	if cyc := cyclic(); len(cyc) > 0 {
		// look through what the method calls before it comes to itself again
		redo := map[string]bool{}
		keep := map[string]bool{}
		for _, e := range cyc {
			redo[e.from] = true
			keep[e.to] = true
		}
		for n := range redo {
			_, x, err := t.run(n, keep, 1)
			if err != nil {
				continue
			}
			var rest []edge
			for _, e := range still {
				if e.from != n {
					rest = append(rest, e)
				}
			}
			still = append(rest, collect(n, x)...)
		}
	}
	bad := map[string]bool{}
	for _, e := range cyclic() {
		if bad[e.from] {
			continue
		}
		bad[e.from] = true
		r.Fail("recursion", d.name+"."+typ+"."+e.from, r.p.pos(e.pos), "%s.%s.%s comes to %s again before reading on: %s", d.name, typ, e.from, e.to, e.why)
	}
	for _, n := range names {
		if !bad[n] && runs[n].run != nil {
			r.Ok("recursion", fmt.Sprintf("%s.%s.%s (%d calls on its paths)", d.name, typ, n, len(runs[n].x.calls)))
		}
	}
}

// measures are, per loop, what grows on every round that was looked at and cannot grow for ever.
type measures struct {
	by   map[*ssa.BasicBlock]map[string]bool
	why  map[*ssa.BasicBlock]string
	from map[*ssa.BasicBlock]map[string]bool // the methods it was reached from
}

func (m *measures) add(h *ssa.BasicBlock, method string, t *termCheck, it *pxItem) {
	ok, why := t.backMoved(it)
	if m.by[h] == nil {
		m.by[h] = ok
		m.from[h] = map[string]bool{}
	}
	m.from[h][method] = true
	for k := range m.by[h] {
		if !ok[k] {
			delete(m.by[h], k)
		}
	}
	if why != "" && m.why[h] == "" {
		m.why[h] = why
	}
}

func (m *measures) unsure() map[string]bool {
	out := map[string]bool{}
	for h, x := range m.by {
		if len(x) == 0 {
			for n := range m.from[h] {
				out[n] = true
			}
		}
	}
	return out
}

// backMoved gives what grows on a round, and why it is not the position in the text if that is not among it.
func (t *termCheck) backMoved(it *pxItem) (map[string]bool, string) {
	out := map[string]bool{}
	head := mkBase(fmt.Sprintf("L%d", it.ord), t.d.cw != nil)
	why := "the position after a round is not known"
	b, n, ok := winPos(it.cur)
	if ok {
		why = t.moved(it.st, it.enters, stepPoint{head, 0}, stepPoint{b, n})
		if why == "" {
			out["text"] = true
		} else if t.d.cw != nil && b == head && n > 0 && below(it.st, head, it.ord) {
			out["text"] = true
		}
	}
	for k, nm := range it.names {
		if c, d := splitAdd(it.vals[k]); c != nil && d > 0 && c.op == "cell" && c.s == fmt.Sprintf("L%d.%s", it.ord, nm) && below(it.st, c, it.ord) {
			out[nm] = true
		}
	}
	return out, why
}

// below: the value is known to be less than something the rounds of the loop do not change.
func below(s *State, c *T, ord int) bool {
	head := fmt.Sprintf("L%d", ord)
	for l, v := range s.known {
		if !v || l.op != "lt" {
			continue
		}
		if b, k := splitAdd(l.a[0]); b != c || k < 0 {
			continue
		}
		if !anyTerm(l.a[1], func(x *T) bool {
			return x.op == "tb" && x.s == head || x.op == "cell" && strings.HasPrefix(x.s, head+".") || x.op == "opaque"
		}) {
			return true
		}
	}
	return false
}

func hasErrResult(f *ssa.Function) bool {
	res := f.Signature.Results()
	return res.Len() > 0 && isErrorType(res.At(res.Len()-1).Type())
}

// ---- loops counted over something fixed ----

// countedLoop: a test made on every round ends the loop after a fixed number of rounds.
func countedLoop(l *loop) (bool, string) {
	for b := range l.body {
		if len(b.Instrs) == 0 {
			continue
		}
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || l.body[b.Succs[0]] == l.body[b.Succs[1]] {
			continue
		}
		every := true
		for la := range l.latch {
			every = every && b.Dominates(la)
		}
		if !every {
			continue
		}
		stay := l.body[b.Succs[0]]
		switch c := br.Cond.(type) {
		case *ssa.Extract:
			if nx, ok := c.Tuple.(*ssa.Next); ok && c.Index == 0 && stay {
				if rg, ok := nx.Iter.(*ssa.Range); ok && !l.body[rg.Block()] {
					return true, "range over a map or string"
				}
			}
		case *ssa.BinOp:
			x, y, op := c.X, c.Y, c.Op
			if !stay {
				switch op {
				case token.GEQ:
					op = token.LSS
				case token.GTR:
					op = token.LEQ
				case token.LSS:
					op = token.GEQ
				case token.LEQ:
					op = token.GTR
				case token.EQL:
					op = token.NEQ
				case token.NEQ:
					op = token.EQL
				}
			}
			if op == token.GTR || op == token.GEQ {
				x, y = y, x
				op = map[token.Token]token.Token{token.GTR: token.LSS, token.GEQ: token.LEQ}[op]
			}
			if op == token.LSS || op == token.LEQ {
				if stepOf(l, x) > 0 && invariantIn(l, y) || stepOf(l, y) < 0 && invariantIn(l, x) {
					return true, "counted"
				}
			}
		}
	}
	return false, ""
}

// stepOf is the sign of the change of a counter per round, 0 if it is none.
func stepOf(l *loop, v ssa.Value) int {
	for {
		if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
			if _, ok := b.Y.(*ssa.Const); ok {
				v = b.X
				continue
			}
		}
		break
	}
	p, ok := v.(*ssa.Phi)
	if !ok || p.Block() != l.header {
		return 0
	}
	sign := 0
	for i, pr := range p.Block().Preds {
		if !l.body[pr] {
			continue
		}
		s := deltaFrom(l, p.Edges[i], p, 0)
		if s == 0 || sign != 0 && s != sign {
			return 0
		}
		sign = s
	}
	return sign
}

func deltaFrom(l *loop, v ssa.Value, p *ssa.Phi, depth int) int {
	if depth > 10 {
		return 0
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		k, ok := x.Y.(*ssa.Const)
		if !ok || k.Value == nil || x.Op != token.ADD && x.Op != token.SUB {
			return 0
		}
		n := k.Int64()
		if x.Op == token.SUB {
			n = -n
		}
		s := 0
		if n > 0 {
			s = 1
		} else if n < 0 {
			s = -1
		}
		if x.X == ssa.Value(p) {
			return s
		}
		if d := deltaFrom(l, x.X, p, depth+1); d == s {
			return s
		}
	case *ssa.Phi:
		sign := 0
		for _, e := range x.Edges {
			d := deltaFrom(l, e, p, depth+1)
			if d == 0 || sign != 0 && d != sign {
				return 0
			}
			sign = d
		}
		return sign
	}
	return 0
}

// termProg is the program P14 looks at.
var termProg *Prog

func invariantIn(l *loop, v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar:
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") && invariantIn(l, x.Call.Args[0]) {
			return true
		}
	case *ssa.BinOp:
		if l.body[x.Block()] {
			return invariantIn(l, x.X) && invariantIn(l, x.Y)
		}
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && termProg != nil && !storedOutsideInit(termProg, g) {
			return true
		}
	}
	if in, ok := v.(ssa.Instruction); ok {
		return !l.body[in.Block()]
	}
	return true
}

// namingLoop: a round is taken only while a new text, different each round because a counter is part of it, equals
// the name of one of the elements of a fixed list.
func namingLoop(p *Prog, l *loop) bool {
	for b := range l.body {
		br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || l.body[b.Succs[0]] == l.body[b.Succs[1]] || !l.body[b.Succs[0]] {
			continue
		}
		every := true
		for la := range l.latch {
			every = every && b.Dominates(la)
		}
		call, ok := br.Cond.(*ssa.Call)
		if !ok || !every {
			continue
		}
		f := call.Call.StaticCallee()
		if f == nil || !isRepoFn(f) || len(f.Params) != 2 || !invariantIn(l, call.Call.Args[0]) {
			continue
		}
		ph, ok := call.Call.Args[1].(*ssa.Phi)
		if !ok || ph.Block() != l.header {
			continue
		}
		for i, pr := range ph.Block().Preds {
			if l.body[pr] && !countedText(l, ph.Edges[i], 0) {
				ok = false
			}
		}
		if ok && membership(p, f) {
			return true
		}
	}
	return false
}

// countedText: the value is made from a counter of the loop, by functions that keep different texts apart.
func countedText(l *loop, v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil {
			return false
		}
		n := f.String()
		if n == "strconv.Itoa" {
			return stepOf(l, x.Call.Args[0]) != 0
		}
		if isRepoFn(f) && len(x.Call.Args) == 1 && f.Name() == "NewRawIdent" {
			return countedText(l, x.Call.Args[0], depth+1)
		}
	case *ssa.BinOp:
		if x.Op == token.ADD && isStrTyp(x.Type()) {
			return invariantIn(l, x.X) && countedText(l, x.Y, depth+1)
		}
	}
	return false
}

// membership: the function is true only if a part of its second argument equals something of its first.
func membership(p *Prog, f *ssa.Function) bool {
	for _, b := range f.Blocks {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		c, ok := rt.Results[0].(*ssa.Const)
		if !ok {
			return false
		}
		if c.Value.String() == "false" {
			continue
		}
		if len(b.Preds) != 1 {
			return false
		}
		br, ok := b.Preds[0].Instrs[len(b.Preds[0].Instrs)-1].(*ssa.If)
		if !ok || b.Preds[0].Succs[0] != b {
			return false
		}
		eq, ok := br.Cond.(*ssa.BinOp)
		if !ok || eq.Op != token.EQL || !isStrTyp(eq.X.Type()) {
			return false
		}
		x, y := dependsOn(eq.X, f.Params[1]), dependsOn(eq.Y, f.Params[1])
		if x == y {
			return false
		}
	}
	return true
}

func dependsOn(v ssa.Value, q ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == q {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		in, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}
		for _, op := range in.Operands(nil) {
			if *op != nil && walk(*op) {
				return true
			}
		}
		return false
	}
	return walk(v)
}

// ddlFns are the functions of the packages of the dialects reachable from the given ones.
func ddlFns(p *Prog, pkg string, roots []*ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	mine := func(f *ssa.Function) bool {
		if f.Pkg == nil || strings.Contains(p.pos(f.Pos()), "zz_verif_spec") {
			return false
		}
		path := f.Pkg.Pkg.Path()
		return strings.HasSuffix(path, pkg) || strings.HasSuffix(path, "/pkg/ddl") || strings.HasSuffix(path, "/pkg/ddl/internal")
	}
	for f := range p.reach(roots, func(_, to *ssa.Function) bool { return !mine(to) }) {
		if mine(f) && len(f.Blocks) > 0 {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func init() {
	checks["P14"] = func(r *Rep) {
		r.Rule("progress", "on every path round a loop at least one character of the text, or one token other than the end of the text, is read, or the loop is counted over something fixed")
		r.Rule("recursion", "a method comes to itself again only after reading on")
		p, broken, err := specProg()
		if err != nil {
			r.Fail("load", "program", "-", "the program cannot be analysed: %v", err)
			return
		}
		r.p, termProg = p, p
		for _, dn := range sortedKeys(specPkgs) {
			seen := map[*ssa.BasicBlock]string{}
			var roots []*ssa.Function
			for _, typ := range []string{"Parser", "Lexer"} {
				var d *pxDialect
				if typ == "Parser" {
					d = loadPx(p, broken, dn)
				} else {
					d = loadLex(p, broken, dn)
				}
				for _, f := range d.code {
					roots = append(roots, f)
				}
				if d.err != "" || d.code == nil {
					r.Undecided("progress", dn+"."+typ, "%s", d.err)
					continue
				}
				t := &termCheck{d: d, r: r}
				if d.cw == nil {
					if why := t.findEOF(); why != "" {
						r.Undecided("progress", dn+"."+typ, "%s", why)
						continue
					}
				}
				t.decide(typ, seen)
			}
			e := newEngine(p)
			for _, f := range ddlFns(p, specPkgs[dn], roots) {
				for i, l := range e.forest(f).list {
					name := fmt.Sprintf("%s loop %d", shortFn(f), i+1)
					pos := p.pos(loopPos(l))
					if ok, _ := countedLoop(l); ok {
						r.Ok("progress", name+" (counted)")
						continue
					}
					why, ok := seen[l.header]
					switch {
					case ok && why == "":
						r.Ok("progress", name+" (reads on)")
					case ok:
						r.Fail("progress", name, pos, "a round of the loop in %s may repeat for ever: %s", shortFn(f), why)
					case namingLoop(p, l):
						r.Ok("progress", name+" (looks for an unused name)")
					default:
						r.Undecided("progress", name, "the loop at %s is neither counted nor reached from a parse or lexer method", pos)
					}
				}
			}
		}
		r.Min("progress", 60)
		r.Min("recursion", 40)
	}
}

// findEOF finds the type of the token at the end of the text, and the field of a token that holds its type.
func (t *termCheck) findEOF() string {
	st, ok := t.tokT().Underlying().(*types.Struct)
	if !ok {
		return "tokens are not structs"
	}
	for i := 0; i < st.NumFields(); i++ {
		if n, ok := st.Field(i).Type().(*types.Named); ok && n.Obj().Name() == "TokenType" {
			t.tfield, t.ftyp = st.Field(i).Name(), n
		}
	}
	c, ok := t.d.cn.Obj().Pkg().Scope().Lookup("TOKEN_EOF").(*types.Const)
	if !ok || t.tfield == "" {
		return "no token type for the end of the text"
	}
	t.eof = mkStr(constant.StringVal(c.Val()))
	return ""
}
