package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Summaries of the parser methods.
//
// The text is a sequence of symbolic tokens. A position is (base, n): base names a point of the text (the start of
// the analysed method, the place where a called parse method stopped, or the head of a loop) and n counts the
// tokens read since. A call of another parse method is not followed: it fails on one branch and on the other stops
// at a new base with results named after the call. A loop that reads tokens is cut at its head: everything it
// changes becomes a fresh symbol there, one round is analysed, and what a round leaves behind is recorded. Every
// method is thus a finite set of token-by-token paths between cut points; no text is ever parsed.

// pxEnter is the arrival at the head of a cut loop.
type pxEnter struct {
	ord   int
	lits  []*T
	names []string
	vals  []*T
	cur   [3]*T // current token, next token, lexer position
	pos   token.Pos
	fn    *ssa.Function
}

// pxItem is one path from the start (or the last loop head on it) to a return or back to that head.
type pxItem struct {
	kind   string // "ok", "err", "back", "panic", "unknown"
	st     *State
	enters []*pxEnter
	ord    int
	names  []string
	vals   []*T
	cur    [3]*T
	stores []*T
	pos    token.Pos
	fn     *ssa.Function
	header *ssa.BasicBlock // of the loop gone round
}

type pxRun struct {
	items []*pxItem
	fn    *ssa.Function
}

// px is the analysis of one method.
type px struct {
	e      *Engine
	recv   *T
	nts    map[string]bool // parse methods treated as nonterminals
	backs  []*pxItem
	delta  int // tokens by which the loop heads of this side are ahead
	peel   int // rounds taken before a loop is cut
	peeled map[*ssa.BasicBlock]int
	fcur   string
	fpeek  string
	recvT  *types.Named
	win    *charWin // the method reads characters, not tokens
	mods   map[*ssa.BasicBlock]*pxMods

	trackCalls bool
	calls      []pxCall // calls of other methods, with the position they are made at
}

// pxMods is what any arrival at a loop found its rounds to change; all arrivals then leave that open.
type pxMods struct {
	pos   bool
	phis  map[*ssa.Phi]bool
	mem   map[*T]bool
	early map[string]bool // arrivals cut with less
}

func (m *pxMods) key() string { return fmt.Sprintf("%v %d %d", m.pos, len(m.phis), len(m.mem)) }

var lexPosKey = mk("lexpos", "")

// mkBase names a point of the text; points between characters are numbers.
func mkBase(name string, chars bool) *T {
	if chars {
		return mkT(types.Typ[types.Int], "tb", name, mk("chars", ""))
	}
	return mk("tb", name)
}

func mkPos(base *T, n int) *T { return mk("pos", strconv.Itoa(n), base) }

func posOf(p *T) (*T, int) {
	n, _ := strconv.Atoi(p.s)
	return p.a[0], n
}

func (x *px) tok(base *T, n int) *T {
	return mkT(x.tokType(), "tok", strconv.Itoa(n), base)
}

func (x *px) tokType() types.Type {
	st := x.recvT.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == x.fcur {
			return st.Field(i).Type()
		}
	}
	return nil
}

func (x *px) setPos(st *State, base *T, n int) {
	if x.win != nil {
		x.win.set(st, x.recv, base, n)
		return
	}
	st.store(mkFaddr(x.recv, x.fcur), x.tok(base, n))
	st.store(mkFaddr(x.recv, x.fpeek), x.tok(base, n+1))
	st.mem[lexPosKey] = mkPos(base, n+2)
}

// curPos gives the position when current and next token are consecutive.
func (x *px) curPos(st *State) (*T, int, bool) {
	c := x.triple(st)
	if x.win != nil {
		return winPos(c)
	}
	if c[0].op != "tok" || c[1].op != "tok" {
		return nil, 0, false
	}
	n, _ := strconv.Atoi(c[0].s)
	b := c[0].a[0]
	if c[1] != x.tok(b, n+1) || c[2] != mkPos(b, n+2) {
		return nil, 0, false
	}
	return b, n, true
}

func (x *px) triple(st *State) [3]*T {
	if x.win != nil {
		return x.win.at(st, x.recv)
	}
	tt := x.tokType()
	return [3]*T{st.load(mkFaddr(x.recv, x.fcur), tt), st.load(mkFaddr(x.recv, x.fpeek), tt), st.mem[lexPosKey]}
}

// isNT says whether a call is one of another parse method.
func (x *px) isNT(fn *ssa.Function) bool {
	return fn != nil && recvNamed(fn) == x.recvT && x.nts[fn.Name()]
}

func recvNamed(fn *ssa.Function) *types.Named {
	r := fn.Signature.Recv()
	if r == nil {
		return nil
	}
	t := r.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

func (x *px) hook(fr *Frame, st *State, ci *CallInfo) ([]CallRes, bool) {
	e := x.e
	if x.win != nil {
		if r, ok := x.win.hook(st, ci); ok {
			return r, true
		}
	} else if ci.fn != nil && ci.fn.Name() == "NextToken" && isRepoFn(ci.fn) && ci.fn.Signature.Recv() != nil {
		p := st.mem[lexPosKey]
		b, n := posOf(p)
		st.mem[lexPosKey] = mkPos(b, n+1)
		return one(st, x.tok(b, n))
	}
	if isLogCall(ci.name) {
		return one(st, pxZero(ci.sig))
	}
	if ci.fn == nil {
		return nil, false
	}
	if x.isNT(ci.fn) {
		b, n, ok := x.curPos(st)
		if !ok {
			e.bail("%s is called while the token window is not consecutive", ci.fn.Name())
		}
		name := ci.fn.Name()
		pos := mkPos(b, n)
		if x.trackCalls {
			x.calls = append(x.calls, pxCall{name, stepPoint{b, n}, st.clone(), ci.pos})
		}
		var args, basic []*T
		for _, a := range ci.args[1:] {
			a = stripAs(st.reify(a, 0))
			args = append(args, a)
			if a.typ != nil {
				if _, ok := a.typ.Underlying().(*types.Basic); ok {
					basic = append(basic, a)
				}
			} else if a.isConst() {
				basic = append(basic, a)
			}
		}
		res := ci.fn.Signature.Results()
		hasErr := res.Len() > 0 && isErrorType(res.At(res.Len()-1).Type())
		vals := func(fail bool) *T {
			var vs []*T
			for i := 0; i < res.Len(); i++ {
				t := res.At(i).Type()
				switch {
				case i == res.Len()-1 && hasErr && fail:
					vs = append(vs, mkT(errType, "errf", "nt "+name, pos))
				case i == res.Len()-1 && hasErr:
					vs = append(vs, tNil)
				case fail:
					vs = append(vs, mkT(t, "opaque", "nt failed"))
				default:
					vs = append(vs, mkT(t, "ntret", name+"#"+strconv.Itoa(i), append([]*T{pos}, args...)...))
				}
			}
			if len(vs) == 1 {
				return vs[0]
			}
			return mk("tuple", "", vs...)
		}
		end := mkT(types.Typ[types.Int], "endpos", name, append([]*T{pos}, basic...)...)
		if !hasErr {
			x.setPos(st, end, 0)
			return one(st, vals(false))
		}
		atom := mkT(types.Typ[types.Bool], "nterr", name, append([]*T{pos}, basic...)...)
		var out []CallRes
		s1 := st.clone()
		if s1.assume(atom, true) {
			x.setPos(s1, mk("failpos", name, pos), 0)
			out = append(out, CallRes{st: s1, val: vals(true)})
		}
		if st.assume(atom, false) {
			x.setPos(st, end, 0)
			out = append(out, CallRes{st: st, val: vals(false)})
		}
		return out, true
	}
	if e.inline != nil && ci.fn != nil && e.inline(ci.fn, ci.args) {
		return nil, false
	}
	if isRepoFn(ci.fn) && e.opaque(ci.fn) && !objMethods[ci.fn.Name()] && e.neverNil(ci.fn) {
		v := e.opaqueCall(fr, st, ci)
		st.known[mkIsNil(v)] = false
		return one(st, v)
	}
	if len(ci.args) == 1 && isRepoFn(ci.fn) {
		if set, ok := e.predicateSet(ci.fn); ok {
			return one(st, mkIn(ci.args[0], set))
		}
	}
	return nil, false
}

func isLogCall(name string) bool {
	return strings.HasPrefix(name, "runtime.") || strings.Contains(name, "path/filepath.Short") ||
		strings.HasPrefix(name, "(*log.Logger)") || strings.HasPrefix(name, "("+modPath+"/pkg/logs.") || strings.HasPrefix(name, "(*"+modPath+"/pkg/logs.") ||
		strings.HasPrefix(name, modPath+"/pkg/logs.") || strings.HasPrefix(name, "m:Print") || strings.Contains(name, "pkg/logs")
}

func pxZero(sig *types.Signature) *T {
	if sig == nil || sig.Results().Len() == 0 {
		return mk("tuple", "")
	}
	var vs []*T
	for i := 0; i < sig.Results().Len(); i++ {
		vs = append(vs, mkT(sig.Results().At(i).Type(), "opaque", "log"))
	}
	if len(vs) == 1 {
		return vs[0]
	}
	return mk("tuple", "", vs...)
}

// mkIn: x is one of the constants of the set.
func mkIn(x *T, set []*T) *T {
	if x.isConst() {
		for _, c := range set {
			if c == x {
				return tTrue
			}
		}
		return tFalse
	}
	switch len(set) {
	case 0:
		return tFalse
	case 1:
		return mkEq(x, set[0])
	}
	s := append([]*T{}, set...)
	sort.Slice(s, func(i, j int) bool { return s[i].s < s[j].s })
	return mkT(types.Typ[types.Bool], "in", "", append([]*T{x}, s...)...)
}

type predSet struct {
	set []*T
	ok  bool
}

// predicateSet summarises a predicate on one string-like parameter as the set of constants it holds for.
func (e *Engine) predicateSet(fn *ssa.Function) ([]*T, bool) {
	if e.preds == nil {
		e.preds = map[*ssa.Function]predSet{}
	}
	if p, ok := e.preds[fn]; ok {
		return p.set, p.ok
	}
	e.preds[fn] = predSet{}
	sig := fn.Signature
	if sig.Results().Len() != 1 || len(fn.Params) != 1 || len(fn.Blocks) == 0 {
		return nil, false
	}
	if b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
		return nil, false
	}
	pt, ok := fn.Params[0].Type().Underlying().(*types.Basic)
	if !ok || pt.Kind() != types.String && pt.Kind() != types.Uint8 {
		return nil, false
	}
	e2 := newEngine(e.p)
	x := mkParam(fn.Params[0].Type(), "pred")
	rs, err := e2.Analyse(fn, newState(), []*T{x})
	if err != nil {
		return nil, false
	}
	// constants the predicate mentions, and one it does not
	cand := map[*T]bool{}
	for _, r := range rs {
		if r.kind != rRet || len(r.st.events) > 0 {
			return nil, false
		}
		for _, l := range append(append([]*T{}, r.st.lits...), r.vals...) {
			anyTerm(l, func(y *T) bool {
				if y.op == "str" {
					cand[y] = true
				}
				return false
			})
		}
	}
	if pt.Kind() == types.Uint8 {
		cand = map[*T]bool{}
		for i := 0; i < 256; i++ {
			cand[mkInt(int64(i))] = true
		}
	}
	eval := func(c *T) (bool, bool) {
		m := map[*T]*T{x: c}
		for _, r := range rs {
			all := true
			for _, l := range r.st.lits {
				v := subst(l, m)
				if v.op != "bool" {
					return false, false
				}
				if v == tFalse {
					all = false
					break
				}
			}
			if all {
				v := subst(r.vals[0], m)
				return v == tTrue, v.op == "bool"
			}
		}
		return false, false
	}
	if pt.Kind() == types.String {
		v, ok := eval(mkStr("\x00other"))
		if !ok || v {
			return nil, false
		}
	}
	var set []*T
	for c := range cand {
		v, ok := eval(c)
		if !ok {
			return nil, false
		}
		if v {
			set = append(set, c)
		}
	}
	sort.Slice(set, func(i, j int) bool { return set[i].id < set[j].id })
	e.preds[fn] = predSet{set, true}
	e.inl[fn] = true
	return set, true
}

// run analyses one method from a symbolic position.
func (x *px) run(fn *ssa.Function) (*pxRun, error) {
	st := newState()
	args := []*T{mkParam(fn.Params[0].Type(), "p")}
	x.recv = args[0]
	for i := 1; i < len(fn.Params); i++ {
		args = append(args, mkParam(fn.Params[i].Type(), "arg"+strconv.Itoa(i)))
	}
	x.setPos(st, mkBase("0", x.win != nil), 0)
	x.e.hook = x.hook
	x.e.cut = x.cutLoop
	x.mods = map[*ssa.BasicBlock]*pxMods{}
	var rs []Result
	for try := 0; ; try++ {
		x.backs = nil
		x.calls = nil
		for _, m := range x.mods {
			m.early = map[string]bool{}
		}
		var err error
		if rs, err = x.e.Analyse(fn, st.clone(), args); err != nil {
			return nil, err
		}
		again := false
		for _, m := range x.mods {
			for k := range m.early {
				again = again || k != m.key()
			}
		}
		if !again || try > 6 {
			break
		}
	}
	out := &pxRun{fn: fn}
	for _, r := range rs {
		it := &pxItem{st: r.st, pos: r.pos, fn: fn, cur: x.triple(r.st), enters: entersOf(r.st)}
		switch r.kind {
		case rPanic:
			it.kind = "panic"
		case rRet:
			it.kind = "ok"
			vals := r.vals
			if n := len(vals); n > 0 && isErrorType(fn.Signature.Results().At(n-1).Type()) {
				er := vals[n-1]
				vals = vals[:n-1]
				switch {
				case certainlyError(r.st, er):
					it.kind = "err"
				case certainlyNil(r.st, er):
				default:
					it.kind = "unknown"
				}
			}
			for _, v := range vals {
				it.vals = append(it.vals, stripAs(r.st.reify(v, 0)))
			}
			it.stores = x.stores(r.st)
		default:
			it.kind = "unknown"
		}
		out.items = append(out.items, it)
	}
	out.items = append(out.items, x.backs...)
	return out, nil
}

func entersOf(st *State) []*pxEnter {
	var out []*pxEnter
	for _, ev := range st.events {
		if ev.kind == "enter" {
			out = append(out, ev.px)
		}
	}
	return out
}

// stores lists what the path wrote outside the parser and outside objects it made.
func (x *px) stores(st *State) []*T {
	var out []*T
	for a, v := range st.mem {
		r := addrRoot(a)
		if a == lexPosKey || r == x.recv || r.op == "new" || r.op == "mkslice" || r.op == "nokey" || r.op == "iter" {
			continue
		}
		out = append(out, mk("store", "", a, stripAs(st.reify(v, 0))))
	}
	sort.Slice(out, func(i, j int) bool { return out[i].a[0].String() < out[j].a[0].String() })
	return out
}

func (x *px) cutLoop(fr *Frame, st *State, l *loop, ph map[*ssa.Phi]*T, ctx *loopCtx) []Result {
	e := x.e
	if x.peel > 0 && x.peeled[l.header] < x.peel {
		if x.peeled == nil {
			x.peeled = map[*ssa.BasicBlock]int{}
		}
		x.peeled[l.header]++
		rs := e.blockPhi(fr.clone(), st.clone(), l.header, clonePh(ph), &loopCtx{l})
		var out []Result
		for _, r := range rs {
			switch r.kind {
			case rCont:
				out = append(out, x.cutLoop(r.fr, r.st, l, e.phis(r.fr, l.header, r.from), ctx)...)
			case rExit:
				out = append(out, e.jump(r.fr, r.st, r.from, r.to, ctx)...)
			default:
				out = append(out, r)
			}
		}
		x.peeled[l.header]--
		return out
	}
	ord := len(entersOf(st))
	phis := sortedPhis(ph)
	if x.mods[l.header] == nil {
		x.mods[l.header] = &pxMods{phis: map[*ssa.Phi]bool{}, mem: map[*T]bool{}, early: map[string]bool{}}
	}
	mods := x.mods[l.header]
	modPhi := map[*ssa.Phi]bool{}
	modMem := map[*T]bool{}
	posMod := mods.pos
	for p := range mods.phis {
		modPhi[p] = true
	}
	for a := range mods.mem {
		modMem[a] = true
	}
	alloc0 := st.nalloc
	before := x.triple(st)
	name := map[any]string{}
	sym := func(key any, typ types.Type) *T {
		return mkT(typ, "cell", fmt.Sprintf("L%d.%s", ord, name[key]))
	}
	memAddrs := func() []*T {
		var as []*T
		for a := range modMem {
			as = append(as, a)
		}
		sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
		return as
	}
	memType := func(a *T) types.Type {
		if t := st.addrType(a); t != nil {
			return t
		}
		if v, ok := st.mem[a]; ok && v.typ != nil {
			return v.typ
		}
		return nil
	}
	nameCells := func() {
		cnt := map[string]int{}
		tn := func(t types.Type) string {
			if t == nil {
				return "?"
			}
			return types.TypeString(t, func(*types.Package) string { return "" })
		}
		for p := range modPhi {
			cnt[tn(p.Type())]++
		}
		for a := range modMem {
			cnt[tn(memType(a))]++
		}
		name = map[any]string{}
		used := map[string]int{}
		set := func(k any, t types.Type, hint string) {
			n := tn(t)
			if cnt[n] > 1 {
				n += "|" + hint
			}
			used[n]++
			if used[n] > 1 {
				n += "#" + strconv.Itoa(used[n])
			}
			name[k] = n
		}
		for _, p := range phis {
			if modPhi[p] {
				set(p, p.Type(), p.Comment)
			}
		}
		for _, a := range memAddrs() {
			h := a.op
			if a.op == "faddr" {
				h = a.s
			}
			set(a, memType(a), h)
		}
	}
	for round := 0; ; round++ {
		if round > 20 {
			e.bail("loop in %s does not stabilise", shortFn(fr.fn))
		}
		nameCells()
		mark := len(x.backs)
		f2, s2 := fr.clone(), st.clone()
		ph2 := clonePh(ph)
		en := &pxEnter{ord: ord, lits: append([]*T{}, st.lits...), cur: before, pos: loopPos(l), fn: fr.fn}
		type cell struct {
			n string
			v *T
		}
		var cells []cell
		for _, p := range phis {
			if modPhi[p] {
				cells = append(cells, cell{name[p], stripAs(st.reify(ph[p], 0))})
				ph2[p] = sym(p, p.Type())
			}
		}
		for _, a := range memAddrs() {
			t := memType(a)
			if t == nil {
				e.bail("loop in %s changes memory of unknown type", shortFn(fr.fn))
			}
			cells = append(cells, cell{name[a], stripAs(st.reify(st.load(a, t), 0))})
			s2.store(a, sym(a, t))
		}
		sort.Slice(cells, func(i, j int) bool { return cells[i].n < cells[j].n })
		for _, c := range cells {
			en.names = append(en.names, c.n)
			en.vals = append(en.vals, c.v)
		}
		head := before
		if posMod {
			if _, _, ok := x.curPos(st); !ok {
				e.bail("the token window is not consecutive at a loop in %s", shortFn(fr.fn))
			}
			x.setPos(s2, mkBase(fmt.Sprintf("L%d", ord), x.win != nil), x.delta)
			head = x.triple(s2)
		}
		s2.events = append(s2.events, &Event{kind: "enter", px: en, pos: en.pos, fn: fr.fn})
		headMem := make(map[*T]*T, len(s2.mem))
		for k, v := range s2.mem {
			headMem[k] = v
		}
		rs := e.blockPhi(f2, s2, l.header, ph2, &loopCtx{l})
		grown := false
		for _, r := range rs {
			if r.kind != rCont {
				continue
			}
			nph := e.phis(r.fr, l.header, r.from)
			for _, p := range phis {
				if !modPhi[p] && nph[p] != ph2[p] {
					modPhi[p] = true
					grown = true
				}
			}
			if !posMod && x.triple(r.st) != head {
				posMod = true
				grown = true
			}
			changed := func(a *T) {
				if a == lexPosKey || modMem[a] || a.op == "nokey" || a.op == "iter" {
					return
				}
				if addrRoot(a) == x.recv {
					if a.op == "faddr" && (a.s == x.fcur || a.s == x.fpeek || x.win != nil && x.win.field(a.s)) {
						return
					}
				}
				if rt := addrRoot(a); (rt.op == "new" || rt.op == "mkslice") && newNum(rt) > alloc0 {
					return
				}
				// a part of a cell already known, or a whole with known parts
				modMem[a] = true
				grown = true
			}
			for a, v := range r.st.mem {
				if hv, ok := headMem[a]; !ok || hv != v {
					changed(a)
				}
			}
			for a := range headMem {
				if _, ok := r.st.mem[a]; !ok {
					changed(a)
				}
			}
		}
		if grown {
			x.backs = x.backs[:mark]
			// drop parts of cells that are cells as a whole
			for a := range modMem {
				for b := a; b.op == "faddr" || b.op == "eaddr"; {
					b = b.a[0]
					if modMem[b] && b != a {
						delete(modMem, a)
						break
					}
				}
			}
			continue
		}
		mods.pos = posMod
		for p := range modPhi {
			mods.phis[p] = true
		}
		for a := range modMem {
			// only what lives beyond one arrival
			if rt := addrRoot(a); rt.op == "param" {
				mods.mem[a] = true
			}
		}
		mods.early[mods.key()] = true
		var out []Result
		for _, r := range rs {
			switch r.kind {
			case rCont:
				nph := e.phis(r.fr, l.header, r.from)
				it := &pxItem{kind: "back", header: l.header, st: r.st, ord: ord, enters: entersOf(r.st), cur: x.triple(r.st), pos: en.pos, fn: fr.fn}
				vals := map[string]*T{}
				for _, p := range phis {
					if modPhi[p] {
						vals[name[p]] = stripAs(r.st.reify(nph[p], 0))
					}
				}
				for _, a := range memAddrs() {
					vals[name[a]] = stripAs(r.st.reify(r.st.load(a, memType(a)), 0))
				}
				for _, n := range en.names {
					it.names = append(it.names, n)
					it.vals = append(it.vals, vals[n])
				}
				x.backs = append(x.backs, it)
			case rExit:
				out = append(out, e.jump(r.fr, r.st, r.from, r.to, ctx)...)
			default:
				out = append(out, r)
			}
		}
		return out
	}
}

func loopPos(l *loop) token.Pos {
	best := token.NoPos
	for b := range l.body {
		for _, in := range b.Instrs {
			if p := in.Pos(); p.IsValid() && (best == token.NoPos || p < best) {
				best = p
			}
		}
	}
	return best
}

// neverNil: the function has one pointer result that is never nil.
func (e *Engine) neverNil(fn *ssa.Function) bool {
	if e.nonNil == nil {
		e.nonNil = map[*ssa.Function]bool{}
	}
	if v, ok := e.nonNil[fn]; ok {
		return v
	}
	e.nonNil[fn] = false
	sig := fn.Signature
	if sig.Results().Len() != 1 || len(fn.Blocks) == 0 {
		return false
	}
	if _, ok := sig.Results().At(0).Type().Underlying().(*types.Pointer); !ok {
		return false
	}
	e2 := newEngine(e.p)
	rs, err := e2.Analyse(fn, newState(), e2.params(fn))
	if err != nil || len(rs) == 0 {
		return false
	}
	for _, r := range rs {
		if r.kind != rRet || mkIsNil(r.vals[0]) != tFalse {
			return false
		}
	}
	e.nonNil[fn] = true
	return true
}
