package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Comparison of the path sets of one parse method and its reference. Two paths that can be taken on the same
// tokens must end the same way: both reject, or both stop at the same token with the same results; at loop heads
// they must carry the same values. By induction over the rounds of the loops and the nesting of the calls the
// methods then agree on every text.

type pxDiff struct {
	class string // "accept", "reject", "position", "flow", "value", "panic"
	msg   string
	pos   token.Pos
	fn    *ssa.Function
}

type pxResult struct {
	diffs   []pxDiff
	undec   map[string]bool
	cases   int
	struct_ bool // the loops of the two do not line up
	cells   bool // the loops of the two carry different values
	open    bool // the values carried by one side only were not followed to the end
	delta   int
}

type pxCmp struct {
	x       *px
	e       *Engine
	code    *pxRun
	spec    *pxRun
	delta   int
	reverse bool
	res     *pxResult
	entMemo map[string][]*pxCtx
	stCache map[any]*State
	last    [2]*T // the values of the last difference
	start   time.Time
	mode    int // pxPlain, pxExtra, pxConcrete
	chars   bool
}

func litsState(lits []*T, known map[*T]bool) *State {
	s := newState()
	for k, v := range known {
		s.known[k] = v
	}
	for _, l := range lits {
		s.assume(l, true)
	}
	return s
}

func (c *pxCmp) base(it *pxItem, i int) *State {
	var key any = it
	if i < len(it.enters) {
		key = it.enters[i]
	}
	if s, ok := c.stCache[key]; ok {
		return s
	}
	var s *State
	if i < len(it.enters) {
		s = litsState(it.enters[i].lits, nil)
	} else {
		s = litsState(it.st.lits, it.st.known)
	}
	c.stCache[key] = s
	return s
}

func litsAt(it *pxItem, i int) []*T {
	if i < len(it.enters) {
		return it.enters[i].lits
	}
	return it.st.lits
}

// joint is the state in which both paths are possible; nil when there is none.
func (c *pxCmp) joint(p *pxItem, q *pxItem, i int, x *pxCtx) *State {
	if !x.empty() {
		return c.jointIn(p, q, i, x)
	}
	s := c.base(p, i).clone()
	for _, l := range litsAt(q, i) {
		if !s.assume(l, true) {
			return nil
		}
	}
	return s
}

func (c *pxCmp) run() {
	c.entMemo = map[string][]*pxCtx{}
	c.stCache = map[any]*State{}
	for _, p := range c.code.items {
		for _, q := range c.spec.items {
			if c.late() {
				return
			}
			c.walk(p, q, 0, &pxCtx{})
			if len(c.res.diffs) > 0 && c.mode != pxPlain {
				return
			}
		}
	}
}

func (c *pxCmp) diff(class string, it *pxItem, pos token.Pos, s *State, format string, a ...any) {
	for _, d := range c.res.diffs {
		if d.class == class {
			return
		}
	}
	msg := fmt.Sprintf(format, a...)
	var ls []string
	for _, l := range s.lits {
		ls = append(ls, pxText(l))
	}
	if len(ls) > 14 {
		ls = append([]string{"…"}, ls[len(ls)-14:]...)
	}
	c.res.diffs = append(c.res.diffs, pxDiff{class: class, msg: msg + " when " + strings.Join(ls, ", "), pos: pos, fn: it.fn})
}

// walk goes along the loops both paths enter and compares their ends.
func (c *pxCmp) walk(p, q *pxItem, i int, x *pxCtx) {
	pe, qe := i < len(p.enters), i < len(q.enters)
	if pe && qe {
		for _, y := range c.enter(p, q, i, x) {
			if c.late() {
				return
			}
			c.walk(p, q, i+1, y)
		}
		return
	}
	s := c.joint(p, q, i, x)
	if s == nil {
		return
	}
	c.res.cases++
	if pe != qe {
		c.res.struct_ = true
		what := "reads on in a loop where the grammar does not"
		if qe {
			what = c.kindText(p) + " where the grammar repeats"
		}
		c.diff("flow", p, pxPos(p, i), s, "%s", what)
		return
	}
	c.final(p, q, s, x)
}

func pxPos(p *pxItem, i int) token.Pos {
	if i < len(p.enters) {
		return p.enters[i].pos
	}
	return p.pos
}

func (c *pxCmp) kindText(p *pxItem) string {
	switch p.kind {
	case "err":
		return "rejects the text"
	case "ok":
		return "accepts and stops"
	case "back":
		return "goes on with the next round"
	case "panic":
		return "panics"
	}
	return "ends in a way that is not known"
}

// enter compares the arrival at a loop; it returns the ways in which the values only one side carries can stand at
// its head, none when the paths do not get there together or differ.
func (c *pxCmp) enter(p, q *pxItem, i int, x *pxCtx) []*pxCtx {
	a, b := p.enters[i], q.enters[i]
	key := fmt.Sprintf("%p %p %s", a, b, x.key)
	if r, ok := c.entMemo[key]; ok {
		return r
	}
	r := c.enter1(p, q, i, x)
	c.entMemo[key] = r
	return r
}

func (c *pxCmp) enter1(p, q *pxItem, i int, x *pxCtx) []*pxCtx {
	s := c.joint(p, q, i, x)
	if s == nil {
		return nil
	}
	a, b := p.enters[i], q.enters[i]
	if strings.Join(a.names, " ") != strings.Join(b.names, " ") {
		c.res.cells = true
		if c.mode == pxPlain {
			c.res.undec[fmt.Sprintf("the loop at %s carries %v, the reference %v", c.e.p.pos(a.pos), a.names, b.names)] = true
			c.res.struct_ = true
			return nil
		}
	}
	if d, ok := posDelta(a.cur, b.cur); !ok || d != c.delta {
		if ok && c.delta == 0 {
			c.res.delta = d
		}
		c.res.struct_ = true
		c.diff("position", p, a.pos, s, "the loop starts at %s, the grammar at %s", pxText(a.cur[0]), pxText(b.cur[0]))
		return nil
	}
	bv := map[string]*T{}
	for k, n := range b.names {
		bv[n] = x.sub(b.vals[k], false)
	}
	for k, n := range a.names {
		w, ok := bv[n]
		if !ok {
			continue
		}
		v := x.sub(a.vals[k], true)
		if d, und := c.values(s, v, w, n); und != "" {
			c.res.undec[und] = true
			return nil
		} else if d != "" {
			c.valueDiff(p, a.pos, s, "before the loop "+d, v, w)
			return nil
		}
	}
	return c.contexts(a, b, i, x)
}

// valueDiff reports a value that differs; when it lacks text the reference keeps, that text was dropped.
func (c *pxCmp) valueDiff(p *pxItem, pos token.Pos, s *State, msg string, a, b *T) {
	c.diff("value", p, pos, s, "%s", msg)
	if lost := pxLost(a, b); lost != nil {
		c.diff("drop", p, pos, s, "%s is read but not kept", pxText(lost))
	}
}

// pxLost finds text the reference value keeps and the other does not.
func pxLost(a, b *T) *T {
	has := map[*T]bool{}
	leaf := func(x *T) bool { return x.op == "tok" || x.op == "ntret" || x.op == "cell" }
	anyTerm(a, func(x *T) bool {
		if leaf(x) {
			has[x] = true
		}
		return false
	})
	var lost *T
	var walk func(x *T)
	seen := map[*T]bool{}
	walk = func(x *T) {
		if lost != nil || seen[x] {
			return
		}
		seen[x] = true
		if leaf(x) {
			if !has[x] {
				lost = x
			}
			return // not the positions inside
		}
		for _, y := range x.a {
			walk(y)
		}
	}
	walk(b)
	return lost
}

// posDelta: both windows are at the same point up to a constant number of tokens.
func posDelta(a, b [3]*T) (int, bool) {
	if a == b {
		return 0, true
	}
	d := 0
	for i := range a {
		if a[i] == nil || b[i] == nil || a[i].op != b[i].op || a[i].op != "tok" && a[i].op != "pos" || a[i].a[0] != b[i].a[0] {
			return 0, false
		}
		n, _ := strconv.Atoi(a[i].s)
		m, _ := strconv.Atoi(b[i].s)
		if i > 0 && n-m != d {
			return 0, false
		}
		d = n - m
	}
	return d, true
}

// values compares two results in a state; it returns a difference, or why it cannot be decided.
func (c *pxCmp) values(s *State, a, b *T, at string) (string, string) {
	if c.chars {
		a, b = afterSkips(s, fixChars(s, a)), afterSkips(s, fixChars(s, b))
	}
	if a == b {
		return "", ""
	}
	if c.chars && textPart(a) != textPart(b) && (c.mode != pxPlain || a.op != "str" && b.op != "str") {
		return "", "a result made up character by character: " + short(a)
	}
	if pxUnknown(a) || pxUnknown(b) {
		return "", "a result depends on something the summary leaves open: " + short(a)
	}
	cm := newCmp(c.e)
	cm.maxRuns = 4000
	cm.maxDiffs = 1
	sa := &Summary{name: at, traces: []*Trace{{kind: rRet, vals: []*T{a}}}}
	sb := &Summary{name: at, traces: []*Trace{{kind: rRet, vals: []*T{b}}}}
	cm.explore(&model{st: s.clone(), size: map[*T]int{}}, sa, sb, 0)
	if len(cm.diffs) > 0 {
		return strings.Replace(pxClean(cm.diffs[0].what), "result 0", at, 1), ""
	}
	for _, u := range sortedKeys(cm.undec) {
		return "", u
	}
	return "", ""
}

func textPart(t *T) bool { return t.op == "slice" && t.a[0] == charText }

// pxUnknown: the value mentions the parser itself beyond its token window.
func pxUnknown(t *T) bool {
	return anyTerm(t, func(x *T) bool { return x.op == "param" && x.s == "p" || x.op == "failpos" })
}

func (c *pxCmp) outcome(p, q *pxItem, s *State) (class, msg, und string) {
	c.last = [2]*T{}
	if p.kind == "unknown" || q.kind == "unknown" {
		return "", "", "it is not known whether a path of " + c.code.fn.Name() + " succeeds"
	}
	if p.kind != q.kind || p.kind == "back" && p.ord != q.ord {
		switch {
		case p.kind == "panic":
			return "panic", "panics", ""
		case q.kind == "err":
			return "accept", c.kindText(p) + ", which the grammar rejects", ""
		case p.kind == "err":
			return "reject", "rejects what the grammar allows", ""
		}
		return "flow", c.kindText(p) + " where the grammar " + map[string]string{"ok": "ends", "back": "goes on with the next round", "panic": "panics"}[q.kind], ""
	}
	if p.kind == "err" || p.kind == "panic" {
		return "", "", ""
	}
	want := 0
	if p.kind == "back" {
		want = c.delta
	}
	pc, qc := p.cur, q.cur
	if c.chars && p.kind == "ok" && pc != qc {
		for i := range pc {
			pc[i], qc[i] = afterSkips(s, pc[i]), afterSkips(s, qc[i])
		}
	}
	if d, ok := posDelta(pc, qc); (!ok || d != want) && !(c.chars && atEnd(s, p.cur) && atEnd(s, q.cur)) {
		return "position", fmt.Sprintf("stops at %s, the grammar at %s", pxText(p.cur[0]), pxText(q.cur[0])), ""
	}
	if len(p.vals) != len(q.vals) {
		return "", "", "different numbers of results"
	}
	for k := range p.vals {
		name := fmt.Sprintf("result %d", k)
		if p.kind == "back" {
			name = "value carried (" + p.names[k] + ")"
		}
		if d, und := c.values(s, p.vals[k], q.vals[k], name); und != "" {
			return "", "", und
		} else if d != "" {
			c.last = [2]*T{p.vals[k], q.vals[k]}
			return "value", "records differently: " + d, ""
		}
	}
	if p.kind == "ok" {
		if len(p.stores) != len(q.stores) {
			if len(p.stores) > len(q.stores) {
				return "value", "changes an argument: " + pxText(p.stores[0].a[0]), ""
			}
			return "value", "does not set " + pxText(q.stores[0].a[0]), ""
		}
		for k := range p.stores {
			a, b := p.stores[k], q.stores[k]
			if a.a[0] != b.a[0] {
				return "value", "sets " + pxText(a.a[0]) + " instead of " + pxText(b.a[0]), ""
			}
			if d, und := c.values(s, a.a[1], b.a[1], pxText(a.a[0])); und != "" {
				return "", "", und
			} else if d != "" {
				c.last = [2]*T{a.a[1], b.a[1]}
				return "value", d, ""
			}
		}
	}
	return "", "", ""
}

// final compares the ends of two paths; when the reference needs several rounds of a loop for one of the code it
// follows up to three of them.
func (c *pxCmp) final(p, q *pxItem, s *State, x *pxCtx) {
	p0 := p
	if c.mode != pxPlain {
		p, q = c.inCtx(p, q, x)
	}
	class, msg, und := c.outcome(p, q, s)
	if und != "" {
		c.res.undec[und] = true
		return
	}
	if class == "" {
		return
	}
	last := c.last
	if q.kind == "back" && c.mode == pxPlain && c.follow(p, q, s, 2) {
		return
	}
	if class == "value" && last[0] != nil {
		c.valueDiff(p0, p.pos, s, msg, last[0], last[1])
		return
	}
	c.diff(class, p0, p.pos, s, "%s", msg)
}

// follow takes further rounds of the reference from where q left off and looks for agreement on every branch.
func (c *pxCmp) follow(p, q *pxItem, s *State, depth int) bool {
	if depth == 0 {
		return false
	}
	en := q.enters[len(q.enters)-1]
	if q.ord != en.ord {
		return false
	}
	b, n, ok := winPos(q.cur)
	if !ok {
		return false
	}
	m := &pxShift{head: mkBase(fmt.Sprintf("L%d", en.ord), c.chars), base: b, n: n, cells: map[string]*T{}, memo: map[*T]*T{}}
	for k, nm := range q.names {
		m.cells[fmt.Sprintf("L%d.%s", en.ord, nm)] = q.vals[k]
	}
	any := false
	inPrefix := map[*T]bool{}
	for _, l := range en.lits {
		inPrefix[l] = true
	}
	for _, r := range c.spec.items {
		if len(r.enters) == 0 || r.enters[len(r.enters)-1] != en {
			for _, x := range r.enters {
				if x == en {
					return false // an inner loop: not followed
				}
			}
			continue
		}
		s2 := s.clone()
		ok := true
		for _, l := range r.st.lits {
			if inPrefix[l] {
				continue
			}
			if !s2.assume(m.do(l), true) {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		any = true
		r2 := &pxItem{kind: r.kind, st: s2, enters: r.enters, ord: r.ord, names: r.names, pos: r.pos, fn: r.fn}
		for _, v := range r.vals {
			r2.vals = append(r2.vals, m.do(v))
		}
		for _, v := range r.stores {
			r2.stores = append(r2.stores, m.do(v))
		}
		for k := range r.cur {
			r2.cur[k] = m.do(r.cur[k])
		}
		class, _, und := c.outcome(p, r2, s2)
		if und != "" {
			return false
		}
		if class != "" && !(r2.kind == "back" && c.follow(p, r2, s2, depth-1)) {
			return false
		}
	}
	return any
}

func winPos(cur [3]*T) (*T, int, bool) {
	if cur[0] == nil || cur[0].op != "tok" || cur[1].op != "tok" || cur[2].op != "pos" {
		return nil, 0, false
	}
	n, _ := strconv.Atoi(cur[0].s)
	n1, _ := strconv.Atoi(cur[1].s)
	n2, _ := strconv.Atoi(cur[2].s)
	if n1 != n+1 || n2 != n+2 || cur[1].a[0] != cur[0].a[0] || cur[2].a[0] != cur[0].a[0] {
		return nil, 0, false
	}
	return cur[0].a[0], n, true
}

// pxShift moves terms about a loop head to a later point of the text.
type pxShift struct {
	head, base *T
	n          int
	cells      map[string]*T
	memo       map[*T]*T
}

func (m *pxShift) do(t *T) *T {
	if y, ok := m.memo[t]; ok {
		return y
	}
	y := t
	switch {
	case t == m.head && len(t.a) > 0:
		y = mkAdd(m.base, int64(m.n))
	case t.op == "cell":
		if v, ok := m.cells[t.s]; ok {
			y = v
		}
	case (t.op == "tok" || t.op == "pos") && t.a[0] == m.head:
		k, _ := strconv.Atoi(t.s)
		y = mkT(t.typ, t.op, strconv.Itoa(k+m.n), m.base)
	case len(t.a) > 0:
		args := make([]*T, len(t.a))
		ch := false
		for i, x := range t.a {
			args[i] = m.do(x)
			ch = ch || args[i] != x
		}
		if ch {
			y = rebuild(t, args)
		}
	}
	m.memo[t] = y
	return y
}

// ---- all methods of a dialect ----

type pxDialect struct {
	name       string
	p          *Prog
	code, spec map[string]*ssa.Function
	cn, sn     *types.Named
	cc, ck     string
	shared     map[*ssa.Function]bool
	nts        map[string]bool
	err        string
	root       string
	cw, sw     *charWin // lexers: the windows of the two
}

func isParseName(n string) bool { return strings.HasPrefix(n, "parse") || n == "Parse" }

func loadPx(p *Prog, broken map[string]string, d string) *pxDialect {
	x := &pxDialect{name: d, p: p, root: "Parse", nts: map[string]bool{}, shared: map[*ssa.Function]bool{}}
	if why, ok := broken[d+"_parse"]; ok {
		x.err = "the reference grammar does not fit the current source: " + why
		return x
	}
	pkg := specPkgs[d]
	x.cn, x.cc, x.ck = parserOf(p, pkg, "Parser")
	x.sn, _, _ = parserOf(p, pkg, "verifP")
	if x.cn == nil || x.sn == nil || x.cc == "" {
		x.err = "no parser with a window of two tokens in " + pkg
		return x
	}
	x.code, x.spec = methodsOf(p, x.cn), methodsOf(p, x.sn)
	for n, s := range x.spec {
		if c := x.code[n]; c != nil && strings.HasPrefix(n, "parse") && sameSig(c, s) {
			x.nts[n] = true
		}
	}
	for n, s := range x.spec {
		if !isParseName(n) {
			continue
		}
		eachCall(s, func(in ssa.CallInstruction) {
			if f := in.Common().StaticCallee(); f != nil && isRepoFn(f) && recvNamed(f) != x.sn && !strings.HasPrefix(f.Name(), "verif") {
				x.shared[f] = true
			}
		})
	}
	return x
}

func sameSig(a, b *ssa.Function) bool {
	p, q := a.Signature, b.Signature
	return types.Identical(p.Params(), q.Params()) && types.Identical(p.Results(), q.Results())
}

func (d *pxDialect) run(e *Engine, name string, spec bool, nts map[string]bool, delta, peel int) (*pxRun, error) {
	x := &px{e: e, recvT: d.cn, fcur: d.cc, fpeek: d.ck, nts: nts, delta: delta, peel: peel}
	fn := d.code[name]
	if spec {
		x.recvT, x.fcur, x.fpeek = d.sn, "currentToken", "peekToken"
		fn = d.spec[name]
	}
	if d.cw != nil {
		x.win = d.cw
		if spec {
			x.win = d.sw
		}
		e.opaque = func(*ssa.Function) bool { return false }
		return x.run(fn)
	}
	e.opaque = func(f *ssa.Function) bool { return pxOpaque(x, f, d.shared) }
	e.inline = pxInline
	return x.run(fn)
}

// compare decides one method; nts are the calls taken as given.
func (d *pxDialect) compare(r *Rep, name string, nts map[string]bool) *pxResult {
	return d.compare1(r, name, nts, false)
}

// callees are the methods of the type that fn calls, itself or through helpers.
func (d *pxDialect) callees(fn *ssa.Function, own *types.Named) map[string]bool {
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		eachCall(f, func(in ssa.CallInstruction) {
			if g := in.Common().StaticCallee(); g != nil && recvNamed(g) == own {
				out[g.Name()] = true
				if !d.nts[g.Name()] {
					walk(g)
				}
			}
		})
	}
	walk(fn)
	return out
}

func (d *pxDialect) compare1(r *Rep, name string, nts map[string]bool, inlined bool) *pxResult {
	type variant struct {
		delta, cp, sp int
		rev           bool
		mode          int
		align         int
		cutAll        bool // cut the loops that count, too
	}
	var first *pxResult
	tried := map[variant]bool{}
	try := func(v variant) *pxResult {
		if tried[v] {
			return nil
		}
		tried[v] = true
		e := newEngine(d.p)
		res := &pxResult{undec: map[string]bool{}}
		spec, err := d.run(e, name, true, nts, 0, v.sp)
		if err != nil {
			res.undec["reference: "+err.Error()] = true
			return res
		}
		e.cutAll = v.cutAll
		code, err := d.run(e, name, false, nts, v.delta, v.cp)
		if err != nil {
			res.undec[err.Error()] = true
			return res
		}
		a, b := code, spec
		if v.rev {
			a, b = spec, code
		}
		c := &pxCmp{e: e, code: a, spec: b, res: res, delta: v.delta, mode: v.mode, chars: d.cw != nil}
		if v.align > 0 && !c.align(v.align-1) {
			return nil
		}
		if v.rev {
			c.delta = -v.delta
		}
		if v.mode != pxPlain {
			c.start = time.Now()
		}
		c.run()
		if v.mode != pxPlain {
			pxSpent += time.Since(c.start)
		}
		if r != nil {
			r.useEngine(e)
		}
		return res
	}
	good := func(x *pxResult) bool { return x != nil && len(x.diffs) == 0 && len(x.undec) == 0 && x.cases > 0 }
	first = try(variant{})
	if good(first) {
		return first
	}
	if !inlined {
		// a method one side calls and the other has in place is looked through on both
		a, b := d.callees(d.code[name], d.cn), d.callees(d.spec[name], d.sn)
		both := map[string]bool{}
		for n := range nts {
			if a[n] == b[n] || n == name {
				both[n] = true
			}
		}
		if len(both) < len(nts) {
			x := d.compare1(r, name, both, true)
			if good(x) || len(x.diffs) > 0 && first.struct_ {
				return x
			}
		}
	}
	if len(first.diffs) == 0 && !first.struct_ {
		return first
	}
	vs := []variant{{rev: true}}
	if first.delta != 0 {
		vs = append(vs, variant{delta: first.delta}, variant{delta: first.delta, rev: true})
	}
	if first.struct_ {
		vs = append(vs, variant{cp: 1, sp: 1}, variant{sp: 1}, variant{cp: 1}, variant{cp: 1, sp: 1, rev: true})
	}
	decided := !first.struct_ && len(first.diffs) > 0
	for _, v := range vs {
		x := try(v)
		if good(x) {
			return x
		}
		if x != nil && len(x.diffs) > 0 && !x.struct_ && !v.rev {
			decided = true
		}
	}
	cells, all := first.cells, false
	if !decided && !cells {
		if x := try(variant{cutAll: true}); good(x) {
			return x
		} else if x != nil && x.cells {
			cells, all = true, true
		}
	}
	if cells {
		// the two keep what they carry around the loop in different places
		for n := 1; n <= 6; n++ {
			x := try(variant{align: n, cutAll: all})
			if x == nil {
				break
			}
			if good(x) {
				return x
			}
		}
		if x := try(variant{mode: pxIgnore, cutAll: all}); good(x) {
			return x
		}
		if x := try(variant{mode: pxExtra, cutAll: all}); good(x) && !x.open {
			return x
		}
		if x := try(variant{mode: pxConcrete, cutAll: all}); x != nil && len(x.diffs) > 0 && !x.struct_ {
			return x
		}
	}
	if !decided && first.delta == 0 {
		why := "the loops do not line up with the reference"
		for _, g := range first.diffs {
			why += ": " + g.msg
		}
		first.undec[why] = true
		first.diffs = nil
	}
	return first
}

// decide compares all methods of the dialect, looking through methods that differ only in how they share the work
// with their callers.
func (d *pxDialect) decide(r *Rep) map[string]*pxResult {
	out := map[string]*pxResult{}
	var names []string
	if !d.nts[d.root] {
		names = []string{d.root}
	}
	for n := range d.nts {
		names = append(names, n)
	}
	sort.Strings(names)
	bad := map[string]bool{}
	for _, n := range names {
		if d.code[n] == nil || d.spec[n] == nil {
			out[n] = &pxResult{undec: map[string]bool{"no such method": true}}
			continue
		}
		out[n] = d.compare(r, n, d.nts)
		if len(out[n].diffs) > 0 {
			bad[n] = true
		}
	}
	// a differing method is cleared when every caller agrees with the grammar once it is looked through
	for round := 0; round < 4 && len(bad) > 0 && !bad[d.root]; round++ {
		nts := map[string]bool{}
		for n := range d.nts {
			if !bad[n] {
				nts[n] = true
			}
		}
		more := false
		okAll := true
		for _, n := range names {
			if bad[n] || !d.calls(n, bad) {
				continue
			}
			res := d.compare(nil, n, nts)
			if len(res.diffs) > 0 || len(res.undec) > 0 || res.cases == 0 {
				okAll = false
				if !bad[n] && n != d.root && len(res.diffs) > 0 {
					bad[n] = true
					more = true
				}
			}
		}
		if okAll {
			for n := range bad {
				if len(out[n].diffs) > 0 {
					out[n].diffs = nil
				}
			}
			break
		}
		if !more {
			break
		}
	}
	return out
}

func (d *pxDialect) calls(n string, set map[string]bool) bool {
	hit := false
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function, own *types.Named, ms map[string]*ssa.Function)
	walk = func(f *ssa.Function, own *types.Named, ms map[string]*ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		eachCall(f, func(in ssa.CallInstruction) {
			g := in.Common().StaticCallee()
			if g == nil || recvNamed(g) != own {
				return
			}
			if set[g.Name()] {
				hit = true
			} else if !d.nts[g.Name()] {
				walk(g, own, ms)
			}
		})
	}
	walk(d.code[n], d.cn, d.code)
	walk(d.spec[n], d.sn, d.spec)
	return hit
}

func pxClean(s string) string { return s }

// pxText shows a term about tokens in words.
func pxText(t *T) string {
	s := pxT(t)
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 220 {
		s = s[:220] + "…"
	}
	return s
}

func pxT(t *T) string {
	switch t.op {
	case "not":
		return "not " + pxT(t.a[0])
	case "eq":
		return pxT(t.a[0]) + "=" + pxT(t.a[1])
	case "in":
		var xs []string
		for _, x := range t.a[1:] {
			xs = append(xs, x.s)
		}
		return pxT(t.a[0]) + " in {" + strings.Join(xs, " ") + "}"
	case "str":
		return t.s
	case "fld":
		if t.a[0].op == "tok" && t.s == "Type" {
			return pxT(t.a[0])
		}
		return pxT(t.a[0]) + "." + t.s
	case "faddr":
		return pxT(t.a[0]) + "." + t.s
	case "param":
		return t.s
	case "tok", "pos":
		w := "token " + t.s
		if charBase(t.a[0]) {
			w = "character " + t.s
		}
		switch b := t.a[0]; {
		case b.op == "endpos":
			w += " after " + b.s
		case b.op == "tb" && b.s != "0":
			w += " of the round"
		}
		return w
	case "nterr":
		return t.s + " at " + strings.TrimPrefix(pxT(t.a[0]), "token ") + " fails"
	case "isnil":
		return pxT(t.a[0]) + " is nil"
	}
	return strings.ReplaceAll(t.String(), "github.com/kunitsucom/ddlctl/pkg/", "")
}
