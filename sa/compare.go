package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Comparison of two derived summaries (term traces) of functions with the same parameters: one of ddlctl's
// code, one of the reference definition. Both are functions of the same symbolic inputs; the comparison splits
// cases on the atoms either of them depends on (and on the lengths of the lists they walk) and requires the same
// value in every case. Nothing is executed: list summaries are per-element maps, existence and first-match
// terms, so lengths up to two separate any two of them.

// Summary is the set of traces of one function.
type Summary struct {
	name   string
	fn     *ssa.Function
	traces []*Trace
}

type Trace struct {
	lits []*T
	kind int
	vals []*T
	ev   []*Event
}

var objMethods = map[string]bool{"String": true, "StringForDiff": true, "GoString": true, "GetNameForDiff": true, "GetName": true, "PlainString": true}

// stringers are kept opaque in summaries; the comparison looks into them only where it has to.
func stringerOpaque(entry *ssa.Function) func(*ssa.Function) bool {
	return func(fn *ssa.Function) bool {
		return fn != entry && fn.Signature.Recv() != nil && objMethods[fn.Name()]
	}
}

func summarise(e *Engine, fn *ssa.Function, args []*T) (*Summary, error) {
	old := e.opaque
	so := stringerOpaque(fn)
	e.opaque = func(f *ssa.Function) bool { return f != fn && (so(f) || old(f)) }
	defer func() { e.opaque = old }()
	if args == nil {
		args = e.params(fn)
	}
	rs, err := e.Analyse(fn, newState(), args)
	if err != nil {
		return nil, err
	}
	s := &Summary{name: shortFn(fn), fn: fn}
	for _, r := range rs {
		t := &Trace{kind: r.kind, ev: r.st.events}
		for _, l := range r.st.lits {
			t.lits = append(t.lits, r.st.reify(l, 0))
		}
		for _, v := range r.vals {
			t.vals = append(t.vals, r.st.reifyResult(v))
		}
		s.traces = append(s.traces, t)
	}
	return s, nil
}

// model is one case: decided atoms and list lengths.
type model struct {
	st   *State
	size map[*T]int
	trk  []string
}

func (m *model) clone() *model {
	n := &model{st: m.st.clone(), size: make(map[*T]int, len(m.size)), trk: append([]string{}, m.trk...)}
	for k, v := range m.size {
		n.size[k] = v
	}
	return n
}

type forkReq struct {
	atom *T
	coll *T
}
type cmpNoCase struct{}
type cmpSkip struct{ why string }
type cmpUndecided struct{ why string }

type Cmp struct {
	e         *Engine
	p         *Prog
	sizes     func(coll *T) []int
	prefer    func(atom *T) (bool, bool) // fixes an atom instead of splitting on it
	skipFld   map[string]bool
	filter    func(c *Cmp, code, spec []*T) ([]*T, []*T)
	m         *model
	memo      map[*T]*T
	folds     map[*T][][]*T
	inst      map[atKey]*T
	sums      map[string]*Summary
	leaves    int
	runs      int
	maxRuns   int
	undec     map[string]bool
	diffs     []cmpDiff
	maxDiffs  int
	covered   map[string]bool
	codeFirst bool
	tag       string
}

type cmpDiff struct {
	what  string
	where string
	cond  []string
}

func newCmp(e *Engine) *Cmp {
	return &Cmp{e: e, p: e.p, sums: map[string]*Summary{}, inst: map[atKey]*T{}, undec: map[string]bool{}, maxRuns: 60000, maxDiffs: 3,
		skipFld: map[string]bool{}, covered: map[string]bool{}, sizes: func(*T) []int { return []int{0, 1, 2} }}
}

// Equal explores all cases and records where code and spec differ.
func (c *Cmp) Equal(code, spec *Summary) {
	c.explore(&model{st: newState(), size: map[*T]int{}}, code, spec, 0)
}

func (c *Cmp) explore(m *model, code, spec *Summary, depth int) {
	if len(c.diffs) >= c.maxDiffs {
		return
	}
	c.runs++
	if c.runs > c.maxRuns || depth > 400 {
		c.undec["case budget exhausted comparing "+code.name] = true
		return
	}
	c.m = m
	c.memo = map[*T]*T{}
	c.folds = nil
	var req *forkReq
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case forkReq:
					req = &x
				case cmpSkip:
				case cmpNoCase:
					c.undec["no case of a loop summary applies"] = true
				case cmpUndecided:
					c.undec[x.why] = true
				default:
					panic(r)
				}
			}
		}()
		c.leaf(code, spec)
	}()
	if req == nil {
		return
	}
	if req.coll != nil {
		any := false
		for _, n := range c.sizes(req.coll) {
			if !sizeAllowed(m.st, req.coll, n) {
				continue
			}
			any = true
			x := m.clone()
			x.size[req.coll] = n
			x.trk = append(x.trk, fmt.Sprintf("len(%s)=%d", short(req.coll), n))
			c.explore(x, code, spec, depth+1)
		}
		if !any {
			c.undec["no length tried for "+short(req.coll)+" is possible here"] = true
		}
		return
	}
	if a := req.atom; a.op == "eq" && composite(a.a[0]) && composite(a.a[1]) {
		// whether two composed texts coincide does not follow from their parts
		c.undec["a condition compares composed texts: "+short(req.atom)] = true
		return
	}
	if unknown(req.atom) {
		c.undec["a condition depends on a value the summary leaves open: "+short(req.atom)] = true
		return
	}
	vals := []bool{true, false}
	if c.prefer != nil {
		if v, ok := c.prefer(req.atom); ok {
			vals = []bool{v}
		}
	}
	for _, v := range vals {
		x := m.clone()
		if !x.st.assume(req.atom, v) {
			continue
		}
		s := short(req.atom)
		if !v {
			s = "not " + s
		}
		x.trk = append(x.trk, s)
		c.explore(x, code, spec, depth+1)
	}
}

func (c *Cmp) leaf(code, spec *Summary) {
	st := c.pick(spec)
	if st == nil {
		panic(cmpSkip{"no specification case"})
	}
	if st.kind == rPanic {
		panic(cmpSkip{"outside the specification's precondition"})
	}
	ct := c.pick(code)
	if ct == nil {
		if os.Getenv("DBG") != "" {
			fmt.Println("uncovered:", strings.Join(c.m.trk, "\n   "))
			for _, t := range code.traces {
				for _, l := range t.lits {
					ok := "?"
					func() {
						defer func() {
							if r := recover(); r != nil {
								ok = fmt.Sprintf("%T", r)
							}
						}()
						ok = fmt.Sprint(c.truth(l))
					}()
					if ok != "true" {
						fmt.Println("  trace fails at", ok, short(l))
						break
					}
				}
			}
		}
		panic(cmpUndecided{"no derived trace of " + code.name + " covers a case"})
	}
	c.leaves++
	if ct.kind != st.kind {
		k := "panics"
		if ct.kind == rRet {
			k = "returns"
		}
		c.diff(code.name+" "+k, "")
		return
	}
	if c.filter != nil {
		a, b := c.filter(c, ct.vals, st.vals)
		for i := range b {
			if !c.same(a[i], b[i], fmt.Sprintf("result %d", i)) {
				return
			}
		}
		return
	}
	for i := range st.vals {
		if i >= len(ct.vals) {
			panic(cmpUndecided{"result count"})
		}
		if !c.same(ct.vals[i], st.vals[i], fmt.Sprintf("result %d", i)) {
			return
		}
	}
}

func (c *Cmp) diff(what, where string) {
	c.diffs = append(c.diffs, cmpDiff{what: what, where: where, cond: append([]string{}, c.m.trk...)})
}

func (c *Cmp) differ(a, b *T, at string) {
	c.known(a, b)
	a, b = differingPart(a, b)
	c.diff(fmt.Sprintf("%s is %s, expected %s", at, c.show(a), c.show(b)), at)
}

func (c *Cmp) known(ts ...*T) {
	for _, t := range ts {
		if unknown(t) {
			panic(cmpUndecided{"a result depends on a value the summary leaves open: " + short(t)})
		}
	}
}

func (c *Cmp) pick(s *Summary) *Trace {
	for _, t := range s.traces {
		if c.holds(t.lits, nil) {
			return t
		}
	}
	return nil
}

// holds: all literals are true; a summary whose loop does not cover this case does not hold either.
func (c *Cmp) holds(lits []*T, sub map[*T]*T) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(cmpNoCase); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	for _, l := range lits {
		if !c.truth(subst(l, sub)) {
			return false
		}
	}
	return true
}

// truth evaluates a condition, asking for a case split where it is open.
func (c *Cmp) truth(t *T) bool {
	switch t.op {
	case "bool":
		return t == tTrue
	case "not":
		return !c.truth(t.a[0])
	case "conj":
		for _, x := range t.a {
			if !c.truth(x) {
				return false
			}
		}
		return true
	}
	n := c.norm(t)
	switch n.op {
	case "bool", "not", "conj":
		return c.truth(n)
	case "eq":
		// text compared with a constant: look into the printed form
		x, y := n.a[0], n.a[1]
		if y.op == "str" {
			if cs, ok := c.expandText(x); ok {
				return c.textIs(cs, y.s)
			}
		}
		if y.op == "int" && x.op == "len" && isStringT(x.a[0]) {
			if cs, ok := c.expandText(x.a[0]); ok && y.s == "0" {
				return c.textIs(cs, "")
			}
		}
	case "typeis":
		if n.a[0].op == "nil" {
			return false
		}
	}
	if v, ok := c.decide(n); ok {
		return v
	}
	panic(forkReq{atom: n})
}

// textIs decides whether the text is the given constant, splitting on emptiness of its parts.
func (c *Cmp) textIs(t *T, s string) bool {
	t = c.norm(t)
	if t.op == "str" {
		return t.s == s
	}
	e := mkEq(t, mkStr(s))
	if e.op == "bool" {
		return e == tTrue
	}
	if t.op == "concat" {
		if concatNonEmpty(t) && s == "" {
			return false
		}
		if s == "" {
			for _, p := range t.a {
				if !c.truth(mkEq(p, mkStr(""))) {
					return false
				}
			}
			return true
		}
		// constant prefix or suffix that does not fit
		if f := t.a[0]; f.op == "str" && !strings.HasPrefix(s, f.s) {
			return false
		}
		if f := t.a[len(t.a)-1]; f.op == "str" && !strings.HasSuffix(s, f.s) {
			return false
		}
	}
	if v, ok := c.decide(e); ok {
		return v
	}
	panic(forkReq{atom: e})
}

func (c *Cmp) class(x *T) map[*T]bool {
	cl := map[*T]bool{x: true}
	for ch := true; ch; {
		ch = false
		for l, v := range c.m.st.known {
			if v && l.op == "eq" && cl[l.a[0]] != cl[l.a[1]] {
				cl[l.a[0]], cl[l.a[1]] = true, true
				ch = true
			}
		}
	}
	return cl
}

func (c *Cmp) decide(a *T) (bool, bool) {
	if v, ok := c.m.st.decide(a); ok {
		return v, ok
	}
	switch a.op {
	case "isnil":
		x := a.a[0]
		if x.op == "elem" && isRefType(x.typ) {
			return false, true
		}
		if x.op == "m" && x.s == "GetName" {
			return false, true
		}
		for l, v := range c.m.st.known {
			if v && l.op == "call" && l.s == "errors.Is" && l.a[0] == x {
				return false, true
			}
		}
	case "call":
		if a.s == "errors.Is" {
			if v, ok := c.m.st.known[mkIsNil(a.a[0])]; ok && v {
				return false, true
			}
		}
	case "eq":
		x, y := a.a[0], a.a[1]
		if c.distinctKeys(x, y) {
			return false, true
		}
		cx := c.class(x)
		if cx[y] {
			return true, true
		}
		cy := c.class(y)
		for l, v := range c.m.st.known {
			if !v && l.op == "eq" && (cx[l.a[0]] && cy[l.a[1]] || cx[l.a[1]] && cy[l.a[0]]) {
				return false, true
			}
			if v && l.op == "call" && l.s == "reflect.DeepEqual" && len(l.a) == 2 {
				p, q := stripAs(l.a[0]), stripAs(l.a[1])
				if subst(x, map[*T]*T{p: q}) == y || subst(x, map[*T]*T{q: p}) == y {
					return true, true
				}
			}
		}
		for u := range cx {
			for w := range cy {
				if u.isConst() && w.isConst() && u != w || c.distinctKeys(u, w) {
					return false, true
				}
			}
		}
		// type identity
		if x.op == "call" && x.s == "reflect.TypeOf" && y.op == "call" && y.s == "reflect.TypeOf" {
			tx, ty := c.typeKnown(x.a[0]), c.typeKnown(y.a[0])
			if tx != "" && ty != "" {
				return tx == ty, true
			}
			if tx != "" && c.typeNot(y.a[0], tx) || ty != "" && c.typeNot(x.a[0], ty) {
				return false, true
			}
		}
	case "typeis":
		x := a.a[0]
		if t := c.typeKnown(x); t != "" {
			return t == a.s, true
		}
		if c.typeNot(x, a.s) {
			return false, true
		}
	}
	return false, false
}

// sameType lists the values known to have the same dynamic type as x.
func (c *Cmp) sameType(x *T) []*T {
	x = stripAs(x)
	out := []*T{x}
	for l := range c.m.st.known {
		if l.op != "eq" || l.a[0].op != "call" || l.a[0].s != "reflect.TypeOf" {
			continue
		}
		for _, y := range l.a {
			if y.op == "call" && y.s == "reflect.TypeOf" && stripAs(y.a[0]) == x {
				for z := range c.class(y) {
					if z.op == "call" && z.s == "reflect.TypeOf" && stripAs(z.a[0]) != x {
						out = append(out, stripAs(z.a[0]))
					}
				}
				return out
			}
		}
	}
	return out
}

func (c *Cmp) typeKnown(x *T) string {
	for _, y := range c.sameType(x) {
		for l, v := range c.m.st.known {
			if v && l.op == "typeis" && l.a[0] == y {
				return l.s
			}
		}
		if y.typ != nil && !types.IsInterface(y.typ) {
			return typeKey(y.typ)
		}
	}
	return ""
}

func (c *Cmp) typeNot(x *T, t string) bool {
	for _, y := range c.sameType(x) {
		for l, v := range c.m.st.known {
			if v {
				continue
			}
			if l.op == "typeis" && l.a[0] == y && l.s == t {
				return true
			}
			if l.op == "eq" && l.a[0].op == "call" && l.a[0].s == "reflect.TypeOf" && l.a[1].op == "call" && l.a[1].s == "reflect.TypeOf" {
				p, q := stripAs(l.a[0].a[0]), stripAs(l.a[1].a[0])
				if p == y && c.typeKnown(q) == t || q == y && c.typeKnown(p) == t {
					return true
				}
			}
		}
	}
	return false
}

// distinctKeys: names of different members of one list differ (a schema has no two tables, a table no two columns or constraints of one name).
func (c *Cmp) distinctKeys(x, y *T) bool {
	if x == y || x.op != y.op || x.s != y.s {
		return false
	}
	isKey := x.op == "fld" && x.s == "Name" || x.op == "m" && (x.s == "GetNameForDiff" || x.s == "StringForDiff" || x.s == "String")
	if !isKey {
		return false
	}
	if x.op == "m" && x.s != "GetNameForDiff" {
		// only the printed name counts
		if !(x.a[0].op == "fld" && x.a[0].s == "Name") {
			return false
		}
	}
	var ex, ey *T
	find := func(t *T) *T {
		for t != nil {
			t = stripAs(t)
			if t.op == "elem" {
				return t
			}
			if len(t.a) == 0 {
				return nil
			}
			if t.op != "fld" && t.op != "m" {
				return nil
			}
			t = t.a[0]
		}
		return nil
	}
	ex, ey = find(x), find(y)
	if ex == nil || ey == nil || ex.a[0] != ey.a[0] || ex.a[1] == ey.a[1] || ex.a[1].op != "int" || ey.a[1].op != "int" {
		return false
	}
	// a table and an index may share a name
	if ex.typ == nil || types.IsInterface(ex.typ) {
		tx, ty := c.typeKnown(ex), c.typeKnown(ey)
		if tx == "" || tx != ty {
			return false
		}
	}
	return subst(x, map[*T]*T{ex: ey}) == y
}

func (c *Cmp) sizeOf(coll *T) int {
	if n, ok := c.m.size[coll]; ok {
		return n
	}
	if v, ok := c.m.st.decide(mkIsNil(coll)); ok && v {
		return 0
	}
	panic(forkReq{coll: coll})
}

// sizeAllowed: what is known about the length of a list does not rule out n.
func sizeAllowed(s *State, coll *T, n int) bool {
	l := mkLen(coll)
	sub := map[*T]*T{l: mkInt(int64(n))}
	for k, v := range s.known {
		if k.op != "eq" && k.op != "lt" || !anyTerm(k, func(x *T) bool { return x == l }) {
			continue
		}
		if r := subst(k, sub); r.op == "bool" && (r == tTrue) != v {
			return false
		}
	}
	return true
}

// items lists the members of a (normalised) collection in this case.
func (c *Cmp) items(coll *T) []*T {
	coll = stripAs(coll)
	if its, ok := onlyItems(coll); ok {
		return its
	}
	if coll.op == "array" {
		return coll.a
	}
	if coll.op == "seq" {
		return c.items(c.norm(coll))
	}
	if coll.op == "slice" {
		lo, ok1 := coll.a[1].intVal()
		hi, ok2 := c.norm(coll.a[2]).intVal()
		if ok1 && ok2 && (coll.typ == nil || !isStrTyp(coll.typ)) {
			its := c.items(coll.a[0])
			if 0 <= lo && lo <= hi && hi <= int64(len(its)) {
				return its[lo:hi]
			}
			if _, ok := onlyItems(coll.a[0]); ok {
				c.diff(fmt.Sprintf("the part [%d:%d] of a list of %d elements is taken", lo, hi, len(its)), "panic")
			}
		}
	}
	switch coll.op {
	case "fld", "param", "elem", "call", "m", "gval", "ret", "as", "ntret", "cell", "mval":
	default:
		panic(cmpUndecided{"list of unknown shape: " + short(coll)})
	}
	n := c.sizeOf(coll)
	out := make([]*T, n)
	for i := range out {
		out[i] = mkElem(coll, mkInt(int64(i)), elemType(coll, nil))
	}
	return out
}

func (c *Cmp) norm(t *T) *T {
	if len(t.a) == 0 {
		if t.op == "bv" || t.op == "loopvar" {
			return t
		}
		return t
	}
	if y, ok := c.memo[t]; ok {
		return y
	}
	y := c.norm1(t)
	c.memo[t] = y
	return y
}

type atKey struct {
	body *T
	h, i int
}

// at instantiates the body of an element-wise summary for element i.
func (c *Cmp) at(body *T, h int, i int) *T {
	k := atKey{body, h, i}
	if y, ok := c.inst[k]; ok {
		return y
	}
	y := subst(body, map[*T]*T{bv(h): mkInt(int64(i))})
	c.inst[k] = y
	return y
}

func (c *Cmp) norm1(t *T) *T {
	switch t.op {
	case "comp":
		kind := t.s[:1]
		h, _ := strconv.Atoi(t.s[2:])
		coll := c.norm(t.a[0])
		its := c.items(coll)
		var parts []*T
		for i := range its {
			done := false
			for _, tr := range t.a[1:] {
				if c.truth(c.at(tr.a[0], h, i)) {
					done = true
					parts = append(parts, c.norm(c.at(tr.a[1], h, i)))
					break
				}
			}
			if !done {
				panic(cmpNoCase{})
			}
		}
		if kind == "s" {
			return mkConcat(parts...)
		}
		var out []*T
		for _, p := range parts {
			out = append(out, seqParts(p)...)
		}
		return c.listOf(out)
	case "exists":
		h := t.h
		coll := c.norm(t.a[0])
		for i := range c.items(coll) {
			if c.truth(c.atGuard(t, h, i)) {
				return tTrue
			}
		}
		return tFalse
	case "fold":
		return c.foldAt(t)
	case "ifelse":
		if c.truth(t.a[0]) {
			return c.norm(t.a[1])
		}
		return c.norm(t.a[2])
	case "lookup", "haskey":
		v, ok := c.lookup(t.a[0], c.norm(t.a[1]))
		if t.op == "haskey" {
			return mkBool(ok)
		}
		if !ok {
			return zeroOf(t.typ)
		}
		return v
	case "emptymap", "mapset", "mapcomp":
		return t
	case "first", "last":
		its := c.items(c.norm(t.a[0]))
		if t.op == "first" {
			for i := range its {
				if c.truth(c.atGuard(t, 0, i)) {
					return mkInt(int64(i))
				}
			}
		} else {
			for i := len(its) - 1; i >= 0; i-- {
				if c.truth(c.atGuard(t, 0, i)) {
					return mkInt(int64(i))
				}
			}
		}
		return mk("none", "")
	case "seq":
		var out []*T
		for _, p := range t.a {
			switch p.op {
			case "it":
				out = append(out, mkItem(c.norm(p.a[0])))
			case "spl":
				for _, x := range c.items(c.norm(p.a[0])) {
					out = append(out, mkItem(x))
				}
			case "comp":
				out = append(out, seqParts(c.norm(p))...)
			default:
				panic(cmpUndecided{"sequence part " + p.op})
			}
		}
		return c.listOf(out)
	case "join":
		its := c.items(c.norm(t.a[0]))
		var xs []*T
		for _, x := range its {
			xs = append(xs, mkItem(c.norm(x)))
		}
		return c.norm(mkJoin(mkSeq(xs...), c.norm(t.a[1])))
	case "len":
		x := c.norm(t.a[0])
		if isStringT(x) {
			return mkLen(x)
		}
		if x.op == "nil" {
			return mkInt(0)
		}
		if sliceLike(x) {
			return mkInt(int64(len(c.items(x))))
		}
		return mkLen(x)
	case "obj", "struct", "tuple", "array":
		return t // contents are compared where needed
	case "at":
		// the place of an item in a list
		item, found := c.norm(t.a[1]), -1
		for i, x := range c.items(c.norm(t.a[0])) {
			if x == item || c.norm(x) == item {
				if found >= 0 {
					panic(cmpUndecided{"the place of an item that a list contains twice"})
				}
				found = i
			}
		}
		if found < 0 {
			panic(cmpUndecided{"the place of an item in a list: " + short(item)})
		}
		return mkInt(int64(found))
	case "count":
		n := 0
		for i := range c.items(c.norm(t.a[0])) {
			if c.truth(c.atGuard(t, 0, i)) {
				n++
			}
		}
		return mkInt(int64(n))
	}
	args := make([]*T, len(t.a))
	ch := false
	for i, x := range t.a {
		args[i] = c.norm(x)
		if args[i] != x {
			ch = true
		}
	}
	y := t
	if ch {
		y = rebuild(t, args)
	}
	switch y.op {
	case "elem":
		if y.a[0].op == "seq" {
			if n, ok := y.a[1].intVal(); ok {
				its := c.items(y.a[0])
				if n >= 0 && int(n) < len(its) {
					return its[n]
				}
			}
		}
	case "m":
		if y.s == "GetName" || y.s == "GetNameForDiff" {
			if s := c.expand(y); s != nil && s.op != "m" {
				return s
			}
		}
	case "fld":
		if y.a[0].op == "as" {
			return y
		}
	}
	return y
}

// lookup finds the value stored last under a key.
func (c *Cmp) lookup(m, k *T) (*T, bool) {
	switch m.op {
	case "emptymap":
		return nil, false
	case "mapset":
		if c.truth(mkEq(c.norm(m.a[1]), k)) {
			return c.norm(m.a[2]), true
		}
		return c.lookup(m.a[0], k)
	case "mapcomp":
		h, _ := strconv.Atoi(m.s)
		its := c.items(c.norm(m.a[0]))
		tr := m.a[1]
		for i := len(its) - 1; i >= 0; i-- {
			if c.truth(c.at(tr.a[0], h, i)) && c.truth(mkEq(c.norm(c.at(tr.a[1], h, i)), k)) {
				return c.norm(c.at(tr.a[2], h, i)), true
			}
		}
		return nil, false
	case "fold":
		return c.lookup(c.foldAt(m), k)
	}
	panic(cmpUndecided{"map of unknown content: " + short(m)})
}

// foldAt gives the value of an accumulator before iteration a[0] of the loop summarised in a[1].
func (c *Cmp) foldAt(t *T) *T {
	body := t.a[1]
	upto := c.norm(t.a[0])
	n, ok := upto.intVal()
	if !ok {
		panic(cmpNoCase{})
	}
	head := body.a[0]
	its := c.items(c.norm(head.a[0]))
	if int(n) > len(its) {
		panic(cmpNoCase{})
	}
	if c.folds == nil {
		c.folds = map[*T][][]*T{}
	}
	f := c.folds[body]
	if f == nil {
		var init []*T
		for _, x := range head.a[1:] {
			init = append(init, c.norm(x))
		}
		f = [][]*T{init}
	}
	lvl := bv(binderLevel(body))
	for i := len(f) - 1; i < int(n); i++ {
		m := map[*T]*T{lvl: mkInt(int64(i))}
		for j, v := range f[i] {
			m[mk("foldacc", strconv.Itoa(j), lvl)] = v
		}
		var next []*T
		for _, tr := range body.a[1:] {
			if c.truth(subst(tr.a[0], m)) {
				for _, v := range tr.a[1:] {
					next = append(next, c.norm(subst(v, m)))
				}
				break
			}
		}
		if next == nil {
			panic(cmpNoCase{})
		}
		f = append(f, next)
	}
	c.folds[body] = f
	return f[n][0]
}

func composite(x *T) bool {
	if x.op != "concat" {
		return false
	}
	n := 0
	for _, p := range x.a {
		if p.op != "str" {
			n++
		}
	}
	return n > 1
}

// unknown: the term contains something the summary says nothing about, so that no difference can be concluded from it.
func unknown(t *T) bool {
	return anyTerm(t, func(x *T) bool {
		switch x.op {
		case "acc", "foldacc", "loopval", "loopvar", "opaque", "undef", "fv", "prefix", "none", "trialnext", "ivar", "bvt", "reccall", "sorted":
			return true
		case "call":
			for _, y := range x.a {
				if y.op == "closure" || y.op == "fn" && strings.Contains(y.s, modPath) {
					return true
				}
			}
		}
		return false
	})
}

func sliceLike(x *T) bool {
	switch x.op {
	case "seq", "comp", "array":
		return true
	}
	if x.typ != nil {
		_, ok := x.typ.Underlying().(*types.Slice)
		return ok
	}
	return x.op == "call"
}

func (c *Cmp) listOf(parts []*T) *T {
	var out []*T
	for _, p := range parts {
		switch p.op {
		case "it":
			out = append(out, p)
		case "spl":
			for _, x := range c.items(c.norm(p.a[0])) {
				out = append(out, mkItem(x))
			}
		default:
			for _, x := range c.items(c.norm(p)) {
				out = append(out, mkItem(x))
			}
		}
	}
	if len(out) == 0 {
		return tEmpty
	}
	return mk("seq", "", out...)
}

// atGuard opens the guard of exists/first/last for element i.
func (c *Cmp) atGuard(t *T, _ int, i int) *T {
	h := closeHeight(t.a[1]) + 1
	return c.at(t.a[1], h, i)
}

// expand replaces a call of a small accessor or printer by its summary in this case; nil when it cannot.
func (c *Cmp) expand(t *T) *T {
	if t.op != "m" || len(t.a) != 1 {
		return nil
	}
	x := stripAs(t.a[0])
	var typ types.Type
	if x.op == "nil" {
		return nil
	}
	if x.typ != nil && !types.IsInterface(x.typ) {
		typ = x.typ
	} else {
		typ = c.m.typeOf(x)
	}
	if typ == nil {
		return nil
	}
	fn := c.e.methodOf(typ, t.s, nil)
	if fn == nil || !isRepoFn(fn) || len(fn.Blocks) == 0 {
		return nil
	}
	key := fn.String()
	s, ok := c.sums[key]
	if !ok {
		var err error
		s, err = summarise(c.e, fn, nil)
		if err != nil {
			s = nil
		}
		c.sums[key] = s
		c.covered[shortFn(fn)] = true
	}
	if s == nil {
		return nil
	}
	recv := c.e.params(fn)[0]
	sub := map[*T]*T{recv: mkAs(x, typ)}
	for _, tr := range s.traces {
		if c.holds(tr.lits, sub) {
			if tr.kind != rRet || len(tr.vals) != 1 {
				return nil
			}
			return c.norm(subst(tr.vals[0], sub))
		}
	}
	return nil
}

func (m *model) typeOf(x *T) types.Type {
	for l, v := range m.st.known {
		if v && l.op == "typeis" && l.a[0] == x && l.typ != nil && !types.IsInterface(l.typ) {
			return l.typ
		}
	}
	return nil
}

func (c *Cmp) expandText(t *T) (*T, bool) {
	if t.op == "m" {
		if x := c.expand(t); x != nil {
			return x, true
		}
		return t, false
	}
	if t.op == "concat" {
		return t, true
	}
	return t, false
}

// same compares two values in the current case.
func (c *Cmp) same(a, b *T, at string) bool {
	a, b = c.norm(a), c.norm(b)
	a, b = stripAs(a), stripAs(b)
	if a == b {
		return true
	}
	if isErrTerm(a) || isErrTerm(b) {
		return c.sameErr(a, b, at)
	}
	if textual(a) || textual(b) {
		return c.sameText(a, b, at)
	}
	if b.op == "nil" || a.op == "nil" {
		x := a
		if a.op == "nil" {
			x = b
		}
		if sliceLike(x) {
			if len(c.items(x)) == 0 {
				return true
			}
		} else if c.truth(mkIsNil(x)) {
			return true
		}
		c.differ(a, b, at)
		return false
	}
	if sliceLike(a) || sliceLike(b) {
		xs, ys := c.items(a), c.items(b)
		for i := 0; i < len(xs) && i < len(ys); i++ {
			if !c.same(xs[i], ys[i], fmt.Sprintf("%s[%d]", at, i)) {
				return false
			}
		}
		if len(xs) > len(ys) {
			c.known(a, b)
			c.diff(fmt.Sprintf("%s has %d entries, expected %d; extra %s", at, len(xs), len(ys), c.show(xs[len(ys)])), at)
			return false
		}
		if len(xs) < len(ys) {
			c.known(a, b)
			c.diff(fmt.Sprintf("%s has %d entries, expected %d; missing %s", at, len(xs), len(ys), c.show(ys[len(xs)])), at)
			return false
		}
		return true
	}
	if isBoolTerm(a) && isBoolTerm(b) {
		if c.truth(a) == c.truth(b) {
			return true
		}
		c.differ(a, b, at)
		return false
	}
	if a.op == "obj" || b.op == "obj" || a.op == "struct" || b.op == "struct" {
		ta, tb := c.typeKnownT(a), c.typeKnownT(b)
		if ta == nil || tb == nil || !types.Identical(ta, tb) {
			c.differ(a, b, at)
			return false
		}
		st := structOf(ta)
		if st == nil {
			panic(cmpUndecided{"value of unknown shape"})
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if c.skipFld[f.Name()] && a.op == "obj" && b.op == "obj" && strings.HasSuffix(typeName(ta), "Stmt") {
				continue
			}
			if !c.same(mkFld(a, f.Name(), f.Type()), mkFld(b, f.Name(), f.Type()), at+"."+f.Name()) {
				return false
			}
		}
		return true
	}
	if v, ok := c.decide(mkEq(a, b)); ok && v {
		return true
	}
	if (a.op == "ntret" || a.op == "call") && a.op == b.op && a.s == b.s && len(a.a) == len(b.a) {
		for i := range a.a {
			if !c.same(a.a[i], b.a[i], at+"("+strconv.Itoa(i)+")") {
				return false
			}
		}
		return true
	}
	c.differ(a, b, at)
	return false
}

func (c *Cmp) typeKnownT(x *T) types.Type {
	if x.typ != nil && !types.IsInterface(x.typ) {
		return x.typ
	}
	return c.m.typeOf(x)
}

func isBoolTerm(x *T) bool {
	switch x.op {
	case "bool", "not", "conj", "eq", "lt", "isnil", "typeis", "exists":
		return true
	}
	if x.typ != nil {
		if b, ok := x.typ.Underlying().(*types.Basic); ok {
			return b.Info()&types.IsBoolean != 0
		}
	}
	return false
}

func isErrTerm(x *T) bool {
	switch x.op {
	case "errf", "sentinel":
		return true
	}
	return x.typ != nil && types.Identical(x.typ, errType)
}

func (c *Cmp) sameErr(a, b *T, at string) bool {
	an, bn := a.op == "nil", b.op == "nil"
	if an != bn {
		c.differ(a, b, at)
		return false
	}
	s := func(x *T) []string {
		var out []string
		seen := map[string]bool{}
		anyTerm(x, func(y *T) bool {
			if y.op == "sentinel" && !seen[y.s] {
				seen[y.s] = true
				out = append(out, y.s)
			}
			return false
		})
		sort.Strings(out)
		return out
	}
	if strings.Join(s(a), ",") != strings.Join(s(b), ",") {
		c.differ(a, b, at)
		return false
	}
	return true
}

func textual(x *T) bool {
	switch x.op {
	case "str", "concat":
		return true
	case "m":
		return objMethods[x.s] && x.s != "GetName"
	}
	return isStringT(x)
}

func (c *Cmp) textParts(t *T) []*T {
	t = c.norm(t)
	if t.op == "concat" {
		return append([]*T{}, t.a...)
	}
	if t.op == "str" && t.s == "" {
		return nil
	}
	return []*T{t}
}

// resolveText rewrites one leaf by what is known of it; ok=false when there is nothing to do.
func (c *Cmp) resolveText(x *T) ([]*T, bool) {
	if x.op == "m" {
		if y := c.expand(x); y != nil && y != x {
			return c.textParts(y), true
		}
		if v, ok := c.decide(mkIsNil(stripAs(x.a[0]))); ok && v {
			if y := c.expandNil(x); y != nil {
				return c.textParts(y), true
			}
		}
	}
	for k := range c.class(x) {
		if k.op == "str" {
			return c.textParts(k), true
		}
	}
	return nil, false
}

func (c *Cmp) expandNil(*T) *T { return nil }

func (c *Cmp) sameText(a, b *T, at string) bool {
	pa, pb := c.textParts(a), c.textParts(b)
	fail := func() bool {
		c.differ(a, b, at)
		return false
	}
	for n := 0; n < 5000; n++ {
		if len(pa) == 0 && len(pb) == 0 {
			return true
		}
		if len(pa) > 0 && len(pb) > 0 {
			x, y := pa[0], pb[0]
			if x == y {
				pa, pb = pa[1:], pb[1:]
				continue
			}
			if x.op == "str" && y.op == "str" {
				k := 0
				for k < len(x.s) && k < len(y.s) && x.s[k] == y.s[k] {
					k++
				}
				if k == 0 {
					return fail()
				}
				pa, pb = dropPrefix(pa, k), dropPrefix(pb, k)
				continue
			}
			if x.op != "str" && y.op != "str" {
				if v, ok := c.decide(mkEq(x, y)); ok && v {
					pa, pb = pa[1:], pb[1:]
					continue
				}
			}
		}
		if len(pa) > 0 && pa[0].op != "str" {
			if r, ok := c.resolveText(pa[0]); ok {
				pa = append(r, pa[1:]...)
				continue
			}
		}
		if len(pb) > 0 && pb[0].op != "str" {
			if r, ok := c.resolveText(pb[0]); ok {
				pb = append(r, pb[1:]...)
				continue
			}
		}
		if os.Getenv("DBG") != "" {
			for _, z := range [][]*T{pa, pb} {
				for _, w := range z {
					fmt.Printf("  part %s typ=%v", short(w), w.typ)
					if w.op == "m" {
						fmt.Printf(" recv typ %v", w.a[0].typ)
					}
					fmt.Println()
				}
				fmt.Println("  --")
			}
		}
		return fail()
	}
	panic(cmpUndecided{"text too long"})
}

func dropPrefix(p []*T, k int) []*T {
	if k == len(p[0].s) {
		return p[1:]
	}
	out := append([]*T{mkStr(p[0].s[k:])}, p[1:]...)
	return out
}

func (c *Cmp) show(t *T) string {
	s := strings.ReplaceAll(t.String(), "github.com/kunitsucom/ddlctl/pkg/", "")
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 300 {
		s = s[:300] + "…"
	}
	return s
}

// differingPart drops what two long texts have in common at the start.
func differingPart(a, b *T) (*T, *T) {
	if a.op != "concat" || b.op != "concat" || len(a.String()) < 200 {
		return a, b
	}
	i := 0
	for i < len(a.a) && i < len(b.a) && a.a[i] == b.a[i] {
		i++
	}
	if i < 2 || i == len(a.a) || i == len(b.a) {
		return a, b
	}
	cut := func(t *T) *T { return mkConcat(append([]*T{mkStr("…")}, t.a[i-1:]...)...) }
	return cut(a), cut(b)
}
