package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P15"] = checkP15 }

// P15: nothing in lexing, parsing, printing or comparing panics.
//
// Every function of the ddl packages is analysed on its own, on all its paths, and every operation that may panic is an
// obligation under the conditions of its path. What a function expects of its surroundings becomes a demand, and each
// demand an obligation elsewhere: a parameter that is used without being tested - of every call; a part of a structure
// that is used without being tested - of everything that makes or changes such a structure; a result that is used - of
// every return.

func (e *Engine) probeCall(fr *Frame, st *State, in *ssa.Call) {
	c := in.Common()
	var ts []*T
	if c.IsInvoke() {
		ts = append(ts, e.val(fr, c.Value))
	}
	for _, a := range c.Args {
		ts = append(ts, e.val(fr, a))
	}
	if c.IsInvoke() {
		e.probe(fr, st, in, "invoke", ts...)
	} else if c.StaticCallee() != nil {
		e.probe(fr, st, in, "call", ts...)
	}
}

type panicScan struct {
	p       *Prog
	byName  map[string]*ssa.Function
	methods map[string][]*ssa.Function
	demands map[string]string // what is relied on, and where
	changed bool
	cur     *ssa.Function
	here    string
	holds   map[string]string // obligation -> ""; a reason when it fails
	rules   map[string]string
	where   map[string]string
	last    bool
	assumed map[string]int
	given   map[string]map[string]bool
	lexed   map[string]bool                 // packages whose lexer is analysed
	entries map[*ssa.Function][]entryDemand // entries relied on, of terms over the parameters
	dynamic map[*ssa.Function]bool          // functions that are not only called directly
	structs map[*ssa.Function]bool          // functions that panic on purpose unless they are given a structure
}

func cutName(n string) string {
	n = strings.ReplaceAll(n, modPath+"/", "")
	if len(n) > 90 {
		n = n[:90]
	}
	return n
}

func inDDL(fn *ssa.Function) bool { return strings.Contains(fnName(fn), "pkg/ddl/") }

func (s *panicScan) demand(key string) {
	if _, ok := s.demands[key]; !ok {
		s.demands[key] = s.here
		s.changed = true
	}
}

// demandField demands that a part of a structure is set, whenever the parts are set that are known to be on this path.
func (s *panicScan) demandField(st *State, t string, x *T) {
	key := "field " + t + "." + x.s
	s.demand(key)
	base := x.a[0]
	stt := structOf(base.typ)
	if pt := derefType(base.typ); pt != nil {
		stt = structOf(pt)
	}
	var given []string
	if stt != nil {
		for i := 0; i < stt.NumFields(); i++ {
			f := fieldKey(stt, i)
			if f == x.s || !isRefType(stt.Field(i).Type()) {
				continue
			}
			if v, ok := st.decide(mkIsNil(mkFld(base, f, stt.Field(i).Type()))); ok && !v {
				given = append(given, f)
			}
		}
	}
	g := strings.Join(given, " ")
	if s.given[key] == nil {
		s.given[key] = map[string]bool{}
	}
	if !s.given[key][g] {
		s.given[key][g] = true
		s.changed = true
	}
}

// applies: the demand is made of an object that holds these values.
func (s *panicScan) applies(key string, holds func(f string) *T, st *State) bool {
	for g := range s.given[key] {
		all := true
		for _, f := range strings.Fields(g) {
			if v := holds(f); v == nil || certainlyNil(st, v) {
				all = false
			}
		}
		if all {
			return true
		}
	}
	return false
}

// ob records the outcome of one obligation on one path; it fails when it fails on any.
func (s *panicScan) ob(rule, key, pos, bad string) {
	if !s.last {
		return
	}
	key = rule + "@" + key
	s.rules[key] = rule
	s.where[key] = pos
	if old, ok := s.holds[key]; !ok || old == "" {
		s.holds[key] = bad
	}
}

func ddlStruct(t types.Type) string {
	if t == nil {
		return ""
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.Contains(n.Obj().Pkg().Path(), "pkg/ddl/") {
		return ""
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return ""
	}
	return strings.TrimPrefix(n.Obj().Pkg().Path(), modPath+"/") + "." + n.Obj().Name()
}

// testsNil: the function compares the value with nil, so it expects it to be nil sometimes.
func testsNil(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		if b, ok := r.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			for _, o := range []ssa.Value{b.X, b.Y} {
				if c, ok := o.(*ssa.Const); ok && c.IsNil() {
					return true
				}
			}
		}
	}
	return false
}

func (s *panicScan) callee(t *T) *ssa.Function {
	return s.byName[strings.SplitN(t.s, "#", 2)[0]]
}

// nonNil: "" when x is not nil on this path, given the demands it adds; otherwise why it may be.
func (s *panicScan) nonNil(st *State, x *T) string {
	x = stripAs(x)
	if v, ok := st.decide(mkIsNil(x)); ok {
		if v {
			return short(x) + " is nil on this path"
		}
		return ""
	}
	switch x.op {
	case "typednil":
		return "a nil pointer"
	case "param":
		for i, p := range s.cur.Params {
			if p.Name() == x.s {
				if testsNil(p) {
					return short(x) + " may be nil: it is tested elsewhere, but not on this path"
				}
				if i == 0 && s.cur.Signature.Recv() != nil {
					if _, ok := p.Type().Underlying().(*types.Pointer); !ok {
						return ""
					}
				}
				s.demand(fmt.Sprintf("param %s %d", fnName(s.cur), i))
				return ""
			}
		}
	case "fld":
		if t := ddlStruct(stripAs(x.a[0]).typ); t != "" {
			s.demandField(st, t, x)
			return ""
		}
	case "call", "ret":
		if fn := s.callee(x); fn != nil && inDDL(fn) && fn.Signature.Results().Len() == 1 {
			s.demand("result " + fnName(fn) + " 0")
			return ""
		}
	case "m":
		for _, fn := range s.methods[x.s] {
			if inDDL(fn) && fn.Signature.Results().Len() == 1 && samePkg(fn, s.cur) {
				s.demand("result " + fnName(fn) + " 0")
			}
		}
		return ""
	case "ext":
		c := x.a[0]
		if c.op == "call" || c.op == "ret" {
			if fn := s.callee(c); fn != nil && inDDL(fn) {
				k := errResult(fn.Signature)
				if k >= 0 && x.s != fmt.Sprint(k) {
					if !certainlyNil(st, mkExt(c, k, fn.Signature.Results().At(k).Type())) {
						return short(x) + " is used on a path where " + shortFn(fn) + " may have failed"
					}
				}
				if j := boolResult(fn.Signature); j >= 0 {
					if v, known := st.decide(mkExt(c, j, fn.Signature.Results().At(j).Type())); known {
						s.demand(fmt.Sprintf("result %s %s when %v", fnName(fn), x.s, v))
						return ""
					}
				}
				s.demand("result " + fnName(fn) + " " + x.s)
				return ""
			}
		}
	}
	s.assumed[x.op]++
	return ""
}

// boolResult is the one result that says whether the others are there.
func boolResult(sig *types.Signature) int {
	at := -1
	for i := 0; i < sig.Results().Len(); i++ {
		if b, ok := sig.Results().At(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			if at >= 0 {
				return -1
			}
			at = i
		}
	}
	return at
}

func samePkg(a, b *ssa.Function) bool { return pkgOf(a) == pkgOf(b) }

func refersToDDL(t types.Type) bool {
	switch u := t.(type) {
	case *types.Pointer:
		return ddlStruct(u) != ""
	case *types.Named:
		_, ok := u.Underlying().(*types.Interface)
		return ok && u.Obj().Pkg() != nil && strings.Contains(u.Obj().Pkg().Path(), "pkg/ddl/")
	}
	return false
}

// inRange: "" when the index is within the list on this path, "?" when that is not decided here.
func (s *panicScan) inRange(st *State, x, i *T, xt types.Type) string {
	if pt, ok := xt.Underlying().(*types.Pointer); ok {
		xt = pt.Elem()
	}
	n := mkLen(x)
	if at, ok := xt.Underlying().(*types.Array); ok {
		n = mkInt(at.Len())
	}
	if x.op == "mkslice" && len(x.a) > 0 {
		n = x.a[0]
	}
	if c, ok := i.intVal(); ok {
		if m, ok := n.intVal(); ok {
			if c >= 0 && c < m {
				return ""
			}
			return fmt.Sprintf("entry %d of %d", c, m)
		}
	}
	built := computed(x)
	lt := mkLt(i, n)
	low := func() bool { // the index is not negative
		if c, ok := i.intVal(); ok {
			return c >= 0
		}
		if i.op == "add" || i.op == "bin" || i.op == "sub" {
			v, ok := st.decide(mkLt(i, mkInt(0)))
			return ok && !v
		}
		return true
	}
	if v, ok := st.decide(lt); ok {
		if v && low() {
			return ""
		}
		if !v {
			return fmt.Sprintf("entry %s, and the length is at most that on this path", short(i))
		}
	}
	switch i.op {
	case "loopvar", "bv", "first", "fv", "at":
		if len(i.a) > 0 && (i.a[0] == x || mkLen(i.a[0]) == n) {
			return ""
		}
		if built {
			return "?"
		}
		if len(i.a) > 0 {
			return fmt.Sprintf("entry %s of %s, counted over %s, which may be longer", short(i), short(x), short(i.a[0]))
		}
	}
	if base, k := splitAdd(i); base != nil && k < 0 && base.op == "loopvar" && base.a[0] == x {
		// some entry before the current one: the current one must be known to be that far
		for c := int64(0); c < -k; c++ {
			v, ok := st.decide(mkEq(base, mkInt(c)))
			w, ok2 := st.decide(mkLt(mkInt(c), base))
			if !(ok && !v || ok2 && w) {
				return fmt.Sprintf("entry %s, also in the first round", short(i))
			}
		}
		return ""
	}
	if v, ok := st.decide(mkLt(n, i)); ok && !v {
		return fmt.Sprintf("entry %s of %s, which may be one past its end", short(i), short(x))
	}
	for a := range st.known {
		if anyTerm(a, func(y *T) bool { return y == n }) {
			if c, ok := i.intVal(); ok {
				for l, kv := range st.known {
					if m, isEq := lenIs(l, n); isEq && kv {
						if c < m {
							return ""
						}
						return fmt.Sprintf("entry %d of %d", c, m)
					}
				}
			}
			return "?"
		}
	}
	if built {
		return "?"
	}
	if s.demandEntry(x, i, xt) {
		return ""
	}
	return fmt.Sprintf("entry %s of %s, whose length is not tested on this path", short(i), short(x))
}

// computed: the list was put together in this function, so that its length is a matter of how.
func computed(x *T) bool {
	x = stripAs(x)
	for x.op == "slice" && len(x.a) > 0 {
		x = stripAs(x.a[0])
	}
	switch x.op {
	case "mkslice", "seq", "comp", "fold", "ite", "foldacc", "sym", "append":
		return true
	}
	return false
}

// demandEntry demands that what the function is given has the entry, where only functions of the repository can call it.
func (s *panicScan) demandEntry(x, i *T, xt types.Type) bool {
	fn := s.cur
	if fn.Object() == nil || fn.Object().Exported() || fn.Pkg == nil || s.dynamic[fn] {
		return false
	}
	given := func(t *T) bool {
		return !anyTerm(t, func(y *T) bool {
			return len(y.a) == 0 && y.op != "param" && y.op != "const" && y.op != "int"
		}) && anyTerm(t, func(y *T) bool { return y.op == "param" })
	}
	root := x
	for root.op == "fld" {
		root = stripAs(root.a[0])
	}
	if _, ok := i.intVal(); root.op != "param" || !ok && !given(i) {
		return false
	}
	for _, d := range s.entries[fn] {
		if d.x == x && d.i == i {
			return true
		}
	}
	s.entries[fn] = append(s.entries[fn], entryDemand{x, i, xt})
	s.changed = true
	return true
}

type entryDemand struct {
	x, i *T
	xt   types.Type
}

// longEnough: the arguments have the entries the function expects them to have.
func (s *panicScan) longEnough(fn *ssa.Function, st *State, ts []*T) (bad string, any bool) {
	m := map[*T]*T{}
	for i, p := range fn.Params {
		if i < len(ts) {
			m[mkParam(p.Type(), p.Name())] = ts[i]
		}
	}
	for _, d := range s.entries[fn] {
		any = true
		x, i := subst(d.x, m), subst(d.i, m)
		why := ""
		if anyTerm(x, func(t *T) bool { return t.op == "new" || t.op == "obj" }) {
			why = "?"
		} else if why = s.inRange(st, x, i, d.xt); why != "" && why != "?" {
			why = shortFn(fn) + " is called with: " + why
		}
		if bad == "" || bad == "?" && why != "" {
			bad = why
		}
	}
	return bad, any
}

// sliceOf: "" when low <= high <= length on this path.
func (s *panicScan) sliceOf(st *State, x, low, high *T) string {
	n := mkLen(x)
	if x.op == "str" {
		n = mkInt(int64(len(x.s)))
	}
	if low == nil {
		low = mkInt(0)
	}
	if high == nil {
		high = n
	}
	bad := ""
	for _, q := range [][2]*T{{low, high}, {high, n}} {
		if q[0] == q[1] {
			continue
		}
		if a, ok := q[0].intVal(); ok {
			if b, ok := q[1].intVal(); ok {
				if a > b {
					return fmt.Sprintf("the part from %d to %d", a, b)
				}
				continue
			}
			if a == 0 && q[1] == n {
				continue
			}
		}
		if b1, k1 := splitAdd(q[0]); b1 != nil && b1 == q[1] && k1 <= 0 && q[0] != low {
			continue
		}
		if v, ok := st.decide(mkLt(q[1], q[0])); ok {
			if !v {
				continue
			}
			return fmt.Sprintf("the part from %s to %s of %s", short(low), short(high), short(x))
		}
		some := false
		for a := range st.known {
			if anyTerm(a, func(y *T) bool { return y == n || y == x }) {
				some = true
			}
		}
		if some {
			bad = "?"
			continue
		}
		if computed(x) {
			bad = "?"
			continue
		}
		return fmt.Sprintf("the part from %s to %s of %s, whose length is not tested on this path", short(low), short(high), short(x))
	}
	return bad
}

func lenIs(l, n *T) (int64, bool) {
	if l.op != "eq" {
		return 0, false
	}
	if l.a[0] == n {
		return l.a[1].intVal()
	}
	if l.a[1] == n {
		return l.a[0].intVal()
	}
	return 0, false
}

func (s *panicScan) scan(fn *ssa.Function) (err error) {
	p := s.p
	s.cur = fn
	e := newEngine(p)
	e.noPad = true
	e.opaque = func(f *ssa.Function) bool { return isRepoFn(f) && f.Parent() == nil && !predicate(f) }
	e.effect = func(f *ssa.Function) bool {
		return strings.Contains(fnName(f), "arser).") || strings.Contains(fnName(f), "exer).")
	}
	e.probe = func(fr *Frame, st *State, in ssa.Instruction, kind string, ts ...*T) {
		pos := p.pos(in.Pos())
		s.here = pos + " in " + shortFn(fn)
		obj := shortFn(fn)
		if len(ts) > 0 {
			obj += "/" + cutName(short(ts[0]))
		}
		switch kind {
		case "nil", "invoke":
			if kind == "nil" {
				switch x := stripAs(ts[0]); x.op {
				case "faddr", "eaddr", "global", "new":
					return
				}
			}
			s.ob("nil", obj, pos, s.nonNil(st, ts[0]))
			if kind == "invoke" {
				m := in.(*ssa.Call).Common().Method.Name()
				for _, f := range s.methods[m] {
					for i := 1; i < len(ts); i++ {
						if s.demands[fmt.Sprintf("param %s %d", fnName(f), i)] != "" && inDDL(f) {
							s.ob("argument", obj+"/"+fmt.Sprint(i), pos, s.nonNil(st, ts[i]))
						}
					}
				}
			}
		case "mapset":
			s.ob("nil", obj+"/map", pos, s.nonNil(st, ts[0]))
		case "divide":
			y := in.(*ssa.BinOp).Y
			if b, ok := y.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
				return
			}
			bad := ""
			if v, ok := st.decide(mkEq(ts[0], mkInt(0))); ok && v {
				bad = "divides by zero"
			} else if w, ok2 := st.decide(mkLt(mkInt(0), ts[0])); !ok && !(ok2 && w) {
				bad = "divides by " + short(ts[0]) + ", which is not known to differ from zero"
			}
			s.ob("divide", obj, pos, bad)
		case "call":
			if f := in.(*ssa.Call).Common().StaticCallee(); f != nil && (fnName(f) == "strings.Repeat" || fnName(f) == "bytes.Repeat") && len(ts) == 2 {
				bad := ""
				if v, ok := st.decide(mkLt(ts[1], mkInt(0))); ok && v {
					bad = "repeats a negative number of times"
				} else if c, isInt := ts[1].intVal(); !ok && !(isInt && c >= 0) && (ts[1].op == "bin" || ts[1].op == "add") {
					bad = "repeats " + short(ts[1]) + " times, which may be negative"
				}
				s.ob("repeat", obj, pos, bad)
			}
			if f := in.(*ssa.Call).Common().StaticCallee(); f != nil && s.structs[f] {
				for i, a := range in.(*ssa.Call).Common().Args {
					if !types.IsInterface(f.Params[i].Type()) {
						continue
					}
					bad := shortFn(f) + " panics unless it is given a structure"
					if mi, ok := a.(*ssa.MakeInterface); ok {
						if _, ok := mi.X.Type().Underlying().(*types.Struct); ok {
							bad = ""
						}
					}
					s.ob("structure", obj, pos, bad)
				}
			}
			f := in.(*ssa.Call).Common().StaticCallee()
			if bad, any := s.longEnough(f, st, ts); any {
				s.ob("argument", obj+"/length", pos, bad)
			}
			for i := range ts {
				if s.demands[fmt.Sprintf("param %s %d", fnName(f), i)] != "" {
					if x := stripAs(ts[i]); x.op == "faddr" || x.op == "new" {
						continue
					}
					s.ob("argument", obj+"/"+fmt.Sprint(i), pos, s.nonNil(st, ts[i]))
				}
			}
		case "store":
			a, v := ts[0], ts[1]
			if a.op == "faddr" {
				if a.a[0].op == "new" {
					return // what the object holds in the end is looked at when the function returns
				}
				if t := ddlStruct(a.a[0].typ); t != "" && s.demands["field "+t+"."+a.s] != "" {
					s.ob("part", obj+"/"+t+"."+a.s, pos, s.nonNil(st, v))
				}
			} else if a.op == "eaddr" && refersToDDL(derefType(in.(*ssa.Store).Addr.Type())) {
				s.ob("entry", obj, pos, s.nonNil(st, v))
			}
		case "index":
			var xt types.Type
			switch q := in.(type) {
			case *ssa.IndexAddr:
				xt = q.X.Type()
			case *ssa.Index:
				xt = q.X.Type()
			}
			if s.lexed[pkgOf(fn).Path()] && strings.HasSuffix(short(ts[0]), ".input") {
				return // what the lexers read of the text is judged by rule text
			}
			bad := s.inRange(st, ts[0], ts[1], xt)
			s.ob("index", obj, pos, bad)
		case "slice":
			if ts[1] == nil && ts[2] == nil {
				return
			}
			base := ts[0]
			for (base.op == "slice" || base.op == "as") && len(base.a) > 0 {
				base = base.a[0]
			}
			if strings.HasSuffix(short(base), ".input") {
				return // what the lexers cut out of the text is judged by rule text
			}
			s.ob("slice", obj, pos, s.sliceOf(st, ts[0], ts[1], ts[2]))
		case "assert":
			s.ob("assert", obj, pos, s.asserted(st, stripAs(ts[0]), in.(*ssa.TypeAssert).AssertedType))
		}
	}
	rs, err := e.Analyse(fn, newState(), e.params(fn))
	if err != nil {
		return err
	}
	k := errResult(fn.Signature)
	for _, r := range rs {
		if r.kind == rPanic {
			s.ob("panic", shortFn(fn), p.pos(r.pos), s.deliberate(r))
			continue
		}
		if r.kind != rRet || k >= 0 && certainlyError(r.st, r.vals[k]) {
			continue
		}
		s.here = p.fnPos(fn) + " in " + shortFn(fn)
		for i, v := range r.vals {
			d := s.demands[fmt.Sprintf("result %s %d", fnName(fn), i)]
			if j := boolResult(fn.Signature); d == "" && j >= 0 {
				for _, q := range []bool{false, true} {
					if dq := s.demands[fmt.Sprintf("result %s %d when %v", fnName(fn), i, q)]; dq != "" {
						if v, known := r.st.decide(r.vals[j]); !known || v == q {
							d = dq
						}
					}
				}
			}
			if d != "" {
				bad := ""
				if f := s.passedOn(r, v, k); f != nil {
					s.demand("result " + fnName(f) + " " + stripAs(v).s)
				} else {
					bad = s.nonNil(r.st, v)
				}
				if bad != "" {
					bad = "the result is used unconditionally at " + d + ", but " + bad
				}
				s.ob("result", fmt.Sprintf("%s/%d", shortFn(fn), i), p.fnPos(fn), bad)
			}
		}
		for _, o := range made(r) {
			t := ddlStruct(o.typ)
			if t == "" || r.st.mem[o] != nil {
				continue
			}
			stt := structOf(derefType(o.typ))
			for i := 0; i < stt.NumFields(); i++ {
				f := fieldKey(stt, i)
				holds := func(f string) *T {
					if o.op == "obj" {
						for j := 0; j < stt.NumFields(); j++ {
							if fieldKey(stt, j) == f {
								return o.a[j]
							}
						}
					}
					return r.st.mem[mkFaddr(o, f)]
				}
				if d := s.demands["field "+t+"."+f]; d != "" && s.applies("field "+t+"."+f, holds, r.st) {
					bad := ""
					v := holds(f)
					if v != nil {
						if bad = s.nonNil(r.st, v); bad != "" {
							bad = t + "." + f + " is used unconditionally at " + d + ", but " + bad
						}
					} else if !s.setElsewhere(fn, derefType(o.typ), i) {
						bad = t + "." + f + " is left unset, but used unconditionally at " + d
					}
					s.ob("made", shortFn(fn)+"/"+t+"."+f, p.fnPos(fn), bad)
				}
			}
		}
	}
	return nil
}

// passedOn: the value and the error come from one call, so that the value is used only where that call did not fail.
func (s *panicScan) passedOn(r Result, v *T, k int) *ssa.Function {
	v = stripAs(v)
	if k < 0 || v.op != "ext" {
		return nil
	}
	f := s.callee(v.a[0])
	if f == nil || !inDDL(f) {
		return nil
	}
	j := errResult(f.Signature)
	if j < 0 || r.vals[k] != mkExt(v.a[0], j, f.Signature.Results().At(j).Type()) {
		return nil
	}
	return f
}

// predicate: a small function without loops that only tests something; its conditions are looked at where it is called.
func predicate(fn *ssa.Function) bool {
	sig := fn.Signature
	if sig.Results().Len() != 1 || len(fn.Blocks) == 0 || len(fn.Blocks) > 12 {
		return false
	}
	if b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
		return false
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Panic:
				return false
			}
		}
	}
	return true
}

// deliberate: "" when the call of panic cannot be reached, because the error it complains about is never returned.
func (s *panicScan) deliberate(r Result) string {
	v := stripAs(r.vals[0])
	c := v
	if c.op == "ext" {
		c = c.a[0]
	}
	if fn := s.callee(c); (c.op == "call" || c.op == "ret") && fn != nil {
		es, ok := s.allErrs(fn, map[*ssa.Function]bool{})
		if !ok {
			return "?"
		}
		for _, e := range es {
			if d, known := r.st.decide(errIs(r.st, v, e)); !known || d {
				return "panics when " + shortFn(fn) + " returns " + short(e)
			}
		}
		return ""
	}
	return "panics with " + short(v)
}

// allErrs lists the errors at the bottom of everything fn may return as its error.
func (s *panicScan) allErrs(fn *ssa.Function, busy map[*ssa.Function]bool) (out []*T, ok bool) {
	if busy[fn] {
		return nil, true
	}
	busy[fn] = true
	k := errResult(fn.Signature)
	if k < 0 || len(fn.Blocks) == 0 {
		return nil, false
	}
	e := newEngine(s.p)
	e.noPad = true
	e.opaque = func(f *ssa.Function) bool { return isRepoFn(f) && f.Parent() == nil && f != fn }
	rs, err := e.Analyse(fn, newState(), e.params(fn))
	if err != nil {
		return nil, false
	}
	for _, r := range rs {
		if r.kind != rRet || certainlyNil(r.st, r.vals[k]) {
			continue
		}
		for _, l := range errLeaves(r.vals[k]) {
			if l.op == "sentinel" {
				out = append(out, l)
				continue
			}
			c := l
			if c.op == "ext" {
				c = c.a[0]
			}
			f := s.callee(c)
			if f == nil {
				out = append(out, l)
				continue
			}
			more, ok := s.allErrs(f, busy)
			if !ok {
				return nil, false
			}
			out = append(out, more...)
		}
	}
	return out, true
}

// made lists the objects the function made that can be reached from its results or parameters.
func made(r Result) (out []*T) {
	seen := map[*T]bool{}
	var visit func(t *T)
	visit = func(t *T) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "obj" && t.typ != nil {
			out = append(out, t)
		}
		if t.op == "new" && t.typ != nil {
			out = append(out, t)
			for a, v := range r.st.mem {
				if addrRoot(a) == t {
					visit(v)
				}
			}
		}
		for _, x := range t.a {
			visit(x)
		}
	}
	for _, v := range r.vals {
		visit(v)
	}
	for a, v := range r.st.mem {
		if root := addrRoot(a); root.op != "new" && root.op != "mkslice" {
			visit(v)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return
}

// setElsewhere: the field is set through a method or function the object is passed to.
func (s *panicScan) setElsewhere(fn *ssa.Function, t types.Type, field int) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			f := c.Common().StaticCallee()
			if f == nil || !inDDL(f) {
				continue
			}
			for i, a := range c.Common().Args {
				pt, ok := a.Type().Underlying().(*types.Pointer)
				if !ok || !types.Identical(pt.Elem(), t) || i >= len(f.Params) || f.Params[i].Referrers() == nil {
					continue
				}
				for _, r := range *f.Params[i].Referrers() {
					if fa, ok := r.(*ssa.FieldAddr); ok && fa.Field == field && fa.Referrers() != nil {
						for _, q := range *fa.Referrers() {
							if st, ok := q.(*ssa.Store); ok && st.Addr == fa {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

// asserted: the value has the asserted type on this path, or comes from a function that finds an entry of the same type.
func (s *panicScan) asserted(st *State, x *T, want types.Type) string {
	if v, ok := st.decide(mkTypeIs(x, want)); ok {
		if v {
			return ""
		}
		return short(x) + " is of another type on this path"
	}
	if x.op != "call" && x.op != "ret" {
		return "the type of " + short(x) + " is not tested on this path"
	}
	fn := s.callee(x)
	if fn == nil {
		return "?"
	}
	e := newEngine(s.p)
	e.noPad = true
	rs, err := e.Analyse(fn, newState(), e.params(fn))
	if err != nil {
		return "?"
	}
	for _, r := range rs {
		if r.kind != rRet {
			continue
		}
		v := stripAs(r.vals[0])
		if mkIsNil(v) == tTrue {
			continue
		}
		ok, some := false, false
		for l, kv := range r.st.known {
			if typeTest(l) {
				some = true
			}
			if kv && l.op == "eq" {
				for i, par := range fn.Params {
					p := mkParam(par.Type(), par.Name())
					if i < len(x.a) && (sameTypeTest(l.a[0], l.a[1], p, v) || sameTypeTest(l.a[1], l.a[0], p, v)) {
						if d, known := st.decide(mkTypeIs(stripAs(x.a[i]), want)); known && d {
							ok = true
						}
					}
				}
			}
		}
		if !ok {
			if predTypeTest(v) || some {
				if first, okp := firstPred(v); okp {
					for i, par := range fn.Params {
						if i < len(x.a) && hasSameType(first, mkParam(par.Type(), par.Name())) {
							if d, known := st.decide(mkTypeIs(stripAs(x.a[i]), want)); known && d {
								ok = true
							}
						}
					}
				}
				if ok {
					continue
				}
				return "?"
			}
			return shortFn(fn) + " returns an entry whose type it did not test"
		}
	}
	return ""
}

func typeTest(t *T) bool {
	return anyTerm(t, func(x *T) bool {
		return x.op == "typeis" || strings.Contains(x.s, "reflect.TypeOf") || strings.Contains(x.s, "%T")
	})
}

func sameTypeTest(a, b, p, v *T) bool {
	isT := func(t, of *T) bool {
		return strings.Contains(t.s, "reflect.TypeOf") && len(t.a) == 1 && stripAs(t.a[0]) == of
	}
	return isT(a, p) && isT(b, v)
}

func predTypeTest(v *T) bool { return typeTest(v) }

// firstPred: the value is the first entry of a list that satisfies a condition.
func firstPred(v *T) (*T, bool) {
	if v.op == "elem" && v.a[1].op == "first" {
		return v.a[1], true
	}
	return nil, false
}

// hasSameType: the condition demands that the entry has the type of p.
func hasSameType(first, p *T) bool {
	return anyTerm(first, func(x *T) bool {
		if x.op != "eq" {
			return false
		}
		f := func(a, b *T) bool {
			return strings.Contains(a.s, "reflect.TypeOf") && len(a.a) == 1 && stripAs(a.a[0]) == p &&
				strings.Contains(b.s, "reflect.TypeOf") && len(b.a) == 1 && anyTerm(b.a[0], func(y *T) bool { return y.op == "bv" })
		}
		return f(x.a[0], x.a[1]) || f(x.a[1], x.a[0])
	})
}

// panicsUnlessStruct: the function of one value of any type asks for its kind and panics.
func panicsUnlessStruct(fn *ssa.Function) bool {
	kind, pan := false, false
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if seen[fn] || !isRepoFn(fn) {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Panic:
					pan = true
				case *ssa.Call:
					if x.Common().IsInvoke() && x.Common().Method.Name() == "Kind" {
						kind = true
					}
					if f := x.Common().StaticCallee(); f != nil {
						visit(f)
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
	}
	visit(fn)
	return kind && pan
}

// onlyUsedBy: everything that refers to the function is one of these functions, or declared in one.
func onlyUsedBy(p *Prog, fn *ssa.Function, in map[*ssa.Function]bool) bool {
	used := false
	for _, f := range p.fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, o := range ins.Operands(nil) {
					if *o == ssa.Value(fn) {
						used = true
						top := f
						for top.Parent() != nil {
							top = top.Parent()
						}
						if !in[top] {
							return false
						}
					}
				}
			}
		}
	}
	return used
}

// isSpec: the function belongs to a reference definition, not to the repository.
func isSpec(p *Prog, fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return strings.Contains(p.pos(fn.Pos()), "zz_verif_spec")
}

func checkP15(r *Rep) {
	if p, _, err := specProg(); err == nil {
		r.p = p // one program for everything, so that types are the same
	}
	p := r.p
	r.Rule("nil", "what is dereferenced, or whose method is called, is not nil on that path")
	r.Rule("argument", "what a function uses without testing it for nil is not nil at any call")
	r.Rule("part", "a part of a structure that is used without being tested is never set to nil")
	r.Rule("made", "a part of a structure that is used without being tested is set in every structure made")
	r.Rule("entry", "no nil is put into a list of parts")
	r.Rule("result", "a result that is used without being tested is not nil when the call did not fail")
	r.Rule("index", "every index is below the length of what it indexes, and an array of tokens or parts is tested for its length first")
	r.Rule("divide", "no integer is divided by zero")
	r.Rule("repeat", "no text is repeated a negative number of times")
	r.Rule("slice", "every slice expression is within its operand")
	r.Rule("assert", "a type assertion without a test asserts what the value is")
	r.Rule("panic", "a call of panic is never reached")
	r.Rule("structure", "only structures are handed to the printing of structures")
	r.Rule("paths", "every path of the function was analysed")
	s := &panicScan{p: p, byName: map[string]*ssa.Function{}, methods: p.methodsByName(), demands: map[string]string{}, assumed: map[string]int{},
		holds: map[string]string{}, rules: map[string]string{}, where: map[string]string{}}
	for m, fs := range s.methods {
		var own []*ssa.Function
		for _, f := range fs {
			if !isSpec(p, f) {
				own = append(own, f)
			}
		}
		s.methods[m] = own
	}
	var fns []*ssa.Function
	for _, fn := range p.fns {
		s.byName[fnName(fn)] = fn
		if inDDL(fn) && len(fn.Blocks) > 0 && fn.Parent() == nil && fn.Name() != "init" && !isSpec(p, fn) && !testPkg(fn) {
			fns = append(fns, fn)
		}
	}
	s.lexed = lexPanics(r)
	s.entries, s.dynamic = map[*ssa.Function][]entryDemand{}, map[*ssa.Function]bool{}
	for _, f := range p.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, isCall := in.(ssa.CallInstruction)
				for _, o := range in.Operands(nil) {
					if g, ok := (*o).(*ssa.Function); ok && !(isCall && ci.Common().Value == *o) {
						s.dynamic[g] = true
					}
				}
				if isCall && ci.Common().IsInvoke() {
					for _, g := range s.methods[ci.Common().Method.Name()] {
						s.dynamic[g] = true
					}
				}
			}
		}
	}
	// the printing of structures with %#v refuses everything else
	s.structs, s.given = map[*ssa.Function]bool{}, map[string]map[string]bool{}
	exempt := map[*ssa.Function]bool{}
	for _, fn := range fns {
		if fn.Signature.Params().Len() == 1 && types.IsInterface(fn.Params[0].Type()) && types.Identical(fn.Params[0].Type().Underlying(), types.NewInterfaceType(nil, nil)) && panicsUnlessStruct(fn) {
			s.structs[fn], exempt[fn] = true, true
		}
	}
	for more := len(exempt) > 0; more; {
		more = false
		for _, fn := range fns {
			if !exempt[fn] && fn.Pkg != nil && onlyUsedBy(p, fn, exempt) {
				exempt[fn], more = true, true
			}
		}
	}
	var rest []*ssa.Function
	for _, fn := range fns {
		if !exempt[fn] {
			rest = append(rest, fn)
		}
	}
	fns = rest
	errs := map[*ssa.Function]error{}
	for round := 0; round < 30; round++ {
		s.changed = false
		for _, fn := range fns {
			if err := s.scan(fn); err != nil {
				errs[fn] = err
			}
		}
		if s.last && !s.changed {
			break
		}
		if !s.changed {
			s.last = true
		}
	}
	for _, fn := range fns {
		r.Fn(shortFn(fn))
		if errs[fn] != nil {
			r.Undecided("paths", shortFn(fn), "%v", errs[fn])
		}
	}
	var keys []string
	for k := range s.holds {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		switch bad := s.holds[k]; bad {
		case "":
			r.Ok(s.rules[k], k)
		case "?":
			r.Undecided(s.rules[k], k, "not decided at %s", s.where[k])
		default:
			r.Fail(s.rules[k], k, s.where[k], "%s", bad)
		}
	}
	r.Min("nil", 300)
	r.Min("argument", 20)
	r.Min("made", 20)
	r.Min("result", 20)
	r.Min("index", 50)
}
