package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// Engine is a forward abstract interpreter over SSA. Values are syntactic terms; branches on undecided
// predicates partition the traces; loops are summarised once per loop body (never unrolled over symbolic data).
type Engine struct {
	p      *Prog
	opaque func(fn *ssa.Function) bool
	noPad  bool                                   // column alignment is not looked at
	inline func(fn *ssa.Function, args []*T) bool // calls looked into although fn is opaque
	effect func(fn *ssa.Function) bool            // opaque repository functions that have effects
	hook   func(fr *Frame, st *State, c *CallInfo) ([]CallRes, bool)
	steps  int
	budget int
	funcs  map[string]*ssa.Function
	loops  map[*ssa.Function]*loopForest
	depth  int
	stack  []*ssa.Function
	inl    map[*ssa.Function]bool // functions analysed by inlining
	nblk   int
	err    error
	watch  func(global string) bool // loads of these globals become events
	cutAll bool
	cut    func(fr *Frame, st *State, l *loop, ph map[*ssa.Phi]*T, ctx *loopCtx) []Result // analyses loops over something other than a list
	preds  map[*ssa.Function]predSet
	nonNil map[*ssa.Function]bool
	probe  func(fr *Frame, st *State, in ssa.Instruction, kind string, terms ...*T) // sees every operation that may panic
}

type CallInfo struct {
	name   string // canonical callee name; "m:Name" for unresolved interface methods
	fn     *ssa.Function
	method string
	args   []*T // receiver first
	pos    token.Pos
	sig    *types.Signature
	common *ssa.CallCommon
	caller *ssa.Function
}

type CallRes struct {
	st    *State
	val   *T
	panic bool
}

type deferred struct {
	ci   *CallInfo
	fnv  *T
	args []*T
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*T
	defers []deferred
	bind   []*T
	phiOv  map[*ssa.Phi]*T
}

func (f *Frame) clone() *Frame {
	n := &Frame{fn: f.fn, env: make(map[ssa.Value]*T, len(f.env)+8), bind: f.bind}
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferred{}, f.defers...)
	return n
}

const (
	rRet = iota
	rPanic
	rCont
	rExit
)

type Result struct {
	kind     int
	st       *State
	fr       *Frame
	vals     []*T
	from, to *ssa.BasicBlock
	pos      token.Pos
}

type loopCtx struct {
	loop *loop
}

func newEngine(p *Prog) *Engine {
	e := &Engine{p: p, budget: 400000, funcs: map[string]*ssa.Function{}, loops: map[*ssa.Function]*loopForest{}, inl: map[*ssa.Function]bool{}}
	e.opaque = func(*ssa.Function) bool { return false }
	return e
}

type undecided struct{ msg string }

func (e *Engine) bail(format string, a ...any) {
	panic(undecided{fmt.Sprintf(format, a...)})
}

// Analyse runs fn on the given arguments from st; it converts engine failures to an error.
func (e *Engine) Analyse(fn *ssa.Function, st *State, args []*T) (res []Result, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				err = fmt.Errorf("%s: undecided: %s", shortFn(fn), u.msg)
				return
			}
			panic(r)
		}
	}()
	e.steps = 0
	res = e.callFn(fn, st, args, nil)
	return res, nil
}

func (e *Engine) params(fn *ssa.Function) []*T {
	var out []*T
	for _, p := range fn.Params {
		out = append(out, mkParam(p.Type(), p.Name()))
	}
	return out
}

func (e *Engine) callFn(fn *ssa.Function, st *State, args []*T, bind []*T) []Result {
	if len(fn.Blocks) == 0 {
		e.bail("function %s has no body", fn)
	}
	e.inl[fn] = true
	fr := &Frame{fn: fn, env: map[ssa.Value]*T{}, bind: bind}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
			if args[i].typ == nil {
				args[i].typ = p.Type()
			}
		}
	}
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	return e.block(fr, st, fn.Blocks[0], nil, nil)
}

func (e *Engine) fnTerm(fn *ssa.Function) *T {
	k := fn.String() + "@" + strconv.Itoa(int(fn.Pos()))
	e.funcs[k] = fn
	return mkT(fn.Type(), "fn", k)
}

func (e *Engine) val(fr *Frame, v ssa.Value) *T {
	if t, ok := fr.env[v]; ok {
		return t
	}
	switch v := v.(type) {
	case *ssa.Const:
		t := mkConstVal(v.Value, v.Type())
		return t
	case *ssa.Global:
		return mkT(v.Type(), "global", globalName(v))
	case *ssa.Function:
		return e.fnTerm(v)
	case *ssa.Builtin:
		return mk("builtin", v.Name())
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == v && i < len(fr.bind) {
				return fr.bind[i]
			}
		}
		return mkT(v.Type(), "free", fr.fn.String()+"."+v.Name())
	}
	return mkT(v.Type(), "undef", fr.fn.String()+"."+v.Name())
}

func (e *Engine) jump(fr *Frame, st *State, from, to *ssa.BasicBlock, ctx *loopCtx) []Result {
	if ctx != nil {
		if to == ctx.loop.header {
			return []Result{{kind: rCont, st: st, fr: fr, from: from, to: to}}
		}
		if !ctx.loop.body[to] {
			return []Result{{kind: rExit, st: st, fr: fr, from: from, to: to}}
		}
	}
	lf := e.forest(fr.fn)
	if l := lf.byHeader[to]; l != nil && !l.body[from] {
		return e.enterLoop(fr, st, l, from, ctx)
	}
	return e.block(fr, st, to, from, ctx)
}

func (e *Engine) phis(fr *Frame, b, pred *ssa.BasicBlock) map[*ssa.Phi]*T {
	pi := -1
	for i, p := range b.Preds {
		if p == pred {
			pi = i
		}
	}
	out := map[*ssa.Phi]*T{}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if pi >= 0 {
			out[ph] = e.val(fr, ph.Edges[pi])
		}
	}
	return out
}

func (e *Engine) block(fr *Frame, st *State, b, pred *ssa.BasicBlock, ctx *loopCtx) []Result {
	ph := e.phis(fr, b, pred)
	return e.blockPhi(fr, st, b, ph, ctx)
}

func (e *Engine) blockPhi(fr *Frame, st *State, b *ssa.BasicBlock, ph map[*ssa.Phi]*T, ctx *loopCtx) []Result {
	e.nblk++
	i := 0
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := ph[p]
		if v == nil {
			v = mkT(p.Type(), "undef", p.Name())
		}
		fr.env[p] = v
		i++
	}
	return e.from(fr, st, b, i, ctx)
}

// from executes block b from instruction i on.
func (e *Engine) from(fr *Frame, st *State, b *ssa.BasicBlock, i int, ctx *loopCtx) []Result {
	for ; i < len(b.Instrs); i++ {
		e.steps++
		if e.steps > e.budget {
			e.bail("analysis budget of %d instructions exceeded in %s", e.budget, shortFn(fr.fn))
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.If:
			c := e.val(fr, in.Cond)
			return e.branch(fr, st, c, func(f *Frame, s *State, v bool) []Result {
				to := b.Succs[1]
				if v {
					to = b.Succs[0]
				}
				return e.jump(f, s, b, to, ctx)
			})
		case *ssa.Jump:
			return e.jump(fr, st, b, b.Succs[0], ctx)
		case *ssa.Return:
			vals := make([]*T, len(in.Results))
			for k, r := range in.Results {
				vals[k] = e.val(fr, r)
			}
			return []Result{{kind: rRet, st: st, fr: fr, vals: vals, pos: in.Pos()}}
		case *ssa.Panic:
			return []Result{{kind: rPanic, st: st, fr: fr, vals: []*T{e.val(fr, in.X)}, pos: in.Pos()}}
		case *ssa.Call:
			if e.probe != nil {
				e.probeCall(fr, st, in)
			}
			rs := e.call(fr, st, in.Common(), in.Pos())
			if len(rs) == 1 && !rs[0].panic {
				st = rs[0].st
				e.setv(fr, in, rs[0].val)
				continue
			}
			var out []Result
			for k, r := range rs {
				f2 := fr
				if k < len(rs)-1 {
					f2 = fr.clone()
				}
				if r.panic {
					out = append(out, Result{kind: rPanic, st: r.st, fr: f2, vals: []*T{r.val}, pos: in.Pos()})
					continue
				}
				e.setv(f2, in, r.val)
				out = append(out, e.from(f2, r.st, b, i+1, ctx)...)
			}
			return out
		case *ssa.RunDefers:
			if len(fr.defers) == 0 {
				continue
			}
			ds := fr.defers
			fr.defers = nil
			states := []CallRes{{st: st}}
			for k := len(ds) - 1; k >= 0; k-- {
				var next []CallRes
				for _, s := range states {
					next = append(next, e.apply(fr, s.st, ds[k].ci, ds[k].fnv, ds[k].args)...)
				}
				states = next
			}
			var out []Result
			for k, r := range states {
				f2 := fr
				if k < len(states)-1 {
					f2 = fr.clone()
				}
				out = append(out, e.from(f2, r.st, b, i+1, ctx)...)
			}
			return out
		default:
			e.instr(fr, st, in)
		}
	}
	e.bail("block without terminator")
	return nil
}

func (e *Engine) setv(fr *Frame, v ssa.Value, t *T) {
	if t == nil {
		t = mk("tuple", "")
	}
	if t.typ == nil && !t.isConst() && t.op != "seq" && t.op != "concat" {
		t.typ = v.Type()
	}
	fr.env[v] = t
}

func (e *Engine) branch(fr *Frame, st *State, c *T, k func(*Frame, *State, bool) []Result) []Result {
	if v, ok := st.decide(c); ok {
		return k(fr, st, v)
	}
	var out []Result
	f2, s2 := fr.clone(), st.clone()
	if s2.assume(c, true) {
		out = append(out, k(f2, s2, true)...)
	}
	if st.assume(c, false) {
		out = append(out, k(fr, st, false)...)
	}
	return out
}

func (e *Engine) instr(fr *Frame, st *State, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.DebugRef, *ssa.Send:
	case *ssa.Go:
		ci, fnv, args := e.callee(fr, st, in.Common(), in.Pos())
		ev := &Event{kind: "go", name: ci.name, args: args, pos: in.Pos(), fn: fr.fn}
		if fnv != nil {
			ev.args = append([]*T{fnv}, args...)
		}
		st.events = append(st.events, ev)
	case *ssa.Alloc:
		fr.env[in] = e.alloc(st, in.Type(), e.p.pos(in.Pos()))
	case *ssa.BinOp:
		if e.probe != nil && (in.Op == token.QUO || in.Op == token.REM) {
			e.probe(fr, st, in, "divide", e.val(fr, in.Y))
		}
		e.setv(fr, in, e.binop(in.Op, e.val(fr, in.X), e.val(fr, in.Y), in.X.Type()))
	case *ssa.UnOp:
		x := e.val(fr, in.X)
		switch in.Op {
		case token.MUL:
			if e.probe != nil {
				e.probe(fr, st, in, "nil", x)
			}
			v := e.loadVal(st, x, in.Type())
			e.setv(fr, in, v)
			if e.watch != nil {
				if g := globalRoot(x); g != "" && e.watch(g) {
					st.events = append(st.events, &Event{kind: "load", name: g, args: []*T{x}, pos: in.Pos(), fn: fr.fn})
				}
			}
		case token.NOT:
			fr.env[in] = mkNot(x)
		default:
			e.setv(fr, in, mkT(in.Type(), "un", in.Op.String(), x))
		}
	case *ssa.ChangeInterface:
		fr.env[in] = e.val(fr, in.X)
	case *ssa.ChangeType:
		x := e.val(fr, in.X)
		fr.env[in] = x
	case *ssa.MultiConvert:
		e.setv(fr, in, mkT(in.Type(), "conv", typeName(in.Type()), e.val(fr, in.X)))
	case *ssa.Convert:
		e.setv(fr, in, e.convert(in.Type(), in.X.Type(), e.val(fr, in.X)))
	case *ssa.MakeInterface:
		x := e.val(fr, in.X)
		if x.op == "as" {
			x = x.a[0]
		} else if x.isConst() || x.typ == nil {
			if x.op == "nil" {
				x = mkT(in.X.Type(), "typednil", typeName(in.X.Type()))
			}
		}
		fr.env[in] = x
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		ft := e.fnTerm(fn)
		args := []*T{}
		for _, b := range in.Bindings {
			args = append(args, e.val(fr, b))
		}
		fr.env[in] = mkT(in.Type(), "closure", ft.s, args...)
	case *ssa.MakeMap:
		st.nalloc++
		fr.env[in] = mkT(in.Type(), "new", fmt.Sprintf("%d", st.nalloc))
	case *ssa.MakeChan:
		st.nalloc++
		fr.env[in] = mkT(in.Type(), "new", fmt.Sprintf("%d", st.nalloc))
	case *ssa.MakeSlice:
		n := e.val(fr, in.Len)
		if v, ok := n.intVal(); ok && v == 0 {
			fr.env[in] = tEmpty
			break
		}
		st.nalloc++
		fr.env[in] = mkT(in.Type(), "mkslice", fmt.Sprintf("%d", st.nalloc), n)
	case *ssa.MapUpdate:
		m := e.val(fr, in.Map)
		if e.probe != nil {
			e.probe(fr, st, in, "mapset", m)
		}
		c := mk("mapc", "", m)
		st.mem[c] = mk("mapset", "", e.mapContent(st, m), e.val(fr, in.Key), e.val(fr, in.Value))
	case *ssa.FieldAddr:
		x := e.val(fr, in.X)
		if e.probe != nil {
			e.probe(fr, st, in, "nil", x)
		}
		if x.op == "global" || x.op == "faddr" || x.op == "eaddr" || true {
			stt := structOf(in.X.Type())
			e.setv(fr, in, mkT(in.Type(), "faddr", fieldKey(stt, in.Field), x))
		}
	case *ssa.Field:
		stt := structOf(in.X.Type())
		e.setv(fr, in, mkFld(e.val(fr, in.X), fieldKey(stt, in.Field), in.Type()))
	case *ssa.IndexAddr:
		if e.probe != nil {
			e.probe(fr, st, in, "index", e.val(fr, in.X), e.val(fr, in.Index))
		}
		e.setv(fr, in, mkT(in.Type(), "eaddr", "", e.val(fr, in.X), e.val(fr, in.Index)))
	case *ssa.Index:
		x := e.val(fr, in.X)
		i := e.val(fr, in.Index)
		if e.probe != nil {
			e.probe(fr, st, in, "index", x, i)
		}
		if x.op == "str" {
			if n, ok := i.intVal(); ok && n >= 0 && n < int64(len(x.s)) {
				fr.env[in] = mkInt(int64(x.s[n]))
				break
			}
		}
		e.setv(fr, in, mkCharAt(x, i, in.Type()))
	case *ssa.Lookup:
		e.setv(fr, in, e.lookup(fr, st, in))
	case *ssa.Range:
		e.setv(fr, in, mkT(in.Type(), "range", "", e.val(fr, in.X)))
	case *ssa.Next:
		it := e.val(fr, in.Iter)
		if lv := fr.env[ssa.Value(nextMarker(in))]; lv != nil {
			_ = lv
		}
		e.setv(fr, in, e.next(st, it, in))
	case *ssa.Slice:
		if e.probe != nil {
			ts := []*T{e.val(fr, in.X), nil, nil}
			if in.Low != nil {
				ts[1] = e.val(fr, in.Low)
			}
			if in.High != nil {
				ts[2] = e.val(fr, in.High)
			}
			e.probe(fr, st, in, "slice", ts...)
		}
		e.setv(fr, in, e.slice(fr, st, in))
	case *ssa.SliceToArrayPointer:
		e.setv(fr, in, mkT(in.Type(), "s2a", "", e.val(fr, in.X)))
	case *ssa.Store:
		a, v := e.val(fr, in.Addr), e.val(fr, in.Val)
		if e.probe != nil {
			e.probe(fr, st, in, "store", a, v)
		}
		st.store(a, v)
		if r := addrRoot(a); r.op != "new" && r.op != "mkslice" {
			st.events = append(st.events, &Event{kind: "store", name: "store", args: []*T{a, v}, pos: in.Pos(), fn: fr.fn})
		}
	case *ssa.TypeAssert:
		e.setv(fr, in, e.typeAssert(fr, st, in))
	case *ssa.Extract:
		e.setv(fr, in, mkExt(e.val(fr, in.Tuple), in.Index, in.Type()))
	case *ssa.Defer:
		ci, fnv, args := e.callee(fr, st, in.Common(), in.Pos())
		fr.defers = append(fr.defers, deferred{ci, fnv, args})
	case *ssa.Select:
		e.setv(fr, in, mkT(in.Type(), "opaque", e.fresh(st, "select")))
	default:
		if v, ok := in.(ssa.Value); ok {
			e.setv(fr, v, mkT(v.Type(), "opaque", e.fresh(st, fmt.Sprintf("%T", in))))
		}
	}
}

// globalRoot names the global variable an address is part of (directly, or through the pointer it holds).
func globalRoot(a *T) string {
	for {
		switch a.op {
		case "global", "gval":
			return a.s
		case "faddr", "eaddr", "fld", "elem", "deref":
			a = a.a[0]
		default:
			return ""
		}
	}
}

func nextMarker(in *ssa.Next) ssa.Value { return in }

func mkExt(t *T, i int, typ types.Type) *T {
	if t.op == "tuple" {
		if i < len(t.a) {
			return t.a[i]
		}
	}
	return mkT(typ, "ext", strconv.Itoa(i), t)
}

func (e *Engine) fresh(st *State, what string) string {
	st.ncall++
	return fmt.Sprintf("%s#%d", what, st.ncall)
}

func (e *Engine) alloc(st *State, typ types.Type, _ string) *T {
	st.nalloc++
	// the type is part of the identity so that numbering differences cannot conflate kinds
	return mkT(typ, "new", fmt.Sprintf("%d:%s", st.nalloc, typeName(typ)))
}

func (e *Engine) loadVal(st *State, a *T, typ types.Type) *T {
	if a.op == "global" && e.p.sent[a.s] {
		return mkT(typ, "sentinel", a.s)
	}
	if a.op == "global" && st.mem[a] == nil {
		if t := e.p.tables[a.s]; t != nil {
			return t
		}
	}
	return st.load(a, typ)
}

func (e *Engine) binop(op token.Token, x, y *T, xt types.Type) *T {
	b, _ := xt.Underlying().(*types.Basic)
	isStr := b != nil && b.Info()&types.IsString != 0
	isInt := b != nil && b.Info()&types.IsInteger != 0
	switch op {
	case token.ADD:
		if isStr {
			return mkConcat(x, y)
		}
		if n, ok := y.intVal(); ok && isInt {
			return mkAdd(x, n)
		}
		if n, ok := x.intVal(); ok && isInt {
			return mkAdd(y, n)
		}
		if x.id > y.id {
			x, y = y, x
		}
		return mk("bin", "+", x, y)
	case token.SUB:
		if n, ok := y.intVal(); ok && isInt {
			return mkAdd(x, -n)
		}
	case token.EQL:
		return mkEq(stripAs(x), stripAs(y))
	case token.NEQ:
		return mkNot(mkEq(stripAs(x), stripAs(y)))
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if op == token.GTR || op == token.LEQ {
			x, y = y, x
		}
		// now: LSS/GTR => x<y ; LEQ/GEQ => !(x<y)
		var c *T
		if isInt {
			c = mkLt(x, y)
		} else {
			c = mk("slt", "", x, y)
		}
		if op == token.LEQ || op == token.GEQ {
			return mkNot(c)
		}
		return c
	}
	if xv, ok := x.intVal(); ok {
		if yv, ok2 := y.intVal(); ok2 && isInt {
			v := constant.BinaryOp(constant.MakeInt64(xv), op, constant.MakeInt64(yv))
			_ = v
		}
	}
	return mk("bin", op.String(), x, y)
}

func isStrTyp(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *Engine) convert(to, from types.Type, x *T) *T {
	if isStrTyp(to) && isStrTyp(from) {
		return x
	}
	if isStrTyp(to) {
		if x.op == "bytes" {
			return x.a[0]
		}
		if n, ok := x.intVal(); ok {
			if b, ok := from.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return mkStr(string(rune(n)))
			}
		}
		return mkT(to, "tostr", "", x)
	}
	if isStrTyp(from) {
		return mkT(to, "bytes", "", x)
	}
	tb, ok1 := to.Underlying().(*types.Basic)
	fb, ok2 := from.Underlying().(*types.Basic)
	if ok1 && ok2 && tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0 {
		return x
	}
	return mkT(to, "conv", typeName(to), x)
}

func (e *Engine) mapContent(st *State, m *T) *T {
	if m.op == "mapset" || m.op == "emptymap" {
		return m
	}
	c := mk("mapc", "", m)
	if v, ok := st.mem[c]; ok {
		return v
	}
	if m.op == "new" {
		return mk("emptymap", "")
	}
	return mk("mapinit", "", m)
}

func (e *Engine) lookup(fr *Frame, st *State, in *ssa.Lookup) *T {
	x, k := e.val(fr, in.X), e.val(fr, in.Index)
	if isStrTyp(in.X.Type()) {
		return mkCharAt(x, k, in.Type())
	}
	mt := in.X.Type().Underlying().(*types.Map)
	content := e.mapContent(st, x)
	var val, ok *T
	for {
		if content.op == "mapset" {
			d, known := st.decide(mkEq(content.a[1], k))
			if known && d {
				val, ok = content.a[2], tTrue
				break
			}
			if known && !d {
				content = content.a[0]
				continue
			}
		}
		if content.op == "emptymap" {
			val, ok = zeroOf(mt.Elem()), tFalse
			break
		}
		if content.op == "mapcomp" {
			// m[key(e)] = val(e) for e over a collection: lookup finds the element whose key equals k
			tr := content.a[1]
			fresh := mk("bvt", "m")
			open := map[*T]*T{mk("bv", content.s): fresh}
			key, elt := replaceLeaf(tr.a[1], open), replaceLeaf(tr.a[2], open)
			guard := mkConj(append(append([]*T{}, replaceLeaf(tr.a[0], open).a...), mkEq(key, k)))
			g2 := replaceLeaf(guard, map[*T]*T{fresh: bv(closeHeight(guard) + 1)})
			ex := mkExists(content.a[0], g2)
			w := mk("last", "", content.a[0], g2)
			val, ok = subst(elt, map[*T]*T{fresh: w}), ex
			if !in.CommaOk {
				if d, known := st.decide(ex); known && !d {
					val = zeroOf(mt.Elem())
				} else {
					val = mkT(mt.Elem(), "ifelse", "", ex, val, zeroOf(mt.Elem()))
				}
			}
			break
		}
		val, ok = mkT(mt.Elem(), "lookup", "", content, k), mk("haskey", "", content, k)
		if all, yes, bools := constSet(content); all != nil {
			ok = mkIn(k, all)
			if bools {
				val = mkIn(k, yes)
			}
		}
		break
	}
	if in.CommaOk {
		return mk("tuple", "", val, ok)
	}
	return val
}

// constSet: the map has constant keys only; its keys, and the ones that map to true when its values are booleans.
func constSet(m *T) (all, yes []*T, bools bool) {
	bools = true
	seen := map[*T]bool{}
	for ; m.op == "mapset"; m = m.a[0] {
		if !m.a[1].isConst() {
			return nil, nil, false
		}
		if seen[m.a[1]] {
			continue
		}
		seen[m.a[1]] = true
		all = append(all, m.a[1])
		switch m.a[2] {
		case tTrue:
			yes = append(yes, m.a[1])
		case tFalse:
		default:
			bools = false
		}
	}
	if m.op != "emptymap" || len(all) == 0 {
		return nil, nil, false
	}
	return all, yes, bools
}

func (e *Engine) next(st *State, it *T, in *ssa.Next) *T {
	// outside a summarised loop: nothing is known
	if ov := st.mem[mk("iter", "", it)]; ov != nil {
		if ov.op == "end" {
			return mk("tuple", "", tFalse, tNil, tNil)
		}
		kt, vt := iterTypes(in)
		c := it.a[0]
		if isStringT(c) || in.IsString {
			return mk("tuple", "", tTrue, mkT(kt, "add", "0", ov), mkT(vt, "rune", "", c, ov))
		}
		return mk("tuple", "", tTrue, mkT(kt, "mkey", "", c, ov), mkT(vt, "mval", "", c, ov))
	}
	return mkT(in.Type(), "opaque", e.fresh(st, "next"))
}

func iterTypes(in *ssa.Next) (types.Type, types.Type) {
	tt := in.Type().(*types.Tuple)
	return tt.At(1).Type(), tt.At(2).Type()
}

func (e *Engine) slice(fr *Frame, st *State, in *ssa.Slice) *T {
	x := e.val(fr, in.X)
	var lo, hi *T
	if in.Low != nil {
		lo = e.val(fr, in.Low)
	}
	if in.High != nil {
		hi = e.val(fr, in.High)
	}
	if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		if at, ok := pt.Elem().Underlying().(*types.Array); ok {
			if lo == nil && (x.op == "new") && at.Len() <= 4096 {
				n := at.Len()
				if hi != nil {
					v, ok := hi.intVal()
					if !ok {
						return mkSlice(in.Type(), x, mkInt(0), hi)
					}
					n = v
					if n == 0 {
						return tEmpty
					}
				}
				parts := []*T{}
				for i := int64(0); i < n; i++ {
					parts = append(parts, mkItem(stripAsKeep(st.load(mkEaddr(x, mkInt(i)), at.Elem()))))
				}
				return mkSeq(parts...)
			}
		}
	}
	if lo != nil {
		if v, ok := lo.intVal(); ok && v == 0 {
			lo = nil
		}
	}
	if lo == nil && hi == nil {
		return x
	}
	if hi != nil && hi == mkLen(x) && lo == nil {
		return x
	}
	if lo == nil {
		lo = mkInt(0)
	}
	if x.op == "str" {
		l, ok1 := lo.intVal()
		h, ok2 := int64(len(x.s)), true
		if hi != nil {
			h, ok2 = hi.intVal()
		}
		if ok1 && ok2 && l >= 0 && h >= l && h <= int64(len(x.s)) {
			return mkStr(x.s[l:h])
		}
	}
	if its, ok := onlyItems(x); ok && !isStrTyp(in.X.Type()) {
		l, ok1 := lo.intVal()
		h, ok2 := int64(len(its)), true
		if hi != nil {
			h, ok2 = hi.intVal()
		}
		if ok1 && ok2 && l >= 0 && h >= l && h <= int64(len(its)) {
			ps := []*T{}
			for _, i := range its[l:h] {
				ps = append(ps, mkItem(i))
			}
			return mkSeq(ps...)
		}
	}
	if hi == nil {
		hi = mkLen(x)
	}
	return mkSlice(in.Type(), x, lo, hi)
}

func stripAsKeep(x *T) *T { return x }

func typeKey(t types.Type) string {
	if types.IsInterface(t) {
		return "iface " + types.TypeString(t, nil)
	}
	return types.TypeString(t, nil)
}

func mkTypeIs(x *T, t types.Type) *T {
	x = stripAs(x)
	if x.op == "nil" {
		return tFalse
	}
	if x.typ != nil && !types.IsInterface(x.typ) && !types.IsInterface(t) {
		if _, isTuple := x.typ.(*types.Tuple); !isTuple {
			return mkBool(types.Identical(x.typ, t))
		}
	}
	if x.typ != nil && !types.IsInterface(x.typ) && types.IsInterface(t) {
		return mkBool(types.Implements(x.typ, t.Underlying().(*types.Interface)))
	}
	return mkT(t, "typeis", typeKey(t), x)
}

func mkAs(x *T, t types.Type) *T {
	x = stripAs(x)
	if types.IsInterface(t) {
		return x
	}
	if x.typ != nil && !types.IsInterface(x.typ) {
		return x
	}
	return mkT(t, "as", types.TypeString(t, nil), x)
}

func (e *Engine) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert) *T {
	x := e.val(fr, in.X)
	if x.typ == nil && !x.isConst() {
		x.typ = in.X.Type()
	}
	if e.probe != nil && !in.CommaOk {
		e.probe(fr, st, in, "assert", x)
	}
	is := mkTypeIs(x, in.AssertedType)
	v := mkAs(x, in.AssertedType)
	if in.CommaOk {
		if d, ok := st.decide(is); ok && !d {
			return mk("tuple", "", zeroOf(in.AssertedType), tFalse)
		} else if ok {
			is = tTrue
		}
		return mk("tuple", "", v, is)
	}
	ev := &Event{kind: "assert", name: typeKey(in.AssertedType), args: []*T{is}, pos: in.Pos(), fn: fr.fn, ret: tFalse}
	if d, ok := st.decide(is); ok && d {
		ev.ret = tTrue
	}
	st.events = append(st.events, ev)
	return v
}

// ---- calls ----

func (e *Engine) callee(fr *Frame, st *State, c *ssa.CallCommon, pos token.Pos) (*CallInfo, *T, []*T) {
	ci := &CallInfo{pos: pos, sig: c.Signature(), common: c, caller: fr.fn}
	var args []*T
	for _, a := range c.Args {
		args = append(args, e.val(fr, a))
	}
	if c.IsInvoke() {
		recv := e.val(fr, c.Value)
		args = append([]*T{recv}, args...)
		ci.method = c.Method.Name()
		ci.name = "m:" + c.Method.Name()
		return ci, nil, args
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		ci.name = "builtin:" + b.Name()
		return ci, nil, args
	}
	if fn, ok := c.Value.(*ssa.Function); ok {
		ci.fn = fn
		ci.name = fnName(fn)
		if fn.Signature.Recv() != nil {
			ci.method = fn.Name()
		}
		return ci, nil, args
	}
	return ci, e.val(fr, c.Value), args
}

func (e *Engine) call(fr *Frame, st *State, c *ssa.CallCommon, pos token.Pos) []CallRes {
	ci, fnv, args := e.callee(fr, st, c, pos)
	return e.apply(fr, st, ci, fnv, args)
}

func (e *Engine) apply(fr *Frame, st *State, ci0 *CallInfo, fnv *T, args []*T) []CallRes {
	cc := *ci0
	ci := &cc
	ci.args = args
	var bind []*T
	if ci.fn == nil && fnv != nil {
		switch fnv.op {
		case "fn":
			ci.fn = e.funcs[fnv.s]
		case "closure":
			ci.fn = e.funcs[fnv.s]
			bind = fnv.a
		case "gval":
			ci.name = "gval:" + fnv.s
		case "typednil", "nil":
			ci.name = "nilfunc"
		default:
			ci.name = "dyn:" + fnv.String()
		}
		if ci.fn != nil {
			ci.name = fnName(ci.fn)
			if ci.fn.Signature.Recv() != nil {
				ci.method = ci.fn.Name()
			}
		}
	}
	// resolve interface methods on receivers of known dynamic type
	if ci.fn == nil && ci.method != "" && len(args) > 0 {
		if t := e.dynType(st, args[0]); t != nil {
			if f := e.methodOf(t, ci.method, ci.sig); f != nil {
				ci.fn = f
				ci.name = fnName(f)
				if args[0].typ == nil || types.IsInterface(args[0].typ) {
					args = append([]*T{mkAs(args[0], t)}, args[1:]...)
					ci.args = args
				}
			}
		}
	}
	if e.hook != nil {
		if r, ok := e.hook(fr, st, ci); ok {
			return r
		}
	}
	if r, ok := e.model(fr, st, ci); ok {
		return r
	}
	if ci.fn != nil && len(ci.fn.Blocks) > 0 && (isRepoFn(ci.fn) || ci.fn.Synthetic != "") && (!e.opaque(ci.fn) || e.inline != nil && e.inline(ci.fn, args)) {
		n := 0
		for _, f := range e.stack {
			if f == ci.fn {
				n++
			}
		}
		if n == 0 && len(e.stack) < 40 {
			rs := e.callFn(ci.fn, st, args, bind)
			var out []CallRes
			for _, r := range rs {
				switch r.kind {
				case rRet:
					var v *T
					switch len(r.vals) {
					case 0:
						v = mk("tuple", "")
					case 1:
						v = r.vals[0]
					default:
						v = mk("tuple", "", r.vals...)
					}
					out = append(out, CallRes{st: r.st, val: v})
				case rPanic:
					out = append(out, CallRes{st: r.st, val: r.vals[0], panic: true})
				default:
					e.bail("unexpected result kind from %s", ci.name)
				}
			}
			return mergeRes(out)
		}
		// recursion: nothing is known about the result
		v := e.opaqueCall(fr, st, ci)
		if v != nil && v.op == "call" {
			v = mkT(v.typ, "reccall", v.s, v.a...)
		}
		return []CallRes{{st: st, val: v}}
	}
	return []CallRes{{st: st, val: e.opaqueCall(fr, st, ci)}}
}

// mergeRes joins outcomes that differ only in one complementary decision.
func mergeRes(rs []CallRes) []CallRes {
	for changed := true; changed && len(rs) > 1; {
		changed = false
	outer:
		for i := 0; i < len(rs); i++ {
			for j := i + 1; j < len(rs); j++ {
				if rs[i].panic != rs[j].panic || rs[i].val != rs[j].val || len(rs[i].st.lits) != len(rs[j].st.lits) {
					continue
				}
				if m := mergeStates(rs[i].st, rs[j].st); m != nil {
					rs[i].st = m
					rs = append(rs[:j], rs[j+1:]...)
					changed = true
					break outer
				}
			}
		}
	}
	return rs
}

func mergeStates(a, b *State) *State {
	diff := -1
	for i := range a.lits {
		if a.lits[i] != b.lits[i] {
			if diff >= 0 || a.lits[i] != mkNot(b.lits[i]) {
				return nil
			}
			diff = i
		}
	}
	if diff < 0 {
		return nil
	}
	if len(a.mem) != len(b.mem) || len(a.events) != len(b.events) {
		return nil
	}
	for k, v := range a.mem {
		if b.mem[k] != v {
			return nil
		}
	}
	for i := range a.events {
		if a.events[i] != b.events[i] {
			return nil
		}
	}
	n := a.clone()
	l := a.lits[diff]
	n.lits = append(append([]*T{}, a.lits[:diff]...), a.lits[diff+1:]...)
	if l.op == "not" {
		l = l.a[0]
	}
	delete(n.known, l)
	if b.nalloc > n.nalloc {
		n.nalloc = b.nalloc
	}
	if b.ncall > n.ncall {
		n.ncall = b.ncall
	}
	return n
}

// dynType gives the concrete dynamic type of a value where it is known.
func (e *Engine) dynType(st *State, x *T) types.Type {
	if x.op == "as" {
		return x.typ
	}
	if x.typ != nil && !types.IsInterface(x.typ) {
		if _, ok := x.typ.(*types.Tuple); !ok {
			return x.typ
		}
	}
	for l, v := range st.known {
		if v && l.op == "typeis" && l.a[0] == x && l.typ != nil && !types.IsInterface(l.typ) {
			return l.typ
		}
	}
	return nil
}

func (e *Engine) methodOf(t types.Type, name string, _ *types.Signature) *ssa.Function {
	ms := e.p.ssa.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			if tf, ok := ms.At(i).Obj().(*types.Func); ok && len(ms.At(i).Index()) == 1 {
				if d := e.p.ssa.FuncValue(tf); d != nil {
					// value receiver called through pointer: use wrapper
					if _, ptrT := t.Underlying().(*types.Pointer); ptrT {
						if _, ptrR := d.Signature.Recv().Type().Underlying().(*types.Pointer); !ptrR {
							return e.p.ssa.MethodValue(ms.At(i))
						}
					}
					return d
				}
			}
			return e.p.ssa.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (e *Engine) opaqueCall(fr *Frame, st *State, ci *CallInfo) *T {
	rt := resultType(ci.sig)
	if e.isPure(ci) {
		args := make([]*T, len(ci.args))
		for i, a := range ci.args {
			args[i] = stripAs(a)
		}
		if ci.method == "MatchString" && len(args) == 2 {
			return mkLt(mkInt(0), mkLen(mkT(types.NewSlice(types.Typ[types.String]), "m", "FindStringSubmatch", args...)))
		}
		if ci.method != "" {
			return mkT(rt, "m", ci.method, args...)
		}
		if v := foldConst(ci.name, args); v != nil {
			return v
		}
		return mkT(rt, "call", ci.name, args...)
	}
	return e.effectCall(fr, st, ci)
}

func (e *Engine) effectCall(fr *Frame, st *State, ci *CallInfo) *T {
	rt := resultType(ci.sig)
	id := e.fresh(st, ci.name)
	ret := mkT(rt, "ret", id, st.lvs...)
	st.events = append(st.events, &Event{kind: "call", name: ci.name, args: ci.args, ret: ret, pos: ci.pos, fn: ci.caller})
	// out-parameters
	havocked := 0
	var out func(a *T)
	out = func(a *T) {
		switch a.op {
		case "new":
			if isBuf(a.typ) {
				havocked++
				k := mk("sbuf", "", a)
				st.mem[k] = mkConcat(e.sbuf(st, a), mkT(types.Typ[types.String], "written", fmt.Sprintf("%s.%d", id, havocked), st.lvs...))
				return
			}
			if et := derefType(a.typ); et != nil && !isOpaqueStruct(et) {
				havocked++
				st.store(a, mkT(et, "out", fmt.Sprintf("%s.%d", id, havocked), st.lvs...))
			}
		case "faddr", "eaddr":
			if addrRoot(a).op == "new" {
				havocked++
				var et types.Type
				if a.typ != nil {
					et = derefType(a.typ)
				}
				st.store(a, mkT(et, "out", fmt.Sprintf("%s.%d", id, havocked), st.lvs...))
			}
		case "seq":
			for _, p := range a.a {
				if p.op == "it" {
					out(p.a[0])
				}
			}
		}
	}
	if !readsOnly(ci) {
		for _, a := range ci.args {
			out(a)
		}
	}
	return ret
}

func resultType(sig *types.Signature) types.Type {
	if sig == nil {
		return nil
	}
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// readsOnly names effects that only read what their arguments point to (printing, encoding, logging).
func readsOnly(ci *CallInfo) bool {
	switch lastSeg(ci.name) {
	case "Print", "Printf", "Println", "Encode", "Marshal", "MarshalIndent":
		return true
	}
	return false
}
