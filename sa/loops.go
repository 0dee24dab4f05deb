package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	latch  map[*ssa.BasicBlock]bool
}

type loopForest struct {
	byHeader map[*ssa.BasicBlock]*loop
	list     []*loop
}

func (e *Engine) forest(fn *ssa.Function) *loopForest {
	if f, ok := e.loops[fn]; ok {
		return f
	}
	f := buildForest(fn)
	e.loops[fn] = f
	return f
}

func buildForest(fn *ssa.Function) *loopForest {
	f := &loopForest{byHeader: map[*ssa.BasicBlock]*loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := f.byHeader[s]
				if l == nil {
					l = &loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}, latch: map[*ssa.BasicBlock]bool{}}
					f.byHeader[s] = l
					f.list = append(f.list, l)
				}
				l.latch[b] = true
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	return f
}

type loopKind struct {
	kind  string // "unroll", "coll", "next", "while"
	idx   *ssa.Phi
	coll  *T
	start int64 // first tested index value
	k     int64 // tested value is idx+k
	iter  *T
}

func (e *Engine) classify(fr *Frame, st *State, l *loop, ph map[*ssa.Phi]*T) loopKind {
	f2, s2 := fr.clone(), st.clone()
	s2.events = nil
	ivars := map[*T]*ssa.Phi{}
	for p := range ph {
		t := mkT(p.Type(), "ivar", fmt.Sprintf("%s.%s", p.Parent().Name(), p.Name()))
		ivars[t] = p
		f2.env[p] = t
	}
	var cond *T
	var iter *T
	for _, in := range l.header.Instrs {
		switch in := in.(type) {
		case *ssa.Phi:
		case *ssa.If:
			cond = e.val(f2, in.Cond)
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len") {
				f2.env[in] = mkLen(stripAs(e.val(f2, in.Call.Args[0])))
			} else {
				f2.env[in] = mkT(in.Type(), "opaque", "trial."+in.Name())
			}
		case *ssa.Next:
			iter = e.val(f2, in.Iter)
			f2.env[in] = mkT(in.Type(), "trialnext", "", iter)
		case *ssa.Jump, *ssa.Return, *ssa.Panic, *ssa.RunDefers, *ssa.Store, *ssa.MapUpdate, *ssa.Defer:
		default:
			e.instr(f2, s2, in)
		}
	}
	w := loopKind{kind: "while"}
	if cond == nil || len(l.header.Succs) != 2 {
		return w
	}
	in0, in1 := l.body[l.header.Succs[0]], l.body[l.header.Succs[1]]
	if in0 == in1 {
		return w
	}
	if !in0 {
		cond = mkNot(cond)
	}
	if cond.op == "ext" && cond.a[0].op == "trialnext" {
		return loopKind{kind: "next", coll: iter.a[0], iter: iter}
	}
	// normalise to  x + k < N
	var x, n *T
	switch {
	case cond.op == "lt":
		x, n = cond.a[0], cond.a[1]
	case cond.op == "not" && cond.a[0].op == "lt":
		// !(N < x)  <=> x < N+1
		x, n = cond.a[0].a[1], mkAdd(cond.a[0].a[0], 1)
	case cond.op == "not" && cond.a[0].op == "eq":
		x, n = cond.a[0].a[0], cond.a[0].a[1]
		bx, _ := splitAdd(x)
		if bx == nil || ivars[bx] == nil {
			x, n = n, x
		}
	default:
		return w
	}
	bx, k := splitAdd(x)
	if bx == nil || ivars[bx] == nil {
		return w
	}
	// move constants: bx + k < n ; split n
	bn, kn := splitAdd(n)
	if bn == nil {
		n = mkInt(kn)
	} else {
		// keep n's offset by moving it to the left: bx + (k-kn) < bn
		n = bn
		k -= kn
	}
	p := ivars[bx]
	for iv := range ivars {
		if contains(n, iv) {
			return w
		}
	}
	// every back edge must increment by one
	for i, pr := range l.header.Preds {
		if !l.body[pr] {
			continue
		}
		bo, ok := p.Edges[i].(*ssa.BinOp)
		if !ok || bo.Op != token.ADD || bo.X != ssa.Value(p) {
			return w
		}
		c, ok := bo.Y.(*ssa.Const)
		if !ok || c.Int64() != 1 {
			return w
		}
	}
	init, ok := ph[p].intVal()
	if !ok {
		return w
	}
	if nv, ok := n.intVal(); ok {
		if nv-(init+k) > 256 {
			return w
		}
		return loopKind{kind: "unroll"}
	}
	var coll *T
	if n.op == "len" {
		coll = n.a[0]
	} else {
		coll = mk("rangeint", "", n)
	}
	return loopKind{kind: "coll", idx: p, coll: coll, start: init + k, k: k}
}

type loopState struct {
	fr *Frame
	st *State
	ph map[*ssa.Phi]*T
}

func clonePh(m map[*ssa.Phi]*T) map[*ssa.Phi]*T {
	n := map[*ssa.Phi]*T{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (e *Engine) enterLoop(fr *Frame, st *State, l *loop, pred *ssa.BasicBlock, ctx *loopCtx) []Result {
	ph := e.phis(fr, l.header, pred)
	lk := e.classify(fr, st, l, ph)
	switch lk.kind {
	case "unroll":
		if e.cutAll && e.cut != nil && e.reads(l) {
			return e.cut(fr, st, l, ph, ctx)
		}
		return e.blockPhi(fr, st, l.header, ph, ctx)
	case "while":
		if e.cut != nil {
			return e.cut(fr, st, l, ph, ctx)
		}
		return e.whileLoop(fr, st, l, ph, ctx)
	}
	coll := lk.coll
	iterKey := mk("nokey", "")
	if lk.kind == "next" {
		iterKey = mk("iter", "", lk.iter)
	}
	var out []Result
	states := []loopState{{fr, st, ph}}
	setIdx := func(s loopState, idx *T) loopState {
		n := loopState{s.fr, s.st, clonePh(s.ph)}
		if lk.kind == "next" {
			n.st = n.st.clone()
			n.st.mem[iterKey] = idx
		} else {
			n.ph[lk.idx] = mkAdd(idx, -lk.k)
		}
		return n
	}
	parts := []*T{mkSplice(coll)}
	if coll.op == "seq" && lk.start == 0 && lk.kind == "coll" {
		parts = coll.a
	}
	for _, part := range parts {
		var next []loopState
		for _, s := range states {
			switch {
			case part.op == "it":
				it := setIdx(s, mk("at", "", coll, part.a[0]))
				rs := e.blockPhi(it.fr.clone(), it.st.clone(), l.header, it.ph, &loopCtx{l})
				for _, r := range rs {
					if r.kind == rCont {
						next = append(next, loopState{r.fr, r.st, e.phis(r.fr, l.header, r.from)})
					} else if r.kind == rExit {
						out = append(out, e.jump(r.fr, r.st, r.from, r.to, ctx)...)
					} else {
						out = append(out, r)
					}
				}
			default:
				c := coll
				lvIdx := func(lv *T) *T { return mkAdd(lv, lk.start) }
				var trs []*T
				var h string
				if part.op == "comp" && part.s[0] == 'l' && fusible(part) {
					c = part.a[0]
					trs = part.a[1:]
					h = part.s[2:]
				} else if part.op == "spl" {
					if len(parts) > 1 || coll.op == "seq" {
						c = part.a[0]
						inner := c
						lvIdx = func(lv *T) *T { return mk("at", "", coll, mkElem(inner, lv, elemType(coll, lk.idx))) }
					} else if lk.start != 0 {
						c = mk("slice", "", coll, mkInt(lk.start), mkLen(coll))
					}
				} else {
					c = mkSeq(part)
					lvIdx = func(lv *T) *T { return mk("at", "", coll, mkElem(c, lv, nil)) }
				}
				run := func(s1 loopState, lv *T) ([]loopState, []Result) {
					var conts []loopState
					var others []Result
					step := func(s loopState, idx *T) []loopState {
						it := setIdx(s, idx)
						rs := e.blockPhi(it.fr.clone(), it.st.clone(), l.header, it.ph, &loopCtx{l})
						var cs []loopState
						for _, r := range rs {
							if r.kind == rCont {
								cs = append(cs, loopState{r.fr, r.st, e.phis(r.fr, l.header, r.from)})
							} else {
								others = append(others, r)
							}
						}
						return cs
					}
					if trs == nil {
						conts = step(s1, lvIdx(lv))
						return conts, others
					}
					b := mk("bv", h)
					for _, tr := range trs {
						m := map[*T]*T{b: lv}
						s2 := loopState{s1.fr.clone(), s1.st.clone(), s1.ph}
						okk := true
						for _, g := range tr.a[0].a {
							if !s2.st.assume(subst(g, m), true) {
								okk = false
							}
						}
						if !okk {
							continue
						}
						cur := []loopState{s2}
						items, _ := onlyItems(subst(tr.a[1], m))
						for _, item := range items {
							var nx []loopState
							for _, q := range cur {
								nx = append(nx, step(q, mk("at", "", coll, item))...)
							}
							cur = nx
						}
						conts = append(conts, cur...)
					}
					return conts, others
				}
				conts, exits := e.summarise(s, l, lk, c, run, iterKey)
				next = append(next, conts...)
				for _, r := range exits {
					if r.kind == rExit {
						out = append(out, e.jump(r.fr, r.st, r.from, r.to, ctx)...)
					} else {
						out = append(out, r)
					}
				}
			}
		}
		states = next
		if len(states) > 400 {
			e.bail("too many states after a loop in %s", shortFn(fr.fn))
		}
	}
	for _, s := range states {
		end := mk("end", "")
		if lk.kind == "coll" && lk.start == 0 {
			end = mkLen(coll)
			if coll.op == "rangeint" {
				end = coll.a[0]
			}
		}
		t := setIdx(s, end)
		out = append(out, e.blockPhi(t.fr, t.st, l.header, t.ph, ctx)...)
	}
	return out
}

func elemType(coll *T, _ *ssa.Phi) types.Type {
	if coll.typ != nil {
		if s, ok := coll.typ.Underlying().(*types.Slice); ok {
			return s.Elem()
		}
	}
	return nil
}

func fusible(comp *T) bool {
	for _, tr := range comp.a[1:] {
		if _, ok := onlyItems(tr.a[1]); !ok {
			return false
		}
	}
	return true
}

func mkExists(coll, guard *T) *T {
	if guard == tFalse {
		return tFalse
	}
	if guard.op == "conj" && len(guard.a) == 0 {
		return mkNot(mkEq(mkLen(coll), mkInt(0)))
	}
	return mk("exists", "", coll, guard)
}

func mkFirst(coll, guard *T) *T { return mk("first", "", coll, guard) }

func closeGuard(lv *T, lits []*T) *T {
	g := mkConj(lits)
	h := closeHeight(g) + 1
	return subst(g, map[*T]*T{lv: bv(h)})
}

type trc struct {
	lits    []*T
	content *T
}

func closeComp(kind string, coll, lv *T, trs []trc) *T {
	h := 0
	var gs, cs []*T
	for _, t := range trs {
		g := mkConj(t.lits)
		gs = append(gs, g)
		cs = append(cs, t.content)
		if x := closeHeight(g, t.content); x > h {
			h = x
		}
	}
	b := bv(h + 1)
	args := []*T{coll}
	seen := map[*T]bool{}
	for i := range gs {
		m := map[*T]*T{lv: b}
		tr := mk("tr", "", subst(gs[i], m), subst(cs[i], m))
		if !seen[tr] {
			seen[tr] = true
			args = append(args, tr)
		}
	}
	return mk("comp", kind+":"+strconv.Itoa(h+1), args...)
}

// summarise analyses one generic iteration of the loop body over coll and returns the states in which all of
// coll has been processed, and the states that left the loop from inside.
func (e *Engine) summarise(s loopState, l *loop, lk loopKind, coll *T, run func(loopState, *T) ([]loopState, []Result), iterKey *T) ([]loopState, []Result) {
	st := s.st
	lv := mk("loopvar", strconv.Itoa(st.depth), coll)
	cells := []*T{}
	isCell := map[*T]bool{}
	secondary := map[*T]*T{} // acc -> value in terms of lv (counters)
	constAfter := map[*T]*T{}
	accOfPhi := map[*ssa.Phi]*T{}
	initOf := map[*T]*T{}
	for p, v := range s.ph {
		if p == lk.idx {
			continue
		}
		a := mkT(p.Type(), "acc", fmt.Sprintf("%d.%s.%s", st.depth, p.Parent().RelString(nil), p.Name()))
		accOfPhi[p] = a
		initOf[a] = v
	}
	accOfCell := map[*T]*T{}
	cellInit := func(c *T) *T {
		if v, ok := st.mem[c]; ok {
			return v
		}
		switch c.op {
		case "sbuf":
			return e.sbufInit(st, c.a[0])
		case "mapc":
			return e.mapContent(st, c.a[0])
		}
		t := derefType(c.typ)
		if t == nil {
			return mk("undef", "cell")
		}
		return st.load(c, t)
	}
	var conts []loopState
	var exits []Result
	mark := 0
	for round := 0; ; round++ {
		if round > 12 {
			e.bail("loop summary does not stabilise in %s", shortFn(s.fr.fn))
		}
		mkStart := func() loopState {
			s1 := loopState{s.fr.clone(), st.clone(), clonePh(s.ph)}
			s1.st.depth++
			s1.st.lvs = append(s1.st.lvs, lv)
			s1.st.events = nil
			for p, a := range accOfPhi {
				s1.ph[p] = a
				if v, ok := secondary[a]; ok {
					s1.ph[p] = v
				}
			}
			for _, c := range cells {
				a := accOfCell[c]
				s1.st.mem[c] = a
				if v, ok := secondary[a]; ok {
					s1.st.mem[c] = v
				}
			}
			return s1
		}
		mark = len(st.lits)
		if len(constAfter) == 0 {
			conts, exits = run(mkStart(), lv)
		} else {
			conts, exits = nil, nil
			for _, first := range []bool{true, false} {
				s1 := mkStart()
				if !s1.st.assume(mkEq(lv, mkInt(0)), first) {
					continue
				}
				for p, a := range accOfPhi {
					if c, ok := constAfter[a]; ok {
						if first {
							s1.ph[p] = initOf[a]
						} else {
							s1.ph[p] = c
						}
					}
				}
				for _, cl := range cells {
					a := accOfCell[cl]
					if c, ok := constAfter[a]; ok {
						if first {
							s1.st.mem[cl] = initOf[a]
						} else {
							s1.st.mem[cl] = c
						}
					}
				}
				cs, xs := run(s1, lv)
				conts = append(conts, cs...)
				exits = append(exits, xs...)
			}
		}
		if len(conts)+len(exits) > 600 {
			e.bail("too many paths through a loop body in %s", shortFn(s.fr.fn))
		}
		var fresh []*T
		note := func(m map[*T]*T) {
			for k, v := range m {
				if isCell[k] || k == iterKey || k.op == "iter" {
					continue
				}
				if old, ok := st.mem[k]; ok && old == v {
					continue
				}
				if contains(k, lv) {
					continue
				}
				r := addrRoot(k)
				if r.op == "new" && newNum(r) > st.nalloc {
					continue
				}
				isCell[k] = true
				fresh = append(fresh, k)
			}
		}
		for _, c := range conts {
			note(c.st.mem)
		}
		for _, x := range exits {
			note(x.st.mem)
		}
		if len(fresh) > 0 {
			sort.Slice(fresh, func(i, j int) bool { return fresh[i].id < fresh[j].id })
			for _, c := range fresh {
				t := derefType(c.typ)
				if c.op == "sbuf" {
					t = types.Typ[types.String]
				}
				a := mkT(t, "acc", fmt.Sprintf("%d.cell.%d", st.depth, c.id))
				accOfCell[c] = a
				initOf[a] = cellInit(c)
				cells = append(cells, c)
			}
			continue
		}
		// secondary induction variables and "first iteration" flags
		again := false
		check := func(a *T, get func(loopState) *T) {
			if _, ok := secondary[a]; ok {
				return
			}
			if _, ok := constAfter[a]; ok {
				return
			}
			if len(conts) == 0 {
				return
			}
			allInc := true
			var cv *T
			allConst := true
			for _, c := range conts {
				v := get(c)
				if v != mkAdd(a, 1) {
					allInc = false
				}
				if !v.isConst() || (cv != nil && cv != v) {
					allConst = false
				}
				cv = v
			}
			if allInc {
				if n, ok := initOf[a].intVal(); ok && coll.op != "while" {
					secondary[a] = mkAdd(lv, n)
					again = true
				}
			} else if allConst && initOf[a].isConst() && initOf[a] != cv && coll.op != "while" {
				constAfter[a] = cv
				again = true
			}
		}
		for _, p := range sortedPhis(accOfPhi) {
			p := p
			check(accOfPhi[p], func(c loopState) *T { return c.ph[p] })
		}
		for _, cl := range cells {
			cl := cl
			check(accOfCell[cl], func(c loopState) *T { return c.st.mem[cl] })
		}
		if !again {
			break
		}
	}
	maxAlloc, maxCall := st.nalloc, st.ncall
	upd := func(x *State) {
		if x.nalloc > maxAlloc {
			maxAlloc = x.nalloc
		}
		if x.ncall > maxCall {
			maxCall = x.ncall
		}
	}
	for _, c := range conts {
		upd(c.st)
	}
	for _, x := range exits {
		upd(x.st)
	}
	// the value of an accumulator before the iteration for lv, as a fold over the earlier iterations
	accs := []*T{}
	isAcc := map[*T]bool{}
	getOf := map[*T]func(loopState) *T{}
	for _, p := range sortedPhis(accOfPhi) {
		p := p
		a := accOfPhi[p]
		accs, isAcc[a] = append(accs, a), true
		getOf[a] = func(c loopState) *T { return c.ph[p] }
	}
	for _, cl := range cells {
		cl := cl
		a := accOfCell[cl]
		accs, isAcc[a] = append(accs, a), true
		getOf[a] = func(c loopState) *T { return c.st.mem[cl] }
	}
	vals := make([]map[*T]*T, len(conts))
	for i, c := range conts {
		vals[i] = map[*T]*T{}
		for _, a := range accs {
			vals[i][a] = c.st.reify(getOf[a](c), st.nalloc+1)
		}
	}
	accsIn := func(out map[*T]bool, t *T) {
		for _, a := range accs {
			if !out[a] && contains(t, a) {
				out[a] = true
			}
		}
	}
	foldOf := map[*T]*T{}
	fold := func(a, upto *T) *T {
		body, ok := foldOf[a]
		if !ok {
			need := map[*T]bool{a: true}
			for i := range conts {
				accsIn(need, mk("conj", "", conts[i].st.lits[mark:]...))
			}
			for n := 0; n != len(need); {
				n = len(need)
				for _, b := range accs {
					if need[b] {
						for i := range conts {
							accsIn(need, vals[i][b])
						}
					}
				}
			}
			head := []*T{coll}
			order := []*T{a}
			for _, b := range accs {
				if need[b] && b != a {
					order = append(order, b)
				}
			}
			m := map[*T]*T{}
			for j, b := range order {
				head = append(head, initOf[b])
				m[b] = mkT(b.typ, "foldacc", strconv.Itoa(j), lv)
			}
			h := 0
			var trs []*T
			for i, c := range conts {
				g := subst(mkConj(c.st.lits[mark:]), m)
				args := []*T{g}
				for _, b := range order {
					args = append(args, subst(vals[i][b], m))
				}
				tr := mk("tr", "", args...)
				if x := closeHeight(tr); x > h {
					h = x
				}
				trs = append(trs, tr)
			}
			args := []*T{mk("foldhead", "", head...)}
			for _, tr := range trs {
				args = append(args, subst(tr, map[*T]*T{lv: bv(h + 1)}))
			}
			body = mk("foldbody", "f:"+strconv.Itoa(h+1), args...)
			foldOf[a] = body
		}
		return mkT(a.typ, "fold", "", upto, body)
	}
	noAcc := func(upto *T, ts ...*T) map[*T]*T {
		m := map[*T]*T{}
		if coll.op == "while" {
			return m
		}
		in := map[*T]bool{}
		for _, t := range ts {
			accsIn(in, t)
		}
		for _, a := range accs {
			if in[a] {
				m[a] = fold(a, upto)
			}
		}
		return m
	}
	// guards of the paths through the body, free of accumulators
	guards := make([][]*T, len(conts))
	for i, c := range conts {
		m := noAcc(lv, c.st.lits[mark:]...)
		for _, l := range c.st.lits[mark:] {
			guards[i] = append(guards[i], subst(l, m))
		}
	}
	// summaries of accumulators
	type sumres struct {
		val  *T
		fork *T // exists atom: val when true, init when false
		alt  *T
		more []sumres // further (fork, val) alternatives, tried in order
	}
	sum := func(a *T, get func(loopState) *T) sumres {
		init := initOf[a]
		if v, ok := secondary[a]; ok {
			_ = v
			n, _ := init.intVal()
			return sumres{val: mkAdd(mkLen(coll), n)}
		}
		if c, ok := constAfter[a]; ok {
			return sumres{val: c, fork: mkNot(mkEq(mkLen(coll), mkInt(0))), alt: init}
		}
		unchanged, appS, appL, set, mapm := true, true, true, true, true
		var trs []trc
		for i := range conts {
			v := vals[i][a]
			if v == a {
				trs = append(trs, trc{guards[i], nil})
				continue
			}
			unchanged = false
			okS, okL, okSet, okM := false, false, !contains(v, a), false
			var content *T
			if v.op == "concat" && v.a[0] == a && !contains(mkConcat(v.a[1:]...), a) {
				okS = true
				content = mkConcat(v.a[1:]...)
			}
			if v.op == "seq" && v.a[0].op == "spl" && v.a[0].a[0] == a && !contains(mkSeq(v.a[1:]...), a) {
				okL = true
				content = mk("seq", "", v.a[1:]...)
			}
			if v.op == "mapset" && v.a[0] == a && !contains(v.a[1], a) && !contains(v.a[2], a) {
				okM = true
				content = mk("kv", "", v.a[1], v.a[2])
			}
			if okSet {
				content = v
			}
			appS, appL, set, mapm = appS && okS, appL && okL, set && okSet, mapm && okM
			if content != nil {
				content = subst(content, noAcc(lv, content))
			}
			trs = append(trs, trc{guards[i], content})
		}
		if unchanged {
			return sumres{val: init}
		}
		fill := func(z *T) []trc {
			o := append([]trc{}, trs...)
			for i := range o {
				if o[i].content == nil {
					o[i].content = z
				}
			}
			return o
		}
		switch {
		case appS:
			return sumres{val: mkConcat(init, closeComp("s", coll, lv, fill(mkStr(""))))}
		case appL:
			return sumres{val: mkAppend(init, mk("seq", "", closeComp("l", coll, lv, fill(tEmpty))))}
		case mapm && init.op == "emptymap":
			var one *trc
			n := 0
			for i := range trs {
				if trs[i].content != nil {
					one = &trs[i]
					n++
				}
			}
			if n == 1 {
				g := mkConj(one.lits)
				k, v := one.content.a[0], one.content.a[1]
				h := closeHeight(g, k, v) + 1
				m := map[*T]*T{lv: bv(h)}
				return sumres{val: mk("mapcomp", strconv.Itoa(h), coll, mk("tr", "", subst(g, m), subst(k, m), subst(v, m)))}
			}
		case set:
			var one *trc
			n := 0
			for i := range trs {
				if trs[i].content != nil {
					n++
					one = &trs[i]
				}
			}
			if n >= 1 {
				same := true
				for i := range trs {
					if trs[i].content != nil && trs[i].content != one.content {
						same = false
					}
				}
				_ = same
				allNonNil := true
				var alts []sumres
				for _, t := range trs {
					if t.content == nil {
						continue
					}
					if !definitelyNonNil(t.content) {
						allNonNil = false
					}
					g := closeGuard(lv, t.lits)
					alts = append(alts, sumres{val: subst(t.content, map[*T]*T{lv: mk("last", "", coll, g)}), fork: mkExists(coll, g), alt: init})
				}
				if n == 1 {
					return alts[0]
				}
				if allNonNil && init.op == "nil" && isErrorType(typOr(a.typ)) {
					// an error remembered on several paths: non-nil exactly when one of them was taken
					r := alts[0]
					r.more = alts[1:]
					return r
				}
			}
		}
		if coll.op != "while" {
			return sumres{val: fold(a, mkLen(coll))}
		}
		return sumres{val: mkT(a.typ, "loopval", fmt.Sprintf("%s.%s", a.s, coll.key), init)}
	}
	hasEv := false
	var ltr []*LoopTrace
	for i, c := range conts {
		evs := c.st.events
		if len(evs) > 0 {
			var as []*T
			for _, ev := range evs {
				as = append(as, ev.args...)
			}
			if m := noAcc(lv, as...); len(m) > 0 {
				evs = nil
				for _, ev := range c.st.events {
					evs = append(evs, substEvent(ev, m))
				}
			}
		}
		ltr = append(ltr, &LoopTrace{guards: guards[i], events: evs, kind: rCont})
		if len(c.st.events) > 0 {
			hasEv = true
		}
	}
	var outExits []Result
	for _, x := range exits {
		if len(x.st.events) > 0 {
			hasEv = true
		}
	}
	finals := map[*T]sumres{}
	var order []*T
	for _, p := range sortedPhis(accOfPhi) {
		p := p
		finals[accOfPhi[p]] = sum(accOfPhi[p], func(c loopState) *T { return c.ph[p] })
		order = append(order, accOfPhi[p])
	}
	for _, cl := range cells {
		cl := cl
		finals[accOfCell[cl]] = sum(accOfCell[cl], func(c loopState) *T { return c.st.mem[cl] })
		order = append(order, accOfCell[cl])
	}
	// mkslice patterns: out[i] = f(elem)
	slices := map[*T]*T{}
	{
		cand := map[*T][]trc{}
		for i, c := range conts {
			for k, v := range c.st.mem {
				if k.op == "eaddr" && k.a[0].op == "mkslice" && k.a[1] == lv && k.a[0].a[0] == mkLen(coll) {
					v = c.st.reify(v, st.nalloc+1)
					cand[k.a[0]] = append(cand[k.a[0]], trc{guards[i], mkSeq(mkItem(subst(v, noAcc(lv, v))))})
				}
			}
		}
		for sl, ts := range cand {
			if len(ts) == len(conts) && len(exits) == 0 {
				slices[sl] = mkSeq(closeComp("l", coll, lv, ts))
			}
		}
	}
	// exits
	var exAtoms []*T
	wh := coll.op == "while"
	for xi, x := range exits {
		var m map[*T]*T
		delta := x.st.lits[mark:]
		if wh {
			m = map[*T]*T{lv: mk("fv", fmt.Sprintf("%s.%d", coll.s, xi))}
			for a, f := range finals {
				m[a] = f.val
			}
		} else {
			fm := noAcc(lv, delta...)
			var gl []*T
			for _, l := range delta {
				gl = append(gl, subst(l, fm))
			}
			g := closeGuard(lv, gl)
			ex := mkExists(coll, g)
			exAtoms = append(exAtoms, ex)
			at := mkFirst(coll, g)
			m = map[*T]*T{lv: at}
			for a, f := range finals {
				if f.fork == nil && f.val == initOf[a] {
					m[a] = f.val
				} else {
					m[a] = fold(a, at)
				}
			}
			x.st = x.st.clone()
			ns := substState(x.st, m, mark)
			if ns == nil {
				continue
			}
			// existence literal goes before the witness facts
			ns2 := st.clone()
			if !ns2.assume(ex, true) {
				continue
			}
			okk := true
			for _, dl := range delta {
				if !ns2.assume(subst(dl, m), true) {
					okk = false
					break
				}
			}
			if !okk {
				continue
			}
			ns.lits, ns.known = ns2.lits, ns2.known
			x.st = ns
		}
		if wh {
			ns := substState(x.st, m, mark)
			if ns == nil {
				continue
			}
			x.st = ns
		}
		pre := append([]*Event{}, st.events...)
		if hasEv && len(ltr) > 0 {
			pre = append(pre, &Event{kind: "each", coll: coll, sub: ltr, exit: true})
		}
		for _, ev := range x.st.events {
			pre = append(pre, substEvent(ev, m))
		}
		x.st.events = pre
		x.st.depth = st.depth
		x.st.lvs = append([]*T{}, st.lvs...)
		x.st.nalloc, x.st.ncall = maxAlloc, maxCall
		for k, v := range x.fr.env {
			x.fr.env[k] = subst(v, m)
		}
		for i := range x.vals {
			x.vals[i] = subst(x.vals[i], m)
		}
		for i, d := range x.fr.defers {
			var as []*T
			for _, a := range d.args {
				as = append(as, subst(a, m))
			}
			fv := d.fnv
			if fv != nil {
				fv = subst(fv, m)
			}
			x.fr.defers[i] = deferred{d.ci, fv, as}
		}
		outExits = append(outExits, x)
	}
	if wh {
		return nil, outExits
	}
	// completion
	base := st.clone()
	base.nalloc, base.ncall = maxAlloc, maxCall
	for _, ex := range exAtoms {
		if !base.assume(ex, false) {
			return nil, outExits
		}
	}
	if len(conts) == 0 {
		if !base.assume(mkEq(mkLen(coll), mkInt(0)), true) {
			return nil, outExits
		}
	}
	if hasEv {
		base.events = append(base.events, &Event{kind: "each", coll: coll, sub: ltr})
	}
	res := []loopState{{s.fr.clone(), base, clonePh(s.ph)}}
	for _, a := range order {
		f := finals[a]
		var nx []loopState
		for _, r := range res {
			put := func(ls loopState, v *T) {
				for p, pa := range accOfPhi {
					if pa == a {
						ls.ph[p] = v
					}
				}
				for c, ca := range accOfCell {
					if ca == a {
						ls.st.mem[c] = v
					}
				}
			}
			if f.fork == nil || f.val == f.alt {
				put(r, f.val)
				nx = append(nx, r)
				continue
			}
			dead := false
			for _, alt := range append([]sumres{f}, f.more...) {
				t := loopState{r.fr.clone(), r.st.clone(), clonePh(r.ph)}
				if t.st.assume(alt.fork, true) {
					put(t, alt.val)
					nx = append(nx, t)
				}
				if !r.st.assume(alt.fork, false) {
					dead = true
					break
				}
			}
			if !dead {
				put(r, f.alt)
				nx = append(nx, r)
			}
		}
		res = nx
	}
	if len(slices) > 0 {
		for i := range res {
			for k, v := range res[i].fr.env {
				res[i].fr.env[k] = subst(v, slices)
			}
			ns := substState(res[i].st, slices, len(res[i].st.lits))
			res[i].st = ns
			for p, v := range res[i].ph {
				res[i].ph[p] = subst(v, slices)
			}
		}
	}
	return res, outExits
}

func typOr(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Invalid]
	}
	return t
}

func sortedPhis(m map[*ssa.Phi]*T) []*ssa.Phi {
	var out []*ssa.Phi
	for p := range m {
		out = append(out, p)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Block().Index != out[j].Block().Index {
			return out[i].Block().Index < out[j].Block().Index
		}
		return out[i].Name() < out[j].Name()
	})
	return out
}

// substState applies m to the memory and to the literals from index mark on; nil when that is contradictory.
func substState(s *State, m map[*T]*T, mark int) *State {
	n := s.clone()
	n.mem = map[*T]*T{}
	for k, v := range s.mem {
		k2 := k
		if anySub(k, m) {
			k2 = substAddr(k, m)
		}
		n.mem[k2] = subst(v, m)
	}
	n.lits = append([]*T{}, s.lits[:mark]...)
	n.known = map[*T]bool{}
	for _, l := range n.lits {
		if l.op == "not" {
			n.known[l.a[0]] = false
		} else {
			n.known[l] = true
		}
	}
	for _, l := range s.lits[mark:] {
		if !n.assume(subst(l, m), true) {
			return nil
		}
	}
	return n
}

func anySub(t *T, m map[*T]*T) bool {
	for k := range m {
		if contains(t, k) {
			return true
		}
	}
	return false
}

func substAddr(a *T, m map[*T]*T) *T { return subst(a, m) }

func substEvent(ev *Event, m map[*T]*T) *Event {
	n := *ev
	n.args = nil
	for _, a := range ev.args {
		n.args = append(n.args, subst(a, m))
	}
	if ev.ret != nil {
		n.ret = subst(ev.ret, m)
	}
	return &n
}

func (e *Engine) whileLoop(fr *Frame, st *State, l *loop, ph map[*ssa.Phi]*T, ctx *loopCtx) []Result {
	coll := mk("while", fmt.Sprintf("%s.%d#%d", fr.fn.RelString(nil), l.header.Index, st.ncall))
	run := func(s loopState, lv *T) ([]loopState, []Result) {
		var conts []loopState
		var others []Result
		rs := e.blockPhi(s.fr.clone(), s.st.clone(), l.header, s.ph, &loopCtx{l})
		for _, r := range rs {
			if r.kind == rCont {
				conts = append(conts, loopState{r.fr, r.st, e.phis(r.fr, l.header, r.from)})
			} else {
				others = append(others, r)
			}
		}
		return conts, others
	}
	_, exits := e.summarise(loopState{fr, st, ph}, l, loopKind{kind: "while"}, coll, run, mk("nokey", ""))
	var out []Result
	for _, r := range exits {
		if r.kind == rExit {
			out = append(out, e.jump(r.fr, r.st, r.from, r.to, ctx)...)
		} else {
			out = append(out, r)
		}
	}
	return out
}

// reads says whether the loop reads tokens.
func (e *Engine) reads(l *loop) bool {
	seen := map[*ssa.Function]bool{}
	hit := false
	var walk func(f *ssa.Function)
	call := func(in ssa.Instruction) {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		f := ci.Common().StaticCallee()
		if f == nil || !isRepoFn(f) {
			return
		}
		if f.Name() == "NextToken" {
			hit = true
		}
		walk(f)
	}
	walk = func(f *ssa.Function) {
		if seen[f] || hit {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call(in)
			}
		}
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			call(in)
		}
	}
	return hit
}
