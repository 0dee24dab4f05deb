package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effects: which memory each function of the program may write, in terms of its parameters, the variables it
// captures and the package-level variables. Objects are allocation sites and what is behind parameters; for each
// function the analysis keeps where every value may point and what every object may contain (no order of
// instructions), and a summary that is mapped into the callers until nothing changes.

type obj struct {
	v   ssa.Value // Parameter, FreeVar, Global: what they point to (lvl 1: what that points to, 2: what that points to, ..., maxLvl: anything further); otherwise an allocation
	lvl int8
}

type objSet map[obj]bool

type modWitness struct {
	pos  token.Pos
	what string
	fn   *ssa.Function
}

type fnSummary struct {
	mods     map[obj]modWitness
	ret      []objSet // per result: outer objects it may be
	retFresh []bool
	retIn    []objSet // per result: outer objects reachable from fresh memory it returns
	hcalls   []hcall
	unknown  []token.Pos
	keeps    map[obj]objSet // outer objects stored into outer objects
	keepsIn  map[obj]objSet // outer objects reachable from fresh memory stored into outer objects
}

// hcall is a call of a function passed as a parameter.
type hcall struct {
	callee obj
	args   []objSet
}

type effects struct {
	p   *Prog
	by  map[string][]*ssa.Function
	sum map[*ssa.Function]*fnSummary
	fn  map[*ssa.Function]*fnEffects

	mades map[madeKey]obj
}

type fnEffects struct {
	x    *effects
	fn   *ssa.Function
	pts  map[ssa.Value]objSet
	in   map[obj]objSet
	s    *fnSummary
	more bool
}

func (p *Prog) effects() *effects {
	x := &effects{p: p, by: p.methodsByName(), sum: map[*ssa.Function]*fnSummary{}, fn: map[*ssa.Function]*fnEffects{}}
	for _, f := range p.fns {
		x.sum[f] = &fnSummary{mods: map[obj]modWitness{}, keeps: map[obj]objSet{}, keepsIn: map[obj]objSet{}}
		n := f.Signature.Results().Len()
		x.sum[f].ret = make([]objSet, n)
		x.sum[f].retFresh = make([]bool, n)
		x.sum[f].retIn = make([]objSet, n)
		for i := 0; i < n; i++ {
			x.sum[f].ret[i], x.sum[f].retIn[i] = objSet{}, objSet{}
		}
		x.fn[f] = &fnEffects{x: x, fn: f, pts: map[ssa.Value]objSet{}, in: map[obj]objSet{}, s: x.sum[f]}
	}
	for round := 0; round < 60; round++ {
		changed := false
		for _, f := range p.fns {
			if x.fn[f].run() {
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	return x
}

func hasPointers(t types.Type) bool { return hasPtr(t, map[types.Type]bool{}) }

func hasPtr(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtr(u.Field(i).Type(), seen) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPtr(u.Elem(), seen)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasPtr(u.At(i).Type(), seen) {
				return true
			}
		}
		return false
	}
	return true
}

func outer(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
		return true
	}
	return false
}

func (f *fnEffects) get(v ssa.Value) objSet {
	switch x := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		if !hasPointers(v.Type()) {
			return nil
		}
		return objSet{{v, 0}: true}
	case *ssa.Global:
		return objSet{{v, 0}: true}
	case *ssa.Const, *ssa.Builtin:
		return nil
	case *ssa.Function:
		return objSet{{x, 0}: true}
	}
	return f.pts[v]
}

func (f *fnEffects) add(v ssa.Value, s objSet) {
	if v == nil || !hasPointers(v.Type()) {
		return
	}
	m := f.pts[v]
	for o := range s {
		if !m[o] {
			if m == nil {
				m = objSet{}
				f.pts[v] = m
			}
			m[o] = true
			f.more = true
		}
	}
}

func (f *fnEffects) keep(m map[obj]objSet, o, x obj) {
	k := m[o]
	if k[x] {
		return
	}
	if k == nil {
		k = objSet{}
		m[o] = k
	}
	k[x] = true
	f.more = true
}

// made stands for the objects a callee made and stored into the outer object o of its own.
func (x *effects) made(f *ssa.Function, g *ssa.Function, o obj, pos token.Pos) obj {
	k := madeKey{f, g, o, pos}
	if x.mades == nil {
		x.mades = map[madeKey]obj{}
	}
	m, ok := x.mades[k]
	if !ok {
		m = obj{v: ssa.NewConst(nil, types.Typ[types.UnsafePointer])}
		x.mades[k] = m
	}
	return m
}

type madeKey struct {
	f, g *ssa.Function
	o    obj
	pos  token.Pos
}

func (f *fnEffects) fill(o obj, s objSet) {
	m := f.in[o]
	for x := range s {
		if x == o && o.lvl == 0 {
			// a cell that holds its own address
		}
		if !m[x] {
			if m == nil {
				m = objSet{}
				f.in[o] = m
			}
			m[x] = true
			f.more = true
		}
	}
	if outer(o.v) {
		for x := range s {
			if outer(x.v) {
				f.keep(f.s.keeps, o, x)
				continue
			}
			for _, y := range f.outerOf(x) {
				f.keep(f.s.keepsIn, o, y)
			}
		}
	}
}

// outerOf lists the outer objects an object is, or leads to.
func (f *fnEffects) outerOf(o obj) []obj {
	seen := objSet{}
	var out []obj
	var walk func(o obj)
	walk = func(o obj) {
		if seen[o] {
			return
		}
		seen[o] = true
		if outer(o.v) {
			out = append(out, o)
		}
		for x := range f.in[o] {
			walk(x)
		}
	}
	walk(o)
	return out
}

// load is what may be found in the objects.
func (f *fnEffects) load(s objSet) objSet {
	out := objSet{}
	for o := range s {
		if outer(o.v) {
			out[o.next()] = true
		}
		for x := range f.in[o] {
			out[x] = true
		}
	}
	return out
}

// maxLvl: from here on the levels are not told apart.
const maxLvl = 4

func (o obj) next() obj {
	if o.lvl < maxLvl {
		o.lvl++
	}
	return o
}

// down is what lies the given number of steps behind the objects.
func (f *fnEffects) down(s objSet, lvl int8) objSet {
	for i := int8(0); i < lvl; i++ {
		s = f.load(s)
	}
	if lvl == maxLvl {
		s = f.all(s)
	}
	return s
}

// all is everything reachable from the objects.
func (f *fnEffects) all(s objSet) objSet {
	out := objSet{}
	var walk func(o obj)
	walk = func(o obj) {
		if out[o] {
			return
		}
		out[o] = true
		if outer(o.v) && o.lvl < maxLvl {
			walk(o.next())
		}
		for x := range f.in[o] {
			walk(x)
		}
	}
	for o := range s {
		walk(o)
	}
	return out
}

func (f *fnEffects) mod(s objSet, w modWitness) {
	for o := range s {
		if outer(o.v) {
			if _, ok := f.s.mods[o]; !ok {
				f.s.mods[o] = w
				f.more = true
			}
		}
	}
}

func union(ss ...objSet) objSet {
	out := objSet{}
	for _, s := range ss {
		for o := range s {
			out[o] = true
		}
	}
	return out
}

func (f *fnEffects) run() bool {
	changed := false
	for i := 0; i < 40; i++ {
		f.more = false
		for _, b := range f.fn.Blocks {
			for _, in := range b.Instrs {
				f.step(in)
			}
		}
		if !f.more {
			break
		}
		changed = true
	}
	return changed
}

func (f *fnEffects) step(in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		f.add(v, objSet{{v, 0}: true})
	case *ssa.MakeClosure:
		f.add(x, objSet{{x, 0}: true})
		for _, b := range x.Bindings {
			f.fill(obj{x, 0}, f.get(b))
		}
		// a closure that is made is taken to be called
		f.applyMods(x.Fn.(*ssa.Function), nil, x, x.Pos(), false)
	case *ssa.FieldAddr:
		f.add(x, f.get(x.X))
	case *ssa.IndexAddr:
		f.add(x, f.get(x.X))
	case *ssa.Field:
		f.add(x, f.get(x.X))
	case *ssa.Index:
		f.add(x, f.get(x.X))
	case *ssa.Lookup:
		f.add(x, f.load(f.get(x.X)))
	case *ssa.UnOp:
		if st := lastStore(x); st != nil {
			f.add(x, f.get(st.Val))
		} else if x.Op == token.MUL || x.Op == token.ARROW {
			f.add(x, f.load(f.get(x.X)))
		}
	case *ssa.Slice:
		if k, ok := x.Max.(*ssa.Const); ok && k.Int64() == 0 {
			break // x[:0:0] leads to no memory
		}
		f.add(x, f.get(x.X))
	case *ssa.Phi:
		for _, e := range x.Edges {
			f.add(x, f.get(e))
		}
	case *ssa.ChangeType:
		f.add(x, f.get(x.X))
	case *ssa.Convert:
		f.add(x, f.get(x.X))
	case *ssa.ChangeInterface:
		f.add(x, f.get(x.X))
	case *ssa.MakeInterface:
		f.add(x, f.get(x.X))
	case *ssa.TypeAssert:
		f.add(x, f.get(x.X))
	case *ssa.SliceToArrayPointer:
		f.add(x, f.get(x.X))
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			f.add(x, f.callResult(c, x.Index))
		} else {
			f.add(x, f.get(x.Tuple))
		}
	case *ssa.Range:
		f.add(x, f.get(x.X))
	case *ssa.Next:
		f.add(x, f.load(f.get(x.Iter)))
	case *ssa.Store:
		to := f.get(x.Addr)
		f.mod(to, modWitness{x.Pos(), "assignment", f.fn})
		for o := range to {
			f.fill(o, f.get(x.Val))
		}
	case *ssa.MapUpdate:
		to := f.get(x.Map)
		f.mod(to, modWitness{x.Pos(), "assignment to a map entry", f.fn})
		for o := range to {
			f.fill(o, f.get(x.Key))
			f.fill(o, f.get(x.Value))
		}
	case *ssa.Send:
		for o := range f.get(x.Chan) {
			f.fill(o, f.get(x.X))
		}
	case ssa.CallInstruction:
		f.call(x)
	case *ssa.Return:
		for i, r := range x.Results {
			for o := range f.get(r) {
				if outer(o.v) {
					f.note(f.s.ret[i], o)
					continue
				}
				if !f.s.retFresh[i] {
					f.s.retFresh[i] = true
					f.more = true
				}
				for _, y := range f.outerOf(o) {
					f.note(f.s.retIn[i], y)
				}
			}
		}
	}
}

// lastStore is the assignment to a field of a local struct that a read of the field certainly sees, if it is easy to tell.
func lastStore(ld *ssa.UnOp) *ssa.Store {
	fa, ok := ld.X.(*ssa.FieldAddr)
	if ld.Op != token.MUL || !ok {
		return nil
	}
	al, ok := fa.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var here, others []*ssa.Store
	for _, u := range *al.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Addr != al {
				return nil
			}
			others = append(others, u)
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			for _, w := range *u.Referrers() {
				switch w := w.(type) {
				case *ssa.Store:
					if w.Addr != u {
						return nil
					}
					if u.Field == fa.Field {
						here = append(here, w)
					}
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					if u.Field == fa.Field {
						return nil
					}
				}
			}
		default:
			// the address is handed out: fine if that happens after the read
			if phi, ok := u.(*ssa.Phi); ok {
				for i, e := range phi.Edges {
					pred := phi.Block().Preds[i]
					if e == ssa.Value(al) && !before(ld, pred.Instrs[len(pred.Instrs)-1]) {
						return nil
					}
				}
				continue
			}
			if !before(ld, u) {
				return nil
			}
		}
	}
	others = append(others, here...)
	for _, st := range here {
		if !before(st, ld) {
			continue
		}
		last := true
		for _, o := range others {
			if o != st && !before(o, st) {
				last = false
			}
		}
		if last {
			return st
		}
	}
	return nil
}

// before says that a is always executed before b, and not again after b.
func before(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block()) && !reaches(b.Block(), a.Block())
	}
	for _, in := range a.Block().Instrs {
		if in == a {
			return !reaches(b.Block(), b.Block())
		}
		if in == b {
			return false
		}
	}
	return false
}

func reaches(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, from.Succs...)
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		if b == to {
			return true
		}
		if !seen[b] {
			seen[b] = true
			work = append(work, b.Succs...)
		}
	}
	return false
}

func (f *fnEffects) note(s objSet, o obj) {
	if !s[o] {
		s[o] = true
		f.more = true
	}
}

// argsOf lists receiver and arguments.
func argsOf(c *ssa.CallCommon) []ssa.Value {
	if c.IsInvoke() {
		return append([]ssa.Value{c.Value}, c.Args...)
	}
	return c.Args
}

// callees finds the functions of the program a call may reach; known: there are no others with effects.
func (f *fnEffects) callees(c *ssa.CallCommon) (fns []*ssa.Function, closure []obj, lib string, known bool) {
	if c.IsInvoke() {
		for _, g := range f.x.by[c.Method.Name()] {
			r := g.Signature.Recv().Type()
			if it, ok := c.Value.Type().Underlying().(*types.Interface); ok && !types.Implements(r, it) && !types.Implements(types.NewPointer(r), it) {
				continue
			}
			fns = append(fns, g)
		}
		return fns, make([]obj, len(fns)), "m:" + c.Method.Name(), true
	}
	if g := c.StaticCallee(); g != nil {
		if o := g.Origin(); o != nil && len(g.Blocks) == 0 {
			g = o
		}
		if f.x.sum[g] == nil {
			return nil, nil, fnName(g), true
		}
		var cl obj
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			cl = obj{mc, 0}
		}
		return []*ssa.Function{g}, []obj{cl}, "", true
	}
	known = true
	if u, ok := c.Value.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			if vs, ok := f.x.p.globalFns(g); ok {
				for _, fn := range vs {
					if f.x.sum[fn] != nil {
						fns, closure = append(fns, fn), append(closure, obj{})
					} else {
						lib = fnName(fn)
					}
				}
				return fns, closure, lib, true
			}
		}
	}
	for o := range f.get(c.Value) {
		switch v := o.v.(type) {
		case *ssa.MakeClosure:
			fns = append(fns, v.Fn.(*ssa.Function))
			closure = append(closure, o)
		case *ssa.Function:
			if f.x.sum[v] != nil {
				fns = append(fns, v)
				closure = append(closure, obj{})
			}
		default:
			known = false
		}
	}
	return fns, closure, "", known
}

// globalFns are the functions a package-level variable may hold.
func (p *Prog) globalFns(g *ssa.Global) (fns []*ssa.Function, ok bool) {
	if p.gfns == nil {
		p.gfns = map[*ssa.Global][]ssa.Value{}
		look := func(fn *ssa.Function) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if v, ok := st.Addr.(*ssa.Global); ok {
							p.gfns[v] = append(p.gfns[v], st.Val)
						}
					}
				}
			}
		}
		for _, sp := range p.spkg {
			if f := sp.Func("init"); f != nil {
				look(f)
			}
		}
		for _, f := range p.fns {
			look(f)
		}
	}
	for _, v := range p.gfns[g] {
		fn, ok := v.(*ssa.Function)
		if c, isCall := v.(*ssa.Call); isCall && c.Call.StaticCallee() != nil && !isRepoFn(c.Call.StaticCallee()) {
			continue // made by the library
		}
		if !ok {
			return nil, false
		}
		fns = append(fns, fn)
	}
	return fns, len(p.gfns[g]) > 0
}

// toCaller maps an outer object of a callee to objects here.
func (f *fnEffects) toCaller(g *ssa.Function, o obj, args []ssa.Value, closure ssa.Value) objSet {
	var base objSet
	switch v := o.v.(type) {
	case *ssa.Global:
		return objSet{o: true}
	case *ssa.Parameter:
		for i, q := range g.Params {
			if q == v && i < len(args) {
				base = f.get(args[i])
			}
		}
	case *ssa.FreeVar:
		for i, q := range g.FreeVars {
			if q != v {
				continue
			}
			if mc, ok := closure.(*ssa.MakeClosure); ok && i < len(mc.Bindings) && mc.Parent() == f.fn {
				base = f.get(mc.Bindings[i])
			}
		}
	}
	return f.down(base, o.lvl)
}

func (f *fnEffects) applyMods(g *ssa.Function, args []ssa.Value, closure ssa.Value, pos token.Pos, keep bool) {
	s := f.x.sum[g]
	if s == nil {
		return
	}
	for o, w := range s.mods {
		f.mod(f.toCaller(g, o, args, closure), w)
	}
	for o, ks := range s.keeps {
		to := f.toCaller(g, o, args, closure)
		for k := range ks {
			from := f.toCaller(g, k, args, closure)
			for t := range to {
				f.fill(t, from)
			}
		}
	}
	for o, ks := range s.keepsIn {
		m := f.x.made(f.fn, g, o, pos)
		for t := range f.toCaller(g, o, args, closure) {
			f.fill(t, objSet{m: true})
		}
		for k := range ks {
			f.fill(m, f.toCaller(g, k, args, closure))
		}
	}
	if !keep {
		return
	}
	for _, h := range s.hcalls {
		var hargs []objSet
		for _, a := range h.args {
			m := objSet{}
			for o := range a {
				if outer(o.v) {
					m = union(m, f.toCaller(g, o, args, closure))
				}
			}
			hargs = append(hargs, m)
		}
		for t := range f.toCaller(g, h.callee, args, closure) {
			f.callValue(t, hargs, pos)
		}
	}
}

// callValue is a call of a function value with arguments that may be the given objects.
func (f *fnEffects) callValue(t obj, args []objSet, pos token.Pos) {
	var g *ssa.Function
	switch v := t.v.(type) {
	case *ssa.MakeClosure:
		g = v.Fn.(*ssa.Function)
	case *ssa.Function:
		g = v
	case *ssa.Parameter, *ssa.FreeVar:
		f.hcall(t, args)
		return
	default:
		return
	}
	s := f.x.sum[g]
	if s == nil {
		return
	}
	for o, w := range s.mods {
		q, ok := o.v.(*ssa.Parameter)
		if !ok {
			if _, isG := o.v.(*ssa.Global); isG {
				f.mod(objSet{o: true}, w)
			}
			continue // captured variables: where the closure is made
		}
		for i, qq := range g.Params {
			if qq == q && i < len(args) {
				m := args[i]
				m = f.down(m, o.lvl)
				f.mod(m, w)
			}
		}
	}
}

func (f *fnEffects) hcall(callee obj, args []objSet) {
	var as []objSet
	for _, a := range args {
		m := objSet{}
		for o := range a {
			for _, y := range f.outerOf(o) {
				m[y] = true
			}
		}
		as = append(as, m)
	}
	for i := range f.s.hcalls {
		h := &f.s.hcalls[i]
		if h.callee == callee && len(h.args) == len(as) {
			for k := range as {
				for o := range as[k] {
					f.note(h.args[k], o)
				}
			}
			return
		}
	}
	f.s.hcalls = append(f.s.hcalls, hcall{callee, as})
	f.more = true
}

// mutators: library functions that write the memory behind an argument.
func libMutates(name string) int {
	if i := strings.Index(name, "["); i >= 0 {
		name = name[:i]
	}
	switch {
	case name == "sort.Search" || name == "sort.SearchInts" || name == "sort.SearchStrings" || name == "sort.IsSorted" || name == "sort.SliceIsSorted" || name == "sort.StringsAreSorted" || name == "sort.Reverse":
		return -1
	case strings.HasPrefix(name, "sort."):
		return 0
	case strings.HasPrefix(name, "slices."):
		switch strings.TrimPrefix(name, "slices.") {
		case "Sort", "SortFunc", "SortStableFunc", "Reverse", "Delete", "DeleteFunc", "Insert", "Replace", "Compact", "CompactFunc":
			return 0
		}
	case name == "maps.DeleteFunc" || name == "maps.Copy" || name == "maps.Insert":
		return 0
	case strings.HasPrefix(name, "math/rand.Shuffle"), strings.HasPrefix(name, "math/rand/v2.Shuffle"):
		return -1 // through its function
	case strings.HasPrefix(name, "encoding/json.Unmarshal"), strings.HasPrefix(name, "encoding/xml.Unmarshal"):
		return 1
	case strings.HasPrefix(name, "(*strings.Builder)."), strings.HasPrefix(name, "(*bytes.Buffer)."), strings.HasPrefix(name, "(*container/list.List)."),
		strings.HasPrefix(name, "(*sync/atomic."), strings.HasPrefix(name, "(*sync.Map)."), strings.HasPrefix(name, "(*math/big."):
		return 0
	case strings.HasPrefix(name, "sync/atomic."), strings.HasPrefix(name, "container/heap."):
		return 0
	case strings.HasPrefix(name, "(reflect.Value).Set"), name == "reflect.Swapper":
		return 0
	}
	return -1
}

// aliases: library functions that return (a part of) their first argument.
func libAliases(name string) bool {
	if i := strings.Index(name, "["); i >= 0 {
		name = name[:i]
	}
	switch name {
	case "slices.Delete", "slices.DeleteFunc", "slices.Insert", "slices.Replace", "slices.Compact", "slices.CompactFunc", "slices.Grow", "slices.Clip", "reflect.ValueOf", "reflect.Indirect",
		"sort.Reverse", "bytes.TrimSpace", "bytes.Trim":
		return true
	}
	return strings.HasPrefix(name, "(reflect.Value)")
}

func (f *fnEffects) call(c ssa.CallInstruction) {
	cc := c.Common()
	v, _ := c.(*ssa.Call)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		f.builtin(c, b.Name())
		return
	}
	fns, closure, lib, known := f.callees(cc)
	args := argsOf(cc)
	for i, g := range fns {
		f.applyMods(g, args, closure[i].v, c.Pos(), true)
	}
	if lib != "" && !strings.HasPrefix(lib, "m:") {
		if k := libMutates(lib); k >= 0 && k < len(args) {
			f.mod(f.get(args[k]), modWitness{c.Pos(), "call of " + lib, f.fn})
		}
		// functions handed to the library are called with what else is handed to it
		var rest []objSet
		m := objSet{}
		for _, a := range args {
			m = union(m, f.all(f.get(a)))
		}
		for o := range m {
			var g *ssa.Function
			switch w := o.v.(type) {
			case *ssa.MakeClosure:
				g = w.Fn.(*ssa.Function)
			case *ssa.Function:
				g = w
			default:
				continue
			}
			rest = nil
			for range g.Params {
				rest = append(rest, m)
			}
			f.callValue(o, rest, c.Pos())
		}
	}
	if !known {
		as := make([]objSet, len(args))
		for i, a := range args {
			as[i] = f.get(a)
		}
		for o := range f.get(cc.Value) {
			switch o.v.(type) {
			case *ssa.Parameter, *ssa.FreeVar:
				f.hcall(o, as)
			case *ssa.Function, *ssa.MakeClosure:
			default:
				f.unknown(c.Pos())
			}
		}
		if len(f.get(cc.Value)) == 0 {
			f.unknown(c.Pos())
		}
	}
	if v != nil {
		if _, isTuple := v.Type().(*types.Tuple); !isTuple {
			f.add(v, f.callResult(v, 0))
		}
	}
}

func (f *fnEffects) unknown(pos token.Pos) {
	for _, q := range f.s.unknown {
		if q == pos {
			return
		}
	}
	f.s.unknown = append(f.s.unknown, pos)
	f.more = true
}

// callResult is where result i of a call may point.
func (f *fnEffects) callResult(c *ssa.Call, i int) objSet {
	cc := c.Common()
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return f.pts[c]
	}
	fns, closure, lib, known := f.callees(cc)
	args := argsOf(cc)
	out := objSet{}
	fresh := obj{c, 0}
	if cc.Signature().Results().Len() > 1 && i > 0 {
		fresh = obj{c, 1} // another object
	}
	for k, g := range fns {
		s := f.x.sum[g]
		if i >= len(s.ret) {
			continue
		}
		for o := range s.ret[i] {
			out = union(out, f.toCaller(g, o, args, closure[k].v))
		}
		if s.retFresh[i] {
			out[fresh] = true
			for o := range s.retIn[i] {
				f.fill(fresh, f.toCaller(g, o, args, closure[k].v))
			}
		}
	}
	if len(fns) == 0 || !known {
		out[fresh] = true
		for k, a := range args {
			m := f.get(a)
			if k == 0 && lib != "" && libAliases(lib) {
				out = union(out, m)
			}
			f.fill(fresh, f.all(m))
		}
	}
	return out
}

func (f *fnEffects) builtin(c ssa.CallInstruction, name string) {
	args := c.Common().Args
	v, _ := c.(*ssa.Call)
	switch name {
	case "append":
		if v == nil {
			return
		}
		f.add(v, objSet{{v, 0}: true})
		f.add(v, f.get(args[0]))
		for o := range f.get(args[0]) {
			f.fill(obj{v, 0}, f.load(objSet{o: true}))
		}
		if len(args) > 1 {
			for o := range f.get(args[1]) {
				f.fill(obj{v, 0}, f.load(objSet{o: true}))
				for t := range f.get(args[0]) {
					if !outer(t.v) {
						f.fill(t, f.load(objSet{o: true}))
					}
				}
			}
		}
		if truncated(args[0], map[ssa.Value]bool{}) {
			f.mod(f.get(args[0]), modWitness{c.Pos(), "append to a part of a slice", f.fn})
		}
	case "copy":
		f.mod(f.get(args[0]), modWitness{c.Pos(), "copy into a slice", f.fn})
		for o := range f.get(args[0]) {
			f.fill(o, f.load(f.get(args[1])))
		}
	case "delete", "clear":
		f.mod(f.get(args[0]), modWitness{c.Pos(), name, f.fn})
	}
}

// truncated says whether a slice may end before the memory behind it does because it was cut.
func truncated(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Slice:
		if x.High != nil && x.Max == nil {
			return true
		}
		return truncated(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if truncated(e, seen) {
				return true
			}
		}
	case *ssa.ChangeType:
		return truncated(x.X, seen)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return truncated(x.Call.Args[0], seen)
		}
	}
	return false
}

// modList lists what a function may modify, in a fixed order.
func (s *fnSummary) modList() []obj {
	var out []obj
	for o := range s.mods {
		out = append(out, o)
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a.v.Name() != b.v.Name() {
			return a.v.Name() < b.v.Name()
		}
		return a.lvl < b.lvl
	})
	return out
}
