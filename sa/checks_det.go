package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P20: nothing in the output depends on map iteration order, time, randomness, addresses, goroutine scheduling or on
// what an earlier run left behind in a package-level variable.

func detScope(f *ssa.Function) bool {
	p := pkgOf(f)
	if p == nil || f.Synthetic != "" {
		return false
	}
	s := strings.TrimPrefix(p.Path(), modPath)
	for _, x := range []string{"/pkg/logs", "/pkg/internal/fixture", "/pkg/internal/integrationtest", "/pkg/internal/contexts"} {
		if strings.HasPrefix(s, x) {
			return false
		}
	}
	return true
}

// hiddenInputs are library functions whose result differs from run to run.
func hiddenInput(name string) string {
	if i := strings.Index(name, "["); i >= 0 {
		name = name[:i]
	}
	switch name {
	case "time.Now", "time.Since", "time.Until", "time.Tick", "time.After":
		return "the time"
	case "os.Getpid", "os.Getppid", "os.MkdirTemp", "os.CreateTemp", "os.TempDir", "runtime.NumGoroutine", "runtime.NumCPU", "runtime.GOMAXPROCS", "runtime.ReadMemStats", "os.Hostname":
		return "the process"
	case "(*os.File).Readdir", "(*os.File).Readdirnames", "(*os.File).ReadDir":
		return "the order of a directory"
	}
	for _, p := range []string{"math/rand.", "math/rand/v2.", "crypto/rand.", "hash/maphash.", "(*math/rand.", "(*math/rand/v2.", "(*hash/maphash."} {
		if strings.HasPrefix(name, p) {
			return "chance"
		}
	}
	return ""
}

type det struct {
	r *Rep
	p *Prog
	x *effects
}

func init() {
	checks["P20"] = func(r *Rep) {
		p := r.p
		if p == nil {
			return
		}
		r.Rule("ordered-iteration", "what is collected while iterating a map is sorted by a key that tells all entries apart before anything else is done with it, or the body of the iteration does not depend on the order")
		r.Rule("no-hidden-input", "no function of the program reads the time, chance, the process or an unsorted directory into what it computes")
		r.Rule("no-scheduling", "no goroutine or choice between channels takes part in computing the output")
		r.Rule("no-address-text", "no text is formatted from an address")
		r.Rule("no-carry-over", "no package-level variable is written while sources are parsed, compared, generated or printed, except once with a value that is the same every time")
		d := &det{r, p, p.effects()}
		n := 0
		for _, f := range p.fns {
			if !detScope(f) {
				continue
			}
			n++
			d.function(f)
		}
		d.carryOver()
		r.Min("ordered-iteration", n)
		r.Min("no-hidden-input", n)
	}
}

func (d *det) function(f *ssa.Function) {
	r, p := d.r, d.p
	name := shortFn(f)
	bad := map[string]bool{}
	fail := func(rule string, pos token.Pos, format string, a ...any) {
		bad[rule] = true
		r.Fail(rule, name, p.pos(pos), "%s", fmt.Sprintf(format, a...))
	}
	undecided := func(rule string, pos token.Pos, format string, a ...any) {
		bad[rule] = true
		r.Undecided(rule, name, "%s: %s", p.pos(pos), fmt.Sprintf(format, a...))
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					d.mapLoop(f, x, fail, undecided)
				}
			case *ssa.Go:
				d.goStmt(f, x, fail, undecided)
			case *ssa.Select:
				if len(x.States) > 1 || !x.Blocking {
					fail("no-scheduling", x.Pos(), "%s chooses between channels that may be ready in any order", name)
				}
			case ssa.CallInstruction:
				cc := x.Common()
				cn := ccName(cc)
				if what := hiddenInput(cn); what != "" && !onlyLogged(x) {
					fail("no-hidden-input", x.Pos(), "%s uses %s (%s)", name, what, cn)
				}
				d.iterators(f, x, cn, fail, undecided)
				d.formatted(f, x, cn, fail)
			}
		}
	}
	for _, rule := range []string{"ordered-iteration", "no-hidden-input", "no-scheduling", "no-address-text"} {
		if !bad[rule] {
			r.Ok(rule, name)
		}
	}
	r.Fn(name)
}

type reporter func(rule string, pos token.Pos, format string, a ...any)

// onlyLogged says that the result of a call goes nowhere but into log lines.
func onlyLogged(c ssa.CallInstruction) bool {
	v, ok := c.(*ssa.Call)
	if !ok {
		return false
	}
	if t, isTuple := v.Type().(*types.Tuple); isTuple && t.Len() == 0 {
		return false
	}
	seen := map[ssa.Value]bool{}
	var ok2 func(v ssa.Value) bool
	ok2 = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return true
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch u := u.(type) {
			case *ssa.DebugRef:
			case *ssa.Store:
				if u.Addr == v {
					continue
				}
				var to ssa.Value = u.Addr
				if ia, isIA := u.Addr.(*ssa.IndexAddr); isIA {
					to = ia.X
				}
				al, isAl := to.(*ssa.Alloc)
				if !isAl || !ok2(al) {
					return false
				}
			case *ssa.IndexAddr:
			case *ssa.UnOp:
				if u.Op != token.MUL || !ok2(u) {
					return false
				}
			case *ssa.MakeClosure:
				for i, bnd := range u.Bindings {
					if bnd == v && !ok2(u.Fn.(*ssa.Function).FreeVars[i]) {
						return false
					}
				}
			case *ssa.Defer:
				if !isLogging(u.Common()) {
					return false
				}
			case *ssa.Slice:
				if !ok2(u) {
					return false
				}
			case *ssa.MakeInterface:
				if !ok2(u) {
					return false
				}
			case *ssa.Call:
				if !isLogging(u.Common()) {
					cn := ccName(u.Common())
					if !(strings.HasPrefix(cn, "time.Since") || strings.HasPrefix(cn, "(time.Time).") || strings.HasPrefix(cn, "(time.Duration).")) || !ok2(u) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	return ok2(v)
}

// isLogging: a method of a logger of the logs package, or of the library's log package.
func isLogging(c *ssa.CallCommon) bool {
	if c.IsInvoke() {
		if u, ok := c.Value.(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok && g.Pkg != nil && strings.HasSuffix(g.Pkg.Pkg.Path(), "/pkg/logs") {
				return true
			}
		}
		return false
	}
	cn := ccName(c)
	return strings.HasPrefix(cn, "log.") || strings.HasPrefix(cn, "(*log.Logger).") || strings.HasPrefix(cn, "log/slog.") || strings.HasPrefix(cn, "(pkg/logs.") || strings.HasPrefix(cn, "(*pkg/logs.")
}

// mapLoop checks one iteration over a map.
func (d *det) mapLoop(f *ssa.Function, rg *ssa.Range, fail, undecided reporter) {
	var next *ssa.Next
	for _, u := range *rg.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return
	}
	l := buildForest(f).byHeader[next.Block()]
	if l == nil {
		return // at most one round
	}
	b := &mapBody{d: d, f: f, next: next, in: func(i ssa.Instruction) bool { return l.body[i.Block()] }, where: rg.Pos(), fail: fail, undecided: undecided}
	b.taintElements()
	var accs []ssa.Value
	for blk := range l.body {
		for _, in := range blk.Instrs {
			if phi, ok := in.(*ssa.Phi); ok && blk == l.header {
				if a := b.accumulator(phi, l); a != nil {
					accs = append(accs, a)
				}
				continue
			}
			b.instr(in)
		}
	}
	// values that leave the loop other than through its end
	for blk := range l.body {
		for _, s := range blk.Succs {
			if l.body[s] || blk == l.header {
				continue
			}
			for _, in := range s.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, pr := range s.Preds {
					if pr == blk && b.elem[phi.Edges[i]] && !b.keyed(blk) {
						b.bad(phi.Pos(), "the entry found first is used")
					}
				}
			}
		}
		if r, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok {
			b.ret(r)
		}
	}
	for _, blk := range f.Blocks {
		// blocks entered only from inside the loop that return
		if l.body[blk] || len(blk.Preds) == 0 {
			continue
		}
		r, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		from := false
		for _, pr := range blk.Preds {
			if l.body[pr] && pr != l.header {
				from = true
			}
		}
		if from {
			b.ret(r)
		}
	}
	sort.Slice(accs, func(i, j int) bool { return accs[i].Name() < accs[j].Name() })
	for _, a := range accs {
		b.holder(a, func(i ssa.Instruction) bool { return l.body[i.Block()] })
	}
	b.cells()
}

type mapBody struct {
	d         *det
	f         *ssa.Function
	next      *ssa.Next
	in        func(ssa.Instruction) bool
	where     token.Pos
	fail      reporter
	undecided reporter
	elem      map[ssa.Value]bool // depends on the entry of this round
	keys      map[string]bool    // fields that are given the key of the entry
	cell      map[ssa.Value]bool // variables that collect
	done      bool
	sure      bool
}

func (b *mapBody) bad(pos token.Pos, format string, a ...any) {
	if b.done {
		return
	}
	b.done = true
	b.fail("ordered-iteration", pos, "%s iterates a map at %s, in an order that differs from run to run: %s", shortFn(b.f), b.d.p.pos(b.where), fmt.Sprintf(format, a...))
}

func (b *mapBody) unsure(pos token.Pos, format string, a ...any) {
	if b.done {
		return
	}
	b.done = true
	b.undecided("ordered-iteration", pos, "iteration of a map at %s: %s", b.d.p.pos(b.where), fmt.Sprintf(format, a...))
}

func (b *mapBody) taintElements() {
	b.elem, b.keys, b.cell = map[ssa.Value]bool{}, map[string]bool{}, map[ssa.Value]bool{}
	b.elem[b.next] = true
	for {
		n := len(b.elem)
		for _, blk := range b.f.Blocks {
			for _, in := range blk.Instrs {
				v, ok := in.(ssa.Value)
				if !b.in(in) || b.elem[v] {
					continue
				}
				for _, op := range in.Operands(nil) {
					if ok && op != nil && *op != nil && b.elem[*op] {
						b.elem[v] = true
					}
				}
				if st, isSt := in.(*ssa.Store); isSt && b.elem[st.Val] {
					// an object made in this round is filled with parts of the entry
					root := addrOf(st.Addr)
					if ri, isIn := root.(ssa.Instruction); isIn && b.in(ri) {
						b.elem[root] = true
					}
					if fa, isFA := st.Addr.(*ssa.FieldAddr); isFA && b.isKey(st.Val) {
						b.keys[fieldName(fa)] = true
					}
				}
			}
		}
		if len(b.elem) == n {
			return
		}
	}
}

func fieldName(fa *ssa.FieldAddr) string {
	if pt, ok := fa.X.Type().Underlying().(*types.Pointer); ok {
		if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
			return st.Field(fa.Field).Name()
		}
	}
	return ""
}

// isKey says that a value is the key of the entry.
func (b *mapBody) isKey(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Extract:
		return x.Tuple == b.next && x.Index == 1
	case *ssa.ChangeType:
		return b.isKey(x.X)
	case *ssa.Convert:
		return b.isKey(x.X)
	case *ssa.MakeInterface:
		return b.isKey(x.X)
	}
	return false
}

func addrOf(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return addrOf(x.X)
	case *ssa.IndexAddr:
		return addrOf(x.X)
	case *ssa.Slice:
		return addrOf(x.X)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return x
		}
	}
	return v
}

// keyed: the block is entered only if the key of the entry equals something that does not depend on the entry.
func (b *mapBody) keyed(blk *ssa.BasicBlock) bool {
	for d := blk; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil {
			break
		}
		if iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If); ok && b.in(iff) {
			if bo, ok := iff.Cond.(*ssa.BinOp); ok && bo.Op == token.EQL && len(d.Preds) == 1 && id.Succs[0] == d {
				if b.isKey(bo.X) && !b.elem[bo.Y] || b.isKey(bo.Y) && !b.elem[bo.X] {
					return true
				}
			}
		}
	}
	return false
}

func (b *mapBody) ret(r *ssa.Return) {
	for _, v := range r.Results {
		if b.elem[v] && !b.keyed(r.Block()) {
			b.bad(r.Pos(), "the result depends on the entry found first")
		}
	}
}

// accumulator classifies a value carried round the loop; it returns the value if it is a list in iteration order.
func (b *mapBody) accumulator(phi *ssa.Phi, l *loop) ssa.Value {
	seen := map[ssa.Value]bool{}
	kind := ""
	set := func(k string) bool {
		if kind == "" || kind == k {
			kind = k
			return true
		}
		return false
	}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == ssa.Value(phi) || seen[v] {
			return true
		}
		seen[v] = true
		in, isIn := v.(ssa.Instruction)
		if !isIn || !b.in(in) {
			_, isConst := v.(*ssa.Const)
			if isConst || !b.elem[v] {
				return set("value")
			}
			return false
		}
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !walk(e) {
					return false
				}
			}
			return true
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "append":
					return set("list") && walk(x.Call.Args[0])
				case "min", "max":
					return set("extreme")
				}
			}
			if len(x.Call.Args) > 0 && !isStrTyp(x.Type()) {
				// helper(list, ...) that returns the list with more in it
				if _, ok := x.Type().Underlying().(*types.Slice); ok && set("list") {
					for _, a := range x.Call.Args {
						if types.Identical(a.Type(), x.Type()) && walk(a) {
							return true
						}
					}
				}
			}
			return false
		case *ssa.BinOp:
			basic, _ := x.Type().Underlying().(*types.Basic)
			if basic == nil || basic.Info()&types.IsString != 0 {
				return false
			}
			switch x.Op {
			case token.ADD, token.SUB, token.MUL, token.OR, token.AND, token.XOR:
				if basic.Info()&types.IsFloat != 0 {
					return false
				}
				var other ssa.Value = x.X
				if b.dependsOn(x.X, phi) {
					other = x.Y
				}
				if b.dependsOn(other, phi) {
					return false
				}
				return set(x.Op.String())
			}
			return !b.elem[v] && set("value")
		}
		return !b.elem[v] && set("value")
	}
	ok := true
	for i, e := range phi.Edges {
		if l.latch[phi.Block().Preds[i]] && !walk(e) {
			ok = false
		}
	}
	if !ok {
		if b.isExtreme(phi, l) {
			return nil
		}
		if len(usedOutside(phi, l)) > 0 || isStrTyp(phi.Type()) {
			b.bad(phi.Pos(), "%s takes on a value that depends on the order of the entries", phiName(phi))
		}
		return nil
	}
	if kind == "list" {
		return phi
	}
	return nil
}

func phiName(phi *ssa.Phi) string {
	if phi.Comment != "" {
		return phi.Comment
	}
	return "a variable"
}

// usedOutside lists the uses of a value after the loop.
func usedOutside(v ssa.Value, l *loop) (out []ssa.Instruction) {
	for _, u := range *v.Referrers() {
		if !l.body[u.Block()] {
			if _, ok := u.(*ssa.DebugRef); !ok {
				out = append(out, u)
			}
		}
	}
	return out
}

func (b *mapBody) dependsOn(v ssa.Value, phi *ssa.Phi) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == ssa.Value(phi) {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		in, ok := v.(ssa.Instruction)
		if !ok || !b.in(in) {
			return false
		}
		for _, op := range in.Operands(nil) {
			if op != nil && *op != nil && walk(*op) {
				return true
			}
		}
		return false
	}
	return walk(v)
}

// isExtreme: the variable is replaced by a value only after comparing the two.
func (b *mapBody) isExtreme(phi *ssa.Phi, l *loop) bool {
	for i, e := range phi.Edges {
		if !l.latch[phi.Block().Preds[i]] {
			continue
		}
		cand := []ssa.Value{e}
		if m, ok := e.(*ssa.Phi); ok && m != phi {
			cand = m.Edges
		}
		for _, x := range cand {
			if x == ssa.Value(phi) {
				continue
			}
			found := false
			for _, u := range *phi.Referrers() {
				if bo, ok := u.(*ssa.BinOp); ok && (sameValue(bo.X, x) || sameValue(bo.Y, x)) {
					switch bo.Op {
					case token.LSS, token.GTR, token.LEQ, token.GEQ:
						found = true
					}
				}
			}
			if !found {
				return false
			}
		}
	}
	return true
}

// sameValue: the same value, or two lengths of the same value.
func sameValue(x, y ssa.Value) bool {
	if x == y {
		return true
	}
	cx, ok1 := x.(*ssa.Call)
	cy, ok2 := y.(*ssa.Call)
	if !ok1 || !ok2 {
		return false
	}
	bx, ok1 := cx.Call.Value.(*ssa.Builtin)
	by, ok2 := cy.Call.Value.(*ssa.Builtin)
	return ok1 && ok2 && bx.Name() == "len" && by.Name() == "len" && cx.Call.Args[0] == cy.Call.Args[0]
}

// instr checks the effect of one instruction of the body.
func (b *mapBody) instr(in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Store:
		root := addrOf(x.Addr)
		if b.inside(root) || b.elem[root] {
			return
		}
		if b.keyedIndex(x.Addr) {
			return
		}
		if al, ok := root.(*ssa.Alloc); ok && x.Addr == ssa.Value(al) {
			b.cellStore(al, x)
			return
		}
		if fv, ok := root.(*ssa.FreeVar); ok && x.Addr == ssa.Value(fv) {
			if b.orderFree(x) {
				return
			}
			b.bad(x.Pos(), "%s, which belongs to the enclosing function, is assigned", fv.Name())
			return
		}
		if b.orderFree(x) {
			return
		}
		b.bad(x.Pos(), "memory that outlives the round is assigned a value that depends on the entry")
	case *ssa.MapUpdate:
		root := addrOf(x.Map)
		if b.inside(root) || b.elem[root] || b.isKey(x.Key) || !b.elem[x.Value] {
			return
		}
		// m[f(k)] = v: two entries may meet
		b.unsure(x.Pos(), "entries of another map are assigned under a key that two entries may share")
	case *ssa.Send:
		b.bad(x.Pos(), "entries are sent on a channel")
	case *ssa.Defer:
		b.bad(x.Pos(), "calls are deferred in iteration order")
	case *ssa.Go:
	case *ssa.Call:
		b.call(x)
	}
}

func (b *mapBody) inside(root ssa.Value) bool {
	switch root.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.Call:
		in := root.(ssa.Instruction)
		return b.in(in)
	}
	return false
}

// keyedIndex: an element is assigned whose index is the key of the entry.
func (b *mapBody) keyedIndex(addr ssa.Value) bool {
	switch x := addr.(type) {
	case *ssa.IndexAddr:
		return b.isKey(x.Index)
	case *ssa.FieldAddr:
		return b.keyedIndex(x.X)
	}
	return false
}

// orderFree: a constant, or the old value with something added.
func (b *mapBody) orderFree(st *ssa.Store) bool {
	if !b.elem[st.Val] {
		if bo, ok := st.Val.(*ssa.BinOp); !ok || bo.Op != token.ADD {
			return true
		}
	}
	bo, ok := st.Val.(*ssa.BinOp)
	if !ok || isStrTyp(bo.Type()) {
		return false
	}
	basic, _ := bo.Type().Underlying().(*types.Basic)
	if basic == nil || basic.Info()&types.IsInteger == 0 {
		return false
	}
	switch bo.Op {
	case token.ADD, token.SUB, token.MUL, token.OR, token.AND, token.XOR:
	default:
		return false
	}
	for _, s := range []ssa.Value{bo.X, bo.Y} {
		if ld, ok := s.(*ssa.UnOp); ok && ld.Op == token.MUL && ld.X == st.Addr {
			return true
		}
	}
	return false
}

func (b *mapBody) cellStore(al *ssa.Alloc, st *ssa.Store) {
	if b.orderFree(st) {
		return
	}
	if _, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Slice); ok {
		if c, ok := st.Val.(*ssa.Call); ok {
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
				b.cell[al] = true
				return
			}
		}
	}
	b.bad(st.Pos(), "%s takes on a value that depends on the order of the entries", al.Comment)
}

func (b *mapBody) call(c *ssa.Call) {
	cc := c.Common()
	if isLogging(cc) {
		return
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "copy", "clear":
			if root := addrOf(cc.Args[0]); !b.inside(root) && !b.elem[root] {
				b.bad(c.Pos(), "%s", bi.Name())
			}
		case "print", "println":
			b.bad(c.Pos(), "entries are printed in iteration order")
		}
		return
	}
	fe := b.d.x.fn[b.f]
	if fe == nil {
		return
	}
	fns, closure, lib, _ := fe.callees(cc)
	args := argsOf(cc)
	touch := func(s objSet, w modWitness, what string) {
		for o := range s {
			switch v := o.v.(type) {
			case *ssa.Alloc:
				if b.in(v) {
					continue
				}
				if _, ok := v.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Slice); ok {
					b.cell[v] = true
					continue
				}
				b.bad(c.Pos(), "%s changes %s, which outlives the round", what, v.Comment)
			case *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
				if o.lvl > 0 && len(b.elem) > 0 {
					// memory the entries lead to
					if b.onlyEntry(cc) {
						continue
					}
				}
				b.bad(c.Pos(), "%s changes what is behind %s", what, o.v.Name())
			}
		}
	}
	for i, g := range fns {
		for _, o := range b.d.x.sum[g].modList() {
			w := b.d.x.sum[g].mods[o]
			if gl, ok := o.v.(*ssa.Global); ok && gl.Pkg != nil && (strings.HasSuffix(gl.Pkg.Pkg.Path(), "/pkg/logs") || onceGuarded(w)) {
				continue
			}
			touch(fe.toCaller(g, o, args, closure[i].v), w, shortFn(g))
		}
	}
	if lib == "" {
		return
	}
	base := lastSeg(lib)
	if k := libMutates(lib); k >= 0 && k < len(args) {
		touch(fe.get(args[k]), modWitness{}, lib)
		return
	}
	if strings.HasPrefix(base, "Write") || strings.HasPrefix(base, "Fprint") || strings.HasPrefix(base, "Print") || strings.HasPrefix(base, "Exec") || strings.HasPrefix(base, "Query") || strings.HasPrefix(base, "Encode") {
		if len(fns) == 0 && len(args) > 0 && !b.inside(addrOf(args[0])) {
			b.bad(c.Pos(), "%s is called in iteration order", lib)
		}
	}
}

// onlyEntry: the arguments with memory behind them come from the entry.
func (b *mapBody) onlyEntry(cc *ssa.CallCommon) bool {
	for _, a := range argsOf(cc) {
		if hasPointers(a.Type()) && !b.elem[a] {
			if _, isConst := a.(*ssa.Const); !isConst {
				return false
			}
		}
	}
	return true
}

// onceGuarded: the write is in a function handed to (*sync.Once).Do.
func onceGuarded(w modWitness) bool {
	if w.fn == nil {
		return false
	}
	if nilGuarded(w) {
		return true
	}
	if w.fn.Parent() == nil {
		return false
	}
	ok := false
	eachCall(w.fn.Parent(), func(c ssa.CallInstruction) {
		if ccName(c.Common()) == "(*sync.Once).Do" {
			for _, a := range c.Common().Args {
				if mc, is := a.(*ssa.MakeClosure); is && mc.Fn == w.fn || a == ssa.Value(w.fn) {
					ok = true
				}
			}
		}
	})
	return ok
}

// nilGuarded: the write sets a package-level variable only where it is still nil, to something that does not depend on
// the arguments.
func nilGuarded(w modWitness) bool {
	n := 0
	for _, b := range w.fn.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || st.Pos() != w.pos {
				continue
			}
			g, ok := st.Addr.(*ssa.Global)
			if !ok {
				return false
			}
			if dependsOnParams(st.Val, map[ssa.Value]bool{}) {
				return false
			}
			guarded := false
			for d := b; d != nil; d = d.Idom() {
				if len(d.Preds) != 1 {
					continue
				}
				p := d.Preds[0]
				iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
				if !ok {
					continue
				}
				bo, ok := iff.Cond.(*ssa.BinOp)
				if !ok {
					continue
				}
				ld, ok := bo.X.(*ssa.UnOp)
				k, isK := bo.Y.(*ssa.Const)
				if !ok || !isK || !k.IsNil() || ld.X != ssa.Value(g) {
					continue
				}
				if bo.Op == token.EQL && p.Succs[0] == d || bo.Op == token.NEQ && p.Succs[1] == d {
					guarded = true
				}
			}
			if !guarded {
				return false
			}
			n++
		}
	}
	return n > 0
}

func dependsOnParams(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v.(type) {
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Phi:
		return true
	case *ssa.Alloc:
		for _, u := range *v.Referrers() {
			if st, ok := u.(*ssa.Store); ok && dependsOnParams(st.Val, seen) {
				return true
			}
			if ia, ok := u.(*ssa.IndexAddr); ok {
				for _, w := range *ia.Referrers() {
					if st, ok := w.(*ssa.Store); ok && dependsOnParams(st.Val, seen) {
						return true
					}
				}
			}
		}
		return false
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, op := range in.Operands(nil) {
		if op != nil && *op != nil && dependsOnParams(*op, seen) {
			return true
		}
	}
	return false
}

// cells checks the variables that collect.
func (b *mapBody) cells() {
	var cs []ssa.Value
	for c := range b.cell {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].Name() < cs[j].Name() })
	for _, c := range cs {
		var loads []ssa.Value
		for _, u := range *c.Referrers() {
			if ld, ok := u.(*ssa.UnOp); ok && !b.in(ld) {
				loads = append(loads, ld)
			}
		}
		b.uses(loads, nil)
	}
}

// holder checks the uses of a list collected in iteration order.
func (b *mapBody) holder(v ssa.Value, in func(ssa.Instruction) bool) {
	b.uses([]ssa.Value{v}, in)
}

type useOf struct {
	u ssa.Instruction
	v ssa.Value
}

func (b *mapBody) uses(vs []ssa.Value, in func(ssa.Instruction) bool) {
	b.usesIn(vs, in, nil, 0)
}

// fewer says what the branch on which a block is entered tells about the number of elements of one of the values: at
// most one (small), or that the other branch has at most one (large).
func fewer(cond ssa.Value, of map[ssa.Value]bool) (smallIfTrue, smallIfFalse bool) {
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return
	}
	x, y, op := bo.X, bo.Y, bo.Op
	isLen := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		bi, ok := c.Call.Value.(*ssa.Builtin)
		return ok && bi.Name() == "len" && of[c.Call.Args[0]]
	}
	if isLen(y) {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	k, ok := y.(*ssa.Const)
	if !ok || !isLen(x) || k.Value == nil || k.Value.Kind() != constant.Int {
		return
	}
	n := k.Int64()
	switch op {
	case token.GTR:
		return false, n <= 1
	case token.GEQ:
		return false, n <= 2
	case token.LSS:
		return n <= 2, false
	case token.LEQ:
		return n <= 1, false
	case token.EQL:
		return n <= 1, false
	case token.NEQ:
		return false, n <= 1
	}
	return
}

// smallBlock: the block is entered only when the list has at most one element.
func smallBlock(blk *ssa.BasicBlock, of map[ssa.Value]bool) bool {
	for d := blk; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		t, f := fewer(iff.Cond, of)
		if t && p.Succs[0] == d || f && p.Succs[1] == d {
			return true
		}
	}
	return false
}

// usesIn checks what is done with a list in iteration order. For a parameter of a helper (param is the helper) it tells
// whether the helper has sorted the list when it returns, and which results are the list, still unsorted.
func (b *mapBody) usesIn(vs []ssa.Value, in func(ssa.Instruction) bool, param *ssa.Function, depth int) (sortedAtEnd bool, unsorted map[int]bool) {
	seen := map[ssa.Value]bool{}
	unsorted = map[int]bool{}
	var all []useOf
	var sorts []ssa.Instruction
	quiet := func(string, token.Pos, string, ...any) {}
	later := map[ssa.Instruction][]*ssa.Parameter{} // calls of helpers that use the list unsorted
	work := append([]ssa.Value{}, vs...)
	for len(work) > 0 {
		v := work[0]
		work = work[1:]
		if seen[v] || v.Referrers() == nil {
			continue
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			if in != nil && in(u) {
				continue
			}
			switch x := u.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi, *ssa.ChangeType:
				work = append(work, u.(ssa.Value))
				continue
			case *ssa.MakeInterface:
				work = append(work, x)
				continue
			case *ssa.Store:
				if x.Val == v {
					if al, ok := x.Addr.(*ssa.Alloc); ok {
						for _, w := range *al.Referrers() {
							if ld, ok := w.(*ssa.UnOp); ok && (in == nil || !in(ld)) {
								work = append(work, ld)
							}
						}
						continue
					}
				}
			case *ssa.Call:
				if isLogging(x.Common()) {
					continue
				}
				cn := ccName(x.Common())
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "len", "cap":
						continue
					case "append":
						if x.Call.Args[0] == v {
							work = append(work, x)
							continue
						}
						if len(x.Call.Args) == 2 && x.Call.Args[1] == v {
							// a copy, which has to be sorted itself
							b.usesIn([]ssa.Value{x}, in, nil, depth)
							continue
						}
					}
				}
				if strings.HasPrefix(cn, "slices.Clone") {
					b.usesIn([]ssa.Value{x}, in, nil, depth)
					continue
				}
				if isSortCall(cn) {
					if how := b.total(x, cn); how == "" {
						sorts = append(sorts, x)
						if strings.HasPrefix(cn, "slices.Sorted") {
							continue
						}
					} else if how == "?" {
						b.unsure(x.Pos(), "the order of %s is not known", cn)
						return
					} else {
						b.bad(x.Pos(), "what is collected is sorted only by %s, which entries may share", how)
						return
					}
					continue
				}
				if g := x.Call.StaticCallee(); g != nil && len(g.Blocks) > 0 && depth < 4 {
					isSort := false
					for i, a := range x.Call.Args {
						if a != v || i >= len(g.Params) {
							continue
						}
						sub := *b
						sub.f = g
						sub.fail, sub.undecided = quiet, quiet
						srt, un := sub.usesIn([]ssa.Value{g.Params[i]}, nil, g, depth+1)
						if sub.done {
							later[x] = append(later[x], g.Params[i])
							continue
						}
						isSort = isSort || srt
						if !srt && len(un) > 0 {
							if _, isTuple := x.Type().(*types.Tuple); isTuple {
								for _, w := range *x.Referrers() {
									if ex, ok := w.(*ssa.Extract); ok && un[ex.Index] {
										work = append(work, ex)
									}
								}
							} else {
								work = append(work, x)
							}
						}
					}
					if isSort {
						sorts = append(sorts, x)
					}
					if later[x] == nil {
						continue
					}
				}
			}
			all = append(all, useOf{u, v})
		}
	}
	// where the list is sorted from
	sortedAt := func(u ssa.Instruction) bool {
		if smallBlock(u.Block(), seen) {
			return true
		}
		for _, s := range sorts {
			if s.Block() == u.Block() {
				for _, in := range s.Block().Instrs {
					if in == s {
						return true
					}
					if in == u {
						break
					}
				}
				continue
			}
			if s.Block().Dominates(u.Block()) {
				return true
			}
			// if len(list) > 1 { sort }
			if sb := s.Block(); len(sb.Preds) == 1 {
				p := sb.Preds[0]
				if iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p != u.Block() && p.Dominates(u.Block()) {
					t, f := fewer(iff.Cond, seen)
					if f && p.Succs[0] == sb || t && p.Succs[1] == sb {
						return true
					}
				}
			}
		}
		return false
	}
	for _, u := range all {
		if sortedAt(u.u) {
			continue
		}
		if ps := later[u.u]; ps != nil {
			for _, p := range ps {
				sub := *b
				sub.f = p.Parent()
				sub.usesIn([]ssa.Value{p}, nil, sub.f, depth+1)
				b.done = b.done || sub.done
			}
			continue
		}
		if r, isRet := u.u.(*ssa.Return); isRet {
			for i, v := range r.Results {
				if v != u.v {
					continue
				}
				if param != nil {
					unsorted[i] = true
				} else {
					b.returned(i, r.Pos(), depth)
				}
			}
			continue
		}
		b.bad(u.u.Pos(), "what is collected is used before it is sorted")
		return
	}
	if param != nil {
		sortedAtEnd = len(sorts) > 0
		for _, blk := range param.Blocks {
			if r, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok && !sortedAt(r) {
				sortedAtEnd = false
			}
		}
	}
	return
}

// returned: the list leaves the function as it was collected; the callers have to sort it.
func (b *mapBody) returned(i int, pos token.Pos, depth int) {
	if b.d.r == nil || b.done {
		return
	}
	if depth > 6 {
		b.unsure(pos, "what is collected is handed on too far")
		return
	}
	n := 0
	for _, g := range b.d.p.fns {
		if !detScope(g) {
			continue
		}
		eachCall(g, func(c ssa.CallInstruction) {
			call, ok := c.(*ssa.Call)
			if !ok || call.Call.StaticCallee() != b.f || b.done {
				return
			}
			n++
			sub := *b
			sub.f = g
			var vs []ssa.Value
			if _, isTuple := call.Type().(*types.Tuple); isTuple {
				for _, u := range *call.Referrers() {
					if e, ok := u.(*ssa.Extract); ok && e.Index == i {
						vs = append(vs, e)
					}
				}
			} else {
				vs = append(vs, call)
			}
			sub.usesIn(vs, nil, nil, depth+1)
			b.done = b.done || sub.done
		})
	}
	if n == 0 {
		b.bad(pos, "what is collected is returned unsorted")
	}
}

func isSortCall(cn string) bool {
	if i := strings.Index(cn, "["); i >= 0 {
		cn = cn[:i]
	}
	switch cn {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "slices.Sorted", "slices.SortedFunc", "slices.SortedStableFunc":
		return true
	}
	return false
}

// total says "" if the order of a sort tells all entries apart, or else by what it sorts.
func (b *mapBody) total(c *ssa.Call, cn string) string {
	if i := strings.Index(cn, "["); i >= 0 {
		cn = cn[:i]
	}
	switch cn {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort", "slices.Sorted":
		return ""
	}
	var fn *ssa.Function
	for _, a := range c.Call.Args {
		switch x := a.(type) {
		case *ssa.MakeClosure:
			fn = x.Fn.(*ssa.Function)
		case *ssa.Function:
			fn = x
		}
	}
	if fn == nil {
		if len(c.Call.Args) > 0 {
			if mi, ok := c.Call.Args[0].(*ssa.MakeInterface); ok {
				if strings.HasPrefix(mi.X.Type().String(), "sort.") {
					return ""
				}
				ms := b.d.p.ssa.MethodSets.MethodSet(mi.X.Type())
				for i := 0; i < ms.Len(); i++ {
					if ms.At(i).Obj().Name() == "Less" {
						fn = b.d.p.ssa.MethodValue(ms.At(i))
					}
				}
			}
		}
		if fn == nil {
			return "?"
		}
	}
	if selfCompared(b.d.p, fn) {
		return "nothing (an entry is compared with itself)"
	}
	names := map[string]bool{}
	whole := false
	for g := range b.d.p.reach([]*ssa.Function{fn}, nil) {
		for _, blk := range g.Blocks {
			for _, in := range blk.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					names[fieldName(x)] = true
				case *ssa.Field:
					if st, ok := x.X.Type().Underlying().(*types.Struct); ok {
						names[st.Field(x.Field).Name()] = true
					}
				case *ssa.BinOp:
					switch x.Op {
					case token.LSS, token.GTR, token.LEQ, token.GEQ:
						if ld, ok := x.X.(*ssa.UnOp); ok && ld.Op == token.MUL {
							if _, ok := ld.X.(*ssa.IndexAddr); ok {
								whole = true
							}
						}
						if _, ok := x.X.(*ssa.Parameter); ok && x.X.Parent() == fn {
							whole = true
						}
					}
				case ssa.CallInstruction:
					cn := ccName(x.Common())
					names[lastSeg(cn)+"()"] = true
					if strings.HasPrefix(cn, "cmp.Compare") || strings.HasPrefix(cn, "strings.Compare") {
						if _, ok := x.Common().Args[0].(*ssa.Parameter); ok {
							whole = true
						}
					}
				}
			}
		}
	}
	if whole || names["Offset"] || names["Pos()"] || names["End()"] || names["Line"] && names["Column"] {
		return ""
	}
	for k := range b.keys {
		if names[k] {
			return ""
		}
	}
	var by []string
	for n := range names {
		if n != "" && !strings.HasPrefix(n, "Compare") {
			by = append(by, n)
		}
	}
	sort.Strings(by)
	if len(by) == 0 {
		return "?"
	}
	return strings.Join(by, ", ")
}

// selfCompared: every comparison in an order takes both sides from the same one of the two entries.
func selfCompared(p *Prog, fn *ssa.Function) bool {
	same, other := 0, 0
	look := func(x, y ssa.Value) {
		a, b := paramsBehind(x, map[ssa.Value]bool{}), paramsBehind(y, map[ssa.Value]bool{})
		if len(a) == 1 && len(b) == 1 {
			for k := range a {
				if b[k] {
					same++
					return
				}
			}
		}
		other++
	}
	for g := range p.reach([]*ssa.Function{fn}, nil) {
		for _, blk := range g.Blocks {
			for _, in := range blk.Instrs {
				switch x := in.(type) {
				case *ssa.BinOp:
					switch x.Op {
					case token.LSS, token.GTR, token.LEQ, token.GEQ:
						look(x.X, x.Y)
					}
				case ssa.CallInstruction:
					if cn := ccName(x.Common()); strings.HasPrefix(cn, "cmp.") || strings.HasPrefix(cn, "strings.Compare") {
						if as := x.Common().Args; len(as) == 2 {
							look(as[0], as[1])
						}
					}
				}
			}
		}
	}
	return same > 0 && other == 0
}

// paramsBehind: the parameters of its function that a value is computed from.
func paramsBehind(v ssa.Value, seen map[ssa.Value]bool) map[*ssa.Parameter]bool {
	out := map[*ssa.Parameter]bool{}
	if v == nil || seen[v] {
		return out
	}
	seen[v] = true
	if p, ok := v.(*ssa.Parameter); ok {
		out[p] = true
		return out
	}
	if al, ok := v.(*ssa.Alloc); ok {
		for _, r := range *al.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == al {
				for k := range paramsBehind(st.Val, seen) {
					out[k] = true
				}
			}
		}
		return out
	}
	if in, ok := v.(ssa.Instruction); ok {
		for _, op := range in.Operands(nil) {
			if *op != nil {
				for k := range paramsBehind(*op, seen) {
					out[k] = true
				}
			}
		}
	}
	return out
}

// iterators checks the functions of the library that hand out the entries of a map.
func (d *det) iterators(f *ssa.Function, c ssa.CallInstruction, cn string, fail, undecided reporter) {
	if i := strings.Index(cn, "["); i >= 0 {
		cn = cn[:i]
	}
	call, _ := c.(*ssa.Call)
	if call == nil {
		return
	}
	b := &mapBody{d: d, f: f, in: func(ssa.Instruction) bool { return false }, where: c.Pos(), fail: fail, undecided: undecided, elem: map[ssa.Value]bool{}, keys: map[string]bool{}, cell: map[ssa.Value]bool{}}
	switch cn {
	case "maps.Keys", "maps.Values", "maps.All":
		for _, u := range *call.Referrers() {
			switch x := u.(type) {
			case *ssa.DebugRef:
			case *ssa.Call:
				un := ccName(x.Common())
				if i := strings.Index(un, "["); i >= 0 {
					un = un[:i]
				}
				switch {
				case un == "slices.Sorted":
				case un == "slices.SortedFunc" || un == "slices.SortedStableFunc":
					if how := b.total(x, un); how != "" && how != "?" {
						b.bad(x.Pos(), "sorted only by %s, which entries may share", how)
					}
				case un == "slices.Collect" || un == "slices.AppendSeq":
					b.uses([]ssa.Value{x}, nil)
				case un == "maps.Collect" || un == "maps.Insert":
				case x.Call.Value == ssa.Value(call):
					b.closureBody(x)
				default:
					b.unsure(x.Pos(), "the entries are handed to %s", un)
				}
			default:
				b.unsure(u.Pos(), "the entries are handed on")
			}
		}
	case "(reflect.Value).MapKeys":
		b.uses([]ssa.Value{call}, nil)
	case "(reflect.Value).MapRange":
		b.unsure(c.Pos(), "a map is iterated by reflection")
	case "(*sync.Map).Range":
		b.closureBody(call)
	case "golang.org/x/exp/maps.Keys", "golang.org/x/exp/maps.Values":
		b.uses([]ssa.Value{call}, nil)
	}
}

// closureBody checks an iteration whose body is a function: variables it changes are collected in.
func (b *mapBody) closureBody(c *ssa.Call) {
	fe := b.d.x.fn[b.f]
	for _, a := range c.Call.Args {
		mc, ok := a.(*ssa.MakeClosure)
		if !ok {
			continue
		}
		g := mc.Fn.(*ssa.Function)
		for _, o := range b.d.x.sum[g].modList() {
			fv, ok := o.v.(*ssa.FreeVar)
			if !ok {
				b.bad(c.Pos(), "the body changes what is behind %s", o.v.Name())
				return
			}
			for i, q := range g.FreeVars {
				if q != fv {
					continue
				}
				al, ok := mc.Bindings[i].(*ssa.Alloc)
				if !ok || fe == nil {
					b.bad(c.Pos(), "the body changes %s", fv.Name())
					return
				}
				elem := al.Type().Underlying().(*types.Pointer).Elem()
				switch t := elem.Underlying().(type) {
				case *types.Slice:
					b.cell[al] = true
				case *types.Basic:
					if t.Info()&types.IsString != 0 {
						b.bad(c.Pos(), "the body adds to %s in iteration order", fv.Name())
						return
					}
				case *types.Map:
				default:
					b.bad(c.Pos(), "the body changes %s", fv.Name())
					return
				}
			}
		}
	}
	b.cells()
}

// goStmt: a goroutine may only fill places of its own.
func (d *det) goStmt(f *ssa.Function, g *ssa.Go, fail, undecided reporter) {
	fns, _, _, _ := d.x.fn[f].callees(g.Common())
	if len(fns) == 0 {
		undecided("no-scheduling", g.Pos(), "a goroutine runs a function that is not known")
		return
	}
	inLoop := reaches(g.Block(), g.Block())
	for _, h := range fns {
		for _, blk := range h.Blocks {
			for _, in := range blk.Instrs {
				switch x := in.(type) {
				case *ssa.Send:
					if inLoop {
						fail("no-scheduling", x.Pos(), "%s: goroutines send their results in any order", shortFn(f))
						return
					}
				case *ssa.Store:
					if c, ok := x.Val.(*ssa.Call); ok {
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
							fail("no-scheduling", x.Pos(), "%s: goroutines append their results in any order", shortFn(f))
							return
						}
					}
					if bo, ok := x.Val.(*ssa.BinOp); ok && isStrTyp(bo.Type()) {
						fail("no-scheduling", x.Pos(), "%s: goroutines add to a text in any order", shortFn(f))
						return
					}
				}
			}
		}
	}
	undecided("no-scheduling", g.Pos(), "a goroutine takes part")
}

// formatted: no address is turned into text.
func (d *det) formatted(f *ssa.Function, c ssa.CallInstruction, cn string, fail reporter) {
	cc := c.Common()
	format := 0
	switch cn {
	case "fmt.Sprintf", "fmt.Errorf", "fmt.Printf":
	case "fmt.Fprintf", "fmt.Appendf":
		format = 1
	case "fmt.Sprint", "fmt.Sprintln", "fmt.Print", "fmt.Println":
		format = -1
	case "fmt.Fprint", "fmt.Fprintln", "fmt.Append", "fmt.Appendln":
		format = -2
	default:
		return
	}
	if f.Name() == "GoString" || strings.HasSuffix(pkgOf(f).Path(), "/pkg/ddl/internal") {
		return // for debugging only
	}
	args, ok := varargs(cc.Args[len(cc.Args)-1])
	if !ok {
		return
	}
	verbs := []byte{}
	if format >= 0 && len(cc.Args) > format {
		k, ok := cc.Args[format].(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.String {
			return
		}
		verbs = fmtVerbs(constant.StringVal(k.Value))
	}
	for i, a := range args {
		v := byte('v')
		if format >= 0 {
			if i >= len(verbs) {
				break
			}
			v = verbs[i]
		}
		t := a.Type()
		if mi, ok := a.(*ssa.MakeInterface); ok {
			t = mi.X.Type()
		}
		if v == 'T' {
			continue
		}
		if v == 'p' {
			fail("no-address-text", c.Pos(), "%s formats an address (%%p)", shortFn(f))
			continue
		}
		if s := addressIn(t, 0, map[types.Type]bool{}); s != "" {
			fail("no-address-text", c.Pos(), "%s formats a value of type %s, which is printed with the address of %s", shortFn(f), t, s)
		}
	}
}

func fmtVerbs(s string) (out []byte) {
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			continue
		}
		i++
		for i < len(s) && strings.IndexByte("+-# 0123456789.[]", s[i]) >= 0 {
			i++
		}
		if i < len(s) && s[i] == '*' {
			out = append(out, 'd')
			i++
			for i < len(s) && strings.IndexByte("0123456789.", s[i]) >= 0 {
				i++
			}
		}
		if i < len(s) && s[i] != '%' {
			out = append(out, s[i])
		}
	}
	return out
}

func hasTextMethod(t types.Type) bool {
	for _, x := range []types.Type{t} {
		ms := types.NewMethodSet(x)
		for _, n := range []string{"String", "Error", "Format", "GoString"} {
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == n {
					return true
				}
			}
		}
	}
	return false
}

// addressIn says what part of a value of the type is printed as an address.
func addressIn(t types.Type, depth int, seen map[types.Type]bool) string {
	if seen[t] || hasTextMethod(t) {
		return ""
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array, *types.Slice, *types.Map:
			if depth == 0 {
				return addressIn(u.Elem(), 1, seen)
			}
		}
		return "a " + t.String()
	case *types.Chan, *types.Signature:
		return "a " + t.String()
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return "memory"
		}
	case *types.Slice:
		return addressIn(u.Elem(), depth+1, seen)
	case *types.Array:
		return addressIn(u.Elem(), depth+1, seen)
	case *types.Map:
		if s := addressIn(u.Key(), depth+1, seen); s != "" {
			return s
		}
		return addressIn(u.Elem(), depth+1, seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if s := addressIn(u.Field(i).Type(), depth+1, seen); s != "" {
				return s
			}
		}
	}
	return ""
}

// carryOver: what a run leaves in package-level variables.
func (d *det) carryOver() {
	r, p := d.r, d.p
	for _, f := range p.fns {
		if !detScope(f) || f.Parent() != nil || strings.HasSuffix(pkgOf(f).Path(), "/pkg/internal/config") || strings.HasPrefix(pkgOf(f).Path(), modPath+"/cmd") || f.Name() == "Command" || f.Name() == "DDLCtl" {
			continue
		}
		if f.Object() == nil || !f.Object().Exported() && f.Name() != "main" {
			continue
		}
		bad := false
		s := d.x.sum[f]
		for _, o := range s.modList() {
			g, ok := o.v.(*ssa.Global)
			if !ok {
				continue
			}
			w := s.mods[o]
			gt := g.Type().Underlying().(*types.Pointer).Elem()
			if isErrorType(gt) || onceGuarded(w) || g.Pkg != nil && (strings.HasSuffix(g.Pkg.Pkg.Path(), "/pkg/logs") || strings.HasSuffix(g.Pkg.Pkg.Path(), "/pkg/internal/config")) {
				continue
			}
			bad = true
			if why := memory(p, g, w); why != "" {
				r.Fail("no-carry-over", shortFn(f), p.pos(w.pos), "%s writes the package-level variable %s (in %s): %s", shortFn(f), globalName(g), shortFn(w.fn), why)
			} else if memo(g, w) {
				bad = false
				continue
			} else if selfDependent(p, g, w) {
				r.Fail("no-carry-over", shortFn(f), p.pos(w.pos), "%s changes the package-level variable %s from its old value (in %s): the next use starts from what this one left", shortFn(f), globalName(g), shortFn(w.fn))
			} else {
				r.Undecided("no-carry-over", shortFn(f), "%s: the package-level variable %s is written (in %s)", p.pos(w.pos), globalName(g), shortFn(w.fn))
			}
		}
		if !bad {
			r.Ok("no-carry-over", shortFn(f))
		}
	}
}

// mapWrites lists the entries a function adds to a package-level map.
func mapWrites(g *ssa.Global, w modWitness) (out []*ssa.MapUpdate) {
	if w.fn == nil {
		return nil
	}
	for _, b := range w.fn.Blocks {
		for _, in := range b.Instrs {
			if mu, ok := in.(*ssa.MapUpdate); ok {
				if ld, ok := mu.Map.(*ssa.UnOp); ok && ld.X == ssa.Value(g) {
					out = append(out, mu)
				}
			}
		}
	}
	return out
}

// memory: a package-level map remembers what has been seen.
func memory(p *Prog, g *ssa.Global, w modWitness) string {
	for _, mu := range mapWrites(g, w) {
		if _, ok := mu.Value.(*ssa.Const); ok {
			return "it remembers what an earlier use has met"
		}
		if _, ok := mu.Key.(*ssa.Const); ok && dependsOnParams(mu.Value, map[ssa.Value]bool{}) {
			return "the next use gets what this one computed from its own input"
		}
	}
	return ""
}

// memo: a package-level map holds, for a key, what is computed from that key alone.
func memo(g *ssa.Global, w modWitness) bool {
	ws := mapWrites(g, w)
	for _, mu := range ws {
		seen := map[ssa.Value]bool{mu.Key: true}
		if mi, ok := mu.Key.(*ssa.MakeInterface); ok {
			seen[mi.X] = true
		}
		if dependsOnParams(mu.Value, seen) {
			return false
		}
	}
	return len(ws) > 0
}

// selfDependent: the value written is computed from the value that was there.
func selfDependent(p *Prog, g *ssa.Global, w modWitness) bool {
	if w.fn == nil {
		return false
	}
	for _, b := range w.fn.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || addrOf(st.Addr) != ssa.Value(g) {
				continue
			}
			seen := map[ssa.Value]bool{}
			var walk func(v ssa.Value) bool
			walk = func(v ssa.Value) bool {
				if seen[v] {
					return false
				}
				seen[v] = true
				switch x := v.(type) {
				case *ssa.UnOp:
					if x.Op == token.MUL && addrOf(x.X) == ssa.Value(g) {
						return true
					}
					return walk(x.X)
				case *ssa.BinOp:
					return walk(x.X) || walk(x.Y)
				case *ssa.Call:
					for _, a := range x.Call.Args {
						if walk(a) {
							return true
						}
					}
				case *ssa.Phi:
					for _, e := range x.Edges {
						if walk(e) {
							return true
						}
					}
				case *ssa.Convert:
					return walk(x.X)
				}
				return false
			}
			if walk(st.Val) {
				return true
			}
		}
	}
	return false
}
