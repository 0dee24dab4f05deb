package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is an effect observed on a trace: an opaque (external) call, or the events of a summarised loop.
type Event struct {
	kind string // "call", "each", "store", "assert"
	name string
	args []*T
	ret  *T
	pos  token.Pos
	fn   *ssa.Function
	coll *T
	sub  []*LoopTrace
	exit bool // for "each": the loop was left early by the last element's trace
	px   *pxEnter
}

// LoopTrace is one path through a loop body.
type LoopTrace struct {
	guards []*T
	events []*Event
	kind   int
}

// State is one abstract state: memory, the branch decisions taken, and the effects so far.
type State struct {
	mem    map[*T]*T
	lits   []*T
	known  map[*T]bool
	events []*Event
	nalloc int
	ncall  int
	depth  int
	lvs    []*T
}

func newState() *State { return &State{mem: map[*T]*T{}, known: map[*T]bool{}} }

func (s *State) clone() *State {
	n := &State{mem: make(map[*T]*T, len(s.mem)+4), known: make(map[*T]bool, len(s.known)+4), nalloc: s.nalloc, ncall: s.ncall, depth: s.depth}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.known {
		n.known[k] = v
	}
	n.lits = append([]*T{}, s.lits...)
	n.events = append([]*Event{}, s.events...)
	n.lvs = append([]*T{}, s.lvs...)
	return n
}

func stripAs(x *T) *T {
	for x.op == "as" {
		x = x.a[0]
	}
	return x
}

// assume records that atom has value v. Returns false when that contradicts what is known.
func (s *State) assume(atom *T, v bool) bool {
	if atom.op == "not" {
		return s.assume(atom.a[0], !v)
	}
	if atom.op == "conj" && v {
		for _, x := range atom.a {
			if !s.assume(x, true) {
				return false
			}
		}
		return true
	}
	if k, ok := s.decide(atom); ok {
		return k == v
	}
	s.known[atom] = v
	if v {
		s.lits = append(s.lits, atom)
	} else {
		s.lits = append(s.lits, mkNot(atom))
	}
	return s.consistent(atom, v)
}

func (s *State) consistent(atom *T, v bool) bool {
	// nil arguments make calls of the same method equal
	if atom.op == "eq" && !v {
		x, y := atom.a[0], atom.a[1]
		if s.canonCall(x) == s.canonCall(y) {
			return false
		}
	}
	if atom.op == "isnil" && v {
		for l, kv := range s.known {
			if l.op == "eq" && !kv && s.canonCall(l.a[0]) == s.canonCall(l.a[1]) {
				return false
			}
		}
	}
	// boolean equalities
	if isBoolAtom(atom) {
		for l, kv := range s.known {
			if l.op == "eq" && (l.a[0] == atom || l.a[1] == atom) {
				o := l.a[0]
				if o == atom {
					o = l.a[1]
				}
				if ov, ok := s.known[o]; ok && (ov == v) != kv {
					return false
				}
			}
		}
	}
	return true
}

// canonCall rewrites a method call on a value known to be nil to a call on nil.
func (s *State) canonCall(x *T) *T {
	if x.op == "m" && len(x.a) > 0 {
		if v, ok := s.known[mkIsNil(x.a[0])]; ok && v {
			return mk("m", x.s, tNil)
		}
	}
	return x
}

func isBoolAtom(t *T) bool {
	switch t.op {
	case "eq", "isnil", "typeis", "lt", "exists":
		return false
	}
	return true
}

// decide evaluates an atom under the decisions taken so far, by syntactic rules only.
func (s *State) decide(a *T) (bool, bool) {
	switch a.op {
	case "bool":
		return a == tTrue, true
	case "not":
		v, ok := s.decide(a.a[0])
		return !v, ok
	case "conj":
		all := true
		for _, x := range a.a {
			v, ok := s.decide(x)
			if ok && !v {
				return false, true
			}
			if !ok {
				all = false
			}
		}
		return true, all
	}
	if v, ok := s.known[a]; ok {
		return v, true
	}
	if a.op == "lt" || a.op == "eq" || a.op == "in" || a.op == "call" {
		if v, ok := s.decideChar(a); ok {
			return v, true
		}
	}
	switch a.op {
	case "in":
		return s.decideIn(a.a[0], a.a[1:])
	case "isnil":
		x := a.a[0]
		if x.op == "elem" && isRefType(x.typ) && (x.a[1].op == "loopvar" || x.a[1].op == "bv" || x.a[1].op == "first" || x.a[1].op == "int" || x.a[1].op == "fv") {
			return false, true // lists of statements/columns/constraints hold no nil entries
		}
		for l, kv := range s.known {
			if kv && l.op == "typeis" && l.a[0] == x {
				return false, true
			}
			if kv && l.op == "eq" {
				var o *T
				if l.a[0] == x {
					o = l.a[1]
				} else if l.a[1] == x {
					o = l.a[0]
				}
				if o != nil && definitelyNonNil(o) {
					return false, true
				}
			}
		}
	case "typeis":
		x := a.a[0]
		if v, ok := s.known[mkIsNil(x)]; ok && v {
			return false, true
		}
		for l, kv := range s.known {
			if !kv {
				continue
			}
			if l.op == "typeis" && l.a[0] == x && l.s != a.s && !strings.HasPrefix(l.s, "iface ") && !strings.HasPrefix(a.s, "iface ") {
				return false, true
			}
			if l.op == "eq" && l.a[0].op == "call" && l.a[0].s == "reflect.TypeOf" && l.a[1].op == "call" && l.a[1].s == "reflect.TypeOf" {
				p, q := stripAs(l.a[0].a[0]), stripAs(l.a[1].a[0])
				var o *T
				if p == x {
					o = q
				} else if q == x {
					o = p
				}
				if o != nil {
					for l2, kv2 := range s.known {
						if kv2 && l2.op == "typeis" && l2.a[0] == o {
							return l2.s == a.s, true
						}
					}
				}
			}
		}
	case "eq":
		x, y := a.a[0], a.a[1]
		if s.canonCall(x) == s.canonCall(y) {
			return true, true
		}
		if y.isConst() {
			for l, kv := range s.known {
				if kv && l.op == "eq" && l.a[0] == x && l.a[1].isConst() && l.a[1] != y {
					return false, true
				}
				if l.op == "in" && l.a[0] == x {
					if v, ok := s.decideIn(x, []*T{y}); ok {
						return v, true
					}
				}
			}
		} else {
			vx, ox := s.known[x]
			vy, oy := s.known[y]
			if ox && oy {
				return vx == vy, true
			}
		}
		if y.op == "int" && y.s == "0" && x.op == "len" {
			for l, kv := range s.known {
				if kv && l.op == "exists" && l.a[0] == x.a[0] {
					return false, true
				}
			}
		}
	case "lt":
		for l, kv := range s.known {
			if l.op == "eq" && kv && l.a[1].op == "int" {
				if contains(a, l.a[0]) {
					b := subst(a, map[*T]*T{l.a[0]: l.a[1]})
					if b.op == "bool" {
						return b == tTrue, true
					}
				}
			}
		}
		// a < b known gives not (b < a)
		if v, ok := s.known[mkLt(a.a[1], a.a[0])]; ok && v {
			return false, true
		}
	case "exists":
		if v, ok := s.known[mkEq(mkLen(a.a[0]), mkInt(0))]; ok && v {
			return false, true
		}
		// implied by a stronger known existence over the same collection
		for l, kv := range s.known {
			if kv && l.op == "exists" && l.a[0] == a.a[0] && conjSubset(a.a[1], l.a[1]) {
				return true, true
			}
			if !kv && l.op == "exists" && l.a[0] == a.a[0] && conjSubset(l.a[1], a.a[1]) {
				return false, true
			}
		}
	default:
		for l, kv := range s.known {
			if l.op == "eq" && (l.a[0] == a || l.a[1] == a) {
				o := l.a[0]
				if o == a {
					o = l.a[1]
				}
				if ov, ok := s.known[o]; ok {
					return ov == kv, true
				}
			}
		}
	}
	return false, false
}

// conjSubset: every literal of p occurs in q (so q implies p).
func conjSubset(p, q *T) bool {
	if p.op != "conj" || q.op != "conj" || len(p.a) == 0 {
		return false
	}
	m := map[*T]bool{}
	for _, x := range q.a {
		m[x] = true
	}
	for _, x := range p.a {
		if !m[x] {
			return false
		}
	}
	return true
}

func isRefType(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		return true
	}
	return false
}

// ---- memory ----

func addrRoot(a *T) *T {
	for a.op == "faddr" || a.op == "eaddr" || a.op == "sbuf" || a.op == "mapc" {
		a = a.a[0]
	}
	return a
}

func derefType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// load reads the value at address a whose content has type typ.
func (s *State) load(a *T, typ types.Type) *T {
	if v, ok := s.mem[a]; ok {
		if !s.hasSub(a) {
			return v
		}
	}
	if st, ok := typ.Underlying().(*types.Struct); ok && (s.hasSub(a) || a.op == "new") {
		args := make([]*T, st.NumFields())
		for i := range args {
			args[i] = s.load(mkFaddr(a, fieldKey(st, i)), st.Field(i).Type())
		}
		return mkT(typ, "struct", typeName(typ), args...)
	}
	if at, ok := typ.Underlying().(*types.Array); ok && (s.hasSub(a) || a.op == "new") && at.Len() <= 4096 {
		args := make([]*T, at.Len())
		for i := range args {
			args[i] = s.load(mkEaddr(a, mkInt(int64(i))), at.Elem())
		}
		return mkT(typ, "array", "", args...)
	}
	switch a.op {
	case "new":
		if strings.HasPrefix(a.s, "sym") {
			return mkT(typ, "deref", "", a)
		}
		return zeroOf(typ)
	case "faddr":
		b := a.a[0]
		if v, ok := s.mem[b]; ok {
			return mkFld(v, a.s, typ)
		}
		switch b.op {
		case "new":
			return zeroOf(typ)
		case "faddr", "eaddr":
			bt := s.addrType(b)
			if bt == nil {
				return mkT(typ, "fld", a.s, b)
			}
			return mkFld(s.load(b, bt), a.s, typ)
		}
		return mkFld(b, a.s, typ)
	case "eaddr":
		b := a.a[0]
		if v, ok := s.mem[b]; ok {
			if bt := derefType(b.typ); bt != nil {
				if _, ok := bt.Underlying().(*types.Array); ok {
					return mkElem(v, a.a[1], typ)
				}
			}
		}
		if b.op == "eaddr" {
			if bt := derefType(b.typ); bt != nil {
				if _, ok := bt.Underlying().(*types.Array); ok {
					return mkElem(s.load(b, bt), a.a[1], typ)
				}
			}
		}
		if bt := derefType(b.typ); bt != nil {
			if _, ok := bt.Underlying().(*types.Array); ok {
				if b.op == "new" {
					return zeroOf(typ)
				}
				return mkElem(mkT(bt, "deref", "", b), a.a[1], typ)
			}
		}
		if b.op == "faddr" {
			return mkElem(s.load(b, s.addrType(b)), a.a[1], typ)
		}
		return mkElem(b, a.a[1], typ)
	case "global":
		return mkT(typ, "gval", a.s)
	case "obj":
		return a
	}
	return mkT(typ, "deref", "", a)
}

func (s *State) addrType(a *T) types.Type {
	return derefType(a.typ)
}

func (s *State) hasSub(a *T) bool {
	for k := range s.mem {
		if k != a && (k.op == "faddr" || k.op == "eaddr") {
			b := k.a[0]
			for {
				if b == a {
					return true
				}
				if b.op != "faddr" && b.op != "eaddr" {
					break
				}
				b = b.a[0]
			}
		}
	}
	return false
}

func mkFaddr(b *T, f string) *T { return mk("faddr", f, b) }
func mkEaddr(b, i *T) *T        { return mk("eaddr", "", b, i) }

func (s *State) store(a, v *T) {
	for k := range s.mem {
		if k != a && (k.op == "faddr" || k.op == "eaddr") {
			b := k.a[0]
			for {
				if b == a {
					delete(s.mem, k)
					break
				}
				if b.op != "faddr" && b.op != "eaddr" {
					break
				}
				b = b.a[0]
			}
		}
	}
	s.mem[a] = v
}

// reify replaces pointers to objects allocated by the analysed code (with number >= from) by their contents.
func (s *State) reify(v *T, from int) *T {
	return s.reify1(v, from, map[*T]bool{}, map[*T]*T{})
}

func (s *State) reify1(v *T, from int, busy map[*T]bool, memo map[*T]*T) *T {
	if y, ok := memo[v]; ok {
		return y
	}
	var out *T
	if v.op == "new" && !strings.HasPrefix(v.s, "sym") {
		n := newNum(v)
		et := derefType(v.typ)
		if et != nil && n >= from && !busy[v] {
			if st, ok := et.Underlying().(*types.Struct); ok && !isOpaqueStruct(et) {
				busy[v] = true
				args := make([]*T, st.NumFields())
				for i := range args {
					args[i] = s.reify1(s.load(mkFaddr(v, fieldKey(st, i)), st.Field(i).Type()), from, busy, memo)
				}
				delete(busy, v)
				out = mkT(v.typ, "obj", typeName(v.typ), args...)
				memo[v] = out
				return out
			}
		}
		return v
	}
	if len(v.a) == 0 {
		return v
	}
	args := make([]*T, len(v.a))
	ch := false
	for i, c := range v.a {
		args[i] = s.reify1(c, from, busy, memo)
		if args[i] != c {
			ch = true
		}
	}
	out = v
	if ch {
		out = rebuild(v, args)
	}
	memo[v] = out
	return out
}

// reifyResult reifies a result; an argument the path changed and handed back is the object it has become.
func (s *State) reifyResult(v *T) *T {
	out := s.reify(v, 0)
	if v.op == "param" {
		if et := derefType(v.typ); et != nil {
			if st, ok := et.Underlying().(*types.Struct); ok && !isOpaqueStruct(et) {
				hit := false
				args := make([]*T, st.NumFields())
				for i := range args {
					f := st.Field(i)
					a := mkFaddr(v, f.Name())
					if _, ok := s.mem[a]; ok {
						hit = true
					}
					args[i] = s.reify(s.load(a, f.Type()), 0)
				}
				if hit {
					return mkT(v.typ, "obj", typeName(v.typ), args...)
				}
			}
		}
	}
	return out
}

func isOpaqueStruct(t types.Type) bool {
	switch typeName(t) {
	case "strings.Builder", "bytes.Buffer", "sync.RWMutex", "sync.Mutex":
		return true
	}
	return false
}

func newNum(v *T) int {
	n := 0
	for _, c := range v.s {
		if c < '0' || c > '9' {
			break
		}
		n = n*10 + int(c-'0')
	}
	return n
}

// decideIn decides whether x is one of the constants of set, from the sets and constants x is known (not) to be.
func (s *State) decideIn(x *T, set []*T) (bool, bool) {
	if x.isConst() {
		for _, c := range set {
			if c == x {
				return true, true
			}
		}
		return false, true
	}
	var dom map[*T]bool // nil: any value
	out := map[*T]bool{}
	for l, kv := range s.known {
		if len(l.a) == 0 || l.a[0] != x {
			continue
		}
		switch {
		case l.op == "eq" && l.a[1].isConst() && kv:
			dom = map[*T]bool{l.a[1]: true}
		case l.op == "eq" && l.a[1].isConst():
			out[l.a[1]] = true
		case l.op == "in" && !kv:
			for _, c := range l.a[1:] {
				out[c] = true
			}
		case l.op == "in":
			d := map[*T]bool{}
			for _, c := range l.a[1:] {
				if dom == nil || dom[c] {
					d[c] = true
				}
			}
			dom = d
		}
	}
	if dom == nil {
		for _, c := range set {
			if !out[c] {
				return false, false
			}
		}
		return false, true
	}
	hit, miss := false, false
	in := map[*T]bool{}
	for _, c := range set {
		in[c] = true
	}
	for c := range dom {
		if out[c] {
			continue
		}
		if in[c] {
			hit = true
		} else {
			miss = true
		}
	}
	switch {
	case !hit:
		return false, true
	case !miss:
		return true, true
	}
	return false, false
}
