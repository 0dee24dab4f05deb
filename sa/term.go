package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// T is a hash-consed symbolic value. Two terms are equal iff they are the same pointer.
type T struct {
	id  int
	op  string
	s   string
	a   []*T
	typ types.Type // informational: static type where known
	h   int        // binder height
	fv  bool       // contains a free (not yet closed) loop variable
	key string
}

var (
	internTab = map[string]*T{}
	internSeq int
)

func mk(op, s string, args ...*T) *T {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(strconv.Quote(s))
	for _, x := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(x.id))
	}
	k := b.String()
	if t, ok := internTab[k]; ok {
		return t
	}
	internSeq++
	t := &T{id: internSeq, op: op, s: s, a: args, key: k}
	for _, x := range args {
		if x.h > t.h {
			t.h = x.h
		}
		if x.fv {
			t.fv = true
		}
	}
	switch op {
	case "comp", "mapcomp", "exists", "first", "last", "count", "foldbody":
		t.h++
	case "loopvar":
		t.fv = true
	}
	internTab[k] = t
	return t
}

func mkT(typ types.Type, op, s string, args ...*T) *T {
	t := mk(op, s, args...)
	if t.typ == nil {
		t.typ = typ
	}
	return t
}

// mkParam: parameters of the same name but different types are different terms.
func mkParam(typ types.Type, name string) *T {
	k := "param|" + name + "|" + types.TypeString(typ, nil)
	if t, ok := internTab[k]; ok {
		return t
	}
	internSeq++
	t := &T{id: internSeq, op: "param", s: name, key: k, typ: typ}
	internTab[k] = t
	return t
}

var (
	tTrue  = mk("bool", "true")
	tFalse = mk("bool", "false")
	tNil   = mk("nil", "")
	tEmpty = mk("seq", "")
)

func mkStr(s string) *T { return mk("str", s) }
func mkInt(n int64) *T  { return mk("int", strconv.FormatInt(n, 10)) }
func mkBool(b bool) *T {
	if b {
		return tTrue
	}
	return tFalse
}

func (t *T) isConst() bool {
	return t.op == "str" || t.op == "int" || t.op == "bool" || t.op == "nil" || t.op == "const"
}
func (t *T) intVal() (int64, bool) {
	if t.op != "int" {
		return 0, false
	}
	n, err := strconv.ParseInt(t.s, 10, 64)
	return n, err == nil
}

func mkConstVal(v constant.Value, typ types.Type) *T {
	if v == nil {
		// zero/nil constant
		return zeroOf(typ)
	}
	switch v.Kind() {
	case constant.String:
		return mkStr(constant.StringVal(v))
	case constant.Bool:
		return mkBool(constant.BoolVal(v))
	case constant.Int:
		if n, ok := constant.Int64Val(v); ok {
			return mkInt(n)
		}
	}
	return mk("const", v.ExactString())
}

func zeroOf(typ types.Type) *T {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsNumeric != 0:
			return mk("const", "0")
		}
		return tNil
	case *types.Struct:
		args := make([]*T, u.NumFields())
		for i := range args {
			args[i] = zeroOf(u.Field(i).Type())
		}
		return mkT(typ, "struct", typeName(typ), args...)
	case *types.Array:
		if u.Len() <= 64 {
			args := make([]*T, u.Len())
			for i := range args {
				args[i] = zeroOf(u.Elem())
			}
			return mkT(typ, "array", "", args...)
		}
		return mk("zeroarray", u.String())
	}
	return tNil
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// mkConcat flattens and merges adjacent constants.
func mkConcat(parts ...*T) *T {
	var out []*T
	var add func(p *T)
	add = func(p *T) {
		if p.op == "concat" {
			for _, x := range p.a {
				add(x)
			}
			return
		}
		if p.op == "str" {
			if p.s == "" {
				return
			}
			if n := len(out); n > 0 && out[n-1].op == "str" {
				out[n-1] = mkStr(out[n-1].s + p.s)
				return
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		add(p)
	}
	switch len(out) {
	case 0:
		return mkStr("")
	case 1:
		return out[0]
	}
	return mk("concat", "", out...)
}

// Sequences: op "seq" with parts "it"(x), "spl"(coll), "comp"(...).
func mkItem(x *T) *T { return mk("it", "", x) }
func mkSeq(parts ...*T) *T {
	var out []*T
	for _, p := range parts {
		if p.op == "spl" {
			if x := p.a[0]; x.op == "seq" {
				out = append(out, x.a...)
				continue
			} else if x.op == "nil" {
				continue
			}
		}
		out = append(out, p)
	}
	if len(out) == 1 && out[0].op == "spl" {
		return out[0].a[0]
	}
	if len(out) == 0 {
		return tEmpty
	}
	return mk("seq", "", out...)
}
func mkSplice(x *T) *T { return mk("spl", "", x) }
func seqParts(x *T) []*T {
	switch x.op {
	case "nil":
		return nil
	case "seq":
		return x.a
	}
	return []*T{mkSplice(x)}
}
func mkAppend(base, tail *T) *T {
	return mkSeq(append(append([]*T{}, seqParts(base)...), seqParts(tail)...)...)
}

// onlyItems reports whether the sequence is a literal list.
func onlyItems(x *T) ([]*T, bool) {
	if x.op == "nil" {
		return nil, true
	}
	if x.op != "seq" {
		return nil, false
	}
	out := []*T{}
	for _, p := range x.a {
		if p.op != "it" {
			return nil, false
		}
		out = append(out, p.a[0])
	}
	return out, true
}

func mkLen(x *T) *T {
	if x.op == "str" {
		return mkInt(int64(len(x.s)))
	}
	if its, ok := onlyItems(x); ok {
		return mkInt(int64(len(its)))
	}
	if x.op == "array" {
		return mkInt(int64(len(x.a)))
	}
	return mk("len", "", x)
}

func mkAdd(x *T, c int64) *T {
	if n, ok := x.intVal(); ok {
		return mkInt(n + c)
	}
	if x.op == "add" {
		k, _ := strconv.ParseInt(x.s, 10, 64)
		return mkAdd(x.a[0], k+c)
	}
	if c == 0 {
		return x
	}
	return mk("add", strconv.FormatInt(c, 10), x)
}

func splitAdd(x *T) (*T, int64) {
	if x.op == "add" {
		k, _ := strconv.ParseInt(x.s, 10, 64)
		return x.a[0], k
	}
	if n, ok := x.intVal(); ok {
		return nil, n
	}
	return x, 0
}

func mkNot(x *T) *T {
	switch {
	case x == tTrue:
		return tFalse
	case x == tFalse:
		return tTrue
	case x.op == "not":
		return x.a[0]
	}
	return mk("not", "", x)
}

func definitelyNonNil(x *T) bool {
	switch x.op {
	case "new", "obj", "struct", "fn", "closure", "iface", "addr", "str", "int", "bool", "errf", "global", "sentinel":
		return true
	case "faddr", "eaddr":
		return true
	case "seq":
		for _, p := range x.a {
			if p.op == "it" {
				return true
			}
		}
	}
	return false
}

func mkIsNil(x *T) *T {
	if x.op == "nil" {
		return tTrue
	}
	if definitelyNonNil(x) {
		return tFalse
	}
	if x.op == "m" && x.s == "FindStringSubmatch" {
		return mkEq(mkLen(x), mkInt(0)) // a match has at least the whole text
	}
	return mk("isnil", "", x)
}

func concatNonEmpty(x *T) bool {
	if x.op == "concat" {
		for _, p := range x.a {
			if p.op == "str" && p.s != "" {
				return true
			}
		}
	}
	return false
}

func mkEq(x, y *T) *T {
	if x == y {
		if x.op == "opaque" {
			return tTrue
		}
		return tTrue
	}
	if x.op == "nil" {
		return mkIsNil(y)
	}
	if y.op == "nil" {
		return mkIsNil(x)
	}
	if x.op == "bool" {
		x, y = y, x
	}
	if y.op == "bool" {
		if y == tTrue {
			return x
		}
		return mkNot(x)
	}
	if x.isConst() && y.isConst() {
		return tFalse
	}
	// canonical: constant on the right
	if x.isConst() {
		x, y = y, x
	}
	if y.op == "str" && y.s == "" && concatNonEmpty(x) {
		return tFalse
	}
	if y.op == "int" {
		b, k := splitAdd(x)
		n, _ := y.intVal()
		if k != 0 && b != nil {
			return mkEq(b, mkInt(n-k))
		}
		if x.op == "len" && n < 0 {
			return tFalse
		}
		if x.op == "len" && n == 0 && isStringT(x.a[0]) {
			return mkEq(x.a[0], mkStr(""))
		}
		return mk("eq", "", x, y)
	}
	// x+c == y+d  -> normalise the offset onto the smaller id
	bx, kx := splitAdd(x)
	by, ky := splitAdd(y)
	if bx != nil && by != nil && (kx != 0 || ky != 0) {
		if bx == by {
			return mkBool(kx == ky)
		}
		if bx.id > by.id {
			bx, kx, by, ky = by, ky, bx, kx
		}
		return mk("eq", "", bx, mkAdd(by, ky-kx))
	}
	if !y.isConst() && x.id > y.id {
		x, y = y, x
	}
	// allocations are distinct from each other
	if x.op == "new" && y.op == "new" {
		return tFalse
	}
	return mk("eq", "", x, y)
}

func isStringT(x *T) bool {
	switch x.op {
	case "concat", "str":
		return true
	}
	if x.typ != nil {
		if b, ok := x.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return true
		}
	}
	return false
}

// mkLt: x < y over integers, canonicalised.
func mkLt(x, y *T) *T {
	bx, kx := splitAdd(x)
	by, ky := splitAdd(y)
	if bx == nil && by == nil {
		return mkBool(kx < ky)
	}
	if bx == by {
		return mkBool(kx < ky)
	}
	if bx == mkLen(charText) && by != nil && by != bx {
		return mkNot(mk("lt", "", mkAdd(by, ky-kx-1), bx)) // len < pos+k: not pos+k-1 < len
	}
	if by != nil && by == mkLen(charText) && ky != 0 && bx != nil {
		return mkLt(mkAdd(bx, kx-ky), by)
	}
	// idx < len(C)
	if bx != nil && by != nil && by.op == "len" {
		switch bx.op {
		case "loopvar", "at":
			if len(bx.a) > 0 && bx.a[0] == by.a[0] {
				if kx-ky <= 0 {
					return tTrue
				}
			}
		case "end":
			return mkBool(kx-ky < 0)
		}
	}
	if bx != nil && bx.op == "end" && kx-ky >= 0 {
		return tFalse
	}
	// 0 < len(x)  == not(len(x)==0)
	if bx == nil && nonNegative(by) {
		// kx < by+ky  <=> by > kx-ky
		n := kx - ky
		if n < 0 {
			return tTrue
		}
		if n == 0 {
			return mkNot(mkEq(by, mkInt(0)))
		}
	}
	if by == nil && nonNegative(bx) {
		// bx < ky-kx
		n := ky - kx
		if n <= 0 {
			return tFalse
		}
		if n == 1 {
			return mkEq(bx, mkInt(0))
		}
	}
	return mk("lt", "", mkAddB(bx, kx-ky, y), mkAddB(by, 0, y))
}

func mkAddB(b *T, k int64, _ *T) *T {
	if b == nil {
		return mkInt(k)
	}
	return mkAdd(b, k)
}

func nonNegative(x *T) bool {
	if x == nil {
		return false
	}
	switch x.op {
	case "len", "loopvar", "count", "bv", "at", "first":
		return true
	}
	return false
}

func mkFld(base *T, name string, typ types.Type) *T {
	switch base.op {
	case "obj", "struct":
		if st := structOf(base.typ); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				if fieldKey(st, i) == name {
					return base.a[i]
				}
			}
		}
	case "deref":
		base = base.a[0]
	case "gval":
		// a field of a struct in a global variable, whether the whole was loaded first or not
		if base.typ != nil {
			if _, ok := base.typ.Underlying().(*types.Struct); ok {
				base = mkT(types.NewPointer(base.typ), "global", base.s)
			}
		}
	}
	return mkT(typ, "fld", name, base)
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func mkElem(c, idx *T, typ types.Type) *T {
	if idx.op == "at" && idx.a[0] == c {
		return idx.a[len(idx.a)-1]
	}
	if c.op == "slice" && c.typ != nil && !isStrTyp(c.typ) {
		if i, ok := addT(c.a[1], idx); ok {
			return mkElem(c.a[0], i, typ)
		}
	}
	if n, ok := idx.intVal(); ok {
		if c.op == "seq" {
			k := int64(0)
			for _, p := range c.a {
				if p.op != "it" {
					break
				}
				if k == n {
					return p.a[0]
				}
				k++
			}
		}
		if c.op == "array" && n >= 0 && n < int64(len(c.a)) {
			return c.a[n]
		}
	}
	return mkT(typ, "elem", "", c, idx)
}

// subst replaces terms (by identity) throughout t, rebuilding with the smart constructors.
func isBinder(op string) bool {
	switch op {
	case "comp", "mapcomp", "exists", "first", "last", "count", "foldbody":
		return true
	}
	return false
}

// binderLevel is the number of the variable a binder binds: one more than the highest level inside its bodies.
func binderLevel(x *T) int {
	switch x.op {
	case "comp", "foldbody":
		n, _ := strconv.Atoi(x.s[2:])
		return n
	case "mapcomp":
		n, _ := strconv.Atoi(x.s)
		return n
	}
	return closeHeight(x.a[1]) + 1
}

// subst replaces subterms. Binders are opened (their variable replaced by a fresh one) before a replacement goes
// inside and closed at the right level afterwards, so that no variable is captured.
func subst(t *T, m map[*T]*T) *T {
	if len(m) == 0 {
		return t
	}
	return substAt(t, m, 0)
}

func substAt(t *T, m map[*T]*T, depth int) *T {
	memo := map[*T]*T{}
	occ := map[*T]bool{}
	var occurs func(x *T) bool
	occurs = func(x *T) bool {
		if _, ok := m[x]; ok {
			return true
		}
		if len(x.a) == 0 {
			return false
		}
		if v, ok := occ[x]; ok {
			return v
		}
		r := false
		for _, c := range x.a {
			if occurs(c) {
				r = true
				break
			}
		}
		occ[x] = r
		return r
	}
	var rec func(x *T, d int) *T
	rec = func(x *T, d int) *T {
		if y, ok := m[x]; ok {
			return y
		}
		if len(x.a) == 0 || !occurs(x) {
			return x
		}
		if y, ok := memo[x]; ok {
			return y
		}
		var y *T
		if isBinder(x.op) {
			y = substBinder(x, d, rec, func(b *T) bool { return occurs(b) }, m)
		} else {
			args := make([]*T, len(x.a))
			ch := false
			for i, c := range x.a {
				args[i] = rec(c, d)
				if args[i] != c {
					ch = true
				}
			}
			y = x
			if ch {
				y = rebuild(x, args)
			}
		}
		memo[x] = y
		return y
	}
	return rec(t, depth)
}

func substBinder(x *T, d int, rec func(*T, int) *T, occurs func(*T) bool, m map[*T]*T) *T {
	args := make([]*T, len(x.a))
	args[0] = rec(x.a[0], d)
	inside := false
	for _, b := range x.a[1:] {
		if occurs(b) {
			inside = true
		}
	}
	if !inside {
		if args[0] == x.a[0] {
			return x
		}
		copy(args[1:], x.a[1:])
		return rebuild(x, args)
	}
	old := bv(binderLevel(x))
	fresh := mk("bvt", strconv.Itoa(d))
	open := map[*T]*T{old: fresh}
	h := 0
	for i, b := range x.a[1:] {
		// within a canonical term inner binders have smaller levels, so this replacement meets no other binder of this level
		args[i+1] = rec(replaceLeaf(b, open), d+1)
		if args[i+1].h > h {
			h = args[i+1].h
		}
	}
	closing := map[*T]*T{fresh: bv(h + 1)}
	for i := range args[1:] {
		args[i+1] = replaceLeaf(args[i+1], closing)
	}
	s := x.s
	switch x.op {
	case "comp", "foldbody":
		s = x.s[:2] + strconv.Itoa(h+1)
	case "mapcomp":
		s = strconv.Itoa(h + 1)
	case "exists":
		if args[1] == tFalse {
			return tFalse
		}
		return mkExists(args[0], args[1])
	}
	return mkT(x.typ, x.op, s, args...)
}

// replaceLeaf renames variables without opening binders.
func replaceLeaf(t *T, m map[*T]*T) *T {
	memo := map[*T]*T{}
	var rec func(*T) *T
	rec = func(x *T) *T {
		if y, ok := m[x]; ok {
			return y
		}
		if len(x.a) == 0 {
			return x
		}
		if y, ok := memo[x]; ok {
			return y
		}
		args := make([]*T, len(x.a))
		ch := false
		for i, c := range x.a {
			args[i] = rec(c)
			if args[i] != c {
				ch = true
			}
		}
		y := x
		if ch {
			y = rebuild(x, args)
		}
		memo[x] = y
		return y
	}
	return rec(t)
}

func rebuild(x *T, args []*T) *T {
	switch x.op {
	case "concat":
		return mkConcat(args...)
	case "seq":
		return mkSeq(args...)
	case "spl":
		return mkSplice(args[0])
	case "len":
		return mkLen(args[0])
	case "add":
		k, _ := strconv.ParseInt(x.s, 10, 64)
		return mkAdd(args[0], k)
	case "not":
		return mkNot(args[0])
	case "isnil":
		return mkIsNil(args[0])
	case "eq":
		return mkEq(args[0], args[1])
	case "lt":
		return mkLt(args[0], args[1])
	case "fld":
		return mkFld(args[0], x.s, x.typ)
	case "elem":
		return mkElem(args[0], args[1], x.typ)
	case "conj":
		return mkConj(args)
	case "in":
		return mkIn(args[0], args[1:])
	case "tostr":
		if n, ok := args[0].intVal(); ok {
			return mkStr(string(rune(n)))
		}
	case "call":
		if v := foldCall(x.s, args); v != nil {
			return v
		}
	case "slice":
		return mkSlice(x.typ, args[0], args[1], args[2])
	case "bin":
		a, ok1 := args[0].intVal()
		b, ok2 := args[1].intVal()
		if ok1 && ok2 {
			switch x.s {
			case "+":
				return mkInt(a + b)
			case "-":
				return mkInt(a - b)
			case "*":
				return mkInt(a * b)
			case "/":
				if b != 0 {
					return mkInt(a / b)
				}
			case "%":
				if b != 0 {
					return mkInt(a % b)
				}
			}
		} else if x.s == "+" {
			if v, ok := addT(args[0], args[1]); ok {
				return v
			}
		} else if x.s == "-" && ok2 {
			return mkAdd(args[0], -b)
		}
	}
	return mkT(x.typ, x.op, x.s, args...)
}

// mkSlice is a part of a string, slice or array; a part of a part is a part of the whole.
func mkSlice(typ types.Type, x, lo, hi *T) *T {
	if x.op == "slice" && len(x.a) == 3 {
		if l, ok := addT(x.a[1], lo); ok {
			if hi == mkLen(x) {
				return mkSlice(typ, x.a[0], l, x.a[2])
			}
			if h, ok := addT(x.a[1], hi); ok {
				return mkSlice(typ, x.a[0], l, h)
			}
		}
	}
	if x.op == "str" {
		l, ok1 := lo.intVal()
		h, ok2 := hi.intVal()
		if ok1 && ok2 && 0 <= l && l <= h && h <= int64(len(x.s)) {
			return mkStr(x.s[l:h])
		}
	}
	if l, ok := lo.intVal(); ok && l == 0 && hi == lo {
		if typ != nil && isStrTyp(typ) {
			return mkStr("")
		}
		if typ != nil {
			if _, ok := typ.Underlying().(*types.Slice); ok {
				return tEmpty
			}
		}
	}
	return mkT(typ, "slice", "", x, lo, hi)
}

// addT adds two integers where the sum has a plain form.
func addT(a, b *T) (*T, bool) {
	if k, ok := a.intVal(); ok {
		return mkAdd(b, k), true
	}
	if k, ok := b.intVal(); ok {
		return mkAdd(a, k), true
	}
	if b.op == "bin" && b.s == "-" && b.a[1] == a {
		return b.a[0], true
	}
	return nil, false
}

// foldCall evaluates the pure functions of the library on constants.
func foldCall(name string, a []*T) *T {
	for _, x := range a {
		if x.op != "str" && x.op != "int" {
			return nil
		}
	}
	ss := func(i int) bool { return i < len(a) && a[i].op == "str" }
	r := func(i int) (rune, bool) {
		if i < len(a) {
			if n, ok := a[i].intVal(); ok {
				return rune(n), true
			}
		}
		return 0, false
	}
	if ss(0) && ss(1) && len(a) == 2 {
		x, y := a[0].s, a[1].s
		switch name {
		case "strings.Contains":
			return mkBool(strings.Contains(x, y))
		case "strings.ContainsAny":
			return mkBool(strings.ContainsAny(x, y))
		case "strings.HasPrefix":
			return mkBool(strings.HasPrefix(x, y))
		case "strings.HasSuffix":
			return mkBool(strings.HasSuffix(x, y))
		case "strings.EqualFold":
			return mkBool(strings.EqualFold(x, y))
		case "strings.Index":
			return mkInt(int64(strings.Index(x, y)))
		case "strings.IndexAny":
			return mkInt(int64(strings.IndexAny(x, y)))
		case "strings.LastIndex":
			return mkInt(int64(strings.LastIndex(x, y)))
		case "strings.Trim":
			return mkStr(strings.Trim(x, y))
		}
		return nil
	}
	if n, ok := r(1); ok && ss(0) && len(a) == 2 {
		switch name {
		case "strings.IndexByte":
			return mkInt(int64(strings.IndexByte(a[0].s, byte(n))))
		case "strings.IndexRune":
			return mkInt(int64(strings.IndexRune(a[0].s, n)))
		case "strings.ContainsRune":
			return mkBool(strings.ContainsRune(a[0].s, n))
		}
		return nil
	}
	if n, ok := r(0); ok && len(a) == 1 {
		switch name {
		case "unicode.IsLetter":
			return mkBool(unicode.IsLetter(n))
		case "unicode.IsDigit":
			return mkBool(unicode.IsDigit(n))
		case "unicode.IsNumber":
			return mkBool(unicode.IsNumber(n))
		case "unicode.IsSpace":
			return mkBool(unicode.IsSpace(n))
		case "unicode.IsUpper":
			return mkBool(unicode.IsUpper(n))
		case "unicode.IsLower":
			return mkBool(unicode.IsLower(n))
		case "unicode.ToUpper":
			return mkInt(int64(unicode.ToUpper(n)))
		case "unicode.ToLower":
			return mkInt(int64(unicode.ToLower(n)))
		}
		return nil
	}
	if ss(0) && len(a) == 1 {
		switch name {
		case "strings.ToUpper":
			return mkStr(strings.ToUpper(a[0].s))
		case "strings.ToLower":
			return mkStr(strings.ToLower(a[0].s))
		case "strings.TrimSpace":
			return mkStr(strings.TrimSpace(a[0].s))
		}
	}
	return nil
}

// mkConj builds a canonical conjunction of literals (atom or not(atom)).
func mkConj(lits []*T) *T {
	seen := map[*T]bool{}
	var out []*T
	for _, l := range lits {
		if l == tTrue || seen[l] {
			continue
		}
		if l.op == "conj" {
			for _, x := range l.a {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		if l == tFalse {
			return tFalse
		}
		seen[l] = true
		out = append(out, l)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mk("conj", "", out...)
}

func contains(t, x *T) bool {
	if t == x {
		return true
	}
	memo := map[*T]bool{}
	var rec func(*T) bool
	rec = func(y *T) bool {
		if y == x {
			return true
		}
		if v, ok := memo[y]; ok {
			return v
		}
		memo[y] = false
		for _, c := range y.a {
			if rec(c) {
				memo[y] = true
				return true
			}
		}
		return false
	}
	return rec(t)
}

func anyTerm(t *T, f func(*T) bool) bool {
	memo := map[*T]bool{}
	var rec func(*T) bool
	rec = func(y *T) bool {
		if memo[y] {
			return false
		}
		memo[y] = true
		if f(y) {
			return true
		}
		for _, c := range y.a {
			if rec(c) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// closeVar renames the loop variable lv to a canonical bound variable in all given terms.
func closeHeight(ts ...*T) int {
	h := 0
	for _, t := range ts {
		if t.h > h {
			h = t.h
		}
	}
	return h
}

func bv(h int) *T { return mk("bv", strconv.Itoa(h)) }

func (t *T) String() string {
	if t == nil {
		return "<nil>"
	}
	switch t.op {
	case "str":
		return strconv.Quote(t.s)
	case "int", "bool":
		return t.s
	case "nil":
		return "nil"
	case "param", "global", "sentinel", "fn", "new", "loopvar", "acc", "opaque", "fv":
		return t.op[:1] + ":" + t.s
	case "bv":
		return "$" + t.s
	case "fld":
		return t.a[0].String() + "." + t.s
	case "elem":
		return t.a[0].String() + "[" + t.a[1].String() + "]"
	case "add":
		return "(" + t.a[0].String() + "+" + t.s + ")"
	case "not":
		return "!" + t.a[0].String()
	case "eq":
		return "(" + t.a[0].String() + "==" + t.a[1].String() + ")"
	case "it":
		return t.a[0].String()
	case "m":
		if (t.s == "rows" || t.s == "row") && len(t.a) > 0 {
			return t.s + " of " + queryName(t.a[0].String())
		}
	case "spl":
		return t.a[0].String() + "..."
	case "obj", "struct":
		st := structOf(t.typ)
		var b []string
		for i, x := range t.a {
			n := strconv.Itoa(i)
			if st != nil && i < st.NumFields() {
				n = fieldKey(st, i)
			}
			if x.op == "nil" || x == tFalse || (x.op == "str" && x.s == "") {
				continue
			}
			b = append(b, n+":"+x.String())
		}
		return t.s + "{" + strings.Join(b, ", ") + "}"
	}
	var b []string
	for _, x := range t.a {
		b = append(b, x.String())
	}
	switch t.op {
	case "concat":
		return "‹" + strings.Join(b, " · ") + "›"
	case "seq":
		return "[" + strings.Join(b, "; ") + "]"
	case "conj":
		return "{" + strings.Join(b, " & ") + "}"
	case "tr":
		return "\n      {" + strings.Join(b, " => ") + "}"
	}
	n := t.op
	if t.s != "" {
		n += ":" + t.s
	}
	return fmt.Sprintf("%s(%s)", n, strings.Join(b, ", "))
}

func short(t *T) string {
	s := t.String()
	if len(s) > 300 {
		s = s[:300] + "…"
	}
	return s
}
