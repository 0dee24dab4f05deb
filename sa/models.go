package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// isPure says whether an opaque callee is a function of its arguments only, without effects we track.
func (e *Engine) isPure(ci *CallInfo) bool {
	n := ci.name
	if strings.HasPrefix(n, "m:") {
		switch ci.method {
		case "String", "StringForDiff", "GoString", "GetNameForDiff", "GetName", "Error", "Name", "PlainString", "Type", "IsDir", "GetSourceFile", "GetSourceLine":
			return true
		}
		return false
	}
	if ci.fn != nil && isRepoFn(ci.fn) {
		return e.effect == nil || !e.effect(ci.fn) // repo functions declared opaque by an analysis
	}
	for _, p := range []string{"strings.", "strconv.", "reflect.", "errors.", "unicode.", "unicode/utf8.", "path/filepath.Join", "path/filepath.Base", "path/filepath.Ext",
		"fmt.Sprint", "fmt.Errorf", "slices.", "sort.", "cmp.", "maps.",
		"github.com/kunitsucom/util.go/strings.", "github.com/kunitsucom/util.go/path/filepath.", "github.com/kunitsucom/util.go/errors.Contains", "github.com/kunitsucom/util.go/exp/diff/simplediff.",
		"github.com/kunitsucom/util.go/slices.", "(reflect.", "(*regexp.Regexp)", "regexp.", "(*github.com/kunitsucom/util.go/exp/diff/simplediff.",
		"(go/token.", "go/types.", "go/ast.NewIdent", "(github.com/kunitsucom/util.go/exp/diff/simplediff.", "(*go/token.", "(go/ast.", "(*go/ast.", "(*strings.Replacer)", "strings.NewReplacer", "strings.NewReader", "bufio.NewScanner", "bytes.",
		"github.com/kunitsucom/util.go/retry.NewConfig", "github.com/kunitsucom/util.go/retry.WithMaxRetries", "github.com/kunitsucom/util.go/exp/cli.Default", "(time.Duration)",
		"github.com/kunitsucom/util.go/os.IsFile", "github.com/kunitsucom/util.go/os.Exists",
	} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func (e *Engine) sbufInit(st *State, p *T) *T {
	if addrRoot(p).op == "new" {
		return mkStr("")
	}
	return mkT(types.Typ[types.String], "fld", "$buf", p)
}

func (e *Engine) sbuf(st *State, p *T) *T {
	if v, ok := st.mem[mk("sbuf", "", p)]; ok {
		return v
	}
	return e.sbufInit(st, p)
}

func (e *Engine) sbufWrite(st *State, p, s *T) {
	k := mk("sbuf", "", p)
	st.mem[k] = mkConcat(e.sbuf(st, p), s)
	if addrRoot(p).op != "new" {
		st.events = append(st.events, &Event{kind: "store", name: "bufwrite", args: []*T{p, s}})
	}
}

func isBuf(t types.Type) bool {
	if t == nil {
		return false
	}
	switch types.TypeString(t, nil) {
	case "*strings.Builder", "*bytes.Buffer":
		return true
	}
	return false
}

func one(st *State, v *T) ([]CallRes, bool) { return []CallRes{{st: st, val: v}}, true }

func (e *Engine) model(fr *Frame, st *State, ci *CallInfo) ([]CallRes, bool) {
	a := ci.args
	switch ci.name {
	case "builtin:append":
		if len(a) == 1 {
			return one(st, a[0])
		}
		if a[1].op == "concat" || a[1].op == "str" || isStringT(a[1]) || a[1].op == "bytes" {
			x := a[0]
			if x.op == "nil" || x == tEmpty {
				if a[1].op == "bytes" {
					return one(st, a[1])
				}
				return one(st, mk("bytes", "", a[1]))
			}
			if x.op == "bytes" {
				y := a[1]
				if y.op == "bytes" {
					y = y.a[0]
				}
				return one(st, mk("bytes", "", mkConcat(x.a[0], y)))
			}
			return one(st, mkT(ci.sig.Results().At(0).Type(), "appendbytes", "", a[0], a[1]))
		}
		parts := []*T{}
		for _, p := range seqParts(a[1]) {
			if p.op == "it" {
				p = mkItem(stripAs(p.a[0]))
			}
			parts = append(parts, p)
		}
		return one(st, mkAppend(a[0], mkSeq(parts...)))
	case "builtin:len":
		return one(st, mkLen(stripAs(a[0])))
	case "builtin:cap":
		return one(st, mk("cap", "", a[0]))
	case "builtin:copy":
		st.events = append(st.events, &Event{kind: "store", name: "copy", args: a, pos: ci.pos, fn: ci.caller})
		return one(st, mk("opaque", e.fresh(st, "copy")))
	case "builtin:ssa:wrapnilchk":
		return one(st, a[0])
	case "builtin:delete":
		st.mem[mk("mapc", "", a[0])] = mk("opaque", e.fresh(st, "mapdel"))
		return one(st, nil)
	case "builtin:print", "builtin:println", "builtin:close", "builtin:recover":
		return one(st, tNil)
	}
	if v := foldCall(ci.name, a); v != nil {
		return one(st, v)
	}
	switch ci.name {
	case "(*strings.Builder).WriteString", "(*bytes.Buffer).WriteString":
		e.sbufWrite(st, a[0], a[1])
		return one(st, mk("tuple", "", mkLen(a[1]), tNil))
	case "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune":
		s := mkT(types.Typ[types.String], "tostr", "", a[1])
		if n, ok := a[1].intVal(); ok {
			s = mkStr(string(rune(n)))
		}
		e.sbufWrite(st, a[0], s)
		if strings.HasSuffix(ci.name, "WriteByte") {
			return one(st, tNil)
		}
		return one(st, mk("tuple", "", mkInt(1), tNil))
	case "(*strings.Builder).Write", "(*bytes.Buffer).Write":
		s := a[1]
		if s.op == "bytes" {
			s = s.a[0]
		} else {
			s = mkT(types.Typ[types.String], "tostr", "", s)
		}
		e.sbufWrite(st, a[0], s)
		return one(st, mk("tuple", "", mkLen(a[1]), tNil))
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		return one(st, e.sbuf(st, a[0]))
	case "(*bytes.Buffer).Bytes":
		return one(st, mkT(types.NewSlice(types.Typ[types.Byte]), "bytes", "", e.sbuf(st, a[0])))
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		return one(st, mkLen(e.sbuf(st, a[0])))
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return one(st, nil)
	case "(*strings.Builder).Reset", "(*bytes.Buffer).Reset":
		st.mem[mk("sbuf", "", a[0])] = mkStr("")
		return one(st, nil)
	case "io.WriteString":
		if isBuf(a[0].typ) {
			e.sbufWrite(st, a[0], a[1])
			return one(st, mk("tuple", "", mkLen(a[1]), tNil))
		}
	case "fmt.Fprintf":
		if isBuf(a[0].typ) {
			e.sbufWrite(st, a[0], e.sprintf(st, a[1], a[2]))
			return one(st, mk("tuple", "", mk("opaque", "n"), tNil))
		}
	case "fmt.Fprint", "fmt.Fprintln":
		if isBuf(a[0].typ) {
			e.sbufWrite(st, a[0], e.sprint(st, ci.name == "fmt.Fprintln", a[1]))
			return one(st, mk("tuple", "", mk("opaque", "n"), tNil))
		}
	case "fmt.Sprintf":
		return one(st, e.sprintf(st, a[0], a[1]))
	case "fmt.Sprint":
		return one(st, e.sprint(st, false, a[0]))
	case "fmt.Sprintln":
		return one(st, e.sprint(st, true, a[0]))
	case "strconv.Itoa":
		if a[0].op != "int" {
			return one(st, mkT(types.Typ[types.String], "fmt", "%d", a[0]))
		}
	case "strings.Join":
		return one(st, mkJoin(a[0], a[1]))
	case "github.com/kunitsucom/util.go/strings.JoinStringers":
		// JoinStringers(sep, xs...) concatenates x.String() of each element with sep in between
		parts := []*T{}
		for _, p := range seqParts(a[1]) {
			switch p.op {
			case "it":
				parts = append(parts, mkItem(mkString(p.a[0])))
			case "spl":
				parts = append(parts, mapComp(p.a[0], mkString))
			case "comp":
				parts = append(parts, p) // handled on expansion: items rendered by String
				return nil, false
			}
		}
		return one(st, mkJoin(mk("seq", "", parts...), a[0]))
	case "strings.Repeat":
		if e.noPad && a[0] == mkStr(" ") {
			return one(st, mkStr(""))
		}
		if n, ok := a[1].intVal(); ok && a[0].op == "str" && n >= 0 && n < 1000 {
			return one(st, mkStr(strings.Repeat(a[0].s, int(n))))
		}
	case "strings.ToUpper":
		if a[0].op == "str" {
			return one(st, mkStr(strings.ToUpper(a[0].s)))
		}
	case "strings.TrimSuffix", "strings.TrimPrefix":
		if a[1].op == "str" && a[0].op == "concat" {
			ps := append([]*T{}, a[0].a...)
			if ci.name == "strings.TrimSuffix" {
				if l := ps[len(ps)-1]; l.op == "str" && strings.HasSuffix(l.s, a[1].s) {
					ps[len(ps)-1] = mkStr(strings.TrimSuffix(l.s, a[1].s))
					return one(st, mkConcat(ps...))
				}
			}
		}
	case "gval:" + modPath + "/pkg/apperr.Errorf", "fmt.Errorf", "github.com/kunitsucom/util.go/errors.Errorf":
		args := []*T{a[0]}
		if its, ok := onlyItems(a[1]); ok {
			args = append(args, its...)
		} else {
			args = append(args, a[1])
		}
		return one(st, mkT(errType, "errf", "", args...))
	case "errors.New":
		return one(st, mkT(errType, "errf", "new", a...))
	case "errors.Is":
		return one(st, errIs(st, a[0], a[1]))
	case "github.com/kunitsucom/util.go/errors.PanicOrIgnore":
		// panics unless err is nil or one of the listed errors
		var out []CallRes
		isn := mkIsNil(a[0])
		ok := isn
		its, _ := onlyItems(a[1])
		var conds []*T
		conds = append(conds, ok)
		for _, x := range its {
			conds = append(conds, errIs(st, a[0], x))
		}
		cur := st
		for _, c := range conds {
			if v, known := cur.decide(c); known {
				if v {
					out = append(out, CallRes{st: cur, val: nil})
					return out, true
				}
				continue
			}
			t := cur.clone()
			if t.assume(c, true) {
				out = append(out, CallRes{st: t, val: nil})
			}
			cur = cur.clone()
			if !cur.assume(c, false) {
				return out, true
			}
		}
		out = append(out, CallRes{st: cur, val: a[0], panic: true})
		return out, true
	case "github.com/kunitsucom/util.go/errors.PanicIf", "github.com/kunitsucom/util.go/errors.Panic":
	}
	if r, ok := e.sliceModel(fr, st, ci); ok {
		return r, true
	}
	if f := e.modelFn(ci.name); f != nil && len(f.Params) == len(a) {
		var out []CallRes
		for _, r := range e.callFn(f, st, a, nil) {
			v := mk("tuple", "")
			if len(r.vals) == 1 {
				v = r.vals[0]
			}
			out = append(out, CallRes{st: r.st, val: v, panic: r.kind == rPanic})
		}
		return mergeRes(out), true
	}
	if ci.name == "(*sync.Once).Do" && len(a) == 2 {
		return e.invoke(fr, st, ci, a[1]), true
	}
	if strings.HasPrefix(ci.name, "(*github.com/kunitsucom/util.go/retry.Retryer).Do") && len(a) >= 2 {
		// runs the function until it succeeds or the retries are used up; the last error is wrapped
		var out []CallRes
		for _, r := range e.invoke(fr, st, ci, a[1], mk("opaque", "retryctx")) {
			if r.panic {
				out = append(out, r)
				continue
			}
			if v, ok := r.st.decide(mkIsNil(r.val)); ok && v {
				out = append(out, CallRes{st: r.st, val: tNil})
				continue
			} else if !ok {
				t := r.st.clone()
				if t.assume(mkIsNil(r.val), true) {
					out = append(out, CallRes{st: t, val: tNil})
				}
				if !r.st.assume(mkIsNil(r.val), false) {
					continue
				}
			}
			out = append(out, CallRes{st: r.st, val: mkT(errType, "errf", "", mkStr("retry: %w"), r.val)})
		}
		return out, true
	}
	if ci.method == "Append" && ci.fn != nil && isRepoFn(ci.fn) && strings.HasSuffix(ci.name, "Constraints).Append") && e.opaque(ci.fn) {
		// Constraints.Append adds the constraint to the list (replacing one of the same name); its own body is checked separately
		return one(st, mkAppend(a[0], mkSeq(mkItem(stripAs(a[1])))))
	}
	// builder method values through interfaces (io.Writer on a *strings.Builder)
	return nil, false
}

// constItems: the elements of a written-out list of constants.
func constItems(c *T) ([]*T, bool) {
	var out []*T
	switch c.op {
	case "seq":
		for _, p := range c.a {
			if p.op != "it" || !p.a[0].isConst() {
				return nil, false
			}
			out = append(out, p.a[0])
		}
		return out, true
	case "array":
		for _, p := range c.a {
			if !p.isConst() {
				return nil, false
			}
		}
		return c.a, true
	}
	return nil, false
}

// sliceModel: searches of package slices, and in-place sorting.
func (e *Engine) sliceModel(fr *Frame, st *State, ci *CallInfo) ([]CallRes, bool) {
	name := ci.name
	if i := strings.IndexByte(name, '['); i >= 0 {
		name = name[:i]
	}
	a := ci.args
	switch name {
	case "slices.Contains", "slices.Index", "slices.ContainsFunc", "slices.IndexFunc":
		coll := stripAs(a[0])
		if name == "slices.Contains" {
			if set, ok := constItems(coll); ok && len(set) > 0 {
				return one(st, mkIn(stripAs(a[1]), set))
			}
		}
		lv := mk("loopvar", "slices"+strconv.Itoa(st.depth), coll)
		el := mkElem(coll, lv, elemType(coll, nil))
		var guard []*T
		if strings.HasSuffix(name, "Func") {
			t := st.clone()
			t.depth++
			t.lvs = append(t.lvs, lv)
			rs := e.invoke(fr, t, ci, a[1], el)
			if len(rs) != 1 || rs[0].panic || len(rs[0].st.events) != len(st.events) || len(rs[0].st.lits) != len(st.lits) {
				return nil, false
			}
			guard = []*T{rs[0].val}
		} else {
			guard = []*T{mkEq(el, stripAs(a[1]))}
		}
		g := closeGuard(lv, guard)
		ex := mkExists(coll, g)
		if strings.HasPrefix(name, "slices.Contains") {
			return one(st, ex)
		}
		var out []CallRes
		t, f := st.clone(), st.clone()
		if t.assume(ex, true) {
			out = append(out, CallRes{st: t, val: mkFirst(coll, g)})
		}
		if f.assume(ex, false) {
			out = append(out, CallRes{st: f, val: mkInt(-1)})
		}
		return out, true
	case "sort.Slice", "sort.SliceStable", "sort.Strings", "sort.Sort", "sort.Stable", "sort.Ints", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "slices.Reverse":
		// the list is rearranged in place: every value that shares it sees the new order
		x := stripAs(a[0])
		if x.isConst() || x == tEmpty || x.op == "nil" {
			return one(st, nil)
		}
		y := mkT(x.typ, "sorted", name, x)
		if y.typ == nil {
			y.typ = a[0].typ
		}
		m := map[*T]*T{x: y}
		for k, v := range fr.env {
			fr.env[k] = subst(v, m)
		}
		for k, v := range st.mem {
			st.mem[k] = subst(v, m)
		}
		if x.op != "seq" && x.op != "array" {
			st.events = append(st.events, &Event{kind: "store", name: "sort", args: a, pos: ci.pos, fn: ci.caller})
		}
		return one(st, nil)
	}
	return nil, false
}

// modelFn is the body written for a library function that runs a function over a list.
func (e *Engine) modelFn(name string) *ssa.Function {
	const lib = "github.com/kunitsucom/util.go/slices."
	if !strings.HasPrefix(name, lib) {
		return nil
	}
	name = strings.TrimPrefix(name, lib)
	if i := strings.IndexByte(name, '['); i >= 0 {
		name = name[:i]
	}
	sp := e.p.pkg("pkg/internal/consts")
	if sp == nil {
		return nil
	}
	return sp.Func("verifModel_slices_" + name)
}

// invoke calls a function value.
func (e *Engine) invoke(fr *Frame, st *State, ci *CallInfo, f *T, args ...*T) []CallRes {
	c2 := &CallInfo{pos: ci.pos, caller: ci.caller}
	if f.typ != nil {
		c2.sig, _ = f.typ.Underlying().(*types.Signature)
	}
	if fn := e.funcs[f.s]; fn != nil && c2.sig == nil {
		c2.sig = fn.Signature
	}
	return e.apply(fr, st, c2, f, args)
}

func mkString(x *T) *T { return mkT(types.Typ[types.String], "m", "String", stripAs(x)) }

// mapComp is the list of f(x) for x in coll.
func mapComp(coll *T, f func(*T) *T) *T {
	lv := mk("loopvar", "map", coll)
	var et types.Type
	if coll.typ != nil {
		if s, ok := coll.typ.Underlying().(*types.Slice); ok {
			et = s.Elem()
		}
	}
	return closeComp("l", coll, lv, []trc{{nil, mkSeq(mkItem(f(mkElem(coll, lv, et))))}})
}

func mkJoin(list, sep *T) *T {
	if its, ok := onlyItems(list); ok {
		parts := []*T{}
		for i, x := range its {
			if i > 0 {
				parts = append(parts, sep)
			}
			parts = append(parts, x)
		}
		return mkConcat(parts...)
	}
	return mkT(types.Typ[types.String], "join", "", list, sep)
}

// errIs is the predicate "err wraps target", decided through wrapping by %w where the text shows it.
func errIs(st *State, err, target *T) *T {
	if err == target {
		return tTrue
	}
	switch err.op {
	case "nil":
		return tFalse
	case "sentinel":
		if target.op == "sentinel" {
			return tFalse
		}
	case "errf":
		if err.s == "new" {
			return tFalse
		}
		if err.a[0].op == "str" && strings.HasSuffix(err.a[0].s, ": %w") && len(err.a) > 1 {
			return errIs(st, err.a[len(err.a)-1], target)
		}
		return tFalse
	}
	if v, ok := st.decide(mkIsNil(err)); ok && v {
		return tFalse
	}
	return mkT(types.Typ[types.Bool], "call", "errors.Is", err, target)
}

func (e *Engine) fmtVal(st *State, verb string, x *T) *T {
	x = stripAs(x)
	if verb == "%s" || verb == "%v" {
		if isStringT(x) {
			if x.typ == nil || !hasMethod(x.typ, "String") && !hasMethod(x.typ, "Error") {
				return x
			}
		}
		if n, ok := x.intVal(); ok && verb == "%v" {
			_ = n
			return mkStr(x.s)
		}
		t := e.dynType(st, x)
		if t == nil {
			t = x.typ
		}
		if t != nil && hasMethod(t, "Error") {
			return mkT(types.Typ[types.String], "m", "Error", x)
		}
		if t != nil && hasMethod(t, "String") && !hasMethod(t, "Format") {
			return mkString(x)
		}
	}
	if verb == "%d" {
		if x.op == "int" {
			return mkStr(x.s)
		}
	}
	return mkT(types.Typ[types.String], "fmt", verb, x)
}

func hasMethod(t types.Type, name string) bool {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, name)
	_, ok := o.(*types.Func)
	return ok
}

func (e *Engine) sprint(st *State, ln bool, args *T) *T {
	its, ok := onlyItems(args)
	if !ok {
		return mkT(types.Typ[types.String], "call", "fmt.Sprint", args)
	}
	var parts []*T
	for i, x := range its {
		if i > 0 && ln {
			parts = append(parts, mkStr(" "))
		} else if i > 0 && !isStringT(x) && !isStringT(its[i-1]) {
			parts = append(parts, mkStr(" "))
		}
		parts = append(parts, e.fmtVal(st, "%v", x))
	}
	if ln {
		parts = append(parts, mkStr("\n"))
	}
	return mkConcat(parts...)
}

func (e *Engine) sprintf(st *State, format, args *T) *T {
	its, ok := onlyItems(args)
	if ok && e.noPad && format.op == "concat" {
		// a format that only computes the width of its columns
		f := ""
		for _, x := range format.a {
			switch {
			case x.op == "str":
				f += x.s
			case x.op == "call" && (x.s == "strconv.Itoa" || x.s == "strconv.FormatInt") || x.op == "fmt" && x.s == "%d":
				f += "1"
			default:
				ok = false
			}
		}
		format = mkStr(f)
	}
	if !ok || format.op != "str" {
		return mkT(types.Typ[types.String], "call", "fmt.Sprintf", format, args)
	}
	var parts []*T
	f := format.s
	k := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			parts = append(parts, mkStr(f[i:i+j]))
			i += j
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			parts = append(parts, mkStr(f[i:]))
			break
		}
		verb := f[i : j+1]
		if e.noPad && f[j] == '*' && j+1 < len(f) && k < len(its) {
			// a width taken from the arguments
			verb = "%" + f[j+1:j+2]
			k++
			j++
		} else if e.noPad && len(verb) > 2 && (f[j] == 's' || f[j] == 'v') && !strings.Contains(verb, ".") {
			verb = "%" + f[j:j+1]
		}
		i = j + 1
		if verb == "%%" {
			parts = append(parts, mkStr("%"))
			continue
		}
		if k >= len(its) || strings.ContainsAny(verb, "*[") {
			return mkT(types.Typ[types.String], "call", "fmt.Sprintf", format, args)
		}
		parts = append(parts, e.fmtVal(st, verb, its[k]))
		k++
	}
	if k != len(its) {
		return mkT(types.Typ[types.String], "call", "fmt.Sprintf", format, args)
	}
	return mkConcat(parts...)
}

// foldConst evaluates a pure string function on constant arguments.
func foldConst(name string, a []*T) *T {
	str := func(i int) string { return a[i].s }
	for _, x := range a {
		if x.op != "str" {
			return nil
		}
	}
	switch len(a) {
	case 1:
		switch name {
		case "strings.ToLower":
			return mkStr(strings.ToLower(str(0)))
		case "strings.ToUpper":
			return mkStr(strings.ToUpper(str(0)))
		case "strings.TrimSpace":
			return mkStr(strings.TrimSpace(str(0)))
		case "strings.Title": //nolint
			return nil
		}
	case 2:
		switch name {
		case "strings.HasPrefix":
			return mkBool(strings.HasPrefix(str(0), str(1)))
		case "strings.HasSuffix":
			return mkBool(strings.HasSuffix(str(0), str(1)))
		case "strings.Contains":
			return mkBool(strings.Contains(str(0), str(1)))
		case "strings.EqualFold":
			return mkBool(strings.EqualFold(str(0), str(1)))
		case "strings.TrimPrefix":
			return mkStr(strings.TrimPrefix(str(0), str(1)))
		case "strings.TrimSuffix":
			return mkStr(strings.TrimSuffix(str(0), str(1)))
		case "strings.Trim":
			return mkStr(strings.Trim(str(0), str(1)))
		case "strings.TrimLeft":
			return mkStr(strings.TrimLeft(str(0), str(1)))
		case "strings.TrimRight":
			return mkStr(strings.TrimRight(str(0), str(1)))
		}
	case 3:
		if name == "strings.ReplaceAll" {
			return mkStr(strings.ReplaceAll(str(0), str(1), str(2)))
		}
	}
	return nil
}
