package main

import (
	"strings"
)

func init() { checks["P30"] = checkP30 }

// What a path given as an argument can name.
const (
	kFile = 1 << iota
	kDir
	kNone
)

func kindNames(k int) string {
	var s []string
	for i, n := range []string{"a file", "a directory", "nothing existing"} {
		if k&(1<<i) != 0 {
			s = append(s, n)
		}
	}
	return strings.Join(s, " or ")
}

// statOf: the term is (a result of) os.Stat or os.Lstat of the argument.
func statOf(st *State, t *T, arg func(*T) bool) bool {
	t = stripAs(t)
	if t.op == "ext" {
		t = t.a[0]
	}
	if (t.op == "call" || t.op == "callr") && t.s == "os.Stat" && len(t.a) > 0 && arg(t.a[0]) {
		return true
	}
	ev, _ := eventOf(st, t)
	return ev != nil && ev.name == "os.Stat" && len(ev.args) > 0 && arg(ev.args[0])
}

// textOnly: the condition depends on the text of the argument alone, not on what it names.
func textOnly(a *T) bool {
	return !anyTerm(a, func(x *T) bool {
		switch x.op {
		case "ret", "ext", "written":
			return true
		case "call", "callr":
			return !strings.HasPrefix(x.s, "strings.") && !strings.HasPrefix(x.s, "bytes.") && !strings.HasPrefix(x.s, "unicode") && !strings.HasPrefix(x.s, "utf8.") &&
				!strings.HasPrefix(x.s, "regexp.") && !strings.HasPrefix(x.s, "net/url.") && !strings.HasPrefix(x.s, "errors.") &&
				x.s != "path/filepath.Ext" && x.s != "path/filepath.Base" && x.s != "path/filepath.Dir" && x.s != "path/filepath.Clean" && !strings.HasPrefix(x.s, "path.")
		}
		return false
	})
}

// samePath: the path as given, made absolute, cleaned or with its links resolved.
func samePath(st *State, t, arg *T) bool {
	if t == arg {
		return true
	}
	name, args := "", []*T(nil)
	c := t
	if t.op == "ext" && t.s == "0" {
		c = t.a[0]
	}
	if c.op == "call" {
		name, args = c.s, c.a
	} else if ev, _ := eventOf(st, t); ev != nil && (t.op == "ret" || t.op == "ext" && t.s == "0") {
		name, args = ev.name, ev.args
	}
	switch name {
	case "path/filepath.Clean", "path/filepath.Abs", "path/filepath.EvalSymlinks", "path/filepath.FromSlash":
		return len(args) > 0 && samePath(st, args[0], arg)
	}
	return false
}

// askedOf: the condition is a question (by one of the names) about what the argument names.
func askedOf(st *State, a *T, names ...string) (*T, string) {
	var name string
	var args []*T
	switch {
	case a.op == "call":
		name, args = a.s, a.a
	case a.op == "m":
		name, args = "m:"+a.s, a.a
	case a.op == "ret" || a.op == "ext" && a.s == "0":
		ev, _ := eventOf(st, a)
		if ev == nil {
			return nil, ""
		}
		name, args = ev.name, ev.args
	}
	if len(args) == 0 {
		return nil, ""
	}
	for _, n := range names {
		if name == n {
			return args[0], n
		}
	}
	return nil, ""
}

// sourceKinds: what the argument can name on the path, and whether some condition on it known before the access was not understood.
func sourceKinds(st *State, arg *T, as []attempt) (k int, unread string) {
	k = kFile | kDir | kNone
	const osz = "github.com/kunitsucom/util.go/os."
	is := func(t *T) bool { return samePath(st, t, arg) }
	for a, v := range st.known {
		neg := func(yes int) {
			if v {
				k &= yes
			} else {
				k &^= yes
			}
		}
		if x, n := askedOf(st, a, osz+"IsFile", osz+"IsDir", osz+"Exists"); x != nil && is(x) {
			neg(map[string]int{osz + "IsFile": kFile, osz + "IsDir": kDir, osz + "Exists": kFile | kDir}[n])
			continue
		}
		if x, _ := askedOf(st, a, "m:IsDir"); x != nil && statOf(st, x, is) {
			neg(kDir)
			continue
		}
		if x, _ := askedOf(st, a, "(io/fs.FileMode).IsDir"); x != nil {
			if y, _ := askedOf(st, x, "m:Mode"); y != nil && statOf(st, y, is) {
				neg(kDir)
				continue
			}
		}
		if a.op == "isnil" {
			if x, _ := askedOf(st, a.a[0], osz+"CheckDir"); x != nil && is(x) {
				neg(kDir)
				continue
			}
			if a.a[0].op == "ext" && a.a[0].s == "1" && statOf(st, a.a[0], is) {
				neg(kFile | kDir)
				continue
			}
			if a.a[0].op == "ext" && samePath(st, mkExt(a.a[0].a[0], 0, arg.typ), arg) {
				continue
			}
		}
		if depends(st, a, arg) && !textOnly(a) && !afterwards(st, a, as) {
			unread = short(a)
		}
	}
	return k, unread
}

// afterwards: the condition is on what the last access returned or on something made later.
func afterwards(st *State, a *T, as []attempt) bool {
	if len(as) == 0 {
		return false
	}
	at := eventAt(st, as[len(as)-1].ev.ret)
	tried := map[*T]bool{}
	for _, x := range as {
		tried[x.ev.ret] = true
	}
	return anyTerm(a, func(x *T) bool { return x.op == "ret" && (tried[x] || eventAt(st, x) >= at) })
}

// depends: the value is computed from the argument, through the events of the path.
func depends(st *State, t, arg *T) bool {
	seen := map[*T]bool{}
	var rec func(t *T) bool
	rec = func(t *T) bool {
		return anyTerm(t, func(x *T) bool {
			if x == arg {
				return true
			}
			if x.op == "ret" && !seen[x] {
				seen[x] = true
				if ev, _ := eventOf(st, x); ev != nil {
					for _, a := range ev.args {
						if rec(a) {
							return true
						}
					}
				}
			}
			return false
		})
	}
	return rec(t)
}

type attempt struct {
	how  int // the kind of argument the access is right for
	what string
	ev   *Event
	own  bool // of the argument itself, unchanged
}

// attemptsOn lists the accesses to what the argument names, in order.
func attemptsOn(st *State, arg *T) (out []attempt) {
	for _, o := range flatten(st.events) {
		ev := o.ev
		if ev.kind != "call" {
			continue
		}
		a := attempt{ev: ev}
		switch {
		case ev.name == "os.ReadFile" || ev.name == "os.Open" || ev.name == "os.OpenFile":
			a.how, a.what = kFile, "read as SQL"
		case strings.Contains(ev.name, "pkg/internal/lang/"):
			a.how, a.what = kDir, "generated from as Go sources"
		case strings.HasSuffix(ev.name, "database/sql.Open") || strings.HasSuffix(ev.name, "database/sql.OpenContext"):
			a.how, a.what = kNone, "opened as a data source name"
		default:
			continue
		}
		use := false
		for _, x := range ev.args {
			if x == arg || a.how != kNone && samePath(st, x, arg) {
				use, a.own = true, true
			} else if anyTerm(x, func(y *T) bool { return y == arg }) || a.how != kNone && depends(st, x, arg) && !strings.Contains(ev.name, "internal/lang") {
				use = true
			}
		}
		if use && ev.ret != nil {
			out = append(out, a)
		}
	}
	return
}

func checkP30(r *Rep) {
	p := r.p
	r.Rule("argument-kind", "on every path of diff, the access made last to what a source argument names is the one for what the path has established the argument to be: a file is read, a directory generated from, and only what names nothing existing opened as a data source name")
	r.Rule("attempt", "no path of diff ends before both sources were obtained unless something failed on it")
	r.Rule("unaltered", "the path or data source name accessed is the argument itself; the Go sources read are those at it, made absolute or cleaned at most, walked where it is a directory and parsed where it is a file")
	r.Rule("reachable", "each kind of argument is served on each side, for each dialect")

	fn := r.need("pkg/ddlctl/diff", "Diff")
	if fn == nil {
		return
	}
	n := 0
	for _, q := range fn.Params {
		if q.Type().String() == "string" {
			n++
		}
	}
	if !r.Check(n == 4, "anchor", shortFn(fn)+"/signature", p.fnPos(fn), "diff.Diff no longer takes a dialect, a language and two sources") {
		return
	}
	iD, iL := paramIndex(fn, "string", 0), paramIndex(fn, "string", 1)
	sides := []int{paramIndex(fn, "string", 2), paramIndex(fn, "string", 3)}
	r.Fn(shortFn(fn))
	for _, d := range dialects {
		e := dispatchEngine(p)
		args := e.params(fn)
		args[iD], args[iL] = mkStr(d), mkStr("go")
		res, err := e.Analyse(fn, newState(), args)
		if err != nil {
			r.Undecided("argument-kind", "diff.Diff["+d+"]", "%v", err)
			continue
		}
		r.useEngine(e)
		served := map[int]map[int]bool{0: {}, 1: {}}
		for _, re := range res {
			if re.kind != rRet {
				continue
			}
			st := re.st
			failed := false
			for a, v := range st.known {
				if a.op == "isnil" && !v && anyTerm(a, func(x *T) bool { return x.op == "ret" || x.op == "call" && x.s == "os.Stat" }) {
					failed = true
				}
			}
			for i, side := range sides {
				what := []string{"before", "after"}[i]
				c := "diff.Diff[" + d + "]/" + what
				as := attemptsOn(st, args[side])
				if len(as) == 0 {
					_, unread := sourceKinds(st, args[side], nil)
					if !failed && unread != "" {
						r.Undecided("attempt", c, "the condition %s is not understood", unread)
						continue
					}
					r.Check(failed, "attempt", c, p.fnPos(fn), "the comparison ends without obtaining the %s source although nothing failed (path: %s)", what, litTexts(st))
					continue
				}
				k, unread := sourceKinds(st, args[side], as)
				last := as[len(as)-1]
				// reading succeeds on a file only
				if last.how == kFile && last.ev.ret != nil && certainlyNil(st, mkExt(last.ev.ret, 1, errType)) && !strings.HasPrefix(last.ev.name, "os.Open") {
					k &= kFile
				}
				possible := k
				if !r.Check(last.own, "unaltered", c, p.pos(last.ev.pos), "the %s source is %s through %s, not the argument itself", what, last.what, shortArgs(last.ev)) {
					continue
				}
				wrong := possible &^ last.how
				if wrong != 0 && unread != "" {
					r.Undecided("argument-kind", c, "the condition %s on the argument is not understood", unread)
					continue
				}
				r.Check(wrong == 0, "argument-kind", c+"/"+last.what, p.pos(last.ev.pos), "the %s source is %s where it may name %s (path: %s)", what, last.what, kindNames(wrong), litTexts(st))
				if possible == last.how {
					served[i][last.how] = true
				}
			}
		}
		for i, w := range []string{"before", "after"} {
			for _, h := range []int{kFile, kDir, kNone} {
				r.Check(served[i][h], "reachable", "diff.Diff["+d+"]/"+w+"/"+kindNames(h), p.fnPos(fn), "no path serves a %s source that names %s", w, kindNames(h))
			}
		}
	}
	goPaths(r)
	r.Min("argument-kind", 100)
	r.Min("reachable", 24)
}

func shortArgs(ev *Event) string {
	var s []string
	for _, a := range ev.args {
		s = append(s, short(a))
	}
	return ev.name + "(" + strings.Join(s, ", ") + ")"
}

// goPaths: the Go sources read are those at the path given, made absolute or cleaned at most.
func goPaths(r *Rep) {
	p := r.p
	fn := r.need("pkg/internal/lang/go", "Parse")
	if fn == nil {
		return
	}
	idx := paramIndex(fn, "string", 0)
	if idx < 0 {
		r.Undecided("unaltered", "lang/go.Parse", "takes no path")
		return
	}
	r.Fn(shortFn(fn))
	e := newEngine(p)
	args := e.params(fn)
	src := args[idx]
	res, err := e.Analyse(fn, newState(), args)
	if err != nil {
		r.Undecided("unaltered", "lang/go.Parse", "%v", err)
		return
	}
	r.useEngine(e)
	n := map[int]int{}
	for _, re := range res {
		st := re.st
		same := func(t *T) bool { return samePath(st, t, src) }
		for _, o := range flatten(st.events) {
			ev := o.ev
			if ev.kind != "call" {
				continue
			}
			how, at := 0, 0
			switch ev.name {
			case "os.Stat", "os.Lstat":
			case "os.ReadFile", "os.Open":
				how = kFile
			case "path/filepath.WalkDir", "path/filepath.Walk", "os.ReadDir":
				how = kDir
			case "go/parser.ParseFile":
				how, at = kFile, 1
			case "go/parser.ParseDir":
				how, at = kDir, 1
			default:
				continue
			}
			if at >= len(ev.args) || !depends(st, ev.args[at], src) {
				continue
			}
			c := "lang/go.Parse/" + lastSeg(ev.name)
			if !r.Check(same(ev.args[at]), "unaltered", c, p.pos(ev.pos), "%s is given %s, which need not be the path of the source (path: %s)", ev.name, short(ev.args[at]), litTexts(st)) || how == 0 {
				continue
			}
			n[how]++
			k, unread := sourceKinds(st, src, []attempt{{how: how, ev: ev}})
			if wrong := k &^ how &^ kNone; wrong != 0 && unread != "" {
				r.Undecided("argument-kind", c, "the condition %s on the path is not understood", unread)
			} else {
				r.Check(wrong == 0, "argument-kind", c, p.pos(ev.pos), "%s is used where the source may be %s (path: %s)", ev.name, kindNames(wrong), litTexts(st))
			}
		}
	}
	r.Check(n[kDir] > 0, "reachable", "lang/go.Parse/directory", p.fnPos(fn), "no path reads the sources of a directory")
	r.Check(n[kFile] > 0, "reachable", "lang/go.Parse/file", p.fnPos(fn), "no path reads a source file")
}
