package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P27"] = checkP27 }

// errLeaves are the failures an error is made of: sentinels, errors made on the spot, and errors that came from elsewhere.
func errLeaves(err *T) []*T {
	switch {
	case err == nil || err.op == "nil":
		return nil
	case err.op == "errf" && err.s == "":
		var out []*T
		for _, a := range err.a[1:] {
			if a.op == "as" {
				a = stripAs(a)
			}
			if isErrTerm(a) {
				out = append(out, errLeaves(a)...)
			}
		}
		if len(out) == 0 {
			out = []*T{err}
		}
		return out
	case err.op == "call" && err.s == "errors.Join":
		var out []*T
		for _, a := range err.a {
			out = append(out, errLeaves(a)...)
		}
		return out
	}
	return []*T{err}
}

// fromCall: the value is what a call returned (the call itself, or one of its results), not one of a repetition.
func fromCall(x *T) bool {
	if x.op == "ext" {
		x = x.a[0]
	}
	return x.op == "ret"
}

// occurred: the value is known to be a failure; for the value of the first or last element that meets a condition, the
// condition may say so.
func occurred(st *State, v *T) bool {
	if certainlyError(st, v) {
		return true
	}
	found := false
	anyTerm(v, func(x *T) bool {
		if (x.op != "first" && x.op != "last") || found {
			return false
		}
		g := x.a[1]
		for h := 0; h <= x.h; h++ {
			for _, l := range conjuncts(subst(g, map[*T]*T{bv(h): x})) {
				if l == mkNot(mkIsNil(v)) {
					found = true
				}
			}
		}
		return false
	})
	return found
}

func conjuncts(g *T) []*T {
	if g.op == "conj" || g.op == "and" {
		var out []*T
		for _, a := range g.a {
			out = append(out, conjuncts(a)...)
		}
		return out
	}
	return []*T{g}
}

// outcome is one way a function of the commands ends, with the function analysed alone.
type outcome struct {
	fn  *ssa.Function
	res Result
	err *T
}

// outcomes analyses every function that can fail alone, each callee that can fail being an event of its own.
func outcomes(r *Rep, rule string) (out [][]outcome) {
	for _, fn := range r.p.fns {
		if testPkg(fn) || len(fn.Blocks) == 0 || errResult(fn.Signature) < 0 || strings.Contains(fn.String(), "/pkg/ddl/") || fn.Synthetic != "" {
			continue
		}
		pk := pkgOf(fn)
		if pk == nil || !strings.HasPrefix(pk.Path(), modPath) {
			continue
		}
		e := newEngine(r.p)
		modular(e)
		res, err := e.Analyse(fn, newState(), e.params(fn))
		if err != nil {
			if fn.Parent() == nil {
				r.Undecided(rule, shortFn(fn), "%v", err)
			}
			continue
		}
		r.useEngine(e)
		r.Fn(shortFn(fn))
		i := errResult(fn.Signature)
		var os []outcome
		for _, t := range res {
			if t.kind == rRet && i < len(t.vals) {
				os = append(os, outcome{fn, t, stripAs(t.vals[i])})
			}
		}
		out = append(out, os)
	}
	return out
}

// eventAt: the position of the event that returned v.
func eventAt(st *State, v *T) int {
	if v.op == "ext" {
		v = v.a[0]
	}
	for i, o := range flatten(st.events) {
		if o.ev.ret == v || o.ev.ret != nil && o.ev.ret.s == v.s && o.ev.ret.op == v.op {
			return i
		}
	}
	return -1
}

// replaced: the failures that are lost because a later one takes their place.
func replaced(os []outcome) (o outcome, lost, by *T) {
	for _, a := range os {
		ls := errLeaves(a.err)
		for _, v := range ls {
			if !fromCall(v) || len(ls) != 1 || !certainlyError(a.res.st, v) {
				continue
			}
			for _, b := range os {
				if n, ok := b.res.st.known[mkIsNil(v)]; !ok || !n {
					continue
				}
				same := true
				for k, x := range b.res.st.known {
					if y, ok := a.res.st.known[k]; ok && x != y && k != mkIsNil(v) {
						same = false
					}
				}
				if !same {
					continue
				}
				for _, w := range errLeaves(b.err) {
					if w == v || !fromCall(w) || !certainlyError(b.res.st, w) || !certainlyError(a.res.st, w) {
						continue
					}
					i, j := eventAt(a.res.st, w), eventAt(a.res.st, v)
					if i >= 0 && i < j {
						return a, w, v
					}
				}
			}
		}
	}
	return outcome{}, nil, nil
}

// argCount: the number of arguments whose absence a refusal states.
var argCount = map[string]int64{"ErrOneArgumentRequired": 1, "ErrTwoArgumentsRequired": 2}

// acceptedValues are the inputs that must not be refused, by the constant that shows what a value stands for.
var acceptedValues = [][]string{{"mysql", "postgres", "cockroachdb", "spanner"}, {"go"}, {"yes"}}

// refuses: the conditions of a path leave room for an input that must be accepted (which), or do not show what is
// refused (known == false).
func refuses(st *State) (which string, known bool) {
	subjects := map[*T][]string{}
	for k := range st.known {
		anyTerm(k, func(x *T) bool {
			if x.op != "eq" {
				return false
			}
			for i := 0; i < 2; i++ {
				if c := x.a[i]; c.op == "str" && x.a[1-i].op != "str" {
					for _, vs := range acceptedValues {
						for _, v := range vs {
							if c.s == v {
								subjects[x.a[1-i]] = vs
							}
						}
					}
				}
			}
			return false
		})
	}
	for k, v := range st.known {
		if v && k.op == "eq" && k.a[1] == mkStr("") && len(subjects) == 0 {
			return "", true // the empty value only
		}
	}
	for s, vs := range subjects {
		all := true
		for _, v := range vs {
			possible := true
			for k, val := range st.known {
				if x := foldStr(subst(k, map[*T]*T{s: mkStr(v)})); x == tTrue && !val || x == tFalse && val {
					possible = false
				}
			}
			if possible {
				which, all = v, false
			}
		}
		if all {
			return "", true
		}
		known = true
	}
	return which, known
}

func checkP27(r *Rep) {
	r.Rule("grounded", "on every path on which a function of the commands returns an error, the error wraps a failure that is known to have occurred on that path, or is one of the stated refusals and the conditions of the path exclude every accepted input")
	r.Rule("success", "'no difference' and a request for help end the command with success on every path")
	p := r.p
	for _, os := range outcomes(r, "grounded") {
		for _, o := range os {
			name := shortFn(o.fn)
			if certainlyNil(o.res.st, o.err) {
				continue
			}
			for _, v := range errLeaves(o.err) {
				switch {
				case v.op == "sentinel":
					short := v.s[strings.LastIndex(v.s, ".")+1:]
					key := name + "/" + short
					if short == "ErrHelp" || short == "ErrDDLTagGoAnnotationNotFoundInSource" || argCount[short] > 0 {
						r.Ok("grounded", key)
						continue
					}
					which, known := refuses(o.res.st)
					switch {
					case which != "":
						r.Fail("grounded", key, p.fnPos(o.fn), "%s refuses %s with %s (path: %s)", name, which, short, litTexts(o.res.st))
					case !known:
						r.Undecided("grounded", key, "the conditions of the path do not show what is refused: %s", litTexts(o.res.st))
					default:
						r.Ok("grounded", key)
					}
				case v.op == "errf":
					r.Fail("grounded", name+"/new", p.fnPos(o.fn), "%s reports a failure of its own making, %s, although nothing it called failed (path: %s)", name, short(v), litTexts(o.res.st))
				case v.op == "param":
					r.Ok("grounded", name+"/"+v.s)
				case v == o.err:
					r.Ok("grounded", name+"/result of "+short(v))
				case occurred(o.res.st, v):
					r.Ok("grounded", name+"/"+short(v))
				case certainlyNil(o.res.st, v):
					r.Fail("grounded", name+"/"+short(v), p.fnPos(o.fn), "%s reports a failure of %s where it succeeded (path: %s)", name, short(v), litTexts(o.res.st))
				case fromCall(v):
					r.Fail("grounded", name+"/"+short(v), p.fnPos(o.fn), "%s reports a failure of %s whether or not it failed (path: %s)", name, short(v), litTexts(o.res.st))
				default:
					r.Undecided("grounded", name+"/"+short(v), "whether %s is a failure is not known on the path %s", short(v), litTexts(o.res.st))
				}
			}
		}
	}
	for _, c := range []struct {
		pkg string
		n   int64
	}{{"pkg/ddlctl/diff", 2}, {"pkg/ddlctl/show", 1}, {"pkg/ddlctl/generate", 2}, {"pkg/ddlctl/apply", 2}} {
		fn := r.need(c.pkg, "Command")
		if fn == nil {
			continue
		}
		args := mkParam(fn.Params[1].Type(), fn.Params[1].Name())
		for _, t := range r.traces(commandEngine(p, fnDiff, fnShow, fnGenerate, "ddlctl/generate.Parse", "ddlctl/generate.Fprint", "ddlctl/apply.Apply"), "grounded", fn, nil) {
			if t.kind != rRet {
				continue
			}
			for _, v := range errLeaves(stripAs(t.vals[len(t.vals)-1])) {
				what := v.s[strings.LastIndex(v.s, ".")+1:]
				if v.op == "sentinel" && argCount[what] > 0 {
					r.Check(!possibleLens(t.st, args, 8)[c.n], "grounded", shortFn(fn)+"/"+what, p.fnPos(fn), "%s refuses %d arguments with %s (path: %s)", shortFn(fn), c.n, what, litTexts(t.st))
				}
			}
		}
	}
	r.Min("grounded", 60)
	for _, c := range []struct {
		pkg, fn, callee, sentinel string
		opaque                    []string
	}{
		{"pkg/ddlctl/diff", "Command", "pkg/" + fnDiff, errNoDiff, []string{fnDiff}},
		{"pkg/ddlctl/apply", "Command", "pkg/" + fnDiff, errNoDiff, []string{fnDiff, "ddlctl/apply.Apply"}},
		{"pkg/ddlctl", "DDLCtl", "(*github.com/kunitsucom/util.go/exp/cli.Command).Run", "github.com/kunitsucom/util.go/exp/cli.ErrHelp", nil},
	} {
		fn := r.need(c.pkg, c.fn)
		if fn == nil {
			continue
		}
		name := shortFn(fn)
		what := c.sentinel[strings.LastIndex(c.sentinel, ".")+1:]
		seen := 0
		for _, t := range r.traces(commandEngine(p, c.opaque...), "success", fn, nil) {
			if t.kind != rRet {
				continue
			}
			err := stripAs(t.vals[len(t.vals)-1])
			for _, o := range flatten(t.st.events) {
				if o.ev.kind != "call" || o.ev.name != c.callee || o.ev.ret == nil || !certainlyError(t.st, o.ev.ret) {
					continue
				}
				is, ok := false, false
				for k, v := range t.st.known {
					if k.op == "call" && k.s == "errors.Is" && k.a[0] == o.ev.ret && (k.a[1].op == "sentinel" || k.a[1].op == "gval") && k.a[1].s == c.sentinel {
						is, ok = v, true
					}
				}
				switch {
				case ok && !is:
				case certainlyNil(t.st, err):
					seen++
					r.Ok("success", name+"/"+what)
				default:
					seen++
					r.Fail("success", name+"/"+what, p.pos(o.ev.pos), "%s can report a failure when %s ends with %s, which is a successful outcome (path: %s)", name, o.ev.name, what, litTexts(t.st))
				}
			}
		}
		r.Check(seen > 0, "success", name+"/"+what+"/covered", p.fnPos(fn), "no path of %s on which %s fails was found", name, c.callee)
	}
	r.Min("success", 6)
}
