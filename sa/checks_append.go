package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// checkAppend examines how constraints are collected: Constraints.Append keeps every constraint it is given but the
// one it replaces, which has the same name, and a generated name is one that no constraint has.
func checkAppend(r *Rep) {
	r.Rule("collected", "Constraints.Append returns the constraints it had and the new one, which takes the place of the one of the same name if there is one (a comparison of the Name of both names) and is appended otherwise; unusedName returns a name only where no constraint has that name")
	p := r.p
	for _, d := range []string{"cockroachdb", "mysql", "postgres", "spanner"} {
		pkg := "pkg/ddl/" + d
		if fn := methodFn(p, pkg, "Constraints", "Append"); fn != nil && len(fn.Params) == 2 {
			appendCheck(r, d, fn)
		} else {
			r.Undecided("collected", d+".Constraints.Append", "not found")
		}
		if fn := methodFn(p, pkg, "Constraints", "unusedName"); fn != nil && len(fn.Params) == 2 {
			unusedCheck(r, d, fn)
		} else {
			r.Undecided("collected", d+".Constraints.unusedName", "not found")
		}
	}
	r.Min("collected", 8)
}

func methodFn(p *Prog, pkg, typ, name string) *ssa.Function {
	for _, f := range p.methodsByName()[name] {
		if inPkgs(f, pkg) && f.Signature.Recv() != nil && strings.HasSuffix(typeName(f.Signature.Recv().Type()), "."+typ) {
			return f
		}
	}
	return nil
}

// nameOf: t is GetName().Name of the constraint x.
func nameOf(t, x *T) bool {
	s := short(t)
	return s == "m:GetName("+short(x)+").Name"
}

func appendCheck(r *Rep, d string, fn *ssa.Function) {
	p := r.p
	e := newEngine(p)
	list := mkParam(fn.Params[0].Type(), fn.Params[0].Name())
	c := mkParam(fn.Params[1].Type(), fn.Params[1].Name())
	cons := d + ".Constraints.Append"
	for _, t := range r.traces(e, "collected", fn, nil) {
		if t.kind != rRet || len(t.vals) != 1 {
			continue
		}
		// the search for the same name
		found, known := false, false
		for l, v := range t.st.known {
			if l.op != "exists" || l.a[0] != list {
				continue
			}
			g := l.a[1]
			for g.op == "conj" && len(g.a) == 1 {
				g = g.a[0]
			}
			if g.op != "eq" {
				continue
			}
			x, y := g.a[0], g.a[1]
			if nameOf(y, c) {
				x, y = y, x
			}
			isEl := strings.HasPrefix(short(y), "m:GetName("+short(list)+"[$") && strings.HasSuffix(short(y), "]).Name")
			if nameOf(x, c) && isEl {
				found, known = v, true
				continue
			}
			if strings.Contains(short(g), "GetName(") && (fieldOfName(x) != "Name" || fieldOfName(y) != "Name") && fieldOfName(x) != "" {
				r.Fail("collected", cons+"/same-name", p.fnPos(fn), "constraints are taken for the same by %s", short(g))
				return
			}
		}
		v := t.vals[0]
		for v.op == "sorted" {
			v = v.a[len(v.a)-1]
		}
		if l, v := t.st.decide(mkEq(mkLen(list), mkInt(0))); v && l && !known {
			found, known = false, true
		}
		stored := 0
		var at *T
		for _, o := range flatten(t.st.events) {
			if o.ev.kind == "store" && len(o.ev.args) == 2 && o.ev.args[0].op == "eaddr" && o.ev.args[0].a[0] == list {
				stored++
				at = o.ev.args[0].a[1]
				if stripAs(o.ev.args[1]) != c {
					r.Fail("collected", cons+"/stored", p.pos(o.ev.pos), "%s is stored in the list instead of the new constraint", short(o.ev.args[1]))
					return
				}
			}
		}
		its := v.a
		isAppend := v.op == "seq" && len(its) == 2 && its[1].op == "it" && stripAs(its[1].a[0]) == c && its[0] != nil && strings.HasPrefix(short(v), "["+short(list)+"...;")
		isAppend = isAppend || v.op == "seq" && len(its) == 1 && its[0].op == "it" && stripAs(its[0].a[0]) == c && known && !found
		switch {
		case known && !found && isAppend && stored == 0:
			r.Ok("collected", cons+"/new")
		case known && found && v == list && stored == 1 && at.op == "first" && at.a[0] == list:
			r.Ok("collected", cons+"/replace")
		case known && found && v == list && stored == 1 && at.op == "int":
			r.Fail("collected", cons+"/replace", p.fnPos(fn), "the new constraint takes the place of constraint %s, not of the one of its name", short(at))
		case known && found && isAppend && stored == 0:
			r.Fail("collected", cons+"/replace", p.fnPos(fn), "a second constraint of the same name is appended")
		case v == list && stored == 0:
			r.Fail("collected", cons+"/lost", p.fnPos(fn), "the constraint is not recorded (path: %s)", litTexts(t.st))
		case isAppend && !known && stored == 0:
			r.Fail("collected", cons+"/replace", p.fnPos(fn), "the constraint is appended although another may have the same name (path: %s)", litTexts(t.st))
		default:
			r.Undecided("collected", cons, "cannot relate %s to the list and the new constraint (path: %s)", short(v), litTexts(t.st))
		}
	}
}

// fieldOfName: the field in a term of the form ….GetName(…).Field
func fieldOfName(t *T) string {
	s := short(t)
	i := strings.LastIndex(s, ").")
	if !strings.HasPrefix(s, "m:GetName(") || i < 0 || strings.ContainsAny(s[i+2:], "([") {
		return ""
	}
	return s[i+2:]
}

func unusedCheck(r *Rep, d string, fn *ssa.Function) {
	p := r.p
	e := newEngine(p)
	list := mkParam(fn.Params[0].Type(), fn.Params[0].Name())
	cons := d + ".Constraints.unusedName"
	for _, t := range r.traces(e, "collected", fn, nil) {
		if t.kind != rRet || len(t.vals) != 1 {
			continue
		}
		ok, mentioned := false, false
		for l, v := range t.st.known {
			if !v && l.op == "exists" && l.a[0] == list && strings.Contains(short(l.a[1]), "GetName("+short(list)+"[$") {
				ok = true
			}
			if anyTerm(l, func(x *T) bool { return x == list }) {
				mentioned = true
			}
		}
		if !mentioned {
			r.Fail("collected", cons, p.fnPos(fn), "a name is returned without a look at the names in use (path: %s)", litTexts(t.st))
			continue
		}
		if ok {
			r.Ok("collected", cons)
		} else {
			r.Undecided("collected", cons, "cannot tell that no constraint has the name %s (path: %s)", short(t.vals[0]), litTexts(t.st))
		}
	}
}
