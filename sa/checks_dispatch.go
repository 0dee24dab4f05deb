package main

import (
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

func init() { checks["P17"] = checkP17 }

var dialects = []string{"postgres", "cockroachdb", "mysql", "spanner"}

var (
	dialectDriver = map[string]string{"postgres": "postgres", "cockroachdb": "postgres", "mysql": "mysql", "spanner": "spanner"}
	dialectGen    = map[string]string{"postgres": "postgres", "cockroachdb": "postgres", "mysql": "mysql", "spanner": "spanner"}
)

// dispatchEngine interprets the command layer and leaves every implementation package opaque.
func dispatchEngine(p *Prog) *Engine {
	e := newEngine(p)
	is := func(fn *ssa.Function) bool {
		pk := pkgOf(fn)
		if pk == nil || fn.Parent() != nil {
			return false
		}
		s := strings.TrimPrefix(pk.Path(), modPath+"/")
		return strings.HasPrefix(s, "pkg/ddl/") || strings.HasPrefix(s, "pkg/show/") || s == "pkg/logs" || s == "pkg/internal/config" ||
			strings.HasPrefix(s, "pkg/internal/lang/") || strings.HasPrefix(s, "pkg/internal/generator")
	}
	e.opaque = is
	e.effect = is
	return e
}

// eventOf finds the call whose result the term is (through result tuples, conversions and assertions).
func eventOf(st *State, t *T) (*Event, int) {
	idx := 0
	for {
		switch t.op {
		case "tostr", "bytes", "as":
			t = t.a[0]
			continue
		case "ext":
			idx = 0
			for _, c := range t.s {
				idx = idx*10 + int(c-'0')
			}
			t = t.a[0]
			continue
		case "written":
			id := t.s
			if i := strings.LastIndex(id, "."); i >= 0 {
				id = id[:i]
			}
			for _, o := range flatten(st.events) {
				if o.ev.ret != nil && o.ev.ret.s == id {
					return o.ev, -1
				}
			}
			return nil, 0
		case "ret":
			for _, o := range flatten(st.events) {
				if o.ev.ret != nil && o.ev.ret.s == t.s {
					return o.ev, idx
				}
			}
			return nil, 0
		}
		return nil, 0
	}
}

// paramConst gives the arguments of a function with some string parameters fixed.
func (e *Engine) paramsFixed(fn *ssa.Function, fix map[string]string) []*T {
	out := e.params(fn)
	for i, p := range fn.Params {
		if v, ok := fix[p.Name()]; ok {
			out[i] = mkStr(v)
		}
	}
	return out
}

func paramIndex(fn *ssa.Function, typ string, nth int) int {
	for i, p := range fn.Params {
		if p.Type().String() == typ {
			if nth == 0 {
				return i
			}
			nth--
		}
	}
	return -1
}

// argTo gives the argument of a call by the name of the callee's parameter position.
func writesTo(st *State, w *T) (parts []*T, n int, other []*Event) {
	for _, o := range flatten(st.events) {
		ev := o.ev
		if ev.kind != "call" {
			continue
		}
		touches := false
		for _, a := range ev.args {
			if stripAs(a) == stripAs(w) {
				touches = true
			}
		}
		if !touches {
			continue
		}
		n++
		switch ev.name {
		case "io.WriteString", "fmt.Fprint", "m:Write", "m:WriteString":
			for _, a := range ev.args[1:] {
				if its, ok := onlyItems(a); ok {
					for _, x := range its {
						parts = append(parts, concatParts(x)...)
					}
				} else {
					parts = append(parts, concatParts(a)...)
				}
			}
		case "fmt.Fprintf", "fmt.Fprintln":
			other = append(other, ev)
		default:
			other = append(other, ev)
		}
	}
	return
}

func checkP17(r *Rep) {
	p := r.p
	r.Rule("diff-dispatch", "for each dialect, every successful comparison writes the printed Diff, by that dialect's package, of the two parsed sources in order")
	r.Rule("source-text", "the text parsed for a side is that side's file content, its Go sources generated, or its database shown, by the same dialect's implementation")
	r.Rule("reject", "an empty or unknown dialect or language yields an error and no output")
	r.Rule("show-dispatch", "a database is opened with the dialect's own driver and shown with its own queries")
	r.Rule("generate-dispatch", "sources are parsed by the selected language and printed by the dialect's own generator")
	r.Rule("apply-driver", "apply opens the database with the dialect's own driver")
	r.Rule("command-args", "each command hands the configured dialect, the configured language and its own positional arguments to its operation")
	r.Rule("drivers-linked", "the driver of each dialect is linked into the command")

	str := "string"
	diffFn := r.need("pkg/ddlctl/diff", "Diff")
	showFn := r.need("pkg/ddlctl/show", "Show")
	genFn := r.need("pkg/ddlctl/generate", "Generate")
	applyFn := r.need("pkg/ddlctl/apply", "Apply")
	if diffFn == nil || showFn == nil || genFn == nil || applyFn == nil {
		return
	}
	// exported signatures: Diff(ctx, out, dialect, language, src, dst), Show(ctx, dialect, dsn),
	// Generate(ctx, dst, src, dialect, language), Apply(ctx, dialect, dsn, ddl)
	sig := func(fn *ssa.Function, want int) bool {
		n := 0
		for _, q := range fn.Params {
			if q.Type().String() == str {
				n++
			}
		}
		return r.Check(n == want, "anchor", shortFn(fn)+"/signature", p.fnPos(fn), "%s no longer takes %d string parameters", shortFn(fn), want)
	}
	if !sig(diffFn, 4) || !sig(showFn, 2) || !sig(genFn, 3) || !sig(applyFn, 3) {
		return
	}
	run := func(rule string, fn *ssa.Function, fixed map[int]*T, not []string, notIdx int) []Result {
		e := dispatchEngine(p)
		args := e.params(fn)
		for i, v := range fixed {
			args[i] = v
		}
		st := newState()
		for _, n := range not {
			st.assume(mkEq(args[notIdx], mkStr(n)), false)
		}
		res, err := e.Analyse(fn, st, args)
		if err != nil {
			r.Fail(rule, shortFn(fn)+"/undecided", p.fnPos(fn), "%v", err)
			return nil
		}
		r.useEngine(e)
		return res
	}
	errOf := func(fn *ssa.Function, res Result) *T { return res.vals[len(res.vals)-1] }

	// the text of one side
	sideText := func(res Result, t *T, d string, arg, lang *T) string {
		ev, _ := eventOf(res.st, t)
		if ev == nil {
			return "is " + short(t) + ", not the content of the source"
		}
		switch {
		case ev.name == "os.ReadFile" || ev.name == "io.ReadAll":
			if ev.name == "os.ReadFile" && ev.args[0] != arg {
				return "is the content of " + short(ev.args[0]) + " instead of " + short(arg)
			}
			if ev.name == "io.ReadAll" {
				o, _ := eventOf(res.st, ev.args[0])
				if o == nil || o.name != "os.Open" || o.args[0] != arg {
					return "is not read from " + short(arg)
				}
			}
			return ""
		case strings.HasSuffix(ev.name, ".Fprint") && strings.Contains(ev.name, "pkg/internal/generator"):
			return genProblem(res, ev, d, arg, lang)
		case strings.HasSuffix(ev.name, ".ShowCreateAllTables"):
			return showProblem(res, ev, d, arg)
		}
		return "comes from " + ev.name
	}

	iCtx := 0
	_ = iCtx
	dD, dL, dS, dT := paramIndex(diffFn, str, 0), paramIndex(diffFn, str, 1), paramIndex(diffFn, str, 2), paramIndex(diffFn, str, 3)
	dOut := -1
	for i, q := range diffFn.Params {
		if strings.HasSuffix(q.Type().String(), "io.Writer") {
			dOut = i
		}
	}
	if !r.Check(dOut >= 0, "anchor", "diff.Diff/writer", p.fnPos(diffFn), "diff.Diff takes no io.Writer") {
		return
	}
	for _, d := range dialects {
		for _, lang := range []string{"go"} {
			n := 0
			kinds := map[string]bool{}
			for _, res := range run("diff-dispatch", diffFn, map[int]*T{dD: mkStr(d), dL: mkStr(lang)}, nil, 0) {
				if res.kind != rRet {
					continue
				}
				c := "diff.Diff[" + d + "]"
				e := newEngine(p)
				ps := e.params(diffFn)
				parts, _, _ := writesTo(res.st, ps[dOut])
				if certainlyError(res.st, errOf(diffFn, res)) {
					continue
				}
				n++
				if !r.Check(len(parts) == 1, "diff-dispatch", c, p.fnPos(diffFn), "a successful comparison writes %d texts instead of one (path: %s)", len(parts), litTexts(res.st)) {
					continue
				}
				pr, _ := eventOf(res.st, parts[0])
				own := "(*pkg/ddl/" + d + ".DDL).String"
				if !r.Check(pr != nil && pr.name == own, "diff-dispatch", c, p.fnPos(diffFn), "the written text is %s, not the printed result of pkg/ddl/%s (path: %s)", short(parts[0]), d, litTexts(res.st)) {
					continue
				}
				df, _ := eventOf(res.st, pr.args[0])
				if !r.Check(df != nil && df.name == "pkg/ddl/"+d+".Diff", "diff-dispatch", c, p.pos(pr.pos), "the printed value is %s, not the result of pkg/ddl/%s.Diff", short(pr.args[0]), d) {
					continue
				}
				for k, side := range []int{dS, dT} {
					what := []string{"before", "after"}[k]
					ps1, _ := eventOf(res.st, df.args[k])
					if !r.Check(ps1 != nil && ps1.name == "(*pkg/ddl/"+d+".Parser).Parse", "diff-dispatch", c+"/"+what, p.pos(df.pos), "the %s schema is %s, not parsed by pkg/ddl/%s", what, short(df.args[k]), d) {
						continue
					}
					np, _ := eventOf(res.st, ps1.args[0])
					if !r.Check(np != nil && np.name == "pkg/ddl/"+d+".NewParser", "diff-dispatch", c+"/"+what, p.pos(ps1.pos), "the %s schema's parser is %s", what, short(ps1.args[0])) {
						continue
					}
					nl, _ := eventOf(res.st, np.args[0])
					if !r.Check(nl != nil && nl.name == "pkg/ddl/"+d+".NewLexer", "diff-dispatch", c+"/"+what, p.pos(np.pos), "the %s schema's lexer is %s", what, short(np.args[0])) {
						continue
					}
					pr := sideText(res, nl.args[0], d, ps[side], mkStr(lang))
					r.Check(pr == "", "source-text", c+"/"+what, p.pos(nl.pos), "the text parsed as %s schema %s (path: %s)", what, pr, litTexts(res.st))
					if s, _ := eventOf(res.st, nl.args[0]); s != nil {
						kinds[what+lastSeg(s.name)] = true
					}
				}
			}
			r.Check(n > 0, "diff-dispatch", "diff.Diff["+d+"]/supported", p.fnPos(diffFn), "comparing with dialect %s never succeeds", d)
			for _, w := range []string{"before", "after"} {
				for _, k := range []string{"ReadFile", "Fprint", "ShowCreateAllTables"} {
					if k == "ReadFile" && kinds[w+"ReadAll"] {
						continue
					}
					r.Check(kinds[w+k], "source-text", "diff.Diff["+d+"]/"+w+"/"+k, p.fnPos(diffFn), "no %s source is ever obtained through %s for dialect %s", w, k, d)
				}
			}
		}
	}
	rejects := func(fn *ssa.Function, what string, fixed map[int]*T, not []string, idx int, out int) {
		for _, res := range run("reject", fn, fixed, not, idx) {
			if res.kind != rRet {
				continue
			}
			r.Check(certainlyError(res.st, errOf(fn, res)), "reject", shortFn(fn)+"["+what+"]", p.fnPos(fn), "%s with %s can succeed (path: %s)", shortFn(fn), what, litTexts(res.st))
			if out >= 0 {
				e := newEngine(p)
				_, _, oth := writesTo(res.st, e.params(fn)[out])
				parts, _, _ := writesTo(res.st, e.params(fn)[out])
				r.Check(len(parts) == 0 && len(oth) == 0, "reject", shortFn(fn)+"["+what+"]/output", p.fnPos(fn), "%s with %s writes output before failing", shortFn(fn), what)
			}
		}
	}
	unknown := append([]string{""}, dialects...)
	rejects(diffFn, "empty dialect", map[int]*T{dD: mkStr("")}, nil, 0, dOut)
	rejects(diffFn, "unknown dialect", nil, unknown, dD, dOut)

	// show
	sD, sN := paramIndex(showFn, str, 0), paramIndex(showFn, str, 1)
	for _, d := range dialects {
		n := 0
		for _, res := range run("show-dispatch", showFn, map[int]*T{sD: mkStr(d)}, nil, 0) {
			if res.kind != rRet || certainlyError(res.st, errOf(showFn, res)) {
				continue
			}
			n++
			c := "show.Show[" + d + "]"
			ev, i := eventOf(res.st, res.vals[0])
			if !r.Check(ev != nil && strings.HasSuffix(ev.name, ".ShowCreateAllTables") && i == 0, "show-dispatch", c, p.fnPos(showFn), "the shown text is %s (path: %s)", short(res.vals[0]), litTexts(res.st)) {
				continue
			}
			pr := showProblem(res, ev, d, newEngine(p).params(showFn)[sN])
			r.Check(pr == "", "show-dispatch", c, p.pos(ev.pos), "the shown text %s", pr)
		}
		r.Check(n > 0, "show-dispatch", "show.Show["+d+"]/supported", p.fnPos(showFn), "showing with dialect %s never succeeds", d)
	}
	rejects(showFn, "empty dialect", map[int]*T{sD: mkStr("")}, nil, 0, -1)
	rejects(showFn, "unknown dialect", nil, unknown, sD, -1)

	// generate
	gS, gD, gL := paramIndex(genFn, str, 0), paramIndex(genFn, str, 1), paramIndex(genFn, str, 2)
	gW := -1
	for i, q := range genFn.Params {
		if strings.HasSuffix(q.Type().String(), "io.Writer") {
			gW = i
		}
	}
	if r.Check(gW >= 0, "anchor", "generate.Generate/writer", p.fnPos(genFn), "generate.Generate takes no io.Writer") {
		for _, d := range dialects {
			n := 0
			for _, res := range run("generate-dispatch", genFn, map[int]*T{gD: mkStr(d), gL: mkStr("go")}, nil, 0) {
				if res.kind != rRet || certainlyError(res.st, errOf(genFn, res)) {
					continue
				}
				n++
				c := "generate.Generate[" + d + "]"
				ps := newEngine(p).params(genFn)
				_, k, evs := writesTo(res.st, ps[gW])
				if !r.Check(k == 1 && len(evs) == 1 && strings.HasSuffix(evs[0].name, ".Fprint"), "generate-dispatch", c, p.fnPos(genFn), "successful generation writes through %d calls that are not one generator call (path: %s)", k, litTexts(res.st)) {
					continue
				}
				pr := genProblem(res, evs[0], d, ps[gS], mkStr("go"))
				r.Check(pr == "", "generate-dispatch", c, p.pos(evs[0].pos), "the generated text %s", pr)
			}
			r.Check(n > 0, "generate-dispatch", "generate.Generate["+d+"]/supported", p.fnPos(genFn), "generating with dialect %s never succeeds", d)
		}
		rejects(genFn, "empty dialect", map[int]*T{gD: mkStr(""), gL: mkStr("go")}, nil, 0, gW)
		rejects(genFn, "unknown dialect", map[int]*T{gL: mkStr("go")}, unknown, gD, gW)
		rejects(genFn, "empty language", map[int]*T{gL: mkStr("")}, nil, 0, gW)
		rejects(genFn, "unknown language", nil, []string{"go"}, gL, gW)
	}

	// apply
	aD, aN := paramIndex(applyFn, str, 0), paramIndex(applyFn, str, 1)
	for _, d := range dialects {
		e := commandEngine(p, fnDiff, fnRCE)
		args := e.params(applyFn)
		dsn := args[aN]
		args[aD] = mkStr(d)
		res, err := e.Analyse(applyFn, newState(), args)
		if err != nil {
			r.Fail("apply-driver", "apply.Apply/undecided", p.fnPos(applyFn), "%v", err)
			continue
		}
		r.useEngine(e)
		n := 0
		for _, re := range res {
			for _, o := range flatten(re.st.events) {
				if pr, ok := openProblem(o.ev, d, dsn); ok {
					n++
					r.Check(pr == "", "apply-driver", "apply.Apply["+d+"]", p.pos(o.ev.pos), "apply %s", pr)
				}
			}
		}
		r.Check(n > 0, "apply-driver", "apply.Apply["+d+"]/opens", p.fnPos(applyFn), "apply opens no database for dialect %s", d)
	}

	commandArgs(r)

	// drivers
	want := map[string]string{"postgres": "github.com/lib/pq", "mysql": "github.com/go-sql-driver/mysql", "spanner": "github.com/googleapis/go-sql-spanner"}
	linked := map[string]bool{}
	for _, q := range p.pkgs {
		if q.PkgPath == modPath+"/cmd/ddlctl" {
			packages.Visit([]*packages.Package{q}, func(x *packages.Package) bool { linked[x.PkgPath] = true; return true }, nil)
		}
	}
	for _, d := range []string{"postgres", "mysql", "spanner"} {
		r.Check(linked[want[d]], "drivers-linked", d, "pkg/ddlctl/import.go", "the command does not link %s, the driver named %q", want[d], d)
	}
	r.Min("diff-dispatch", 40)
	r.Min("source-text", 40)
}

// openProblem recognises the opening of a database and checks driver and data source.
func openProblem(ev *Event, d string, dsn *T) (string, bool) {
	if ev.kind != "call" || len(ev.args) < 2 {
		return "", false
	}
	var a []*T
	switch {
	case strings.HasSuffix(ev.name, "database/sql.OpenContext"):
		a = ev.args[1:]
	case strings.HasSuffix(ev.name, "database/sql.Open"):
		a = ev.args
	default:
		return "", false
	}
	if a[0] != mkStr(dialectDriver[d]) {
		return "opens the database with driver " + short(a[0]) + " instead of \"" + dialectDriver[d] + "\"", true
	}
	if a[1] != dsn {
		return "opens " + short(a[1]) + " instead of " + short(dsn), true
	}
	return "", true
}

func showProblem(res Result, ev *Event, d string, arg *T) string {
	if ev.name != "pkg/show/"+d+".ShowCreateAllTables" {
		return "is shown by " + ev.name + " instead of pkg/show/" + d
	}
	for _, a := range ev.args {
		if o, _ := eventOf(res.st, a); o != nil {
			if pr, ok := openProblem(o, d, arg); ok {
				return pr
			}
		}
	}
	return "is shown from a database that is not opened from " + short(arg)
}

func genProblem(res Result, ev *Event, d string, arg, lang *T) string {
	if ev.name != "pkg/internal/generator/dialect/"+dialectGen[d]+".Fprint" {
		return "is generated by " + ev.name + " instead of the " + dialectGen[d] + " generator"
	}
	for _, a := range ev.args {
		if o, i := eventOf(res.st, a); o != nil && strings.HasSuffix(o.name, "/lang/go.Parse") && i == 0 {
			if !hasTerm(o.args, arg) {
				return "is generated from " + short(o.args[len(o.args)-1]) + " instead of " + short(arg)
			}
			if lang != mkStr("go") {
				return "is generated from Go sources although another language is selected"
			}
			return ""
		}
	}
	return "is not generated from the parsed sources"
}

// commandArgs checks that each command passes its configuration and arguments in place.
func commandArgs(r *Rep) {
	p := r.p
	cfg := func(res Result, t *T, name string) bool {
		ev, _ := eventOf(res.st, t)
		return ev != nil && ev.name == "pkg/internal/config."+name
	}
	arg := func(ps []*T, t *T, i int64) bool {
		return t.op == "elem" && t.a[0] == ps[1] && t.a[1] == mkInt(i)
	}
	for _, c := range []struct {
		pkg, callee string
		opaque      []string
		want        []string // per string parameter of the callee
	}{
		{"pkg/ddlctl/diff", "pkg/ddlctl/diff.Diff", []string{fnDiff}, []string{"Dialect", "Language", "0", "1"}},
		{"pkg/ddlctl/show", "pkg/ddlctl/show.Show", []string{fnShow}, []string{"Dialect", "0"}},
		{"pkg/ddlctl/generate", "pkg/ddlctl/generate.Generate", []string{fnGenerate}, []string{"0", "Dialect", "Language"}},
		{"pkg/ddlctl/apply", "pkg/ddlctl/diff.Diff", []string{fnDiff, "ddlctl/apply.Apply"}, []string{"Dialect", "Language", "0", "1"}},
		{"pkg/ddlctl/apply", "pkg/ddlctl/apply.Apply", []string{fnDiff, "ddlctl/apply.Apply"}, []string{"Dialect", "0", ""}},
	} {
		fn := r.need(c.pkg, "Command")
		if fn == nil {
			continue
		}
		e := commandEngine(p, c.opaque...)
		ps := e.params(fn)
		n := 0
		name := c.pkg[strings.LastIndex(c.pkg, "/")+1:] + ".Command"
		for _, res := range r.traces(e, "command-args", fn, nil) {
			for _, o := range flatten(res.st.events) {
				if o.ev.name != c.callee {
					continue
				}
				n++
				callee := p.fn(c.callee[:strings.LastIndex(c.callee, ".")], lastSeg(c.callee))
				k := 0
				for i, q := range callee.Params {
					if q.Type().String() != "string" || k >= len(c.want) {
						continue
					}
					w := c.want[k]
					k++
					a := o.ev.args[i]
					ok := true
					switch w {
					case "":
					case "0", "1":
						ok = arg(ps, a, int64(w[0]-'0'))
					default:
						ok = cfg(res, a, w)
					}
					r.Check(ok, "command-args", name+"->"+lastSeg(c.callee)+"/"+q.Name(), p.pos(o.ev.pos), "%s passes %s as %s of %s (expected %s)", name, short(a), q.Name(), c.callee, map[bool]string{true: "argument " + w, false: "config." + w + "()"}[w == "0" || w == "1"])
				}
			}
		}
		r.Check(n > 0, "command-args", name+"->"+lastSeg(c.callee), p.fnPos(fn), "%s never calls %s", name, c.callee)
	}
	// the result of show goes to standard output; generate writes to the file opened at its second argument
	if fn := r.need("pkg/ddlctl/show", "Command"); fn != nil {
		for _, res := range r.traces(commandEngine(p, fnShow), "command-args", fn, nil) {
			if res.kind != rRet || certainlyError(res.st, res.vals[0]) {
				continue
			}
			ok := false
			for _, o := range flatten(res.st.events) {
				for _, t := range stdoutText(o.ev) {
					if ev, i := eventOf(res.st, t); ev != nil && ev.name == "pkg/"+fnShow && i == 0 {
						ok = true
					}
				}
			}
			r.Check(ok, "command-args", "show.Command/output", p.fnPos(fn), "show succeeds without writing the shown text to standard output (path: %s)", litTexts(res.st))
		}
	}
	if fn := r.need("pkg/ddlctl/diff", "Command"); fn != nil {
		for _, res := range r.traces(commandEngine(p, fnDiff), "command-args", fn, nil) {
			for _, o := range flatten(res.st.events) {
				if o.ev.name == "pkg/"+fnDiff {
					r.Check(hasTerm(o.ev.args, mk("gval", "os.Stdout")) || anyStdout(o.ev.args), "command-args", "diff.Command/output", p.pos(o.ev.pos), "diff does not write to standard output")
				}
			}
		}
	}
}

func anyStdout(ts []*T) bool {
	for _, t := range ts {
		if isStdout(stripAs(t)) {
			return true
		}
	}
	return false
}
