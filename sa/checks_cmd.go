package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["P01"] = checkP01
	checks["P02"] = checkP02
	checks["P03"] = checkP03
	checks["P22"] = checkP22
	checks["P24"] = checkP24
}

// commandEngine interprets the command layer: comparing, parsing, showing and generating stay opaque with
// effects, everything else of the repository is interpreted through.
func commandEngine(p *Prog, opaqueFns ...string) *Engine {
	e := newEngine(p)
	names := map[string]bool{}
	for _, n := range opaqueFns {
		names[n] = true
	}
	is := func(fn *ssa.Function) bool { return names[shortFn(fn)] || inPkgs(fn, "pkg/logs") }
	cfg := func(fn *ssa.Function) bool { return inPkgs(fn, "pkg/internal/config") && fn.Parent() == nil }
	e.opaque = func(fn *ssa.Function) bool { return is(fn) || cfg(fn) }
	e.effect = func(fn *ssa.Function) bool { return (is(fn) && fn.Name() != "RemoveCommentsAndEmptyLines") || cfg(fn) }
	return e
}

const (
	fnDiff     = "ddlctl/diff.Diff"
	fnShow     = "ddlctl/show.Show"
	fnGenerate = "ddlctl/generate.Generate"
	fnRCE      = "internal/util.RemoveCommentsAndEmptyLines"
	apperrPkg  = modPath + "/pkg/apperr."
	errNoDiff  = modPath + "/pkg/ddl.ErrNoDifference"
)

func applyTraces(r *Rep) (*ssa.Function, []Result) {
	fn := r.need("pkg/ddlctl/apply", "Command")
	r.need("pkg/ddlctl/diff", "Diff")
	if fn == nil {
		return nil, nil
	}
	e := commandEngine(r.p, fnDiff, fnRCE)
	return fn, r.traces(e, "traces", fn, nil)
}

// diffCall finds the call of diff.Diff on a trace and the term of the text it wrote.
func diffCall(res Result) (*Event, *T, int) {
	for i, ev := range res.st.events {
		if ev.kind == "call" && ev.name == modPath+"/pkg/"+fnDiff {
			_ = i
			id := ev.ret.s
			var d *T
			for _, t := range internTab {
				if t.op == "written" && strings.HasPrefix(t.s, id+".") {
					d = t
				}
			}
			return ev, d, i
		}
		if ev.kind == "call" && ev.name == "pkg/"+fnDiff {
			id := ev.ret.s
			return ev, mk("written", id+".1", ev.ret.a...), i
		}
	}
	return nil, nil, -1
}

// approved says whether the answers known on a trace grant permission, and after which event at the latest.
func approval(res Result) (how string, after int) {
	evIdx := map[string]int{}
	for i, ev := range res.st.events {
		if ev.ret != nil {
			evIdx[ev.ret.s] = i
		}
	}
	for _, l := range res.st.lits {
		if l.op == "ret" && strings.HasSuffix(strings.SplitN(l.s, "#", 2)[0], "internal/config.AutoApprove") {
			return "auto-approve", -1
		}
		if l.op == "eq" && l.a[1].op == "str" && l.a[1].s == "yes" {
			x := l.a[0]
			if (x.op == "call" || x.op == "m") && len(x.a) > 0 {
				// only the line terminator may be removed from the answer
				switch {
				case x.s == "strings.TrimSuffix" && (x.a[1] == mkStr("\n") || x.a[1] == mkStr("\r\n")),
					x.s == "strings.TrimRight" && (x.a[1] == mkStr("\n") || x.a[1] == mkStr("\r\n")):
					x = x.a[0]
				}
			}
			if x.op == "tostr" {
				x = x.a[0]
			}
			if x.op == "ext" {
				x = x.a[0]
			}
			if x.op == "ret" {
				if i, ok := evIdx[x.s]; ok {
					ev := res.st.events[i]
					n := lastSeg(ev.name)
					if (n == "Text" || n == "Bytes" || n == "ReadString" || n == "ReadLine" || n == "ReadBytes") && fromStdin(ev.args[0]) {
						// the answer is read by the last Scan before it (or by the read itself)
						at := i
						if n == "Text" || n == "Bytes" {
							at = -2
							for j := i - 1; j >= 0; j-- {
								o := res.st.events[j]
								if lastSeg(o.name) == "Scan" && len(o.args) > 0 && o.args[0] == ev.args[0] {
									at = j
									break
								}
							}
						}
						if at >= 0 {
							return "answer yes", at
						}
					}
				}
			}
		}
	}
	return "", -1
}

func fromStdin(t *T) bool {
	return anyTerm(t, func(x *T) bool { return x.op == "gval" && x.s == "os.Stdin" })
}

func isPromptRead(ev *Event) bool {
	if ev.kind != "call" || len(ev.args) == 0 {
		return false
	}
	for _, a := range ev.args {
		if fromStdin(a) {
			return true
		}
	}
	return false
}

func checkP01(r *Rep) {
	r.Rule("approved", "on every path of apply.Command, a database execution is preceded by approval: the auto-approve option is true, or the answer read from standard input equals \"yes\"")
	r.Rule("shown", "the full DDL text is written to standard output before the answer is read and before anything is executed")
	r.Rule("canceled", "a path on which the answer is not \"yes\" executes nothing and returns an error wrapping ErrCanceled")
	r.Rule("nothing", "a path on which diff.Diff failed neither reads an answer nor opens or executes anything")
	r.Rule("only-here", "no function outside apply.Command's approval reaches an execution primitive")
	fn, res := applyTraces(r)
	if fn == nil {
		return
	}
	pos := r.p.fnPos(fn)
	nExec, nCanc, nNo := 0, 0, 0
	for _, t := range res {
		dev, d, di := diffCall(t)
		occs := flatten(t.st.events)
		var execs []occ
		for _, o := range occs {
			if isExecEvent(o.ev) || lastSeg(o.ev.name) == "OpenContext" || o.ev.name == "database/sql.Open" {
				execs = append(execs, o)
			}
		}
		how, at := approval(t)
		if dev == nil {
			for _, o := range execs {
				r.Fail("approved", "apply.Command/"+lastSeg(o.ev.name), r.p.pos(o.ev.pos), "executed on a path on which no difference was computed: %s", litTexts(t.st))
			}
			continue
		}
		if dk, ok := t.st.decide(mkIsNil(dev.ret)); !ok || !dk {
			nNo++
			bad := len(execs) > 0
			for _, ev := range t.st.events {
				if isPromptRead(ev) {
					bad = true
				}
			}
			r.Check(!bad, "nothing", fmt.Sprintf("apply.Command/diff-failed"), pos, "after diff.Diff failed (or without looking at its result) the command goes on to ask or execute: %s", litTexts(t.st))
			continue
		}
		shown := -1
		for i, ev := range t.st.events {
			if d != nil && i > di && hasTerm(stdoutText(ev), d) {
				shown = i
				break
			}
		}
		for _, o := range execs {
			nExec++
			c := "apply.Command/" + lastSeg(o.ev.name)
			if r.Check(how != "", "approved", c, r.p.pos(o.ev.pos), "reached without approval on the path: %s", litTexts(t.st)) {
				r.Check(how == "auto-approve" || at < o.top, "approved", c+"/order", r.p.pos(o.ev.pos), "executed before the answer is read")
			}
			r.Check(shown >= 0 && shown < o.top, "shown", c, r.p.pos(o.ev.pos), "executed before (or without) showing the full DDL text on the path: %s", litTexts(t.st))
		}
		if how == "answer yes" {
			r.Check(shown >= 0 && shown < at, "shown", "apply.Command/prompt", pos, "the answer is read before the full DDL text has been shown")
		}
		if how == "" && len(execs) == 0 && t.kind == rRet {
			// refused, or an earlier failure
			asked := false
			for _, ev := range t.st.events {
				if isPromptRead(ev) {
					asked = true
				}
			}
			errv := t.vals[len(t.vals)-1]
			if asked {
				ioErr := false // reading the answer itself failed: any error will do
				for _, l := range t.st.lits {
					if l.op == "not" && l.a[0].op == "isnil" && anyTerm(l.a[0], func(x *T) bool {
						return x.op == "ret" && (strings.Contains(x.s, "Err") || strings.Contains(x.s, "Read"))
					}) {
						ioErr = true
					}
				}
				nCanc++
				if ioErr {
					r.Check(certainlyError(t.st, errv), "canceled", "apply.Command/read-failed", pos, "a failed read of the answer does not fail the command")
				} else {
					r.Check(wraps(t.st, errv, apperrPkg+"ErrCanceled"), "canceled", "apply.Command", pos, "an answer other than \"yes\" does not make apply fail with ErrCanceled: returns %s on %s", short(errv), litTexts(t.st))
				}
			} else {
				r.Check(certainlyError(t.st, errv), "canceled", "apply.Command/unasked", pos, "the command ends without asking, executing or failing although there is a difference: %s", litTexts(t.st))
			}
		}
	}
	r.Check(nExec > 0 && nCanc > 0 && nNo > 0, "approved", "apply.Command/coverage", pos, "approved, refused and no-difference paths expected, found %d/%d/%d", nExec, nCanc, nNo)
	// who may reach an execution primitive
	var roots []*ssa.Function
	for _, f := range r.p.fns {
		if f.Parent() != nil || testPkg(f) {
			continue
		}
		if inPkgs(f, "pkg/ddlctl/apply") && (f.Name() != "init") {
			continue
		}
		roots = append(roots, f)
	}
	seen := r.p.reach(roots, func(from, to *ssa.Function) bool { return to == fn })
	n := 0
	for _, f := range r.p.fns {
		if testPkg(f) {
			continue
		}
		for _, pc := range execSites(f) {
			n++
			_, bad := seen[f]
			r.Check(!bad, "only-here", shortFn(f)+"/"+pc.name, r.p.pos(pc.in.Pos()), "an execution primitive is reachable without passing through apply.Command: %s", chain(seen, f))
		}
	}
	r.Min("only-here", 3)
}

// testPkg: helpers of the repository's own tests that happen to live in non-test files.
func testPkg(f *ssa.Function) bool {
	return inPkgs(f, "pkg/internal/integrationtest", "pkg/internal/fixture")
}

type execSite struct {
	in   ssa.CallInstruction
	name string
}

func execSites(f *ssa.Function) []execSite {
	var out []execSite
	eachCall(f, func(in ssa.CallInstruction) {
		c := in.Common()
		n := ccName(c)
		if n == "" {
			return
		}
		if g := c.StaticCallee(); g != nil && isRepoFn(g) {
			return
		}
		if !execNames[lastSeg(n)] {
			return
		}
		if c.IsInvoke() || strings.Contains(n, "sql") || strings.Contains(n, "spanner") {
			out = append(out, execSite{in, lastSeg(n)})
		}
	})
	// method values such as db.ExecContext handed on
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok {
				g := mc.Fn.(*ssa.Function)
				if g.Synthetic != "" && strings.Contains(g.Name(), "$bound") && execNames[strings.TrimSuffix(g.Name(), "$bound")] {
					if o := g.Object(); o != nil && o.Pkg() != nil && !isRepoPath(o.Pkg().Path()) {
						out = append(out, execSite{dummyCall{mc}, strings.TrimSuffix(g.Name(), "$bound")})
					}
				}
			}
		}
	}
	return out
}

type dummyCall struct{ *ssa.MakeClosure }

func (d dummyCall) Common() *ssa.CallCommon { return nil }
func (d dummyCall) Value() *ssa.Call        { return nil }

// ---------------------------------------------------------------- P02

// splitSource recognises the ways the statements may be cut out of the DDL text.
func splitSource(coll, d *T) (string, bool) {
	if coll.op != "call" || coll.s != "strings.Split" || len(coll.a) != 2 || coll.a[1] != mkStr(";\n") {
		return "", false
	}
	x := coll.a[0]
	switch {
	case x == d:
		return "as is", true
	case x.op == "call" && strings.HasSuffix(x.s, fnRCE) && x.a[0] == mkStr("--") && x.a[1] == d:
		return "without comment and empty lines", true
	case x.op == "call" && strings.HasSuffix(x.s, "util.go/strings.ReadLine") && x.a[0] == d && x.a[1] == mkStr("\n"):
		if its, ok := onlyItems(x.a[2]); ok && len(its) == 1 && its[0].op == "call" && strings.HasSuffix(its[0].s, "ReadLineFuncRemoveCommentLine") && its[0].a[0] == mkStr("--") {
			return "without comment lines", true
		}
		if y := x.a[2]; y.op == "call" && strings.HasSuffix(y.s, "ReadLineFuncRemoveCommentLine") && y.a[0] == mkStr("--") {
			return "without comment lines", true
		}
	}
	return "", false
}

func isSplitOf(coll, d *T) bool { _, ok := splitSource(coll, d); return ok }

// guardedNonEmpty: do the conditions exclude the empty element of the collection?
func guardedNonEmpty(guards []*T, coll *T) string {
	item := func(x *T) bool { return x.op == "elem" && x.a[0] == coll }
	mentioned := false
	for _, g := range guards {
		if g.op == "not" && g.a[0].op == "eq" && g.a[0].a[1] == mkStr("") {
			x := g.a[0].a[0]
			if item(x) || x.op == "call" && x.s == "strings.TrimSpace" && item(x.a[0]) {
				return "yes"
			}
		}
		anyTerm(g, func(x *T) bool {
			if item(x) {
				mentioned = true
			}
			return false
		})
	}
	if mentioned {
		return "unknown"
	}
	return "no"
}

func checkP02(r *Rep) {
	r.Rule("same-text", "every executed statement is an element, in order, of the split of the very term that was displayed (comment and empty lines removed), or that term itself")
	r.Rule("all", "within the loop over the statements the empty ones, and only they, are skipped, and each other one is executed once per round")
	r.Rule("target", "the database opened is the first argument, with the driver of the selected dialect")
	r.Rule("batch", "Spanner: START BATCH DDL first, RUN BATCH last, on the same connection, nothing else added")
	r.Rule("failure", "on a path that returns success every execution succeeded, except MySQL's 'already exists' / 'Duplicate column name'")
	r.Rule("strip", "removing comments keeps every line that is neither blank nor a comment, unchanged and in order")
	fn, res := applyTraces(r)
	if fn == nil {
		return
	}
	kinds := map[string]bool{}
	for _, t := range res {
		if t.kind != rRet {
			continue
		}
		dev, d, di := diffCall(t)
		if dev == nil || d == nil {
			continue
		}
		shown := false
		for i, ev := range t.st.events {
			if i > di && hasTerm(stdoutText(ev), d) {
				shown = true
			}
		}
		dia := dialectOf(t.st)
		checkApplied(r, t, d, shown, dia, kinds)
	}
	for _, k := range []string{"cockroachdb", "mysql", "postgres", "spanner"} {
		r.Check(kinds[k], "all", "dialect="+k, r.p.fnPos(fn), "no successful path executes the statements for this dialect")
	}
	if kinds["mysql"] {
		for _, w := range []string{"already exists", "Duplicate column name"} {
			if kinds["tolerates +"+w] {
				r.Ok("failure", "apply/mysql/skips/"+w)
				continue
			}
			other := false
			for k := range kinds {
				if strings.HasPrefix(k, "tolerates ") && strings.Contains(k, w) {
					other = true
				}
			}
			// the texts may be looked for in a way that is not recognised
			if !other && !kinds["tolerates +already exists"] && !kinds["tolerates +Duplicate column name"] {
				r.Undecided("failure", "apply/mysql/skips/"+w, "cannot tell which failures are skipped")
				continue
			}
			r.Fail("failure", "apply/mysql/skips/"+w, r.p.fnPos(fn), "a statement that fails with %q only is not skipped for MySQL", w)
		}
	}
	r.Min("failure", 8)
	checkStrip(r)
}

// dialectOf reads the dialect known on a trace from the decisions on config.Dialect().
func dialectOf(st *State) string {
	for _, l := range st.lits {
		if l.op == "eq" && l.a[1].op == "str" && l.a[0].op == "ret" && strings.Contains(l.a[0].s, "config.Dialect#") {
			return l.a[1].s
		}
	}
	return ""
}

func notDialects(st *State) map[string]bool {
	out := map[string]bool{}
	for _, l := range st.lits {
		if l.op == "not" && l.a[0].op == "eq" && l.a[0].a[1].op == "str" && l.a[0].a[0].op == "ret" && strings.Contains(l.a[0].a[0].s, "config.Dialect#") {
			out[l.a[0].a[1].s] = true
		}
	}
	return out
}

var driverOf = map[string]string{"mysql": "mysql", "postgres": "postgres", "cockroachdb": "postgres", "spanner": "spanner"}

func checkApplied(r *Rep, t Result, d *T, shown bool, dia string, kinds map[string]bool) {
	pos := func(ev *Event) string { return r.p.pos(ev.pos) }
	ok := true
	chk := func(c bool, rule, cons, p, f string, a ...any) {
		if !r.Check(c, rule, cons, p, f, a...) {
			ok = false
		}
	}
	argsParam := func() *T {
		for _, ev := range t.st.events {
			if ev.name == modPath+"/pkg/"+fnDiff || ev.name == "pkg/"+fnDiff {
				return ev.args[4] // the left argument compared
			}
		}
		return nil
	}()
	// opening
	opens := 0
	var db *T
	for _, ev := range t.st.events {
		n := lastSeg(ev.name)
		if n == "OpenContext" || ev.name == "database/sql.Open" {
			opens++
			off := 1
			if ev.name == "database/sql.Open" {
				off = 0
			}
			db = mkExt(ev.ret, 0, nil)
			drv, dsn := ev.args[off], ev.args[off+1]
			chk(dsn == argsParam && dsn.op == "elem" && dsn.a[1] == mkInt(0) && dsn.a[0].op == "param", "target", "apply/dsn", pos(ev), "the database opened is %s, not the first argument whose schema was compared", short(dsn))
			want := ""
			switch {
			case drv.op == "str":
				want = drv.s
				chk(dia != "" && driverOf[dia] == want, "target", "apply/driver/"+dia, pos(ev), "dialect %q is executed with driver %q", dia, want)
			default:
				// the dialect's own name is the driver name, but for cockroachdb
				chk(drv.op == "ret" && strings.Contains(drv.s, "config.Dialect#") && dia != "cockroachdb" && (dia != "" || notDialects(t.st)["cockroachdb"]), "target", "apply/driver/"+dia, pos(ev), "the driver is %s for dialect %q", short(drv), dia)
			}
		}
	}
	chk(opens <= 1, "target", "apply/one-database", "-", "more than one database is opened")
	occs := flatten(t.st.events)
	var execs []occ
	for _, o := range occs {
		if isExecEvent(o.ev) {
			execs = append(execs, o)
		}
	}
	errv := t.vals[len(t.vals)-1]
	success := certainlyNil(t.st, errv)
	if success && len(execs) == 0 {
		// an empty loop cannot arise: the split of a text is never empty
		if opens > 0 {
			chk(false, "all", "apply/nothing-executed", "-", "apply reports success without executing anything on the path: %s", litTexts(t.st))
		}
		return
	}
	if len(execs) > 0 {
		chk(shown, "same-text", "apply/shown", pos(execs[0].ev), "the statements executed were not displayed")
	}
	names := map[string]bool{"mysql": true, "postgres": true, "cockroachdb": true, "spanner": true}
	key := dia
	if !names[key] {
		nd := notDialects(t.st)
		rest := []string{}
		for k := range names {
			if !nd[k] {
				rest = append(rest, k)
			}
		}
		sort.Strings(rest)
		key = strings.Join(rest, "+")
	}
	// the executed statements, by top-level position
	var seqv []string
	var conn *T
	byEach := map[*Event][]occ{}
	var order []*Event
	for _, o := range execs {
		q := execQuery(o.ev)
		if conn == nil {
			conn = o.ev.args[0]
		}
		chk(o.ev.args[0] == conn, "batch", "apply/one-connection/"+key, pos(o.ev), "statements are executed on different connections")
		if len(o.each) == 0 {
			switch {
			case q == d:
				seqv = append(seqv, "ALL")
			case !success && q != nil && q.op == "elem" && q.a[1].op == "first" && isSplitOf(q.a[0], d):
				// the statement whose failure ended the loop
			case q != nil && q.op == "str" && dia == "spanner":
				seqv = append(seqv, q.s)
			default:
				chk(false, "same-text", "apply/"+key, pos(o.ev), "executes %s, which is not the displayed text", short(q))
			}
			if success {
				chk(certainlyNil(t.st, mkExt(o.ev.ret, 1, errType)), "failure", "apply/"+key+"/direct", pos(o.ev), "success is returned although the execution may have failed: %s", litTexts(t.st))
			}
			continue
		}
		if len(o.each) > 1 {
			chk(false, "all", "apply/"+key, pos(o.ev), "the execution is nested in more than one loop")
			continue
		}
		each := o.each[0]
		if byEach[each] == nil {
			seqv = append(seqv, "ALL")
			order = append(order, each)
		}
		byEach[each] = append(byEach[each], o)
		how, okc := splitSource(each.coll, d)
		chk(okc, "same-text", "apply/"+key+"/split", pos(o.ev), "the statements executed are taken from %s, which is not the displayed text split at ';' line ends", short(each.coll))
		_ = how
		isItem := q != nil && q.op == "elem" && q.a[0] == each.coll && q.a[1].op == "loopvar"
		chk(isItem, "same-text", "apply/"+key+"/item", pos(o.ev), "executes %s instead of the statement itself", short(q))
	}
	for _, each := range order {
		for _, s := range each.sub {
			n := 0
			for _, o := range byEach[each] {
				if o.sub[0] == s {
					n++
				}
			}
			chk(n <= 1, "all", "apply/"+key+"/once", "-", "a statement is executed %d times in one round", n)
			if n == 0 {
				emptyOnly := false
				for _, g := range s.guards {
					if g.op == "eq" && g.a[1] == mkStr("") && g.a[0].op == "elem" && g.a[0].a[0] == each.coll {
						emptyOnly = true
					}
					if g.op == "eq" && g.a[1] == mkStr("") && g.a[0].op == "call" && g.a[0].s == "strings.TrimSpace" {
						emptyOnly = true
					}
				}
				chk(emptyOnly, "all", "apply/"+key+"/skip", "-", "a statement is skipped although it is not empty, when %v", s.guards)
			}
			for _, o := range byEach[each] {
				if o.sub[0] != s {
					continue
				}
				switch guardedNonEmpty(s.guards, each.coll) {
				case "yes":
					r.Ok("all", "apply/"+key+"/empty")
				case "no":
					chk(false, "all", "apply/"+key+"/empty", pos(o.ev), "the empty text after the last statement is executed as a statement, too (only when %v)", s.guards)
				default:
					r.Undecided("all", "apply/"+key+"/empty", "cannot tell whether empty statements are executed, when %v", s.guards)
				}
			}
			// a failing statement
			for _, o := range byEach[each] {
				if o.sub[0] != s {
					continue
				}
				ev := o.ev
				errT := mkExt(ev.ret, 1, errType)
				isn := mkIsNil(errT)
				failing, fine := false, false
				tolerated, tolText := false, false
				var lv *T
				for _, g := range s.guards {
					anyTerm(g, func(x *T) bool {
						if x.op == "loopvar" && len(x.a) > 0 && x.a[0] == each.coll {
							lv = x
						}
						return false
					})
					if g == isn {
						fine = true
					}
					if g == mkNot(isn) {
						failing = true
					}
					if g.op == "call" && strings.HasSuffix(g.s, "errors.Contains") && len(g.a) == 2 && g.a[0] == errT && (g.a[1] == mkStr("already exists") || g.a[1] == mkStr("Duplicate column name")) {
						tolText = true
						tolerated = dia == "mysql"
					}
				}
				switch {
				case fine:
				case !failing:
					chk(false, "failure", "apply/"+key+"/unexamined", pos(ev), "the result of the execution is not examined")
				case tolerated:
					r.Ok("failure", "apply/"+key+"/tolerated")
					if success {
						alone := ""
						for _, g := range s.guards {
							if g.op == "call" && strings.HasSuffix(g.s, "errors.Contains") && len(g.a) == 2 && g.a[0] == errT {
								alone += "+" + g.a[1].s
							}
						}
						kinds["tolerates "+alone] = true
					}
				case success:
					found := false
					if lv != nil {
						g := closeGuard(lv, s.guards)
						for l, kv := range t.st.known {
							if !kv && l.op == "exists" && l.a[0] == each.coll && conjSubset(l.a[1], g) {
								found = true
							}
						}
					}
					if !found && !tolText {
						found = failureFollowed(r.p, ev.fn, ev.pos)
					}
					chk(found, "failure", "apply/"+key+"/loop", pos(ev), "apply reports success although a statement failed, when %v", s.guards)
				}
			}
		}
	}
	if success {
		want := "ALL"
		if dia == "spanner" {
			want = "START BATCH DDL|ALL|RUN BATCH"
		}
		got := strings.Join(seqv, "|")
		rule := "all"
		if dia == "spanner" {
			rule = "batch"
		}
		chk(got == want, rule, "apply/"+key+"/sequence", "-", "executes %q instead of %q", got, want)
		_ = db
		if ok {
			if names[dia] {
				kinds[dia] = true
			} else {
				for k := range names {
					if !notDialects(t.st)[k] {
						kinds[k] = true
					}
				}
			}
		}
	}
}

// failureFollowed: on every path of the function that executes, a failure ends in its error result.
func failureFollowed(p *Prog, fn *ssa.Function, at token.Pos) bool {
	n := 0
	for _, s := range newErrFlow(p).sources() {
		if s.fn != fn || s.pos != at {
			continue
		}
		n++
		if s.drop || s.why != "" || len(s.ends.swallow) > 0 || len(s.ends.escapes) > 0 {
			return false
		}
	}
	return n > 0
}

// checkStrip examines RemoveCommentsAndEmptyLines itself.
func checkStrip(r *Rep) {
	fn := r.need("pkg/internal/util", "RemoveCommentsAndEmptyLines")
	if fn == nil {
		return
	}
	e := newEngine(r.p)
	for _, t := range r.traces(e, "strip", fn, nil) {
		switch k := stripKind(t.vals[0], mkParam(fn.Params[0].Type(), fn.Params[0].Name()), mkParam(fn.Params[1].Type(), fn.Params[1].Name())); k {
		case "ok":
			r.Ok("strip", shortFn(fn))
		case "unknown":
			plain := !anyTerm(t.vals[0], func(x *T) bool {
				text := mkParam(fn.Params[1].Type(), fn.Params[1].Name())
				if x.op != "call" || len(x.a) == 0 || x.a[0] != text {
					return false
				}
				return x.s != "strings.Split" || x.a[1] != mkStr("\n")
			})
			if !plain || !stripSpec(r) {
				r.Undecided("strip", shortFn(fn), "cannot relate the result to the lines of the text: %s", short(t.vals[0]))
			}
			return
		default:
			r.Fail("strip", shortFn(fn), r.p.fnPos(fn), "%s", k)
		}
	}
}

// stripSpec compares RemoveCommentsAndEmptyLines with its reference definition, line by line.
func stripSpec(r *Rep) bool {
	p, broken, err := specProg()
	if err != nil || broken["util"] != "" {
		return false
	}
	ts, _ := specTargets(p, "util")
	for _, t := range ts {
		r.compareSpec("strip", p, t, func(c *Cmp, e *Engine) { c.sizes = func(*T) []int { return []int{0, 1, 2, 3} } })
	}
	return len(ts) > 0
}

// foldStr evaluates the functions of strings on constants.
func foldStr(t *T) *T {
	if len(t.a) == 0 {
		return t
	}
	args := make([]*T, len(t.a))
	for i, x := range t.a {
		args[i] = foldStr(x)
	}
	switch t.op {
	case "not":
		return mkNot(args[0])
	case "eq":
		return mkEq(args[0], args[1])
	case "lt":
		return mkLt(args[0], args[1])
	case "len":
		return mkLen(args[0])
	case "call":
		if v := foldCall(t.s, args); v != nil {
			return v
		}
		if v := foldConst(t.s, args); v != nil {
			return v
		}
		return mkT(t.typ, "call", t.s, args...)
	}
	return t
}

// stripKind: v is the concatenation (or newline join) of the lines of text, without the blank and comment lines:
// "ok"; or it is made of the lines in another way (what it does wrong), or cannot be recognised ("unknown").
func stripKind(v, prefix, text *T) string {
	nl := mkStr("\n")
	split := mkT(nil, "call", "strings.Split", text, nl)
	list := v
	needNL := true
	if v.op == "join" && v.a[1] == nl {
		list, needNL = v.a[0], false
	}
	var comp *T
	switch {
	case v == text, v.op == "str":
		return "the result is " + short(v)
	case list.op == "seq" && len(list.a) == 1 && list.a[0].op == "comp":
		comp = list.a[0]
	case list.op == "comp":
		comp = list
	case list.op == "call" && list.s == "strings.TrimSuffix":
		return stripKind(list.a[0], prefix, text)
	default:
		return "unknown"
	}
	if comp.a[0] != split {
		return "unknown"
	}
	trimmed := func(x, el *T) bool {
		for x.op == "call" && strings.HasPrefix(x.s, "strings.Trim") {
			x = x.a[0]
		}
		return x == el
	}
	for _, tr := range comp.a[1:] {
		b := mk("bv", comp.s[2:])
		el := mkElem(split, b, nil)
		c := tr.a[1]
		blank, notBlank, comment, notComment, other := false, false, false, false, false
		for _, g := range tr.a[0].a {
			x, neg := g, false
			if x.op == "not" {
				x, neg = x.a[0], true
			}
			switch {
			case x.op == "eq" && x.a[1] == mkStr("") && trimmed(x.a[0], el):
				if neg {
					notBlank = true
				} else {
					blank = true
				}
			case x.op == "call" && x.s == "strings.HasPrefix" && x.a[1] == prefix && trimmed(x.a[0], el):
				if neg {
					notComment = true
				} else {
					comment = true
				}
			default:
				other = true
			}
		}
		if c == tEmpty || c.op == "str" && c.s == "" {
			if !blank && !comment {
				if other {
					for _, line := range []string{"SELECT 1 -- x", "  x '--' ", "x--", "#x", "/* x */", "x"} {
						all := true
						for _, g := range tr.a[0].a {
							g = subst(subst(g, map[*T]*T{el: mkStr(line)}), map[*T]*T{prefix: mkStr("--")})
							if foldStr(g) != tTrue {
								all = false
							}
						}
						if all {
							return fmt.Sprintf("the line %q is dropped", line)
						}
					}
					return "unknown"
				}
				return fmt.Sprintf("a line that is neither blank nor a comment is dropped, when %s", short(tr.a[0]))
			}
			continue
		}
		var item *T
		if its, ok := onlyItems(c); ok && len(its) == 1 {
			item = its[0]
		} else if ps := concatParts(c); len(ps) == 2 && ps[1] == nl {
			item = ps[0]
		} else if len(ps) == 1 && needNL && ps[0] == el {
			return "the lines are put together without line ends"
		}
		for _, line := range []string{"-- x", "  -- x", "\t-- x;", "", "  "} {
			all := true
			for _, g := range tr.a[0].a {
				g = subst(subst(g, map[*T]*T{el: mkStr(line)}), map[*T]*T{prefix: mkStr("--")})
				all = all && foldStr(g) == tTrue
			}
			if all {
				return fmt.Sprintf("the line %q is kept, and what is made of it is executed as a statement", line)
			}
		}
		switch {
		case item == nil:
			return "unknown"
		case item != el && trimmed(item, el):
			return "the blanks of the lines are dropped"
		case item != el:
			return fmt.Sprintf("%s is kept of a line", short(item))
		case other:
			return "unknown"
		case !notBlank:
			return "blank lines are kept, and what they make up is executed as a statement"
		case !notComment:
			return "comment lines are kept, and what they make up is executed as a statement"
		}
	}
	return "ok"
}

// ---------------------------------------------------------------- P03

var fileWriters = map[string]bool{}

func init() {
	for _, n := range []string{"Create", "CreateTemp", "OpenFile", "WriteFile", "Remove", "RemoveAll", "Rename", "Truncate", "Mkdir", "MkdirAll", "MkdirTemp", "Chmod", "Chown", "Lchown", "Chtimes", "Symlink", "Link", "StartProcess", "CopyFS"} {
		fileWriters["os."+n] = true
	}
	for _, n := range []string{"io/ioutil.WriteFile", "io/ioutil.TempFile", "io/ioutil.TempDir", "(*os.File).Truncate", "(*os.File).Chmod", "(*os.File).Chown", "os/exec.Command", "os/exec.CommandContext", "syscall.Unlink", "syscall.Rename", "syscall.Exec"} {
		fileWriters[n] = true
	}
}

// dbReads are the external functions a database handle may be passed to by the reading commands.
var dbReads = map[string]bool{"QueryContext": true, "QueryRowContext": true, "Query": true, "QueryRow": true, "Close": true, "PingContext": true, "Ping": true, "NewDB": true, "Conn": true,
	"Next": true, "Scan": true, "Err": true, "Columns": true, "ColumnTypes": true, "NextResultSet": true, "StructScan": true, "ScanRows": true, "Stats": true, "OpenContext": true, "Open": true, "SetMaxOpenConns": true, "SetMaxIdleConns": true, "SetConnMaxLifetime": true, "SetConnMaxIdleTime": true}

func isDBHandle(t types.Type) bool {
	switch types.TypeString(t, nil) {
	case "*database/sql.DB", "*database/sql.Conn", "*database/sql.Tx", "*database/sql.Stmt", "database/sql/driver.Conn":
		return true
	}
	if i, ok := t.Underlying().(*types.Interface); ok {
		for k := 0; k < i.NumMethods(); k++ {
			switch i.Method(k).Name() {
			case "QueryContext", "ExecContext", "Query", "Exec", "BeginTx":
				return true
			}
		}
	}
	return false
}

func checkP03(r *Rep) {
	r.Rule("no-exec", "no execution primitive is reachable from the diff, show, generate and version commands")
	r.Rule("handle", "the reading commands hand a database handle only to querying functions")
	r.Rule("query", "every query text is a constant SELECT or SHOW statement (SHOW CREATE TABLE of a reported table name)")
	r.Rule("files", "no command reaches a function that creates, writes, renames or removes files, except generate.Command")
	r.Rule("destination", "generate opens for writing only its second argument, or ddlctl.gen.sql inside it when that is a directory")
	applyCmd := r.need("pkg/ddlctl/apply", "Command")
	var roots []*ssa.Function
	for _, n := range [][2]string{{"pkg/ddlctl/diff", "Command"}, {"pkg/ddlctl/diff", "Diff"}, {"pkg/ddlctl/show", "Command"}, {"pkg/ddlctl/show", "Show"},
		{"pkg/ddlctl/generate", "Command"}, {"pkg/ddlctl/generate", "Generate"}, {"pkg/ddlctl", "DDLCtl"}} {
		if f := r.need(n[0], n[1]); f != nil {
			roots = append(roots, f)
		}
	}
	if m := r.p.fn("cmd/ddlctl", "main"); m != nil {
		roots = append(roots, m)
	}
	seen := r.p.reach(roots, func(_, to *ssa.Function) bool { return to == applyCmd })
	all := r.p.reach(append([]*ssa.Function{applyCmd}, roots...), nil)
	for f := range seen {
		r.Fn(shortFn(f))
	}
	nReached := 0
	var fns []*ssa.Function
	for f := range all {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, f := range fns {
		_, rd := seen[f]
		if rd {
			nReached++
			sites := execSites(f)
			for _, s := range sites {
				r.Fail("no-exec", shortFn(f)+"/"+s.name, r.p.pos(s.in.Pos()), "an execution primitive is reachable from a read-only command: %s", chain(seen, f))
			}
			if len(sites) == 0 {
				r.Ok("no-exec", shortFn(f))
			}
			eachCall(f, func(in ssa.CallInstruction) {
				c := in.Common()
				g := c.StaticCallee()
				if g != nil && isRepoFn(g) {
					return
				}
				if _, ok := c.Value.(*ssa.Builtin); ok {
					return
				}
				if g == nil && !c.IsInvoke() {
					return // a closure or function value of the repository, analysed on its own
				}
				h := false
				for _, a := range c.Args {
					if isDBHandle(a.Type()) {
						h = true
					}
				}
				if c.IsInvoke() && isDBHandle(c.Value.Type()) {
					h = true
				}
				if !h {
					return
				}
				n := lastSeg(ccName(c))
				r.Check(dbReads[n], "handle", shortFn(f)+"/"+n, r.p.pos(in.Pos()), "a database handle is passed to %s, which is not known to only read (%s)", ccName(c), chain(seen, f))
			})
		}
		eachCall(f, func(in ssa.CallInstruction) {
			n := ccName(in.Common())
			if !fileWriters[n] {
				return
			}
			if n == "os.OpenFile" {
				if c, ok := in.Common().Args[1].(*ssa.Const); ok && c.Int64()&0x243 == 0 { // O_WRONLY|O_RDWR|O_CREATE|O_TRUNC
					return
				}
			}
			okf := inPkgs(f, "pkg/ddlctl/generate")
			r.Check(okf && n != "os/exec.Command", "files", shortFn(f)+"/"+n, r.p.pos(in.Pos()), "%s is reachable from a command: %s", n, chain(all, f))
		})
		// file-writing functions used as values
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && fileWriters[fnName(g)] {
						if c, isCall := in.(ssa.CallInstruction); isCall && c.Common().Value == *op {
							continue
						}
						r.Fail("files", shortFn(f)+"/value/"+fnName(g), r.p.pos(in.Pos()), "%s is used as a function value", fnName(g))
					}
				}
			}
		}
	}
	r.Min("handle", 8)
	if nReached < 150 {
		r.Fail("no-exec", "instances", "-", "only %d functions reached from the read-only commands", nReached)
	}
	checkDestination(r)
	checkQueries(r)
}

func checkDestination(r *Rep) {
	fn := r.need("pkg/ddlctl/generate", "Command")
	if fn == nil {
		return
	}
	e := commandEngine(r.p, fnGenerate, "ddlctl/generate.Parse", "ddlctl/generate.Fprint")
	n := 0
	args := mkParam(fn.Params[1].Type(), fn.Params[1].Name())
	dst := mkElem(args, mkInt(1), types.Typ[types.String])
	for _, t := range r.traces(e, "destination", fn, nil) {
		for _, o := range flatten(t.st.events) {
			if !fileWriters[o.ev.name] {
				continue
			}
			p := o.ev.args[0]
			dirKnown, isDir := false, false
			for _, l := range t.st.lits {
				a, v := l, true
				if a.op == "not" {
					a, v = a.a[0], false
				}
				if a.op == "m" && a.s == "IsDir" && anyTerm(a, func(x *T) bool {
					return x.op == "ret" && strings.HasPrefix(x.s, "os.Stat#") || x.op == "ret" && strings.HasPrefix(x.s, "os.Lstat#")
				}) {
					dirKnown, isDir = true, v
				}
				if a.op == "call" && strings.HasSuffix(a.s, "IsDir") && len(a.a) == 1 && a.a[0] == dst {
					dirKnown, isDir = true, v
				}
			}
			n++
			if dirKnown && isDir {
				okp := false
				if p.op == "call" && strings.HasSuffix(p.s, "filepath.Join") {
					its, _ := onlyItems(p.a[0])
					okp = len(its) == 2 && its[0] == dst && its[1] == mkStr("ddlctl.gen.sql")
				}
				r.Check(okp, "destination", "generate.Command/directory", r.p.pos(o.ev.pos), "the destination is a directory and %s is opened for writing", short(p))
			} else {
				r.Check(p == dst, "destination", "generate.Command/file", r.p.pos(o.ev.pos), "%s is opened for writing, not the destination argument", short(p))
			}
			r.Check(o.ev.name == "os.OpenFile" || o.ev.name == "os.Create" || o.ev.name == "os.WriteFile", "destination", "generate.Command/"+o.ev.name, r.p.pos(o.ev.pos), "%s is used on the destination", o.ev.name)
			// what Stat looked at
			for _, o2 := range flatten(t.st.events) {
				if o2.ev.name == "os.Stat" {
					r.Check(o2.ev.args[0] == dst, "destination", "generate.Command/stat", r.p.pos(o2.ev.pos), "the directory test looks at %s", short(o2.ev.args[0]))
				}
			}
		}
	}
	r.Min("destination", 4)
}

// sqlText flattens a query term; parts that are not constant are returned separately.
func sqlText(q *T) (string, []*T) {
	var b strings.Builder
	var vars []*T
	for _, p := range concatParts(q) {
		if p.op == "str" {
			b.WriteString(p.s)
		} else {
			b.WriteString("\x00")
			vars = append(vars, p)
		}
	}
	return b.String(), vars
}

// sqlTokens splits SQL text into tokens, dropping comments; quoted parts become one token.
func sqlTokens(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(s[i:], "--"):
			j := strings.IndexByte(s[i:], '\n')
			if j < 0 {
				return out
			}
			i += j + 1
		case strings.HasPrefix(s[i:], "/*"):
			j := strings.Index(s[i:], "*/")
			if j < 0 {
				return out
			}
			i += j + 2
		case c == '\'' || c == '"' || c == '`':
			j := i + 1
			for j < len(s) && s[j] != c {
				j++
			}
			if j < len(s) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		case c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '@' || c == '$':
			j := i
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] == '_' || s[j] == '@' || s[j] == '$') {
				j++
			}
			out = append(out, s[i:j])
			i = j
		default:
			out = append(out, string(c))
			i++
		}
	}
	return out
}

var sqlModifying = map[string]bool{"INSERT": true, "UPDATE": true, "DELETE": true, "DROP": true, "CREATE": true, "ALTER": true, "TRUNCATE": true, "REPLACE": true, "MERGE": true, "GRANT": true, "REVOKE": true, "CALL": true, "DO": true, "LOCK": true, "INTO": true, "EXECUTE": true, "RENAME": true, "SET": true, "COMMENT": true, "VACUUM": true, "ANALYZE": true, "LOAD": true, "COPY": true, "NEXTVAL": true, "SETVAL": true, "SLEEP": true, "GET_LOCK": true, "UPSERT": true}

func checkQueries(r *Rep) {
	n := 0
	for _, dia := range []string{"mysql", "postgres", "cockroachdb", "spanner"} {
		fn := r.need("pkg/show/"+dia, "ShowCreateAllTables")
		if fn == nil {
			continue
		}
		e := newEngine(r.p)
		seenQ := map[*T]bool{}
		for _, t := range r.traces(e, "query", fn, nil) {
			for _, o := range flatten(t.st.events) {
				if !strings.HasPrefix(lastSeg(o.ev.name), "Query") {
					continue
				}
				var q *T
				for _, a := range o.ev.args {
					if a.op == "str" || a.op == "concat" || a.op == "call" && strings.HasPrefix(a.s, "fmt.Sprint") {
						q = a
						break
					}
				}
				if q == nil {
					r.Fail("query", "show/"+dia+"/unknown", r.p.pos(o.ev.pos), "the query text cannot be determined: %v", o.ev.args)
					continue
				}
				if seenQ[q] {
					continue
				}
				seenQ[q] = true
				n++
				txt, vars := sqlText(q)
				toks := sqlTokens(txt)
				c := "show/" + dia + "/" + r.p.pos(o.ev.pos)[strings.LastIndex(r.p.pos(o.ev.pos), ":")+1:]
				c = "show/" + dia + "/" + strings.Join(firstN(toks, 4), "_")
				first := ""
				if len(toks) > 0 {
					first = strings.ToUpper(toks[0])
				}
				r.Check(first == "SELECT" || first == "SHOW" || first == "WITH", "query", c, r.p.pos(o.ev.pos), "the query starts with %q", first)
				for i, tk := range toks {
					u := strings.ToUpper(tk)
					if u == "CREATE" && i > 0 && strings.ToUpper(toks[i-1]) == "SHOW" {
						continue
					}
					if sqlModifying[u] && !(u == "REPLACE" && i+1 < len(toks) && toks[i+1] == "(") {
						r.Fail("query", c+"/"+u, r.p.pos(o.ev.pos), "the query contains %s", u)
					}
					if tk == ";" && i+1 < len(toks) {
						r.Fail("query", c+"/second", r.p.pos(o.ev.pos), "the query contains a second statement")
					}
				}
				for _, v := range vars {
					_ = v
				}
			}
		}
		r.Check(len(seenQ) > 0, "query", "show/"+dia, r.p.fnPos(fn), "no query found")
	}
	r.Min("query", 10)
}

func firstN(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// ---------------------------------------------------------------- P22

func handleType(t types.Type) bool {
	switch types.TypeString(t, nil) {
	case "*database/sql.DB", "*database/sql.Conn", "*database/sql.Rows", "*database/sql.Stmt", "*database/sql.Tx":
		return true
	}
	return false
}

func handleIndex(sig *types.Signature) int {
	for i := 0; i < sig.Results().Len(); i++ {
		if handleType(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

func checkP22(r *Rep) {
	r.Rule("released", "every handle obtained from an external call (database, connection, rows, statement, transaction) is closed on every path to a return on which obtaining it did not fail")
	r.Rule("use-after-close", "no call receives a handle after it was closed")
	callers := map[*ssa.Function][]*ssa.Function{}
	var acq []*ssa.Function
	nsite := 0
	for _, f := range r.p.fns {
		if testPkg(f) {
			continue
		}
		f := f
		has := false
		eachCall(f, func(in ssa.CallInstruction) {
			c := in.Common()
			if g := c.StaticCallee(); g != nil && isRepoFn(g) {
				callers[g] = append(callers[g], f)
				return
			}
			if handleIndex(c.Signature()) >= 0 {
				has = true
				nsite++
			}
		})
		if has {
			acq = append(acq, f)
		}
	}
	roots := map[*ssa.Function]bool{}
	var addRoot func(f *ssa.Function, depth int)
	addRoot = func(f *ssa.Function, depth int) {
		if depth > 6 {
			r.Fail("released", shortFn(f)+"/depth", r.p.fnPos(f), "handle-returning helpers nested too deeply")
			return
		}
		if handleIndex(f.Signature) >= 0 && len(callers[f]) > 0 {
			for _, c := range callers[f] {
				addRoot(c, depth+1)
			}
			return
		}
		if f.Parent() != nil && len(f.FreeVars) > 0 {
			addRoot(f.Parent(), depth+1)
			return
		}
		// a helper that takes a handle to close it, or one that is only called locally: look at it through its callers
		roots[f] = true
	}
	for _, f := range acq {
		addRoot(f, 0)
	}
	var list []*ssa.Function
	for f := range roots {
		list = append(list, f)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].String() < list[j].String() })
	for _, f := range list {
		e := newEngine(r.p)
		e.opaque = func(g *ssa.Function) bool {
			return inPkgs(g, "pkg/logs", "pkg/show/mysql", "pkg/show/postgres", "pkg/show/cockroachdb", "pkg/show/spanner", "pkg/ddlctl/diff", "pkg/internal/config") && !roots[g] && !acquires(g, acq)
		}
		e.effect = e.opaque
		for _, t := range r.traces(e, "released", f, nil) {
			if t.kind != rRet {
				continue
			}
			relCheck(r, f, t.st, t.st.events, t.vals)
		}
	}
	r.Check(nsite >= 3, "released", "sites", "-", "only %d acquisition sites found, at least 3 were confirmed", nsite)
	r.Min("released", 10)
}

func acquires(g *ssa.Function, acq []*ssa.Function) bool {
	for _, a := range acq {
		if a == g {
			return true
		}
	}
	return false
}

func relCheck(r *Rep, f *ssa.Function, st *State, evs []*Event, vals []*T) {
	for i, ev := range evs {
		if ev.kind == "each" {
			for _, s := range ev.sub {
				if s.kind == rCont {
					st2 := st.clone()
					for _, g := range s.guards {
						st2.assume(g, true)
					}
					relCheck(r, f, st2, s.events, nil)
				}
			}
			continue
		}
		if ev.kind != "call" || ev.ret == nil || ev.ret.typ == nil {
			continue
		}
		var h, errT *T
		switch rt := ev.ret.typ.(type) {
		case *types.Tuple:
			for k := 0; k < rt.Len(); k++ {
				if handleType(rt.At(k).Type()) {
					h = mkExt(ev.ret, k, rt.At(k).Type())
				}
				if isErrorType(rt.At(k).Type()) {
					errT = mkExt(ev.ret, k, errType)
				}
			}
		default:
			if handleType(rt) {
				h = ev.ret
			}
		}
		if h == nil {
			continue
		}
		c := shortFn(f) + "/" + lastSeg(ev.name)
		if errT != nil {
			if v, ok := st.decide(mkIsNil(errT)); ok && !v {
				// failed to obtain: nothing may use it
				continue
			}
		}
		if v, ok := st.decide(mkIsNil(h)); ok && v {
			continue
		}
		returned := false
		for _, v := range vals {
			if v == h {
				returned = true
			}
		}
		closed := -1
		for j := i + 1; j < len(evs); j++ {
			o := evs[j]
			if o.kind != "call" {
				continue
			}
			n := lastSeg(o.name)
			if len(o.args) > 0 && o.args[0] == h && (n == "Close" || n == "Commit" || n == "Rollback") {
				if closed < 0 {
					closed = j
				}
				continue
			}
			if closed >= 0 {
				used := false
				for _, a := range o.args {
					if a == h {
						used = true
					}
				}
				r.Check(!used, "use-after-close", c+"/"+n, r.p.pos(o.pos), "the handle obtained at %s is used after it was closed", r.p.pos(ev.pos))
			}
		}
		if closed >= 0 {
			for j := closed + 1; j < len(evs); j++ {
				if evs[j].kind == "each" {
					for _, o := range flatten([]*Event{evs[j]}) {
						for _, a := range o.ev.args {
							r.Check(a != h, "use-after-close", c+"/"+lastSeg(o.ev.name), r.p.pos(o.ev.pos), "the handle obtained at %s is used after it was closed", r.p.pos(ev.pos))
						}
					}
				}
			}
		}
		r.Check(closed >= 0 || returned, "released", c, r.p.pos(ev.pos), "the handle is not closed on the path: %s", litTexts(st))
	}
}

// ---------------------------------------------------------------- P24

func checkP24(r *Rep) {
	r.Rule("read-locked", "every read of the shared configuration happens while its lock is held")
	r.Rule("write-locked", "every replacement of the shared configuration happens while its lock is held for writing")
	r.Rule("released", "every path out of a function of the package holds no lock")
	r.Rule("no-deadlock", "no path acquires a lock it already holds, or releases one it does not hold in that mode")
	sp := r.p.pkg("pkg/internal/config")
	if sp == nil {
		r.Fail("anchor", "pkg/internal/config", "-", "package pkg/internal/config does not exist")
		return
	}
	shared, frozen := map[string]bool{}, map[string]bool{}
	for _, m := range sp.Members {
		g, ok := m.(*ssa.Global)
		if !ok || strings.HasPrefix(g.Name(), "init$") {
			continue
		}
		et := g.Type().(*types.Pointer).Elem()
		n := typeName(et)
		if strings.HasPrefix(n, "sync.") || strings.HasPrefix(n, "atomic.") || isErrorType(et) {
			continue
		}
		// a variable nothing stores to after initialisation is constant
		if !storedOutsideInit(r.p, g) {
			continue
		}
		shared[globalName(g)] = true
		if pt, ok := et.Underlying().(*types.Pointer); ok && neverChanged(r.p, pt.Elem()) {
			frozen[globalName(g)] = true
		}
	}
	if len(shared) == 0 {
		r.Fail("anchor", "shared", "-", "no shared configuration variable found in pkg/internal/config")
	}
	e := newEngine(r.p)
	e.opaque = func(fn *ssa.Function) bool { return inPkgs(fn, "pkg/logs") }
	e.effect = e.opaque
	e.watch = func(g string) bool { return shared[g] }
	var roots, later []*ssa.Function
	for _, f := range r.p.fns {
		if !inPkgs(f, "pkg/internal/config") {
			continue
		}
		if f.Parent() == nil && f.Object() != nil && f.Object().Exported() && f.Signature.Recv() == nil {
			roots = append(roots, f)
		} else {
			later = append(later, f)
		}
	}
	escaping := map[*ssa.Function]bool{}
	run := func(f *ssa.Function) {
		for _, t := range r.traces(e, "no-deadlock", f, nil) {
			held := map[string]int{} // lock -> readers (>0) or -1 for writing
			lockSim(r, f, t.st.events, held, shared, frozen)
			for l, n := range held {
				if n != 0 && t.kind == rRet {
					r.Fail("released", shortFn(f), r.p.fnPos(f), "the lock %s is still held when the function returns on the path: %s", short1(l), litTexts(t.st))
				}
			}
			if t.kind == rRet {
				r.Ok("released", shortFn(f))
			}
			for _, v := range t.vals {
				anyTerm(v, func(x *T) bool {
					if x.op == "closure" || x.op == "fn" {
						if g := e.funcs[x.s]; g != nil && isRepoFn(g) {
							escaping[g] = true
						}
					}
					return false
				})
			}
			for _, ev := range t.st.events {
				if ev.kind == "go" {
					for _, a := range ev.args {
						if a.op == "closure" || a.op == "fn" {
							if g := e.funcs[a.s]; g != nil {
								escaping[g] = true
							}
						}
					}
				}
			}
		}
	}
	for _, f := range roots {
		run(f)
	}
	done := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range later {
			if done[f] || (e.inl[f] && !escaping[f]) || f.Name() == "init" {
				continue
			}
			done[f] = true
			changed = true
			run(f)
		}
	}
	r.Min("read-locked", 9)
	r.Min("write-locked", 2)
}

func short1(s string) string { return s[strings.LastIndex(s, "/")+1:] }

// throughPointer: the address is inside an object the variable points at, not the variable itself.
func throughPointer(a *T) bool {
	for {
		switch a.op {
		case "gval", "deref":
			return true
		case "faddr", "eaddr", "fld", "elem":
			a = a.a[0]
		default:
			return false
		}
	}
}

// neverChanged: objects of struct type t are written only while the function that allocated them
// builds them, and that function does not publish them itself.
func neverChanged(p *Prog, t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Type().Underlying().(type) {
		case *types.Basic:
		default:
			return false // what the field refers to could change
		}
	}
	for _, f := range p.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && types.Identical(derefType(fa.X.Type()), t) {
					if al, ok := fa.X.(*ssa.Alloc); !ok || published(al) {
						return false
					}
				}
				if types.Identical(derefType(s.Addr.Type()), t) {
					if al, ok := s.Addr.(*ssa.Alloc); !ok || published(al) {
						return false
					}
				}
			}
		}
	}
	return true
}

// published: the allocation is handed to something other than the function's caller.
func published(al *ssa.Alloc) bool {
	for _, u := range *al.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Val == ssa.Value(al) {
				return true
			}
		case *ssa.MakeClosure, *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer:
			return true
		}
	}
	return false
}

func storedOutsideInit(p *Prog, g *ssa.Global) bool {
	for _, f := range p.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					a := st.Addr
					for {
						if fa, ok := a.(*ssa.FieldAddr); ok {
							a = fa.X
							continue
						}
						if ia, ok := a.(*ssa.IndexAddr); ok {
							a = ia.X
							continue
						}
						break
					}
					if a == ssa.Value(g) {
						return true
					}
				}
				if mu, ok := in.(*ssa.MapUpdate); ok {
					if u, ok := mu.Map.(*ssa.UnOp); ok && u.X == ssa.Value(g) {
						return true
					}
				}
			}
		}
	}
	return false
}

func lockSim(r *Rep, f *ssa.Function, evs []*Event, held map[string]int, shared, frozen map[string]bool) {
	anyR := func() bool {
		for _, n := range held {
			if n != 0 {
				return true
			}
		}
		return false
	}
	anyW := func() bool {
		for _, n := range held {
			if n < 0 {
				return true
			}
		}
		return false
	}
	for _, ev := range evs {
		switch ev.kind {
		case "load":
			if throughPointer(ev.args[0]) && frozen[ev.name] {
				// the variable was read before; what it points at never changes once it is shared
				r.Ok("read-locked", shortFn(ev.fn)+"/frozen")
				continue
			}
			r.Check(anyR(), "read-locked", shortFn(ev.fn), r.p.pos(ev.pos), "%s is read without holding its lock (entered from %s)", short1(ev.name), shortFn(f))
		case "store":
			if ev.name != "store" || len(ev.args) == 0 {
				continue
			}
			if g := globalRoot(ev.args[0]); g != "" && shared[g] {
				r.Check(anyW(), "write-locked", shortFn(ev.fn), r.p.pos(ev.pos), "%s is replaced without holding its lock for writing (entered from %s)", short1(g), shortFn(f))
			}
		case "each":
			for _, s := range ev.sub {
				h2 := map[string]int{}
				for k, v := range held {
					h2[k] = v
				}
				lockSim(r, f, s.events, h2, shared, frozen)
				for k := range h2 {
					r.Check(h2[k] == held[k], "released", shortFn(f)+"/loop", "-", "a round of a loop changes what is locked")
				}
			}
		case "call":
			if !strings.HasPrefix(ev.name, "(*sync.") || len(ev.args) == 0 {
				continue
			}
			l := ev.args[0].String()
			switch lastSeg(ev.name) {
			case "Lock":
				r.Check(held[l] == 0, "no-deadlock", shortFn(f)+"/Lock", r.p.pos(ev.pos), "the lock is acquired for writing while it is already held")
				held[l] = -1
			case "RLock":
				r.Check(held[l] == 0, "no-deadlock", shortFn(f)+"/RLock", r.p.pos(ev.pos), "the lock is acquired for reading while it is already held (a waiting writer deadlocks both)")
				held[l]++
			case "Unlock":
				r.Check(held[l] == -1, "no-deadlock", shortFn(f)+"/Unlock", r.p.pos(ev.pos), "the lock is released for writing but not held for writing")
				held[l] = 0
			case "RUnlock":
				r.Check(held[l] > 0, "no-deadlock", shortFn(f)+"/RUnlock", r.p.pos(ev.pos), "the lock is released for reading but not held for reading")
				if held[l] > 0 {
					held[l]--
				}
			case "TryLock", "TryRLock":
				r.Fail("no-deadlock", shortFn(f)+"/Try", r.p.pos(ev.pos), "conditional locking is not understood")
			}
		}
	}
}
