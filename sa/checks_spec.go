package main

import (
	"embed"
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

//go:embed spec/*.txt
var specFiles embed.FS

// specPkgs: reference definition file -> package it belongs to.
var specPkgs = map[string]string{
	"postgres":    "pkg/ddl/postgres",
	"cockroachdb": "pkg/ddl/cockroachdb",
	"mysql":       "pkg/ddl/mysql",
	"spanner":     "pkg/ddl/spanner",
}

// genPkgs: generators.
var genPkgs = map[string]string{
	"gen_postgres": "pkg/internal/generator/dialect/postgres",
	"gen_mysql":    "pkg/internal/generator/dialect/mysql",
	"gen_spanner":  "pkg/internal/generator/dialect/spanner",
	"langgo":       "pkg/internal/lang/go",
	"langutil":     "pkg/internal/lang/util",
	"gen":          "pkg/internal/generator",
}

// utilPkgs: helper packages.
var utilPkgs = map[string]string{"util": "pkg/internal/util"}

func specPkgOf(dialect string) string {
	if p, ok := utilPkgs[dialect]; ok {
		return p
	}
	if p, ok := specPkgs[dialect]; ok {
		return p
	}
	if p, ok := showPkgs[dialect]; ok {
		return p
	}
	return genPkgs[dialect]
}

var specProgCache *Prog
var specBroken map[string]string

// specProg loads the program together with the reference definitions. A definition that does not type-check
// against the current source is left out (and reported as undecided by the checks that need it).
func specProg() (*Prog, map[string]string, error) {
	if specProgCache != nil {
		return specProgCache, specBroken, nil
	}
	dir := repoDir()
	specBroken = map[string]string{}
	files := map[string]string{}
	for k, v := range specPkgs {
		files[k] = v
		files[k+"_parse"] = v
		files[k+"_lex"] = v
	}
	for k, v := range genPkgs {
		files[k] = v
	}
	for k, v := range showPkgs {
		files[k] = v
	}
	for k, v := range utilPkgs {
		files[k] = v
	}
	files["models"] = "pkg/internal/consts"
	for try := 0; ; try++ {
		ov := map[string][]byte{}
		for k, v := range files {
			b, err := specFiles.ReadFile("spec/" + k + ".go.txt")
			if err != nil {
				return nil, nil, err
			}
			ov[filepath.Join(dir, v, "zz_verif_spec_"+k+".go")] = b
		}
		p, err := loadProgOverlay(dir, ov)
		if err == nil {
			specProgCache = p
			return p, specBroken, nil
		}
		hit := false
		for _, whole := range []bool{false, true} {
			for _, k := range sortedKeys(files) {
				v := files[k]
				if !hit && (strings.Contains(err.Error(), "zz_verif_spec_"+k+".go") || whole && strings.Contains(err.Error(), "package "+modPath+"/"+v+" ")) {
					specBroken[k] = err.Error()
					delete(files, k)
					hit = true
				}
			}
		}
		if !hit || try > 10 {
			return nil, nil, err
		}
	}
}

// specTarget is one reference definition with the code it is compared to.
type specTarget struct {
	dialect, name string
	code, spec    *ssa.Function
}

func specTargets(p *Prog, dialect string) (out []specTarget, missing []string) {
	pkg := specPkgOf(dialect)
	sp := p.pkg(pkg)
	if sp == nil {
		return nil, []string{"package " + pkg}
	}
	var names []string
	for n := range sp.Members {
		if strings.HasPrefix(n, "verifSpec_") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		base := strings.TrimPrefix(n, "verifSpec_")
		spec := sp.Func(n)
		code := sp.Func("verifCode_" + base)
		if code == nil {
			if i := strings.LastIndex(base, "_"); i >= 0 {
				code = p.fn(pkg, base[:i]+"."+base[i+1:])
			} else {
				code = p.fn(pkg, base)
			}
		}
		if code == nil {
			missing = append(missing, base)
			continue
		}
		out = append(out, specTarget{dialect, base, code, spec})
	}
	return out, missing
}

// compareSpec summarises both sides on the same symbolic arguments and compares them.
func (r *Rep) compareSpec(rule string, p *Prog, t specTarget, setup func(*Cmp, *Engine)) {
	name := t.dialect + "." + strings.ReplaceAll(t.name, "_", ".")
	e := newEngine(p)
	c := newCmp(e)
	if setup != nil {
		setup(c, e)
	}
	if c.tag != "" {
		name += "/" + c.tag
	}
	args := e.params(t.spec)
	for i := range args {
		// both sides see the same symbolic arguments, named after the specification's parameters
		args[i] = mkParam(t.spec.Params[i].Type(), t.spec.Params[i].Name())
	}
	if c.codeFirst {
		// terms keep the type they were first seen with: that of the program
		_, _ = summarise(e, t.code, args)
	}
	spec, err := summarise(e, t.spec, args)
	if err != nil {
		r.Fail(rule, name, p.fnPos(t.code), "the reference definition cannot be summarised: %v", err)
		return
	}
	code, err := summarise(e, t.code, args)
	if err != nil {
		r.Undecided(rule, name, "%v", err)
		return
	}
	c.Equal(code, spec)
	r.Fn(shortFn(t.code))
	r.useEngine(e)
	pos := p.fnPos(t.code)
	if strings.Contains(t.code.Name(), "verifCode_") {
		base := strings.TrimPrefix(t.code.Name(), "verifCode_")
		f := p.fn(specPkgOf(t.dialect), base)
		if f == nil {
			// the first function of the program the wrapper calls
			eachCall(t.code, func(c ssa.CallInstruction) {
				if g := c.Common().StaticCallee(); f == nil && g != nil && len(g.Blocks) > 0 && !strings.Contains(g.Name(), "verif") {
					f = g
				}
			})
		}
		if f != nil {
			pos = p.fnPos(f)
		}
	}
	if len(c.diffs) > 0 {
		d := c.diffs[0]
		r.Fail(rule, name, pos, "%s: %s (when %s; %d cases compared)", name, d.what, strings.Join(d.cond, ", "), c.leaves)
		return
	}
	if len(c.undec) > 0 {
		r.Undecided(rule, name, "%s", strings.Join(sortedKeys(c.undec), "; "))
		return
	}
	if c.leaves == 0 {
		r.Undecided(rule, name, "no case of the specification is covered")
		return
	}
	r.cases += c.leaves
	r.Ok(rule, fmt.Sprintf("%s (%d code traces, %d specification traces, %d cases)", name, len(code.traces), len(spec.traces), c.leaves))
}

func specCheck(id, rule, what string, want func(name string) bool, run func(r *Rep, p *Prog, t specTarget)) {
	specCheckIn(id, rule, what, specPkgs, want, run)
}

func specCheckIn(id, rule, what string, pkgs map[string]string, want func(name string) bool, run func(r *Rep, p *Prog, t specTarget)) {
	checks[id] = func(r *Rep) {
		r.Rule(rule, what)
		p, broken, err := specProg()
		if err != nil {
			r.Fail("load", "program", "-", "the program cannot be analysed: %v", err)
			return
		}
		r.p = p
		for _, d := range sortedKeys(pkgs) {
			if why, ok := broken[d]; ok {
				r.Undecided(rule, d, "reference definitions do not fit the current source: %s", why)
				continue
			}
			ts, missing := specTargets(p, d)
			for _, m := range missing {
				if want(m) {
					r.Undecided(rule, d+"."+m, "no such function")
				}
			}
			for _, t := range ts {
				if want(t.name) {
					run(r, p, t)
				}
			}
		}
	}
}

func isAlterOrDrop(n string) bool {
	return n == "AlterTableStmt_String" || n == "DropTableStmt_String" || n == "DropIndexStmt_String"
}

func init() {
	plain := func(rule string) func(*Rep, *Prog, specTarget) {
		return func(r *Rep, p *Prog, t specTarget) {
			r.compareSpec(rule, p, t, func(c *Cmp, e *Engine) { c.sizes = func(*T) []int { return []int{0, 1, 2, 3} } })
		}
	}
	specCheck("P09", "rendering", "the printed text of each definition equals the reference text in every case", func(n string) bool {
		return strings.HasSuffix(n, "_String") && !isAlterOrDrop(n) && !isRecorder(n)
	}, plain("rendering"))
	specCheck("P10", "rendering", "the printed text of each ALTER and DROP statement equals the reference text in every case", isAlterOrDrop, plain("rendering"))
	specCheck("P11", "comparison-key", "the comparison key of each definition equals the reference key in every case", func(n string) bool {
		return strings.HasSuffix(n, "_StringForDiff") || strings.HasSuffix(n, "_GetNameForDiff")
	}, plain("comparison-key"))
	specCheck("P06", "schema-diff", "the statements derived for two schemas equal the reference statements in every case", func(n string) bool { return n == "Diff" },
		func(r *Rep, p *Prog, t specTarget) {
			r.compareSpec("schema-diff", p, t, func(c *Cmp, e *Engine) {
				c.skipFld["Comment"] = true
				e.opaque = func(f *ssa.Function) bool { return f.Name() == "DiffCreateTable" }
			})
		})
	specCheck("P07", "table-diff", "the statements derived for the columns and the name of two tables equal the reference statements in every case", isTableDiff, tableDiff("P07"))
	specCheck("P08", "table-diff", "the statements derived for the constraints and options of two tables equal the reference statements in every case", isTableDiff, tableDiff("P08"))
}

func isTableDiff(n string) bool { return n == "DiffCreateTable" }

// columnActions change a column or the table's name; everything else changes constraints, indexes or options.
func isColumnStmt(x *T) bool {
	x = stripAs(x)
	if x.op != "obj" || !strings.HasSuffix(x.s, ".AlterTableStmt") {
		return false
	}
	a := stripAs(mkFld(x, "Action", nil))
	n := typeName(a.typ)
	n = n[strings.LastIndex(n, ".")+1:]
	return strings.Contains(n, "Column") || n == "RenameTable"
}

// columnAttrs are the attributes of a column the comparison of two tables looks at.
var columnAttrs = map[string]bool{"DataType": true, "NotNull": true, "Default": true, "Options": true, "CharacterSet": true, "Collate": true,
	"AutoIncrement": true, "OnAction": true, "Comment": true, "As": true, "NotVisible": true}

// attrOf names the column attribute a condition is about.
func attrOf(atom *T) string {
	name := ""
	anyTerm(atom, func(x *T) bool {
		if x.op == "fld" && columnAttrs[x.s] {
			b := stripAs(x.a[0])
			if b.op == "elem" && b.a[0].op == "fld" && b.a[0].s == "Columns" {
				name = x.s
				return true
			}
		}
		return false
	})
	return name
}

// plan: list lengths per collection name, and the column attributes that vary (nil: all). Single columns are varied in
// every attribute, pairs of columns in a few attributes at a time; columns and constraints first alone, then together.
func tableDiff(prop string) func(*Rep, *Prog, specTarget) {
	type plan struct {
		name  string
		sizes map[string][]int
		free  []string
	}
	all := []string{"Columns", "Constraints", "Options"}
	full, some, none := []int{0, 1, 2}, []int{0, 1}, []int{0}
	var plans []plan
	if prop == "P07" {
		plans = []plan{
			{"one column", map[string][]int{"Columns": some}, nil},
			{"two columns, type and NOT NULL", map[string][]int{"Columns": full}, []string{"DataType", "NotNull"}},
			{"two columns, default", map[string][]int{"Columns": full}, []string{"Default"}},
			{"two columns, other attributes", map[string][]int{"Columns": full}, []string{"Options", "Collate", "AutoIncrement", "As", "NotVisible"}},
			{"two columns, comments and actions", map[string][]int{"Columns": full}, []string{"CharacterSet", "OnAction", "Comment"}},
		}
	} else {
		plans = []plan{{"constraints", map[string][]int{"Constraints": full}, nil}, {"options", map[string][]int{"Options": full}, nil},
			{"order", map[string][]int{"Columns": some, "Constraints": some, "Options": some}, []string{"DataType"}}}
	}
	_ = all
	return func(r *Rep, p *Prog, t specTarget) {
		for _, pl := range plans {
			pl := pl
			r.compareSpec("table-diff", p, t, func(c *Cmp, e *Engine) {
				c.skipFld["Comment"] = true
				c.tag = pl.name
				// names are distinct within a list, so appending never replaces
				e.opaque = func(f *ssa.Function) bool { return f.Name() == "Append" && f.Signature.Recv() != nil }
				c.sizes = func(coll *T) []int {
					if coll.op == "fld" {
						if s, ok := pl.sizes[coll.s]; ok {
							return s
						}
						for _, n := range all {
							if coll.s == n {
								return none
							}
						}
					}
					return full
				}
				if pl.free != nil {
					free := map[string]bool{}
					for _, f := range pl.free {
						free[f] = true
					}
					c.prefer = func(atom *T) (bool, bool) {
						a := attrOf(atom)
						if a == "" || free[a] {
							return false, false
						}
						return atom.op == "eq" || atom.op == "isnil", true
					}
				}
				if prop == "P08" {
					c.filter = func(c *Cmp, code, spec []*T) ([]*T, []*T) { return c.constraintView(code), c.constraintView(spec) }
				} else {
					c.filter = func(c *Cmp, code, spec []*T) ([]*T, []*T) { return c.columnView(code), c.columnView(spec) }
				}
			})
		}
	}
}

func (c *Cmp) stmtsOf(vals []*T) ([]*T, bool) {
	v := stripAs(c.norm(vals[0]))
	if v.op != "obj" {
		return nil, false
	}
	return c.items(c.norm(mkFld(v, "Stmts", nil))), true
}

// constraintView: the statements about constraints, indexes and options, each with its place relative to the column changes.
func (c *Cmp) constraintView(vals []*T) []*T {
	sts, ok := c.stmtsOf(vals)
	if !ok {
		return vals
	}
	total := 0
	for _, s := range sts {
		if isColumnStmt(s) {
			total++
		}
	}
	var out []*T
	n := 0
	for _, s := range sts {
		if isColumnStmt(s) {
			n++
			continue
		}
		place := "with no column change"
		switch {
		case total == 0:
		case n == 0:
			place = "before the column changes"
		case n == total:
			place = "after the column changes"
		default:
			place = "between column changes"
		}
		out = append(out, mkItem(s), mkItem(mkStr(place)))
	}
	return []*T{mkSeq(out...)}
}

// columnView: the statements about columns and the name.
func (c *Cmp) columnView(vals []*T) []*T {
	sts, ok := c.stmtsOf(vals)
	if !ok {
		return vals
	}
	var out []*T
	for _, s := range sts {
		out = append(out, mkItem(s))
	}
	return append([]*T{mkSeq(out...)}, vals[1:]...)
}
