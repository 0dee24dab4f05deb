package main

import (
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P21: what is shown of a database, compared with a reference text over the rows of the catalogue queries.

// showPkgs: reference definition file -> package it belongs to.
var showPkgs = map[string]string{
	"show_postgres":    "pkg/show/postgres",
	"show_cockroachdb": "pkg/show/cockroachdb",
	"show_mysql":       "pkg/show/mysql",
	"show_spanner":     "pkg/show/spanner",
}

// fieldKey names a field of a struct: a field that holds a column of a query is named after the column.
func fieldKey(st *types.Struct, i int) string {
	if tag := st.Tag(i); strings.Contains(tag, `db:"`) {
		if db := strings.Split(reflect.StructTag(tag).Get("db"), ",")[0]; db != "" && db != "-" {
			return "db:" + db
		}
	}
	return st.Field(i).Name()
}

// queryTokens splits the constant and symbolic pieces of a query into tokens: comments and layout are dropped, words
// outside quotes are put in capitals.
func queryTokens(q *T) []*T {
	parts := []*T{q}
	if q.op == "concat" {
		parts = q.a
	}
	var out []*T
	word := func(s string) {
		if s != "" {
			out = append(out, mkStr(s))
		}
	}
	cur, quote := "", byte(0)
	space := func(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }
	for _, p := range parts {
		if p.op != "str" {
			if quote != 0 {
				word(cur)
				cur = ""
			} else {
				word(strings.ToUpper(cur))
				cur = ""
			}
			out = append(out, p)
			continue
		}
		s := p.s
		for i := 0; i < len(s); i++ {
			c := s[i]
			switch {
			case quote != 0:
				cur += string(c)
				if c == quote {
					word(cur)
					cur, quote = "", 0
				}
			case c == '\'' || c == '"' || c == '`':
				word(strings.ToUpper(cur))
				cur, quote = string(c), c
			case c == '-' && i+1 < len(s) && s[i+1] == '-':
				word(strings.ToUpper(cur))
				cur = ""
				for i < len(s) && s[i] != '\n' {
					i++
				}
			case space(c):
				word(strings.ToUpper(cur))
				cur = ""
			case c == '_' || c == '$' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80:
				cur += string(c)
			default:
				word(strings.ToUpper(cur))
				cur = ""
				word(string(c))
			}
		}
	}
	word(strings.ToUpper(cur))
	for len(out) > 0 && out[len(out)-1] == mkStr(";") {
		out = out[:len(out)-1]
	}
	return out
}

// queryTerm is a query without its layout.
func queryTerm(q *T) *T {
	var parts []*T
	sym := false
	for i, t := range queryTokens(q) {
		if i > 0 && !(t.op != "str" || sym) {
			parts = append(parts, mkStr(" "))
		}
		sym = t.op != "str"
		parts = append(parts, t)
	}
	return mkConcat(parts...)
}

// resultColumns names the columns of the result of a query. Nil: not known.
func resultColumns(q *T) []string {
	toks := queryTokens(q)
	txt := func(i int) string {
		if i < len(toks) && toks[i].op == "str" {
			return toks[i].s
		}
		return ""
	}
	switch {
	case txt(0) == "SHOW" && txt(1) == "CREATE" && txt(2) == "TABLE":
		return []string{"Table", "Create Table"}
	case txt(0) == "SHOW" && txt(1) == "CREATE" && txt(2) == "ALL" && txt(3) == "TABLES":
		return []string{"create_statement"}
	case txt(0) != "SELECT":
		return nil
	}
	i := 1
	if txt(i) == "DISTINCT" {
		i++
	}
	var out []string
	depth, last := 0, ""
	for ; i < len(toks); i++ {
		t := txt(i)
		switch {
		case t == "(":
			depth++
		case t == ")":
			depth--
		case depth == 0 && t == ",":
			out = append(out, last)
		case depth == 0 && t == "*":
			return nil
		case depth == 0 && t == "FROM":
			return append(out, last)
		}
		last = t
	}
	return nil
}

// columnFields lists the columns a struct has a place for.
func columnFields(t types.Type) []string {
	for {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			t = u.Elem()
			continue
		case *types.Slice:
			t = u.Elem()
			continue
		case *types.Struct:
			var out []string
			for i := 0; i < u.NumFields(); i++ {
				if k := fieldKey(u, i); strings.HasPrefix(k, "db:") {
					out = append(out, strings.TrimPrefix(k, "db:"))
				}
			}
			return out
		}
		return nil
	}
}

type showQuery struct {
	query *T
	cols  []string
	dst   types.Type
	code  bool
	where string
}

func init() {
	specCheckIn("P21", "shown-text", "the text shown for the rows of the catalogue queries equals the reference text in every case", showPkgs,
		func(string) bool { return true },
		func(r *Rep, p *Prog, t specTarget) {
			var queries []showQuery
			for _, pl := range showPlans(t.dialect) {
				r.compareSpec("shown-text", p, t, func(c *Cmp, e *Engine) {
					c.maxRuns = 200000
					c.tag, c.codeFirst = pl.name, true
					c.sizes = pl.ofRows
					e.hook = showHook(e, t, &queries)
					e.inline = func(fn *ssa.Function, _ []*T) bool { return strings.Contains(fn.String(), "/pkg/show/") }
				})
			}
			checkColumns(r, t, queries)
		})
}

// showPlans: numbers of rows per query, by the table the rows come from.
func showPlans(dialect string) []sizePlan {
	if dialect != "show_spanner" {
		return []sizePlan{{"", nil, nil}}
	}
	return []sizePlan{
		{"tables", map[string][]int{"TABLES": {0, 1, 2, 3}, "COLUMNS": {0, 1}}, nil},
		{"columns", map[string][]int{"TABLES": {1}, "COLUMNS": {0, 1, 2, 3}, "COLUMN_OPTIONS": {0, 1}}, nil},
		{"column options", map[string][]int{"TABLES": {1}, "COLUMNS": {1, 2}, "COLUMN_OPTIONS": {0, 1, 2}}, nil},
		{"three column options", map[string][]int{"TABLES": {1}, "COLUMNS": {1}, "COLUMN_OPTIONS": {3}}, nil},
		{"keys", map[string][]int{"TABLES": {1}, "COLUMNS": {1}, "primary key": {0, 1, 2, 3}, "policy": {0, 1, 2}}, nil},
		{"indexes", map[string][]int{"TABLES": {1}, "COLUMNS": {1}, "INDEXES": {0, 1, 2}, "INDEX_COLUMNS": {0, 1, 2}}, nil},
		{"three index columns", map[string][]int{"TABLES": {1}, "COLUMNS": {1}, "INDEXES": {1}, "INDEX_COLUMNS": {3}}, nil},
		{"tables with parts", map[string][]int{"TABLES": {2}, "COLUMNS": {1}, "primary key": {0, 1}, "INDEXES": {0, 1}, "INDEX_COLUMNS": {1}}, nil},
	}
}

func (pl sizePlan) ofRows(coll *T) []int {
	coll = stripAs(coll)
	if pl.sizes == nil {
		return []int{0, 1, 2, 3}
	}
	if coll.op != "m" || coll.s != "rows" {
		return []int{0, 1, 2}
	}
	q := coll.a[0].String()
	name := ""
	switch {
	case strings.Contains(q, "ROW_DELETION_POLICY"):
		name = "policy"
	case strings.Contains(q, "INDEX_COLUMNS") && strings.Contains(q, "= \\\"PRIMARY_KEY") && !strings.Contains(q, "! = \\\"PRIMARY_KEY"):
		name = "primary key"
	case strings.Contains(q, "INDEX_COLUMNS"):
		name = "INDEX_COLUMNS"
	case strings.Contains(q, ". INDEXES"):
		name = "INDEXES"
	case strings.Contains(q, ". COLUMN_OPTIONS"):
		name = "COLUMN_OPTIONS"
	case strings.Contains(q, ". COLUMNS"):
		name = "COLUMNS"
	case strings.Contains(q, ". TABLES"):
		name = "TABLES"
	}
	if s, ok := pl.sizes[name]; ok {
		return s
	}
	return []int{0}
}

// showHook gives the rows of a query a name that consists of its text and arguments.
func showHook(e *Engine, t specTarget, queries *[]showQuery) func(*Frame, *State, *CallInfo) ([]CallRes, bool) {
	return func(fr *Frame, st *State, ci *CallInfo) ([]CallRes, bool) {
		switch {
		case strings.HasSuffix(ci.name, "sqlz.NewDB") || strings.HasSuffix(ci.name, "database/sql.NewDB"):
			if its, ok := onlyItems(ci.args[len(ci.args)-1]); ok && len(its) > 0 {
				return nil, false
			}
			return one(st, mkT(resultType(ci.sig), "param", "queryer of "+short(ci.args[0])))
		case (ci.method == "QueryContext" || ci.method == "QueryRowContext") && len(ci.args) == 5 && strings.HasPrefix(ci.args[0].s, "queryer of "):
			dst := stripAs(ci.args[2])
			et := derefType(dst.typ)
			its, ok := onlyItems(ci.args[4])
			if stripAs(ci.args[4]).op == "nil" {
				ok = true
			}
			if et == nil || !ok {
				return nil, false
			}
			q := queryTerm(ci.args[3])
			*queries = append(*queries, showQuery{q, resultColumns(ci.args[3]), et, !e.running(t.spec), ""})
			args := []*T{q}
			for _, x := range its {
				args = append(args, stripAs(x))
			}
			if _, isSlice := et.Underlying().(*types.Slice); isSlice {
				rows := mkT(et, "m", "rows", args...)
				old := e.loadVal(st, dst, et)
				if old.op == "nil" || old.op == "seq" && len(old.a) == 0 || old.op == "typednil" {
					st.store(dst, rows)
				} else {
					st.store(dst, mkAppend(old, rows))
				}
			} else {
				st.store(dst, mkT(et, "m", "row", args...))
			}
			return one(st, mkT(resultType(ci.sig), "m", "failure", args...))
		case ci.name == "fmt.Sprintf" || ci.name == "fmt.Sprint":
			return sprintInlined(e, fr, st, ci)
		}
		return nil, false
	}
}

// sprintInlined prints arguments that have a String method of the package by what the method returns.
func sprintInlined(e *Engine, fr *Frame, st *State, ci *CallInfo) ([]CallRes, bool) {
	k := len(ci.args) - 1
	its, ok := onlyItems(ci.args[k])
	if !ok {
		return nil, false
	}
	for i, x := range its {
		y := stripAs(x)
		t := e.dynType(st, x)
		if t == nil {
			t = y.typ
		}
		if t == nil || isStringT(y) || !hasMethod(t, "String") {
			continue
		}
		f := e.methodOf(t, "String", nil)
		if f == nil || !isRepoFn(f) || len(f.Blocks) == 0 {
			continue
		}
		var out []CallRes
		for _, r := range e.invoke(fr, st, ci, e.fnTerm(f), y) {
			if r.panic {
				out = append(out, r)
				continue
			}
			var parts []*T
			for j, z := range its {
				if j == i {
					z = r.val
				}
				parts = append(parts, mkItem(z))
			}
			c2 := *ci
			c2.args = append(append([]*T{}, ci.args[:k]...), mkSeq(parts...))
			if rs, ok := sprintInlined(e, fr, r.st, &c2); ok {
				out = append(out, rs...)
			} else if rs, ok := e.model(fr, r.st, &c2); ok {
				out = append(out, rs...)
			} else {
				return nil, false
			}
		}
		return out, true
	}
	return nil, false
}

// checkColumns: every column of a result has a place in the rows it is read into, and every place a column.
func checkColumns(r *Rep, t specTarget, queries []showQuery) {
	r.Rule("columns-read", "every column a query returns has a field in the rows it is read into, and every such field a column")
	seen := map[string]bool{}
	for _, q := range queries {
		if !q.code {
			continue
		}
		id := strconv.Itoa(q.query.id) + typeName(q.dst)
		if seen[id] {
			continue
		}
		seen[id] = true
		name := t.dialect + ": " + short(q.query)
		if q.cols == nil {
			r.Undecided("columns-read", name, "the columns of the result are not known")
			continue
		}
		have, want := append([]string{}, columnFields(q.dst)...), append([]string{}, q.cols...)
		sort.Strings(have)
		sort.Strings(want)
		norm := func(xs []string) string { return strings.ToUpper(strings.Join(xs, ", ")) }
		if norm(have) != norm(want) {
			r.Fail("columns-read", name, "-", "the query returns %s, but is read into fields for %s", strings.Join(want, ", "), strings.Join(have, ", "))
			continue
		}
		r.Ok("columns-read", name)
	}
}

// running: the function is being analysed.
func (e *Engine) running(fn *ssa.Function) bool {
	for _, f := range e.stack {
		if f == fn {
			return true
		}
	}
	return false
}

// queryName abbreviates a query in messages.
func queryName(q string) string {
	if i := strings.Index(q, " FROM "); i >= 0 {
		q = q[i+6:]
	}
	q = strings.Trim(q, "\"‹›")
	if len(q) > 60 {
		q = q[:60] + "…"
	}
	return "‹" + q + "›"
}
