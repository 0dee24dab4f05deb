package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
)

// genPlans: list lengths per collection; a collection that is not named is empty.
type sizePlan struct {
	name  string
	sizes map[string][]int
	fixed []string // conditions on the results of these functions are taken to be false
}

var genPlans = []sizePlan{
	{"header and statements", map[string][]int{"Header": {0, 1, 2}, "Stmts": {0, 1, 2}, "Columns": {0, 1}}, nil},
	{"three statements", map[string][]int{"Stmts": {3}}, nil},
	{"parts of a table", map[string][]int{"Stmts": {1}, "Columns": {0, 1, 2}, "PrimaryKey": {0, 1, 2}, "Constraints": {0, 1, 2}, "Options": {0, 1, 2}}, nil},
	{"three columns", map[string][]int{"Stmts": {1}, "Columns": {3}, "PrimaryKey": {0, 3}, "Constraints": {0, 1}}, nil},
	{"three constraints", map[string][]int{"Stmts": {1}, "Columns": {1}, "Constraints": {3}, "Options": {3}, "PrimaryKey": {0, 1}}, nil},
	{"comments", map[string][]int{"Stmts": {1}, "Columns": {1}, "Comments": {0, 1, 2}}, nil},
	{"comments of constraints", map[string][]int{"Stmts": {1}, "Constraints": {2}, "Comments": {0, 1, 2}}, nil},
	{"comments of options", map[string][]int{"Stmts": {1}, "Options": {2}, "Comments": {0, 1, 2}}, nil},
}

// langPlans: annotation sources, comment lines and fields.
var langPlans = []sizePlan{
	{"sources", map[string][]int{"srcs": {0, 1, 2}, "CommentGroup.List": {1}, "Fields.List": {1}, "Names": {1}, "Split": {1}, "FindStringSubmatch": {0, 5}, "stmtRegex": {5}},
		[]string{"Get", "HasPrefix", "isnil:Tag"}},
	{"three tables", map[string][]int{"srcs": {3}, "CommentGroup.List": {1}, "Fields.List": {1}, "Names": {1}, "Split": {1}, "FindStringSubmatch": {0}, "stmtRegex": {5}},
		[]string{"Get", "HasPrefix", "isnil:Tag"}},
	{"three indexes", map[string][]int{"srcs": {3}, "CommentGroup.List": {1}, "Fields.List": {1}, "Names": {1}, "Split": {1}, "FindStringSubmatch": {5}, "stmtRegex": {5}},
		[]string{"Get", "HasPrefix", "isnil:Tag"}},
	{"lines of a comment", map[string][]int{"srcs": {1}, "CommentGroup.List": {1}, "Fields.List": {1}, "Names": {1}, "Split": {1, 2}, "FindStringSubmatch": {0, 5}, "stmtRegex": {0, 5}},
		[]string{"Get", "isnil:Tag"}},
	{"comments", map[string][]int{"srcs": {1}, "CommentGroup.List": {2, 3}, "Fields.List": {1}, "Names": {1}, "Split": {1}, "FindStringSubmatch": {0, 5}, "stmtRegex": {5}},
		[]string{"Get", "HasPrefix", "isnil:Tag", "isnil:TypeSpec"}},
	{"one field", map[string][]int{"srcs": {1}, "list": {0, 1}, "List": {0, 1, 2}, "CommentGroup.List": {0}, "Fields.List": {1}, "Names": {0, 1, 2}, "Split": {1, 2}, "FindStringSubmatch": {0, 5}, "stmtRegex": {0, 5}}, nil},
	{"two fields", map[string][]int{"srcs": {1}, "list": {2, 3}, "List": {3}, "CommentGroup.List": {0}, "Fields.List": {2}, "Names": {1}, "Split": {1}, "FindStringSubmatch": {0, 5}, "stmtRegex": {5}}, nil},
}

var annotatedPlans = []sizePlan{
	{"nodes", map[string][]int{"groups": {0, 1, 2}, "mval": {1}, "List": {1}, "FindStringSubmatch": {0, 5}}, nil},
	{"groups", map[string][]int{"groups": {1}, "mval": {0, 2}, "List": {1}, "FindStringSubmatch": {0, 5}}, nil},
	{"lines", map[string][]int{"groups": {1}, "mval": {1}, "List": {0, 1, 2, 3}, "FindStringSubmatch": {0, 5}}, nil},
}

func (pl sizePlan) fix(atom *T) (bool, bool) {
	for _, f := range pl.fixed {
		if name := strings.TrimPrefix(f, "isnil:"); name != f {
			if atom.op == "isnil" && stripAs(atom.a[0]).s == name {
				return false, true
			}
			continue
		}
		xs := append([]*T{atom}, atom.a...)
		for _, x := range xs {
			if x.op == "m" && x.s == f || x.op == "call" && strings.HasSuffix(x.s, "."+f) {
				return false, true
			}
		}
	}
	return annotationFacts(atom)
}

// of is the list of lengths tried for a collection: by the field it is in (and the field that is in), by parameter or by function.
func (pl sizePlan) of(coll *T) []int {
	coll = stripAs(coll)
	name := coll.s
	if coll.op == "call" || coll.op == "m" {
		name = name[strings.LastIndex(name, ".")+1:]
	}
	if coll.op == "mval" {
		name = "mval"
	}
	if name == "FindStringSubmatch" && anyTerm(coll.a[0], func(x *T) bool { return strings.Contains(x.s, ".stmtRegex") }) {
		name = "stmtRegex"
	}
	if coll.op == "fld" {
		if up := stripAs(coll.a[0]); up.op == "fld" {
			if s, ok := pl.sizes[up.s+"."+name]; ok {
				return s
			}
		}
	}
	if s, ok := pl.sizes[name]; ok && (coll.op == "fld" || coll.op == "param" || coll.op == "call" || coll.op == "m" || coll.op == "mval") {
		return s
	}
	return []int{0}
}

// annotationFacts: the expressions have more groups than the one they take, and a group that was found, like the name of a type, is not empty.
func annotationFacts(atom *T) (bool, bool) {
	switch atom.op {
	case "lt":
		if b, d := splitAdd(atom.a[0]); b != nil && b.op == "fld" && b.s == "Index" {
			if n, ok := atom.a[1].intVal(); ok {
				return n-d > 0, true
			}
		}
	case "eq":
		for i := range atom.a {
			if y := atom.a[1-i]; atom.a[i] == mkStr("") && (y.op == "elem" && y.a[0].op == "m" && y.a[0].s == "FindStringSubmatch" || y.op == "m" && y.s == "String") {
				return false, true
			}
		}
	}
	return false, false
}

func init() {
	specCheckIn("P19", "generated-text", "the text generated for a list of annotations equals the reference text in every case", genPkgs,
		func(n string) bool { return true },
		func(r *Rep, p *Prog, t specTarget) {
			plans := genPlans
			if t.dialect == "gen" || t.dialect == "langutil" {
				plans = []sizePlan{{"", nil, nil}}
			}
			if t.dialect == "langgo" {
				plans = langPlans
				switch t.name {
				case "statements":
				case "annotated":
					plans = annotatedPlans
				default:
					plans = []sizePlan{{"", nil, nil}}
				}
			}
			for _, pl := range plans {
				r.compareSpec("generated-text", p, t, func(c *Cmp, e *Engine) {
					c.prefer = pl.fix
					c.maxRuns = 200000
					e.noPad = true
					c.tag = pl.name
					c.sizes = func(coll *T) []int {
						if coll.op == "m" && coll.s == "FindStringSubmatch" {
							return []int{0, 5}
						}
						return []int{0, 1, 2, 3}
					}
					if pl.sizes != nil {
						c.sizes = pl.of
					}
					if t.dialect == "langgo" {
						e.hook = langHook(e, t)
					}
				})
			}
		})
}

func init() {
	texts := checks["P19"]
	checks["P19"] = func(r *Rep) {
		texts(r)
		if r.p != nil {
			checkAnnotationForms(r, r.p)
		}
	}
}

// langHook replaces what is outside the function compared (parsing a file, visiting the nodes of a tree) by its parameters.
func langHook(e *Engine, t specTarget) func(*Frame, *State, *CallInfo) ([]CallRes, bool) {
	par := func(name string) *T {
		for _, p := range t.spec.Params {
			if p.Name() == name {
				return mkParam(p.Type(), name)
			}
		}
		return nil
	}
	return func(fr *Frame, st *State, ci *CallInfo) ([]CallRes, bool) {
		switch {
		case ci.name == "go/token.NewFileSet":
			return one(st, par("fset"))
		case ci.name == "go/ast.NewCommentMap" && par("groups") != nil:
			return one(st, par("groups"))
		case ci.name == "go/parser.ParseFile":
			return one(st, mk("tuple", "", par("f"), tNil))
		case strings.HasSuffix(ci.name, ".extractDDLSourceFromDDLTagGo") && par("srcs") != nil:
			return one(st, mk("tuple", "", par("srcs"), tNil))
		case strings.HasSuffix(ci.name, ".parseFile") && par("stmts") != nil:
			return one(st, mk("tuple", "", par("stmts"), par("failure")))
		case strings.HasSuffix(ci.name, ".dumpDDLSource"):
			return one(st, tNil)
		case strings.HasPrefix(ci.name, "sort.") || strings.HasPrefix(ci.name, "slices.Sort"):
			key := e.sortKey(fr, st, ci)
			if key == nil {
				key = mk("opaque", e.fresh(st, "order"))
			}
			st.mem[mk("sortkey", "")] = key
			return one(st, nil)
		case strings.HasSuffix(ci.name, ".verifOrder"):
			if k := st.mem[mk("sortkey", "")]; k != nil {
				return one(st, k)
			}
			return one(st, mkStr("as found"))
		case ci.name == "go/ast.Inspect":
			// two nodes stand for any sequence of nodes; the second is visited if the first asks for it
			var out []CallRes
			for _, r := range e.invoke(fr, st, ci, ci.args[1], par("node1")) {
				more := r.st.clone()
				if !r.panic && more.assume(r.val, true) {
					out = append(out, e.invoke(fr, more, ci, ci.args[1], par("node2"))...)
				}
				if !r.panic && !r.st.assume(r.val, false) {
					continue
				}
				out = append(out, r)
			}
			return out, true
		}
		return nil, false
	}
}

// sortKey names what a comparison function orders by: the two sides of each comparison are the same term of the two
// elements. Fields that are compared later decide where the earlier ones are equal. Nil: not recognised.
func (e *Engine) sortKey(fr *Frame, st *State, ci *CallInfo) *T {
	if len(ci.args) != 2 || !strings.HasSuffix(ci.name, "Slice") && !strings.HasSuffix(ci.name, "SliceStable") {
		return nil
	}
	i, j := mkParam(types.Typ[types.Int], "$i"), mkParam(types.Typ[types.Int], "$j")
	swap := map[*T]*T{i: j, j: i}
	var keys []string
	rs := e.invoke(fr, st.clone(), ci, ci.args[1], i, j)
	type leaf struct {
		eq  []string // what is equal on the path
		key string   // what decides then
	}
	side := func(a, b *T) (string, bool) {
		if subst(a, swap) != b {
			return "", false
		}
		switch {
		case anyTerm(a, func(x *T) bool { return x == j }) && anyTerm(a, func(x *T) bool { return x == i }):
			return "", false
		case anyTerm(a, func(x *T) bool { return x == j }):
			return "-" + keyText(b), true
		}
		return keyText(a), true
	}
	var leaves []leaf
	for _, r := range rs {
		if os.Getenv("DBG") != "" {
			fmt.Println("order:", short(r.val), len(rs), r.panic)
		}
		if r.panic {
			return nil
		}
		var l leaf
		v := r.val
		for _, x := range r.st.lits[len(st.lits):] {
			neg := x.op == "not"
			if neg {
				x = x.a[0]
			}
			if x.op != "eq" {
				return nil
			}
			k, ok := side(x.a[0], x.a[1])
			if !ok {
				return nil
			}
			if !neg {
				l.eq = append(l.eq, strings.TrimPrefix(k, "-"))
			}
		}
		if v.op != "lt" && v.op != "slt" {
			return nil
		}
		k, ok := side(v.a[0], v.a[1])
		if !ok {
			return nil
		}
		l.key = k
		leaves = append(leaves, l)
	}
	sort.Slice(leaves, func(a, b int) bool { return len(leaves[a].eq) < len(leaves[b].eq) })
	for n, l := range leaves {
		if len(l.eq) != n {
			return nil
		}
		for m, q := range l.eq {
			if strings.TrimPrefix(keys[m], "-") != q {
				return nil
			}
		}
		keys = append(keys, l.key)
	}
	return mkStr(strings.Join(keys, ", "))
}

// keyText names a sort key. Texts joined by a separator order like their parts, numbers in them when they are padded.
func keyText(t *T) string {
	if t.op == "concat" {
		out := ""
		for _, x := range t.a {
			if x.op == "str" {
				continue
			}
			if out != "" {
				out += ", "
			}
			out += keyText(x)
		}
		return out
	}
	if t.op == "fmt" {
		if w, err := strconv.Atoi(strings.TrimSuffix(strings.TrimPrefix(t.s, "%0"), "d")); err == nil && w >= 6 && strings.HasPrefix(t.s, "%0") {
			return keyText(t.a[0])
		}
		return "text of " + keyText(t.a[0])
	}
	if (t.op == "m" || t.op == "call") && len(t.a) == 1 {
		return strings.TrimPrefix(t.s[strings.LastIndex(t.s, ".")+1:], "Get")
	}
	if t.op == "fld" {
		return t.s
	}
	return short(t)
}
