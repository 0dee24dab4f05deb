package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// occ is one event of a trace together with the loop summaries it is nested in.
type occ struct {
	ev   *Event
	each []*Event
	sub  []*LoopTrace
	top  int // index of the top-level event
}

// flatten lists the events of a trace in order, entering loop summaries (every path of a loop body).
func flatten(evs []*Event) []occ {
	var out []occ
	var rec func(evs []*Event, each []*Event, sub []*LoopTrace, top int)
	rec = func(evs []*Event, each []*Event, sub []*LoopTrace, top int) {
		for i, ev := range evs {
			t := top
			if t < 0 {
				t = i
			}
			if ev.kind == "each" {
				for _, s := range ev.sub {
					rec(s.events, append(append([]*Event{}, each...), ev), append(append([]*LoopTrace{}, sub...), s), t)
				}
				continue
			}
			out = append(out, occ{ev, each, sub, t})
		}
	}
	rec(evs, nil, nil, -1)
	return out
}

func lastSeg(name string) string {
	name = strings.TrimPrefix(name, "m:")
	if i := strings.LastIndexAny(name, "."); i >= 0 {
		return name[i+1:]
	}
	return name
}

var execNames = map[string]bool{"Exec": true, "ExecContext": true, "MustExec": true, "NamedExec": true, "Prepare": true, "PrepareContext": true,
	"Begin": true, "BeginTx": true, "Raw": true, "NamedExecContext": true, "Preparex": true, "BeginTxContext": true, "RunTx": true, "ExecRaw": true, "BatchUpdate": true}

func isExecEvent(ev *Event) bool {
	return ev.kind == "call" && execNames[lastSeg(ev.name)] && (strings.Contains(ev.name, "sql") || strings.HasPrefix(ev.name, "m:"))
}

// execQuery is the statement text handed to an execution primitive.
func execQuery(ev *Event) *T {
	for _, a := range ev.args[1:] {
		if isStringT(a) || a.op == "bytes" {
			return a
		}
		if a.op == "elem" || a.op == "fld" {
			if a.typ != nil {
				if b, ok := a.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
					return a
				}
			}
		}
	}
	// untyped element terms: the argument after the context
	i := 1
	if strings.HasSuffix(ev.name, "Context") {
		i = 2
	}
	if i < len(ev.args) {
		return ev.args[i]
	}
	return nil
}

func concatParts(t *T) []*T {
	if t.op == "concat" {
		return t.a
	}
	if t.op == "bytes" || t.op == "tostr" {
		return concatParts(t.a[0])
	}
	return []*T{t}
}

func isStdout(t *T) bool { return t.op == "gval" && t.s == "os.Stdout" }

// stdoutText gives the parts of the text an event writes to standard output (nil when it writes none).
func stdoutText(ev *Event) []*T {
	if ev.kind != "call" {
		return nil
	}
	var args []*T
	switch ev.name {
	case "(*os.File).WriteString", "(*os.File).Write", "io.WriteString":
		if len(ev.args) < 2 || !isStdout(ev.args[0]) {
			return nil
		}
		args = ev.args[1:]
	case "fmt.Fprint", "fmt.Fprintln":
		if !isStdout(ev.args[0]) {
			return nil
		}
		args = ev.args[1:]
	case "fmt.Fprintf":
		if !isStdout(ev.args[0]) {
			return nil
		}
		args = ev.args[2:]
	case "fmt.Print", "fmt.Println":
		args = ev.args
	case "fmt.Printf":
		args = ev.args[1:]
	default:
		return nil
	}
	out := []*T{}
	for _, a := range args {
		if its, ok := onlyItems(a); ok {
			for _, x := range its {
				out = append(out, concatParts(x)...)
			}
			continue
		}
		out = append(out, concatParts(a)...)
	}
	return out
}

func hasTerm(ts []*T, x *T) bool {
	for _, t := range ts {
		if t == x {
			return true
		}
	}
	return false
}

// wraps says whether the error term certainly carries the sentinel in its Unwrap chain.
func wraps(st *State, err *T, sentinel string) bool {
	if err.op == "sentinel" {
		return err.s == sentinel
	}
	t := errIs(st, err, mkT(errType, "sentinel", sentinel))
	if t == tTrue {
		return true
	}
	v, ok := st.decide(t)
	return ok && v
}

// certainlyError says whether an error result is known to be non-nil at the end of a trace.
func certainlyError(st *State, err *T) bool {
	n := mkIsNil(err)
	if n == tFalse {
		return true
	}
	v, ok := st.decide(n)
	return ok && !v
}

func certainlyNil(st *State, err *T) bool {
	n := mkIsNil(err)
	if n == tTrue {
		return true
	}
	v, ok := st.decide(n)
	return ok && v
}

func litTexts(st *State) string {
	var b []string
	for _, l := range st.lits {
		s := l.String()
		if len(s) > 140 {
			s = s[:140] + "…"
		}
		b = append(b, s)
	}
	if len(b) > 8 {
		b = append(b[:8], "…")
	}
	return strings.Join(b, " & ")
}

// traces runs the engine and reports a failure to decide as a violation.
func (r *Rep) traces(e *Engine, rule string, fn *ssa.Function, st *State) []Result {
	if fn == nil {
		return nil
	}
	if st == nil {
		st = newState()
	}
	res, err := e.Analyse(fn, st, e.params(fn))
	if err != nil {
		r.Undecided(rule, shortFn(fn), "%v", err)
		return nil
	}
	r.useEngine(e)
	return res
}

// need finds a function that the property is anchored in.
func (r *Rep) need(pkg, name string) *ssa.Function {
	fn := r.p.fn(pkg, name)
	if fn == nil || len(fn.Blocks) == 0 {
		r.Fail("anchor", pkg+"."+name, "-", "function %s.%s, in which this property is anchored, does not exist", pkg, name)
		return nil
	}
	return fn
}

func inPkgs(fn *ssa.Function, suffixes ...string) bool {
	p := pkgOf(fn)
	if p == nil {
		return false
	}
	for _, s := range suffixes {
		if p.Path() == modPath+"/"+s {
			return true
		}
	}
	return false
}

// refs lists the repository functions a function may call or hand out: static callees, function values,
// closures, and for interface calls every repository method of that name.
func (p *Prog) refs(fn *ssa.Function, byName map[string][]*ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				if f, ok := (*op).(*ssa.Function); ok {
					if o := f.Origin(); o != nil && len(f.Blocks) == 0 {
						f = o
					}
					if isRepoFn(f) || f.Synthetic != "" {
						out = append(out, f)
					}
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
				out = append(out, byName[c.Common().Method.Name()]...)
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				out = append(out, mc.Fn.(*ssa.Function))
			}
			if mi, ok := in.(*ssa.MakeInterface); ok {
				_ = mi
			}
		}
	}
	return out
}

func (p *Prog) methodsByName() map[string][]*ssa.Function {
	m := map[string][]*ssa.Function{}
	for _, f := range p.fns {
		if f.Signature.Recv() != nil {
			m[f.Name()] = append(m[f.Name()], f)
		}
	}
	return m
}

// reach computes the repository functions reachable from the roots, without following cut edges.
// It returns for each reached function the function it was reached from.
func (p *Prog) reach(roots []*ssa.Function, cut func(from, to *ssa.Function) bool) map[*ssa.Function]*ssa.Function {
	by := p.methodsByName()
	seen := map[*ssa.Function]*ssa.Function{}
	work := []*ssa.Function{}
	for _, r := range roots {
		if r != nil {
			if _, ok := seen[r]; !ok {
				seen[r] = nil
				work = append(work, r)
			}
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, g := range p.refs(f, by) {
			if _, ok := seen[g]; ok {
				continue
			}
			if cut != nil && cut(f, g) {
				continue
			}
			seen[g] = f
			work = append(work, g)
		}
	}
	return seen
}

func chain(seen map[*ssa.Function]*ssa.Function, f *ssa.Function) string {
	var names []string
	for f != nil && len(names) < 12 {
		names = append([]string{shortFn(f)}, names...)
		f = seen[f]
	}
	return strings.Join(names, " -> ")
}

// ccName names the resolved callee of a call instruction ("(*database/sql.DB).ExecContext", "m:ExecContext" for interfaces).
func ccName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "m:" + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return fnName(f)
	}
	return ""
}

func eachCall(fn *ssa.Function, f func(in ssa.CallInstruction)) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				f(c)
			}
		}
	}
}
