package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P28"] = checkP28 }

var stdPrints = map[string]bool{"fmt.Print": true, "fmt.Printf": true, "fmt.Println": true}

// isStdoutTerm: the process's standard output.
func isStdoutTerm(t *T) bool {
	t = stripAs(t)
	return t.op == "gval" && t.s == "os.Stdout"
}

// stdoutWrite: an event that writes to standard output, and what it writes.
func stdoutWrite(ev *Event) (text *T, ok bool) {
	if ev.kind != "call" {
		return nil, false
	}
	if stdPrints[ev.name] {
		return printed(ev.name, ev.args), true
	}
	if strings.HasPrefix(ev.name, modPath) || strings.HasPrefix(ev.name, "pkg/") {
		return nil, false
	}
	if len(ev.args) > 0 && isStdoutTerm(ev.args[0]) {
		switch lastSeg(ev.name) {
		case "Close", "Sync", "Fd", "Name", "Stat":
			return nil, false
		case "WriteString", "Write":
			if len(ev.args) == 2 {
				return ev.args[1], true
			}
		case "Fprint", "Fprintf", "Fprintln":
			return printed(ev.name, ev.args[1:]), true
		}
		return nil, true
	}
	for _, a := range ev.args {
		if isStdoutTerm(a) {
			return nil, true
		}
	}
	return nil, false
}

// printed is the text of a call to one of fmt's printing functions, when it is one text printed as it is.
func printed(name string, args []*T) *T {
	var its []*T
	if len(args) > 0 {
		var ok bool
		if its, ok = onlyItems(args[len(args)-1]); !ok {
			return nil
		}
	}
	switch {
	case strings.HasSuffix(name, "f") && len(args) == 2 && len(its) == 1 && args[0] == mkStr("%s"):
		return its[0]
	case strings.HasSuffix(name, "int") && len(args) == 1 && len(its) == 1:
		return its[0]
	}
	return nil
}

func checkP28(r *Rep) {
	r.Rule("result", "diff and show write to standard output exactly once on every path that succeeds with a result, exactly the result, as the last thing that can fail; where they fail earlier or find no difference they write nothing")
	r.Rule("elsewhere", "no other function than the entry functions of diff, show, apply and version refers to standard output or prints with fmt.Print")
	r.Rule("loggers", "every logger of the repository writes to standard error or discards what it gets")
	p := r.p
	cmds := map[string]bool{"pkg/ddlctl/diff": true, "pkg/ddlctl/show": true}
	for pkg := range cmds {
		fn := r.need(pkg, "Command")
		if fn == nil {
			continue
		}
		name := shortFn(fn)
		e := commandEngine(p, "ddlctl/diff.resolve", fnShow, fnGenerate)
		base, eff := e.opaque, e.effect
		ddlFn := func(f *ssa.Function) bool {
			return strings.Contains(f.String(), "/pkg/ddl/") && (f.Name() == "Parse" || f.Name() == "Diff" || f.Name() == "String")
		}
		e.opaque = func(f *ssa.Function) bool { return base(f) || ddlFn(f) }
		e.effect = func(f *ssa.Function) bool { return eff(f) || ddlFn(f) && f.Name() != "String" }
		wrote := 0
		for _, t := range r.traces(e, "result", fn, nil) {
			if t.kind != rRet {
				continue
			}
			err := stripAs(t.vals[len(t.vals)-1])
			occs := flatten(t.st.events)
			var writes []int
			var texts []*T
			diffOf, noDiff := -1, false
			for i, o := range occs {
				if text, ok := stdoutWrite(o.ev); ok {
					if len(o.each) > 0 {
						r.Fail("result", name+"/repeated", p.pos(o.ev.pos), "%s writes to standard output repeatedly", name)
					}
					writes = append(writes, i)
					texts = append(texts, text)
				}
				if o.ev.kind == "call" && (strings.HasSuffix(o.ev.name, ".Diff") && strings.Contains(o.ev.name, "/ddl/") || o.ev.name == "pkg/"+fnShow) {
					diffOf = i
				}
			}
			var res *T
			if diffOf >= 0 {
				res = occs[diffOf].ev.ret
			}
			for k, v := range t.st.known {
				if v && k.op == "call" && k.s == "errors.Is" && k.a[1].s == errNoDiff && res != nil && anyTerm(k.a[0], func(x *T) bool { return x == res }) {
					noDiff = true
				}
			}
			produced := res != nil && certainlyNil(t.st, mkExt(res, 1, errType))
			switch {
			case !produced || noDiff:
				for _, i := range writes {
					r.Fail("result", name+"/early", p.pos(occs[i].ev.pos), "%s writes to standard output on a path without a result (path: %s)", name, litTexts(t.st))
				}
				if len(writes) == 0 {
					r.Ok("result", name+"/silent")
				}
			case len(writes) == 0:
				r.Check(certainlyError(t.st, err), "result", name+"/missing", p.fnPos(fn), "%s succeeds without writing its result (path: %s)", name, litTexts(t.st))
			case len(writes) > 1:
				r.Fail("result", name+"/twice", p.pos(occs[writes[1]].ev.pos), "%s writes to standard output more than once (path: %s)", name, litTexts(t.st))
			default:
				wrote++
				o := occs[writes[0]]
				want, text := mkExt(res, 0, nil), texts[0]
				if text != nil {
					text = stripAs(text)
					if text.op == "bytes" && len(text.a) == 1 {
						text = stripAs(text.a[0])
					}
				}
				isRes := text != nil && (text == want || (text.op == "m" || text.op == "call") && lastSeg(text.s) == "String" && len(text.a) == 1 && stripAs(text.a[0]) == want)
				switch {
				case writes[0] < diffOf:
					r.Fail("result", name+"/early", p.pos(o.ev.pos), "%s writes to standard output before its result is known", name)
				case isRes:
					r.Ok("result", name)
				case text == nil || !concrete(text, want):
					r.Undecided("result", name, "cannot tell what is written: %s %s", o.ev.name, short(mk("args", "", o.ev.args...)))
				default:
					r.Fail("result", name, p.pos(o.ev.pos), "%s writes %s to standard output, not exactly its result", name, short(text))
				}
				for _, o := range occs[writes[0]+1:] {
					if o.ev.kind == "call" && o.ev.ret != nil && certainlyError(t.st, lastResult(o.ev)) && lastSeg(o.ev.name) != "Close" {
						r.Fail("result", name+"/after", p.pos(o.ev.pos), "%s can fail in %s after its result was written", name, o.ev.name)
					}
				}
			}
		}
		r.Check(wrote > 0, "result", name+"/writes", p.fnPos(fn), "no path of %s writes its result to standard output", name)
	}
	r.Min("result", 10)

	all := append([]*ssa.Function{}, p.fns...)
	for _, k := range sortedKeys(p.spkg) {
		if f := p.spkg[k].Func("init"); f != nil {
			all = append(all, f)
		}
	}
	entry := func(f *ssa.Function) bool {
		return inPkgs(f, "pkg/ddlctl", "pkg/ddlctl/apply", "pkg/ddlctl/diff", "pkg/ddlctl/show", "cmd/ddlctl")
	}
	for _, f := range all {
		if testPkg(f) || entry(f) && f.Name() != "init" {
			continue
		}
		bad := ""
		pos := f.Pos()
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					switch v := (*op).(type) {
					case *ssa.Global:
						if v.Pkg != nil && v.Pkg.Pkg.Path() == "os" && v.Name() == "Stdout" {
							bad, pos = "os.Stdout", in.Pos()
						}
					case *ssa.Function:
						if n := fnName(v); stdPrints[n] || n == "log.SetOutput" {
							bad, pos = n, in.Pos()
						}
					}
				}
			}
		}
		r.Check(bad == "", "elsewhere", shortFn(f), p.pos(pos), "%s refers to %s: what it writes there mixes with the result", shortFn(f), bad)
	}
	r.Min("elsewhere", 400)

	for _, f := range all {
		if testPkg(f) {
			continue
		}
		eachCall(f, func(in ssa.CallInstruction) {
			n := ccName(in.Common())
			if n != "log.New" && n != "(*log.Logger).SetOutput" {
				return
			}
			i := 0
			if n != "log.New" {
				i = 1
			}
			for _, w := range writerSources(p, in.Common().Args[i], 4) {
				switch w {
				case "os.Stderr", "io.Discard":
					r.Ok("loggers", shortFn(f)+"/"+w)
				case "os.Stdout":
					r.Fail("loggers", shortFn(f)+"/"+w, p.pos(in.Pos()), "a logger writes to standard output, where the result belongs")
				default:
					r.Undecided("loggers", shortFn(f), "the writer of a logger is %s", w)
				}
			}
		})
	}
	r.Min("loggers", 5)
}

// concrete: the text shows that it is something else than the result: it has constant parts, or does not mention it.
func concrete(text, res *T) bool {
	if !anyTerm(text, func(x *T) bool { return x == res }) {
		return true
	}
	for _, x := range concatParts(text) {
		if x.op == "str" {
			return true
		}
	}
	return text.op == "call" && strings.HasPrefix(text.s, "strings.")
}

func lastResult(ev *Event) *T {
	return ev.ret
}

// writerSources names the globals a writer may come from.
func writerSources(p *Prog, v ssa.Value, depth int) []string {
	v = stripIface(v)
	switch x := v.(type) {
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && g.Pkg != nil {
			return []string{g.Pkg.Pkg.Path() + "." + g.Name()}
		}
	case *ssa.Phi:
		var out []string
		for _, e := range x.Edges {
			out = append(out, writerSources(p, e, depth-1)...)
		}
		if depth > 0 {
			return out
		}
	case *ssa.Parameter:
		if depth == 0 {
			break
		}
		var out []string
		idx := -1
		for i, q := range x.Parent().Params {
			if q == x {
				idx = i
			}
		}
		for _, f := range p.fns {
			if testPkg(f) {
				continue
			}
			eachCall(f, func(in ssa.CallInstruction) {
				if in.Common().StaticCallee() == x.Parent() {
					out = append(out, writerSources(p, in.Common().Args[idx], depth-1)...)
				}
			})
		}
		if len(out) > 0 {
			return out
		}
	}
	return []string{v.Name()}
}
