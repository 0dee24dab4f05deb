package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P18"] = checkP18 }

type optSpec struct{ name, env, kind, def string }

var (
	optLang    = optSpec{"lang", "DDLCTL_LANGUAGE", "StringOption", `"go"`}
	optDialect = optSpec{"dialect", "DDLCTL_DIALECT", "StringOption", `""`}
	optColumn  = optSpec{"go-column-tag", "DDLCTL_GO_COLUMN_TAG", "StringOption", `"db"`}
	optDDL     = optSpec{"go-ddl-tag", "DDLCTL_GO_DDL_TAG", "StringOption", `"ddlctl"`}
	optPK      = optSpec{"go-pk-tag", "DDLCTL_GO_PK_TAG", "StringOption", `"pk"`}
	optApprove = optSpec{"auto-approve", "DDLCTL_AUTO_APPROVE", "BoolOption", "false"}
	optTrace   = optSpec{"trace", "DDLCTL_TRACE", "BoolOption", "false"}
	optDebug   = optSpec{"debug", "DDLCTL_DEBUG", "BoolOption", "false"}
)

// afterInit is the memory after the initialisation of one package (other packages stay symbolic).
func afterInit(r *Rep, pkg string) (*State, bool) {
	ini := r.need(pkg, "init")
	if ini == nil {
		return nil, false
	}
	e := newEngine(r.p)
	e.opaque = func(f *ssa.Function) bool { return f.Name() == "init" && f.Synthetic != "" && f.Pkg != ini.Pkg }
	res, err := e.Analyse(ini, newState(), nil)
	if err != nil || len(res) == 0 {
		r.Fail("anchor", pkg+".init/undecided", "-", "%v", err)
		return nil, false
	}
	r.useEngine(e)
	// the trace that really initialises (the other one is the guard for repeated initialisation)
	var best *State
	for _, x := range res {
		if best == nil || len(x.st.mem) > len(best.mem) {
			best = x.st
		}
	}
	best.lits, best.known, best.events = nil, map[*T]bool{}, nil
	return best, true
}

// structField reads a field of a reified allocation or struct term.
func structField(t *T, name string) *T {
	if t == nil {
		return nil
	}
	t = stripAs(t)
	if t.op == "addrof" || t.op == "obj" || t.op == "struct" {
		if n := structTypeOf(t); n != nil {
			for i := 0; i < n.NumFields() && i < len(t.a); i++ {
				if n.Field(i).Name() == name {
					return t.a[i]
				}
			}
		}
	}
	return nil
}

func structTypeOf(t *T) *types.Struct {
	typ := t.typ
	if typ == nil {
		return nil
	}
	if p, ok := typ.Underlying().(*types.Pointer); ok {
		typ = p.Elem()
	}
	s, _ := typ.Underlying().(*types.Struct)
	return s
}

func checkP18(r *Rep) {
	p := r.p
	r.Rule("option-table", "every option is offered, with its documented name, environment variable, kind and default, on the commands that use it and on no other")
	r.Rule("subcommand", "each subcommand runs its own operation and nothing else")
	r.Rule("config-wiring", "each configuration accessor returns the value of its own option after a load")
	r.Rule("log-level", "trace and debug mode enable their own log output and error frames, and nothing does otherwise")
	r.Rule("load-first", "every command loads the configuration from its own invocation before reading it")
	optionTable(r)
	configWiring(r)
	for _, c := range []string{"generate", "show", "diff", "apply"} {
		fn := r.need("pkg/ddlctl/"+c, "Command")
		if fn == nil {
			continue
		}
		e := commandEngine(p, fnDiff, fnShow, fnGenerate, "ddlctl/apply.Apply")
		ctx := e.params(fn)[0]
		n := 0
		for _, res := range r.traces(e, "load-first", fn, nil) {
			loaded := false
			for _, o := range flatten(res.st.events) {
				if o.ev.name == "pkg/internal/config.Load" || o.ev.name == "pkg/internal/config.MustLoad" {
					loaded = loaded || (len(o.ev.args) > 0 && o.ev.args[0] == ctx)
					continue
				}
				if strings.HasPrefix(o.ev.name, "pkg/internal/config.") || strings.HasPrefix(o.ev.name, "pkg/ddlctl/") {
					n++
					r.Check(loaded, "load-first", c+".Command/"+lastSeg(o.ev.name), p.pos(o.ev.pos), "%s is used before the configuration of this invocation is loaded", o.ev.name)
				}
			}
		}
		r.Check(n > 0, "load-first", c+".Command", p.fnPos(fn), "%s.Command uses no configuration", c)
	}
	r.Min("option-table", 30)
	r.Min("config-wiring", 8)
}

func optionTable(r *Rep) {
	p := r.p
	fn := r.need("pkg/ddlctl", "DDLCtl")
	if fn == nil {
		return
	}
	st, ok := afterInit(r, "pkg/ddlctl")
	if !ok {
		return
	}
	e := newEngine(p)
	var roots []*T
	e.hook = func(fr *Frame, st *State, c *CallInfo) ([]CallRes, bool) {
		if strings.HasSuffix(c.name, "exp/cli.Command).Run") {
			roots = append(roots, st.reify(c.args[0], 0))
		}
		return nil, false
	}
	if _, err := e.Analyse(fn, st, e.params(fn)); err != nil {
		r.Fail("option-table", "DDLCtl/undecided", p.fnPos(fn), "%v", err)
		return
	}
	r.useEngine(e)
	if !r.Check(len(roots) > 0, "option-table", "DDLCtl/run", p.fnPos(fn), "DDLCtl never runs a command tree") {
		return
	}
	common := []optSpec{optLang, optDialect, optColumn, optDDL, optPK}
	want := map[string][]optSpec{
		"ddlctl": {optTrace, optDebug}, "version": nil, "generate": common, "show": {optDialect}, "diff": common,
		"apply": append(append([]optSpec{}, common...), optApprove),
	}
	optional := map[string][]optSpec{"show": common}
	seen := map[string]bool{}
	for _, root := range roots {
		var visit func(c *T, top bool)
		visit = func(c *T, top bool) {
			nm := structField(c, "Name")
			if nm == nil || nm.op != "str" {
				r.Fail("subcommand", "name", p.fnPos(fn), "a command has the name %s", short(c))
				return
			}
			name := nm.s
			if top {
				name = "ddlctl"
			}
			specs, known := want[name]
			if !known {
				return // further commands are free to have further options
			}
			seen[name] = true
			opts := map[string]*T{}
			envs := map[string]string{}
			if os := structField(c, "Options"); os != nil {
				its, okk := onlyItems(os)
				if !r.Check(okk, "option-table", name+"/options", p.fnPos(fn), "the options of %s are %s", name, short(os)) {
					return
				}
				for _, o := range its {
					n := structField(o, "Name")
					if n == nil || n.op != "str" {
						r.Fail("option-table", name+"/options", p.fnPos(fn), "an option of %s is %s", name, short(o))
						continue
					}
					r.Check(opts[n.s] == nil, "option-table", name+"/"+n.s+"/twice", p.fnPos(fn), "%s has two options named %s", name, n.s)
					opts[n.s] = o
					if ev := structField(o, "Environment"); ev != nil && ev.op == "str" && ev.s != "" {
						r.Check(envs[ev.s] == "", "option-table", name+"/"+n.s+"/env", p.fnPos(fn), "options %s and %s of %s share the environment variable %s", envs[ev.s], n.s, name, ev.s)
						envs[ev.s] = n.s
					}
				}
			}
			one := func(s optSpec, must bool) {
				o := opts[s.name]
				key := name + "/" + s.name
				if o == nil {
					if must {
						r.Fail("option-table", key, p.fnPos(fn), "%s does not offer the option --%s", name, s.name)
					}
					return
				}
				r.Check(o.typ != nil && strings.HasSuffix(o.typ.String(), "cli."+s.kind), "option-table", key+"/kind", p.fnPos(fn), "--%s of %s is a %s", s.name, name, o.typ)
				ev := structField(o, "Environment")
				r.Check(ev == mkStr(s.env), "option-table", key+"/env", p.fnPos(fn), "--%s of %s reads the environment variable %s instead of %s", s.name, name, short(ev), s.env)
				d := structField(o, "Default")
				okd := d != nil && d.op == "call" && strings.HasSuffix(d.s, "cli.Default") && len(d.a) == 1 && d.a[0].String() == s.def
				r.Check(okd, "option-table", key+"/default", p.fnPos(fn), "--%s of %s defaults to %s instead of %s", s.name, name, short(d), s.def)
			}
			for _, s := range specs {
				one(s, true)
			}
			for _, s := range optional[name] {
				one(s, false)
			}
			if name != "apply" {
				r.Check(opts["auto-approve"] == nil, "option-table", name+"/auto-approve", p.fnPos(fn), "%s offers --auto-approve", name)
			}
			if run := structField(c, "RunFunc"); !top && name != "version" {
				subcommandRuns(r, name, run)
			} else if name == "version" {
				r.Check(run != nil && run.op != "nil", "subcommand", "version", p.fnPos(fn), "version runs nothing")
			}
			if sub := structField(c, "SubCommands"); sub != nil && top {
				its, okk := onlyItems(sub)
				if r.Check(okk, "subcommand", "list", p.fnPos(fn), "the subcommands are %s", short(sub)) {
					for _, s := range its {
						visit(s, false)
					}
				}
			}
		}
		visit(root, true)
	}
	for _, c := range []string{"version", "generate", "show", "diff", "apply"} {
		r.Check(seen[c], "subcommand", c+"/offered", p.fnPos(fn), "there is no subcommand %s", c)
	}
}

// subcommandRuns checks that a subcommand's function is its own command function (possibly wrapped).
func subcommandRuns(r *Rep, name string, run *T) {
	p := r.p
	own := p.fn("pkg/ddlctl/"+name, "Command")
	if own == nil {
		r.Fail("anchor", "pkg/ddlctl/"+name+".Command", "-", "there is no function pkg/ddlctl/%s.Command", name)
		return
	}
	if run == nil || (run.op != "fn" && run.op != "closure") {
		r.Fail("subcommand", name, "-", "the subcommand %s runs %s", name, short(run))
		return
	}
	e := newEngine(p)
	names := map[string]bool{}
	for _, c := range []string{"generate", "show", "diff", "apply"} {
		names["ddlctl/"+c+".Command"] = true
	}
	e.opaque = func(f *ssa.Function) bool { return names[shortFn(f)] || inPkgs(f, "pkg/logs") }
	e.effect = e.opaque
	var fn *ssa.Function
	for _, f := range p.ssa.AllPackages() {
		_ = f
	}
	for f := range allFuncs(p) {
		if e.fnTerm(f).s == run.s {
			fn = f
		}
	}
	if fn == own {
		r.Ok("subcommand", name)
		return
	}
	if fn == nil || len(fn.Params) != 2 {
		r.Fail("subcommand", name, "-", "the subcommand %s runs %s", name, short(run))
		return
	}
	ps := e.params(fn)
	res, err := e.Analyse(fn, newState(), ps)
	if err != nil {
		r.Fail("subcommand", name, p.fnPos(fn), "%v", err)
		return
	}
	for _, re := range res {
		n, ok := 0, false
		for _, o := range flatten(re.st.events) {
			if names[strings.TrimPrefix(o.ev.name, "pkg/")] {
				n++
				ok = o.ev.name == "pkg/ddlctl/"+name+".Command" && len(o.ev.args) == 2 && o.ev.args[1] == ps[1] && len(re.vals) == 1 && anyTerm(re.vals[0], func(x *T) bool { return x == o.ev.ret })
			}
		}
		r.Check(n == 1 && ok, "subcommand", name, p.fnPos(fn), "the subcommand %s does not run exactly pkg/ddlctl/%s.Command with its arguments and return its error (path: %s)", name, name, litTexts(re.st))
	}
}

func allFuncs(p *Prog) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for _, f := range p.fns {
		m[f] = true
	}
	return m
}

func zeroConst(v *T) bool {
	return v.op == "str" && v.s == "" || v.op == "bool" && v.s == "false" || v == mkBool(false)
}

// optionFailed: on this path reading the option reported an error.
func optionFailed(st *State, name string, optionOf func(*State, *T) string) bool {
	for _, ev := range st.events {
		m := lastSeg(ev.name)
		if ev.kind != "call" || m != "GetOptionString" && m != "GetOptionBool" || len(ev.args) < 2 || ev.args[1].op != "str" || ev.args[1].s != name {
			continue
		}
		for _, l := range st.lits {
			if l.op != "not" {
				continue
			}
			found := false
			anyTerm(l, func(t *T) bool {
				if e, i := eventOf(st, t); e == ev && i == 1 {
					found = true
				}
				return false
			})
			if found {
				return true
			}
		}
	}
	return false
}

func configWiring(r *Rep) {
	p := r.p
	load := r.need("pkg/internal/config", "Load")
	if load == nil {
		return
	}
	mkEng := func() *Engine {
		e := newEngine(p)
		e.opaque = func(f *ssa.Function) bool { return inPkgs(f, "pkg/logs") }
		e.effect = e.opaque
		return e
	}
	e := mkEng()
	res := r.traces(e, "config-wiring", load, nil)
	table := []struct {
		acc string
		opt optSpec
	}{{"Language", optLang}, {"Dialect", optDialect}, {"AutoApprove", optApprove}, {"ColumnTagGo", optColumn}, {"DDLTagGo", optDDL}, {"PKTagGo", optPK}, {"Trace", optTrace}, {"Debug", optDebug}}
	// optionOf names the option whose value the term is
	optionOf := func(st *State, t *T) string {
		ev, i := eventOf(st, t)
		if ev == nil || i != 0 {
			return short(t)
		}
		m := lastSeg(ev.name)
		if m != "GetOptionString" && m != "GetOptionBool" || len(ev.args) < 2 || ev.args[1].op != "str" {
			return ev.name
		}
		c, k := eventOf(st, ev.args[0])
		if c == nil || !strings.HasSuffix(c.name, "cli.FromContext") || k != 0 {
			return "an option of " + short(ev.args[0])
		}
		return "--" + ev.args[1].s
	}
	n := 0
	for _, re := range res {
		if re.kind != rRet || !certainlyNil(re.st, re.vals[len(re.vals)-1]) {
			continue
		}
		n++
		mode := map[string]bool{}
		for _, l := range re.st.lits {
			neg := false
			x := l
			if l.op == "not" {
				neg, x = true, l.a[0]
			}
			if o := optionOf(re.st, x); strings.HasPrefix(o, "--") {
				mode[o] = !neg
			}
		}
		// log level
		lv := func(g string) *T {
			if v, ok := re.st.mem[mk("global", g)]; ok {
				return v
			}
			return nil
		}
		gl := func(pkg, name string) *T {
			q := p.pkg(pkg)
			if q == nil {
				return nil
			}
			if g, ok := q.Members[name].(*ssa.Global); ok {
				return lv(globalName(g))
			}
			return nil
		}
		trace, tk := mode["--trace"]
		debug, dk := mode["--debug"]
		if !tk {
			r.Fail("log-level", "trace", p.fnPos(load), "loading succeeds without looking at --trace (path: %s)", litTexts(re.st))
		}
		wantTrace, wantDebug := trace, trace || (dk && debug)
		if !trace && !dk {
			r.Fail("log-level", "debug", p.fnPos(load), "loading succeeds without looking at --debug (path: %s)", litTexts(re.st))
		}
		logger := func(v *T, ctor string) bool {
			if v == nil {
				return false
			}
			ev, _ := eventOf(re.st, stripAs(v))
			return ev != nil && ev.name == "pkg/logs."+ctor || (v.op == "call" && strings.HasSuffix(v.s, "logs."+ctor))
		}
		tv, dv := gl("pkg/logs", "Trace"), gl("pkg/logs", "Debug")
		r.Check(logger(tv, "NewTrace") == wantTrace && (wantTrace || tv == nil), "log-level", "logs.Trace", p.fnPos(load), "with trace=%v the trace log is set to %s", trace, short(tv))
		r.Check(logger(dv, "NewDebug") == wantDebug && (wantDebug || dv == nil), "log-level", "logs.Debug", p.fnPos(load), "with trace=%v debug=%v the debug log is set to %s", trace, debug, short(dv))
		ef := gl("pkg/apperr", "Errorf")
		isFrame := ef != nil && strings.Contains(ef.String(), "util.go/errors.Errorf")
		r.Check(isFrame == (wantTrace || wantDebug), "log-level", "apperr.Errorf", p.fnPos(load), "with trace=%v debug=%v errors are built by %s", trace, debug, short(ef))
		// accessors
		for _, a := range table {
			fn := r.need("pkg/internal/config", a.acc)
			if fn == nil {
				continue
			}
			e2 := mkEng()
			st := re.st.clone()
			rs, err := e2.Analyse(fn, st, nil)
			if err != nil {
				r.Fail("config-wiring", a.acc, p.fnPos(fn), "%v", err)
				continue
			}
			r.useEngine(e2)
			for _, x := range rs {
				if x.kind != rRet || len(x.vals) != 1 {
					continue
				}
				got := optionOf(x.st, x.vals[0])
				if x.vals[0].op == "bool" && got == short(x.vals[0]) {
					got = short(x.vals[0])
				}
				ok := got == "--"+a.opt.name
				if !ok && zeroConst(x.vals[0]) && optionFailed(x.st, a.opt.name, optionOf) {
					ok = true // the value read is the zero value where reading fails
				}
				r.Check(ok, "config-wiring", a.acc, p.fnPos(fn), "config.%s() returns %s instead of the value of --%s", a.acc, got, a.opt.name)
			}
		}
	}
	r.Check(n > 0, "config-wiring", "Load", p.fnPos(load), "loading the configuration never succeeds")
}
