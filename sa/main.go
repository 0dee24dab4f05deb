package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var checks = map[string]func(*Rep){}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: ddlverif check <property> | dump <pkg> <func> | list")
		os.Exit(2)
	}
	if pf := os.Getenv("VERIF_PPROF"); pf != "" {
		if f, err := os.Create(pf); err == nil {
			_ = pprof.StartCPUProfile(f)
		}
	}
	switch os.Args[1] {
	case "ext":
		dbgExt()
	case "effects":
		p, _ := loadProg(repoDir())
		dumpEffects(p)
	case "pxdump":
		pxdump(os.Args[2:])
	case "dump":
		dump(os.Args[2:])
	case "list":
		var ks []string
		for k := range checks {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Println(strings.Join(ks, "\n"))
	case "selftest":
		fmt.Println("analyzer built")
	case "check":
		rc := runCheck(os.Args[2:])
		pprof.StopCPUProfile()
		os.Exit(rc)
	}
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func runCheck(props []string) int {
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if len(props) == 1 && props[0] == "all" {
		props = nil
		for k := range checks {
			props = append(props, k)
		}
		sort.Strings(props)
	}
	t0 := time.Now()
	p, err := loadProg(repoDir())
	code := 0
	for _, id := range props {
		f := checks[id]
		if f == nil {
			fmt.Println("no check for", id)
			return 2
		}
		pp := p
		if pp == nil {
			pp = &Prog{}
		}
		r := newRep(pp, id, tier, verif)
		r.start = t0
		if err != nil {
			r.Fail("load", "program", "-", "the program cannot be analysed: %v", err)
		} else {
			func() {
				defer func() {
					if x := recover(); x != nil {
						r.Fail("internal", "analyzer", "-", "the analysis did not finish: %v\n%s", x, firstLines(string(debug.Stack()), 14))
					}
				}()
				f(r)
			}()
		}
		if c := r.Finish(); c > code {
			code = c
		}
		t0 = time.Now()
	}
	return code
}

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

func opaqueNames(names ...string) func(*ssa.Function) bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return func(fn *ssa.Function) bool { return m[fn.Name()] || m[shortFn(fn)] }
}

func dump(args []string) {
	t0 := time.Now()
	p, err := loadProg(repoDir())
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Println("loaded", len(p.fns), time.Since(t0))
	e := newEngine(p)
	op := args[2:]
	e.opaque = opaqueNames(op...)
	if os.Getenv("MOD") != "" {
		modular(e)
	}
	fn := p.fn(args[0], args[1])
	if fn == nil {
		for _, f := range p.fns {
			if shortFn(f) == args[1] {
				fn = f
			}
		}
	}
	if fn == nil {
		fmt.Println("no such function")
		os.Exit(2)
	}
	if os.Getenv("SSA") != "" {
		fn.WriteTo(os.Stdout)
	}
	st := newState()
	t1 := time.Now()
	res, err := e.Analyse(fn, st, e.params(fn))
	fmt.Println(len(res), "traces", err, e.steps, time.Since(t1))
	for i, r := range res {
		fmt.Printf("--- trace %d kind=%d\n", i, r.kind)
		var ls []string
		for _, l := range r.st.lits {
			ls = append(ls, l.String())
		}
		fmt.Println("  if", strings.Join(ls, "\n   & "))
		printEvents(p, r.st.events, "  ")
		for _, v := range r.vals {
			fmt.Println("  =>", r.st.reify(v, 0))
		}
	}
}

func printEvents(p *Prog, evs []*Event, ind string) {
	for _, ev := range evs {
		fmt.Println(ind+"ev", ev.kind, ev.name, ev.args, p.pos(ev.pos))
		if ev.kind == "each" {
			fmt.Println(ind+"  over", ev.coll)
			for _, t := range ev.sub {
				fmt.Println(ind+"  trace", t.guards)
				printEvents(p, t.events, ind+"    ")
			}
		}
	}
}
