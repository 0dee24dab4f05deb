package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P29"] = checkP29 }

func isCtx(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "context" && n.Obj().Name() == "Context"
}

// ctxRoots: where a context comes from: "given" (a parameter or captured parameter), "background" (made without a
// parent), "" (not known).
func ctxRoots(p *Prog, v ssa.Value, seen map[ssa.Value]bool) (out map[string]ssa.Value) {
	out = map[string]ssa.Value{}
	if seen[v] {
		return
	}
	seen[v] = true
	add := func(w ssa.Value) {
		for k, x := range ctxRoots(p, w, seen) {
			out[k] = x
		}
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		out["given"] = v
	case *ssa.FreeVar:
		fn := x.Parent()
		idx := -1
		for i, f := range fn.FreeVars {
			if f == x {
				idx = i
			}
		}
		found := false
		if fn.Parent() != nil {
			for _, b := range fn.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn && idx < len(mc.Bindings) {
						found = true
						add(mc.Bindings[idx])
					}
				}
			}
		}
		if !found {
			out[""] = v
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			add(e)
		}
	case *ssa.ChangeInterface:
		add(x.X)
	case *ssa.MakeInterface:
		add(x.X)
	case *ssa.ChangeType:
		add(x.X)
	case *ssa.Extract:
		add(x.Tuple)
	case *ssa.UnOp:
		add(x.X)
	case *ssa.Alloc:
		n := 0
		if x.Referrers() != nil {
			for _, r := range *x.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == x {
					n++
					add(s.Val)
				}
			}
		}
		if n == 0 {
			out[""] = v
		}
	case *ssa.Call:
		switch n := ccName(&x.Call); n {
		case "context.Background", "context.TODO", "context.WithoutCancel":
			out["background"] = v
			return
		}
		if g := x.Call.StaticCallee(); g != nil && isRepoFn(g) && len(g.Blocks) > 0 {
			// a repository function that makes the context: what it returns, for what it is given
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					for _, rv := range ret.Results {
						if isCtx(rv.Type()) {
							for k, w := range ctxRoots(p, rv, seen) {
								if q, ok := w.(*ssa.Parameter); ok && k == "given" {
									for i, qq := range g.Params {
										if qq == q {
											add(x.Call.Args[i])
										}
									}
									continue
								}
								out[k] = w
							}
						}
					}
				}
			}
			return
		}
		n := 0
		for _, a := range x.Call.Args {
			if isCtx(a.Type()) {
				n++
				add(a)
			}
		}
		if x.Call.IsInvoke() && isCtx(x.Call.Value.Type()) {
			n++
			add(x.Call.Value)
		}
		if n == 0 {
			out[""] = v
		}
	default:
		out[""] = v
	}
	return
}

func checkP29(r *Rep) {
	r.Rule("derived", "every context passed to a call is the context the function was given, or made from it")
	r.Rule("used", "every call of the database and retry libraries that has a variant taking a context is the one taking it")
	p := r.p
	noCtx := map[string]bool{"(*database/sql.DB).Query": true, "(*database/sql.DB).QueryRow": true, "(*database/sql.DB).Exec": true, "(*database/sql.DB).Ping": true, "(*database/sql.DB).Prepare": true, "(*database/sql.DB).Begin": true,
		"(*database/sql.Tx).Query": true, "(*database/sql.Tx).QueryRow": true, "(*database/sql.Tx).Exec": true, "(*database/sql.Tx).Prepare": true, "(*database/sql.Stmt).Query": true, "(*database/sql.Stmt).QueryRow": true, "(*database/sql.Stmt).Exec": true,
		"os/exec.Command": true, "net/http.Get": true, "time.Sleep": true}
	for _, f := range p.fns {
		if testPkg(f) || inPkgs(f, "cmd/ddlctl") && f.Name() == "main" {
			continue
		}
		f := f
		r.Fn(shortFn(f))
		eachCall(f, func(in ssa.CallInstruction) {
			c := in.Common()
			name := ccName(c)
			if noCtx[name] {
				r.Fail("used", shortFn(f)+"/"+name, p.pos(in.Pos()), "%s waits without the context in %s: it goes on after the command was canceled", name, shortFn(f))
			}
			for _, a := range c.Args {
				if !isCtx(a.Type()) {
					continue
				}
				roots := ctxRoots(p, a, map[ssa.Value]bool{})
				key := shortFn(f) + " -> " + name
				switch {
				case roots["background"] != nil:
					r.Fail("derived", key, p.pos(in.Pos()), "the context %s passes to %s does not come from the context it was given: it goes on after the command was canceled, and finds no options in it", shortFn(f), name)
				case roots[""] != nil || len(roots) == 0:
					r.Undecided("derived", key, "where the context comes from is not known")
				default:
					r.Ok("derived", key)
				}
			}
		})
	}
	r.Ok("used", "table of calls without context")
	r.Min("derived", 50)
}
