package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// parserOf finds the parser type of a package: the struct with the method and its two token fields.
func parserOf(p *Prog, pkg, typ string) (*types.Named, string, string) {
	sp := p.pkg(pkg)
	if sp == nil {
		return nil, "", ""
	}
	o := sp.Pkg.Scope().Lookup(typ)
	if o == nil {
		return nil, "", ""
	}
	n, ok := o.Type().(*types.Named)
	if !ok {
		return nil, "", ""
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil, "", ""
	}
	var toks []string
	for i := 0; i < st.NumFields(); i++ {
		if f, ok := st.Field(i).Type().(*types.Named); ok && f.Obj().Name() == "Token" {
			toks = append(toks, st.Field(i).Name())
		}
	}
	if len(toks) != 2 {
		return n, "", ""
	}
	if strings.Contains(strings.ToLower(toks[0]), "peek") || strings.Contains(strings.ToLower(toks[0]), "next") {
		toks[0], toks[1] = toks[1], toks[0]
	}
	return n, toks[0], toks[1]
}

func methodsOf(p *Prog, n *types.Named) map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	for i := 0; i < n.NumMethods(); i++ {
		if f := p.ssa.FuncValue(n.Method(i)); f != nil {
			out[f.Name()] = f
		}
	}
	return out
}

// pxdump pkg Type Method
func pxdump(args []string) {
	p, _, err := specProg()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	n, c, k := parserOf(p, args[0], args[1])
	ms := methodsOf(p, n)
	if args[1] == "Lexer" || args[1] == "verifL" {
		for k, v := range specPkgs {
			if v == args[0] {
				d := loadLex(p, nil, k)
				fmt.Println(d.err, d.cw)
				r, err := d.run(newEngine(p), args[2], args[1] == "verifL", d.nts, 0, 0)
				fmt.Println(err)
				if err == nil {
					pxPrint(p, r)
				}
			}
		}
		return
	}
	x := &px{e: newEngine(p), recvT: n, fcur: c, fpeek: k, nts: map[string]bool{}}
	for m := range ms {
		if strings.HasPrefix(m, "parse") {
			x.nts[m] = true
		}
	}
	x.e.opaque = func(f *ssa.Function) bool { return pxOpaque(x, f, nil) }
	x.e.inline = pxInline
	t := time.Now()
	r, err := x.run(ms[args[2]])
	fmt.Println(err, time.Since(t))
	if err != nil {
		return
	}
	pxPrint(p, r)
}

func pxPrint(p *Prog, r *pxRun) {
	for i, it := range r.items {
		fmt.Printf("--- %d %s ord=%d at %s\n", i, it.kind, it.ord, p.pos(it.pos))
		nl := 0
		for _, en := range it.enters {
			for _, l := range en.lits[nl:] {
				fmt.Println("    ", l)
			}
			nl = len(en.lits)
			fmt.Printf("   ENTER %d cur=%s %v = %v\n", en.ord, en.cur[0], en.names, en.vals)
		}
		for _, l := range it.st.lits[nl:] {
			fmt.Println("    ", l)
		}
		fmt.Println("   => ", it.cur[0], it.names, it.vals, it.stores)
	}
}

// pxOpaque: functions that stay calls in the summaries.
func pxOpaque(x *px, f *ssa.Function, shared map[*ssa.Function]bool) bool {
	if n := recvNamed(f); n != nil {
		switch {
		case n == x.recvT:
			return false
		case n.Obj().Name() == "Literal" || n.Obj().Name() == "TokenType" || n.Obj().Name() == "Token":
			return false
		case objMethods[f.Name()]:
			return true
		}
	}
	if shared == nil {
		return f.Signature.Recv() != nil || strings.HasPrefix(f.Name(), "New")
	}
	return shared[f]
}

// pxInline: adding to an expression that starts empty or was made here is looked into, so that how it starts does not matter.
func pxInline(f *ssa.Function, args []*T) bool {
	n := recvNamed(f)
	return n != nil && n.Obj().Name() == "Expr" && f.Name() == "Append" && len(args) == 2 &&
		(args[0].op == "nil" || args[0].op == "new" && !strings.HasPrefix(args[0].s, "sym"))
}
