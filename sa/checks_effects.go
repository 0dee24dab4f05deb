package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P23: the functions (and those that write generated DDL) that print or compare schemas do not write the schemas or package-level variables.

func isSchemaReader(f *ssa.Function) bool {
	if f.Parent() != nil || f.Synthetic != "" {
		return false
	}
	switch f.Name() {
	case "String", "GoString", "StringForDiff", "GetNameForDiff", "GetPlainName", "PlainString", "StringWithoutIfNotExists":
		return f.Signature.Recv() != nil
	case "Diff", "DiffCreateTable", "Fprint":
		return f.Signature.Recv() == nil
	}
	return false
}

func init() {
	checks["P23"] = func(r *Rep) {
		p := r.p
		if p == nil {
			return
		}
		r.Rule("no-write", "no store, in-place sort, append to a truncated slice, copy, map update or deletion reachable from printing or comparing may hit memory behind a parameter or a package-level variable")
		x := p.effects()
		n := 0
		for _, f := range p.fns {
			if path := pkgOf(f).Path(); !isSchemaReader(f) || !strings.Contains(path, "/pkg/ddl/") && !strings.Contains(path, "/generator/") {
				continue
			}
			n++
			r.Fn(shortFn(f))
			s := x.sum[f]
			bad := false
			for _, o := range s.modList() {
				w := s.mods[o]
				what := "the memory behind " + o.v.Name()
				if g, ok := o.v.(*ssa.Global); ok {
					what = "the package-level variable " + globalName(g)
				}
				bad = true
				r.Fail("no-write", shortFn(f), p.pos(w.pos), "%s may write %s: %s in %s", shortFn(f), what, w.what, shortFn(w.fn))
			}
			if bad {
				continue
			}
			if len(s.unknown) > 0 {
				r.Undecided("no-write", shortFn(f), "call of a function that is not known at %s", p.pos(s.unknown[0]))
				continue
			}
			r.Ok("no-write", shortFn(f))
		}
		r.Min("no-write", 100)
	}
}
