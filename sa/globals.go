package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// findTables evaluates package variables that hold a literal list or map of constants, are assigned once, by their
// declaration, and are only read after that.
func (p *Prog) findTables() {
	p.tables = map[string]*T{}
	init := map[*ssa.Global]*ssa.Store{}
	bad := map[*ssa.Global]bool{}
	readOnly := func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Range, *ssa.Lookup, *ssa.DebugRef, *ssa.Index:
			case *ssa.IndexAddr:
				for _, rr := range *x.Referrers() {
					if u, ok := rr.(*ssa.UnOp); !ok || u.Op != token.MUL {
						if _, ok := rr.(*ssa.DebugRef); !ok {
							return false
						}
					}
				}
			case *ssa.Call:
				b, ok := x.Call.Value.(*ssa.Builtin)
				if f := x.Call.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "slices" && (f.Name() == "Contains" || f.Name() == "Index") {
					continue
				}
				if f := x.Call.StaticCallee(); f != nil && f.Origin() != nil && f.Origin().Pkg != nil && f.Origin().Pkg.Pkg.Path() == "slices" && (f.Origin().Name() == "Contains" || f.Origin().Name() == "Index") {
					continue
				}
				if !ok || b.Name() != "len" && b.Name() != "cap" {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	for fn := range ssautil.AllFunctions(p.ssa) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if g, ok := x.Addr.(*ssa.Global); ok {
						if fn.Name() == "init" && fn.Synthetic != "" && init[g] == nil {
							init[g] = x
						} else {
							bad[g] = true
						}
					}
					if g, ok := x.Val.(*ssa.Global); ok {
						bad[g] = true
					}
				case *ssa.UnOp:
					if g, ok := x.X.(*ssa.Global); ok && (x.Op != token.MUL || !readOnly(x)) {
						bad[g] = true
					}
				case *ssa.DebugRef:
				default:
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Global); ok {
							bad[g] = true
						}
					}
				}
			}
		}
	}
	for _, sp := range p.spkg {
		for _, m := range sp.Members {
			g, ok := m.(*ssa.Global)
			if !ok || bad[g] || init[g] == nil {
				continue
			}
			if t := tableOf(init[g].Val); t != nil {
				p.tables[globalName(g)] = t
			}
		}
	}
}

func constT(v ssa.Value) *T {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Const:
			if x.Value == nil {
				return nil
			}
			switch x.Value.Kind() {
			case constant.String:
				return mkStr(constant.StringVal(x.Value))
			case constant.Int:
				if n, ok := constant.Int64Val(x.Value); ok {
					return mkInt(n)
				}
			case constant.Bool:
				return mkBool(constant.BoolVal(x.Value))
			}
		}
		return nil
	}
}

// tableOf evaluates the value a package variable is initialised with.
func tableOf(v ssa.Value) *T {
	switch x := v.(type) {
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok || x.Low != nil || x.High != nil || x.Max != nil {
			return nil
		}
		arr, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			return nil
		}
		els := make([]*T, arr.Len())
		for _, r := range *al.Referrers() {
			switch y := r.(type) {
			case *ssa.IndexAddr:
				i, ok := y.Index.(*ssa.Const)
				if !ok {
					return nil
				}
				for _, rr := range *y.Referrers() {
					s, ok := rr.(*ssa.Store)
					if !ok || s.Addr != y {
						return nil
					}
					c := constT(s.Val)
					if c == nil {
						return nil
					}
					els[i.Int64()] = mkItem(c)
				}
			case *ssa.Slice:
				if y != x {
					return nil
				}
			default:
				return nil
			}
		}
		for _, e := range els {
			if e == nil {
				return nil
			}
		}
		return mkSeq(els...)
	case *ssa.MakeMap:
		var kv []*T
		for _, r := range *x.Referrers() {
			switch y := r.(type) {
			case *ssa.MapUpdate:
				k, w := constT(y.Key), constT(y.Value)
				if y.Map != x || k == nil || w == nil {
					if y.Map == x && k != nil {
						if st, ok := y.Value.Type().Underlying().(*types.Struct); ok && st.NumFields() == 0 {
							kv = append(kv, k, mk("struct", ""))
							continue
						}
					}
					return nil
				}
				kv = append(kv, k, w)
			case *ssa.Store:
				if y.Val != x {
					return nil
				}
			default:
				return nil
			}
		}
		m := mk("emptymap", "")
		for i := 0; i < len(kv); i += 2 {
			m = mk("mapset", "", m, kv[i], kv[i+1])
		}
		return m
	}
	return nil
}
