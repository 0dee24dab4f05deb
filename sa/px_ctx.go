package main

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

// Values only one side carries around a loop. They have no counterpart to be compared with, so they are followed
// instead: from what they are when the loop is entered, through every round both sides can take together. Each
// distinct standing is a context; the rest of the comparison is made once per context.

const (
	pxPlain    = iota // the sides carry the same values
	pxIgnore          // leave open what only one side carries
	pxExtra           // follow what only one side carries
	pxConcrete        // follow everything, from the start of the loop (bounded): what is found can really happen
)

const (
	pxMaxCtx   = 60
	pxMaxCtxC  = 200
	pxMaxDepth = 3
)

// pxLimit bounds the time spent on following values, per method and in all.
const pxLimit = 15 * time.Second

var pxSpent time.Duration

func (c *pxCmp) late() bool {
	if c.mode == pxPlain || c.start.IsZero() {
		return false
	}
	if time.Since(c.start) < pxLimit && pxSpent < 10*pxLimit {
		return false
	}
	c.res.open = true
	c.res.undec["following what the loop carries takes too long"] = true
	return true
}

type pxCtx struct {
	code, spec map[string]*T // full cell name -> value
	lits       []*T
	key        string
	depth      int
}

func (x *pxCtx) empty() bool { return len(x.code) == 0 && len(x.spec) == 0 && len(x.lits) == 0 }

func (x *pxCtx) sub(t *T, code bool) *T {
	m := x.spec
	if code {
		m = x.code
	}
	if len(m) == 0 {
		return t
	}
	return (&pxShift{cells: m, memo: map[*T]*T{}}).do(t)
}

func (x *pxCtx) finish() *pxCtx {
	var sb strings.Builder
	for _, m := range []map[string]*T{x.code, x.spec} {
		for _, k := range sortedKeys(m) {
			fmt.Fprintf(&sb, "%s=%d,", k, m[k].id)
		}
		sb.WriteString(";")
	}
	for _, l := range x.lits {
		fmt.Fprintf(&sb, "%d,", l.id)
	}
	x.key = sb.String()
	return x
}

func (x *pxCtx) with(code, spec map[string]*T, lits []*T, depth int) *pxCtx {
	y := &pxCtx{code: map[string]*T{}, spec: map[string]*T{}, depth: depth}
	for k, v := range x.code {
		y.code[k] = v
	}
	for k, v := range x.spec {
		y.spec[k] = v
	}
	for k, v := range code {
		y.code[k] = v
	}
	for k, v := range spec {
		y.spec[k] = v
	}
	y.lits = append(append([]*T{}, x.lits...), lits...)
	return y.finish()
}

// extras are the carried names one side follows.
func (c *pxCmp) extras(a, b *pxEnter) (ca, cb map[string]bool) {
	ca, cb = map[string]bool{}, map[string]bool{}
	for _, n := range a.names {
		ca[n] = true
	}
	for _, n := range b.names {
		if ca[n] && c.mode != pxConcrete {
			delete(ca, n)
			continue
		}
		cb[n] = true
	}
	return ca, cb
}

func (c *pxCmp) contexts(a, b *pxEnter, i int, x *pxCtx) []*pxCtx {
	if c.mode == pxPlain || c.mode == pxIgnore {
		return []*pxCtx{x}
	}
	ca, cb := c.extras(a, b)
	if len(ca)+len(cb) == 0 {
		return []*pxCtx{x}
	}
	pre := fmt.Sprintf("L%d.", a.ord)
	start := func(en *pxEnter, want map[string]bool, code bool) map[string]*T {
		m := map[string]*T{}
		for k, n := range en.names {
			if want[n] {
				m[pre+n] = x.sub(en.vals[k], code)
			}
		}
		return m
	}
	first := x.with(start(a, ca, true), start(b, cb, false), nil, 0)
	out := []*pxCtx{first}
	seen := map[string]bool{first.key: true}
	backs := func(r *pxRun, en *pxEnter) (its []*pxItem) {
		for _, it := range r.items {
			if it.kind == "back" && it.ord == en.ord && len(it.enters) > en.ord && it.enters[en.ord] == en {
				if it.enters[len(it.enters)-1] != en {
					c.res.undec["a loop within a loop that carries values the reference does not"] = true
					continue
				}
				its = append(its, it)
			}
		}
		return its
	}
	pb, qb := backs(c.code, a), backs(c.spec, b)
	max := pxMaxCtx
	if c.mode == pxConcrete {
		max = pxMaxCtxC
	}
	for k := 0; k < len(out); k++ {
		y := out[k]
		if y.depth >= pxMaxDepth && c.mode == pxConcrete {
			c.res.open = true
			continue
		}
		for _, p := range pb {
			for _, q := range qb {
				if c.late() {
					return out
				}
				s := c.jointIn(p, q, len(p.enters), y)
				if s == nil {
					continue
				}
				next := func(it *pxItem, want map[string]bool, code bool) map[string]*T {
					m := map[string]*T{}
					for j, n := range it.names {
						if want[n] {
							m[pre+n] = pxPrime(y.sub(it.vals[j], code), a.ord)
						}
					}
					return m
				}
				nc, ns := next(p, ca, true), next(q, cb, false)
				old := false
				for _, m := range []map[string]*T{nc, ns} {
					for _, v := range m {
						old = old || pxPrimed(v)
					}
				}
				var lits []*T
				if old {
					for _, l := range s.lits {
						if l := pxPrime(l, a.ord); pxPrimed(l) {
							lits = append(lits, l)
						}
					}
					sort.Slice(lits, func(i, j int) bool { return lits[i].id < lits[j].id })
				}
				z := x.with(nc, ns, lits, y.depth+1)
				if seen[z.key] {
					continue
				}
				if len(out) >= max {
					c.res.open = true
					continue
				}
				seen[z.key] = true
				out = append(out, z)
			}
		}
	}
	return out
}

// pxPrime moves the symbols of a loop head one round back.
func pxPrime(t *T, ord int) *T {
	head := fmt.Sprintf("L%d", ord)
	memo := map[*T]*T{}
	var do func(t *T) *T
	do = func(t *T) *T {
		if y, ok := memo[t]; ok {
			return y
		}
		y := t
		switch {
		case t.op == "tb" && (t.s == head || strings.HasPrefix(t.s, head+"~")):
			y = mk("tb", t.s+"~", t.a...)
		case t.op == "cell" && strings.HasPrefix(t.s, head+"."):
			y = mkT(t.typ, "cell", t.s+"~")
		case len(t.a) > 0:
			args := make([]*T, len(t.a))
			ch := false
			for i, x := range t.a {
				args[i] = do(x)
				ch = ch || args[i] != x
			}
			if ch {
				y = rebuild(t, args)
			}
		}
		memo[t] = y
		return y
	}
	return do(t)
}

func pxPrimed(t *T) bool {
	return anyTerm(t, func(x *T) bool { return (x.op == "tb" || x.op == "cell") && strings.HasSuffix(x.s, "~") })
}

// jointIn is the state in which both paths are possible in a context.
func (c *pxCmp) jointIn(p, q *pxItem, i int, x *pxCtx) *State {
	s := newState()
	for _, l := range x.lits {
		if !s.assume(l, true) {
			return nil
		}
	}
	for _, it := range []*pxItem{p, q} {
		code := it == p
		if i >= len(it.enters) {
			for k, v := range it.st.known {
				k2 := x.sub(k, code)
				switch {
				case k2 == tTrue || k2 == tFalse:
					if (k2 == tTrue) != v {
						return nil
					}
				case k2 == k:
					s.known[k] = v
				}
			}
		}
	}
	for _, it := range []*pxItem{p, q} {
		for _, l := range litsAt(it, i) {
			if !s.assume(x.sub(l, it == p), true) {
				return nil
			}
		}
	}
	return s
}

// inCtx restates two paths in a context; of what they carry only the common part is left.
func (c *pxCmp) inCtx(p, q *pxItem, x *pxCtx) (*pxItem, *pxItem) {
	keep := map[string]bool{}
	if p.kind == "back" && q.kind == "back" {
		for _, n := range p.names {
			keep[n] = true
		}
		both := map[string]bool{}
		for _, n := range q.names {
			if keep[n] {
				both[n] = true
			}
		}
		keep = both
	}
	re := func(it *pxItem, code bool) *pxItem {
		y := &pxItem{kind: it.kind, st: it.st, enters: it.enters, ord: it.ord, cur: it.cur, pos: it.pos, fn: it.fn}
		for k, v := range it.vals {
			if it.kind == "back" {
				if !keep[it.names[k]] {
					continue
				}
				y.names = append(y.names, it.names[k])
			}
			y.vals = append(y.vals, x.sub(v, code))
		}
		for _, v := range it.stores {
			y.stores = append(y.stores, x.sub(v, code))
		}
		return y
	}
	return re(p, true), re(q, false)
}

// align renames what the code carries so that values of one type that are called differently on the two sides
// meet; n picks one of the ways to do so. It returns false when there is no such way.
func (c *pxCmp) align(n int) bool {
	names := func(r *pxRun) map[int][]string {
		out := map[int][]string{}
		for _, it := range r.items {
			for _, en := range it.enters {
				if _, ok := out[en.ord]; !ok {
					out[en.ord] = en.names
				}
			}
		}
		return out
	}
	cn, sn := names(c.code), names(c.spec)
	ren := map[string]string{}
	ways := 1
	for ord := range cn {
		in := map[string]bool{}
		for _, x := range sn[ord] {
			in[x] = true
		}
		var a, b []string
		for _, x := range cn[ord] {
			if in[x] {
				delete(in, x)
			} else {
				a = append(a, x)
			}
		}
		b = sortedKeys(in)
		typ := func(x string) string {
			if i := strings.IndexAny(x, "|#"); i >= 0 {
				return x[:i]
			}
			return x
		}
		by := map[string][2][]string{}
		for _, x := range a {
			v := by[typ(x)]
			v[0] = append(v[0], x)
			by[typ(x)] = v
		}
		for _, x := range b {
			v := by[typ(x)]
			v[1] = append(v[1], x)
			by[typ(x)] = v
		}
		for _, t := range sortedKeys(by) {
			xs, ys := by[t][0], by[t][1]
			if len(xs) != len(ys) || len(xs) > 3 {
				return false
			}
			perms := permutations(len(xs))
			pm := perms[(n/ways)%len(perms)]
			ways *= len(perms)
			for i, x := range xs {
				ren[fmt.Sprintf("L%d.%s", ord, x)] = ys[pm[i]]
			}
		}
	}
	if len(ren) == 0 || n >= ways {
		return false
	}
	cells := map[string]*T{}
	full := func(ord int, nm string) string { return fmt.Sprintf("L%d.%s", ord, nm) }
	types := map[string]*T{}
	collect := func(t *T) {
		anyTerm(t, func(x *T) bool {
			if x.op == "cell" {
				types[x.s] = x
			}
			return false
		})
	}
	for _, it := range c.code.items {
		for _, l := range it.st.lits {
			collect(l)
		}
		for k := range it.st.known {
			collect(k)
		}
		for _, v := range append(append([]*T{}, it.vals...), it.stores...) {
			collect(v)
		}
		for _, en := range it.enters {
			for _, v := range append(append([]*T{}, en.lits...), en.vals...) {
				collect(v)
			}
		}
	}
	for k, to := range ren {
		pre := k[:strings.Index(k, ".")+1]
		if t := types[k]; t != nil {
			cells[k] = mkT(t.typ, "cell", pre+to)
		}
	}
	m := &pxShift{cells: cells, memo: map[*T]*T{}}
	all := func(ts []*T) []*T {
		out := make([]*T, len(ts))
		for i, t := range ts {
			out[i] = m.do(t)
		}
		return out
	}
	sortBy := func(names []string, vals []*T) {
		idx := make([]int, len(names))
		for i := range idx {
			idx[i] = i
		}
		sort.Slice(idx, func(i, j int) bool { return names[idx[i]] < names[idx[j]] })
		n2, v2 := append([]string{}, names...), append([]*T{}, vals...)
		for i, j := range idx {
			names[i], vals[i] = n2[j], v2[j]
		}
	}
	rename := func(ord int, ns []string) []string {
		out := make([]string, len(ns))
		for i, x := range ns {
			out[i] = x
			if y, ok := ren[full(ord, x)]; ok {
				out[i] = y
			}
		}
		return out
	}
	ens := map[*pxEnter]*pxEnter{}
	enter := func(en *pxEnter) *pxEnter {
		if y, ok := ens[en]; ok {
			return y
		}
		y := *en
		y.lits, y.vals = all(en.lits), all(en.vals)
		y.names = rename(en.ord, en.names)
		sortBy(y.names, y.vals)
		ens[en] = &y
		return &y
	}
	out := &pxRun{fn: c.code.fn}
	for _, it := range c.code.items {
		y := *it
		y.enters = nil
		for _, en := range it.enters {
			y.enters = append(y.enters, enter(en))
		}
		y.vals, y.stores = all(it.vals), all(it.stores)
		if it.kind == "back" {
			y.names = rename(it.ord, it.names)
			sortBy(y.names, y.vals)
		}
		st := newState()
		for k, v := range it.st.known {
			st.known[m.do(k)] = v
		}
		st.lits = all(it.st.lits)
		y.st = st
		out.items = append(out.items, &y)
	}
	c.code = out
	return true
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for i := n - 1; i >= 0; i-- {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}
