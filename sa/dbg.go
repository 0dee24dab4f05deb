package main

import (
	"fmt"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func dbgExt() {
	p, err := loadProg("/repo")
	if err != nil {
		panic(err)
	}
	m := map[string]map[string]int{}
	for _, f := range p.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				var n string
				if s := c.Common().StaticCallee(); s != nil {
					if isRepoFn(s) {
						continue
					}
					n = s.String()
				} else if c.Common().IsInvoke() {
					n = "I:" + c.Common().Method.FullName()
				} else if _, ok := c.Common().Value.(*ssa.Builtin); ok {
					continue
				} else {
					n = "dyn"
				}
				if m[n] == nil {
					m[n] = map[string]int{}
				}
				m[n][shortFn(f)]++
			}
		}
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Print(k, " ")
		n := 0
		for f, c := range m[k] {
			if n < 4 {
				fmt.Print(" ", f, ":", c)
			}
			n++
		}
		if n >= 4 {
			fmt.Print(" ...", n)
		}
		fmt.Println()
	}
}
