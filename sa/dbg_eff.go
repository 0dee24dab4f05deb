package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

func dumpEffects(p *Prog) {
	x := p.effects()
	for _, f := range p.fns {
		for _, o := range x.sum[f].modList() {
			if g, ok := o.v.(*ssa.Global); ok {
				w := x.sum[f].mods[o]
				fmt.Println(shortFn(f), globalName(g), p.pos(w.pos), w.what)
			}
		}
	}
}
