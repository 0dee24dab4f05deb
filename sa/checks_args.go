package main

import (
	"go/types"
	"strings"
)

func init() {
	checks["P25"] = checkP25
	checks["P26"] = checkP26
}

// ---------------------------------------------------------------- P25

// workEvent: an event by which a command does its work or touches something outside.
func workEvent(ev *Event) bool {
	switch {
	case ev.kind != "call":
		return false
	case strings.HasPrefix(ev.name, "pkg/ddlctl/"), strings.HasPrefix(ev.name, modPath+"/pkg/ddlctl/"):
		return true
	case fileWriters[ev.name], isExecEvent(ev), ev.name == "os.Stat", ev.name == "os.Open", ev.name == "os.ReadFile":
		return true
	case lastSeg(ev.name) == "OpenContext", ev.name == "database/sql.Open":
		return true
	}
	return false
}

// possibleLens: the lengths below max that the known conditions leave possible for a list.
func possibleLens(st *State, list *T, max int64) map[int64]bool {
	out := map[int64]bool{}
	l := mkLen(list)
	for n := int64(0); n < max; n++ {
		ok := true
		for k, v := range st.known {
			if x := subst(k, map[*T]*T{l: mkInt(n)}); x == tTrue && !v || x == tFalse && v {
				ok = false
				break
			}
		}
		if ok {
			out[n] = true
		}
	}
	return out
}

func checkP25(r *Rep) {
	r.Rule("count", "on every path of a command's entry function that runs its operation, opens a file or database or reads one of its arguments, the number of arguments is known to be exactly the documented one; where it is another one the path returns an error")
	p := r.p
	for _, c := range []struct {
		pkg    string
		n      int64
		opaque []string
	}{
		{"pkg/ddlctl/diff", 2, []string{fnDiff}},
		{"pkg/ddlctl/show", 1, []string{fnShow}},
		{"pkg/ddlctl/generate", 2, []string{fnGenerate, "ddlctl/generate.Parse", "ddlctl/generate.Fprint"}},
		{"pkg/ddlctl/apply", 2, []string{fnDiff, "ddlctl/apply.Apply"}},
	} {
		fn := r.need(c.pkg, "Command")
		if fn == nil {
			continue
		}
		name := c.pkg[strings.LastIndex(c.pkg, "/")+1:] + ".Command"
		e := commandEngine(p, c.opaque...)
		args := mkParam(fn.Params[1].Type(), fn.Params[1].Name())
		reads := func(ts []*T) bool {
			for _, t := range ts {
				if anyTerm(t, func(x *T) bool { return x.op == "elem" && x.a[0] == args && x.a[1].op == "int" }) {
					return true
				}
			}
			return false
		}
		worked, refused := 0, 0
		for _, t := range r.traces(e, "count", fn, nil) {
			counts := possibleLens(t.st, args, 8)
			exactly := len(counts) == 1 && counts[c.n]
			var work *Event
			for _, o := range flatten(t.st.events) {
				if workEvent(o.ev) || reads(o.ev.args) {
					work = o.ev
					break
				}
			}
			if work != nil {
				worked++
				r.Check(exactly, "count", name+"/work", p.pos(work.pos), "%s reaches %s without exactly %d arguments (path: %s)", name, work.name, c.n, litTexts(t.st))
				continue
			}
			if t.kind != rRet || exactly || len(counts) == 0 {
				continue
			}
			err := t.vals[len(t.vals)-1]
			if !counts[c.n] {
				refused++
			}
			r.Check(certainlyError(t.st, err), "count", name+"/refused", p.fnPos(fn), "%s returns success without having done anything, with any number of arguments (path: %s)", name, litTexts(t.st))
		}
		r.Check(worked > 0, "count", name+"/works", p.fnPos(fn), "%s never runs its operation", name)
		r.Check(refused > 0, "count", name+"/refuses", p.fnPos(fn), "%s has no path that refuses another number of arguments than %d", name, c.n)
	}
	r.Min("count", 20)
}

// ---------------------------------------------------------------- P26

// producer finds the event by which the command produces the DDL and the text it wrote.
func producer(st *State) (ev *Event, text *T, at int) {
	for i, v := range st.events {
		if v.kind != "call" {
			continue
		}
		for _, n := range []string{fnGenerate, "ddlctl/generate.Fprint"} {
			if v.name == "pkg/"+n {
				return v, mk("written", v.ret.s+".1", v.ret.a...), i
			}
		}
	}
	return nil, nil, -1
}

func checkP26(r *Rep) {
	r.Rule("complete", "on every path of generate's entry function, a call that creates, truncates or writes the destination comes after the DDL was produced and is reached only where producing it succeeded")
	r.Rule("content", "what is written to the destination is exactly the text produced, replacing what the file held before, and no path reports success without it")
	fn := r.need("pkg/ddlctl/generate", "Command")
	if fn == nil {
		return
	}
	p := r.p
	e := commandEngine(p, fnGenerate, "ddlctl/generate.Parse", "ddlctl/generate.Fprint")
	for _, t := range r.traces(e, "complete", fn, nil) {
		prod, text, at := producer(t.st)
		wrote, clear := 0, true
		for _, o := range flatten(t.st.events) {
			ev := o.ev
			if !fileWriters[ev.name] || ev.name == "os.CreateTemp" {
				continue
			}
			cons := "generate.Command/" + ev.name
			r.Check(prod != nil && o.top > at, "complete", cons+"/after", p.pos(ev.pos), "%s is called before the DDL is produced", ev.name)
			if prod != nil {
				perr := prod.ret
				if tt, ok := perr.typ.(*types.Tuple); ok && tt.Len() > 0 {
					perr = mkExt(prod.ret, tt.Len()-1, errType)
				}
				r.Check(certainlyNil(t.st, perr), "complete", cons+"/success", p.pos(ev.pos), "%s is reached although the DDL may not have been produced (path: %s)", ev.name, litTexts(t.st))
			}
			switch ev.name {
			case "os.WriteFile":
				wrote++
				r.Check(len(ev.args) > 1 && isText(ev.args[1], text), "content", cons, p.pos(ev.pos), "%s is written to the destination, not the DDL produced", short(ev.args[1]))
			case "os.OpenFile", "os.Create":
				if ev.name == "os.OpenFile" {
					f, ok := ev.args[1].intVal()
					r.Check(ok && f&3 != 0 && f&0x200 != 0 && f&0x400 == 0, "content", cons+"/flags", p.pos(ev.pos), "the destination is opened without replacing what it held (flags %s)", short(ev.args[1]))
				}
				h := mkExt(ev.ret, 0, nil)
				for _, o2 := range flatten(t.st.events) {
					w := o2.ev
					if w.kind != "call" || len(w.args) == 0 || !hasTerm(w.args, h) {
						continue
					}
					switch lastSeg(w.name) {
					case "Write", "WriteString":
						wrote++
						r.Check(isText(w.args[1], text), "content", cons+"/"+lastSeg(w.name), p.pos(w.pos), "%s is written to the destination, not the DDL produced", short(w.args[1]))
					case "Close", "Sync":
					default:
						clear = false
					}
				}
			default:
				clear = false
			}
		}
		if t.kind == rRet && certainlyNil(t.st, t.vals[0]) {
			switch {
			case wrote == 1:
				r.Ok("content", "generate.Command/success")
			case !clear:
				r.Undecided("content", "generate.Command/success", "cannot tell what is written to the destination (path: %s)", litTexts(t.st))
			default:
				r.Fail("content", "generate.Command/success", p.fnPos(fn), "generate reports success having written the destination %d times (path: %s)", wrote, litTexts(t.st))
			}
		}
	}
	r.Min("complete", 2)
	r.Min("content", 2)
}

// isText: the term is the text, perhaps as bytes.
func isText(t, text *T) bool {
	if text == nil {
		return false
	}
	t = stripAs(t)
	return t == text || t.op == "bytes" && t.a[0] == text
}
