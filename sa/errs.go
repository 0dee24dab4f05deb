package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// errResult: index of the error result, or -1.
func errResult(sig *types.Signature) int {
	n := sig.Results().Len()
	for i := n - 1; i >= 0; i-- {
		if isErrorType(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

// modular makes every repository function that can fail an effect of its own, so that each function is analysed alone.
func modular(e *Engine) {
	base := e.opaque
	e.opaque = func(fn *ssa.Function) bool {
		return base(fn) || (isRepoFn(fn) && errResult(fn.Signature) >= 0 && fn.Parent() == nil)
	}
	e.effect = func(fn *ssa.Function) bool { return errResult(fn.Signature) >= 0 }
}

// ---- error value flow ----
//
// For one error value (the error result of a call, or an error parameter) the analysis follows every path on which it
// may be non-nil and determines how the path ends: with the value (or something wrapping it) in the error result, with
// another error, in a panic or process exit, or in a success return - the failure was swallowed.

type errFlow struct {
	p     *Prog
	busy  map[string]bool
	memo  map[string]endSet
	lists map[*ssa.Parameter]ssa.Value // the list whose elements a function is called with
	preds map[*ssa.Function]int        // 0 unknown, 1 tolerating predicate, 2 not
	used  map[string]int
}

type endSet struct {
	wrapped bool // some path ends returning the value or a wrapper of it
	other   []token.Pos
	swallow []token.Pos
	escapes []token.Pos // a success return after the value was put where it is not followed
	returns bool        // some path returns at all
}

func newErrFlow(p *Prog) *errFlow {
	return &errFlow{p: p, busy: map[string]bool{}, memo: map[string]endSet{}, lists: map[*ssa.Parameter]ssa.Value{}, preds: map[*ssa.Function]int{}, used: map[string]int{}}
}

// conditions under which a failure may be treated as success, each with its reason.
var toleratedSentinels = map[string]string{
	modPath + "/pkg/ddl.ErrNoDifference":                          "nothing to do is a successful outcome",
	"github.com/kunitsucom/util.go/exp/cli.ErrHelp":               "printing the usage is a successful outcome",
	modPath + "/pkg/apperr.ErrDDLTagGoAnnotationNotFoundInSource": "a Go file without annotations contributes nothing",
}

var toleratedTexts = map[string]string{
	"already exists":        "MySQL: the statement took effect in an earlier attempt of the retry loop",
	"Duplicate column name": "MySQL: the statement took effect in an earlier attempt of the retry loop",
}

// calls whose error is allowed to be ignored, with the reason; key: callee, value: predicate on the call.
func (x *errFlow) ignorable(c ssa.CallInstruction, name string) (string, bool) {
	cc := c.Common()
	switch name {
	case "fmt.Printf", "fmt.Println", "fmt.Print":
		return "informational output", true
	case "fmt.Fprintln", "fmt.Fprintf", "fmt.Fprint":
		if isStdStream(cc.Args[0]) && !isResultText(cc.Args[1]) {
			return "informational output", true
		}
		if isBuf(stripIface(cc.Args[0]).Type()) {
			return "in-memory buffer", true
		}
	case "(*os.File).WriteString", "io.WriteString":
		if isBuf(stripIface(cc.Args[0]).Type()) {
			return "in-memory buffer", true
		}
		if x.isDump(c.Parent()) {
			return "debug dump", true
		}
		if isStdStream(cc.Args[0]) {
			if _, ok := cc.Args[1].(*ssa.Const); ok {
				return "progress message", true
			}
		}
	case "(*log.Logger).Output":
		return "logging", true
	case "(*github.com/kunitsucom/util.go/exp/cli.Command).GetOptionString", "(*github.com/kunitsucom/util.go/exp/cli.Command).GetOptionBool":
		return "an option not offered by the command keeps its zero value", true
	case "(*encoding/json.Encoder).Encode":
		return "debug dump of the configuration", true
	case "path/filepath.Abs":
		return "falls back to the given path", true
	case "os.Stat":
		if onlyForDirTest(c) {
			return "a destination that does not exist is created", true
		}
	case "(io.Writer).Write", "go/ast.Fprint":
		if x.isDump(c.Parent()) {
			return "debug dump", true
		}
	}
	if strings.HasPrefix(name, "(*strings.Builder).") || strings.HasPrefix(name, "(*bytes.Buffer).") {
		return "in-memory buffer never fails", true
	}
	if f := cc.StaticCallee(); f != nil && (shortFn(f) == "internal/lang/go.dumpDDLSource") {
		return "debug dump", true
	}
	return "", false
}

// isDump: functions whose only output goes to the loggers.
func (x *errFlow) isDump(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() && c.Common().Method.Name() == "LineWriter" {
					return errResult(f.Signature) < 0
				}
			}
		}
	}
	return false
}

func isResultText(v ssa.Value) bool { return false }

func stripIface(v ssa.Value) ssa.Value {
	for {
		switch w := v.(type) {
		case *ssa.MakeInterface:
			v = w.X
		case *ssa.ChangeInterface:
			v = w.X
		case *ssa.ChangeType:
			v = w.X
		default:
			return v
		}
	}
}

func isStdStream(v ssa.Value) bool {
	v = stripIface(v)
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok {
			n := globalName(g)
			return n == "os.Stdout" || n == "os.Stderr"
		}
	}
	return false
}

// onlyForDirTest: the os.Stat result decides nothing but whether the path is an existing directory.
func onlyForDirTest(c ssa.CallInstruction) bool {
	v, ok := c.(*ssa.Call)
	if !ok {
		return false
	}
	for _, ref := range *v.Referrers() {
		ex, ok := ref.(*ssa.Extract)
		if !ok {
			return false
		}
		if ex.Index == 1 {
			for _, r2 := range *ex.Referrers() {
				b, ok := r2.(*ssa.BinOp)
				if !ok || (b.Op != token.EQL && b.Op != token.NEQ) {
					return false
				}
			}
		} else {
			for _, r2 := range *ex.Referrers() {
				c2, ok := r2.(*ssa.Call)
				if !ok || !c2.Call.IsInvoke() || c2.Call.Method.Name() != "IsDir" {
					return false
				}
			}
		}
	}
	return true
}

func calleeName(c *ssa.CallCommon) string {
	if f := c.StaticCallee(); f != nil {
		return fnName(f)
	}
	if c.IsInvoke() {
		return c.Method.FullName()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin:" + b.Name()
	}
	if u, ok := c.Value.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok {
			return "var:" + globalName(g)
		}
	}
	return "dyn"
}

func isErrorfCall(c *ssa.CallCommon) bool {
	switch calleeName(c) {
	case "var:" + modPath + "/pkg/apperr.Errorf", "fmt.Errorf", "github.com/kunitsucom/util.go/errors.Errorf":
		return true
	}
	return false
}

// constSuffix gives the known constant tail of a string value.
func constSuffix(v ssa.Value) (string, bool) {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.String {
			return constant.StringVal(v.Value), true
		}
	case *ssa.BinOp:
		if v.Op == token.ADD {
			return constSuffix(v.Y)
		}
	case *ssa.Call:
		switch calleeName(&v.Call) {
		case "strings.Join":
			as, ok := varargs(v.Call.Args[0])
			sep, ok2 := v.Call.Args[1].(*ssa.Const)
			if ok && ok2 && len(as) > 0 && as[len(as)-1] != nil {
				last, ok := constSuffix(as[len(as)-1])
				if ok && len(as) > 1 && constant.StringVal(sep.Value) == "" {
					before, _ := constSuffix(as[len(as)-2])
					last = before + last
				}
				return last, ok
			}
		case "fmt.Sprintf":
			// %%w in the format of the format
			if f, ok := constSuffix(v.Call.Args[0]); ok && strings.HasSuffix(f, ": %%w") {
				return ": %w", true
			}
		}
	}
	return "", false
}

// varargs gives the values stored in the variadic slice v, in order.
func varargs(v ssa.Value) ([]ssa.Value, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value == nil {
		return nil, true
	}
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	at, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	out := make([]ssa.Value, at.Len())
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		c, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, false
		}
		for _, r2 := range *ia.Referrers() {
			if s, ok := r2.(*ssa.Store); ok {
				out[c.Int64()] = s.Val
			}
		}
	}
	return out, true
}

// pathState: what is known on one path about one error value.
type pathState struct {
	carr   map[ssa.Value]bool // values equal to, or wrapping, the error
	cells  map[string]bool    // memory cells (variables, fields of variables) holding such a value
	def    bool               // known non-nil
	others map[ssa.Value]bool // other errors known non-nil on the path
	phi    map[*ssa.Phi]ssa.Value
	via    bool // stored into a captured error variable
	esc    bool // stored where it is not followed
}

func (s *pathState) clone() *pathState {
	n := &pathState{carr: map[ssa.Value]bool{}, cells: map[string]bool{}, def: s.def, others: map[ssa.Value]bool{}, phi: map[*ssa.Phi]ssa.Value{}, via: s.via, esc: s.esc}
	for k := range s.carr {
		n.carr[k] = true
	}
	for k := range s.cells {
		n.cells[k] = true
	}
	for k := range s.others {
		n.others[k] = true
	}
	for k, v := range s.phi {
		n.phi[k] = v
	}
	return n
}

func (s *pathState) key(b *ssa.BasicBlock, i int) string {
	var ks []string
	for k := range s.carr {
		ks = append(ks, "c"+k.Name())
	}
	for k := range s.cells {
		ks = append(ks, "m"+k)
	}
	for k := range s.others {
		ks = append(ks, "o"+k.Name())
	}
	for k, v := range s.phi {
		ks = append(ks, "p"+k.Name()+"="+v.Name())
	}
	sort.Strings(ks)
	return fmt.Sprintf("%d.%d.%v.%v.%v.%s", b.Index, i, s.def, s.via, s.esc, strings.Join(ks, ","))
}

func (x *errFlow) resolve(s *pathState, v ssa.Value) ssa.Value {
	for i := 0; i < 20; i++ {
		switch w := v.(type) {
		case *ssa.MakeInterface:
			v = w.X
			continue
		case *ssa.ChangeInterface:
			v = w.X
			continue
		case *ssa.ChangeType:
			v = w.X
			continue
		case *ssa.Phi:
			if y, ok := s.phi[w]; ok && y != w {
				v = y
				continue
			}
		}
		break
	}
	return v
}

func (x *errFlow) isCarrier(s *pathState, v ssa.Value) bool {
	if s.carr[v] {
		return true
	}
	w := x.resolve(s, v)
	if s.carr[w] {
		return true
	}
	if u, ok := w.(*ssa.UnOp); ok && u.Op == token.MUL && s.cells[cellKey(u.X)] {
		// a load is only trusted when recorded as carrier at its execution
		return s.carr[u]
	}
	return false
}

func (x *errFlow) isSentinel(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	return ok && isErrorType(u.Type()) && (x.p.sent[globalName(g)] || !isRepoPath(g.Pkg.Pkg.Path()))
}

// definiteErr: v is certainly a non-nil error.
func (x *errFlow) definiteErr(s *pathState, v ssa.Value) bool {
	v = x.resolve(s, v)
	if s.def && x.isCarrier(s, v) || s.others[v] {
		return true
	}
	switch w := v.(type) {
	case *ssa.Call:
		if isErrorfCall(&w.Call) {
			return true
		}
		if calleeName(&w.Call) == "errors.New" {
			return true
		}
		if f := w.Call.StaticCallee(); f != nil && isRepoFn(f) && errResult(f.Signature) == 0 && f.Signature.Results().Len() == 1 {
			return x.alwaysFails(f)
		}
	case *ssa.UnOp:
		return x.isSentinel(w)
	}
	return false
}

func (x *errFlow) alwaysFails(f *ssa.Function) bool {
	k := "af:" + f.String()
	if x.busy[k] {
		return false
	}
	x.busy[k] = true
	defer delete(x.busy, k)
	if len(f.Blocks) == 0 {
		return false
	}
	st := &pathState{carr: map[ssa.Value]bool{}, others: map[ssa.Value]bool{}, phi: map[*ssa.Phi]ssa.Value{}}
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			v := ret.Results[len(ret.Results)-1]
			if ph, ok := v.(*ssa.Phi); ok {
				for _, e := range ph.Edges {
					if !x.definiteErr(st, e) {
						return false
					}
				}
				continue
			}
			if !x.definiteErr(st, v) {
				return false
			}
		}
	}
	return true
}

// flow follows value v from instruction (b, i) on.
func (x *errFlow) flow(fn *ssa.Function, b *ssa.BasicBlock, i int, init *pathState) endSet {
	var out endSet
	seen := map[string]bool{}
	ei := errResult(fn.Signature)
	var walk func(b *ssa.BasicBlock, i int, s *pathState, pred *ssa.BasicBlock)
	enter := func(to, from *ssa.BasicBlock, s *pathState) {
		n := s.clone()
		pi := -1
		for k, p := range to.Preds {
			if p == from {
				pi = k
			}
		}
		i := 0
		type upd struct {
			p *ssa.Phi
			v ssa.Value
		}
		var us []upd
		for _, in := range to.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			i++
			if !isErrorType(p.Type()) && !isErrorList(p.Type()) && !isBoolT(p.Type()) && !isIntT(p.Type()) {
				continue
			}
			us = append(us, upd{p, p.Edges[pi]})
		}
		was := map[*ssa.Phi]bool{}
		isO := map[*ssa.Phi]bool{}
		res := map[*ssa.Phi]ssa.Value{}
		for _, u := range us {
			was[u.p] = x.isCarrier(s, u.v)
			isO[u.p] = s.others[u.v] || s.others[x.resolve(s, u.v)]
			res[u.p] = x.resolve(s, u.v)
		}
		for _, u := range us {
			delete(n.carr, u.p)
			delete(n.others, u.p)
			delete(n.phi, u.p)
			if was[u.p] {
				n.carr[u.p] = true
			} else if isO[u.p] {
				n.others[u.p] = true
			} else if isIntT(u.p.Type()) {
				if _, ok := res[u.p].(*ssa.Const); ok {
					n.phi[u.p] = res[u.p]
				}
			} else if isBoolT(u.p.Type()) {
				if _, ok := res[u.p].(*ssa.Const); ok {
					n.phi[u.p] = res[u.p]
				} else {
					n.phi[u.p] = u.v
				}
			} else if _, isPhi := res[u.p].(*ssa.Phi); !isPhi {
				n.phi[u.p] = res[u.p]
			}
		}
		walk(to, i, n, from)
	}
	walk = func(b *ssa.BasicBlock, i int, s *pathState, pred *ssa.BasicBlock) {
		k := s.key(b, i)
		if seen[k] {
			return
		}
		seen[k] = true
		for ; i < len(b.Instrs); i++ {
			switch in := b.Instrs[i].(type) {
			case *ssa.Store:
				if x.isCarrier(s, in.Val) {
					s.cells[cellKey(in.Addr)] = true
					switch a := in.Addr.(type) {
					case *ssa.FreeVar:
						if x.reachesResult(a) {
							s.via = true
						}
					case *ssa.Parameter:
						if x.reachesResultParam(a, 0) {
							s.via = true
						}
					case *ssa.FieldAddr:
						if _, ok := a.X.(*ssa.Alloc); !ok {
							s.esc = true
						}
					case *ssa.IndexAddr, *ssa.Global:
						if !forVarargs(in.Addr) {
							s.esc = true
						}
					}
				} else if s.cells[cellKey(in.Addr)] {
					delete(s.cells, cellKey(in.Addr))
				}
			case *ssa.MapUpdate:
				if x.isCarrier(s, in.Value) {
					s.esc = true
				}
			case *ssa.Send:
				if x.isCarrier(s, in.X) {
					s.esc = true
				}
			case *ssa.UnOp:
				if in.Op == token.MUL && (s.cells[cellKey(in.X)] || x.elemOfCarrier(s, in.X)) {
					s.carr[in] = true
				} else if in.Op == token.MUL {
					delete(s.carr, in)
				}
			case *ssa.Extract:
				// re-executing a call gives a new value
				if isErrorType(in.Type()) {
					if s.carr[in] && in != firstKey(init) {
						delete(s.carr, in)
					} else if s.carr[in] {
						delete(s.carr, in)
					}
					delete(s.others, in)
					if c, ok := in.Tuple.(*ssa.Call); ok && s.carr[c] {
						s.carr[in] = true
					}
				}
			case *ssa.Call:
				delete(s.carr, in)
				delete(s.others, in)
				if x.callEffect(s, in) {
					out.wrapped = true
					return
				}
				n := calleeName(&in.Call)
				if n == "log.Fatalf" || n == "log.Fatal" || n == "log.Fatalln" || n == "log.Panicf" {
					out.wrapped = true
					return
				}
				if n == "os.Exit" {
					if c, ok := x.resolve(s, in.Call.Args[0]).(*ssa.Const); ok && c.Int64() != 0 {
						out.wrapped = true
						return
					}
				}
				if n == "github.com/kunitsucom/util.go/errors.PanicOrIgnore" && x.isCarrier(s, in.Call.Args[0]) {
					ok := true
					if as, k := varargs(in.Call.Args[1]); k {
						for _, a := range as {
							if !x.toleratedSentinel(a) {
								ok = false
							}
						}
					} else {
						ok = false
					}
					if ok {
						return
					}
				}
			case *ssa.Panic:
				out.wrapped = true
				return
			case *ssa.Return:
				out.returns = true
				if ei < 0 {
					if len(in.Results) == 1 && x.isExitCode(fn) {
						if c, ok := x.resolve(s, in.Results[0]).(*ssa.Const); ok {
							if c.Int64() != 0 {
								out.wrapped = true
								return
							}
						} else {
							out.escapes = append(out.escapes, in.Pos())
							return
						}
					}
					switch {
					case s.via:
						out.wrapped = true
					case s.esc:
						out.escapes = append(out.escapes, in.Pos())
					default:
						out.swallow = append(out.swallow, in.Pos())
					}
					return
				}
				rv := in.Results[ei]
				// named results are loaded before the return
				if x.isCarrier(s, rv) {
					out.wrapped = true
					return
				}
				if s.via {
					out.wrapped = true
					return
				}
				if s.esc {
					out.escapes = append(out.escapes, in.Pos())
					return
				}
				if x.definiteErr(s, rv) {
					if !s.anyOther(x, rv) {
						out.other = append(out.other, in.Pos())
					}
					return
				}
				out.swallow = append(out.swallow, in.Pos())
				return
			case *ssa.Jump:
				enter(b.Succs[0], b, s)
				return
			case *ssa.If:
				t, f := x.cond(s, in.Cond)
				if t != nil {
					enter(b.Succs[0], b, t)
				}
				if f != nil {
					enter(b.Succs[1], b, f)
				}
				return
			}
		}
	}
	walk(b, i, init, nil)
	return out
}

func firstKey(s *pathState) ssa.Value { return nil }

// anyOther: the returned error reports a different failure already known on this path.
func (s *pathState) anyOther(x *errFlow, rv ssa.Value) bool {
	v := x.resolve(s, rv)
	if s.others[v] {
		return true
	}
	if c, ok := v.(*ssa.Call); ok && isErrorfCall(&c.Call) {
		if as, ok := varargs(c.Call.Args[1]); ok {
			for _, a := range as {
				if a != nil && s.others[x.resolve(s, a)] {
					return true
				}
			}
		}
	}
	return false
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int
}

// isExitCode: the function's int result is what the process exits with, wherever it is called.
func (x *errFlow) isExitCode(fn *ssa.Function) bool {
	if fn.Signature.Results().Len() != 1 || !isIntT(fn.Signature.Results().At(0).Type()) {
		return false
	}
	n := 0
	for _, f := range x.p.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(fn) {
						continue
					}
					c, ok := in.(*ssa.Call)
					if !ok || c.Call.Value != ssa.Value(fn) {
						return false
					}
					n++
					for _, u := range *c.Referrers() {
						switch u := u.(type) {
						case *ssa.Call:
							if calleeName(&u.Call) != "os.Exit" {
								return false
							}
						case *ssa.Return:
							if f == fn || !x.isExitCode(f) {
								return false
							}
						case *ssa.BinOp, *ssa.DebugRef:
						default:
							return false
						}
					}
					if c.Referrers() == nil || len(*c.Referrers()) == 0 {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

// cond gives the states of the true and the false branch (nil: the fact ends there or the branch is impossible).
func (x *errFlow) cond(s *pathState, c ssa.Value) (t, f *pathState) {
	c = x.resolve(s, c)
	switch c := c.(type) {
	case *ssa.Const:
		if c.Value != nil && c.Value.Kind() == constant.Bool {
			if constant.BoolVal(c.Value) {
				return s.clone(), nil
			}
			return nil, s.clone()
		}
	case *ssa.UnOp:
		if c.Op == token.NOT {
			a, b := x.cond(s, c.X)
			return b, a
		}
	case *ssa.BinOp:
		if n, _, ok := lenCmp(c); ok && x.isCarrier(s, n) {
			switch c.Op {
			case token.GTR: // len > 0
				return s.clone(), nil
			case token.LEQ:
				return nil, s.clone()
			}
		}
		if c.Op == token.EQL || c.Op == token.NEQ {
			v, o := c.X, c.Y
			if isNilConst(v) {
				v, o = o, v
			}
			if isNilConst(o) && (isErrorType(v.Type()) || isErrorList(v.Type()) && x.isCarrier(s, v)) {
				var isNil, non *pathState
				switch {
				case x.isCarrier(s, v):
					non = s.clone()
					non.def = true
				case x.definiteErr(s, v):
					non = s.clone()
				case isNilConst(x.resolve(s, v)):
					isNil = s.clone()
				default:
					isNil, non = s.clone(), s.clone()
					non.others[x.resolve(s, v)] = true
					if u, ok := x.resolve(s, v).(*ssa.UnOp); ok && u.Op == token.MUL {
						// a captured or named error that is already set: that failure is reported
						if cellIsResult(x, u.X) {
							non.via = true
						}
					}
				}
				if c.Op == token.EQL {
					return isNil, non
				}
				return non, isNil
			}
			// len(errs) against 0, errs holding the failure
			if n, k, ok := lenCmp(c); ok && x.isCarrier(s, n) && k {
				if c.Op == token.EQL {
					return nil, s.clone()
				}
				return s.clone(), nil
			}
			// err == sentinel
			if isErrorType(v.Type()) && x.isCarrier(s, v) && x.toleratedSentinel(o) {
				n := s.clone()
				if c.Op == token.EQL {
					return nil, n
				}
				return n, nil
			}
		}
	case *ssa.Call:
		if len(c.Call.Args) == 2 && x.containsFunc(s, &c.Call) {
			return nil, s.clone()
		}
		for _, a := range c.Call.Args {
			if x.isCarrier(s, a) {
				if x.tolerates(s, &c.Call) {
					n := s.clone()
					return nil, n
				}
				n := s.clone()
				if calleeName(&c.Call) == "errors.Is" || calleeName(&c.Call) == "errors.As" {
					n.def = true
				}
				return n, s.clone()
			}
		}
	}
	return s.clone(), s.clone()
}

// lenCmp: a comparison of the length of a list with 0.
func lenCmp(c *ssa.BinOp) (list ssa.Value, zero, ok bool) {
	call, isCall := c.X.(*ssa.Call)
	k, isConst := c.Y.(*ssa.Const)
	if !isCall || !isConst || k.Value == nil || calleeName(&call.Call) != "builtin:len" {
		return nil, false, false
	}
	if k.Value.Kind() != constant.Int || k.Int64() != 0 {
		return nil, false, false
	}
	return call.Call.Args[0], true, true
}

// containsFunc: slices.ContainsFunc(list, func(t) bool { the failure is t }) for a list of tolerated conditions.
func (x *errFlow) containsFunc(s *pathState, c *ssa.CallCommon) bool {
	if !strings.HasPrefix(calleeName(c), "slices.ContainsFunc") {
		return false
	}
	mc, ok := c.Args[1].(*ssa.MakeClosure)
	if !ok {
		return false
	}
	holds := false
	st := &pathState{carr: map[ssa.Value]bool{}, cells: map[string]bool{}, def: true, others: map[ssa.Value]bool{}, phi: map[*ssa.Phi]ssa.Value{}}
	fn := mc.Fn.(*ssa.Function)
	for i, b := range mc.Bindings {
		if x.isCarrier(s, b) {
			st.carr[fn.FreeVars[i]] = true
			holds = true
		}
		if s.cells[cellKey(b)] {
			st.cells[cellKey(fn.FreeVars[i])] = true
			holds = true
		}
	}
	if !holds || len(fn.Params) != 1 {
		return false
	}
	x.lists[fn.Params[0]] = c.Args[0]
	return x.tolBody(fn, st)
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func cellIsResult(x *errFlow, a ssa.Value) bool {
	switch a := a.(type) {
	case *ssa.FreeVar:
		return x.reachesResult(a)
	case *ssa.Parameter:
		return x.reachesResultParam(a, 0)
	}
	return false
}

// reachesResultParam: every caller passes the address of its error result, read after the call.
func (x *errFlow) reachesResultParam(p *ssa.Parameter, depth int) bool {
	fn, idx, n := p.Parent(), -1, 0
	pt, ok := p.Type().Underlying().(*types.Pointer)
	if !ok || !isErrorType(pt.Elem()) || depth > 4 {
		return false
	}
	for i, q := range fn.Params {
		if q == p {
			idx = i
		}
	}
	for _, g := range x.p.fns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() != fn {
					continue
				}
				n++
				switch a := c.Common().Args[idx].(type) {
				case *ssa.Alloc:
					ei := errResult(g.Signature)
					if ei < 0 {
						return false
					}
					for _, rb := range g.Blocks {
						ret, isRet := rb.Instrs[len(rb.Instrs)-1].(*ssa.Return)
						if !isRet || rb == g.Recover {
							continue
						}
						if u, ok := ret.Results[ei].(*ssa.UnOp); !ok || u.Op != token.MUL || u.X != ssa.Value(a) {
							return false
						}
					}
				case *ssa.FreeVar:
					if !x.reachesResult(a) {
						return false
					}
				case *ssa.Parameter:
					if !x.reachesResultParam(a, depth+1) {
						return false
					}
				default:
					return false
				}
			}
		}
	}
	return n > 0
}

// cellKey names the memory cell at an address.
func cellKey(a ssa.Value) string {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		return fmt.Sprintf("%s.%d", cellKey(a.X), a.Field)
	case *ssa.IndexAddr:
		if c, ok := a.Index.(*ssa.Const); ok {
			return fmt.Sprintf("%s[%s]", cellKey(a.X), c)
		}
	}
	return a.Name()
}

// forVarargs: the address is an element of an argument list or of a list literal.
func forVarargs(a ssa.Value) bool {
	ia, ok := a.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	al, ok := ia.X.(*ssa.Alloc)
	return ok && (al.Comment == "varargs" || al.Comment == "slicelit")
}

// elemOfCarrier: the address of an element of a list that holds the failure.
func (x *errFlow) elemOfCarrier(s *pathState, a ssa.Value) bool {
	ia, ok := a.(*ssa.IndexAddr)
	return ok && isErrorList(ia.X.Type()) && x.isCarrier(s, ia.X)
}

func isErrorList(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && isErrorType(sl.Elem())
}

// reachesResult: the captured error variable is a result variable of the enclosing function, read after the
// deferred closure ran.
func (x *errFlow) reachesResult(fv *ssa.FreeVar) bool {
	fn := fv.Parent()
	par := fn.Parent()
	if par == nil {
		return false
	}
	idx := -1
	for i, f := range fn.FreeVars {
		if f == fv {
			idx = i
		}
	}
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != ssa.Value(fn) {
				continue
			}
			cell := mc.Bindings[idx]
			if fv2, ok := cell.(*ssa.FreeVar); ok {
				if !x.reachesResult(fv2) {
					return false
				}
				continue
			}
			deferred, called := false, false
			for _, ref := range *mc.Referrers() {
				switch ref.(type) {
				case *ssa.Defer:
					deferred = true
				case *ssa.Call:
					called = true
				}
			}
			_ = called
			// every return loads the cell after the deferred calls ran
			ok2 := false
			for _, rb := range par.Blocks {
				ret, isRet := rb.Instrs[len(rb.Instrs)-1].(*ssa.Return)
				if !isRet {
					continue
				}
				if rb == par.Recover {
					continue
				}
				ei := errResult(par.Signature)
				if ei < 0 {
					return false
				}
				u, isLoad := ret.Results[ei].(*ssa.UnOp)
				if !isLoad || u.Op != token.MUL || u.X != cell {
					if deferred {
						return false
					}
					continue
				}
				ok2 = true
			}
			if !ok2 {
				return false
			}
		}
	}
	return true
}

func (x *errFlow) toleratedSentinel(v ssa.Value) bool {
	vs, ok := x.alternatives(v, 0)
	if !ok || len(vs) == 0 {
		return false
	}
	for _, v := range vs {
		u, ok := stripIface(v).(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		g, ok := u.X.(*ssa.Global)
		if !ok {
			return false
		}
		if _, tol := toleratedSentinels[globalName(g)]; !tol {
			return false
		}
		x.used[globalName(g)]++
	}
	return true
}

// alternatives: every value v may have, where v is chosen among the elements of a list that is written out.
func (x *errFlow) alternatives(v ssa.Value, depth int) ([]ssa.Value, bool) {
	if depth > 6 {
		return nil, false
	}
	v = stripIface(v)
	all := func(vs []ssa.Value) ([]ssa.Value, bool) {
		var out []ssa.Value
		for _, w := range vs {
			if w == nil {
				return nil, false
			}
			r, ok := x.alternatives(w, depth+1)
			if !ok {
				return nil, false
			}
			out = append(out, r...)
		}
		return out, true
	}
	switch w := v.(type) {
	case *ssa.Phi:
		return all(w.Edges)
	case *ssa.Parameter:
		if l, ok := x.lists[w]; ok {
			if vs, ok := x.listElems(l); ok {
				return all(vs)
			}
		}
	case *ssa.UnOp:
		if ia, ok := w.X.(*ssa.IndexAddr); ok && w.Op == token.MUL {
			if vs, ok := x.listElems(ia.X); ok {
				return all(vs)
			}
			return nil, false
		}
	case *ssa.Index:
		if vs, ok := x.listElems(w.X); ok {
			return all(vs)
		}
		return nil, false
	case *ssa.Extract:
		if nx, ok := w.Tuple.(*ssa.Next); ok && nx.IsString {
			return nil, false
		}
	}
	return []ssa.Value{v}, true
}

// listElems: the elements of a list or array that is written out, here or as the initial value of a package variable.
func (x *errFlow) listElems(l ssa.Value) ([]ssa.Value, bool) {
	switch w := l.(type) {
	case *ssa.Slice:
		if vs, ok := varargs(w); ok {
			return vs, true
		}
		if g, ok := w.X.(*ssa.Global); ok {
			return x.globalElems(g)
		}
	case *ssa.Global:
		return x.globalElems(w)
	case *ssa.Alloc:
		return arrayElems(w)
	case *ssa.UnOp:
		if w.Op != token.MUL {
			return nil, false
		}
		switch a := w.X.(type) {
		case *ssa.Global:
			return x.globalElems(a)
		case *ssa.Alloc:
			var val ssa.Value
			for _, ref := range *a.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
					if val != nil {
						return nil, false
					}
					val = st.Val
				}
			}
			if val != nil {
				return x.listElems(val)
			}
			return arrayElems(a)
		}
	}
	return nil, false
}

func (x *errFlow) globalElems(g *ssa.Global) ([]ssa.Value, bool) {
	var val ssa.Value
	var elems []ssa.Value
	fns := x.p.fns
	if in := g.Pkg.Func("init"); in != nil {
		fns = append([]*ssa.Function{in}, fns...)
	}
	seen := map[*ssa.Function]bool{}
	for _, fn := range fns {
		if seen[fn] {
			continue
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if ia, ok := st.Addr.(*ssa.IndexAddr); ok && ia.X == ssa.Value(g) {
					elems = append(elems, st.Val)
				}
				if st.Addr == ssa.Value(g) {
					if val != nil || fn.Name() != "init" {
						return nil, false
					}
					val = st.Val
				}
			}
		}
	}
	if val == nil {
		return elems, len(elems) > 0
	}
	return x.listElems(val)
}

func arrayElems(al *ssa.Alloc) ([]ssa.Value, bool) {
	at, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	out := make([]ssa.Value, at.Len())
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		c, ok := ia.Index.(*ssa.Const)
		for _, r2 := range *ia.Referrers() {
			if s, isStore := r2.(*ssa.Store); isStore {
				if !ok {
					return nil, false
				}
				out[c.Int64()] = s.Val
			}
		}
	}
	return out, true
}

// tolerates: the predicate call being true means that the failure is one of the tolerated conditions.
func (x *errFlow) tolerates(s *pathState, c *ssa.CallCommon) bool {
	switch calleeName(c) {
	case "errors.Is":
		return x.toleratedSentinel(c.Args[1])
	case "github.com/kunitsucom/util.go/errors.Contains":
		vs, ok := x.alternatives(c.Args[1], 0)
		for _, v := range vs {
			t, isConst := v.(*ssa.Const)
			if !isConst || t.Value == nil || t.Value.Kind() != constant.String {
				return false
			}
			if _, tol := toleratedTexts[constant.StringVal(t.Value)]; !tol {
				return false
			}
		}
		return ok && len(vs) > 0
	}
	fs := x.targets(c)
	if len(fs) == 0 {
		return false
	}
	for _, f := range fs {
		if !x.tolPred(f) {
			return false
		}
	}
	return true
}

// targets resolves a call: static callee, or all functions passed for a parameter.
func (x *errFlow) targets(c *ssa.CallCommon) []*ssa.Function {
	if f := c.StaticCallee(); f != nil {
		if isRepoFn(f) {
			return []*ssa.Function{f}
		}
		return nil
	}
	if c.IsInvoke() {
		return nil
	}
	return x.fnValues(c.Value, map[ssa.Value]bool{})
}

func (x *errFlow) fnValues(v ssa.Value, seen map[ssa.Value]bool) []*ssa.Function {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{v}
	case *ssa.MakeClosure:
		return []*ssa.Function{v.Fn.(*ssa.Function)}
	case *ssa.ChangeType:
		return x.fnValues(v.X, seen)
	case *ssa.Phi:
		var out []*ssa.Function
		for _, e := range v.Edges {
			r := x.fnValues(e, seen)
			if r == nil && !seen[e] {
				return nil
			}
			out = append(out, r...)
		}
		return out
	case *ssa.Parameter:
		fn := v.Parent()
		idx := -1
		for i, p := range fn.Params {
			if p == v {
				idx = i
			}
		}
		var out []*ssa.Function
		for _, g := range x.p.fns {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn {
						r := x.fnValues(c.Common().Args[idx], seen)
						if r == nil {
							return nil
						}
						out = append(out, r...)
					}
				}
			}
		}
		return out
	case *ssa.FreeVar:
		fn := v.Parent()
		idx := -1
		for i, f := range fn.FreeVars {
			if f == v {
				idx = i
			}
		}
		var out []*ssa.Function
		if fn.Parent() == nil {
			return nil
		}
		for _, b := range fn.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
					r := x.fnValues(mc.Bindings[idx], seen)
					if r == nil {
						return nil
					}
					out = append(out, r...)
				}
			}
		}
		return out
	case *ssa.UnOp:
		if v.Op == token.MUL {
			// a captured variable cell: all stores to it
			var cell ssa.Value = v.X
			return x.cellFns(cell, seen)
		}
	}
	return nil
}

func (x *errFlow) cellFns(cell ssa.Value, seen map[ssa.Value]bool) []*ssa.Function {
	switch c := cell.(type) {
	case *ssa.Alloc:
		var out []*ssa.Function
		for _, ref := range *c.Referrers() {
			if s, ok := ref.(*ssa.Store); ok && s.Addr == cell {
				r := x.fnValues(s.Val, seen)
				if r == nil {
					return nil
				}
				out = append(out, r...)
			}
		}
		return out
	case *ssa.FreeVar:
		fn := c.Parent()
		for i, f := range fn.FreeVars {
			if f != c || fn.Parent() == nil {
				continue
			}
			for _, b := range fn.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
						return x.cellFns(mc.Bindings[i], seen)
					}
				}
			}
		}
	}
	return nil
}

// tolPred: a bool function of an error that is true only for tolerated conditions.
func (x *errFlow) tolPred(f *ssa.Function) bool {
	if v := x.preds[f]; v != 0 {
		return v == 1
	}
	x.preds[f] = 2
	if len(f.Blocks) == 0 || f.Signature.Results().Len() != 1 || !isBoolT(f.Signature.Results().At(0).Type()) {
		return false
	}
	var ep ssa.Value
	for _, p := range f.Params {
		if isErrorType(p.Type()) {
			ep = p
		}
	}
	if ep == nil {
		return false
	}
	s := &pathState{carr: map[ssa.Value]bool{ep: true}, cells: map[string]bool{}, def: true, others: map[ssa.Value]bool{}, phi: map[*ssa.Phi]ssa.Value{}}
	ok := x.tolBody(f, s)
	if ok {
		x.preds[f] = 1
	}
	return ok
}

// tolBody follows the paths on which the condition is not tolerated; none may return true.
func (x *errFlow) tolBody(f *ssa.Function, s *pathState) bool {
	ok := true
	seen := map[string]bool{}
	var walk func(b, pred *ssa.BasicBlock, s *pathState)
	walk = func(b, pred *ssa.BasicBlock, s *pathState) {
		n := s.clone()
		for _, in := range b.Instrs {
			p, isP := in.(*ssa.Phi)
			if !isP {
				break
			}
			for k, q := range b.Preds {
				if q == pred {
					n.phi[p] = x.resolve(s, p.Edges[k])
				}
			}
		}
		k := n.key(b, 0)
		if seen[k] {
			return
		}
		seen[k] = true
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if x.isCarrier(n, in.Val) {
					n.cells[cellKey(in.Addr)] = true
				} else {
					delete(n.cells, cellKey(in.Addr))
				}
			case *ssa.UnOp:
				if in.Op == token.MUL {
					delete(n.carr, in)
					if n.cells[cellKey(in.X)] {
						n.carr[in] = true
					}
				}
			}
		}
		switch in := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.If:
			t, fl := x.cond(n, in.Cond)
			if t != nil {
				walk(b.Succs[0], b, t)
			}
			if fl != nil {
				walk(b.Succs[1], b, fl)
			}
		case *ssa.Jump:
			walk(b.Succs[0], b, n)
		case *ssa.Return:
			t, _ := x.cond(n, in.Results[0])
			if t != nil {
				ok = false
			}
		}
	}
	walk(f.Blocks[0], nil, s)
	return ok
}

// callEffect: calls that wrap a carrier produce a carrier; it is true if the call does not return after a failure.
func (x *errFlow) callEffect(s *pathState, c *ssa.Call) bool {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && isErrorList(c.Type()) {
		if x.isCarrier(s, c.Call.Args[0]) || x.holds(s, c.Call.Args[1]) {
			s.carr[c] = true
		}
		return false
	}
	if isErrorfCall(&c.Call) {
		as, ok := varargs(c.Call.Args[1])
		suf, ok2 := constSuffix(c.Call.Args[0])
		if ok && ok2 && len(as) > 0 {
			for i, a := range as {
				if a == nil || !x.isCarrier(s, a) {
					continue
				}
				if i == len(as)-1 && strings.HasSuffix(suf, ": %w") || calleeName(&c.Call) == "fmt.Errorf" && verbOf(c.Call.Args[0], i) == "w" {
					s.carr[c] = true
				}
			}
		}
		for _, a := range as {
			if a != nil && (s.others[a] || s.others[x.resolve(s, a)]) {
				s.others[c] = true
			}
		}
		return false
	}
	if calleeName(&c.Call) == "errors.Join" {
		if x.holds(s, c.Call.Args[0]) {
			s.carr[c] = true
		}
		return false
	}
	for _, f := range x.targets(&c.Call) {
		if !isRepoFn(f) || len(f.Blocks) == 0 {
			continue
		}
		for i, a := range c.Call.Args {
			if !(isErrorType(a.Type()) || isErrorList(a.Type())) || !x.isCarrier(s, a) || i >= len(f.Params) {
				continue
			}
			k := fmt.Sprintf("wrap:%s:%d", f.String(), i)
			if x.busy[k] {
				continue
			}
			res, ok := x.memo[k]
			if !ok {
				x.busy[k] = true
				st := &pathState{carr: map[ssa.Value]bool{f.Params[i]: true}, cells: map[string]bool{}, def: true, others: map[ssa.Value]bool{}, phi: map[*ssa.Phi]ssa.Value{}}
				res = x.flow(f, f.Blocks[0], 0, st)
				delete(x.busy, k)
				x.memo[k] = res
			}
			if !res.returns && res.wrapped {
				return true
			}
			if len(res.escapes) > 0 {
				s.esc = true
			}
			if errResult(f.Signature) >= 0 && len(res.swallow) == 0 && len(res.other) == 0 && res.wrapped {
				s.carr[c] = true
			}
		}
		if x.captured(s, c, f) {
			return true
		}
	}
	return false
}

// captured follows a failure held in variables the called function captures, and calls that never return.
// It reports that the path ends in the call.
func (x *errFlow) captured(s *pathState, c *ssa.Call, f *ssa.Function) bool {
	st := &pathState{carr: map[ssa.Value]bool{}, cells: map[string]bool{}, def: s.def, others: map[ssa.Value]bool{}, phi: map[*ssa.Phi]ssa.Value{}}
	k := fmt.Sprintf("captured:%s:%v", f.String(), s.def)
	mc, _ := c.Call.Value.(*ssa.MakeClosure)
	if mc != nil {
		for i, b := range mc.Bindings {
			if s.cells[cellKey(b)] {
				st.cells[cellKey(f.FreeVars[i])] = true
				k += fmt.Sprintf(":%d", i)
			}
		}
	}
	if x.busy[k] {
		return false
	}
	res, ok := x.memo[k]
	if !ok {
		x.busy[k] = true
		res = x.flow(f, f.Blocks[0], 0, st)
		delete(x.busy, k)
		x.memo[k] = res
	}
	if !res.returns && res.wrapped {
		return true
	}
	if len(st.cells) == 0 {
		return false
	}
	if len(res.escapes) > 0 {
		s.esc = true
	}
	if res.wrapped && len(res.swallow) == 0 && len(res.other) == 0 && len(res.escapes) == 0 {
		if errResult(f.Signature) >= 0 {
			s.carr[c] = true
		} else {
			s.via = true
		}
	}
	return false
}

// holds: the list holds the failure.
func (x *errFlow) holds(s *pathState, l ssa.Value) bool {
	if x.isCarrier(s, l) {
		return true
	}
	as, ok := varargs(l)
	if !ok {
		return false
	}
	for _, a := range as {
		if a != nil && x.isCarrier(s, a) {
			return true
		}
	}
	return false
}

// verbOf: the verb the i-th argument of a constant format is printed with.
func verbOf(f ssa.Value, i int) string {
	c, ok := f.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return ""
	}
	str := constant.StringVal(c.Value)
	for n := 0; n < len(str); n++ {
		if str[n] != '%' {
			continue
		}
		n++
		for n < len(str) && strings.IndexByte("+-# 0123456789.", str[n]) >= 0 {
			n++
		}
		if n >= len(str) || str[n] == '[' || str[n] == '*' {
			return ""
		}
		if str[n] == '%' {
			continue
		}
		if i == 0 {
			return str[n : n+1]
		}
		i--
	}
	return ""
}

// onlyFails: every path from the instruction on ends in a failure that is certainly one.
func (x *errFlow) onlyFails(fn *ssa.Function, b *ssa.BasicBlock, i int) bool {
	st := &pathState{carr: map[ssa.Value]bool{}, cells: map[string]bool{}, others: map[ssa.Value]bool{}, phi: map[*ssa.Phi]ssa.Value{}}
	// errors that are known not to be nil here
	for d, k := b.Idom(), b; d != nil; d, k = d.Idom(), d {
		if len(k.Preds) != 1 || k.Preds[0] != d {
			continue
		}
		if c, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok {
			if bo, ok := c.Cond.(*ssa.BinOp); ok && isErrorType(bo.X.Type()) && isNilConst(bo.Y) && (bo.Op == token.NEQ) == (d.Succs[0] == k) && bo.Op != token.GTR {
				st.others[bo.X] = true
			}
		}
	}
	r := x.flow(fn, b, i, st)
	return len(r.swallow) == 0 && len(r.escapes) == 0
}

type errSource struct {
	fn   *ssa.Function
	name string
	pos  token.Pos
	ends endSet
	drop bool
	why  string
}

// sources analyses every error-producing operation of the repository.
func (x *errFlow) sources() []errSource {
	var out []errSource
	for _, fn := range x.p.fns {
		if strings.Contains(fnName(fn), "internal/fixture") {
			continue
		}
		// error parameters of callbacks (filepath.WalkDir)
		if len(fn.Params) == 3 && isErrorType(fn.Params[2].Type()) && typeName(fn.Params[1].Type()) == "fs.DirEntry" {
			st := &pathState{carr: map[ssa.Value]bool{fn.Params[2]: true}, cells: map[string]bool{}, others: map[ssa.Value]bool{}, phi: map[*ssa.Phi]ssa.Value{}}
			out = append(out, errSource{fn: fn, name: "filepath.WalkDir(err)", pos: fn.Pos(), ends: x.flow(fn, fn.Blocks[0], 0, st)})
		}
		for _, b := range fn.Blocks {
			for i, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				sig := c.Common().Signature()
				ei := errResult(sig)
				if ei < 0 || isErrorfCall(c.Common()) {
					continue
				}
				name := calleeName(c.Common())
				switch name {
				case "errors.New", "errors.Unwrap", "errors.Join", "(context.Context).Err":
					continue
				}
				if f := c.Common().StaticCallee(); f != nil && isRepoFn(f) && sig.Results().Len() == 1 && x.alwaysFails(f) {
					continue // builds an error
				}
				src := errSource{fn: fn, name: name, pos: c.Pos()}
				if why, ok := x.ignorable(c, name); ok {
					src.why = why
					out = append(out, src)
					continue
				}
				call, ok := c.(*ssa.Call)
				if !ok {
					src.drop = true
					out = append(out, src)
					continue
				}
				var v ssa.Value = call
				start := i + 1
				if sig.Results().Len() > 1 {
					v = nil
					for k := i + 1; k < len(b.Instrs); k++ {
						if ex, ok := b.Instrs[k].(*ssa.Extract); ok && ex.Tuple == ssa.Value(call) && ex.Index == ei {
							v = ex
							start = k + 1
							break
						}
					}
					if v == nil {
						for _, ref := range *call.Referrers() {
							if ex, ok := ref.(*ssa.Extract); ok && ex.Index == ei {
								v = ex
							}
						}
						// an extract in another block does not occur in go/ssa output
					}
				}
				if v == nil || len(*v.Referrers()) == 0 {
					src.drop = true
					if lastSeg(name) == "Close" && x.onlyFails(fn, b, i+1) {
						src.drop, src.why = false, "another failure is reported"
					}
					out = append(out, src)
					continue
				}
				st := &pathState{carr: map[ssa.Value]bool{v: true}, cells: map[string]bool{}, others: map[ssa.Value]bool{}, phi: map[*ssa.Phi]ssa.Value{}}
				// results returned directly are carriers of themselves
				src.ends = x.flow(fn, b, start, st)
				out = append(out, src)
			}
		}
	}
	return out
}

func init() {
	checks["P04"] = checkP04
	checks["P05"] = checkP05
}

func checkP04(r *Rep) {
	r.Rule("checked", "on every path from an operation that can fail, a failure ends in a non-nil error result, a panic or a failing process exit, or is one of the listed tolerated conditions")
	r.Rule("scanner", "the failure of every bufio.Scanner is checked after its loop")
	x := newErrFlow(r.p)
	for _, s := range x.sources() {
		r.Fn(shortFn(s.fn))
		key := shortFn(s.fn) + " -> " + s.name
		pos := r.p.pos(s.pos)
		switch {
		case s.why != "":
			r.Ok("checked", key+" (ignored: "+s.why+")")
		case s.drop:
			r.Fail("checked", key, pos, "the error of %s is discarded in %s", s.name, shortFn(s.fn))
		case len(s.ends.swallow) > 0:
			r.Fail("checked", key, pos, "%s can fail here, but %s can then return success at %s", s.name, shortFn(s.fn), r.p.pos(s.ends.swallow[0]))
		case len(s.ends.escapes) > 0:
			r.Undecided("checked", key, "the failure of %s is stored where it is not followed in %s", s.name, shortFn(s.fn))
		default:
			r.Ok("checked", key)
		}
	}
	r.Min("checked", 330)
	// what is tolerated is tolerated for the dialect it belongs to only
	r.Rule("executed", "apply reports success only if every execution succeeded, except MySQL's 'already exists' / 'Duplicate column name'")
	sub := newRep(r.p, r.prop, r.tier, r.verif)
	checkP02(sub)
	for i := 0; i < sub.stat("failure").ok; i++ {
		r.Ok("executed", "apply")
	}
	for _, f := range sub.fails {
		if c, ok := strings.CutPrefix(f.key, "failure@"); ok && c != "instances" {
			r.Fail("executed", c, f.pos, "%s", f.msg)
		}
	}
	// scanners
	for _, fn := range r.p.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || calleeName(&c.Call) != "bufio.NewScanner" {
					continue
				}
				hasErr := false
				for _, ref := range *c.Referrers() {
					if cc, ok := ref.(*ssa.Call); ok && calleeName(&cc.Call) == "(*bufio.Scanner).Err" {
						hasErr = true
					}
				}
				inLoop := false
				for _, ref := range *c.Referrers() {
					if cc, ok := ref.(*ssa.Call); ok && calleeName(&cc.Call) == "(*bufio.Scanner).Scan" {
						for _, l := range buildForest(fn).list {
							if l.body[cc.Block()] {
								inLoop = true
							}
						}
					}
				}
				if inLoop {
					r.Check(hasErr, "scanner", shortFn(fn), r.p.pos(c.Pos()), "the scanner loop in %s stops early without an error when a line exceeds the scanner's limit or reading fails: Err is never checked", shortFn(fn))
				} else {
					r.Ok("scanner", shortFn(fn)+" (single line)")
				}
			}
		}
	}
}

func checkP05(r *Rep) {
	r.Rule("wrapped", "on every path on which a failed operation makes its caller fail, the returned error is that error or wraps it")
	r.Rule("format", "an error passed to Errorf is its last argument, and the format is a constant ending in ': %w' (the only form that keeps the cause in normal, trace and debug mode alike)")
	x := newErrFlow(r.p)
	for _, s := range x.sources() {
		r.Fn(shortFn(s.fn))
		if s.why != "" || s.drop {
			continue
		}
		key := shortFn(s.fn) + " -> " + s.name
		if len(s.ends.other) > 0 {
			r.Fail("wrapped", key, r.p.pos(s.pos), "when %s fails here, %s returns at %s an error that does not wrap the failure", s.name, shortFn(s.fn), r.p.pos(s.ends.other[0]))
		} else {
			r.Ok("wrapped", key)
		}
	}
	r.Min("wrapped", 300)
	r.Rule("kept", "an operation that fails on the way out (closing, cleaning up) does not take the place of the failure that led there: no path returns an error of the later failure alone where, with the later operation succeeding, the earlier failure is returned")
	for _, os := range outcomes(r, "kept") {
		if len(os) == 0 {
			continue
		}
		name := shortFn(os[0].fn)
		if o, lost, by := replaced(os); o.fn != nil {
			r.Fail("kept", name, r.p.fnPos(o.fn), "when %s fails and then %s fails too, %s returns the second failure only and the cause is lost (path: %s)", short(lost), short(by), name, litTexts(o.res.st))
		} else {
			r.Ok("kept", name)
		}
	}
	r.Min("kept", 20)
	for _, fn := range r.p.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || !isErrorfCall(c.Common()) {
					continue
				}
				as, ok := varargs(c.Common().Args[1])
				hasErr := !ok
				last := false
				plain := calleeName(c.Common()) == "fmt.Errorf" && ok
				for i, a := range as {
					if a != nil && isErrorType(stripIface(a).Type()) {
						hasErr = true
						last = i == len(as)-1
						plain = plain && verbOf(c.Common().Args[0], i) == "w"
					}
				}
				if !hasErr {
					continue
				}
				suf, ok2 := constSuffix(c.Common().Args[0])
				key := shortFn(fn) + " " + suf
				r.Check(plain || ok && ok2 && last && strings.HasSuffix(suf, ": %w"), "format", key, r.p.pos(c.Pos()), "the error passed to Errorf in %s does not stay recognisable: format %q must end in ': %%w' with the error as the last argument", shortFn(fn), suf)
			}
		}
	}
	r.Min("format", 300)
}
