package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/kunitsucom/ddlctl"

// Prog is the resolved program of /repo: every package the build covers, type-checked, in SSA form.
type Prog struct {
	dir    string
	pkgs   []*packages.Package
	byPth  map[string]*packages.Package
	ssa    *ssa.Program
	spkg   map[string]*ssa.Package
	fset   *token.FileSet
	fns    []*ssa.Function // every source function of the module, incl. closures
	sent   map[string]bool
	tables map[string]*T
	gfns   map[*ssa.Global][]ssa.Value
}

func loadProg(dir string) (*Prog, error) { return loadProgOverlay(dir, nil) }

// loadProgOverlay loads the program with additional files (path -> content).
func loadProgOverlay(dir string, overlay map[string][]byte) (*Prog, error) {
	goBin := "/opt/veriftools/go1.23.12/bin"
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOWORK=") ||
			strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "PATH=") || strings.HasPrefix(e, "GOROOT=") || strings.HasPrefix(e, "GOOS=") || strings.HasPrefix(e, "GOARCH=") {
			continue
		}
		env = append(env, e)
	}
	path := os.Getenv("PATH")
	if _, err := os.Stat(goBin); err == nil {
		path = goBin + ":" + path
		os.Setenv("PATH", path)
	}
	env = append(env, "PATH="+path, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GOSUMDB=off")
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root", "GOPATH=/root/go", "GOCACHE=/root/.cache/go-build")
	}
	cfg := &packages.Config{
		Dir: dir,
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesInfo | packages.NeedSyntax | packages.NeedTypesSizes |
			packages.NeedModule | packages.NeedExportFile,
		Env: env,
	}
	cfg.Overlay = overlay
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, fmt.Errorf("load: %w", err)
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	p := &Prog{dir: dir, pkgs: pkgs, byPth: map[string]*packages.Package{}, spkg: map[string]*ssa.Package{}, sent: map[string]bool{}}
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			return nil, fmt.Errorf("package %s does not type-check: %v", pk.PkgPath, e)
		}
		p.byPth[pk.PkgPath] = pk
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.ssa, p.fset = prog, prog.Fset
	for i, s := range spkgs {
		if s == nil {
			return nil, fmt.Errorf("no SSA for package %s", pkgs[i].PkgPath)
		}
		p.spkg[s.Pkg.Path()] = s
	}
	for fn := range ssautil.AllFunctions(prog) {
		if len(fn.Blocks) > 0 && isRepoFn(fn) && fn.Synthetic == "" {
			p.fns = append(p.fns, fn)
		}
	}
	sort.Slice(p.fns, func(i, j int) bool {
		a, b := p.fns[i], p.fns[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	p.findSentinels()
	p.findTables()
	return p, nil
}

func pkgOf(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if f.Object() != nil {
			return f.Object().Pkg()
		}
		if o := f.Origin(); o != nil && o != f && o.Pkg != nil {
			return o.Pkg.Pkg
		}
	}
	return nil
}

func isRepoFn(fn *ssa.Function) bool {
	p := pkgOf(fn)
	return p != nil && isRepoPath(p.Path())
}
func isRepoPath(s string) bool { return s == modPath || strings.HasPrefix(s, modPath+"/") }

func (p *Prog) pkg(suffix string) *ssa.Package { return p.spkg[modPath+"/"+suffix] }

// fn finds a package-level function, or a method given as "Type.Method".
func (p *Prog) fn(pkgSuffix, name string) *ssa.Function {
	sp := p.pkg(pkgSuffix)
	if sp == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		tn, m := name[:i], name[i+1:]
		o := sp.Pkg.Scope().Lookup(tn)
		if o == nil {
			return nil
		}
		for _, t := range []types.Type{types.NewPointer(o.Type()), o.Type()} {
			ms := p.ssa.MethodSets.MethodSet(t)
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == m {
					f := p.ssa.MethodValue(ms.At(i))
					// prefer the declared method over a synthetic wrapper
					if tf, ok := ms.At(i).Obj().(*types.Func); ok {
						if d := p.ssa.FuncValue(tf); d != nil {
							return d
						}
					}
					return f
				}
			}
		}
		return nil
	}
	return sp.Func(name)
}

func (p *Prog) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	q := p.fset.Position(ps)
	rel, err := filepath.Rel(p.dir, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

func (p *Prog) fnPos(fn *ssa.Function) string { return p.pos(fn.Pos()) }

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return strings.ReplaceAll(fn.RelString(nil), modPath+"/", "")
}

func shortFn(fn *ssa.Function) string { return strings.TrimPrefix(fnName(fn), "pkg/") }

// findSentinels records package variables of error type that are assigned exactly once, at package initialisation.
func (p *Prog) findSentinels() {
	stores := map[*ssa.Global]int{}
	for fn := range ssautil.AllFunctions(p.ssa) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						if fn.Name() == "init" && fn.Synthetic != "" {
							stores[g]++
						} else {
							stores[g] += 100
						}
					}
				}
			}
		}
	}
	for _, sp := range p.spkg {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				if isErrorType(g.Type().(*types.Pointer).Elem()) && stores[g] == 1 {
					p.sent[globalName(g)] = true
				}
			}
		}
	}
}

func globalName(g *ssa.Global) string {
	if g.Pkg == nil {
		return g.Name()
	}
	return g.Pkg.Pkg.Path() + "." + g.Name()
}

var errType = types.Universe.Lookup("error").Type()

func isErrorType(t types.Type) bool { return types.Identical(t, errType) }
