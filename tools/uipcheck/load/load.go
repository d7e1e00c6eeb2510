// Package load reads the source of the repository and builds its SSA form.
package load

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const ModPath = "github.com/qiniu/uip"

type Prog struct {
	Dir    string
	Fset   *token.FileSet
	Pkgs   []*packages.Package // repository packages
	SSA    *ssa.Program
	ByPath map[string]*packages.Package
	Broken []string // repository packages that do not type-check
}

func InRepo(path string) bool { return path == ModPath || strings.HasPrefix(path, ModPath+"/") }

// Load type-checks the repository in dir (non-test files).
func Load(dir string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax | packages.NeedModule,
		Dir:  dir,
		Env:  append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off", "CGO_ENABLED=0"),
		Fset: token.NewFileSet(),
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Prog{Dir: dir, Fset: cfg.Fset, ByPath: map[string]*packages.Package{}}
	var good []*packages.Package
	for _, x := range ps {
		if !InRepo(x.PkgPath) {
			continue
		}
		if len(x.Errors) > 0 || x.IllTyped {
			p.Broken = append(p.Broken, fmt.Sprintf("%s: %v", x.PkgPath, x.Errors))
			continue
		}
		good = append(good, x)
		p.ByPath[x.PkgPath] = x
	}
	sort.Slice(good, func(i, j int) bool { return good[i].PkgPath < good[j].PkgPath })
	p.Pkgs = good
	prog, _ := ssautil.AllPackages(good, ssa.InstantiateGenerics)
	p.SSA = prog
	prog.Build()
	return p, nil
}

func (p *Prog) Pkg(rel string) *ssa.Package {
	path := ModPath
	if rel != "" {
		path += "/" + rel
	}
	x := p.ByPath[path]
	if x == nil {
		return nil
	}
	return p.SSA.Package(x.Types)
}

func (p *Prog) Func(rel, name string) *ssa.Function {
	k := p.Pkg(rel)
	if k == nil {
		return nil
	}
	return k.Func(name)
}

// Funcs lists every function of the repository that has a body.
func (p *Prog) Funcs() []*ssa.Function {
	var out []*ssa.Function
	for f := range ssautil.AllFunctions(p.SSA) {
		if len(f.Blocks) == 0 || f.Synthetic != "" && f.Name() != "init" {
			continue
		}
		if InRepo(PkgOf(f)) {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func PkgOf(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

var _ = types.Typ
