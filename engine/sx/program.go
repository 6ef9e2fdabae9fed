package sx

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the SSA form of the code under test and its dependencies.
type Program struct {
	Prog        *ssa.Program
	runtimeErrT types.Type
	errStringT  types.Type // *errors.errorString
	wrapErrT    types.Type // *fmt.wrapError
	Pkgs        map[string]*ssa.Package
	mu          sync.Mutex
	built       map[*ssa.Package]bool
	RepoFiles   []string
	RepoPrefix  string
}

// Load type-checks pattern (and everything below it) in dir and prepares SSA.
func Load(dir string, env []string, tags string, overlay map[string][]byte, patterns ...string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     dir,
		Env:     append(os.Environ(), env...),
		Overlay: overlay,
	}
	if tags != "" {
		cfg.BuildFlags = []string{"-tags=" + tags}
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the code does not type-check:\n%s", strings.Join(errs[:min(len(errs), 10)], "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{Prog: prog, Pkgs: map[string]*ssa.Package{}, built: map[*ssa.Package]bool{}, RepoPrefix: "github.com/Breeze0806/gobinlog"}
	for _, sp := range prog.AllPackages() {
		p.Pkgs[sp.Pkg.Path()] = sp
	}
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		if p.isRepo(pk.PkgPath) {
			p.RepoFiles = append(p.RepoFiles, pk.CompiledGoFiles...)
		}
	})
	if q := p.Pkgs["verifh/sym"]; q != nil {
		if t := q.Type("RuntimeError"); t != nil {
			p.runtimeErrT = t.Type()
		}
	}
	if p.runtimeErrT == nil {
		return nil, fmt.Errorf("verifh/sym.RuntimeError not found")
	}
	if q := p.Pkgs["errors"]; q != nil {
		p.errStringT = types.NewPointer(q.Type("errorString").Type())
	}
	if q := p.Pkgs["fmt"]; q != nil {
		p.wrapErrT = types.NewPointer(q.Type("wrapError").Type())
	}
	return p, nil
}

func (p *Program) isRepo(path string) bool {
	return path == p.RepoPrefix || strings.HasPrefix(path, p.RepoPrefix+"/")
}

// buildPkg lowers the functions of a package.
func (p *Program) buildPkg(pk *ssa.Package) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if !p.built[pk] {
		p.built[pk] = true
		pk.Build()
	}
}

// build makes sure fn has its body.
func (p *Program) build(fn *ssa.Function) {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	pk := f.Package()
	if pk == nil && f.Origin() != nil {
		pk = f.Origin().Package()
	}
	if pk == nil {
		if o := f.Object(); o != nil && o.Pkg() != nil {
			pk = p.Prog.Package(o.Pkg())
		}
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if pk != nil && !p.built[pk] {
		p.built[pk] = true
		pk.Build()
	}
}

func (p *Program) lookupMethod(t types.Type, meth *types.Func) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.Prog.LookupMethod(t, meth.Pkg(), meth.Name())
}

func (p *Program) methodByName(t types.Type, name string) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	sel := p.Prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return p.Prog.MethodValue(sel)
}

// Func finds a package-level function.
func (p *Program) Func(pkg, name string) *ssa.Function {
	pk := p.Pkgs[pkg]
	if pk == nil {
		return nil
	}
	p.buildPkg(pk)
	return pk.Func(name)
}
