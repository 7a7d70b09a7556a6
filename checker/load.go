package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const flowMod = "github.com/project-flogo/flow"
const coreMod = "github.com/project-flogo/core"

// Program is the resolved, type-checked program under analysis.
type Program struct {
	Repo   string
	Fset   *token.FileSet
	Pkgs   []*packages.Package // repository packages
	ByPath map[string]*packages.Package
	SSA    *ssa.Program
	Funcs  []*ssa.Function // all source functions of the repository, closures included
}

// Load type checks both modules of the repository and builds the SSA form of their packages.
func Load(repo string) (*Program, error) {
	tmp, err := os.MkdirTemp("", "flowcheck")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	work := "go 1.18\n\nuse (\n\t" + repo + "\n\t" + filepath.Join(repo, "activity/subflow") + "\n)\n"
	wf := filepath.Join(tmp, "go.work")
	if err := os.WriteFile(wf, []byte(work), 0644); err != nil {
		return nil, err
	}
	env := append(os.Environ(), "GOWORK="+wf, "GOPROXY=off", "GOTOOLCHAIN=local", "GOFLAGS=", "GO111MODULE=on", "CGO_ENABLED=0")
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  repo,
		Env:  env,
		Fset: fset,
	}
	pkgs, err := packages.Load(cfg, "./...", "./activity/subflow/...")
	if err != nil {
		return nil, err
	}
	p := &Program{Repo: repo, Fset: fset, ByPath: map[string]*packages.Package{}}
	var errs []string
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		if strings.HasPrefix(pk.PkgPath, flowMod) {
			for _, e := range pk.Errors {
				errs = append(errs, e.Error())
			}
		}
		p.ByPath[pk.PkgPath] = pk
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type check: %s", strings.Join(errs, "; "))
	}
	seen := map[string]bool{}
	for _, pk := range pkgs {
		if strings.HasPrefix(pk.PkgPath, flowMod) && !seen[pk.PkgPath] {
			seen[pk.PkgPath] = true
			p.Pkgs = append(p.Pkgs, pk)
		}
	}
	sort.Slice(p.Pkgs, func(i, j int) bool { return p.Pkgs[i].PkgPath < p.Pkgs[j].PkgPath })
	if len(p.Pkgs) < 12 {
		return nil, fmt.Errorf("only %d packages of the repository were loaded", len(p.Pkgs))
	}
	prog, _ := ssautil.Packages(p.Pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == nil || fn.Blocks == nil || fn.Synthetic != "" && fn.Name() != "init" {
			continue
		}
		if strings.HasPrefix(fn.Pkg.Pkg.Path(), flowMod) {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return p.Funcs[i].String() < p.Funcs[j].String() })
	if len(p.Funcs) < 300 {
		return nil, fmt.Errorf("only %d functions of the repository were built", len(p.Funcs))
	}
	return p, nil
}

// InRepo reports whether the function has a body in the repository.
func InRepo(fn *ssa.Function) bool {
	if fn == nil || fn.Blocks == nil {
		return false
	}
	pk := fnPkg(fn)
	return pk != nil && strings.HasPrefix(pk.Path(), flowMod)
}

func fnPkg(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
	}
	if o := fn.Object(); o != nil {
		return o.Pkg()
	}
	return nil
}

func (p *Program) pkg(path string) *packages.Package {
	pk := p.ByPath[path]
	if pk == nil {
		anchorFail("package %s not found", path)
	}
	return pk
}

// anchorError is raised when an anchor of a rule does not resolve.
type anchorError struct{ msg string }

func anchorFail(format string, args ...interface{}) {
	panic(anchorError{fmt.Sprintf(format, args...)})
}

// rel makes a package path relative to the repository module: "" is the root package.
func rel(path string) string {
	if path == flowMod {
		return ""
	}
	return strings.TrimPrefix(path, flowMod+"/")
}

func abs(path string) string {
	if path == "" {
		return flowMod
	}
	if strings.HasPrefix(path, "core/") {
		return coreMod + strings.TrimPrefix(path, "core")
	}
	return flowMod + "/" + path
}

// Func resolves a package level function.
func (p *Program) Func(pkg, name string) *ssa.Function {
	pk := p.pkg(abs(pkg))
	if sp := p.SSA.Package(pk.Types); sp != nil {
		if fn := sp.Func(name); fn != nil {
			return fn
		}
	}
	anchorFail("function %s.%s not found", pkg, name)
	return nil
}

// Named resolves a named type.
func (p *Program) Named(pkg, name string) *types.Named {
	pk := p.pkg(abs(pkg))
	if o, ok := pk.Types.Scope().Lookup(name).(*types.TypeName); ok {
		if n, ok := types.Unalias(o.Type()).(*types.Named); ok {
			return n
		}
	}
	anchorFail("type %s.%s not found", pkg, name)
	return nil
}

// Method resolves a method with a body in the repository (value or pointer receiver).
func (p *Program) Method(pkg, typ, name string) *ssa.Function {
	n := p.Named(pkg, typ)
	fn := p.methodOf(types.NewPointer(n), name)
	if fn == nil {
		anchorFail("method %s.%s.%s not found", pkg, typ, name)
	}
	return fn
}

func (p *Program) methodOf(t types.Type, name string) *ssa.Function {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		sel := ms.At(i)
		if sel.Obj().Name() == name {
			fo := sel.Obj().(*types.Func)
			if fn := p.SSA.FuncValue(fo); fn != nil {
				return fn
			}
		}
	}
	return nil
}

// pos renders a position relative to the repository.
func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	q := p.Fset.Position(ps)
	r, err := filepath.Rel(p.Repo, q.Filename)
	if err != nil {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}

// fnName is a stable short name of a function.
func fnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, flowMod+"/", "")
	s = strings.ReplaceAll(s, flowMod+".", "flow.")
	s = strings.ReplaceAll(s, coreMod+"/", "core/")
	return s
}

// funcID names a types.Func: pkg.Type.Method or pkg.Func with module-relative packages.
func funcID(f *types.Func) string {
	if f == nil {
		return ""
	}
	pk := ""
	if f.Pkg() != nil {
		pk = f.Pkg().Path()
		if strings.HasPrefix(pk, flowMod) {
			pk = rel(pk)
			if pk == "" {
				pk = "flow"
			}
		} else if strings.HasPrefix(pk, coreMod) {
			pk = "core" + strings.TrimPrefix(pk, coreMod)
		}
	}
	sig := f.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if pt, ok := types.Unalias(t).(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return pk + "." + n.Obj().Name() + "." + f.Name()
		}
		return pk + ".?." + f.Name()
	}
	return pk + "." + f.Name()
}
