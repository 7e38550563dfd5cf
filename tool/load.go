package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// ModPath is the module under analysis.
const ModPath = "github.com/aperturerobotics/starpc"

// Prog is one loaded configuration of the repository.
type Prog struct {
	Name    string // configuration name: "linux", "js"
	Dir     string
	Fset    *token.FileSet
	Pkgs    []*packages.Package
	SSA     *ssa.Program
	ByPath  map[string]*ssa.Package
	mutable map[fieldKey]bool
	written map[*ssa.Global]bool
	allFns  map[*ssa.Function]bool
}

type fieldKey struct {
	typ string
	idx int
}

// goEnv returns the environment for the go command: the toolchain of the build,
// nothing fetched.
func goEnv(extra ...string) []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := e[:strings.IndexByte(e+"=", '=')]
		switch k {
		case "GOFLAGS", "GOOS", "GOARCH", "GOPROXY", "GOTOOLCHAIN", "GOWORK", "PATH", "GOPATH", "GOMODCACHE", "GOCACHE", "HOME":
			continue
		}
		env = append(env, e)
	}
	gobin := "/opt/veriftools/go1.24.13/bin"
	if _, err := os.Stat(gobin); err != nil {
		gobin = ""
	}
	path := os.Getenv("PATH")
	if gobin != "" {
		path = gobin + ":" + path
	}
	env = append(env, "PATH="+path, "HOME=/root", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod",
		"GOCACHE=/root/.cache/go-build", "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOWORK=off", "CGO_ENABLED=1")
	return append(env, extra...)
}

// Load loads and builds SSA for the patterns.
func Load(name, dir string, env []string, patterns ...string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule |
			packages.NeedExportFile | packages.NeedDeps,
		Dir: dir,
		Env: env,
	}
	// without NeedDeps syntax, dependencies come from export data
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) != 0 {
		return nil, fmt.Errorf("load %s: %s", name, strings.Join(errs, "; "))
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("load %s: no packages", name)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.SanityCheckFunctions&0)
	prog.Build()
	p := &Prog{Name: name, Dir: dir, Fset: prog.Fset, Pkgs: pkgs, SSA: prog, ByPath: map[string]*ssa.Package{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("load %s: no SSA for %s", name, pkgs[i].PkgPath)
		}
		p.ByPath[sp.Pkg.Path()] = sp
	}
	p.index()
	return p, nil
}

// Pos renders a position relative to the repository.
func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Dir, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

// inModule reports if the package belongs to the analysed module.
func inModule(pkg *types.Package) bool {
	return pkg != nil && (pkg.Path() == ModPath || strings.HasPrefix(pkg.Path(), ModPath+"/"))
}

func fnPkg(fn *ssa.Function) *types.Package {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Object(); o != nil {
		return o.Pkg()
	}
	if o := fn.Origin(); o != nil && o != fn {
		return fnPkg(o)
	}
	if p := fn.Parent(); p != nil {
		return fnPkg(p)
	}
	return nil
}

// shortPkg returns the package path relative to the module.
func shortPkg(path string) string {
	path = strings.TrimPrefix(path, ModPath+"/")
	return path
}

// FnName is a readable canonical name of a function: "srpc.ClientRPC.Start".
func FnName(fn *ssa.Function) string {
	if fn == nil {
		return "<nil>"
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Parent() != nil {
		return FnName(fn.Parent()) + "$" + strings.TrimPrefix(fn.Name(), fn.Parent().Name()+"$")
	}
	return objName(fn.Object(), fn)
}

func objName(o types.Object, fn *ssa.Function) string {
	f, ok := o.(*types.Func)
	if !ok {
		if fn != nil {
			if fn.Pkg != nil {
				return shortPkg(fn.Pkg.Pkg.Path()) + "." + fn.Name()
			}
			return fn.String()
		}
		return "?"
	}
	pkg := ""
	if f.Pkg() != nil {
		pkg = shortPkg(f.Pkg().Path()) + "."
	}
	sig := f.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		return pkg + recvName(r.Type()) + "." + f.Name()
	}
	return pkg + f.Name()
}

func recvName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return types.TypeString(t, func(*types.Package) string { return "" })
}

// Pkg returns a package by path relative to the module.
func (p *Prog) Pkg(rel string) *ssa.Package { return p.ByPath[ModPath+"/"+rel] }

// Func looks up "pkg.Func" or "pkg.Type.Method" (promoted methods included).
func (p *Prog) Func(name string) *ssa.Function {
	slash := strings.LastIndexByte(name, '/')
	dot := strings.IndexByte(name[slash+1:], '.')
	if dot < 0 {
		return nil
	}
	pkg := p.Pkg(name[:slash+1+dot])
	if pkg == nil {
		return nil
	}
	rest := strings.Split(name[slash+1+dot+1:], ".")
	if len(rest) == 1 {
		return pkg.Func(rest[0])
	}
	tn, ok := pkg.Pkg.Scope().Lookup(rest[0]).(*types.TypeName)
	if !ok {
		return nil
	}
	for _, t := range []types.Type{types.NewPointer(tn.Type()), tn.Type()} {
		obj, _, _ := types.LookupFieldOrMethod(t, true, pkg.Pkg, rest[1])
		if f, ok := obj.(*types.Func); ok {
			if n, ok := tn.Type().(*types.Named); ok && n.TypeParams().Len() > 0 {
				return p.SSA.FuncValue(f)
			}
			sel := types.NewMethodSet(t).Lookup(pkg.Pkg, rest[1])
			if sel == nil {
				continue
			}
			return p.SSA.MethodValue(sel)
		}
	}
	return nil
}

// NamedType looks up "pkg.Type".
func (p *Prog) NamedType(name string) types.Type {
	i := strings.LastIndexByte(name, '.')
	pkg := p.Pkg(name[:i])
	if pkg == nil {
		return nil
	}
	tn, ok := pkg.Pkg.Scope().Lookup(name[i+1:]).(*types.TypeName)
	if !ok {
		return nil
	}
	return tn.Type()
}

// index computes which struct fields and globals change after construction.
func (p *Prog) index() {
	p.mutable = map[fieldKey]bool{}
	p.written = map[*ssa.Global]bool{}
	p.allFns = ssautil.AllFunctions(p.SSA)
	// callers of unexported functions
	callers := map[*ssa.Function][]*ssa.CallCommon{}
	valueUse := map[*ssa.Function]bool{}
	for fn := range p.allFns {
		if !inModule(fnPkg(fn)) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var cc *ssa.CallCommon
				if c, ok := in.(ssa.CallInstruction); ok {
					cc = c.Common()
					if f := cc.StaticCallee(); f != nil {
						callers[f] = append(callers[f], cc)
					}
				}
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && (cc == nil || op != &cc.Value) {
						valueUse[f] = true
					}
				}
			}
		}
	}
	var fresh func(v ssa.Value, seen map[ssa.Value]bool) bool
	fresh = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			return fresh(v.X, seen)
		case *ssa.IndexAddr:
			return fresh(v.X, seen)
		case *ssa.Phi:
			for _, e := range v.Edges {
				if !fresh(e, seen) {
					return false
				}
			}
			return true
		case *ssa.Parameter:
			fn := v.Parent()
			if o, ok := fn.Object().(*types.Func); !ok || o.Exported() || fn.Signature.Recv() != nil || valueUse[fn] || len(callers[fn]) == 0 {
				return false
			}
			i := -1
			for j, q := range fn.Params {
				if q == v {
					i = j
				}
			}
			for _, c := range callers[fn] {
				if i < 0 || i >= len(c.Args) || !fresh(c.Args[i], seen) {
					return false
				}
			}
			return true
		case *ssa.Call:
			// a constructor of this module which returns a fresh object
			f := v.Common().StaticCallee()
			if f == nil || !inModule(fnPkg(f)) || f.Signature.Results().Len() != 1 {
				return false
			}
			n := 0
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if r, ok := in.(*ssa.Return); ok {
						n++
						if !fresh(r.Results[0], seen) {
							return false
						}
					}
				}
			}
			return n > 0
		}
		return false
	}
	for fn := range p.allFns {
		if !inModule(fnPkg(fn)) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				switch a := st.Addr.(type) {
				case *ssa.FieldAddr:
					if !fresh(a.X, map[ssa.Value]bool{}) {
						p.mutable[fkOf(a.X.Type(), a.Field)] = true
					}
				case *ssa.Global:
					if fn.Synthetic != "package initializer" && !strings.HasPrefix(fn.Name(), "init") {
						p.written[a] = true
					}
				}
			}
		}
	}
}

func fkOf(ptr types.Type, idx int) fieldKey {
	t := types.Unalias(ptr)
	if q, ok := t.Underlying().(*types.Pointer); ok {
		t = types.Unalias(q.Elem())
	}
	return fieldKey{typeKey(t), idx}
}

// typeKey names a type; instances of a generic type share the key.
func typeKey(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		o := n.Origin().Obj()
		if o.Pkg() != nil {
			return o.Pkg().Path() + "." + o.Name()
		}
		return o.Name()
	}
	return types.TypeString(t, nil)
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
