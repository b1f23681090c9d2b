package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/tdex-network/tdex-daemon"

// Prog is the type-checked program and its SSA form, loaded from the working
// tree of the repository on every run.
type Prog struct {
	shared   map[ssa.Value]bool // see rewritten
	Dir      string
	Fset     *token.FileSet
	Pkgs     []*packages.Package
	SSA      *ssa.Program
	ByPth    map[string]*packages.Package
	Funcs    []*ssa.Function // every source function of the repository
	inRepo   map[*types.Package]bool
	pureMemo map[*ssa.Function]int
	callers  map[*ssa.Function][]ssa.CallInstruction
}

func repoDir() string {
	if d := os.Getenv("TDEX_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func Load() (*Prog, error) {
	dir := repoDir()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles |
			packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes |
			packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedExportFile,
		Dir: dir,
		Env: append(os.Environ(),
			"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOTELEMETRY=off",
			"CGO_ENABLED=1", "GOWORK=off"),
		Tests: false,
	}
	pats := []string{"./...", modPath + "/pkg/explorer/...", modPath + "/pkg/securestore/...", modPath + "/pkg/macaroons/..."}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	seen := map[string]bool{}
	var uniq []*packages.Package
	for _, p := range pkgs {
		if seen[p.PkgPath] {
			continue
		}
		seen[p.PkgPath] = true
		if strings.HasPrefix(p.PkgPath, modPath+"/test") {
			continue
		}
		for _, e := range p.Errors {
			return nil, fmt.Errorf("type error in %s: %v", p.PkgPath, e)
		}
		uniq = append(uniq, p)
	}
	sort.Slice(uniq, func(i, j int) bool { return uniq[i].PkgPath < uniq[j].PkgPath })
	prog, _ := ssautil.Packages(uniq, ssa.InstantiateGenerics)
	prog.Build()
	P := &Prog{Dir: dir, Fset: uniq[0].Fset, Pkgs: uniq, SSA: prog,
		ByPth: map[string]*packages.Package{}, inRepo: map[*types.Package]bool{}, pureMemo: map[*ssa.Function]int{}}
	for _, p := range uniq {
		P.ByPth[p.PkgPath] = p
		P.inRepo[p.Types] = true
	}
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if f.Blocks != nil && P.FnInRepo(f) && f.Synthetic == "" {
			P.Funcs = append(P.Funcs, f)
		}
	}
	// AllFunctions only reports functions reachable from members/method sets of
	// runtime types; add every declared function and its anonymous functions.
	have := map[*ssa.Function]bool{}
	for _, f := range P.Funcs {
		have[f] = true
	}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || f.Blocks == nil {
			return
		}
		if !have[f] {
			have[f] = true
			P.Funcs = append(P.Funcs, f)
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, p := range uniq {
		for _, file := range p.Syntax {
			for _, d := range file.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					if o, ok := p.TypesInfo.Defs[fd.Name].(*types.Func); ok {
						add(prog.FuncValue(o))
					}
				}
			}
		}
	}
	sort.Slice(P.Funcs, func(i, j int) bool {
		a, b := P.Funcs[i], P.Funcs[j]
		if p, q := P.SSA.Fset.Position(a.Pos()), P.SSA.Fset.Position(b.Pos()); p.Filename != q.Filename {
			return p.Filename < q.Filename
		} else if p.Offset != q.Offset {
			return p.Offset < q.Offset
		}
		return a.String() < b.String()
	})
	return P, nil
}

func (p *Prog) FnInRepo(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return p.inRepo[f.Pkg.Pkg]
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return p.inRepo[o.Pkg()]
	}
	return false
}

func (p *Prog) Pkg(rel string) *packages.Package {
	if rel == "" {
		return p.ByPth[modPath]
	}
	return p.ByPth[modPath+"/"+rel]
}

func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.Fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.Dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func shortPkg(path string) string {
	if i := strings.LastIndex(path, "/"); i >= 0 {
		last := path[i+1:]
		// strip major version suffixes
		if len(last) > 1 && last[0] == 'v' && last[1] >= '0' && last[1] <= '9' && !strings.Contains(last, ".") {
			return shortPkg(path[:i])
		}
		return last
	}
	return path
}

// typeName renders a named type as pkg.Type (pointers stripped).
func typeName(t types.Type) string {
	for {
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
			continue
		}
		break
	}
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return shortPkg(n.Obj().Pkg().Path()) + "." + n.Obj().Name()
	}
	return types.TypeString(t, func(p *types.Package) string { return shortPkg(p.Path()) })
}

// fnName renders a function as pkg.Func or pkg.Type.Method; closures get the
// name of their parent plus $n.
func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if f.Parent() != nil {
		n := f.Name()
		if i := strings.LastIndex(n, "$"); i >= 0 {
			n = n[i:]
		}
		return fnName(f.Parent()) + n
	}
	if o, ok := f.Object().(*types.Func); ok {
		return objFnName(o)
	}
	if f.Pkg != nil {
		return shortPkg(f.Pkg.Pkg.Path()) + "." + f.Name()
	}
	return f.Name()
}

func objFnName(o *types.Func) string {
	sig := o.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		return typeName(r.Type()) + "." + o.Name()
	}
	if o.Pkg() != nil {
		return shortPkg(o.Pkg().Path()) + "." + o.Name()
	}
	return o.Name()
}

// Iface looks up an interface type of the repository.
func (p *Prog) Iface(pkgRel, name string) *types.Interface {
	pk := p.Pkg(pkgRel)
	if pk == nil {
		return nil
	}
	o := pk.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	i, _ := o.Type().Underlying().(*types.Interface)
	return i
}

// Impls returns the concrete named types declared in the given packages (all
// repository packages when none given) whose pointer or value implements it.
func (p *Prog) Impls(it *types.Interface, pkgRel ...string) []*types.Named {
	var out []*types.Named
	if it == nil {
		return nil
	}
	for _, pk := range p.Pkgs {
		if len(pkgRel) > 0 {
			ok := false
			for _, r := range pkgRel {
				if pk.PkgPath == modPath+"/"+r || strings.HasSuffix(r, "/...") && strings.HasPrefix(pk.PkgPath, modPath+"/"+strings.TrimSuffix(r, "...")) {
					ok = true
				}
			}
			if !ok {
				continue
			}
		}
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(nt) {
				continue
			}
			if nt.TypeParams().Len() > 0 {
				continue
			}
			if types.Implements(types.NewPointer(nt), it) {
				out = append(out, nt)
			}
		}
	}
	return out
}

// Method resolves a method of a concrete type to its SSA function.
func (p *Prog) Method(nt *types.Named, name string) *ssa.Function {
	var pk *types.Package = nt.Obj().Pkg()
	for _, t := range []types.Type{types.NewPointer(nt), nt} {
		ms := p.SSA.MethodSets.MethodSet(t)
		if sel := ms.Lookup(pk, name); sel != nil {
			f := p.SSA.MethodValue(sel)
			if f != nil && f.Synthetic != "" {
				if o, ok := sel.Obj().(*types.Func); ok {
					if g := p.SSA.FuncValue(o); g != nil {
						return g
					}
				}
			}
			return f
		}
	}
	return nil
}

// Func finds a package level function or a method "Type.Name".
func (p *Prog) Func(pkgRel, name string) *ssa.Function {
	pk := p.Pkg(pkgRel)
	if pk == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		o := pk.Types.Scope().Lookup(name[:i])
		if o == nil {
			return nil
		}
		nt, ok := o.Type().(*types.Named)
		if !ok {
			return nil
		}
		return p.Method(nt, name[i+1:])
	}
	sp := p.SSA.Package(pk.Types)
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// Named finds a named type.
func (p *Prog) Named(pkgRel, name string) *types.Named {
	pk := p.Pkg(pkgRel)
	if pk == nil {
		return nil
	}
	o := pk.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	nt, _ := o.Type().(*types.Named)
	return nt
}

// FuncsIn lists source functions (closures included) of the packages whose
// path relative to the module has one of the prefixes.
func (p *Prog) FuncsIn(prefixes ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		r := p.PkgRel(f)
		for _, pre := range prefixes {
			if r == pre || strings.HasPrefix(r, pre+"/") {
				out = append(out, f)
				break
			}
		}
	}
	return out
}

func (p *Prog) PkgRel(f *ssa.Function) string {
	g := f
	for g.Parent() != nil {
		g = g.Parent()
	}
	var pk *types.Package
	if g.Pkg != nil {
		pk = g.Pkg.Pkg
	} else if o := g.Object(); o != nil {
		pk = o.Pkg()
	}
	if pk == nil {
		return ""
	}
	return strings.TrimPrefix(strings.TrimPrefix(pk.Path(), modPath), "/")
}

// Callers gives static call sites of a function (built once).
func (p *Prog) Callers(f *ssa.Function) []ssa.CallInstruction {
	if p.callers == nil {
		p.callers = map[*ssa.Function][]ssa.CallInstruction{}
		for _, g := range p.Funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if s := c.Common().StaticCallee(); s != nil {
							p.callers[s] = append(p.callers[s], c)
						}
					}
				}
			}
		}
	}
	return p.callers[f]
}
