package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// CG is a class-hierarchy call graph over the repository's source functions:
// static calls, interface dispatch to every repository implementation,
// closures and function values where they are created.
type CG struct {
	p     *Prog
	succ  map[*ssa.Function][]*ssa.Function
	impls map[string][]*ssa.Function
}

func (p *Prog) CallGraph() *CG {
	g := &CG{p: p, succ: map[*ssa.Function][]*ssa.Function{}, impls: map[string][]*ssa.Function{}}
	return g
}

func (g *CG) dispatch(it types.Type, m *types.Func) []*ssa.Function {
	k := types.TypeString(it, nil) + "." + m.Name()
	if v, ok := g.impls[k]; ok {
		return v
	}
	var out []*ssa.Function
	if i, ok := it.Underlying().(*types.Interface); ok {
		if n, ok := types.Unalias(it).(*types.Named); ok && n.Obj().Pkg() != nil && g.p.inRepo[n.Obj().Pkg()] {
			for _, nt := range g.p.Impls(i) {
				if f := g.p.Method(nt, m.Name()); f != nil {
					out = append(out, f)
				}
			}
		}
	}
	g.impls[k] = out
	return out
}

func (g *CG) Succ(f *ssa.Function) []*ssa.Function {
	if s, ok := g.succ[f]; ok {
		return s
	}
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(x *ssa.Function) {
		if x != nil && !seen[x] && g.p.FnInRepo(x) {
			seen[x] = true
			out = append(out, x)
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				cm := c.Common()
				if cm.IsInvoke() {
					for _, t := range g.dispatch(cm.Value.Type(), cm.Method) {
						add(t)
					}
				}
			}
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				if fn, ok := (*op).(*ssa.Function); ok {
					add(fn)
					if fn.Synthetic != "" {
						if o, ok := fn.Object().(*types.Func); ok {
							add(g.p.SSA.FuncValue(o))
						}
					}
				}
			}
		}
	}
	g.succ[f] = out
	return out
}

// Reach returns everything reachable from the roots, with one parent each.
func (g *CG) Reach(roots ...*ssa.Function) map[*ssa.Function]*ssa.Function {
	par := map[*ssa.Function]*ssa.Function{}
	var q []*ssa.Function
	for _, r := range roots {
		if r != nil {
			par[r] = nil
			q = append(q, r)
		}
	}
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		for _, s := range g.Succ(f) {
			if _, ok := par[s]; !ok {
				par[s] = f
				q = append(q, s)
			}
		}
	}
	return par
}

func pathTo(par map[*ssa.Function]*ssa.Function, f *ssa.Function) string {
	s := fnName(f)
	for x := par[f]; x != nil; x = par[x] {
		s = fnName(x) + " > " + s
	}
	return s
}
