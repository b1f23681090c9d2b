package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lockHook tracks which mutexes are held. A mutex is named by the struct field
// (or global) holding it.
func lockHook(st *State, ev *Event) {
	if ev.Kind != "call" || len(ev.Args) == 0 {
		return
	}
	id, op := mutexOp(ev)
	if op == "" {
		return
	}
	switch op {
	case "Lock":
		st.Gen("w:" + id)
	case "RLock":
		st.Gen("r:" + id)
	case "Unlock":
		st.Kill("w:" + id)
	case "RUnlock":
		st.Kill("r:" + id)
	}
}

// mutexOp classifies a call on sync.Mutex / sync.RWMutex / sync.Locker.
func mutexOp(ev *Event) (id, op string) {
	if ev.Kind != "call" || len(ev.Args) == 0 {
		return "", ""
	}
	n := ev.Name
	var m string
	for _, p := range []string{"sync.Mutex.", "sync.RWMutex.", "sync.Locker."} {
		if strings.HasPrefix(n, p) {
			m = strings.TrimPrefix(n, p)
		}
	}
	switch m {
	case "Lock", "RLock", "Unlock", "RUnlock":
	default:
		return "", ""
	}
	return mutexID(ev.Args[0]), m
}

func mutexID(t *Term) string {
	switch t.Op {
	case "faddr", "field", "global", "gload":
		return t.Aux
	case "load":
		return mutexID(t.Args[0])
	case "phi":
		id := ""
		for _, a := range t.Alts {
			x := mutexID(a)
			if id == "" {
				id = x
			} else if id != x {
				return "?"
			}
		}
		return id
	}
	return t.Op + ":" + t.Aux
}

// heldPrefix: some mutex of the struct type is held (write, or read when !write).
func heldOn(st *State, structName string, write bool) bool {
	return st.Each(func(k byte, t *Term) bool {
		if k != 'L' {
			return false
		}
		if strings.HasPrefix(t.Aux, "w:"+structName+".") {
			return true
		}
		return !write && strings.HasPrefix(t.Aux, "r:"+structName+".")
	})
}

// okErr: the error result of the call that produced t is known to be nil.
func okErr(st *State, t *Term) bool {
	if t == nil {
		return false
	}
	base := t
	if t.Op == "extract" {
		base = t.Args[0]
	}
	if base.Op != "call" {
		return false
	}
	tp, ok := base.Typ.(*types.Tuple)
	if !ok {
		return !isErrorType(base.Typ) || st.Has('N', base)
	}
	n := tp.Len()
	if n == 0 || !isErrorType(tp.At(n-1).Type()) {
		return true
	}
	e := st.e.tab.mk("extract", itoa(n-1), tp.At(n-1).Type(), base)
	return st.Has('N', e)
}

// lastIs: name ends in .<one of>.
func lastIs(name string, opts ...string) bool {
	for _, o := range opts {
		if name == o || strings.HasSuffix(name, "."+o) {
			return true
		}
	}
	return false
}

// mayReturnNil: the value can be nil in this state.
func mayBeNil(st *State, t *Term) bool { return st.feasible(t, 'N') }

// exportedMethods of a named type (pointer method set), with bodies.
func (p *Prog) exportedMethods(nt *types.Named) []*ssa.Function {
	var out []*ssa.Function
	for i := 0; i < nt.NumMethods(); i++ {
		m := nt.Method(i)
		if !m.Exported() {
			continue
		}
		if f := p.SSA.FuncValue(m); f != nil && f.Blocks != nil {
			out = append(out, f)
		}
	}
	return out
}

func termOfType(t *Term, name string) bool {
	return t != nil && t.Typ != nil && typeName(t.Typ) == name
}

// paramIdx: t is the i-th parameter (receiver included) of the entry function.
func paramIdx(t *Term) int {
	if t == nil || t.Op != "param" {
		return -1
	}
	i := strings.Index(t.Aux, "@")
	if i < 0 {
		return -1
	}
	j := strings.Index(t.Aux[i:], ":")
	n := 0
	for _, ch := range t.Aux[i+1 : i+j] {
		n = n*10 + int(ch-'0')
	}
	return n
}

// cell resolves a pointer to a local to the value it holds.
func cell(st *State, t *Term) *Term {
	if t != nil && t.Op == "alloc" {
		if v, ok := st.env[t]; ok {
			return v
		}
	}
	return t
}

func sortStrings(s []string) { sort.Strings(s) }
