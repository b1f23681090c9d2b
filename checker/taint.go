package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Taint follows values through the whole repository: assignments, fields (by
// type), variables, containers, calls (a result is tainted at a call site only
// if an argument is, unless the callee reads a source itself) and channels.
type Taint struct {
	p      *Prog
	cg     *CG
	vals   map[ssa.Value]byte // 1: comes from a source, 2: from a parameter
	why    map[ssa.Value]ssa.Value
	fields map[string]byte
	work   []ssa.Value
	// source: the value is a source; propagates: an external function returns
	// (or writes to its receiver) what it is given
	source    func(ssa.Value) bool
	srcField  func(owner types.Type, f *types.Var) bool
	srcParam  func(*ssa.Parameter) bool
	propagate func(name string) bool
	exclude   func(*ssa.Function) bool
	fieldUse  map[string][]ssa.Value
	retParam  map[*ssa.Function]map[int]bool // results that come from parameters
	callers   map[*ssa.Function][]ssa.CallInstruction
}

func fieldKey(t types.Type, i int) (string, *types.Var, types.Type) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || i >= st.NumFields() {
		return "", nil, nil
	}
	return typeName(t) + "." + st.Field(i).Name(), st.Field(i), t
}

func (t *Taint) add(v ssa.Value, b byte, from ssa.Value) {
	if v == nil || b == 0 {
		return
	}
	if isErrorType(v.Type()) {
		return
	}
	if bt, ok := v.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
		return
	}
	if t.vals[v]&b == b {
		return
	}
	if t.vals[v] == 0 {
		t.why[v] = from
	}
	t.vals[v] |= b
	t.work = append(t.work, v)
}

func (t *Taint) addField(k string, b byte, from ssa.Value) {
	if b == 0 || t.fields[k] != 0 {
		return
	}
	t.fields[k] = 1
	for _, v := range t.fieldUse[k] {
		t.add(v, 1, from)
	}
}

func (t *Taint) run() {
	t.vals, t.why = map[ssa.Value]byte{}, map[ssa.Value]ssa.Value{}
	t.fields, t.fieldUse = map[string]byte{}, map[string][]ssa.Value{}
	t.cg = t.p.CallGraph()
	t.retParam = map[*ssa.Function]map[int]bool{}
	t.callers = map[*ssa.Function][]ssa.CallInstruction{}
	for _, fn := range t.p.Funcs {
		if t.exclude(fn) {
			continue
		}
		for _, p := range fn.Params {
			if t.srcParam != nil && t.srcParam(p) {
				t.add(p, 1, nil)
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, f := range t.callees(ci.Common()) {
						t.callers[f] = append(t.callers[f], ci)
					}
				}
				switch x := in.(type) {
				case *ssa.FieldAddr:
					k, f, o := fieldKey(x.X.Type(), x.Field)
					t.fieldUse[k] = append(t.fieldUse[k], x)
					if f != nil && t.srcField(o, f) {
						t.fields[k] = 1
						t.add(x, 1, nil)
					}
				case *ssa.Field:
					k, f, o := fieldKey(x.X.Type(), x.Field)
					t.fieldUse[k] = append(t.fieldUse[k], x)
					if f != nil && t.srcField(o, f) {
						t.fields[k] = 1
						t.add(x, 1, nil)
					}
				}
				if v, ok := in.(ssa.Value); ok && t.source(v) {
					t.add(v, 1, nil)
				}
			}
		}
	}
	for len(t.work) > 0 {
		v := t.work[0]
		t.work = t.work[1:]
		t.flow(v, t.vals[v])
	}
}

// base: the object an address points into.
func (t *Taint) storeTo(addr ssa.Value, b byte, from ssa.Value) {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		k, _, _ := fieldKey(a.X.Type(), a.Field)
		t.addField(k, b, from)
	case *ssa.IndexAddr:
		t.add(a.X, b, from)
		if u, ok := a.X.(*ssa.UnOp); ok {
			t.storeTo(u.X, b, from)
		}
	default:
		t.add(addr, b, from)
	}
}

func (t *Taint) flow(v ssa.Value, b byte) {
	refs := v.Referrers()
	if g, ok := v.(*ssa.Global); ok {
		for _, fn := range t.p.Funcs {
			for _, bl := range fn.Blocks {
				for _, in := range bl.Instrs {
					if u, ok := in.(*ssa.UnOp); ok && u.X == g {
						t.add(u, b, v)
					}
				}
			}
		}
		return
	}
	if refs == nil {
		return
	}
	for _, in := range *refs {
		if in.Parent() != nil && t.exclude(in.Parent()) {
			continue
		}
		switch x := in.(type) {
		case *ssa.Store:
			if x.Val == v {
				t.storeTo(x.Addr, b, v)
			}
		case *ssa.MapUpdate:
			if x.Value == v || x.Key == v {
				t.add(x.Map, b, v)
				if u, ok := x.Map.(*ssa.UnOp); ok {
					t.storeTo(u.X, b, v)
				}
			}
		case *ssa.Send:
			if x.X == v {
				t.add(x.Chan, b, v)
			}
		case *ssa.UnOp:
			if x.Op.String() == "*" || x.Op.String() == "<-" {
				t.add(x, b, v)
			}
		case *ssa.FieldAddr:
			// a tainted struct does not taint all its fields: fields are
			// followed by type; a tainted element of another type neither
		case *ssa.Field:
		case *ssa.BinOp:
			switch x.Op.String() {
			case "+", "^", "|", "&":
				t.add(x, b, v)
			}
		case *ssa.Phi, *ssa.ChangeType, *ssa.Convert, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.TypeAssert, *ssa.Slice, *ssa.Index, *ssa.IndexAddr, *ssa.Range, *ssa.Next, *ssa.Lookup, *ssa.SliceToArrayPointer:
			t.add(in.(ssa.Value), b, v)
		case *ssa.Extract:
			t.add(x, b, v)
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			for i, bi := range x.Bindings {
				if bi == v {
					t.add(fn.FreeVars[i], b, v)
				}
			}
		case *ssa.Return:
			t.returned(x, v, b)
		case ssa.CallInstruction:
			t.call(x, v, b)
		}
	}
	// what is written into a cell through a free variable
	if fv, ok := v.(*ssa.FreeVar); ok {
		fn := fv.Parent()
		for i, f := range fn.FreeVars {
			if f != fv || fn.Referrers() == nil {
				continue
			}
			for _, r := range *fn.Referrers() {
				if mc, ok := r.(*ssa.MakeClosure); ok {
					if _, isCell := mc.Bindings[i].Type().Underlying().(*types.Pointer); isCell {
						t.add(mc.Bindings[i], b, v)
					}
				}
			}
		}
	}
}

func (t *Taint) callees(c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		return t.cg.dispatch(c.Value.Type(), c.Method)
	}
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	return nil
}

func (t *Taint) call(ci ssa.CallInstruction, v ssa.Value, b byte) {
	c := ci.Common()
	res, _ := ci.(*ssa.Call)
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "append":
			if res != nil {
				t.add(res, b, v)
			}
		case "copy":
			if len(c.Args) == 2 && c.Args[1] == v {
				t.add(c.Args[0], b, v)
			}
		}
		return
	}
	fs := t.callees(c)
	inRepo := false
	for _, f := range fs {
		if f == nil || !t.p.FnInRepo(f) || len(f.Blocks) == 0 || t.exclude(f) {
			continue
		}
		inRepo = true
		off := 0
		if c.IsInvoke() {
			off = 1
		}
		for i, a := range c.Args {
			if a == v && i+off < len(f.Params) {
				t.add(f.Params[i+off], 2, v)
				if res != nil {
					for k := range t.retParam[f] {
						t.addResult(res, k, v, b)
					}
				}
			}
		}
		if c.IsInvoke() && c.Value == v {
			t.add(f.Params[0], 2, v)
		}
	}
	if inRepo || len(fs) == 0 && !c.IsInvoke() {
		return
	}
	name := calleeStr(c)
	if t.propagate(name) && res != nil {
		t.add(res, b, v)
	}
}

func calleeStr(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return typeName(c.Value.Type()) + "." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return fnName(f)
	}
	return ""
}

func (t *Taint) returned(r *ssa.Return, v ssa.Value, b byte) {
	fn := r.Parent()
	for i, x := range r.Results {
		if x != v {
			continue
		}
		if b&1 != 0 {
			for _, ci := range t.callers[fn] {
				if res, ok := ci.(*ssa.Call); ok {
					t.addResult(res, i, v, 1)
				}
			}
		}
		if b&2 == 0 || t.retParam[fn][i] {
			continue
		}
		if t.retParam[fn] == nil {
			t.retParam[fn] = map[int]bool{}
		}
		t.retParam[fn][i] = true
		for _, ci := range t.callers[fn] {
			res, ok := ci.(*ssa.Call)
			if !ok {
				continue
			}
			best := byte(0)
			for _, a := range ci.Common().Args {
				best |= t.vals[a]
			}
			t.addResult(res, i, v, best)
		}
	}
}

func (t *Taint) addResult(res *ssa.Call, i int, from ssa.Value, b byte) {
	tu, ok := res.Type().(*types.Tuple)
	if !ok {
		t.add(res, b, from)
		return
	}
	if tu.Len() <= i || res.Referrers() == nil {
		return
	}
	for _, u := range *res.Referrers() {
		if e, ok := u.(*ssa.Extract); ok && e.Index == i {
			t.add(e, b, from)
		}
	}
}

// path: how the value got there.
func (t *Taint) path(v ssa.Value) string {
	var parts []string
	seen := map[ssa.Value]bool{}
	for x := v; x != nil && !seen[x] && len(parts) < 40; x = t.why[x] {
		seen[x] = true
		if x.Parent() != nil {
			n := fnName(x.Parent())
			if len(parts) == 0 || parts[len(parts)-1] != n {
				parts = append(parts, n)
			}
		}
	}
	for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
		parts[i], parts[j] = parts[j], parts[i]
	}
	return strings.Join(parts, " > ")
}
