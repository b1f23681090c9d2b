package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed canonical description of an SSA value in a calling
// context. Two values with the same Term are treated as equal by the facts.
type Term struct {
	ID   int
	Op   string
	Aux  string
	Args []*Term
	Typ  types.Type
	// Not part of the identity:
	Alts []*Term         // for phi: the alternatives
	Fn   *ssa.Function   // for fn / closure
	Con  constant.Value  // for const
	Site ssa.Instruction // for call: where
	Objf types.Object    // for field: the *types.Var
}

type TermTab struct {
	m map[string]*Term
	l []*Term
}

func newTermTab() *TermTab { return &TermTab{m: map[string]*Term{}} }

func (tt *TermTab) mk(op, aux string, typ types.Type, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(aux)
	for _, a := range args {
		sb.WriteByte('|')
		if a == nil {
			sb.WriteString("nil")
		} else {
			sb.WriteString(strconv.Itoa(a.ID))
		}
	}
	k := sb.String()
	if t, ok := tt.m[k]; ok {
		if t.Typ == nil {
			t.Typ = typ
		}
		return t
	}
	t := &Term{ID: len(tt.l) + 1, Op: op, Aux: aux, Args: args, Typ: typ}
	tt.m[k] = t
	tt.l = append(tt.l, t)
	return t
}

func (tt *TermTab) constant(v constant.Value, typ types.Type) *Term {
	if v == nil {
		t := tt.mk("zero", zeroAux(typ), typ)
		return t
	}
	aux := v.ExactString()
	switch v.Kind() {
	case constant.String:
		aux = "s" + aux
	case constant.Bool:
		aux = "b" + aux
	}
	t := tt.mk("const", aux, typ)
	t.Con = v
	return t
}

func zeroAux(typ types.Type) string {
	switch typ.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Chan, *types.Signature:
		return "nil"
	}
	return typeName(typ)
}

func (t *Term) IsNil() bool {
	return t != nil && t.Op == "zero" && t.Aux == "nil"
}

func (t *Term) IsZero() bool {
	if t == nil {
		return false
	}
	if t.Op == "zero" {
		return true
	}
	if t.Op == "const" && t.Con != nil {
		switch t.Con.Kind() {
		case constant.Bool:
			return !constant.BoolVal(t.Con)
		case constant.String:
			return constant.StringVal(t.Con) == ""
		case constant.Float:
			return constant.Sign(t.Con) == 0
		case constant.Int:
			i, ok := constant.Int64Val(t.Con)
			return ok && i == 0
		}
	}
	return false
}

func (t *Term) BoolConst() (val, ok bool) {
	if t != nil && t.Op == "const" && t.Con != nil && t.Con.Kind() == constant.Bool {
		return constant.BoolVal(t.Con), true
	}
	if t != nil && t.Op == "zero" {
		if b, k := t.Typ.Underlying().(*types.Basic); k && b.Kind() == types.Bool {
			return false, true
		}
	}
	return false, false
}

func (t *Term) IntConst() (int64, bool) {
	if t != nil && t.Op == "const" && t.Con != nil {
		if t.Con.Kind() == constant.Int {
			return constant.Int64Val(t.Con)
		}
		if t.Con.Kind() == constant.Float {
			c := constant.ToInt(t.Con)
			if c.Kind() == constant.Int {
				return constant.Int64Val(c)
			}
		}
	}
	if t != nil && t.Op == "zero" && t.Typ != nil {
		if b, k := t.Typ.Underlying().(*types.Basic); k && b.Info()&types.IsInteger != 0 {
			return 0, true
		}
	}
	return 0, false
}

func (t *Term) StrConst() (string, bool) {
	if t != nil && t.Op == "const" && t.Con != nil && t.Con.Kind() == constant.String {
		return constant.StringVal(t.Con), true
	}
	if t != nil && t.Op == "zero" && t.Typ != nil {
		if b, k := t.Typ.Underlying().(*types.Basic); k && b.Info()&types.IsString != 0 {
			return "", true
		}
	}
	return "", false
}

// String renders a term for people (bounded depth).
func (t *Term) String() string { return t.str(5) }

func (t *Term) str(d int) string {
	if t == nil {
		return "?"
	}
	if d == 0 {
		return "…"
	}
	args := func() string {
		var s []string
		for _, a := range t.Args {
			s = append(s, a.str(d-1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case "const":
		return strings.TrimPrefix(strings.TrimPrefix(t.Aux, "s"), "b")
	case "zero":
		if t.Aux == "nil" {
			return "nil"
		}
		return t.Aux + "{}"
	case "field":
		n := t.Aux[strings.LastIndex(t.Aux, ".")+1:]
		return t.Args[0].str(d-1) + "." + n
	case "call":
		n := t.Aux
		if i := strings.Index(n, "@"); i >= 0 {
			n = n[:i]
		}
		return n + "(" + args() + ")"
	case "extract":
		return t.Args[0].str(d-1) + "#" + t.Aux
	case "param":
		return t.Aux
	case "alloc", "phi":
		return t.Op + ":" + typeName(t.Typ)
	case "struct":
		return t.Aux + "{" + args() + "}"
	}
	return fmt.Sprintf("%s[%s](%s)", t.Op, t.Aux, args())
}

// CallName of a call term (or of the call a result was extracted from).
func (t *Term) CallName() string {
	if t == nil {
		return ""
	}
	if t.Op == "extract" {
		return t.Args[0].CallName()
	}
	if t.Op == "call" {
		n := t.Aux
		if i := strings.Index(n, "@"); i >= 0 {
			n = n[:i]
		}
		return n
	}
	return ""
}

// CallArgs of a call term, looking through extract.
func (t *Term) CallArgs() []*Term {
	if t == nil {
		return nil
	}
	if t.Op == "extract" {
		return t.Args[0].CallArgs()
	}
	if t.Op == "call" {
		return t.Args
	}
	return nil
}

// IsField reports whether t reads the given struct field ("domain.Market.Tradable").
func (t *Term) IsField(name string) bool { return t != nil && t.Op == "field" && t.Aux == name }

// Contains reports whether any subterm (phi alternatives included) satisfies f.
func (t *Term) Contains(f func(*Term) bool) bool {
	return t.contains(f, map[*Term]bool{})
}

func (t *Term) contains(f func(*Term) bool, seen map[*Term]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	if f(t) {
		return true
	}
	for _, a := range t.Args {
		if a.contains(f, seen) {
			return true
		}
	}
	if t.Op == "phi" {
		for _, a := range t.Alts {
			if a.contains(f, seen) {
				return true
			}
		}
	}
	return false
}

// All reports whether t satisfies f, or t is a phi all of whose alternatives do.
func (t *Term) All(f func(*Term) bool) bool { return t.all(f, map[*Term]bool{}) }

func (t *Term) all(f func(*Term) bool, seen map[*Term]bool) bool {
	if t == nil {
		return false
	}
	if f(t) {
		return true
	}
	if t.Op == "phi" && len(t.Alts) > 0 {
		if seen[t] {
			return true
		}
		seen[t] = true
		for _, a := range t.Alts {
			if !a.all(f, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// Any reports whether t or one of its phi alternatives satisfies f.
func (t *Term) Any(f func(*Term) bool) bool { return t.any(f, map[*Term]bool{}) }

func (t *Term) any(f func(*Term) bool, seen map[*Term]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	if f(t) {
		return true
	}
	if t.Op == "phi" {
		for _, a := range t.Alts {
			if a.any(f, seen) {
				return true
			}
		}
	}
	return false
}
