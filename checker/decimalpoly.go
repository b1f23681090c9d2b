package main

import (
	"sort"
	"strings"
)

// poly is a polynomial with integer coefficients over atoms (terms); it gives
// decimal expressions a normal form so that rules compare what is computed,
// not how it is spelled.
type poly map[string]int64

func monoMul(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	l := append(strings.Split(a, "*"), strings.Split(b, "*")...)
	sort.Strings(l)
	return strings.Join(l, "*")
}

func (p poly) add(q poly, k int64) poly {
	r := poly{}
	for m, c := range p {
		r[m] += c
	}
	for m, c := range q {
		r[m] += k * c
	}
	for m, c := range r {
		if c == 0 {
			delete(r, m)
		}
	}
	return r
}

func (p poly) mul(q poly) poly {
	r := poly{}
	for m, c := range p {
		for n, d := range q {
			r[monoMul(m, n)] += c * d
		}
	}
	for m, c := range r {
		if c == 0 {
			delete(r, m)
		}
	}
	return r
}

func (p poly) eq(q poly) bool {
	if len(p) != len(q) {
		return false
	}
	for m, c := range p {
		if q[m] != c {
			return false
		}
	}
	return true
}

func atomPoly(t *Term) poly { return poly{itoa(t.ID): 1} }

// decPoly normalises a decimal.Decimal (or integer) term.
func decPoly(t *Term) poly {
	if t == nil {
		return poly{"?": 1}
	}
	if c, ok := t.IntConst(); ok {
		if c == 0 {
			return poly{}
		}
		return poly{"": c}
	}
	a := t.CallArgs()
	switch t.CallName() {
	case "decimal.NewFromInt", "decimal.NewFromInt32":
		return decPoly(a[0])
	case "decimal.New":
		if e, ok := a[1].IntConst(); ok && e >= 0 && e < 18 {
			k := int64(1)
			for i := int64(0); i < e; i++ {
				k *= 10
			}
			return decPoly(a[0]).mul(poly{"": k})
		}
	case "decimal.Decimal.Add":
		return decPoly(a[0]).add(decPoly(a[1]), 1)
	case "decimal.Decimal.Sub":
		return decPoly(a[0]).add(decPoly(a[1]), -1)
	case "decimal.Decimal.Mul":
		return decPoly(a[0]).mul(decPoly(a[1]))
	case "decimal.Decimal.Neg":
		return poly{}.add(decPoly(a[0]), -1)
	}
	if t.Op == "bin" && len(t.Args) == 2 && isIntLike(t) {
		switch t.Aux {
		case "+":
			return decPoly(t.Args[0]).add(decPoly(t.Args[1]), 1)
		case "-":
			return decPoly(t.Args[0]).add(decPoly(t.Args[1]), -1)
		case "*":
			return decPoly(t.Args[0]).mul(decPoly(t.Args[1]))
		}
	}
	return atomPoly(t)
}

// decGE: the fact (k, t) states a >= b for two decimals.
func decGE(k byte, t *Term) (a, b *Term, ok bool) {
	if k != 'T' && k != 'F' {
		return
	}
	n := t.CallName()
	if strings.HasPrefix(n, "decimal.Decimal.") && t.Op == "call" && len(t.Args) == 2 {
		x, y := t.Args[0], t.Args[1]
		switch n[len("decimal.Decimal."):] {
		case "GreaterThanOrEqual":
			if k == 'T' {
				return x, y, true
			}
			return y, x, true
		case "LessThanOrEqual":
			if k == 'T' {
				return y, x, true
			}
			return x, y, true
		case "GreaterThan":
			if k == 'T' {
				return x, y, true
			}
			return y, x, true
		case "LessThan":
			if k == 'T' {
				return y, x, true
			}
			return x, y, true
		}
	}
	// lt(Cmp(x,y), c)
	if t.Op == "lt" && t.Args[0].CallName() == "decimal.Decimal.Cmp" {
		x, y := t.Args[0].CallArgs()[0], t.Args[0].CallArgs()[1]
		c, isC := t.Args[1].IntConst()
		if isC && c == 0 {
			if k == 'F' {
				return x, y, true
			}
			return y, x, true
		}
		if isC && c == 1 {
			if k == 'F' {
				return x, y, true
			}
			return y, x, true
		}
	}
	return
}
