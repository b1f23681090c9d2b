package main

import "go/types"

// Facts are canonical conditions known to hold on every path reaching a
// program point (a must analysis: joins intersect).
//
//	'T' term is true     'F' term is false
//	'N' term is nil/zero-error   'X' term is not nil
//	'L' label set by a rule hook (the term is the label)
type FK struct {
	K byte
	T int
}

type Snap struct {
	facts map[FK]bool
	env   map[*Term]*Term
	top   bool // the condition cannot hold
}

type deferRec struct {
	frame *Frame
	instr *ssaDefer
	must  bool
}

type State struct {
	e      *Engine
	facts  map[FK]bool
	env    map[*Term]*Term
	cond   map[FK]*Snap
	defers []deferRec
	// allocations executed on some path here: elsewhere the object does not
	// exist, so its cells say nothing
	seen map[*Term]bool
}

func (s *State) clone() *State {
	n := &State{e: s.e, facts: make(map[FK]bool, len(s.facts)+8), env: make(map[*Term]*Term, len(s.env)+8), cond: make(map[FK]*Snap, len(s.cond)+4)}
	for k := range s.facts {
		n.facts[k] = true
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.cond {
		n.cond[k] = v
	}
	n.defers = append([]deferRec(nil), s.defers...)
	n.seen = make(map[*Term]bool, len(s.seen)+2)
	for k := range s.seen {
		n.seen[k] = true
	}
	return n
}

func (s *State) equal(o *State) bool {
	if o == nil || len(s.facts) != len(o.facts) || len(s.env) != len(o.env) {
		return false
	}
	for k := range s.facts {
		if !o.facts[k] {
			return false
		}
	}
	for k, v := range s.env {
		if o.env[k] != v {
			return false
		}
	}
	return true
}

// Has reports whether a fact holds.
func (s *State) Has(k byte, t *Term) bool { return t != nil && s.facts[FK{k, t.ID}] }

func (s *State) Label(name string, args ...*Term) *Term {
	return s.e.tab.mk("label", name, nil, args...)
}
func (s *State) Gen(name string, args ...*Term) { s.facts[FK{'L', s.Label(name, args...).ID}] = true }
func (s *State) Is(name string, args ...*Term) bool {
	return s.facts[FK{'L', s.Label(name, args...).ID}]
}

// HasLabel: the label holds for some arguments.
func (s *State) HasLabel(name string) bool {
	return s.Each(func(k byte, t *Term) bool { return k == 'L' && t.Aux == name })
}

// Kill removes a label now and from every conditional snapshot.
func (s *State) Kill(name string, args ...*Term) { s.killKey(FK{'L', s.Label(name, args...).ID}) }

// KillAll removes every label with the given name.
func (s *State) KillAll(name string) {
	s.killIf(func(k FK, t *Term) bool { return k.K == 'L' && t.Aux == name })
}

func (s *State) killKey(k FK) {
	delete(s.facts, k)
	for ck, sn := range s.cond {
		if sn.facts[k] {
			s.cond[ck] = sn.without(func(x FK) bool { return x == k })
		}
	}
}

func (s *State) killIf(f func(FK, *Term) bool) {
	for k := range s.facts {
		if f(k, s.e.term(k.T)) {
			delete(s.facts, k)
		}
	}
	for ck, sn := range s.cond {
		hit := false
		for k := range sn.facts {
			if f(k, s.e.term(k.T)) {
				hit = true
				break
			}
		}
		if hit {
			s.cond[ck] = sn.without(func(x FK) bool { return f(x, s.e.term(x.T)) })
		}
	}
}

func (sn *Snap) without(f func(FK) bool) *Snap {
	n := &Snap{facts: map[FK]bool{}, env: sn.env, top: sn.top}
	for k := range sn.facts {
		if !f(k) {
			n.facts[k] = true
		}
	}
	return n
}

// CondGen makes label hold once term turns out to have the given polarity.
func (s *State) CondGen(k byte, t *Term, label string, args ...*Term) {
	ck := FK{k, t.ID}
	old := s.cond[ck]
	n := &Snap{facts: map[FK]bool{}, env: map[*Term]*Term{}}
	if old != nil {
		n.top = old.top
		for f := range old.facts {
			n.facts[f] = true
		}
		for p, v := range old.env {
			n.env[p] = v
		}
	}
	n.facts[FK{'L', s.Label(label, args...).ID}] = true
	s.cond[ck] = n
}

// Each iterates over the facts.
func (s *State) Each(f func(k byte, t *Term) bool) bool {
	for k := range s.facts {
		if f(k.K, s.e.term(k.T)) {
			return true
		}
	}
	return false
}

// HasMatch reports whether some fact of kind k has a term satisfying m.
func (s *State) HasMatch(k byte, m func(*Term) bool) bool {
	return s.Each(func(kk byte, t *Term) bool { return kk == k && m(t) })
}

// --- eff: facts and env of a state once a term has a polarity ---

func opposite(k byte) byte {
	switch k {
	case 'T':
		return 'F'
	case 'F':
		return 'T'
	case 'N':
		return 'X'
	}
	return 'N'
}

func (s *State) feasible(t *Term, k byte) bool {
	switch k {
	case 'N', 'X':
		if isString(t.Typ) {
			// of strings: empty or not
			if v, ok := t.StrConst(); ok {
				return (v == "") == (k == 'N')
			}
			if t.Op == "zero" {
				return k == 'N'
			}
			if t.CallName() == "time.Time.String" {
				return k == 'X'
			}
		} else if t.IsNil() {
			return k == 'N'
		}
		if !isString(t.Typ) && s.e.nonNil(s, t) {
			return k == 'X'
		}
	case 'T', 'F':
		if b, ok := t.BoolConst(); ok {
			return b == (k == 'T')
		}
		if t.Op == "not" {
			return s.feasible(t.Args[0], opposite(k))
		}
		if t.Op == "lt" || t.Op == "eq" {
			if v, known := s.compared(t); known && v != (k == 'T') {
				return false
			}
		}
		if t.Op == "eq" && isBool(t.Args[0].Typ) && isBool(t.Args[1].Typ) {
			possible := false
			for _, v := range []byte("TF") {
				w := v
				if k == 'F' {
					w = opposite(v)
				}
				possible = possible || s.feasible(t.Args[0], v) && s.feasible(t.Args[1], w)
			}
			if !possible {
				return false
			}
		}
	}
	if s.facts[FK{opposite(k), t.ID}] {
		return false
	}
	if sn := s.cond[FK{k, t.ID}]; sn != nil && sn.top {
		return false
	}
	return true
}

// assume strengthens the state in place; false when it becomes infeasible.
func (s *State) assume(t *Term, k byte) bool {
	if t == nil {
		return true
	}
	if t.Op == "not" {
		return s.assume(t.Args[0], opposite(k))
	}
	if !s.feasible(t, k) {
		return false
	}
	if t.Op == "const" || t.Op == "zero" {
		return true
	}
	s.facts[FK{k, t.ID}] = true
	if s.e.onAssume != nil {
		s.e.onAssume(s, k, t)
	}
	if sn := s.cond[FK{k, t.ID}]; sn != nil {
		for f := range sn.facts {
			s.facts[f] = true
		}
		for p, v := range sn.env {
			// a cell holding the value itself keeps it: the facts describe it
			if s.env[p] != t {
				s.env[p] = v
			}
		}
	}
	if t.Op == "eq" && (k == 'T' || k == 'F') && isBool(t.Args[0].Typ) && isBool(t.Args[1].Typ) {
		// one side tells the other
		for i, x := range t.Args {
			for _, v := range []byte("TF") {
				if !s.feasible(x, opposite(v)) {
					if k == 'F' {
						v = opposite(v)
					}
					return s.assume(t.Args[1-i], v)
				}
			}
		}
	}
	// what is not the zero value was found in the map
	if m := lookedUp(t, k); m != nil && !s.assume(s.e.tab.mk("has", "", types.Typ[types.Bool], m.Args[0], m.Args[1]), 'T') {
		return false
	}
	// nil comparisons are canonicalised to isnil(x)
	if t.Op == "isnil" {
		kk := byte('N')
		if k == 'F' {
			kk = 'X'
		}
		return s.assume(t.Args[0], kk)
	}
	if t.Op == "empty" && isString(t.Args[0].Typ) {
		kk := byte('N')
		if k == 'F' {
			kk = 'X'
		}
		return s.assume(t.Args[0], kk)
	}
	return true
}

// lookedUp is the entry of a map that the given fact tells from the zero value.
func lookedUp(t *Term, k byte) *Term {
	switch {
	case t.Op == "lookup" && (k == 'X' || k == 'T'):
		return onMap(t)
	case t.Op == "eq" && k == 'F':
		for i, x := range t.Args {
			if x.Op != "lookup" {
				continue
			}
			if z := t.Args[1-i]; z.IsZero() {
				return onMap(x)
			}
		}
	}
	return nil
}

func onMap(t *Term) *Term {
	if !isMap(t.Args[0].Typ) {
		return nil
	}
	return t
}

type edgeVal struct {
	S *State
	T *Term
}

func isString(t typesType) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func nillable(t *Term) bool {
	if t == nil || t.Typ == nil {
		return true
	}
	return zeroAux(t.Typ) == "nil"
}

// mkPhi merges values arriving over several edges; it returns the merged term
// and installs, into install, what is known under each polarity of it.
func (e *Engine) mkPhi(key string, typ typesType, edges []edgeVal) (*Term, map[FK]*Snap) {
	if len(edges) == 0 {
		return e.tab.mk("phi", key, typ), nil
	}
	same := true
	for _, x := range edges[1:] {
		if x.T != edges[0].T {
			same = false
		}
	}
	if same {
		return edges[0].T, nil
	}
	ph := e.tab.mk("phi", key, typ)
	ph.Alts = nil
	for _, x := range edges {
		dup := x.T == ph
		for _, a := range ph.Alts {
			if a == x.T {
				dup = true
			}
		}
		if !dup {
			ph.Alts = append(ph.Alts, x.T)
		}
	}
	// what to know once the merged value turns out to be...
	type cond struct {
		key  FK
		alts func(x *Term) (*Term, byte, bool) // what it takes of an alternative
	}
	var conds []cond
	polar := func(kinds ...byte) {
		for _, k := range kinds {
			k := k
			conds = append(conds, cond{FK{k, ph.ID}, func(x *Term) (*Term, byte, bool) { return x, k, true }})
		}
	}
	switch {
	case isBool(typ):
		polar('T', 'F')
	case zeroAux(typ) == "nil", isString(typ):
		polar('N', 'X')
	}
	if isBasicConst(ph.Alts) {
		for _, a := range ph.Alts {
			if a == ph {
				continue
			}
			a := a
			eq := e.eqT(ph, a)
			if eq.Op != "eq" {
				continue
			}
			conds = append(conds,
				cond{FK{'T', eq.ID}, func(x *Term) (*Term, byte, bool) { return nil, 0, x == a }},
				cond{FK{'F', eq.ID}, func(x *Term) (*Term, byte, bool) { return nil, 0, x != a }})
		}
	}
	if len(conds) == 0 {
		return ph, nil
	}
	res := map[FK]*Snap{}
	for _, k := range conds {
		var acc *State
		for _, x := range edges {
			if x.T == ph {
				continue
			}
			t, kk, ok := k.alts(x.T)
			if !ok || t != nil && !x.S.feasible(t, kk) {
				continue
			}
			c := x.S.lightClone()
			if !c.assume(t, kk) {
				continue
			}
			if acc == nil {
				acc = c
			} else {
				acc.intersect(c)
			}
		}
		if acc == nil {
			res[k.key] = &Snap{facts: map[FK]bool{}, env: map[*Term]*Term{}, top: true}
			continue
		}
		res[k.key] = &Snap{facts: acc.facts, env: acc.env}
	}
	return ph, res
}

// isBasicConst: the alternatives are different constants.
func isBasicConst(alts []*Term) bool {
	for _, a := range alts {
		if a.Op != "const" {
			return false
		}
	}
	return len(alts) > 1
}

func (s *State) lightClone() *State {
	n := &State{e: s.e, facts: make(map[FK]bool, len(s.facts)+4), env: make(map[*Term]*Term, len(s.env)+4), cond: s.cond, seen: s.seen}
	for k := range s.facts {
		n.facts[k] = true
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	return n
}

func (s *State) intersect(o *State) {
	for k := range s.facts {
		if !o.facts[k] {
			delete(s.facts, k)
		}
	}
	for k, v := range s.env {
		if o.env[k] != v {
			delete(s.env, k)
		}
	}
}

// joinStates merges the states of several edges; cells with different values
// become phi terms named after key.
func (e *Engine) joinStates(key string, ss []*State) *State {
	if len(ss) == 1 {
		return ss[0].clone()
	}
	out := &State{e: e, facts: map[FK]bool{}, env: map[*Term]*Term{}, cond: map[FK]*Snap{}}
	// facts
	for k := range ss[0].facts {
		all := true
		for _, o := range ss[1:] {
			if !o.facts[k] {
				all = false
				break
			}
		}
		if all {
			out.facts[k] = true
		}
	}
	// conditional facts
	keys := map[FK]bool{}
	for _, s := range ss {
		for k := range s.cond {
			keys[k] = true
		}
		// what some paths know to be an error and others not
		for k := range s.facts {
			if k.K != 'X' && k.K != 'N' || out.facts[k] || !isErrorType(e.term(k.T).Typ) {
				continue
			}
			for _, o := range ss {
				if o.facts[FK{opposite(k.K), k.T}] {
					keys[k] = true
				}
			}
		}
	}
	for ck := range keys {
		t := e.term(ck.T)
		var acc map[FK]bool
		var aenv map[*Term]*Term
		first := true
		n := 0
		for _, s := range ss {
			if s.facts[FK{opposite(ck.K), ck.T}] || !s.feasible(t, ck.K) {
				continue
			}
			n++
			sn := s.cond[ck]
			get := func(k FK) bool { return s.facts[k] || (sn != nil && sn.facts[k]) }
			genv := func(p *Term) *Term {
				if sn != nil {
					if v, ok := sn.env[p]; ok {
						return v
					}
				}
				return s.env[p]
			}
			if first {
				first = false
				acc = map[FK]bool{}
				aenv = map[*Term]*Term{}
				for k := range s.facts {
					if !out.facts[k] {
						acc[k] = true
					}
				}
				for p, v := range s.env {
					aenv[p] = v
				}
				if sn != nil {
					for k := range sn.facts {
						if !out.facts[k] {
							acc[k] = true
						}
					}
					for p, v := range sn.env {
						aenv[p] = v
					}
				}
				continue
			}
			for k := range acc {
				if !get(k) {
					delete(acc, k)
				}
			}
			for p, v := range aenv {
				if genv(p) != v {
					delete(aenv, p)
				}
			}
		}
		if n == 0 {
			out.cond[ck] = &Snap{facts: map[FK]bool{}, env: map[*Term]*Term{}, top: true}
			continue
		}
		if len(acc) > 0 || len(aenv) > 0 {
			out.cond[ck] = &Snap{facts: acc, env: aenv}
		}
	}
	// env
	out.seen = map[*Term]bool{}
	for _, s := range ss {
		for k := range s.seen {
			out.seen[k] = true
		}
	}
	done := map[*Term]bool{}
	for _, from := range ss {
		for p := range from.env {
			if done[p] {
				continue
			}
			done[p] = true
			root := rootOf(p)
			local := root != nil && root.Op == "alloc"
			if !local && from != ss[0] {
				continue
			}
			var edges []edgeVal
			ok := true
			for _, s := range ss {
				if local && !s.seen[root] {
					continue
				}
				v, has := s.env[p]
				if !has {
					// a field not written on this branch: part of the whole value
					if v = e.implied(s, p); v == nil {
						ok = false
						break
					}
				}
				edges = append(edges, edgeVal{s, v})
			}
			if !ok {
				continue
			}
			var typ typesType
			for _, x := range edges {
				if x.T != nil && x.T.Typ != nil {
					typ = x.T.Typ
					if x.T.Op != "zero" {
						break
					}
				}
			}
			if et := elemType(p.Typ); et != nil {
				typ = et
			}
			t, cs := e.mkPhi(key+"/"+itoa(p.ID), typ, edges)
			out.env[p] = t
			for k, sn := range cs {
				out.cond[k] = sn
			}
		}
	}
	// trim snapshots: drop what already holds
	for k, sn := range out.cond {
		nf := map[FK]bool{}
		for f := range sn.facts {
			if !out.facts[f] {
				nf[f] = true
			}
		}
		ne := map[*Term]*Term{}
		for p, v := range sn.env {
			if out.env[p] != v {
				ne[p] = v
			}
		}
		if len(nf) == 0 && len(ne) == 0 && !sn.top {
			delete(out.cond, k)
			continue
		}
		out.cond[k] = &Snap{facts: nf, env: ne, top: sn.top}
	}
	// defers
	type dk struct {
		f *Frame
		i *ssaDefer
	}
	cnt := map[dk]int{}
	must := map[dk]bool{}
	for _, s := range ss {
		for _, d := range s.defers {
			k := dk{d.frame, d.instr}
			if cnt[k] == 0 {
				must[k] = true
			}
			cnt[k]++
			if !d.must {
				must[k] = false
			}
		}
	}
	seen := map[dk]bool{}
	for _, s := range ss {
		for _, d := range s.defers {
			k := dk{d.frame, d.instr}
			if seen[k] {
				continue
			}
			seen[k] = true
			out.defers = append(out.defers, deferRec{d.frame, d.instr, must[k] && cnt[k] == len(ss)})
		}
	}
	return out
}

// implied: the value of a field of a local struct whose whole value is known.
func (e *Engine) implied(s *State, p *Term) *Term {
	if p.Op != "faddr" {
		return nil
	}
	b := p.Args[0]
	for b.Op == "faddr" {
		if _, ok := s.env[b]; ok {
			break
		}
		b = b.Args[0]
	}
	if v := s.env[b]; v == nil || v.Typ == nil {
		return nil
	}
	et := elemType(p.Typ)
	if et == nil {
		return nil
	}
	v := e.load(s, p, et)
	if v == e.valueBase(p) {
		return nil
	}
	return v
}
