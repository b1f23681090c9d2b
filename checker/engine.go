package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"slices"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type typesType = types.Type
type ssaDefer = ssa.Defer

const tokEQL = token.EQL

func itoa(i int) string { return strconv.Itoa(i) }

func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

type Frame struct {
	id     int
	fn     *ssa.Function
	parent *Frame
	site   ssa.Instruction
	args   []*Term
	free   []*Term
	depth  int
	async  bool
	inDef  bool
	vals   map[ssa.Value]*Term
	idx    map[ssa.Instruction]int
}

func (f *Frame) Path() string {
	var s []string
	for x := f; x != nil; x = x.parent {
		s = append([]string{fnName(x.fn)}, s...)
	}
	return strings.Join(s, " > ")
}

// Root is the entry frame.
func (f *Frame) Root() *Frame {
	for f.parent != nil {
		f = f.parent
	}
	return f
}

// Event is one interesting instruction reached with the facts of a State.
type Event struct {
	Kind   string // call, after, store, return, send, mapupdate, delete, close, go, panic, load
	Frame  *Frame
	Instr  ssa.Instruction
	Name   string        // callee or field name
	Fn     *ssa.Function // static callee, if any
	Args   []*Term       // call arguments, receiver first
	Res    []*Term       // results (after, return)
	Val    *Term         // stored value
	Base   *Term         // stored-to base
	Opaque bool          // callee not analysed inline
	Async  bool
	Pos    token.Pos
	Sig    *types.Signature
}

func (ev *Event) Last() string { // method or function name without qualifier
	return ev.Name[strings.LastIndex(ev.Name, ".")+1:]
}

type Engine struct {
	P         *Prog
	tab       *TermTab
	frames    map[string]*Frame
	nframes   int
	hook      func(*State, *Event)
	onAssume  func(*State, byte, *Term)
	onPhi     func(ph *ssa.Phi, edge int, st *State, v *Term) // a value chosen where paths join
	onInstr   func(ssa.Instruction)
	inline    func(*ssa.Function) bool
	pure      func(name string) bool // calls that change nothing, besides those whose name says so
	maxDepth  int
	evals     int
	maxEvals  int
	overflow  bool
	fieldMemo map[string]bool
	visited   map[*ssa.Function]bool
	contents  map[*Term]map[*Term]bool // what may have been put into a container
	calls     int
	rootFr    *Frame
	once      map[*Term]bool // locals assigned exactly once
}

func NewEngine(p *Prog) *Engine {
	return &Engine{P: p, tab: newTermTab(), frames: map[string]*Frame{}, maxDepth: 12, maxEvals: 60000,
		fieldMemo: map[string]bool{}, visited: map[*ssa.Function]bool{}, contents: map[*Term]map[*Term]bool{}, once: map[*Term]bool{}}
}

func (e *Engine) term(id int) *Term { return e.tab.l[id-1] }

// Run analyses entry with symbolic parameters.
func (e *Engine) Run(entry *ssa.Function) { e.RunWith(entry, nil) }

func (e *Engine) RunWith(entry *ssa.Function, init func(*State, []*Term)) {
	var args []*Term
	for i, p := range entry.Params {
		args = append(args, e.tab.mk("param", fmt.Sprintf("%s@%d:%s", p.Name(), i, fnName(entry)), p.Type()))
	}
	var free []*Term
	for i, p := range entry.FreeVars {
		free = append(free, e.tab.mk("param", fmt.Sprintf("free:%s@%d:%s", p.Name(), i, fnName(entry)), p.Type()))
	}
	st := &State{e: e, facts: map[FK]bool{}, env: map[*Term]*Term{}, cond: map[FK]*Snap{}, seen: map[*Term]bool{}}
	if init != nil {
		init(st, args)
	}
	fr := e.frame(nil, nil, entry)
	fr.args = args
	fr.free = free
	e.rootFr = fr
	e.evalFunc(fr, st)
}

func (e *Engine) frame(parent *Frame, site ssa.Instruction, fn *ssa.Function) *Frame {
	pid, idx := 0, 0
	if parent != nil {
		pid = parent.id
		idx = parent.instrIndex(site)
	}
	key := fmt.Sprintf("%d/%d/%p", pid, idx, fn)
	fr := e.frames[key]
	if fr == nil {
		e.nframes++
		fr = &Frame{id: e.nframes, fn: fn, parent: parent, site: site}
		if parent != nil {
			fr.depth = parent.depth + 1
			fr.async = parent.async
			fr.inDef = parent.inDef
		}
		e.frames[key] = fr
	}
	return fr
}

func (f *Frame) instrIndex(in ssa.Instruction) int {
	if f.idx == nil {
		f.idx = map[ssa.Instruction]int{}
		n := 0
		for _, b := range f.fn.Blocks {
			for _, i := range b.Instrs {
				n++
				f.idx[i] = n
			}
		}
	}
	return f.idx[in]
}

func (e *Engine) site(fr *Frame, in ssa.Instruction) string {
	return fmt.Sprintf("%d.%d", fr.id, fr.instrIndex(in))
}

func hasLoop(fn *ssa.Function) bool {
	color := make([]int, len(fn.Blocks))
	var dfs func(b *ssa.BasicBlock) bool
	dfs = func(b *ssa.BasicBlock) bool {
		color[b.Index] = 1
		for _, s := range b.Succs {
			if color[s.Index] == 1 {
				return true
			}
			if color[s.Index] == 0 && dfs(s) {
				return true
			}
		}
		color[b.Index] = 2
		return false
	}
	return dfs(fn.Blocks[0])
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := make([]bool, len(fn.Blocks))
	var out []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for _, s := range b.Succs {
			if !seen[s.Index] {
				dfs(s)
			}
		}
		out = append(out, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

type edgeKey struct {
	from *ssa.BasicBlock
	idx  int
}

type retRec struct {
	S   *State
	Res []*Term
}

// evalFunc evaluates fr.fn from st; the result is the joined exit state (nil
// when it never returns) and the result terms.
func (e *Engine) evalFunc(fr *Frame, st *State) (*State, []*Term) {
	e.evals++
	if e.evals > e.maxEvals {
		e.overflow = true
		return st, e.freshResults(fr)
	}
	e.visited[fr.fn] = true
	fr.vals = map[ssa.Value]*Term{}
	fn := fr.fn
	outer := st.defers
	st.defers = nil
	order := rpo(fn)
	loops := hasLoop(fn)
	edges := map[edgeKey]*State{}
	var rets map[*ssa.BasicBlock]*retRec
	for pass := 0; pass < 6; pass++ {
		rets = map[*ssa.BasicBlock]*retRec{}
		changed := false
		for _, b := range order {
			var ins []*State
			var preds []*ssa.BasicBlock
			if b == fn.Blocks[0] {
				ins = append(ins, st)
				preds = append(preds, nil)
			}
			cnt := map[*ssa.BasicBlock]int{}
			for _, p := range b.Preds {
				// which successor slot of p leads here
				slot := -1
				seen := 0
				for i, s := range p.Succs {
					if s == b {
						if seen == cnt[p] {
							slot = i
						}
						seen++
					}
				}
				cnt[p]++
				var es *State
				if slot >= 0 {
					es = edges[edgeKey{p, slot}]
				}
				if es != nil {
					ins = append(ins, es)
				}
				preds = append(preds, p)
				_ = es
			}
			if len(ins) == 0 {
				continue
			}
			key := fmt.Sprintf("j%d.%d", fr.id, b.Index)
			cur := e.joinStates(key, ins)
			// phis
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				var evs []edgeVal
				cnt := map[*ssa.BasicBlock]int{}
				for i, p := range b.Preds {
					slot, seen := -1, 0
					for j, s := range p.Succs {
						if s == b {
							if seen == cnt[p] {
								slot = j
							}
							seen++
						}
					}
					cnt[p]++
					es := edges[edgeKey{p, slot}]
					if es == nil {
						continue
					}
					evs = append(evs, edgeVal{es, e.val(fr, ph.Edges[i])})
					if e.onPhi != nil {
						e.onPhi(ph, i, es, e.val(fr, ph.Edges[i]))
					}
				}
				t, cs := e.mkPhi(fmt.Sprintf("p%d.%d", fr.id, fr.instrIndex(ph)), ph.Type(), evs)
				if len(evs) < len(b.Preds) && pass == 0 && isCounter(b, ph) {
					// what a loop counts is not its first value
					t = e.tab.mk("phi", fmt.Sprintf("p%d.%d", fr.id, fr.instrIndex(ph)), ph.Type())
					t.Alts = nil
					for _, ev := range evs {
						if !slices.Contains(t.Alts, ev.T) && ev.T != t {
							t.Alts = append(t.Alts, ev.T)
						}
					}
				}
				fr.vals[ph] = t
				for k, sn := range cs {
					nf := map[FK]bool{}
					for f := range sn.facts {
						if !cur.facts[f] {
							nf[f] = true
						}
					}
					ne := map[*Term]*Term{}
					for p, v := range sn.env {
						if cur.env[p] != v {
							ne[p] = v
						}
					}
					cur.cond[k] = &Snap{facts: nf, env: ne, top: sn.top}
				}
			}
			e.companions(fr, cur, b)
			dead := false
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				var live bool
				cur, live = e.instr(fr, cur, in)
				if !live {
					dead = true
					break
				}
				switch x := in.(type) {
				case *ssa.Return:
					var rs []*Term
					for _, r := range x.Results {
						rs = append(rs, e.val(fr, r))
					}
					rets[b] = &retRec{cur, rs}
				case *ssa.If:
					c := e.val(fr, x.Cond)
					ts := cur.clone()
					if !ts.assume(c, 'T') {
						ts = nil
					}
					fs := cur
					if !fs.assume(c, 'F') {
						fs = nil
					}
					for i, s := range []*State{ts, fs} {
						k := edgeKey{b, i}
						if loops && !sameState(edges[k], s) {
							changed = true
						}
						edges[k] = s
					}
				case *ssa.Jump:
					k := edgeKey{b, 0}
					if loops && !sameState(edges[k], cur) {
						changed = true
					}
					edges[k] = cur
				}
			}
			if dead {
				for i := range b.Succs {
					delete(edges, edgeKey{b, i})
				}
			}
		}
		if !loops || !changed {
			break
		}
	}
	// join returns
	var recs []*retRec
	for _, b := range order {
		if r := rets[b]; r != nil {
			recs = append(recs, r)
		}
	}
	if len(recs) == 0 {
		return nil, e.freshResults(fr)
	}
	var sts []*State
	for _, r := range recs {
		sts = append(sts, r.S)
	}
	out := e.joinStates(fmt.Sprintf("r%d", fr.id), sts)
	out.defers = outer
	nres := len(recs[0].Res)
	res := make([]*Term, nres)
	sig := fn.Signature
	errIdx := -1
	if nres > 0 && isErrorType(sig.Results().At(nres-1).Type()) {
		errIdx = nres - 1
	}
	for i := 0; i < nres; i++ {
		var evs []edgeVal
		for _, r := range recs {
			evs = append(evs, edgeVal{r.S, r.Res[i]})
		}
		t, cs := e.mkPhi(fmt.Sprintf("R%d.%d", fr.id, i), sig.Results().At(i).Type(), evs)
		for k, sn := range cs {
			nf := map[FK]bool{}
			for f := range sn.facts {
				if !out.facts[f] {
					nf[f] = true
				}
			}
			ne := map[*Term]*Term{}
			for p, v := range sn.env {
				if out.env[p] != v {
					ne[p] = v
				}
			}
			out.cond[k] = &Snap{facts: nf, env: ne, top: sn.top}
		}
		if errIdx >= 0 && i != errIdx && t.Op == "phi" && !usedOnError(fr.site, i, errIdx) {
			var good []*Term
			for _, r := range recs {
				if r.S.feasible(r.Res[errIdx], 'N') {
					dup := false
					for _, g := range good {
						if g == r.Res[i] {
							dup = true
						}
					}
					if !dup {
						good = append(good, r.Res[i])
					}
				}
			}
			if len(good) == 1 {
				t = good[0]
			} else if len(good) > 1 {
				t.Alts = good
			}
		}
		res[i] = t
	}
	return out, res
}

// usedOnError: result i of the call may be used although its error was
// ignored or found not to be nil.
func usedOnError(site ssa.Instruction, i, errIdx int) bool {
	call, ok := site.(*ssa.Call)
	if !ok || call.Referrers() == nil {
		return false
	}
	var val, err ssa.Value
	for _, r := range *call.Referrers() {
		ex, ok := r.(*ssa.Extract)
		if !ok {
			if _, d := r.(*ssa.DebugRef); d {
				continue
			}
			return false // the results are passed on
		}
		switch ex.Index {
		case i:
			val = ex
		case errIdx:
			err = ex
		}
	}
	if val == nil || val.Referrers() == nil || len(nonDebug(*val.Referrers())) == 0 {
		return false
	}
	if err != nil && err.Referrers() != nil && len(nonDebug(*err.Referrers())) > 0 {
		return false
	}
	// a nil result never looked at is as good as a crash
	return zeroAux(val.Type()) != "nil" || isCompared(val, map[ssa.Value]bool{})
}

func isCompared(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.BinOp:
			return true
		case *ssa.Phi:
			if isCompared(x, seen) {
				return true
			}
		}
	}
	return false
}

// deref: the pointer followed, if all the others it might be are nil.
func deref(p *Term) *Term {
	if p.Op != "phi" {
		return p
	}
	var at *Term
	for _, x := range alts(p) {
		if x.IsNil() || x == p {
			continue
		}
		if at != nil {
			return p
		}
		at = x
	}
	if at == nil {
		return p
	}
	return at
}

// isCounter: the value is an integer that the loop starting at the block
// changes.
func isCounter(b *ssa.BasicBlock, ph *ssa.Phi) bool {
	t, ok := ph.Type().Underlying().(*types.Basic)
	if !ok || t.Info()&types.IsInteger == 0 {
		return false
	}
	for i, p := range b.Preds {
		if _, isC := ph.Edges[i].(*ssa.BinOp); isC && b.Dominates(p) {
			return true
		}
	}
	return false
}

// companions: integers counted along with the index of a range loop are that
// index plus what they started from.
func (e *Engine) companions(fr *Frame, st *State, b *ssa.BasicBlock) {
	var index *ssa.Phi
	for _, in := range b.Instrs {
		if ph, ok := in.(*ssa.Phi); ok && ph.Comment == "rangeindex" {
			index = ph
		}
	}
	if index == nil || fr.vals[index] == nil {
		return
	}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		from, ok := countsFrom(b, ph)
		if !ok || ph == index || !types.Identical(ph.Type(), index.Type()) {
			continue
		}
		one := e.tab.constant(constant.MakeInt64(1), index.Type())
		t := e.binop(st, token.ADD, fr.vals[index], one, index.Type())
		if init := e.val(fr, from); !init.IsZero() {
			t = e.binop(st, token.ADD, init, t, ph.Type())
		}
		fr.vals[ph] = t
	}
}

// countsFrom: the integer is increased by one in every round of the loop that
// starts at the block, from the value given.
func countsFrom(b *ssa.BasicBlock, ph *ssa.Phi) (ssa.Value, bool) {
	var from ssa.Value
	rounds := 0
	for i, p := range b.Preds {
		if b.Dominates(p) {
			op, ok := ph.Edges[i].(*ssa.BinOp)
			if !ok || op.Op != token.ADD || op.X != ssa.Value(ph) {
				return nil, false
			}
			if k, ok := op.Y.(*ssa.Const); !ok || k.Value == nil || k.Value.Kind() != constant.Int || k.Int64() != 1 {
				return nil, false
			}
			rounds++
		} else if from != nil {
			return nil, false
		} else {
			from = ph.Edges[i]
		}
	}
	return from, from != nil && rounds > 0
}

func sameState(a, b *State) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.equal(b)
}

func (e *Engine) freshResults(fr *Frame) []*Term {
	var out []*Term
	r := fr.fn.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		out = append(out, e.tab.mk("call", fmt.Sprintf("%s@%d#%d", fnName(fr.fn), fr.id, i), r.At(i).Type()))
	}
	return out
}

// val gives the term of an SSA value in a frame.
func (e *Engine) val(fr *Frame, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return e.tab.constant(x.Value, x.Type())
	case *ssa.Global:
		return e.tab.mk("global", globalName(x), x.Type())
	case *ssa.Function:
		t := e.tab.mk("fn", x.String(), x.Type())
		t.Fn = x
		return t
	case *ssa.Builtin:
		return e.tab.mk("builtin", x.Name(), x.Type())
	case *ssa.Parameter:
		for i, p := range fr.fn.Params {
			if p == x && i < len(fr.args) {
				return fr.args[i]
			}
		}
	case *ssa.FreeVar:
		for i, p := range fr.fn.FreeVars {
			if p == x && i < len(fr.free) {
				return fr.free[i]
			}
		}
	}
	if t, ok := fr.vals[v]; ok {
		return t
	}
	return e.tab.mk("unk", fmt.Sprintf("%d.%s", fr.id, v.Name()), v.Type())
}

func globalName(g *ssa.Global) string {
	if g.Pkg != nil {
		return shortPkg(g.Pkg.Pkg.Path()) + "." + g.Name()
	}
	return g.Name()
}

// nonNil: the term certainly denotes a non-nil value.
func (e *Engine) nonNil(s *State, t *Term) bool {
	if t == nil {
		return false
	}
	switch t.Op {
	case "alloc", "make", "closure", "fn", "struct", "const", "faddr", "idx", "global":
		return true
	case "zero":
		return t.Aux != "nil"
	case "slice":
		return t.Args[0].Op == "alloc"
	case "gload":
		return isErrorType(t.Typ)
	case "call":
		switch t.CallName() {
		case "errors.New", "fmt.Errorf", "errors.Errorf":
			return true
		case "status.Error", "status.Errorf":
			return len(t.Args) > 0 && !t.Args[0].IsZero() && t.Args[0].Op == "const"
		}
	case "phi":
		return s.facts[FK{'X', t.ID}]
	}
	if t.Typ != nil {
		switch t.Typ.Underlying().(type) {
		case *types.Struct, *types.Basic:
			return true
		}
	}
	return s.facts[FK{'X', t.ID}]
}

func structOf(t types.Type) (*types.Struct, string) {
	if t == nil {
		return nil, ""
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, _ := t.Underlying().(*types.Struct)
	return st, typeName(t)
}

func (e *Engine) fieldName(t types.Type, i int) (string, *types.Var) {
	st, n := structOf(t)
	if st == nil {
		return n + ".?" + itoa(i), nil
	}
	return n + "." + st.Field(i).Name(), st.Field(i)
}

// valueBase canonicalises a pointer used as the base of a field read.
func (e *Engine) valueBase(p *Term) *Term {
	switch p.Op {
	case "faddr":
		return e.tab.mk("field", p.Aux, elemType(p.Typ), e.valueBase(p.Args[0]))
	case "idx":
		return e.tab.mk("index", "", elemType(p.Typ), p.Args...)
	case "global":
		return e.tab.mk("gload", p.Aux, elemType(p.Typ))
	}
	return p
}

func (e *Engine) structField(st *State, sv *Term, i int, styp types.Type) *Term {
	name, fv := e.fieldName(styp, i)
	var ft types.Type
	if fv != nil {
		ft = fv.Type()
	}
	switch sv.Op {
	case "struct":
		if i < len(sv.Args) && sv.Args[i] != nil {
			return sv.Args[i]
		}
	case "zero":
		if ft != nil {
			return e.tab.mk("zero", zeroAux(ft), ft)
		}
	case "load":
		t := e.tab.mk("field", name, ft, sv.Args[0])
		t.Objf = fv
		return t
	case "phi":
		// field of every alternative
		same := true
		var first *Term
		for _, a := range sv.Alts {
			if a.Op == "phi" {
				same = false
				break
			}
			f := e.structField(st, a, i, styp)
			if first == nil {
				first = f
			} else if f != first {
				same = false
			}
		}
		if same && first != nil {
			return first
		}
	}
	t := e.tab.mk("field", name, ft, sv)
	t.Objf = fv
	return t
}

// load reads through a pointer term.
func (e *Engine) load(st *State, p *Term, typ types.Type) *Term {
	if v, ok := st.env[p]; ok {
		if p.Op == "alloc" {
			if typ != nil {
				if s, _ := typ.Underlying().(*types.Struct); s != nil {
					return e.rebuild(st, p, typ)
				}
			} else if s, _ := v.Typ.Underlying().(*types.Struct); s != nil {
				return e.rebuild(st, p, v.Typ)
			}
		}
		return v
	}
	switch p.Op {
	case "faddr":
		base := p.Args[0]
		// a local struct whose whole value is known
		if v, ok := st.env[base]; ok && v != nil {
			s, _ := structOf(base.Typ)
			if s != nil {
				for i := 0; i < s.NumFields(); i++ {
					if n, _ := e.fieldName(base.Typ, i); n == p.Aux {
						return e.structField(st, v, i, elemType(base.Typ))
					}
				}
			}
		}
		if base.Op == "faddr" {
			// nested struct field
			if v, ok := st.env[base]; ok {
				_ = v
			} else {
				bt := elemType(base.Typ)
				bv := e.load(st, base, bt)
				if bv.Op != "load" {
					s, _ := structOf(bt)
					if s != nil {
						for i := 0; i < s.NumFields(); i++ {
							if n, _ := e.fieldName(bt, i); n == p.Aux {
								return e.structField(st, bv, i, bt)
							}
						}
					}
				}
			}
		}
		t := e.valueBase(p)
		t.Typ = typ
		return t
	case "idx":
		return e.valueBase(p)
	case "global":
		return e.tab.mk("gload", p.Aux, typ)
	case "alloc":
		if s, _ := typ.Underlying().(*types.Struct); s != nil {
			return e.rebuild(st, p, typ)
		}
	default:
		// a struct behind a pointer some of whose fields were just written
		if typ != nil {
			if s, _ := typ.Underlying().(*types.Struct); s != nil && e.hasSub(st, p) {
				return e.rebuild(st, p, typ)
			}
		}
	}
	return e.tab.mk("load", "", typ, p)
}

// rebuild a struct value term from the cells of a local allocation.
func (e *Engine) rebuild(st *State, p *Term, typ types.Type) *Term {
	s, _ := typ.Underlying().(*types.Struct)
	whole, hasWhole := st.env[p]
	any := hasWhole
	args := make([]*Term, s.NumFields())
	mod := false
	for i := range args {
		n, fv := e.fieldName(typ, i)
		fa := e.tab.mk("faddr", n, types.NewPointer(fv.Type()), p)
		if v, ok := st.env[fa]; ok {
			args[i] = v
			any = true
			mod = true
		} else if _, isS := fv.Type().Underlying().(*types.Struct); isS && e.hasSub(st, fa) {
			args[i] = e.rebuild(st, fa, fv.Type())
			mod = true
			any = true
		} else if hasWhole {
			args[i] = e.structField(st, whole, i, typ)
		} else {
			args[i] = e.tab.mk("field", n, fv.Type(), p)
		}
	}
	if !any {
		return e.tab.mk("load", "", typ, p)
	}
	if hasWhole && !mod {
		return whole
	}
	return e.tab.mk("struct", typeName(typ), typ, args...)
}

func (e *Engine) hasSub(st *State, fa *Term) bool {
	for p := range st.env {
		for q := p; q != nil && q.Op == "faddr"; q = q.Args[0] {
			if q.Args[0] == fa {
				return true
			}
		}
	}
	return false
}

func rootOf(p *Term) *Term {
	for p != nil && (p.Op == "faddr" || p.Op == "idx") {
		p = p.Args[0]
		if p.Op == "slice" {
			p = p.Args[0]
		}
	}
	return p
}

func (e *Engine) mentionsField(t *Term, aux string) bool {
	k := itoa(t.ID) + "|" + aux
	if v, ok := e.fieldMemo[k]; ok {
		return v
	}
	r := false
	if t.Op == "field" && t.Aux == aux {
		r = true
	} else if t.Op == "call" && strings.Contains(t.Aux, "@") {
		// what a call returned then is not affected
	} else if t.Op != "label" {
		for _, a := range t.Args {
			if a != nil && e.mentionsField(a, aux) {
				r = true
				break
			}
		}
	}
	e.fieldMemo[k] = r
	return r
}

func (e *Engine) store(st *State, fr *Frame, in ssa.Instruction, p, v *Term) {
	if p.Op == "faddr" {
		ev := &Event{Kind: "store", Frame: fr, Instr: in, Name: p.Aux, Base: p.Args[0], Val: v, Pos: in.Pos(), Async: fr.async}
		e.fire(st, ev)
		aux := p.Aux
		root := rootOf(p)
		fresh := root.Op == "alloc"
		if !fresh {
			st.killIf(func(k FK, t *Term) bool { return k.K != 'L' && e.mentionsField(t, aux) })
		}
		for q := range st.env {
			if q != p && q.Op == "faddr" && q.Aux == aux {
				qr := rootOf(q)
				if qr != root && (qr.Op == "alloc" || root.Op == "alloc") {
					continue
				}
				delete(st.env, q)
			}
		}
		// nested cells below p are overwritten
		for q := range st.env {
			for r := q; r != nil && r.Op == "faddr"; r = r.Args[0] {
				if r.Args[0] == p {
					delete(st.env, q)
					break
				}
			}
		}
	} else if p.Op == "alloc" {
		for q := range st.env {
			if q != p && q.Op == "faddr" && rootOf(q) == p {
				delete(st.env, q)
			}
		}
	} else if p.Op == "global" {
		e.fire(st, &Event{Kind: "gstore", Frame: fr, Instr: in, Name: p.Aux, Base: p, Val: v, Pos: in.Pos(), Async: fr.async})
	} else if p.Op == "idx" {
		e.put(p.Args[0], v)
		e.fire(st, &Event{Kind: "idxstore", Frame: fr, Instr: in, Name: "", Base: p.Args[0], Args: p.Args, Val: v, Pos: in.Pos(), Async: fr.async})
	} else {
		e.fire(st, &Event{Kind: "pstore", Frame: fr, Instr: in, Name: "", Base: p, Val: v, Pos: in.Pos(), Async: fr.async})
		// *p = struct: forget what was known about its fields
		if s, n := structOf(p.Typ); s != nil {
			st.killIf(func(k FK, t *Term) bool {
				return k.K != 'L' && t.Contains(func(x *Term) bool { return x.Op == "field" && len(x.Args) > 0 && x.Args[0] == p })
			})
			_ = n
		}
		for q := range st.env {
			if q.Op == "faddr" && rootOf(q) == p {
				delete(st.env, q)
			}
		}
	}
	st.env[p] = v
}

func (e *Engine) put(container, v *Term) {
	if container.Op == "slice" {
		container = container.Args[0]
	}
	m := e.contents[container]
	if m == nil {
		m = map[*Term]bool{}
		e.contents[container] = m
	}
	m[v] = true
}

// From: some value t may be computed from satisfies f (arguments, phi
// alternatives, elements put into containers).
func (e *Engine) From(t *Term, f func(*Term) bool) bool { return e.from(t, f, map[*Term]bool{}) }

func (e *Engine) from(t *Term, f func(*Term) bool, seen map[*Term]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	if f(t) {
		return true
	}
	for _, a := range t.Args {
		if e.from(a, f, seen) {
			return true
		}
	}
	if t.Op == "phi" {
		for _, a := range t.Alts {
			if e.from(a, f, seen) {
				return true
			}
		}
	}
	for v := range e.contents[t] {
		if e.from(v, f, seen) {
			return true
		}
	}
	return false
}

func (e *Engine) fire(st *State, ev *Event) {
	if e.hook != nil {
		e.hook(st, ev)
	}
}

func (e *Engine) escape(st *State, t *Term) {
	// a local whose address is handed to code we do not see
	if t == nil || (t.Op != "alloc" && t.Op != "faddr") {
		return
	}
	if t.Op == "faddr" {
		if rootOf(t).Op != "alloc" || e.once[rootOf(t)] {
			return
		}
		delete(st.env, t)
		for q := range st.env {
			if q.Op == "faddr" && q.Args[0] == t {
				delete(st.env, q)
			}
		}
		return
	}
	et := elemType(t.Typ)
	if et == nil || e.once[t] {
		return
	}
	delete(st.env, t)
	for q := range st.env {
		if rootOf(q) == t && q != t {
			delete(st.env, q)
		}
	}
}

// setOnce: a local of block 0 (a parameter that is captured, say) which is
// assigned once there and only read afterwards, by closures too.
func setOnce(x *ssa.Alloc) bool {
	if x.Block() == nil || x.Block().Index != 0 {
		return false
	}
	stores := 0
	var reads func(v ssa.Value) bool
	reads = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
				if r.Op != token.MUL {
					return false
				}
			case *ssa.Store:
				if v != ssa.Value(x) || r.Addr != v || r.Block() != x.Block() {
					return false
				}
				stores++
			case *ssa.FieldAddr:
				if !reads(r) {
					return false
				}
			case *ssa.MakeClosure:
				fn, _ := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v && (fn == nil || !reads(fn.FreeVars[i])) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	return reads(x) && stores == 1
}

var pureGetter = map[string]bool{}

func isPureName(n string) bool {
	if n == "context.Context.Value" {
		return true
	}
	l := n[strings.LastIndex(n, ".")+1:]
	for _, p := range []string{"Get", "Is", "Has", "String", "Bytes", "Len"} {
		if strings.HasPrefix(l, p) {
			return true
		}
	}
	return false
}

func (e *Engine) tuple(args []*Term) *Term {
	return e.tab.mk("tuple", "", nil, args...)
}

func (e *Engine) instr(fr *Frame, st *State, in ssa.Instruction) (*State, bool) {
	if e.onInstr != nil {
		e.onInstr(in)
	}
	set := func(t *Term) {
		if v, ok := in.(ssa.Value); ok {
			fr.vals[v] = t
		}
	}
	switch x := in.(type) {
	case *ssa.DebugRef, *ssa.If, *ssa.Jump:
	case *ssa.Alloc:
		t := e.tab.mk("alloc", e.site(fr, x), x.Type())
		if _, known := e.once[t]; !known {
			e.once[t] = setOnce(x)
		}
		st.seen[t] = true
		for q := range st.env {
			if rootOf(q) == t {
				delete(st.env, q)
			}
		}
		et := elemType(x.Type())
		if _, isArr := et.Underlying().(*types.Array); !isArr {
			st.env[t] = e.tab.mk("zero", zeroAux(et), et)
		}
		set(t)
	case *ssa.FieldAddr:
		n, fv := e.fieldName(x.X.Type(), x.Field)
		b := deref(e.val(fr, x.X))
		t := e.tab.mk("faddr", n, x.Type(), b)
		t.Objf = fv
		set(t)
	case *ssa.Field:
		set(e.structField(st, e.val(fr, x.X), x.Field, x.X.Type()))
	case *ssa.IndexAddr:
		e.fire(st, &Event{Kind: "index", Frame: fr, Instr: in, Args: []*Term{e.val(fr, x.X), e.val(fr, x.Index)}, Pos: x.Pos(), Async: fr.async})
		set(e.tab.mk("idx", "", x.Type(), e.val(fr, x.X), e.val(fr, x.Index)))
	case *ssa.Index:
		set(e.tab.mk("index", "", x.Type(), e.val(fr, x.X), e.val(fr, x.Index)))
	case *ssa.UnOp:
		a := e.val(fr, x.X)
		switch x.Op {
		case token.MUL:
			a = deref(a)
			if e.hook != nil {
				e.fire(st, &Event{Kind: "load", Frame: fr, Instr: in, Base: a, Name: a.Aux, Pos: x.Pos(), Async: fr.async})
			}
			if fv, ok := x.X.(*ssa.FreeVar); ok && e.P.rewritten(fv) {
				set(e.tab.mk("shared", e.site(fr, x), x.Type()))
				return st, true
			}
			set(e.load(st, a, x.Type()))
		case token.NOT:
			set(e.not(a))
		case token.ARROW:
			r := e.tab.mk("recv", e.site(fr, x), x.Type(), a)
			e.fire(st, &Event{Kind: "recv", Frame: fr, Instr: in, Base: a, Pos: x.Pos(), Async: fr.async})
			set(r)
		default:
			set(e.tab.mk("un", x.Op.String(), x.Type(), a))
		}
	case *ssa.BinOp:
		if x.Op == token.ADD || x.Op == token.SUB || x.Op == token.MUL || x.Op == token.QUO || x.Op == token.REM {
			e.fire(st, &Event{Kind: "arith", Frame: fr, Instr: in, Name: x.Op.String(), Args: []*Term{e.val(fr, x.X), e.val(fr, x.Y)}, Pos: x.Pos(), Async: fr.async})
		}
		set(e.binop(st, x.Op, e.val(fr, x.X), e.val(fr, x.Y), x.Type()))
	case *ssa.ChangeType:
		set(e.retype(e.val(fr, x.X), x.Type()))
	case *ssa.ChangeInterface:
		set(e.val(fr, x.X))
	case *ssa.MakeInterface:
		set(e.val(fr, x.X))
	case *ssa.Convert:
		a := e.val(fr, x.X)
		if isStr(x.Type()) != isStr(x.X.Type()) {
			if s, ok := a.StrConst(); ok && !isStr(x.Type()) {
				_ = s
			}
			set(e.tab.mk("conv", x.Type().String(), x.Type(), a))
		} else if c, ok := a.IntConst(); ok && a.Op == "const" {
			_ = c
			t := e.tab.constant(a.Con, x.Type())
			set(t)
		} else if lossy(x.X.Type(), x.Type()) {
			set(e.tab.mk("conv", x.Type().String(), x.Type(), a))
		} else {
			set(a)
		}
	case *ssa.MultiConvert:
		set(e.val(fr, x.X))
	case *ssa.SliceToArrayPointer:
		set(e.val(fr, x.X))
	case *ssa.TypeAssert:
		a := e.val(fr, x.X)
		if x.CommaOk {
			ok := e.tab.mk("assertok", types.TypeString(x.AssertedType, nil), types.Typ[types.Bool], a)
			set(e.tuple([]*Term{a, ok}))
		} else {
			set(a)
		}
	case *ssa.Extract:
		tp := e.val(fr, x.Tuple)
		if tp.Op == "tuple" && x.Index < len(tp.Args) {
			set(tp.Args[x.Index])
		} else {
			set(e.tab.mk("extract", itoa(x.Index), x.Type(), tp))
		}
	case *ssa.Lookup:
		m, k := e.val(fr, x.X), e.val(fr, x.Index)
		vt := x.Type()
		if x.CommaOk {
			vt = x.Type().(*types.Tuple).At(0).Type()
		}
		e.fire(st, &Event{Kind: "mapread", Frame: fr, Instr: in, Base: m, Args: []*Term{m, k}, Pos: x.Pos(), Async: fr.async})
		l := e.tab.mk("lookup", "", vt, m, k)
		var v *Term = l
		if c, ok := st.env[l]; ok {
			v = c
		}
		if x.CommaOk {
			set(e.tuple([]*Term{v, e.tab.mk("has", "", types.Typ[types.Bool], m, k)}))
		} else {
			set(v)
		}
	case *ssa.Range:
		e.fire(st, &Event{Kind: "mapread", Frame: fr, Instr: in, Base: e.val(fr, x.X), Pos: x.Pos(), Async: fr.async})
		set(e.tab.mk("range", e.site(fr, x), x.Type(), e.val(fr, x.X)))
	case *ssa.Next:
		set(e.tab.mk("next", "", x.Type(), e.val(fr, x.Iter)))
	case *ssa.Slice:
		a := e.val(fr, x.X)
		if x.Low == nil && x.High == nil && x.Max == nil {
			if a.Op == "alloc" {
				set(e.tab.mk("slice", "", x.Type(), a))
			} else {
				set(a)
			}
		} else {
			args := []*Term{a, nil, nil}
			if x.Low != nil {
				args[1] = e.val(fr, x.Low)
			}
			if x.High != nil {
				args[2] = e.val(fr, x.High)
			}
			set(e.tab.mk("slice", "", x.Type(), args...))
			if a.Op == "alloc" && x.Low == nil {
				// make([]T, n) with constant capacity, or [:] of a literal
				set(e.tab.mk("slice", "", x.Type(), args...))
			}
		}
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, e.val(fr, b))
		}
		t := e.tab.mk("closure", fn.String()+"@"+itoa(fr.id), x.Type(), bs...)
		t.Fn = fn
		set(t)
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		v := in.(ssa.Value)
		var args []*Term
		if ms, ok := in.(*ssa.MakeSlice); ok {
			args = append(args, e.val(fr, ms.Len))
		}
		if mc, ok := in.(*ssa.MakeChan); ok {
			args = append(args, e.val(fr, mc.Size))
		}
		set(e.tab.mk("make", e.site(fr, in), v.Type(), args...))
	case *ssa.MapUpdate:
		m, k, v := e.val(fr, x.Map), e.val(fr, x.Key), e.val(fr, x.Value)
		e.put(m, k)
		e.put(m, v)
		e.fire(st, &Event{Kind: "mapupdate", Frame: fr, Instr: in, Base: m, Args: []*Term{m, k, v}, Val: v, Pos: x.Pos(), Async: fr.async})
		st.env[e.tab.mk("lookup", "", v.Typ, m, k)] = v
	case *ssa.Store:
		e.store(st, fr, in, e.val(fr, x.Addr), e.val(fr, x.Val))
	case *ssa.Send:
		e.fire(st, &Event{Kind: "send", Frame: fr, Instr: in, Base: e.val(fr, x.Chan), Val: e.val(fr, x.X), Pos: x.Pos(), Async: fr.async})
	case *ssa.Select:
		for i, ss := range x.States {
			if ss.Dir == types.SendOnly {
				e.fire(st, &Event{Kind: "send", Frame: fr, Instr: in, Base: e.val(fr, ss.Chan), Val: e.val(fr, ss.Send), Pos: ss.Pos, Async: fr.async, Name: "select" + itoa(i)})
			} else {
				e.fire(st, &Event{Kind: "recv", Frame: fr, Instr: in, Base: e.val(fr, ss.Chan), Pos: ss.Pos, Async: fr.async, Name: "select" + itoa(i)})
			}
		}
		set(e.tab.mk("select", e.site(fr, x), x.Type()))
	case *ssa.Panic:
		e.fire(st, &Event{Kind: "panic", Frame: fr, Instr: in, Val: e.val(fr, x.X), Pos: x.Pos(), Async: fr.async})
		return st, false
	case *ssa.Return:
		var rs []*Term
		for _, r := range x.Results {
			rs = append(rs, e.val(fr, r))
		}
		e.fire(st, &Event{Kind: "return", Frame: fr, Instr: in, Name: fnName(fr.fn), Res: rs, Pos: x.Pos(), Async: fr.async, Sig: fr.fn.Signature})
	case *ssa.RunDefers:
		recs := st.defers
		st.defers = nil
		for i := len(recs) - 1; i >= 0; i-- {
			d := recs[i]
			if d.must {
				n, _, live := e.call(fr, st, d.instr, d.instr.Common(), false, true)
				if !live || n == nil {
					return st, false
				}
				st = n
			} else {
				c := st.clone()
				n, _, live := e.call(fr, c, d.instr, d.instr.Common(), false, true)
				if live && n != nil {
					st = e.joinStates(fmt.Sprintf("d%d.%d", fr.id, fr.instrIndex(in)), []*State{st, n})
				}
			}
		}
	case *ssa.Defer:
		e.fire(st, &Event{Kind: "defer", Frame: fr, Instr: in, Name: e.calleeName(fr, x.Common()), Pos: x.Pos(), Async: fr.async})
		st.defers = append(st.defers, deferRec{fr, x, true})
	case *ssa.Go:
		e.fire(st, &Event{Kind: "go", Frame: fr, Instr: in, Name: e.calleeName(fr, x.Common()), Pos: x.Pos(), Async: fr.async})
		c := st.clone()
		if out, _, live := e.call(fr, c, x, x.Common(), true, false); live && out != nil {
			// what every path of the goroutine attempts ("!..." labels)
			out.Each(func(k byte, t *Term) bool {
				if k == 'L' && strings.HasPrefix(t.Aux, "!") && !st.Is(t.Aux, t.Args...) {
					st.Gen("go"+t.Aux, t.Args...)
				}
				return false
			})
			for ck, sn := range out.cond {
				for f := range sn.facts {
					if t := e.term(f.T); f.K == 'L' && strings.HasPrefix(t.Aux, "!") && !st.Is(t.Aux, t.Args...) {
						st.CondGen(ck.K, e.term(ck.T), "go"+t.Aux, t.Args...)
					}
				}
			}
		}
	case *ssa.Call:
		n, res, live := e.call(fr, st, x, x.Common(), false, false)
		if !live || n == nil {
			return st, false
		}
		st = n
		switch len(res) {
		case 0:
			set(e.tuple(nil))
		case 1:
			set(res[0])
		default:
			set(e.tuple(res))
		}
	default:
		if v, ok := in.(ssa.Value); ok {
			set(e.tab.mk("unk", e.site(fr, in), v.Type()))
		}
	}
	return st, true
}

func (e *Engine) retype(t *Term, typ types.Type) *Term {
	return t
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *Engine) not(a *Term) *Term {
	if a.Op == "not" {
		return a.Args[0]
	}
	if b, ok := a.BoolConst(); ok {
		return e.tab.constant(constant.MakeBool(!b), types.Typ[types.Bool])
	}
	return e.tab.mk("not", "", types.Typ[types.Bool], a)
}

// binop builds canonical comparisons: isnil(x), empty(x), eq(a,b), lt(a,b).
func (e *Engine) binop(st *State, op token.Token, a, b *Term, typ types.Type) *Term {
	switch op {
	case token.NEQ:
		return e.not(e.binop(st, token.EQL, a, b, typ))
	case token.GTR:
		return e.less(b, a)
	case token.LSS:
		return e.less(a, b)
	case token.GEQ, token.LEQ:
		if op == token.GEQ {
			a, b = b, a
		}
		if isFloat(a.Typ) || isFloat(b.Typ) {
			return e.tab.mk("le", "", types.Typ[types.Bool], a, b) // not the opposite of greater
		}
		return e.not(e.less(b, a))
	case token.EQL:
		if a.IsNil() {
			a, b = b, a
		}
		if b.IsNil() {
			if a.IsNil() {
				return e.tab.constant(constant.MakeBool(true), types.Typ[types.Bool])
			}
			return e.tab.mk("isnil", "", types.Typ[types.Bool], a)
		}
		if v, ok := b.BoolConst(); ok {
			if v {
				return a
			}
			return e.not(a)
		}
		if v, ok := a.BoolConst(); ok {
			if v {
				return b
			}
			return e.not(b)
		}
		if s, ok := b.StrConst(); ok && s == "" {
			return e.empty(a)
		}
		if s, ok := a.StrConst(); ok && s == "" {
			return e.empty(b)
		}
		if c, ok := b.IntConst(); ok && c == 0 && a.Op == "len" {
			return e.empty(a.Args[0])
		}
		if c, ok := a.IntConst(); ok && c == 0 && b.Op == "len" {
			return e.empty(b.Args[0])
		}
		if a.Con != nil && b.Con != nil && a.Op == "const" && b.Op == "const" && a.Con.Kind() == b.Con.Kind() {
			return e.tab.constant(constant.MakeBool(constant.Compare(a.Con, token.EQL, b.Con)), types.Typ[types.Bool])
		}
		if a.Op == "const" || (a.ID > b.ID && b.Op != "const") {
			a, b = b, a
		}
		return e.tab.mk("eq", "", types.Typ[types.Bool], a, b)
	}
	if a.Con != nil && b.Con != nil && a.Op == "const" && b.Op == "const" && a.Con.Kind() == constant.String && b.Con.Kind() == constant.String && op == token.ADD {
		return e.tab.constant(constant.BinaryOp(a.Con, token.ADD, b.Con), typ)
	}
	return e.tab.mk("bin", op.String(), typ, a, b)
}

func (e *Engine) empty(x *Term) *Term {
	return e.tab.mk("empty", "", types.Typ[types.Bool], x)
}

func isIntLike(t *Term) bool {
	if t.Typ == nil {
		return false
	}
	b, ok := t.Typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (e *Engine) less(a, b *Term) *Term {
	bt := types.Typ[types.Bool]
	ac, aok := a.IntConst()
	bc, bok := b.IntConst()
	if aok && bok {
		return e.tab.constant(constant.MakeBool(ac < bc), bt)
	}
	uns := func(t *Term) bool {
		if t.Op == "len" {
			return true
		}
		if t.Typ == nil {
			return false
		}
		bb, ok := t.Typ.Underlying().(*types.Basic)
		return ok && bb.Info()&types.IsUnsigned != 0
	}
	if aok && (isIntLike(b) || b.Op == "len") {
		// c < b  <=>  !(b < c+1)
		return e.not(e.less(b, e.tab.constant(constant.MakeInt64(ac+1), b.Typ)))
	}
	if bok && bc == 1 && uns(a) {
		if a.Op == "len" {
			return e.empty(a.Args[0])
		}
		// x < 1 <=> x == 0
		z := e.tab.constant(constant.MakeInt64(0), a.Typ)
		return e.tab.mk("eq", "", bt, a, z)
	}
	if bok && bc == 0 && uns(a) {
		return e.tab.constant(constant.MakeBool(false), bt)
	}
	return e.tab.mk("lt", "", bt, a, b)
}

func (e *Engine) calleeName(fr *Frame, c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return typeName(c.Value.Type()) + "." + c.Method.Name()
	}
	if s := c.StaticCallee(); s != nil {
		return fnName(s)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	t := e.val(fr, c.Value)
	if t.Fn != nil {
		return fnName(t.Fn)
	}
	if t.Op == "field" || t.Op == "gload" {
		return t.Aux
	}
	return "dynamic"
}

var noReturn = map[string]bool{
	"os.Exit": true, "log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true, "log.Panic": true, "log.Panicf": true,
	"logrus.Fatal": true, "logrus.Fatalf": true, "logrus.Fatalln": true, "logrus.Exit": true, "logrus.Panic": true,
	"logrus.Entry.Fatal": true, "logrus.Entry.Fatalf": true, "logrus.Panicf": true, "runtime.Goexit": true,
}

func (e *Engine) resolve(fr *Frame, c *ssa.CallCommon) (*ssa.Function, []*Term, []*Term) {
	var args []*Term
	if c.IsInvoke() {
		recv := e.val(fr, c.Value)
		args = append(args, recv)
		for _, a := range c.Args {
			args = append(args, e.val(fr, a))
		}
		if recv.Typ != nil && !types.IsInterface(recv.Typ) {
			ms := e.P.SSA.MethodSets.MethodSet(recv.Typ)
			if sel := ms.Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
				if m := e.P.SSA.MethodValue(sel); m != nil {
					if o, ok := sel.Obj().(*types.Func); ok && m.Synthetic != "" {
						if g := e.P.SSA.FuncValue(o); g != nil {
							m = g
						}
					}
					return m, args, nil
				}
			}
		}
		return nil, args, nil
	}
	for _, a := range c.Args {
		args = append(args, e.val(fr, a))
	}
	if s := c.StaticCallee(); s != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			var free []*Term
			for _, b := range mc.Bindings {
				free = append(free, e.val(fr, b))
			}
			return s, args, free
		}
		return s, args, nil
	}
	t := e.val(fr, c.Value)
	if (t.Op == "closure" || t.Op == "fn") && t.Fn != nil {
		return t.Fn, args, t.Args
	}
	return nil, args, nil
}

func (e *Engine) canInline(fr *Frame, fn *ssa.Function) bool {
	if fn == nil || fn.Blocks == nil {
		return false
	}
	if !e.P.FnInRepo(fn) {
		// bound-method wrappers and thunks of repository methods
		return false
	}
	if fr.depth >= e.maxDepth {
		return false
	}
	// a recursive call is opaque, but a function run by a helper may use the
	// same helper once more
	seen := 0
	for x := fr; x != nil; x = x.parent {
		if x.fn == fn {
			seen++
		}
	}
	if seen > 1 || seen == 1 && !higherOrder(fn) {
		return false
	}
	if e.inline != nil && !e.inline(fn) {
		return false
	}
	return true
}

func higherOrder(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

// keepEq: the term compares a value to keep with a constant.
func keepEq(t *Term, keep map[int]bool) bool {
	return t.Op == "eq" && len(t.Args) == 2 && (keep[t.Args[0].ID] || keep[t.Args[1].ID])
}

// call evaluates a call; it returns the state after it, the results, and
// whether control continues.
func (e *Engine) call(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, async, deferred bool) (*State, []*Term, bool) {
	e.calls++
	name := e.calleeName(fr, c)
	fn, args, free := e.resolve(fr, c)
	if fn != nil && !c.IsInvoke() {
		name = fnName(fn)
	}
	if fn != nil && c.IsInvoke() {
		// keep the interface name for rules, unless it is anonymous
		name = fnName(fn)
	}
	sig := c.Signature()
	rs := sig.Results()

	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(fr, st, in, b, args, sig, async)
	}
	inl := fn != nil && e.canInline(fr, fn)
	ev := &Event{Kind: "call", Frame: fr, Instr: in, Name: name, Fn: fn, Args: args, Opaque: !inl, Async: fr.async || async, Pos: in.Pos(), Sig: sig}
	if c.IsInvoke() {
		ev.Pos = c.Pos()
	}
	e.fire(st, ev)
	if noReturn[name] {
		return st, nil, false
	}
	if inl {
		sub := e.frame(fr, in, fn)
		sub.args, sub.free = args, free
		sub.async = fr.async || async
		sub.inDef = fr.inDef || deferred
		condBefore := make(map[FK]bool, len(st.cond))
		for k := range st.cond {
			condBefore[k] = true
		}
		out, res := e.evalFunc(sub, st)
		if out == nil {
			return nil, nil, false
		}
		// drop conditional facts about values that did not escape the callee
		keep := map[int]bool{}
		for _, r := range res {
			keep[r.ID] = true
			if r.Op == "isnil" || r.Op == "not" {
				keep[r.Args[0].ID] = true
			}
		}
		for _, v := range out.env {
			if v != nil {
				keep[v.ID] = true
			}
		}
		for k := range out.cond {
			if !condBefore[k] && !keep[k.T] && !keepEq(e.term(k.T), keep) {
				delete(out.cond, k)
			}
		}
		aft := &Event{Kind: "after", Frame: fr, Instr: in, Name: name, Fn: fn, Args: args, Res: res, Async: fr.async || async, Pos: ev.Pos, Sig: sig}
		e.fire(out, aft)
		return out, res, true
	}
	// opaque callee
	if name == "context.Context.Value" && len(args) == 2 {
		// a value is looked up where it may have been set
		for a := args[0]; a != nil && lastIs(a.CallName(), "context.WithValue"); a = a.CallArgs()[0] {
			wa := a.CallArgs()
			if len(wa) != 3 {
				break
			}
			k, ok1 := wa[1].StrConst()
			k2, ok2 := args[1].StrConst()
			if !ok1 || !ok2 || k == k2 {
				break
			}
			args = []*Term{wa[0], args[1]}
		}
	}
	var res []*Term
	pure := isPureName(name) && len(args) <= 2 || e.pure != nil && e.pure(name)
	aux := name
	if !pure {
		aux = name + "@" + e.site(fr, in)
		if deferred {
			aux += "d"
		}
	}
	mut := false
	switch {
	case rs.Len() == 1:
		t := e.tab.mk("call", aux, rs.At(0).Type(), args...)
		t.Site = in
		res = append(res, t)
	case rs.Len() > 1:
		base := e.tab.mk("call", aux, rs, args...)
		base.Site = in
		for i := 0; i < rs.Len(); i++ {
			res = append(res, e.tab.mk("extract", itoa(i), rs.At(i).Type(), base))
		}
	}
	_ = mut
	// stale conditional knowledge about a previous execution of this call
	for _, r := range res {
		for _, k := range []byte{'T', 'F', 'N', 'X'} {
			delete(st.cond, FK{k, r.ID})
			if !pure {
				delete(st.facts, FK{k, r.ID})
			}
		}
	}
	// function arguments
	out := st
	for ai, a := range args {
		if a == nil || a.Fn == nil || (a.Op != "closure" && a.Op != "fn") {
			continue
		}
		if !e.canInline(fr, a.Fn) {
			continue
		}
		csig := a.Fn.Signature
		sub := e.frame(fr, in, a.Fn)
		sub.async = fr.async || async || isLater(name)
		sub.inDef = fr.inDef || deferred
		sub.free = a.Args
		sub.args = nil
		for i, p := range a.Fn.Params {
			sub.args = append(sub.args, e.tab.mk("cbparam", fmt.Sprintf("%s#%d.%d@%s", name, ai, i, e.site(fr, in)), p.Type()))
		}
		c2 := out.clone()
		c2.Gen("in-callback:" + name)
		o2, r2 := e.evalFunc(sub, c2)
		if o2 == nil {
			continue
		}
		if !out.Is("in-callback:" + name) {
			o2.Kill("in-callback:" + name)
		}
		j := e.joinStates(fmt.Sprintf("c%d.%d.%d", fr.id, fr.instrIndex(in), ai), []*State{out, o2})
		if isLater(name) {
			// runs later, like a goroutine
			for f := range o2.facts {
				if t := e.term(f.T); f.K == 'L' && strings.HasPrefix(t.Aux, "!") && !out.facts[f] {
					j.Gen("go"+t.Aux, t.Args...)
				}
			}
		}
		// callee error nil => callback ran and its error was nil
		n := rs.Len()
		if n > 0 && isErrorType(rs.At(n-1).Type()) && csig.Results().Len() > 0 && isErrorType(csig.Results().At(csig.Results().Len()-1).Type()) {
			cerr := r2[len(r2)-1]
			ok := o2.lightClone()
			if ok.assume(cerr, 'N') {
				nf := map[FK]bool{}
				for f := range ok.facts {
					if !j.facts[f] {
						nf[f] = true
					}
				}
				ne := map[*Term]*Term{}
				for p, v := range ok.env {
					if j.env[p] != v {
						ne[p] = v
					}
				}
				j.cond[FK{'N', res[n-1].ID}] = &Snap{facts: nf, env: ne}
				// attempts of the callback are attempts of the call
				for f := range nf {
					if t := e.term(f.T); f.K == 'L' && strings.HasPrefix(t.Aux, "!") {
						j.facts[f] = true
					}
				}
				for ck, sn := range ok.cond {
					for f := range sn.facts {
						if t := e.term(f.T); f.K == 'L' && strings.HasPrefix(t.Aux, "!") && !j.facts[f] {
							j.CondGen(ck.K, e.term(ck.T), t.Aux, t.Args...)
						}
					}
				}
			}
			if csig.Results().Len() == n {
				for i := 0; i < n-1; i++ {
					if types.Identical(csig.Results().At(i).Type(), rs.At(i).Type()) && strings.Contains(name, "Transaction") {
						res[i] = r2[i]
						for _, k := range []byte{'N', 'X'} {
							if sn := o2.cond[FK{k, r2[i].ID}]; sn != nil {
								j.cond[FK{k, r2[i].ID}] = sn
							}
						}
					}
				}
			}
		}
		out = j
	}
	for _, a := range args {
		if !pure {
			e.escape(out, a)
		}
	}
	aft := &Event{Kind: "after", Frame: fr, Instr: in, Name: name, Fn: fn, Args: args, Res: res, Opaque: true, Async: fr.async || async, Pos: ev.Pos, Sig: sig}
	e.fire(out, aft)
	return out, res, true
}

func (e *Engine) builtin(fr *Frame, st *State, in ssa.Instruction, b *ssa.Builtin, args []*Term, sig *types.Signature, async bool) (*State, []*Term, bool) {
	switch b.Name() {
	case "len":
		return st, []*Term{e.tab.mk("len", "", types.Typ[types.Int], args[0])}, true
	case "cap":
		return st, []*Term{e.tab.mk("cap", "", types.Typ[types.Int], args[0])}, true
	case "append":
		var rt types.Type
		if v, ok := in.(ssa.Value); ok {
			rt = v.Type()
		}
		e.fire(st, &Event{Kind: "append", Frame: fr, Instr: in, Args: args, Pos: in.Pos(), Async: fr.async || async})
		return st, []*Term{e.tab.mk("append", e.site(fr, in), rt, args...)}, true
	case "delete", "close", "copy":
		if b.Name() == "copy" {
			e.put(args[0], args[1])
		}
		e.fire(st, &Event{Kind: b.Name(), Frame: fr, Instr: in, Base: args[0], Args: args, Pos: in.Pos(), Async: fr.async || async})
		if b.Name() == "delete" {
			delete(st.env, e.tab.mk("lookup", "", nil, args[0], args[1]))
		}
	case "panic":
		return st, nil, false
	}
	var res []*Term
	if v, ok := in.(ssa.Value); ok && v.Type() != nil {
		if tp, isT := v.Type().(*types.Tuple); !isT || tp.Len() > 0 {
			res = append(res, e.tab.mk("call", "builtin."+b.Name()+"@"+e.site(fr, in), v.Type(), args...))
		}
	}
	return st, res, true
}

// Elems gives the elements of a slice literal / variadic argument.
func (e *Engine) Elems(st *State, t *Term) []*Term {
	if t == nil || t.Op != "slice" || t.Args[0].Op != "alloc" {
		return nil
	}
	var ks []*Term
	for p := range st.env {
		if p.Op == "idx" && (p.Args[0] == t.Args[0] || p.Args[0] == t) {
			ks = append(ks, p)
		}
	}
	sort.Slice(ks, func(i, j int) bool {
		a, _ := ks[i].Args[1].IntConst()
		b, _ := ks[j].Args[1].IntConst()
		return a < b
	})
	var out []*Term
	for _, k := range ks {
		out = append(out, st.env[k])
	}
	return out
}

// Bounds derives the interval of an integer term from the facts.
func (s *State) Bounds(t *Term) (lo, hi *int64) {
	min := func(p **int64, v int64, up bool) {
		if *p == nil || (up && v < **p) || (!up && v > **p) {
			x := v
			*p = &x
		}
	}
	if c, ok := t.IntConst(); ok {
		return &c, &c
	}
	s.Each(func(k byte, f *Term) bool {
		if k != 'T' && k != 'F' {
			return false
		}
		if f.Op == "lt" && f.Args[0] == t {
			if c, ok := f.Args[1].IntConst(); ok {
				if k == 'T' {
					min(&hi, c-1, true)
				} else {
					min(&lo, c, false)
				}
			}
		}
		if f.Op == "eq" && k == 'T' && (f.Args[0] == t || f.Args[1] == t) {
			o := f.Args[1]
			if o == t {
				o = f.Args[0]
			}
			if c, ok := o.IntConst(); ok {
				min(&hi, c, true)
				min(&lo, c, false)
			}
		}
		return false
	})
	return
}

// compared: the outcome of the comparison of an integer with a constant, if the
// facts tell.
func (s *State) compared(t *Term) (val, known bool) {
	x, c := t.Args[0], t.Args[1]
	flip := false
	k, ok := c.IntConst()
	if !ok {
		if k, ok = x.IntConst(); !ok {
			return false, false
		}
		x, flip = c, true
	}
	if _, both := x.IntConst(); both {
		return false, false
	}
	if b, isB := x.Typ.Underlying().(*types.Basic); !isB || b.Info()&types.IsInteger == 0 {
		return false, false
	}
	lo, hi := s.Bounds(x)
	if lo == nil && hi == nil {
		return false, false
	}
	if t.Op == "eq" {
		if lo != nil && hi != nil && *lo == k && *hi == k {
			return true, true
		}
		return false, lo != nil && *lo > k || hi != nil && *hi < k
	}
	if flip { // k < x
		if lo != nil && *lo > k {
			return true, true
		}
		return false, hi != nil && *hi <= k
	}
	if hi != nil && *hi < k {
		return true, true
	}
	return false, lo != nil && *lo >= k
}

// lossy: a conversion to integers that do not hold all the numbers of the
// other type. Codes and indexes kept as int are small.
func lossy(from, to types.Type) bool {
	if _, enum := types.Unalias(to).(*types.Named); enum {
		return false
	}
	d, ok1 := to.Underlying().(*types.Basic)
	s, ok2 := from.Underlying().(*types.Basic)
	if !ok1 || !ok2 || d.Info()&types.IsInteger == 0 || s.Info()&types.IsInteger == 0 || s.Kind() == types.Int || s.Kind() == types.Uint {
		return false
	}
	sz := types.SizesFor("gc", "amd64")
	return sz.Sizeof(d) < sz.Sizeof(s)
}

// isLater tells functions that run the one they are given later, on their own,
// like a goroutine.
func isLater(name string) bool {
	switch name {
	case "errgroup.Group.Go", "time.AfterFunc", "sync.WaitGroup.Go":
		return true
	}
	return false
}
