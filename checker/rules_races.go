package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Variables shared with goroutines: a local variable (or a map) that a
// goroutine captured must not be written while another goroutine may access
// it, unless something in between waits for the goroutine.

// start: an instruction that starts goroutines running these functions.
type goStart struct {
	instr ssa.Instruction
	fn    *ssa.Function
	// what the free variables and parameters of fn stand for
	bound map[ssa.Value]ssa.Value
}

func goStarts(f *ssa.Function) (out []goStart) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Go:
				if g, ok := started(x.Call.Value, x.Call.Args); ok {
					g.instr = in
					out = append(out, g)
				}
			case *ssa.Call:
				if c := x.Call.StaticCallee(); c != nil && isSpawner(c) {
					for _, a := range x.Call.Args {
						if g, ok := started(a, nil); ok {
							g.instr = in
							out = append(out, g)
						}
					}
				}
			}
		}
	}
	return out
}

func isSpawner(f *ssa.Function) bool {
	switch fnName(f) {
	case "errgroup.Group.Go", "errgroup.Group.TryGo", "time.AfterFunc", "sync.WaitGroup.Go":
		return true
	}
	return false
}

func started(v ssa.Value, args []ssa.Value) (goStart, bool) {
	g := goStart{bound: map[ssa.Value]ssa.Value{}}
	switch x := v.(type) {
	case *ssa.MakeClosure:
		g.fn = x.Fn.(*ssa.Function)
		for i, fv := range g.fn.FreeVars {
			g.bound[fv] = x.Bindings[i]
		}
	case *ssa.Function:
		g.fn = x
	default:
		return g, false
	}
	if g.fn.Blocks == nil || len(args) != 0 && len(args) != len(g.fn.Params) {
		return g, false
	}
	for i := range args {
		g.bound[g.fn.Params[i]] = args[i]
	}
	return g, true
}

// varOf: the variable that an address is in, and the field of it.
func varOf(v ssa.Value) (ssa.Value, string) {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		b, _ := varOf(x.X)
		return b, itoa(x.Field)
	case *ssa.ChangeType:
		return varOf(x.X)
	}
	return v, ""
}

func (a access) meets(b access) bool {
	return a.content == b.content && (a.write || b.write) && (a.field == b.field || a.field == "" || b.field == "")
}

type access struct {
	instr   ssa.Instruction
	write   bool
	locked  bool
	content bool   // of the map that the variable holds
	field   string // of the struct behind it
}

// accesses of the variables by a function and the functions it defines.
func accesses(f *ssa.Function, seen map[*ssa.Function]bool) map[ssa.Value][]access {
	out := map[ssa.Value][]access{}
	if f.Blocks == nil || seen[f] {
		return out
	}
	seen[f] = true
	add := func(v ssa.Value, in ssa.Instruction, w, content bool) {
		v, field := varOf(v)
		if content {
			// the map kept in a variable
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				v, field = varOf(u.X)
			}
		}
		switch v.(type) {
		case *ssa.Alloc, *ssa.FreeVar, *ssa.Parameter, *ssa.MakeMap:
			out[v] = append(out[v], access{in, w, underLock(in), content, field})
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op == token.MUL {
					add(x.X, in, false, false)
				}
			case *ssa.Store:
				add(x.Addr, in, true, false)
			case *ssa.MapUpdate:
				add(x.Map, in, true, true)
			case *ssa.Lookup:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					add(x.X, in, false, true)
				}
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					add(x.X, in, false, true)
				}
			case *ssa.MakeClosure:
				// done where the function is used
				g := x.Fn.(*ssa.Function)
				if startsOnly(x) {
					continue
				}
				sub := accesses(g, seen)
				for i, fv := range g.FreeVars {
					for _, a := range sub[fv] {
						for _, use := range *x.Referrers() {
							v, _ := varOf(x.Bindings[i])
							out[v] = append(out[v], access{use, a.write, a.locked || underLock(use), a.content, a.field})
						}
					}
				}
			}
		}
	}
	return out
}

// startsOnly: the function is only run by goroutines.
func startsOnly(x *ssa.MakeClosure) bool {
	for _, r := range *x.Referrers() {
		switch u := r.(type) {
		case *ssa.Go:
			if u.Call.Value != ssa.Value(x) {
				return false
			}
		case *ssa.Call:
			if c := u.Call.StaticCallee(); c == nil || !isSpawner(c) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// underLock: a mutex is taken before, in the same function.
func underLock(in ssa.Instruction) bool {
	b := in.Block()
	for d := b; d != nil; d = d.Idom() {
		for _, x := range d.Instrs {
			if x == in {
				break
			}
			if c, ok := x.(*ssa.Call); ok {
				n := ""
				if s := c.Call.StaticCallee(); s != nil {
					n = fnName(s)
				} else if c.Call.IsInvoke() {
					n = c.Call.Method.Name()
				}
				if l := lastPart(n); l == "Lock" || l == "RLock" {
					return true
				}
			}
		}
	}
	return false
}

// waits: the instruction waits for goroutines.
func waits(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.UnOp:
		return x.Op == token.ARROW
	case *ssa.Select:
		return x.Blocking
	case *ssa.Call:
		if s := x.Call.StaticCallee(); s != nil {
			return strings.HasSuffix(fnName(s), ".Wait")
		}
	}
	return false
}

// unwaited visits what may run after an instruction before something waits for
// the goroutines (or the variable is made anew).
func unwaited(from ssa.Instruction, fresh ssa.Value, visit func(ssa.Instruction) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var run func(b *ssa.BasicBlock, i int) bool
	run = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if visit(in) {
				return true
			}
			if waits(in) {
				return false
			}
			if v, ok := in.(ssa.Value); ok && v == fresh {
				return false
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if run(s, 0) {
					return true
				}
			}
		}
		return false
	}
	for i, in := range from.Block().Instrs {
		if in == from {
			return run(from.Block(), i+1)
		}
	}
	return false
}

// race: a variable captured by a goroutine that may be written meanwhile.
type race struct {
	start goStart
	v     ssa.Value // in the function that starts it
	in    ssa.Value // in the goroutine
	what  string
	at    ssa.Instruction
}

func racesIn(f *ssa.Function) (out []race, starts []goStart) {
	starts = goStarts(f)
	if len(starts) == 0 {
		return nil, nil
	}
	own := accesses(f, map[*ssa.Function]bool{})
	acc := make([]map[ssa.Value][]access, len(starts))
	for i, s := range starts {
		acc[i] = accesses(s.fn, map[*ssa.Function]bool{})
	}
	for i, s := range starts {
		for fv, as := range acc[i] {
			v, ok := s.bound[fv]
			if !ok {
				continue
			}
			v, _ = varOf(v)
			isMapVal := false
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				// the map of a variable, by value
				v, _ = varOf(u.X)
				isMapVal = true
			}
			switch v.(type) {
			case *ssa.Alloc, *ssa.MakeMap, *ssa.FreeVar, *ssa.Parameter:
			default:
				continue
			}
			for _, a := range as {
				a := a
				if isMapVal && !a.content {
					continue
				}
				if p, ok := fv.(*ssa.Parameter); ok && !a.content {
					if _, ptr := p.Type().Underlying().(*types.Pointer); !ptr {
						continue
					}
				}
				found := false
				report := func(what string, at ssa.Instruction) {
					if !found {
						found = true
						out = append(out, race{s, v, fv, what, at})
					}
				}
				// with the function that started it
				unwaited(s.instr, v, func(in ssa.Instruction) bool {
					for _, b := range own[v] {
						if b.instr == in && a.meets(b) && !(a.locked && b.locked) {
							report("accessed by the function that starts the goroutine", in)
							return true
						}
					}
					return false
				})
				if a.locked || found {
					continue
				}
				// with the other goroutines
				unwaited(s.instr, v, func(in ssa.Instruction) bool {
					for j, o := range starts {
						if o.instr != in {
							continue
						}
						for ofv, bs := range acc[j] {
							ov, ok := o.bound[ofv]
							if !ok {
								continue
							}
							ov, _ = varOf(ov)
							if u, ok := ov.(*ssa.UnOp); ok && u.Op == token.MUL {
								ov, _ = varOf(u.X)
							}
							if ov != v {
								continue
							}
							for _, b := range bs {
								if a.meets(b) {
									report("accessed by another goroutine", in)
									return true
								}
							}
						}
					}
					return false
				})
			}
		}
	}
	return out, starts
}

func init() {
	rules["C21"] = func(c *Check) {
		c.races()
		c.groups()
	}
}

// rewritten: the free variables of goroutines that the function starting them
// (or another goroutine) writes meanwhile: what they hold is unknown.
func (p *Prog) rewritten(fv *ssa.FreeVar) bool {
	if p.shared == nil {
		p.shared = map[ssa.Value]bool{}
		for _, f := range p.FuncsIn("cmd", "internal", "pkg") {
			rs, _ := racesIn(f)
			for _, r := range rs {
				p.shared[r.in] = true
			}
		}
	}
	return p.shared[fv]
}

func (c *Check) races() {
	n := 0
	for _, f := range c.P.FuncsIn("cmd", "internal", "pkg") {
		rs, starts := racesIn(f)
		bad := map[ssa.Instruction]race{}
		for _, r := range rs {
			bad[r.start.instr] = r
		}
		for _, s := range starts {
			n++
			r, is := bad[s.instr]
			msg := ""
			if is {
				msg = r.in.Name() + " is " + r.what + " at " + c.P.Pos(r.at.Pos())
			}
			c.Ob("race", fnName(f)+"/"+fnName(s.fn), !is, c.P.Pos(s.instr.Pos()), msg)
			if !strings.HasPrefix(c.P.PkgRel(f), "internal/") {
				continue
			}
			c.Ob("context", fnName(f)+"/"+fnName(s.fn), !outlivesContext(f, s), c.P.Pos(s.instr.Pos()),
				"the goroutine may go on after the request is served, and it uses the context of the request")
		}
	}
	c.Need("race", n, 20, "goroutines")
}

// outlivesContext: the goroutine uses the context given to the function that
// starts it, which may return without waiting for it.
func outlivesContext(f *ssa.Function, s goStart) bool {
	uses := false
	for in, v := range s.bound {
		t := v.Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if typeName(t) != "context.Context" || in.Referrers() == nil || len(*in.Referrers()) == 0 {
			continue
		}
		if fromParam(v, f) {
			uses = true
		}
	}
	if !uses {
		return false
	}
	return unwaited(s.instr, nil, func(in ssa.Instruction) bool {
		_, ok := in.(*ssa.Return)
		return ok
	})
}

// fromParam: (the variable that holds) a parameter of the function, or what a
// call returns for one.
func fromParam(v ssa.Value, f *ssa.Function) bool {
	seen := map[ssa.Value]bool{}
	var is func(v ssa.Value) bool
	is = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Parameter:
			return true
		case *ssa.FreeVar:
			return true
		case *ssa.Alloc:
			for _, r := range *x.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(x) && is(st.Val) {
					return true
				}
			}
		case *ssa.UnOp:
			return is(x.X)
		case *ssa.Extract:
			return is(x.Tuple)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if is(e) {
					return true
				}
			}
		case *ssa.ChangeInterface:
			return is(x.X)
		case *ssa.Call:
			if x.Call.IsInvoke() && is(x.Call.Value) {
				return true
			}
			for _, a := range x.Call.Args {
				if is(a) {
					return true
				}
			}
		}
		return false
	}
	return is(v)
}

// ---- wait groups

func callee(in ssa.Instruction) (string, *ssa.CallCommon) {
	var cc *ssa.CallCommon
	switch x := in.(type) {
	case *ssa.Call:
		cc = &x.Call
	case *ssa.Defer:
		cc = &x.Call
	case *ssa.Go:
		cc = &x.Call
	default:
		return "", nil
	}
	if s := cc.StaticCallee(); s != nil {
		return fnName(s), cc
	}
	return "", cc
}

// bodyOf: the function a call runs, if known.
func bodyOf(cc *ssa.CallCommon) *ssa.Function {
	if cc == nil {
		return nil
	}
	if g := cc.StaticCallee(); g != nil && g.Blocks != nil {
		return g
	}
	if m, ok := cc.Value.(*ssa.MakeClosure); ok {
		return m.Fn.(*ssa.Function)
	}
	return nil
}

// counts: how many times an operation may be done on the paths of a function.
// 2 stands for many.
func counts(f *ssa.Function, is func(ssa.Instruction) bool, rec map[*ssa.Function]bool) map[int]bool {
	if f == nil || f.Blocks == nil || rec[f] {
		return map[int]bool{0: true}
	}
	rec[f] = true
	defer delete(rec, f)
	in := make([]map[int]bool, len(f.Blocks))
	res := map[int]bool{}
	in[0] = map[int]bool{0: true}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		cur := map[int]bool{}
		for k := range in[b.Index] {
			cur[k] = true
		}
		for _, x := range b.Instrs {
			step := map[int]bool{0: true}
			if is(x) {
				step = map[int]bool{1: true}
			} else if _, isGo := x.(*ssa.Go); !isGo {
				if _, cc := callee(x); cc != nil {
					if g := bodyOf(cc); g != nil && g.Pkg == f.Pkg {
						step = counts(g, is, rec)
					}
				}
			}
			if len(step) != 1 || !step[0] {
				nx := map[int]bool{}
				for k := range cur {
					for d := range step {
						s := k + d
						if s > 2 {
							s = 2
						}
						nx[s] = true
					}
				}
				cur = nx
			}
			if _, ok := x.(*ssa.Return); ok {
				for k := range cur {
					res[k] = true
				}
			}
		}
		for i, s := range b.Succs {
			if i == absentGroup(b) {
				continue
			}
			if in[s.Index] == nil {
				in[s.Index] = map[int]bool{}
			}
			grew := false
			for k := range cur {
				if !in[s.Index][k] {
					in[s.Index][k] = true
					grew = true
				}
			}
			if grew {
				work = append(work, s)
			}
		}
	}
	return res
}

// absentGroup: the successor of a block taken only if no group is given.
func absentGroup(b *ssa.BasicBlock) int {
	i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return -1
	}
	x, ok := i.Cond.(*ssa.BinOp)
	if !ok || typeName(deptr(x.X.Type())) != "sync.WaitGroup" {
		return -1
	}
	if k, ok := x.Y.(*ssa.Const); !ok || !k.IsNil() {
		return -1
	}
	if x.Op == token.EQL {
		return 0
	}
	return 1
}

func deptr(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func only1(m map[int]bool) bool { return len(m) == 1 && m[1] }

func isDone(in ssa.Instruction) bool { n, _ := callee(in); return n == "sync.WaitGroup.Done" }
func isWait(in ssa.Instruction) bool { n, _ := callee(in); return n == "sync.WaitGroup.Wait" }
func isSend(in ssa.Instruction) bool { _, ok := in.(*ssa.Send); return ok }

func some(m map[int]bool) bool { return m[1] || m[2] }

// groups: what is waited for is what was started.
func (c *Check) groups() {
	n := 0
	for _, f := range c.P.FuncsIn("cmd", "internal", "pkg") {
		var adds []*ssa.Call
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if name, _ := callee(in); name == "sync.WaitGroup.Add" {
					if x, ok := in.(*ssa.Call); ok {
						adds = append(adds, x)
					}
				}
			}
		}
		starts := goStarts(f)
		var members []goStart
		for _, s := range starts {
			if cs := counts(s.fn, isDone, map[*ssa.Function]bool{}); some(cs) || only1(cs) {
				members = append(members, s)
				n++
				c.Ob("group/done", fnName(f)+"/"+fnName(s.fn), only1(cs), c.P.Pos(s.fn.Pos()), "the goroutine may end without (or after more than once) telling it is done")
				c.Ob("group/done", fnName(f)+"/"+fnName(s.fn)+": last", doneLast(s.fn), c.P.Pos(s.fn.Pos()), "the goroutine tells it is done before it has sent its result")
			}
		}
		for _, s := range members {
			msg := matched(f, adds, s)
			c.Ob("group/count", fnName(f)+"/"+fnName(s.fn), msg == "", c.P.Pos(s.instr.Pos()), msg)
		}
		for _, a := range adds {
			ok := false
			for _, s := range members {
				ok = ok || before(a, s.instr)
			}
			c.Ob("group/add", fnName(f), ok, c.P.Pos(a.Pos()), "nothing is started for what is waited for")
		}
		// channels closed by the one that waits
		for _, g := range append([]goStart{{fn: f}}, starts...) {
			if len(members) == 0 {
				break
			}
			for _, b := range g.fn.Blocks {
				for _, in := range b.Instrs {
					x, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					if bi, ok := x.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "close" {
						continue
					}
					w := false
					for _, bb := range g.fn.Blocks {
						for _, y := range bb.Instrs {
							if isWait(y) && dominates(y, in) {
								w = true
							}
						}
					}
					n++
					c.Ob("group/close", fnName(f)+"/"+fnName(g.fn), w, c.P.Pos(x.Pos()), "the channel may be closed while goroutines still send to it")
				}
			}
		}
		// results nobody receives
		for _, s := range starts {
			cs := counts(s.fn, isSend, map[*ssa.Function]bool{})
			if !some(cs) {
				continue
			}
			msg := stuck(f, s, cs)
			c.Ob("group/received", fnName(f)+"/"+fnName(s.fn), msg == "", c.P.Pos(s.instr.Pos()), msg)
		}
	}
	c.Need("group", n, 10, "groups of goroutines")
}

// doneLast: nothing is sent after the goroutine told it is done.
func doneLast(f *ssa.Function) bool {
	ok := true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if _, d := in.(*ssa.Defer); d || !isDone(in) {
				continue
			}
			unwaited(in, nil, func(x ssa.Instruction) bool {
				if isSend(x) {
					ok = false
				}
				return false
			})
		}
	}
	return ok
}

func dominates(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	return before(a, b)
}

// before: a is run before b on the way to b.
func before(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, x := range a.Block().Instrs {
			if x == a {
				return true
			}
			if x == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// loopOf: the blocks of the innermost loop around an instruction, and its
// header.
func loopOf(in ssa.Instruction) (*ssa.BasicBlock, map[*ssa.BasicBlock]bool) {
	var head *ssa.BasicBlock
	var body map[*ssa.BasicBlock]bool
	for _, b := range in.Parent().Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			m := map[*ssa.BasicBlock]bool{s: true}
			var up func(x *ssa.BasicBlock)
			up = func(x *ssa.BasicBlock) {
				if !m[x] {
					m[x] = true
					for _, p := range x.Preds {
						up(p)
					}
				}
			}
			up(b)
			if head == s {
				for x := range m {
					body[x] = true
				}
				continue
			}
			if m[in.Block()] && (body == nil || len(m) < len(body)) {
				head, body = s, m
			}
		}
	}
	return head, body
}

// sameList: the two values are the same list.
func sameList(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok || !ok2 || x.Op != token.MUL || y.Op != token.MUL {
		return false
	}
	v, f := varOf(x.X)
	w, g := varOf(y.X)
	return v == w && f == g
}

func lenOf(v ssa.Value) ssa.Value {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
		return c.Call.Args[0]
	}
	return nil
}

// over: the list (or map) that a loop goes through.
func over(head *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) ssa.Value {
	if i, ok := head.Instrs[len(head.Instrs)-1].(*ssa.If); ok {
		switch x := i.Cond.(type) {
		case *ssa.BinOp:
			if l := lenOf(x.Y); l != nil && x.Op == token.LSS && fromZero(x.X, body) {
				return l
			}
			if l := lenOf(x.X); l != nil && x.Op == token.GTR && fromZero(x.Y, body) {
				return l
			}
		case *ssa.Extract:
			if nx, ok := x.Tuple.(*ssa.Next); ok {
				if r, ok := nx.Iter.(*ssa.Range); ok {
					return r.X
				}
			}
		}
	}
	return nil
}

// fromZero: a counter 0, 1, 2...
func fromZero(v ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	start := int64(0)
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		if k, ok := b.Y.(*ssa.Const); ok && k.Int64() == 1 {
			v, start = b.X, -1
		}
	}
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	for i, e := range ph.Edges {
		if !body[ph.Block().Preds[i]] {
			if k, ok := e.(*ssa.Const); !ok || k.Int64() != start {
				return false
			}
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != ssa.Value(ph) {
			return false
		}
		if k, ok := b.Y.(*ssa.Const); !ok || k.Int64() != 1 {
			return false
		}
	}
	return true
}

// matched: as many goroutines are started as are waited for.
func matched(f *ssa.Function, adds []*ssa.Call, s goStart) string {
	var a *ssa.Call
	for _, x := range adds {
		if before(x, s.instr) && (a == nil || before(a, x)) {
			a = x
		}
	}
	if a == nil {
		return "the goroutine is not waited for"
	}
	n := a.Call.Args[len(a.Call.Args)-1]
	head, body := loopOf(s.instr)
	if k, ok := n.(*ssa.Const); ok {
		if k.Int64() != 1 {
			return "one goroutine is started while several are waited for"
		}
		h2, _ := loopOf(a)
		if h2 != head {
			return "the goroutine is started a different number of times than it is waited for"
		}
		// always started
		missed := unwaited(a, nil, func(in ssa.Instruction) bool { return false })
		_ = missed
		if !always(a, s.instr) {
			return "the goroutine may not be started though it is waited for"
		}
		return ""
	}
	l := lenOf(n)
	if l == nil {
		return "unknown number of goroutines waited for"
	}
	if head == nil {
		return "one goroutine is started while several are waited for"
	}
	if o := over(head, body); o == nil || !sameList(o, l) {
		return "the goroutines are not started for each element of the list whose length is waited for"
	}
	// every round starts one
	for b := range body {
		for _, x := range b.Succs {
			if x == head && b != s.instr.Block() && !s.instr.Block().Dominates(b) {
				return "some rounds of the loop start no goroutine"
			}
			if !body[x] && b != head {
				return "the loop may be left before all goroutines are started"
			}
		}
	}
	if h2, _ := loopOf(a); h2 == head {
		return "the goroutines are waited for many times"
	}
	// always reached
	seen := false
	unwaited(a, nil, func(in ssa.Instruction) bool {
		if in.Block() == head {
			seen = true
			return true
		}
		return false
	})
	if !seen || !always(a, head.Instrs[0]) {
		return "the goroutines may not be started though they are waited for"
	}
	return ""
}

// always: b is reached from a before the function returns or a is run again.
func always(a, b ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var run func(blk *ssa.BasicBlock, i int) bool
	run = func(blk *ssa.BasicBlock, i int) bool {
		for ; i < len(blk.Instrs); i++ {
			in := blk.Instrs[i]
			if in == b {
				return true
			}
			if in == a {
				return false
			}
			if _, ok := in.(*ssa.Return); ok {
				return false
			}
		}
		for _, s := range blk.Succs {
			if seen[s] {
				continue
			}
			seen[s] = true
			if !run(s, 0) {
				return false
			}
		}
		return true
	}
	for i, in := range a.Block().Instrs {
		if in == a {
			return run(a.Block(), i+1)
		}
	}
	return false
}

// stuck: the goroutine may wait forever for its result to be received.
func stuck(f *ssa.Function, s goStart, cs map[int]bool) string {
	// room for the results of all of them
	for fv, v := range s.bound {
		if _, ok := fv.Type().Underlying().(*types.Chan); !ok {
			if p, ok := fv.Type().Underlying().(*types.Pointer); !ok {
				continue
			} else if _, ok := p.Elem().Underlying().(*types.Chan); !ok {
				continue
			}
		}
		mk := madeChan(v)
		if mk == nil {
			continue
		}
		if l := lenOf(mk.Size); l != nil && !cs[2] {
			head, body := loopOf(s.instr)
			if head == nil {
				return ""
			}
			if o := over(head, body); o != nil && sameList(o, l) {
				return ""
			}
		}
		if k, ok := mk.Size.(*ssa.Const); ok && k.Int64() >= 1 && !cs[2] {
			if head, _ := loopOf(s.instr); head == nil {
				return ""
			}
		}
		// received until the channel is closed
		ok := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				u, isRecv := in.(*ssa.UnOp)
				if !isRecv || u.Op != token.ARROW || madeChan(u.X) != mk {
					continue
				}
				head, body := loopOf(in)
				if h, _ := loopOf(s.instr); h == nil && !cs[2] && always(s.instr, in) {
					ok = true
					continue
				}
				if head == nil || !u.CommaOk {
					return "only some of the results may be received"
				}
				ok = true
				for bb := range body {
					for _, x := range bb.Succs {
						if !body[x] && bb != u.Block() {
							return "the results may not be received if the loop is left: there is no room for them in the channel"
						}
					}
				}
			}
		}
		if !ok {
			return "the results are not received"
		}
	}
	return ""
}

// madeChan: where a channel is made.
func madeChan(v ssa.Value) *ssa.MakeChan {
	switch x := v.(type) {
	case *ssa.MakeChan:
		return x
	case *ssa.ChangeType:
		return madeChan(x.X)
	case *ssa.UnOp:
		return madeChan(x.X)
	case *ssa.Alloc:
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
				return madeChan(st.Val)
			}
		}
	}
	return nil
}
