package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C15: state shared between goroutines is only touched under its lock.
func init() {
	rules["C15"] = func(c *Check) {
		c.Note("Every struct of the daemon holding a mutex is enumerated; its fields that are changed after construction are shared state, and every access to them in the program must happen with that mutex held. The functions leading to such an access or to a mutex operation are followed from every entry (exported functions, goroutines, functions without callers) with the mutexes held as path facts.")
		c.Assume("objects are not shared before their constructor returns; the key of the two encrypted stores has its own properties")
		l := newLocks(c)
		l.run()
		l.callbacks()
		l.ordered()
		l.unguarded()
		l.aliasing()
	}
}

type locks struct {
	c         *Check
	mutex     map[string][]string // struct -> its mutex fields
	shared    map[string]bool     // struct.field changed after construction
	access    map[ssa.Instruction]*ssa.Function
	visited   map[ssa.Instruction]bool
	touch     map[*ssa.Function]bool
	leads     map[*ssa.Function]bool
	order     map[[2]string]string
	cg        *CG
	takes     map[*ssa.Function][]string // mutexes a function takes itself
	runsUnder map[*ssa.Function][]string // mutexes held while a parameter is called
}

func isMutexType(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n := typeName(t)
	return n == "sync.Mutex" || n == "sync.RWMutex"
}

// fieldOf: the struct field an address belongs to, and its owner.
func fieldOf(a ssa.Value) (string, ssa.Value) {
	fa, ok := a.(*ssa.FieldAddr)
	if !ok {
		return "", nil
	}
	st, n := structOf(fa.X.Type())
	if st == nil {
		return "", nil
	}
	return n + "." + st.Field(fa.Field).Name(), fa.X
}

// fresh: the object is made by the function itself.
func freshObj(v ssa.Value) bool {
	_, ok := v.(*ssa.Alloc)
	return ok
}

// rootField: the field a value (map, slice, pointer) was read from.
func rootField(v ssa.Value) (string, ssa.Value) {
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			if f, o := fieldOf(x.X); f != "" {
				return f, o
			}
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return "", nil
		}
	}
}

func newLocks(c *Check) *locks {
	l := &locks{c: c, mutex: map[string][]string{}, shared: map[string]bool{}, access: map[ssa.Instruction]*ssa.Function{},
		visited: map[ssa.Instruction]bool{}, touch: map[*ssa.Function]bool{}, leads: map[*ssa.Function]bool{}, order: map[[2]string]string{}, takes: map[*ssa.Function][]string{}, runsUnder: map[*ssa.Function][]string{}}
	for _, nt := range c.P.structs() {
		st := nt.Underlying().(*types.Struct)
		n := typeName(nt)
		for i := 0; i < st.NumFields(); i++ {
			if isMutexType(st.Field(i).Type()) {
				l.mutex[n] = append(l.mutex[n], n+"."+st.Field(i).Name())
			}
		}
	}
	owner := func(f string) string { return f[:strings.LastIndex(f, ".")] }
	// what is changed after construction
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fld, own := changedField(in)
				if fld != "" && !freshObj(own) && l.mutex[owner(fld)] != nil {
					l.shared[fld] = true
				}
			}
		}
	}
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					if fld, own := fieldOf(fa); l.shared[fld] && !freshObj(own) {
						l.access[in] = f
						l.touch[f] = true
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					if s := ci.Common().StaticCallee(); s != nil {
						if n := fnName(s); strings.HasPrefix(n, "sync.Mutex.") || strings.HasPrefix(n, "sync.RWMutex.") {
							l.touch[f] = true
							a := ci.Common().Args[0]
							if u, ok := a.(*ssa.UnOp); ok {
								a = u.X
							}
							if id, _ := fieldOf(a); id != "" && strings.HasSuffix(n, "Lock") && !strings.HasSuffix(n, "nlock") {
								l.takes[f] = append(l.takes[f], id)
							}
						}
					}
				}
			}
		}
	}
	return l
}

// structs: the named struct types of the repository.
func (p *Prog) structs() []*types.Named {
	var out []*types.Named
	for _, pkg := range p.SSA.AllPackages() {
		if !p.inRepo[pkg.Pkg] {
			continue
		}
		var names []string
		for n := range pkg.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if t, ok := pkg.Members[n].(*ssa.Type); ok {
				if nt, ok := types.Unalias(t.Type()).(*types.Named); ok {
					if _, ok := nt.Underlying().(*types.Struct); ok {
						out = append(out, nt)
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return typeName(out[i]) < typeName(out[j]) })
	return out
}

func (l *locks) run() {
	c := l.c
	g := c.P.CallGraph()
	callers := map[*ssa.Function]bool{} // called otherwise than by go
	goes := map[*ssa.Function]bool{}
	for _, f := range c.P.Funcs {
		if l.touch[f] {
			l.leads[f] = true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				s := ci.Common().StaticCallee()
				if s == nil {
					continue
				}
				if _, ok := in.(*ssa.Go); ok {
					goes[s] = true
				} else {
					callers[s] = true
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range c.P.Funcs {
			if l.leads[f] {
				continue
			}
			for _, s := range g.Succ(f) {
				if l.leads[s] {
					l.leads[f], changed = true, true
					break
				}
			}
		}
	}
	// only the functions close to the locks matter: stop where nothing above
	// holds a lock
	holds := map[*ssa.Function]bool{}
	for f := range l.touch {
		holds[f] = true
	}
	near := map[*ssa.Function]bool{}
	for f := range l.touch {
		near[f] = true
	}
	for f := range g.Reach(keysOf(holds)...) {
		if l.leads[f] {
			near[f] = true
		}
	}
	var roots []*ssa.Function
	for _, f := range c.P.Funcs {
		if !near[f] || strings.Contains(f.Name(), "$bound") {
			continue
		}
		if f.Name() == "init" {
			continue
		}
		exported := f.Parent() == nil && f.Object() != nil && f.Object().Exported()
		if exported || goes[f] || f.Parent() == nil && !callers[f] {
			roots = append(roots, f)
		}
	}
	acc := 0
	for round := 0; round < 2; round++ {
		for _, fn := range roots {
			acc += l.analyse(fn, near)
		}
		if round == 0 {
			// accesses no entry leads to, in functions somebody calls
			roots = nil
			seen := map[*ssa.Function]bool{}
			for in, f := range l.access {
				if !l.visited[in] && (callers[f] || f.Parent() != nil) && !seen[f] {
					seen[f] = true
					roots = append(roots, f)
				}
			}
			sort.Slice(roots, func(i, j int) bool { return fnName(roots[i]) < fnName(roots[j]) })
		}
	}
	c.Need("locked", acc, 40, "accesses to shared state")
	c.Need("structs", len(l.mutex), 6, "structs with a mutex")
}

// ordered: the order in which mutexes are taken has no cycle.
func (l *locks) ordered() {
	c := l.c
	succ := map[string][]string{}
	for p := range l.order {
		succ[p[0]] = append(succ[p[0]], p[1])
	}
	var pairs [][2]string
	for p := range l.order {
		pairs = append(pairs, p)
	}
	sort.Slice(pairs, func(i, j int) bool { return pairs[i][0]+pairs[i][1] < pairs[j][0]+pairs[j][1] })
	for _, p := range pairs {
		seen := map[string]bool{}
		var reach func(x string) bool
		reach = func(x string) bool {
			if x == p[0] {
				return true
			}
			if seen[x] {
				return false
			}
			seen[x] = true
			for _, y := range succ[x] {
				if reach(y) {
					return true
				}
			}
			return false
		}
		c.Ob("order", p[0]+">"+p[1], !reach(p[1]), l.order[p], "mutexes are taken in different orders: "+p[1]+" while holding "+p[0]+", and the other way round")
	}
}

func heldIDs(st *State) []string {
	m := map[string]bool{}
	st.Each(func(k byte, t *Term) bool {
		if k == 'L' && len(t.Aux) > 2 && (t.Aux[:2] == "w:" || t.Aux[:2] == "r:") {
			m[t.Aux[2:]] = true
		}
		return false
	})
	return sortedKeysB(m)
}

func addAll(l, more []string) []string {
	for _, m := range more {
		found := false
		for _, x := range l {
			found = found || x == m
		}
		if !found {
			l = append(l, m)
		}
	}
	return l
}

func keysOf(m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i]) < fnName(out[j]) })
	return out
}

func (l *locks) analyse(fn *ssa.Function, near map[*ssa.Function]bool) int {
	c := l.c
	n := 0
	owner := func(f string) string { return f[:strings.LastIndex(f, ".")] }
	freshT := func(st *State, t *Term) bool {
		for t != nil && (t.Op == "faddr" || t.Op == "field" || t.Op == "load") {
			t = t.Args[0]
		}
		return t != nil && t.Op == "alloc"
	}
	field := func(t *Term) (string, *Term) {
		for t != nil && (t.Op == "field" || t.Op == "faddr" || t.Op == "load" || t.Op == "index" || t.Op == "slice") {
			if (t.Op == "field" || t.Op == "faddr") && l.shared[t.Aux] {
				return t.Aux, t.Args[0]
			}
			if len(t.Args) == 0 {
				break
			}
			t = t.Args[0]
		}
		return "", nil
	}
	locked := map[string]bool{}
	var e *Engine
	hook := func(final bool) func(st *State, ev *Event) {
		return func(st *State, ev *Event) {
			if ev.Async {
				return
			}
			id, op := mutexOp(ev)
			if op != "" {
				locked[id] = true
				held := st.Is("w:"+id) || st.Is("r:"+id)
				if final {
					switch op {
					case "Lock", "RLock":
						c.At(ev, "deadlock", fnName(ev.Frame.fn)+"/"+id, !held, "a mutex is taken by the goroutine that already holds it")
						st.Each(func(k byte, t *Term) bool {
							if k == 'L' && len(t.Aux) > 2 && (t.Aux[:2] == "w:" || t.Aux[:2] == "r:") && t.Aux[2:] != id {
								l.order[[2]string{t.Aux[2:], id}] = c.P.Pos(ev.Pos)
							}
							return false
						})
					default:
						want := "w:" + id
						if op == "RUnlock" {
							want = "r:" + id
						}
						c.At(ev, "unlock", fnName(ev.Frame.fn)+"/"+id, st.Is(want), "a mutex is released that is not held, or held the other way")
					}
				}
				if op == "Lock" || op == "RLock" {
					st.Kill("free:" + id)
				} else {
					st.Gen("free:" + id)
				}
			}
			lockHook(st, ev)
			if !final {
				return
			}
			check := func(t *Term, write bool, what string) {
				f, own := field(t)
				if f == "" || freshT(st, own) {
					return
				}
				n++
				v := "read"
				if write {
					v = "changed"
				}
				c.At(ev, "locked/"+what, f+"@"+fnName(ev.Frame.fn), heldOn(st, owner(f), write), "the shared "+lastPart(f)+" is "+v+" without holding the mutex of its "+lastPart(owner(f)))
			}
			switch ev.Kind {
			case "load":
				if f, _ := field(ev.Base); f != "" && ev.Base.Op == "faddr" && ev.Base.Aux == f {
					check(ev.Base, false, "read")
				}
			case "store":
				if ev.Instr != nil {
					check(e.tab.mk("faddr", ev.Name, nil, ev.Base), true, "write")
				}
			case "mapupdate", "delete":
				check(ev.Base, true, "content")
			case "idxstore":
				check(ev.Base, true, "content")
			case "mapread":
				check(ev.Base, false, "content")
			case "send", "recv", "call":
				what := ""
				held := heldIDs(st)
				if ev.Kind == "call" && len(held) > 0 {
					if isParamFunc(st, ev) && ev.Frame.parent == nil || ev.Frame.parent != nil && ev.Name == "dynamic" {
						l.runsUnder[fn] = addAll(l.runsUnder[fn], held)
					}
					if ci, ok := ev.Instr.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && ev.Fn == nil {
						cm := ci.Common()
						for id := range l.reaches(l.graph().dispatch(cm.Value.Type(), cm.Method)...) {
							for _, h := range held {
								if h == id {
									c.At(ev, "deadlock", fnName(ev.Frame.fn)+"/"+id, false, ev.Last()+" may wait for a mutex the goroutine already holds")
								} else {
									l.order[[2]string{h, id}] = c.P.Pos(ev.Pos)
								}
							}
						}
					}
				}
				switch {
				case ev.Kind == "send" || ev.Kind == "recv":
					if strings.HasPrefix(ev.Name, "select") {
						if s, ok := ev.Instr.(*ssa.Select); ok && !s.Blocking {
							return
						}
					}
					what = "a channel operation"
				case lastIs(ev.Name, "sync.WaitGroup.Wait", "time.Sleep"):
					what = ev.Last()
				}
				if what != "" {
					c.At(ev, "blocking", fnName(ev.Frame.fn)+"/"+strings.ReplaceAll(what, " ", "-"), len(held) == 0, what+" may block while a mutex is held")
				}
			case "return":
				if ev.Frame.parent != nil {
					return
				}
				for _, id := range sortedKeysB(locked) {
					c.At(ev, "released", fnName(fn)+"/"+id, st.Is("free:"+id), "a mutex may still be held when the function returns")
				}
			}
			if ev.Instr != nil {
				l.visited[ev.Instr] = true
			}
		}
	}
	inline := func(f *ssa.Function) bool { return near[f] || f.Parent() != nil }
	e = c.Engine(hook(false))
	e.inline = inline
	c.dry = true
	c.Analyze(e, fn)
	c.dry = false
	e = c.Engine(hook(true))
	e.inline = inline
	e.onInstr = func(in ssa.Instruction) { l.visited[in] = true }
	c.AnalyzeWith(e, fn, "", func(st *State, args []*Term) {
		for id := range locked {
			st.Gen("free:" + id)
		}
	})
	return n
}

func sortedKeysB(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// changedField: the struct field an instruction changes, and its owner.
func changedField(in ssa.Instruction) (string, ssa.Value) {
	switch x := in.(type) {
	case *ssa.Store:
		if fld, own := fieldOf(x.Addr); fld != "" {
			return fld, own
		}
		return rootField(x.Addr)
	case *ssa.MapUpdate:
		return rootField(x.Map)
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "copy") {
			return rootField(x.Call.Args[0])
		}
	}
	return "", nil
}

// unguarded: the state of the services, that every request is served by, does
// not change after construction unless a mutex belongs to it.
func (l *locks) unguarded() {
	c := l.c
	long := map[string]bool{}
	var add func(nt *types.Named)
	add = func(nt *types.Named) {
		n := typeName(nt)
		st, ok := nt.Underlying().(*types.Struct)
		if !ok || long[n] || nt.Obj().Pkg() == nil || !c.P.inRepo[nt.Obj().Pkg()] {
			return
		}
		long[n] = true
		for i := 0; i < st.NumFields(); i++ {
			t := st.Field(i).Type()
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			f, ok := types.Unalias(t).(*types.Named)
			if !ok || f.Obj().Pkg() == nil || !c.P.inRepo[f.Obj().Pkg()] {
				continue
			}
			if it, ok := f.Underlying().(*types.Interface); ok {
				for _, im := range c.P.Impls(it) {
					add(im)
				}
			}
		}
	}
	for _, si := range []string{"OperatorService", "TradeService", "WalletService", "BlockchainListener", "UnlockerService"} {
		if it := c.P.Iface(app, si); it != nil {
			for _, nt := range c.P.Impls(it) {
				add(nt)
			}
		}
	}
	c.Need("unguarded", len(long), 12, "services")
	for _, n := range sortedKeysB(long) {
		if l.mutex[n] == nil {
			pos, fld := "", ""
			for _, f := range c.P.Funcs {
				if f.Name() == "init" {
					continue
				}
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if x, own := changedField(in); x != "" && x[:strings.LastIndex(x, ".")] == n && !freshObj(own) && pos == "" {
							pos, fld = c.P.Pos(in.Pos()), x
						}
					}
				}
			}
			c.Ob("unguarded", n, fld == "", pos, "the field "+fld+" of a service used by many goroutines is changed although no mutex belongs to it")
		}
	}
}

// reaches: the mutexes a function may take.
func (l *locks) reaches(fns ...*ssa.Function) map[string]*ssa.Function {
	if l.cg == nil {
		l.cg = l.c.P.CallGraph()
	}
	out := map[string]*ssa.Function{}
	r := l.cg.Reach(fns...)
	for _, f := range keysOf2(r) {
		for _, id := range l.takes[f] {
			if out[id] == nil {
				out[id] = f
			}
		}
	}
	return out
}

func keysOf2(m map[*ssa.Function]*ssa.Function) []*ssa.Function {
	b := map[*ssa.Function]bool{}
	for f := range m {
		b[f] = true
	}
	return keysOf(b)
}

// callbacks: a function handed to a method that runs it under its mutex.
func (l *locks) callbacks() {
	c := l.c
	n := 0
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !ci.Common().IsInvoke() {
					continue
				}
				cm := ci.Common()
				var cb *ssa.Function
				for _, a := range cm.Args {
					if f := funcOf(a); f != nil {
						cb = f
					}
				}
				if cb == nil || !c.P.FnInRepo(cb) {
					continue
				}
				for _, m := range l.graph().dispatch(cm.Value.Type(), cm.Method) {
					held := l.runsUnder[m]
					if len(held) == 0 {
						continue
					}
					n++
					taken := l.reaches(cb)
					for _, id := range held {
						f := taken[id]
						w := ""
						if f != nil {
							w = fnName(f)
						}
						c.Ob("callback", fnName(cb)+"/"+lastPart(id)+"@"+fnName(m), f == nil, c.P.Pos(in.Pos()), "the function runs while "+fnName(m)+" holds "+id+", which "+w+" waits for")
						for t := range taken {
							if t != id {
								l.order[[2]string{id, t}] = c.P.Pos(in.Pos())
							}
						}
					}
				}
			}
		}
	}
	c.Need("callback", n, 10, "functions run while a mutex is held")
}

func (l *locks) graph() *CG {
	if l.cg == nil {
		l.cg = l.c.P.CallGraph()
	}
	return l.cg
}

func funcOf(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.MakeClosure:
		f, _ := x.Fn.(*ssa.Function)
		return f
	case *ssa.Function:
		return x
	case *ssa.ChangeType:
		return funcOf(x.X)
	}
	return nil
}

// aliasing: what the in-memory back-end hands out is not what it stores.
func (l *locks) aliasing() {
	c := l.c
	rooted := func(t *Term) bool {
		for t != nil {
			switch t.Op {
			case "field", "faddr":
				if strings.HasPrefix(t.Aux, "inmemory.") && (l.shared[t.Aux] || strings.Contains(t.Aux, "Store.")) {
					return true
				}
			case "load", "lookup", "next", "extract", "index", "idx", "slice", "range", "tuple":
			default:
				return false
			}
			if len(t.Args) == 0 {
				return false
			}
			t = t.Args[0]
		}
		return false
	}
	mutable := func(t types.Type) bool {
		if t == nil {
			return false
		}
		switch u := t.Underlying().(type) {
		case *types.Map:
			return true
		case *types.Pointer:
			// a type of the daemon: what other packages hand out (network
			// parameters) is never changed
			_, ok := u.Elem().Underlying().(*types.Struct)
			nt, _ := types.Unalias(u.Elem()).(*types.Named)
			return ok && nt != nil && c.P.inRepo[nt.Obj().Pkg()]
		}
		return false
	}
	sites := 0
	for _, ri := range repoIfaces {
		nt := c.repoImpls(ri)["inmemory"]
		if nt == nil {
			continue
		}
		for _, fn := range c.P.exportedMethods(nt) {
			var e *Engine
			var shared func(st *State, t *Term, depth int) bool
			shared = func(st *State, t *Term, depth int) bool {
				if t == nil || depth > 3 {
					return false
				}
				if t.Op == "phi" {
					for _, a := range t.Alts {
						if shared(st, a, depth+1) {
							return true
						}
					}
					return false
				}
				if mutable(t.Typ) && rooted(t) {
					return true
				}
				if t.Op != "alloc" {
					return false
				}
				et := elemType(t.Typ)
				if et == nil {
					return false
				}
				s, ok := et.Underlying().(*types.Struct)
				if !ok {
					return false
				}
				v := e.load(st, t, et)
				for i := 0; i < s.NumFields(); i++ {
					if mutable(s.Field(i).Type()) && shared(st, e.structField(st, v, i, et), depth+1) {
						return true
					}
				}
				return false
			}
			e = c.Engine(func(st *State, ev *Event) {
				msg := "a stored record is handed out itself instead of a copy: it can be changed without the mutex"
				switch ev.Kind {
				case "return":
					if ev.Frame.parent != nil {
						return
					}
					for i, r := range ev.Res {
						if isErrorType(r.Typ) {
							continue
						}
						sites++
						c.At(ev, "copy/result", fnName(fn)+"/"+itoa(i), !shared(st, r, 0), msg)
					}
				case "call":
					if isParamFunc(st, ev) {
						for i, a := range ev.Args {
							sites++
							c.At(ev, "copy/callback", fnName(fn)+"/"+itoa(i), !shared(st, a, 0), msg)
						}
					}
				case "mapupdate":
					if !rooted(ev.Base) {
						sites++
						c.At(ev, "copy/content", fnName(fn)+"@"+fnName(ev.Frame.fn), !shared(st, ev.Val, 0), msg)
					}
				case "append":
					if len(ev.Args) > 1 {
						for _, v := range append(e.Elems(st, ev.Args[1]), ev.Args[1]) {
							sites++
							c.At(ev, "copy/content", fnName(fn)+"@"+fnName(ev.Frame.fn), !shared(st, v, 0), msg)
						}
					}
				}
			})
			c.Analyze(e, fn)
		}
	}
	c.Need("copy", sites, 30, "values handed out by the in-memory back-end")
}
