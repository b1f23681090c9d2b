package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const domainPkg = "internal/core/domain"

// repoImpls: implementations of a domain repository, by storage package.
func (c *Check) repoImpls(iface string) map[string]*types.Named {
	it := c.P.Iface(domainPkg, iface)
	if it == nil {
		c.Ob("anchor", "interface:"+iface, false, "-", "the repository interface "+iface+" is gone")
		return nil
	}
	out := map[string]*types.Named{}
	for _, n := range c.P.Impls(it, "internal/infrastructure/storage/...") {
		pk := n.Obj().Pkg().Path()
		out[pk[strings.LastIndex(pk, "/")+1:]] = n
	}
	if len(out) < 2 {
		c.Ob("anchor", "impls:"+iface, false, "-", "fewer than two storage back-ends implement "+iface)
	}
	return out
}

// bhQuery: the field conditions of a badgerhold query term.
func bhQuery(t *Term) (conds map[string]*Term, ok bool) {
	conds = map[string]*Term{}
	ok = true
	field := func(q *Term) (string, *Term) {
		a := q.CallArgs()
		switch {
		case lastIs(q.CallName(), "badgerhold.Where") && len(a) == 1:
			s, _ := a[0].StrConst()
			return s, nil
		case lastIs(q.CallName(), "badgerhold.Query.And") && len(a) == 2:
			s, _ := a[1].StrConst()
			return s, a[0]
		}
		return "", nil
	}
	for t != nil {
		a := t.CallArgs()
		switch {
		case strings.Contains(t.CallName(), "badgerhold.Criterion.") && len(a) == 2:
			f, rest := field(a[0])
			if f == "" {
				return conds, false
			}
			conds[f+" "+t.CallName()[strings.LastIndex(t.CallName(), ".")+1:]] = a[1]
			t = rest
		case lastIs(t.CallName(), "Query.SortBy", "Query.Reverse", "Query.Index", "Query.Limit"):
			t = a[0]
		default:
			return conds, t.IsNil()
		}
	}
	return conds, true
}

type utxoFilter struct {
	spent, confirmed, locked, address, asset bool
}

func init() {
	rules["C08"] = func(c *Check) {
		c.Note("The proposal handler is analysed from the selection of unspents to their locking; both storage back-ends are analysed for what they offer as available and how they record locks, spends and confirmations.")
		c.Assume("withdrawals do not reserve their inputs: only trade proposals are covered; the explorer refuses double spends")
		if nt := c.service("TradeService", app); nt != nil {
			c.selectAndLock(nt)
		}
		c.unspentStores()
		c.spentWriters()
	}
}

func (c *Check) selectAndLock(nt *types.Named) {
	fn := c.P.Method(nt, "TradePropose")
	if fn == nil {
		c.Ob("anchor", "TradePropose", false, "-", "TradePropose is gone")
		return
	}
	tn := typeName(nt)
	sel, lck, fil := 0, 0, 0
	isSel := func(t *Term) bool { return t != nil && lastIs(t.CallName(), "GetAvailableUnspentsForAddresses") }
	var e *Engine
	e = c.Engine(func(st *State, ev *Event) {
		lockHook(st, ev)
		if id, op := mutexOp(evCall(ev)); op == "Unlock" && strings.HasPrefix(id, tn+".") {
			st.KillAll("exclusive")
		}
		switch ev.Kind {
		case "after":
			if ev.Last() == "GetAvailableUnspentsForAddresses" && !ev.Async {
				if heldOn(st, tn, true) && !st.Is("exclusive") && !st.Is("selected-unlocked") {
					st.Gen("exclusive")
				}
				if !heldOn(st, tn, true) {
					st.KillAll("exclusive")
					st.Gen("selected-unlocked")
				}
			}
			if ev.Last() == "LockUnspents" && len(ev.Res) == 2 {
				st.CondGen('N', ev.Res[1], "locked")
			}
		case "call":
			switch ev.Last() {
			case "GetAvailableUnspentsForAddresses":
				sel++
				c.At(ev, "select/exclusive", ev.Last(), heldOn(st, tn, true), "unspents for a swap are selected while another proposal may be selecting the same ones")
			case "GetUnspentsForAddresses", "GetAllUnspentsForAddresses", "GetAllUnspents":
				if !ev.Async && strings.HasPrefix(ev.Name, "domain.UnspentRepository.") {
					c.At(ev, "select/available", ev.Last(), false, "a proposal selects unspents that may be spent or locked")
				}
			case "FillProposal":
				fil++
				f := structFields(ev.Args[len(ev.Args)-1])
				c.At(ev, "select/filled", "fill", e.From(f["MarketUtxos"], isSel) && e.From(f["FeeUtxos"], isSel) && st.Is("exclusive"), "a swap is filled with unspents that were not exclusively selected among the available ones")
			case "LockUnspents":
				lck++
				c.At(ev, "lock/exclusive", "lock", heldOn(st, tn, true) && st.Is("exclusive"), "the inputs of a swap are locked after others could select them: the mutex was released since the selection")
				c.At(ev, "lock/keys", "lock", e.From(ev.Args[2], func(t *Term) bool {
					return t.Op == "field" && lastIs(t.Aux, "SelectedUnspents") && t.Contains(func(x *Term) bool { return lastIs(x.CallName(), "FillProposal") })
				}), "the locked outputs are not those selected for the filled swap")
				c.At(ev, "lock/all", "lock", st.HasMatch('F', func(t *Term) bool {
					return t.Op == "lt" && t.Args[1].Op == "len" && t.Args[1].Contains(func(x *Term) bool { return x.Op == "field" && lastIs(x.Aux, "SelectedUnspents") })
				}), "not all outputs selected for the swap are locked")
				id := cell(st, ev.Args[3])
				c.At(ev, "lock/trade", "lock", id.Contains(func(t *Term) bool { return t.CallName() == "domain.NewTrade" }), "the outputs are not locked by the trade being accepted")
			}
		case "return":
			if ev.Frame.parent == nil && ev.Frame.fn == fn && len(ev.Res) == 4 {
				s := st.given(func(s *State) bool { return s.assume(ev.Res[3], 'N') && s.assume(ev.Res[0], 'X') })
				if s != nil {
					c.At(ev, "lock/before-accept", "reply", s.Is("locked"), "a proposal is accepted although its inputs were not locked")
				}
			}
			if ev.Frame.parent == nil {
				c.At(ev, "lock/released", "mutex", !heldOn(st, tn, true), "the mutex serialising proposals is not released on return")
			}
		}
	})
	e.inline = entityOpaque
	c.Analyze(e, fn)
	c.Need("select", sel, 2, "selections of unspents")
	c.Need("select/filled", fil, 1, "fillings of a swap")
	c.Need("lock", lck, 1, "lockings of inputs")
}

// evCall: the event if it is a call, else an empty one (for mutexOp).
func evCall(ev *Event) *Event {
	if ev.Kind == "call" && len(ev.Args) > 0 {
		return ev
	}
	return &Event{Args: []*Term{{Op: "none"}}}
}

func (c *Check) unspentStores() {
	filters := map[string]utxoFilter{
		"GetAvailableUnspents":             {spent: true, confirmed: true, locked: true},
		"GetAvailableUnspentsForAddresses": {spent: true, confirmed: true, locked: true, address: true},
		"GetUnspentsForAddresses":          {spent: true, confirmed: true, address: true},
		"GetAllUnspentsForAddresses":       {address: true},
		"GetBalance":                       {spent: true, confirmed: true, address: true, asset: true},
		"GetUnlockedBalance":               {spent: true, confirmed: true, locked: true, address: true, asset: true},
	}
	for pkg, nt := range c.repoImpls("UnspentRepository") {
		for _, m := range sortedKeys(filters) {
			fn := c.P.Method(nt, m)
			if fn == nil {
				c.Ob("anchor", pkg+"."+m, false, "-", "the method is gone")
				continue
			}
			c.unspentFilter(pkg, m, fn, filters[m])
		}
		c.unspentLocks(pkg, nt)
	}
}

func (c *Check) unspentFilter(pkg, m string, fn *ssa.Function, f utxoFilter) {
	var addrs, asset *Term
	n := 0
	// what was asked of the database for each slice of rows
	queries := map[*Term][]map[string]*Term{}
	// sets of the given addresses: all keys are some, all values true
	sets, members := map[*Term]bool{}, map[*Term]bool{}
	var res map[string]bool // of one event: all elements must conform
	ob := func(_ *Event, what string, ok bool) {
		if old, has := res[what]; has {
			ok = ok && old
		}
		res[what] = ok
	}
	isUnspents := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && typeName(s.Elem()) == "domain.Unspent"
	}
	var e *Engine
	// elem: an unspent enters the result
	elem := func(st *State, ev *Event, x *Term) {
		n++
		fld := func(name string) func(*Term) bool {
			fv := fieldByName(e, st, x, name)
			return func(t *Term) bool {
				return t != nil && (t == fv || t.Op == "field" && t.Aux == "domain.Unspent."+name && t.Args[0] == x)
			}
		}
		// badger: the rows satisfy the query
		var qs []map[string]*Term
		for rows, list := range queries {
			if x.Contains(func(y *Term) bool { return y == rows }) {
				qs = append(qs, list...)
			}
		}
		fromQuery := len(qs) > 0
		asked := func(name string, ok func(*Term) bool) bool {
			for _, q := range qs {
				if q[name] == nil || !ok(q[name]) {
					return false
				}
			}
			return fromQuery
		}
		isBool := func(want bool) func(*Term) bool {
			return func(t *Term) bool { b, ok := constBool(t); return ok && b == want }
		}
		if f.spent {
			ob(ev, "unspent", st.HasMatch('F', fld("Spent")) || asked("Spent Eq", isBool(false)))
		}
		if f.confirmed {
			ob(ev, "confirmed", st.HasMatch('T', fld("Confirmed")) || asked("Confirmed Eq", isBool(true)))
		}
		if f.locked {
			ok := st.HasMatch('F', fld("Locked"))
			if fromQuery {
				ok = ok && st.Is("locks-read")
			}
			ob(ev, "unlocked", ok)
		}
		if f.address {
			ok := st.HasMatch('T', func(t *Term) bool {
				return t.Op == "eq" && (fld("Address")(t.Args[0]) && t.Args[1].Contains(func(y *Term) bool { return y == addrs }) ||
					fld("Address")(t.Args[1]) && t.Args[0].Contains(func(y *Term) bool { return y == addrs }))
			})
			// or of a set of them
			ok = ok || st.HasMatch('T', func(t *Term) bool {
				return (t.Op == "has" || t.Op == "lookup") && len(t.Args) >= 2 && fld("Address")(t.Args[1]) && sets[t.Args[0]] && (t.Op == "has" || members[t.Args[0]])
			})
			among := func(t *Term) bool { return e.madeOf(t, func(y *Term) bool { return y == addrs }) }
			ob(ev, "of the given addresses", ok || asked("Address In", among) || asked("Address Eq", among))
		}
		if f.asset {
			ok := st.HasMatch('T', func(t *Term) bool {
				return t.Op == "eq" && (fld("AssetHash")(t.Args[0]) && t.Args[1] == asset || fld("AssetHash")(t.Args[1]) && t.Args[0] == asset)
			})
			ob(ev, "of the given asset", ok || asked("AssetHash Eq", func(t *Term) bool { return t == asset }))
		}
	}
	e = c.Engine(func(st *State, ev *Event) {
		res = map[string]bool{}
		defer func() {
			for _, what := range sortedKeys(res) {
				c.At(ev, "store/"+m, pkg+"/"+what, res[what], m+" may include unspents that are not "+what)
			}
		}()
		switch ev.Kind {
		case "call":
			if lastIs(ev.Name, "Store.Find", "Store.TxFind") {
				// rows are decoded into the second last argument
				a := ev.Args
				conds, _ := bhQuery(a[len(a)-1])
				rows := a[len(a)-2]
				queries[rows] = append(queries[rows], conds)
			}
		case "after":
			if lastIs(ev.Name, "Store.Get", "Store.TxGet") && len(ev.Args) >= 3 {
				key := ev.Args[len(ev.Args)-2]
				if key.Contains(func(t *Term) bool { s, ok := t.StrConst(); return ok && strings.Contains(s, "Lock") }) {
					st.Gen("locks-read")
				}
			}
		case "append":
			a := ev.Args
			if len(a) == 2 && isUnspents(a[0].Typ) {
				els := e.Elems(st, a[1])
				for _, v := range els {
					elem(st, ev, v)
				}
				if els == nil {
					for _, r := range rowSources(a[1]) {
						elem(st, ev, e.tab.mk("index", "", nil, r, a[1]))
					}
				}
			}
		case "mapupdate":
			k := ev.Args[0]
			if k.Op != "make" {
				break
			}
			if _, known := sets[k]; !known {
				sets[k], members[k] = true, true
			}
			b, isConst := constBool(ev.Val)
			sets[k] = sets[k] && addrs != nil && ev.Args[1].Contains(func(y *Term) bool { return y == addrs })
			members[k] = members[k] && isConst && b
		case "idxstore":
			if ev.Base.Op == "make" && isUnspents(ev.Base.Typ) || ev.Base.Op == "slice" && ev.Base.Args[0].Op == "alloc" && isUnspents(ev.Base.Typ) {
				elem(st, ev, ev.Val)
			}
		case "arith":
			for _, x := range ev.Args {
				if x.IsField("domain.Unspent.Value") {
					y := x.Args[0]
					if y.Op == "index" {
						for _, r := range rowSources(y.Args[0]) {
							if r == y.Args[0] {
								elem(st, ev, y)
							} else {
								elem(st, ev, e.tab.mk("index", "", y.Typ, r, y.Args[1]))
							}
						}
						continue
					}
					elem(st, ev, y)
				}
			}
		case "return":
			if ev.Frame.parent != nil {
				return
			}
			// rows handed out as found
			r := ev.Res[0]
			if !isUnspents(r.Typ) {
				return
			}
			for rows := range queries {
				if r.Any(func(x *Term) bool { return x.Op == "load" && x.Args[0] == rows || x == rows }) {
					elem(st, ev, e.tab.mk("index", "", nil, r, rows))
				}
			}
		}
	})
	c.AnalyzeWith(e, fn, "", func(st *State, args []*Term) {
		for _, a := range args {
			if s, ok := a.Typ.Underlying().(*types.Slice); ok && types.Identical(s.Elem(), types.Typ[types.String]) {
				addrs = a
			} else if types.Identical(a.Typ, types.Typ[types.String]) {
				asset = a
			}
		}
	})
	c.Need("store/"+m+"/"+pkg, n, 1, "unspents entering the result")
}

// madeOf: every element of the slice comes from what f accepts.
func (e *Engine) madeOf(t *Term, f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(t *Term) bool {
		if seen[t] || t.IsNil() || f(t) {
			return true
		}
		seen[t] = true
		switch t.Op {
		case "phi":
			for _, a := range t.Alts {
				if !rec(a) {
					return false
				}
			}
			return true
		case "append":
			return rec(t.Args[0]) && rec(t.Args[1])
		case "slice":
			return rec(t.Args[0])
		case "alloc", "zero", "make", "makeslice":
			for v := range e.contents[t] {
				if !e.From(v, f) {
					return false
				}
			}
			return true
		}
		return false
	}
	return rec(t)
}

// rowSources: the slices a slice may be; what was appended one by one was
// examined when it was appended.
func rowSources(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(t *Term) {
		if seen[t] || t.IsNil() {
			return
		}
		seen[t] = true
		switch t.Op {
		case "phi":
			for _, a := range t.Alts {
				rec(a)
			}
		case "append":
			rec(t.Args[0])
		case "slice":
			rec(t.Args[0])
		case "zero", "make": // filled element by element
		default:
			if _, isArr := elemOrSelf(t.Typ).Underlying().(*types.Array); isArr && t.Op == "alloc" {
				return
			}
			out = append(out, t)
		}
	}
	rec(t)
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sortStrings(out)
	return out
}

// unspentLocks: how a back-end records locks, spends and confirmations.
func (c *Check) unspentLocks(pkg string, nt *types.Named) {
	for _, m := range []string{"LockUnspents", "UnlockUnspents", "SpendUnspents", "ConfirmUnspents", "AddUnspents"} {
		m := m
		fn := c.P.Method(nt, m)
		if fn == nil {
			c.Ob("anchor", pkg+"."+m, false, "-", "the method is gone")
			continue
		}
		n := 0
		var keys, trade *Term
		isU := func(t *Term, f string) bool { return t != nil && t.Op == "field" && t.Aux == "domain.Unspent."+f }
		var e *Engine
		// key of one of the given outputs
		given := func(t *Term) bool {
			return t != nil && e.From(t, func(x *Term) bool { return x == keys })
		}
		e = c.Engine(func(st *State, ev *Event) {
			ob := func(what string, ok bool, msg string) {
				n++
				c.At(ev, "store/"+m, pkg+"/"+what, ok, m+": "+msg)
			}
			val := func(v *Term, f string) *Term {
				v = cell(st, v)
				if v.Op == "alloc" {
					v = e.load(st, v, elemType(v.Typ))
				}
				return structFields(v)[f]
			}
			// w: an unspent record is written
			w := func(k, v *Term, insert bool) {
				if v == nil {
					return
				}
				vs := cell(st, v)
				if typeName(vs.Typ) != "domain.Unspent" && typeName(elemOrSelf(vs.Typ)) != "domain.Unspent" {
					return
				}
				tr := func(f string) bool { b, ok := constBool(val(v, f)); return ok && b }
				switch m {
				case "SpendUnspents":
					ob("spent", tr("Spent") && given(k), "the given unspents are not recorded as spent")
				case "ConfirmUnspents":
					ob("confirmed", tr("Confirmed") && given(k), "the given unspents are not recorded as confirmed")
				case "AddUnspents":
					if vs.Op == "extract" && vs.Args[0].Op == "next" || k != nil && same(vs, k, st) {
						return // written back unchanged
					}
					ok := insert || st.HasMatch('F', func(t *Term) bool { return t.Op == "has" })
					ob("keep-existing", ok, "an unspent already known (maybe spent or locked) can be overwritten")
				}
			}
			switch ev.Kind {
			case "call":
				if !strings.HasPrefix(ev.Name, "badgerhold.Store.") {
					return
				}
				op := strings.TrimPrefix(ev.Last(), "Tx")
				a := ev.Args
				if op != ev.Last() {
					a = append([]*Term{a[0]}, a[2:]...)
				}
				if len(a) < 3 {
					return
				}
				isLock := a[1].Contains(func(t *Term) bool { s, ok := t.StrConst(); return ok && strings.Contains(s, "Lock") })
				switch op {
				case "Get":
					if isLock {
						st.Gen("lock-id", a[1])
					}
				case "Insert", "Update", "Upsert":
					if !isLock && typeName(elemOrSelf(cell(st, a[2]).Typ)) == "domain.Unspent" {
						w(a[1], a[2], op == "Insert")
						return
					}
					if m == "LockUnspents" {
						ob("exclusive", op == "Insert" || st.HasMatch('F', func(t *Term) bool { return isU(t, "Locked") }), "a lock held by another trade can be overwritten")
						ob("key", isLock && given(a[1]), "the lock is not recorded for the given unspent")
						ob("trade", e.From(a[2], func(t *Term) bool { return t == trade }), "the lock is not recorded for the given trade")
						c.lockPrefix(ev, a[1], m)
					} else {
						ob("lock-writes", false, "a lock is written by an operation that does not lock")
					}
				case "Delete":
					if isLock {
						ob("unlock", m == "UnlockUnspents" && given(a[1]), "a lock is deleted other than for the given unspents")
						c.lockPrefix(ev, a[1], m)
					} else {
						ob("delete", false, "an unspent record is deleted")
					}
				}
			case "mapupdate":
				if len(ev.Args) == 3 && typeName(ev.Val.Typ) == "domain.Unspent" {
					w(ev.Args[1], ev.Val, false)
					if m == "LockUnspents" {
						ob("key", given(ev.Args[1]), "the lock is not recorded for the given unspent")
					}
					if m == "UnlockUnspents" {
						b, ok := constBool(val(ev.Val, "Locked"))
						ob("unlock", ok && !b && given(ev.Args[1]), "the given unspents are not recorded as unlocked")
					}
				}
			case "store":
				switch ev.Name {
				case "domain.Unspent.Locked":
					b, ok := constBool(ev.Val)
					if m == "LockUnspents" && pkg == "inmemory" || ok && b {
						ob("exclusive", ok && b && st.HasMatch('F', func(t *Term) bool { return isU(t, "Locked") }), "a lock held by another trade can be overwritten")
					} else if m == "LockUnspents" {
						ob("release", false, "locking releases a lock")
					}
				case "domain.Unspent.LockedBy":
					if m == "LockUnspents" && pkg == "inmemory" {
						ob("trade", cell(st, ev.Val).Contains(func(t *Term) bool { return t == trade }), "the lock is not recorded for the given trade")
					}
				}
			}
		})
		c.AnalyzeWith(e, fn, "", func(st *State, args []*Term) {
			for _, a := range args {
				if _, ok := a.Typ.Underlying().(*types.Slice); ok {
					keys = a
				} else if typeName(a.Typ) == "uuid.UUID" {
					trade = a
				}
			}
		})
		c.Need("store/"+m+"/"+pkg, n, 1, "records written")
	}
}

func same(v, k *Term, st *State) bool {
	return v.Op == "next" || v.Op == "extract" && v.Args[0].Op == "next"
}

func elemOrSelf(t types.Type) types.Type {
	if e := elemType(t); e != nil {
		return e
	}
	return t
}

// lockPrefix: all lock records are kept under the same key prefix.
func (c *Check) lockPrefix(ev *Event, k *Term, m string) {
	var pre []string
	k.Contains(func(t *Term) bool {
		if s, ok := t.StrConst(); ok {
			pre = append(pre, s)
		}
		return false
	})
	c.At(ev, "store/lock-prefix", m, len(pre) == 1, "the key of the lock record is not the prefixed key of the unspent")
	if len(pre) == 1 {
		if c.prefix == "" {
			c.prefix = pre[0]
		}
		c.At(ev, "store/lock-prefix", m+"/same", c.prefix == pre[0], "lock records are written and deleted under different keys")
	}
}

// spentWriters: a spent or confirmed output never becomes unspent again.
func (c *Check) spentWriters() {
	n := 0
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				s, name := structOf(fa.X.Type())
				if s == nil || name != "domain.Unspent" {
					continue
				}
				fl := s.Field(fa.Field).Name()
				if fl != "Spent" && fl != "Confirmed" {
					continue
				}
				n++
				if a, ok := fa.X.(*ssa.Alloc); ok && !copied(a) {
					continue // a record being built
				}
				k, isC := st.Val.(*ssa.Const)
				ok = isC && k.Value != nil && k.Value.String() == "true"
				c.Ob("monotone/"+fl, fnName(f), ok, c.P.Pos(st.Pos()), "an unspent can lose its "+strings.ToLower(fl)+" mark")
			}
		}
	}
	c.Need("monotone", n, 2, "writes of the spent and confirmed marks")
}

// copied: the local holds a copy of a whole record.
func copied(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == a {
			return true
		}
	}
	return false
}
