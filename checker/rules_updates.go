package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C17: no update of a stored record is lost.
func init() {
	rules["C17"] = func(c *Check) {
		c.Note("The update methods of both storage back-ends and every update function handed to them are enumerated; services, the blockchain listener and every other function with an update site are followed with helpers and callbacks inlined.")
		c.Assume("badger detects conflicting transactions; a trade created by NewTrade has an id nobody else uses; nothing but the initialisation writes before the wallet is initialised")
		c.updateStores()
		c.updateSites()
	}
}

var updateMethods = map[string]string{
	"UpdateMarket": "MarketRepository", "UpdateTrade": "TradeRepository", "UpdateVault": "VaultRepository",
}

// updateStores: the read-modify-write operations of the back-ends are atomic.
func (c *Check) updateStores() {
	n, cb := 0, 0
	for _, ri := range repoIfaces {
		for _, kind := range sortedKeys(c.repoImpls(ri)) {
			nt := c.repoImpls(ri)[kind]
			for _, fn := range c.P.exportedMethods(nt) {
				if fn.Signature.Params().Len() == 0 {
					continue
				}
				n++
				cb += c.updateStore(kind, nt, fn)
			}
		}
	}
	c.Need("store", n, 40, "methods of the storage back-ends")
	c.Need("store/callback", cb, 6, "update functions run by the storage back-ends")
}

func (c *Check) updateStore(kind string, nt *types.Named, fn *ssa.Function) int {
	calls := map[*ssa.CallCommon]bool{}
	name := kind + "." + strings.TrimPrefix(fnName(fn), kind+".")
	var rec, cbErr *Term
	var e *Engine
	inTx := func(st *State) bool { // the branch without transaction is not taken
		return !st.HasMatch('N', func(t *Term) bool {
			x, key, ok := ctxKey(t)
			if !ok {
				return false
			}
			root, val := ctxRoot(x, key)
			return root == nil && val != nil
		})
	}
	// written: the value stored is the one the update function returned
	written := func(st *State, ev *Event, v, key *Term) {
		if rec == nil {
			return
		}
		c.At(ev, "store/value", name, e.From(v, func(t *Term) bool { return t == rec }), "something else than the record returned by the update function is stored")
		if cbErr != nil {
			c.At(ev, "store/failed", name, st.Has('N', cbErr), "a record is stored although the update function failed")
		}
	}
	e = c.Engine(func(st *State, ev *Event) {
		lockHook(st, ev)
		if id, op := mutexOp(ev); ev.Kind == "call" && op != "" && id != "" {
			if op == "Unlock" || op == "RUnlock" {
				st.KillAll("first")
			}
			return
		}
		switch ev.Kind {
		case "call":
			op, tx, ok := isBh(ev.Name)
			if ok && bhOps[op] {
				k := 1
				if tx {
					k = 2
				}
				typ := bhType(st, op, ev.Args[k:])
				switch op {
				case "Get", "Find", "FindOne":
					if !tx && inTx(st) {
						st.Gen("read:" + typ)
					}
				case "Update":
					// an update always replaces a record read before
					c.At(ev, "store/atomic", name+"/"+ev.Last(), tx || !inTx(st), "a record read before is written back outside of a transaction: changes made meanwhile are lost")
				case "Upsert":
					c.At(ev, "store/atomic", name+"/"+ev.Last(), tx || !inTx(st) || !st.Is("read:"+typ), "a record read before is written back outside of a transaction: changes made meanwhile are lost")
				}
				if (op == "Update" || op == "Upsert") && len(ev.Args) == k+2 {
					written(st, ev, ev.Args[k+1], ev.Args[k])
				}
				return
			}
			if isParamFunc(st, ev) {
				// the update function
				if kind == "inmemory" {
					c.At(ev, "store/section", name, heldAny(st), "the update function runs without the lock of the store")
					c.At(ev, "store/section", name+"/same", st.Is("first"), "the record handed to the update function was read in another critical section")
				}
			}
		case "after":
			if op, _, ok := isBh(ev.Name); ok && (op == "Update" || op == "Upsert") && len(ev.Res) == 1 {
				st.CondGen('N', ev.Res[0], "written")
			}
			if isParamFunc(st, ev) && len(ev.Res) == 2 {
				if ci, ok := ev.Instr.(ssa.CallInstruction); ok {
					calls[ci.Common()] = true
				}
				rec, cbErr = ev.Res[0], ev.Res[1]
				st.Gen("updated")
				st.KillAll("written")
			}
		case "mapupdate", "store":
			if kind != "inmemory" || ev.Val == nil || ev.Val.Typ == nil || !strings.HasPrefix(typeName(elemOrSelf(ev.Val.Typ)), "domain.") {
				return
			}
			if ev.Kind == "store" && !strings.HasPrefix(ev.Name, "inmemory.") {
				return
			}
			c.At(ev, "store/section", name+"/write", st.Is("first") && heldAny(st), "the updated record is stored in another critical section than it was read")
			if rec == nil || !st.Is("updated") {
				return
			}
			written(st, ev, ev.Val, nil)
			st.Gen("written")
		case "return":
			if ev.Frame.parent != nil || rec == nil || len(ev.Res) == 0 {
				return
			}
			r := ev.Res[len(ev.Res)-1]
			if !isErrorType(r.Typ) {
				return
			}
			if s := st.given(func(s *State) bool { return s.assume(r, 'N') }); s != nil {
				c.At(ev, "store/success", name, s.Is("written"), "success is reported although the updated record was not stored")
			}
		}
	})
	c.AnalyzeWith(e, fn, "", func(st *State, args []*Term) { st.Gen("first") })
	return len(calls)
}

// isParamFunc: the called function value is a parameter of the entry.
func isParamFunc(st *State, ev *Event) bool {
	if ev.Name != "dynamic" {
		return false
	}
	ci, ok := ev.Instr.(ssa.CallInstruction)
	if !ok || ci.Common().IsInvoke() {
		return false
	}
	t := st.e.val(ev.Frame, ci.Common().Value)
	return t != nil && t.Op == "param"
}

func heldAny(st *State) bool {
	return st.Each(func(k byte, t *Term) bool { return k == 'L' && strings.HasPrefix(t.Aux, "w:") })
}

// updateSites: update functions change the record they are given.
func (c *Check) updateSites() {
	sites := map[ssa.Instruction]*ssa.Function{}
	isUpdate := func(cm *ssa.CallCommon) bool {
		return cm.IsInvoke() && updateMethods[cm.Method.Name()] != "" && typeName(cm.Value.Type()) == "domain."+updateMethods[cm.Method.Name()]
	}
	for _, fn := range c.P.Funcs {
		if strings.HasPrefix(c.P.PkgRel(fn), "internal/infrastructure/storage") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && isUpdate(ci.Common()) {
					sites[in] = fn
				}
			}
		}
	}
	// only what leads to an update is followed, besides trivial helpers
	leads := map[*ssa.Function]bool{}
	for _, fn := range sites {
		leads[fn] = true
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range c.P.FuncsIn(app) {
			if leads[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if f, ok := (*op).(*ssa.Function); ok && leads[f] {
							leads[fn], changed = true, true
						}
					}
				}
			}
		}
	}
	inline := func(f *ssa.Function) bool {
		return entityOpaque(f) && (leads[f] || f.Parent() != nil && c.P.PkgRel(f) == app || c.P.PkgRel(f) == app && len(f.Blocks) <= 4)
	}
	visited := map[ssa.Instruction]bool{}
	returns := 0
	within := func(fr *Frame) string {
		for f := fr; f != nil; f = f.parent {
			for m := range updateMethods {
				if callbackOf(f, m) {
					return m
				}
			}
			for _, m := range []string{"RunTransaction", "RunUnspentsTransaction", "RunPricesTransaction"} {
				if callbackOf(f, m) {
					return m
				}
			}
		}
		return ""
	}
	analyze := func(fn *ssa.Function) {
		var e *Engine
		e = c.Engine(func(st *State, ev *Event) {
			switch ev.Kind {
			case "call":
				if ci, ok := ev.Instr.(ssa.CallInstruction); ok && isUpdate(ci.Common()) {
					visited[ev.Instr] = true
				}
				if m := within(ev.Frame); m != "" && lastIs(ev.Name, "BroadcastTransaction", "Publish", "AddObservable", "RemoveObservable") {
					c.At(ev, "repeat/effect", fnName(ev.Frame.fn)+"/"+ev.Last(), false, "an update that may be repeated has an effect outside of the storage")
				}
			case "send", "go":
				if within(ev.Frame) != "" {
					c.At(ev, "repeat/effect", fnName(ev.Frame.fn)+"/"+ev.Kind, false, "an update that may be repeated has an effect outside of the storage")
				}
			case "return":
				for _, m := range sortedKeys(updateMethods) {
					if !callbackOf(ev.Frame, m) || len(ev.Res) != 2 {
						continue
					}
					s := st.given(func(s *State) bool { return s.assume(ev.Res[1], 'N') })
					if s == nil {
						continue
					}
					returns++
					fresh := func(t *Term) bool { return t.CallName() == "domain.NewTrade" }
					early := s.HasMatch('F', func(t *Term) bool {
						return t.Op == "field" && strings.Contains(strings.ToLower(t.Aux), "initialized")
					})
					c.At(ev, "site/argument", fnName(ev.Frame.fn)+"/"+m, early || ev.Res[0].All(func(t *Term) bool {
						return t.Op == "cbparam" || fresh(t) || t.Op == "const"
					}), "the stored record is replaced by one read before instead of being changed: what was stored meanwhile is lost")
				}
			}
		})
		e.inline = inline
		c.Analyze(e, fn)
	}
	for _, si := range []string{"OperatorService", "TradeService", "WalletService", "BlockchainListener"} {
		nt := c.service(si, app)
		if nt == nil {
			continue
		}
		for _, fn := range c.P.exportedMethods(nt) {
			analyze(fn)
		}
	}
	for in, fn := range sites {
		if visited[in] {
			continue
		}
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		analyze(fn)
		c.Ob("site/visited", fnName(fn), visited[in], c.P.Pos(in.Pos()), "an update of a stored record could not be followed")
	}
	c.Need("site", len(sites), 12, "updates of stored records")
	c.Need("site/argument", returns, len(sites), "update functions")
}
