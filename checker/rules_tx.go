package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var repoIfaces = []string{"MarketRepository", "TradeRepository", "UnspentRepository", "VaultRepository"}

func init() {
	rules["C14"] = func(c *Check) {
		c.Note("Every access of the badger repositories to the database, the transaction runner, and every handler run in a transaction are enumerated.")
		c.Assume("badger's transactions are atomic and isolated; badgerhold's Tx operations use the transaction they are given")
		keys := c.txKeys()
		c.txAccesses(keys)
		c.txHandlers()
	}
}

func isBh(name string) (op string, tx bool, ok bool) {
	if !strings.HasPrefix(name, "badgerhold.Store.") {
		return "", false, false
	}
	op = strings.TrimPrefix(name, "badgerhold.Store.")
	if strings.HasPrefix(op, "Tx") {
		return op[2:], true, true
	}
	return op, false, true
}

var bhOps = map[string]bool{"Get": true, "Find": true, "Insert": true, "Update": true, "Upsert": true, "Delete": true,
	"Count": true, "FindOne": true, "FindAggregate": true, "UpdateMatching": true, "DeleteMatching": true, "ForEach": true}

// bhType: the record type an operation of badgerhold works on.
func bhType(st *State, op string, a []*Term) string {
	// a without store and transaction
	var t *Term
	switch op {
	case "Get", "Insert", "Update", "Upsert", "Delete":
		if len(a) == 2 {
			t = a[1]
		}
	default:
		if len(a) > 0 {
			t = a[0]
		}
	}
	if t == nil || t.Typ == nil {
		return ""
	}
	typ := t.Typ
	for i := 0; i < 4; i++ {
		if _, ok := types.Unalias(typ).(*types.Named); ok {
			break
		}
		switch u := typ.Underlying().(type) {
		case *types.Pointer:
			typ = u.Elem()
		case *types.Slice:
			typ = u.Elem()
		default:
			i = 4
		}
	}
	return typeName(typ)
}

// ctxKey: the term is the value stored in a context under a constant key.
func ctxKey(t *Term) (ctx *Term, key string, ok bool) {
	if t == nil || !lastIs(t.CallName(), "Context.Value") {
		return nil, "", false
	}
	a := t.CallArgs()
	if len(a) != 2 {
		return nil, "", false
	}
	k, isC := a[1].StrConst()
	return a[0], k, isC
}

// ctxRoot follows a context built with context.WithValue to where the value of
// the key comes from: the context it was derived from, or the value itself.
func ctxRoot(x *Term, key string) (root, val *Term) {
	for x != nil && lastIs(x.CallName(), "context.WithValue") {
		a := x.CallArgs()
		if len(a) != 3 {
			return nil, nil
		}
		k, ok := a[1].StrConst()
		if !ok {
			return nil, nil
		}
		if k == key {
			return nil, a[2]
		}
		x = a[0]
	}
	return x, nil
}

func isErrConflict(t *Term) bool {
	return t.Op == "eq" && t.Contains(func(x *Term) bool { return strings.HasSuffix(x.Aux, "ErrConflict") })
}

// txKeys: analyses the transaction runner; result: manager field of the
// database -> key of its transactions in the context.
func (c *Check) txKeys() map[string]string {
	keys := map[string]string{}
	it := c.P.Iface("internal/core/ports", "RepoManager")
	if it == nil {
		c.Ob("anchor", "ports.RepoManager", false, "-", "the interface is gone")
		return keys
	}
	n := 0
	for _, nt := range c.P.Impls(it, "internal/infrastructure/storage/...") {
		if !strings.HasSuffix(nt.Obj().Pkg().Path(), "badger") {
			continue
		}
		for _, m := range []string{"RunTransaction", "RunUnspentsTransaction", "RunPricesTransaction"} {
			fn := c.P.Method(nt, m)
			if fn == nil {
				c.Ob("anchor", "badger."+m, false, "-", "the method is gone")
				continue
			}
			var handler, ro *Term
			ran, commits := 0, 0
			isTx := func(t *Term) bool { return t != nil && lastIs(t.CallName(), "badger.DB.NewTransaction") }
			e := c.Engine(func(st *State, ev *Event) {
				isRun := ev.Name == "dynamic" || ev.Name == ""
				switch ev.Kind {
				case "call":
					switch {
					case lastIs(ev.Name, "badger.DB.NewTransaction"):
						c.At(ev, "run/disposed", m+"/again", st.Is("closed"), "a transaction is opened while the previous one is neither committed nor discarded")
						ok, has := constBool(ev.Args[1])
						c.At(ev, "run/update", m, ok && has, "the transaction is opened read-only")
					case ev.Name == "context.WithValue" && isTx(ev.Args[2]):
						k, isC := ev.Args[1].StrConst()
						f := ""
						ev.Args[2].Contains(func(t *Term) bool {
							if t.Op == "field" && strings.HasPrefix(t.Aux, "badger.") && t.Args[0].Op == "param" {
								f = t.Aux
							}
							return false
						})
						if isC && f != "" {
							keys[f] = k
						}
					case lastIs(ev.Name, "Txn.Commit", "Transaction.Commit"):
						commits++
						c.At(ev, "run/commit", m, st.Is("handled"), "the transaction is committed although its handler failed or did not run")
						b := ro != nil && st.Has('F', ro)
						c.At(ev, "run/read-only", m, b, "a read-only transaction is committed")
					case isRun && len(ev.Args) >= 1:
						// the handler
						ran++
						in := false
						for _, a := range ev.Args {
							if lastIs(a.CallName(), "context.WithValue") && isTx(a.CallArgs()[2]) {
								in = true
							}
						}
						c.At(ev, "run/context", m, in && st.Is("open"), "the handler does not run in a context carrying the open transaction")
					}
				case "after":
					switch {
					case lastIs(ev.Name, "badger.DB.NewTransaction"):
						st.Gen("open")
						st.KillAll("closed")
						st.KillAll("handled")
						st.KillAll("committed")
						st.Gen("settled")
					case lastIs(ev.Name, "Txn.Discard", "Transaction.Discard"):
						st.KillAll("open")
						st.Gen("closed")
						st.Gen("discarded")
					case lastIs(ev.Name, "Txn.Commit", "Transaction.Commit"):
						st.KillAll("open")
						st.Gen("closed")
						st.CondGen('N', ev.Res[0], "committed")
						st.KillAll("settled")
						st.CondGen('N', ev.Res[0], "settled")
					case isRun && len(ev.Res) == 2:
						st.CondGen('N', ev.Res[1], "handled")
					}
				case "return":
					if ev.Frame.parent != nil || len(ev.Res) != 2 {
						return
					}
					c.At(ev, "run/conflict", m, st.Is("settled"), "a conflict of the transaction is reported instead of retried")
					c.At(ev, "run/disposed", m+"/exit", st.Is("closed"), "the transaction is neither committed nor discarded on return")
					if s := st.given(func(s *State) bool { return s.assume(ev.Res[1], 'N') }); s != nil {
						c.At(ev, "run/success", m, s.Is("committed"), "success is reported although the transaction was not committed")
						c.At(ev, "run/handled", m, s.Is("handled"), "success is reported although the handler failed")
					}
				}
			})
			// nothing to commit in a read-only transaction
			e.onAssume = func(st *State, k byte, t *Term) {
				if k == 'T' && t == ro {
					st.Gen("committed")
				}
				if k == 'F' && isErrConflict(t) {
					st.Gen("settled")
				}
			}
			c.AnalyzeWith(e, fn, "", func(st *State, args []*Term) {
				st.Gen("closed")
				for _, a := range args {
					if _, ok := a.Typ.Underlying().(*types.Signature); ok {
						handler = a
					}
					if isBool(a.Typ) {
						ro = a
					}
				}
			})
			_ = handler
			if ran > 0 && commits > 0 {
				n++
			}
		}
	}
	c.Need("run", n, 3, "transaction runners")
	c.Need("run/key", len(keys), 3, "kinds of transactions")
	return keys
}

func settleOnConflict(st *State, k byte, t *Term) {
	if k == 'F' && isErrConflict(t) {
		st.Gen("settled")
	}
}

// txLifecycle: a repository method that opens a transaction on its own gets
// rid of it, succeeds only once it is committed, and retries on conflicts.
// It may have one transaction of each database at a time.
func (c *Check) txLifecycle(st *State, ev *Event, m string, keys []string, keyOf func(tx *Term) string) {
	db := ""
	if len(ev.Args) > 0 {
		db = keyOf(ev.Args[0])
	}
	all := func(label string) bool {
		for _, k := range keys {
			if !st.Is(label + ":" + k) {
				return false
			}
		}
		return st.Is(label + ":")
	}
	switch ev.Kind {
	case "call":
		if lastIs(ev.Name, "badger.DB.NewTransaction") {
			c.At(ev, "own/disposed", m+"/again", st.Is("closed:"+db), "a transaction is opened while the previous one is neither committed nor discarded")
			ok, has := constBool(ev.Args[1])
			c.At(ev, "own/update", m, ok && has, "the transaction is opened read-only")
		}
	case "after":
		switch {
		case lastIs(ev.Name, "badger.DB.NewTransaction"):
			st.KillAll("closed:" + db)
			for _, k := range keys {
				if st.Is("closed:" + k) { // work starts anew
					st.Gen("untouched:" + k)
				}
			}
			st.KillAll("untouched:" + db)
			st.Gen("settled")
		case lastIs(ev.Name, "Txn.Discard", "Transaction.Discard"):
			st.Gen("closed:" + db)
		case lastIs(ev.Name, "Txn.Commit", "Transaction.Commit"):
			st.Gen("closed:" + db)
			st.KillAll("settled")
			st.CondGen('N', ev.Res[0], "settled")
			st.CondGen('N', ev.Res[0], "untouched:"+db)
		}
	case "return":
		if ev.Frame.parent != nil || len(ev.Res) == 0 {
			return
		}
		c.At(ev, "own/disposed", m+"/exit", all("closed"), "the transaction is neither committed nor discarded on return")
		c.At(ev, "own/conflict", m, st.Is("settled"), "a conflict of the transaction is reported instead of retried")
		err := ev.Res[len(ev.Res)-1]
		if !types.Identical(err.Typ, types.Universe.Lookup("error").Type()) {
			return
		}
		if s := st.given(func(s *State) bool { return s.assume(err, 'N') }); s != nil {
			ok := true
			for _, k := range append([]string{""}, keys...) {
				ok = ok && s.Is("untouched:"+k)
			}
			c.At(ev, "own/success", m, ok, "success is reported although the transaction was not committed")
		}
	}
}

func (c *Check) txAccesses(keys map[string]string) {
	// repository field -> manager field holding the same database
	same := map[string]string{}
	mk := c.P.Func("internal/infrastructure/storage/db/badger", "NewRepoManager")
	if mk == nil {
		c.Ob("anchor", "badger.NewRepoManager", false, "-", "the constructor is gone")
		return
	}
	dbs := map[*Term]string{}
	fields := map[string]*Term{}
	e := c.Engine(func(st *State, ev *Event) {
		if ev.Kind == "store" && ev.Val != nil && ev.Val.Typ != nil && typeName(elemOrSelf(ev.Val.Typ)) == "badgerhold.Store" {
			fields[ev.Name] = ev.Val
			if _, ok := keys[ev.Name]; ok {
				dbs[ev.Val] = ev.Name
			}
		}
	})
	c.Analyze(e, mk)
	for f, v := range fields {
		if m, ok := dbs[v]; ok {
			same[f] = m
		}
	}
	c.Need("access/wiring", len(dbs), 3, "databases given to the transaction manager")
	keyOfField := func(f string) string { return keys[same[f]] }
	var dbKeys []string
	for _, f := range sortedKeys(keys) {
		dbKeys = append(dbKeys, keys[f])
	}
	// type of record -> key, from the accesses outside of transactions
	keyOfType := map[string]string{}
	// a transaction opened by the repository itself, of the right database
	ownTx := func(tx *Term, key string) bool {
		return tx != nil && lastIs(tx.CallName(), "badger.DB.NewTransaction") && tx.Contains(func(t *Term) bool {
			return t.Op == "field" && key != "" && keyOfField(t.Aux) == key
		})
	}
	n, ntx := 0, 0
	for _, dry := range []bool{true, false} {
		for _, ri := range repoIfaces {
			nt := c.repoImpls(ri)["badger"]
			if nt == nil {
				continue
			}
			for _, fn := range c.P.exportedMethods(nt) {
				var ctx *Term
				e := c.Engine(func(st *State, ev *Event) {
					c.txLifecycle(st, ev, fn.Name(), dbKeys, func(tx *Term) string {
						for _, k := range dbKeys {
							if tx.Contains(func(t *Term) bool { return t.Op == "field" && keyOfField(t.Aux) == k }) {
								return k
							}
						}
						return ""
					})
					if ev.Kind != "call" {
						return
					}
					op, tx, ok := isBh(ev.Name)
					if !ok || !bhOps[op] {
						return
					}
					k := 1
					if tx {
						k = 2
					}
					typ := bhType(st, op, ev.Args[k:])
					construct := fnName(ev.Frame.fn) + "/" + ev.Last()
					if !tx {
						f := ev.Args[0].Aux
						want := ""
						if ev.Args[0].Op == "field" {
							want = keyOfField(f)
						}
						if dry {
							if keyOfType[typ] == "" {
								keyOfType[typ] = want
							}
							return
						}
						n++
						c.At(ev, "access/store", construct, want != "" && want == keyOfType[typ], "records of type "+typ+" are not always kept in the same database")
						ok := ctx != nil && st.HasMatch('N', func(t *Term) bool {
							x, key, ok := ctxKey(t)
							if !ok || key != want {
								return false
							}
							root, _ := ctxRoot(x, key)
							return root == ctx
						})
						c.At(ev, "access/outside", construct, ok, "the database is accessed outside of the transaction of the context")
						return
					}
					if dry {
						return
					}
					ntx++
					x, key, ok := ctxKey(ev.Args[1])
					in := false
					if ok {
						root, tx := ctxRoot(x, key)
						in = root != nil && root == ctx || tx != nil && ownTx(tx, key)
					} else if ownTx(ev.Args[1], keyOfType[typ]) {
						ok, in, key = true, true, keyOfType[typ]
					}
					c.At(ev, "access/tx", construct, in, "the transaction is not the one of the context")
					c.At(ev, "access/key", construct, ok && key != "" && key == keyOfType[typ], "records of type "+typ+" are accessed with the transaction of another database")
				})
				e.onAssume = settleOnConflict
				c.dry = dry
				c.AnalyzeWith(e, fn, "", func(st *State, args []*Term) {
					st.Gen("settled")
					for _, k := range append([]string{""}, dbKeys...) {
						st.Gen("untouched:" + k)
						st.Gen("closed:" + k)
					}
					for _, a := range args {
						if typeName(a.Typ) == "context.Context" {
							ctx = a
						}
					}
				})
				c.dry = false
			}
		}
	}
	c.Need("access", n, 15, "accesses outside of transactions")
	c.Need("access/tx", ntx, 15, "accesses in transactions")
}

// txHandlers: functions run in a transaction use its context for all their
// accesses and fail when one of them fails.
func (c *Check) txHandlers() {
	n, ops := 0, 0
	var written []map[string]bool
	for _, fn := range c.P.Funcs {
		if strings.HasPrefix(c.P.PkgRel(fn), "internal/infrastructure/storage") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cm := call.Common()
				name := ""
				if cm.IsInvoke() {
					name = cm.Method.Name()
				} else if f := cm.StaticCallee(); f != nil {
					name = f.Name()
				}
				if name != "RunTransaction" && name != "RunUnspentsTransaction" && name != "RunPricesTransaction" || len(cm.Args) < 1 {
					continue
				}
				n++
				h := funcValue(cm.Args[len(cm.Args)-1])
				if h == nil {
					c.Ob("handler", fnName(fn), false, c.P.Pos(in.Pos()), "the function run in a transaction cannot be determined")
					continue
				}
				w := c.txHandler(fn, h, name)
				ops += len(w)
				written = append(written, w)
			}
		}
	}
	together := func(what string, ops ...string) {
		ok := false
		for _, w := range written {
			all := true
			for _, o := range ops {
				all = all && w["domain."+o]
			}
			ok = ok || all
		}
		c.Ob("handler/together", what, ok, "-", "no transaction covers "+what+": a crash in between leaves one without the other")
	}
	together("an accepted trade and the addresses derived for it", "TradeRepository.UpdateTrade", "VaultRepository.UpdateVault")
	together("a created market and its deposit addresses", "MarketRepository.GetOrCreateMarket", "VaultRepository.UpdateVault")
	together("restored vault, markets and unspents", "VaultRepository.UpdateVault", "MarketRepository.UpdateMarket", "UnspentRepository.AddUnspents")
	c.Need("handler", n, 3, "functions run in a transaction")
	c.Need("handler/ops", ops, 4, "repository operations in transactions")
}

func funcValue(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.Function:
		return x
	case *ssa.ChangeType:
		return funcValue(x.X)
	}
	return nil
}

func (c *Check) txHandler(fn, h *ssa.Function, name string) map[string]bool {
	ops := map[string]bool{}
	var ctx *Term
	isOp := func(ev *Event) bool {
		return strings.HasPrefix(ev.Name, "domain.") && strings.Contains(ev.Name, "Repository.") && strings.Count(ev.Name, ".") == 2
	}
	c.errPropagated("handler/errors", fnName(fn), h, isOp, func(st *State, ev *Event) {
		if ev.Kind != "call" || !isOp(ev) {
			return
		}
		ops[ev.Name] = true
		ok := false
		for _, a := range ev.Args {
			if a.Typ != nil && typeName(a.Typ) == "context.Context" {
				ok = ctx != nil && a.Contains(func(t *Term) bool { return t == ctx })
			}
		}
		c.At(ev, "handler/context", fnName(fn)+"/"+ev.Last(), ok && !ev.Async, "a repository is accessed outside of the transaction by the function run in it")
	}, func(st *State, args []*Term) {
		for _, a := range args {
			if typeName(a.Typ) == "context.Context" {
				ctx = a
			}
		}
	})
	return ops
}

// errPropagated: fn reports success only if every operation selected by isOp
// that it executed (helpers and callbacks included) succeeded.
func (c *Check) errPropagated(rule, construct string, fn *ssa.Function, isOp func(*Event) bool, also func(*State, *Event), init func(*State, []*Term)) {
	sites := map[string]*Event{}
	site := func(ev *Event) string { return itoa(ev.Frame.id) + "." + itoa(ev.Frame.instrIndex(ev.Instr)) }
	for _, dry := range []bool{true, false} {
		var e *Engine
		e = c.Engine(func(st *State, ev *Event) {
			if also != nil {
				also(st, ev)
			}
			switch ev.Kind {
			case "call":
				if isOp(ev) {
					sites[site(ev)] = ev
					st.Kill("clean", e.tab.mk("site", site(ev), nil))
				}
			case "after":
				if isOp(ev) && len(ev.Res) > 0 {
					r := ev.Res[len(ev.Res)-1]
					if isErrorType(r.Typ) {
						st.CondGen('N', r, "clean", e.tab.mk("site", site(ev), nil))
					} else {
						st.Gen("clean", e.tab.mk("site", site(ev), nil))
					}
				} else if isOp(ev) {
					st.Gen("clean", e.tab.mk("site", site(ev), nil))
				}
			case "return":
				if ev.Frame.parent != nil || len(ev.Res) == 0 {
					return
				}
				r := ev.Res[len(ev.Res)-1]
				if !isErrorType(r.Typ) {
					return
				}
				s := st.given(func(s *State) bool { return s.assume(r, 'N') })
				if s == nil {
					return
				}
				res := map[string]bool{}
				for k, o := range sites {
					if o.Async {
						continue
					}
					old, had := res[o.Name]
					res[o.Name] = (!had || old) && s.Is("clean", e.tab.mk("site", k, nil))
				}
				for _, o := range sortedKeys(res) {
					c.At(ev, rule, construct+"/"+o, res[o], "success is reported although "+o+" failed")
				}
			}
		})
		c.dry = dry
		c.AnalyzeWith(e, fn, "", func(st *State, args []*Term) {
			for k := range sites {
				st.Gen("clean", e.tab.mk("site", k, nil))
			}
			if init != nil {
				init(st, args)
			}
		})
		c.dry = false
	}
}
