package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callbackOf: the frame runs a function literal handed to a call of the named
// method; returns that call's arguments position independent name.
func callbackOf(fr *Frame, name string) bool {
	if fr == nil || fr.site == nil {
		return false
	}
	ci, ok := fr.site.(ssa.CallInstruction)
	if !ok {
		return false
	}
	cc := ci.Common()
	if cc.IsInvoke() {
		return cc.Method.Name() == name
	}
	if f := cc.StaticCallee(); f != nil {
		return f != fr.fn && f.Name() == name
	}
	return false
}

func isParamOf(t *Term, typ string) bool {
	return t != nil && t.Op == "param" && typeName(t.Typ) == typ
}

func entityOpaque(f *ssa.Function) bool {
	n := fnName(f)
	return n != "domain.NewTrade" && !strings.HasPrefix(n, "domain.Trade.") && !strings.HasPrefix(n, "domain.Vault.") && !strings.HasPrefix(n, "domain.Market.")
}

func init() {
	rules["C07"] = func(c *Check) {
		c.Note("The completion, abortion and expiry of trades are followed from the RPC-facing methods of the trade service and from the blockchain listener, with helpers, goroutines and update callbacks inlined. Values are traced from the repository lookups to the broadcast, the reply, the persisted trade and the (un)locked inputs.")
		c.Assume("the trade entity validates its transitions (see the life-cycle property); the repositories run update callbacks and transactions as documented")
		nt := c.service("TradeService", app)
		if nt == nil {
			return
		}
		c.completeRules(nt)
		c.acceptedRules(nt)
		c.listenerRules()
	}
}

func (c *Check) completeRules(nt *types.Named) {
	fn := c.P.Method(nt, "TradeComplete")
	if fn == nil {
		c.Ob("anchor", "TradeComplete", false, "-", "TradeComplete is gone")
		return
	}
	var e *Engine
	found := func(t *Term) bool {
		return t != nil && t.Op == "extract" && t.Aux == "0" && lastIs(t.CallName(), "GetTradeBySwapAcceptID")
	}
	res := func(t *Term, f string) bool {
		return t != nil && t.Op == "field" && t.Aux == "domain.CompleteResult."+f && t.Args[0].CallName() == "domain.Trade.Complete"
	}
	completed := func(st *State) bool {
		return st.HasMatch('N', func(t *Term) bool { return t.CallName() == "domain.Trade.Complete" }) &&
			st.HasMatch('T', func(t *Term) bool { return res(t, "OK") })
	}
	bc, ret, pers, unl, spent := 0, 0, 0, 0, 0
	e = c.Engine(func(st *State, ev *Event) {
		switch ev.Kind {
		case "call":
			n := ev.Last()
			switch {
			case n == "Complete" && ev.Name == "domain.Trade.Complete":
				a := ev.Args
				c.At(ev, "complete/which", "trade", found(a[0]) || a[0] != nil && a[0].Op == "cbparam", "the completed trade is not the one looked up by the accept id")
				c.At(ev, "complete/which", "tx", a[1].Any(func(t *Term) bool { return lastIs(t.CallName(), "GetTransaction") }), "the trade is not completed with the transaction of the swap-complete message")
			case n == "GetTradeBySwapAcceptID":
				c.At(ev, "complete/lookup", ev.Frame.fn.Name(), ev.Args[2].Any(func(t *Term) bool { return lastIs(t.CallName(), "GetAcceptId", "GetMessageId") }), "the trade is not looked up by the id carried by the message")
			case n == "BroadcastTransaction":
				bc++
				c.At(ev, "broadcast/completed", "tx", completed(st), "a transaction is broadcast although the trade was not completed")
				c.At(ev, "broadcast/tx", "tx", res(ev.Args[1], "TxHex"), "the broadcast transaction is not the one of the completed trade")
			case n == "UpdateTrade":
				pers++
				if ev.Async {
					c.At(ev, "persist/context", ev.Frame.Root().fn.Name(), !e.From(ev.Args[1], func(t *Term) bool { return isParamOf(t, "context.Context") }), "the trade is persisted in background with the context of the request, which is canceled once it has been served")
				}
				id := ev.Args[2]
				c.At(ev, "persist/which", "id", e.From(cell(st, id), func(t *Term) bool { return t.IsField("domain.Trade.ID") && found(t.Args[0]) }) || id.Contains(found), "another trade than the one of the message is updated")
				if st.Is("done") {
					st.Gen("!persist")
				}
			case n == "UnlockUnspents":
				unl++
				c.At(ev, "release/after-fail", "unlock", st.Is("failed"), "inputs of a trade are released although it was not persisted as failed")
				c.At(ev, "release/keys", "unlock", e.From(ev.Args[2], func(t *Term) bool { return t.IsField("domain.Trade.PsetBase64") && found(t.Args[0]) }), "the released inputs are not those of the aborted trade's transaction")
			case n == "SpendUnspents" || n == "AddUnspents":
				spent++
				want := "0"
				if n == "SpendUnspents" {
					want = "1"
				}
				c.At(ev, "utxos/"+n, "keys", e.From(ev.Args[2], func(t *Term) bool {
					return t.Op == "extract" && t.Aux == want && lastIs(t.CallName(), "ExtractUnspents") && t.Contains(func(x *Term) bool { return res(x, "TxHex") })
				}), "the utxo set is not updated with the unspents of the broadcast transaction")
			}
		case "after":
			switch {
			case ev.Last() == "BroadcastTransaction" && len(ev.Res) == 2:
				st.CondGen('N', ev.Res[1], "done")
			case ev.Name == "domain.Trade.Fail":
				st.Gen("failed")
			}
		case "return":
			fr := ev.Frame
			if fr.parent == nil && fr.fn == fn && len(ev.Res) == 3 {
				s := st.given(func(s *State) bool { return s.assume(ev.Res[2], 'N') && s.assume(ev.Res[0], 'X') })
				if s != nil {
					ret++
					c.At(ev, "success/broadcast", "reply", s.Is("done"), "a completion is acknowledged although the transaction was not broadcast")
					c.At(ev, "success/persist", "reply", s.Is("!persist") || s.Is("go!persist"), "a broadcast trade is not persisted as completed")
					c.At(ev, "success/txid", "reply", ev.Res[0].All(func(t *Term) bool {
						return res(t, "TxID") || t.Op == "const" || t.CallName() != "" && lastIs(t.CallName(), "BroadcastTransaction")
					}), "the replied transaction id is not that of the completed trade")
				}
			}
			if callbackOf(fr, "UpdateTrade") && len(ev.Res) == 2 {
				s := st.given(func(s *State) bool { return s.assume(ev.Res[1], 'N') })
				if s == nil {
					return
				}
				t := ev.Res[0]
				if s.Is("done") {
					c.At(ev, "persist/value", "completed", t.All(found) || t.Op == "cbparam" && s.HasMatch('N', func(x *Term) bool {
						return x.CallName() == "domain.Trade.Complete" && x.Contains(func(y *Term) bool { return y == t })
					}), "the persisted trade is not the completed one")
				} else {
					c.At(ev, "persist/value", "failed", s.Is("failed"), "an aborted trade is not persisted as failed")
				}
			}
		}
	})
	e.inline = entityOpaque
	c.Analyze(e, fn)
	c.Need("broadcast", bc, 1, "broadcasts of completed trades")
	c.Need("success", ret, 1, "returns acknowledging a completion")
	c.Need("persist", pers, 2, "updates of completed or aborted trades")
	c.Need("release", unl, 1, "releases of inputs of aborted trades")
	c.Need("utxos", spent, 2, "updates of the utxo set")
}

// acceptedRules: what must be under way once a proposal is accepted.
func (c *Check) acceptedRules(nt *types.Named) {
	fn := c.P.Method(nt, "TradePropose")
	if fn == nil {
		c.Ob("anchor", "TradePropose", false, "-", "TradePropose is gone")
		return
	}
	var e *Engine
	accepts, rel, exp, vlt := 0, 0, 0, 0
	isPersist := func(n string) bool { return lastIs(n, "RunTransaction", "UpdateTrade") }
	dur := typeName(nt) + ".expiryDuration"
	isTrade := func(t *Term) bool { return t != nil && t.CallName() == "domain.NewTrade" }
	e = c.Engine(func(st *State, ev *Event) {
		switch ev.Kind {
		case "call":
			switch ev.Last() {
			case "Sleep", "AfterFunc", "After", "NewTimer":
				if strings.HasPrefix(ev.Name, "time.") {
					if durAtLeast(ev.Args[0], dur) {
						st.Gen("waited")
					}
				}
			case "GetTradeByTxID":
				if st.Is("waited") {
					st.Gen("!expiry-check")
				}
			case "Accept":
				if ev.Name == "domain.Trade.Accept" {
					x := ev.Args[len(ev.Args)-1]
					c.At(ev, "expiry/duration", "accept", x.Contains(func(t *Term) bool { return t.IsField(dur) }) && x.Contains(func(t *Term) bool { return lastIs(t.CallName(), "Seconds") }), "the trade does not expire after the configured duration in seconds")
				}
			case "UnlockUnspents":
				rel++
				c.At(ev, "release/expired", "unlock", st.Is("waited") && st.HasMatch('T', func(t *Term) bool {
					return t.CallName() == "domain.Trade.IsExpired" && lastIs(t.Args[0].CallName(), "GetTradeByTxID")
				}) || !st.Is("waited") && st.HasMatch('X', func(t *Term) bool { return t.Op == "extract" && isPersist(t.CallName()) }), "inputs of an accepted trade are released although it is not expired")
				c.At(ev, "release/keys-expired", "unlock", e.From(ev.Args[2], func(t *Term) bool { return t.Op == "field" && lastIs(t.Aux, "SelectedUnspents") }), "the inputs released at expiry are not those locked for the trade")
			case "UpdateTrade":
				if st.Is("waited") {
					st.Gen("!expire")
				} else {
					st.Gen("!persist")
				}
			case "UpdateVault":
				st.Gen("!persist-vault")
			case "StartObserveTx":
				st.Gen("!observe")
				c.At(ev, "accepted/observe", "tx", ev.Args[1].Any(func(t *Term) bool { return t.IsField("domain.Trade.TxID") }), "another transaction than the trade's is observed")
			}
		case "after":
			if ev.Name == "domain.Trade.Expire" && len(ev.Res) == 2 {
				exp++
				st.CondGen('N', ev.Res[1], "expired")
			}
			if isPersist(ev.Name) && len(ev.Res) > 0 {
				err := ev.Res[len(ev.Res)-1]
				if s := st.given(func(s *State) bool { return s.assume(err, 'N') }); s != nil && s.Is("!persist") {
					st.CondGen('N', err, "saved")
				}
			}
		case "return":
			fr := ev.Frame
			if fr.parent == nil && fr.fn == fn && len(ev.Res) == 4 {
				s := st.given(func(s *State) bool { return s.assume(ev.Res[3], 'N') && s.assume(ev.Res[0], 'X') })
				if s == nil {
					return
				}
				accepts++
				c.At(ev, "accepted/expiry", "reply", s.Is("go!expiry-check") || s.Is("in-callback:time.AfterFunc"), "an accepted trade is not scheduled for expiry, its inputs may stay locked forever")
				c.At(ev, "accepted/persist", "reply", s.Is("saved"), "a proposal is accepted although the trade was not persisted")
				if s.Is("go!persist-vault") || s.Is("!persist-vault") {
					vlt++
				}
				c.At(ev, "accepted/observe", "reply", s.Is("go!observe") || s.Is("!observe"), "the transaction of an accepted trade is not observed")
			}
			if fr.parent != nil && st.Is("!persist") && len(ev.Res) == 2 && callbackOf(fr, "RunTransaction") {
				// the transaction persisting the trade
				for _, t := range st.env {
					if t == nil || typeName(t.Typ) != "domain.SwapAccept" {
						continue
					}
					s := st.given(func(s *State) bool { return s.assume(ev.Res[1], 'N') && s.assume(t, 'X') })
					if s != nil {
						vlt++
						c.At(ev, "accepted/persist-vault", "transaction", s.Is("!persist-vault"), "the vault is not persisted with the addresses derived for an accepted trade")
					}
				}
			}
			if callbackOf(fr, "UpdateTrade") && len(ev.Res) == 2 {
				s := st.given(func(s *State) bool { return s.assume(ev.Res[1], 'N') })
				if s == nil {
					return
				}
				if s.Is("waited") {
					c.At(ev, "expire/value", "trade", s.Is("expired"), "a trade past its expiry is not brought to the expired status")
				} else {
					c.At(ev, "accepted/value", "trade", ev.Res[0].All(isTrade), "the persisted trade is not the processed one")
				}
			}
		}
	})
	e.inline = entityOpaque
	c.Analyze(e, fn)
	c.Need("accepted", accepts, 1, "returns accepting a proposal")
	c.Need("accepted/persist-vault", vlt, 1, "updates of the vault for accepted trades")
	c.Need("release-expired", rel, 1, "releases of inputs of expired trades")
	c.Need("expire", exp, 1, "expirations of trades")
}

// durAtLeast: t >= the duration field (sums with non-negative constants).
func durAtLeast(t *Term, field string) bool {
	if t.IsField(field) {
		return true
	}
	if t.Op == "bin" && t.Aux == "+" {
		for i := 0; i < 2; i++ {
			if v, ok := t.Args[1-i].IntConst(); ok && v >= 0 && durAtLeast(t.Args[i], field) {
				return true
			}
		}
	}
	return false
}

func (c *Check) listenerRules() {
	nt := c.service("BlockchainListener", app)
	if nt == nil {
		return
	}
	fn := c.P.Method(nt, "StartObservation")
	if fn == nil {
		c.Ob("anchor", "StartObservation", false, "-", "the blockchain listener is gone")
		return
	}
	var e *Engine
	settle, stop, conf := 0, 0, 0
	isEv := func(t *Term, f string) bool {
		return t != nil && t.Contains(func(x *Term) bool { return x.Op == "field" && x.Aux == "crawler.TransactionEvent."+f })
	}
	e = c.Engine(func(st *State, ev *Event) {
		switch ev.Kind {
		case "call":
			switch ev.Last() {
			case "GetTradeByTxID":
				c.At(ev, "settle/lookup", "trade", isEv(ev.Args[2], "TxID"), "the settled trade is not looked up by the confirmed transaction")
			case "Settle":
				if ev.Name != "domain.Trade.Settle" {
					return
				}
				settle++
				c.At(ev, "settle/confirmed", "event", st.Is("confirmed-event"), "a trade is settled for an event other than the confirmation of its transaction")
				c.At(ev, "settle/time", "event", isEv(ev.Args[1], "BlockTime"), "the trade is not settled with the block time of the confirmation")
			case "RemoveObservable":
				stop++
				c.At(ev, "settle/stop", "observe", st.Is("settled") && st.Is("utxos"), "a transaction is no longer observed although its trade was not settled or the utxo set not updated")
			case "ConfirmUnspents":
				conf++
			case "AddUnspents", "SpendUnspents":
				want := "0"
				if ev.Last() == "SpendUnspents" {
					want = "1"
				}
				c.At(ev, "utxos/"+ev.Last(), "keys", e.From(ev.Args[2], func(t *Term) bool {
					return t.Op == "extract" && t.Aux == want && lastIs(t.CallName(), "ExtractUnspents") && isEv(t, "TxHex")
				}), "the utxo set is not updated with the unspents of the confirmed transaction")
				st.Gen("!" + ev.Last())
			}
		case "after":
			switch ev.Last() {
			case "Settle":
				if ev.Name == "domain.Trade.Settle" {
					st.CondGen('N', ev.Res[1], "settled")
				}
			case "ConfirmUnspents":
				st.CondGen('N', ev.Res[1], "utxos")
			}
		case "go":
		case "return":
			fr := ev.Frame
			if callbackOf(fr, "UpdateTrade") && len(ev.Res) == 2 {
				s := st.given(func(s *State) bool { return s.assume(ev.Res[1], 'N') })
				if s != nil {
					c.At(ev, "settle/value", "trade", s.Is("settled") && ev.Res[0].Op == "cbparam", "a trade is updated on confirmation without being settled")
				}
			}
		}
		if st.Is("go!AddUnspents") && st.Is("go!SpendUnspents") || st.Is("!AddUnspents") && st.Is("!SpendUnspents") {
			st.Gen("utxos")
		}
	})
	e.inline = entityOpaque
	e.onAssume = func(st *State, k byte, t *Term) {
		if k == 'T' && t.Op == "eq" {
			for i := 0; i < 2; i++ {
				if v, ok := t.Args[i].IntConst(); ok && lastIs(t.Args[1-i].CallName(), "Type") {
					cv := c.P.constVal("pkg/crawler", "TransactionConfirmed")
					if cv != nil && cv.ExactString() == itoa(int(v)) {
						st.Gen("confirmed-event")
					}
				}
			}
		}
		if k == 'T' && dbg {
			println("assume", t.str(4))
		}
	}
	c.Analyze(e, fn)
	c.Need("settle", settle, 1, "settlements of trades")
	c.Need("settle-stop", stop, 1, "stops of observation after settlement")
	c.Need("settle-utxos", conf, 1, "confirmations of unspents")
}
