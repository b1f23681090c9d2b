package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C25: deposits are credited to the account they are made to.

func init() {
	rules["C25"] = func(c *Check) {
		c.depositAddresses("DepositFeeAccount", "", "n", "0")
		c.depositAddresses("DepositMarket", "new", "n", "GetLatestMarket(MarketRepository())#1+1")
		c.depositAddresses("DepositMarket", "known", "n", "GetMarketByAsset(MarketRepository();quote)#1")
		c.claims("ClaimMarketDeposit")
		c.claims("ClaimFeeDeposit")
	}
}

// depositAddresses: as many as asked for, derived for the account and stored.
func (c *Check) depositAddresses(m, cs, num string, accounts ...string) {
	fn := c.method(app, "operatorService", m)
	if fn == nil {
		c.Ob("address", m, false, "-", "not found")
		return
	}
	name := strings.TrimSuffix(m+"/"+cs, "/")
	a := c.teller(m, fn, func(g *ssa.Function) bool { return c.P.PkgRel(g) == app }, []string{"Address", "BlindingKey"})
	a.params = []string{"s", "ctx", "n"}
	if m == "DepositMarket" {
		a.params = []string{"s", "ctx", "base", "quote", "n"}
	}
	n := 0
	isAddress := func(t types.Type) bool { return t != nil && lastPart(typeName(t)) == "AddressAndBlindingKey" }
	one := func(st *State, ev *Event, v *Term) {
		addr, key := a.part(st, v, "Address"), a.part(st, v, "BlindingKey")
		src := strings.TrimSuffix(strings.Join(addr, "|"), ".Address")
		ok := strings.HasPrefix(src, "DeriveNextExternalAddressForAccount(given;") && len(addr) == 1
		c.At(ev, "address/external", name, ok, "the address is "+src)
		c.At(ev, "address/key", name, expectSet(key, "EncodeToString("+src+".BlindingKey)"), "the blinding key is "+strings.Join(key, "|"))
		c.At(ev, "address/once", name, !st.Is("!did:count"), "an address may be listed twice")
		a.done(st, false, "count")
	}
	a.on = func(st *State, ev *Event) {
		switch ev.Kind {
		case "idxstore":
			if ev.Val != nil && isAddress(ev.Val.Typ) && !isArray(ev.Base) {
				one(st, ev, ev.Val)
				c.At(ev, "address/each", name, counts2(ev.Args[1]), "addresses may overwrite each other")
			}
		case "append":
			for _, x := range ev.Args[1:] {
				for _, v := range a.e.Elems(st, x) {
					if isAddress(v.Typ) {
						one(st, ev, v)
					}
				}
			}
		case "call":
			l := ev.Last()
			if l == "GetOrCreateMarket" {
				got, fee := a.part(st, ev.Args[len(ev.Args)-1], "AccountIndex"), a.part(st, ev.Args[len(ev.Args)-1], "Fee")
				c.At(ev, "address/market", name, expectSet(got, accounts...) && expectSet(fee, "s.marketFee"), "the market is created for account "+strings.Join(got, "|")+" with fee "+strings.Join(fee, "|"))
			}
			if strings.HasPrefix(l, "DeriveNext") {
				got := a.part(st, ev.Args[1], "")
				c.At(ev, "address/account", name, expectSet(got, accounts...), "the address is derived for account "+strings.Join(got, "|"))
			}
		case "return":
			if ev.Frame.parent == nil {
				if _, good := outcomes(st, ev); good != nil {
					n++
					c.At(ev, "address/number", name, good.Is("all:count"), "more or fewer addresses than asked for")
					c.At(ev, "address/stored", name, good.Is("stored"), "addresses that are not stored may be returned")
				}
				return
			}
			if len(ev.Res) == 2 && ev.Res[0].Op == "cbparam" {
				st.Gen("given back")
			}
		case "after":
			if strings.HasSuffix(ev.Name, "VaultRepository.UpdateVault") {
				st.CondGen('N', ev.Res[0], "stored")
			}
		}
	}
	assumed := a.e.onAssume
	a.e.onAssume = func(st *State, k byte, t *Term) {
		assumed(st, k, t)
		if t.Op != "lt" {
			return
		}
		i, to := t.Args[0], t.Args[1]
		if from1(to) {
			i, to, k = nil, i, map[byte]byte{'T': 'F', 'F': 'T'}[k]
		}
		if i != nil && !counts2(i) {
			return
		}
		if to.Op == "len" && to.Args[0].Op == "make" && isAddress(elemOf(to.Args[0].Typ)) {
			to = to.Args[0].Args[0]
		}
		if within(a.part(st, to, ""), num, "1") {
			a.turn(st, k, "count")
		}
	}
	c.AnalyzeWith(a.e, fn, cs, func(st *State, args []*Term) {
		a.start(st)
		st.Gen("did:count")
		if cs != "" {
			k := map[string]byte{"new": 'T', "known": 'F'}[cs]
			for _, i := range []int{2, 3} {
				st.assume(a.e.tab.mk("empty", "", types.Typ[types.Bool], args[i]), k)
			}
		}
	})
	c.Need("address/"+name, n, 1, "results")
}

func elemOf(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

// counts2: a counter from zero.
func counts2(t *Term) bool {
	if t.Op == "bin" && t.Aux == "+" && t.Args[0].Op == "phi" {
		return true
	}
	if t.Op == "bin" && t.Aux == "-" && isOne(t.Args[1]) && from1(t.Args[0]) {
		return true
	}
	if t.Op != "phi" {
		return false
	}
	for _, x := range t.Alts {
		if n, ok := x.IntConst(); ok && n != 0 {
			return false
		}
	}
	return true
}

// from1: a counter from one.
func from1(t *Term) bool {
	return t.Op == "phi" && t.Any(isOne) && t.Any(func(x *Term) bool { return x.Op == "bin" && x.Aux == "+" && isOne(x.Args[1]) })
}

const (
	claimedOut  = "Outputs(GetTransaction(outpoints[].Hash))[outpoints[].Index]"
	claimedInfo = "map[EncodeToString(" + claimedOut + ".Script)]"
	revealed    = "UnblindOutput(BlinderManager;" + claimedOut + ";" + claimedInfo + ".BlindingKey)"
)

var claimedCoin = map[string]string{
	"TxID": "outpoints[].Hash", "VOut": "outpoints[].Index", "Value": revealed + ".Value", "AssetHash": revealed + ".AssetHash",
	"ValueBlinder": revealed + ".ValueBlinder", "AssetBlinder": revealed + ".AssetBlinder",
	"ValueCommitment": "CommitmentFromBytes(" + claimedOut + ".Value)", "AssetCommitment": "CommitmentFromBytes(" + claimedOut + ".Asset)",
	"ScriptPubKey": claimedOut + ".Script", "Nonce": claimedOut + ".Nonce", "Address": claimedInfo + ".Address",
	"Confirmed": "true", "Spent": "false", "Locked": "false",
}

func (c *Check) claims(m string) {
	fn := c.method(app, "operatorService", m)
	if fn == nil {
		c.Ob("claim", m, false, "-", "not found")
		return
	}
	market := m == "ClaimMarketDeposit"
	sufs := []string{"AccountIndex", "Txid", "Vout", "Asset"}
	for f := range claimedCoin {
		sufs = append(sufs, f)
	}
	a := c.teller(m, fn, func(g *ssa.Function) bool { return c.P.PkgRel(g) == app }, sufs)
	const mk = "GetAllMarkets(MarketRepository())"
	a.params = []string{"s", "ctx", "outpoints"}
	a.lists = []string{"outpoints"}
	if market {
		a.params = []string{"s", "ctx", "market", "outpoints"}
		a.lists = append(a.lists, mk)
	}
	// maps are checked as they are filled, entries are at what may be any
	// number
	words := a.root
	a.root = func(st *State, t *Term) (string, bool) {
		if t.Op == "make" && isMap(t.Typ) {
			return "map", true
		}
		if t.Op == "index" && !eachOf(t) {
			if _, k := t.Args[1].IntConst(); !k {
				return bare(a.join(st, t.Args[0])) + "[" + a.join(st, t.Args[1]) + "]", true
			}
		}
		return words(st, t)
	}
	n := 0
	named := func(t types.Type, n string) bool { return t != nil && lastPart(typeName(t)) == n }
	at := func(st *State, ev *Event, rule string, ok bool, msg string) { c.At(ev, "claim/"+rule, m, ok, msg) }
	coin := func(st *State, ev *Event, v *Term) {
		for _, f := range sortedKeys(claimedCoin) {
			got := a.part(st, v, f)
			c.At(ev, "claim/coin", m+"/"+f, expectSet(got, claimedCoin[f]), f+" is "+strings.Join(got, "|"))
		}
		at(st, ev, "confirmed", st.HasMatch('T', func(t *Term) bool {
			return a.join(st, t) == "IsTransactionConfirmed(outpoints[].Hash)"
		}), "the transaction may be unconfirmed")
		at(st, ev, "known", st.HasMatch('T', func(t *Term) bool {
			return t.Op == "has" && a.join(st, t.Args[0])+"["+a.join(st, t.Args[1])+"]" == claimedInfo
		}), "the output may not be for the account")
		at(st, ev, "revealed", st.HasMatch('T', func(t *Term) bool { return a.join(st, t) == revealed+"#1" }), "the output may have not been unblinded")
		st.Gen("coin")
		match(st, "counted")
	}
	a.on = func(st *State, ev *Event) {
		switch ev.Kind {
		case "index":
			if strings.HasPrefix(a.join(st, ev.Args[0]), "Outputs(") {
				i := ev.Args[1]
				ok := st.HasMatch('T', func(t *Term) bool {
					return t.Op == "lt" && unconv(t.Args[0]) == unconv(i) && t.Args[1].Op == "len" && a.join(st, t.Args[1].Args[0]) == a.join(st, ev.Args[0])
				})
				at(st, ev, "bound", ok, "the transaction may not have such output")
			}
		case "idxstore", "append":
			vs := []*Term{ev.Val}
			if ev.Kind == "append" {
				vs = nil
				for _, x := range ev.Args[1:] {
					vs = append(vs, a.e.Elems(st, x)...)
				}
			} else if isArray(ev.Base) {
				return
			}
			for _, v := range vs {
				switch {
				case v == nil:
				case named(v.Typ, "Unspent"):
					coin(st, ev, v)
					if ev.Kind == "idxstore" {
						i := ev.Args[1]
						at(st, ev, "position", a.field(st, v, "TxID").Contains(func(x *Term) bool { return x.Op == "index" && x.Args[1] == i }), "coins may overwrite each other")
					}
				case named(v.Typ, "Market"):
					at(st, ev, "funded", st.HasMatch('F', func(t *Term) bool { return a.join(st, t) == "IsFunded("+a.join(st, v)+")" }), "markets funded already may be considered")
				case named(v.Typ, "OutpointWithAsset"):
					for f, from := range map[string]string{"Txid": "TxID", "Vout": "VOut", "Asset": "AssetHash"} {
						p := a.field(st, v, f)
						ok := false
						if p != nil {
							p = unconv(p)
							ok = p.Op == "field" && lastPart(p.Aux) == from && p.Args[0].Op == "index" && eachOf(p.Args[0])
						}
						c.At(ev, "claim/fund", m+"/"+f, ok, "the market is funded with something else")
					}
					st.Gen("did:fund")
				}
			}
		case "mapupdate":
			mt := ev.Args[0].Typ.Underlying().(*types.Map)
			k, v := ev.Args[1], ev.Val
			kw, vw := a.join(st, k), a.join(st, v)
			switch {
			case named(mt.Elem(), "AddressInfo"):
				ok := kw == vw+".Script" || sameEntry(k, v)
				at(st, ev, "script", ok, "addresses are found by "+kw)
			case named(mt.Elem(), "AddressesInfo"):
				call := v
				if call.Op == "extract" {
					call = call.Args[0]
				}
				l := lastPart(call.CallName())
				ok := l == "GetAllDerivedExternalAddressesInfoForAccount" || l == "AllDerivedExternalAddressesInfoForAccount"
				ok = ok && call.CallArgs()[len(call.CallArgs())-1] == k
				if market {
					known := kw == "GetMarketByAsset(MarketRepository();market.QuoteAsset)#1"
					ok = ok && (known || k.Op == "field" && lastPart(k.Aux) == "AccountIndex" && named(k.Args[0].Typ, "Market"))
				} else {
					ok = ok && kw == "0"
				}
				at(st, ev, "account", ok, "deposits of account "+kw+" are looked for")
			case isInt(mt.Elem()):
				old := v.Op == "bin" && v.Aux == "+" && isOne(v.Args[1]) && old(v.Args[0], ev.Args)
				at(st, ev, "counted", kw == claimedInfo+".AccountIndex" && old && st.Is("uncounted"), "the deposit may not be counted once for its account")
				st.Kill("uncounted")
				st.Gen("counted")
				match(st, "coin")
			}
		case "call":
			switch l := ev.Last(); l {
			case "UpdateMarket", "AddUnspents":
				matched := st.HasMatch('T', func(t *Term) bool {
					if t.Op != "eq" {
						return false
					}
					x, y := t.Args[0], t.Args[1]
					if y.Op != "len" {
						x, y = y, x
					}
					if y.Op != "len" || a.join(st, y.Args[0]) != "outpoints" || loopVal(x) == nil {
						return false
					}
					k := ev.Args[len(ev.Args)-2]
					return l != "UpdateMarket" || sameEntry(k, x)
				})
				at(st, ev, "credit/"+l, matched && st.Is("all:coins"), "not all the outputs may be of the account credited")
				if l == "AddUnspents" {
					at(st, ev, "credit/first", !market || st.Is("funded"), "coins may be added although the market cannot be funded")
					st.Gen("!added")
				}
			case "FundMarket":
				at(st, ev, "fund/all", st.Is("all:fund"), "some of the outputs may not be considered")
				at(st, ev, "fund", a.join(st, ev.Args[len(ev.Args)-1]) == "s.marketBaseAsset", "the base asset is another one")
			}
		case "after":
			if ev.Last() == "UpdateMarket" {
				st.CondGen('N', ev.Res[0], "funded")
			}
		case "return":
			if ev.Frame.parent != nil {
				return
			}
			_, good := outcomes(st, ev)
			if good == nil {
				return
			}
			n++
			at(good, ev, "added", good.Is("!added") || good.Is("go!added"), "the coins may not be added")
			at(good, ev, "considered", good.Is("considered"), "some markets may not be considered")
		}
	}
	assumed := a.e.onAssume
	a.e.onAssume = func(st *State, k byte, t *Term) {
		assumed(st, k, t)
		if s := a.join(st, t); k == 'F' && s == "IsFunded("+mk+"[])" {
			st.Kill("did:" + mk)
		} else if k == 'T' && s == "IsFunded("+mk+"[])" {
			a.done(st, true, mk)
		}
		if k == 'T' && t.Op == "isnil" && a.join(st, t.Args[0]) == "GetMarketByAsset(MarketRepository();market.QuoteAsset)" {
			st.Kill("considered")
		}
		x := loopOver(t)
		if x == nil {
			return
		}
		if named(elemOf(x.Typ), "Unspent") {
			a.turn(st, k, "fund")
		}
		switch s := bare(a.join(st, x)); {
		case k == 'F' && named(elemOf(x.Typ), "Market") && s != mk && !st.Is("all:inner"):
			st.Kill("considered")
		case s == mk && k == 'F':
			if st.Is("all:" + mk) {
				st.Gen("considered")
			}
		case s == "outpoints" && k == 'T':
			for _, l := range []string{"coin", "counted", "all:coins"} {
				st.Kill(l)
			}
			st.Gen("uncounted")
		case s == "outpoints" && k == 'F':
			if st.Is("fine") {
				st.Gen("all:coins")
			}
		}
	}
	c.AnalyzeWith(a.e, fn, "", func(st *State, _ []*Term) {
		a.start(st)
		st.Gen("fine")
		st.Gen("did:fund")
		st.Gen("considered")
	})
	c.Need("claim/"+m, n, 1, "results")
}

// match: outputs are counted if and only if they are recorded.
func match(st *State, other string) {
	if st.Is(other) {
		st.Gen("fine")
	} else {
		st.Kill("fine")
	}
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// within: a value is one of those given.
func within(got []string, want ...string) bool {
	for _, g := range got {
		ok := false
		for _, w := range want {
			ok = ok || g == w
		}
		if !ok {
			return false
		}
	}
	return len(got) > 0
}

// sameEntry: the key and the value of an entry a loop is at.
func sameEntry(k, v *Term) bool {
	m := loopKey(k)
	if m == nil || loopVal(v) != m {
		return false
	}
	return k.Args[0] == v.Args[0]
}
