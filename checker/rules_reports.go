package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C13: what is reported to the operator is what is stored.

type report struct {
	params []string
	lists  []string            // gone through entirely
	fields map[string][]string // of the result
	// what may be left out of a list: results of calls
	except []string
	// the elements of a list of this type are made of
	rows  map[string]map[string]string
	also  []string    // other loops to complete
	total bool        // a total is taken of the list
	told  [][2]string // fields to set unless a call gives nothing
	// other rules
	on func(a *teller, st *State, ev *Event)
}

func init() {
	rules["C13"] = func(c *Check) {
		c.reportLists()
	}
}

func fieldsOf(at, pre string, kv ...string) map[string][]string {
	m := map[string][]string{}
	for i := 0; i+1 < len(kv); i += 2 {
		m[at+kv[i]] = nil
		for _, v := range strings.Split(kv[i+1], "|") {
			m[at+kv[i]] = append(m[at+kv[i]], pre+v)
		}
	}
	return m
}

func (c *Check) reportLists() {
	const (
		mk  = "GetAllMarkets(MarketRepository())"
		tr  = "GetAllTrades(TradeRepository())"
		ct  = "GetCompletedTradesByMarket(TradeRepository();market.QuoteAsset)"
		ut  = "GetAllUnspents(UnspentRepository())"
		req = "SwapRequestMessage(" + ct + "[])"
	)
	trade := fieldsOf("[].", tr+"[].",
		"ID", "ID", "Status", "Status", "MarketWithFee.Market.QuoteAsset", "MarketQuoteAsset",
		"MarketWithFee.Fee.BasisPoint", "MarketFee", "MarketWithFee.Fee.FixedBaseFee", "MarketFixedBaseFee", "MarketWithFee.Fee.FixedQuoteFee", "MarketFixedQuoteFee",
		"Price.BasePrice", "MarketPrice.BasePrice", "Price.QuotePrice", "MarketPrice.QuotePrice",
		"RequestTimeUnix", "SwapRequest.Timestamp", "AcceptTimeUnix", "SwapAccept.Timestamp", "CompleteTimeUnix", "SwapComplete.Timestamp",
		"SettleTimeUnix", "SettlementTime", "ExpiryTimeUnix", "ExpiryTime")
	for f, v := range fieldsOf("[].", "", "MarketWithFee.Market.BaseAsset", "s.marketBaseAsset",
		"SwapInfo.AssetP", "SwapRequestMessage("+tr+"[]).AssetP|nil", "SwapInfo.AmountP", "SwapRequestMessage("+tr+"[]).AmountP|nil",
		"SwapInfo.AssetR", "SwapRequestMessage("+tr+"[]).AssetR|nil", "SwapInfo.AmountR", "SwapRequestMessage("+tr+"[]).AmountR|nil",
		"SwapFailInfo.Code", "SwapFailMessage("+tr+"[]).FailureCode|nil", "SwapFailInfo.Message", "SwapFailMessage("+tr+"[]).FailureMessage|nil") {
		trade[f] = v
	}
	specs := map[string]report{
		"ListMarket": {params: []string{"s", "ctx"}, lists: []string{mk}, fields: fieldsOf("[].", mk+"[].",
			"AccountIndex", "AccountIndex", "Market.BaseAsset", "BaseAsset", "Market.QuoteAsset", "QuoteAsset", "Tradable", "Tradable",
			"StrategyType", "Strategy.Type", "Price", "Price", "Fee.BasisPoint", "Fee", "Fee.FixedBaseFee", "FixedFee.BaseFee", "Fee.FixedQuoteFee", "FixedFee.QuoteFee")},
		"ListTrades": {params: []string{"s", "ctx"}, lists: []string{tr}, fields: trade, except: []string{"IsEmpty(" + tr + "[])"}, also: []string{"chan"}, told: [][2]string{{"SwapRequestMessage", "SwapInfo"}, {"SwapFailMessage", "SwapFailInfo"}}},
		"GetCollectedMarketFee": {params: []string{"s", "ctx", "market"}, lists: []string{ct}, fields: fieldsOf("CollectedFees.[].", "",
			"TradeID", ct+"[].ID", "BasisPoint", ct+"[].MarketFee", "Asset", req+".AssetP", "Amount", "LessFee("+req+".AmountP;"+ct+"[].MarketFee)#1",
			"MarketPrice", ct+"[].MarketPrice.BasePrice|"+ct+"[].MarketPrice.QuotePrice"), on: c.feesOfMarket, total: true},
		"ListUtxos":                   {params: []string{"s", "ctx"}, lists: []string{ut}, on: c.utxosOfAccount},
		"ListMarketExternalAddresses": {params: []string{"s", "ctx", "market"}, fields: fieldsOf("", "", "", "Addresses(GetAllDerivedExternalAddressesInfoForAccount(VaultRepository();GetMarketByAsset(MarketRepository();market.QuoteAsset)#1))")},
		"FeeAccountBalance":           {params: []string{"s", "ctx"}, fields: fieldsOf("", "", "", "GetBalance(UnspentRepository();Addresses(GetAllDerivedAddressesInfoForAccount(VaultRepository();0));s.marketBaseAsset)")},
	}
	for _, m := range sortedKeys(specs) {
		c.report(m, specs[m])
	}
}

// feesOfMarket: prices are those of the asset of the fee, totals are sums of
// the fees.
func (c *Check) feesOfMarket(a *teller, st *State, ev *Event) {
	const (
		ct  = "GetCompletedTradesByMarket(TradeRepository();market.QuoteAsset)"
		req = "SwapRequestMessage(" + ct + "[])"
	)
	switch ev.Kind {
	case "return":
		if ev.Frame.parent != nil {
			c.priced(a, st, ev, ev.Res...)
			return
		}
		_, good := outcomes(st, ev)
		if good == nil {
			return
		}
		ok := good.Is("all:total")
		for _, k := range contKeys(a.field(good, ev.Res[0], "TotalCollectedFeesPerAsset")) {
			ok = ok && a.totals[k]
		}
		c.At(ev, "report/total", a.name, ok, "some fees are not in the total")
	case "append":
		for _, x := range ev.Args[1:] {
			for _, v := range a.e.Elems(st, x) {
				c.priced(a, st, ev, a.field(st, v, "MarketPrice"))
			}
		}
	case "mapupdate":
		m := ev.Args[0].Typ.Underlying().(*types.Map)
		if b, ok := m.Elem().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			return
		}
		key := a.join(st, ev.Args[1])
		ok := key == req+".AssetP" && !st.Is("!did:total")
		v := ev.Val
		ok = ok && v.Op == "bin" && v.Aux == "+"
		if ok {
			x, y := v.Args[0], v.Args[1]
			if old(y, ev.Args) {
				x, y = y, x
			}
			ok = old(x, ev.Args) && a.join(st, unconv(y)) == "LessFee("+req+".AmountP;"+ct+"[].MarketFee)#1"
		}
		c.At(ev, "report/total", a.name+"/each", ok, "the fee may not be added once to the total of its asset")
		a.done(st, ev.Async, "total")
		a.totals[contKey(ev.Args[0])] = true
	}
}

func contKeys(t *Term) (out []string) {
	if t == nil {
		return []string{"?"}
	}
	if t.Op == "phi" {
		for _, x := range t.Alts {
			out = append(out, contKeys(x)...)
		}
		return
	}
	return []string{contKey(t)}
}

// old: the present value of an entry.
func old(t *Term, entry []*Term) bool {
	return t.Op == "lookup" && contKey(t.Args[0]) == contKey(entry[0]) && t.Args[1] == entry[1]
}

// priced: a price is the one of the asset of the fee.
func (c *Check) priced(a *teller, st *State, ev *Event, vs ...*Term) {
	for _, v := range vs {
		if v == nil || v.Op == "phi" {
			continue
		}
		c.At(ev, "report/price", a.name, c.priceOf(a, st, v), "the price of the other asset may be reported")
	}
}

func (c *Check) priceOf(a *teller, st *State, v *Term) bool {
	p := a.join(st, v)
	base := strings.HasSuffix(p, ".MarketPrice.BasePrice")
	if !base && !strings.HasSuffix(p, ".MarketPrice.QuotePrice") {
		return true
	}
	ok := false
	st.Each(func(k byte, t *Term) bool {
		if t.Op != "eq" || k != 'T' && k != 'F' {
			return false
		}
		l, r := a.join(st, t.Args[0]), a.join(st, t.Args[1])
		if strings.HasSuffix(l, "].AssetP") || strings.HasSuffix(l, ").AssetP") {
			l, r = r, l
		}
		if !strings.HasSuffix(r, ".AssetP") {
			return false
		}
		switch {
		case strings.HasSuffix(l, "BaseAsset"):
			ok = ok || base == (k == 'T')
		case strings.HasSuffix(l, "uoteAsset"):
			ok = ok || base == (k == 'F')
		}
		return ok
	})
	return ok
}

// utxosOfAccount: every coin is listed once, with those of its account in the
// same state.
func (c *Check) utxosOfAccount(a *teller, st *State, ev *Event) {
	const u = "GetAllUnspents(UnspentRepository())[]"
	fields := [][2]string{{"Outpoint.Hash", "TxID"}, {"Outpoint.Index", "VOut"}, {"Value", "Value"}, {"Asset", "AssetHash"}}
	is := func(k byte, f string) bool {
		return st.HasMatch(k, func(t *Term) bool { return a.join(st, t) == u+"."+f })
	}
	switch ev.Kind {
	case "append":
		for _, x := range ev.Args[1:] {
			for _, v := range a.e.Elems(st, x) {
				for _, f := range fields {
					got := a.part(st, v, f[0])
					c.At(ev, "report/utxo", a.name+"/"+f[0], expectSet(got, u+"."+f[1]), f[0]+" is "+strings.Join(got, "|"))
				}
			}
		}
	case "store":
		n := lastPart(ev.Name)
		if ev.Val == nil || ev.Val.Op != "append" {
			return
		}
		ok := true
		switch n {
		case "Spents":
			ok = is('T', "Spent")
		case "Locks":
			ok = is('F', "Spent") && is('T', "Locked")
		case "Unspents":
			ok = is('F', "Spent") && is('F', "Locked")
		}
		c.At(ev, "report/utxo", a.name+"/"+n, ok, "coins in another state may be listed")
		to := ev.Val.Args[0]
		c.At(ev, "report/utxo", a.name+"/"+n+"/kept", to.Op == "field" && lastPart(to.Aux) == n, "the coins listed so far may be lost or mixed up")
	case "mapupdate":
		key := a.join(st, ev.Args[1])
		c.At(ev, "report/utxo", a.name+"/account", key == "GetAccountByAddress(VaultRepository();"+u+".Address)#1", "coins are listed with those of "+key)
		for _, n := range []string{"Spents", "Locks", "Unspents"} {
			ok := true
			for _, v := range alts(ev.Val) {
				f := a.field(st, v, n)
				ok = ok && f != nil && f.All(func(x *Term) bool {
					if x.Op == "append" {
						x = x.Args[0]
					}
					return x.Op == "field" && lastPart(x.Aux) == n && old(x.Args[0], ev.Args)
				})
			}
			c.At(ev, "report/utxo", a.name+"/"+n+"/same", ok, "the coins of the account listed so far may be lost")
		}
	}
}

func (c *Check) report(m string, sp report) {
	fn := c.method(app, "operatorService", m)
	if fn == nil {
		c.Ob("report", m, false, "-", "not found")
		return
	}
	var sufs []string
	var fields []string
	for f := range sp.fields {
		fields = append(fields, f)
		if i := strings.Index(f, "[]."); i >= 0 {
			sufs = append(sufs, f[i+3:])
		}
	}
	sort.Strings(fields)
	sort.Strings(sufs)
	a := c.teller(m, fn, func(g *ssa.Function) bool { return c.P.PkgRel(g) == app }, sufs)
	a.params, a.lists = sp.params, sp.lists
	n := 0
	a.on = func(st *State, ev *Event) {
		if sp.on != nil {
			sp.on(a, st, ev)
		}
		for _, l := range sp.told {
			switch ev.Kind {
			case "call":
				if ev.Last() == l[0] {
					st.Kill("told:" + l[0])
				}
			case "store":
				if ev.Base != nil && ev.Base.Contains(func(t *Term) bool { return t.Op == "faddr" && lastPart(t.Aux) == l[1] }) || lastPart(ev.Name) == l[1] {
					st.Gen("told:" + l[0])
				}
			case "send":
				c.At(ev, "report/known", m+"/"+l[1], st.Is("told:"+l[0]), "what is known may not be reported")
			}
		}
		if ev.Kind != "return" || ev.Frame.parent != nil {
			return
		}
		_, good := outcomes(st, ev)
		if good == nil {
			return
		}
		n++
		for _, f := range fields {
			got := a.part(good, ev.Res[0], f)
			c.At(ev, "report", m+"/"+f, expectSet(got, sp.fields[f]...), f+" is "+strings.Join(got, "|"))
		}
		for _, l := range append(append([]string{}, sp.lists...), sp.also...) {
			c.At(ev, "report/all", m+"/"+l, good.Is("all:"+l), "some may not be reported")
		}
	}
	prices := map[string]bool{}
	if sp.total {
		a.e.onPhi = func(ph *ssa.Phi, _ int, st *State, v *Term) {
			if v != nil && v.Op != "phi" && strings.HasSuffix(a.join(st, v), "Price") {
				prices[c.P.Pos(ph.Pos())+" "+lastPart(a.join(st, v))] = c.priceOf(a, st, v)
			}
		}
	}
	assumed := a.e.onAssume
	a.e.onAssume = func(st *State, k byte, t *Term) {
		assumed(st, k, t)
		if x := loopOver(t); sp.total && x != nil && (bare(a.join(st, x)) == sp.lists[0] || isStruct(elemOf(x.Typ), "FeeInfo")) {
			a.turn(st, k, "total")
		}
		for _, l := range sp.told {
			if k == 'T' && t.Op == "isnil" && lastPart(t.Args[0].CallName()) == l[0] {
				st.Gen("told:" + l[0])
			}
		}
		if k != 'T' || t.Op != "call" || len(sp.except) == 0 {
			return
		}
		s := a.join(st, t)
		for _, x := range sp.except {
			if s != x {
				continue
			}
			for _, l := range sp.lists {
				a.done(st, true, l)
			}
		}
	}
	c.AnalyzeWith(a.e, fn, "", func(st *State, _ []*Term) {
		a.start(st)
		st.Gen("did:total")
	})
	for _, k := range sortedKeysB(prices) {
		c.Ob("report/price", m+"/"+k[strings.Index(k, " ")+1:], prices[k], k[:strings.Index(k, " ")], "the price of the other asset may be reported")
	}
	c.Need("report/"+m, n, 1, "results")
}

func isStruct(t types.Type, name string) bool { return t != nil && lastPart(typeName(t)) == name }
