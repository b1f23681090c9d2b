package main

import (
	"go/constant"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// constVal of a package-level constant.
func (p *Prog) constVal(pkg, name string) constant.Value {
	pk := p.Pkg(pkg)
	if pk == nil {
		return nil
	}
	if c, ok := pk.Types.Scope().Lookup(name).(*types.Const); ok {
		return c.Val()
	}
	return nil
}

// given: the state strengthened with conditions; nil when they contradict.
func (s *State) given(f func(*State) bool) *State {
	c := s.lightClone()
	c.cond = map[FK]*Snap{}
	for k, v := range s.cond {
		c.cond[k] = v
	}
	if !f(c) {
		return nil
	}
	return c
}

func isDecimalPure(n string) bool { return strings.HasPrefix(n, "decimal.") }

const app = "internal/core/application"

// methodOf finds the concrete application service implementing a port.
func (c *Check) service(iface string, pkg string) *types.Named {
	it := c.P.Iface(pkg, iface)
	if it == nil {
		c.Ob("anchor", "interface:"+iface, false, "-", "the interface "+pkg+"."+iface+" is gone")
		return nil
	}
	impls := c.P.Impls(it, pkg)
	if len(impls) == 0 {
		c.Ob("anchor", "impl:"+iface, false, "-", "no implementation of "+pkg+"."+iface)
		return nil
	}
	return impls[0]
}

func init() {
	rules["C05"] = func(c *Check) {
		c.Note("TradePropose is analysed twice, once per trade direction, with all helpers inlined; the acceptance reply is the return whose SwapAccept may be non-nil, and every guard must hold on all paths reaching it. Price bounds are compared as polynomials.")
		c.Assume("the strategy formula behind the market preview computes the intended price; go-elements and the swap parser behave as documented")
		nt := c.service("TradeService", app)
		if nt == nil {
			return
		}
		fn := c.P.Method(nt, "TradePropose")
		if fn == nil {
			c.Ob("anchor", "TradePropose", false, "-", "TradePropose is gone")
			return
		}
		for _, dir := range []string{"TradeBuy", "TradeSell"} {
			c.tradePropose(nt, fn, dir)
		}
		c.fillProposal()
	}
}

func (c *Check) tradePropose(nt *types.Named, fn *ssa.Function, dir string) {
	cv := c.P.constVal(app, dir)
	if cv == nil {
		c.Ob("anchor", dir, false, "-", "trade type constant is gone")
		return
	}
	tn := typeName(nt)
	var req, ttype, mkt *Term
	isReq := func(t *Term, get string) bool {
		return t != nil && t.Op == "call" && lastIs(t.CallName(), get) && len(t.Args) == 1 && t.Args[0] == req
	}
	// sides of the swap in this direction
	base, quote := "R", "P"
	if dir == "TradeSell" {
		base, quote = "P", "R"
	}
	isMkt := func(t *Term, f string) bool {
		return t != nil && t.Op == "field" && t.Aux == "domain.Market."+f && t.Args[0].CallName() == "domain.MarketRepository.GetMarketByAsset"
	}
	slip := tn + ".priceSlippage"
	var e *Engine
	accepts := 0
	hook := func(st *State, ev *Event) {
		lockHook(st, ev)
		switch ev.Kind {
		case "after":
			switch {
			case lastIs(ev.Name, "UnspentRepository.GetAvailableUnspentsForAddresses") && len(ev.Res) == 2:
				st.Gen("selected", ev.Res[0])
			case lastIs(ev.Name, "UnspentRepository.LockUnspents") && len(ev.Res) == 2:
				keys := ev.Args[2]
				_ = keys
				st.CondGen('N', ev.Res[1], "locked")
			}
		case "call":
			if ev.Async || ev.Frame.Root().fn != fn {
				return
			}
			if lastIs(ev.Name, "domain.Trade.Propose") && ev.Opaque {
				a := ev.Args
				ok := len(a) >= 6 && a[1] == req && isMkt(a[3], "Fee") && a[4].IsField("formula.FixedFee.BaseFee") == a[4].IsField("formula.FixedFee.BaseFee")
				c.At(ev, "trade-terms", dir+"/fee", ok, "the trade is not created from the received request and the market's percentage fee")
				fb := len(a) >= 6 && a[4].Op == "field" && lastIs(a[4].Aux, "BaseFee") && isMkt(a[4].Args[0], "FixedFee") && a[5].Op == "field" && lastIs(a[5].Aux, "QuoteFee") && isMkt(a[5].Args[0], "FixedFee")
				c.At(ev, "trade-terms", dir+"/fixed-fee", fb, "the trade does not record the market's fixed base and quote fees")
			}
			if lastIs(ev.Name, "FillProposal") || strings.HasSuffix(ev.Name, ".FillProposal") {
				c.At(ev, "fill-after-check", dir+"/price", st.Is("price-ok"), "the daemon funds and signs the swap before checking its price")
				c.At(ev, "fill-after-check", dir+"/pair", st.Is("pair-P") && st.Is("pair-R"), "the daemon funds and signs the swap before checking its assets")
				o := ev.Args[len(ev.Args)-1]
				c.fillArgs(ev, st, e, dir, o, req)
			}
		case "return":
			if ev.Frame.fn != fn || ev.Frame.parent != nil {
				return
			}
			n := len(ev.Res)
			if n < 3 {
				return
			}
			acc, fail, err := ev.Res[0], ev.Res[1], ev.Res[n-1]
			s := st.given(func(s *State) bool { return s.assume(err, 'N') && s.assume(acc, 'X') })
			if s != nil {
				accepts++
				ob := func(rule string, ok bool, msg string) { c.At(ev, rule, dir, ok, msg) }
				ob("accept/vault-unlocked", s.HasMatch('F', func(t *Term) bool { return false }) || s.Is("unlocked"), "a proposal can be accepted while the vault is locked")
				ob("accept/market-exists", s.Is("market-found") && s.HasMatch('N', func(t *Term) bool { return lastIs(t.CallName(), "GetMarketByAsset") }), "a proposal can be accepted for a market the daemon does not have")
				ob("accept/market-base", s.Is("market-base"), "a proposal can be accepted for a market whose base asset is not the daemon's")
				ob("accept/assets", s.Is("pair-P") && s.Is("pair-R"), "a proposal can be accepted whose sent/received assets are not those of the market in the given direction")
				ob("accept/price", s.Is("price-ok"), "a proposal can be accepted whose amounts are not within the slippage range of the market preview for the counter amount")
				ob("accept/funded", s.Is("has-market-unspents") && s.Is("has-fee-unspents"), "a proposal can be accepted without available unspents of both the market and the fee account")
				ob("accept/filled", s.HasMatch('N', func(t *Term) bool { return strings.HasSuffix(t.CallName(), "FillProposal") }), "a proposal can be accepted although funding/signing the swap failed")
				ob("accept/proposed", s.HasMatch('T', func(t *Term) bool { return t.CallName() == "domain.Trade.Propose" }), "a proposal can be accepted although the request was not validated")
				ob("accept/trade-accepted", s.HasMatch('T', func(t *Term) bool { return t.CallName() == "domain.Trade.Accept" }), "a proposal can be accepted although the trade did not reach the accepted status")
				ob("accept/locked", s.Is("locked"), "a proposal can be accepted although its inputs were not locked")
				ob("accept/message", acc.Any(func(t *Term) bool { return t.CallName() == "domain.Trade.SwapAcceptMessage" }), "the reply is not the trade's accept message")
				ob("accept/expiry", ev.Res[2].Any(func(t *Term) bool { return t.IsField("domain.Trade.ExpiryTime") }), "the reply does not carry the trade's expiry time")
			}
			// a reply without error is an accept or a fail
			s = st.given(func(s *State) bool { return s.assume(err, 'N') && s.assume(acc, 'N') })
			if s != nil {
				c.At(ev, "reject/has-fail", dir, fail.Any(func(t *Term) bool { return t.CallName() == "domain.Trade.SwapFailMessage" }), "a rejected proposal gets neither an accept nor a fail message")
			}
		}
	}
	e = c.Engine(hook)
	e.inline = func(f *ssa.Function) bool {
		n := fnName(f)
		return n != "domain.Market.Preview" && !strings.HasPrefix(n, "domain.Trade.") && !strings.HasPrefix(n, "domain.Vault.")
	}
	e.onAssume = func(st *State, k byte, t *Term) {
		if k == 'T' && t.Op == "eq" {
			for i := 0; i < 2; i++ {
				a, b := t.Args[i], t.Args[1-i]
				baseT := isMkt(b, "BaseAsset") || b.IsField("application.Market.BaseAsset") || b.IsField(tn+".marketBaseAsset")
				quoteT := isMkt(b, "QuoteAsset") || b.IsField("application.Market.QuoteAsset")
				if isReq(a, "GetAsset"+base) && baseT || isReq(a, "GetAsset"+quote) && quoteT {
					st.Gen("pair-" + a.CallName()[len(a.CallName())-1:])
				}
				if a.IsField("application.Market.BaseAsset") && (b.IsField(tn+".marketBaseAsset") || isMkt(b, "BaseAsset")) {
					st.Gen("market-base")
				}
			}
		}
		if k == 'F' && t.Op == "lt" && lastIs(t.Args[0].CallName(), "GetMarketByAsset") {
			if z, ok := t.Args[1].IntConst(); ok && z >= 0 {
				st.Gen("market-found")
			}
		}
		if k == 'X' && t.Op == "extract" && t.Aux == "0" && lastIs(t.CallName(), "GetMarketByAsset") {
			st.Gen("market-found")
		}
		if k == 'F' && t.Op == "empty" {
			x := t.Args[0]
			if lastIs(x.CallName(), "GetAvailableUnspentsForAddresses") {
				if e.From(x, func(y *Term) bool { return lastIs(y.CallName(), "GetMarketByAsset") }) {
					st.Gen("has-market-unspents")
				} else {
					st.Gen("has-fee-unspents")
				}
			}
		}
		if lastIs(t.CallName(), "domain.Vault.IsLocked") && k == 'F' || lastIs(t.CallName(), "MnemonicStore.IsSet") && k == 'T' {
			st.Gen("unlocked")
		}
		if a, b, ok := decGE(k, t); ok {
			// amount >= lower / upper >= amount
			c.priceBound(st, a, b, slip, req, base, quote, mkt)
		}
	}
	c.AnalyzeWith(e, fn, dir, func(st *State, args []*Term) {
		for _, a := range args {
			switch {
			case typeName(a.Typ) == "domain.SwapRequest":
				req = a
			case typeName(a.Typ) == "int":
				ttype = a
			}
		}
		if ttype != nil {
			for _, d := range []string{"TradeBuy", "TradeSell"} {
				v := e.tab.constant(c.P.constVal(app, d), ttype.Typ)
				k := byte('F')
				if d == dir {
					k = 'T'
				}
				st.assume(e.eqT(ttype, v), k)
			}
		}
	})
	c.Need("accepting-returns/"+dir, accepts, 1, "returns accepting a proposal")
}

func (e *Engine) eqT(a, b *Term) *Term { return e.binop(nil, tokEQL, a, b, types.Typ[types.Bool]) }

// priceBound: the path condition states a >= b on decimals.
func (c *Check) priceBound(st *State, a, b *Term, slip string, req *Term, base, quote string, _ *Term) {
	if dbg {
		println("bound", a.str(5), ">=", b.str(5))
	}
	atom := map[string]*Term{}
	collect := func(t *Term) {
		t.Contains(func(x *Term) bool { atom[itoa(x.ID)] = x; return false })
	}
	collect(a)
	collect(b)
	pa, pb := decPoly(a), decPoly(b)
	single := func(p poly) *Term {
		if len(p) != 1 {
			return nil
		}
		for m, k := range p {
			if k == 1 && m != "" && !strings.Contains(m, "*") {
				return atom[m]
			}
		}
		return nil
	}
	getter := func(t *Term) string {
		if t != nil && t.Op == "call" && len(t.Args) == 1 && t.Args[0] == req {
			switch {
			case lastIs(t.CallName(), "GetAmountP"):
				return "P"
			case lastIs(t.CallName(), "GetAmountR"):
				return "R"
			}
		}
		return ""
	}
	// p must be E*(1 + sign*slippage)
	bound := func(p poly, sign int64) *Term {
		var s, ex *Term
		for m := range p {
			for _, x := range strings.Split(m, "*") {
				if t := atom[x]; t != nil {
					if t.IsField(slip) {
						s = t
					} else {
						ex = t
					}
				}
			}
		}
		if s == nil || ex == nil {
			return nil
		}
		want := atomPoly(ex).mul(poly{"": 1}.add(atomPoly(s), sign))
		if !p.eq(want) {
			return nil
		}
		return ex
	}
	mark := func(side string, ex *Term, which string) {
		if dbg {
			println("mark", side, which, ex.str(6))
		}
		if c.previewFor(ex, req, side, base, quote) {
			st.Gen(which, ex)
		}
	}
	if x := single(pa); getter(x) != "" {
		if ex := bound(pb, -1); ex != nil {
			mark(getter(x), ex, "above-min")
		}
	}
	if x := single(pb); getter(x) != "" {
		if ex := bound(pa, 1); ex != nil {
			mark(getter(x), ex, "below-max")
		}
	}
	ok := st.Each(func(k byte, t *Term) bool {
		return k == 'L' && t.Aux == "above-min" && st.Is("below-max", t.Args[0])
	})
	if ok {
		st.Gen("price-ok")
	}
}

// previewFor: ex is the amount the market previews for the other side of the
// swap than the one compared with it.
func (c *Check) previewFor(ex, req *Term, side, base, quote string) bool {
	if ex == nil || ex.Op != "field" || !lastIs(ex.Aux, "Amount") || ex.Args[0].CallName() != "domain.Market.Preview" {
		return false
	}
	a := ex.Args[0].CallArgs() // market, baseBalance, quoteBalance, amount, isBase, isBuy
	if len(a) != 6 {
		return false
	}
	if a[0].CallName() != "domain.MarketRepository.GetMarketByAsset" {
		return false
	}
	bal := func(t *Term, f, g string) bool {
		has := func(n string) bool {
			return t.Contains(func(x *Term) bool { return x.IsField("domain.Market." + n) })
		}
		return has(f) && !has(g)
	}
	if !bal(a[1], "BaseAsset", "QuoteAsset") || !bal(a[2], "QuoteAsset", "BaseAsset") {
		return false
	}
	given := ""
	if len(a[3].Args) == 1 && a[3].Args[0] == req {
		switch {
		case lastIs(a[3].CallName(), "GetAmountP"):
			given = "P"
		case lastIs(a[3].CallName(), "GetAmountR"):
			given = "R"
		}
	}
	if given == "" || given == side {
		return false
	}
	isBase, ok := constBool(a[4])
	if !ok {
		// asset == market.BaseAsset with both from the market
		if a[4].Op == "eq" {
			x, y := a[4].Args[0], a[4].Args[1]
			f := func(t *Term) string { return t.Aux[strings.LastIndex(t.Aux, ".")+1:] }
			if x.Op == "field" && y.Op == "field" && x.Args[0] == a[0] && y.Args[0] == a[0] && f(x) != f(y) && (f(x) == "BaseAsset" || f(y) == "BaseAsset") && (f(x) == "QuoteAsset" || f(y) == "QuoteAsset") {
				isBase, ok = false, true
			} else if x == y {
				isBase, ok = true, true
			}
		}
	}
	if !ok {
		return false
	}
	if isBase && given != base || !isBase && given != quote {
		return false
	}
	isBuy := a[5]
	bv, okb := constBool(isBuy)
	if !okb {
		if isBuy.Op == "eq" {
			// tradeType == TradeBuy, decided by the case split
			return c.dirOf(isBuy)
		}
		if isBuy.Op == "not" && isBuy.Args[0].Op == "eq" {
			return !c.dirOf(isBuy.Args[0])
		}
		return false
	}
	return bv == (base == "R")
}

// dirOf: the comparison is with the constant of the buy direction.
func (c *Check) dirOf(eq *Term) bool {
	for _, x := range eq.Args {
		if v, ok := x.IntConst(); ok {
			b := c.P.constVal(app, "TradeBuy")
			if i, ok := constant.Int64Val(b); ok {
				return v == i
			}
		}
	}
	return false
}

func constBool(t *Term) (bool, bool) {
	if t == nil {
		return false, false
	}
	return t.BoolConst()
}

// fields of a struct value term by name.
func structFields(o *Term) map[string]*Term {
	fields := map[string]*Term{}
	if o != nil && o.Op == "struct" {
		s, _ := structOf(o.Typ)
		for i := 0; i < s.NumFields() && i < len(o.Args); i++ {
			fields[s.Field(i).Name()] = o.Args[i]
		}
	}
	return fields
}

func (c *Check) fillArgs(ev *Event, st *State, e *Engine, dir string, o, req *Term) {
	f := structFields(o)
	call := func(name string) func(*Term) bool { return func(t *Term) bool { return lastIs(t.CallName(), name) } }
	isMkt := call("GetMarketByAsset")
	c.At(ev, "fill-args", dir+"/request", f["SwapRequest"] == req, "the swap is not filled for the received request")
	from := func(t *Term, src string, mkt bool) bool {
		return e.From(t, call(src)) && e.From(t, isMkt) == mkt
	}
	c.At(ev, "fill-args", dir+"/utxos", from(f["MarketUtxos"], "GetAvailableUnspentsForAddresses", true) && from(f["FeeUtxos"], "GetAvailableUnspentsForAddresses", false),
		"the swap is not funded with available unspents of the market account and fees with those of the fee account")
	c.At(ev, "fill-args", dir+"/info", from(f["MarketInfo"], "GetAllDerivedAddressesInfoForAccount", true) && from(f["FeeInfo"], "GetAllDerivedAddressesInfoForAccount", false),
		"the swap is filled with the address info of another account")
	der := func(t *Term, m string, mkt bool) bool {
		return t.All(func(x *Term) bool {
			return x.Contains(func(y *Term) bool {
				return y.CallName() == m && len(y.CallArgs()) >= 2 && y.CallArgs()[1].Contains(isMkt) == mkt && y.Op == "extract" && y.Aux == "0"
			})
		})
	}
	c.At(ev, "fill-args", dir+"/addresses", der(f["OutputInfo"], "domain.Vault.DeriveNextExternalAddressForAccount", true) &&
		der(f["ChangeInfo"], "domain.Vault.DeriveNextInternalAddressForAccount", true) &&
		der(f["FeeChangeInfo"], "domain.Vault.DeriveNextInternalAddressForAccount", false),
		"the outputs of the swap do not go to freshly derived addresses of the market account and the fee change to one of the fee account")
	c.At(ev, "fill-args", dir+"/derived", st.HasMatch('N', func(t *Term) bool { return t.CallName() == "domain.Vault.DeriveNextExternalAddressForAccount" }) &&
		st.HasMatch('N', func(t *Term) bool { return t.CallName() == "domain.Vault.DeriveNextInternalAddressForAccount" }) &&
		st.HasMatch('N', func(t *Term) bool { return t.CallName() == "domain.Vault.GetMnemonicSafe" }),
		"the swap is filled although an address or the mnemonic could not be retrieved")
}

// fillProposal: how an accepted proposal is funded, blinded and signed.
func (c *Check) fillProposal() {
	nt := c.service("TradeHandler", app)
	if nt == nil {
		return
	}
	fn := c.P.Method(nt, "FillProposal")
	if fn == nil {
		c.Ob("anchor", "FillProposal", false, "-", "the proposal filler is gone")
		return
	}
	var e *Engine
	o := "application.FillProposalOpts."
	isOpt := func(t *Term, path ...string) bool {
		// opts.A or opts.A.B
		for i := len(path) - 1; i >= 0; i-- {
			if t == nil || t.Op != "field" || !lastIs(t.Aux, path[i]) {
				return false
			}
			t = t.Args[0]
		}
		return true
	}
	_ = o
	req := func(t *Term, g string) bool {
		return t != nil && t.Op == "call" && lastIs(t.CallName(), g) && len(t.Args) == 1 && isOpt(t.Args[0], "SwapRequest")
	}
	signed, returns, swaps, fees := 0, 0, 0, 0
	e = c.Engine(func(st *State, ev *Event) {
		switch ev.Kind {
		case "call":
			if !strings.HasPrefix(ev.Name, "wallet.Wallet.") {
				return
			}
			f := structFields(ev.Args[len(ev.Args)-1])
			switch ev.Last() {
			case "UpdateSwapTx":
				swaps++
				ok := req(f["InputAmount"], "GetAmountR") && req(f["InputAsset"], "GetAssetR") && req(f["OutputAmount"], "GetAmountP") && req(f["OutputAsset"], "GetAssetP")
				c.At(ev, "fill/amounts", "swap", ok, "the daemon does not add an input of what the proposer receives and an output of what the proposer sends")
				c.At(ev, "fill/tx", "swap", req(f["PsetBase64"], "GetTransaction"), "the daemon does not fill the proposer's transaction")
				c.At(ev, "fill/unspents", "swap", isOpt(f["Unspents"], "MarketUtxos"), "the swap is not funded with the market's unspents")
				c.At(ev, "fill/addresses", "swap", isOpt(f["OutputDerivationPath"], "OutputInfo", "DerivationPath") && isOpt(f["ChangeDerivationPath"], "ChangeInfo", "DerivationPath"), "swap output or change does not go to the addresses derived for the market")
			case "UpdateTx":
				if u := f["Unspents"]; u != nil && !u.IsNil() {
					fees++
					c.At(ev, "fill/unspents", "fees", isOpt(u, "FeeUtxos"), "network fees are not paid with the fee account's unspents")
					p := f["PsetBase64"]
					c.At(ev, "fill/tx", "fees", p.CallName() == "wallet.Wallet.UpdateSwapTx" && okErr(st, p), "fees are not added to the successfully filled swap")
					cp := f["ChangePathsByAsset"]
					c.At(ev, "fill/addresses", "fees", e.From(cp, func(t *Term) bool { return isOpt(t, "FeeChangeInfo", "DerivationPath") }), "the fee change does not go to the address derived for the fee account")
				}
			case "SignInput":
				signed++
				p := f["PsetBase64"]
				ok := p.All(func(t *Term) bool {
					return t.CallName() == "wallet.Wallet.SignInput" || e.From(t, func(x *Term) bool { return x.CallName() == "wallet.Wallet.BlindSwapTransactionWithData" })
				})
				c.At(ev, "fill/sign-blinded", "sign", ok, "inputs are signed before the swap is blinded")
				ix := f["InIndex"]
				c.At(ev, "fill/sign-own", "sign", ix != nil && ix.Contains(func(t *Term) bool {
					return t.Op == "len" && e.From(t, func(x *Term) bool {
						return x.CallName() == "wallet.ExtractBlindingDataFromTx" || x.CallName() == "wallet.Wallet.UpdateSwapTx"
					})
				}), "the index of a signed input is not offset by the number of the proposer's inputs")
			}
		case "return":
			if ev.Frame.fn != fn || ev.Frame.parent != nil || len(ev.Res) != 2 {
				return
			}
			s := st.given(func(s *State) bool { return s.assume(ev.Res[1], 'N') && s.assume(ev.Res[0], 'X') })
			if s == nil {
				return
			}
			returns++
			for _, n := range []string{"wallet.Wallet.UpdateSwapTx", "wallet.Wallet.UpdateTx", "wallet.Wallet.BlindSwapTransactionWithData"} {
				n := n
				c.At(ev, "fill/errors", n, s.HasMatch('N', func(t *Term) bool { return t.CallName() == n }), "a swap is returned as filled although "+n+" failed")
			}
			r := ev.Res[0]
			f := map[string]*Term{}
			r.Any(func(t *Term) bool {
				if t.Op == "alloc" {
					f = structFields(e.load(s, t, elemType(t.Typ)))
					return true
				}
				return false
			})
			c.At(ev, "fill/result", "unspents", e.From(f["SelectedUnspents"], func(t *Term) bool {
				return t.CallName() == "wallet.Wallet.UpdateSwapTx" && t.Op == "extract" && t.Aux == "1"
			}) &&
				e.From(f["SelectedUnspents"], func(t *Term) bool { return t.Op == "field" && lastIs(t.Aux, "SelectedUnspents") }), "the unspents returned for locking are not all those selected for the swap and its fees")
			c.At(ev, "fill/result", "signed", f["PsetBase64"] != nil && f["PsetBase64"].Any(func(t *Term) bool { return t.CallName() == "wallet.Wallet.SignInput" }), "the returned transaction is not the signed one")
		}
	})
	e.inline = func(f *ssa.Function) bool { return !strings.HasPrefix(fnName(f), "wallet.") }
	c.Analyze(e, fn)
	c.Need("fill/swap", swaps, 1, "calls filling the swap transaction")
	c.Need("fill/fees", fees, 1, "calls topping up the fees")
	c.Need("fill/sign", signed, 1, "calls signing inputs")
	c.Need("fill/returns", returns, 1, "returns of a filled proposal")
}

var dbg = os.Getenv("DBG") != ""
