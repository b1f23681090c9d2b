package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const tradePkg = "pkg/trade"

// C30: the trade client previews, proposes and signs what its user asked for.
func init() {
	rules["C30"] = func(c *Check) {
		c.Note("The exported operations of the trade client (previewing, buying, selling, completing, the calls of the remote service, the transaction proposed and the keys of the user) are followed with their helpers inlined; arguments of every step, requests sent and results are traced to the options given. The amounts previewed are decided for each type of trade and each asset of the market.")
		c.Assume("generated protobuf code, grpc-go, the pset, payment and btcec packages do what their documentation says; the swap messages are as C28 decides, coin selection as C22 does")
		c.clientNew()
		c.clientCalls()
		c.clientPreview()
		c.clientOrders()
		c.clientSwapTx()
		c.clientWallet()
	}
}

// operations of the client whose results are named
var clientOps = map[string]bool{
	"Preview": true, "NewSwapTx": true, "NewWalletFromKey": true, "Address": true, "Sign": true, "Script": true,
	"Markets": true, "Balances": true, "MarketPrice": true, "TradePropose": true, "TradeComplete": true,
}

func (c *Check) clientTracer(name string, fn *ssa.Function) *api {
	e := NewEngine(c.P)
	a := &api{c: c, e: e, name: name, rows: map[string]map[ssa.Instruction]map[string][]string{}, sufs: map[string]bool{"": true}, in: map[*Term][]apiElem{}}
	e.inline = func(f *ssa.Function) bool {
		rel := c.P.PkgRel(f)
		if f != fn && f.Object() != nil && f.Object().Exported() && clientOps[f.Name()] {
			return false
		}
		return rel == tradePkg || strings.HasPrefix(rel, tradePkg+"/")
	}
	first := 0
	if fn.Signature.Recv() != nil {
		first = 1
	}
	join := func(st *State, t *Term) string { return strings.Join(a.paths(st, t), "|") }
	again := map[*Term]string{}
	e.onAssume = func(st *State, k byte, t *Term) {
		// nothing decodes to nothing
		if k == 'T' && t.Op == "empty" {
			for _, m := range []string{"Request", "Accept", "Complete", "Fail"} {
				st.Gen("decodes:" + join(st, t.Args[0]) + ":swap.Swap" + m)
			}
		}
		if k == 'T' && t.Op == "eq" {
			for i := range t.Args {
				n, ok := t.Args[1-i].IntConst()
				if ok && (n == c.intConst(app, "TradeBuy") || n == c.intConst(app, "TradeSell")) {
					st.Gen("type:" + join(st, t.Args[i]))
				}
			}
		}
	}
	a.root = func(st *State, t *Term) (string, bool) {
		if n, ok := t.IntConst(); ok && n != 0 {
			return itoa(int(n)), true
		}
		switch t.Op {
		case "param":
			if i := paramIdx(t); i >= first {
				return "a" + itoa(i-first), true
			}
			return "t", true
		case "iface", "conv", "load", "deref":
			if len(t.Args) == 1 && !narrows(t) {
				return join(st, t.Args[0]), true
			}
		case "index":
			// one element is like another, but the first is the first
			if n, ok := t.Args[1].IntConst(); ok {
				return join(st, t.Args[0]) + "[" + itoa(int(n)) + "]", true
			}
		case "alloc":
			res := ""
			st.Each(func(k byte, l *Term) bool {
				if k == 'L' && l.Aux == "decoded" && l.Args[0] == t {
					res = "decoded(" + join(st, l.Args[1]) + ")"
				}
				return res != ""
			})
			if res == "" {
				res = again[t]
			}
			if res != "" {
				return res, true
			}
		case "slice":
			if partial(t) {
				return join(st, t.Args[0]) + "?part", true
			}
			if t.Args[0].Op == "alloc" {
				if els := e.Elems(st, t); len(els) > 0 {
					var ss []string
					for _, x := range els {
						ss = append(ss, join(st, x))
					}
					return "[" + strings.Join(ss, ",") + "]", true
				}
				if v := cell(st, t.Args[0]); v != nil && v != t.Args[0] {
					return join(st, v), true
				}
			}
			return join(st, t.Args[0]), true
		case "lookup":
			return join(st, t.Args[0]) + "[" + join(st, t.Args[1]) + "]", true
		case "extract":
			x := t.Args[0]
			if x.Op != "call" {
				break
			}
			as := x.CallArgs()
			switch lastPart(x.CallName()) + "#" + t.Aux {
			case "NewPsetFromBase64#0":
				return "pset(" + join(st, as[0]) + ")", true
			case "NewUpdater#0":
				return "updater(" + join(st, as[0]) + ")", true
			case "ToBase64#0":
				return join(st, as[0]) + ".b64", true
			case "New#0":
				return "newpset", true
			case "SelectUnspents#0":
				return "coins", true
			case "SelectUnspents#1":
				return "change", true
			case "Parse#0", "Parse#1":
				return "parsed" + t.Aux + "(" + join(st, as[0]) + ")", true
			case "AssetHashToBytes#0":
				return "assetbytes(" + join(st, as[0]) + ")", true
			case "ValueToBytes#0":
				return "valuebytes(" + join(st, as[0]) + ")", true
			case "PrivKeyFromBytes#0":
				return "privkey(" + join(st, as[1]) + ")", true
			case "PrivKeyFromBytes#1":
				return "pubof(" + join(st, as[1]) + ")", true
			case "NewPrivateKey#0":
				return "newkey@" + itoa(x.ID), true
			case "ToOutputScript#0":
				return "scriptof(" + join(st, as[0]) + ")", true
			case "ConfidentialWitnessPubKeyHash#0":
				return "ctaddr(" + join(st, as[0]) + ")", true
			case "GetUnspents#0":
				return "unspents(" + join(st, as[1]) + ";" + join(st, as[2]) + ")", true
			case "Preview#0":
				return "preview", true
			case "NewSwapTx#0":
				return "swaptx", true
			case "Script#0", "Script#1":
				return join(st, as[0]) + map[string]string{"0": ".redeem", "1": ".script"}[t.Aux], true
			case "Request#0", "Marshal#0", "Complete#1":
				return strings.ToLower(lastPart(x.CallName())) + "@" + itoa(x.ID), true
			case "Sign#0":
				if len(as) == 2 && x.CallName() == "trade.Wallet.Sign" {
					return "signed(" + join(st, as[0]) + ";" + join(st, as[1]) + ")", true
				}
			case "TradePropose#0", "TradeComplete#0", "MarketPrice#0", "Markets#0", "Balances#0", "Recv#0":
				if strings.Contains(x.CallName(), "Client.") {
					return "reply(" + lastPart(x.CallName()) + ")", true
				}
			}
		case "call":
			as := t.CallArgs()
			switch n := t.CallName(); lastPart(n) {
			case "NewWalletFromKey":
				return "wallet(" + join(st, as[0]) + ";" + join(st, as[1]) + ";" + join(st, as[2]) + ")", true
			case "Address":
				return join(st, as[0]) + ".address", true
			case "EncodeToString":
				return "hex(" + join(st, as[0]) + ")", true
			case "FromPublicKey":
				return "payment(" + join(st, as[0]) + ";" + join(st, as[1]) + ";" + join(st, as[2]) + ")", true
			case "PubKey":
				return "pub(" + join(st, as[0]) + ")", true
			case "Serialize", "SerializeCompressed":
				return lastPart(n) + "(" + join(st, as[0]) + ")", true
			}
		}
		return "", false
	}
	e.hook = func(st *State, ev *Event) {
		a.hook(st, ev)
		if ev.Kind == "after" && ev.Name == "proto.Unmarshal" && len(ev.Args) == 2 {
			x := ev.Args[1]
			for (x.Op == "iface" || x.Op == "conv") && len(x.Args) == 1 {
				x = x.Args[0]
			}
			// what was decoded once can be decoded again
			l := "decodes:" + join(st, ev.Args[0]) + ":" + typeName(elemOrSelf(x.Typ))
			delete(again, x)
			if st.Is(l) {
				again[x] = "decoded(" + join(st, ev.Args[0]) + ")"
			} else {
				st.CondGen('N', ev.Res[0], "decoded", x, ev.Args[0])
				st.CondGen('N', ev.Res[0], l)
			}
		}
		if ev.Kind == "after" && lastIs(ev.Name, "ToOutputScript") && len(ev.Res) == 2 {
			st.CondGen('N', ev.Res[1], "address:"+join(st, ev.Args[0]))
		}
	}
	return a
}

// clientNew: the client works on the chain asked for.
func (c *Check) clientNew() {
	fn := c.P.Func(tradePkg, "NewTrade")
	if fn == nil {
		c.Ob("anchor", "trade.NewTrade", false, "-", "the client is not made anymore")
		return
	}
	good := 0
	for _, chain := range []string{"Liquid", "Regtest", "Testnet"} {
		chain := chain
		a := c.clientTracer("NewTrade/"+chain, fn)
		hook := a.e.hook
		a.e.hook = func(st *State, ev *Event) {
			hook(st, ev)
			if ev.Kind != "return" || ev.Frame.parent != nil {
				return
			}
			_, ok := outcomes(st, ev)
			if ok == nil {
				return
			}
			if chain == "Testnet" {
				c.At(ev, "new/chain", a.name, false, "a client is made for an unknown chain")
				return
			}
			good++
			if v := a.field(ok, ev.Res[0], "network"); true {
				c.At(ev, "new/network", a.name, v != nil && v.All(func(x *Term) bool { return x.Op == "global" && x.Aux == "network."+chain }), "the client may work on another network than the one asked for")
			}
			for _, f := range []string{"explorer=ExplorerService", "client=Client"} {
				i := strings.Index(f, "=")
				ps := a.sources(ok, ev.Res[0], f[:i])
				c.At(ev, "new/"+f[:i], a.name, only(ps, "a0."+f[i+1:]) && a.holds(ok, "nonnil a0."+f[i+1:]), "the client is made with "+strings.Join(ps, "|"))
			}
		}
		c.AnalyzeWith(a.e, fn, chain, func(st *State, args []*Term) {
			x := fieldByName(a.e, st, args[0], "Chain")
			var net types.Type
			if s, ok := c.clientType("Trade").Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if p, ok := s.Field(i).Type().(*types.Pointer); ok && typeName(p) == "network.Network" {
						net = p.Elem()
					}
				}
			}
			if x == nil || net == nil {
				return
			}
			for _, n := range []string{"Liquid", "Regtest", "Testnet"} {
				g := a.e.tab.mk("gload", "network."+n, net)
				k := byte('F')
				if n == chain {
					k = 'T'
				}
				y := fieldByName(a.e, st, g, "Name")
				st.assume(a.e.eqT(x, y), k)
				st.assume(a.e.eqT(y, x), k)
			}
		})
	}
	c.Need("new", good, 2, "clients made")
}

// said: the source of each part of a value.
func (c *Check) said(a *api, st *State, ev *Event, rule string, v *Term, want []string) {
	for _, w := range want {
		i := strings.Index(w, "=")
		ps := a.sources(st, v, w[:i])
		c.At(ev, rule, a.name+"."+w[:i], only(ps, w[i+1:]), w[:i]+" is "+strings.Join(ps, "|")+" instead of "+w[i+1:])
	}
}

// deep: as sources, for options passed by value.
func (c *Check) opts(a *api, st *State, ev *Event, rule string, want []string) {
	c.said(a, st, ev, rule, ev.Args[len(ev.Args)-1], want)
}

func (c *Check) clientType(name string) *types.Named {
	return c.P.Named(tradePkg, name)
}

// clientCalls: what is sent to the remote service.
func (c *Check) clientCalls() {
	market := mktOf("Market", "a0.Market")
	// the two assets are hashes
	valid := one("asset a0.Market.BaseAsset", "asset a0.Market.QuoteAsset")
	specs := map[string]struct {
		req    []string
		guards []string
		stream bool
	}{
		"Markets":       {},
		"Balances":      {req: market, guards: valid},
		"MarketPrice":   {req: pairs(market, one("Type=a0.TradeType", "Amount=a0.Amount", "Asset=a0.Asset")), guards: pairs(valid, one("tradetype a0.TradeType", "positive a0.Amount", "asset a0.Asset"))},
		"TradePropose":  {req: pairs(market, one("Type=a0.TradeType", "SwapRequest=decoded(a0.SwapRequest)")), guards: pairs(valid, one("tradetype a0.TradeType")), stream: true},
		"TradeComplete": {req: one("SwapComplete=decoded(a0.SwapComplete)?", "SwapFail=decoded(a0.SwapFail)?"), stream: true},
	}
	for _, name := range sortedKeys(specs) {
		spec := specs[name]
		fn := c.P.Method(c.P.Named(tradePkg+"/client", "Client"), name)
		if fn == nil {
			c.Ob("anchor", "Client."+name, false, "-", "the call of the remote service is gone")
			continue
		}
		name := name
		a := c.clientTracer("Client."+name, fn)
		n := 0
		hook := a.e.hook
		a.e.hook = func(st *State, ev *Event) {
			hook(st, ev)
			rpc := strings.HasSuffix(ev.Name, ".TradeClient."+name) || ev.Name == "TradeClient."+name
			switch {
			case ev.Kind == "call" && rpc:
				n++
				req := ev.Args[2]
				for _, w := range spec.req {
					i := strings.Index(w, "=")
					f, src := w[:i], w[i+1:]
					opt := strings.HasSuffix(src, "?")
					src = strings.TrimSuffix(src, "?")
					ps := a.sources(st, req, f)
					bad := a.expect(st, func(f string) []string { return a.sources(st, req, f) }, one(w))
					c.At(ev, "client/request", a.name+"."+f, len(bad) == 0, "the request carries "+strings.Join(ps, "|")+" instead of "+src)
					if opt {
						given := strings.TrimSuffix(strings.TrimPrefix(src, "decoded("), ")")
						c.At(ev, "client/request", a.name+"."+f+" if given", !a.missing2(st, a.field(st, req, f), given), "the request may not carry the "+f+" given")
					}
				}
				for _, g := range spec.guards {
					c.At(ev, "client/valid", a.name+": "+g, a.holds(st, g) || st.Is("type:"+strings.TrimPrefix(g, "tradetype ")), "the request is sent though this may not hold: "+g)
				}
			case ev.Kind == "return" && ev.Frame.parent == nil:
				if _, good := outcomes(st, ev); good != nil {
					src := "reply(" + name + ")"
					if spec.stream {
						src = "reply(Recv)"
					}
					ps := a.paths(good, ev.Res[0])
					c.At(ev, "client/reply", a.name, only(ps, src), "what is returned is not the reply of the server: "+strings.Join(ps, "|"))
					c.At(ev, "client/reply", a.name+": error", good.Is("sent"), "a call that failed is not reported")
				}
			case ev.Kind == "after" && (rpc && !spec.stream || spec.stream && lastIs(ev.Name, "Recv")):
				st.CondGen('N', ev.Res[len(ev.Res)-1], "sent")
			}
		}
		c.Analyze(a.e, fn)
		c.Need("client/"+name, n, 1, "requests sent by "+name)
	}
}

// missing2: as missing, for parts made out of bytes.
func (a *api) missing2(st *State, v *Term, src string) bool {
	if v == nil {
		return true
	}
	s2 := st.lightClone()
	if !s2.assume(v, 'N') {
		return false
	}
	ok := false
	s2.Each(func(k byte, t *Term) bool {
		if k == 'T' && t.Op == "empty" && only(a.paths(s2, t.Args[0]), src) || k == 'N' && only(a.paths(s2, t), src) {
			ok = true
		}
		return ok
	})
	return !ok
}

func (c *Check) clientPreview() {
	fn := c.P.Method(c.clientType("Trade"), "Preview")
	if fn == nil {
		c.Ob("anchor", "Trade.Preview", false, "-", "the preview of the client is gone")
		return
	}
	buy, sell := c.intConst(tradePkg+"/type", "Buy"), c.intConst(tradePkg+"/type", "Sell")
	c.Ob("preview/types", "trade types", buy == c.intConst(app, "TradeBuy") && sell == c.intConst(app, "TradeSell"), "-", "the types of trade of the client are not those of the daemon")
	n := 0
	for _, kind := range []string{"buy", "sell"} {
		for _, given := range []string{"BaseAsset", "QuoteAsset"} {
			kind, given := kind, given
			other := map[string]string{"BaseAsset": "QuoteAsset", "QuoteAsset": "BaseAsset"}[given]
			a := c.clientTracer("Preview/"+kind+" "+given, fn)
			hook := a.e.hook
			// one of two names of the same asset
			same := map[string]string{"a0.Market." + given: "a0.Asset", "reply(MarketPrice).Prices[0].Asset": "a0.Market." + other}
			canon := func(ps []string) []string {
				set := map[string]bool{}
				for _, p := range ps {
					if q, ok := same[p]; ok {
						p = q
					}
					set[p] = true
				}
				return sortedKeysB(set)
			}
			a.e.hook = func(st *State, ev *Event) {
				hook(st, ev)
				switch {
				case ev.Kind == "call" && lastIs(ev.Name, "Client.MarketPrice"):
					n++
					for _, w := range pairs(mktOf("Market", "a0.Market"), one("TradeType=a0.TradeType", "Amount=a0.Amount", "Asset=a0.Asset")) {
						i := strings.Index(w, "=")
						ps := canon(a.sources(st, ev.Args[len(ev.Args)-1], w[:i]))
						c.At(ev, "preview/asked", a.name+"."+w[:i], only(ps, canon(one(w[i+1:]))[0]), w[:i]+" asked for is "+strings.Join(ps, "|"))
					}
				case ev.Kind == "after" && lastIs(ev.Name, "Client.MarketPrice"):
					st.CondGen('N', ev.Res[1], "quoted")
				case ev.Kind == "return" && ev.Frame.parent == nil:
					_, good := outcomes(st, ev)
					if good == nil {
						return
					}
					const price = "reply(MarketPrice).Prices[0]"
					c.At(ev, "preview/quoted", a.name, good.Is("quoted"), "amounts are previewed though the server did not quote any")
					otherIs := false
					good.Each(func(k byte, t *Term) bool {
						if k == 'T' && t.Op == "eq" {
							l, r := strings.Join(a.paths(good, t.Args[0]), "|"), strings.Join(a.paths(good, t.Args[1]), "|")
							o := "a0.Market." + other
							otherIs = otherIs || l == price+".Asset" && r == o || r == price+".Asset" && l == o
						}
						return otherIs
					})
					c.At(ev, "preview/asset", a.name, otherIs, "the amount quoted may be of another asset than the other one of the market")
					mine, theirs := [2]string{"a0.Asset", "a0.Amount"}, [2]string{"a0.Market." + other, price + ".Amount"}
					// buying base, the base is received; selling it, it's sent
					send, get := mine, theirs
					if (kind == "buy") == (given == "BaseAsset") {
						send, get = theirs, mine
					}
					for _, w := range []string{"AssetToSend=" + send[0], "AmountToSend=" + send[1], "AssetToReceive=" + get[0], "AmountToReceive=" + get[1]} {
						i := strings.Index(w, "=")
						ps := canon(a.sources(good, ev.Res[0], w[:i]))
						c.At(ev, "preview/result", a.name+"."+w[:i], only(ps, w[i+1:]), w[:i]+" is "+strings.Join(ps, "|")+" instead of "+w[i+1:])
					}
				}
			}
			c.AnalyzeWith(a.e, fn, kind+"-"+given, func(st *State, args []*Term) {
				o := args[1]
				get := func(p ...string) *Term {
					v := o
					for _, f := range p {
						v = fieldByName(a.e, st, v, f)
					}
					return v
				}
				k := map[string]int64{"buy": buy, "sell": sell}[kind]
				st.assume(a.e.eqT(get("TradeType"), a.e.tab.constant(constant.MakeInt64(k), types.Typ[types.Int])), 'T')
				st.assume(a.e.eqT(get("TradeType"), a.e.tab.constant(constant.MakeInt64(buy+sell-k), types.Typ[types.Int])), 'F')
				st.assume(a.e.eqT(get("Asset"), get("Market", given)), 'T')
				st.assume(a.e.eqT(get("Asset"), get("Market", other)), 'F')
				st.assume(a.e.eqT(get("Market", other), get("Asset")), 'F')
			})
		}
	}
	c.Need("preview", n, 4, "quotes asked for")
}

// clientOrders: from the preview to the proposal and its completion.
func (c *Check) clientOrders() {
	n := 0
	for _, name := range []string{"Buy", "Sell", "BuyAndComplete", "SellAndComplete"} {
		fn := c.P.Method(c.clientType("Trade"), name)
		if fn == nil {
			c.Ob("anchor", "Trade."+name, false, "-", "the operation of the client is gone")
			continue
		}
		n++
		complete := strings.HasSuffix(name, "AndComplete")
		typ := "nil" // zero
		if k := c.intConst(tradePkg+"/type", strings.TrimSuffix(name, "AndComplete")); k != 0 {
			typ = itoa(int(k))
		}
		wallet := "wallet(a0.PrivateKey;a0.BlindingKey;t.network)"
		addr := "a0.Address"
		if complete {
			addr = wallet + ".address"
		}
		script := "scriptof(" + addr + ")"
		a := c.clientTracer(name, fn)
		seen := map[string]int{}
		hook := a.e.hook
		step := func(st *State, ev *Event, k string) {
			st.CondGen('N', ev.Res[len(ev.Res)-1], "ok:"+k)
		}
		lbl := func(st *State, ev *Event, kind string, before ...string) {
			seen[kind]++
			for _, b := range before {
				c.At(ev, "order/steps", a.name+": "+kind+" after "+b, st.Is("ok:"+b), "this step is taken though "+b+" may have failed")
			}
		}
		var request, marshal, completed string
		a.e.hook = func(st *State, ev *Event) {
			hook(st, ev)
			join := func(t *Term) string { return strings.Join(a.paths(st, t), "|") }
			is := func(what string, t *Term, want string) {
				c.At(ev, "order/"+what, a.name, join(t) == want, what+" is "+join(t)+" instead of "+want)
			}
			after := ev.Kind == "after"
			if ev.Kind == "return" && ev.Frame.parent == nil {
				_, good := outcomes(st, ev)
				if good == nil {
					return
				}
				p := strings.Join(a.paths(good, ev.Res[0]), "|")
				if complete {
					c.At(ev, "order/result", a.name, p == "reply(TradeComplete).Txid" && good.Is("ok:complete"), "what is returned is not the id of the transaction completing the trade: "+p)
					c.At(ev, "order/failed", a.name, a.holds(good, "nil reply(TradeComplete).SwapFail"), "a failure reported by the server is not reported")
				} else {
					c.At(ev, "order/result", a.name, p == marshal && okErr2(good, ev.Res[0]), "what is returned is not the accept message of the server: "+p)
				}
				return
			}
			if ev.Kind != "call" && !after {
				return
			}
			switch {
			case strings.HasSuffix(ev.Name, "Service.GetUnspents"):
				if after {
					step(st, ev, "unspents")
					return
				}
				lbl(st, ev, "unspents")
				is("unspents/address", ev.Args[1], addr)
				is("unspents/keys", ev.Args[2], "[a0.BlindingKey]")
				for _, g := range one("asset a0.Market.BaseAsset", "asset a0.Market.QuoteAsset", "positive a0.Amount", "asset a0.Asset", "nonempty a0.BlindingKey") {
					c.At(ev, "order/valid", a.name+": "+g, a.holds(st, g), "an order is placed though this may not hold: "+g)
				}
				if complete {
					c.At(ev, "order/valid", a.name+": key", a.holds(st, "nonempty a0.PrivateKey"), "an order is placed with no private key")
				} else {
					c.At(ev, "order/valid", a.name+": address", st.Is("address:"+addr), "an order is placed for an address not known to be valid")
				}
			case ev.Name == "trade.Trade.Preview":
				if after {
					step(st, ev, "preview")
					return
				}
				lbl(st, ev, "preview")
				c.opts(a, st, ev, "order/preview", pairs(mktOf("Market", "a0.Market"), one("TradeType="+typ, "Amount=a0.Amount", "Asset=a0.Asset")))
			case ev.Name == "trade.NewSwapTx":
				if after {
					step(st, ev, "swaptx")
					return
				}
				lbl(st, ev, "swaptx", "unspents", "preview")
				for i, w := range []string{"unspents(" + addr + ";[a0.BlindingKey])", "preview.AssetToSend", "preview.AmountToSend", "preview.AssetToReceive", "preview.AmountToReceive", script} {
					is("swaptx/"+itoa(i), ev.Args[i], w)
				}
			case ev.Name == "swap.Request":
				if after {
					step(st, ev, "request")
					request = "request@" + itoa(ev.Res[0].Args[0].ID)
					return
				}
				lbl(st, ev, "request", "swaptx", "preview")
				c.opts(a, st, ev, "order/request", one("Id=nil", "AssetToSend=preview.AssetToSend", "AmountToSend=preview.AmountToSend", "AssetToReceive=preview.AssetToReceive", "AmountToReceive=preview.AmountToReceive", "PsetBase64=swaptx"))
				for _, f := range []string{"InputBlindingKeys", "OutputBlindingKeys"} {
					m := fieldByName(a.e, st, ev.Args[0], f)
					ok := m != nil
					if ok {
						rows := a.collect(st, m, map[*Term]bool{})
						ok = len(rows) == 1 && only(rows[0].row["key"], "hex("+script+")") && only(rows[0].row[""], "a0.BlindingKey")
					}
					c.At(ev, "order/request", a.name+"."+f, ok, f+" is not the blinding key of the user for the script of the user")
				}
			case strings.HasSuffix(ev.Name, "Client.TradePropose"):
				if after {
					step(st, ev, "propose")
					return
				}
				lbl(st, ev, "propose", "request")
				c.opts(a, st, ev, "order/propose", pairs(mktOf("Market", "a0.Market"), one("TradeType="+typ, "SwapRequest="+request)))
			case ev.Name == "proto.Marshal":
				if after {
					step(st, ev, "marshal")
					marshal = "marshal@" + itoa(ev.Res[0].Args[0].ID)
					return
				}
				lbl(st, ev, "marshal", "propose")
				is("accept", ev.Args[0], "reply(TradePropose).SwapAccept")
				c.At(ev, "order/rejected", a.name, a.holds(st, "nil reply(TradePropose).SwapFail"), "the rejection of the proposal is not reported")
			case ev.Name == "trade.Wallet.Sign":
				if after {
					step(st, ev, "sign")
					return
				}
				lbl(st, ev, "sign", "propose", "marshal")
				is("sign/wallet", ev.Args[0], wallet)
				p := join(ev.Args[1])
				c.At(ev, "order/sign", a.name, p == "decoded("+marshal+").Transaction" || p == "reply(TradePropose).SwapAccept.Transaction", "what is signed is not the accepted transaction: "+p)
				c.At(ev, "order/checked", a.name, st.Is("checked"), "the transaction of the counterparty is signed without being compared with the one proposed")
			case ev.Name == "swap.Complete":
				if after {
					step(st, ev, "message")
					completed = "complete@" + itoa(ev.Res[0].Args[0].ID)
					return
				}
				lbl(st, ev, "message", "sign")
				p := join(fieldByName(a.e, st, ev.Args[0], "Transaction"))
				c.At(ev, "order/message", a.name+".Transaction", strings.HasPrefix(p, "signed("+wallet+";"), "the transaction completing the swap is not the one signed: "+p)
				c.opts(a, st, ev, "order/message", one("Message="+marshal))
			case strings.HasSuffix(ev.Name, "Client.TradeComplete"):
				if after {
					step(st, ev, "complete")
					return
				}
				lbl(st, ev, "complete", "message")
				c.opts(a, st, ev, "order/complete", one("SwapComplete="+completed, "SwapFail=nil"))
			default:
				// something is given both the proposal and the answer to it
				if after && len(ev.Res) > 0 {
					mine, theirs := false, false
					was := map[*Term]bool{}
					var walk func(x *Term)
					walk = func(x *Term) {
						if x == nil || was[x] {
							return
						}
						was[x] = true
						if strings.HasSuffix(x.CallName(), "Client.TradePropose") {
							theirs = true
							return
						}
						mine = mine || lastIs(x.CallName(), "trade.Trade.Preview", "trade.NewSwapTx", "swap.Request")
						for _, l := range [][]*Term{x.Args, x.Alts} {
							for _, y := range l {
								walk(y)
							}
						}
					}
					for _, x := range ev.Args {
						walk(x)
					}
					if mine && theirs {
						st.CondGen('N', ev.Res[len(ev.Res)-1], "checked")
					}
				}
			}
		}
		c.Analyze(a.e, fn)
		ops := []string{"unspents", "preview", "swaptx", "request", "propose", "marshal"}
		if complete {
			ops = append(ops, "sign", "message", "complete")
		}
		for _, k := range ops {
			c.Need("order/"+name+"/"+k, seen[k], 1, k+" steps of "+name)
		}
	}
	c.Need("order", n, 4, "operations placing orders")
}

// clientSwapTx: the transaction proposed.
func (c *Check) clientSwapTx() {
	fn := c.P.Func(tradePkg, "NewSwapTx")
	if fn == nil {
		c.Ob("anchor", "trade.NewSwapTx", false, "-", "the transaction proposed is not made anymore")
		return
	}
	a := c.clientTracer("NewSwapTx", fn)
	e := a.e
	hook := e.hook
	isCoins := func(st *State) func(*Term) bool {
		return func(t *Term) bool { return only(a.paths(st, t), "coins") }
	}
	e.onAssume = func(st *State, k byte, t *Term) {
		armedLoop("input", isCoins(st))(st, k, t)
		armedLoop("prevout", isCoins(st))(st, k, t)
		// no change to give
		if k == 'F' && t.Op == "lt" && t.Args[0].IsZero() && only(a.paths(st, t.Args[1]), "change") ||
			k == 'T' && t.Op == "eq" && (t.Args[0].IsZero() && only(a.paths(st, t.Args[1]), "change") || t.Args[1].IsZero() && only(a.paths(st, t.Args[0]), "change")) {
			st.Gen("change")
		}
	}
	ins, outs := 0, 0
	e.hook = func(st *State, ev *Event) {
		hook(st, ev)
		join := func(t *Term) string { return strings.Join(a.paths(st, t), "|") }
		switch {
		case ev.Kind == "call" && ev.Name == "explorer.SelectUnspents":
			for i, w := range []string{"a0", "a2", "a1"} {
				c.At(ev, "swaptx/select", a.name+"/"+itoa(i), join(ev.Args[i]) == w, "the coins selected are not those covering the amount to send: "+join(ev.Args[i]))
			}
		case ev.Kind == "after" && ev.Name == "explorer.SelectUnspents":
			st.CondGen('N', ev.Res[2], "selected")
		case ev.Kind == "call" && lastIs(ev.Name, "Updater.AddInput", "Transaction.AddInput"):
			ins++
			c.At(ev, "swaptx/input", a.name, join(ev.Args[1]) == "parsed0(coins[])" && okErr2(st, ev.Args[1]) && st.Is("selected"), "the input added is not a selected coin: "+join(ev.Args[1]))
			st.Gen("did:input")
			st.Gen("input", ev.Args[1])
		case ev.Kind == "call" && lastIs(ev.Name, "Updater.AddInWitnessUtxo"):
			x := ev.Args[1]
			in := st.HasMatch('L', func(t *Term) bool {
				return t.Aux == "input" && t.Args[0].Op == "extract" && x.Op == "extract" && t.Args[0].Args[0] == x.Args[0]
			})
			c.At(ev, "swaptx/prevout", a.name, join(x) == "parsed1(coins[])" && in, "the prevout set is not that of the input added: "+join(x))
			i := ev.Args[2]
			last := i.Op == "bin" && i.Aux == "-" && i.Args[0].Op == "len" && strings.HasSuffix(join(i.Args[0].Args[0]), ".Inputs") && i.Args[1].str(0) == "1"
			if !last {
				lin := linear(i)
				one, n := lin[nil], 0
				for t, k := range lin {
					if t != nil && k == 1 && t.Op == "len" && strings.HasSuffix(join(t.Args[0]), ".Inputs") {
						n++
					}
				}
				last = n == 1 && one == -1 && len(lin) == 2
			}
			c.At(ev, "swaptx/prevout", a.name+" index", last || sameItem(i, x), "the prevout is not set for the last input")
		case ev.Kind == "after" && lastIs(ev.Name, "Updater.AddInWitnessUtxo"):
			st.CondGen('N', ev.Res[0], "did:prevout")
		case ev.Kind == "call" && lastIs(ev.Name, "Updater.AddOutput", "Transaction.AddOutput"):
			outs++
			x := ev.Args[1]
			if x.CallName() != "transaction.NewTxOutput" {
				c.At(ev, "swaptx/output", a.name, false, "an output is added that is not made here")
				return
			}
			as := x.CallArgs()
			got := join(as[0]) + " " + join(as[1]) + " " + join(as[2])
			ok := okErr2(st, as[0]) && okErr2(st, as[1])
			switch got {
			case "assetbytes(a3) valuebytes(a4) a5":
				c.At(ev, "swaptx/output", a.name, ok && !st.Is("!receive"), "the output received is made twice or of failed conversions")
				st.Gen("receive")
				st.Gen("!receive")
			case "assetbytes(a1) valuebytes(change) a5":
				c.At(ev, "swaptx/output", a.name, ok && !st.Is("!change"), "the change is returned twice or made of failed conversions")
				st.Gen("change")
				st.Gen("!change")
			default:
				c.At(ev, "swaptx/output", a.name, false, "an output is added that is neither what is received nor the change: "+got)
			}
		case ev.Kind == "return" && ev.Frame.parent == nil:
			if _, good := outcomes(st, ev); good != nil {
				c.At(ev, "swaptx/done", a.name+" inputs", good.Is("all:input") && good.Is("all:prevout") && good.Is("selected"), "not all the selected coins are spent")
				c.At(ev, "swaptx/done", a.name+" output", good.Is("receive"), "nothing is received")
				c.At(ev, "swaptx/done", a.name+" change", good.Is("change"), "the change may not be returned")
				p := strings.Join(a.paths(good, ev.Res[0]), "|")
				c.At(ev, "swaptx/result", a.name, p == "newpset.b64" && okErr2(good, ev.Res[0]), "what is returned is not the transaction built: "+p)
			}
		}
	}
	c.AnalyzeWith(e, fn, "", func(st *State, _ []*Term) { st.Gen("did:input"); st.Gen("did:prevout") })
	c.Need("swaptx/inputs", ins, 1, "inputs added")
	c.Need("swaptx/outputs", outs, 2, "outputs added")
}

// clientWallet: the keys of the user of the client.
func (c *Check) clientWallet() {
	w := c.clientType("Wallet")
	const pay = "payment(pub(t.privateKey);t.network;pub(t.blindingPrivateKey))"
	results := map[string][]string{
		"Address":     one("ctaddr(" + pay + ")"),
		"Script":      one(pay+".Script", pay+".WitnessScript"),
		"PrivateKey":  one("Serialize(t.privateKey)"),
		"BlindingKey": one("Serialize(t.blindingPrivateKey)"),
	}
	for _, name := range sortedKeys(results) {
		fn := c.P.Method(w, name)
		if fn == nil {
			c.Ob("anchor", "Wallet."+name, false, "-", "the operation of the keys of the user is gone")
			continue
		}
		a := c.clientTracer("Wallet."+name, fn)
		hook, name := a.e.hook, name
		a.e.hook = func(st *State, ev *Event) {
			hook(st, ev)
			if ev.Kind == "return" && ev.Frame.parent == nil {
				for i, want := range results[name] {
					ps := a.paths(st, ev.Res[i])
					c.At(ev, "wallet/result", a.name+"#"+itoa(i), only(ps, want), "the result is "+strings.Join(ps, "|")+" instead of "+want)
				}
			}
		}
		c.Analyze(a.e, fn)
	}
	for _, name := range []string{"NewWalletFromKey", "NewRandomWallet"} {
		fn := c.P.Func(tradePkg, name)
		if fn == nil {
			c.Ob("anchor", "trade."+name, false, "-", "the keys of the user are not made anymore")
			continue
		}
		a := c.clientTracer(name, fn)
		hook, name := a.e.hook, name
		a.e.hook = func(st *State, ev *Event) {
			hook(st, ev)
			if ev.Kind == "return" && ev.Frame.parent == nil {
				get := func(st *State, f string) []string { return a.sources(st, ev.Res[0], f) }
				if name == "NewWalletFromKey" {
					for f, want := range map[string]string{"privateKey": "privkey(a0)", "blindingPrivateKey": "privkey(a1)", "network": "a2"} {
						c.At(ev, "wallet/made", a.name+"."+f, only(get(st, f), want), f+" is "+strings.Join(get(st, f), "|")+" instead of "+want)
					}
					return
				}
				if _, good := outcomes(st, ev); good != nil {
					k, b, n := get(good, "privateKey"), get(good, "blindingPrivateKey"), get(good, "network")
					ok := len(k) == 1 && len(b) == 1 && strings.HasPrefix(k[0], "newkey@") && strings.HasPrefix(b[0], "newkey@") && k[0] != b[0]
					for _, f := range []string{"privateKey", "blindingPrivateKey"} {
						v := a.field(good, ev.Res[0], f)
						ok = ok && v != nil && okErr2(good, v)
					}
					c.At(ev, "wallet/made", a.name, ok && only(n, "a0"), "the keys are not two new ones")
				}
			}
		}
		c.Analyze(a.e, fn)
	}
	c.clientSign(c.P.Method(w, "Sign"))
}

func (c *Check) clientSign(fn *ssa.Function) {
	if fn == nil {
		c.Ob("anchor", "Wallet.Sign", false, "-", "the operation signing for the user is gone")
		return
	}
	a := c.clientTracer("Wallet.Sign", fn)
	e := a.e
	const in = "pset(a0).Inputs[]"
	signs := 0
	mine := func(st *State, t *Term) bool {
		if !lastIs(t.CallName(), "bytes.Equal") && t.Op != "eq" {
			return false
		}
		as := t.Args
		if t.Op == "call" {
			as = t.CallArgs()
		}
		if len(as) != 2 {
			return false
		}
		l, r := strings.Join(a.paths(st, as[0]), "|"), strings.Join(a.paths(st, as[1]), "|")
		return l == in+".WitnessUtxo.Script" && r == "t.script" || r == in+".WitnessUtxo.Script" && l == "t.script"
	}
	e.onAssume = func(st *State, k byte, t *Term) {
		armedLoop("sign", func(t *Term) bool { return only(a.paths(st, t), "pset(a0).Inputs") })(st, k, t)
		switch {
		case k == 'T' && lastIs(t.CallName(), "Verify") && len(t.CallArgs()) == 3:
			st.Gen("verified", t.CallArgs()[0])
		case k == 'F' && mine(st, t):
			st.Gen("did:sign") // of someone else
		case (k == 'T' && t.Op == "isnil" && only(a.paths(st, t.Args[0]), in+".WitnessUtxo")) || k == 'N' && only(a.paths(st, t), in+".WitnessUtxo"):
			st.Gen("did:sign")
		case k == 'T' && mine(st, t):
			st.Gen("mine", t)
		}
	}
	hook := e.hook
	e.hook = func(st *State, ev *Event) {
		hook(st, ev)
		path := func(t *Term) string { return strings.Join(a.paths(st, t), "|") }
		switch {
		case ev.Kind == "call" && ev.Name == "pset.Updater.Sign" && len(ev.Args) >= 4:
			signs++
			ob := func(what string, ok bool, msg string) { c.At(ev, "sign/"+what, a.name, ok, msg) }
			idx := ev.Args[1]
			ob("pset", path(ev.Args[0]) == "updater(pset(a0))", "another transaction than the given one is signed")
			ob("mine", st.HasMatch('L', func(t *Term) bool {
				return t.Aux == "mine" && sameItem(idx, t.Args[0])
			}), "an input is signed that is not known to be the user's")
			sig := ev.Args[2]
			hashType, s := false, (*Term)(nil)
			if sig.Op == "append" && len(sig.Args) == 2 {
				if els := e.Elems(st, sig.Args[1]); len(els) == 1 {
					v, ok := unconv(els[0]).IntConst()
					hashType = ok && v == 1
				}
				if x := sig.Args[0]; x.CallName() == "btcec.Signature.Serialize" {
					s = x.CallArgs()[0]
				}
			}
			ob("type", hashType, "the signature does not commit to the whole transaction")
			if s == nil || s.Op != "extract" || s.Args[0].CallName() != "btcec.PrivateKey.Sign" {
				ob("signature", false, "the signature is not one made with a private key")
				return
			}
			ob("signature", okErr(st, s), "a failed signature is used")
			priv, h := s.Args[0].CallArgs()[0], s.Args[0].CallArgs()[1]
			if h.Op == "slice" && h.Args[0].Op == "alloc" {
				h = cell(st, h.Args[0])
			}
			ob("key", path(priv) == "t.privateKey", "the key is not that of the user")
			ob("pubkey", path(ev.Args[3]) == "SerializeCompressed(pub(t.privateKey))", "the public key given is not the one of the signature")
			if h == nil || h.CallName() != "transaction.Transaction.HashForWitnessV0" {
				ob("hash", false, "what is signed is not the hash of the transaction")
				return
			}
			ha := h.CallArgs()
			ob("hash", path(ha[0]) == "pset(a0).UnsignedTx" && ha[1] == idx, "what is signed is not the hash of this transaction for this input")
			ob("hash/script", path(ha[2]) == "t.redeem", "the script signed for is not that of the user: "+path(ha[2]))
			ob("hash/value", path(ha[3]) == in+".WitnessUtxo.Value" && sameItem(idx, ha[3]), "the value signed for is not that of the input: "+path(ha[3]))
			v, ok := unconv(ha[4]).IntConst()
			ob("hash/type", ok && v == 1, "the signature does not commit to the whole transaction")
			ob("verified", st.HasMatch('L', func(l *Term) bool { return l.Aux == "verified" && l.Args[0] == s }), "the signature is added without being verified")
		case ev.Kind == "after" && ev.Name == "pset.Updater.Sign" && len(ev.Res) == 2:
			st.CondGen('N', ev.Res[1], "did:sign")
		case ev.Kind == "return" && ev.Frame.parent == nil:
			if _, good := outcomes(st, ev); good != nil {
				c.At(ev, "sign/done", a.name, good.Is("all:sign"), "a transaction is returned though some input of the user is not signed")
				c.At(ev, "sign/result", a.name, only(a.paths(good, ev.Res[0]), "pset(a0).b64"), "what is returned is not the transaction signed")
			}
		}
	}
	c.AnalyzeWith(e, fn, "", func(st *State, _ []*Term) { st.Gen("did:sign") })
	c.Need("sign", signs, 1, "signatures added by the client")
}
