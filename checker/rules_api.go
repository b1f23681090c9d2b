package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const handlerPkg = "internal/interfaces/grpc/handler"

// C18: what clients send reaches the services validated and unchanged, and
// what these return reaches the clients.
func init() {
	rules["C18"] = func(c *Check) {
		c.Note("Each method of the published services is followed from the request to the call of the application service and back to the reply, with the validators and conversions of the handlers inlined; every field of arguments and replies is traced to the field it must come from.")
		c.Assume("generated protobuf code and grpc-go deliver messages as sent; list elements of a received message are not nil")
		c.apiHandlers()
		c.apiEnums()
		c.apiInterceptors()
	}
}

type rpcSpec struct {
	call string // method of the application service
	// what must hold of the request when the service is called
	guards []string
	args   []string // field of an argument = its source
	reply  []string // field of the reply = its source
	// parts that may be missing only if their source is: part=source
	present []string
}

func pairs(ss ...[]string) (out []string) {
	for _, s := range ss {
		out = append(out, s...)
	}
	return
}

func sub(dst, src string, fields ...string) (out []string) {
	for _, f := range fields {
		d, s := f, f
		if i := strings.Index(f, "="); i >= 0 {
			d, s = f[:i], f[i+1:]
		}
		if dst != "" {
			d = dst + "." + d
		}
		out = append(out, d+"="+src+"."+s)
	}
	return
}

func mktOf(dst, src string) []string { return sub(dst, src, "BaseAsset", "QuoteAsset") }
func feeOf(dst, src string) []string {
	return sub(dst, src, "BasisPoint", "Fixed.BaseFee=FixedBaseFee", "Fixed.QuoteFee=FixedQuoteFee")
}
func balOf(dst, src string) []string   { return sub(dst, src, "BaseAmount", "QuoteAmount") }
func priceOf(dst, src string) []string { return sub(dst, src, "BasePrice", "QuotePrice") }
func one(s ...string) []string         { return s }

var validMarket = one("market req.Market", "nonempty req.Market.QuoteAsset")

func (c *Check) rpcSpecs() map[string]rpcSpec {
	swapFail := sub("SwapFail", "res1", "Id=Id?", "MessageId=MessageId?", "FailureCode=FailureCode?", "FailureMessage=FailureMessage?")
	utxos := func(l string) []string {
		return sub("InfoPerAccount[]."+l+"[]", "res0[]."+l+"[]", "Outpoint.Hash", "Outpoint.Index", "Value", "Asset")
	}
	return map[string]rpcSpec{
		// trade
		"Trade.Markets": {call: "GetTradableMarkets",
			reply: pairs(mktOf("Markets[].Market", "res0[].Market"), feeOf("Markets[].Fee", "res0[].Fee"))},
		"Trade.Balances": {call: "GetMarketBalance", guards: validMarket, args: mktOf("a0", "req.Market"),
			reply: pairs(balOf("Balances[].Balance", "res0.Balance"), feeOf("Balances[].Fee", "res0.Fee"))},
		"Trade.MarketPrice": {call: "GetMarketPrice",
			guards: pairs(validMarket, one("tradetype req.Type", "positive req.Amount", "asset req.Asset")),
			args:   pairs(mktOf("a0", "req.Market"), one("a1=req.Type", "a2=req.Amount", "a3=req.Asset")),
			reply: pairs(priceOf("Prices[].Price", "res0.Price"), feeOf("Prices[].Fee", "res0.Fee"),
				balOf("Prices[].Balance", "res0.Balance"), one("Prices[].Amount=res0.Amount", "Prices[].Asset=res0.Asset"))},
		"Trade.TradePropose": {call: "TradePropose",
			guards: pairs(validMarket, one("tradetype req.Type", "nonnil req.SwapRequest", "positive req.SwapRequest.AmountP", "positive req.SwapRequest.AmountR",
				"nonempty req.SwapRequest.AssetP", "nonempty req.SwapRequest.AssetR", "nonempty req.SwapRequest.Transaction",
				"nonempty req.SwapRequest.InputBlindingKey", "nonempty req.SwapRequest.OutputBlindingKey")),
			args: pairs(mktOf("a0", "req.Market"), one("a1=req.Type", "a2=req.SwapRequest")),
			reply: pairs(sub("SwapAccept", "res0", "Id=Id?", "RequestId=RequestId?", "Transaction=Transaction?", "InputBlindingKey=InputBlindingKey?", "OutputBlindingKey=OutputBlindingKey?"),
				swapFail, one("ExpiryTimeUnix=res2")),
			present: one("SwapAccept=res0", "SwapFail=res1")},
		"Trade.TradeComplete": {call: "TradeComplete", args: one("a0=req.SwapComplete?", "a1=req.SwapFail?"),
			reply:   pairs(one("Txid=res0"), swapFail),
			present: one("a0=req.SwapComplete", "a1=req.SwapFail", "SwapFail=res1")},
		// operator
		"Operator.DepositMarket": {call: "DepositMarket", guards: one("nonneg req.NumOfAddresses"),
			args:  one("a0=req.Market.BaseAsset", "a1=req.Market.QuoteAsset", "a2=req.NumOfAddresses"),
			reply: one("Addresses[]=res0[].Address")},
		"Operator.DepositFeeAccount": {call: "DepositFeeAccount", guards: one("nonneg req.NumOfAddresses"),
			args:  one("a0=req.NumOfAddresses"),
			reply: one("AddressWithBlindingKey[].Address=res0[].Address", "AddressWithBlindingKey[].Blinding=res0[].BlindingKey")},
		"Operator.OpenMarket":  {call: "OpenMarket", guards: validMarket, args: one("a0=req.Market.BaseAsset", "a1=req.Market.QuoteAsset")},
		"Operator.CloseMarket": {call: "CloseMarket", guards: validMarket, args: one("a0=req.Market.BaseAsset", "a1=req.Market.QuoteAsset")},
		"Operator.DropMarket":  {call: "DropMarket", args: one("a0=req.AccountIndex")},
		"Operator.UpdateMarketPercentageFee": {call: "UpdateMarketPercentageFee", guards: validMarket,
			args:  pairs(mktOf("a0.Market", "req.Market"), one("a0.Fee.BasisPoint=req.BasisPoint")),
			reply: pairs(mktOf("MarketWithFee.Market", "res0.Market"), feeOf("MarketWithFee.Fee", "res0.Fee"))},
		"Operator.UpdateMarketFixedFee": {call: "UpdateMarketFixedFee", guards: pairs(validMarket, one("nonnil req.Fixed")),
			args:  pairs(mktOf("a0.Market", "req.Market"), one("a0.Fee.FixedBaseFee=req.Fixed.BaseFee", "a0.Fee.FixedQuoteFee=req.Fixed.QuoteFee")),
			reply: pairs(mktOf("MarketWithFee.Market", "res0.Market"), feeOf("MarketWithFee.Fee", "res0.Fee"))},
		"Operator.UpdateMarketPrice": {call: "UpdateMarketPrice",
			guards: pairs(validMarket, one("positive req.Price.BasePrice", "positive req.Price.QuotePrice", "finite req.Price.BasePrice", "finite req.Price.QuotePrice")),
			args:   pairs(mktOf("a0.Market", "req.Market"), priceOf("a0.Price", "req.Price"))},
		"Operator.UpdateMarketStrategy": {call: "UpdateMarketStrategy", guards: pairs(validMarket, one("strategy req.StrategyType")),
			args: pairs(mktOf("a0.Market", "req.Market"), one("a0.Strategy=req.StrategyType"))},
		"Operator.ListTrades": {call: "ListTrades",
			reply: pairs(one("Trades[].TradeId=res0[].ID", "Trades[].Status.Status=res0[].Status.Code", "Trades[].Status.Failed=res0[].Status.Failed"),
				mktOf("Trades[].MarketWithFee.Market", "res0[].MarketWithFee.Market"), feeOf("Trades[].MarketWithFee.Fee", "res0[].MarketWithFee.Fee"),
				priceOf("Trades[].Price", "res0[].Price"),
				sub("Trades[]", "res0[]", "TxUrl=TxURL", "RequestTimeUnix", "AcceptTimeUnix", "CompleteTimeUnix", "SettleTimeUnix", "ExpiryTimeUnix",
					"RequestTimeUtc=RequestTimeUnix?", "AcceptTimeUtc=AcceptTimeUnix?", "CompleteTimeUtc=CompleteTimeUnix?", "SettleTimeUtc=SettleTimeUnix?", "ExpiryTimeUtc=ExpiryTimeUnix?",
					"SwapInfo.AssetP=SwapInfo.AssetP?", "SwapInfo.AmountP=SwapInfo.AmountP?", "SwapInfo.AssetR=SwapInfo.AssetR?", "SwapInfo.AmountR=SwapInfo.AmountR?",
					"FailInfo.FailureCode=SwapFailInfo.Code?", "FailInfo.FailureMessage=SwapFailInfo.Message?")),
			present: sub("Trades[]", "res0[]", "RequestTimeUtc=RequestTimeUnix", "AcceptTimeUtc=AcceptTimeUnix", "CompleteTimeUtc=CompleteTimeUnix",
				"SettleTimeUtc=SettleTimeUnix", "ExpiryTimeUtc=ExpiryTimeUnix", "SwapInfo", "FailInfo=SwapFailInfo")},
		"Operator.WithdrawMarket": {call: "WithdrawMarketFunds", guards: validMarket,
			args: pairs(mktOf("a0.Market", "req.Market"), balOf("a0.BalanceToWithdraw", "req.BalanceToWithdraw"),
				one("a0.MillisatPerByte=req.MillisatPerByte", "a0.Address=req.Address", "a0.Push=true")),
			reply: one("RawTx=res0")},
		"Operator.BalanceFeeAccount": {call: "FeeAccountBalance", reply: one("Balance=res0")},
		"Operator.ClaimMarketDeposit": {call: "ClaimMarketDeposit", guards: one("outpoints req.Outpoints"),
			args: pairs(mktOf("a0", "req.Market"), sub("a1[]", "req.Outpoints[]", "Hash", "Index"))},
		"Operator.ClaimFeeDeposit": {call: "ClaimFeeDeposit", guards: one("outpoints req.Outpoints"),
			args: sub("a0[]", "req.Outpoints[]", "Hash", "Index")},
		"Operator.ListDepositMarket": {call: "ListMarketExternalAddresses", guards: validMarket, args: mktOf("a0", "req.Market"),
			reply: one("Address[]=res0[]")},
		"Operator.ListMarket": {call: "ListMarket",
			reply: pairs(mktOf("Markets[].Market", "res0[].Market"), feeOf("Markets[].Fee", "res0[].Fee"), priceOf("Markets[].Price", "res0[].Price"),
				sub("Markets[]", "res0[]", "Tradable", "StrategyType=StrategyType?", "AccountIndex"))},
		"Operator.ReportMarketFee": {call: "GetCollectedMarketFee", guards: validMarket, args: mktOf("a0", "req.Market"),
			reply: pairs(sub("CollectedFees[]", "res0.CollectedFees[]", "TradeId=TradeID", "BasisPoint", "Asset", "Amount", "MarketPrice"),
				one("TotalCollectedFeesPerAsset[]=res0.TotalCollectedFeesPerAsset[]"))},
		"Operator.ReloadUtxos": {call: "ReloadUtxos"},
		"Operator.ListUtxos":   {call: "ListUtxos", reply: pairs(utxos("Unspents"), utxos("Spents"), utxos("Locks"))},
		"Operator.AddWebhook": {call: "AddWebhook",
			args: one("a0.ActionType=req.Action", "a0.Endpoint=req.Endpoint", "a0.Secret=req.Secret"), reply: one("Id=res0")},
		"Operator.RemoveWebhook": {call: "RemoveWebhook", args: one("a0=req.Id")},
		"Operator.ListWebhooks": {call: "ListWebhooks", args: one("a0=req.Action"),
			reply: sub("WebhookInfo[]", "res0[]", "Id", "Endpoint", "IsSecured")},
		// wallet
		"Wallet.GenSeed": {call: "GenSeed", reply: one("SeedMnemonic[]=res0[]")},
		"Wallet.InitWallet": {call: "InitWallet", guards: one("nonempty req.SeedMnemonic", "nonempty req.WalletPassword"),
			args:  one("a0[]=req.SeedMnemonic[]", "a1=req.WalletPassword", "a2=req.Restore"),
			reply: one("Account=msg.AccountIndex", "Index=msg.AddressIndex", "Status=msg.Status", "Data=msg.Data")},
		"Wallet.UnlockWallet": {call: "UnlockWallet", guards: one("nonempty req.WalletPassword"), args: one("a0=req.WalletPassword")},
		"Wallet.ChangePassword": {call: "ChangePassword", guards: one("nonempty req.CurrentPassword", "nonempty req.NewPassword"),
			args: one("a0=req.CurrentPassword", "a1=req.NewPassword")},
		"Wallet.WalletAddress": {call: "GenerateAddressAndBlindingKey", reply: one("Address=res0", "Blinding=res1")},
		"Wallet.WalletBalance": {call: "GetWalletBalance",
			reply: sub("Balance[]", "res0[]", "TotalBalance", "ConfirmedBalance", "UnconfirmedBalance")},
		"Wallet.SendToMany": {call: "SendToMany", guards: one("nonempty req.Outputs", "outputs req.Outputs", "feerate req.MillisatPerByte"),
			args: pairs(sub("a0.Outputs[]", "req.Outputs[]", "Asset", "Value", "Address"),
				one("a0.MillisatPerByte=req.MillisatPerByte", "a0.Push=true")),
			reply: one("RawTx=res0")},
	}
}

// api: one RPC being followed.
type api struct {
	c     *Check
	e     *Engine
	name  string
	spec  rpcSpec
	rows  map[string]map[ssa.Instruction]map[string][]string // container -> element -> field -> sources
	sufs  map[string]bool
	in    map[*Term][]apiElem                // where an element allocated here was put
	wrote *Term                              // the element just written to
	root  func(*State, *Term) (string, bool) // names the origin of values
}

type apiElem struct {
	ev   *Event
	cont string
}

// rewritten: an element is completed after it was put into a list.
func (a *api) rewritten(st *State) {
	t := a.wrote
	a.wrote = nil
	for _, x := range a.in[t] {
		a.element(st, x.ev, x.cont, t)
	}
}

// paths: what a value comes from.
func (a *api) paths(st *State, t *Term) []string {
	set := map[string]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term, suffix string)
	walk = func(t *Term, suffix string) {
		if t == nil || seen[t] && t.Op == "phi" {
			return
		}
		seen[t] = true
		if t.Op == "phi" {
			for _, x := range t.Alts {
				if !excluded(st, t, x) {
					walk(x, suffix)
				}
			}
			return
		}
		if (t.Op == "field" || t.Op == "faddr") && t.Args[0].Op == "phi" {
			for _, p := range a.paths(st, t.Args[0]) {
				set[p+"."+lastPart(t.Aux)+suffix] = true
			}
			return
		}
		if t.Op == "alloc" {
			// the address of a value
			if v := cell(st, t); v != nil && v != t && v.Op != "struct" {
				if _, isS := elemOrSelf(t.Typ).Underlying().(*types.Struct); !isS {
					walk(v, suffix)
					return
				}
			}
		}
		set[a.path(st, t)+suffix] = true
	}
	walk(t, "")
	return sortedKeysB(set)
}

func (a *api) path(st *State, t *Term) string {
	if t == nil {
		return "nothing"
	}
	if a.root != nil {
		if s, ok := a.root(st, t); ok {
			return s
		}
	}
	if b, ok := t.BoolConst(); ok {
		return map[bool]string{true: "true", false: "false"}[b]
	}
	if t.IsNil() || t.IsZero() || t.Op == "zero" {
		return "nil"
	}
	if s, ok := t.StrConst(); ok {
		if s == "" {
			return "nil"
		}
		return "the text " + s
	}
	switch t.Op {
	case "param":
		if typeName(t.Typ) != "" && isPbTerm(t) {
			return "req"
		}
	case "field", "faddr":
		if b := a.path(st, t.Args[0]); b != "" {
			return b + "." + lastPart(t.Aux)
		}
	case "index":
		if b := a.path(st, t.Args[0]); b != "" {
			if n, ok := t.Args[1].IntConst(); ok {
				return b + "[" + itoa(int(n)) + "]"
			}
			return b + "[]"
		}
	case "conv", "load", "deref", "iface":
		if len(t.Args) == 1 {
			if narrows(t) {
				return "trunc(" + a.path(st, t.Args[0]) + ")"
			}
			return a.path(st, t.Args[0])
		}
	case "alloc":
		if v := cell(st, t); v != nil && v != t {
			ps := a.paths(st, v)
			if len(ps) == 1 {
				return ps[0]
			}
		}
	case "recv", "select":
		return "msg"
	case "next":
		if x := loopVal(t); x != nil {
			return a.path(st, x) + "[]"
		}
		if x := loopKey(t); x != nil {
			return a.path(st, x) + "[key]"
		}
	case "lookup":
		return a.path(st, t.Args[0]) + "[]"
	case "extract":
		x := t.Args[0]
		switch {
		case lastPart(x.CallName()) == a.spec.call && a.isService(x.CallName()):
			return "res" + t.Aux
		case x.Op == "recv" || x.Op == "select":
			return "msg"
		case x.Op == "next":
			return a.path(st, a.e.tab.mk("next", t.Aux, t.Typ, x.Args...))
		case x.Op == "lookup" && t.Aux == "0":
			return a.path(st, x)
		case t.Aux == "0":
			return a.path(st, x)
		}
	case "call":
		n := t.CallName()
		args := t.CallArgs()
		switch {
		case lastPart(n) == a.spec.call && a.isService(n):
			return "res0"
		case len(args) == 1 && strings.HasPrefix(lastPart(n), "Get"):
			return a.path(st, args[0]) + "." + lastPart(n)[3:]
		case len(args) == 1 && isNumConv[n]:
			return a.path(st, args[0])
		case (n == "time.Time.String" || n == "time.Time.UTC") && len(args) == 1:
			return a.path(st, args[0])
		case n == "time.Unix" && len(args) == 2 && args[1].IsZero():
			return a.path(st, args[0])
		}
	}
	return "?" + t.Op
}

var isNumConv = map[string]bool{
	"decimal.Decimal.Float64": true, "decimal.Decimal.BigFloat": true, "big.Float.Float32": true, "big.Float.Float64": true,
	"decimal.NewFromFloat32": true, "decimal.NewFromFloat": true, "decimal.Decimal.Rat": true, "big.Rat.Float32": true, "big.Rat.Float64": true,
	"decimal.Decimal.InexactFloat64": true,
}

// narrows: a conversion to a type that does not hold all the numbers of the other.
func narrows(t *Term) bool {
	if t.Op != "conv" || len(t.Args) != 1 || t.Typ == nil || t.Args[0].Typ == nil {
		return false
	}
	return lossy(t.Args[0].Typ, t.Typ)
}

func isPbTerm(t *Term) bool {
	p, ok := t.Typ.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Pkg() != nil && isPbPath(n.Obj().Pkg().Path())
}

func isPbPath(p string) bool {
	return strings.Contains(p, "/protobuf/gen/") || strings.Contains(p, "tdex-protobuf/generated")
}

func (a *api) isService(n string) bool {
	return n == "application.TradeService."+a.spec.call || n == "application.OperatorService."+a.spec.call || n == "application.WalletService."+a.spec.call
}

// sources: what the part of a value comes from.
func (a *api) sources(st *State, v *Term, part string) []string {
	if part == "" {
		return a.paths(st, v)
	}
	set := map[string]bool{}
	add := func(ss []string) {
		for _, s := range ss {
			set[s] = true
		}
	}
	if strings.HasPrefix(part, "[]") {
		rest := strings.TrimPrefix(part[2:], ".")
		for _, r := range a.collect(st, v, map[*Term]bool{}) {
			if r.direct != "" {
				p := r.direct + "[]"
				if rest != "" {
					p += "." + rest
				}
				set[p] = true
				continue
			}
			add(r.row[rest])
		}
		return sortedKeysB(set)
	}
	head, rest := part, ""
	if i := strings.IndexAny(part, ".["); i >= 0 {
		head, rest = part[:i], strings.TrimPrefix(part[i:], ".")
	}
	seen := map[*Term]bool{}
	var walk func(v *Term)
	walk = func(v *Term) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if v.Op == "phi" {
			for _, x := range v.Alts {
				walk(x)
			}
			return
		}
		if v.IsNil() || v.Op == "zero" {
			set["nil"] = true
			return
		}
		f := a.field(st, v, head)
		if f == nil {
			set["nothing"] = true
			return
		}
		add(a.sources(st, f, rest))
	}
	walk(v)
	return sortedKeysB(set)
}

func (a *api) field(st *State, v *Term, name string) *Term {
	for v.Op == "conv" && len(v.Args) == 1 {
		v = v.Args[0]
	}
	t := v.Typ
	ptr := false
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t, ptr = p.Elem(), true
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() != name {
			continue
		}
		if ptr {
			n, fv := a.e.fieldName(t, i)
			fa := a.e.tab.mk("faddr", n, types.NewPointer(fv.Type()), v)
			return a.e.load(st, fa, fv.Type())
		}
		return a.e.structField(st, v, i, t)
	}
	return nil
}

type apiRow struct {
	direct string
	row    map[string][]string
}

func (a *api) collect(st *State, t *Term, seen map[*Term]bool) (out []apiRow) {
	if t == nil || seen[t] {
		return nil
	}
	seen[t] = true
	rows := func(k string) {
		for _, r := range a.rows[k] {
			out = append(out, apiRow{row: r})
		}
	}
	switch {
	case t.IsNil() || t.Op == "zero":
		return nil
	case t.Op == "phi":
		for _, x := range t.Alts {
			out = append(out, a.collect(st, x, seen)...)
		}
		return out
	case t.Op == "slice" && partial(t):
		return []apiRow{{direct: "?part"}}
	case t.Op == "slice" || t.Op == "conv":
		rows(contKey(t))
		return append(out, a.collect(st, t.Args[0], seen)...)
	case t.Op == "make" || t.Op == "alloc":
		rows(contKey(t))
		return out
	case t.Op == "append":
		rows(contKey(t))
		for i, x := range t.Args {
			if i == 0 || len(a.e.Elems(st, x)) == 0 && x.Op != "slice" {
				out = append(out, a.collect(st, x, seen)...)
			}
		}
		return out
	}
	return []apiRow{{direct: a.path(st, t)}}
}

// partial: only some elements of a list.
func partial(t *Term) bool {
	if _, ok := t.Args[0].Typ.Underlying().(*types.Pointer); ok {
		return false // an array just made
	}
	for i, x := range t.Args[1:] {
		if x != nil && x.Op != "?" && !(i == 0 && x.IsZero()) {
			return true
		}
	}
	return false
}

func contKey(t *Term) string {
	for t.Op == "slice" {
		t = t.Args[0]
	}
	if t.Op == "append" {
		return "append@" + t.Aux
	}
	return "#" + itoa(t.ID)
}

// element: something is put into a list or map.
func (a *api) element(st *State, ev *Event, cont string, v *Term) {
	row := map[string][]string{}
	for s := range a.sufs {
		row[s] = a.sources(st, v, s)
	}
	if a.rows[cont] == nil {
		a.rows[cont] = map[ssa.Instruction]map[string][]string{}
	}
	a.rows[cont][ev.Instr] = row
	if v.Op == "alloc" {
		known := false
		for _, x := range a.in[v] {
			known = known || x.cont == cont && x.ev.Instr == ev.Instr
		}
		if !known {
			a.in[v] = append(a.in[v], apiElem{ev, cont})
		}
	}
	for _, p := range a.spec.present {
		i, j := strings.LastIndex(p, "=res"), strings.Index(p, "[].")
		if i < 0 || j < 0 || j > i {
			continue
		}
		a.c.At(ev, "rpc/reply", a.name+"/"+p[:i]+" if given", !a.missing(st, a.field(st, v, p[j+3:i]), p[i+1:]), "the reply may not carry "+p[i+1:])
	}
	// the iterations this belongs to
	for suf, ss := range row {
		for _, s := range ss {
			m := strings.Count(s, "[]") - strings.Count(suf, "[]")
			for i, j := 0, 0; m > 0; m-- {
				if j = strings.Index(s[i:], "[]"); j < 0 {
					break
				}
				i += j
				if m == 1 {
					st.Gen("did:" + s[:i])
				}
				i += 2
			}
		}
	}
}

func (a *api) hook(st *State, ev *Event) {
	if a.wrote != nil {
		a.rewritten(st)
	}
	switch ev.Kind {
	case "store", "pstore":
		for b := ev.Base; b != nil; b = b.Args[0] {
			if a.in[b] != nil {
				a.wrote = b
			}
			if len(b.Args) == 0 {
				break
			}
		}
	case "append":
		if len(ev.Args) < 2 {
			return
		}
		key := "append@" + a.e.site(ev.Frame, ev.Instr)
		for _, x := range ev.Args[1:] {
			for _, v := range a.e.Elems(st, x) {
				a.element(st, ev, key, v)
			}
		}
	case "idxstore":
		if ev.Base != nil && ev.Val != nil {
			a.element(st, ev, contKey(ev.Base), ev.Val)
		}
	case "mapupdate":
		if len(ev.Args) >= 2 && ev.Val != nil {
			a.element(st, ev, contKey(ev.Args[0]), ev.Val)
			a.rows[contKey(ev.Args[0])][ev.Instr]["key"] = a.paths(st, ev.Args[1])
		}
	}
}

// expect: the fields come from where they must. Returns those that do not.
func (a *api) expect(st *State, get func(field string) []string, want []string) (bad []string) {
	for _, w := range want {
		i := strings.Index(w, "=")
		f, src := w[:i], w[i+1:]
		opt := strings.HasSuffix(src, "?")
		src = strings.TrimSuffix(src, "?")
		got := get(f)
		ok, found := true, false
		for _, g := range got {
			switch {
			case g == src:
				found = true
			case g == "nil" && opt:
			default:
				ok = false
			}
		}
		if !ok || !found {
			bad = append(bad, f)
		}
	}
	return
}

// lists: the lists whose elements all have to be passed on.
func lists(want []string) []string {
	set := map[string]bool{}
	for _, w := range want {
		s := w[strings.Index(w, "=")+1:]
		for i := strings.Index(s, "[]"); i >= 0; {
			set[s[:i]] = true
			j := strings.Index(s[i+2:], "[]")
			if j < 0 {
				break
			}
			i += 2 + j
		}
	}
	return sortedKeysB(set)
}

// holds: a condition on the request is known to hold.
func (a *api) holds(st *State, guard string) bool {
	i := strings.Index(guard, " ")
	kind, p := guard[:i], guard[i+1:]
	is := func(t *Term) bool { return a.path(st, t) == p }
	isP := func(t *Term, p string) bool { return t != nil && a.path(st, t) == p }
	fact := func(f func(k byte, t *Term) bool) bool {
		ok := false
		st.Each(func(k byte, t *Term) bool {
			ok = ok || f(k, t)
			return ok
		})
		return ok
	}
	nonempty := func(p string) bool {
		return fact(func(k byte, t *Term) bool {
			switch {
			case k == 'F' && t.Op == "empty" || k == 'X' && t.Op != "call" || k == 'F' && t.Op == "isnil":
				x := t
				if t.Op == "empty" || t.Op == "isnil" {
					x = t.Args[0]
				}
				if k == 'F' && t.Op == "isnil" {
					return false
				}
				return isP(x, p)
			case k == 'X':
				return isP(t, p)
			case k == 'T' && t.Op == "lt" && t.Args[0].IsZero() && t.Args[1].Op == "len":
				return isP(t.Args[1].Args[0], p)
			case k == 'F' && t.Op == "eq":
				for i := range t.Args {
					if s, ok := t.Args[1-i].StrConst(); ok && s == "" && isP(t.Args[i], p) {
						return true
					}
					if t.Args[1-i].IsZero() && t.Args[i].Op == "len" && isP(t.Args[i].Args[0], p) {
						return true
					}
				}
			}
			return false
		})
	}
	bounds := func() (lo, hi *int64) {
		st.Each(func(k byte, t *Term) bool {
			if t.Op != "lt" && t.Op != "eq" {
				return false
			}
			for _, x := range t.Args {
				if is(x) {
					l, h := st.Bounds(x)
					if l != nil && (lo == nil || *l > *lo) {
						lo = l
					}
					if h != nil && (hi == nil || *h < *hi) {
						hi = h
					}
				}
			}
			return false
		})
		return
	}
	switch kind {
	case "nonempty":
		return nonempty(p)
	case "nonnil":
		return fact(func(k byte, t *Term) bool {
			return k == 'X' && is(t) || k == 'F' && t.Op == "isnil" && is(t.Args[0])
		})
	case "nil":
		return fact(func(k byte, t *Term) bool {
			if k == 'N' && is(t) || k == 'T' && t.Op == "isnil" && is(t.Args[0]) {
				return true
			}
			if k == 'F' && t.Op == "lt" && t.Args[0].IsZero() && is(t.Args[1]) && unsigned(t.Args[1]) {
				return true
			}
			if k == 'T' && t.Op == "eq" {
				for i := range t.Args {
					if is(t.Args[i]) && t.Args[1-i].All(a.allZero) {
						return true
					}
				}
			}
			return false
		})
	case "market":
		return fact(func(k byte, t *Term) bool {
			if k != 'T' || t.Op != "eq" {
				return false
			}
			for i := range t.Args {
				if isP(t.Args[i], p+".BaseAsset") && isBaseAsset(t.Args[1-i]) {
					return true
				}
			}
			return false
		})
	case "positive":
		if lo, _ := bounds(); lo != nil && *lo >= 1 {
			return true
		}
		return fact(func(k byte, t *Term) bool {
			return k == 'T' && t.Op == "lt" && t.Args[0].IsZero() && is(t.Args[1]) ||
				k == 'F' && t.Op == "eq" && unsigned(t.Args[0]) && (t.Args[0].IsZero() && is(t.Args[1]) || t.Args[1].IsZero() && is(t.Args[0]))
		})
	case "finite": // comparisons of numbers hold or do not, those with NaN never hold
		return fact(func(k byte, t *Term) bool {
			return k == 'T' && (t.Op == "le" || t.Op == "lt") && is(t.Args[0]) && t.Args[1].Op == "const" ||
				k == 'F' && t.CallName() == "math.IsInf" && is(unconv(t.CallArgs()[0]))
		})
	case "nonneg":
		lo, _ := bounds()
		return lo != nil && *lo >= 0
	case "feerate":
		lo, _ := bounds()
		return lo != nil && *lo >= a.c.intConst(dom, "MinMilliSatPerByte")
	case "tradetype":
		lo, hi := bounds()
		return lo != nil && hi != nil && *lo >= a.c.intConst(app, "TradeBuy") && *hi <= a.c.intConst(app, "TradeSell")
	case "strategy":
		lo, hi := bounds()
		return lo != nil && hi != nil && *lo >= a.c.intConst(dom, "StrategyTypePluggable") && *hi <= a.c.intConst(dom, "StrategyTypeUnbalanced")
	case "asset":
		if st.HasMatch('L', func(t *Term) bool { return t.Aux == "asset" && is(t.Args[0]) }) {
			return true
		}
		return fact(func(k byte, t *Term) bool {
			if k != 'T' || t.Op != "eq" {
				return false
			}
			for i := range t.Args {
				if v, ok := t.Args[1-i].IntConst(); ok && v == 32 && t.Args[i].Op == "len" {
					x := t.Args[i].Args[0]
					if y := extractOf(x, 0, "hex.DecodeString"); y != nil && is(y[0]) && okErr(st, x) {
						return true
					}
				}
			}
			return false
		})
	case "outputs":
		return st.Is("all:valid")
	case "outpoints":
		return st.Is("all:valid")
	}
	return false
}

func (a *api) allZero(t *Term) bool {
	if t.Op == "struct" {
		for _, x := range t.Args {
			if !a.allZero(x) {
				return false
			}
		}
		return true
	}
	return t.IsZero() || t.IsNil()
}

func fromChan(t *Term) bool {
	if t.Op == "extract" {
		t = t.Args[0]
	}
	return t.Op == "recv" || t.Op == "select"
}

func unsigned(t *Term) bool {
	b, ok := t.Typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isBaseAsset(t *Term) bool {
	if t.CallName() == "config.GetString" {
		s, ok := t.CallArgs()[0].StrConst()
		return ok && s == "BASE_ASSET"
	}
	return false
}

// itemGuards: what must hold of each element of a validated list.
func (a *api) itemGuards() (list string, want []string) {
	for _, g := range a.spec.guards {
		if strings.HasPrefix(g, "outputs ") {
			p := strings.TrimPrefix(g, "outputs ")
			return p, []string{"nonempty " + p + "[].Asset", "positive " + p + "[].Value", "nonempty " + p + "[].Address"}
		}
		if strings.HasPrefix(g, "outpoints ") {
			p := strings.TrimPrefix(g, "outpoints ")
			return p, []string{"nonneg " + p + "[].Index"}
		}
	}
	return "", nil
}

func (c *Check) apiHandlers() {
	specs := c.rpcSpecs()
	n := 0
	for _, r := range c.registeredRPCs() {
		name := r.Service + "." + r.Name
		spec, ok := specs[name]
		delete(specs, name)
		h := r.Handler
		c.Ob("rpc/implemented", name, h != nil && c.P.PkgRel(h) == handlerPkg, r.Where, "no handler implements the method: it always fails")
		if h == nil || c.P.PkgRel(h) != handlerPkg {
			continue
		}
		n++
		if !ok {
			c.Note("not specified, not checked: %s", name)
			continue
		}
		c.apiHandler(name, spec, h)
	}
	for _, name := range specNames(specs) {
		c.Ob("rpc/implemented", name, false, "-", "the method is not served any more")
	}
	c.Need("rpc", n, 30, "RPC handlers")
}

func specNames(m map[string]rpcSpec) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

func (c *Check) apiHandler(name string, spec rpcSpec, fn *ssa.Function) {
	e := NewEngine(c.P)
	a := &api{c: c, e: e, name: name, spec: spec, rows: map[string]map[ssa.Instruction]map[string][]string{}, sufs: map[string]bool{}, in: map[*Term][]apiElem{}}
	all := pairs(spec.args, spec.reply)
	for _, w := range all {
		f := w[:strings.Index(w, "=")]
		for i := strings.Index(f, "[]"); i >= 0; i = strings.Index(f, "[]") {
			f = strings.TrimPrefix(f[i+2:], ".")
			a.sufs[f] = true
		}
	}
	argLists, replyLists := lists(spec.args), lists(spec.reply)
	allLists := pairs(argLists, replyLists)
	item, itemWant := a.itemGuards()
	e.inline = func(f *ssa.Function) bool { return c.P.PkgRel(f) == handlerPkg }

	var svc *Term    // the call of the service
	var send []*Term // error of sending the reply
	async := false
	args := func(st *State, ev *Event) {
		for _, g := range spec.guards {
			c.At(ev, "rpc/validated", name+"/"+g, a.holds(st, g) || st.Is("held:"+g), "the service is called although the request may be invalid: "+g)
		}
		get := func(f string) []string {
			i := strings.IndexAny(f, ".[")
			rest := ""
			if i < 0 {
				i = len(f)
			} else {
				rest = strings.TrimPrefix(f[i:], ".")
			}
			n := int(f[1]-'0') + 2
			if n >= len(ev.Args) {
				return []string{"nothing"}
			}
			return a.sources(st, ev.Args[n], rest)
		}
		bad := map[string]bool{}
		for _, b := range a.expect(st, get, spec.args) {
			bad[b] = true
		}
		for _, w := range spec.args {
			f := w[:strings.Index(w, "=")]
			c.At(ev, "rpc/argument", name+"/"+f, !bad[f], "the service is not given "+w[strings.Index(w, "=")+1:]+" for "+f+" but "+strings.Join(get(f), ", "))
		}
		for _, p := range spec.present {
			i := strings.Index(p, "=")
			if p[0] == 'a' {
				c.At(ev, "rpc/argument", name+"/"+p[:i]+" if given", !a.missing(st, ev.Args[int(p[1]-'0')+2], p[i+1:]), "the service may not be given "+p[i+1:])
			}
		}
		for _, l := range argLists {
			direct := true
			for _, w := range spec.args {
				if strings.HasPrefix(w[strings.Index(w, "=")+1:], l+"[]") && !a.direct(st, ev.Args, w) {
					direct = false
				}
			}
			c.At(ev, "rpc/argument", name+"/all "+l, direct || st.Is("all:"+l), "not all elements of the request reach the service")
		}
		st.Kill("notcalled")
		st.Gen("called")
	}
	reply := func(st *State, ev *Event, v *Term) {
		get := func(f string) []string { return a.sources(st, v, f) }
		bad := map[string]bool{}
		for _, b := range a.expect(st, get, spec.reply) {
			bad[b] = true
		}
		for _, w := range spec.reply {
			f := w[:strings.Index(w, "=")]
			c.At(ev, "rpc/reply", name+"/"+f, !bad[f], "the reply does not carry "+w[strings.Index(w, "=")+1:]+" in "+f+" but "+strings.Join(get(f), ", "))
		}
		for _, p := range spec.present {
			i := strings.Index(p, "=")
			if p[0] != 'a' && !strings.Contains(p[:i], "[]") {
				c.At(ev, "rpc/reply", name+"/"+p[:i]+" if given", !a.missing(st, a.field(st, v, p[:i]), p[i+1:]), "the reply may not carry "+p[i+1:])
			}
		}
		for _, l := range replyLists {
			if strings.Contains(l, "[]") {
				continue // part of an element
			}
			direct := true
			for _, w := range spec.reply {
				if strings.HasPrefix(w[strings.Index(w, "=")+1:], l+"[]") && !a.direct(st, []*Term{v}, w) {
					direct = false
				}
			}
			c.At(ev, "rpc/reply", name+"/all "+l, direct || st.Is("all:"+l), "not all the service returned is part of the reply")
		}
	}
	e.hook = func(st *State, ev *Event) {
		a.hook(st, ev)
		switch ev.Kind {
		case "mapupdate":
			for _, l := range replyLists { // parts of this element
				if strings.Contains(l, "[]") && !st.Is("all:"+l) {
					c.At(ev, "rpc/reply", name+"/all "+l, false, "not all the service returned is part of the reply")
				} else if strings.Contains(l, "[]") {
					c.At(ev, "rpc/reply", name+"/all "+l, true, "")
				}
			}
			for _, p := range a.paths(st, ev.Args[1]) {
				c.At(ev, "rpc/reply", name+"/key", strings.HasSuffix(p, "[key]"), "an element of the reply gets another key")
			}
		case "call":
			if a.isService(ev.Name) {
				async = ev.Async
				c.At(ev, "rpc/once", name, st.Is("notcalled"), "the service may be called twice for one request")
				args(st, ev)
				return
			}
			if ev.Last() == "Send" && len(ev.Args) == 2 {
				reply(st, ev, ev.Args[1])
				if !async {
					c.At(ev, "rpc/failed", name, svc != nil && st.Is("called") && okErr(st, svc), "a reply is sent although the service may have failed")
					c.At(ev, "rpc/sent", name, st.Is("notsent"), "more than one reply is sent")
				}
				st.Kill("notsent")
				st.Gen("sent")
			}
			if (lastIs(ev.Name, "Error", "Errorf")) && strings.HasPrefix(ev.Name, "status.") {
				code, ok := ev.Args[0].IntConst()
				if st.Is("notcalled") {
					c.At(ev, "rpc/refused", name, ok && code == 3, "an invalid request is not refused as such")
				}
			}
			// results that may be missing
			if ev.Sig != nil && ev.Sig.Recv() != nil && len(ev.Args) > 0 && types.IsInterface(ev.Args[0].Typ) {
				if p := a.path(st, ev.Args[0]); strings.HasPrefix(p, "res") && !strings.Contains(p, ".") {
					c.At(ev, "rpc/nil", name, a.holds(st, "nonnil "+p), "a method of a result that may be missing is called")
				}
			}
		case "after":
			if a.isService(ev.Name) && len(ev.Res) > 0 {
				svc = ev.Res[0]
				if svc.Op == "extract" {
					svc = svc.Args[0]
				}
			}
			if ev.Last() == "Send" && len(ev.Res) == 1 {
				send = append(send, ev.Res[0])
			}
		case "load":
			if b := ev.Base; b != nil && b.Op == "faddr" && isPbTerm(b.Args[0]) {
				b = b.Args[0]
				if p := a.path(st, b); strings.HasPrefix(p, "req.") && !strings.HasSuffix(p, "[]") {
					c.At(ev, "rpc/nil", name, a.holds(st, "nonnil "+p), "a part of the request that may be missing is read")
				}
			}
		case "return":
			if async && len(ev.Res) == 1 && isErrorType(ev.Res[0].Typ) && (!ev.Res[0].Any((*Term).IsNil) ||
				st.HasMatch('N', func(y *Term) bool { return isErrorType(y.Typ) && fromChan(y) })) {
				st.Gen("ended")
			}
			if ev.Frame.parent != nil {
				return
			}
			bad, good := outcomes(st, ev)
			if good != nil && !async {
				c.At(ev, "rpc/failed", name, svc != nil && good.Is("called") && okErr(good, svc), "the call succeeds although the service was not called or failed")
				if len(ev.Res) == 2 {
					if spec.reply != nil {
						reply(good, ev, ev.Res[0])
					}
					c.At(ev, "rpc/reply", name, good.Has('X', ev.Res[0]) || ev.Res[0].Op == "alloc", "no reply is returned")
				} else {
					sent := good.Is("sent")
					for _, s := range send {
						sent = sent && good.Has('N', s)
					}
					c.At(ev, "rpc/sent", name, sent, "the call succeeds although the reply may not have been sent")
				}
			}
			if good != nil && async {
				// the service ends with what it sends on the channel of errors
				ok := lastArg(ev).All(func(x *Term) bool {
					if x.IsNil() {
						return st.Is("ended")
					}
					return fromChan(x) || lastPart(x.CallName()) == "Send" || strings.HasPrefix(x.CallName(), "status.")
				})
				c.At(ev, "rpc/failed", name, ok, "the call may succeed although the service failed")
			}
			if bad != nil {
				err := lastArg(ev)
				ok := err.All(func(x *Term) bool {
					return x.IsNil() || strings.HasPrefix(x.CallName(), "status.") || x.Contains(func(y *Term) bool {
						return svc != nil && y == svc || lastPart(y.CallName()) == "Send" || y.Op == "recv" || y.Op == "select"
					})
				})
				c.At(ev, "rpc/refused", name+"/error", ok, "an invalid request is not refused as such")
			}
		}
	}
	e.onAssume = func(st *State, k byte, t *Term) {
		if a.wrote != nil {
			a.rewritten(st)
		}
		for _, g := range spec.guards {
			if a.holds(st, g) {
				st.Gen("held:" + g)
			}
		}
		if x := loopOver(t); x != nil {
			p := a.path(st, x)
			for _, l := range allLists {
				if l != p {
					continue
				}
				listLoop(st, k, l)
				for _, q := range allLists {
					if k == 'T' && strings.HasPrefix(q, l+"[]") {
						st.Kill("all:" + q)
						st.Gen("did:" + q)
					}
				}
			}
			if item != "" && p == item {
				listLoop(st, k, "valid")
				return
			}
		}
		if item != "" {
			for _, g := range itemWant {
				if !a.holds(st, g) {
					return
				}
			}
			st.Gen("did:valid")
		}
	}
	c.AnalyzeWith(e, fn, "", func(st *State, _ []*Term) {
		st.Gen("notcalled")
		st.Gen("notsent")
		st.Gen("did:valid")
		for _, l := range allLists {
			st.Gen("did:" + l)
		}
	})
}

// listLoop: another loop over the list does not undo what one has done.
func listLoop(st *State, k byte, name string) {
	switch k {
	case 'T':
		st.Kill("did:" + name)
	case 'F':
		if st.Is("did:" + name) {
			st.Gen("all:" + name)
		}
		st.Gen("did:" + name)
	}
}

// missing: a part can be missing although its source is not.
func (a *api) missing(st *State, v *Term, src string) bool {
	if v == nil {
		return true
	}
	var bad func(st *State, v *Term) bool
	bad = func(st *State, v *Term) bool {
		s2 := st.lightClone()
		if !s2.assume(v, 'N') {
			return false
		}
		// the source is then known to be missing
		return !a.holds(s2, "nil "+src)
	}
	return bad(st, v)
}

// direct: the list is passed on as it is.
func (a *api) direct(st *State, vs []*Term, w string) bool {
	i := strings.Index(w, "=")
	f, src := w[:i], w[i+1:]
	v := vs[0]
	if len(vs) > 1 {
		n := int(f[1]-'0') + 2
		if n >= len(vs) {
			return false
		}
		v, f = vs[n], strings.TrimPrefix(f[2:], ".")
	}
	j := strings.Index(f, "[]")
	for _, s := range a.sources(st, v, strings.TrimSuffix(f[:j], ".")) {
		if s != src[:strings.Index(src, "[]")] {
			return false
		}
	}
	return true
}

// apiEnums: numbers passed on as they are mean the same on both sides.
func (c *Check) apiEnums() {
	const gen = "api-spec/protobuf/gen/"
	same := []struct{ pkg, name, pb, pbName string }{
		{dom, "StrategyTypePluggable", gen + "operator", "StrategyType_PLUGGABLE"},
		{dom, "StrategyTypeBalanced", gen + "operator", "StrategyType_BALANCED"},
		{dom, "StrategyTypeUnbalanced", gen + "operator", "StrategyType_UNBALANCED"},
		{dom, "Undefined", gen + "operator", "TradeStatus_UNDEFINED"},
		{dom, "Proposal", gen + "operator", "TradeStatus_REQUEST"},
		{dom, "Accepted", gen + "operator", "TradeStatus_ACCEPT"},
		{dom, "Completed", gen + "operator", "TradeStatus_COMPLETE"},
		{dom, "Settled", gen + "operator", "TradeStatus_SETTLED"},
		{dom, "Expired", gen + "operator", "TradeStatus_EXPIRED"},
		{app, "Processing", gen + "wallet", "InitWalletReply_PROCESSING"},
		{app, "Done", gen + "wallet", "InitWalletReply_DONE"},
		{"internal/infrastructure/pubsub/webhook", "TradeSettled", gen + "operator", "ActionType_TRADE_SETTLED"},
		{"internal/infrastructure/pubsub/webhook", "AccountLowBalance", gen + "operator", "ActionType_ACCOUNT_LOW_BALANCE"},
		{"internal/infrastructure/pubsub/webhook", "AccountWithdraw", gen + "operator", "ActionType_ACCOUNT_WITHDRAW"},
		{"internal/infrastructure/pubsub/webhook", "AllActions", gen + "operator", "ActionType_ALL_ACTIONS"},
	}
	for _, s := range same {
		a, b := c.intConst(s.pkg, s.name), c.intConst(s.pb, s.pbName)
		c.Ob("enum", s.pbName, a == b, "-", "the number does not mean the same to clients and to the services")
	}
	// trade types of the public protocol
	for n, v := range map[string]int64{"TradeBuy": 0, "TradeSell": 1} {
		c.Ob("enum", n, c.intConst(app, n) == v, "-", "the number does not mean the same to clients and to the services")
	}
}

// apiInterceptors: what stands between the client and the handlers passes on
// what it gets.
func (c *Check) apiInterceptors() {
	n := 0
	for _, fn := range c.P.FuncsIn("internal/interfaces/grpc/interceptor") {
		sig := fn.Signature
		if sig.Recv() != nil || sig.Params().Len() != 4 || fn.Blocks == nil {
			continue
		}
		h := typeName(sig.Params().At(3).Type())
		if h != "grpc.UnaryHandler" && h != "grpc.StreamHandler" {
			continue
		}
		fn := fn
		n++
		e := NewEngine(c.P)
		e.inline = func(f *ssa.Function) bool { return c.P.PkgRel(f) == c.P.PkgRel(fn) }
		handler := func(ev *Event) bool {
			return ev.Name == "dynamic" && len(ev.Args) >= 2
		}
		var res []*Term
		name := fnName(fn)
		e.hook = func(st *State, ev *Event) {
			switch {
			case ev.Kind == "call" && handler(ev):
				st.Kill("notcalled")
			case ev.Kind == "after" && handler(ev):
				res = ev.Res
			case ev.Kind == "return" && ev.Frame.parent == nil:
				_, good := outcomes(st, ev)
				if good == nil {
					return
				}
				ok := len(res) == len(ev.Res)
				for i := range ev.Res {
					ok = ok && ev.Res[i].All(func(x *Term) bool { return x == res[i] || i > 0 && isErrorType(x.Typ) || good.Has('N', x) })
				}
				c.At(ev, "interceptor", name, ok, "the handler's reply or error is not passed on")
			}
		}
		c.AnalyzeWith(e, fn, "", func(st *State, _ []*Term) { st.Gen("notcalled") })
	}
	c.Need("interceptor", n, 2, "interceptors")
}

// excluded: the value is not nil here, as it is along one of its paths.
func excluded(st *State, v, x *Term) bool {
	return st != nil && x.IsNil() && st.Has('X', v)
}
