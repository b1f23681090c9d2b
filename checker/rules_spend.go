package main

import (
	"go/token"
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C23: the funds of an account are spent only for what was asked: the coins,
// addresses, keys and amounts given to the wallet are those of the accounts
// involved and of the request, and what is broadcast is the result.
func init() {
	rules["C23"] = func(c *Check) {
		c.Note("The operations of the services that spend (accepting a swap proposal, sending to many, withdrawing from a market) are followed from their arguments to the transaction they return or broadcast, with the helpers of the application inlined. Each argument of every step of the wallet is traced to the coins, addresses, keys and amounts it must come from.")
		c.Assume("the operations of the wallet package do what C22 decides; addresses are derived as C12 decides")
		c.spendFill()
		c.sendings()
		c.proposalInputs()
		c.addressLists()
	}
}

// spender follows one spending.
type spender struct {
	*api
	kinds map[*Term]string // of the results of the wallet's operations
	n     map[string]int
}

var spendOps = map[string]bool{
	"NewFeeOutput": true, "ExtractBlindingDataFromTx": true, "extractUnspentsFromTxAndUpdateUtxoSet": true,
}

func (c *Check) spender(name string, fn *ssa.Function) *spender {
	s := &spender{api: c.walletTracer(name, fn), kinds: map[*Term]string{}, n: map[string]int{}}
	base := s.root
	coin := map[*Term]string{}
	s.e.inline = func(f *ssa.Function) bool { return c.P.PkgRel(f) == app && !spendOps[f.Name()] }
	join := func(st *State, t *Term) string { return strings.Join(s.paths(st, t), "|") }
	acc := func(st *State, t *Term) string {
		if n, ok := t.IntConst(); ok {
			for _, k := range []string{"Fee", "Wallet"} {
				if c.intConst(dom, k+"Account") == n {
					return strings.ToLower(k)
				}
			}
			return itoa(int(n))
		}
		return join(st, t)
	}
	opt := func(st *State, x *Term, f string) string {
		as := x.CallArgs()
		if v := fieldByName(s.e, st, as[len(as)-1], f); v != nil {
			return join(st, v)
		}
		return "?"
	}
	// the pieces of a list put together out of others
	var pieces func(st *State, t *Term) ([]string, bool)
	pieces = func(st *State, t *Term) (out []string, ok bool) {
		for t.Op == "conv" || t.Op == "slice" && !partial(t) && t.Args[0].Op != "alloc" {
			t = t.Args[0]
		}
		switch {
		case t.Op == "append" && len(t.Args) == 2:
			if t.Args[1].Op == "slice" || len(s.e.Elems(st, t.Args[1])) > 0 {
				return nil, false
			}
			for _, x := range t.Args {
				ps, ok := pieces(st, x)
				if !ok {
					return nil, false
				}
				out = append(out, ps...)
			}
			return out, true
		case t.IsNil() || t.Op == "make" && t.Args[0].IsZero() || t.Op == "slice" && t.Args[0].Op == "alloc" && len(s.e.Elems(st, t)) == 0:
			return nil, true
		case t.Op == "phi" || t.Op == "make" || t.Op == "slice" || t.Op == "alloc":
			return nil, false
		}
		return one(s.path(st, t)), true
	}
	s.root = func(st *State, t *Term) (string, bool) {
		switch t.Op {
		case "append":
			if ps, ok := pieces(st, t); ok && len(ps) > 0 {
				return strings.Join(ps, "+"), true
			}
		case "index":
			if t.Args[0].Op == "append" {
				if ps, ok := pieces(st, t.Args[0]); ok && len(ps) > 0 {
					return strings.Join(ps, "+") + "[]", true
				}
			}
		case "field", "faddr":
			// a part of an element of a list built here
			x := t.Args[0]
			for x.Op == "load" || x.Op == "deref" || x.Op == "idx" && len(x.Args) == 2 {
				if x.Op == "idx" {
					break
				}
				x = x.Args[0]
			}
			if x.Op == "index" || x.Op == "idx" {
				switch x.Args[0].Op {
				case "append", "phi", "make", "slice":
					if _, ok := pieces(st, x.Args[0]); ok {
						break
					}
					set := map[string]bool{}
					for _, r := range s.collect(st, x.Args[0], map[*Term]bool{}) {
						if r.direct != "" {
							set[r.direct+"[]."+lastPart(t.Aux)] = true
						}
						for _, p := range r.row[lastPart(t.Aux)] {
							set[p] = true
						}
					}
					if len(set) > 0 {
						return strings.Join(sortedKeysB(set), "|"), true
					}
				}
			}
		case "extract":
			x := t.Args[0]
			if x.Op != "call" {
				break
			}
			if k := s.kinds[x]; k != "" {
				return k + "#" + t.Aux, true
			}
			as := x.CallArgs()
			switch lastPart(x.CallName()) + "#" + t.Aux {
			case "NewWalletFromMnemonic#0":
				return "wallet(" + opt(st, x, "SigningMnemonic") + ")", true
			case "GetMnemonicSafe#0":
				return "mnemonic", true
			case "ExtractBlindingDataFromTx#0":
				return "revealed(" + join(st, as[0]) + ";" + join(st, as[1]) + ")", true
			case "GetAllDerivedAddressesInfoForAccount#0", "AllDerivedAddressesInfoForAccount#0":
				return "info(" + acc(st, as[len(as)-1]) + ")", true
			case "AddressesAndKeys#0":
				return "addresses(" + join(st, as[0]) + ")", true
			case "AddressesAndKeys#1":
				return "keys(" + join(st, as[0]) + ")", true
			case "GetAvailableUnspentsForAddresses#0":
				return "free(" + join(st, as[len(as)-1]) + ")", true
			case "GetUnspentsForAddresses#0":
				if strings.HasPrefix(x.CallName(), "explorer.") && len(as) == 3 {
					return "onchain(" + join(st, as[1]) + ";" + join(st, as[2]) + ")", true
				}
			case "GetUnlockedBalance#0":
				return "balance(" + join(st, as[len(as)-2]) + ";" + join(st, as[len(as)-1]) + ")", true
			case "GetMarketByAsset#0":
				return "market(" + join(st, as[len(as)-1]) + ")", true
			case "GetMarketByAsset#1":
				return "market(" + join(st, as[len(as)-1]) + ").AccountIndex", true
			case "AccountByIndex#0":
				return "account(" + acc(st, as[len(as)-1]) + ")", true
			case "DeriveNextInternalAddressForAccount#0":
				return "change(" + acc(st, as[len(as)-1]) + ")", true
			case "DeriveNextExternalAddressForAccount#0":
				return "address(" + acc(st, as[len(as)-1]) + ")", true
			case "ToOutputScript#0":
				return "scriptof(" + join(st, as[0]) + ")", true
			case "FromConfidential#0":
				return "confidential(" + join(st, as[0]) + ")", true
			}
		case "call":
			as := t.CallArgs()
			switch lastPart(t.CallName()) {
			case "NewFeeOutput":
				return "feeoutput(" + join(st, as[0]) + ";" + join(st, as[1]) + ")", true
			case "Addresses":
				return "addresses(" + join(st, as[0]) + ")", true
			case "ToUtxo":
				if p := coin[t]; p != "" {
					return p, true
				}
				return join(st, as[0]), true
			}
		}
		return base(st, t)
	}
	// a coin is that of the unspent as it is when it is converted
	last := ""
	hook := s.e.hook
	s.e.hook = func(st *State, ev *Event) {
		if ev.Name == "domain.Unspent.ToUtxo" {
			switch ev.Kind {
			case "call":
				x := ev.Args[0]
				if x.Op == "alloc" || x.Op == "idx" {
					x = s.e.load(st, x, elemOrSelf(x.Typ))
				}
				last = join(st, x)
			case "after":
				coin[ev.Res[0]] = last
			}
		}
		hook(st, ev)
	}
	return s
}

// rateOK: the fee rate is not below the minimum.
func (s *spender) rateOK(min int64) func(st *State, t *Term) bool {
	good := map[*Term]bool{}
	enough := func(st *State, t *Term) bool {
		lo, _ := st.Bounds(t)
		return lo != nil && *lo >= min
	}
	prev := s.e.onPhi
	s.e.onPhi = func(ph *ssa.Phi, i int, st *State, v *Term) {
		if prev != nil {
			prev(ph, i, st, v)
		}
		if b, ok := ph.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			good[v] = enough(st, v)
		}
	}
	hook := s.e.hook
	s.e.hook = func(st *State, ev *Event) {
		if ev.Kind == "return" && ev.Frame.parent != nil && len(ev.Res) == 1 {
			if b, ok := ev.Res[0].Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				good[ev.Res[0]] = enough(st, ev.Res[0])
			}
		}
		hook(st, ev)
	}
	return func(st *State, t *Term) bool {
		for _, x := range alts(t) {
			if !good[x] && !enough(st, x) {
				return false
			}
		}
		return true
	}
}

// roles checks where the options of a step come from; a source starting with
// ~ is matched as the start of the path.
func (s *spender) roles(st *State, ev *Event, rule string, want map[string]string) {
	opts := ev.Args[len(ev.Args)-1]
	for _, f := range sortedKeys(want) {
		var ps []string
		if v := fieldByName(s.e, st, opts, f); v != nil {
			ps = s.paths(st, v)
		}
		s.c.At(ev, rule+"/"+f, s.name, only(ps, want[f]), f+" is "+strings.Join(ps, "|")+" instead of "+want[f])
	}
}

// step: the result of an operation is used only if it succeeded.
func (s *spender) step(st *State, ev *Event, kind string) {
	s.kinds[ev.Res[0].Args[0]] = kind
	st.CondGen('N', ev.Res[len(ev.Res)-1], "ok:"+kind)
	s.n[kind]++
}

func (c *Check) spendFill() {
	n := 0
	for _, nt := range c.P.Impls(c.P.Iface(app, "TradeHandler")) {
		if m := c.P.Method(nt, "FillProposal"); m != nil {
			n++
			c.fill("FillProposal", m)
		}
	}
	c.Need("fill", n, 1, "operations accepting proposals")
}

func (c *Check) fill(name string, fn *ssa.Function) {
	s := c.spender(name, fn)
	a, e := s.api, s.e
	path := func(st *State, t *Term) string { return a.path(st, t) }
	min := c.intConst(dom, "MinMilliSatPerByte")
	rateOK := s.rateOK(min)
	const selected = "swap#1+fees#0.SelectedUnspents"
	const req = "a0.SwapRequest."
	revealed := "revealed(" + req + "Transaction;" + req + "InputBlindingKey)"
	infos := map[string]bool{} // lists with the info of each selected coin
	isInfos := func(t *Term) bool {
		roots, appended := chain(t)
		sl, ok := t.Typ.Underlying().(*types.Slice)
		if t.Any(func(x *Term) bool { return x.Op == "slice" && partial(x) }) {
			return false
		}
		if !appended || !ok || !infos[typeName(sl.Elem())] {
			return false
		}
		for _, r := range roots {
			if r.Op != "make" && !r.IsNil() && r.Op != "slice" {
				return false
			}
		}
		return true
	}
	over := map[string]func(st *State, t *Term) bool{
		"reveal": func(st *State, t *Term) bool { return path(st, t) == selected },
		"info":   func(st *State, t *Term) bool { return path(st, t) == selected },
		"sign":   func(st *State, t *Term) bool { return path(st, t) == selected || isInfos(t) },
		"inkey":  func(st *State, t *Term) bool { return isInfos(t) },
		"outkey": func(st *State, t *Term) bool { return path(st, t) == "fees#0.ChangeOutputsBlindingKeys" },
	}
	e.onAssume = func(st *State, k byte, t *Term) {
		for _, l := range sortedKeys(over) {
			armedLoop(l, func(t *Term) bool { return over[l](st, t) })(st, k, t)
		}
		if x := loopOver(t); x != nil && isListOfInfo(x) {
			ps := s.sources(st, x, "[]")
			if slices.Contains(ps, "a0.OutputInfo") || slices.Contains(ps, "a0.ChangeInfo") {
				done := st.Is("did:pair")
				armedLoop("pair", isListOfInfo)(st, k, t)
				for _, p := range ps {
					if k == 'F' && done {
						st.Gen("key:" + p)
					}
				}
			}
		}
	}
	// the position of an input: how many there were already plus i
	after := func(st *State, t, i *Term) bool {
		d := minus(linear(unconv(t)), linear(i))
		if len(d) != 1 {
			return false
		}
		for x, k := range d {
			return x != nil && k == 1 && x.Op == "len" && path(st, x.Args[0]) == revealed
		}
		return false
	}
	indexOf := func(t *Term) *Term {
		var i *Term
		t.Contains(func(x *Term) bool {
			if x.Op == "index" && i == nil {
				i = x.Args[1]
			}
			return i != nil
		})
		return i
	}
	byScript := map[*Term]bool{} // maps with the info of each script
	into := map[string]map[*Term]bool{}
	put := func(st *State, l string, m *Term) {
		st.Gen(l)
		if into[l] == nil {
			into[l] = map[*Term]bool{}
		}
		into[l][m] = true
	}
	hook := e.hook
	e.hook = func(st *State, ev *Event) {
		hook(st, ev)
		bad := func(rule string, ok bool, msg string) { c.At(ev, rule, a.name, ok, msg) }
		switch {
		case ev.Kind == "call" && strings.HasPrefix(ev.Name, "wallet.Wallet."):
			if ev.Last() == "validate" || len(ev.Args) == 0 {
				return
			}
			bad("spend/wallet", path(st, ev.Args[0]) == "wallet(a0.Mnemonic)#0" || path(st, ev.Args[0]) == "wallet(a0.Mnemonic)", "another wallet is used: "+path(st, ev.Args[0]))
			switch ev.Last() {
			case "UpdateSwapTx":
				s.roles(st, ev, "spend/swap", map[string]string{
					"PsetBase64": req + "Transaction", "Unspents": "a0.MarketUtxos",
					"InputAmount": req + "AmountR", "InputAsset": req + "AssetR", "OutputAmount": req + "AmountP", "OutputAsset": req + "AssetP",
					"OutputDerivationPath": "a0.OutputInfo.DerivationPath", "ChangeDerivationPath": "a0.ChangeInfo.DerivationPath", "Network": "a0.Network",
				})
			case "UpdateTx":
				opts := ev.Args[len(ev.Args)-1]
				if v := fieldByName(e, st, opts, "Outputs"); v != nil && !v.IsNil() && v.Op != "zero" {
					bad("spend/feeoutput/blinded", st.Is("ok:blind"), "the explicit fee is added before the transaction is blinded")
					s.roles(st, ev, "spend/feeoutput", map[string]string{
						"PsetBase64": "blind#0", "Outputs": "feeoutput(fees#0.FeeAmount;a0.Network)", "Network": "a0.Network", "Unspents": "nil"})
					return
				}
				s.feeStep(st, ev, rateOK, "swap#0", "a0.FeeUtxos", "a0.FeeChangeInfo.DerivationPath", "a0.Network", "true")
			case "BlindSwapTransactionWithData":
				s.roles(st, ev, "spend/blind", map[string]string{"PsetBase64": "fees#0.PsetBase64", "InputBlindingData": revealed})
				bad("spend/blind/inputs", st.Is("all:reveal"), "some of the inputs added is not revealed")
				m := fieldByName(e, st, ev.Args[len(ev.Args)-1], "OutputBlindingKeys")
				for _, l := range []string{"key:a0.OutputInfo", "key:a0.ChangeInfo", "all:outkey"} {
					bad("spend/blind/outputs/"+l, st.Is(l) && m != nil, "the blinding keys of the outputs added are not all given")
				}
				bad("spend/blind/outputs", m != nil && path(st, m) == req+"OutputBlindingKey", "the blinding keys are not those of the proposal")
			case "SignInput":
				opts := ev.Args[len(ev.Args)-1]
				p, in, dp := fieldByName(e, st, opts, "PsetBase64"), fieldByName(e, st, opts, "InIndex"), fieldByName(e, st, opts, "DerivationPath")
				if p == nil || in == nil || dp == nil {
					bad("spend/sign", false, "the input to sign is not known")
					return
				}
				ps := a.paths(st, p)
				okP := slices.Contains(ps, "feeoutput#0.PsetBase64")
				for _, x := range ps {
					okP = okP && (x == "feeoutput#0.PsetBase64" || x == "signed#0")
				}
				bad("spend/sign/tx", okP && len(ps) == 2, "what is signed is not the transaction with the previous signatures: "+strings.Join(ps, "|"))
				idx := indexOf(dp)
				own := idx != nil && dp.Op == "field" && lastPart(dp.Aux) == "DerivationPath"
				if own {
					l := dp.Args[0]
					own = l.Op == "index" && isInfos(l.Args[0]) && st.Is("all:info")
				}
				bad("spend/sign/path", own, "an input is not signed with the key of its address")
				bad("spend/sign/input", idx != nil && after(st, in, idx), "the input signed is not the one of the key")
			}
		case ev.Kind == "after" && strings.HasPrefix(ev.Name, "wallet."):
			switch ev.Last() {
			case "UpdateSwapTx":
				s.step(st, ev, "swap")
			case "UpdateTx":
				opts := ev.Args[len(ev.Args)-1]
				if v := fieldByName(e, st, opts, "Outputs"); v != nil && !v.IsNil() && v.Op != "zero" {
					s.step(st, ev, "feeoutput")
				} else {
					s.step(st, ev, "fees")
				}
			case "BlindSwapTransactionWithData":
				s.step(st, ev, "blind")
			case "SignInput":
				s.step(st, ev, "signed")
				st.CondGen('N', ev.Res[1], "did:sign")
			case "ExtractBlindingDataFromTx":
				st.CondGen('N', ev.Res[len(ev.Res)-1], "ok:reveal")
				s.n["reveal"]++
			}
		case ev.Kind == "mapupdate":
			m := ev.Args[0].Typ.Underlying().(*types.Map)
			key, val := ev.Args[1], ev.Val
			switch {
			case typeName(m.Elem()) == "wallet.BlindingData":
				n := "spend/reveal"
				ok := path(st, ev.Args[0]) == revealed && st.Is("ok:reveal")
				var idx *Term
				for f, w := range map[string]string{"Asset": "Asset", "Amount": "Value", "AssetBlinder": "AssetBlinder", "AmountBlinder": "ValueBlinder"} {
					v := a.field(st, val, f)
					if v == nil || v.Op != "call" || lastPart(v.CallName()) != w || len(v.CallArgs()) != 1 || v.CallArgs()[0].Op != "index" || path(st, v.CallArgs()[0].Args[0]) != selected {
						ok = false
						continue
					}
					x := v.CallArgs()[0].Args[1]
					if idx != nil && idx != x {
						ok = false
					}
					idx = x
				}
				bad(n, ok, "an input added is not revealed to be what it is")
				bad(n+"/position", idx != nil && after(st, key, idx), "an input added is revealed at another position")
				st.Gen("did:reveal")
				s.n["revealed"]++
			case typeName(m.Elem()) == "domain.AddressInfo":
				good, known := byScript[ev.Args[0]]
				byScript[ev.Args[0]] = (good || !known) && a.field(st, val, "Script") == key
			case m.Key().String() == "string" && m.Elem().String() == "[]byte":
				kp, vp := path(st, key), path(st, val)
				okB := strings.HasSuffix(kp, ".Script") && strings.TrimSuffix(kp, ".Script")+".BlindingKey" == vp
				switch path(st, ev.Args[0]) {
				case req + "OutputBlindingKey":
					owner := ""
					if key.Op == "field" && val.Op == "field" && lastPart(key.Aux) == "Script" && lastPart(val.Aux) == "BlindingKey" && key.Args[0] == val.Args[0] {
						owner = path(st, key.Args[0])
					}
					switch owner {
					case "a0.OutputInfo", "a0.ChangeInfo":
						okB = true
						put(st, "key:"+owner, ev.Args[0])
					case "a0.ChangeInfo|a0.OutputInfo":
						okB = true
						put(st, "did:pair", ev.Args[0])
					default:
						k, v := loopKey(key), loopVal(val)
						okB = k != nil && k == v && key.Args[0] == val.Args[0] && path(st, k) == "fees#0.ChangeOutputsBlindingKeys"
						put(st, "did:outkey", ev.Args[0])
					}
				case req + "InputBlindingKey":
					bad("spend/inkey/order", st.Is("all:sign") || st.Is("ok:reveal"), "the blinding keys of the proposal change before its inputs are revealed")
					okB = key.Op == "field" && val.Op == "field" && lastPart(key.Aux) == "Script" && lastPart(val.Aux) == "BlindingKey" && key.Args[0] == val.Args[0] &&
						key.Args[0].Op == "index" && isInfos(key.Args[0].Args[0]) && st.Is("all:info")
					put(st, "did:inkey", ev.Args[0])
				}
				bad("spend/keys", okB, "a blinding key is not that of its script: "+kp+" = "+vp)
				s.n["keys"]++
			}
		case ev.Kind == "append" && len(ev.Args) == 2:
			sl, ok := ev.Instr.(ssa.Value).Type().Underlying().(*types.Slice)
			if !ok || typeName(sl.Elem()) != "domain.AddressInfo" {
				return
			}
			for _, v := range e.Elems(st, ev.Args[1]) {
				v = pointee(e, st, v)
				script := a.field(st, v, "Script")
				ok := false
				var froms []string
				if script != nil {
					st.HasMatch('T', func(t *Term) bool {
						if t.Op != "eq" {
							return false
						}
						for i := range t.Args {
							if t.Args[i] != script || !lastIs(t.Args[1-i].CallName(), "EncodeToString") {
								continue
							}
							x := lastArgOf(t.Args[1-i])
							if x.CallName() == "explorer.Utxo.Script" && x.CallArgs()[0].Op == "index" && path(st, x.CallArgs()[0].Args[0]) == selected &&
								st.HasMatch('T', func(t *Term) bool {
									return t.Op == "lt" && t.Args[0] == x.CallArgs()[0].Args[1] && loopOver(t) != nil && path(st, loopOver(t)) == selected
								}) {
								ok = true
							}
						}
						return ok
					})
				}
				x := v
				if x.Op == "extract" && x.Args[0].Op == "lookup" {
					x = x.Args[0]
				}
				if x.Op == "lookup" && byScript[x.Args[0]] && lastIs(x.Args[1].CallName(), "EncodeToString") {
					u := lastArgOf(x.Args[1])
					ok = u.CallName() == "explorer.Utxo.Script" && u.CallArgs()[0].Op == "index" && path(st, u.CallArgs()[0].Args[0]) == selected &&
						st.HasMatch('T', func(t *Term) bool { return t.Op == "has" && t.Args[0] == x.Args[0] && t.Args[1] == x.Args[1] }) &&
						st.HasMatch('T', func(t *Term) bool {
							return t.Op == "lt" && t.Args[0] == u.CallArgs()[0].Args[1] && loopOver(t) != nil && path(st, loopOver(t)) == selected
						})
					for _, r := range a.collect(st, x.Args[0], map[*Term]bool{}) {
						froms = append(froms, r.row[""]...)
					}
				} else {
					froms = a.paths(st, v)
				}
				src := true
				for _, p := range froms {
					for _, q := range strings.Split(strings.TrimSuffix(p, "[]"), "+") {
						src = src && (q == "a0.MarketInfo" || q == "a0.FeeInfo")
					}
				}
				bad("spend/info", ok && src, "the address looked up for a selected input is not the one of its script")
				bad("spend/info/once", !st.Is("did:info"), "more addresses than inputs are looked up")
				infos["domain.AddressInfo"] = true
				st.Gen("did:info")
				s.n["info"]++
			}
		case ev.Kind == "return" && ev.Frame.parent == nil:
			_, good := outcomes(st, ev)
			if good == nil {
				return
			}
			for _, l := range []string{"ok:swap", "ok:fees", "ok:reveal", "ok:blind", "ok:feeoutput", "all:sign", "all:inkey"} {
				bad("spend/result/"+l, good.Is(l), "the proposal may be accepted though a step failed or was skipped: "+l)
			}
			for f, w := range map[string]string{"PsetBase64": "feeoutput#0.PsetBase64|signed#0", "SelectedUnspents": selected,
				"InputBlindingKeys": req + "InputBlindingKey", "OutputBlindingKeys": req + "OutputBlindingKey"} {
				var ps []string
				if v := a.field(good, ev.Res[0], f); v != nil {
					ps = a.paths(good, v)
				}
				bad("spend/result/"+f, strings.Join(ps, "|") == w, f+" of the result is "+strings.Join(ps, "|")+" instead of "+w)
			}
		}
	}
	c.AnalyzeWith(e, fn, "", func(st *State, _ []*Term) {
		for _, l := range sortedKeys(over) {
			st.Gen("did:" + l)
		}
		st.Gen("did:pair")
	})
	s.stale()
	for _, k := range []string{"swap", "fees", "reveal", "revealed", "blind", "feeoutput", "info", "signed"} {
		c.Need("fill", s.n[k], 1, "steps "+k+" of "+name)
	}
	c.Need("fill", s.n["keys"], 4, "blinding keys handed over by "+name)
}

// feeStep: the network fees are paid by the fee account.
func (s *spender) feeStep(st *State, ev *Event, rateOK func(*State, *Term) bool, pset, coins, change, net, private string) {
	want := map[string]string{"PsetBase64": pset, "Network": net, "WantPrivateBlindKeys": private, "WantChangeForFees": "true"}
	if coins != "" {
		want["Unspents"] = coins
	}
	s.roles(st, ev, "spend/fees", want)
	opts := ev.Args[len(ev.Args)-1]
	r := fieldByName(s.e, st, opts, "MilliSatsPerBytes")
	s.c.At(ev, "spend/fees/rate", s.name, r != nil && rateOK(st, r), "the fee rate may be below the minimum")
	s.changes(st, ev, "spend/fees/change", map[string]string{net + ".AssetID": change})
}

// changes: what is left of each asset goes where it must.
func (s *spender) changes(st *State, ev *Event, rule string, want map[string]string) {
	m := fieldByName(s.e, st, ev.Args[len(ev.Args)-1], "ChangePathsByAsset")
	n, ok, got := 0, true, []string{}
	if m != nil {
		for _, r := range s.collect(st, m, map[*Term]bool{}) {
			n++
			k, v := strings.Join(r.row["key"], "|"), strings.Join(r.row[""], "|")
			ok = ok && want[k] == v && r.direct == ""
			got = append(got, k+" to "+v)
		}
	}
	sortStrings(got)
	s.c.At(ev, rule, s.name, ok && n > 0, "what is left is sent elsewhere: "+strings.Join(got, ", "))
}

func (c *Check) sendings() {
	specs := []sendSpec{
		{iface: "WalletService", method: "SendToMany", account: "wallet", coins: "onchain(addresses(info(wallet));keys(info(wallet)))",
			outs: []sendOut{{asset: "a1.Outputs[].Asset", value: "a1.Outputs[].Value", addr: "a1.Outputs[].Address"}}, each: "a1.Outputs"},
		{iface: "OperatorService", method: "WithdrawMarketFunds", account: "market(a1.Market.QuoteAsset).AccountIndex",
			coins: "free(addresses(info(market(a1.Market.QuoteAsset).AccountIndex)))",
			outs: []sendOut{
				{asset: "a1.Market.BaseAsset", value: "a1.BalanceToWithdraw.BaseAmount", addr: "a1.Address"},
				{asset: "a1.Market.QuoteAsset", value: "a1.BalanceToWithdraw.QuoteAmount", addr: "a1.Address"}}},
	}
	for _, spec := range specs {
		n := 0
		for _, nt := range c.P.Impls(c.P.Iface(app, spec.iface)) {
			if m := c.P.Method(nt, spec.method); m != nil {
				n++
				c.sending(spec, m)
			}
		}
		c.Need("send", n, 1, "operations "+spec.method)
	}
}

type sendOut struct{ asset, value, addr string }

type sendSpec struct {
	iface, method  string
	account, coins string
	outs           []sendOut
	each           string // the list with what to send
}

func (c *Check) sending(spec sendSpec, fn *ssa.Function) {
	s := c.spender(spec.method, fn)
	a, e := s.api, s.e
	rateOK := s.rateOK(c.intConst(dom, "MinMilliSatPerByte"))
	for _, f := range []string{"Asset", "Value", "Address"} {
		s.sufs[f] = true
	}
	isListOf := func(t *Term, elem string) bool {
		sl, ok := t.Typ.Underlying().(*types.Slice)
		return ok && (typeName(sl.Elem()) == elem || typeName(elemOrSelf(sl.Elem())) == elem || sl.Elem().String() == elem)
	}
	keysOfStep := func(st *State, t *Term) string {
		p := a.path(st, t)
		for _, k := range []string{"pay", "fees"} {
			if p == "pset("+k+"#0.PsetBase64).UnsignedTx.Outputs" || p == "pset("+k+"#0.PsetBase64).Outputs" {
				return k
			}
		}
		return ""
	}
	requested := func(st *State, t *Term) bool {
		return spec.each != "" && a.path(st, t) == spec.each || spec.each == "" && isListOf(t, "application.TxOut")
	}
	mapOf := func(t *Term) bool {
		m, ok := t.Typ.Underlying().(*types.Map)
		return ok && m.Key().String() == "string" && m.Elem().String() == "string"
	}
	e.onAssume = func(st *State, k byte, t *Term) {
		armedLoop("out", func(t *Term) bool { return requested(st, t) })(st, k, t)
		armedLoop("outkey", func(t *Term) bool { return requested(st, t) })(st, k, t)
		for _, l := range []string{"pay", "fees"} {
			armedLoop("keys:"+l, func(t *Term) bool { return keysOfStep(st, t) == l })(st, k, t)
		}
		// an output that has its key already
		if k == 'T' && t.Op == "lt" && t.Args[1].Op == "len" && isListOf(t.Args[1].Args[0], "[]byte") {
			st.HasMatch('T', func(u *Term) bool {
				if u.Op == "lt" && u.Args[0] == t.Args[0] && u != t && loopOver(u) != nil {
					if l := keysOfStep(st, loopOver(u)); l != "" {
						st.Gen("did:keys:" + l)
					}
				}
				return false
			})
		}
		if k == 'F' && a.path(st, t) == "a1.Push" {
			st.Gen("sent")
		}
		for _, o := range spec.outs {
			if zero := func(x, y *Term) bool { return x.IsZero() && a.path(st, unconv(y)) == o.value }; spec.each == "" && (k == 'F' && t.Op == "lt" && zero(t.Args[0], t.Args[1]) ||
				k == 'T' && t.Op == "eq" && (zero(t.Args[0], t.Args[1]) || zero(t.Args[1], t.Args[0])) ||
				k == 'T' && t.Op == "lt" && a.path(st, unconv(t.Args[0])) == o.value && isOne(t.Args[1])) {
				st.Gen("sent:" + o.asset)
			}
		}
		x := loopOver(t)
		if x == nil {
			return
		}
		switch {
		case mapOf(x):
			done := st.Is("did:path")
			armedLoop("path", mapOf)(st, k, t)
			if k == 'F' && done {
				if ps := strings.Split(strings.Join(a.paths(st, x), "|"), "|"); len(ps) == 1 {
					st.Gen("copied:" + ps[0])
				} else if x.Op != "index" || st.HasMatch('T', func(u *Term) bool {
					return u.Op == "lt" && u.Args[0] == x.Args[1] && loopOver(u) == x.Args[0]
				}) {
					// the one whose turn it is
					st.Gen("did:maps")
				}
			}
		case mapsOf(x):
			done := st.Is("did:maps")
			armedLoop("maps", mapsOf)(st, k, t)
			if k == 'F' && done {
				for _, p := range s.sources(st, x, "[]") {
					st.Gen("copied:" + p)
				}
			}
		}
	}
	changeOf := func(who string) string { return "change(" + who + ").DerivationPath" }
	sites := map[string]string{} // where blinding keys are added to a list
	paths := "DerivationPathByScript"
	hook := e.hook
	e.hook = func(st *State, ev *Event) {
		hook(st, ev)
		path := func(t *Term) string { return strings.Join(a.paths(st, t), "|") }
		bad := func(rule string, ok bool, msg string) { c.At(ev, rule, a.name, ok, msg) }
		opt := func(f string) *Term { return fieldByName(e, st, ev.Args[len(ev.Args)-1], f) }
		given := func(f string) bool {
			v := opt(f)
			return v != nil && !v.IsNil() && v.Op != "zero"
		}
		stepOf := func() string {
			switch {
			case given("WantChangeForFees"):
				return "fees"
			case given("Unspents"):
				return "pay"
			}
			return "feeoutput"
		}
		coinsAre := func(want string) {
			v := opt("Unspents")
			got := s.sources(st, v, "[]")
			bad("spend/"+stepOf()+"/coins", only(got, want+"[]") || path(v) == want, "the coins spent are "+strings.Join(got, "|")+" instead of "+want)
		}
		switch {
		case ev.Kind == "call" && lastIs(ev.Name, "DeriveNextInternalAddressForAccount", "DeriveNextExternalAddressForAccount"):
			bad("spend/change/kept", ev.Args[0].Op == "cbparam", "an address is derived from a copy of the vault that is not stored")
		case ev.Kind == "after" && ev.Last() == "UpdateVault":
			st.CondGen('N', ev.Res[len(ev.Res)-1], "kept")
			s.n["kept"]++
		case ev.Kind == "mapupdate" && mapOf(ev.Args[0]):
			k, v := path(ev.Args[1]), path(ev.Val)
			switch {
			case strings.HasPrefix(v, "change(") || strings.HasPrefix(v, "address("):
				bad("spend/change/derived", okErr2(st, ev.Val), "a change address is used though deriving it failed")
				s.n["change"]++
			case isKeyOf(ev.Args[1]) && strings.Contains(k, paths):
				same := loopVal(ev.Val) != nil && ev.Val.Args[0] == ev.Args[1].Args[0]
				bad("spend/paths", same, "the derivation path of a script becomes that of another one")
				if same {
					st.Gen("did:path")
				}
			}
		case ev.Kind == "append" && len(ev.Args) == 2:
			t := ev.Instr.(ssa.Value).Type()
			elem := ""
			if sl, ok := t.Underlying().(*types.Slice); ok {
				elem = sl.Elem().String()
				if n := typeName(elemOrSelf(sl.Elem())); n != "" {
					elem = n
				}
			}
			for _, v := range e.Elems(st, ev.Args[1]) {
				switch elem {
				case "application.TxOut":
					got := sendOut{path(a.field(st, v, "Asset")), path(a.field(st, v, "Value")), path(a.field(st, v, "Address"))}
					ok := slices.Contains(spec.outs, got)
					bad("spend/asked", ok, "what is sent is not what was asked for: "+got.value+" of "+got.asset+" to "+got.addr)
					if ok {
						bad("spend/asked/once", !st.Is("sent:"+got.asset), "the same amount is sent twice")
						st.Gen("sent:" + got.asset)
					}
				case "transaction.TxOutput":
					okO := lastIs(v.CallName(), "NewTxOutput") && len(v.CallArgs()) == 3
					if okO {
						var addrs, assets, values []string
						for _, o := range spec.outs {
							addrs, assets, values = add(addrs, o.addr), add(assets, o.asset), add(values, o.value)
						}
						as := v.CallArgs()
						want := []string{"assetbytes(" + strings.Join(assets, "|") + ")", "valuebytes(" + strings.Join(values, "|") + ")", "scriptof(" + strings.Join(addrs, "|") + ")"}
						for i, w := range want {
							bad("spend/output/"+one("asset", "value", "script")[i], path(as[i]) == w && okErr2(st, as[i]), "an output to send is not as asked for: "+path(as[i])+" instead of "+w)
						}
						okO = requestedItem(as, func(t *Term) bool { return requested(st, t) })
					}
					bad("spend/output", okO, "the parts of an output to send are of different requests")
					bad("spend/output/once", !st.Is("did:out"), "an output is added twice")
					st.Gen("did:out")
					s.n["output"]++
				case "[]byte":
					p := path(v)
					site := "append@" + e.site(ev.Frame, ev.Instr)
					if strings.HasPrefix(p, "confidential(") {
						var addrs []string
						for _, o := range spec.outs {
							addrs = add(addrs, o.addr)
						}
						bad("spend/outkey", p == "confidential("+strings.Join(addrs, "|")+").BlindingKey" && okErr2(st, v) && requestedItem([]*Term{v}, func(t *Term) bool { return requested(st, t) }), "an output is blinded with the key of another address: "+p)
						bad("spend/outkey/once", !st.Is("did:outkey"), "a blinding key is added twice")
						st.Gen("did:outkey")
						sites[site] = "out"
						s.n["outkey"]++
						continue
					}
					x := v
					if x.Op == "extract" {
						x = x.Args[0]
					}
					k := ""
					if x.Op == "lookup" {
						m, key := path(x.Args[0]), x.Args[1]
						for _, kk := range []string{"pay", "fees"} {
							if m == kk+"#0.ChangeOutputsBlindingKeys" && path(key) == "hex(pset("+kk+"#0.PsetBase64).UnsignedTx.Outputs[].Script)" {
								k = kk
							}
						}
						found := st.HasMatch('T', func(t *Term) bool { return t.Op == "has" && t.Args[0] == x.Args[0] && t.Args[1] == key })
						bad("spend/changekey/found", found, "the blinding key of a change may be missing")
						// from the first output without a key on
						ok := false
						key.Contains(func(y *Term) bool {
							if y.Op == "index" && keysOfStep(st, y.Args[0]) == k {
								i := y.Args[1]
								ok = startsAfter(i, ev.Args[0]) || st.HasMatch('F', func(t *Term) bool {
									return t.Op == "lt" && t.Args[0] == i && t.Args[1].Op == "len" && t.Args[1].Args[0] == ev.Args[0]
								})
							}
							return ok
						})
						bad("spend/changekey/position", ok, "the blinding keys of the changes do not follow those of the other outputs")
					}
					bad("spend/changekey", k != "", "a blinding key is not that of the change of the transaction: "+p)
					st.Gen("did:keys:" + k)
					sites[site] = k
					s.n["changekey"]++
				}
			}
		case ev.Kind == "call" && strings.HasPrefix(ev.Name, "wallet."):
			if ev.Last() == "validate" || len(ev.Args) == 0 {
				return
			}
			if strings.HasPrefix(ev.Name, "wallet.Wallet.") {
				bad("spend/wallet", path(ev.Args[0]) == "wallet(mnemonic)" && okErr2(st, ev.Args[0]), "another wallet is used: "+path(ev.Args[0]))
			}
			switch ev.Last() {
			case "UpdateTx":
				switch stepOf() {
				case "pay":
					s.roles(st, ev, "spend/pay", map[string]string{"PsetBase64": "new#0", "Network": "w.network", "WantPrivateBlindKeys": "false", "WantChangeForFees": "false"})
					got := s.sources(st, opt("Outputs"), "[]")
					bad("spend/pay/outputs", only(got, "output") && st.Is("all:out"), "some of the outputs asked for are missing, or there are others: "+strings.Join(got, "|"))
					coinsAre(spec.coins)
					r := opt("MilliSatsPerBytes")
					bad("spend/pay/rate", r != nil && rateOK(st, r), "the fee rate may be below the minimum")
					m := map[string]string{"asset(output.Asset)": changeOf(spec.account)}
					for _, o := range spec.outs {
						m[o.asset] = changeOf(spec.account)
					}
					s.changes(st, ev, "spend/pay/change", m)
					s.pending(st, ev, spec)
				case "fees":
					s.feeStep(st, ev, rateOK, "pay#0.PsetBase64", "", changeOf("fee"), "w.network", "false")
					bad("spend/fees/outputs", !given("Outputs"), "outputs are added when the fees are paid")
					coinsAre("free(addresses(info(fee)))")
				default:
					bad("spend/feeoutput/blinded", st.Is("ok:blind"), "the explicit fee is added before the transaction is blinded")
					s.roles(st, ev, "spend/feeoutput", map[string]string{"PsetBase64": "blind#0", "Outputs": "feeoutput(fees#0.FeeAmount;w.network)", "Network": "w.network"})
				}
			case "BlindTransactionWithKeys":
				s.roles(st, ev, "spend/blind", map[string]string{"PsetBase64": "fees#0.PsetBase64"})
				kinds := map[string]bool{}
				if v := opt("OutputBlindingKeys"); v != nil {
					for _, k := range appendSites(v) {
						kinds[sites[k]] = true
					}
				}
				bad("spend/blind/keys", kinds["out"] && kinds["pay"] && kinds["fees"] && len(kinds) == 3 && st.Is("all:outkey") && st.Is("all:keys:pay") && st.Is("all:keys:fees"),
					"the blinding keys are not those of all the outputs: "+strings.Join(sortedKeysB(kinds), ", "))
			case "SignTransaction":
				s.roles(st, ev, "spend/sign", map[string]string{"PsetBase64": "feeoutput#0.PsetBase64"})
				ok := true
				for _, who := range []string{spec.account, "fee"} {
					ok = ok && st.Is("copied:account("+who+")."+paths)
				}
				var from []string
				for _, r := range a.collect(st, opt("DerivationPathMap"), map[*Term]bool{}) {
					from = append(from, r.row[""]...)
				}
				bad("spend/sign/paths", ok && len(from) > 0, "the derivation paths are not those of both accounts: "+strings.Join(from, "|"))
			case "FinalizeAndExtractTransaction":
				s.roles(st, ev, "spend/final", map[string]string{"PsetBase64": "signed#0"})
			}
		case ev.Kind == "after" && strings.HasPrefix(ev.Name, "wallet."):
			if k := map[string]string{"CreateTx": "new", "UpdateTx": "?", "BlindTransactionWithKeys": "blind", "SignTransaction": "signed", "FinalizeAndExtractTransaction": "final"}[ev.Last()]; k != "" {
				if k == "?" {
					k = stepOf()
				}
				s.step(st, ev, k)
			}
		case ev.Kind == "call" && ev.Last() == "BroadcastTransaction":
			p := strings.TrimPrefix(path(ev.Args[len(ev.Args)-1]), "nil|")
			p = strings.TrimSuffix(p, "|nil")
			bad("spend/broadcast/tx", p == "final#0", "what is broadcast is not the transaction made: "+p)
			bad("spend/broadcast/asked", st.HasMatch('T', func(t *Term) bool { return a.path(st, t) == "a1.Push" }), "the transaction may be broadcast though it was not asked for")
			bad("spend/broadcast/kept", st.Is("kept"), "the transaction may be broadcast though the change addresses are not stored")
			for _, k := range []string{"new", "pay", "fees", "blind", "feeoutput", "signed", "final"} {
				bad("spend/broadcast/ok:"+k, st.Is("ok:"+k), "the transaction may be broadcast though a step failed: "+k)
			}
			s.n["broadcast"]++
		case ev.Kind == "after" && ev.Last() == "BroadcastTransaction":
			st.CondGen('N', ev.Res[len(ev.Res)-1], "sent")
		case ev.Kind == "return" && ev.Frame.parent == nil:
			if _, good := outcomes(st, ev); good != nil {
				p := strings.Join(a.paths(good, ev.Res[0]), "|")
				p = strings.Replace(strings.Replace(p, "nil|", "", 1), "|nil", "", 1)
				bad("spend/result", p == "unhex(final#0)", "the transaction returned is not the one made: "+p)
				bad("spend/result/sent", good.Is("sent"), "success is reported though the transaction was not broadcast")
			}
		}
	}
	c.AnalyzeWith(e, fn, "", func(st *State, _ []*Term) {
		for _, l := range []string{"out", "outkey", "keys:pay", "keys:fees", "path", "maps"} {
			st.Gen("did:" + l)
		}
	})
	for _, k := range []string{"new", "pay", "fees", "blind", "feeoutput", "signed", "final", "kept", "output", "outkey", "broadcast"} {
		c.Need("send", s.n[k], 1, "steps "+k+" of "+spec.method)
	}
	c.Need("send", s.n["changekey"], 2, "blinding keys of changes added by "+spec.method)
	c.Need("send", s.n["change"], 2, "change addresses derived by "+spec.method)
}

func mapsOf(t *Term) bool {
	sl, ok := t.Typ.Underlying().(*types.Slice)
	return ok && sl.Elem().String() == "map[string]string"
}

func add(ss []string, s string) []string {
	if !slices.Contains(ss, s) {
		ss = append(ss, s)
	}
	sortStrings(ss)
	return ss
}

// requestedItem: all the parts are of one element of the list of what to send.
func requestedItem(ts []*Term, requested func(*Term) bool) bool {
	var idx *Term
	ok := true
	for _, t := range ts {
		found := false
		t.Contains(func(x *Term) bool {
			if x.Op == "index" && requested(x.Args[0]) {
				found = true
				if idx != nil && x.Args[1] != idx {
					ok = false
				}
				idx = x.Args[1]
			}
			return false
		})
		ok = ok && found
	}
	return ok
}

// startsAfter: the counter starts with the length of the list that grows.
func startsAfter(i, list *Term) bool {
	if i.Op != "phi" {
		return false
	}
	for _, x := range i.Alts {
		if x.Op == "len" && (x.Args[0] == list || list.Op == "phi" && containsTerm(list.Alts, x.Args[0])) {
			return true
		}
	}
	return false
}

// appendSites: where a list was appended to.
func appendSites(t *Term) (out []string) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch {
		case t.Op == "append":
			out = append(out, contKey(t))
			walk(t.Args[0])
		case t.Op == "phi":
			for _, x := range t.Alts {
				walk(x)
			}
		case t.Op == "slice" && t.Args[0].Op != "alloc":
			walk(t.Args[0])
		}
	}
	walk(t)
	return
}

// pending: what was asked for was checked before anything is spent.
func (s *spender) pending(st *State, ev *Event, spec sendSpec) {
	if spec.each != "" {
		return
	}
	for _, o := range spec.outs {
		s.c.At(ev, "spend/asked/all:"+o.asset, s.name, st.Is("sent:"+o.asset), "an amount asked for may not be sent")
		b := "balance(addresses(info(" + spec.account + "));" + o.asset + ")"
		enough := st.HasMatch('F', func(t *Term) bool {
			return t.Op == "lt" && s.path(st, t.Args[0]) == b && s.path(st, t.Args[1]) == o.value
		})
		s.c.At(ev, "spend/balance:"+o.asset, s.name, enough, "more than the balance of the account may be spent")
	}
	known := st.HasMatch('F', func(t *Term) bool {
		return t.Op == "lt" && t.Args[1].IsZero() && s.path(st, t.Args[0]) == spec.account
	})
	s.c.At(ev, "spend/market", s.name, known, "the market may not exist")
	base := st.HasMatch('T', func(t *Term) bool {
		return t.Op == "eq" && (s.path(st, t.Args[0]) == "a1.Market.BaseAsset" && s.path(st, t.Args[1]) == "w.marketBaseAsset" ||
			s.path(st, t.Args[1]) == "a1.Market.BaseAsset" && s.path(st, t.Args[0]) == "w.marketBaseAsset")
	})
	s.c.At(ev, "spend/base", s.name, base, "the market may have another base asset")
}

// proposalInputs: what proposals are accepted with.
func (c *Check) proposalInputs() {
	const market = "market(a1.QuoteAsset).AccountIndex"
	n, calls := 0, 0
	for _, nt := range c.P.Impls(c.P.Iface(app, "TradeService")) {
		m := c.P.Method(nt, "TradePropose")
		if m == nil {
			continue
		}
		n++
		s := c.spender("TradePropose", m)
		a, e := s.api, s.e
		hook := e.hook
		e.hook = func(st *State, ev *Event) {
			hook(st, ev)
			if ev.Kind != "call" || ev.Last() != "FillProposal" {
				return
			}
			calls++
			s.roles(st, ev, "spend/accept", map[string]string{
				"Mnemonic": "mnemonic", "SwapRequest": "a3", "MarketInfo": "info(" + market + ")", "FeeInfo": "info(fee)",
				"OutputInfo": "address(" + market + ")", "ChangeInfo": "change(" + market + ")", "FeeChangeInfo": "change(fee)", "Network": "w.network",
			})
			for f, who := range map[string]string{"MarketUtxos": market, "FeeUtxos": "fee"} {
				var got []string
				if v := fieldByName(e, st, ev.Args[len(ev.Args)-1], f); v != nil {
					got = s.sources(st, v, "[]")
				}
				want := "free(addresses(info(" + who + ")))[]"
				c.At(ev, "spend/accept/"+f, a.name, only(got, want), "the coins spent are "+strings.Join(got, "|")+" instead of "+want)
			}
		}
		c.Analyze(e, m)
	}
	c.Need("accept", n, 1, "operations answering proposals")
	c.Need("accept", calls, 1, "places accepting proposals")
}

// addressLists: the addresses and keys of an account are those of its info, in
// the same order.
func (c *Check) addressLists() {
	nt := c.P.Named(dom, "AddressesInfo")
	specs := map[string][]string{"Addresses": {"Address"}, "AddressesAndKeys": {"Address", "BlindingKey"}}
	for _, name := range sortedKeys(specs) {
		var m *ssa.Function
		if nt != nil {
			m = c.P.Method(nt, name)
		}
		if m == nil {
			c.Ob("anchor", "AddressesInfo."+name, false, "-", "the list of the addresses of an account is gone")
			continue
		}
		want := specs[name]
		a := c.walletTracer("AddressesInfo."+name, m)
		e := a.e
		e.inline = func(f *ssa.Function) bool { return c.P.PkgRel(f) == dom }
		e.onAssume = func(st *State, k byte, t *Term) {
			for _, f := range want {
				armedLoop(f, func(t *Term) bool { return a.path(st, t) == "w" })(st, k, t)
			}
		}
		at := map[string]string{} // field of the container
		hook := e.hook
		e.hook = func(st *State, ev *Event) {
			hook(st, ev)
			put := func(cont string, idx, v *Term) {
				p := a.path(st, v)
				f := strings.TrimPrefix(p, "w[].")
				ok := slices.Contains(want, f) && f != p && (idx == nil || sameItem(idx, v))
				c.At(ev, "spend/info/list", a.name, ok, "the list does not have what belongs at each position: "+p)
				if at[cont] != "" && at[cont] != f {
					f = "?"
				}
				at[cont] = f
				st.Gen("did:" + f)
			}
			switch {
			case ev.Kind == "idxstore" && ev.Base != nil && !isArray(ev.Base):
				put(contKey(ev.Base), ev.Args[1], ev.Val)
			case ev.Kind == "append" && len(ev.Args) == 2:
				for _, v := range e.Elems(st, ev.Args[1]) {
					put(contKey(e.tab.mk("append", e.site(ev.Frame, ev.Instr), nil)), nil, v)
				}
			case ev.Kind == "return" && ev.Frame.parent == nil:
				for i, f := range want {
					ok := false
					for _, k := range append(appendSites(ev.Res[i]), contKey(ev.Res[i])) {
						ok = ok || at[k] == f
					}
					c.At(ev, "spend/info/result:"+f, a.name, ok && st.Is("all:"+f), "the list returned is not the one of what was asked for")
				}
			}
		}
		c.AnalyzeWith(e, m, "", func(st *State, _ []*Term) {
			for _, f := range want {
				st.Gen("did:" + f)
			}
		})
	}
}

// pointee: what is loaded through an address that is not nil.
func pointee(e *Engine, st *State, v *Term) *Term {
	if v.Op != "load" || len(v.Args) == 0 {
		return v
	}
	var at *Term
	for _, x := range alts(v.Args[0]) {
		if x.IsNil() {
			continue
		}
		if at != nil {
			return v
		}
		at = x
	}
	if at != nil && (at.Op == "alloc" || at.Op == "idx") {
		return e.load(st, at, v.Typ)
	}
	return v
}

// stale: the number of inputs is taken before more of them are revealed.
func (s *spender) stale() {
	for _, f := range s.c.P.FuncsIn(app) {
		var lens, puts []ssa.Instruction
		of := map[ssa.Instruction]ssa.Value{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Call:
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && isRevealed(in.Call.Args[0].Type()) && added(in) {
						lens = append(lens, in)
						of[in] = in.Call.Args[0]
					}
				case *ssa.MapUpdate:
					if isRevealed(in.Map.Type()) {
						puts = append(puts, in)
						of[in] = in.Map
					}
				}
			}
		}
		for _, l := range lens {
			ok := true
			for _, p := range puts {
				ok = ok && (of[p] != of[l] || !follows(p, l))
			}
			s.c.Ob("spend/reveal/count", fnName(f), ok, s.c.P.Pos(l.Pos()), "the inputs of the proposal are counted after some were added")
		}
	}
}

func isRevealed(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && typeName(m.Elem()) == "wallet.BlindingData"
}

// follows: b may run after a, in the same function.
func follows(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, y := range x.Succs {
			if y == b.Block() || !seen[y] && func() bool { seen[y] = true; return walk(y) }() {
				return true
			}
		}
		return false
	}
	return walk(a.Block())
}

// added: the value is one side of a sum.
func added(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		if b, ok := r.(*ssa.BinOp); ok && b.Op == token.ADD {
			return true
		}
	}
	return false
}

func isOne(t *Term) bool {
	n, ok := t.IntConst()
	return ok && n == 1
}

func isArray(t *Term) bool {
	for t.Op == "slice" {
		t = t.Args[0]
	}
	_, ok := elemOrSelf(t.Typ).Underlying().(*types.Array)
	return ok && t.Op == "alloc"
}

func isListOfInfo(t *Term) bool {
	sl, ok := t.Typ.Underlying().(*types.Slice)
	return ok && typeName(sl.Elem()) == "domain.AddressInfo"
}
