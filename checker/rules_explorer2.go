package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var unblindParts = []string{"Nonce", "Asset", "Value", "Script", "RangeProof", "SurjectionProof"}

// isItem: an element of a list built here.
func isItem(t *Term) bool {
	return t.Op == "index" && eachOf(t) && t.Args[0].Any(func(y *Term) bool { return y.Op == "append" })
}

// coinOf: the coin that is, or is part of, a value.
func (a *exTracer) coinOf(st *State, v *Term) *Term {
	for len(v.Args) == 1 && (v.Op == "iface" || v.Op == "conv") {
		v = v.Args[0]
	}
	if a.field(st, v, a.value) != nil {
		return v
	}
	if s, ok := v.Typ.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			f := a.field(st, v, s.Field(i).Name())
			for f != nil && len(f.Args) == 1 && (f.Op == "iface" || f.Op == "conv") {
				f = f.Args[0]
			}
			if f != nil && a.field(st, f, a.value) != nil {
				return f
			}
		}
	}
	return nil
}

// coin: what is known of an unblinded coin all comes from unblinding it.
func (a *exTracer) coin(st *State, ev *Event, v *Term) {
	if a.value == "" || received(v) {
		return
	}
	x := a.coinOf(st, v)
	if x == nil || received(x) {
		return
	}
	calls := map[*Term]int{}
	parts := []string{"Value", "Asset", "ValueBlinder", "AssetBlinder"}
	for _, g := range parts {
		f := a.field(st, x, a.fields[g])
		if f == nil {
			continue
		}
		f.Contains(func(y *Term) bool {
			if y.Op == "call" && strings.HasPrefix(lastPart(y.CallName()), "Unblind") {
				calls[y]++
				return true
			}
			return false
		})
	}
	if len(calls) == 0 {
		return
	}
	same := len(calls) == 1
	for y, n := range calls {
		same = same && n == len(parts)
		if tup, ok := y.Typ.(*types.Tuple); ok {
			a.c.At(ev, "unblinded", a.name, st.Has('T', a.e.tab.mk("extract", itoa(tup.Len()-1), tup.At(tup.Len()-1).Type(), y)),
				"a coin may be returned as unblinded though none of the keys unblinded it")
		}
		// the output unblinded is that coin
		for _, g := range unblindParts {
			f := a.outs[y.CallArgs()[0]][g]
			w := g
			if g == "Asset" || g == "Value" {
				w += "Commitment"
			}
			want := a.field(st, x, a.fields[w])
			if f == nil || want == nil {
				same = false
				continue
			}
			got, exp := strings.Join(a.part(st, f, ""), "|"), strings.Join(a.part(st, want, ""), "|")
			if g == "Asset" || g == "Value" {
				exp = "unhex(" + exp + ")"
			}
			a.c.At(ev, "unblinded", a.name+": "+g, got == exp && f.Contains(func(z *Term) bool { return z == want }),
				"the "+g+" of the output that is unblinded is not that of the coin")
		}
	}
	a.c.At(ev, "unblinded", a.name+": parts", same, "value, asset and blinders of an unblinded coin do not come from the same output")
}

func (c *Check) explorerSpecs(pkg string, tx, coin map[string]string) []exSpec {
	fromHex := func(h, confirmed, pre string) map[string]string {
		return map[string]string{
			pre + tx["Hash"]:      "String(TxHash(tx(" + h + ")))",
			pre + tx["Version"]:   "tx(" + h + ").Version",
			pre + tx["Locktime"]:  "tx(" + h + ").Locktime",
			pre + tx["Inputs"]:    "tx(" + h + ").Inputs",
			pre + tx["Outputs"]:   "tx(" + h + ").Outputs",
			pre + tx["Size"]:      "VirtualSize(tx(" + h + "))",
			pre + tx["Weight"]:    "Weight(tx(" + h + "))",
			pre + tx["Confirmed"]: confirmed,
		}
	}
	ret := func(s string) map[string]string { return map[string]string{"": s} }
	if pkg == esploraPkg {
		hex, status := "answer(GET /tx/a0/hex)", "decoded(answer(GET /tx/a0/status))"
		txs := "decoded(answer(GET /address/a0/txs))"
		list := map[string]string{}
		for g, k := range map[string]string{"Hash": "txid", "Version": "version", "Locktime": "locktime", "Size": "size", "Weight": "weight", "Confirmed": "status.confirmed"} {
			list["[]."+tx[g]] = txs + "[]." + k
		}
		coins := func(a string) exSpec {
			u := "decoded(answer(GET /address/" + a + "/utxo))"
			h := "GET /tx/" + u + "[].txid/hex"
			out := "tx(answer(" + h + ")).Outputs[" + u + "[].vout]."
			w := map[string]string{}
			for g, k := range map[string]string{"Hash": "txid", "Index": "vout", "ValueCommitment": "valuecommitment", "AssetCommitment": "assetcommitment"} {
				w["[]."+coin[g]] = u + "[]." + k
			}
			w["[]."+coin["Value"]] = u + "[].value|unblinded(a1[]).Value"
			w["[]."+coin["Asset"]] = u + "[].asset|unblinded(a1[]).AssetHash"
			for _, g := range []string{"ValueBlinder", "AssetBlinder"} {
				w["[]."+coin[g]] = u + "[]." + coin[g] + "|unblinded(a1[])." + g
			}
			for _, g := range []string{"Nonce", "RangeProof", "SurjectionProof"} {
				w["[]."+coin[g]] = u + "[]." + coin[g] + "|" + out + g
			}
			w["[]."+coin["Script"]] = out + "Script"
			w["[]."+coin["IsConfirmed"]] = "decoded(answer(GET /tx/" + u + "[].txid/status)).confirmed|false"
			return exSpec{asks: []string{"GET /address/" + a + "/utxo", h, "GET /tx/" + u + "[].txid/status"}, lists: []string{u}, want: w}
		}
		one, many := coins("a0"), coins("a0[]")
		one.name, many.name = "GetUnspents", "GetUnspentsForAddresses"
		many.lists = append(many.lists, "a0")
		return []exSpec{
			{name: "GetBlockHeight", asks: []string{"GET /blocks/tip/height"}, want: ret("int(answer(GET /blocks/tip/height))")},
			{name: "GetTransaction", asks: []string{"GET /tx/a0/hex", "GET /tx/a0/status"}, want: fromHex(hex, status+".confirmed|false", "")},
			{name: "GetTransactionHex", asks: []string{"GET /tx/a0/hex"}, want: ret(hex)},
			{name: "GetTransactionStatus", asks: []string{"GET /tx/a0/status"}, want: ret(status)},
			{name: "IsTransactionConfirmed", asks: []string{"GET /tx/a0/status"}, want: ret(status + ".confirmed|false")},
			{name: "GetTransactionsForAddress", asks: []string{"GET /address/a0/txs"}, lists: []string{txs}, want: list},
			{name: "BroadcastTransaction", asks: []string{"POST /tx a0"}, want: ret("answer(POST /tx a0)")},
			one, many,
		}
	}
	res := func(r string) string { return "decoded(rpc(" + r + ").result)" }
	watch := func(addr, key, how string) []string {
		return []string{"listlabels;nil", "importmulti;[[{blinding_privkey:hex(" + key + "),label:hex(scriptof(" + addr + ")),scriptPubKey:{address:" + addr + "}," + how}
	}
	recent, rescan := "timestamp:now,watchonly:true}],{rescan:false}]", "timestamp:t.rescanTimestamp,watchonly:true}],{rescan:true}]"
	verbose := "getrawtransaction;[a0,1]"
	info := "gettransaction;[a0,true]"
	block := "getblock;[" + res(info) + ".blockhash]"
	coins := func(a, item string) exSpec {
		l := "listunspent;[0,9999999," + a + "]"
		u := res(l)
		h := "getrawtransaction;[" + u + "[].txid]"
		out := "tx(" + res(h) + ").Outputs[" + u + "[].vout]."
		w := map[string]string{}
		for g, k := range map[string]string{"Hash": "txid", "Index": "vout", "Asset": "asset", "ValueCommitment": "amountcommitment", "AssetCommitment": "assetcommitment"} {
			w["[]."+coin[g]] = u + "[]." + k
		}
		for _, g := range []string{"Nonce", "RangeProof", "SurjectionProof"} {
			w["[]."+coin[g]] = out + g
		}
		return exSpec{asks: append(watch(item, "Serialize(privkey(a1[]))", recent), l, h), lists: []string{u, "a0"}, want: w, watch: true}
	}
	one, many := coins("[a0]", "a0"), coins("a0", "a0[]")
	one.name, many.name = "GetUnspents", "GetUnspentsForAddresses"
	recv := "listreceivedbyaddress;[0,true,true,a0]"
	ids := res(recv) + "[0].txids"
	detail := "getrawtransaction;[" + ids + "[],1]"
	return []exSpec{
		{name: "GetBlockHeight", asks: []string{"getblockcount;nil"}, want: ret(res("getblockcount;nil"))},
		{name: "GetTransaction", asks: []string{verbose}, want: fromHex(res(verbose)+".hex", "0<"+res(verbose)+".confirmations", "")},
		{name: "GetTransactionHex", asks: []string{"getrawtransaction;[a0]"}, want: ret(res("getrawtransaction;[a0]"))},
		{name: "IsTransactionConfirmed", asks: []string{info}, want: ret("0<" + res(info) + ".confirmations|false")},
		{name: "GetTransactionStatus", asks: []string{info, block}, want: ret("{block_hash:" + res(block) + ".hash,block_height:" + res(block) + ".height,block_time:" + res(block) + ".time,confirmed:true}|{confirmed:false}")},
		{name: "GetTransactionsForAddress", asks: append(watch("a0", "a1", rescan), recv, detail), lists: []string{ids, "a0"},
			want: fromHex(res(detail)+".hex", "0<"+res(detail)+".confirmations", "[]."), watch: true},
		{name: "BroadcastTransaction", asks: []string{"sendrawtransaction;[a0]"}, want: ret(res("sendrawtransaction;[a0]"))},
		one, many,
	}
}

func (c *Check) explorerMethods() {
	n := 0
	for _, pkg := range []string{esploraPkg, elementsPkg} {
		tx, _ := c.getters(pkg, "Transaction")
		coin, _ := c.getters(pkg, "Utxo")
		for _, nt := range c.P.Impls(c.P.Iface(explorerPkg, "Service")) {
			if !strings.HasSuffix(nt.Obj().Pkg().Path(), "/"+pkg) {
				continue
			}
			for _, spec := range c.explorerSpecs(pkg, tx, coin) {
				m := c.P.Method(nt, spec.name)
				if m == nil {
					continue
				}
				n++
				c.explorerMethod(pkg, spec, m, tx, coin)
			}
		}
	}
	c.Need("method", n, 18, "methods of explorer clients")
}

func (c *Check) explorerMethod(pkg string, spec exSpec, m *ssa.Function, tx, coin map[string]string) {
	name := pkg[strings.LastIndex(pkg, "/")+1:] + "." + m.Name()
	a := c.explorerTracer(name, pkg, m)
	a.lists = spec.lists
	for _, s := range spec.asks {
		a.want[s] = true
	}
	if pkg == esploraPkg && strings.HasPrefix(spec.name, "GetUnspents") {
		a.value, a.fields = coin["Value"], coin
	}
	got := map[string]map[string]bool{}
	var last *Event
	h := a.e.hook
	a.e.hook = func(st *State, ev *Event) {
		h(st, ev)
		if ev.Kind != "return" || ev.Frame.parent != nil {
			return
		}
		_, good := outcomes(st, ev)
		if good == nil {
			return
		}
		last = ev
		for _, l := range append([]string{"chan", "inner"}, a.lists...) {
			what := l
			if l == "chan" || l == "inner" {
				what = "what was collected"
			}
			if l == "a0" && spec.watch {
				c.At(ev, "watched", name, good.Is("all:a0") || good.Is("watched") && !strings.Contains(name, "ForAddresses"), "coins and transactions of an address are asked for though the node may not watch it")
				continue
			}
			if strings.Contains(l, "/a0[]/") {
				continue
			}
			c.At(ev, "every", name+": "+l, good.Is("all:"+l), "the result may lack some of "+what)
		}
		for _, suf := range sortedKeys(spec.want) {
			allowed := map[string]bool{}
			for _, w := range strings.Split(spec.want[suf], "|") {
				allowed[w] = true
			}
			bad := ""
			for _, p := range a.part(good, ev.Res[0], suf) {
				if p == "true" && allowed["false"] {
					// judged below
					for w := range allowed {
						if strings.HasPrefix(w, "0<") {
							p = w
						}
					}
				}
				if !allowed[p] {
					bad = p
					continue
				}
				if got[suf] == nil {
					got[suf] = map[string]bool{}
				}
				got[suf][p] = true
			}
			what := suf
			if what == "" {
				what = "result"
			}
			c.At(ev, "result", name+": "+what, bad == "", what+" of the result is "+bad+" instead of "+spec.want[suf])
			if suf == "" && pkg == elementsPkg {
				for _, p := range a.part(good, ev.Res[0], suf) {
					if strings.Contains(p, "confirmed:true") {
						c.At(ev, "confirmed", name, good.Is("confirmed"), "a transaction may be said to be confirmed though it is not")
					}
					if strings.Contains(p, "confirmed:false") {
						c.At(ev, "confirmed", name, good.Is("unconfirmed"), "a transaction may be said not to be confirmed though it is")
					}
				}
				if b, ok := ev.Res[0].Typ.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					for _, k := range []byte{'T', 'F'} {
						x := good.lightClone()
						if !x.assume(ev.Res[0], k) {
							continue
						}
						label := map[byte]string{'T': "confirmed", 'F': "unconfirmed"}[k]
						known := x.Is(label) || x.HasMatch(k, func(t *Term) bool {
							p := strings.Join(a.part(x, t, ""), "|")
							return strings.HasPrefix(p, "0<decoded(") && strings.HasSuffix(p, ").confirmations")
						}) || k == 'F' && x.HasMatch('T', func(t *Term) bool {
							return t.Op == "lt" && isOne(t.Args[1]) && strings.HasSuffix(strings.Join(a.part(x, t.Args[0], ""), "|"), ").confirmations")
						})
						c.At(ev, "confirmed", name+": "+string(k), known, "a transaction may be said to be "+label+" though it is not")
					}
				}
			}
		}
	}
	c.AnalyzeWith(a.e, m, "", func(st *State, _ []*Term) { a.start(st) })
	if last == nil {
		return
	}
	for _, suf := range sortedKeys(spec.want) {
		for _, w := range strings.Split(spec.want[suf], "|") {
			if w == "false" {
				continue
			}
			c.Ob("source", name+": "+suf+" "+w, got[suf][w], c.P.Pos(m.Pos()), "nothing of the result comes from "+w)
		}
	}
}

// explorerTypes: coins and transactions say what was put into them.
func (c *Check) explorerTypes() {
	for _, pkg := range []string{esploraPkg, elementsPkg} {
		short := pkg[strings.LastIndex(pkg, "/")+1:]
		tx, txType := c.getters(pkg, "Transaction")
		coin, coinType := c.getters(pkg, "Utxo")
		if txType == nil || coinType == nil {
			c.Need("types", 0, 1, "coins and transactions of "+short)
			continue
		}
		c.Need("types", len(tx), 8, "parts of transactions of "+short)
		// constructors
		ctor := func(fn string, get map[string]string, want map[string]string) {
			f := c.P.Func(pkg, fn)
			if f == nil {
				return
			}
			name := short + "." + fn
			a := c.explorerTracer(name, pkg, f)
			h := a.e.hook
			a.e.hook = func(st *State, ev *Event) {
				h(st, ev)
				if ev.Kind != "return" || ev.Frame.parent != nil {
					return
				}
				_, good := outcomes(st, ev)
				if good == nil {
					return
				}
				for _, g := range sortedKeys(want) {
					if get[g] == "" {
						c.At(ev, "made", name+": "+g, false, "nothing keeps "+g)
						continue
					}
					got := strings.Join(a.part(good, ev.Res[0], get[g]), "|")
					c.At(ev, "made", name+": "+g, got == want[g], g+" is "+got+" instead of "+want[g])
				}
			}
			c.AnalyzeWith(a.e, f, "", func(st *State, _ []*Term) { a.start(st) })
		}
		ctor("NewUnconfidentialWitnessUtxo", coin, map[string]string{"Hash": "a0", "Index": "a1", "Value": "a2", "Asset": "a3", "Script": "a4"})
		ctor("NewConfidentialWitnessUtxo", coin, map[string]string{"Hash": "a0", "Index": "a1", "ValueCommitment": "a2", "AssetCommitment": "a3", "Script": "a4", "Nonce": "a5", "RangeProof": "a6", "SurjectionProof": "a7"})
		ctor("NewWitnessUtxo", coin, map[string]string{"Hash": "a0", "Index": "a1", "Value": "a2", "Asset": "a3", "ValueCommitment": "a4", "AssetCommitment": "a5", "ValueBlinder": "a6", "AssetBlinder": "a7", "Script": "a8", "Nonce": "a9", "RangeProof": "a10", "SurjectionProof": "a11", "IsConfirmed": "a12"})
		if pkg == esploraPkg {
			ctor("NewTxFromJSON", tx, map[string]string{"Hash": "decoded(a0).txid"})
			ins, outs := tx["Inputs"]+"[].", tx["Outputs"]+"[]."
			c.explorerTxJSON(pkg, map[string]string{
				ins + "Hash": "txid(decoded(a0).vin[].txid)", ins + "Index": "decoded(a0).vin[].vout", ins + "Script": "unhex(decoded(a0).vin[].scriptsig)",
				ins + "Sequence": "decoded(a0).vin[].sequence", ins + "IsPegin": "decoded(a0).vin[].is_pegin",
				outs + "Asset": "asset(decoded(a0).vout[].asset)|unhex(decoded(a0).vout[].assetcommitment)", outs + "Value": "unhex(decoded(a0).vout[].valuecommitment)|value(decoded(a0).vout[].value)",
				outs + "Script": "unhex(decoded(a0).vout[].scriptpubkey)",
			})
		} else {
			ctor("NewTxFromJSON", tx, map[string]string{"Hash": "String(TxHash(tx(decoded(a0).hex)))", "Inputs": "tx(decoded(a0).hex).Inputs", "Outputs": "tx(decoded(a0).hex).Outputs", "Confirmed": "0<decoded(a0).confirmations"})
		}
		// what a coin says of itself
		says := map[string]string{"IsConfirmed": "t." + coin["IsConfirmed"]}
		if pkg == elementsPkg {
			says = map[string]string{"Value": "round(t.amount*100000000)", "ValueBlinder": "unhex(t.amountblinder)", "AssetBlinder": "unhex(t.assetblinder)", "Script": "unhex(t.scriptPubKey)", "IsConfirmed": "0<t.confirmations"}
		} else {
			says["IsConfirmed"] = "t.status.Confirmed"
		}
		for _, g := range sortedKeys(says) {
			g := g
			m := c.P.Method(coinType, g)
			if m == nil {
				continue
			}
			name := short + "." + g
			a := c.explorerTracer(name, pkg, m)
			h := a.e.hook
			a.e.hook = func(st *State, ev *Event) {
				h(st, ev)
				if ev.Kind == "return" && ev.Frame.parent == nil {
					got := strings.Join(a.part(st, ev.Res[0], ""), "|")
					c.At(ev, "says", name, got == says[g], g+" is "+got+" instead of "+says[g])
				}
			}
			c.AnalyzeWith(a.e, m, "", func(st *State, _ []*Term) { a.start(st) })
		}
		// two things must be there
		s := coinType.Underlying().(*types.Struct)
		fieldNamed := func(json, get string) int {
			for i := 0; i < s.NumFields(); i++ {
				if json != "" && jsonName(coinType, s.Field(i).Name()) == json || get != "" && s.Field(i).Name() == coin[get] {
					return i
				}
			}
			return -1
		}
		pairs := map[string][2]int{"IsConfidential": {fieldNamed("", "ValueCommitment"), fieldNamed("", "AssetCommitment")}}
		if pkg == elementsPkg {
			pairs["IsRevealed"] = [2]int{fieldNamed("amountblinder", ""), fieldNamed("assetblinder", "")}
		} else {
			pairs["IsRevealed"] = [2]int{fieldNamed("", "ValueBlinder"), fieldNamed("", "AssetBlinder")}
		}
		given := func(e *Engine, st *State, t *Term, i int, k byte) {
			f := e.structField(st, t, i, coinType)
			st.assume(e.tab.mk("empty", "", types.Typ[types.Bool], f), k)
		}
		for _, g := range sortedKeysP(pairs) {
			g, p := g, pairs[g]
			m := c.P.Method(coinType, g)
			if m == nil || p[0] < 0 || p[1] < 0 {
				c.Ob("says", short+"."+g, false, short, "not found")
				continue
			}
			for k := 0; k < 4; k++ {
				k := k
				name := short + "." + g
				a := c.explorerTracer(name, pkg, m)
				a.e.hook = func(st *State, ev *Event) {
					if ev.Kind == "return" && ev.Frame.parent == nil {
						no := byte('T')
						if k != 3 {
							no = 'F'
						}
						// k==3: both there, the result must be true
						x := st.lightClone()
						c.At(ev, "says", name, !x.assume(ev.Res[0], map[byte]byte{'T': 'F', 'F': 'T'}[no]), g+" must hold exactly if both parts are there")
					}
				}
				c.AnalyzeWith(a.e, m, "case "+itoa(k), func(st *State, as []*Term) {
					for i := 0; i < 2; i++ {
						b := byte('T')
						if k&(1<<i) != 0 {
							b = 'F'
						}
						given(a.e, st, as[0], p[i], b)
					}
				})
			}
		}
		// the input and the output of a coin
		m := c.P.Method(coinType, "Parse")
		if m == nil {
			continue
		}
		f := func(get, json string) string {
			if i := fieldNamed(json, get); i >= 0 {
				return "t." + jsonName(coinType, s.Field(i).Name())
			}
			return "?"
		}
		script, value := f("Script", ""), f("Value", "")
		if pkg == elementsPkg {
			script, value = says["Script"], says["Value"]
		}
		for _, conf := range []bool{true, false} {
			conf := conf
			name := short + ".Parse"
			a := c.explorerTracer(name, pkg, m)
			h := a.e.hook
			a.e.hook = func(st *State, ev *Event) {
				h(st, ev)
				if ev.Kind != "return" || ev.Frame.parent != nil {
					return
				}
				_, good := outcomes(st, ev)
				if good == nil {
					return
				}
				in := "in(txid(" + f("Hash", "") + ");" + f("Index", "") + ")"
				got := strings.Join(a.part(good, ev.Res[0], ""), "|")
				c.At(ev, "parsed", name+": input", got == in, "the input is "+got+" instead of "+in)
				if !conf {
					want := "out(asset(" + f("Asset", "") + ");value(" + value + ");" + script + ")"
					got := strings.Join(a.part(good, ev.Res[1], ""), "|")
					c.At(ev, "parsed", name+": output", got == want, "the output is "+got+" instead of "+want)
					return
				}
				for g, w := range map[string]string{"Nonce": f("Nonce", ""), "RangeProof": f("RangeProof", ""), "SurjectionProof": f("SurjectionProof", ""), "Script": script,
					"Asset": "unhex(" + f("AssetCommitment", "") + ")", "Value": "unhex(" + f("ValueCommitment", "") + ")"} {
					got := strings.Join(a.part(good, ev.Res[1], g), "|")
					c.At(ev, "parsed", name+": "+g, got == w, g+" of the output is "+got+" instead of "+w)
				}
			}
			c.AnalyzeWith(a.e, m, map[bool]string{true: "confidential", false: "not confidential"}[conf], func(st *State, as []*Term) {
				a.start(st)
				k := byte('T')
				if conf {
					k = 'F'
				}
				for _, i := range pairs["IsConfidential"] {
					given(a.e, st, as[0], i, k)
				}
			})
		}
	}
}

func sortedKeysP(m map[string][2]int) []string {
	b := map[string]bool{}
	for k := range m {
		b[k] = true
	}
	return sortedKeysB(b)
}

// explorerClients: what is asked is what is sent, and the answer is its own.
func (c *Check) explorerClients() {
	n := 0
	if f := c.method(esploraPkg, "Client", "NewHTTPRequest"); f != nil {
		n++
		a := c.explorerTracer("esplora.Client", esploraPkg, f)
		seen := map[string]bool{}
		a.e.hook = func(st *State, ev *Event) {
			if ev.Kind != "return" || ev.Frame.parent != nil {
				return
			}
			_, good := outcomes(st, ev)
			if good == nil {
				return
			}
			for _, verb := range []string{"GET", "POST", "LIST", "DELETE"} {
				g := good.lightClone()
				eq := a.e.eqT(a.e.val(ev.Frame, f.Params[1]), a.e.tab.constant(constant.MakeString(verb), types.Typ[types.String]))
				if !g.assume(eq, 'T') || !good.Has('T', eq) {
					continue
				}
				seen[verb] = true
				body := "nil"
				if verb == "POST" {
					body = "a2"
				}
				rq := "response(request(" + verb + ";a1;" + body + "))"
				got := strings.Join(a.part(good, ev.Res[0], ""), "|") + " " + strings.Join(a.part(good, ev.Res[1], ""), "|")
				got = strings.ReplaceAll(got, "the text ", "")
				c.At(ev, "http", verb, got == rq+".StatusCode read("+rq+".Body)", "status and body are "+got)
			}
		}
		c.Analyze(a.e, f)
		for _, v := range []string{"GET", "POST"} {
			c.Ob("http", v+" is supported", seen[v], c.P.Pos(f.Pos()), "no result for "+v)
		}
	}
	if f := c.method(elementsPkg, "RPCClient", "call"); f != nil {
		n++
		a := c.explorerTracer("elements.RPCClient", elementsPkg, f)
		sent := map[string]bool{}
		h := a.e.hook
		a.e.hook = func(st *State, ev *Event) {
			if ev.Kind != "load" {
				h(st, ev)
			}
			if ev.Kind == "call" && lastIs(ev.Name, "Do") && len(ev.Args) == 2 {
				got := strings.Join(a.part(st, ev.Args[1], ""), "|")
				sent["Do"] = true
				c.At(ev, "rpc", "request", strings.HasPrefix(strings.ReplaceAll(got, "the text ", ""), "request(POST;t.serverAddr;"), "the request is "+got)
			}
			if ev.Kind == "call" && lastIs(ev.Name, "Encode") && len(ev.Args) == 2 {
				for g, w := range map[string]string{"Method": "a0", "Params": "a1"} {
					got := strings.Join(a.part(st, ev.Args[1], g), "|")
					sent[g] = true
					c.At(ev, "rpc", g, got == w, g+" of the call is "+got)
				}
			}
			if ev.Kind == "return" && ev.Frame.parent == nil {
				_, good := outcomes(st, ev)
				if good == nil {
					return
				}
				p := strings.Join(a.part(good, ev.Res[0], "Result"), "|")
				c.At(ev, "rpc", "result", strings.HasPrefix(p, "decoded(read(") && strings.HasSuffix(p, ".Body)).result"), "the result is "+p)
			}
		}
		c.AnalyzeWith(a.e, f, "", func(st *State, _ []*Term) { a.start(st) })
		c.Ob("rpc", "call sent", sent["Method"] && sent["Params"] && sent["Do"], c.P.Pos(f.Pos()), "method and parameters are not sent")
	}
	c.Need("client", n, 2, "clients")
}

func (c *Check) method(pkg, typ, name string) *ssa.Function {
	nt := c.P.Named(pkg, typ)
	if nt == nil {
		return nil
	}
	return c.P.Method(nt, name)
}

// explorerAssertions: the type of what was answered is checked.
func (c *Check) explorerAssertions() {
	n := 0
	for _, f := range c.P.FuncsIn(explorerPkg) {
		if f.Blocks == nil {
			continue
		}
		n++
		bad := ""
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				x, ok := in.(*ssa.TypeAssert)
				if !ok || x.CommaOk {
					continue
				}
				if i, ok := x.X.Type().Underlying().(*types.Interface); !ok || i.NumMethods() > 0 {
					continue
				}
				checked := false
				for _, d := range f.Blocks {
					for _, in := range d.Instrs {
						y, ok := in.(*ssa.TypeAssert)
						if !ok || !y.CommaOk || y.X != x.X || !types.Identical(y.AssertedType, x.AssertedType) {
							continue
						}
						last, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
						if e, isExt := lastCond(last).(*ssa.Extract); ok && isExt && e.Tuple == y && e.Index == 1 && d.Succs[0].Dominates(b) {
							checked = true
						}
					}
				}
				if !checked {
					bad = c.P.Pos(x.Pos())
				}
			}
		}
		c.Ob("crash", fnName(f)+": types", bad == "", bad, "the type of an answer is taken for granted")
	}
	c.Need("crash", n, 60, "functions of the explorer packages")
}

func lastCond(i *ssa.If) ssa.Value {
	if i == nil {
		return nil
	}
	return i.Cond
}

// explorerTxJSON: inputs and outputs of transactions given in JSON.
func (c *Check) explorerTxJSON(pkg string, want map[string]string) {
	f := c.P.Func(pkg, "NewTxFromJSON")
	if f == nil {
		c.Need("json", 0, 1, "transactions from JSON")
		return
	}
	a := c.explorerTracer("NewTxFromJSON", pkg, f)
	a.lists = []string{"decoded(a0).vin", "decoded(a0).vout"}
	for k := range want {
		a.sufs[k] = true
	}
	h := a.e.hook
	a.e.hook = func(st *State, ev *Event) {
		h(st, ev)
		if ev.Kind != "return" || ev.Frame.parent != nil {
			return
		}
		_, good := outcomes(st, ev)
		if good == nil {
			return
		}
		for _, l := range a.lists {
			c.At(ev, "json", "all of "+l, good.Is("all:"+l), "the transaction may lack some of "+l)
		}
		for _, k := range sortedKeys(want) {
			got := strings.Join(a.part(good, ev.Res[0], k), "|")
			c.At(ev, "json", k, got == want[k], k+" is "+got+" instead of "+want[k])
		}
	}
	c.AnalyzeWith(a.e, f, "", func(st *State, _ []*Term) { a.start(st) })
}
