package main

import (
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const walletPkg = "pkg/wallet"

// C22: transactions are built out of the coins selected, pay what was asked
// for, return the rest to the wallet, and are blinded and signed with the keys
// that belong to each input and output.
func init() {
	rules["C22"] = func(c *Check) {
		c.Note("The operations of the wallet package building, blinding, signing and finalizing transactions are followed with their helpers inlined. Every input, output, key, script and amount handed to the pset library is traced to the argument it must come from, with the position in the list it belongs to; amounts are compared as linear expressions over the change and target of each coin selection and the fee.")
		c.Assume("the pset, confidential, payment and btcec packages do what their documentation says; derivation of keys is decided by C12")
		c.walletSign()
		c.walletFinalize()
		c.walletBlind()
		c.walletUnblind()
		c.coinSelection()
		for _, name := range []string{"UpdateSwapTx", "UpdateTx"} {
			fn := c.P.Method(c.P.Named(walletPkg, "Wallet"), name)
			if fn == nil {
				c.Ob("anchor", "Wallet."+name, false, "-", "the operation adding inputs and outputs to transactions is gone")
				continue
			}
			if name == "UpdateSwapTx" {
				c.walletUpdate(name, fn, "")
				continue
			}
			for _, mode := range []string{"no-unspents", "fees", "no-fees"} {
				c.walletUpdate(name, fn, mode)
			}
		}
	}
}

// armedLoop: as eachLoop, but the label is set again where the loop ends, so
// that several loops over the same kind of list may follow each other.
func armedLoop(name string, over func(*Term) bool) func(*State, byte, *Term) {
	return func(st *State, k byte, t *Term) {
		x := loopOver(t)
		if x == nil || t.Op == "lt" && t.Args[0].Op == "extract" || !over(x) {
			return
		}
		if k == 'T' {
			st.Kill("did:" + name)
		}
		if k == 'F' {
			if st.Is("did:" + name) {
				st.Gen("all:" + name)
			}
			st.Gen("did:" + name)
		}
	}
}

// notInlined: helpers of the wallet whose result is named.
var walletOps = map[string]bool{
	"DeriveConfidentialAddress": true, "DeriveBlindingKeyPair": true, "DeriveSigningKeyPair": true, "SelectUnspents": true,
	"AssetHashToBytes": true, "AssetHashFromBytes": true, "ValueToBytes": true, "ValueFromBytes": true, "UnblindOutput": true,
	"ParseDerivationPath": true, "calcFeeAmount": true, "EstimateTxSize": true,
}

// walletTracer names where the parts of transactions come from.
func (c *Check) walletTracer(name string, fn *ssa.Function) *api {
	e := NewEngine(c.P)
	a := &api{c: c, e: e, name: name, rows: map[string]map[ssa.Instruction]map[string][]string{}, sufs: map[string]bool{"": true}, in: map[*Term][]apiElem{}}
	e.inline = func(f *ssa.Function) bool {
		if r := f.Signature.Recv(); r != nil && typeName(r.Type()) == "wallet.Wallet" && f.Name() == "validate" {
			return false
		}
		switch c.P.PkgRel(f) {
		case walletPkg, "pkg/transactionutil", "pkg/explorer":
			return !walletOps[f.Name()]
		}
		return false
	}
	first := 0
	if fn.Signature.Recv() != nil {
		first = 1
	}
	join := func(st *State, t *Term) string { return strings.Join(a.paths(st, t), "|") }
	a.root = func(st *State, t *Term) (string, bool) {
		switch t.Op {
		case "param":
			if i := paramIdx(t); i >= first {
				return "a" + itoa(i-first), true
			}
			return "w", true
		case "iface", "conv", "load", "deref":
			if len(t.Args) == 1 && !narrows(t) {
				return join(st, t.Args[0]), true
			}
		case "lookup":
			return join(st, t.Args[0]) + "[" + join(st, t.Args[1]) + "]", true
		case "index":
			// an element of a list built here
			switch t.Args[0].Op {
			case "append", "phi", "make", "slice":
				rows := a.collect(st, t.Args[0], map[*Term]bool{})
				set := map[string]bool{}
				for _, r := range rows {
					if r.direct != "" {
						set[r.direct+"[]"] = true
					} else {
						for _, s := range r.row[""] {
							set[s] = true
						}
					}
				}
				if len(set) > 0 {
					return strings.Join(sortedKeysB(set), "|"), true
				}
			}
		case "slice":
			if partial(t) {
				return join(st, t.Args[0]) + "?part", true
			}
			if _, ok := t.Args[0].Typ.Underlying().(*types.Slice); ok {
				return join(st, t.Args[0]), true
			}
			if t.Args[0].Op == "alloc" {
				if v := cell(st, t.Args[0]); v != nil && v != t.Args[0] {
					return join(st, v), true
				}
				// a list of bytes just made, of constant length
				if p, ok := t.Args[0].Typ.Underlying().(*types.Pointer); ok && len(e.Elems(st, t)) == 0 {
					if b, ok := p.Elem().Underlying().(*types.Array); ok && b.Elem().String() == "byte" {
						return "zeros" + itoa(int(b.Len())), true
					}
				}
			}
		case "make":
			if a, ok := t.Typ.Underlying().(*types.Slice); ok && len(t.Args) > 0 {
				if b, ok := a.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
					if n, ok := t.Args[0].IntConst(); ok {
						return "zeros" + itoa(int(n)), true
					}
				}
			}
		case "extract":
			x := t.Args[0]
			if x.Op != "call" {
				break
			}
			as := x.CallArgs()
			opt := func(f string) string {
				if v := fieldByName(e, st, as[len(as)-1], f); v != nil {
					return join(st, v)
				}
				return "?"
			}
			switch lastPart(x.CallName()) + "#" + t.Aux {
			case "NewPsetFromBase64#0":
				return "pset(" + join(st, as[0]) + ")", true
			case "NewUpdater#0":
				return "updater(" + join(st, as[0]) + ")", true
			case "ToBase64#0":
				return join(st, as[0]) + ".b64", true
			case "DeriveConfidentialAddress#1":
				return "script(" + opt("DerivationPath") + ")", true
			case "DeriveBlindingKeyPair#0":
				return "blindkey(" + opt("Script") + ")", true
			case "DeriveBlindingKeyPair#1":
				return "blindpub(" + opt("Script") + ")", true
			case "DeriveSigningKeyPair#0":
				return "key(" + opt("DerivationPath") + ")", true
			case "DeriveSigningKeyPair#1":
				return "pub(" + opt("DerivationPath") + ")", true
			case "PrivKeyFromBytes#1":
				return "pubof(" + join(st, as[1]) + ")", true
			case "SelectUnspents#0":
				return "coins@" + itoa(x.ID), true
			case "SelectUnspents#1":
				return "change@" + itoa(x.ID), true
			case "AssetHashToBytes#0":
				return "assetbytes(" + join(st, as[0]) + ")", true
			case "ValueToBytes#0":
				return "valuebytes(" + join(st, as[0]) + ")", true
			case "DecodeString#0":
				return "unhex(" + join(st, as[0]) + ")", true
			case "FromScript#0":
				return "payment(" + join(st, as[0]) + ")", true
			case "Parse#0", "Parse#1":
				return "parsed" + t.Aux + "(" + join(st, as[0]) + ")", true
			case "Extract#0":
				return "tx(" + join(st, as[0]) + ")", true
			case "ToHex#0":
				return "hexof(" + join(st, as[0]) + ")", true
			case "UnblindOutput#0":
				return "unblinded(" + join(st, as[0]) + ";" + join(st, as[1]) + ")", true
			case "UnblindOutputWithKey#0":
				return "revealed(" + join(st, as[0]) + ";" + join(st, as[1]) + ")", true
			}
		case "call":
			as := t.CallArgs()
			switch n := t.CallName(); lastPart(n) {
			case "AssetHashFromBytes":
				return "asset(" + join(st, as[0]) + ")", true
			case "ValueFromBytes":
				return "value(" + join(st, as[0]) + ")", true
			case "EncodeToString":
				return "hex(" + join(st, as[0]) + ")", true
			case "ReverseBytes":
				return "reversed(" + join(st, as[0]) + ")", true
			case "Serialize", "SerializeCompressed":
				return lastPart(n) + "(" + join(st, as[0]) + ")", true
			case "HashForWitnessV0":
				return "hash", true
			case "NewTxOutput":
				return "output", true
			case "TxHash":
				return "txid(" + join(st, as[0]) + ")", true
			case "String":
				if len(as) == 1 {
					return join(st, as[0]), true
				}
			}
		}
		return "", false
	}
	e.hook = a.hook
	return a
}

// sameItem: all the elements of lists, and what belongs to keys, that a value
// is computed from are those at this position.
func sameItem(idx, v *Term) (same bool) {
	same, found := true, false
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch {
		case t.Op == "index":
			if _, isConst := t.Args[1].IntConst(); !isConst || t.Args[1] == idx {
				found = true
				same = same && t.Args[1] == idx
				return
			}
		case t.Op == "extract" && t.Aux == "2" && t.Args[0].Op == "next":
			found = true
			same = same && idx.Op == "extract" && idx.Aux == "1" && idx.Args[0] == t.Args[0]
			return
		case t.Op == "lookup" && t.Args[1] == idx:
			found = true
			walk(t.Args[0])
			return
		}
		for _, x := range t.Args {
			walk(x)
		}
		for _, x := range t.Alts {
			if t.Op == "phi" {
				walk(x)
			}
		}
	}
	walk(v)
	return same && found
}

// callersOf: the functions of a package calling the operation themselves.
func (c *Check) callersOf(name string, prefixes ...string) (out []*ssa.Function) {
	for _, fn := range c.P.FuncsIn(prefixes...) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if cl, ok := in.(ssa.CallInstruction); ok {
					if f := cl.Common().StaticCallee(); f != nil && fnName(f) == name {
						out = append(out, fn)
					}
				}
			}
		}
	}
	return
}

func (c *Check) walletSign() {
	n := 0
	for _, name := range []string{"SignTransaction", "SignInput"} {
		fn := c.P.Method(c.P.Named(walletPkg, "Wallet"), name)
		if fn == nil {
			c.Ob("anchor", "Wallet."+name, false, "-", "the operation signing transactions is gone")
			continue
		}
		n++
		name := name
		a := c.walletTracer("Wallet."+name, fn)
		e := a.e
		const in = "pset(a0.PsetBase64).Inputs[]"
		e.onAssume = func(st *State, k byte, t *Term) {
			armedLoop("sign", func(t *Term) bool { return a.path(st, t) == "pset(a0.PsetBase64).Inputs" })(st, k, t)
			if k == 'T' && lastIs(t.CallName(), "Verify") && len(t.CallArgs()) == 3 {
				st.Gen("verified", t.CallArgs()[0])
			}
		}
		hook := e.hook
		signs := 0
		e.hook = func(st *State, ev *Event) {
			hook(st, ev)
			switch {
			case ev.Kind == "call" && ev.Name == "pset.Updater.Sign" && len(ev.Args) >= 4:
				signs++
				ob := func(what string, ok bool, msg string) { c.At(ev, "sign/"+what, a.name, ok, msg) }
				idx := ev.Args[1]
				ob("pset", a.path(st, ev.Args[0]) == "updater(pset(a0.PsetBase64))", "another transaction than the given one is signed")
				if name == "SignInput" {
					ob("input", a.path(st, idx) == "a0.InIndex", "the input signed is not the one asked for")
				}
				sig := ev.Args[2]
				hashType, s := false, (*Term)(nil)
				if sig.Op == "append" && len(sig.Args) == 2 {
					if els := e.Elems(st, sig.Args[1]); len(els) == 1 {
						v, ok := unconv(els[0]).IntConst()
						hashType = ok && v == 1
					}
					if x := sig.Args[0]; x.CallName() == "btcec.Signature.Serialize" {
						s = x.CallArgs()[0]
					}
				}
				ob("type", hashType, "the signature does not commit to the whole transaction")
				if s == nil || s.Op != "extract" || s.Args[0].CallName() != "btcec.PrivateKey.Sign" {
					ob("signature", false, "the signature is not one made with a private key")
					return
				}
				ob("signature", okErr(st, s), "a failed signature is used")
				priv, h := s.Args[0].CallArgs()[0], s.Args[0].CallArgs()[1]
				if h.Op == "slice" && h.Args[0].Op == "alloc" {
					h = cell(st, h.Args[0])
				}
				// the keys of the path of the script
				pub := ev.Args[3]
				ps, pp := a.path(st, priv), a.path(st, pub)
				path := strings.TrimSuffix(strings.TrimPrefix(ps, "key("), ")")
				want := "a0.DerivationPathMap[hex(" + in + ".WitnessUtxo.Script)]"
				if name == "SignInput" {
					want = "a0.DerivationPath"
				}
				ob("key", path == want && okErr2(st, priv), "the input is signed with the key of "+path)
				ob("pubkey", pp == "SerializeCompressed(pub("+path+"))" && pub.CallArgs()[0].Op == "extract" && priv.Op == "extract" && pub.CallArgs()[0].Args[0] == priv.Args[0], "the public key given is not the one of the signature")
				d := fieldByName(e, st, priv.Args[0].CallArgs()[1], "DerivationPath")
				ob("owner", name == "SignInput" || sameItem(idx, d), "the key is that of another input")
				// what is signed
				if h == nil || h.CallName() != "transaction.Transaction.HashForWitnessV0" {
					ob("hash", false, "what is signed is not the hash of the transaction")
					return
				}
				ha := h.CallArgs()
				ob("hash", a.path(st, ha[0]) == "pset(a0.PsetBase64).UnsignedTx" && ha[1] == idx, "what is signed is not the hash of this transaction for this input")
				ob("hash/script", a.path(st, ha[2]) == "payment("+in+".WitnessUtxo.Script).Script" && sameItem(idx, ha[2]), "the script signed for is not that of the input: "+a.path(st, ha[2]))
				ob("hash/value", a.path(st, ha[3]) == in+".WitnessUtxo.Value" && sameItem(idx, ha[3]), "the value signed for is not that of the input: "+a.path(st, ha[3]))
				v, ok := unconv(ha[4]).IntConst()
				ob("hash/type", ok && v == 1, "the signature does not commit to the whole transaction")
				ob("verified", st.HasMatch('L', func(l *Term) bool { return l.Aux == "verified" && l.Args[0] == s }), "the signature is added without being verified")
			case ev.Kind == "after" && ev.Name == "pset.Updater.Sign" && len(ev.Res) == 2:
				st.CondGen('N', ev.Res[1], "did:sign")
				st.CondGen('N', ev.Res[1], "signed")
			case ev.Kind == "return" && ev.Frame.parent == nil:
				if _, good := outcomes(st, ev); good != nil {
					l := map[string]string{"SignTransaction": "all:sign", "SignInput": "signed"}[name]
					c.At(ev, "sign/done", a.name, good.Is(l), "a transaction is returned though some input is not signed")
					c.At(ev, "sign/result", a.name, only(a.paths(good, ev.Res[0]), "pset(a0.PsetBase64).b64"), "what is returned is not the transaction signed")
				}
			}
		}
		c.AnalyzeWith(e, fn, "", func(st *State, _ []*Term) { st.Gen("did:sign") })
		c.Need("sign", signs, 1, "signatures added by "+name)
	}
	// nothing else signs
	for _, fn := range c.callersOf("pset.Updater.Sign", "pkg/wallet", "internal") {
		ok := false
		for _, name := range []string{"SignTransaction", "SignInput"} {
			if m := c.P.Method(c.P.Named(walletPkg, "Wallet"), name); m != nil {
				c.P.reach(m, func(s string) { ok = ok || s == fnName(fn) })
				ok = ok || m == fn
			}
		}
		c.Ob("sign/other", fnName(fn), ok, c.P.Pos(fn.Pos()), "signatures are added outside of the operations decided here")
	}
}

func (c *Check) walletFinalize() {
	n := 0
	for _, fn := range c.callersOf("pset.FinalizeAll", "pkg/wallet", "pkg/swap", "pkg/transactionutil", "internal") {
		n++
		name := fnName(fn)
		a := c.walletTracer(name, fn)
		e := a.e
		psets := func(st *State, t *Term) bool { return strings.HasPrefix(a.path(st, t), "pset(") }
		e.onAssume = func(st *State, k byte, t *Term) {
			if k == 'T' && t.Op == "extract" && t.Aux == "0" && lastIs(t.Args[0].CallName(), "ValidateAllSignatures") {
				st.Gen("valid", t.Args[0].CallArgs()[0])
			}
		}
		hook := e.hook
		e.hook = func(st *State, ev *Event) {
			hook(st, ev)
			has := func(st *State, l string, x *Term) bool {
				return st.HasMatch('L', func(t *Term) bool { return t.Aux == l && t.Args[0] == x })
			}
			switch {
			case ev.Kind == "call" && ev.Name == "pset.FinalizeAll":
				c.At(ev, "final/signed", name, psets(st, ev.Args[0]) && has(st, "valid", ev.Args[0]), "a transaction is finalized whose signatures are not known to be valid")
			case ev.Kind == "after" && ev.Name == "pset.FinalizeAll":
				st.CondGen('N', ev.Res[0], "final", ev.Args[0])
			case ev.Kind == "call" && ev.Name == "pset.Extract":
				c.At(ev, "final/extracted", name, has(st, "final", ev.Args[0]), "a transaction is extracted that is not finalized")
			case ev.Kind == "return" && ev.Frame.parent == nil:
				if _, good := outcomes(st, ev); good != nil && len(ev.Res) == 3 {
					c.At(ev, "final/result", name, only(a.paths(good, ev.Res[0]), "hexof(tx(pset(a0.PsetBase64)))") && okErr2(good, ev.Res[0]), "the transaction returned is not that of the given pset: "+strings.Join(a.paths(good, ev.Res[0]), ", "))
					c.At(ev, "final/id", name, only(a.paths(good, ev.Res[1]), "txid(tx(pset(a0.PsetBase64)))"), "the id returned is not that of the transaction: "+strings.Join(a.paths(good, ev.Res[1]), ", "))
				}
			}
		}
		c.Analyze(e, fn)
	}
	c.Need("final", n, 1, "functions finalizing transactions")
}

type blindSpec struct {
	in     []string // source of what reveals the inputs
	fields map[string]string
	out    string // source of the keys of the outputs
	inMap  string // where every input must have an entry
	outMap string // where every output must have an entry
	lens   bool   // as many keys as outputs
}

func (c *Check) walletBlind() {
	const pt = "pset(a0.PsetBase64)"
	data := func(x string) map[string]string {
		return map[string]string{"Asset": "reversed(unhex(" + x + ".Asset))", "Value": x + ".Amount", "AssetBlindingFactor": x + ".AssetBlinder", "ValueBlindingFactor": x + ".AmountBlinder"}
	}
	swapOut := "SerializeCompressed(pubof(a0.OutputBlindingKeys[hex(" + pt + ".UnsignedTx.Outputs[].Script)]))"
	specs := map[string]blindSpec{
		"BlindTransactionWithKeys":     {in: one("Serialize(blindkey(" + pt + ".Inputs[].WitnessUtxo.Script))"), out: "a0.OutputBlindingKeys[]", lens: true},
		"BlindSwapTransactionWithKeys": {in: one("a0.InputBlindingKeys[hex(" + pt + ".Inputs[].WitnessUtxo.Script)]"), out: swapOut, inMap: "a0.InputBlindingKeys", outMap: "a0.OutputBlindingKeys"},
		"BlindTransactionWithData":     {fields: data("a0.InputBlindingData[]"), out: "a0.OutputBlindingKeys[]", lens: true, inMap: "a0.InputBlindingData"},
		"BlindSwapTransactionWithData": {fields: data("a0.InputBlindingData[]"), out: swapOut, inMap: "a0.InputBlindingData", outMap: "a0.OutputBlindingKeys"},
	}
	n := 0
	for _, name := range sortedKeys(specs) {
		fn := c.P.Method(c.P.Named(walletPkg, "Wallet"), name)
		if fn == nil {
			c.Ob("anchor", "Wallet."+name, false, "-", "the operation blinding transactions is gone")
			continue
		}
		n++
		c.blind(name, fn, specs[name])
	}
	c.Need("blind", n, 4, "operations blinding transactions")
	for _, fn := range c.callersOf("pset.NewBlinder", "pkg/wallet", "internal") {
		ok := false
		for name := range specs {
			if m := c.P.Method(c.P.Named(walletPkg, "Wallet"), name); m != nil {
				c.P.reach(m, func(s string) { ok = ok || s == fnName(fn) })
				ok = ok || m == fn
			}
		}
		c.Ob("blind/other", fnName(fn), ok, c.P.Pos(fn.Pos()), "transactions are blinded outside of the operations decided here")
	}
}

func (c *Check) blind(name string, fn *ssa.Function, spec blindSpec) {
	a := c.walletTracer("Wallet."+name, fn)
	e := a.e
	const pt = "pset(a0.PsetBase64)"
	for f := range spec.fields {
		a.sufs[f] = true
	}
	// the element of a map at the loop's position is named as that of a list
	norm := func(st *State, idx *Term, v *Term) []string {
		set := map[string]bool{}
		for _, p := range a.paths(st, v) {
			set[strings.ReplaceAll(p, "["+a.path(st, idx)+"]", "[]")] = true
		}
		return sortedKeysB(set)
	}
	over := map[string][]string{
		"in":  {pt + ".Inputs", pt + ".UnsignedTx.Inputs", "a0.InputBlindingData"},
		"out": {pt + ".UnsignedTx.Outputs", pt + ".Outputs", "a0.OutputBlindingKeys"},
		"wit": {pt + ".Inputs"}, "inkey": {pt + ".Inputs"}, "outkey": {pt + ".UnsignedTx.Outputs"},
	}
	e.onAssume = func(st *State, k byte, t *Term) {
		for _, l := range sortedKeys(over) {
			armedLoop(l, func(t *Term) bool { return slices.Contains(over[l], a.path(st, t)) })(st, k, t)
		}
		switch {
		case k == 'F' && t.Op == "isnil" && a.path(st, t.Args[0]) == pt+".Inputs[].WitnessUtxo":
			st.Gen("did:wit")
		case k == 'T' && t.Op == "has" && a.path(st, t.Args[0]) == spec.inMap:
			k := a.path(st, t.Args[1])
			if k == "hex("+pt+".Inputs[].WitnessUtxo.Script)" || spec.inMap == "a0.InputBlindingData" && t.Args[1].Op == "bin" {
				st.Gen("did:inkey")
			}
		case k == 'T' && t.Op == "has" && a.path(st, t.Args[0]) == spec.outMap:
			if a.path(st, t.Args[1]) == "hex("+pt+".UnsignedTx.Outputs[].Script)" {
				st.Gen("did:outkey")
			}
		case k == 'T' && t.Op == "eq" && t.Args[0].Op == "len" && t.Args[1].Op == "len":
			l, r := a.path(st, t.Args[0].Args[0]), a.path(st, t.Args[1].Args[0])
			if r == "a0.OutputBlindingKeys" {
				l, r = r, l
			}
			if l == "a0.OutputBlindingKeys" && (r == pt+".Outputs" || r == pt+".UnsignedTx.Outputs") {
				st.Gen("lens")
			}
		case k == 'T' && t.Op == "eq":
			for i := range t.Args {
				if t.Args[i].CallName() == "pset.Blinder.Blind" && t.Args[1-i].Op == "gload" && strings.HasSuffix(t.Args[1-i].Aux, "pset.ErrGenerateSurjectionProof") {
					st.Gen("fresh")
				}
			}
		}
	}
	hook := e.hook
	blinders := 0
	e.hook = func(st *State, ev *Event) {
		hook(st, ev)
		isList := func(t *Term) bool {
			s, ok := t.Typ.Underlying().(*types.Slice)
			return ok && typeName(s.Elem()) == "pset.BlindingDataLike"
		}
		isKeys := func(t *Term) bool {
			m, ok := t.Typ.Underlying().(*types.Map)
			if !ok {
				return false
			}
			k, okK := m.Key().Underlying().(*types.Basic)
			v, okV := m.Elem().Underlying().(*types.Slice)
			return okK && k.Kind() == types.Int && okV && v.Elem().String() == "byte"
		}
		entry := func(idx, v *Term) {
			for v.Op == "iface" || v.Op == "conv" && spec.fields != nil {
				v = v.Args[0]
			}
			ok, got := true, []string{}
			if spec.fields != nil {
				for f, w := range spec.fields {
					fv := a.field(st, v, f)
					if fv == nil {
						ok = false
						continue
					}
					ps := norm(st, idx, fv)
					if !only(ps, w) {
						ok = false
						got = append(got, f+" is "+strings.Join(ps, "|"))
					}
					ok = ok && (sameItem(idx, fv))
				}
			} else {
				ps := norm(st, idx, v)
				ok = only(ps, spec.in[0]) && sameItem(idx, v)
				got = ps
			}
			c.At(ev, "blind/input", a.name, ok, "an input is not revealed with what belongs to it: "+strings.Join(got, ", "))
			st.Gen("did:in")
		}
		switch {
		case ev.Kind == "idxstore" && ev.Base != nil && isList(ev.Base):
			entry(ev.Args[1], ev.Val)
		case ev.Kind == "append" && len(ev.Args) == 2 && isList(ev.Args[0]):
			for _, v := range e.Elems(st, ev.Args[1]) {
				// appended in the order of the loop
				var idx *Term
				v.Contains(func(x *Term) bool {
					if idx == nil && (x.Op == "index" || x.Op == "lookup" && x.Args[1].Op == "bin") {
						idx = x.Args[1]
					}
					return idx != nil
				})
				turn := idx != nil && st.HasMatch('T', func(t *Term) bool {
					if t.Op != "lt" || t.Args[0] != idx {
						return false
					}
					x := loopOver(t)
					return x != nil && (a.path(st, x) == pt+".Inputs" || a.path(st, x) == pt+".UnsignedTx.Inputs")
				})
				if !turn {
					c.At(ev, "blind/input", a.name, false, "an input is revealed with what does not belong to it")
					continue
				}
				entry(idx, v)
			}
		case ev.Kind == "mapupdate" && isKeys(ev.Args[0]):
			idx := ev.Args[1]
			ps := a.paths(st, ev.Val)
			c.At(ev, "blind/output", a.name, only(ps, spec.out) && sameItem(idx, ev.Val), "an output is blinded with a key that is not its own: "+strings.Join(ps, ", "))
			st.Gen("did:out")
		case ev.Kind == "call" && ev.Name == "pset.NewBlinder" && len(ev.Args) >= 3:
			blinders++
			need := func(l, msg string) { c.At(ev, "blind/"+l, a.name, st.Is(l), msg) }
			c.At(ev, "blind/pset", a.name, a.path(st, ev.Args[0]) == pt, "another transaction than the given one is blinded")
			need("all:in", "some input is not revealed")
			need("all:out", "some output is not blinded")
			if spec.lens {
				need("lens", "there may be more or fewer blinding keys than outputs")
				need("all:wit", "an input may lack its previous output")
			}
			if spec.inMap != "" {
				need("all:inkey", "an input may lack what it is revealed with")
			}
			if spec.outMap != "" {
				need("all:outkey", "an output may lack its blinding key")
			}
		case ev.Kind == "call" && ev.Name == "pset.Blinder.Blind":
			c.At(ev, "blind/retry", a.name, st.Is("fresh"), "blinding is repeated after an error that is not about its proofs")
			bound := st.HasMatch('T', func(t *Term) bool {
				return t.Op == "lt" && e.From(t.Args[1], func(x *Term) bool { return a.path(st, x) == "a0.Attempts" })
			})
			c.At(ev, "blind/bound", a.name, bound, "nothing limits the attempts to blind the transaction")
		case ev.Kind == "after" && ev.Name == "pset.Blinder.Blind":
			st.Kill("fresh")
			st.CondGen('N', ev.Res[0], "blinded")
		case ev.Kind == "return" && ev.Frame.parent == nil:
			if _, good := outcomes(st, ev); good != nil {
				c.At(ev, "blind/done", a.name, good.Is("blinded"), "a transaction is returned though blinding it failed")
				c.At(ev, "blind/result", a.name, only(a.paths(good, ev.Res[0]), pt+".b64"), "what is returned is not the transaction blinded")
			}
		}
	}
	c.AnalyzeWith(e, fn, "", func(st *State, _ []*Term) {
		for _, l := range []string{"in", "out", "wit", "inkey", "outkey"} {
			st.Gen("did:" + l)
		}
		st.Gen("fresh")
	})
	c.Need("blind", blinders, 1, "blinders made by "+name)
}
