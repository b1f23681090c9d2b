package main

import (
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// linear writes an integer as a sum of atoms; nil is the constant.
func linear(t *Term) map[*Term]int64 {
	out := map[*Term]int64{}
	var add func(t *Term, k int64)
	add = func(t *Term, k int64) {
		if n, ok := t.IntConst(); ok {
			out[nil] += k * n
			return
		}
		switch {
		case t.Op == "bin" && t.Aux == "+":
			add(t.Args[0], k)
			add(t.Args[1], k)
		case t.Op == "bin" && t.Aux == "-":
			add(t.Args[0], k)
			add(t.Args[1], -k)
		case t.Op == "conv" && len(t.Args) == 1:
			add(t.Args[0], k)
		default:
			out[t] += k
		}
	}
	add(t, 1)
	for x, k := range out {
		if k == 0 {
			delete(out, x)
		}
	}
	return out
}

func minus(a, b map[*Term]int64) map[*Term]int64 {
	out := map[*Term]int64{}
	for x, k := range a {
		out[x] += k
	}
	for x, k := range b {
		out[x] -= k
	}
	for x, k := range out {
		if k == 0 {
			delete(out, x)
		}
	}
	return out
}

// notNegative: comparisons known on this path make sure that the sum does not
// go below zero.
func notNegative(st *State, v map[*Term]int64) bool {
	pos := func(v map[*Term]int64) bool {
		for _, k := range v {
			if k < 0 {
				return false
			}
		}
		return true
	}
	if pos(v) {
		return true
	}
	for _, k := range []byte{'T', 'F'} {
		k := k
		if st.HasMatch(k, func(t *Term) bool {
			if t.Op != "lt" {
				return false
			}
			d := minus(linear(t.Args[1]), linear(t.Args[0]))
			if k == 'F' {
				d = minus(linear(t.Args[0]), linear(t.Args[1]))
			}
			return pos(minus(v, d))
		}) {
			return true
		}
	}
	return false
}

type coinSel struct {
	kind         string // what the coins pay for: swap, outputs or fees
	target       *Term
	asset        *Term
	assetPath    string
	coins, spare *Term // of the last selection seen
}

// chain: what a list was made from, and whether something was appended.
func chain(t *Term) (roots []*Term, appended bool) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch {
		case t.Op == "append":
			appended = true
			walk(t.Args[0])
		case t.Op == "phi":
			for _, x := range t.Alts {
				walk(x)
			}
		case t.Op == "slice" && t.Args[0].Op != "alloc":
			walk(t.Args[0])
		default:
			roots = append(roots, t)
		}
	}
	walk(t)
	return
}

// walletUpdate decides how inputs and outputs are added to a transaction.
func (c *Check) walletUpdate(name string, fn *ssa.Function, mode string) {
	swap := name == "UpdateSwapTx"
	a := c.walletTracer("Wallet."+name, fn)
	e := a.e
	const pt = "pset(a0.PsetBase64)"
	tag := a.name
	if mode != "" {
		tag += "[" + mode + "]"
	}
	isListOf := func(t *Term, elem string) bool {
		if t == nil || t.Typ == nil {
			return false
		}
		s, ok := t.Typ.Underlying().(*types.Slice)
		return ok && typeName(s.Elem()) == elem
	}
	isUtxos := func(t *Term) bool { return isListOf(t, "explorer.Utxo") }
	isOuts := func(t *Term) bool {
		if t == nil || t.Typ == nil {
			return false
		}
		s, ok := t.Typ.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		p, ok := s.Elem().(*types.Pointer)
		return ok && typeName(p.Elem()) == "transaction.TxOutput"
	}
	sels := map[*Term]*coinSel{}
	fees := map[*Term]bool{}
	owned := map[*Term]bool{} // positions of outputs with the script of the change
	var inputs *Term          // the list of inputs added
	var pending *coinSel
	direct := false
	nsel, nadd, nput := 0, 0, 0
	var totals *Term

	elemOf := func(st *State, t *Term, list func(*Term) bool) bool {
		return t != nil && t.Op == "index" && list(t.Args[0])
	}
	// used: the coins already selected
	usedList := func(st *State, t *Term) bool { return isUtxos(t) && a.path(st, t) != "a0.Unspents" }
	// outpoint: a text made of both parts of what identifies a coin
	outpoint := func(st *State, t *Term, coin func(*Term) bool) bool {
		hash, index := false, false
		var walk func(t *Term)
		walk = func(t *Term) {
			t.Contains(func(t *Term) bool {
				if as := t.CallArgs(); len(as) == 1 && coin(as[0]) {
					hash = hash || lastIs(t.CallName(), "Hash")
					index = index || lastIs(t.CallName(), "Index")
				}
				for _, x := range e.Elems(st, t) {
					walk(x)
				}
				return false
			})
		}
		walk(t)
		return hash && index
	}
	e.onAssume = func(st *State, k byte, t *Term) {
		if x := loopOver(t); x != nil {
			if k == 'T' && a.path(st, x) == "a0.Unspents" {
				st.Gen("did:differs")
				st.Kill("all:differs")
			}
			if s := sels[x.callOf()]; s != nil && k == 'F' {
				st.Gen("coins:" + s.kind)
			}
		}
		loop := func(l string, over func(*Term) bool) { armedLoop(l, over)(st, k, t) }
		path := func(t *Term) string { return a.path(st, t) }
		outs := func(t *Term) bool { return path(t) == "a0.Outputs" }
		loop("parsed", func(t *Term) bool { return path(t) == "a0.Unspents" })
		loop("haspath", outs)
		loop("total", outs)
		loop("requested", outs)
		loop("listed", func(t *Term) bool { return path(t) == "a0.ChangePathsByAsset" })
		loop("addin", isUtxos)
		loop("addout", isOuts)
		loop("used", func(t *Term) bool { return usedList(st, t) })
		loop("differs", func(t *Term) bool { return usedList(st, t) })
		loop("selected", func(t *Term) bool {
			return path(t) == "a0.ChangePathsByAsset" || totals != nil && t == totals || isStrings(t)
		})
		same := func(x, y *Term) bool {
			return x.CallName() != "" && x.CallName() == y.CallName() && (lastIs(x.CallName(), "Hash") || lastIs(x.CallName(), "Index"))
		}
		switch {
		case k == 'N' && t.Op == "extract" && lastIs(t.Args[0].CallName(), "Parse") && path(t.Args[0].CallArgs()[0]) == "a0.Unspents[]":
			st.Gen("did:parsed")
		case k == 'T' && t.Op == "empty" && path(t.Args[0]) == "a0.Unspents":
			st.Gen("all:parsed")
			st.Gen("all:haspath")
		case k == 'T' && t.Op == "has" && path(t.Args[0]) == "a0.ChangePathsByAsset" && path(t.Args[1]) == "asset(a0.Outputs[].Asset)":
			st.Gen("did:haspath")
		case k == 'F' && t.Op == "eq" && same(t.Args[0], t.Args[1]):
			x, y := t.Args[0].CallArgs()[0], t.Args[1].CallArgs()[0]
			if elemOf(st, x, func(t *Term) bool { return path(t) == "a0.Unspents" }) {
				x, y = y, x
			}
			if elemOf(st, x, func(t *Term) bool { return usedList(st, t) }) {
				st.Gen("did:differs")
			}
		case k == 'F' && (t.Op == "has" || t.Op == "lookup") && st.Is("all:used") && outpoint(st, t.Args[1], func(t *Term) bool { return path(t) == "a0.Unspents[]" }):
			st.Gen("all:differs")
		case k == 'F' && t.Op == "lt" && t.Args[0].IsZero():
			// nothing to pay, or nothing left
			if x := t.Args[1]; x.Op == "lookup" && x.Args[0] == totals {
				st.Gen("did:selected")
			}
			if s := sels[unconv(t.Args[1]).callOf()]; s != nil && t.Args[1].Aux == "1" {
				st.Gen("put:" + s.kind)
				st.Gen("keyed")
			}
		case k == 'T' && t.Op == "eq" && t.Args[1].IsZero() || k == 'T' && t.Op == "eq" && t.Args[0].IsZero():
			for _, x := range t.Args {
				if x.Op == "lookup" && x.Args[0] == totals {
					st.Gen("did:selected")
				}
				if s := sels[x.callOf()]; s != nil && x.Aux == "1" {
					st.Gen("put:" + s.kind)
					st.Gen("keyed")
				}
			}
		}
	}
	// amount: what is left of a selection is all there
	amount := func(st *State, ev *Event, v *Term, old *Term) (s *coinSel, ok bool, why string) {
		l := linear(v)
		var fee *Term
		for x, k := range l {
			switch sel := sels[x.callOf()]; {
			case x == nil:
				return nil, false, "a constant is added to the amount"
			case sel != nil && x.Aux == "1" && k == 1 && s == nil:
				s = sel
			case k == -1 && fee == nil:
				fee = x
			}
		}
		rest := minus(l, map[*Term]int64{})
		if old != nil {
			rest = minus(rest, map[*Term]int64{old: 1})
		}
		if s != nil {
			rest = minus(rest, map[*Term]int64{s.spare: 1})
		}
		if fee != nil {
			rest = minus(rest, map[*Term]int64{fee: -1})
		}
		if s != nil && s.kind == "fees" {
			rest = minus(rest, linear(s.target))
		}
		switch {
		case len(rest) != 0:
			return s, false, "the amount is not what is left"
		case s == nil && (old == nil || fee == nil):
			return s, false, "nothing of a selection is returned"
		case s != nil && s.kind == "fees" && fee == nil:
			return s, false, "the fees are not taken from what is selected for them"
		case s != nil && s.kind != "fees" && fee != nil:
			return s, false, "fees are taken where none are due"
		case !notNegative(st, l):
			return s, false, "the fees may be greater than what they are taken from"
		}
		if fee != nil {
			fees[fee] = true
			st.Kill("paid")
			st.Gen("paid", fee)
		}
		return s, true, ""
	}
	// an output put in the transaction for what is left
	put := func(st *State, ev *Event, o *Term, old *Term) bool {
		if o == nil || lastPart(o.CallName()) != "NewTxOutput" {
			return false
		}
		nput++
		as := o.CallArgs()
		arg := func(t *Term, f string) *Term {
			if t.Op == "extract" && lastIs(t.Args[0].CallName(), f) {
				return t.Args[0].CallArgs()[0]
			}
			return nil
		}
		asset, value := arg(as[0], "AssetHashToBytes"), arg(as[1], "ValueToBytes")
		if asset == nil || value == nil {
			return false
		}
		ap, vp, sp := a.path(st, asset), a.path(st, value), strings.Join(a.paths(st, as[2]), "|")
		if swap && vp == "a0.OutputAmount" {
			c.At(ev, "update/output", tag, ap == "a0.OutputAsset" && sp == "script(a0.OutputDerivationPath)" && okErr2(st, as[2]), "the output received is not the one asked for: "+ap+" to "+sp)
			st.Gen("requested", o)
			st.Gen("requested")
			return true
		}
		s, ok, why := amount(st, ev, value, old)
		c.At(ev, "update/change", tag, ok, why)
		if !ok {
			return true
		}
		pathOf := func() *Term {
			if as[2].Op == "extract" && lastIs(as[2].Args[0].CallName(), "DeriveConfidentialAddress") {
				ar := as[2].Args[0].CallArgs()
				return fieldByName(e, st, ar[len(ar)-1], "DerivationPath")
			}
			return nil
		}
		c.At(ev, "update/change/asset", tag, s != nil && (asset == s.asset || ap == s.assetPath && !strings.HasPrefix(ap, "?")), "what is left is returned as another asset: "+ap)
		own := false
		if p := pathOf(); p != nil {
			own = swap && a.path(st, p) == "a0.ChangeDerivationPath" ||
				!swap && p.Op == "lookup" && a.path(st, p.Args[0]) == "a0.ChangePathsByAsset" && (p.Args[1] == asset || a.path(st, p.Args[1]) == ap && !strings.HasPrefix(ap, "?"))
		}
		c.At(ev, "update/change/script", tag, own && okErr2(st, as[2]), "what is left is sent to "+sp)
		if s != nil {
			st.Gen("put:" + s.kind)
			if s.kind == "fees" {
				st.Gen("feepaid")
			}
		}
		return true
	}
	// where paths join, the fee amount is the one paid on each of them
	wrong := map[*ssa.Phi]map[int]bool{}
	chosen := map[*Term]bool{}
	rightKey := func(st *State, v *Term) bool {
		private := func(t *Term) bool { return a.path(st, t) == "a0.WantPrivateBlindKeys" }
		p := a.path(st, v)
		return strings.HasPrefix(p, "Serialize(blindkey(script(") && st.HasMatch('T', private) ||
			strings.HasPrefix(p, "SerializeCompressed(blindpub(script(") && st.HasMatch('F', private)
	}
	e.onPhi = func(ph *ssa.Phi, i int, st *State, v *Term) {
		if s, ok := ph.Type().Underlying().(*types.Slice); ok && s.Elem().String() == "byte" && v.Op != "phi" {
			chosen[v] = rightKey(st, v)
		}
		if b, ok := ph.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			return
		}
		if wrong[ph] == nil {
			wrong[ph] = map[int]bool{}
		}
		wrong[ph][i] = st.HasMatch('L', func(t *Term) bool {
			return t.Aux == "paid" && len(t.Args) == 1 && !slices.Contains(alts(v), t.Args[0])
		})
	}
	var feeVal ssa.Value
	unpaid := func() bool {
		seen := map[ssa.Value]bool{}
		var walk func(v ssa.Value) bool
		walk = func(v ssa.Value) bool {
			ph, ok := v.(*ssa.Phi)
			if !ok || seen[v] {
				return false
			}
			seen[v] = true
			for i, x := range ph.Edges {
				if wrong[ph][i] || walk(x) {
					return true
				}
			}
			return false
		}
		return feeVal != nil && walk(feeVal)
	}
	hook := e.hook
	e.hook = func(st *State, ev *Event) {
		hook(st, ev)
		path := func(t *Term) string { return a.path(st, t) }
		switch {
		case ev.Kind == "call" && ev.Name == "explorer.SelectUnspents":
			nsel++
			s := &coinSel{target: ev.Args[1], asset: ev.Args[2], assetPath: path(ev.Args[2])}
			switch {
			case swap:
				s.kind = "swap"
				c.At(ev, "update/target", tag, path(s.target) == "a0.InputAmount" && s.assetPath == "a0.InputAsset", "the coins selected are not for the amount to send: "+path(s.target)+" of "+s.assetPath)
			case s.target.Op == "lookup":
				s.kind = "outputs"
				c.At(ev, "update/target", tag, s.target.Args[0] == totals && s.target.Args[1] == s.asset && st.Is("all:total"), "the coins selected are not for the total of the outputs of their asset")
			default:
				s.kind = "fees"
				c.At(ev, "update/target", tag, s.assetPath == "a0.Network.AssetID", "the coins paying the fees are of another asset: "+s.assetPath)
			}
			ps := a.paths(st, e.tab.mk("index", "", nil, ev.Args[0], e.tab.mk("zero", "", nil)))
			if s.kind != "fees" {
				c.At(ev, "update/from", tag, path(ev.Args[0]) == "a0.Unspents", "the coins are not selected among the given ones")
				for _, l := range []string{"coins:" + s.kind, "put:" + s.kind, "keyed"} {
					c.At(ev, "update/pending", tag, st.Is(l), "the coins or the change of the previous selection are lost")
				}
				if !swap {
					direct = direct || isKeyOf(s.asset) && s.asset.Args[0].Args[0].Op == "range" && path(s.asset.Args[0].Args[0].Args[0]) == "a0.ChangePathsByAsset"
					c.At(ev, "update/once", tag, e.From(s.asset, func(t *Term) bool { return isKeyOf(t) || t.Op == "index" }), "the same asset may be selected twice")
				}
			} else {
				roots, _ := chain(ev.Args[0])
				whole := false // the given list itself, not one made here
				for _, r := range roots {
					whole = whole || path(r) == "a0.Unspents"
				}
				c.At(ev, "update/from", tag, only(ps, "a0.Unspents[]") && (!whole || st.Is("none:in")), "coins already selected may be selected again for the fees: "+strings.Join(ps, ", "))
			}
			st.Kill("coins:" + s.kind)
			st.Kill("put:" + s.kind)
			st.Kill("keyed")
			pending = s
		case ev.Kind == "after" && ev.Name == "explorer.SelectUnspents" && pending != nil && len(ev.Res) == 3:
			s := pending
			s.coins, s.spare = ev.Res[0], ev.Res[1]
			sels[ev.Res[0].callOf()] = s
			if s.kind == "outputs" {
				st.CondGen('N', ev.Res[2], "did:selected")
			}
		case ev.Kind == "call" && lastIs(ev.Name, "calcFeeAmount") && len(ev.Args) == 4:
			c.At(ev, "update/fees", tag, path(ev.Args[0]) == pt && path(ev.Args[3]) == "a0.MilliSatsPerBytes", "the fees are not those of this transaction at the given rate")
		case ev.Kind == "append" && isUtxos(ev.Args[0]):
			if s := sels[ev.Args[1].callOf()]; s != nil {
				_, more := chain(ev.Args[0])
				c.At(ev, "update/inputs/kept", tag, st.Is("none:in") || more, "the coins selected before are lost")
				c.At(ev, "update/inputs/ok", tag, okErr(st, ev.Args[1]), "a failed selection is used")
				st.Kill("none:in")
				st.Gen("coins:" + s.kind)
				break
			}
			ok := true
			els := e.Elems(st, ev.Args[1])
			for _, v := range els {
				ok = ok && path(v) == "a0.Unspents[]"
			}
			c.At(ev, "update/remaining", tag, ok && len(els) > 0 && st.Is("all:differs"), "a coin already selected may be selected again")
		case ev.Kind == "copy" && isOuts(ev.Args[0]) && path(ev.Args[1]) == "a0.Outputs":
			if m := ev.Args[0]; m.Op != "make" || m.Args[0].Op != "len" || path(m.Args[0].Args[0]) != "a0.Outputs" {
				break
			}
			st.Gen("requested", ev.Args[0])
			st.Gen("requested")
		case ev.Kind == "append" && isOuts(ev.Args[0]):
			roots, more := chain(ev.Args[0])
			if path(ev.Args[1]) == "a0.Outputs" {
				for _, r := range roots {
					st.Gen("requested", r)
				}
				st.Gen("requested")
				break
			}
			c.At(ev, "update/outputs/kept", tag, st.Is("none:out") || more, "the outputs added before are lost")
			for _, v := range e.Elems(st, ev.Args[1]) {
				if path(v) == "a0.Outputs[]" {
					st.Gen("did:requested")
					st.Gen("requested")
					for _, r := range roots {
						st.Gen("requested", r)
					}
					continue
				}
				ok := put(st, ev, v, nil)
				c.At(ev, "update/put", tag, ok, "an output is added that was not asked for")
			}
			st.Kill("none:out")
		case ev.Kind == "idxstore" && isOuts(ev.Base):
			ok := put(st, ev, ev.Val, e.tab.mk("?", "", nil))
			c.At(ev, "update/put", tag, ok, "an output is added that was not asked for")
		case ev.Kind == "store" && ev.Name == "transaction.TxOutput.Value":
			nput++
			if ev.Val.Op != "extract" || !lastIs(ev.Val.Args[0].CallName(), "ValueToBytes") || ev.Base.Op != "index" || !isOuts(ev.Base.Args[0]) {
				c.At(ev, "update/change", tag, false, "an output is changed to something else than an amount")
				break
			}
			var old *Term
			v := ev.Val.Args[0].CallArgs()[0]
			for x := range linear(v) {
				if x != nil && lastIs(x.CallName(), "ValueFromBytes") && x.CallArgs()[0].IsField("transaction.TxOutput.Value") && x.CallArgs()[0].Args[0] == ev.Base {
					old = x
				}
			}
			if old == nil {
				c.At(ev, "update/change", tag, false, "what was already left of another selection is lost")
				break
			}
			s, ok, why := amount(st, ev, v, old)
			c.At(ev, "update/change", tag, ok, why)
			mine := true
			for _, x := range alts(ev.Base.Args[1]) {
				if n, isC := x.IntConst(); isC && n < 0 {
					continue
				}
				mine = mine && owned[x]
			}
			c.At(ev, "update/change/script", tag, mine, "the amount of an output that is not the change may be modified")
			if s != nil {
				st.Gen("put:" + s.kind)
			}
			if ok {
				st.Gen("feepaid")
				st.Gen("put:fees")
			}
			st.Gen("keyed")
		case ev.Kind == "store" && lastIs(ev.Name, "FeeAmount"):
			if in, ok := ev.Instr.(*ssa.Store); ok {
				feeVal = in.Val
			}
		case ev.Kind == "mapupdate":
			m, ok := ev.Args[0].Typ.Underlying().(*types.Map)
			if !ok {
				break
			}
			if b, ok := m.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				key := ev.Args[1]
				l := linear(ev.Val)
				ok := path(key) == "asset(a0.Outputs[].Asset)" && len(l) == 2
				for x, k := range l {
					ok = ok && k == 1 && x != nil && (x.Op == "lookup" && x.Args[0] == ev.Args[0] && x.Args[1] == key ||
						path(x) == "value(a0.Outputs[].Value)" && sameElem(x, key))
				}
				c.At(ev, "update/total", tag, ok, "the total of an asset is not the sum of its outputs")
				totals = ev.Args[0]
				st.Gen("did:total")
				break
			}
			if outpoint(st, ev.Args[1], func(t *Term) bool { return elemOf(st, t, func(t *Term) bool { return usedList(st, t) }) }) {
				st.Gen("did:used")
				break
			}
			if s, ok := m.Elem().Underlying().(*types.Slice); ok && s.Elem().String() == "byte" {
				k, v := path(ev.Args[1]), strings.Join(a.paths(st, ev.Val), "|")
				script := strings.TrimSuffix(strings.TrimPrefix(k, "hex("), ")")
				ok := len(alts(ev.Val)) > 0
				for _, x := range alts(ev.Val) {
					p := path(x)
					if ev.Val.Op == "phi" {
						ok = ok && chosen[x]
					} else {
						ok = ok && rightKey(st, x)
					}
					ok = ok && strings.HasSuffix(p, "("+script+"))")
				}
				same := len(ev.Args[1].CallArgs()) == 1 && ev.Val.Contains(func(t *Term) bool { return t == ev.Args[1].CallArgs()[0] })
				c.At(ev, "update/blindkey", tag, ok && same && strings.HasPrefix(script, "script(a0.ChangePathsByAsset["), "the blinding key of a change is "+v+" for "+k)
				st.Gen("keyed")
			}
		case ev.Kind == "append" && isStrings(ev.Args[0]):
			for _, v := range e.Elems(st, ev.Args[1]) {
				if strings.HasPrefix(path(v), "a0.ChangePathsByAsset[") {
					st.Gen("did:listed")
				}
			}
		case ev.Kind == "call" && ev.Name == "pset.Updater.AddInput":
			nadd++
			x := ev.Args[1]
			p := x.callOf()
			ok := x.Op == "extract" && x.Aux == "0" && p != nil && lastIs(p.CallName(), "Parse") && p.CallArgs()[0].Op == "index"
			c.At(ev, "update/addinput", tag, ok && path(ev.Args[0]) == "updater("+pt+")", "what is added is not a coin selected")
			if !ok {
				break
			}
			l := p.CallArgs()[0].Args[0]
			c.At(ev, "update/parsed", tag, st.Is("all:parsed") || okErr(st, x), "a coin that cannot be parsed is added")
			_, more := chain(l)
			c.At(ev, "update/inputs/all", tag, more || sels[l.callOf()] != nil || mode == "no-unspents", "the inputs added are not those selected")
			if sels[l.callOf()] != nil {
				c.At(ev, "update/inputs/ok", tag, okErr(st, l), "a failed selection is used")
			}
			inputs = l
			st.Kill("input")
			st.Gen("input", p)
		case ev.Kind == "call" && ev.Name == "pset.Updater.AddInWitnessUtxo":
			x := ev.Args[1]
			p := x.callOf()
			last := false
			if l := linear(ev.Args[2]); len(l) == 2 && l[nil] == -1 {
				for x, k := range l {
					last = last || x != nil && k == 1 && x.Op == "len" && (path(x.Args[0]) == pt+".Inputs" || path(x.Args[0]) == "updater("+pt+").Data.Inputs")
				}
			}
			c.At(ev, "update/prevout", tag, p != nil && x.Aux == "1" && st.HasMatch('L', func(t *Term) bool { return t.Aux == "input" && len(t.Args) == 1 && t.Args[0] == p }) && last, "the previous output of an input is not its own")
		case ev.Kind == "after" && ev.Name == "pset.Updater.AddInWitnessUtxo":
			st.CondGen('N', ev.Res[0], "did:addin")
		case ev.Kind == "after" && lastIs(ev.Name, "NewUpdater"):
			st.Gen("did:addin")
			st.Gen("did:addout")
		case ev.Kind == "call" && ev.Name == "pset.Updater.AddOutput":
			nadd++
			x := ev.Args[1]
			ok := x.Op == "index" && isOuts(x.Args[0])
			c.At(ev, "update/addoutput", tag, ok && path(ev.Args[0]) == "updater("+pt+")", "what is added is not an output asked for")
			if !ok {
				break
			}
			roots, _ := chain(x.Args[0])
			all := len(roots) > 0
			for _, r := range roots {
				req := st.HasMatch('L', func(t *Term) bool { return t.Aux == "requested" && len(t.Args) == 1 && t.Args[0] == r })
				if !req && r.Op == "slice" {
					for _, o := range e.Elems(st, r) {
						c.At(ev, "update/put", tag, put(st, ev, o, nil), "an output is added that was not asked for")
					}
					req = st.Is("requested")
				}
				all = all && req
			}
			c.At(ev, "update/outputs/all", tag, all && st.Is("requested") && (st.Is("all:requested") || st.HasMatch('L', func(t *Term) bool { return t.Aux == "requested" && len(t.Args) == 1 })), "an output asked for is not added")
			st.Gen("did:addout")
		case ev.Kind == "return" && ev.Frame.parent != nil && len(ev.Res) == 1:
			if b, ok := ev.Res[0].Typ.Underlying().(*types.Basic); ok && b.Kind() == types.Int {
				x := ev.Res[0]
				owned[x] = st.HasMatch('T', func(t *Term) bool {
					if t.CallName() != "bytes.Equal" {
						return false
					}
					as := t.CallArgs()
					for i := range as {
						if as[i].IsField("transaction.TxOutput.Script") && as[i].Args[0].Op == "index" && isOuts(as[i].Args[0].Args[0]) && as[i].Args[0].Args[1] == x && path(as[1-i]) == "script(a0.ChangePathsByAsset[a0.Network.AssetID])" {
							return true
						}
					}
					return false
				})
			}
		case ev.Kind == "return" && ev.Frame.parent == nil:
			_, good := outcomes(st, ev)
			if good == nil {
				break
			}
			need := func(l, msg string) { c.At(ev, "update/"+l, tag, good.Is(l), msg) }
			need("all:addin", "some coin selected is not added")
			need("all:addout", "some output is not added")
			kinds := map[string][]string{"": {"swap"}, "fees": {"outputs", "fees"}, "no-fees": {"outputs"}}[mode]
			for _, k := range kinds {
				need("coins:"+k, "the coins selected for the "+k+" are not added")
				need("put:"+k, "what is left of the coins selected for the "+k+" is lost")
			}
			res := map[string]*Term{}
			if swap {
				res["PsetBase64"], res["SelectedUnspents"] = ev.Res[0], ev.Res[1]
			} else {
				need("keyed", "the blinding key of a change is not returned")
				for _, f := range []string{"PsetBase64", "SelectedUnspents", "ChangeOutputsBlindingKeys", "FeeAmount"} {
					res[f] = a.field(good, ev.Res[0], f)
				}
			}
			ps := a.paths(good, res["PsetBase64"])
			c.At(ev, "update/result", tag, only(ps, pt+".b64"), "what is returned is not the transaction updated: "+strings.Join(ps, ", "))
			if mode != "no-unspents" {
				c.At(ev, "update/result/selected", tag, res["SelectedUnspents"] == inputs && inputs != nil, "the coins returned are not those added")
			}
			if swap {
				break
			}
			if mode != "no-unspents" {
				need("all:selected", "no coins are selected for some asset")
				need("all:haspath", "an asset of the outputs may have no coins selected")
				c.At(ev, "update/listed", tag, direct || good.Is("all:listed"), "no coins are selected for some asset")
			}
			zero, other := false, false
			for _, x := range alts(res["FeeAmount"]) {
				if x.IsZero() {
					zero = true
				} else if !fees[x] {
					other = true
				}
			}
			if mode == "fees" {
				need("feepaid", "the fees are not paid")
				c.At(ev, "update/fee", tag, !zero && !other && !unpaid(), "the fee amount returned is not the one paid")
			} else {
				c.At(ev, "update/fee", tag, zero && !other, "fees are returned that are not paid")
			}
		}
	}
	c.AnalyzeWith(e, fn, mode, func(st *State, args []*Term) {
		for _, l := range []string{"did:parsed", "did:haspath", "did:total", "did:requested", "did:listed", "did:addin", "did:addout", "did:differs", "did:selected", "did:used",
			"none:in", "none:out", "keyed"} {
			st.Gen(l)
		}
		for _, k := range []string{"swap", "outputs", "fees"} {
			st.Gen("coins:" + k)
			st.Gen("put:" + k)
		}
		if swap {
			st.Kill("coins:swap")
			st.Kill("put:swap")
			return
		}
		opts := args[1]
		un, want := fieldByName(e, st, opts, "Unspents"), fieldByName(e, st, opts, "WantChangeForFees")
		st.assume(e.tab.mk("empty", "", types.Typ[types.Bool], un), map[bool]byte{true: 'T', false: 'F'}[mode == "no-unspents"])
		if mode != "no-unspents" {
			st.assume(want, map[bool]byte{true: 'T', false: 'F'}[mode == "fees"])
		}
	})
	if mode != "no-unspents" {
		c.Need("update", nsel, 1, "coin selections of "+name)
		c.Need("update", nput, 1, "change outputs of "+name)
	}
	c.Need("update", nadd, 2, "inputs and outputs added by "+name)
}

func isStrings(t *Term) bool {
	if t == nil || t.Typ == nil {
		return false
	}
	s, ok := t.Typ.Underlying().(*types.Slice)
	return ok && s.Elem().String() == "string"
}

func isKeyOf(t *Term) bool { return t.Op == "extract" && t.Aux == "1" && t.Args[0].Op == "next" }

func alts(t *Term) (out []*Term) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "phi" {
			for _, x := range t.Alts {
				walk(x)
			}
			return
		}
		out = append(out, t)
	}
	walk(t)
	return
}

func (t *Term) callOf() *Term {
	if t == nil {
		return nil
	}
	if t.Op == "extract" {
		t = t.Args[0]
	}
	if t.Op == "call" {
		return t
	}
	return nil
}

// sameElem: two values computed from elements of a list are of the same one.
func sameElem(x, y *Term) bool {
	idx := func(t *Term) (out []*Term) {
		t.Contains(func(t *Term) bool {
			if t.Op == "index" {
				out = append(out, t)
			}
			return false
		})
		return
	}
	a, b := idx(x), idx(y)
	return len(a) == 1 && len(b) == 1 && a[0] == b[0]
}
