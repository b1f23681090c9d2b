package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// walletUnblind decides what reading the blinded parts of a transaction yields.
func (c *Check) walletUnblind() {
	if fn := c.P.Func(walletPkg, "ExtractBlindingDataFromTx"); fn == nil {
		c.Ob("anchor", "wallet.ExtractBlindingDataFromTx", false, "-", "the function unblinding transactions is gone")
	} else {
		c.extractBlinding(fn)
	}
	const tu = "pkg/transactionutil"
	if fn := c.P.Func(tu, "UnblindOutput"); fn == nil {
		c.Ob("anchor", "transactionutil.UnblindOutput", false, "-", "the function unblinding outputs is gone")
	} else {
		a := c.walletTracer("transactionutil.UnblindOutput", fn)
		e := a.e
		hook := e.hook
		n := 0
		const rv = "revealed(a0;a1)"
		hidden := map[string]string{"AssetHash": "hex(reversed(" + rv + ".Asset))", "Value": rv + ".Value", "AssetBlinder": rv + ".AssetBlindingFactor", "ValueBlinder": rv + ".ValueBlindingFactor"}
		plain := map[string]string{"AssetHash": "asset(a0.Asset)", "Value": "value(a0.Value)", "AssetBlinder": "zeros32", "ValueBlinder": "zeros32"}
		e.hook = func(st *State, ev *Event) {
			hook(st, ev)
			if ev.Kind != "return" || ev.Frame.parent != nil || len(ev.Res) != 2 || !st.feasible(ev.Res[1], 'T') {
				return
			}
			n++
			confidential := func(t *Term) bool {
				return lastIs(t.CallName(), "IsConfidential") && a.path(st, t.CallArgs()[0]) == "a0"
			}
			isPlain, isHidden := true, true
			var got []string
			for _, f := range sortedKeys(plain) {
				v := a.field(st, ev.Res[0], f)
				if v == nil {
					isPlain, isHidden = false, false
					continue
				}
				p := strings.Join(a.paths(st, v), "|")
				isPlain = isPlain && p == plain[f]
				isHidden = isHidden && p == hidden[f] && v.Contains(func(t *Term) bool {
					return t.Op == "extract" && lastIs(t.Args[0].CallName(), "UnblindOutputWithKey") && okErr(st, t)
				})
				got = append(got, f+" is "+p)
			}
			c.At(ev, "unblind/output", a.name, isHidden || isPlain && st.HasMatch('F', confidential), "an output is revealed with what it does not contain: "+strings.Join(got, ", "))
		}
		c.Analyze(e, fn)
		c.Need("unblind", n, 2, "ways to reveal an output")
	}
	if fn := c.P.Func(tu, "NewFeeOutput"); fn == nil {
		c.Ob("anchor", "transactionutil.NewFeeOutput", false, "-", "the function making the output of the fees is gone")
	} else {
		a := c.walletTracer("transactionutil.NewFeeOutput", fn)
		e := a.e
		hook := e.hook
		e.hook = func(st *State, ev *Event) {
			hook(st, ev)
			if ev.Kind != "return" || ev.Frame.parent != nil {
				return
			}
			ok := false
			if els := e.Elems(st, ev.Res[0]); len(els) == 1 && lastPart(els[0].CallName()) == "NewTxOutput" {
				as := els[0].CallArgs()
				empty := as[2].IsNil() || as[2].Op == "make" && as[2].Args[0].IsZero() || as[2].Op == "slice" && as[2].Args[0].Op == "alloc" && strings.HasSuffix(as[2].Args[0].Aux, "[0]byte")
				if s := a.path(st, as[2]); s == "zeros0" || s == "nil" {
					empty = true
				}
				if as[2].Op == "slice" && as[2].Args[0].Op == "alloc" {
					if p, ok := as[2].Args[0].Typ.(*types.Pointer); ok {
						if ar, ok := p.Elem().Underlying().(*types.Array); ok && ar.Len() == 0 {
							empty = true
						}
					}
				}
				ok = a.path(st, as[0]) == "assetbytes(a1.AssetID)" && a.path(st, as[1]) == "valuebytes(a0)" && empty
			}
			c.At(ev, "fee/output", a.name, ok, "the output of the fees is not for the fee amount in the asset of the network")
		}
		c.Analyze(e, fn)
	}
}

func (c *Check) extractBlinding(fn *ssa.Function) {
	a := c.walletTracer("wallet.ExtractBlindingDataFromTx", fn)
	e := a.e
	maps := map[string]*Term{}
	e.onAssume = func(st *State, k byte, t *Term) {
		path := func(t *Term) string { return a.path(st, t) }
		armedLoop("in", func(t *Term) bool { return path(t) == "pset(a0).Inputs" || path(t) == "pset(a0).UnsignedTx.Inputs" })(st, k, t)
		armedLoop("out", func(t *Term) bool { return path(t) == "pset(a0).Outputs" || path(t) == "pset(a0).UnsignedTx.Outputs" })(st, k, t)
		if k == 'T' && t.Op == "empty" {
			switch path(t.Args[0]) {
			case "a1":
				st.Gen("all:in")
			case "a2":
				st.Gen("all:out")
			case "pset(a0).UnsignedTx.Outputs[].Script":
				st.Gen("did:out")
			}
		}
	}
	hook := e.hook
	n := 0
	e.hook = func(st *State, ev *Event) {
		hook(st, ev)
		path := func(t *Term) string { return a.path(st, t) }
		switch {
		case ev.Kind == "mapupdate":
			m, ok := ev.Args[0].Typ.Underlying().(*types.Map)
			if !ok || typeName(m.Elem()) != "wallet.BlindingData" {
				return
			}
			n++
			idx := ev.Args[1]
			var u *Term
			ok = true
			for f, w := range map[string]string{"Asset": "AssetHash", "Amount": "Value", "AssetBlinder": "AssetBlinder", "AmountBlinder": "ValueBlinder"} {
				v := a.field(st, ev.Val, f)
				if v == nil || v.Op != "field" || lastPart(v.Aux) != w || v.Args[0].callOf() == nil || !lastIs(v.Args[0].callOf().CallName(), "UnblindOutput") || u != nil && v.Args[0] != u {
					ok = false
					continue
				}
				u = v.Args[0]
			}
			c.At(ev, "extract/data", a.name, ok, "what an input or output is revealed to be is not what it contains")
			if !ok {
				return
			}
			good := st.HasMatch('T', func(t *Term) bool { return t.Op == "extract" && t.Aux == "1" && t.Args[0] == u.Args[0] })
			c.At(ev, "extract/ok", a.name, good, "an input or output that could not be revealed is returned")
			o, key := u.Args[0].CallArgs()[0], u.Args[0].CallArgs()[1]
			kind := ""
			for _, x := range alts(o) {
				k := ""
				switch p := path(x); {
				case p == "pset(a0).Inputs[].WitnessUtxo":
					if x.Contains(func(t *Term) bool { return t.Op == "index" && t.Args[1] == idx }) {
						k = "in"
					}
				case p == "pset(a0).Inputs[].NonWitnessUtxo.Outputs[]" && x.Op == "index":
					i := x.Args[1]
					if path(unconv(i)) == "pset(a0).UnsignedTx.Inputs[].Index" && sameItem(idx, i) && sameItem(idx, x.Args[0]) {
						k = "in"
					}
				case p == "pset(a0).UnsignedTx.Outputs[]":
					if sameItem(idx, x) {
						k = "out"
					}
				}
				if k == "" || kind != "" && k != kind {
					kind = "?"
					break
				}
				kind = k
			}
			c.At(ev, "extract/position", a.name, kind == "in" || kind == "out", "what is revealed is not the input or output at that position")
			from := map[string]string{"in": "a1", "out": "a2"}[kind]
			okKey := true
			for _, x := range alts(key) {
				if x.IsNil() || x.Op == "zero" {
					continue
				}
				if x.Op == "extract" && x.Args[0].Op == "lookup" {
					x = x.Args[0]
				}
				own := false
				if x.Op == "lookup" && path(x.Args[0]) == from && lastIs(x.Args[1].CallName(), "EncodeToString") {
					s := lastArgOf(x.Args[1])
					for _, s := range alts(s) {
						own = s.Op == "field" && lastPart(s.Aux) == "Script" && (s.Args[0] == o || containsTerm(alts(o), s.Args[0]))
						if !own {
							break
						}
					}
				}
				okKey = okKey && own
			}
			c.At(ev, "extract/key", a.name, okKey, "an input or output is revealed with the blinding key of another one")
			st.Gen("did:" + kind)
			maps[kind] = ev.Args[0]
		case ev.Kind == "return" && ev.Frame.parent == nil:
			_, good := outcomes(st, ev)
			if good == nil {
				return
			}
			for i, k := range []string{"in", "out"} {
				c.At(ev, "extract/all:"+k, a.name, good.Is("all:"+k), "some "+k+"put is not revealed")
				ok := maps[k] != nil
				for _, x := range alts(ev.Res[i]) {
					ok = ok && (x == maps[k] || x.IsNil() || x.Op == "zero")
				}
				c.At(ev, "extract/result:"+k, a.name, ok, "what is returned for the "+k+"puts is not what they are revealed to be")
			}
		}
	}
	c.AnalyzeWith(e, fn, "", func(st *State, _ []*Term) {
		st.Gen("did:in")
		st.Gen("did:out")
	})
	c.Need("extract", n, 2, "places recording what is revealed")
}

func containsTerm(ts []*Term, t *Term) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

func lastArgOf(t *Term) *Term {
	as := t.CallArgs()
	return as[len(as)-1]
}

// coinSelection decides which coins are selected for an amount.
func (c *Check) coinSelection() {
	const pkg = "pkg/explorer"
	fn := c.P.Func(pkg, "SelectUnspents")
	if fn == nil {
		c.Ob("anchor", "explorer.SelectUnspents", false, "-", "the function selecting coins is gone")
		return
	}
	u64s := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && s.Elem().String() == "uint64"
	}
	isBest := func(f *ssa.Function) bool {
		s := f.Signature
		return c.P.PkgRel(f) == pkg && s.Recv() == nil && s.Params().Len() == 2 && s.Results().Len() == 1 &&
			u64s(s.Params().At(0).Type()) && s.Params().At(1).Type().String() == "uint64" && u64s(s.Results().At(0).Type())
	}
	isSum := func(f *ssa.Function) bool {
		s := f.Signature
		return c.P.PkgRel(f) == pkg && s.Recv() == nil && s.Params().Len() == 1 && s.Results().Len() == 1 &&
			u64s(s.Params().At(0).Type()) && s.Results().At(0).Type().String() == "uint64"
	}
	best := map[string]*ssa.Function{}
	a := c.walletTracer("explorer.SelectUnspents", fn)
	e := a.e
	e.inline = func(f *ssa.Function) bool {
		if isBest(f) {
			best[fnName(f)] = f
			return false
		}
		return c.P.PkgRel(f) == pkg
	}
	given := func(st *State, t *Term) bool { return a.path(st, t) == "a0" }
	elemOf := func(st *State, t *Term, list func(*Term) bool) bool {
		return t != nil && t.Op == "index" && list(t.Args[0])
	}
	var values, cands *Term // the amounts compared, and the coins they are of
	isBestCall := func(t *Term) bool { return t.Op == "call" && best[t.CallName()] != nil }
	isInts := func(t *Term) bool {
		if t == nil || t.Typ == nil {
			return false
		}
		s, ok := t.Typ.Underlying().(*types.Slice)
		return ok && s.Elem().String() == "int"
	}
	isAmounts := func(t *Term) bool { return t != nil && t.Typ != nil && u64s(t.Typ) }
	isUtxos := func(t *Term) bool {
		if t == nil || t.Typ == nil {
			return false
		}
		s, ok := t.Typ.Underlying().(*types.Slice)
		return ok && typeName(s.Elem()) == "explorer.Utxo"
	}
	// the type of what is appended to (a nil list has no type of its own)
	to := func(ev *Event) *Term {
		if v, ok := ev.Instr.(ssa.Value); ok {
			return &Term{Typ: v.Type()}
		}
		return nil
	}
	e.onAssume = func(st *State, k byte, t *Term) {
		if x := loopOver(t); x != nil && k == 'T' {
			switch {
			case given(st, x):
				st.Kill("known")
				st.Kill("asset")
			case isBestCall(x):
				st.Gen("did:free")
				st.Kill("all:free")
			case isAmounts(x):
				st.Gen("did:free")
				st.Kill("all:free")
			case isInts(x):
				st.Kill("took")
				st.Kill("added")
			}
		}
		armedLoop("free", isInts)(st, k, t)
		armedLoop("sum", func(t *Term) bool { return isInts(t) })(st, k, t)
		armedLoop("values", func(t *Term) bool { return isUtxos(t) && !given(st, t) })(st, k, t)
		switch {
		case k == 'F' && lastIs(t.CallName(), "IsConfidential"), k == 'T' && lastIs(t.CallName(), "IsRevealed"):
			st.Gen("known", t.CallArgs()[0])
		case k == 'T' && t.Op == "eq":
			for i := range t.Args {
				if lastIs(t.Args[i].CallName(), "Asset") && a.path(st, t.Args[1-i]) == "a2" {
					st.Gen("asset", t.Args[i].CallArgs()[0])
				}
			}
		case k == 'F' && t.Op == "eq":
			if elemOf(st, t.Args[0], isInts) || elemOf(st, t.Args[1], isInts) {
				st.Gen("did:free")
			}
		}
	}
	labelled := func(st *State, l string, x *Term) bool {
		return st.HasMatch('L', func(t *Term) bool { return t.Aux == l && len(t.Args) == 1 && t.Args[0] == x })
	}
	hook := e.hook
	nc, ns, ni := 0, 0, 0
	var coins []*Term
	e.hook = func(st *State, ev *Event) {
		hook(st, ev)
		switch {
		case ev.Kind == "append" && isUtxos(to(ev)):
			els := e.Elems(st, ev.Args[1])
			c.At(ev, "coins/list", a.name, len(els) > 0, "coins are added from elsewhere")
			for _, v := range els {
				if elemOf(st, v, func(t *Term) bool { return given(st, t) }) {
					nc++
					c.At(ev, "coins/asset", a.name, labelled(st, "asset", v), "a coin of another asset may be selected")
					c.At(ev, "coins/known", a.name, labelled(st, "known", v), "a coin whose amount is not known may be selected")
					continue
				}
				ok := elemOf(st, v, func(t *Term) bool { return isUtxos(t) && !given(st, t) }) && elemOf(st, v.Args[1], isInts)
				c.At(ev, "coins/chosen", a.name, ok && cands == v.Args[0] && st.Is("all:values"), "a coin is selected that was not chosen by its amount")
				coins = append(coins, v)
				ns++
				st.Gen("took")
				if st.Is("added") {
					st.Gen("did:sum")
				}
			}
		case ev.Kind == "arith":
			for _, x := range ev.Args {
				if lastIs(x.CallName(), "Value") && containsTerm(coins, x.CallArgs()[0]) || lastIs(x.CallName(), "Value") && elemOf(st, x.CallArgs()[0], func(t *Term) bool { return t == cands }) {
					st.Gen("added")
					if st.Is("took") {
						st.Gen("did:sum")
					}
				}
			}
		case ev.Kind == "call" && strings.HasPrefix(ev.Name, "sort."):
			st.Kill("all:values")
		case ev.Kind == "append" && isAmounts(to(ev)):
			for _, v := range e.Elems(st, ev.Args[1]) {
				if lastIs(v.CallName(), "Value") && elemOf(st, v.CallArgs()[0], isUtxos) {
					st.Gen("did:values")
					cands = v.CallArgs()[0].Args[0]
				}
			}
		case ev.Kind == "idxstore" && ev.Base != nil && isAmounts(ev.Base) && lastIs(ev.Val.CallName(), "Value"):
			if x := ev.Val.CallArgs()[0]; elemOf(st, x, isUtxos) && x.Args[1] == ev.Args[1] {
				st.Gen("did:values")
				cands = x.Args[0]
			}
		case ev.Kind == "call" && best[ev.Name] != nil:
			values = ev.Args[0]
			c.At(ev, "coins/values", a.name, st.Is("all:values"), "the amounts compared are not those of all the coins")
			c.At(ev, "coins/target", a.name, a.path(st, ev.Args[1]) == "a1", "the coins are selected for another amount")
		case ev.Kind == "append" && isInts(to(ev)):
			for _, i := range e.Elems(st, ev.Args[1]) {
				ni++
				eq := st.HasMatch('T', func(t *Term) bool {
					if t.Op != "eq" {
						return false
					}
					for k := range t.Args {
						x, y := t.Args[k], t.Args[1-k]
						if elemOf(st, x, isBestCall) && y.Op == "index" && y.Args[0] == values && y.Args[1] == i {
							return true
						}
					}
					return false
				})
				c.At(ev, "coins/amount", a.name, eq, "the coin selected is not of the amount chosen")
				c.At(ev, "coins/distinct", a.name, st.Is("all:free"), "the same coin may be selected twice")
			}
		case ev.Kind == "return" && ev.Frame.parent != nil:
			// a search that ends early is not the loop counting the coins
			if rs := ev.Frame.fn.Signature.Results(); rs.Len() == 1 && !isUtxos(&Term{Typ: rs.At(0).Type()}) {
				st.Gen("did:sum")
			}
			if len(ev.Res) != 1 || ev.Res[0].Typ == nil || ev.Res[0].Typ.String() != "bool" || !st.feasible(ev.Res[0], 'T') {
				return
			}
			good := st.lightClone()
			good.assume(ev.Res[0], 'T')
			ps := ev.Frame.fn.Signature.Params()
			for i := 0; i < ps.Len(); i++ {
				if isInts(&Term{Typ: ps.At(i).Type()}) {
					found := good.HasMatch('T', func(t *Term) bool {
						return t.Op == "eq" && (elemOf(st, t.Args[0], isInts) || elemOf(st, t.Args[1], isInts))
					})
					c.At(ev, "coins/taken", a.name, found, "a coin not selected yet is considered as selected")
				}
			}
		case ev.Kind == "return" && ev.Frame.parent == nil:
			_, good := outcomes(st, ev)
			if good == nil {
				return
			}
			any := good.HasMatch('F', func(t *Term) bool { return t.Op == "empty" && (isInts(t.Args[0]) || isUtxos(t.Args[0])) })
			c.At(ev, "coins/enough", a.name, any, "no coins may be returned as a success")
			_, list := chain(ev.Res[0])
			c.At(ev, "coins/result", a.name, list && good.Is("all:sum"), "the coins returned are not those chosen, or not all are counted")
			l := linear(ev.Res[1])
			ok := len(l) == 2
			for x, k := range l {
				switch {
				case x == nil:
					ok = false
				case k == -1:
					ok = ok && a.path(good, x) == "a1"
				case k == 1:
					for _, y := range alts(x) {
						if y.IsZero() {
							continue
						}
						sum := linear(y)
						one := len(sum) == 2
						for z, k := range sum {
							one = one && z != nil && k == 1 && (z == x || lastIs(z.CallName(), "Value") && elemOf(good, z.CallArgs()[0], isUtxos))
						}
						ok = ok && one
					}
				default:
					ok = false
				}
			}
			c.At(ev, "coins/change", a.name, ok, "the change is not what the coins exceed the target by")
		}
	}
	c.AnalyzeWith(e, fn, "", func(st *State, _ []*Term) {
		for _, l := range []string{"free", "sum", "values"} {
			st.Gen("did:" + l)
		}
	})
	c.Need("coins", nc, 1, "coins considered")
	c.Need("coins", ns, 1, "coins selected")
	c.Need("coins", ni, 1, "coins chosen by amount")
	c.Need("coins", len(best), 1, "functions combining amounts")
	// each combination covers the target
	for _, name := range sortedKeys(best) {
		f := best[name]
		e := NewEngine(c.P)
		sums := map[string]*ssa.Function{}
		rec := map[string]*ssa.Function{}
		e.inline = func(g *ssa.Function) bool {
			if isSum(g) {
				sums[fnName(g)] = g
				return false
			}
			if c.P.PkgRel(g) != pkg {
				return false
			}
			self := false
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if cl, ok := in.(ssa.CallInstruction); ok && cl.Common().StaticCallee() == g {
						self = true
					}
				}
			}
			if self {
				rec[fnName(g)] = g
			}
			return !self
		}
		e.hook = func(st *State, ev *Event) {
			if ev.Kind != "return" || ev.Frame.parent != nil {
				return
			}
			r := ev.Res[0]
			target := func(t *Term) bool { return t.Op == "param" && paramIdx(t) == 1 }
			ok := r.IsNil()
			els := e.Elems(st, r)
			if r.Op == "slice" && r.Args[0].Op == "alloc" {
				if p, isP := r.Args[0].Typ.Underlying().(*types.Pointer); isP {
					if ar, isA := p.Elem().Underlying().(*types.Array); isA && ar.Len() == 0 {
						ok = true
					}
				}
			}
			if r.Op == "make" && r.Args[0].IsZero() {
				ok = true
			}
			covers := func(sum func(*Term) bool) bool {
				return st.HasMatch('F', func(t *Term) bool { return t.Op == "lt" && sum(t.Args[0]) && target(t.Args[1]) }) ||
					st.HasMatch('T', func(t *Term) bool { return t.Op == "lt" && sum(t.Args[1]) && target(t.Args[0]) })
			}
			if !ok && len(els) == 1 {
				ok = covers(func(t *Term) bool { return t == els[0] }) && els[0].Op == "index" && els[0].Args[0].Op == "param"
			}
			if !ok {
				ok = covers(func(t *Term) bool {
					return t.Op == "call" && sums[t.CallName()] != nil && t.CallArgs()[0] == r
				})
			}
			c.At(ev, "combine/covers", name, ok, "the amounts returned may not cover the target")
		}
		c.Analyze(e, f)
		for _, sn := range sortedKeys(sums) {
			e := NewEngine(c.P)
			e.onAssume = func(st *State, k byte, t *Term) {
				armedLoop("add", func(t *Term) bool { return t.Op == "param" })(st, k, t)
			}
			e.hook = func(st *State, ev *Event) {
				switch {
				case ev.Kind == "arith":
					st.Gen("did:add")
				case ev.Kind == "return" && ev.Frame.parent == nil:
					ok := st.Is("all:add")
					for _, y := range alts(ev.Res[0]) {
						if y.IsZero() {
							continue
						}
						l := linear(y)
						one := len(l) == 2
						for z, k := range l {
							one = one && z != nil && k == 1 && (z == ev.Res[0] || z.Op == "index" && z.Args[0].Op == "param")
						}
						ok = ok && one
					}
					c.At(ev, "combine/sum", sn, ok, "the total is not the sum of the amounts")
				}
			}
			c.AnalyzeWith(e, sums[sn], "", func(st *State, _ []*Term) { st.Gen("did:add") })
		}
		for _, rn := range sortedKeys(rec) {
			// no amount is combined with itself
			g := rec[rn]
			e := NewEngine(c.P)
			e.inline = func(*ssa.Function) bool { return false }
			n := 0
			e.hook = func(st *State, ev *Event) {
				if ev.Kind != "call" || ev.Name != rn {
					return
				}
				var idx *Term
				for _, x := range ev.Args {
					if x.Op == "append" {
						for _, v := range e.Elems(st, x.Args[1]) {
							if v.Op == "index" && v.Args[0].Op == "param" {
								idx = v.Args[1]
							}
						}
					}
				}
				if idx == nil {
					return
				}
				n++
				ok := false
				for _, x := range ev.Args {
					l := minus(linear(x), linear(idx))
					ok = ok || len(l) == 1 && l[nil] == 1
				}
				c.At(ev, "combine/next", rn, ok, "an amount may be combined with itself")
			}
			c.Analyze(e, g)
			c.Need("combine", n, 1, "amounts combined with the following ones")
		}
	}
}
