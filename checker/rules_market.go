package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C09: the configuration of a market changes only through guarded operations.
func init() {
	rules["C09"] = func(c *Check) {
		c.Note("Every write of a market's configuration in the repository is enumerated; writes outside the market entity are violations, and each write inside it must be dominated by the guards of that change. The operator service is followed down to each storage operation with helpers and callbacks inlined.")
		c.Assume("decimal comparisons behave as documented; the explorer reports confirmations truthfully; the storage hands back the market it stored (see the storage properties)")
		nt := c.P.Named(dom, "Market")
		if nt == nil {
			c.Ob("anchor", "Market", false, "-", "the market entity is gone")
			return
		}
		c.marketWrites()
		for _, m := range c.methodsOf(nt) {
			c.marketMethod(m)
		}
		c.newMarket()
		c.marketOperator()
	}
}

// marketWrites: the configuration is written in the entity only.
func (c *Check) marketWrites() {
	n := 0
	for _, f := range c.P.Funcs {
		pkg := c.P.PkgRel(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fld, root := "", ssa.Value(nil)
				for a := s.Addr; ; {
					fa, ok := a.(*ssa.FieldAddr)
					if !ok {
						break
					}
					st, n := structOf(fa.X.Type())
					if n == "domain.Market" {
						fld, root = st.Field(fa.Field).Name(), fa.X
					}
					a = fa.X
				}
				if fld == "" {
					continue
				}
				n++
				okw := pkg == dom
				switch fld {
				case "AccountIndex", "Fee", "FixedFee", "BaseAsset", "QuoteAsset":
					// the template of a new market
					if _, lit := root.(*ssa.Alloc); lit && !strings.HasPrefix(pkg, "internal/infrastructure") {
						okw = true
					}
				case "Price", "Strategy":
					// the storage completes a loaded record
					okw = okw || strings.HasPrefix(pkg, "internal/infrastructure/storage/db/")
				}
				c.Ob("encapsulation", fnName(f)+"/"+fld, okw, c.P.Pos(s.Pos()), "the configuration of a market is written outside the market entity, past its guards")
			}
		}
	}
	c.Need("encapsulation", n, 10, "writes of a market's configuration")
}

// isZeroDec: the decimal zero.
func isZeroDec(t *Term) bool {
	if t == nil {
		return false
	}
	if t.Op == "zero" {
		return true
	}
	if t.Op == "gload" && lastIs(t.Aux, "Zero") {
		return true
	}
	if n := t.CallName(); lastIs(n, "NewFromInt", "NewFromInt32", "NewFromFloat", "New") && len(t.CallArgs()) > 0 {
		v, ok := t.CallArgs()[0].IntConst()
		return ok && v == 0
	}
	return false
}

// marketLabels derives what a branch says about the market's strategy and prices.
func (c *Check) marketLabels(st *State, k byte, t *Term) {
	isType := func(x *Term) bool {
		return x.IsField("marketmaking.MakingStrategy.Type") && x.Args[0].IsField("domain.Market.Strategy")
	}
	isPrice := func(x *Term) bool {
		return x.Contains(func(y *Term) bool {
			return y.IsField("domain.Prices.BasePrice") || y.IsField("domain.Prices.QuotePrice") || y.IsField("domain.Market.Price")
		})
	}
	c.pairLabels(st, k, t)
	unf := func(x *Term) bool {
		return x.IsField("domain.Market.BaseAsset") || x.IsField("domain.Market.QuoteAsset")
	}
	switch {
	case t.Op == "empty" && k == 'T' && unf(t.Args[0]):
		st.Gen("unfunded")
	case t.Op == "eq" && isType(t.Args[0]):
		v, ok := t.Args[1].IntConst()
		if !ok {
			return
		}
		if k == 'F' {
			st.Gen("type!=" + itoa(int(v)))
			if st.Is("type!=0") && st.Is("type!="+itoa(int(c.pluggableType()))) {
				st.Gen("openable")
			}
		} else if k == 'T' && v != 0 && v != c.pluggableType() {
			st.Gen("openable")
		}
	case t.Op == "eq" && k == 'F' && isPrice(t):
		if t.Args[0].IsField("domain.Prices.BasePrice") || t.Args[0].IsField("domain.Prices.QuotePrice") {
			st.Gen("openable")
		}
	case k == 'F' && lastIs(t.CallName(), "Equal", "Equals", "IsZero") && isDecimalPure(t.CallName()) && isPrice(t):
		st.Gen("openable")
	case k == 'T' && lastIs(t.CallName(), "IsPositive", "GreaterThan") && isDecimalPure(t.CallName()) && isPrice(t):
		st.Gen("openable")
	}
}

func (c *Check) pluggableType() int64 {
	v := c.P.constVal(dom, "PluggableStrategyType")
	if v == nil {
		c.Ob("anchor", "PluggableStrategyType", false, "-", "the pluggable strategy type is gone")
		return -1
	}
	n, _ := constant.Int64Val(v)
	return n
}

func mktField(st *State, k byte, f string) bool {
	return st.HasMatch(k, func(t *Term) bool {
		return t.IsField("domain.Market."+f) && paramIdx(t.Args[0]) == 0
	})
}

func (c *Check) marketMethod(m *ssa.Function) {
	mn := fnName(m)
	plug := c.pluggableType()
	funded := func(st *State) bool { return mktField(st, 'X', "BaseAsset") && mktField(st, 'X', "QuoteAsset") }
	closed := func(st *State) bool { return mktField(st, 'F', "Tradable") }
	nonNeg := func(st *State, t *Term) bool { lo, _ := st.Bounds(t); return lo != nil && *lo >= 0 }
	var e *Engine
	run := func(tag string, init func(*State, []*Term)) {
		e = c.Engine(func(st *State, ev *Event) {
			if ev.Frame.Root().fn != m {
				return
			}
			root := func() bool {
				b := ev.Base
				for b != nil && (b.Op == "faddr" || b.Op == "field") {
					b = b.Args[0]
				}
				return paramIdx(b) == 0
			}
			ob := func(rule string, ok bool, msg string) {
				if tag == "" {
					c.At(ev, rule, mn, ok, msg)
				}
			}
			switch ev.Kind {
			case "store":
				if !root() {
					return
				}
				switch ev.Name {
				case "domain.Market.Tradable":
					if v, ok := constBool(ev.Val); ok && !v {
						return
					}
					ob("open/funded", funded(st), "a market can be opened before both its assets are known")
					ob("open/priced", st.Is("openable"), "a market with a pluggable strategy can be opened without a price")
				case "domain.Market.Fee":
					lo, hi := st.Bounds(ev.Val)
					ob("fee/bounds", lo != nil && *lo >= 0 && hi != nil && *hi <= 9999, "a market fee is not checked to lie between 0 and 9999 basis points")
					ob("fee/value", paramIdx(ev.Val) > 0, "the fee set is not the one given")
					ob("fee/closed", closed(st), "the fee of a market is changed while it is open")
					ob("fee/funded", funded(st), "the fee of a market is changed before it is funded")
				case "domain.FixedFee.BaseFee", "domain.FixedFee.QuoteFee", "domain.Market.FixedFee":
					ob("fixed-fee/closed", closed(st), "the fixed fee of a market is changed while it is open")
					ob("fixed-fee/funded", funded(st), "the fixed fee of a market is changed before it is funded")
					b, q := ev.Val, ev.Val
					switch ev.Name {
					case "domain.FixedFee.BaseFee":
						st.Gen("base-set", b)
						c.fixedBase[m] = paramIdx(b)
					case "domain.FixedFee.QuoteFee":
						st.Gen("quote-set", q)
						c.fixedQuote[m] = paramIdx(q)
					default:
						nt, _ := elemOrSelf(ev.Val.Typ).Underlying().(*types.Struct)
						for i := 0; nt != nil && i < nt.NumFields(); i++ {
							f := e.structField(st, ev.Val, i, ev.Val.Typ)
							if nt.Field(i).Name() == "BaseFee" {
								b = f
								st.Gen("base-set", b)
								c.fixedBase[m] = paramIdx(b)
							} else {
								q = f
								st.Gen("quote-set", q)
								c.fixedQuote[m] = paramIdx(q)
							}
						}
					}
					ob("fixed-fee/bounds", nonNeg(st, b) && nonNeg(st, q), "a negative fixed fee is accepted")
					ob("fixed-fee/both", st.Is("pair+", b) && st.Is("pair-", b) && st.Is("pair+", q) && st.Is("pair-", q), "a fixed fee is accepted for only one of the assets")
				case "domain.Market.Strategy":
					ob("strategy/closed", closed(st), "the strategy of a market is changed while it is open")
					f := structFields(ev.Val)
					if v, ok := f["Type"].IntConst(); ok && v == plug {
						st.Gen("pluggable-set")
					} else if !ok {
						st.Gen("unknown-set")
					}
				case "domain.Prices.BasePrice", "domain.Prices.QuotePrice", "domain.Market.Price":
					s := st
					zeroB, zeroQ := isZeroDec(ev.Val), isZeroDec(ev.Val)
					if ev.Name == "domain.Market.Price" {
						f := structFields(ev.Val)
						zeroB, zeroQ = isZeroDec(f["BasePrice"]) || ev.Val.IsZero(), isZeroDec(f["QuotePrice"]) || ev.Val.IsZero()
					}
					if ev.Name != "domain.Prices.QuotePrice" && zeroB {
						s.Gen("base-zero")
					}
					if ev.Name != "domain.Prices.BasePrice" && zeroQ {
						s.Gen("quote-zero")
					}
					if !zeroB || !zeroQ {
						ob("price/funded", funded(st), "a price is set for a market that is not funded")
						if ev.Val.Op == "param" && paramIdx(ev.Val) > 0 {
							pn := strings.ToLower(ev.Last())
							other := "quote"
							if strings.HasPrefix(pn, "quote") {
								other = "base"
							}
							mnl := strings.ToLower(m.Name())
							own := strings.TrimSuffix(pn, "price")
							ob("price/role", strings.Contains(mnl, own) || !strings.Contains(mnl, other), "the "+other+" price setter writes the "+pn)
						}
					}
				case "domain.Market.BaseAsset", "domain.Market.QuoteAsset":
					c.fundAsset(st, ev, e, m, ob)
				case "domain.Market.AccountIndex":
					ob("account", false, "a market is moved to another account")
				}
			case "mapupdate":
				if len(ev.Args) > 1 && m.Name() == "FundMarket" {
					ob("fund/counted", ev.Args[1].IsField("domain.OutpointWithAsset.Asset"), "the funding outputs are not told apart by their asset")
				}
			case "return":
				if ev.Frame.parent != nil || len(ev.Res) != 1 || !isErrorType(m.Signature.Results().At(0).Type()) {
					return
				}
				s := st.given(func(s *State) bool { return s.assume(ev.Res[0], 'N') })
				if s == nil {
					return
				}
				if tag == "funded" {
					if s.Is("unknown-set") || s.Is("pluggable-set") {
						c.At(ev, "strategy/prices", mn, s.Is("base-zero") && s.Is("quote-zero"), "a market switched to the pluggable strategy keeps an old price, with which it could be opened")
					}
					if m.Name() == "ChangeFixedFee" {
						c.At(ev, "fixed-fee/complete", mn, s.HasLabel("base-set") && s.HasLabel("quote-set"), "only a part of the fixed fee is set")
						c.At(ev, "fixed-fee/distinct", mn, c.fixedBase[m] != c.fixedQuote[m], "both parts of the fixed fee are set to the same value")
					}
				}
			}
		})
		e.onAssume = c.marketLabels
		c.AnalyzeWith(e, m, tag, init)
	}
	run("", nil)
	run("funded", func(st *State, args []*Term) {
		v := e.load(st, args[0], elemOrSelf(args[0].Typ))
		s, _ := elemOrSelf(args[0].Typ).Underlying().(*types.Struct)
		for i := 0; s != nil && i < s.NumFields(); i++ {
			if n := s.Field(i).Name(); n == "BaseAsset" || n == "QuoteAsset" {
				st.assume(e.structField(st, v, i, elemOrSelf(args[0].Typ)), 'X')
			}
		}
	})
}

// pairLabels: what a branch says about two amounts of which both or none is
// set. pair+(x): x is positive or the other one is zero or ...; the labels of
// an amount hold on the branches that exclude "x>0 and other=0" (pair+) and
// "x=0 and other>0" (pair-).
func (c *Check) pairLabels(st *State, k byte, t *Term) {
	amount := func(x *Term) bool { return paramIdx(x) > 0 || x.Op == "field" && lastIs(x.Aux, "BaseFee", "QuoteFee") }
	each := func(f func(x *Term)) {
		fr := st.e.rootFr
		if fr == nil {
			return
		}
		for _, p := range fr.fn.Params {
			x := st.e.val(fr, p)
			if typeName(p.Type()) == "domain.FixedFee" {
				for i := 0; i < 2; i++ {
					f(st.e.structField(st, x, i, p.Type()))
				}
			} else if isIntLike(x) {
				f(x)
			}
		}
	}
	zero := func(x *Term) { // x = 0 (or less): excludes x>0 & other=0; for the others: excludes y=0 & x>0
		st.Gen("pair+", x)
		each(func(y *Term) {
			if y != x {
				st.Gen("pair-", y)
			}
		})
	}
	set := func(x *Term) { // x != 0: excludes x=0 & other>0; others: excludes y>0 & x=0
		st.Gen("pair-", x)
		each(func(y *Term) {
			if y != x {
				st.Gen("pair+", y)
			}
		})
	}
	switch t.Op {
	case "lt":
		if v, ok := t.Args[1].IntConst(); ok && amount(t.Args[0]) {
			if k == 'T' && v <= 1 {
				zero(t.Args[0])
			} else if k == 'F' && v >= 1 {
				set(t.Args[0])
			}
		}
	case "eq":
		if v, ok := t.Args[1].IntConst(); ok && v == 0 && amount(t.Args[0]) {
			if k == 'T' {
				zero(t.Args[0])
			} else if k == 'F' {
				set(t.Args[0])
			}
		} else if isBool(t.Args[0].Typ) && k == 'T' {
			// (x is zero) == (y is zero)
			a, b := t.Args[0], t.Args[1]
			for a.Op == "not" && b.Op == "not" {
				a, b = a.Args[0], b.Args[0]
			}
			if a.Op == b.Op && (a.Op == "eq" || a.Op == "lt") && a.Args[1] == b.Args[1] && amount(a.Args[0]) && amount(b.Args[0]) {
				for _, x := range []*Term{a.Args[0], b.Args[0]} {
					zero(x)
					set(x)
				}
			}
		}
	}
}

// fundAsset: the assets of a market are set once, from exactly two kinds of
// funds, the base one being the daemon's.
func (c *Check) fundAsset(st *State, ev *Event, e *Engine, m *ssa.Function, ob func(string, bool, string)) {
	base := e.val(ev.Frame.Root(), m.Params[len(m.Params)-1])
	ob("fund/once", st.Is("unfunded"), "the assets of a market that is already funded are changed")
	two, has := false, false
	st.Each(func(k byte, t *Term) bool {
		t.Contains(func(x *Term) bool {
			if x.Op == "len" {
				if lo, hi := st.Bounds(x); lo != nil && hi != nil && *lo == 2 && *hi == 2 {
					two = true
				}
			}
			return false
		})
		if k == 'T' && t.Op == "has" && t.Args[1] == base {
			has = true
		}
		return false
	})
	ob("fund/two", two, "a market is funded with something else than exactly two assets")
	ob("fund/base", has, "a market is funded without the base asset among the funds")
	eq := e.binop(st, token.EQL, ev.Val, base, types.Typ[types.Bool])
	if ev.Name == "domain.Market.BaseAsset" {
		ob("fund/base-value", ev.Val == base || st.Has('T', eq), "the base asset of a market is not the one of the daemon")
	} else {
		ob("fund/quote-value", ev.Val != base && st.Has('F', eq), "the quote asset of a market may be its base asset")
		ob("fund/quote-source", e.From(ev.Val, func(t *Term) bool {
			return t.IsField("domain.OutpointWithAsset.Asset") || t.Op == "range" || t.Op == "next"
		}), "the quote asset of a market is not one of the funds")
	}
}

// newMarket: a market starts closed, with a valid fee and account.
func (c *Check) newMarket() {
	n := 0
	for _, fn := range c.P.FuncsIn(dom) {
		if fn.Signature.Recv() != nil || fn.Signature.Results().Len() == 0 || typeName(elemOrSelf(fn.Signature.Results().At(0).Type())) != "domain.Market" {
			continue
		}
		n++
		name := fnName(fn)
		var e *Engine
		e = c.Engine(func(st *State, ev *Event) {
			if ev.Kind != "return" || ev.Frame.parent != nil || len(ev.Res) != 2 {
				return
			}
			s := st.given(func(s *State) bool { return s.assume(ev.Res[1], 'N') && s.assume(ev.Res[0], 'X') })
			if s == nil {
				return
			}
			f := structFields(e.load(s, ev.Res[0], elemOrSelf(ev.Res[0].Typ)))
			fee, acc := f["Fee"], f["AccountIndex"]
			lo, hi := (*int64)(nil), (*int64)(nil)
			if fee != nil {
				lo, hi = s.Bounds(fee)
			}
			c.At(ev, "new/fee", name, lo != nil && *lo >= 0 && hi != nil && *hi <= 9999, "a new market's fee is not checked to lie between 0 and 9999 basis points")
			c.At(ev, "new/fee-value", name, paramIdx(fee) == 1, "a new market does not get the given fee")
			lo = nil
			if acc != nil {
				lo, _ = s.Bounds(acc)
			}
			c.At(ev, "new/account", name, paramIdx(acc) == 0 && lo != nil && *lo >= 0, "a new market's account index is not checked")
			tr, ok := constBool(f["Tradable"])
			c.At(ev, "new/closed", name, ok && !tr || f["Tradable"] != nil && f["Tradable"].IsZero(), "a new market is open for trading")
		})
		c.Analyze(e, fn)
	}
	c.Need("new", n, 1, "constructors of a market")
}

// marketOperator: what the operator service does to a market.
func (c *Check) marketOperator() {
	nt := c.service("OperatorService", app)
	if nt == nil {
		return
	}
	var plug, bal int64 = -1, -1
	for n, p := range map[string]*int64{"StrategyTypePluggable": &plug, "StrategyTypeBalanced": &bal} {
		v := c.P.constVal(dom, n)
		if v == nil {
			c.Ob("anchor", n, false, "-", "the strategy constant is gone")
			return
		}
		*p, _ = constant.Int64Val(v)
	}
	// only what leads to a market operation is followed, besides small helpers
	isOp := func(name string) bool {
		if strings.HasPrefix(name, "domain.MarketRepository.") {
			return !strings.HasPrefix(lastPart(name), "Get")
		}
		return strings.HasPrefix(name, "domain.Market.") && !strings.HasPrefix(lastPart(name), "Is") && !strings.HasSuffix(name, "Price") || lastIs(name, "Market.ChangeBasePrice", "Market.ChangeQuotePrice")
	}
	small := func(f *ssa.Function) bool {
		n := 0
		for _, b := range f.Blocks {
			n += len(b.Instrs)
		}
		return n < 120
	}
	inline := func(f *ssa.Function) bool {
		return entityOpaque(f) && (c.P.PkgRel(f) == app && (f.Parent() != nil || small(f) || f.Name() == "claimDeposit") || strings.HasPrefix(c.P.PkgRel(f), "internal/core/domain"))
	}
	ops := 0
	for _, fn := range c.P.exportedMethods(nt) {
		fn := fn
		has := false
		c.P.reach(fn, func(name string) {
			if isOp(name) {
				has = true
			}
		})
		if !has {
			continue
		}
		name := fn.Name()
		spill := map[*Term]bool{} // locals holding a parameter
		fromReq := func(t *Term) bool {
			return t.Any(func(x *Term) bool {
				for x.Op == "field" {
					x = x.Args[0]
				}
				return x.Op == "param" || spill[x]
			})
		}
		isReq := func(t *Term, role string) bool { // the asset of the request with the given role
			if t == nil {
				return false
			}
			if t.Op == "param" && isStr(t.Typ) {
				return strings.HasPrefix(strings.ToLower(t.Aux), role)
			}
			return t.Op == "field" && strings.HasPrefix(strings.ToLower(lastPart(t.Aux)), role+"asset") && fromReq(t.Args[0])
		}
		valid := func(st *State, role string) bool {
			return st.Each(func(k byte, t *Term) bool { return k == 'L' && t.Aux == "asset-valid" && isReq(t.Args[0], role) })
		}
		ours := func(st *State) bool {
			return st.HasMatch('T', func(t *Term) bool {
				if t.Op != "eq" {
					return false
				}
				a, b := t.Args[0], t.Args[1]
				if isReq(b, "base") {
					a, b = b, a
				}
				return isReq(a, "base") && b.Op == "field" && lastIs(b.Aux, "marketBaseAsset")
			})
		}
		var e *Engine
		hook := func(st *State, ev *Event) {
			switch ev.Kind {
			case "pstore":
				if ev.Base != nil && ev.Base.Op == "alloc" && ev.Val != nil {
					old, had := spill[ev.Base]
					spill[ev.Base] = ev.Val.Op == "param" && (!had || old)
				}
			case "after":
				n := len(ev.Res)
				if strings.HasPrefix(ev.Name, "domain.VaultRepository.") && n > 0 && isErrorType(ev.Res[n-1].Typ) {
					for _, a := range ev.Args[1:] {
						v := c.P.constVal(dom, "FeeAccount")
						if x, ok := a.IntConst(); ok && v != nil {
							if f, _ := constant.Int64Val(v); f == x {
								st.CondGen('N', ev.Res[n-1], "fee-account")
							}
						}
					}
				}
				if lastIs(ev.Name, "Explorer.IsTransactionConfirmed", "Service.IsTransactionConfirmed") && n == 2 {
					st.CondGen('T', ev.Res[0], "confirmed", ev.Args[len(ev.Args)-1])
				}
			case "idxstore", "append":
				// the funds credited to a market
				v := ev.Val
				if ev.Kind == "append" {
					return
				}
				f := structFields(v)
				if v == nil || typeName(v.Typ) != "domain.Unspent" || f["TxID"] == nil {
					return
				}
				ob := func(rule string, ok bool, msg string) { c.At(ev, rule, name, ok, msg) }
				ob("claim/confirmed", st.Is("confirmed", f["TxID"]), "a deposit is credited before its transaction is confirmed")
				un := func(t *Term, fld string) bool {
					return t != nil && t.Op == "field" && lastIs(t.Aux, fld) && t.Args[0].Op == "extract" && lastIs(t.Args[0].CallName(), "UnblindOutput") && st.HasMatch('T', func(x *Term) bool {
						return x.Op == "extract" && x.Args[0] == t.Args[0].Args[0]
					})
				}
				ob("claim/unblinded", un(f["AssetHash"], "AssetHash") && un(f["Value"], "Value"), "the asset and value of a deposit are not those of the unblinded output")
				if un(f["AssetHash"], "AssetHash") {
					call := f["AssetHash"].Args[0].Args[0]
					a := call.CallArgs()
					out, key := a[len(a)-2], a[len(a)-1]
					ob("claim/output", e.From(out, func(t *Term) bool { return t == f["TxID"] || t.Contains(func(x *Term) bool { return x == f["TxID"] }) }), "a deposit is unblinded from another transaction than the one credited")
					// the script of that very output belongs to a known address
					known := key.Contains(func(t *Term) bool {
						return t.Op == "lookup" && t.Args[1].Contains(func(x *Term) bool { return x.Op == "field" && lastIs(x.Aux, "Script") && x.Args[0] == out })
					})
					ob("claim/owned", known, "a deposit is credited although its output pays to an unknown script")
				}
			case "call":
				if ev.Async || !isOp(ev.Name) {
					return
				}
				ops++
				ob := func(rule string, ok bool, msg string) { c.At(ev, rule, name, ok, msg) }
				op := ev.Last()
				if strings.HasPrefix(ev.Name, "domain.Market.") {
					if ev.Args[0].Op != "cbparam" {
						ob("update/target", false, "a market is changed outside of an update of the stored record")
					}
					fld := func(t *Term, n string) bool {
						return t != nil && t.Op == "field" && lastIs(t.Aux, n) && fromReq(t)
					}
					strat := func(v int64) bool {
						return st.HasMatch('T', func(t *Term) bool {
							if t.Op != "eq" {
								return false
							}
							n, ok := t.Args[1].IntConst()
							return ok && n == v && fld(t.Args[0], "Strategy")
						})
					}
					switch op {
					case "ChangeFeeBasisPoint":
						ob("fee/request", fld(ev.Args[1], "BasisPoint"), "the percentage fee set is not the requested one")
					case "ChangeFixedFee":
						var callee *ssa.Function
						if ci, ok := ev.Instr.(ssa.CallInstruction); ok {
							callee = ci.Common().StaticCallee()
						}
						b, q := c.fixedBase[callee], c.fixedQuote[callee]
						ok := b > 0 && q > 0 && b < len(ev.Args) && q < len(ev.Args)
						ob("fixed-fee/request", ok && fld(ev.Args[b], "FixedBaseFee") && fld(ev.Args[q], "FixedQuoteFee"), "the fixed fees set are not the requested ones")
					case "MakeStrategyPluggable":
						ob("strategy/request", strat(plug), "a market is made pluggable without that being requested")
					case "MakeStrategyBalanced":
						ob("strategy/request", strat(bal), "a market is made balanced without that being requested")
					case "FundMarket":
						ob("fund/base-asset", ev.Args[2].Op == "field" && lastIs(ev.Args[2].Aux, "marketBaseAsset"), "a market is funded with another base asset than the daemon's")
						all := st.HasMatch('T', func(t *Term) bool {
							return t.Op == "eq" && t.Contains(func(x *Term) bool { return x.Op == "len" && x.Args[0].Op == "param" }) && t.Contains(func(x *Term) bool { return x.Op == "next" })
						})
						ob("claim/all", all, "a market is funded although not all the given outpoints belong to it")
						src := e.From(ev.Args[1], func(t *Term) bool {
							return t.IsField("domain.Unspent.AssetHash") || t.Op == "field" && lastIs(t.Aux, "AssetHash")
						})
						ob("claim/assets", src, "a market is not funded with the assets of the claimed outputs")
					}
					return
				}
				if op == "GetOrCreateMarket" {
					return
				}
				if op == "DeleteMarket" {
					ob("delete/account", paramIdx(ev.Args[2]) == 2, "another market is dropped than the requested one")
					return
				}
				if op == "UpdateMarket" && e.From(ev.Args[2], func(t *Term) bool {
					return t.Op == "next" || t.IsField("domain.AddressInfo.AccountIndex")
				}) {
					return // funding, see above
				}
				ob("guard/base-asset", ours(st), "a market operation is not limited to the base asset of the daemon")
				ob("guard/base-valid", valid(st, "base"), "a market operation does not validate the base asset")
				ob("guard/quote-valid", valid(st, "quote"), "a market operation does not validate the quote asset")
				switch op {
				case "OpenMarket", "CloseMarket":
					ob("guard/target", isReq(ev.Args[2], "quote"), "another market is opened or closed than the requested one")
					if op == "OpenMarket" {
						ob("open/fee-account", st.Is("fee-account"), "a market can be opened before the fee account has any address")
					}
				case "UpdateMarket", "UpdatePrices":
					x := ev.Args[2]
					found := x.Op == "extract" && x.Aux == "1" && lastIs(x.CallName(), "MarketRepository.GetMarketByAsset") && isReq(x.CallArgs()[2], "quote")
					ob("guard/target", found, "another market is changed than the requested one")
					lo, _ := st.Bounds(x)
					exists := lo != nil && *lo >= 0 || st.HasMatch('F', func(t *Term) bool {
						if t.Op != "eq" || t.Args[0] != x {
							return false
						}
						n, ok := t.Args[1].IntConst()
						return ok && n == -1
					}) || st.HasMatch('X', func(t *Term) bool {
						return t.Op == "extract" && t.Aux == "0" && len(x.Args) > 0 && t.Args[0] == x.Args[0]
					})
					ob("guard/exists", exists, "a market that does not exist is changed")
					if op == "UpdatePrices" {
						f := structFields(ev.Args[3])
						for _, r := range []string{"BasePrice", "QuotePrice"} {
							v := f[r]
							ob("price/request-"+r, v != nil && v.Op == "field" && lastIs(v.Aux, r), "the "+r+" set is not the requested one")
							ob("price/positive-"+r, v != nil && st.Is("nonzero", v) && st.Is("nonneg", v), "the "+r+" of a market is not checked to be positive")
						}
					}
				}
			}
		}
		e = c.Engine(hook)
		e.inline = inline
		e.onAssume = func(st *State, k byte, t *Term) {
			n := t.CallName()
			switch {
			case k == 'T' && t.Op == "extract" && lastIs(n, "regexp.Match", "regexp.MatchString") && len(t.CallArgs()) == 2:
				c.validAsset(st, t.CallArgs()[0], t.CallArgs()[1])
			case k == 'T' && t.Op == "call" && lastIs(n, "Regexp.MatchString", "Regexp.Match") && len(t.CallArgs()) == 2:
				c.validAsset(st, t.CallArgs()[0], t.CallArgs()[1])
			case isDecimalPure(n) && len(t.CallArgs()) > 0:
				x := t.CallArgs()[0]
				switch {
				case k == 'F' && lastIs(n, "IsZero"):
					st.Gen("nonzero", x)
				case k == 'F' && lastIs(n, "IsNegative"):
					st.Gen("nonneg", x)
				case k == 'T' && lastIs(n, "IsPositive"), k == 'T' && lastIs(n, "GreaterThan") && isZeroDec(t.CallArgs()[1]), k == 'F' && lastIs(n, "LessThanOrEqual") && isZeroDec(t.CallArgs()[1]):
					st.Gen("nonneg", x)
					st.Gen("nonzero", x)
				case k == 'F' && lastIs(n, "LessThan") && isZeroDec(t.CallArgs()[1]), k == 'T' && lastIs(n, "GreaterThanOrEqual") && isZeroDec(t.CallArgs()[1]):
					st.Gen("nonneg", x)
				case k == 'F' && lastIs(n, "Equal") && isZeroDec(t.CallArgs()[1]):
					st.Gen("nonzero", x)
				}
			case t.Op == "lt" && isDecimalPure(t.Args[0].CallName()) && lastIs(t.Args[0].CallName(), "Sign", "Cmp"):
				a := t.Args[0].CallArgs()
				v, ok := t.Args[1].IntConst()
				if !ok || k != 'F' || len(a) == 2 && !isZeroDec(a[1]) {
					return
				}
				if v >= 0 {
					st.Gen("nonneg", a[0])
				}
				if v >= 1 {
					st.Gen("nonzero", a[0])
				}
			}
		}
		c.Analyze(e, fn)
		c.inline = inline
		c.errPropagated("errors", name, fn, func(ev *Event) bool { return isOp(ev.Name) && !ev.Async }, nil, nil)
		c.inline = nil
	}
	c.Need("operator", ops, 10, "market operations of the operator service")
}

// validAsset: a match of the pattern makes x an asset hash. The pattern is
// judged by what it matches.
func (c *Check) validAsset(st *State, pat, x *Term) {
	for x.Op == "conv" && len(x.Args) == 1 {
		x = x.Args[0]
	}
	s, ok := pat.StrConst()
	if !ok && pat.Op == "gload" {
		s, ok = c.globalPattern(pat.Aux)
	}
	if !ok && lastIs(pat.CallName(), "MustCompile", "Compile") {
		s, ok = pat.CallArgs()[0].StrConst()
	}
	if !ok {
		st.Gen("asset-valid", x)
		return
	}
	re, err := regexp.Compile(s)
	h := strings.Repeat("0123456789abcdef", 4)
	good := err == nil && re.MatchString(h)
	for _, bad := range []string{"", h[:63], h[:63] + "g", h[:40], "btc", h + "0", "x" + h, h + "\n", " " + h, h + h} {
		good = good && !re.MatchString(bad)
	}
	c.Ob("asset-pattern", "pattern", good, "-", "the pattern of an asset hash accepts something else than 64 hexadecimal digits")
	st.Gen("asset-valid", x)
}

// globalPattern: the pattern a package level regular expression is compiled from.
func (c *Check) globalPattern(name string) (string, bool) {
	for _, f := range c.P.FuncsIn(app) {
		if f.Name() != "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := s.Addr.(*ssa.Global)
				if !ok || globalName(g) != name {
					continue
				}
				if call, ok := s.Val.(*ssa.Call); ok && len(call.Call.Args) > 0 {
					if k, ok := call.Call.Args[0].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
						return constant.StringVal(k.Value), true
					}
				}
			}
		}
	}
	return "", false
}

func lastPart(n string) string { return n[strings.LastIndex(n, ".")+1:] }

// reach visits the names of everything called by fn and by the functions of
// its package it refers to.
func (p *Prog) reach(fn *ssa.Function, f func(name string)) {
	seen := map[*ssa.Function]bool{}
	var walk func(x *ssa.Function)
	walk = func(x *ssa.Function) {
		if seen[x] {
			return
		}
		seen[x] = true
		for _, b := range x.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					cm := ci.Common()
					if cm.IsInvoke() {
						f(typeName(cm.Value.Type()) + "." + cm.Method.Name())
					} else if s := cm.StaticCallee(); s != nil {
						f(fnName(s))
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && p.PkgRel(g) == p.PkgRel(fn) {
						walk(g)
					}
				}
			}
		}
	}
	walk(fn)
}

// role of a name in a pair: base or quote, and the rest of the name.
func role(n string) (string, string) {
	m := roleWord.FindAllStringSubmatch(n, -1)
	if len(m) != 1 {
		return "", ""
	}
	l := strings.ToLower(roleWord.ReplaceAllString(n, "$1$3"))
	return strings.ToLower(m[0][2]), strings.TrimPrefix(l, "get")
}

// a whole word of a camel case name
var roleWord = regexp.MustCompile(`(^|[a-z])(Base|Quote|base|quote)([A-Z_]|$)`)

// valueName: the field or getter a value is read from.
func valueName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		return valueName(x.X)
	case *ssa.Convert:
		return valueName(x.X)
	case *ssa.ChangeType:
		return valueName(x.X)
	case *ssa.FieldAddr:
		st, _ := structOf(x.X.Type())
		return st.Field(x.Field).Name()
	case *ssa.Field:
		st, _ := structOf(x.X.Type())
		return st.Field(x.Field).Name()
	case *ssa.Call:
		cm := x.Common()
		if cm.IsInvoke() {
			if len(cm.Args) == 0 {
				return cm.Method.Name()
			}
		} else if f := cm.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(cm.Args) == 1 {
			return f.Name()
		}
		// conversions of a single value
		if !cm.IsInvoke() && len(cm.Args) >= 1 {
			if f := cm.StaticCallee(); f != nil && (strings.HasPrefix(f.Name(), "New") || lastIs(f.Name(), "String", "Float64", "InexactFloat64")) {
				return valueName(cm.Args[0])
			}
		}
	case *ssa.Extract:
		return valueName(x.Tuple)
	}
	return ""
}
