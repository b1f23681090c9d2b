package main

import (
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// rat is a rational function over atoms: the normal form of a price formula.
// Rounding to an integer is left out.
type rat struct{ n, d bpoly }

type bpoly map[string]*big.Int

func bconst(c int64) bpoly {
	if c == 0 {
		return bpoly{}
	}
	return bpoly{"": big.NewInt(c)}
}

func (p bpoly) add(q bpoly, k int64) bpoly {
	r := bpoly{}
	for m, c := range p {
		r[m] = new(big.Int).Set(c)
	}
	for m, c := range q {
		x := new(big.Int).Mul(c, big.NewInt(k))
		if r[m] == nil {
			r[m] = x
		} else {
			r[m] = x.Add(x, r[m])
		}
	}
	return r.norm()
}

func (p bpoly) norm() bpoly {
	for m, c := range p {
		if c.Sign() == 0 {
			delete(p, m)
		}
	}
	return p
}

func (p bpoly) mul(q bpoly) bpoly {
	r := bpoly{}
	for m, c := range p {
		for n, d := range q {
			k := monoMul(m, n)
			x := new(big.Int).Mul(c, d)
			if r[k] != nil {
				x.Add(x, r[k])
			}
			r[k] = x
		}
	}
	return r.norm()
}

func (p bpoly) eq(q bpoly) bool { return len(p.add(q, -1)) == 0 }

func (a rat) add(b rat, k int64) rat { return rat{a.n.mul(b.d).add(b.n.mul(a.d), k), a.d.mul(b.d)} }
func (a rat) mul(b rat) rat          { return rat{a.n.mul(b.n), a.d.mul(b.d)} }
func (a rat) div(b rat) rat          { return rat{a.n.mul(b.d), a.d.mul(b.n)} }
func (a rat) eq(b rat) bool          { return a.n.mul(b.d).eq(b.n.mul(a.d)) }

func ratAtom(t *Term) rat { return rat{bpoly{itoa(t.ID): big.NewInt(1)}, bconst(1)} }
func ratInt(c int64) rat  { return rat{bconst(c), bconst(1)} }

// ratOf normalises decimal, big and machine integer arithmetic.
func ratOf(t *Term) rat {
	if c, ok := t.IntConst(); ok {
		return ratInt(c)
	}
	a := t.CallArgs()
	n := t.CallName()
	last := lastPart(n)
	switch {
	case strings.HasPrefix(n, "decimal.") && t.Op == "call":
		switch last {
		case "NewFromInt", "NewFromInt32", "NewFromBigInt", "BigInt", "IntPart", "Floor", "Truncate", "Round", "RoundBank", "Ceil", "Copy":
			if last == "NewFromBigInt" {
				if e, ok := a[1].IntConst(); !ok || e != 0 {
					break
				}
			}
			return ratOf(a[0])
		case "Add":
			return ratOf(a[0]).add(ratOf(a[1]), 1)
		case "Sub":
			return ratOf(a[0]).add(ratOf(a[1]), -1)
		case "Mul":
			return ratOf(a[0]).mul(ratOf(a[1]))
		case "Div", "DivRound":
			return ratOf(a[0]).div(ratOf(a[1]))
		case "Neg":
			return ratInt(0).add(ratOf(a[0]), -1)
		}
	case strings.HasPrefix(n, "big.") && t.Op == "call":
		switch last {
		case "Uint64", "Int64", "NewInt":
			return ratOf(a[0])
		case "SetUint64", "SetInt64", "Set":
			return ratOf(a[1])
		case "Add":
			return ratOf(a[1]).add(ratOf(a[2]), 1)
		case "Sub":
			return ratOf(a[1]).add(ratOf(a[2]), -1)
		case "Mul":
			return ratOf(a[1]).mul(ratOf(a[2]))
		case "Div", "Quo":
			return ratOf(a[1]).div(ratOf(a[2]))
		}
	case t.Op == "bin" && len(t.Args) == 2:
		x, y := t.Args[0], t.Args[1]
		switch t.Aux {
		case "+":
			return ratOf(x).add(ratOf(y), 1)
		case "-":
			return ratOf(x).add(ratOf(y), -1)
		case "*":
			return ratOf(x).mul(ratOf(y))
		case "/":
			return ratOf(x).div(ratOf(y))
		}
	}
	return ratAtom(t)
}

// C10: quotes and previews of a market.
func init() {
	rules["C10"] = func(c *Check) {
		c.Note("The preview of a market is analysed once per direction of the trade, kind of the given asset and kind of strategy; price formulas are compared as rational functions of their inputs; every assignment between fields of a base/quote pair in the repository is enumerated.")
		c.Assume("rounding of the amounts to whole units is not judged; balances reported by the storage are those of the account (see the storage and utxo properties)")
		nt := c.P.Named(dom, "Market")
		if nt == nil {
			c.Ob("anchor", "Market", false, "-", "the market entity is gone")
			return
		}
		c.previewEntity(nt)
		c.formulas()
		c.fees()
		c.quotes()
		c.roles()
		c.recordedPrice()
	}
}

func (c *Check) previewEntity(nt *types.Named) {
	fn := c.P.Method(nt, "Preview")
	if fn == nil || len(fn.Params) != 6 {
		c.Ob("anchor", "Preview", false, "-", "the preview of a market is gone")
		return
	}
	plug := c.pluggableType()
	isFormula := func(n string) string {
		l := lastPart(n)
		for _, k := range []string{"InGivenOut", "OutGivenIn", "SpotPrice"} {
			if strings.HasPrefix(l, k) {
				return k
			}
		}
		return ""
	}
	for _, kind := range []string{"pluggable", "balanced"} {
		for _, buy := range []bool{true, false} {
			for _, base := range []bool{true, false} {
				tag := kind + "/sell"
				if buy {
					tag = kind + "/buy"
				}
				given, other := "Quote", "Base"
				if base {
					given, other = "Base", "Quote"
				}
				tag += "/" + strings.ToLower(given)
				in := buy == base // the amount given leaves the market: what goes in is computed
				want := "OutGivenIn"
				if in {
					want = "InGivenOut"
				}
				var e *Engine
				var mterm, bb, qb, amt *Term
				isM := func(t *Term, f string) bool {
					return t != nil && t.Op == "field" && lastIs(t.Aux, f) && func() bool {
						x := t
						for x.Op == "field" {
							x = x.Args[0]
						}
						return x == mterm
					}()
				}
				formulaOf := func(ev *Event) string {
					if k := isFormula(ev.Name); k != "" {
						return k
					}
					ci, ok := ev.Instr.(ssa.CallInstruction)
					if !ok || ev.Name != "dynamic" || ci.Common().IsInvoke() {
						return ""
					}
					v := e.val(ev.Frame, ci.Common().Value)
					if v.Fn != nil {
						return isFormula(fnName(v.Fn))
					}
					k, same := "", true
					v.Any(func(t *Term) bool {
						if t.Op != "phi" {
							n := ""
							if t.Fn != nil {
								n = isFormula(fnName(t.Fn))
							}
							if k == "" {
								k = n
							} else if k != n {
								same = false
							}
						}
						return false
					})
					if !same {
						return "?"
					}
					return k
				}
				optsOf := func(ev *Event) map[string]*Term {
					for _, a := range ev.Args {
						if f := structFields(a); len(f) > 0 && f["BalanceIn"] != nil {
							return f
						}
					}
					return nil
				}
				eqDec := func(t *Term, f string) bool { // the market's price f, or zero when it has none
					n := 0
					ok := t.All(func(x *Term) bool {
						if isM(x, f) {
							n++
							return true
						}
						return isZeroDec(x)
					})
					return ok && n > 0
				}
				successes := 0
				e = c.Engine(func(st *State, ev *Event) {
					ob := func(rule string, ok bool, msg string) { c.At(ev, rule, tag, ok, msg) }
					switch ev.Kind {
					case "call":
						k := formulaOf(ev)
						if k == "" || k == "SpotPrice" {
							return
						}
						ob("formula", k == want, "the amount is computed in the wrong direction")
						o := optsOf(ev)
						bin, bout := bb, qb
						if buy {
							bin, bout = qb, bb
						}
						ob("opts/balances", o != nil && o["BalanceIn"] == bin && o["BalanceOut"] == bout, "the reserves are swapped in the computation of the amount")
						ob("opts/fee", o != nil && isM(o["Fee"], "Fee"), "the amount is not computed with the market's percentage fee")
						if kind == "pluggable" {
							ob("opts/price", o != nil && o["Price"] != nil && eqDec(o["Price"], other+"Price"), "the amount is not computed with the price of the given asset")
						} else {
							v := o["ChargeFeeOnTheWayIn"]
							b, ok := constBool(v)
							ob("opts/way", ok && b, "the fee is not charged on the incoming amount")
						}
						ob("opts/amount", ev.Args[len(ev.Args)-1] == amt, "the amount computed is not that of the request")
					case "after":
						k := formulaOf(ev)
						if k != "" && len(ev.Res) == 2 {
							if k == "SpotPrice" {
								o := optsOf(ev)
								if o != nil {
									st.Gen("spot", ev.Res[0], o["BalanceIn"], o["BalanceOut"])
								}
							} else {
								st.Gen("computed", ev.Res[0])
							}
						}
					case "return":
						if ev.Frame.parent != nil {
							return
						}
						s := st.given(func(s *State) bool { return s.assume(ev.Res[1], 'N') && s.assume(ev.Res[0], 'X') })
						if s == nil {
							return
						}
						successes++
						ob("tradable", mktField(s, 'T', "Tradable"), "a price is offered for a market that is closed")
						f := structFields(e.load(s, ev.Res[0], elemOrSelf(ev.Res[0].Typ)))
						ob("asset", isM(f["Asset"], other+"Asset"), "the amount is reported for the wrong asset")
						fee := func(t *Term, r string) bool { return isM(t, r+"Fee") && t.Args[0].IsField("domain.Market.FixedFee") }
						// the amount given covers the fixed fee of its asset
						low := s.HasMatch('F', func(t *Term) bool { return t.Op == "lt" && t.Args[0] == amt && fee(t.Args[1], given) }) ||
							s.HasMatch('T', func(t *Term) bool { return t.Op == "lt" && t.Args[1] == amt && fee(t.Args[0], given) })
						ob("minimum", low, "an amount lower than the fixed fee of its asset is priced")
						// the fixed fee of the other asset goes to the market
						v := f["Amount"]
						res := (*Term)(nil)
						s.Each(func(k byte, t *Term) bool {
							if k == 'L' && t.Aux == "computed" {
								res = t.Args[0]
							}
							return false
						})
						if v == nil || res == nil {
							ob("fixed-fee", false, "the amount is not that computed by the strategy")
						} else {
							var ft *Term
							v.Contains(func(t *Term) bool {
								if fee(t, other) {
									ft = t
								}
								return false
							})
							k := int64(-1)
							if in {
								k = 1
							}
							ob("fixed-fee", ft != nil && ratOf(v).eq(ratOf(res).add(ratOf(ft), k)), "the fixed fee of the other asset is not charged in favour of the market")
							if !in && ft != nil {
								bal := bb
								if base {
									bal = qb
								}
								pos := s.HasMatch('T', func(t *Term) bool { return t.Op == "lt" && t.Args[0] == ft && t.Args[1] == res }) ||
									s.HasMatch('F', func(t *Term) bool { return t.Op == "lt" && t.Args[1] == ft && t.Args[0] == res }) && nonZero(s, v)
								ob("fixed-fee/covered", pos, "the fixed fee can exceed the amount it is taken from")
								max := s.HasMatch('T', func(t *Term) bool {
									return t.Op == "lt" && t.Args[1] == bal && (t.Args[0] == v || t.Args[0] == res)
								})
								ob("balance", max, "an amount larger than the market's reserve can be offered")
							}
						}
						p := f["Price"]
						if kind == "pluggable" {
							pf := structFields(p)
							ok := isM(p, "Price") || len(pf) > 0 && eqDec(pf["BasePrice"], "BasePrice") && eqDec(pf["QuotePrice"], "QuotePrice")
							ob("price", ok, "the price reported is not that set for the market")
						} else {
							pf := structFields(p)
							ok := pf["BasePrice"] != nil && s.Is("spot", pf["BasePrice"], qb, bb) && s.Is("spot", pf["QuotePrice"], bb, qb)
							ob("price", ok, "the price reported is not the spot price of the reserves")
						}
					}
				})
				e.inline = func(f *ssa.Function) bool { return isFormula(fnName(f)) == "" }
				c.AnalyzeWith(e, fn, tag, func(st *State, args []*Term) {
					mterm, bb, qb, amt = args[0], args[1], args[2], args[3]
					k := func(b bool) byte {
						if b {
							return 'T'
						}
						return 'F'
					}
					st.assume(args[4], k(base))
					st.assume(args[5], k(buy))
					mv := e.load(st, args[0], elemOrSelf(args[0].Typ))
					ms, _ := elemOrSelf(args[0].Typ).Underlying().(*types.Struct)
					for i := 0; i < ms.NumFields(); i++ {
						if ms.Field(i).Name() != "Strategy" {
							continue
						}
						sv := e.structField(st, mv, i, elemOrSelf(args[0].Typ))
						ss, _ := ms.Field(i).Type().Underlying().(*types.Struct)
						for j := 0; j < ss.NumFields(); j++ {
							if ss.Field(j).Name() == "Type" {
								tv := e.structField(st, sv, j, ms.Field(i).Type())
								eq := func(n int64) *Term {
									return e.tab.mk("eq", "", types.Typ[types.Bool], tv, e.tab.constant(constant.MakeInt64(n), tv.Typ))
								}
								st.assume(eq(0), 'F')
								st.assume(eq(plug), k(kind == "pluggable"))
							}
						}
					}
				})
				c.Need("preview/"+tag, successes, 1, "ways to price an amount")
			}
		}
	}
}

// formulas: what the strategies compute.
func (c *Check) formulas() {
	it := c.P.Iface("pkg/marketmaking", "MakingFormula")
	if it == nil {
		c.Ob("anchor", "MakingFormula", false, "-", "the strategy interface is gone")
		return
	}
	n := 0
	for _, nt := range c.P.Impls(it) {
		tn := typeName(nt)
		plug := strings.Contains(tn, "Pluggable")
		for _, mn := range []string{"InGivenOut", "OutGivenIn", "SpotPrice"} {
			fn := c.P.Method(nt, mn)
			if fn == nil || mn == "SpotPrice" && plug {
				continue
			}
			in := mn == "InGivenOut"
			for _, way := range []bool{true, false} {
				if (plug || mn == "SpotPrice") && !way {
					continue
				}
				tag := tn + "." + mn
				if !plug && mn != "SpotPrice" && !way {
					tag += "/fee-out"
				}
				n++
				var e *Engine
				rets := 0
				var opts, amt *Term
				field := func(t *Term, f string) bool {
					return t.Op == "field" && lastIs(t.Aux, f) && t.Contains(func(x *Term) bool { return x == opts })
				}
				e = c.Engine(func(st *State, ev *Event) {
					if ev.Kind != "return" || ev.Frame.parent != nil || len(ev.Res) != 2 {
						return
					}
					s := st.given(func(s *State) bool { return s.assume(ev.Res[1], 'N') })
					if s == nil {
						return
					}
					rets++
					ob := func(rule string, ok bool, msg string) { c.At(ev, rule, tag, ok, msg) }
					// inputs as they occur
					var fee, bin, bout, price *Term
					find := func(t *Term) {
						if t == nil {
							return
						}
						t.Contains(func(x *Term) bool {
							switch {
							case field(x, "Fee"):
								fee = x
							case field(x, "BalanceIn"):
								bin = x
							case field(x, "BalanceOut"):
								bout = x
							case field(x, "Price"):
								price = x
							}
							return false
						})
					}
					find(ev.Res[0])
					s.Each(func(k byte, t *Term) bool { find(t); return false })
					mk := func(t *Term) rat {
						if t == nil {
							return ratInt(0)
						}
						return ratAtom(t)
					}
					v := ev.Res[0]
					var exp rat
					pct := ratInt(1)
					if fee != nil {
						f := mk(fee).div(ratInt(10000))
						if in {
							pct = pct.add(f, 1)
						} else {
							pct = pct.add(f, -1)
						}
					}
					one := ratInt(1)
					switch {
					case mn == "SpotPrice":
						exp = mk(bout).div(mk(bin))
					case plug:
						exp = mk(amt).mul(mk(price)).mul(pct)
					case in:
						a := mk(amt)
						if !way {
							a = a.mul(pct)
						}
						exp = mk(bin).mul(mk(bout).div(mk(bout).add(a, -1)).add(one, -1))
						if way {
							exp = exp.mul(pct)
						}
					default:
						a := mk(amt)
						if way {
							a = a.mul(pct)
						}
						exp = mk(bout).mul(one.add(mk(bin).div(mk(bin).add(a, 1)), -1))
						if !way {
							exp = exp.mul(pct)
						}
					}
					full := fee != nil && (plug && price != nil || !plug && bin != nil && bout != nil) || mn == "SpotPrice" && bin != nil && bout != nil
					ob("formula/value", full && ratOf(v).eq(exp), "the strategy does not compute the documented formula")
					nz := func(t *Term) bool { return nonZero(s, t) }
					if mn != "SpotPrice" {
						ob("formula/zero-in", nz(amt), "a null amount is priced")
						ob("formula/zero-out", nz(v), "a null amount is offered")
					}
					if !plug {
						ob("formula/reserves", nz(bin) && nz(bout), "a price is computed from an empty reserve")
					}
					if in {
						if !plug {
							den := mk(amt)
							if !way {
								den = den.mul(pct)
							}
							ob("formula/divisor", s.HasMatch('T', func(x *Term) bool {
								return x.Op == "lt" && x.Args[1] == bout && ratOf(x.Args[0]).eq(den)
							}), "the computation can divide by zero")
						}
						ob("formula/reserve-limit", s.HasMatch('T', func(x *Term) bool {
							return x.Op == "lt" && x.Args[1] == bout && (x.Args[0] == amt || !way && ratOf(x.Args[0]).eq(mk(amt).mul(pct)))
						}), "more than the market's reserve can be asked for")
					}
				})
				e.onAssume = nil
				c.AnalyzeWith(e, fn, tag, func(st *State, args []*Term) {
					opts = args[1]
					if len(args) > 2 {
						amt = args[2]
					}
					k := byte('F')
					if way {
						k = 'T'
					}
					if ot := c.optsWithFlag(fn); ot != nil {
						s := ot.Underlying().(*types.Struct)
						for i := 0; i < s.NumFields(); i++ {
							if s.Field(i).Name() == "ChargeFeeOnTheWayIn" {
								st.assume(e.structField(st, opts, i, ot), k)
							}
						}
					}
				})
				c.Need("formula/"+tag, rets, 1, "results of a strategy")
			}
		}
	}
	c.Need("formula", n, 6, "strategy formulas")
}

// nonZero: t is known not to be zero.
func nonZero(s *State, t *Term) bool {
	if t == nil {
		return false
	}
	lo, _ := s.Bounds(t)
	return lo != nil && *lo > 0 || s.HasMatch('F', func(x *Term) bool {
		if x.Op != "eq" || x.Args[0] != t {
			return false
		}
		k, ok := x.Args[1].IntConst()
		return ok && k == 0
	})
}

// optsWithFlag: the options of the strategies of fn's package that tell where
// the fee is charged.
func (c *Check) optsWithFlag(fn *ssa.Function) types.Type {
	if fn.Pkg == nil {
		return nil
	}
	for _, m := range fn.Pkg.Members {
		if t, ok := m.(*ssa.Type); ok {
			if s, ok := t.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == "ChargeFeeOnTheWayIn" {
						return t.Type()
					}
				}
			}
		}
	}
	return nil
}

// fees: percentage fees are basis points of the amount.
func (c *Check) fees() {
	for name, k := range map[string]int64{"PlusFee": 1, "LessFee": -1} {
		fn := c.P.Func("pkg/mathutil", name)
		if fn == nil {
			c.Ob("anchor", name, false, "-", "the fee computation is gone")
			continue
		}
		var args []*Term
		e := c.Engine(func(st *State, ev *Event) {
			if ev.Kind != "return" || ev.Frame.parent != nil || len(ev.Res) != 2 {
				return
			}
			a, f := ratAtom(args[0]), ratAtom(args[1]).div(ratInt(10000))
			c.At(ev, "fee/amount", name, ratOf(ev.Res[0]).eq(a.add(a.mul(f), k)), "the amount is not changed by the given basis points")
			c.At(ev, "fee/part", name, ratOf(ev.Res[1]).eq(a.mul(f)), "the fee is not the given basis points of the amount")
		})
		c.AnalyzeWith(e, fn, "", func(st *State, a []*Term) { args = a })
	}
}

// quotes: what the trade and operator services tell about markets.
func (c *Check) quotes() {
	reports, previews := 0, 0
	for _, sv := range []string{"TradeService", "OperatorService"} {
		nt := c.service(sv, app)
		if nt == nil {
			return
		}
		for _, fn := range c.P.exportedMethods(nt) {
			kind := ""
			if res := fn.Signature.Results(); res.Len() == 2 && isErrorType(res.At(1).Type()) {
				t := res.At(0).Type()
				if s, ok := t.Underlying().(*types.Slice); ok {
					t = s.Elem()
				}
				kind = typeName(elemOrSelf(t))
			}
			switch kind {
			case "application.MarketWithFee", "application.PriceWithFee", "application.BalanceWithFee", "application.MarketInfo":
			default:
				continue
			}
			list := strings.HasPrefix(fn.Signature.Results().At(0).Type().String(), "[]")
			name := sv + "." + fn.Name()
			public := sv == "TradeService"
			var e *Engine
			var market *Term // the market of the request
			var asset, amount, tradeType *Term
			reqField := func(t *Term, f string) bool {
				return t != nil && market != nil && t.Op == "field" && lastIs(t.Aux, f) && (t.Args[0] == market || t.Args[0].Op == "alloc" || t.Args[0].Op == "field" && t.Args[0].Args[0] == market)
			}
			stored := func(t *Term) bool { // the record the storage has for the requested market
				return t != nil && t.Op == "extract" && t.Aux == "0" && lastIs(t.CallName(), "MarketRepository.GetMarketByAsset") && reqField(t.CallArgs()[2], "QuoteAsset")
			}
			account := func(t *Term) bool { // its account
				return t != nil && (t.Op == "extract" && t.Aux == "1" && stored(e.tab.mk("extract", "0", nil, t.Args[0])) || t.IsField("domain.Market.AccountIndex") && stored(t.Args[0]))
			}
			known := func(st *State, mkt *Term) bool {
				return st.Is("exists") || st.Has('X', mkt)
			}
			inPair := func(st *State) bool { return st.Is("in-pair") }
			e = c.Engine(func(st *State, ev *Event) {
				ob := func(rule string, ok bool, msg string) { c.At(ev, rule, name, ok, msg) }
				report := func(st *State, v *Term, req bool) {
					f := structFields(v)
					if f == nil {
						ob("report/record", false, "what is reported about a market cannot be told")
						return
					}
					reports++
					var owner *Term
					same := true
					of := func(t *Term, fld string) bool {
						if t == nil || t.Op == "conv" {
							if t == nil {
								return false
							}
							t = t.Args[0]
						}
						if !t.IsField("domain.Market."+fld) && !t.IsField("domain.FixedFee."+fld) {
							return false
						}
						for t.Op == "field" {
							t = t.Args[0]
						}
						if owner == nil {
							owner = t
						} else if owner != t {
							same = false
						}
						return true
					}
					if m := structFields(f["Market"]); f["Market"] != nil {
						ob("report/market", (of(m["BaseAsset"], "BaseAsset") || reqField(m["BaseAsset"], "BaseAsset")) && (of(m["QuoteAsset"], "QuoteAsset") || reqField(m["QuoteAsset"], "QuoteAsset")), "the pair of assets reported is not that of the market")
					}
					fee := structFields(f["Fee"])
					ob("report/fee", fee != nil && of(fee["BasisPoint"], "Fee") && of(fee["FixedBaseFee"], "BaseFee") && of(fee["FixedQuoteFee"], "QuoteFee"), "the fees reported are not those of the market")
					if kind == "application.MarketInfo" {
						ob("report/info", of(f["AccountIndex"], "AccountIndex") && of(f["Tradable"], "Tradable") && of(f["Price"], "Price"), "the account, status or price reported is not that of the market")
					}
					ob("report/same", same && owner != nil, "the report mixes different markets")
					if req && owner != nil && kind != "application.MarketWithFee" {
						ob("report/requested", stored(owner), "the report is about another market than the requested one")
					}
					switch kind {
					case "application.BalanceWithFee":
						b := structFields(f["Balance"])
						bal := func(t *Term, r string) bool {
							if t == nil || t.Op != "extract" || t.Aux != "0" || !lastIs(t.CallName(), "UnspentRepository.GetBalance") {
								return false
							}
							a := t.CallArgs()
							return (of(a[3], r) || reqField(a[3], r)) && a[2].Contains(account)
						}
						ob("balance/by-asset", b != nil && bal(b["BaseAmount"], "BaseAsset") && bal(b["QuoteAmount"], "QuoteAsset"), "a balance reported is not that of the market's account for that asset")
					case "application.PriceWithFee":
						pv := func(t *Term, fld string) bool {
							return t != nil && t.Op == "field" && lastIs(t.Aux, fld) && t.Args[0].Op == "extract" && lastIs(t.Args[0].CallName(), "Market.Preview")
						}
						p := structFields(f["Price"])
						ob("quote/price", pv(f["Price"], "Price") || p != nil && pv2(p, pv), "the price quoted is not that of the preview")
						ob("quote/amount", pv(f["Amount"], "Amount") && pv(f["Asset"], "Asset"), "the amount quoted is not that of the preview")
						b := structFields(f["Balance"])
						ob("quote/balance", b != nil && byAsset(b["BaseAmount"], "BaseAsset") && byAsset(b["QuoteAmount"], "QuoteAsset"), "the balances quoted are swapped")
					}
				}
				switch ev.Kind {
				case "mapupdate":
					// balances are summed by asset
					m, k, v := ev.Base, ev.Args[1], ev.Val
					if m == nil && len(ev.Args) > 0 {
						m = ev.Args[0]
					}
					if kind != "application.PriceWithFee" || !k.IsField("domain.Unspent.AssetHash") {
						return
					}
					if v == nil {
						v = ev.Args[len(ev.Args)-1]
					}
					if n, ok := v.IntConst(); ok && n == 0 {
						ob("balance/reset", st.HasMatch('F', func(t *Term) bool { return t.Op == "has" && t.Args[1] == k }), "the balance of an asset is reset while it is summed")
						return
					}
					var val *Term
					old := 0
					v.Contains(func(t *Term) bool {
						if t.IsField("domain.Unspent.Value") && t.Args[0] == k.Args[0] {
							val = t
						}
						return false
					})
					sum := val != nil && v.Op == "bin" && v.Aux == "+"
					if sum {
						for _, a := range v.Args {
							if a != val {
								ok := a.All(func(t *Term) bool {
									if t.Op == "lookup" && t.Args[1] == k {
										old++
										return true
									}
									n, ok := t.IntConst()
									return ok && n == 0
								})
								sum = sum && ok && old > 0
							}
						}
					}
					ob("balance/sum", sum, "the balance of an asset is not the sum of its unspents")
				case "call":
					if public && lastIs(ev.Name, "MarketRepository.GetAllMarkets") {
						ob("list/tradable", false, "markets that are closed are listed to traders")
					}
					if kind == "application.PriceWithFee" && strings.HasPrefix(ev.Name, "domain.UnspentRepository.Get") {
						ob("quote/funds", strings.Contains(ev.Last(), "Available") && len(ev.Args) > 2 && ev.Args[2].Contains(account), "the price is computed on something else than the available funds of the market")
					}
					if !lastIs(ev.Name, "Market.Preview") {
						return
					}
					previews++
					a := ev.Args
					ob("quote/market", stored(a[0]), "the price quoted is that of another market")
					ob("quote/exists", known(st, a[0]), "a market that does not exist is priced")
					ob("quote/balances", byAsset(a[1], "BaseAsset") && byAsset(a[2], "QuoteAsset"), "the price is computed with swapped balances")
					ob("quote/request", a[3] == amount, "the price quoted is not for the requested amount")
					is := func(t *Term, pred func(x *Term) bool) bool {
						return t.Any(func(x *Term) bool { return x.Op == "eq" && pred(x) })
					}
					ob("quote/asset", is(a[4], func(x *Term) bool {
						o := x.Args[1]
						if x.Args[1] == asset {
							o = x.Args[0]
						} else if x.Args[0] != asset {
							return false
						}
						return o.IsField("domain.Market.BaseAsset") || reqField(o, "BaseAsset")
					}), "the price quoted is not for the requested asset")
					buy := c.P.constVal(app, "TradeBuy")
					ob("quote/type", buy != nil && is(a[5], func(x *Term) bool {
						n, ok := x.Args[1].IntConst()
						b, _ := constant.Int64Val(buy)
						return x.Args[0] == tradeType && ok && n == b
					}), "the price quoted is not for the requested kind of trade")
					ob("guard/base-asset", st.Is("ours"), "a price is quoted for another base asset than the daemon's")
					ob("guard/asset", inPair(st), "a price is quoted for an asset that is not of the market")
				case "return":
					if ev.Frame.parent != nil {
						return
					}
					s := st.given(func(s *State) bool { return s.assume(ev.Res[1], 'N') && (list || s.assume(ev.Res[0], 'X')) })
					if s == nil {
						return
					}
					ob("errors", !s.HasLabel("failed"), "an error of the storage is dropped and a report made up")
					if public {
						for _, r := range []string{"BaseAsset", "QuoteAsset"} {
							if market != nil {
								ok := s.Each(func(k byte, t *Term) bool { return k == 'L' && t.Aux == "asset-valid" && reqField(t.Args[0], r) })
								ob("guard/valid-"+r, ok, "a report is made for an invalid asset")
							}
						}
						if market != nil {
							ob("guard/ours", s.Is("ours"), "a report is made for another base asset than the daemon's")
							ob("guard/exists", s.Is("exists"), "a report is made for a market that does not exist")
						}
						if kind != "application.PriceWithFee" {
							ob("guard/unlocked", s.Is("unlocked"), "a report is made while the vault is locked")
						}
					}
					if list {
						return
					}
					if lastIs(kind, "MarketWithFee") && !public {
						return // see the elements
					}
					report(s, e.load(s, ev.Res[0], elemOrSelf(ev.Res[0].Typ)), true)
				case "idxstore":
					if list && ev.Val != nil && typeName(ev.Val.Typ) == kind {
						report(st, ev.Val, false)
					}
				case "after":
					n := len(ev.Res)
					if n > 0 && strings.Contains(ev.Name, "Repository.") && isErrorType(ev.Res[n-1].Typ) {
						st.CondGen('X', ev.Res[n-1], "failed")
					}
				}
			})
			e.inline = func(f *ssa.Function) bool { return entityOpaque(f) }
			e.onAssume = func(st *State, k byte, t *Term) {
				n := t.CallName()
				switch {
				case k == 'T' && t.Op == "extract" && lastIs(n, "regexp.Match", "regexp.MatchString") && len(t.CallArgs()) == 2:
					c.validAsset(st, t.CallArgs()[0], t.CallArgs()[1])
				case k == 'T' && t.Op == "call" && lastIs(n, "Regexp.MatchString", "Regexp.Match") && len(t.CallArgs()) == 2:
					c.validAsset(st, t.CallArgs()[0], t.CallArgs()[1])
				case k == 'F' && lastIs(n, "Vault.IsLocked"):
					st.Gen("unlocked")
				case k == 'T' && t.Op == "eq":
					for i := 0; i < 2; i++ {
						a, b := t.Args[i], t.Args[1-i]
						if reqField(a, "BaseAsset") && b.Op == "field" && lastIs(b.Aux, "marketBaseAsset") {
							st.Gen("ours")
						}
						if a == asset && (reqField(b, "BaseAsset") || reqField(b, "QuoteAsset")) {
							st.Gen("in-pair")
						}
					}
				case k == 'F' && t.Op == "lt" && account(t.Args[0]), k == 'F' && t.Op == "eq" && account(t.Args[0]):
					if v, ok := t.Args[1].IntConst(); ok && (t.Op == "lt" && v >= 0 || t.Op == "eq" && v == -1) {
						st.Gen("exists")
					}
				case k == 'F' && t.Op == "isnil" && stored(t.Args[0]), k == 'X' && stored(t):
					st.Gen("exists")
				}
			}
			c.AnalyzeWith(e, fn, "", func(st *State, args []*Term) {
				for i, p := range fn.Params {
					switch {
					case i == 0:
					case typeName(p.Type()) == "application.Market" || typeName(p.Type()) == "application.MarketWithFee":
						market = args[i]
					case isStr(p.Type()):
						asset = args[i]
					default:
						if b, ok := p.Type().Underlying().(*types.Basic); ok {
							if b.Kind() == types.Uint64 {
								amount = args[i]
							} else if b.Info()&types.IsInteger != 0 {
								tradeType = args[i]
							}
						}
					}
				}
			})
		}
	}
	c.Need("report", reports, 4, "reports about a market")
	c.Need("quote", previews, 1, "quotes of a market")
}

// byAsset: the entry of a map of balances for the given asset of a market.
func byAsset(t *Term, fld string) bool {
	return t != nil && t.Op == "lookup" && t.Args[1].Op == "field" && lastIs(t.Args[1].Aux, fld)
}

func pv2(p map[string]*Term, pv func(*Term, string) bool) bool {
	for _, k := range []string{"BasePrice", "QuotePrice"} {
		v := p[k]
		if v == nil || v.Op != "field" || !lastIs(v.Aux, k) || !pv(v.Args[0], "Price") {
			return false
		}
	}
	return true
}

// roles: base and quote are never swapped on the way in or out.
func (c *Check) roles() {
	n := 0
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				st, _ := structOf(fa.X.Type())
				r1, s1 := role(st.Field(fa.Field).Name())
				r2, s2 := role(valueName(s.Val))
				if r1 == "" || r2 == "" || !(s1 == s2 || strings.HasSuffix(s1, s2) || strings.HasSuffix(s2, s1)) {
					continue
				}
				n++
				c.Ob("role", fnName(f)+"/"+st.Field(fa.Field).Name(), r1 == r2, c.P.Pos(s.Pos()), "the "+r2+" part of a pair is reported or stored as its "+r1+" part")
			}
		}
	}
	c.Need("role", n, 40, "assignments between parts of a pair")
}

// recordedPrice: the prices recorded for a trade are those its request pays,
// of the quote asset in base and the other way round.
func (c *Check) recordedPrice() {
	fn := c.method(dom, "Trade", "Propose")
	if fn == nil {
		c.Need("recorded-price", 0, 1, "methods proposing a trade")
		return
	}
	n := 0
	for _, sell := range []bool{false, true} {
		tag := "buy"
		base, quote := "GetAmountR", "GetAmountP"
		if sell {
			tag, base, quote = "sell", quote, base
		}
		var req, asset *Term
		var e *Engine
		e = c.Engine(func(st *State, ev *Event) {
			if ev.Kind != "store" || ev.Name != "domain.Trade.MarketPrice" || ev.Async {
				return
			}
			n++
			amount := func(name string) rat {
				return ratAtom(e.tab.mk("call", "domain.SwapRequest."+name, types.Typ[types.Uint64], req))
			}
			for f, want := range map[string]rat{"BasePrice": amount(base).div(amount(quote)), "QuotePrice": amount(quote).div(amount(base))} {
				got := fieldByName(e, st, ev.Val, f)
				ok := got != nil && got.All(func(t *Term) bool { return ratOf(t).eq(want) })
				c.At(ev, "recorded-price", tag+"/"+f, ok, "the "+f+" recorded for a trade is not the ratio of its amounts of base and quote asset")
			}
		})
		c.AnalyzeWith(e, fn, tag, func(st *State, args []*Term) {
			req, asset = args[1], args[2]
			for g, quoted := range map[string]bool{"GetAssetP": !sell, "GetAssetR": sell} {
				t := e.tab.mk("call", "domain.SwapRequest."+g, types.Typ[types.String], req)
				k := byte('F')
				if quoted {
					k = 'T'
				}
				st.assume(e.eqT(t, asset), k)
			}
		})
	}
	c.Need("recorded-price", n, 2, "prices recorded for trades")
}
