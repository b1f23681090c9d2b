package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const dom = "internal/core/domain"

// initStructs reads the constant struct values assigned to package globals by
// the package initialiser: global -> field -> constant.
func (c *Check) initStructs(pkg, typ string) map[string]map[string]constant.Value {
	out := map[string]map[string]constant.Value{}
	pk := c.P.Pkg(pkg)
	if pk == nil {
		return out
	}
	sp := c.P.SSA.Package(pk.Types)
	if sp == nil {
		return out
	}
	for _, m := range sp.Members {
		if g, ok := m.(*ssa.Global); ok && typeName(elemType(g.Type())) == typ {
			out[globalName(g)] = map[string]constant.Value{}
		}
	}
	in := sp.Func("init")
	if in == nil {
		return out
	}
	e := c.Engine(func(st *State, ev *Event) {
		if ev.Kind != "gstore" || out[ev.Name] == nil || ev.Val == nil {
			return
		}
		known := ev.Val.Op == "zero" || ev.Val.Op == "struct"
		for n, t := range structFields(ev.Val) {
			switch t.Op {
			case "const":
				out[ev.Name][n] = t.Con
			case "zero":
			default:
				known = false
			}
		}
		if !known {
			delete(out, ev.Name)
		}
	})
	e.maxDepth = 2
	e.Run(in)
	return out
}

func init() {
	rules["C06"] = func(c *Check) {
		c.Note("Every write of a trade's status in the repository is enumerated; each must sit in a method of the trade entity and be dominated by the guards of that transition. Status values are read from the initialiser, so guards are compared by meaning.")
		c.Assume("the swap parser and pset parser behind the domain ports validate what they serialise (see the swap message property)")
		nt := c.P.Named(dom, "Trade")
		if nt == nil {
			c.Ob("anchor", "Trade", false, "-", "the trade entity is gone")
			return
		}
		globals := c.initStructs(dom, "domain.Status")
		code := map[string]int64{}
		for _, n := range []string{"Empty", "Proposal", "Accepted", "Completed", "Settled", "Expired"} {
			v := c.P.constVal(dom, n)
			if v == nil {
				c.Ob("anchor", n, false, "-", "status constant is gone")
				return
			}
			code[n], _ = constant.Int64Val(v)
		}
		c.Ob("status-order", "codes", code["Empty"] < code["Proposal"] && code["Proposal"] < code["Accepted"] && code["Accepted"] < code["Completed"] && code["Completed"] < code["Settled"] && code["Settled"] < code["Expired"], "-", "the status codes are not ordered as the life cycle of a trade")
		name := map[int64]string{}
		for n, v := range code {
			name[v] = n
		}
		// statusOf a term: code, failed
		statusOf := func(t *Term) (int64, int, bool) {
			switch t.Op {
			case "gload":
				m, ok := globals[t.Aux]
				if !ok {
					return 0, 0, false
				}
				cd, f := int64(0), 0
				if v := m["Code"]; v != nil {
					cd, _ = constant.Int64Val(v)
				}
				if v := m["Failed"]; v != nil && constant.BoolVal(v) {
					f = 1
				}
				return cd, f, true
			case "struct":
				fs := structFields(t)
				cd, ok := fs["Code"].IntConst()
				b, ok2 := constBool(fs["Failed"])
				f := 0
				if b {
					f = 1
				}
				return cd, f, ok && ok2
			case "zero":
				return 0, 0, true
			}
			return 0, 0, false
		}
		// A. writes only in methods of the entity / its constructor
		writes := 0
		protected := map[string]bool{"domain.Trade.Status": true, "domain.Trade.TxID": true, "domain.Trade.ExpiryTime": true, "domain.Trade.SettlementTime": true,
			"domain.Trade.SwapRequest": true, "domain.Trade.SwapAccept": true, "domain.Trade.SwapComplete": true, "domain.Trade.SwapFail": true, "domain.Trade.PsetBase64": true}
		for _, f := range c.P.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					// innermost trade field written through
					fld := ""
					for a := s.Addr; ; {
						fa, ok := a.(*ssa.FieldAddr)
						if !ok {
							break
						}
						st, n := structOf(fa.X.Type())
						if n == "domain.Trade" {
							fld = n + "." + st.Field(fa.Field).Name()
						}
						a = fa.X
					}
					if g, ok := rootGlobal(s.Addr); ok && globals[globalName(g)] != nil && f.Name() != "init" {
						c.Ob("status-constants", fnName(f), false, c.P.Pos(s.Pos()), "a predefined trade status is modified at run time")
					}
					if !protected[fld] {
						continue
					}
					writes++
					recv := ""
					if f.Signature.Recv() != nil {
						recv = typeName(f.Signature.Recv().Type())
					}
					inDomain := c.P.PkgRel(f) == dom
					okw := recv == "domain.Trade" || inDomain
					c.Ob("encapsulation", fnName(f)+"/"+fld, okw, c.P.Pos(s.Pos()), "the life cycle of a trade is modified outside the trade entity")
				}
			}
		}
		c.Need("encapsulation", writes, 10, "writes of trade life-cycle fields")

		// B. guards of every transition
		isCode := func(t *Term) bool { return t.IsField("domain.Status.Code") && t.Args[0].IsField("domain.Trade.Status") }
		isFailed := func(t *Term) bool {
			return t.IsField("domain.Status.Failed") && (t.Args[0].IsField("domain.Trade.Status") || t.Args[0].Op == "gload" && globals[t.Args[0].Aux] != nil)
		}
		isStatus := func(t *Term) bool { return t.IsField("domain.Trade.Status") }
		isExpiry := func(t *Term) bool { return t.IsField("domain.Trade.ExpiryTime") }
		isNow := func(t *Term) bool {
			return t.Contains(func(x *Term) bool { return x.CallName() == "time.Now" })
		}
		// now - expiry + n (true), or expiry - now + n
		dated := func(l map[*Term]int64) (bool, int64, bool) {
			var now, expiry int64
			for t, k := range l {
				switch {
				case t == nil:
				case isExpiry(t) && expiry == 0:
					expiry = k
				case t.CallName() == "time.Time.Unix" && isNow(t) && now == 0:
					now = k
				default:
					return false, 0, false
				}
			}
			if now*expiry != -1 {
				return false, 0, false
			}
			return now > 0, l[nil], true
		}
		seen := map[string]int{}
		for _, m := range c.methodsOf(nt) {
			m := m
			mn := fnName(m)
			var e *Engine
			var hook func(st *State, ev *Event)
			hook = func(st *State, ev *Event) {
				if ev.Frame.Root().fn != m {
					return
				}
				if ev.Kind == "store" && strings.HasPrefix(ev.Name, "domain.Trade.Swap") && isStruct(ev.Val.Typ, "Swap") {
					// a message recorded as a whole
					at := e.tab.mk("faddr", ev.Name, types.NewPointer(ev.Val.Typ), ev.Base)
					for _, f := range []string{"ID", "Message", "Timestamp"} {
						part := *ev
						part.Name, part.Base, part.Val = "domain.Swap."+f, at, fieldByName(e, st, ev.Val, f)
						if part.Val != nil {
							hook(st, &part)
						}
					}
					return
				}
				switch ev.Kind {
				case "after":
					if strings.HasPrefix(ev.Name, "domain.SwapParser.Serialize") || strings.HasPrefix(ev.Name, "domain.PsetParser.") {
						k := ev.Res[len(ev.Res)-1]
						st.CondGen('N', k, "ok:"+ev.Last())
					}
				case "store":
					switch {
					case ev.Name == "domain.Trade.Status":
						cd, failed, known := statusOf(ev.Val)
						c.At(ev, "transition/known", mn, known, "a trade is given a status that is not one of the predefined ones")
						if !known {
							return
						}
						n := name[cd]
						seen[n]++
						ob := func(g string, ok bool, msg string) { c.At(ev, "transition/"+n, mn+"/"+g, ok, msg) }
						is := func(s string) bool { return st.Is("code=" + s) }
						notFailed := st.Is("not-failed")
						switch n {
						case "Proposal":
							ob("from", st.Is("code<Proposal") || is("Empty") || is("Undefined"), "a trade becomes a proposal from a later status")
						case "Accepted":
							ob("from", is("Proposal") && notFailed, "a trade is accepted from a status other than a valid proposal")
							ob("message", st.Is("ok:SerializeAccept"), "a trade is accepted without a valid accept message")
						case "Completed":
							ob("from", is("Accepted") && notFailed, "a trade is completed from a status other than accepted (or after it failed)")
							ob("not-expired", st.Is("not-expired"), "a trade is completed after its expiration")
							ob("message", st.Is("ok:SerializeComplete"), "a trade is completed without checking the transaction against the accepted one")
						case "Settled":
							ob("from", st.Is("settleable"), "a trade is settled that was neither accepted, completed nor failed")
						case "Expired":
							ob("date", st.Is("has-expiry") && st.Is("date-passed"), "a trade expires before its expiration date")
							ob("failed", failed == 1, "an expired trade does not count as failed")
						default:
							ob("none", false, "a trade is moved to a status no transition leads to")
						}
						if n != "Expired" {
							ob("flag", failed == 0, "a successful transition marks the trade as failed")
						}
						st.KillAll("status-now")
						st.Gen("status-now:" + n)
						for _, l := range []string{"code<Proposal", "not-failed"} {
							st.Kill(l)
						}
						for x := range code {
							st.Kill("code=" + x)
						}
					case ev.Name == "domain.Status.Code":
						if ev.Base.Contains(func(t *Term) bool { return t.Op == "faddr" && t.Aux == "domain.Trade.Status" }) {
							c.At(ev, "transition/code", mn, false, "the status code of a trade is overwritten apart from its failure flag")
						}
					case ev.Name == "domain.Status.Failed":
						if ev.Base.Contains(func(t *Term) bool { return t.Op == "faddr" && t.Aux == "domain.Trade.Status" }) {
							b, ok := constBool(ev.Val)
							c.At(ev, "failure/set", mn, ok && b, "the failure of a trade is cleared")
							st.Gen("failed-now")
						}
					case ev.Name == "domain.Trade.ExpiryTime":
						if m.Name() == "Accept" {
							v := ev.Val
							c.At(ev, "expiry/set", mn, expiresLater(linear(v)), "the expiration of an accepted trade is not now plus the given duration")
							st.Gen("expiry-set")
						}
					case ev.Name == "domain.Trade.TxHex":
						v := ev.Val
						final := func(t *Term) bool { return lastIs(t.CallName(), "GetTxHex") && t.Op == "extract" && t.Aux == "0" }
						ok := v.All(func(t *Term) bool { return final(t) || paramIdx(t) > 0 })
						if !v.Any(final) {
							// received as it is to be broadcast
							ok = ok && (st.HasMatch('T', isHexTest) || st.HasMatch('N', isHexTest))
						}
						c.At(ev, "complete/txhex", mn, ok && st.Is("ok:SerializeComplete"), "the final transaction of a trade is not the one received and validated")
					case ev.Name == "domain.Trade.TxID":
						c.At(ev, "accept/txid", mn, lastIs(ev.Val.CallName(), "GetTxID") && paramIdx(ev.Val.CallArgs()[1]) > 0, "the transaction id of a trade is not that of the accepted transaction")
						st.Gen("txid-set")
					case ev.Name == "domain.Swap.ID" || ev.Name == "domain.Swap.Message":
						part := ""
						if ev.Base.Op == "faddr" {
							part = strings.TrimPrefix(ev.Base.Aux, "domain.Trade.Swap")
						}
						if part == "" {
							return
						}
						v := ev.Val
						msg := ev.Name == "domain.Swap.Message"
						ok := false
						if part == "Request" && !msg {
							ok = lastIs(v.CallName(), "GetId")
						} else {
							ok = lastIs(v.CallName(), "Serialize"+part)
							if part != "Request" {
								ok = ok && v.Op == "extract" && (v.Aux == "0") == !msg
							}
						}
						c.At(ev, "messages/"+part, mn+"/"+ev.Last(), ok, "the "+part+" message recorded in a trade is not the one serialised for it")
						if msg {
							st.Gen("msg:" + part)
						}
					case ev.Name == "domain.Swap.Timestamp":
						if ev.Base.Op != "faddr" {
							return
						}
						part := strings.TrimPrefix(ev.Base.Aux, "domain.Trade.Swap")
						step := map[string]string{"Propose": "Request", "Accept": "Accept", "Complete": "Complete", "Fail": "Fail"}[m.Name()]
						v := unconv(ev.Val)
						c.At(ev, "messages/"+part, mn+"/Timestamp", part == step && v.CallName() == "time.Time.Unix" && isNow(v), "the time of the "+part+" message of a trade is not that of its transition")
					case ev.Name == "domain.Trade.PsetBase64":
						c.At(ev, "transaction/pset", mn, ev.Val.All(func(t *Term) bool {
							v, isStr := t.StrConst()
							return paramIdx(t) > 0 || lastIs(t.CallName(), "GetTransaction") || isStr && v == "" && !st.feasible(ev.Val, 'N')
						}), "the transaction recorded in a trade is not the one received")
					}
				case "call":
					if ev.Last() == "SerializeFail" && strings.HasPrefix(ev.Name, "domain.SwapParser.") && len(ev.Args) == 4 {
						a := ev.Args
						id := a[1].All(func(t *Term) bool {
							return paramIdx(t) > 0 || lastIs(t.CallName(), "GetId") || t.IsField("domain.Swap.ID")
						})
						if m.Name() == "Fail" {
							id = paramIdx(a[1]) == 1 && paramIdx(a[2]) == 2 && paramIdx(a[3]) == 3
						}
						c.At(ev, "links/fail", mn, id, "the failure message does not carry the message it answers, the code and the reason given")
					}
					if strings.HasPrefix(ev.Name, "domain.SwapParser.Serialize") {
						switch ev.Last() {
						case "SerializeAccept":
							f := structFields(ev.Args[1])
							ok := f["RequestMessage"] != nil && f["RequestMessage"].Op == "field" && f["RequestMessage"].Contains(func(t *Term) bool { return t.IsField("domain.Trade.SwapRequest") }) && paramIdx(f["Transaction"]) > 0
							c.At(ev, "links/accept", mn, ok, "the accept message is not built from the stored request and the given transaction")
						case "SerializeComplete":
							a := ev.Args
							ok := a[1].Contains(func(t *Term) bool { return t.IsField("domain.Trade.SwapAccept") }) && a[1].IsField("domain.Swap.Message") && paramIdx(a[2]) > 0
							c.At(ev, "links/complete", mn, ok, "the complete message is not checked against the stored accept message and the given transaction")
						}
					}
				case "return":
					if ev.Frame.parent != nil || ev.Frame.fn != m {
						return
					}
					n := len(ev.Res)
					if n != 2 || !isErrorType(m.Signature.Results().At(1).Type()) {
						return
					}
					want := map[string][]string{"Propose": {"Proposal"}, "Accept": {"Accepted"}, "Complete": {"Completed"}, "Settle": {"Settled"}, "Expire": {"Expired"}}[m.Name()]
					if want == nil {
						return
					}
					done := func(s *State) bool {
						switch m.Name() {
						case "Propose":
							return s.Is("status-now:Proposal") && s.Is("msg:Request") || s.Is("code>=Proposal")
						case "Accept":
							return s.Is("status-now:Accepted") && s.Is("msg:Accept") && s.Is("expiry-set") && s.Is("txid-set") || s.Is("code>=Accepted")
						case "Complete":
							return s.Is("status-now:Completed") && s.Is("msg:Complete") || s.Is("code=Completed") || s.Is("code=Settled") || s.Is("code-done")
						case "Settle":
							return s.Is("status-now:Settled") || s.Is("code=Settled")
						case "Expire":
							return s.Is("status-now:Expired") || s.Is("code=Expired")
						}
						return false
					}
					if isBool(ev.Res[0].Typ) || ev.Res[0].Op == "const" {
						s := st.given(func(s *State) bool { return s.assume(ev.Res[1], 'N') && s.assume(ev.Res[0], 'T') })
						if s != nil {
							c.At(ev, "outcome/success", mn, done(s), m.Name()+" reports success although the trade did not get there")
						}
						s = st.given(func(s *State) bool { return s.assume(ev.Res[1], 'N') && s.assume(ev.Res[0], 'F') })
						if s != nil {
							c.At(ev, "outcome/failure", mn, s.Is("failed-now") || s.HasMatch('T', isFailed), m.Name()+" reports a failure that it does not record in the trade")
						}
						return
					}
					// *CompleteResult
					s := st.given(func(s *State) bool { return s.assume(ev.Res[1], 'N') && s.assume(ev.Res[0], 'X') })
					if s == nil {
						return
					}
					ev.Res[0].Any(func(t *Term) bool {
						if t.Op != "alloc" {
							return false
						}
						okv := fieldByName(e, s, e.load(s, t, elemType(t.Typ)), "OK")
						s2 := s.given(func(s *State) bool { return okv == nil || s.assume(okv, 'T') })
						if s2 != nil {
							c.At(ev, "outcome/success", mn, done(s2), "Complete reports success although the trade is not completed")
						}
						s2 = s.given(func(s *State) bool { return okv == nil || s.assume(okv, 'F') })
						if s2 != nil {
							c.At(ev, "outcome/failure", mn, s2.Is("failed-now") || s2.HasMatch('T', isFailed), "Complete reports a failure that it does not record in the trade")
						}
						return false
					})
				}
			}
			e = c.Engine(hook)
			e.onAssume = func(st *State, k byte, t *Term) {
				if t.Op == "eq" {
					for i := 0; i < 2; i++ {
						a, b := t.Args[i], t.Args[1-i]
						if isCode(a) && k == 'T' {
							if v, ok := b.IntConst(); ok {
								st.Gen("code=" + name[v])
								if v >= code["Proposal"] {
									st.Gen("code>=Proposal")
								}
								if v >= code["Accepted"] {
									st.Gen("code>=Accepted")
								}
								if v == code["Completed"] || v == code["Settled"] {
									st.Gen("code-done")
								}
								if v == code["Accepted"] || v == code["Completed"] {
									st.Gen("settleable")
								}
							}
						}
						if isStatus(a) && k == 'T' {
							if cd, f, ok := statusOf(b); ok {
								st.Gen("code=" + name[cd])
								if f == 0 {
									st.Gen("not-failed")
								}
							}
						}
						if isExpiry(a) {
							if v, ok := b.IntConst(); ok && v == 0 {
								if k == 'T' {
									st.Gen("not-expired")
								} else {
									st.Gen("has-expiry")
								}
							}
						}
					}
				}
				if t.Op == "lt" {
					a, b := t.Args[0], t.Args[1]
					if isCode(a) {
						if v, ok := b.IntConst(); ok {
							if k == 'F' {
								if v >= code["Proposal"] {
									st.Gen("code>=Proposal")
								}
								if v >= code["Accepted"] {
									st.Gen("code>=Accepted")
								}
							} else if v <= code["Proposal"] {
								st.Gen("code<Proposal")
							}
						}
					}
					// now - expiry < -n, or not
					if now, d, ok := dated(minus(linear(a), linear(b))); ok {
						if now && k == 'T' && d >= -1 || !now && k == 'F' && d <= 0 {
							st.Gen("not-expired")
						}
						if now && k == 'F' && d <= 0 || !now && k == 'T' && d >= -1 {
							st.Gen("date-passed")
						}
					}
				}
				if n := t.CallName(); (n == "time.Time.Before" || n == "time.Time.After") && len(t.CallArgs()) == 2 {
					a, b := t.CallArgs()[0], t.CallArgs()[1]
					if n == "time.Time.After" {
						a, b = b, a
					}
					date := func(x *Term) bool {
						return x.CallName() == "time.Unix" && len(x.CallArgs()) == 2 && isExpiry(unconv(x.CallArgs()[0])) && x.CallArgs()[1].IsZero()
					}
					now := func(x *Term) bool { return x.CallName() == "time.Now" }
					switch {
					case now(a) && date(b) && k == 'T', date(a) && now(b) && k == 'F':
						st.Gen("not-expired")
					case now(a) && date(b) && k == 'F', date(a) && now(b) && k == 'T':
						st.Gen("date-passed")
					}
				}
				if isFailed(t) {
					if k == 'F' {
						st.Gen("not-failed")
					} else if k == 'T' {
						st.Gen("failed-now")
						st.Gen("settleable")
					}
				}
			}
			c.Analyze(e, m)
		}
		for _, n := range []string{"Proposal", "Accepted", "Completed", "Settled", "Expired"} {
			c.Need("transition/"+n, seen[n], 1, "writes of status "+n)
		}
		// C. the outcome of a transition is never ignored by the services
		for _, f := range c.P.FuncsIn("internal/core/application") {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					s := call.Call.StaticCallee()
					if s == nil || s.Signature.Recv() == nil || typeName(s.Signature.Recv().Type()) != "domain.Trade" {
						continue
					}
					r := s.Signature.Results()
					if r.Len() != 2 || !isErrorType(r.At(1).Type()) {
						continue
					}
					used := resultUsed(call, 0) || resultUsed(call, 1)
					c.Ob("outcome-used", fnName(f)+"/"+s.Name(), used, c.P.Pos(call.Pos()), "the outcome of "+s.Name()+" is ignored")
				}
			}
		}
	}
}

// isHexTest: the outcome of checking that a string is hexadecimal.
func isHexTest(t *Term) bool {
	return lastIs(t.CallName(), "isHex") || lastIs(t.CallName(), "DecodeString") || lastIs(t.CallName(), "MatchString")
}

// expiresLater: now plus the duration given.
func expiresLater(l map[*Term]int64) bool {
	now, dur := false, false
	for t, k := range l {
		switch {
		case t == nil || k != 1:
			return false
		case t.CallName() == "time.Time.Unix" && t.Contains(func(x *Term) bool { return x.CallName() == "time.Now" }):
			now = true
		case paramIdx(t) > 0:
			dur = true
		default:
			return false
		}
	}
	return now && dur
}

func rootGlobal(v ssa.Value) (*ssa.Global, bool) {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Global:
			return x, true
		default:
			return nil, false
		}
	}
}

// resultUsed: result i of the call is read somewhere.
func resultUsed(call ssa.Value, i int) bool {
	refs := call.Referrers()
	if refs == nil {
		return false
	}
	tp, ok := call.Type().(*types.Tuple)
	for _, r := range *refs {
		if ok && tp != nil {
			if ex, isE := r.(*ssa.Extract); isE && ex.Index == i && ex.Referrers() != nil && len(nonDebug(*ex.Referrers())) > 0 {
				return true
			}
			if _, isR := r.(*ssa.Return); isR {
				return true
			}
		} else if _, isD := r.(*ssa.DebugRef); !isD {
			return true
		}
	}
	return false
}

func nonDebug(in []ssa.Instruction) []ssa.Instruction {
	var out []ssa.Instruction
	for _, i := range in {
		if _, d := i.(*ssa.DebugRef); !d {
			out = append(out, i)
		}
	}
	return out
}

// methodsOf a named type (pointer and value receivers, with bodies).
func (c *Check) methodsOf(nt *types.Named) []*ssa.Function {
	var out []*ssa.Function
	for i := 0; i < nt.NumMethods(); i++ {
		if f := c.P.SSA.FuncValue(nt.Method(i)); f != nil && f.Blocks != nil {
			out = append(out, f)
		}
	}
	return out
}
