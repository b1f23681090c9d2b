package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// swallowed: the calls of a function whose failure may be followed by success
// of the function. A failure is followed along the control flow: only the
// branches for an error that is not nil are taken, through merges and
// variables; calling the same again ends the search.
func swallowed(f *ssa.Function) []*ssa.Call {
	rs := f.Signature.Results()
	if rs.Len() == 0 || !isErrorType(rs.At(rs.Len()-1).Type()) {
		return nil
	}
	var res []*ssa.Call
	for _, b := range f.Blocks {
		for i, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			e := errorOf(call)
			if e == nil && !failsSilently(call) {
				continue
			}
			if mayEndWell(f, call, e, b, i) {
				res = append(res, call)
			}
		}
	}
	return res
}

// errorOf: the error of a call, if it is looked at.
func errorOf(c *ssa.Call) ssa.Value {
	rs := c.Call.Signature().Results()
	if rs.Len() == 0 || !isErrorType(rs.At(rs.Len()-1).Type()) {
		return nil
	}
	if rs.Len() == 1 {
		return c
	}
	for _, r := range *c.Referrers() {
		if x, ok := r.(*ssa.Extract); ok && x.Index == rs.Len()-1 {
			return x
		}
	}
	return nil
}

// failsSilently: the error of the call is dropped.
func failsSilently(c *ssa.Call) bool {
	rs := c.Call.Signature().Results()
	return rs.Len() > 1 && isErrorType(rs.At(rs.Len()-1).Type())
}

func mayEndWell(f *ssa.Function, call *ssa.Call, e ssa.Value, b *ssa.BasicBlock, at int) bool {
	type key struct {
		b *ssa.BasicBlock
		s string
	}
	seen := map[key]bool{}
	unset := map[ssa.Value]*ssa.BasicBlock{}
	var truth func(v ssa.Value, is map[ssa.Value]bool, d int) int
	// truth: what a condition is while the error is there: 1, 0, -1 for what
	// is not known and 2 if something else judges the error
	truth = func(v ssa.Value, is map[ssa.Value]bool, d int) int {
		if d > 8 {
			return -1
		}
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value != nil && x.Value.Kind() == constant.Bool {
				if constant.BoolVal(x.Value) {
					return 1
				}
				return 0
			}
		case *ssa.UnOp:
			if x.Op == token.NOT {
				switch t := truth(x.X, is, d+1); t {
				case 0, 1:
					return 1 - t
				default:
					return t
				}
			}
			if x.Op == token.MUL {
				if is[x.X] {
					return 1
				}
			}
		case *ssa.Phi:
			if is[x] {
				return 1
			}
			if unset[x] != nil {
				return 0
			}
		case *ssa.BinOp:
			if x.Op != token.EQL && x.Op != token.NEQ {
				return -1
			}
			a, b := x.X, x.Y
			if isNilConst(a) {
				a, b = b, a
			}
			if is[a] || is[b] {
				// told from nil, or from others: those are expected
				if x.Op == token.NEQ {
					return 1
				}
				return 0
			}
		case *ssa.Call:
			for _, a := range x.Call.Args {
				if is[a] {
					if f := x.Call.StaticCallee(); f != nil && lastIs(f.RelString(nil), "errors.Is", "errors.As") {
						return 0
					}
					return 2
				}
			}
		}
		return -1
	}
	var walk func(b, from *ssa.BasicBlock, at int, is map[ssa.Value]bool) bool
	walk = func(b, from *ssa.BasicBlock, at int, is map[ssa.Value]bool) bool {
		now := map[ssa.Value]bool{}
		for v := range is {
			now[v] = true
		}
		if from != nil {
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, p := range b.Preds {
					if p == from && isBool(ph.Type()) {
						// what is known of a condition: true in the map, or
						// false with the mark
						delete(now, ph)
						delete(unset, ph)
						switch truth(ph.Edges[i], is, 0) {
						case 1:
							now[ph] = true
						case 0:
							unset[ph] = from
						}
					} else if p == from {
						if is[ph.Edges[i]] || isErrorType(ph.Type()) && !endsWell(ph.Edges[i], is) {
							now[ph] = true
						} else {
							delete(now, ph)
						}
					}
				}
			}
			var names []string
			for v := range now {
				names = append(names, v.Name())
			}
			for v := range unset {
				names = append(names, "-"+v.Name())
			}
			sort.Strings(names)
			k := key{b, strings.Join(names, ",")}
			if seen[k] || len(seen) > 3000 {
				return false
			}
			seen[k] = true
		}
		is = now
		for i, in := range b.Instrs {
			if i <= at {
				continue
			}
			if in == ssa.Instruction(call) {
				return false
			}
			switch x := in.(type) {
			case *ssa.Store:
				if _, ok := x.Addr.(*ssa.Alloc); !ok {
					if is[x.Val] {
						if !anArgument(x.Addr) {
							// kept elsewhere: whoever reads it there deals with it
							return false
						}
					}
					break
				}
				if is[x.Val] || isErrorType(x.Val.Type()) && !endsWell(x.Val, is) {
					is[x.Addr] = true
				} else {
					delete(is, x.Addr)
				}
			case *ssa.Send:
				if is[x.X] {
					return false
				}
			case *ssa.MapUpdate:
				if is[x.Value] {
					return false
				}
			case *ssa.UnOp:
				if x.Op == token.MUL && is[x.X] && isErrorType(x.Type()) {
					is[x] = true
				} else {
					delete(is, x)
				}
			case *ssa.MakeInterface, *ssa.ChangeInterface:
				// (the error as an argument of a message)
			case *ssa.Call:
				if inRepo(x) {
					for _, a := range x.Call.Args {
						if is[a] {
							// handed on
							return false
						}
					}
				}
				if callee := x.Call.StaticCallee(); callee != nil && lastIs(fnName(callee), "os.Exit", "Exit", "Fatal", "Fatalf") {
					return false
				}
			case *ssa.Panic:
				return false
			case *ssa.Return:
				return endsWell(x.Results[len(x.Results)-1], is)
			case *ssa.If:
				switch truth(x.Cond, is, 0) {
				case 1:
					return walk(b.Succs[0], b, -1, is)
				case 0:
					return walk(b.Succs[1], b, -1, is)
				case 2:
					return false
				}
				return walk(b.Succs[0], b, -1, is) || walk(b.Succs[1], b, -1, is)
			case *ssa.Jump:
				return walk(b.Succs[0], b, -1, is)
			}
		}
		return false
	}
	is := map[ssa.Value]bool{}
	if e != nil {
		is[e] = true
		// the error is extracted after the call
		if x, ok := e.(*ssa.Extract); ok && x.Block() == b {
			is[x] = true
		}
	}
	return walk(b, nil, at, is)
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

// endsWell: the error returned may be nil although the one followed is not.
func endsWell(r ssa.Value, is map[ssa.Value]bool) bool {
	if is[r] {
		return false
	}
	switch x := r.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.MakeInterface, *ssa.Alloc:
		return false
	case *ssa.UnOp:
		if _, ok := x.X.(*ssa.Global); ok {
			return false
		}
		return !is[x.X]
	case *ssa.ChangeInterface:
		return endsWell(x.X, is)
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			switch f.RelString(nil) {
			case "errors.New", "fmt.Errorf", "google.golang.org/grpc/status.Error", "google.golang.org/grpc/status.Errorf":
				return false
			}
		}
		for _, a := range x.Call.Args {
			if depends(a, is, 0) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		return endsWell(x.Tuple, is)
	}
	return true
}

func depends(v ssa.Value, is map[ssa.Value]bool, d int) bool {
	if is[v] {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok || d > 6 {
		return false
	}
	for _, o := range in.Operands(nil) {
		if *o != nil && depends(*o, is, d+1) {
			return true
		}
	}
	return false
}

func calleeName(c *ssa.Call) string {
	if c.Call.IsInvoke() {
		return typeName(c.Call.Value.Type()) + "." + c.Call.Method.Name()
	}
	if f := c.Call.StaticCallee(); f != nil {
		return fnName(f)
	}
	return "dynamic"
}

// anArgument: the address is in the list of arguments of a message.
func anArgument(v ssa.Value) bool {
	x, ok := v.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	_, ok = x.X.(*ssa.Alloc)
	return ok
}

func inRepo(c *ssa.Call) bool {
	var pkg *types.Package
	if c.Call.IsInvoke() {
		pkg = c.Call.Method.Pkg()
	} else if f := c.Call.StaticCallee(); f != nil {
		if o := f.Object(); o != nil {
			pkg = o.Pkg()
		} else if f.Pkg != nil {
			pkg = f.Pkg.Pkg
		}
	}
	return pkg != nil && strings.HasPrefix(pkg.Path(), "github.com/tdex-network/tdex-daemon")
}

// unheard: failures that may be followed by success, as they are: nothing was
// asked for that they would keep from being done, or something else tells.
var unheard = map[string]bool{
	// what can not fail with what it is given, as it was checked before
	"domain.Vault.AllDerivedAddressesInfoForAccount": true,
	"domain.Vault.DeriveBlindingKeyPair":             true,
	"wallet.NewWalletFromMnemonic":                   true,
	"wallet.Wallet.DeriveBlindingKeyPair":            true,
	"wallet.ParseDerivationPath":                     true,
	"wallet.newTxOutput":                             true,
	"explorer.Utxo.Parse":                            true,
	"bufferutil.ValueToBytes":                        true,
	"address.ToOutputScript":                         true,
	"domain.PsetParser.GetTxID":                      true,
	"domain.PsetParser.GetTxHex":                     true,
	"domain.Market.ChangeBasePrice":                  true,
	"domain.Market.ChangeQuotePrice":                 true,
	// nothing found, or not told (see C08, C16, C28)
	"swap.outputFoundInTransaction":                    true,
	"domain.Unspent.Lock":                              true,
	"inmemory.MarketRepositoryImpl.getMarketByAccount": true,
	"badgerhold.Store.TxFind":                          true,
	"badgerhold.Store.Find":                            true,
	// of no consequence
	"kvdb.updateLastCompactionDate": true,
	// another way follows (see C02)
	"bakery.AuthChecker.Allow": true,
}

// again: what the wallet reads again after it was read or written without a
// failure.
var again = []string{"pset.NewPsetFromBase64"}

// heard: libraries whose failures matter as those of the daemon's own
// functions.
var heard = []string{"badgerhold.", "pset.", "bbolt.", "bakery.", "snacl.", "confidential.", "transaction.", "address.", "badger.", "elementsutil.", "tradev1.", "trade.TradeClient.", "trade.TradeServiceClient."}

// mustBeHeard: the failure of the call counts.
func mustBeHeard(c *ssa.Call, depth int) bool {
	n := calleeName(c)
	if unheard[n] || lastIs(n, again...) && strings.HasPrefix(fnName(c.Parent()), "wallet.") {
		return false
	}
	if !inRepo(c) {
		for _, h := range heard {
			if strings.HasPrefix(n, h) {
				return true
			}
		}
		return false
	}
	f := c.Call.StaticCallee()
	if f == nil || depth > 4 {
		return true
	}
	if len(f.Blocks) == 0 {
		return true
	}
	// a helper that fails only where others do that do not count
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if !failsLike(r.Results[len(r.Results)-1], depth, map[ssa.Value]bool{}) {
			return true
		}
	}
	return false
}

func makesError(name string) bool {
	return lastIs(name, "fmt.Errorf", "errors.New", "status.Error", "status.Errorf", "errors.Wrap", "errors.Wrapf")
}

// failsLike: the error returned is none, or one of calls that do not count.
func failsLike(v ssa.Value, depth int, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.Extract:
		return failsLike(x.Tuple, depth, seen)
	case *ssa.Call:
		return !makesError(calleeName(x)) && !mustBeHeard(x, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !failsLike(e, depth, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		a, ok := x.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		for _, r := range *a.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == a && !failsLike(st.Val, depth, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// tellsOtherwise: the function answers a failure with a message of its own.
func tellsOtherwise(f *ssa.Function) bool {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if n := typeName(rs.At(i).Type()); lastIs(n, "SwapFail", "SwapError") || strings.HasSuffix(n, "SwapFail") {
			return true
		}
	}
	return f.Parent() != nil && tellsOtherwise(f.Parent())
}

// resuming: only called when the service is made: without a vault there is
// nothing to be resumed.
func (p *Prog) resuming(f *ssa.Function, depth int) bool {
	if f.Name() == "newWalletService" || f.Name() == "NewWalletService" {
		return true
	}
	if depth > 3 {
		return false
	}
	n := 0
	for _, g := range p.FuncsIn(app) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
					n++
					if !p.resuming(g, depth+1) {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

// failuresTold: no function of some may report success after a call failed.
func (c *Check) failuresTold(rule string, fns []*ssa.Function) {
	n := 0
	for _, f := range fns {
		if f.Synthetic != "" || tellsOtherwise(f) {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() == 0 || !isErrorType(rs.At(rs.Len()-1).Type()) {
			continue
		}
		bad := map[*ssa.Call]bool{}
		for _, call := range swallowed(f) {
			bad[call] = true
		}
		done := map[string]int{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || !failsSilently(call) && errorOf(call) == nil {
					continue
				}
				name := calleeName(call)
				if makesError(name) {
					continue
				}
				if !bad[call] {
					n++
				} else if !mustBeHeard(call, 0) || name == "domain.VaultRepository.GetOrCreateVault" && c.P.resuming(f, 0) {
					continue
				}
				done[name]++
				msg := "a failure of " + name + " keeps the function from reporting success"
				if bad[call] {
					msg = "a failure of " + name + " may be followed by success"
				}
				c.Ob(rule, fnName(f)+"/"+name+itoa(done[name]), !bad[call], c.P.Pos(call.Pos()), msg)
			}
		}
	}
	c.Note("Calls whose failure keeps the function from reporting success (%s): %d.", rule, n)
}

func (c *Check) failuresFrom(rule, iface string) {
	if nt := c.service(iface, app); nt != nil {
		c.failuresTold(rule, c.callees(c.P.exportedMethods(nt), app, dom))
	}
}

func init() {
	for id, f := range map[string]func(c *Check){
		"C31": func(c *Check) { c.failuresTold("told/startup", c.P.FuncsIn("config", "cmd/tdexd")) },
		"C17": func(c *Check) {
			c.failuresTold("told/updates", c.P.FuncsIn("internal/infrastructure/storage/db/badger", "internal/infrastructure/storage/db/inmemory"))
		},
		"C18": func(c *Check) {
			for _, s := range []string{"OperatorService", "WalletService"} {
				c.failuresFrom("told/"+s, s)
			}
		},
		"C02": func(c *Check) {
			c.failuresTold("told/macaroons", c.P.FuncsIn("pkg/macaroons"))
		},
	} {
		also[id] = append(also[id], f)
	}
}
