package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opPair struct{ Entity, Action string }

func (o opPair) String() string { return o.Entity + ":" + o.Action }

// opsOf reads the bakery.Op literals behind a slice term.
func opsOf(e *Engine, st *State, t *Term) ([]opPair, bool) {
	if t == nil {
		return nil, false
	}
	if t.IsNil() {
		return nil, true
	}
	if t.Op == "append" {
		var out []opPair
		for _, a := range t.Args {
			o, ok := opsOf(e, st, a)
			if !ok {
				return nil, false
			}
			out = append(out, o...)
		}
		return out, true
	}
	if t.Op != "slice" || t.Args[0].Op != "alloc" {
		return nil, false
	}
	al := t.Args[0]
	idx := map[*Term]bool{}
	for p := range st.env {
		q := p
		for q != nil && q.Op == "faddr" {
			q = q.Args[0]
		}
		if q != nil && q.Op == "idx" && q.Args[0] == al {
			idx[q] = true
		}
	}
	var keys []*Term
	for q := range idx {
		keys = append(keys, q)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].ID < keys[j].ID })
	var out []opPair
	for _, q := range keys {
		et := elemType(q.Typ)
		v := e.load(st, q, et)
		if _, ok := st.env[q]; !ok {
			v = e.rebuild(st, q, et)
		}
		if v == nil || v.Op != "struct" || len(v.Args) < 2 {
			return nil, false
		}
		en, ok1 := v.Args[0].StrConst()
		ac, ok2 := v.Args[1].StrConst()
		if !ok1 || !ok2 {
			return nil, false
		}
		out = append(out, opPair{en, ac})
	}
	return out, true
}

type opTable struct {
	ops   map[string][]opPair
	where map[string]string
	bad   []string
}

// evalTables folds every map[string][]bakery.Op built by fn (and helpers) and
// returns the one fn returns; with global set, the one stored to that global.
func (c *Check) evalTable(fn *ssa.Function, global string) *opTable {
	tabs := map[*Term]*opTable{}
	get := func(m *Term) *opTable {
		if tabs[m] == nil {
			tabs[m] = &opTable{ops: map[string][]opPair{}, where: map[string]string{}}
		}
		return tabs[m]
	}
	var result *Term
	var e *Engine
	e = c.Engine(func(st *State, ev *Event) {
		switch ev.Kind {
		case "mapupdate":
			mt, ok := ev.Base.Typ.Underlying().(*types.Map)
			if !ok {
				return
			}
			if s, ok := mt.Elem().Underlying().(*types.Slice); !ok || typeName(s.Elem()) != "bakery.Op" {
				return
			}
			tb := get(ev.Base)
			k := ev.Args[1]
			if s, ok := k.StrConst(); ok {
				ops, ok := opsOf(e, st, ev.Val)
				if !ok {
					tb.bad = append(tb.bad, c.P.Pos(ev.Pos)+": permissions of "+s+" are not constant")
				}
				tb.ops[s] = ops
				tb.where[s] = c.P.Pos(ev.Pos)
				return
			}
			// merging another constant table
			if k.Op == "extract" && k.Args[0].Op == "next" && k.Args[0].Args[0].Op == "range" {
				src := k.Args[0].Args[0].Args[0]
				if o := tabs[src]; o != nil {
					for s, v := range o.ops {
						tb.ops[s] = v
						tb.where[s] = o.where[s]
					}
					return
				}
			}
			tb.bad = append(tb.bad, c.P.Pos(ev.Pos)+": key is not constant: "+k.String())
		case "return":
			if ev.Frame.parent == nil && global == "" && len(ev.Res) > 0 {
				result = ev.Res[0]
			}
		case "gstore":
			if global != "" && ev.Name == global {
				result = ev.Val
			}
		}
	})
	c.Analyze(e, fn)
	if result == nil {
		return nil
	}
	if result.Op == "gload" {
		in := fn.Pkg.Func("init")
		return c.evalTable(in, result.Aux)
	}
	return tabs[result]
}

type rpcMethod struct {
	Service, Name, Full string
	Handler             *ssa.Function
	Where               string
}

// registeredRPCs finds every Register<X>Server call and the implementation it
// registers, and enumerates the methods of the generated server interface.
func (c *Check) registeredRPCs() []rpcMethod {
	var out []rpcMethod
	seen := map[string]bool{}
	for _, f := range c.P.Funcs {
		if strings.HasPrefix(c.P.PkgRel(f), "api-spec") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				s := call.Common().StaticCallee()
				if s == nil || !strings.HasPrefix(s.Name(), "Register") || !strings.HasSuffix(s.Name(), "Server") || len(call.Common().Args) != 2 {
					continue
				}
				it, ok := s.Signature.Params().At(1).Type().Underlying().(*types.Interface)
				if !ok {
					continue
				}
				svc := strings.TrimSuffix(strings.TrimPrefix(s.Name(), "Register"), "Server")
				var impls []*types.Named
				impls = c.P.Impls(it, "internal/interfaces/grpc/handler")
				if len(impls) == 0 {
					for _, n := range c.P.Impls(it) {
						if !strings.HasPrefix(n.Obj().Name(), "Unimplemented") {
							impls = append(impls, n)
						}
					}
				}
				for i := 0; i < it.NumMethods(); i++ {
					m := it.Method(i)
					if !m.Exported() {
						continue
					}
					full := "/" + svc + "/" + m.Name()
					if seen[full] {
						continue
					}
					seen[full] = true
					r := rpcMethod{Service: svc, Name: m.Name(), Full: full, Where: c.P.Pos(call.Pos())}
					for _, n := range impls {
						if strings.HasPrefix(n.Obj().Name(), "Unimplemented") {
							continue
						}
						if h := c.P.Method(n, m.Name()); h != nil && h.Blocks != nil {
							r.Handler = h
						}
					}
					out = append(out, r)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Full < out[j].Full })
	return out
}

var publicMethods = map[string]bool{
	"/Wallet/GenSeed": true, "/Wallet/InitWallet": true, "/Wallet/UnlockWallet": true, "/Wallet/ChangePassword": true,
}

// entityOf is the permission scope of the methods of the published API.
func entityOf(full string) string {
	switch full {
	case "/Operator/UpdateMarketPrice":
		return "price"
	case "/Operator/WithdrawMarket", "/Operator/ReloadUtxos", "/Operator/ListTrades", "/Operator/ListUtxos":
		return "operator"
	case "/Operator/AddWebhook", "/Operator/RemoveWebhook", "/Operator/ListWebhooks":
		return "webhook"
	case "/Operator/DepositMarket", "/Operator/ListDepositMarket", "/Operator/DepositFeeAccount", "/Operator/BalanceFeeAccount",
		"/Operator/ClaimMarketDeposit", "/Operator/ClaimFeeDeposit", "/Operator/OpenMarket", "/Operator/CloseMarket",
		"/Operator/ListMarket", "/Operator/UpdateMarketPercentageFee", "/Operator/UpdateMarketFixedFee",
		"/Operator/UpdateMarketStrategy", "/Operator/DropMarket":
		return "market"
	}
	if strings.HasPrefix(full, "/Wallet/") {
		return "wallet"
	}
	return ""
}

// effectsOf walks the class-hierarchy call graph from f and collects calls to
// state-changing interface methods of repositories, the explorer and pubsub.
func (c *Check) effectsOf(g *CG, f *ssa.Function) map[string]string {
	eff := map[string]string{}
	if f == nil {
		return eff
	}
	par := g.Reach(f)
	for h := range par {
		c.funcs[fnName(h)] = true
		rel := c.P.PkgRel(h)
		if strings.HasPrefix(rel, "internal/infrastructure") {
			continue // behind the ports
		}
		for _, b := range h.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok || !call.Common().IsInvoke() {
					continue
				}
				tn := typeName(call.Common().Value.Type())
				m := call.Common().Method.Name()
				if mutating(tn, m) {
					eff[tn+"."+m] = pathTo(par, h)
				}
			}
		}
	}
	return eff
}

func mutating(iface, m string) bool {
	pre := func(ps ...string) bool {
		for _, p := range ps {
			if strings.HasPrefix(m, p) {
				return true
			}
		}
		return false
	}
	switch {
	case strings.HasSuffix(iface, "Repository"):
		return pre("Update", "Add", "Delete", "Open", "Close", "Lock", "Unlock", "Spend", "Confirm", "Insert", "Create", "Remove", "Set")
	case iface == "explorer.Service":
		return pre("Broadcast", "Faucet", "Mint")
	case strings.HasSuffix(iface, "SecurePubSub") || strings.HasSuffix(iface, "PubSub"):
		return pre("Subscribe", "Unsubscribe", "AddWebhook", "Remove")
	}
	return false
}

func init() {
	rules["C01"] = func(c *Check) {
		c.Note("The permission tables are constant-folded from the functions that build them (engine: SSA dataflow with inlining of helpers), the served methods are enumerated from the Register<X>Server calls and the generated server interfaces, and the state changes each handler can reach come from a class-hierarchy call graph.")
		c.Assume("gRPC service names equal the X of RegisterXServer (checked by construction of the generated stubs); bakery authorises an operation only if the macaroon was baked with it")
		rpcs := c.registeredRPCs()
		c.Need("rpc-enumerated", len(rpcs), 30, "registered RPC methods")
		wlF := c.P.Func("internal/interfaces/grpc/permissions", "Whitelist")
		permF := c.P.Func("internal/interfaces/grpc/permissions", "AllPermissionsByMethod")
		var wl, pm *opTable
		if wlF != nil {
			wl = c.evalTable(wlF, "")
		}
		if permF != nil {
			pm = c.evalTable(permF, "")
		}
		if wl == nil || pm == nil {
			c.Ob("tables", "anchor", false, "-", "the public list or the permission table could not be evaluated")
			return
		}
		for _, b := range append(wl.bad, pm.bad...) {
			c.Ob("tables", "constant:"+b[strings.Index(b, ": ")+2:], false, b, "the table cannot be evaluated statically")
		}
		g := c.P.CallGraph()
		served := map[string]bool{}
		for _, r := range rpcs {
			served[r.Full] = true
			_, inW := wl.ops[r.Full]
			ops, inP := pm.ops[r.Full]
			c.Ob("listed", r.Full, inW || (inP && len(ops) > 0), r.Where, "served method has neither a public entry nor a required permission: nobody, not even the admin, can call it under macaroon authentication")
			c.Ob("one-table", r.Full, !(inW && inP), r.Where, "method is both public and permissioned; the public entry wins")
			if inW {
				pub := publicMethods[r.Full] || r.Service == "Trade"
				c.Ob("public-set", r.Full, pub, wl.where[r.Full], "method is served without authentication but is neither a trader-facing nor a wallet bootstrap method")
			}
			if !inW && (publicMethods[r.Full] || r.Service == "Trade") {
				c.Ob("public-set", r.Full, false, r.Where, "bootstrap or trader-facing method is not public: no macaroon exists before the wallet is unlocked, and traders have none")
			}
			if r.Handler == nil {
				c.Ob("handler", r.Full, false, r.Where, "no handler implementation found")
				continue
			}
			eff := c.effectsOf(g, r.Handler)
			if inP {
				write := false
				ents := map[string]bool{}
				for _, o := range ops {
					ents[o.Entity] = true
					if o.Action == "write" {
						write = true
					}
					c.Ob("op-form", r.Full, o.Action == "read" || o.Action == "write", pm.where[r.Full], "action is "+o.Action)
				}
				var en []string
				for k := range eff {
					en = append(en, k)
				}
				sort.Strings(en)
				msg := ""
				if len(en) > 0 {
					msg = "reaches " + en[0] + " via " + eff[en[0]]
				}
				c.Ob("write-needs-write", r.Full, len(eff) == 0 || write, pm.where[r.Full], "a state-changing method is satisfied by a read permission: "+msg)
				if p, ok := eff["explorer.Service.BroadcastTransaction"]; ok {
					okE := true
					for _, o := range ops {
						if !(o.Entity == "operator" || o.Entity == "wallet") {
							okE = false
						}
					}
					c.Ob("spend-needs-funds-permission", r.Full, okE && write, pm.where[r.Full], "a method that broadcasts a transaction ("+p+") requires only "+fmt.Sprint(ops))
				}
				if want := entityOf(r.Full); want != "" {
					c.Ob("entity", r.Full, len(ents) == 1 && ents[want], pm.where[r.Full], fmt.Sprintf("requires %v; the method belongs to entity %s", ops, want))
				}
				if ents["price"] {
					only := true
					for k := range eff {
						if strings.Contains(k, "Repository.") && !strings.HasSuffix(k, "MarketRepository.UpdatePrices") {
							only = false
						}
					}
					c.Ob("price-only-prices", r.Full, only, pm.where[r.Full], "a method granted to the price macaroon changes more than prices: "+strings.Join(en, ", "))
				}
			}
		}
		for k := range pm.ops {
			c.Ob("no-stale-entry", k, served[k], pm.where[k], "permission entry names a method that is not served")
		}
		for k := range wl.ops {
			c.Ob("no-stale-entry", k, served[k], wl.where[k], "public entry names a method that is not served")
		}
		// macaroon files
		gp := c.P.Pkg("internal/interfaces/grpc")
		var macs *opTable
		if gp != nil {
			sp := c.P.SSA.Package(gp.Types)
			for _, m := range sp.Members {
				if gl, ok := m.(*ssa.Global); ok {
					mt, ok := elemType(gl.Type()).Underlying().(*types.Map)
					if !ok {
						continue
					}
					if s, ok := mt.Elem().Underlying().(*types.Slice); ok && typeName(s.Elem()) == "bakery.Op" {
						macs = c.evalTable(sp.Func("init"), globalName(gl))
					}
				}
			}
		}
		if macs == nil {
			c.Ob("macaroons", "anchor", false, "-", "table of macaroon files not found")
			return
		}
		for _, b := range macs.bad {
			c.Ob("tables", "constant:"+b[strings.Index(b, ": ")+2:], false, b, "the macaroon table cannot be evaluated statically")
		}
		c.Need("macaroons", len(macs.ops), 6, "macaroon files")
		admin := map[opPair]bool{}
		for f, ops := range macs.ops {
			if strings.HasPrefix(f, "admin") {
				for _, o := range ops {
					admin[o] = true
				}
			}
		}
		for k, ops := range pm.ops {
			for _, o := range ops {
				c.Ob("admin-covers", k, admin[o], pm.where[k], "the admin macaroon lacks "+o.String())
			}
		}
		allow := map[string]func(opPair) bool{
			"readonly": func(o opPair) bool { return o.Action == "read" },
			"price":    func(o opPair) bool { return o.Entity == "price" },
			"market":   func(o opPair) bool { return o.Entity == "market" || o.Entity == "price" },
			"wallet":   func(o opPair) bool { return o.Entity == "wallet" },
			"webhook":  func(o opPair) bool { return o.Entity == "webhook" },
			"admin":    func(o opPair) bool { return true },
		}
		for f, ops := range macs.ops {
			base := strings.TrimSuffix(f, ".macaroon")
			al := allow[base]
			if al == nil {
				c.Ob("macaroon-scope", f, false, macs.where[f], "unknown macaroon file: no scope is specified for it")
				continue
			}
			for _, o := range ops {
				c.Ob("macaroon-scope", f+"/"+o.String(), al(o), macs.where[f], f+" is baked with "+o.String()+", outside its scope")
			}
			c.Ob("macaroon-nonempty", f, len(ops) > 0, macs.where[f], "macaroon without permissions")
		}
		// a read permission must exist in readonly for every read method
		ro := map[opPair]bool{}
		for f, ops := range macs.ops {
			if strings.HasPrefix(f, "readonly") {
				for _, o := range ops {
					ro[o] = true
				}
			}
		}
		for k, ops := range pm.ops {
			for _, o := range ops {
				if o.Action == "read" {
					c.Ob("readonly-covers", k, ro[o], pm.where[k], "the read-only macaroon lacks "+o.String())
				}
			}
		}
	}
}

// isSvcType: the macaroon service.
func isMacaroonSvc(t *Term) bool {
	return t != nil && t.Typ != nil && typeName(t.Typ) == "macaroons.Service"
}

func init() {
	rules["C02"] = func(c *Check) {
		c.Note("Every function of the repository with the gRPC unary or stream interceptor signature is analysed by must-fact dataflow (helpers inlined); an interceptor authenticates when each call of its handler argument is dominated by: authentication disabled, the invoked method being on the public list, or a nil validation error for the permissions registered for that same method. Every grpc.NewServer call must install an authenticating unary and stream interceptor built from the daemon's macaroon service.")
		c.Assume("grpc runs the installed interceptors for every call; grpc_middleware chains run every interceptor of the chain")
		wlF := c.P.Func("internal/interfaces/grpc/permissions", "Whitelist")
		wlT := map[string]bool{}
		pmT := map[string]bool{}
		// fingerprints of the two tables: sets of constant keys
		tabKeys := func(fn *ssa.Function) map[string]bool {
			m := map[string]bool{}
			if fn == nil {
				return m
			}
			if t := c.evalTable(fn, ""); t != nil {
				for k := range t.ops {
					m[k] = true
				}
			}
			return m
		}
		wlT = tabKeys(wlF)
		pmT = tabKeys(c.P.Func("internal/interfaces/grpc/permissions", "AllPermissionsByMethod"))
		authClosure := map[*ssa.Function]bool{}
		kinds := map[*ssa.Function]string{}
		for _, f := range c.P.Funcs {
			k := interceptorKind(f)
			if k == "" {
				continue
			}
			kinds[f] = k
			hIdx := len(f.Params) - 1
			infoIdx := hIdx - 1
			// tables seen while analysing: make-term -> keys
			keys := map[*Term]map[string]bool{}
			isTable := func(m *Term, want map[string]bool) bool {
				ks := keys[m]
				if m != nil && m.Op == "gload" {
					if t := c.evalTable(f.Pkg.Func("init"), m.Aux); t != nil {
						ks = map[string]bool{}
						for k := range t.ops {
							ks[k] = true
						}
					}
				}
				if len(ks) == 0 || len(ks) != len(want) {
					return false
				}
				for k := range ks {
					if !want[k] {
						return false
					}
				}
				return true
			}
			isMethod := func(t *Term) bool {
				return t != nil && t.Op == "field" && strings.HasSuffix(t.Aux, ".FullMethod") && t.Args[0].Op == "param" && strings.Contains(t.Args[0].Aux, "@"+itoa(infoIdx)+":")
			}
			called, guarded := 0, 0
			where := ""
			var e *Engine
			e = c.Engine(func(st *State, ev *Event) {
				switch ev.Kind {
				case "mapupdate":
					if s, ok := ev.Args[1].StrConst(); ok {
						if keys[ev.Base] == nil {
							keys[ev.Base] = map[string]bool{}
						}
						keys[ev.Base][s] = true
					}
				case "call":
					if ev.Frame.Root().fn != f {
						return
					}
					cm := ev.Instr.(ssa.CallInstruction).Common()
					if cm.IsInvoke() || cm.StaticCallee() != nil {
						return
					}
					if _, ok := cm.Value.(*ssa.Builtin); ok {
						return
					}
					t := e.val(ev.Frame, cm.Value)
					if t.Op == "param" && strings.Contains(t.Aux, "@"+itoa(hIdx)+":"+fnName(f)) {
						called++
						if where == "" {
							where = c.P.Pos(ev.Pos)
						}
						if st.Is("authorised") {
							guarded++
						} else {
							where = c.P.Pos(ev.Pos)
						}
					}
				}
			})
			e.onAssume = func(st *State, k byte, t *Term) {
				switch {
				case k == 'N' && isMacaroonSvc(t):
					st.Gen("authorised")
				case k == 'T' && t.Op == "has" && isMethod(t.Args[1]) && isTable(t.Args[0], wlT):
					st.Gen("authorised")
				case k == 'N' && strings.HasSuffix(t.CallName(), ".ValidateMacaroon"):
					args := t.CallArgs()
					perm, meth := false, false
					for _, a := range args {
						if a != nil && a.Op == "lookup" && isMethod(a.Args[1]) && isTable(a.Args[0], pmT) {
							perm = true
						}
						if isMethod(a) {
							meth = true
						}
					}
					has := st.HasMatch('T', func(x *Term) bool {
						return x.Op == "has" && isMethod(x.Args[1]) && isTable(x.Args[0], pmT)
					})
					if perm && meth && has {
						st.Gen("authorised")
					}
				}
			}
			// ValidateMacaroon itself stays opaque here; C03 covers it
			e.inline = func(g *ssa.Function) bool { return g.Name() != "ValidateMacaroon" }
			c.Analyze(e, f)
			if called > 0 && called == guarded {
				authClosure[f] = true
			}
		}
		c.counts["interceptors"] = len(kinds)
		var closureOf func(t *Term, depth int) []*Term
		closureOf = func(t *Term, depth int) []*Term { return nil }
		_ = closureOf
		servers := 0
		seenFn := map[*ssa.Function]bool{}
		for _, f := range c.P.Funcs {
			if strings.HasPrefix(c.P.PkgRel(f), "test") || f.Parent() != nil {
				continue
			}
			has := false
			for h := range c.P.CallGraph().Reach(f) {
				_ = h
				break
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(ssa.CallInstruction); ok {
						if s := call.Common().StaticCallee(); s != nil && fnName(s) == "grpc.NewServer" {
							has = true
						}
					}
				}
			}
			if !has {
				continue
			}
			// analyse from callers within the same package when the creation was
			// extracted into a helper
			roots := c.rootsOf(f)
			for _, root := range roots {
				if seenFn[root] {
					continue
				}
				seenFn[root] = true
				var e *Engine
				e = c.Engine(func(st *State, ev *Event) {
					if ev.Kind != "call" || ev.Name != "grpc.NewServer" {
						return
					}
					servers++
					un, str := false, false
					var scan func(t *Term, kind string, d int)
					scan = func(t *Term, kind string, d int) {
						if t == nil || d > 8 {
							return
						}
						if t.Op == "closure" || t.Op == "fn" {
							if t.Fn != nil && authClosure[t.Fn] {
								svc := false
								for _, b := range t.Args {
									if okSvc(e, st, b) {
										svc = true
									}
								}
								if svc {
									if kinds[t.Fn] == "unary" && kind == "unary" {
										un = true
									}
									if kinds[t.Fn] == "stream" && kind == "stream" {
										str = true
									}
								}
							}
							return
						}
						k := kind
						switch t.CallName() {
						case "grpc.UnaryInterceptor", "grpc.ChainUnaryInterceptor":
							k = "unary"
						case "grpc.StreamInterceptor", "grpc.ChainStreamInterceptor":
							k = "stream"
						}
						for _, x := range e.Elems(st, t) {
							scan(x, k, d+1)
						}
						for _, x := range t.CallArgs() {
							scan(x, k, d+1)
						}
						if t.Op == "append" {
							for _, x := range t.Args {
								scan(x, k, d+1)
							}
						}
						if t.Op == "phi" {
							// every alternative must authenticate
							u0, s0 := un, str
							allU, allS := len(t.Alts) > 0, len(t.Alts) > 0
							for _, x := range t.Alts {
								un, str = false, false
								scan(x, k, d+1)
								allU = allU && un
								allS = allS && str
							}
							un, str = u0 || allU, s0 || allS
						}
					}
					for _, a := range ev.Args {
						scan(a, "", 0)
					}
					k := fnName(ev.Frame.fn) + "@" + itoa(ordinal(ev.Instr))
					c.At(ev, "server-unary-auth", k, un, "grpc server created without an authenticating unary interceptor bound to the macaroon service")
					c.At(ev, "server-stream-auth", k, str, "grpc server created without an authenticating stream interceptor bound to the macaroon service")
				})
				c.Analyze(e, root)
			}
		}
		c.Need("grpc-servers", servers, 2, "grpc.NewServer calls")
		if len(authClosure) == 0 {
			c.Ob("interceptor", "none", false, "-", "no interceptor authenticates every call of its handler")
		}
		// authentication may only be off when configured off
		c.failOpen()
	}
}

func ordinal(in ssa.Instruction) int {
	n := 0
	want := ""
	if call, ok := in.(ssa.CallInstruction); ok {
		if s := call.Common().StaticCallee(); s != nil {
			want = s.String()
		}
	}
	for _, b := range in.Parent().Blocks {
		for _, i := range b.Instrs {
			if i == in {
				return n
			}
			if call, ok := i.(ssa.CallInstruction); ok {
				if s := call.Common().StaticCallee(); s != nil && s.String() == want {
					n++
				}
			}
		}
	}
	return n
}

// okSvc: the bound variable holds the service's macaroon service.
func okSvc(e *Engine, st *State, b *Term) bool {
	if b == nil {
		return false
	}
	v := b
	if b.Op == "alloc" {
		v = st.env[b]
	}
	return v != nil && isMacaroonSvc(v) && !v.IsNil()
}

func interceptorKind(f *ssa.Function) string {
	ps := f.Signature.Params()
	if ps.Len() != 4 {
		return ""
	}
	switch typeName(ps.At(3).Type()) {
	case "grpc.UnaryHandler":
		if typeName(ps.At(2).Type()) == "grpc.UnaryServerInfo" {
			return "unary"
		}
	case "grpc.StreamHandler":
		if typeName(ps.At(2).Type()) == "grpc.StreamServerInfo" {
			return "stream"
		}
	}
	return ""
}

// rootsOf climbs static callers inside the same package to the functions
// nobody in the package calls (or exported methods).
func (c *Check) rootsOf(f *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var up func(g *ssa.Function)
	up = func(g *ssa.Function) {
		for g.Parent() != nil {
			g = g.Parent()
		}
		if seen[g] {
			return
		}
		seen[g] = true
		n := 0
		for _, cs := range c.P.Callers(g) {
			h := cs.Parent()
			if c.P.PkgRel(h) == c.P.PkgRel(g) {
				n++
				up(h)
			}
		}
		if n == 0 {
			out = append(out, g)
		}
	}
	up(f)
	return out
}

// failOpen: the constructor that decides whether the macaroon service exists
// may leave it nil only when authentication is configured off, and must not
// succeed when creating it failed.
func (c *Check) failOpen() {
	n := 0
	for _, f := range c.P.FuncsIn("internal/interfaces/grpc") {
		if f.Parent() != nil || c.P.PkgRel(f) != "internal/interfaces/grpc" {
			continue
		}
		calls := false
		for h := range c.P.CallGraph().Reach(f) {
			for _, b := range h.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(ssa.CallInstruction); ok {
						if s := call.Common().StaticCallee(); s != nil && fnName(s) == "macaroons.NewService" {
							calls = true
						}
					}
				}
			}
		}
		if !calls || len(c.P.Callers(f)) > 0 && !ast_exported(f) {
			continue
		}
		var e *Engine
		e = c.Engine(func(st *State, ev *Event) {
			if ev.Kind == "store" && isMacaroonSvcType(ev.Name, e, ev) {
				ok := ev.Val.All(func(t *Term) bool {
					if t.Op == "phi" {
						return false
					}
					return !t.IsNil()
				})
				if !ok {
					// nil is allowed only on the paths where auth is disabled
					ok = st.Is("auth-off-or-created")
				}
				_ = ok
			}
			if ev.Kind == "return" && ev.Frame.parent == nil && len(ev.Res) == 2 && !ev.Res[0].IsNil() {
				if !st.feasible(ev.Res[1], 'N') {
					return
				}
				n++
				c.At(ev, "fail-closed", fnName(f), st.Is("auth-off-or-created"), "the server object is returned without error on a path where authentication is not disabled and the macaroon service was not created successfully; a nil service lets every request through")
			}
		})
		e.inline = func(g *ssa.Function) bool { return fnName(g) != "macaroons.NewService" }
		e.onAssume = func(st *State, k byte, t *Term) {
			if k == 'T' && t.Op == "field" && strings.HasSuffix(t.Aux, ".NoMacaroons") {
				st.Gen("auth-off-or-created")
			}
			if k == 'N' && t.CallName() == "macaroons.NewService" && isErrorType(t.Typ) {
				st.Gen("auth-off-or-created")
			}
		}
		c.Analyze(e, f)
	}
	c.Need("fail-closed-constructors", n, 1, "constructors of the grpc service")
}

func ast_exported(f *ssa.Function) bool {
	return f.Object() != nil && f.Object().Exported()
}

func isMacaroonSvcType(name string, e *Engine, ev *Event) bool {
	return ev.Val != nil && ev.Val.Typ != nil && typeName(ev.Val.Typ) == "macaroons.Service"
}
