package main

import (
	"go/constant"
	"go/types"
	"math/big"
	"path"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	configPkg = "config"
	daemonPkg = "cmd/tdexd"

	interfacesPkg = "internal/interfaces/grpc"
)

// C31: settings are validated at startup and reach the services unchanged.
func init() {
	rules["C31"] = func(c *Check) {
		c.Note("The initialisation of the daemon and its main function are followed into the constructors of the services: what ends up in a field or an argument is rewritten as a setting times a constant. The validation of settings is followed to its successful end, where their ranges must be known.")
		c.Assume("viper returns the value of the named setting; net/http, grpc, cmux and crypto/tls do what their documentation says")
		s := &settings{c: c, globals: map[string]constTimes{}, writes: map[string]int{}}
		s.initial()
		s.main()
		s.network()
		s.validation()
		s.startup()
		s.interfaces()
		s.breaker()
	}
}

// settings follows the values of settings.
type settings struct {
	c       *Check
	e       *Engine
	globals map[string]constTimes // initial values of the variables of the daemon
	writes  map[string]int        // how often they are written
	tls     map[*Term]served      // listeners that use TLS
}

// constTimes: something times a constant.
type constTimes struct {
	what  string
	times *big.Rat
}

// The settings that are not whole numbers.
var fractions = map[string]bool{"DEFAULT_FEE": true, "PRICE_SLIPPAGE": true, "FAILING_RATIO": true}

// isGetter: a read of a setting by name.
func isGetter(name string) bool {
	return strings.HasPrefix(name, "viper.Viper.Get") || strings.HasPrefix(name, "viper.Get")
}

func isNetwork(t types.Type) bool {
	return t != nil && typeName(t) == "network.Network"
}

// netGetter: a function of the configuration that chooses the network.
func (s *settings) netGetter(f *ssa.Function) bool {
	r := f.Signature.Results()
	return s.c.P.PkgRel(f) == configPkg && r.Len() == 1 && isNetwork(r.At(0).Type())
}

// value: a value as text and the constant it is multiplied by.
func (s *settings) value(st *State, t *Term) (string, *big.Rat) {
	one := big.NewRat(1, 1)
	bad := func() (string, *big.Rat) { return "?" + t.str(4), one }
	if t == nil {
		return "?", one
	}
	switch t.Op {
	case "const":
		if t.Con != nil {
			switch t.Con.Kind() {
			case constant.String:
				return "'" + constant.StringVal(t.Con) + "'", one
			case constant.Int, constant.Float:
				if r, ok := new(big.Rat).SetString(t.Con.ExactString()); ok {
					return "", r
				}
			case constant.Bool:
				return t.Con.String(), one
			}
		}
		return bad()
	case "zero":
		if isString(t.Typ) {
			return "''", one
		}
		return "", new(big.Rat)
	case "gload":
		if strings.HasPrefix(t.Aux, "main.") || strings.HasPrefix(t.Aux, path.Base(daemonPkg)+".") {
			if v, ok := s.globals[t.Aux]; ok && s.writes[t.Aux] == 1 {
				return v.what, v.times
			}
			return bad()
		}
		return t.Aux, one
	case "field":
		n, f := s.value(st, t.Args[0])
		if n == "" || n[0] == '?' || f.Cmp(one) != 0 {
			return bad()
		}
		return n + "." + lastPart(t.Aux), one
	case "param":
		return "param " + t.Aux, one
	case "phi":
		var n string
		var f *big.Rat
		for _, a := range t.Alts {
			an, af := s.value(st, a)
			if f != nil && (an != n || af.Cmp(f) != 0) {
				return bad()
			}
			n, f = an, af
		}
		if f == nil {
			return bad()
		}
		return n, f
	case "conv":
		n, f := s.value(st, t.Args[0])
		if isFloat(t.Args[0].Typ) && !isFloat(t.Typ) && !strings.HasPrefix(n, "round(") {
			return "trunc(" + text(n, f) + ")", one
		}
		return n, f
	case "bin":
		a, fa := s.value(st, t.Args[0])
		b, fb := s.value(st, t.Args[1])
		switch t.Aux {
		case "*":
			if a == "" || b == "" {
				return a + b, new(big.Rat).Mul(fa, fb)
			}
		case "/":
			if b == "" && fb.Sign() != 0 && isFloat(t.Typ) {
				return a, new(big.Rat).Quo(fa, fb)
			}
			return "div(" + text(a, fa) + "," + text(b, fb) + ")", one
		}
		return bad()
	}
	if t.callOf() == nil {
		return bad()
	}
	name, args := t.CallName(), t.callOf().Args
	switch {
	case isGetter(name):
		key := args[len(args)-1]
		if key.Con == nil || key.Con.Kind() != constant.String {
			return bad()
		}
		k := constant.StringVal(key.Con)
		if fractions[k] && !strings.HasSuffix(name, "GetFloat64") && !strings.HasSuffix(name, "GetString") {
			return "trunc(" + k + ")", one
		}
		return k, one
	case t.callOf().Fn != nil && s.netGetter(t.callOf().Fn), strings.HasPrefix(name, configPkg+".") && isNetwork(t.Typ):
		return "network", one
	case name == "strconv.Atoi" || name == "strconv.ParseFloat" || name == "strconv.ParseInt" || name == "decimal.NewFromFloat" || name == "decimal.NewFromInt":
		return s.value(st, args[0])
	case name == "math.Round":
		n, f := s.value(st, args[0])
		return "round(" + text(n, f) + ")", one
	case name == "decimal.Decimal.Round" && len(args) == 2 && args[1].IsZero():
		n, f := s.value(st, args[0])
		return "round(" + text(n, f) + ")", one
	case name == "decimal.Decimal.IntPart":
		n, f := s.value(st, args[0])
		if !strings.HasPrefix(n, "round(") {
			return "trunc(" + text(n, f) + ")", one
		}
		return n, f
	case name == "decimal.Decimal.Mul":
		a, fa := s.value(st, args[0])
		b, fb := s.value(st, args[1])
		if a == "" || b == "" {
			return a + b, new(big.Rat).Mul(fa, fb)
		}
	case name == "filepath.Join" || name == "path.Join":
		var parts []string
		for _, x := range s.e.Elems(st, args[len(args)-1]) {
			n, _ := s.value(st, x)
			parts = append(parts, strings.Trim(n, "'"))
		}
		return strings.Join(parts, "/"), one
	case name == "fmt.Sprintf":
		f, _ := s.value(st, args[0])
		f = strings.Trim(f, "'")
		for _, x := range s.e.Elems(st, args[len(args)-1]) {
			n, _ := s.value(st, x)
			for _, verb := range []string{"%+v", "%v", "%d", "%s"} {
				if strings.Contains(f, verb) {
					f = strings.Replace(f, verb, n, 1)
					break
				}
			}
		}
		return f, one
	case name == "strconv.Itoa" || name == "fmt.Sprint":
		return s.value(st, args[0])
	case name == "net.JoinHostPort":
		a, _ := s.value(st, args[0])
		b, _ := s.value(st, args[1])
		return strings.Trim(a, "'") + ":" + b, one
	case name == "rate.Every":
		n, f := s.value(st, args[0])
		return "every(" + text(n, f) + ")", one
	}
	return bad()
}

func text(n string, f *big.Rat) string {
	switch {
	case n == "":
		return f.RatString()
	case f.Cmp(big.NewRat(1, 1)) == 0:
		return n
	}
	return n + "*" + f.RatString()
}

func (s *settings) text(st *State, t *Term) string { return text(s.value(st, t)) }

func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// What must be found where. Alternatives are separated by spaces.
const (
	feeBps   = "round(DEFAULT_FEE*100)"
	timeout  = "EXPLORER_REQUEST_TIMEOUT*1000000"
	expiry   = "TRADE_EXPIRY_TIME*1000000000"
	interval = "CRAWL_INTERVAL*1000000"
	dbPath   = "DATA_DIR_PATH/db"
)

var fieldSettings = map[string]string{
	"application.tradeService.marketBaseAsset":               "BASE_ASSET",
	"application.tradeService.expiryDuration":                expiry,
	"application.tradeService.priceSlippage":                 "PRICE_SLIPPAGE",
	"application.tradeService.network":                       "network",
	"application.operatorService.marketBaseAsset":            "BASE_ASSET",
	"application.operatorService.marketFee":                  feeBps,
	"application.operatorService.network":                    "network",
	"application.operatorService.feeAccountBalanceThreshold": "FEE_ACCOUNT_BALANCE_THRESHOLD",
	"application.walletService.marketFee":                    feeBps,
	"application.walletService.marketBaseAsset":              "BASE_ASSET",
	"application.walletService.network":                      "network",
	"application.blockchainListener.marketBaseAsset":         "BASE_ASSET",
	"application.blockchainListener.network":                 "network",
	"http.Client.Timeout":                                    timeout,
	"esplora.esplora.apiURL":                                 "EXPLORER_ENDPOINT",
	"crawler.blockchainCrawler.interval":                     interval,
}

var globalSettings = map[string]string{
	"circuitbreaker.MaxNumOfFailingRequests": "MAX_FAILING_REQUESTS",
	"circuitbreaker.FailingRatio":            "FAILING_RATIO",
}

// Arguments of calls, by position; -1 is the last.
var callSettings = map[string]map[int]string{
	"interfaces.Service.Start":     {1: ":OPERATOR_LISTENING_PORT", 2: ":TRADE_LISTENING_PORT", 3: "SSL_KEY", 4: "SSL_CERT"},
	"badger.NewRepoManager":        {0: dbPath},
	"bolt.NewSecureStorage":        {0: dbPath, 1: "'pubsub.db'"},
	"logrus.SetLevel":              {0: "LOG_LEVEL"},
	"stats.EnableMemoryStatistics": {1: "STATS_INTERVAL*1000000000", 2: "DATA_DIR_PATH/stats"},
	"rate.NewLimiter":              {0: "every(div(1000,CRAWL_LIMIT)*1000000) every(div(1000000000,CRAWL_LIMIT)) CRAWL_LIMIT", 1: "CRAWL_TOKEN"},
}

// Fields of the options of the interfaces.
var optionSettings = map[string]string{
	"NoMacaroons":          "NO_MACAROONS",
	"Datadir":              "DATA_DIR_PATH",
	"DBLocation":           "'db'",
	"TLSLocation":          "'tls'",
	"MacaroonsLocation":    "'macaroons'",
	"OperatorExtraIPs":     "OPERATOR_EXTRA_IP",
	"OperatorExtraDomains": "OPERATOR_EXTRA_DOMAIN",
}

// initial finds what the variables of the daemon are initialised with.
func (s *settings) initial() {
	c := s.c
	main := c.P.Func(daemonPkg, "main")
	if main == nil {
		c.Ob("main", "anchor", false, "-", "the main function of the daemon is gone")
		return
	}
	s.e = c.Engine(func(st *State, ev *Event) {
		if ev.Kind == "gstore" && ev.Frame.fn.Pkg == main.Pkg {
			n, f := s.value(st, ev.Val)
			s.globals[ev.Name] = constTimes{n, f}
		}
	})
	s.e.inline = func(f *ssa.Function) bool {
		return f.Name() != "init" && !s.netGetter(f) && (c.P.PkgRel(f) == configPkg || c.P.PkgRel(f) == daemonPkg)
	}
	c.Analyze(s.e, main.Pkg.Func("init"))
	for _, f := range append(c.P.FuncsIn(daemonPkg), main.Pkg.Func("init")) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.Store); ok {
					if g, ok := x.Addr.(*ssa.Global); ok {
						s.writes[globalName(g)]++
					}
				}
			}
		}
	}
}

// sinks: the functions that pass settings on, of any package.
func (s *settings) sinks() map[*ssa.Function]bool {
	c := s.c
	out := map[*ssa.Function]bool{}
	var all []*ssa.Function
	for _, p := range []string{daemonPkg, configPkg, app, "pkg/crawler", esploraPkg} {
		all = append(all, c.P.FuncsIn(p)...)
	}
	for changed := true; changed; {
		changed = false
		for _, f := range all {
			if out[f] || f.Name() == "init" || s.netGetter(f) {
				continue
			}
			hit := c.P.PkgRel(f) == configPkg || c.P.PkgRel(f) == daemonPkg
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
							n, _ := s.e.fieldName(fa.X.Type(), fa.Field)
							hit = hit || fieldSettings[n] != ""
						}
					case ssa.CallInstruction:
						g := x.Common().StaticCallee()
						hit = hit || g != nil && (out[g] || fnName(g) == "rate.NewLimiter")
					}
				}
			}
			if hit {
				out[f], changed = true, true
			}
		}
	}
	return out
}

// main: what the services are made with.
func (s *settings) main() {
	c := s.c
	main := c.P.Func(daemonPkg, "main")
	if main == nil {
		return
	}
	seen := map[string]bool{}
	check := func(st *State, ev *Event, what, want string, v *Term) {
		got := s.text(st, v)
		ok := false
		for _, w := range strings.Split(want, " ") {
			ok = ok || got == w
		}
		seen[what] = true
		c.At(ev, "settings", what, ok, "made with "+got+" instead of "+strings.Split(want, " ")[0])
	}
	through := s.sinks()
	s.e.inline = func(f *ssa.Function) bool { return through[f] }
	s.e.hook = func(st *State, ev *Event) {
		switch ev.Kind {
		case "store":
			if want := fieldSettings[ev.Name]; want != "" {
				what := ev.Name
				if strings.HasPrefix(what, "http.") {
					what += " " + s.caller(ev.Frame)
				}
				check(st, ev, what, want, ev.Val)
			}
		case "gstore":
			if want := globalSettings[ev.Name]; want != "" {
				check(st, ev, ev.Name, want, ev.Val)
			}
		case "call":
			if want, ok := callSettings[ev.Name]; ok {
				var is []int
				for i := range want {
					is = append(is, i)
				}
				sort.Ints(is)
				for _, i := range is {
					if i < len(ev.Args) {
						check(st, ev, ev.Name+"#"+itoa(i), want[i], ev.Args[i])
					}
				}
			}
			if ev.Fn != nil && c.P.PkgRel(ev.Fn) == interfacesPkg && ev.Last() == "NewService" && len(ev.Args) == 1 {
				for _, k := range sortedKeys(optionSettings) {
					check(st, ev, "options."+k, optionSettings[k], fieldByName(s.e, st, ev.Args[0], k))
				}
			}
			if ev.Name == "http.ListenAndServe" {
				seen["profiler"] = true
				on := false
				st.Each(func(k byte, t *Term) bool {
					if k == 'T' {
						n, _ := s.value(st, t)
						on = on || n == "ENABLE_PROFILER"
					}
					return false
				})
				c.At(ev, "settings", "profiler", on, "the profiler is served though it may not be enabled")
			}
		}
	}
	c.Analyze(s.e, main)
	for _, k := range append(append(sortedKeys(fieldSettings), sortedKeys(globalSettings)...), "options.Datadir") {
		ok := seen[k]
		for w := range seen {
			ok = ok || strings.HasPrefix(w, k+" ")
		}
		c.Ob("settings", "used:"+k, ok, c.P.Pos(main.Pos()), "nothing sets "+k+" from the settings")
	}
	for _, k := range sortedKeys(callSettings) {
		for i := range callSettings[k] {
			c.Ob("settings", "used:"+k+"#"+itoa(i), seen[k+"#"+itoa(i)], c.P.Pos(main.Pos()), "argument "+itoa(i)+" of "+k+" is not set by the daemon")
		}
	}
}

// caller: the name of the function of the daemon that is being followed.
func (s *settings) caller(fr *Frame) string {
	for ; fr != nil; fr = fr.parent {
		if r := s.c.P.PkgRel(fr.fn); r == daemonPkg || r == configPkg {
			return fnName(fr.fn)
		}
	}
	return ""
}

// network: the configured one is chosen.
func (s *settings) network() {
	c := s.c
	n := 0
	for _, f := range c.P.FuncsIn(configPkg) {
		if !s.netGetter(f) || f.Blocks == nil {
			continue
		}
		n++
		// comparisons of the setting with the names of networks
		cmps := map[*Term]string{}
		s.e.inline = func(g *ssa.Function) bool { return c.P.PkgRel(g) == configPkg }
		s.e.hook = nil
		s.e.onAssume = func(st *State, k byte, t *Term) {
			if t.Op == "eq" {
				for i := range t.Args {
					a, _ := s.value(st, t.Args[i])
					b, _ := s.value(st, t.Args[1-i])
					if a == "NETWORK" && (b == "network.Liquid.Name" || b == "network.Regtest.Name") {
						cmps[t] = strings.TrimSuffix(b, ".Name")
					}
				}
			}
		}
		c.Analyze(s.e, f)
		s.e.onAssume = nil
		for _, want := range []string{"network.Liquid", "network.Regtest"} {
			s.e.hook = func(st *State, ev *Event) {
				if ev.Kind != "return" || ev.Frame.parent != nil {
					return
				}
				for _, t := range alts(lastArg(ev)) {
					c.At(ev, "network", "chosen:"+want, t.Op == "global" && t.Aux == want, "the network "+t.str(3)+" is used though "+want+" is configured")
				}
			}
			c.AnalyzeWith(s.e, f, want, func(st *State, _ []*Term) {
				for t, name := range cmps {
					k := byte('F')
					if name == want {
						k = 'T'
					}
					st.assume(t, k)
				}
			})
		}
	}
	c.Need("network", n, 1, "functions that choose the network")
}

// Ranges of numeric settings: lower and upper bounds, and if they are excluded.
type span struct {
	lo, hi     string
	loEx, hiEx bool
	why        string
}

var spans = map[string]span{
	"DEFAULT_FEE":                   {lo: "1/100", hi: "9999/100", why: "a market's fee is between 1 and 9999 basis points"},
	"PRICE_SLIPPAGE":                {lo: "0", hi: "1", hiEx: true, why: "a slippage of 100% lets trades be accepted at any price"},
	"FAILING_RATIO":                 {lo: "0", hi: "1", why: "a ratio is between 0 and 1"},
	"MAX_FAILING_REQUESTS":          {lo: "0", why: "it counts requests"},
	"FEE_ACCOUNT_BALANCE_THRESHOLD": {lo: "0", why: "it is used as an unsigned amount"},
	"CRAWL_INTERVAL":                {lo: "0", loEx: true, why: "tickers panic unless it is positive"},
	"CRAWL_LIMIT":                   {lo: "0", loEx: true, why: "it is a divisor"},
	"CRAWL_TOKEN":                   {lo: "0", loEx: true, why: "no request would ever be allowed"},
	"TRADE_EXPIRY_TIME":             {lo: "0", loEx: true, why: "trades would expire at once"},
	"STATS_INTERVAL":                {lo: "0", loEx: true, why: "tickers panic unless it is positive"},
}

// inSpan: what is known of the setting keeps it in its range.
func (s *settings) inSpan(st *State, key string, sp span) bool {
	lo, hi := sp.lo == "", sp.hi == ""
	st.Each(func(k byte, t *Term) bool {
		if len(t.Args) != 2 || t.Op != "lt" && t.Op != "le" || k != 'T' && k != 'F' {
			return false
		}
		a, b := t.Args[0], t.Args[1]
		strict := t.Op == "lt"
		if k == 'F' { // not a < b is b <= a, unless one of them is not a number
			if isFloat(a.Typ) || isFloat(b.Typ) {
				return false
			}
			a, b, strict = b, a, !strict
		}
		an, af := s.value(st, a)
		bn, bf := s.value(st, b)
		whole := !isFloat(a.Typ) && !isFloat(b.Typ)
		// a <(=) b
		if an == "" && bn == key && bf.Sign() > 0 && sp.lo != "" {
			x := new(big.Rat).Quo(af, bf)
			want, _ := new(big.Rat).SetString(sp.lo)
			if whole && strict {
				x.Add(x, big.NewRat(1, 1))
			}
			d := x.Cmp(want)
			lo = lo || d > 0 || d == 0 && (!sp.loEx || strict && !whole)
		}
		if bn == "" && an == key && af.Sign() > 0 && sp.hi != "" {
			x := new(big.Rat).Quo(bf, af)
			want, _ := new(big.Rat).SetString(sp.hi)
			d := x.Cmp(want)
			hi = hi || d < 0 || d == 0 && (!sp.hiEx || strict)
		}
		return false
	})
	return lo && hi
}

// validators: what the initialisation of the configuration calls that may fail.
func (s *settings) validators() (out []*ssa.Function) {
	c := s.c
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				x, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := x.Common().StaticCallee()
				if g == nil || seen[g] || c.P.PkgRel(g) != configPkg {
					continue
				}
				seen[g] = true
				if r := g.Signature.Results(); r.Len() == 1 && isErrorType(r.At(0).Type()) && g.Signature.Params().Len() == 0 {
					out = append(out, g)
				} else {
					visit(g)
				}
			}
		}
	}
	for _, f := range c.P.FuncsIn(configPkg) {
		if strings.HasPrefix(f.Name(), "init#") {
			visit(f)
		}
	}
	return
}

// validation: the daemon does not start with settings out of range.
func (s *settings) validation() {
	c := s.c
	vs := s.validators()
	c.Need("valid", len(vs), 1, "functions that validate settings")
	s.e.inline = func(g *ssa.Function) bool { return c.P.PkgRel(g) == configPkg }
	inRange := map[string]bool{}
	facts := map[string]bool{}
	terms := map[string]*Term{}
	where := "-"
	ends := 0
	end := func(f func(st *State)) func(*State, *Event) {
		return func(st *State, ev *Event) {
			if ev.Kind == "after" && isGetter(ev.Name) && len(ev.Res) == 1 && isString(ev.Res[0].Typ) {
				n, _ := s.value(st, ev.Res[0])
				terms[n] = ev.Res[0]
			}
			if ev.Kind != "return" || ev.Frame.parent != nil {
				return
			}
			if _, good := outcomes(st, ev); good != nil {
				f(good)
			}
		}
	}
	defer func() { s.e.onAssume = nil }()
	s.e.onAssume = func(st *State, k byte, t *Term) {
		if k == 'T' && t.Op == "eq" {
			for i := range t.Args {
				a, _ := s.value(st, t.Args[i])
				b, _ := s.value(st, t.Args[1-i])
				if a == "NETWORK" && (b == "network.Liquid.Name" || b == "network.Regtest.Name") {
					st.Gen("netname")
				}
			}
		}
	}
	for _, v := range vs {
		first := true
		s.e.hook = end(func(st *State) {
			ends++
			for k, sp := range spans {
				ok := s.inSpan(st, k, sp)
				inRange[k] = ok && (first || inRange[k])
			}
			facts["NETWORK"] = st.HasLabel("netname") && (first || facts["NETWORK"])
			dir := terms["DATA_DIR_PATH"]
			ok := dir != nil && !st.feasible(dir, 'N')
			facts["DATA_DIR_PATH"] = ok && (first || facts["DATA_DIR_PATH"])
			first = false
		})
		before, beforeF := inRange, facts
		inRange, facts = map[string]bool{}, map[string]bool{}
		c.Analyze(s.e, v)
		for k := range before {
			inRange[k] = inRange[k] || before[k]
		}
		for k := range beforeF {
			facts[k] = facts[k] || beforeF[k]
		}
		where = c.P.Pos(v.Pos())
	}
	c.Need("valid", ends, 1, "successful ends of the validation")
	for _, k := range sortedKeys(spans) {
		c.Ob("valid", k, inRange[k], where, "a value of "+k+" out of range is accepted: "+spans[k].why)
	}
	c.Ob("valid", "NETWORK", facts["NETWORK"], where, "a network other than liquid and regtest is accepted")
	c.Ob("valid", "DATA_DIR_PATH", facts["DATA_DIR_PATH"], where, "an empty data directory is accepted")
	// a key without a certificate, and the other way around
	key, cert := terms["SSL_KEY"], terms["SSL_CERT"]
	if key == nil || cert == nil {
		c.Ob("valid", "SSL", false, where, "the key and the certificate of the trade interface are not validated")
		return
	}
	for _, x := range []struct {
		a, b *Term
		tag  string
	}{{key, cert, "key without certificate"}, {cert, key, "certificate without key"}} {
		rejected := false
		for _, v := range vs {
			accepted := false
			s.e.hook = end(func(st *State) { accepted = true })
			c.AnalyzeWith(s.e, v, x.tag, func(st *State, _ []*Term) {
				st.assume(s.e.tab.mk("empty", "", types.Typ[types.Bool], x.a), 'F')
				st.assume(s.e.tab.mk("empty", "", types.Typ[types.Bool], x.b), 'T')
			})
			rejected = rejected || !accepted
		}
		c.Ob("valid", "SSL:"+x.tag, rejected, where, "a "+x.tag+" is accepted: the trade interface would be served in clear")
	}
}

// startup: the daemon only goes on if the validation succeeded; settings come
// from the environment; authentication is on unless turned off.
func (s *settings) startup() {
	c := s.c
	vs := map[*ssa.Function]bool{}
	for _, v := range s.validators() {
		vs[v] = true
	}
	done := map[string]bool{}
	n := 0
	for _, f := range c.P.FuncsIn(configPkg) {
		if !strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		errs := map[*Term]string{}
		s.e.inline = func(g *ssa.Function) bool { return c.P.PkgRel(g) == configPkg && !vs[g] }
		s.e.hook = func(st *State, ev *Event) {
			switch {
			case ev.Kind == "after" && ev.Fn != nil && vs[ev.Fn] && len(ev.Res) == 1:
				errs[ev.Res[0]] = fnName(ev.Fn)
				st.Gen("called", ev.Res[0])
			case ev.Kind == "call" && lastIs(ev.Name, "viper.Viper.SetEnvPrefix") && len(ev.Args) == 2:
				p, _ := s.value(st, ev.Args[1])
				c.At(ev, "startup", "prefix", p == "'TDEX'", "settings are read from variables that start with "+p)
				done["prefix"] = true
			case ev.Kind == "call" && lastIs(ev.Name, "viper.Viper.AutomaticEnv"):
				done["env"] = true
			case ev.Kind == "call" && lastIs(ev.Name, "viper.Viper.SetDefault", "viper.Viper.Set") && len(ev.Args) == 3:
				k, _ := s.value(st, ev.Args[1])
				v := ev.Args[2]
				if k == "'NO_MACAROONS'" || k == "'ENABLE_PROFILER'" {
					off := v.Con != nil && v.Con.Kind() == constant.Bool && !constant.BoolVal(v.Con) || v.IsZero()
					c.At(ev, "startup", "default:"+k, off, k+" is on unless turned off")
				}
				if ev.Last() == "Set" {
					c.At(ev, "startup", "set:"+k, k == "'MNEMONIC'", k+" is replaced, whatever was configured")
				}
			case ev.Kind == "return" && ev.Frame.parent == nil:
				for t, name := range errs {
					n++
					c.At(ev, "startup", "validated:"+name, st.Is("called", t) && okErr(st, t), "the daemon starts though the validation of its settings may have failed")
				}
			}
		}
		c.Analyze(s.e, f)
	}
	c.Ob("startup", "env", done["env"] && done["prefix"], "-", "settings are not read from the environment")
	c.Need("startup", n, 1, "validations of settings at startup")
}

// interfaces: each server listens on its own address, with its own key.
func (s *settings) interfaces() {
	c := s.c
	nt := c.P.Named(interfacesPkg, "service")
	if nt == nil {
		c.Ob("servers", "anchor", false, "-", "the gRPC service is gone")
		return
	}
	start := c.P.Method(nt, "Start")
	if start == nil {
		c.Ob("servers", "anchor", false, "-", "the gRPC service has no method Start")
		return
	}
	s.e.inline = func(g *ssa.Function) bool {
		return c.P.PkgRel(g) == interfacesPkg && !strings.Contains(g.Name(), "startListening")
	}
	type side struct{ what, addr, key, cert string }
	names := map[string]string{}
	for _, p := range start.Params {
		names[p.Name()] = p.Name()
	}
	if len(start.Params) != 5 {
		c.Ob("servers", "anchor", false, c.P.Pos(start.Pos()), "the gRPC service is started with other parameters")
		return
	}
	for _, withTLS := range []bool{true, false} {
		tag := "plain"
		if withTLS {
			tag = "tls"
		}
		var par []*Term
		configs := map[*Term]served{}
		s.tls = map[*Term]served{}
		done := map[string]bool{}
		s.e.hook = func(st *State, ev *Event) {
			switch {
			case ev.Kind == "after" && (ev.Name == "filepath.Join" || ev.Name == "path.Join") && len(ev.Res) == 1:
				for _, x := range s.e.Elems(st, ev.Args[len(ev.Args)-1]) {
					if x.Con != nil && x.Con.Kind() == constant.String && constant.StringVal(x.Con) != "" {
						st.assume(s.e.tab.mk("empty", "", types.Typ[types.Bool], ev.Res[0]), 'F')
					}
				}
			case ev.Kind == "store" && ev.Name == "tls.Config.Certificates":
				x := served{"", "?", "?"}
				if es := s.e.Elems(st, ev.Val); len(es) == 1 && es[0].CallName() == "tls.LoadX509KeyPair" && okErr(st, es[0]) {
					a := es[0].callOf().Args
					x.cert, x.key = s.text(st, a[0]), s.text(st, a[1])
				}
				configs[ev.Base] = x
			case ev.Kind == "after" && ev.Name == "tls.NewListener" && len(ev.Res) == 1:
				if x, ok := configs[ev.Args[1]]; ok {
					s.tls[ev.Res[0]] = x
				}
			case ev.Kind == "call" && lastIs(ev.Name, "trade.RegisterTradeServer", "operator.RegisterOperatorServer", "wallet.RegisterWalletServer") && len(ev.Args) == 2:
				st.Gen("registered:"+ev.Last(), ev.Args[0])
			case ev.Kind == "call" && ev.Name == "grpc.Server.Serve" && len(ev.Args) == 2:
				what := ""
				trade := st.Is("registered:RegisterTradeServer", ev.Args[0])
				oper := st.Is("registered:RegisterOperatorServer", ev.Args[0]) || st.Is("registered:RegisterWalletServer", ev.Args[0])
				want := side{}
				switch {
				case trade && !oper:
					what, want = "trade", side{"trade", par[2].str(3), s.text(st, par[3]), s.text(st, par[4])}
				case oper && !trade:
					what = "operator"
					dir := "param s.opts.Datadir/param s.opts.TLSLocation/"
					dir = strings.ReplaceAll(dir, "param s", s.text(st, par[0]))
					want = side{"operator", par[1].str(3), dir + "key.pem", dir + "cert.pem"}
				}
				if what == "" {
					c.At(ev, "servers", "one:"+tag, false, "a server is served that is not known to be for one of the interfaces")
					return
				}
				done[what] = true
				got := s.listener(st, ev.Args[1])
				c.At(ev, "servers", what+":address:"+tag, got.addr == want.addr, "the "+what+" interface listens on "+got.addr)
				if withTLS {
					c.At(ev, "servers", what+":tls:"+tag, got.key == want.key && got.cert == want.cert, "the "+what+" interface is served with key "+got.key+" and certificate "+got.cert)
				} else {
					c.At(ev, "servers", what+":tls:"+tag, got.key == "" && got.cert == "", "the "+what+" interface needs a key though none is configured")
				}
			}
		}
		c.AnalyzeWith(s.e, start, tag, func(st *State, args []*Term) {
			par = args
			k := byte('T')
			no := byte('T')
			if withTLS {
				k, no = 'F', 'F'
			}
			st.assume(s.e.tab.mk("empty", "", types.Typ[types.Bool], args[3]), k)
			st.assume(s.e.tab.mk("empty", "", types.Typ[types.Bool], args[4]), k)
			if opts := fieldByName(s.e, st, args[0], "opts"); opts != nil {
				if m := fieldByName(s.e, st, opts, "NoMacaroons"); m != nil {
					st.assume(m, no)
				}
			}
		})
		for _, w := range []string{"trade", "operator"} {
			c.Ob("servers", w+":served:"+tag, done[w], c.P.Pos(start.Pos()), "the "+w+" interface is not served")
		}
	}
}

type served struct{ addr, key, cert string }

// listener: the address and the key and certificate of a listener.
func (s *settings) listener(st *State, t *Term) (out served) {
	for depth := 0; t != nil && depth < 20; depth++ {
		if t.Op == "phi" && len(t.Alts) > 0 {
			var first *served
			for _, a := range t.Alts {
				x := s.listener(st, a)
				if first != nil && *first != x {
					return served{"?", "?", "?"}
				}
				first = &x
			}
			if out.key != "" {
				first.key, first.cert = out.key, out.cert
			}
			return *first
		}
		call := t.callOf()
		if call == nil || len(call.Args) == 0 {
			return served{"?" + t.str(4), out.key, out.cert}
		}
		switch t.CallName() {
		case "net.Listen":
			out.addr = call.Args[1].str(3)
			return
		case "tls.NewListener":
			out.key, out.cert = "?", "?"
			if x, ok := s.tls[t]; ok {
				out.key, out.cert = x.key, x.cert
			}
		}
		t = call.Args[0]
	}
	return
}

// breaker: the circuit breaker opens at the configured number and ratio.
func (s *settings) breaker() {
	c := s.c
	n := 0
	for _, f := range c.P.FuncsIn("pkg/circuitbreaker") {
		sig := f.Signature
		if sig.Results().Len() != 1 || sig.Params().Len() != 1 || lastPart(typeName(sig.Params().At(0).Type())) != "Counts" {
			continue
		}
		n++
		s.e.inline = func(g *ssa.Function) bool { return c.P.PkgRel(g) == "pkg/circuitbreaker" }
		s.e.hook = func(st *State, ev *Event) {
			if ev.Kind != "return" || ev.Frame.parent != nil {
				return
			}
			good := st.lightClone()
			if !good.assume(lastArg(ev), 'T') {
				return
			}
			over, ratio := false, false
			good.Each(func(k byte, t *Term) bool {
				if len(t.Args) == 2 && (t.Op == "lt" || t.Op == "le") {
					lo, hi := t.Args[0], t.Args[1]
					if k == 'F' {
						lo, hi = hi, lo
					} else if k != 'T' {
						return false
					}
					is := func(t *Term, n string) bool {
						return t.Contains(func(x *Term) bool { return x.Op == "gload" && lastPart(x.Aux) == n })
					}
					over = over || is(lo, "MaxNumOfFailingRequests") && hi.Contains(func(x *Term) bool { return x.Op == "field" })
					ratio = ratio || is(lo, "FailingRatio") && hi.Contains(func(x *Term) bool { return x.Op == "field" && lastPart(x.Aux) == "TotalFailures" })
				}
				return false
			})
			c.At(ev, "breaker", "count", over, "the circuit opens though no more requests than configured were made")
			c.At(ev, "breaker", "ratio", ratio, "the circuit opens though fewer of them failed than configured")
		}
		c.Analyze(s.e, f)
	}
	c.Need("breaker", n, 1, "conditions for a circuit to open")
}
