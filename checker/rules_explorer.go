package main

import (
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	explorerPkg = "pkg/explorer"
	esploraPkg  = "pkg/explorer/esplora"
	elementsPkg = "pkg/explorer/elements"
)

// C24: explorer clients report what their explorer answered.
func init() {
	rules["C24"] = func(c *Check) {
		c.Note("The methods of both explorer clients are followed with their helpers and goroutines inlined. Requests and results are traced to arguments and to keys of the answers (by JSON tags); answers are used only where the request is known to have succeeded.")
		c.Assume("net/http, encoding/json and go-elements do what their documentation says; Esplora and Elements name the parts of their answers as they do today")
		c.explorerMethods()
		c.explorerTypes()
		c.explorerClients()
		c.explorerAssertions()
	}
}

// exTracer follows one function of an explorer client.
type exTracer struct {
	*api
	asks    []*Term                    // requests made
	sent    map[string]bool            // their names
	decoded map[*Term]string           // values decoded from an answer
	lists   []string                   // answers that must be passed on entirely
	busy    map[*Term]int              // values being traced
	outs    map[*Term]map[string]*Term // parts of outputs that are unblinded
	pos     map[string]*Term           // positions in lists of what is in a map
	value   string                     // field of the value of coins, if they may be blinded
	fields  map[string]string          // fields of coins
	want    map[string]bool            // names of the requests that may be made
}

var exRequests = map[string]bool{"esplora.Client.NewHTTPRequest": true, "elements.RPCClient.call": true}

func isExRequest(t *Term) bool {
	return t != nil && t.Op == "call" && exRequests[t.CallName()]
}

// jsonName: the key of a field in JSON.
func jsonName(t types.Type, field string) string {
	s, ok := elemOrSelf(t).Underlying().(*types.Struct)
	if !ok {
		return field
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() != field {
			continue
		}
		if n := strings.Split(reflect.StructTag(s.Tag(i)).Get("json"), ",")[0]; n != "" {
			return n
		}
	}
	return field
}

// structNames: fields of structs of the package, to know parts of elements by.
func (c *Check) structNames(pkg string) map[string]bool {
	out := map[string]bool{"": true}
	var all []*types.Struct
	for _, p := range c.P.Pkgs {
		if !strings.HasSuffix(p.PkgPath, "/"+pkg) {
			continue
		}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				if s, ok := tn.Type().Underlying().(*types.Struct); ok {
					all = append(all, s)
				}
			}
		}
	}
	var names func(s *types.Struct, prefix string, depth int, iface bool)
	names = func(s *types.Struct, prefix string, depth int, iface bool) {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			n := prefix + f.Name()
			out[n] = true
			if depth == 0 {
				continue
			}
			t := f.Type()
			dot := "."
			if l, ok := t.Underlying().(*types.Slice); ok {
				t, dot = l.Elem(), "[]."
			}
			switch u := t.Underlying().(type) {
			case *types.Struct:
				names(u, n+dot, depth-1, iface)
			case *types.Interface:
				if iface {
					for _, s2 := range all {
						names(s2, n+dot, depth-1, false)
					}
				}
			}
		}
	}
	for _, s := range all {
		names(s, "", 2, true)
	}
	return out
}

func (c *Check) explorerTracer(name, pkg string, fn *ssa.Function) *exTracer {
	e := NewEngine(c.P)
	a := &exTracer{api: &api{c: c, e: e, name: name, rows: map[string]map[ssa.Instruction]map[string][]string{}, sufs: c.structNames(pkg), in: map[*Term][]apiElem{}},
		sent: map[string]bool{}, decoded: map[*Term]string{}, want: map[string]bool{}, busy: map[*Term]int{}, pos: map[string]*Term{}, outs: map[*Term]map[string]*Term{}}
	for s := range c.structNames(pkg) {
		if s != "" {
			a.sufs["[]."+s] = true
		}
	}
	for _, s := range []string{"Script", "Sequence", "IsPegin", "Witness", "Witness[]", "Hash", "Index", "Asset", "Value"} {
		a.sufs[s] = true
	}
	e.inline = func(f *ssa.Function) bool {
		if f != fn && exRequests[fnName(f)] {
			return false
		}
		rel := c.P.PkgRel(f)
		return rel == esploraPkg || rel == elementsPkg
	}
	e.pure = func(n string) bool { return n == "transactionutil.UnblindOutput" }
	first := 0
	if fn.Signature.Recv() != nil {
		first = 1
	}
	join := func(st *State, t *Term) string { return strings.Join(a.part(st, t, ""), "|") }
	a.root = func(st *State, t *Term) (string, bool) {
		if n, ok := t.IntConst(); ok {
			return itoa(int(n)), true
		}
		switch t.Op {
		case "param":
			if i := paramIdx(t); i >= first {
				return "a" + itoa(i-first), true
			}
			return "t", true
		case "gload":
			if strings.HasSuffix(t.Aux, "http.NoBody") {
				return "nil", true
			}
		case "iface", "conv", "load", "deref":
			if len(t.Args) == 1 && !narrows(t) {
				return join(st, t.Args[0]), true
			}
		case "lt", "le":
			l, r := join(st, t.Args[0]), join(st, t.Args[1])
			return l + map[string]string{"lt": "<", "le": "<="}[t.Op] + r, true
		case "not":
			if x := t.Args[0]; x.Op == "lt" && isOne(x.Args[1]) {
				return "0<" + join(st, x.Args[0]), true
			}
			return "not(" + join(st, t.Args[0]) + ")", true
		case "bin":
			l, r := join(st, t.Args[0]), join(st, t.Args[1])
			if b, ok := t.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return strings.TrimPrefix(l, "the text ") + strings.TrimPrefix(r, "the text "), true
			}
			return l + t.Aux + r, true
		case "index":
			b := join(st, t.Args[0])
			if n, ok := t.Args[1].IntConst(); ok {
				return b + "[" + itoa(int(n)) + "]", true
			}
			if i := t.Args[1]; i.Op == "phi" || i.Op == "bin" && (i.Args[0].Op == "phi" || i.Args[1].Op == "phi") {
				return b + "[]", true
			}
			return b + "[" + join(st, t.Args[1]) + "]", true
		case "field", "faddr":
			b := join(st, t.Args[0])
			n := lastPart(t.Aux)
			if strings.HasPrefix(b, "decoded(") || strings.HasPrefix(b, "rpc(") || b == "t" {
				n = jsonName(t.Args[0].Typ, n)
			}
			return b + "." + n, true
		case "alloc", "make":
			if s, ok := a.decoded[t]; ok {
				return s, true
			}
			if m := a.rows[contKey(t)]; m != nil && isMap(t.Typ) {
				var ss []string
				for _, r := range m {
					ss = append(ss, strings.Join(r["key"], "|")+":"+strings.Join(r[""], "|"))
				}
				sort.Strings(ss)
				return strings.ReplaceAll("{"+strings.Join(ss, ",")+"}", "the text ", ""), true
			}
		case "slice":
			if s, ok := a.decoded[t.Args[0]]; ok {
				if partial(t) {
					s += "?part"
				}
				return s, true
			}
			if partial(t) {
				lo := t.Args[1]
				if len(t.Args) == 2 || t.Args[2] == nil || t.Args[2].Op == "?" {
					return join(st, t.Args[0]) + "[" + join(st, lo) + ":]", true
				}
				return join(st, t.Args[0]) + "?part", true
			}
			if t.Args[0].Op == "alloc" {
				if els := e.Elems(st, t); len(els) > 0 {
					var ss []string
					for _, x := range els {
						ss = append(ss, join(st, x))
					}
					return "[" + strings.Join(ss, ",") + "]", true
				}
			}
			return join(st, t.Args[0]), true
		case "append":
			ss := []string{}
			for _, x := range t.Args {
				ss = append(ss, join(st, x))
			}
			return strings.Join(ss, "+"), true
		case "lookup":
			if k, ok := t.Args[1].StrConst(); ok {
				return join(st, t.Args[0]) + "." + k, true
			}
		case "extract":
			x := t.Args[0]
			if x.Op == "recv" || x.Op == "select" {
				return "", false
			}
			if x.Op != "call" {
				break
			}
			as := x.CallArgs()
			switch x.CallName() + "#" + t.Aux {
			case "esplora.Client.NewHTTPRequest#0":
				return "status", true
			case "esplora.Client.NewHTTPRequest#1":
				return "answer(" + a.request(st, x) + ")", true
			case "elements.RPCClient.call#0":
				return "rpc(" + a.request(st, x) + ")", true
			}
			switch lastPart(x.CallName()) + "#" + t.Aux {
			case "Atoi#0":
				return "int(" + join(st, as[0]) + ")", true
			case "DecodeString#0", "CommitmentToBytes#0":
				return "unhex(" + join(st, as[0]) + ")", true
			case "ToOutputScript#0":
				return "scriptof(" + join(st, as[0]) + ")", true
			case "FromConfidential#0":
				return "ctinfo(" + join(st, as[0]) + ")", true
			case "TxIDToBytes#0":
				return "txid(" + join(st, as[0]) + ")", true
			case "AssetHashToBytes#0":
				return "asset(" + join(st, as[0]) + ")", true
			case "ValueToBytes#0", "SatoshiToElementsValue#0":
				return "value(" + join(st, as[0]) + ")", true
			case "ElementsToSatoshiValue#0":
				return "satoshis(" + join(st, as[0]) + ")", true
			case "NewTxFromHex#0":
				return "tx(" + join(st, as[0]) + ")", true
			case "PrivKeyFromBytes#0":
				return "privkey(" + join(st, as[1]) + ")", true
			case "PrivKeyFromBytes#1":
				return "pubof(" + join(st, as[1]) + ")", true
			case "UnblindOutput#0":
				return "unblinded(" + join(st, as[1]) + ")", true
			case "UnblindOutputWithKey#0":
				return "unblinded(" + join(st, as[0]) + ";" + join(st, as[1]) + ")", true
			case "Marshal#0":
				return "json(" + join(st, as[0]) + ")", true
			case "ReadAll#0":
				return "read(" + join(st, as[0]) + ")", true
			case "Do#0", "doTimeoutRequest#0":
				return "response(" + join(st, as[len(as)-1]) + ")", true
			case "NewRequest#0":
				return "request(" + join(st, as[0]) + ";" + join(st, as[1]) + ";" + join(st, as[2]) + ")", true
			}
		case "call":
			as := t.CallArgs()
			switch n := t.CallName(); lastPart(n) {
			case "Sprintf":
				f, ok := as[0].StrConst()
				if !ok {
					break
				}
				for _, x := range e.Elems(st, as[1]) {
					i := strings.Index(f, "%")
					if i < 0 || i+1 >= len(f) || !strings.ContainsRune("svd", rune(f[i+1])) {
						return "?" + f, true
					}
					f = f[:i] + strings.TrimPrefix(join(st, x), "the text ") + f[i+2:]
				}
				return f, true
			case "NewTxInput":
				return "in(" + join(st, as[0]) + ";" + join(st, as[1]) + ")", true
			case "NewTxOutput":
				return "out(" + join(st, as[0]) + ";" + join(st, as[1]) + ";" + join(st, as[2]) + ")", true
			case "EncodeToString":
				return "hex(" + join(st, as[0]) + ")", true
			case "ReverseBytes":
				return "reversed(" + join(st, as[0]) + ")", true
			case "Round":
				return "round(" + join(st, as[0]) + ")", true
			case "Pow10":
				if k, ok := as[0].IntConst(); ok {
					return "1" + strings.Repeat("0", int(k)), true
				}
			case "NewReader", "NewBufferString":
				return join(st, as[0]), true
			case "Serialize", "SerializeCompressed", "TxHash", "VirtualSize", "Weight", "String":
				return lastPart(n) + "(" + join(st, as[0]) + ")", true
			}
		}
		return "", false
	}
	names := func() []string { return append([]string{"chan", "inner"}, a.lists...) }
	did := func(st *State, async bool, n string) {
		st.Gen("did:" + n)
		if async {
			st.Gen("!did:" + n)
		}
	}
	settle := func(st *State) {
		for _, n := range names() {
			if st.Is("go!did:" + n) {
				st.Gen("did:" + n)
			}
		}
	}
	put := func(st *State, ev *Event, cont string, v *Term) {
		// a failure ends everything
		if err := fieldByName(e, st, v, "err"); err != nil && isErrorType(err.Typ) && !mayBeNil(st, err) {
			for _, n := range names() {
				did(st, ev.Async, n)
			}
			return
		}
		row := map[string][]string{}
		for s := range a.sufs {
			row[s] = a.part(st, v, s)
			if a.value != "" && !strings.Contains(s, "[]") && (s == a.value || strings.HasSuffix(s, "."+a.value)) {
				again := received(v) || v.Any(isItem)
				for i, p := range row[s] {
					switch {
					case st.Is("plain"):
						row[s][i] = strings.TrimSuffix(p, "?blinded")
					case !again && strings.HasPrefix(p, "decoded(") && !strings.HasSuffix(p, "?blinded"):
						row[s][i] = p + "?blinded"
					}
				}
			}
		}
		if a.rows[cont] == nil {
			a.rows[cont] = map[ssa.Instruction]map[string][]string{}
		}
		a.rows[cont][ev.Instr] = row
		if ev.Kind != "mapupdate" && ev.Kind != "idxstore" {
			a.coin(st, ev, v)
		}
		for s := range row {
			for _, p := range row[s] {
				for _, l := range a.lists {
					if strings.Contains(p, l+"[]") {
						did(st, ev.Async, l)
					}
				}
			}
		}
		for _, l := range a.lists {
			if !strings.Contains(l, "/a0[]/") || received(v) {
				continue
			}
			for s := range row {
				for _, p := range row[s] {
					if strings.Contains(s, "[].") && strings.HasPrefix(p, l+"[].") {
						a.c.At(ev, "every", a.name+": "+l, st.Is("all:"+l), "the result may lack some of "+l)
					}
				}
			}
		}
		if v.Contains(fromChan) {
			did(st, ev.Async, "chan")
		}
		if v.Contains(isItem) {
			did(st, ev.Async, "inner")
		}
	}
	e.hook = func(st *State, ev *Event) {
		settle(st)
		switch ev.Kind {
		case "send":
			put(st, ev, contKey(ev.Base), ev.Val)
		case "append":
			if len(ev.Args) >= 2 {
				key := "append@" + e.site(ev.Frame, ev.Instr)
				for _, x := range ev.Args[1:] {
					els := e.Elems(st, x)
					for _, v := range els {
						put(st, ev, key, v)
					}
					if len(els) == 0 {
						put(st, ev, key+"...", x)
					}
				}
			}
		case "idxstore":
			if ev.Base != nil && ev.Val != nil && !isArray(ev.Base) {
				put(st, ev, contKey(ev.Base), ev.Val)
				if strings.Contains(join(st, ev.Val), "privkey(a1[]") {
					ok := labelled(st, "key of", func(as []*Term) bool {
						return as[0].Op == "index" && len(ev.Args) > 1 && as[0].Args[1] == ev.Args[1] && join(st, as[0]) == "a0[]"
					})
					c.At(ev, "key", a.name, ok, "a blinding key may be kept for another address than its own")
				}
			}
		case "index":
			a.bounded(st, ev)
		case "mapupdate":
			if k, ok := ev.Args[1].StrConst(); ok && k == "blinding_privkey" && strings.Contains(join(st, ev.Val), "privkey(a1[]") {
				stored := ev.Val.Contains(func(x *Term) bool {
					return x.Op == "index" && contKey(x.Args[0]) != "" && len(a.rows[contKey(x.Args[0])]) > 0
				})
				ok := stored || labelled(st, "key of", func(as []*Term) bool { return join(st, as[0]) == "a0" })
				c.At(ev, "key", a.name, ok, "the blinding key given to the node may not be the one of the address")
			}
			for x := range a.places(ev.Val) {
				k := contKey(ev.Args[0])
				if a.pos[k] == nil {
					a.pos[k] = x
				}
				c.At(ev, "key", a.name+": same position", a.pos[k] == x, "what the node is told about an address belongs to different addresses")
			}
			put(st, ev, contKey(ev.Args[0]), ev.Val)
			if m := a.rows[contKey(ev.Args[0])]; m != nil && m[ev.Instr] != nil {
				m[ev.Instr]["key"] = a.part(st, ev.Args[1], "")
			}
		case "call":
			if strings.HasPrefix(lastPart(ev.Name), "Unblind") && len(ev.Args) > 0 {
				m := map[string]*Term{}
				for _, g := range unblindParts {
					m[g] = a.field(st, ev.Args[0], g)
				}
				a.outs[ev.Args[0]] = m
			}
			// an answer is used
			for _, x := range ev.Args {
				if ev.Name != "fmt.Errorf" && ev.Name != "errors.New" && !isExRequest(x) {
					a.use(st, ev, x)
				}
			}
			if exRequests[ev.Name] && ev.Frame.fn != fn {
				break
			}
		case "after":
			if exRequests[ev.Name] && len(ev.Res) > 0 {
				x := ev.Res[0].Args[0]
				r := a.request(st, x)
				a.sent[r] = true
				known := false
				for _, y := range a.asks {
					known = known || y == x
				}
				if !known {
					a.asks = append(a.asks, x)
				}
				c.At(ev, "asked", a.name, a.want[r] || a.want[strings.SplitN(r, ";", 2)[0]+";*"], "the explorer is asked for "+r)
			}
			if lastIs(ev.Name, "Unmarshal") && len(ev.Args) == 2 || lastIs(ev.Name, "Decode") && len(ev.Args) == 2 {
				x := ev.Args[1]
				for (x.Op == "iface" || x.Op == "conv") && len(x.Args) == 1 {
					x = x.Args[0]
				}
				src := join(st, ev.Args[0])
				if strings.HasPrefix(src, "json(") && strings.HasSuffix(src, ")") {
					a.decoded[x] = src[5 : len(src)-1]
				} else {
					a.decoded[x] = "decoded(" + src + ")"
				}
				st.CondGen('N', ev.Res[len(ev.Res)-1], "decoded", x)
			}
		case "load":
			b := ev.Base
			for b != nil && (b.Op == "faddr" || b.Op == "idx") {
				b = b.Args[0]
			}
			if _, ok := a.decoded[b]; ok && ev.Frame.fn.Name() != "init" {
				c.At(ev, "decoded", a.name, st.Is("decoded", b) || ev.Async, "an answer is read though it may not have been understood")
			}
		}
	}
	e.onAssume = func(st *State, k byte, t *Term) {
		settle(st)
		for _, x := range a.asks {
			if strings.HasPrefix(a.request(st, x), "importmulti") && a.answered(st, x) {
				st.Gen("watched")
				did(st, false, "a0")
			}
		}
		if k == 'T' && t.Op == "eq" {
			l, r := join(st, t.Args[0]), join(st, t.Args[1])
			for _, p := range [][2]string{{l, r}, {r, l}} {
				if p[0] == "decoded(rpc(listlabels;nil).result)[]" && strings.HasPrefix(p[1], "hex(scriptof(a0") {
					st.Gen("watched")
					did(st, false, "a0")
				}
			}
		}
		// what is known of a coin
		switch {
		case k == 'T' && t.Op == "empty" && join(st, t.Args[0]) == "a1",
			k == 'F' && t.Op == "call" && lastIs(t.CallName(), "IsConfidential"),
			k == 'T' && t.Op == "empty" && t.Args[0].Op == "field" && (lastPart(t.Args[0].Aux) == a.fields["ValueCommitment"] || lastPart(t.Args[0].Aux) == a.fields["AssetCommitment"]):
			st.Gen("plain")
		}
		if p := join(st, t); strings.HasPrefix(p, "0<decoded(") && strings.HasSuffix(p, ").confirmations") {
			st.Gen(map[byte]string{'T': "confirmed", 'F': "unconfirmed"}[k])
		}
		if k == 'F' && t.Op == "assertok" && strings.HasSuffix(join(st, t.Args[0]), ".confirmations") {
			st.Gen("unconfirmed")
		}
		if k == 'T' && t.Op == "empty" {
			p := join(st, t.Args[0])
			for _, l := range a.lists {
				if strings.HasPrefix(l, p) {
					st.Gen("all:" + l)
				}
			}
		}
		if k == 'T' && t.Op == "call" && lastIs(t.CallName(), "Equal") {
			for i, x := range t.CallArgs() {
				if y := t.CallArgs()[1-i]; strings.HasSuffix(join(st, x), ".BlindingKey") && strings.HasPrefix(join(st, y), "SerializeCompressed(pubof(a1[]") {
					x.Contains(func(z *Term) bool {
						if z.Op == "call" && lastIs(z.CallName(), "FromConfidential") {
							st.KillAll("key of")
							st.Gen("key of", z.CallArgs()[0])
						}
						return false
					})
				}
			}
		}
		if t.Op == "extract" && t.Aux == "1" && t.Args[0].Op == "recv" {
			st.Kill("plain")
			switch k {
			case 'T':
				st.Kill("all:chan")
				for _, s := range []string{"did:", "!did:", "go!did:"} {
					st.Kill(s + "chan")
				}
			case 'F':
				if st.Is("did:chan") {
					st.Gen("all:chan")
				} else {
					st.Kill("all:chan")
				}
				st.Gen("did:chan")
			}
			return
		}
		x := loopOver(t)
		if x == nil {
			return
		}
		over := ""
		p := join(st, x)
		for _, l := range a.lists {
			if l == p {
				over = l
			}
		}
		if over == "" && x.Any(func(y *Term) bool { return y.Op == "append" }) {
			over = "inner"
		}
		if over == "" {
			return
		}
		switch k {
		case 'T':
			st.Kill("plain")
			st.Kill("all:" + over)
			for _, s := range []string{"did:", "!did:", "go!did:"} {
				st.Kill(s + over)
			}
		case 'F':
			ok := st.Is("did:"+over) || st.Is("go!did:"+over)
			if ok {
				st.Gen("all:" + over)
			} else {
				st.Kill("all:" + over)
			}
			st.Gen("did:" + over)
			st.Gen("go!did:" + over)
		}
	}
	return a
}

func isMap(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// start: labels before anything happened.
func (a *exTracer) start(st *State) {
	for _, n := range append([]string{"chan", "inner"}, a.lists...) {
		st.Gen("did:" + n)
		st.Gen("go!did:" + n)
	}
	st.Gen("all:chan")
	st.Gen("all:inner")
}

// request names a request to the explorer.
func (a *exTracer) request(st *State, x *Term) string {
	as := x.CallArgs()
	j := func(t *Term) string {
		return strings.ReplaceAll(strings.TrimPrefix(strings.Join(a.part(st, t, ""), "|"), "the text "), "the text ", "")
	}
	if x.CallName() == "elements.RPCClient.call" {
		return j(as[1]) + ";" + j(as[2])
	}
	r := j(as[1]) + " " + strings.TrimPrefix(j(as[2]), "t.apiURL")
	if !strings.HasPrefix(j(as[2]), "t.apiURL") {
		r = "elsewhere " + r
	}
	if b := j(as[3]); b != "nil" {
		r += " " + b
	}
	return r
}

// answered: a request is known to have succeeded.
func (a *exTracer) answered(st *State, x *Term) bool {
	tup, ok := x.Typ.(*types.Tuple)
	if !ok {
		return false
	}
	n := tup.Len()
	err := a.e.tab.mk("extract", itoa(n-1), tup.At(n-1).Type(), x)
	if !st.Has('N', err) {
		return false
	}
	res := a.e.tab.mk("extract", "0", tup.At(0).Type(), x)
	if n == 3 {
		return st.HasMatch('T', func(t *Term) bool {
			if t.Op != "eq" {
				return false
			}
			for i := range t.Args {
				if v, ok := t.Args[1-i].IntConst(); ok && v == 200 && t.Args[i] == res {
					return true
				}
			}
			return false
		})
	}
	f := fieldByName(a.e, st, res, "Err")
	return f != nil && st.Has('N', f) || st.HasMatch('N', func(t *Term) bool {
		return (t.Op == "field" || t.Op == "load" || t.Op == "faddr") && strings.HasSuffix(t.Aux, ".Err") && t.Contains(func(y *Term) bool { return y == x })
	})
}

// use: what was answered is used only if the request succeeded.
func (a *exTracer) use(st *State, ev *Event, t *Term) {
	for t != nil && len(t.Args) == 1 && (t.Op == "conv" || t.Op == "iface" || t.Op == "load" || t.Op == "deref") {
		t = t.Args[0]
	}
	if t == nil {
		return
	}
	if (t.Op == "field" || t.Op == "faddr") && strings.HasSuffix(t.Aux, ".Result") {
		t = t.Args[0]
		if t.Op == "alloc" {
			if v := cell(st, t); v != nil {
				t = v
			}
		}
	} else if t.Op != "extract" || t.Aux != "1" || t.Args[0].Op != "call" || t.Args[0].CallName() != "esplora.Client.NewHTTPRequest" {
		return
	}
	if t.Op == "extract" && isExRequest(t.Args[0]) {
		a.c.At(ev, "answered", a.name, a.answered(st, t.Args[0]), "an answer is used though the request may have failed: "+a.request(st, t.Args[0]))
	}
}

// madeOf: arguments of constructors (from 1) kept in fields.
var madeOf = map[string]int{"NewTxInput.Hash": 1, "NewTxInput.Index": 2, "NewTxOutput.Asset": 1, "NewTxOutput.Value": 2, "NewTxOutput.Script": 3}

// part: where a part of a value comes from.
func (a *exTracer) part(st *State, t *Term, suf string) []string {
	if t == nil || a.busy[t] > 1 {
		return nil
	}
	a.busy[t]++
	defer func() { a.busy[t]-- }()
	set := map[string]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term, suf string)
	walk = func(t *Term, suf string) {
		if t == nil || seen[t] && t.Op == "phi" {
			return
		}
		seen[t] = true
		switch {
		case t.Op == "phi":
			for _, x := range t.Alts {
				if !excluded(st, t, x) {
					walk(x, suf)
				}
			}
			return
		case len(t.Args) == 1 && (t.Op == "iface" || t.Op == "conv" && !narrows(t)):
			walk(t.Args[0], suf)
			return
		case suf != "" && suf[0] == '[' && !received(t):
			rest := strings.TrimPrefix(strings.TrimPrefix(suf, "[]"), ".")
			for _, r := range a.members(st, t) {
				if r.direct != "" {
					p := r.direct + "[]"
					if rest != "" {
						p += "." + rest
					}
					set[p] = true
					continue
				}
				for _, p := range r.row[rest] {
					set[p] = true
				}
			}
			return
		case suf != "":
			head, rest := suf, ""
			if i := strings.IndexAny(suf, ".["); i >= 0 {
				head, rest = suf[:i], strings.TrimPrefix(suf[i:], ".")
			}
			if t.IsNil() || t.Op == "zero" {
				set["nil"] = true
				return
			}
			if f := a.field(st, t, head); f != nil {
				// unchanged since it was made
				if i := madeOf[lastPart(t.CallName())+"."+head]; i > 0 && t.Op == "call" && f.Op != "call" && f.Contains(func(x *Term) bool { return x == t }) {
					walk(t.CallArgs()[i-1], rest)
					return
				}
				walk(f, rest)
				return
			}
			if strings.HasPrefix(t.Op, "struct") {
				set["nothing"] = true
				return
			}
		case t.Op == "alloc":
			if v := cell(st, t); v != nil && v != t && v.Op != "struct" {
				if _, isS := elemOrSelf(t.Typ).Underlying().(*types.Struct); !isS && a.decoded[t] == "" {
					walk(v, suf)
					return
				}
			}
		}
		// a part of what was received or put into a list
		b, full := t, suf
		for b != nil {
			if b.Op == "field" {
				full = strings.TrimSuffix(lastPart(b.Aux)+"."+full, ".")
				b = b.Args[0]
				continue
			}
			if len(b.Args) == 1 && (b.Op == "iface" || b.Op == "conv" && !narrows(b) || b.Op == "load" || b.Op == "deref") {
				b = b.Args[0]
				continue
			}
			break
		}
		if strings.HasPrefix(full, "[].") || full == "[]" {
			full = strings.TrimPrefix(full, "[].")
		}
		full = strings.ReplaceAll(full, ".[]", "[]")
		if fromChan(b) {
			ch := b
			if ch.Op == "extract" {
				ch = ch.Args[0]
			}
			if len(ch.Args) > 0 {
				if len(a.rows[contKey(ch.Args[0])]) == 0 {
					// sent by somebody else
					set[strings.TrimSuffix("received."+full, ".")] = true
					return
				}
				for _, r := range a.rows[contKey(ch.Args[0])] {
					for _, p := range r[full] {
						set[p] = true
					}
					if _, ok := r[full]; !ok {
						set["?"+full] = true
					}
				}
				return
			}
		}
		if b.Op == "index" {
			ms := a.members(st, b.Args[0])
			known := len(ms) > 0
			for _, m := range ms {
				known = known && m.direct == ""
			}
			if known {
				for _, m := range ms {
					for _, p := range m.row[full] {
						set[p] = true
					}
				}
				return
			}
		}
		p := a.path(st, t)
		if suf != "" {
			n := suf
			if strings.HasPrefix(p, "decoded(") || p == "t" {
				n = jsonName(t.Typ, suf)
			}
			p += "." + n
		}
		set[p] = true
	}
	walk(t, suf)
	return sortedKeysB(set)
}

// members: what is in a list.
func (a *exTracer) members(st *State, t *Term) (out []apiRow) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] || t.IsNil() || t.Op == "zero" {
			return
		}
		seen[t] = true
		rows := func(k string) (n int) {
			for _, r := range a.rows[k] {
				out = append(out, apiRow{row: r})
				n++
			}
			return
		}
		switch t.Op {
		case "phi":
			for _, x := range t.Alts {
				walk(x)
			}
			return
		case "conv", "slice":
			if t.Op == "slice" && partial(t) {
				out = append(out, apiRow{direct: "?part"})
				return
			}
			if rows(contKey(t)) == 0 || t.Args[0].Op != "alloc" {
				walk(t.Args[0])
			}
			return
		case "make":
			rows(contKey(t))
			return
		case "alloc":
			if a.decoded[t] == "" {
				rows(contKey(t))
				return
			}
		case "append":
			walk(t.Args[0])
			rows(contKey(t))
			// all the elements of other lists
			for _, r := range a.rows[contKey(t)+"..."] {
				row := map[string][]string{}
				for k, v := range r {
					if strings.HasPrefix(k, "[]") {
						row[strings.TrimPrefix(k[2:], ".")] = v
					}
				}
				out = append(out, apiRow{row: row})
			}
			return
		}
		out = append(out, apiRow{direct: strings.Join(a.part(st, t, ""), "|")})
	}
	walk(t)
	return
}

// exSpec: what a method asks for and returns.
type exSpec struct {
	pkg, name string
	asks      []string          // requests it may make
	lists     []string          // lists of which every element is part of the result
	want      map[string]string // parts of the results and where they come from
	watch     bool              // the address must be known to the node first
}

// getters: the fields that methods of the implementation of an interface of
// the package return.
func (c *Check) getters(pkg, iface string) (map[string]string, *types.Named) {
	out := map[string]string{}
	for _, nt := range c.P.Impls(c.P.Iface(explorerPkg, iface)) {
		if !strings.HasSuffix(nt.Obj().Pkg().Path(), "/"+pkg) {
			continue
		}
		it := c.P.Iface(explorerPkg, iface)
		for i := 0; i < it.NumMethods(); i++ {
			m := c.P.Method(nt, it.Method(i).Name())
			if m == nil {
				continue
			}
			e := NewEngine(c.P)
			e.hook = func(st *State, ev *Event) {
				if ev.Kind == "return" && ev.Frame.parent == nil && len(ev.Res) == 1 {
					if f := ev.Res[0]; (f.Op == "field" || f.Op == "load") && len(f.Args) > 0 && f.Contains(func(x *Term) bool { return x.Op == "param" }) {
						n := ""
						for f.Op != "param" && len(f.Args) == 1 {
							if f.Op == "field" || f.Op == "faddr" {
								n = strings.TrimSuffix(lastPart(f.Aux)+"."+n, ".")
							}
							f = f.Args[0]
						}
						if f.Op == "param" && n != "" {
							out[m.Name()] = n
						}
					}
				}
			}
			c.dryRun(func() { c.Analyze(e, m) })
		}
		return out, nt
	}
	return out, nil
}

func (c *Check) dryRun(f func()) {
	old := c.dry
	c.dry = true
	f()
	c.dry = old
}

// received: part of what came through a channel.
func received(t *Term) bool {
	for t.Op == "field" || len(t.Args) == 1 && (t.Op == "iface" || t.Op == "conv" && !narrows(t) || t.Op == "load" || t.Op == "deref") {
		t = t.Args[0]
	}
	return fromChan(t)
}

// places: positions in the list of addresses, or in lists made alongside it.
func (a *exTracer) places(v *Term) map[*Term]bool {
	out := map[*Term]bool{}
	v.Contains(func(x *Term) bool {
		if x.Op == "index" && (x.Args[0].Op == "param" && paramIdx(x.Args[0]) == 1 || len(a.rows[contKey(x.Args[0])]) > 0) {
			if _, isConst := x.Args[1].IntConst(); !isConst {
				out[x.Args[1]] = true
			}
		}
		return false
	})
	return out
}

// bounded: an element of an answer is known to exist.
func (a *exTracer) bounded(st *State, ev *Event) {
	if len(ev.Args) < 2 {
		return
	}
	list, i := ev.Args[0], ev.Args[1]
	p := strings.Join(a.part(st, list, ""), "|")
	if !strings.HasPrefix(p, "decoded(") && !strings.HasPrefix(p, "tx(") || isArray(list) {
		return
	}
	for i.Op == "conv" && len(i.Args) == 1 {
		i = i.Args[0]
	}
	if i.Op == "phi" || i.Op == "bin" && (i.Args[0].Op == "phi" || i.Args[1].Op == "phi") {
		return // a loop over the list, or bounded by its condition
	}
	ok := false
	if n, isConst := i.IntConst(); isConst {
		l := a.e.tab.mk("len", "", types.Typ[types.Int], list)
		lo, _ := st.Bounds(l)
		ok = lo != nil && *lo > n || n == 0 && st.HasMatch('F', func(t *Term) bool { return t.Op == "empty" && t.Args[0] == list })
	}
	ok = ok || st.HasMatch('T', func(t *Term) bool {
		if t.Op != "lt" {
			return false
		}
		x, y := t.Args[0], t.Args[1]
		for x.Op == "conv" && len(x.Args) == 1 {
			x = x.Args[0]
		}
		return x == i && y.Op == "len" && (y.Args[0] == list || strings.Join(a.part(st, y.Args[0], ""), "|") == p)
	})
	a.c.At(ev, "crash", a.name+": "+lastPart(p), ok, "an element of "+p+" is read though there may be none")
}

func labelled(st *State, name string, ok func(args []*Term) bool) bool {
	return st.HasMatch('L', func(t *Term) bool { return t.Aux == name && ok(t.Args) })
}
