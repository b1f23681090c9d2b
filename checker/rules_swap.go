package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const swapPkg = "pkg/swap"

// C28: the swap messages say what they were asked to say, and only valid
// content gets into one.
func init() {
	rules["C28"] = func(c *Check) {
		c.Note("The constructors of the four swap messages are followed twice, as functions of the swap package and as methods of the parser of the trades, with helpers inlined; every field of the message that is serialized is traced to the argument it must come from, and the checks that must have succeeded are required at the return of the message.")
		c.Assume("proto.Marshal and Unmarshal are inverse; the pset and transaction packages of go-elements decode, hash and check signatures as documented")
		c.swapMessages()
		c.swapParsers()
	}
}

type swapSpec struct {
	fields []string // field of the message = source
	pset   string   // the source of the transaction, if checked
	inKeys string
	outKey string
	tx     string // the transaction completing a swap
	accept string // the accepted one
	code   string // the code of the error
}

func (c *Check) swapMessages() {
	specs := map[string]swapSpec{
		"Request": {fields: one("Id=a0.Id", "AssetP=a0.AssetToSend", "AmountP=a0.AmountToSend", "AssetR=a0.AssetToReceive", "AmountR=a0.AmountToReceive",
			"Transaction=a0.PsetBase64", "InputBlindingKey=a0.InputBlindingKeys", "OutputBlindingKey=a0.OutputBlindingKeys"),
			pset: "a0.PsetBase64", inKeys: "a0.InputBlindingKeys", outKey: "a0.OutputBlindingKeys"},
		"Accept": {fields: one("Id=random", "RequestId=decoded(a0.Message).Id", "Transaction=a0.PsetBase64", "InputBlindingKey=a0.InputBlindingKeys", "OutputBlindingKey=a0.OutputBlindingKeys"),
			pset: "a0.PsetBase64", inKeys: "a0.InputBlindingKeys", outKey: "a0.OutputBlindingKeys"},
		"Complete": {fields: one("Id=random", "AcceptId=decoded(a0.Message).Id", "Transaction=a0.Transaction"),
			tx: "a0.Transaction", accept: "decoded(a0.Message).Transaction"},
		"Fail": {fields: one("Id=random", "MessageId=a0.MessageID", "FailureCode=a0.ErrCode", "FailureMessage=text(a0.ErrMessage)")},
	}
	for _, name := range sortedKeys(specs) {
		fn := c.P.Func(swapPkg, name)
		if fn == nil {
			c.Ob("anchor", "swap."+name, false, "-", "the constructor of the message is gone")
			continue
		}
		c.swapMessage("swap."+name, fn, specs[name])
	}
}

func (c *Check) swapParsers() {
	specs := map[string]swapSpec{
		"SerializeRequest": {fields: one("Id=a0.Id", "AssetP=a0.AssetP", "AmountP=a0.AmountP", "AssetR=a0.AssetR", "AmountR=a0.AmountR",
			"Transaction=a0.Transaction", "InputBlindingKey=a0.InputBlindingKey", "OutputBlindingKey=a0.OutputBlindingKey"),
			pset: "a0.Transaction", inKeys: "a0.InputBlindingKey", outKey: "a0.OutputBlindingKey", code: "ErrCodeInvalidSwapRequest"},
		"SerializeAccept": {fields: one("Id=random", "RequestId=decoded(a0.RequestMessage).Id", "Transaction=a0.Transaction", "InputBlindingKey=a0.InputBlindingKeys", "OutputBlindingKey=a0.OutputBlindingKeys"),
			pset: "a0.Transaction", inKeys: "a0.InputBlindingKeys", outKey: "a0.OutputBlindingKeys", code: "ErrCodeRejectedSwapRequest"},
		"SerializeComplete": {fields: one("Id=random", "AcceptId=decoded(a0).Id", "Transaction=a1"),
			tx: "a1", accept: "decoded(a0).Transaction", code: "ErrCodeFailedToComplete"},
		"SerializeFail": {fields: one("Id=random", "MessageId=a0", "FailureCode=a1", "FailureMessage=text(a2)")},
	}
	n := 0
	for _, nt := range c.P.Impls(c.P.Iface(dom, "SwapParser")) {
		for _, m := range c.P.exportedMethods(nt) {
			if spec, ok := specs[m.Name()]; ok {
				n++
				c.swapMessage("parser."+m.Name(), m, spec)
			} else if strings.HasPrefix(m.Name(), "Deserialize") {
				n++
				c.swapDecode("parser."+m.Name(), m)
			}
		}
	}
	c.Need("parser", n, 8, "methods of the parser of swap messages")
	n = 0
	for _, nt := range c.P.Impls(c.P.Iface(dom, "PsetParser")) {
		for _, m := range c.P.exportedMethods(nt) {
			want := map[string]string{"GetTxID": "pset(a0).UnsignedTx.hash", "GetTxHex": "final(a0)"}[m.Name()]
			if want == "" {
				continue
			}
			n++
			m := m
			a := c.swapTracer("pset."+m.Name(), m)
			hook := a.e.hook
			a.e.hook = func(st *State, ev *Event) {
				hook(st, ev)
				if ev.Kind == "return" && ev.Frame.parent == nil {
					if _, good := outcomes(st, ev); good != nil {
						c.At(ev, "swap/tx", a.name, only(a.paths(good, ev.Res[0]), want) && okErr2(good, ev.Res[0]), "the result is not that of the transaction given, or of a failed operation: "+strings.Join(a.paths(good, ev.Res[0]), ", "))
					}
				}
			}
			c.Analyze(a.e, m)
		}
	}
	c.Need("pset", n, 2, "methods extracting transactions from psets")
}

func only(ss []string, want string) bool { return len(ss) == 1 && ss[0] == want }

// okErr2: no operation this value results from failed.
func okErr2(st *State, t *Term) bool {
	ok := true
	t.Any(func(x *Term) bool {
		if x.Op == "extract" && x.Args[0].Op == "call" {
			ok = ok && okErr(st, x)
		}
		return false
	})
	return ok
}

// swapTracer names where the parts of swap messages come from.
func (c *Check) swapTracer(name string, fn *ssa.Function) *api {
	e := NewEngine(c.P)
	a := &api{c: c, e: e, name: name, rows: map[string]map[ssa.Instruction]map[string][]string{}, sufs: map[string]bool{}, in: map[*Term][]apiElem{}}
	e.inline = func(f *ssa.Function) bool {
		return c.P.PkgRel(f) == swapPkg || c.P.PkgRel(f) == dom || c.P.PkgRel(f) == "pkg/transactionutil"
	}
	first := 0
	if fn.Signature.Recv() != nil {
		first = 1
	}
	a.root = func(st *State, t *Term) (string, bool) {
		switch t.Op {
		case "param":
			if i := paramIdx(t); i >= first {
				return "a" + itoa(i-first), true
			}
		case "alloc":
			res := ""
			st.Each(func(k byte, l *Term) bool {
				if k == 'L' && l.Aux == "decoded" && l.Args[0] == t {
					res = "decoded(" + strings.Join(a.paths(st, l.Args[1]), "|") + ")"
				}
				return res != ""
			})
			if res != "" {
				return res, true
			}
		case "iface", "conv", "load", "deref":
			if len(t.Args) == 1 && !narrows(t) {
				return a.path(st, t.Args[0]), true
			}
		case "extract":
			if x := t.Args[0]; x.Op == "call" && t.Aux == "0" {
				as := x.CallArgs()
				switch x.CallName() {
				case "pset.NewPsetFromBase64":
					return "pset(" + strings.Join(a.paths(st, as[0]), "|") + ")", true
				case "transaction.NewTxFromHex":
					return "tx(" + strings.Join(a.paths(st, as[0]), "|") + ")", true
				case "wallet.FinalizeAndExtractTransaction":
					f := fieldByName(e, st, as[0], "PsetBase64")
					return "final(" + strings.Join(a.paths(st, f), "|") + ")", true
				}
			}
		case "call":
			as := t.CallArgs()
			switch n := t.CallName(); {
			case n == "randstr.Hex" || n == "randstr.String" || n == "uuid.New":
				return "random", true
			case len(as) == 1 && strings.HasSuffix(n, ".TxHash"):
				return a.path(st, as[0]) + ".hash", true
			case len(as) == 1 && lastIs(n, "String"):
				return a.path(st, as[0]), true
			case n == "hex.EncodeToString":
				return "hex(" + strings.Join(a.paths(st, as[0]), "|") + ")", true
			case len(as) == 1 && strings.HasPrefix(lastPart(n), "Get"):
				return a.path(st, as[0]) + "." + lastPart(n)[3:], true
			}
			// a text made of something
			if b, ok := t.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				for _, x := range []string{"a0.ErrMessage", "a2"} {
					if e.From(t, func(y *Term) bool { return (y.Op == "field" || y.Op == "param") && a.path(st, y) == x }) {
						return "text(" + x + ")", true
					}
				}
			}
		}
		if t.Op == "bin" && t.Aux == "+" {
			for _, y := range t.Args {
				if p := a.path(st, y); strings.HasPrefix(p, "text(") {
					return p, true
				} else if p == "a0.ErrMessage" || p == "a2" {
					return "text(" + p + ")", true
				}
			}
		}
		return "", false
	}
	e.hook = func(st *State, ev *Event) {
		if ev.Kind == "after" && ev.Name == "proto.Unmarshal" && len(ev.Args) == 2 {
			x := ev.Args[1]
			for (x.Op == "iface" || x.Op == "conv") && len(x.Args) == 1 {
				x = x.Args[0]
			}
			st.CondGen('N', ev.Res[0], "decoded", x, ev.Args[0])
		}
	}
	return a
}

func (c *Check) swapDecode(name string, fn *ssa.Function) {
	a := c.swapTracer(name, fn)
	hook := a.e.hook
	a.e.hook = func(st *State, ev *Event) {
		hook(st, ev)
		if ev.Kind == "return" && ev.Frame.parent == nil {
			if _, good := outcomes(st, ev); good != nil {
				ps := a.paths(good, ev.Res[0])
				c.At(ev, "swap/decoded", name, only(ps, "decoded(a0)"), "the message returned is not the one decoded from the bytes given: "+strings.Join(ps, ", "))
			}
		}
	}
	c.Analyze(a.e, fn)
}

func (c *Check) swapMessage(name string, fn *ssa.Function, spec swapSpec) {
	a := c.swapTracer(name, fn)
	e := a.e
	hook := e.hook
	sent, idGiven := 0, false
	isIn := func(st *State) func(x *Term) bool {
		return func(x *Term) bool { return only(a.paths(st, x), "pset("+spec.pset+").Inputs") }
	}
	isOut := func(st *State) func(x *Term) bool {
		return func(x *Term) bool { return only(a.paths(st, x), "pset("+spec.pset+").UnsignedTx.Outputs") }
	}
	in, out := "pset("+spec.pset+").Inputs[]", "pset("+spec.pset+").UnsignedTx.Outputs[]"
	e.onAssume = func(st *State, k byte, t *Term) {
		if spec.tx != "" {
			switch {
			case k == 'T' && t.Op == "eq":
				l, r := a.paths(st, t.Args[0]), a.paths(st, t.Args[1])
				acc := "pset(" + spec.accept + ").UnsignedTx.hash"
				given := func(ss []string) bool {
					for _, s := range ss {
						if s != "pset("+spec.tx+").UnsignedTx.hash" && s != "tx("+spec.tx+").hash" {
							return false
						}
					}
					return len(ss) > 0
				}
				if only(l, acc) && given(r) || only(r, acc) && given(l) {
					st.Gen("accepted")
				}
			case k == 'T' && t.Op == "extract" && t.Aux == "0" && lastIs(t.Args[0].CallName(), "ValidateAllSignatures"):
				if as := t.Args[0].CallArgs(); len(as) == 1 && a.path(st, as[0]) == "pset("+spec.tx+")" {
					st.Gen("signed")
				}
			}
			return
		}
		if spec.pset == "" {
			return
		}
		for _, n := range []string{"sane", "prevout", "inkey"} {
			eachLoop(n, isIn(st))(st, k, t)
		}
		eachLoop("outkey", isOut(st))(st, k, t)
		for _, x := range [][2]string{{"inkey", spec.inKeys}, {"outkey", spec.outKey}} {
			if st.HasMatch('N', func(t *Term) bool { return a.path(st, t) == x[1] }) {
				st.Gen("did:" + x[0]) // none given
				st.Gen("all:" + x[0])
			}
		}
		switch {
		case k == 'T' && t.Op == "call" && lastIs(t.CallName(), "IsSane") && a.path(st, t.CallArgs()[0]) == in:
			st.Gen("did:sane")
		case k == 'F' && t.Op == "isnil" && a.path(st, t.Args[0]) == in+".WitnessUtxo":
			st.Gen("did:prevout")
		case k == 'T' && t.Op == "lt" && t.Args[1].Op == "len" && a.path(st, unconv(t.Args[0])) == "pset("+spec.pset+").UnsignedTx.Inputs[].Index" &&
			a.path(st, t.Args[1].Args[0]) == in+".NonWitnessUtxo.Outputs":
			st.Gen("did:prevout")
		case k == 'T' && t.Op == "has" && only(a.paths(st, t.Args[0]), spec.inKeys):
			ok := true
			for _, p := range strings.Split(strings.Join(a.paths(st, t.Args[1]), "|"), "|") {
				p = strings.TrimSuffix(strings.TrimPrefix(p, "hex("), ")")
				ok = ok && (p == "nil.Script" || p == in+".WitnessUtxo.Script" || p == in+".NonWitnessUtxo.Outputs[].Script")
			}
			if ok {
				st.Gen("did:inkey")
			}
		case k == 'T' && t.Op == "has" && only(a.paths(st, t.Args[0]), spec.outKey):
			if only(a.paths(st, t.Args[1]), "hex("+out+".Script)") {
				st.Gen("did:outkey")
			}
		case k == 'T' && t.Op == "empty" && a.path(st, t.Args[0]) == out+".Script":
			st.Gen("did:outkey") // the output of the fees
		}
	}
	e.hook = func(st *State, ev *Event) {
		hook(st, ev)
		switch {
		case ev.Kind == "call" && ev.Name == "proto.Marshal" && len(ev.Args) == 1:
			sent++
			m := ev.Args[0]
			for (m.Op == "iface" || m.Op == "conv") && len(m.Args) == 1 {
				m = m.Args[0]
			}
			for _, w := range spec.fields {
				i := strings.Index(w, "=")
				f, src := w[:i], w[i+1:]
				ps := a.sources(st, m, f)
				ok := only(ps, src)
				if strings.HasSuffix(src, ".Id") && strings.HasPrefix(src, "a0") {
					// one is generated if none is given
					ok = ok || !idGiven && len(ps) == 2 && ps[0] == src && ps[1] == "random"
				}
				c.At(ev, "swap/field", name+"."+f, ok, "the message carries "+strings.Join(ps, ", ")+" instead of "+src)
			}
			st.Gen("msg", m)
			if id := a.field(st, m, "Id"); id != nil {
				st.Gen("id", id)
			}
		case ev.Kind == "after" && ev.Name == "proto.Marshal":
			st.CondGen('N', ev.Res[1], "serialized")
		case ev.Kind == "after" && ev.Name == "pset.NewPsetFromBase64":
			if only(a.paths(st, ev.Args[0]), spec.pset) {
				st.CondGen('N', ev.Res[1], "pset")
			}
			if only(a.paths(st, ev.Args[0]), spec.accept) {
				st.CondGen('N', ev.Res[1], "acceptedpset")
			}
		case ev.Kind == "after" && ev.Name == "transaction.NewTxFromHex":
			if only(a.paths(st, ev.Args[0]), spec.tx) {
				st.CondGen('N', ev.Res[1], "signed") // complete
				st.CondGen('N', ev.Res[1], "final")
			}
		case ev.Kind == "after" && ev.Name == "hex.DecodeString":
			if only(a.paths(st, ev.Args[0]), spec.tx) {
				st.CondGen('N', ev.Res[1], "final")
			}
		case ev.Kind == "after" && ev.Name == "wallet.FinalizeAndExtractTransaction":
			if only(a.paths(st, fieldByName(e, st, ev.Args[0], "PsetBase64")), spec.tx) {
				st.CondGen('N', ev.Res[2], "final")
			}
		case ev.Kind == "return" && ev.Frame.parent == nil:
			n := ev.Frame.fn.Signature.Results().Len()
			last := ev.Res[n-1]
			_, isErr := last.Typ.Underlying().(*types.Slice)
			good := st
			if !isErr {
				good = nil
				if g := st.lightClone(); g.assume(last, 'N') {
					good = g
				}
				if b := st.lightClone(); spec.code != "" && b.assume(last, 'X') {
					k := c.intConst(swapPkg, spec.code)
					code := a.sources(b, last, "Code")
					f := a.field(b, last, "Code")
					v, isC := int64(-1), false
					if f != nil {
						v, isC = unconv(f).IntConst()
					}
					c.At(ev, "swap/code", name, isC && v == k, "a failure is reported with code "+strings.Join(code, ", ")+" instead of that of "+spec.code)
					x := a.field(b, last, "Err")
					c.At(ev, "swap/cause", name, x != nil && b.Has('X', x), "a failure is reported without its cause")
				}
			}
			if good == nil {
				return
			}
			need := func(l, what string) { c.At(ev, "swap/checked", name+"/"+l, good.Is(l), what) }
			if isErr {
				return
			}
			need("serialized", "the message is returned although it was not serialized")
			if spec.pset != "" {
				need("pset", "a transaction that cannot be parsed is accepted")
				need("all:sane", "an input that is not sane is accepted")
				need("all:prevout", "an input without previous output is accepted")
				need("all:inkey", "an input without its blinding key is accepted")
				need("all:outkey", "an output without its blinding key is accepted")
			}
			if spec.tx != "" {
				need("acceptedpset", "the accepted transaction need not be valid")
				need("accepted", "another transaction than the accepted one is completed")
				need("signed", "a transaction with missing or invalid signatures is completed")
				if spec.code != "" {
					need("final", "a transaction is completed that cannot be finalized")
				}
			}
			msg := ev.Res[n-2]
			if n == 2 {
				msg = ev.Res[0]
			}
			ok := msg.Op == "extract" && msg.Aux == "0" && msg.Args[0].CallName() == "proto.Marshal"
			c.At(ev, "swap/bytes", name, ok, "what is returned is not the serialized message")
			if n == 3 {
				id := ev.Res[0]
				ok := good.HasMatch('L', func(l *Term) bool {
					if len(l.Args) != 1 || l.Aux != "id" && l.Aux != "msg" {
						return false
					}
					return l.Args[0] == id && l.Aux == "id" || l.Aux == "msg" && lastIs(id.CallName(), "GetId") && id.CallArgs()[0] == l.Args[0]
				})
				c.At(ev, "swap/id", name, ok, "the id returned is not that of the message")
			}
		}
	}
	for _, given := range []bool{false, true} {
		tag := ""
		if idGiven = given; given {
			if fn.Signature.Recv() != nil || spec.fields[0] != "Id=a0.Id" {
				continue
			}
			tag = "id given"
		}
		c.AnalyzeWith(e, fn, tag, func(st *State, args []*Term) {
			for _, n := range []string{"sane", "prevout", "inkey", "outkey"} {
				st.Gen("did:" + n)
			}
			if id := a.field(st, args[0], "Id"); given && id != nil {
				st.assume(e.tab.mk("empty", "", types.Typ[types.Bool], id), 'F')
			}
		})
	}
	c.Ob("swap/made", name, sent > 0, c.P.Pos(fn.Pos()), "no message is serialized")
}
