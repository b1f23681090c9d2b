package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C12: addresses are derived once, recorded and persisted before they are used.
func init() {
	rules["C12"] = func(c *Check) {
		c.Note("The derivations of the vault are followed with the wallet package opaque: path, script, address and keys of what they return, the index they advance and what they record. Every service method deriving addresses is followed with its callbacks, and all writes to accounts and indexes are enumerated.")
		c.Assume("the wallet package derives different addresses for different paths; repositories keep what an update function returns")
		c.deriveNext()
		c.deriveAll()
		c.deriveWriters()
		c.accountConstants()
		c.derivePersisted()
		c.latestMarket()
		c.walletDerivation()
	}
}

// derivation: what is known of the paths and addresses met on the way.
type derivation struct {
	e     *Engine
	paths map[*Term][3]*Term         // path -> account, chain, index
	flds  map[*Term]map[string]*Term // AddressInfo/AccountAndKey allocs -> fields
	addrs map[*Term]map[string]*Term // derivation calls -> fields of their options
}

func newDerivation(e *Engine) *derivation {
	return &derivation{e: e, paths: map[*Term][3]*Term{}, flds: map[*Term]map[string]*Term{}, addrs: map[*Term]map[string]*Term{}}
}

func (d *derivation) hook(st *State, ev *Event) {
	switch ev.Kind {
	case "call", "after":
		switch ev.Name {
		case "fmt.Sprintf":
			if ev.Kind == "after" && len(ev.Args) == 2 && len(ev.Res) == 1 {
				if f, ok := ev.Args[0].StrConst(); ok && f == "%d'/%d/%d" {
					if el := d.e.Elems(st, ev.Args[1]); len(el) == 3 {
						d.paths[ev.Res[0]] = [3]*Term{unconv(el[0]), unconv(el[1]), unconv(el[2])}
					}
				}
			}
		case "wallet.Wallet.DeriveConfidentialAddress", "wallet.Wallet.DeriveBlindingKeyPair":
			if ev.Kind == "after" && len(ev.Args) == 2 && len(ev.Res) > 0 {
				m := map[string]*Term{}
				for _, f := range []string{"DerivationPath", "Network", "Script"} {
					if t := fieldByName(d.e, st, ev.Args[1], f); t != nil {
						m[f] = t
					}
				}
				if r := ev.Res[0]; r.Op == "extract" {
					d.addrs[r.Args[0]] = m
				}
			}
		}
	case "store":
		if ev.Base != nil && (strings.HasPrefix(ev.Name, "domain.AddressInfo.") || strings.HasPrefix(ev.Name, "domain.AccountAndKey.")) {
			if d.flds[ev.Base] == nil {
				d.flds[ev.Base] = map[string]*Term{}
			}
			d.flds[ev.Base][lastPart(ev.Name)] = ev.Val
		}
	}
}

// path: account, chain and index of a derivation path, however it is put
// together.
func (d *derivation) path(t *Term) ([3]*Term, bool) {
	if t == nil {
		return [3]*Term{}, false
	}
	if p, ok := d.paths[t]; ok {
		return p, true
	}
	// concatenation of the parts
	var parts []*Term
	var flat func(t *Term)
	flat = func(t *Term) {
		if t.Op == "bin" && t.Aux == "+" {
			flat(t.Args[0])
			flat(t.Args[1])
			return
		}
		parts = append(parts, t)
	}
	flat(t)
	if len(parts) != 5 {
		return [3]*Term{}, false
	}
	var out [3]*Term
	for i, p := range parts {
		if i%2 == 1 {
			if s, ok := p.StrConst(); !ok || s != []string{"'/", "/"}[i/2] {
				return out, false
			}
			continue
		}
		if n := p.CallName(); n != "strconv.Itoa" && n != "strconv.FormatInt" {
			return out, false
		}
		out[i/2] = unconv(p.CallArgs()[0])
	}
	return out, true
}

// info: the fields of an address description belong together. Returns its path.
func (d *derivation) info(st *State, f map[string]*Term) (p [3]*Term, script *Term, why string) {
	if f == nil {
		return p, nil, "is not put together from a derivation"
	}
	p, ok := d.path(f["DerivationPath"])
	if !ok {
		return p, nil, "has no derivation path of an account, a chain and an index"
	}
	a := f["Address"]
	if a == nil || a.Op != "extract" || a.Aux != "0" || a.Args[0].CallName() != "wallet.Wallet.DeriveConfidentialAddress" {
		return p, nil, "has an address not derived by the wallet"
	}
	call := a.Args[0]
	o := d.addrs[call]
	if o == nil || o["DerivationPath"] != f["DerivationPath"] {
		return p, nil, "has an address derived from another path"
	}
	s := f["Script"]
	if s == nil || s.CallName() != "hex.EncodeToString" {
		return p, nil, "has a script that is not the hex encoded one"
	}
	script = s.CallArgs()[0]
	if script.Op != "extract" || script.Aux != "1" || script.Args[0] != call {
		return p, nil, "has the script of another address"
	}
	if !d.keyOf(f["BlindingKey"], script) {
		return p, nil, "has a blinding key not derived from its script"
	}
	return p, script, ""
}

func (d *derivation) keyOf(k, script *Term) bool {
	if k == nil || lastPart(k.CallName()) != "Serialize" {
		return false
	}
	priv := k.CallArgs()[0]
	if priv.Op != "extract" || priv.Aux != "0" || priv.Args[0].CallName() != "wallet.Wallet.DeriveBlindingKeyPair" {
		return false
	}
	o := d.addrs[priv.Args[0]]
	return o != nil && o["Script"] == script
}

// deriveNext: the methods deriving the next address of a chain.
func (c *Check) deriveNext() {
	vt := c.P.Named(dom, "Vault")
	if vt == nil {
		c.Need("next", 0, 2, "derivations of the vault")
		return
	}
	chains := map[string]struct {
		n          int64
		own, other string
	}{
		"DeriveNextExternalAddressForAccount": {0, "LastExternalIndex", "LastInternalIndex"},
		"DeriveNextInternalAddressForAccount": {1, "LastInternalIndex", "LastExternalIndex"},
	}
	n := 0
	for _, name := range sortedKeys(chains) {
		fn := c.P.Method(vt, name)
		if fn == nil {
			continue
		}
		n++
		ch := chains[name]
		var d *derivation
		var e *Engine

		param := func(t *Term) bool { return paramIdx(t) == 1 }
		// account: found under the asked index, or a new one with it
		account := func(t *Term) bool {
			return t != nil && t.All(func(a *Term) bool {
				if a.Op == "alloc" {
					return true
				}
				x := a
				if x.Op == "extract" {
					x = x.Args[0]
				}
				return x.Op == "lookup" && x.Args[0].IsField("domain.Vault.Accounts") && param(x.Args[1])
			})
		}
		accIndex := func(t *Term) bool {
			return t != nil && (param(t) || t.All(func(a *Term) bool {
				return param(a) || a.IsField("domain.Account.AccountIndex") && account(a.Args[0])
			}))
		}
		own := func(t *Term) bool {
			return t != nil && t.All(func(a *Term) bool {
				if v, ok := a.IntConst(); ok && v == 0 {
					return !t.All(func(b *Term) bool { _, ok := b.IntConst(); return ok }) // index of a new account
				}
				return a.IsField("domain.Account."+ch.own) && account(a.Args[0])
			})
		}
		e = NewEngine(c.P)
		d = newDerivation(e)
		e.inline = func(f *ssa.Function) bool { return c.P.PkgRel(f) == dom }
		e.hook = func(st *State, ev *Event) {
			d.hook(st, ev)
			switch ev.Kind {
			case "store":
				switch ev.Name {
				case "domain.Account." + ch.own:
					if ev.Base != nil && ev.Base.Op == "alloc" && ev.Val.IsZero() {
						return
					}
					plus := false
					restart := false // after the last one there is
					st.Each(func(k byte, t *Term) bool {
						if k == 'T' && t.Op == "eq" || (k == 'T' || k == 'F') && t.Op == "lt" {
							for i := range t.Args {
								if v, ok := t.Args[1-i].IntConst(); ok && v >= 1<<31-2 && own(t.Args[i]) && (t.Op == "eq" || (k == 'T') == (i == 1)) {
									restart = true
								}
							}
						}
						return false
					})
					ok := ev.Val.All(func(a *Term) bool {
						if a.IsZero() {
							plus = plus || restart
							return true
						}
						if a.Op == "bin" && a.Aux == "+" {
							for i := range a.Args {
								if v, ok := a.Args[1-i].IntConst(); ok && v == 1 && own(a.Args[i]) {
									plus = true
									return true
								}
							}
						}
						return false
					})
					c.At(ev, "next/advance", name, ok && plus && account(ev.Base), "the index is not advanced by one")
					c.At(ev, "next/once", name, st.Is("noinc"), "the index is advanced more than once")
					st.Kill("noinc")
					st.Gen("inc")
				case "domain.Account." + ch.other:
					if ev.Base != nil && ev.Base.Op == "alloc" && ev.Val.IsZero() {
						return
					}
					c.At(ev, "next/other", name, false, "the index of the other chain is changed")
				}
			case "mapupdate":
				switch {
				case len(ev.Args) < 2:
				case ev.Args[0].IsField("domain.Account.DerivationPathByScript"):
					if p, ok := d.path(ev.Val); ok && account(ev.Args[0].Args[0]) && own(p[2]) {
						st.Gen("script", ev.Args[1], ev.Val)
					} else {
						c.At(ev, "next/record", name+"/path", false, "something else than the derived path is recorded for the script")
					}
					st.Kill("norec")
				case ev.Args[0].IsField("domain.Vault.AccountAndKeyByAddress"):
					acc := fieldByName(e, st, ev.Val, "AccountIndex")
					key := fieldByName(e, st, ev.Val, "BlindingKey")
					c.At(ev, "next/record", name+"/account", accIndex(acc), "another account is recorded for the address")
					st.Gen("addr", ev.Args[1], key)
					st.Kill("norec")
				case ev.Args[0].IsField("domain.Vault.Accounts"):
					c.At(ev, "next/account", name, param(ev.Args[1]), "a new account is recorded under another index")
				}
			case "return":
				if ev.Frame.parent != nil {
					return
				}
				bad, good := outcomes(st, ev)
				if bad != nil {
					c.At(ev, "next/failed", name, bad.Is("noinc") && bad.Is("norec"), "a failed derivation changes the account")
				}
				if good == nil {
					return
				}
				r := ev.Res[0]
				p, script, why := d.info(good, d.flds[r])
				c.At(ev, "next/result", name, why == "", "the address derived "+why)
				if why != "" {
					return
				}
				cc, ok := p[1].IntConst()
				c.At(ev, "next/chain", name, ok && cc == ch.n, "the address belongs to another chain than asked for")
				c.At(ev, "next/index", name, own(p[2]), "the address does not have the next index of its chain")
				c.At(ev, "next/accountindex", name, accIndex(p[0]) && accIndex(d.flds[r]["AccountIndex"]), "the address belongs to another account than asked for")
				c.At(ev, "next/network", name, d.addrs[d.flds[r]["Address"].Args[0]]["Network"].IsField("domain.Vault.Network"), "the address is one of another network")
				c.At(ev, "next/unchecked", name, okErr(good, d.flds[r]["Address"]), "the result of a failed derivation is used")
				c.At(ev, "next/advanced", name, good.Is("inc"), "the index is not advanced: the same address is derived again")
				rec := good.HasMatch('L', func(t *Term) bool {
					return t.Aux == "script" && t.Args[1] == d.flds[r]["DerivationPath"] && t.Args[0].CallName() == "hex.EncodeToString" && t.Args[0].CallArgs()[0] == script
				})
				c.At(ev, "next/recorded", name+"/script", rec, "the path of the address is not recorded: it cannot be signed for")
				rec = good.HasMatch('L', func(t *Term) bool {
					return t.Aux == "addr" && t.Args[0] == d.flds[r]["Address"] && d.keyOf(t.Args[1], script)
				})
				c.At(ev, "next/recorded", name+"/address", rec, "the address is not recorded with its blinding key")
			}
		}
		e.onAssume = func(st *State, k byte, t *Term) {
			// already known
			if t.Op == "has" && k == 'T' && t.Args[0].IsField("domain.Account.DerivationPathByScript") {
				for p := range d.paths {
					st.Gen("script", t.Args[1], p)
				}
				for _, o := range d.addrs {
					if p := o["DerivationPath"]; p != nil {
						if _, ok := d.path(p); ok {
							st.Gen("script", t.Args[1], p)
						}
					}
				}
			}
			// wrapping around
			if t.Op == "eq" || t.Op == "lt" {
				for i := range t.Args {
					if x := t.Args[i]; x.IsField("domain.Account."+ch.own) || x.Op == "bin" && x.Contains(func(y *Term) bool { return y.IsField("domain.Account." + ch.own) }) {
						if v, ok := t.Args[1-i].IntConst(); ok && v != 0 {
							c.Ob("next/wrap", name, v >= 1<<31-1, c.P.Pos(fn.Pos()), "the index restarts although not all of them have been used")
						}
					}
				}
			}
		}

		c.AnalyzeWith(e, fn, "", func(st *State, _ []*Term) { st.Gen("noinc"); st.Gen("norec") })
	}
	c.Need("next", n, 2, "derivations of the vault")
}

// deriveAll: what is listed as derived is what was derived.
func (c *Check) deriveAll() {
	vt := c.P.Named(dom, "Vault")
	if vt == nil {
		return
	}
	lists := map[string][]string{ // chains
		"AllDerivedAddressesInfoForAccount":         {"LastExternalIndex", "LastInternalIndex"},
		"AllDerivedExternalAddressesInfoForAccount": {"LastExternalIndex"},
	}
	n := 0
	for _, name := range sortedKeys(lists) {
		fn := c.P.Method(vt, name)
		if fn == nil {
			continue
		}
		n++
		var d *derivation
		e := NewEngine(c.P)
		d = newDerivation(e)
		e.inline = func(f *ssa.Function) bool { return c.P.PkgRel(f) == dom }
		account := func(t *Term) bool {
			return t != nil && t.All(func(x *Term) bool {
				if x.Op == "extract" {
					x = x.Args[0]
				}
				return x.Op == "lookup" && x.Args[0].IsField("domain.Vault.Accounts") && paramIdx(x.Args[1]) == 1
			})
		}
		last := func(t *Term) string { // the counter this is
			for _, ch := range []string{"LastExternalIndex", "LastInternalIndex"} {
				if t.IsField("domain.Account."+ch) && account(t.Args[0]) {
					return ch
				}
			}
			return ""
		}
		// upTo: the counter below which the index is, or is not any more
		var offset func(t *Term) (*Term, int64)
		offset = func(t *Term) (*Term, int64) {
			if t.Op == "bin" && len(t.Args) == 2 && (t.Aux == "+" || t.Aux == "-") {
				if v, ok := t.Args[1].IntConst(); ok {
					x, o := offset(t.Args[0])
					if t.Aux == "-" {
						v = -v
					}
					return x, o + v
				}
			}
			return t, 0
		}
		upTo := func(t *Term, k byte) (ch string, i *Term) {
			if t.Op != "lt" {
				return "", nil
			}
			if x, o := offset(t.Args[1]); k == 'T' && o == 0 && last(x) != "" { // i < last
				return last(x), t.Args[0]
			}
			if x, o := offset(t.Args[0]); k == 'F' && o == -1 && last(x) != "" { // not last-1 < i
				return last(x), t.Args[1]
			}
			return "", nil
		}
		fromZero := func(i *Term) bool {
			zero, step := false, false
			ok := i.All(func(a *Term) bool {
				if a.IsZero() {
					zero = true
					return true
				}
				if a.Op == "bin" && a.Aux == "+" {
					if v, ok := a.Args[1].IntConst(); ok && v == 1 {
						step = true
						return true
					}
				}
				return false
			})
			return ok && zero && step
		}
		element := func(st *State, ev *Event, v *Term) {
			f := map[string]*Term{}
			for _, x := range []string{"AccountIndex", "Address", "BlindingKey", "DerivationPath", "Script"} {
				f[x] = fieldByName(e, st, v, x)
			}
			p, _, why := d.info(st, f)
			c.At(ev, "list/element", name, why == "", "a listed address "+why)
			if why != "" {
				return
			}
			own := func(t *Term) bool {
				return paramIdx(t) == 1 || t.IsField("domain.Account.AccountIndex") && account(t.Args[0])
			}
			c.At(ev, "list/account", name, own(p[0]) && own(f["AccountIndex"]), "a listed address belongs to another account")
			c.At(ev, "list/network", name, d.addrs[f["Address"].Args[0]]["Network"].IsField("domain.Vault.Network"), "a listed address is one of another network")
			ch := ""
			if v, ok := p[1].IntConst(); ok && v == 0 {
				ch = "LastExternalIndex"
			} else if ok && v == 1 {
				ch = "LastInternalIndex"
			}
			wanted := false
			for _, x := range lists[name] {
				wanted = wanted || x == ch
			}
			c.At(ev, "list/chain", name, wanted, "an address of a chain not asked for is listed")
			bound := false
			st.Each(func(k byte, t *Term) bool {
				if x, i := upTo(t, k); (k == 'T' || k == 'F') && x != "" && x == ch && i == p[2] {
					bound = true
				}
				return false
			})
			c.At(ev, "list/derived", name, bound && fromZero(p[2]), "an address is listed that was not derived, or not all of them")
		}
		e.hook = func(st *State, ev *Event) {
			d.hook(st, ev)
			switch ev.Kind {
			case "idxstore":
				if ev.Val != nil && typeName(ev.Val.Typ) == "domain.AddressInfo" {
					element(st, ev, ev.Val)
				}
			case "append":
				for _, a := range ev.Args[1:] {
					for _, v := range e.Elems(st, a) {
						if typeName(v.Typ) == "domain.AddressInfo" {
							element(st, ev, v)
						}
					}
				}
			case "return":
				if ev.Frame.parent == nil {
					if _, good := outcomes(st, ev); good != nil {
						for _, ch := range lists[name] {
							c.At(ev, "list/complete", name+"/"+ch, good.Is("all:"+ch), "not all the addresses derived for the account are listed")
						}
					}
				}
			}
		}
		e.onAssume = func(st *State, k byte, t *Term) {
			kk := byte('T')
			if k == 'T' {
				kk = 'F'
			}
			if k != 'T' && k != 'F' {
				return
			}
			if ch, i := upTo(t, kk); ch != "" && i.Op == "phi" { // the loop ended
				st.Gen("all:" + ch)
			}
		}
		c.Analyze(e, fn)
	}
	// the whole vault
	if fn := c.P.Method(vt, "AllDerivedAddressesInfo"); fn != nil {
		n++
		const name = "AllDerivedAddressesInfo"
		e := NewEngine(c.P)
		e.inline = func(f *ssa.Function) bool { return c.P.PkgRel(f) == dom }
		isAll := func(t *Term) bool { return t.IsField("domain.Vault.AccountAndKeyByAddress") }
		element := func(st *State, ev *Event, v *Term) {
			st.Gen("did:all")
			addr := fieldByName(e, st, v, "Address")
			key := func(t *Term) bool {
				x := loopKey(t)
				return x != nil && isAll(x)
			}
			val := func(t *Term, f string) bool {
				if t == nil {
					return false
				}
				if t.Op == "field" && lastPart(t.Aux) == f {
					if x := t.Args[0]; x.Op == "lookup" || x.Op == "extract" && x.Args[0].Op == "lookup" {
						if x.Op == "extract" {
							x = x.Args[0]
						}
						return isAll(x.Args[0]) && key(x.Args[1])
					}
					return loopVal(t.Args[0]) != nil && isAll(loopVal(t.Args[0]))
				}
				return false
			}
			script := func(t *Term) bool {
				if t == nil || t.CallName() != "hex.EncodeToString" {
					return false
				}
				a := extractOf(t.CallArgs()[0], 0, "address.ToOutputScript")
				return a != nil && key(a[0])
			}
			path := fieldByName(e, st, v, "DerivationPath")
			if path != nil && path.Op == "extract" {
				path = path.Args[0]
			}
			okPath := path != nil && path.Op == "lookup" && path.Args[0].IsField("domain.Account.DerivationPathByScript") && script(path.Args[1])
			if okPath {
				okPath = path.Args[0].Args[0].All(func(a *Term) bool {
					if a.IsNil() {
						return true
					}
					if a.Op == "extract" {
						a = a.Args[0]
					}
					return a.Op == "lookup" && a.Args[0].IsField("domain.Vault.Accounts") && val(a.Args[1], "AccountIndex")
				})
			}
			ok := key(addr) && val(fieldByName(e, st, v, "BlindingKey"), "BlindingKey") && val(fieldByName(e, st, v, "AccountIndex"), "AccountIndex") &&
				script(fieldByName(e, st, v, "Script")) && okPath
			c.At(ev, "list/element", name, ok, "account, key, path or script of a listed address are those of another one")
		}
		e.hook = func(st *State, ev *Event) {
			switch ev.Kind {
			case "idxstore":
				if ev.Val != nil && typeName(ev.Val.Typ) == "domain.AddressInfo" {
					element(st, ev, ev.Val)
				}
			case "append":
				for _, a := range ev.Args[1:] {
					for _, v := range e.Elems(st, a) {
						if typeName(v.Typ) == "domain.AddressInfo" {
							element(st, ev, v)
						}
					}
				}
			case "return":
				if ev.Frame.parent == nil {
					c.At(ev, "list/complete", name, st.Is("all:all"), "not all the addresses of the vault are listed")
				}
			}
		}
		e.onAssume = eachLoop("all", isAll)
		c.AnalyzeWith(e, fn, "", func(st *State, _ []*Term) { st.Gen("did:all") })
	}
	c.Need("list", n, 3, "lists of derived addresses")
}

// loopKey, loopVal: what the key or value of a range loop comes from.
func loopKey(t *Term) *Term { return loopPart(t, "1") }
func loopVal(t *Term) *Term { return loopPart(t, "2") }
func loopPart(t *Term, i string) *Term {
	if t == nil {
		return nil
	}
	if t.Op == "extract" && t.Aux == i {
		t = t.Args[0]
	} else if t.Op != "next" || !strings.HasSuffix(t.Aux, i) {
		return nil
	}
	if t.Op == "next" && t.Args[0].Op == "range" {
		return t.Args[0].Args[0]
	}
	return nil
}

var derivedFields = map[string]bool{
	"domain.Vault.Accounts": true, "domain.Vault.AccountAndKeyByAddress": true, "domain.Account.DerivationPathByScript": true,
	"domain.Account.AccountIndex": true, "domain.Account.LastExternalIndex": true, "domain.Account.LastInternalIndex": true,
}

// deriveWriters: nothing else changes accounts, indexes and what is recorded
// of addresses. Copies are complete.
func (c *Check) deriveWriters() {
	n := 0
	for _, fn := range c.P.Funcs {
		if isPbPkg(c.P.PkgRel(fn)) {
			continue
		}
		inDom := c.P.PkgRel(fn) == dom
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				f, own := changedField(in)
				if !derivedFields[f] {
					continue
				}
				n++
				where, name := c.P.Pos(in.Pos()), fnName(fn)+"/"+lastPart(f)
				switch x := in.(type) {
				case *ssa.Call:
					c.Ob("write/delete", name, false, where, "what is recorded of accounts and addresses gets lost")
				case *ssa.Store:
					switch {
					case inDom && (freshObj(own) || strings.HasPrefix(f, "domain.Account.Last")):
						// how the domain advances the indexes is checked on its own
						c.Ob("write/store", name, true, where, "")
					case freshObj(own):
						_, isMap := x.Val.(*ssa.MakeMap)
						g, src := rootField(x.Val)
						c.Ob("write/store", name, isMap || g == f && src != own, where, "a copy of an account or vault gets another value than the original's")
					default:
						c.Ob("write/store", name, false, where, "accounts or indexes are changed outside of the vault")
					}
				case *ssa.MapUpdate:
					if inDom {
						c.Ob("write/map", name, true, where, "")
						continue
					}
					c.Ob("write/map", name, freshObj(own) && copiedEntry(x, f), where, "a copy of a vault misses entries or gets other ones than the original's")
				}
			}
		}
	}
	c.Need("write", n, 8, "writes to accounts and indexes")
	// the domain never replaces an account
	vt := c.P.Named(dom, "Vault")
	if vt == nil {
		return
	}
	acc := 0
	for _, fn := range c.P.exportedMethods(vt) {
		var e *Engine
		e = c.Engine(func(st *State, ev *Event) {
			if ev.Kind == "mapupdate" && len(ev.Args) >= 2 && ev.Args[0].IsField("domain.Vault.Accounts") {
				acc++
				absent := st.HasMatch('F', func(t *Term) bool { return t.Op == "has" && t.Args[0] == ev.Args[0] && t.Args[1] == ev.Args[1] }) ||
					st.HasMatch('N', func(t *Term) bool { return t.Op == "lookup" && t.Args[0] == ev.Args[0] && t.Args[1] == ev.Args[1] })
				c.At(ev, "write/account", fnName(fn), absent, "an existing account is replaced: its indexes start over")
				c.At(ev, "write/account", fnName(fn)+"/value", ev.Val.All(func(a *Term) bool { return a.IsNil() || a.Op == "alloc" }), "something else than a new account is stored")
			}
			next := strings.HasPrefix(fn.Name(), "DeriveNext") // checked on its own
			if ev.Kind == "store" && strings.HasPrefix(ev.Name, "domain.Account.Last") && !next {
				c.At(ev, "write/index", fnName(fn)+"/"+lastPart(ev.Name), ev.Base != nil && ev.Base.Op == "alloc" && ev.Val.IsZero(), "an index is changed although no address is derived")
			}
			if ev.Kind == "mapupdate" && !next && len(ev.Args) >= 2 && (ev.Args[0].IsField("domain.Account.DerivationPathByScript") || ev.Args[0].IsField("domain.Vault.AccountAndKeyByAddress")) {
				c.At(ev, "write/recorded", fnName(fn), false, "what is recorded of an address is changed although no address is derived")
			}
			if ev.Kind == "store" && ev.Name == "domain.Account.AccountIndex" {
				c.At(ev, "write/index", fnName(fn), ev.Base != nil && ev.Base.Op == "alloc" && paramIdx(ev.Val) >= 1, "an account gets another index than the one it is stored under")
			}
		})
		e.inline = func(f *ssa.Function) bool { return c.P.PkgRel(f) == dom }
		c.Analyze(e, fn)
	}
	c.Need("write/account", acc, 2, "new accounts")
}

func isPbPkg(rel string) bool { return strings.Contains(rel, "protobuf/") }

// copiedEntry: the entry comes from a loop over the same field of another
// object, in every iteration.
func copiedEntry(x *ssa.MapUpdate, f string) bool {
	ke, ok := x.Key.(*ssa.Extract)
	if !ok || ke.Index != 1 {
		return false
	}
	nx, ok := ke.Tuple.(*ssa.Next)
	if !ok {
		return false
	}
	rg, ok := nx.Iter.(*ssa.Range)
	if !ok {
		return false
	}
	if g, _ := rootField(rg.X); g != f {
		return false
	}
	isVal := func(v ssa.Value) bool {
		e, ok := v.(*ssa.Extract)
		return ok && e.Tuple == ke.Tuple && e.Index == 2
	}
	okVal := isVal(x.Value)
	switch v := x.Value.(type) {
	case *ssa.Call:
		for _, a := range v.Call.Args {
			okVal = okVal || isVal(a)
		}
	case *ssa.Alloc:
		for _, r := range *v.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == v {
				if u, ok := s.Val.(*ssa.UnOp); ok {
					okVal = okVal || isVal(u.X)
				}
			}
			if fa, ok := r.(*ssa.FieldAddr); ok { // field by field
				for _, q := range *fa.Referrers() {
					if s, ok := q.(*ssa.Store); ok && s.Addr == fa {
						if _, o := fieldOf(rootAddr(s.Val)); o != nil && isVal(o) {
							okVal = true
						}
					}
				}
			}
		}
	}
	if !okVal {
		return false
	}
	h := nx.Block()
	for _, p := range h.Preds {
		if h.Dominates(p) && !x.Block().Dominates(p) {
			return false
		}
	}
	return true
}

func rootAddr(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok {
		return u.X
	}
	return v
}

// accountConstants: accounts and chains for different purposes differ.
func (c *Check) accountConstants() {
	fee, wal, mkt := c.intConst(dom, "FeeAccount"), c.intConst(dom, "WalletAccount"), c.intConst(dom, "MarketAccountStart")
	ext, in := c.intConst(dom, "ExternalChain"), c.intConst(dom, "InternalChain")
	c.Ob("account/purposes", "accounts", fee != wal && fee < mkt && wal < mkt && fee >= 0 && wal >= 0, dom, "accounts for different purposes share an index")
	c.Ob("account/chains", "chains", ext == 0 && in == 1, dom, "the chains of an account are not those of the standard")
}

// derivePersisted: addresses leave the service once the vault is persisted.
func (c *Check) derivePersisted() {
	isDerive := func(f *ssa.Function) bool {
		return f != nil && (strings.HasPrefix(fnName(f), "domain.Vault.DeriveNext"))
	}
	derives := func(fn *ssa.Function) bool {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && isDerive(ci.Common().StaticCallee()) {
					return true
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					if f, ok := mc.Fn.(*ssa.Function); ok && strings.HasPrefix(strings.TrimSuffix(fnName(f), "$bound"), "domain.Vault.DeriveNext") {
						return true
					}
				}
			}
		}
		return false
	}
	leads, sites := map[*ssa.Function]bool{}, 0
	for _, fn := range c.P.Funcs {
		if c.P.PkgRel(fn) != dom && derives(fn) && fn.Synthetic == "" {
			leads[fn] = true
			sites++
			c.Ob("persist/where", fnName(fn), c.P.PkgRel(fn) == app, c.P.Pos(fn.Pos()), "addresses are derived outside of the services")
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range c.P.FuncsIn(app) {
			if leads[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if f, ok := (*op).(*ssa.Function); ok && leads[f] && !leads[fn] {
							leads[fn], changed = true, true
						}
					}
				}
			}
		}
	}
	takesVault := func(f *ssa.Function) bool {
		for _, p := range f.Params {
			if typeName(p.Type()) == "domain.Vault" {
				return true
			}
		}
		return false
	}
	visited := map[string]bool{}
	broadcasts, saves := 0, 0
	analyze := func(fn *ssa.Function) {
		var e *Engine
		outside := map[*Term]*Term{} // addresses derived from a vault that is not the stored one
		res := fn.Signature.Results()
		e = c.Engine(func(st *State, ev *Event) {
			switch ev.Kind {
			case "call":
				for _, a := range ev.Args {
					if a != nil && a.Op == "slice" {
						st.Gen("did", a)
					}
				}
				switch {
				case strings.HasPrefix(ev.Name, "domain.Vault.DeriveNext"):
					visited[c.P.Pos(ev.Pos)] = true
					st.KillAll("saved")
					c.derivePurpose(fn, ev)
				case lastIs(ev.Name, "BroadcastTransaction"):
					broadcasts++
					c.At(ev, "persist/broadcast", fnName(fn), st.Is("saved"), "a transaction may be broadcasted before the addresses it pays to are persisted")
				}
			case "after":
				if strings.HasPrefix(ev.Name, "domain.Vault.DeriveNext") && len(ev.Res) == 2 && len(ev.Args) == 2 && ev.Args[0].Op != "cbparam" {
					outside[ev.Res[0]] = ev.Args[0]
				}
			case "store":
				if ev.Name == "domain.Market.AccountIndex" && fn.Name() == "DepositMarket" {
					c.At(ev, "account/new", fnName(fn), marketAccount(ev.Val), "a new market does not get an account of its own")
				}
				if res.Len() == 0 && strings.HasSuffix(strings.ToLower(ev.Name), "initialized") && ev.Val != nil {
					if v, ok := ev.Val.BoolConst(); ok && v {
						saves++
						c.At(ev, "persist/initialized", fnName(fn), st.Is("saved"), "the wallet is ready although its addresses are not persisted")
					}
				}
			case "return":
				if callbackOf(ev.Frame, "UpdateVault") && len(ev.Res) == 2 {
					g := st.lightClone()
					if !g.assume(ev.Res[1], 'N') {
						return
					}
					saves++
					ok := true
					for d, v := range outside {

						covered := ev.Res[0] == v || g.HasMatch('L', func(t *Term) bool {
							return t.Aux == "covered" && t.Args[0].Any(func(a *Term) bool { return a == d })
						})
						ok = ok && covered
					}
					c.At(ev, "persist/vault", fnName(ev.Frame.fn), ok && !ev.Res[0].Any((*Term).IsNil), "the vault persisted misses addresses derived before")
					st.Gen("saved")
				}
				if ev.Frame.parent == nil && res.Len() > 0 {
					if _, good := outcomes(st, ev); good != nil {
						if r := ev.Res[0]; !isErrorType(r.Typ) && nillable(r) && !good.assume(r, 'X') {
							return
						}
						c.At(ev, "persist/returned", fnName(fn), good.Is("saved"), "addresses are handed out although the vault holding them is not persisted")
					}
				}
			}
		})
		e.onAssume = func(st *State, k byte, t *Term) {
			switch {
			case k == 'N' && res.Len() > 1 && types.Identical(t.Typ, res.At(0).Type()):
				st.Gen("saved") // nothing is handed out
			case k == 'T' && t.Op == "has" && t.Args[0].IsField("domain.Vault.AccountAndKeyByAddress") && t.Args[0].Args[0].Op == "cbparam" && t.Args[1].IsField("domain.AddressInfo.Address"):
				x := t.Args[1].Args[0]
				st.Gen("covered", x)
				if x.Op == "index" {
					st.Gen("did", x.Args[0])
				}
			case (k == 'T' || k == 'F') && loopOver(t) != nil:
				l := loopOver(t)
				if k == 'T' {
					st.Kill("did", l)
				} else if st.Is("did", l) {
					for _, x := range e.Elems(st, l) {
						st.Gen("covered", x)
					}
				}
			}
		}
		var inline func(f *ssa.Function) bool
		inline = func(f *ssa.Function) bool {
			return c.P.PkgRel(f) == app && (leads[f] || f.Parent() != nil && inline(f.Parent()) || takesVault(f) || len(f.Blocks) <= 3)
		}
		e.inline = inline
		c.AnalyzeWith(e, fn, "", func(st *State, _ []*Term) { st.Gen("saved") })
	}
	for _, si := range []string{"OperatorService", "TradeService", "WalletService"} {
		nt := c.service(si, app)
		if nt == nil {
			continue
		}
		for _, fn := range c.P.exportedMethods(nt) {
			if leads[fn] {
				analyze(fn)
			}
		}
	}
	for fn := range leads {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && isDerive(ci.Common().StaticCallee()) {
					c.Ob("persist/followed", fnName(fn), visited[c.P.Pos(ci.Pos())], c.P.Pos(ci.Pos()), "a derivation of addresses could not be followed")
				}
			}
		}
	}
	c.Need("persist/sites", sites, 6, "derivations of addresses")
	c.Need("persist/broadcast", broadcasts, 2, "broadcasts of transactions paying to derived addresses")
	c.Need("persist/vault", saves, 6, "updates of the vault")
}

// derivePurpose: the account is one for the purpose of the method.
func (c *Check) derivePurpose(fn *ssa.Function, ev *Event) {
	if len(ev.Args) < 2 {
		return
	}
	external := strings.Contains(ev.Name, "External")
	v, isConst := unconv(ev.Args[1]).IntConst()
	var ok bool
	switch name := fn.Name(); name {
	case "GenerateAddressAndBlindingKey":
		ok = isConst && v == 1 && external
	case "DepositFeeAccount":
		ok = isConst && v == 0 && external
	case "DepositMarket":
		ok = external && marketAccount(ev.Args[1])
	case "SendToMany":
		ok = isConst && v <= 1 && !external
	case "WithdrawMarketFunds":
		ok = (!isConst || v == 0) && !external
	case "TradePropose":
		ok = !isConst || v == 0 && !external
	default:
		return
	}
	c.At(ev, "account/used", fnName(fn)+"/"+lastPart(ev.Name), ok, "an address of an account or chain for another purpose is derived")
}

// marketAccount: the account of an existing market, or the one after the latest.
func marketAccount(t *Term) bool {
	return t != nil && t.All(func(a *Term) bool {
		if a = unconv(a); a.Op == "extract" && a.Aux == "1" {
			return lastIs(a.Args[0].CallName(), "GetMarketByAsset", "GetMarketByAccount")
		}
		if a.Op == "bin" && a.Aux == "+" {
			v, ok := a.Args[1].IntConst()
			x := unconv(a.Args[0])
			return ok && v == 1 && x.Op == "extract" && x.Aux == "1" && lastIs(x.Args[0].CallName(), "GetLatestMarket")
		}
		return false
	})
}

// latestMarket: the latest market is the one with the highest account index.
func (c *Check) latestMarket() {
	start := c.intConst(dom, "MarketAccountStart")
	n := 0
	for _, kind := range sortedKeys(c.repoImpls("MarketRepository")) {
		fn := c.P.Method(c.repoImpls("MarketRepository")[kind], "GetLatestMarket")
		if fn == nil {
			continue
		}
		n++
		var e *Engine
		compared, fine := map[*Term]bool{}, map[*Term]bool{}
		e = c.Engine(func(st *State, ev *Event) {
			if op, tx, ok := isBh(ev.Name); ok && ev.Kind == "call" && op == "Find" {
				k := 1
				if tx {
					k = 2
				}
				if len(ev.Args) > k+1 {
					q := ev.Args[k+1]
					sorted, rev := false, false
					for x := q; x != nil && x.CallName() != ""; {
						switch lastPart(x.CallName()) {
						case "SortBy":
							el := e.Elems(st, x.CallArgs()[1])
							sorted = len(el) == 1 && isStrConst(el[0], "AccountIndex")
						case "Reverse":
							rev = !rev
						}
						if len(x.CallArgs()) == 0 {
							break
						}
						x = x.CallArgs()[0]
					}
					if sorted && rev {
						st.Gen("first")
					} else if sorted {
						st.Gen("last")
					}
				}
			}
			if ev.Kind == "call" && (ev.Name == "sort.Ints" || ev.Name == "slices.Sort") && len(ev.Args) >= 1 {
				st.Gen("sorted", ev.Args[0])
			}
			if ev.Kind == "return" && len(ev.Res) == 3 {
				_, good := outcomes(st, ev)
				if good == nil {
					return
				}
				isLast := func(i, s *Term) bool { // i is len(s)-1
					if i.Op == "bin" && len(i.Args) == 2 && i.Args[0].Op == "len" && i.Args[0].Args[0] == s {
						v, ok := i.Args[1].IntConst()
						return ok && (i.Aux == "-" && v == 1 || i.Aux == "+" && v == -1)
					}
					return false
				}
				ok := ev.Res[1].All(func(a *Term) bool {
					if fine[a] && ev.Frame.parent == nil {
						return true
					}
					if v, ok := a.IntConst(); ok {
						return v == start-1 || v <= 0 // none, or an error
					}
					switch {
					case a.Op == "index":
						return isLast(a.Args[1], a.Args[0]) && st.Is("sorted", a.Args[0])
					case a.IsField("domain.Market.AccountIndex"):
						x := a.Args[0]
						if x.Op != "index" {
							return compared[a]
						}
						return x.Args[1].IsZero() && st.HasLabel("first") || isLast(x.Args[1], x.Args[0]) && st.HasLabel("last") || compared[a]
					}
					return compared[a]
				})
				if ok { // also for who returns it further
					fine[ev.Res[1]] = true
				}
				c.At(ev, "account/latest", kind, ok, "another market than the one with the highest account index is taken for the latest: a new market would share an account")
			}
		})
		e.onAssume = func(st *State, k byte, t *Term) {
			if k == 'T' && t.Op == "lt" {
				compared[t.Args[1]] = true
			}
		}
		e.inline = func(f *ssa.Function) bool {
			return strings.HasPrefix(c.P.PkgRel(f), "internal/infrastructure/storage/db/"+kind)
		}
		c.Analyze(e, fn)
	}
	c.Need("account/latest", n, 2, "storage back-ends")
}

// walletDerivation: address and keys of the wallet come from the same path.
func (c *Check) walletDerivation() {
	w := c.P.Named("pkg/wallet", "Wallet")
	if w == nil {
		return
	}
	n := 0
	run := func(name string, f func(e *Engine, st, good *State, ev *Event)) {
		fn := c.P.Method(w, name)
		if fn == nil {
			return
		}
		n++
		var e *Engine
		e = NewEngine(c.P)
		e.inline = func(f *ssa.Function) bool {
			return c.P.PkgRel(f) == "pkg/wallet" && f.Name() != "ParseDerivationPath" && (!f.Object().Exported() || f == fn)
		}
		isPath := func(t *Term) bool {
			return t.Contains(func(x *Term) bool { return x.CallName() == "wallet.ParseDerivationPath" })
		}
		e.onAssume = eachLoop("path", isPath)
		e.hook = func(st *State, ev *Event) {
			if ev.Kind == "call" && ev.Name == "hdkeychain.ExtendedKey.Derive" && isPath(ev.Args[1]) {
				st.Gen("did:path")
			}
			if ev.Kind == "return" && ev.Frame.parent == nil {
				if _, good := outcomes(st, ev); good != nil {
					f(e, st, good, ev)
				}
			}
		}
		c.AnalyzeWith(e, fn, "", func(st *State, _ []*Term) { st.Gen("did:path") })
	}
	arg := func(e *Engine, st *State, call *Term, f string) *Term {
		a := call.CallArgs()
		if len(a) == 0 {
			return nil
		}
		return fieldByName(e, st, a[len(a)-1], f)
	}
	run("DeriveConfidentialAddress", func(e *Engine, st, good *State, ev *Event) {
		// address and script of the payment to the public key of the path
		pay := func(t *Term) *Term { return t.CallArgs()[0] }
		a := ev.Res[0]
		ok := a.Op == "extract" && a.Aux == "0" && strings.HasPrefix(lastPart(a.Args[0].CallName()), "Confidential") && okErr(good, a)
		var p, script *Term
		if ok {
			p = pay(a.Args[0])
			ok = p.CallName() == "payment.FromPublicKey"
		}
		if ok {
			pub, blind := p.CallArgs()[0], p.CallArgs()[2]
			pa := pub.Op == "extract" && pub.Aux == "1" && pub.Args[0].CallName() == "wallet.Wallet.DeriveSigningKeyPair"
			if pa {
				d := arg(e, st, pub.Args[0], "DerivationPath")
				pa = isOptField(d, "DerivationPath")
			}
			pb := blind.Op == "extract" && blind.Aux == "1" && blind.Args[0].CallName() == "wallet.Wallet.DeriveBlindingKeyPair"
			if pb {
				script = arg(e, st, blind.Args[0], "Script")
				pb = script != nil && script.Op == "field" && script.Args[0].CallName() == "payment.FromPublicKey" && script.Args[0].CallArgs()[0] == pub
			}
			ok = pa && pb
		}
		c.At(ev, "wallet/address", "DeriveConfidentialAddress", ok, "the address is not the confidential one of the keys derived for the path")
		sc := ev.Res[1]
		ok = ok && sc != nil && sc.Op == "field" && sc.Aux == script.Aux && sc.Args[0].CallName() == "payment.FromPublicKey" && sc.Args[0].CallArgs()[0] == p.CallArgs()[0]
		c.At(ev, "wallet/script", "DeriveConfidentialAddress", ok, "the script returned is not the address' one")
	})
	run("DeriveSigningKeyPair", func(e *Engine, st, good *State, ev *Event) {
		priv, pub := extractOf(ev.Res[0], 0, "hdkeychain.ExtendedKey.ECPrivKey"), extractOf(ev.Res[1], 0, "hdkeychain.ExtendedKey.ECPubKey")
		ok := len(priv) == 1 && len(pub) == 1 && priv[0] == pub[0] && okErr(good, ev.Res[0]) && okErr(good, ev.Res[1])
		master, derived := false, false
		if ok {
			ok = priv[0].All(func(a *Term) bool {
				if m := extractOf(a, 0, "hdkeychain.NewKeyFromString"); m != nil {
					master = m[0].Contains(func(x *Term) bool { return x.IsField("wallet.Wallet.signingMasterKey") })
					return master
				}
				if d := extractOf(a, 0, "hdkeychain.ExtendedKey.Derive"); d != nil {
					derived = d[1].Contains(func(x *Term) bool { return x.CallName() == "wallet.ParseDerivationPath" })
					return derived
				}
				return false
			})
		}
		c.At(ev, "wallet/keys", "DeriveSigningKeyPair", ok && master && derived, "the keys are not those derived from the master key along the path")
		c.At(ev, "wallet/path", "DeriveSigningKeyPair", good.Is("all:path"), "the keys are not derived along the whole path")
	})
	run("DeriveBlindingKeyPair", func(e *Engine, st, good *State, ev *Event) {
		a := extractOf(ev.Res[0], 0, "slip77.Slip77.DeriveKey")
		ok := len(a) == 2 && isOptField(a[1], "Script")
		if ok {
			m := extractOf(a[0], 0, "slip77.FromMasterKey")
			ok = len(m) == 1 && m[0].IsField("wallet.Wallet.blindingMasterKey")
		}
		c.At(ev, "wallet/blinding", "DeriveBlindingKeyPair", ok, "the blinding key is not the one of the script")
	})
	c.Need("wallet", n, 3, "derivations of the wallet")
}

// isOptField: the field of the options the entry was given.
func isOptField(t *Term, f string) bool {
	return t != nil && t.Op == "field" && lastPart(t.Aux) == f && paramIdx(t.Args[0]) == 1
}
