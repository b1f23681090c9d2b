package main

import (
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C11: the seed and the passwords stay secret.
func init() {
	rules["C11"] = func(c *Check) {
		c.Note("Every value coming from the mnemonic store, a decryption, the generation of a mnemonic or a password or secret of a request is followed through the repository; all logs, errors, replies, files, stored records and outgoing requests are checked. The vault, its cipher and the services changing its password are followed on their own.")
		c.Assume("scrypt, AES-GCM and the system's random generator do what they promise; whoever reads the process's memory is out of scope")
		c.secretFlow()
		c.vaultSecrets()
		c.cipher()
		c.passwordFlow()
	}
}

var secretName = regexp.MustCompile(`(?i)password|passphrase|mnemonic`)

func isPb(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.Contains(n.Obj().Pkg().Path(), "protobuf/")
}

func (c *Check) secretTaint() *Taint {
	t := &Taint{p: c.P}
	srcCalls := map[string]bool{
		"domain.MnemonicStore.Get": true, "domain.Encrypter.Decrypt": true, "wallet.Decrypt": true,
		"wallet.NewMnemonic": true, "go-bip39.NewMnemonic": true, "go-bip39.NewEntropy": true, "config.GetMnemonic": true, "domain.Vault.GetMnemonicSafe": true,
	}
	t.source = func(v ssa.Value) bool {
		call, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		n := calleeStr(&call.Call)
		if srcCalls[n] {
			return true
		}
		if f := call.Call.StaticCallee(); f != nil && len(f.Params) > 0 && isPb(f.Params[0].Type()) && strings.HasPrefix(f.Name(), "Get") {
			return secretName.MatchString(f.Name()) && strings.HasSuffix(typeName(f.Params[0].Type()), "Request")
		}
		return false
	}
	t.srcField = func(o types.Type, f *types.Var) bool {
		if typeName(o) == "slip77.Slip77" && f.Name() == "MasterKey" {
			return true
		}
		return isPb(o) && strings.HasSuffix(typeName(o), "Request") && (secretName.MatchString(f.Name()))
	}
	// what an interceptor sees of any request
	t.srcParam = func(p *ssa.Parameter) bool {
		if _, ok := p.Type().Underlying().(*types.Interface); !ok || typeName(p.Type()) == "context.Context" || p.Parent().Synthetic != "" {
			return false
		}
		for _, q := range p.Parent().Params {
			if typeName(q.Type()) == "grpc.UnaryServerInfo" {
				return true
			}
		}
		return false
	}
	prop := []string{"strings.", "bytes.", "fmt.Sprint", "strconv.", "hex.", "base64.", "json.Marshal", "go-bip39.NewSeed", "go-bip39.EntropyFromMnemonic", "go-bip39.MnemonicToByteArray",
		"base58.", "hdkeychain.NewMaster", "hdkeychain.NewKeyFromString", "hdkeychain.ExtendedKey.Child", "hdkeychain.ExtendedKey.Derive", "hdkeychain.ExtendedKey.String", "hdkeychain.ExtendedKey.ECPrivKey", "sort.", "ioutil.ReadAll", "io.ReadAll"}
	t.propagate = func(n string) bool {
		for _, p := range prop {
			if strings.HasPrefix(n, p) {
				return !strings.HasPrefix(n, "strings.Has") && !strings.HasPrefix(n, "strings.Contains") && !strings.HasPrefix(n, "bytes.Equal")
			}
		}
		return false
	}
	t.exclude = func(f *ssa.Function) bool {
		r := c.P.PkgRel(f)
		return r == "cmd/tdex" || strings.HasPrefix(r, "cmd/") && r != "cmd/tdexd"
	}
	t.run()
	return t
}

// sinkOf: where a call brings its arguments out of the process's memory.
func sinkOf(cm *ssa.CallCommon) string {
	n := calleeStr(cm)
	switch {
	case strings.HasPrefix(n, "logrus."), strings.HasPrefix(n, "log."):
		if l := lastPart(n); strings.HasPrefix(l, "Parse") || strings.HasPrefix(l, "Set") || strings.HasPrefix(l, "Get") || l == "New" {
			return ""
		}
		return "log"
	case strings.HasPrefix(n, "fmt.Print"):
		return "log"
	case strings.HasPrefix(n, "fmt.Fprint"):
		return "file"
	case n == "fmt.Errorf", n == "errors.New", strings.HasPrefix(n, "errors.Wrap"), strings.HasPrefix(n, "status.Error"), strings.HasPrefix(n, "status.New"):
		return "error"
	case n == "os.WriteFile", n == "ioutil.WriteFile", strings.HasPrefix(n, "os.File.Write"), n == "os.Setenv", strings.HasPrefix(n, "exec."):
		return "file"
	case strings.HasPrefix(n, "badgerhold.Store."):
		return "database"
	case strings.HasPrefix(n, "http.NewRequest"), strings.HasPrefix(n, "http.Post"), n == "http.Get", strings.HasPrefix(n, "http.Client."), strings.HasSuffix(n, ".Publish") && cm.IsInvoke():
		return "network"
	}
	if b, ok := cm.Value.(*ssa.Builtin); ok && (b.Name() == "print" || b.Name() == "println") {
		return "log"
	}
	return ""
}

// secretFlow: no secret reaches a log, an error, a file, a record or a reply.
func (c *Check) secretFlow() {
	t := c.secretTaint()
	srcs := 0
	for v, w := range t.why {
		if w == nil && t.vals[v]&1 != 0 {
			srcs++
		}
	}
	c.Need("secret/sources", srcs, 12, "sources of secrets")
	// a struct with a secret inside is as secret, unless it prints nothing of it
	var holds func(ty types.Type, depth int) string
	holds = func(ty types.Type, depth int) string {
		if depth > 4 {
			return ""
		}
		switch u := ty.Underlying().(type) {
		case *types.Pointer:
			return holds(u.Elem(), depth+1)
		case *types.Slice:
			return holds(u.Elem(), depth+1)
		case *types.Map:
			return holds(u.Elem(), depth+1)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				k := typeName(ty) + "." + u.Field(i).Name()
				if t.fields[k] != 0 || t.srcField(ty, u.Field(i)) {
					return k
				}
				if s := holds(u.Field(i).Type(), depth+1); s != "" {
					return s
				}
			}
		}
		return ""
	}
	sites := 0
	for _, fn := range c.P.Funcs {
		if t.exclude(fn) {
			continue
		}
		bad := map[string]bool{}
		cnt := map[string]int{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					k := sinkOf(x.Common())
					if k == "" {
						continue
					}
					cnt[k]++
					sites++
					for _, a := range sinkArgs(x.Common()) {
						if t.vals[a] != 0 {
							bad[k] = true
							c.Ob("secret/"+k, fnName(fn), false, c.P.Pos(in.Pos()), "a secret ends up in a "+k+": "+t.path(a))
						} else if s := holds(argType(a), 0); s != "" && k != "database" {
							bad[k] = true
							c.Ob("secret/"+k, fnName(fn), false, c.P.Pos(in.Pos()), "a record with a secret ("+s+") ends up in a "+k)
						} else if s != "" && k == "database" {
							bad[k] = true
							c.Ob("secret/"+k, fnName(fn), false, c.P.Pos(in.Pos()), "a secret ("+s+") is stored in plain text")
						}
					}
				case *ssa.Panic:
					cnt["log"]++
					if t.vals[x.X] != 0 {
						bad["log"] = true
						c.Ob("secret/log", fnName(fn), false, c.P.Pos(in.Pos()), "a secret ends up in a panic")
					}
				}
			}
		}
		for _, k := range keysI(cnt) {
			if !bad[k] {
				c.Ob("secret/"+k, fnName(fn), true, "-", "")
			}
		}
	}
	c.Need("secret/sinks", sites, 200, "logs, errors, files, records and requests")
	// replies and records
	var ks []string
	for k := range t.fields {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		owner := k[:strings.LastIndex(k, ".")]
		reply := strings.HasSuffix(owner, "Reply") || strings.HasSuffix(owner, "Response")
		if reply && k != "wallet.GenSeedReply.SeedMnemonic" && k != "tdexold.GenSeedReply.SeedMnemonic" {
			c.Ob("secret/reply", k, false, "-", "a secret is sent in a reply")
		}
		if strings.HasPrefix(owner, "domain.") {
			c.Ob("secret/record", k, false, "-", "a secret is kept in plain text in a stored record")
		}
	}
	for _, nt := range c.P.structs() {
		if strings.HasPrefix(typeName(nt), "domain.") {
			c.Ob("secret/record", typeName(nt), true, "-", "")
		}
	}
}

// sinkArgs: the arguments, those of a variadic list one by one.
func sinkArgs(cm *ssa.CallCommon) []ssa.Value {
	var out []ssa.Value
	for _, a := range cm.Args {
		out = append(out, a)
		if s, ok := a.(*ssa.Slice); ok {
			if al, ok := s.X.(*ssa.Alloc); ok && al.Referrers() != nil {
				for _, r := range *al.Referrers() {
					ia, ok := r.(*ssa.IndexAddr)
					if !ok || ia.Referrers() == nil {
						continue
					}
					for _, u := range *ia.Referrers() {
						if st, ok := u.(*ssa.Store); ok {
							out = append(out, st.Val)
						}
					}
				}
			}
		}
	}
	return out
}

func argType(a ssa.Value) types.Type {
	if m, ok := a.(*ssa.MakeInterface); ok {
		return m.X.Type()
	}
	return a.Type()
}

func keysI(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func isPlain(t *Term) bool { // strings.Join(mnemonic, " ") of a parameter, or a parameter
	if t.CallName() == "strings.Join" {
		return paramIdx(t.CallArgs()[0]) >= 0
	}
	return paramIdx(t) >= 0
}

// unconv: the value without conversions between strings and bytes.
func unconv(t *Term) *Term {
	for t != nil && t.Op == "conv" && len(t.Args) == 1 && !narrows(t) {
		t = t.Args[0]
	}
	return t
}

// extractOf: t is the i-th result of a call of name; its arguments.
func extractOf(t *Term, i int, name string) []*Term {
	if t == nil || t.Op != "extract" || t.Aux != itoa(i) || t.Args[0].CallName() != name {
		return nil
	}
	return t.Args[0].CallArgs()
}

// vaultSecrets: the plain mnemonic is set only by someone who knows the
// password, and it is stored encrypted with the password whose hash is stored.
func (c *Check) vaultSecrets() {
	vt := c.P.Named(dom, "Vault")
	if vt == nil {
		c.Need("vault/type", 0, 1, "vault type")
		return
	}
	var entries []*ssa.Function
	for _, f := range c.P.FuncsIn(dom) {
		if f.Signature.Recv() == nil && f.Object() != nil && f.Object().Exported() {
			if r := f.Signature.Results(); r.Len() == 2 && typeName(r.At(0).Type()) == "domain.Vault" {
				entries = append(entries, f)
			}
		}
	}
	entries = append(entries, c.P.exportedMethods(vt)...)
	sets, gets, encs, unsets := 0, 0, 0, 0
	for _, fn := range entries {
		fn := fn
		ctor := fn.Signature.Recv() == nil
		strs := strParams(fn)
		e := NewEngine(c.P)
		e.inline = func(f *ssa.Function) bool { return c.P.PkgRel(f) == dom }
		name := fnName(fn)
		own := func(st *State, t *Term) bool { return t.IsField("domain.Vault.EncryptedMnemonic") && !ctor }
		decrypted := func(st *State, t *Term) []*Term {
			a := extractOf(t, 0, "domain.Encrypter.Decrypt")
			if a == nil || !okErr(st, t) || !own(st, a[1]) {
				return nil
			}
			return a
		}
		e.hook = func(st *State, ev *Event) {
			switch ev.Kind {
			case "call":
				switch ev.Name {
				case "domain.MnemonicStore.Set":
					sets++
					m := ev.Args[1]
					a := decrypted(st, m)
					ok := a != nil && paramIdx(a[2]) >= 0
					if !ok && ctor && isPlain(m) {
						ok = st.Is("encrypted", m)
					}
					c.At(ev, "vault/set-needs-password", name, ok, "the plain mnemonic becomes available without having been decrypted with the given password (or encrypted with it just before)")
					st.Kill("sealed")
				case "domain.MnemonicStore.Unset":
					unsets++
					st.Gen("sealed")
					st.Gen("unset")
				case "domain.MnemonicStore.Get":
					gets++
					ok := st.HasMatch('T', func(t *Term) bool { return t.CallName() == "domain.MnemonicStore.IsSet" })
					c.At(ev, "vault/get-needs-unlock", name, ok, "the mnemonic is used without knowing that the vault is unlocked")
				}
			case "store":
				switch ev.Name {
				case "domain.Vault.EncryptedMnemonic":
					encs++
					a := extractOf(ev.Val, 0, "domain.Encrypter.Encrypt")
					ok := a != nil && okErr(st, ev.Val) && paramIdx(a[2]) >= 0
					if ok && ctor {
						ok = isPlain(a[1])
					} else if ok {
						d := decrypted(st, a[1])
						ok = d != nil && len(strs) == 2 && paramIdx(d[2]) == strs[0] && paramIdx(a[2]) == strs[1]
					}
					c.At(ev, "vault/encrypted", name, ok, "the encrypted mnemonic is replaced by something else than the checked encryption, with the new password, of the vault's mnemonic")
				case "domain.Vault.PassphraseHash":
					v := ev.Val
					ok := v.CallName() == "btcutil.Hash160" && len(strs) > 0 && paramIdx(unconv(v.CallArgs()[0])) == strs[len(strs)-1]
					c.At(ev, "vault/hash", name, ok, "the stored password hash is not the one of the password the mnemonic is encrypted with")
				default:
					if ev.Base != nil && ev.Base.Op == "alloc" {
						return
					}
				}
				if ev.Name == "domain.Vault.EncryptedMnemonic" || ev.Name == "domain.Vault.PassphraseHash" {
					st.Gen("stored-" + lastPart(ev.Name))
					if !ctor {
						st.Kill("sealed")
					}
					if !ctor {
						ok := st.HasMatch('T', func(t *Term) bool {
							if t.CallName() != "bytes.Equal" {
								return false
							}
							x, y := t.CallArgs()[0], t.CallArgs()[1]
							h := func(x, y *Term) bool {
								return x.IsField("domain.Vault.PassphraseHash") && y.CallName() == "btcutil.Hash160" && paramIdx(unconv(y.CallArgs()[0])) == strs[0]
							}
							return h(x, y) || h(y, x)
						}) || st.Is("decrypted")
						c.At(ev, "vault/old-checked", name+"/"+lastPart(ev.Name), len(strs) == 2 && ok, "the password is changed without having checked the current one")
					}
				}
			case "after":
				if ev.Name == "domain.Encrypter.Encrypt" && ev.Res != nil {
					st.CondGen('N', ev.Res[len(ev.Res)-1], "encrypted", ev.Args[1])
				}
				if ev.Name == "domain.Encrypter.Decrypt" && ev.Res != nil && len(strs) > 0 && paramIdx(ev.Args[2]) == strs[0] {
					st.CondGen('N', ev.Res[len(ev.Res)-1], "decrypted")
				}
			case "return":
				if ev.Frame.parent != nil {
					return
				}
				bad, good := outcomes(st, ev)
				if bad != nil {
					c.At(ev, "vault/error-changes-nothing", name, bad.Is("sealed"), "a failed call leaves the vault's secrets changed or the mnemonic available")
				}
				if good != nil && (ctor || len(strs) == 2) {
					c.At(ev, "vault/change-complete", name, good.Is("stored-EncryptedMnemonic") && good.Is("stored-PassphraseHash"), "the call succeeds but the encrypted mnemonic and the password hash are not both replaced")
				}
			}
		}
		c.AnalyzeWith(e, fn, "", func(st *State, _ []*Term) { st.Gen("sealed") })
	}
	c.Need("vault/sets", sets, 2, "places making the mnemonic available")
	c.Need("vault/gets", gets, 2, "uses of the mnemonic")
	c.Need("vault/encrypted", encs, 2, "places storing the encrypted mnemonic")
	c.Need("vault/unsets", unsets, 1, "places forgetting the mnemonic")
	// Lock forgets the mnemonic
	if f := c.P.Method(vt, "Lock"); f != nil {
		e := NewEngine(c.P)
		e.inline = func(f *ssa.Function) bool { return c.P.PkgRel(f) == dom }
		e.hook = func(st *State, ev *Event) {
			if ev.Kind == "call" && ev.Name == "domain.MnemonicStore.Unset" {
				st.Gen("unset")
			}
			if ev.Kind == "return" && ev.Frame.parent == nil {
				c.At(ev, "vault/lock", "Vault.Lock", st.Is("unset"), "locking the vault can leave the mnemonic available")
			}
		}
		e.onAssume = func(st *State, k byte, t *Term) {
			if k == 'F' && t.CallName() == "domain.MnemonicStore.IsSet" || k == 'T' && t.Op == "empty" && t.Args[0].IsField("domain.Vault.EncryptedMnemonic") {
				st.Gen("unset")
			}
		}
		c.Analyze(e, f)
	}
	// who else touches the store or the fields
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if n := calleeStr(ci.Common()); n == "domain.MnemonicStore.Set" || n == "domain.configStore.Set" {
						in := c.P.PkgRel(fn) == dom
						c.Ob("vault/writers", fnName(fn), in, c.P.Pos(ci.Pos()), "the plain mnemonic is set outside the vault")
					}
				}
				if fa, ok := in.(*ssa.FieldAddr); ok && c.P.PkgRel(fn) != dom {
					k, _, _ := fieldKey(fa.X.Type(), fa.Field)
					if (k == "domain.Vault.EncryptedMnemonic" || k == "domain.Vault.PassphraseHash") && isStored(fa) {
						c.Ob("vault/writers", fnName(fn), false, c.P.Pos(fa.Pos()), "the vault's secrets are written outside the vault")
					}
				}
			}
		}
	}
	c.encrypterArgs()
}

func lastArg(ev *Event) *Term {
	if len(ev.Res) == 0 {
		return nil
	}
	return ev.Res[len(ev.Res)-1]
}

func isStored(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == v {
			return true
		}
	}
	return false
}

// strParams: the parameters (receiver counted) that are strings or bytes.
func strParams(fn *ssa.Function) []int {
	var out []int
	for i, p := range fn.Params {
		switch u := p.Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				out = append(out, i)
			}
		case *types.Slice:
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				out = append(out, i)
			}
		}
	}
	return out
}

// outcomes: the state of a return if its error is set, and if it is not (nil
// where that cannot be); without an error result a function always succeeds.
func outcomes(st *State, ev *Event) (bad, good *State) {
	r := ev.Frame.fn.Signature.Results()
	if r.Len() == 0 || !isErrorType(r.At(r.Len()-1).Type()) || lastArg(ev) == nil {
		return nil, st
	}
	if b := st.lightClone(); b.assume(lastArg(ev), 'X') {
		bad = b
	}
	if g := st.lightClone(); g.assume(lastArg(ev), 'N') {
		good = g
	}
	return
}

// encrypterArgs: the adapters pass mnemonic and password on unchanged.
func (c *Check) encrypterArgs() {
	n := 0
	for _, nt := range c.P.Impls(c.P.Iface(dom, "Encrypter")) {
		for _, m := range c.P.exportedMethods(nt) {
			want := map[string]string{"Encrypt": "wallet.Encrypt", "Decrypt": "wallet.Decrypt"}[m.Name()]
			if want == "" || c.P.PkgRel(m) != dom {
				continue
			}
			n++
			m := m
			e := NewEngine(c.P)
			e.inline = func(f *ssa.Function) bool { return c.P.PkgRel(f) == dom }
			e.hook = func(st *State, ev *Event) {
				if ev.Kind == "call" && ev.Name == want && len(ev.Args) == 1 {
					txt := map[string]string{"wallet.Encrypt": "PlainText", "wallet.Decrypt": "CypherText"}[want]
					a, b := fieldByName(e, st, ev.Args[0], txt), fieldByName(e, st, ev.Args[0], "Passphrase")
					c.At(ev, "vault/encrypter", fnName(m), paramIdx(a) == 1 && paramIdx(b) == 2, "text and password are not passed on to the cipher")
				}
				if ev.Kind == "return" && ev.Frame.parent == nil {
					if _, good := outcomes(st, ev); good != nil {
						v := ev.Res[0]
						ok := v.Op == "extract" && v.Args[0].CallName() == want && okErr(good, v)
						c.At(ev, "vault/encrypter-result", fnName(m), ok, "the result is not the cipher's checked one")
					}
				}
			}
			c.Analyze(e, m)
		}
	}
	c.Need("vault/encrypter", n, 2, "adapters of the cipher")
}

func fieldByName(e *Engine, st *State, v *Term, name string) *Term {
	t := v.Typ
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return e.structField(st, v, i, t)
		}
	}
	return nil
}

// cipher: authenticated encryption with a fresh random nonce and salt and a
// slow key derivation; a failed authentication is an error.
func (c *Check) cipher() {
	const pkg = "pkg/wallet"
	seals, opens, keys := 0, 0, 0
	random := func(st *State, t *Term) bool { return st.Is("random", t) }
	for _, fname := range []string{"Encrypt", "Decrypt", "DeriveKey"} {
		fn := c.P.Func(pkg, fname)
		if fn == nil {
			c.Need("cipher/"+fname, 0, 1, "function "+fname)
			continue
		}
		e := NewEngine(c.P)
		e.inline = func(f *ssa.Function) bool { return c.P.PkgRel(f) == pkg }
		fills := map[*Term]*Term{}
		filled := map[*Term]bool{} // read from the generator on one of the paths joining
		given := func(t *Term) bool {
			return paramIdx(t) >= 0 || fname == "Decrypt" && t.Contains(func(x *Term) bool { return strings.HasSuffix(x.CallName(), "DecodeString") })
		}
		salted := func(st *State, t *Term) bool {
			if t.Op == "phi" {
				for _, a := range t.Alts {
					if !filled[a] && !given(a) {
						return false
					}
				}
				return true
			}
			return random(st, t) || given(t)
		}
		e.onAssume = func(_ *State, k byte, t *Term) {
			if b := fills[t]; k == 'N' && b != nil {
				filled[b] = true
			}
		}
		e.hook = func(st *State, ev *Event) {
			randomHook(st, ev)
			if ev.Kind == "after" && len(ev.Res) == 2 {
				if ev.Name == "rand.Read" && ev.Fn != nil && ev.Fn.Pkg != nil && ev.Fn.Pkg.Pkg.Path() == "crypto/rand" {
					fills[ev.Res[1]] = ev.Args[0]
				}
				if ev.Name == "io.ReadFull" && ev.Args[0].Op == "gload" && ev.Args[0].Aux == "rand.Reader" {
					fills[ev.Res[1]] = ev.Args[1]
				}
			}
			switch ev.Kind {
			case "call":
				switch {
				case ev.Name == "scrypt.Key":
					keys++
					a := ev.Args
					n, ok1 := a[2].IntConst()
					r, ok2 := a[3].IntConst()
					p, ok3 := a[4].IntConst()
					l, ok4 := a[5].IntConst()
					c.At(ev, "cipher/key-derivation", fname, ok1 && ok2 && ok3 && ok4 && n >= 1<<15 && r >= 8 && p >= 1 && (l == 16 || l == 24 || l == 32), "the key derivation is too cheap to resist guessing the password")
					c.At(ev, "cipher/salt", fname, salted(st, a[1]), "the key of an encryption is derived without a fresh random salt")
					pw := unconv(a[0])
					c.At(ev, "cipher/password", fname, paramIdx(pw) >= 0 || pw.Contains(func(x *Term) bool { return x.Op == "field" && strings.HasSuffix(x.Aux, ".Passphrase") }), "the key is not derived from the whole password")
				case ev.Name == "aes.NewCipher":
					k := ev.Args[0]
					c.At(ev, "cipher/key", fname, extractOf(k, 0, "scrypt.Key") != nil && okErr(st, k), "the key of the cipher is not the one derived from the password")
				case lastIs(ev.Name, "AEAD.Seal") && len(ev.Args) >= 4:
					seals++
					c.At(ev, "cipher/nonce", fname, random(st, ev.Args[2]), "a nonce is used that has not been read completely from crypto/rand for this encryption")
				case lastIs(ev.Name, "AEAD.Open"):
					opens++
				}
			case "return":
				if ev.Frame.parent != nil {
					return
				}
				_, st := outcomes(st, ev)
				if st == nil {
					return
				}
				switch fname {
				case "Decrypt":
					v := unconv(ev.Res[0])
					ok := v.Contains(func(x *Term) bool {
						return x.Op == "extract" && x.Aux == "0" && lastIs(x.Args[0].CallName(), "AEAD.Open") && okErr(st, x)
					})
					c.At(ev, "cipher/authenticated", fname, ok, "decryption succeeds with something else than a successfully authenticated text")
				case "Encrypt":
					v := ev.Res[0]
					ok := v.Contains(func(x *Term) bool { return lastIs(x.CallName(), "AEAD.Seal") })
					plain := false
					var walk func(x *Term)
					walk = func(x *Term) {
						if x == nil {
							return
						}
						if lastIs(x.CallName(), "AEAD.Seal") || lastIs(x.CallName(), "scrypt.Key") {
							return
						}
						if x.Op == "field" && (strings.HasSuffix(x.Aux, ".PlainText") || strings.HasSuffix(x.Aux, ".Passphrase")) {
							plain = true
						}
						for _, a := range x.Args {
							walk(a)
						}
					}
					walk(v)
					c.At(ev, "cipher/sealed", fname, ok && !plain, "the result of an encryption is not the sealed text alone")
				}
			}
		}
		c.Analyze(e, fn)
	}
	c.Need("cipher/seal", seals, 1, "encryptions")
	c.Need("cipher/open", opens, 1, "decryptions")
	c.Need("cipher/key", keys, 1, "key derivations")
}

// passwordFlow: the password of a request, and no other, reaches the vault, the
// webhook store and the macaroon service, the current and the new one each in
// its place.
func (c *Check) passwordFlow() {
	// functions changing a password: the current one goes first
	type srcs struct{ cur, new func(*Term) bool }
	pairs := 0
	isChange := func(n string) bool { l := lastPart(n); return l == "ChangePassword" || l == "ChangePassphrase" }
	check := func(fn *ssa.Function, s srcs, inline func(*ssa.Function) bool) {
		e := NewEngine(c.P)
		e.inline = inline
		e.hook = func(st *State, ev *Event) {
			if ev.Kind != "call" || !isChange(ev.Name) {
				return
			}
			var as []*Term
			for _, a := range ev.Args {
				switch u := a.Typ.Underlying().(type) {
				case *types.Basic:
					if u.Info()&types.IsString != 0 {
						as = append(as, a)
					}
				case *types.Slice:
					as = append(as, a)
				}
			}
			if len(as) != 2 {
				return
			}
			pairs++
			from := func(t *Term, p func(*Term) bool) bool { return p(unconv(t)) }
			c.At(ev, "password/order", fnName(fn)+" > "+ev.Name, from(as[0], s.cur) && from(as[1], s.new), "current and new password are not passed on each in its place")
		}
		c.Analyze(e, fn)
	}
	getter := func(name string) func(*Term) bool {
		return func(t *Term) bool {
			return lastIs(t.CallName(), "ChangePasswordRequest.Get"+name) || t.Op == "field" && strings.HasSuffix(t.Aux, "ChangePasswordRequest."+name)
		}
	}
	for _, fn := range c.P.FuncsIn("internal", "pkg") {
		if fn.Parent() != nil || strings.Contains(c.P.PkgRel(fn), "grpc") || !isChange(fnName(fn)) || fn.Synthetic != "" {
			continue
		}
		ps := strParams(fn)
		if len(ps) != 2 {
			continue
		}
		fn := fn
		check(fn, srcs{func(t *Term) bool { return paramIdx(t) == ps[0] }, func(t *Term) bool { return paramIdx(t) == ps[1] }},
			func(f *ssa.Function) bool { return f == fn || !isChange(fnName(f)) && f.Parent() != nil })
	}
	// the handlers
	handlers := 0
	for _, h := range c.P.FuncsIn("internal/interfaces/grpc/handler") {
		if h.Signature.Recv() == nil || h.Object() == nil || !h.Object().Exported() || h.Synthetic != "" {
			continue
		}
		switch h.Name() {
		case "ChangePassword":
			handlers++
			h := h
			check(h, srcs{getter("CurrentPassword"), getter("NewPassword")}, func(f *ssa.Function) bool {
				return strings.Contains(c.P.PkgRel(f), "grpc/handler")
			})
		case "InitWallet", "UnlockWallet":
			handlers++
			name := h.Name()
			req := func(n string) func(*Term) bool {
				return func(t *Term) bool {
					return strings.HasSuffix(t.CallName(), "Request.Get"+n) || t.Op == "field" && strings.HasSuffix(t.Aux, "Request."+n)
				}
			}
			e := NewEngine(c.P)
			e.inline = func(f *ssa.Function) bool { return strings.Contains(c.P.PkgRel(f), "grpc/handler") }
			e.hook = func(st *State, ev *Event) {
				if ev.Kind != "call" || ev.Name != "application.WalletService."+name {
					return
				}
				pairs++
				for _, a := range ev.Args {
					if b, ok := a.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
						c.At(ev, "password/handler", fnName(h), req("WalletPassword")(unconv(a)), "the password passed on is not the one of the request")
					}
					if s, ok := a.Typ.Underlying().(*types.Slice); ok && isStr(s.Elem()) {
						c.At(ev, "password/handler-mnemonic", fnName(h), req("SeedMnemonic")(a), "the mnemonic passed on is not the one of the request")
					}
				}
			}
			c.Analyze(e, h)
		}
	}
	c.Need("password/handlers", handlers, 3, "handlers receiving a password")
	c.walletPasswords()
	c.passphraseListener()
	c.Need("password/order", pairs, 8, "calls passing passwords on")
}

// walletPasswords: what the wallet service does with the password once it is
// accepted, and that it locks the vault after having created it.
func (c *Check) walletPasswords() {
	svc := c.service("WalletService", app)
	if svc == nil {
		c.Need("password/service", 0, 1, "wallet service")
		return
	}
	n := 0
	for _, m := range c.P.exportedMethods(svc) {
		name := m.Name()
		if name != "InitWallet" && name != "UnlockWallet" && name != "ChangePassword" {
			continue
		}
		n++
		m := m
		ps := strParams(m)
		if len(ps) == 0 {
			c.Need("password/service", 0, 1, "password parameter of "+name)
			continue
		}
		e := NewEngine(c.P)
		e.inline = func(f *ssa.Function) bool {
			r := c.P.PkgRel(f)
			if r == dom {
				return false
			}
			return r == app && (f == m || f.Parent() != nil || !strings.Contains(strings.ToLower(f.Name()), "restore"))
		}
		last := ps[len(ps)-1]
		e.hook = func(st *State, ev *Event) {
			switch ev.Kind {
			case "call":
				switch {
				case lastIs(ev.Name, "VaultRepository.GetOrCreateVault"):
					st.Kill("before")
					if name == "InitWallet" {
						ok := len(ev.Args) == 5 && paramIdx(ev.Args[3]) == ps[0] && paramIdx(ev.Args[2]) >= 0
						c.At(ev, "password/vault", name, ok, "the vault is not created with the given mnemonic and password")
					}
				case ev.Name == "domain.Vault.Unlock":
					c.At(ev, "password/vault", name, paramIdx(ev.Args[1]) == ps[0], "the vault is not unlocked with the given password")
				case ev.Name == "domain.Vault.Lock":
					st.Gen("locked")
				case lastIs(ev.Name, "SecureStore.Init", "SecureStore.Unlock", "PubSubStore.Init", "PubSubStore.Unlock"):
					c.At(ev, "password/webhooks", name+"/"+lastPart(ev.Name), paramIdx(ev.Args[1]) == ps[0], "the store of the webhooks gets another password")
				}
			case "after":
				switch {
				case lastIs(ev.Name, "VaultRepository.UpdateVault"), name == "InitWallet" && lastIs(ev.Name, "VaultRepository.GetOrCreateVault"):
					st.CondGen('N', ev.Res[len(ev.Res)-1], "accepted")
				}
			case "send":
				if !strings.HasSuffix(typeName(ev.Val.Typ), "PassphraseMsg") {
					return
				}
				st.Gen("told")
				cur, nw := fieldByName(e, st, ev.Val, "CurrentPwd"), fieldByName(e, st, ev.Val, "NewPwd")
				ok := paramIdx(cur) == ps[0]
				if len(ps) == 2 {
					ok = ok && paramIdx(nw) == last
				}
				c.At(ev, "password/message", name, ok, "the other stores are told another password")
				want := map[string]string{"InitWallet": "InitWallet", "UnlockWallet": "UnlockWallet", "ChangePassword": "ChangePassphrase"}[name]
				k, has := fieldByName(e, st, ev.Val, "Method").IntConst()
				c.At(ev, "password/message-kind", name, has && k == c.intConst(app, want), "the other stores are told to do something else than "+want)
				c.At(ev, "password/accepted-first", name, st.Is("accepted"), "the other stores are told a password that the vault has not accepted")
			case "return":
				if ev.Frame.parent != nil || ev.Frame.fn != m {
					return
				}
				if name == "InitWallet" {
					c.At(ev, "vault/locked-after-init", name, st.Is("before") || st.Is("locked") || st.HasMatch('X', func(t *Term) bool {
						return t.Op == "extract" && lastIs(t.Args[0].CallName(), "VaultRepository.GetOrCreateVault")
					}), "the vault stays unlocked after its creation")
				} else if _, good := outcomes(st, ev); good != nil {
					unl := good.HasMatch('F', func(t *Term) bool { return lastIs(t.CallName(), "Vault.IsLocked") })
					c.At(ev, "password/told", name, unl || good.Is("told"), "a password is accepted without telling the other stores")
				}
			}
		}
		c.AnalyzeWith(e, m, "", func(st *State, _ []*Term) { st.Gen("before") })
	}
	c.Need("password/service", n, 3, "services accepting a password")
}

// passphraseListener: what the macaroon service is told.
func (c *Check) passphraseListener() {
	n := 0
	for _, fn := range c.P.FuncsIn("internal/interfaces/grpc") {
		recvs := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op.String() == "<-" {
					if ch, ok := u.X.Type().Underlying().(*types.Chan); ok && strings.HasSuffix(typeName(ch.Elem()), "PassphraseMsg") {
						recvs = true
					}
				}
			}
		}
		if !recvs {
			continue
		}
		fn := fn
		e := NewEngine(c.P)
		e.inline = func(f *ssa.Function) bool { return strings.HasPrefix(c.P.PkgRel(f), "internal/interfaces/grpc") }
		chg := c.intConst(app, "ChangePassphrase")
		msgField := func(t *Term, f string) bool {
			return t != nil && t.Op == "field" && strings.HasSuffix(t.Aux, "PassphraseMsg."+f)
		}
		isChg := func(st *State, k byte) bool {
			return st.HasMatch(k, func(t *Term) bool {
				if t.Op != "eq" {
					return false
				}
				for i := 0; i < 2; i++ {
					if v, ok := t.Args[i].IntConst(); ok && v == chg && msgField(t.Args[1-i], "Method") {
						return true
					}
				}
				return false
			})
		}
		e.hook = func(st *State, ev *Event) {
			if ev.Kind != "call" {
				return
			}
			switch ev.Name {
			case "macaroons.Service.CreateUnlock":
				n++
				v := e.load(st, ev.Args[1], types.NewSlice(types.Typ[types.Byte]))
				c.At(ev, "password/macaroons", fnName(fn)+"/unlock", msgField(unconv(v), "CurrentPwd"), "the macaroon store is unlocked with another password")
			case "macaroons.Service.ChangePassword":
				n++
				ok := msgField(unconv(ev.Args[1]), "CurrentPwd") && msgField(unconv(ev.Args[2]), "NewPwd") && isChg(st, 'T')
				c.At(ev, "password/macaroons", fnName(fn)+"/change", ok, "the password of the macaroon store is not changed from the current to the new one")
			}
		}
		c.Analyze(e, fn)
	}
	c.Need("password/macaroons", n, 2, "uses of a password by the macaroon service")
}
