package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isBucketCall(name string) bool {
	return strings.Contains(name, "ReadWriteBucket.") || strings.Contains(name, "ReadBucket.") || strings.Contains(name, "RwBucket.") || strings.Contains(name, "RBucket.") || strings.Contains(name, "bbolt.Bucket.")
}

func isKvdbTx(name string) bool {
	return lastIs(name, "kvdb.Update", "kvdb.View", "walletdb.Update", "walletdb.View", "walletdb.Batch", "kvdb.Batch")
}

// isCrypto: methods of the password-derived secret key (snacl).
func isKey(name, m string) bool { return name == "snacl.SecretKey."+m || name == "snacl.CryptoKey."+m }

// randomHook marks byte slices completely filled from crypto/rand.
func randomHook(st *State, ev *Event) {
	if ev.Kind == "after" {
		switch ev.Name {
		case "io.ReadFull":
			if len(ev.Args) == 2 && ev.Args[0].Op == "gload" && ev.Args[0].Aux == "rand.Reader" && len(ev.Res) == 2 {
				st.CondGen('N', ev.Res[1], "random", ev.Args[1])
			}
		case "rand.Read":
			if ev.Fn != nil && ev.Fn.Pkg != nil && ev.Fn.Pkg.Pkg.Path() == "crypto/rand" && len(ev.Res) == 2 {
				st.CondGen('N', ev.Res[1], "random", ev.Args[0])
			}
		}
	}
	if ev.Kind == "copy" {
		src := ev.Args[1]
		if src.Op == "slice" {
			src = src.Args[0]
		}
		dst := ev.Args[0]
		if dst.Op == "slice" {
			dst = dst.Args[0]
		}
		st.Gen("copy", dst, src)
	}
}

func copySrc(st *State, dst *Term) *Term {
	var r *Term
	st.Each(func(k byte, t *Term) bool {
		if k == 'L' && t.Aux == "copy" && t.Args[0] == dst {
			r = t.Args[1]
			return true
		}
		return false
	})
	return r
}

func init() {
	rules["C03"] = func(c *Check) {
		c.Note("Every exported method of the macaroon root key storage is analysed by must-fact dataflow with its transactions' callbacks inlined: what is written to the bucket, under which key, after which checks, and with the key lock held.")
		c.Assume("snacl encrypts and authenticates; kvdb.Update commits all writes of its callback or none")
		st0, keyField := c.keyStoreType("pkg/macaroons")
		if st0 == nil {
			return
		}
		c.keyStore(st0, keyField, keyStoreRules{})
	}
}

// keyStoreType finds the struct of a package holding an in-memory snacl key.
func (c *Check) keyStoreType(pkg string) (*types.Named, string) {
	if pk := c.P.Pkg(pkg); pk != nil {
		for _, n := range pk.Types.Scope().Names() {
			if nt := c.P.Named(pkg, n); nt != nil {
				if s, ok := nt.Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						if typeName(s.Field(i).Type()) == "snacl.SecretKey" {
							return nt, typeName(nt) + "." + s.Field(i).Name()
						}
					}
				}
			}
		}
	}
	c.Ob("anchor", "storage", false, "-", "no storage with an in-memory encryption key found in "+pkg)
	return nil, ""
}

type keyStoreRules struct{ secure bool }

// keyStore decides the rules shared by the macaroon key store and the secure
// store: encrypt before write, refuse when locked, reserved entries, key under
// its mutex, password change.
func (c *Check) keyStore(nt *types.Named, keyField string, kr keyStoreRules) {
	tn := typeName(nt)
	// which global id is the key record stored under?
	encIDs := map[string]bool{}
	idTerm := func(t *Term) string {
		for t != nil && (t.Op == "conv") {
			t = t.Args[0]
		}
		if t != nil && t.Op == "gload" {
			return t.Aux
		}
		return ""
	}
	methods := c.P.exportedMethods(nt)
	puts, enters := 0, 0
	nested := map[string]bool{}
	collect := func(m *ssa.Function, f func(e *Engine, st *State, ev *Event)) {
		var e *Engine
		e = c.Engine(func(st *State, ev *Event) { f(e, st, ev) })
		e.inline = func(fn *ssa.Function) bool { return !isKvdbTx(fnName(fn)) }
		e.onAssume = func(st *State, k byte, t *Term) {
			if k == 'N' && t.IsField(keyField) {
				st.Gen("key-gone")
			}
		}
		c.Analyze(e, m)
	}
	for _, m := range methods {
		collect(m, func(e *Engine, st *State, ev *Event) {
			if ev.Kind == "call" && isBucketCall(ev.Name) && ev.Last() == "Put" {
				if v := ev.Args[2]; isKey(v.CallName(), "Marshal") {
					if g := idTerm(ev.Args[1]); g != "" {
						encIDs[g] = true
					}
				}
			}
		})
	}
	if len(encIDs) != 1 {
		c.Ob("key-record", "anchor", false, c.P.Pos(methods[0].Pos()), "the record holding the encryption key parameters is not written under exactly one reserved id")
	}
	for _, m := range methods {
		m := m
		name := fnName(m)
		isUnlock := m.Name() == "CreateUnlock"
		collect(m, func(e *Engine, st *State, ev *Event) {
			lockHook(st, ev)
			randomHook(st, ev)
			recv := e.tab.mk("param", m.Params[0].Name()+"@0:"+name, m.Params[0].Type())
			root := ev.Frame.Root().fn == m
			if !root {
				return
			}
			isEnc := func(t *Term) bool { return encIDs[idTerm(t)] }
			switch ev.Kind {
			case "load":
				if ev.Base.Op == "faddr" && ev.Base.Aux == keyField && rootOf(ev.Base) == recv {
					c.At(ev, "key-under-lock", name+"/read", heldOn(st, tn, false), "the in-memory encryption key is read without holding the store's key mutex")
				}
			case "store":
				if ev.Name == keyField && rootOf(ev.Base) == recv {
					c.At(ev, "key-under-lock", name+"/write", heldOn(st, tn, true), "the in-memory encryption key is replaced without holding the store's key mutex for writing")
					v := ev.Val
					ok := v.IsNil()
					if ok {
						st.Gen("key-gone")
					} else {
						st.Kill("key-gone")
					}
					if !ok {
						// derived from the stored record, or new and stored
						der := st.HasMatch('N', func(t *Term) bool {
							return isKey(t.CallName(), "DeriveKey") && len(t.CallArgs()) > 0 && t.CallArgs()[0] == v
						})
						pers := v.CallName() == "snacl.NewSecretKey" && okErr(st, v) && st.Is("persisted", v)
						ok = der || pers
					}
					c.At(ev, "key-verified", name, ok, "the store becomes unlocked with a key that was neither derived from the stored record with the given password nor newly created and stored")
				}
			case "after":
				if isKey(ev.Name, "DeriveKey") && len(ev.Args) == 2 && len(ev.Res) == 1 {
					for i := 1; i <= 2; i++ {
						if st.Is("pw-cell"+itoa(i), ev.Args[1]) {
							st.CondGen('N', ev.Res[0], "checked-pw"+itoa(i))
						}
					}
				}
				if ev.Name == "snacl.NewSecretKey" && len(ev.Res) == 2 && len(ev.Args) > 0 {
					for i := 1; i <= 2; i++ {
						if st.Is("pw-cell"+itoa(i), ev.Args[0]) {
							st.CondGen('N', ev.Res[1], "key-from-pw"+itoa(i), ev.Res[0])
						}
					}
				}
				if isBucketCall(ev.Name) && ev.Last() == "Put" && isKey(ev.Args[2].CallName(), "Marshal") && isEnc(ev.Args[1]) {
					k := ev.Args[2].CallArgs()[0]
					st.CondGen('N', ev.Res[0], "persisted", k)
				}
				if isBucketCall(ev.Name) && ev.Last() == "Put" && isKey(ev.Args[2].CallName(), "Encrypt") {
					st.CondGen('N', ev.Res[0], "stored-with", ev.Args[2].CallArgs()[0])
				}
			case "call":
				if m.Name() == "ChangePassword" {
					for _, a := range ev.Args {
						if a != nil && strings.HasSuffix(a.CallName(), "NestedReadWriteBucket") {
							nested[ev.Name] = true
						}
					}
				}
				locked := func() bool {
					return !st.HasMatch('X', func(t *Term) bool { return t.IsField(keyField) && t.Args[0] == recv })
				}
				if isKvdbTx(ev.Name) && !isUnlock && m.Name() != "Close" {
					enters++
					c.At(ev, "locked-refuses", name, !locked(), "the database is accessed although the store may be locked")
				}
				if isKey(ev.Name, "DeriveKey") || ev.Name == "snacl.NewSecretKey" {
					// the pointed-to password, before the callee may zero it
					for _, a := range ev.Args {
						if i := paramIdx(cell(st, a)); i > 0 {
							st.Gen("pw-cell"+itoa(i), a)
						}
					}
				}
				if !isBucketCall(ev.Name) {
					return
				}
				switch ev.Last() {
				case "Put":
					puts++
					v := ev.Args[2]
					okv := v.All(func(t *Term) bool {
						return isKey(t.CallName(), "Encrypt") && okErr(st, t) || isKey(t.CallName(), "Marshal") && isEnc(ev.Args[1])
					})
					c.At(ev, "encrypt-before-write", name, okv, "a value is written to the database that is not the checked result of encryption: "+v.String())
					if isKey(v.CallName(), "Encrypt") && !kr.secure {
						plain := v.CallArgs()[1]
						okp := st.Is("random", plain)
						if s := copySrc(st, plain); s != nil && isKey(s.CallName(), "Decrypt") && okErr(st, s) {
							okp = true
						}
						if isKey(plain.CallName(), "Decrypt") && okErr(st, plain) {
							okp = true
						}
						c.At(ev, "key-random", name, okp, "a root key is stored that was neither completely read from crypto/rand nor decrypted from the stored one")
					}
					if isKey(v.CallName(), "Encrypt") {
						id := ev.Args[1]
						oki := id.Op == "gload" && !isEnc(id)
						if !oki {
							oki = notEqualTo(st, id, encIDs)
						}
						if m.Name() == "ChangePassword" {
							// rewriting everything: the key record is (re)written last
							if !oki {
								st.KillAll("persisted")
							}
							oki = true
							if kr.secure {
								k := v.CallArgs()[0]
								c.At(ev, "password-change", name+"/new-key-used", st.Is("key-from-pw2", k), "an entry is re-encrypted with a key that was not derived from the new password")
							}
						}
						c.At(ev, "reserved-id", name+"/put", oki, "an entry can be written under the id of the encryption key record")
					}
				case "Delete":
					id := ev.Args[1]
					oki := notEqualTo(st, id, encIDs)
					if !kr.secure {
						oki = oki && st.HasMatch('F', func(t *Term) bool { return t.Op == "empty" && t.Args[0] == id })
						// the default root key signs the daemon's own macaroons
						def := map[string]bool{}
						st.Each(func(k byte, t *Term) bool {
							if k == 'F' && t.CallName() == "bytes.Equal" {
								for _, a := range t.CallArgs() {
									if a.Op == "gload" && !encIDs[a.Aux] {
										def[a.Aux] = true
									}
								}
							}
							return false
						})
						oki = oki && len(def) > 0
					}
					c.At(ev, "reserved-id", name+"/delete", oki, "a reserved entry can be deleted")
				}
			case "append":
				if m.Name() == "ListMacaroonIDs" && len(ev.Args) == 2 {
					for _, x := range e.Elems(st, ev.Args[1]) {
						c.At(ev, "reserved-id", name+"/list", notEqualTo(st, x, encIDs), "the id of the encryption key record can be listed")
					}
				}
			case "return":
				if ev.Frame.parent != nil {
					return
				}
				if lastIs(m.Name(), "ChangePassword") && len(ev.Res) == 1 && mayBeNil(st, ev.Res[0]) {
					// the returned error is the transaction's: on nil everything must be stored
					s2 := st.lightClone()
					s2.assume(ev.Res[0], 'N')
					var key *Term
					s2.Each(func(k byte, t *Term) bool {
						if k == 'L' && t.Aux == "persisted" {
							key = t.Args[0]
						}
						return false
					})
					np := key != nil && s2.Is("key-from-pw2", key)
					c.At(ev, "password-change", name+"/new-key-stored", np, "password change succeeds without storing a key derived from the new password")
					if !kr.secure {
						c.At(ev, "password-change", name+"/re-encrypted", key != nil && s2.Is("stored-with", key), "password change succeeds without storing the root key encrypted under the new key")
					}
					old := s2.Is("checked-pw1")
					c.At(ev, "password-change", name+"/old-checked", old, "password change succeeds without checking the old password")
				}
				if m.Name() == "Close" || m.Name() == "Lock" {
					c.At(ev, "key-forgotten", name, st.Is("key-gone"), "the store is closed or locked while the encryption key stays in memory")
				}
			}
		})
	}
	if kr.secure {
		ok := false
		for n := range nested {
			ok = ok || !isBucketCall(n) || lastIs(n, "Put", "ForEach")
		}
		c.Ob("password-change", tn+"/nested-buckets", ok, c.P.Pos(nt.Obj().Pos()), "changing the password does not re-encrypt the entries of nested buckets")
	}
	c.Need("puts", puts, 3, "bucket writes")
	c.Need("transactions", enters, 4, "database transactions of methods that need the key")
}

func init() {
	rules["C04"] = func(c *Check) {
		c.Note("Every exported method of the encrypted key-value store is analysed by must-fact dataflow with its transactions' callbacks inlined: every written value is the checked result of encryption, the key record is never a data entry, the key is touched only under its mutex and no method runs a transaction on a locked store.")
		c.Assume("snacl encrypts and authenticates; kvdb.Update commits all writes of its callback or none")
		nt, kf := c.keyStoreType("pkg/securestore/bolt")
		if nt == nil {
			return
		}
		c.keyStore(nt, kf, keyStoreRules{secure: true})
	}
}

func notEqualTo(st *State, id *Term, ids map[string]bool) bool {
	for g := range ids {
		g := g
		ok := st.HasMatch('F', func(t *Term) bool {
			if t.CallName() != "bytes.Equal" {
				return false
			}
			a := t.CallArgs()
			return a[0] == id && a[1].Op == "gload" && a[1].Aux == g || a[1] == id && a[0].Op == "gload" && a[0].Aux == g
		})
		if !ok {
			return false
		}
	}
	return true
}
