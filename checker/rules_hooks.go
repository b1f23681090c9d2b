package main

import (
	"go/constant"
	"go/types"
	"reflect"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const hooksPkg = "internal/infrastructure/pubsub/webhook"

// C20: webhooks are kept as registered and told of the events they are for.
func init() {
	rules["C20"] = func(c *Check) {
		c.Note("The methods of the webhook service are followed with their helpers, goroutines and callbacks inlined: what is written to and read from the store, to whom requests are made, with what. Publications are followed from the events to the message.")
		c.Assume("encoding/json, net/http, jwt-go, errgroup and gobreaker do what their documentation says; the secure store does what C04 says")
		c.hooksAdd()
		c.hooksRemove()
		c.hooksTell()
		c.hooksFormat()
		c.hooksTopics()
		c.hooksStore()
		c.hooksErrors()
		c.hooksOperator()
		c.hooksPublished()
		c.hooksWallet()
	}
}

const (
	hooksByID     = "hooksBucket"
	hooksByAction = "hooksByActionBucket"
)

func (c *Check) hookTeller(name string, fn *ssa.Function) *teller {
	a := c.teller(name, fn, func(f *ssa.Function) bool {
		n := f.Name()
		return c.P.PkgRel(f) == hooksPkg && n != "Serialize" && n != "NewWebhookFromBytes"
	}, []string{"Endpoint", "Secret", "ID", "ActionType"})
	a.e.pure = func(n string) bool {
		return strings.HasSuffix(n, "Webhook.Serialize") || strings.HasSuffix(n, ".NewWebhookFromBytes")
	}
	return a
}

// stored: an access to the store: its operation, bucket, key and value.
func (a *teller) stored(st *State, ev *Event) (op, bucket, key string, val *Term) {
	if !strings.HasPrefix(ev.Name, "securestore.SecureStorage.") || len(ev.Args) < 3 {
		return
	}
	op = ev.Last()
	bucket, key = a.join(st, ev.Args[1]), a.join(st, ev.Args[2])
	if len(ev.Args) > 3 {
		val = ev.Args[3]
	}
	return
}

func listOf(key string) string {
	return "Split(GetFromBucket(" + hooksByAction + ";" + key + ");separator)"
}

// lists that are nil only if nothing is stored
func (a *teller) noneStored(st *State, ev *Event) {
	if ev.Kind != "return" || ev.Frame.parent == nil || len(ev.Res) < 1 || c20list(ev.Res[0].Typ) == "" {
		return
	}
	if !ev.Res[0].IsNil() {
		return
	}
	_, good := outcomes(st, ev)
	if good == nil && len(ev.Res) > 1 {
		return
	}
	if good == nil {
		good = st
	}
	ok := good.HasMatch('T', func(t *Term) bool {
		return t.Op == "empty" && strings.HasPrefix(bare(a.join(good, t.Args[0])), "GetFromBucket("+hooksByAction)
	})
	a.c.At(ev, "read/all", a.name, ok, "no subscriptions are reported although some may be stored")
}

func c20list(t types.Type) string {
	if s, ok := t.Underlying().(*types.Slice); ok {
		if b, ok := s.Elem().Underlying().(*types.Slice); ok {
			if x, ok := b.Elem().Underlying().(*types.Basic); ok && x.Kind() == types.Byte {
				return "raw"
			}
		}
	}
	return ""
}

func (c *Check) hooksAdd() {
	fn := c.method(hooksPkg, "webhookService", "Subscribe")
	if fn == nil {
		c.Need("subscribe", 0, 1, "Subscribe")
		return
	}
	a := c.hookTeller("Subscribe", fn)
	a.params = []string{"s", "topic", "args"}
	const action = "stringToAction[topic]"
	var hook *Term
	n := 0
	a.on = func(st *State, ev *Event) {
		lockHook(st, ev)
		a.noneStored(st, ev)
		switch ev.Kind {
		case "call":
			op, bucket, key, val := a.stored(st, ev)
			switch {
			case op == "GetFromBucket" && bucket == hooksByAction:
				c.At(ev, "lock", "Subscribe", heldOn(st, "webhook.webhookService", true), "the list of webhooks of an action is read while others may change it")
			case op == "AddToBucket" && bucket == hooksByID:
				n++
				c.At(ev, "add/hook", "Subscribe", val.Op == "call" && lastIs(val.CallName(), "Serialize"), "the webhook stored is not the one requested")
				if val.Op != "call" || len(val.CallArgs()) == 0 {
					return
				}
				hook = val.CallArgs()[0]
				for _, w := range [][2]string{{"ActionType", action}, {"Endpoint", "args[0]"}, {"Secret", "args[1]"}, {"ID", "New()"}} {
					got := a.part(st, hook, w[0])
					c.At(ev, "add/hook", "Subscribe/"+w[0], expectSet(got, w[1]), "the webhook is stored with "+strings.Join(got, "|")+" as its "+w[0])
				}
				c.At(ev, "add/key", "Subscribe", key == strings.Join(a.part(st, hook, "ID"), "|"), "the webhook is stored under "+key)
				c.At(ev, "add/valid", "Subscribe/endpoint", st.Is("url"), "a webhook may be stored whose endpoint is not a valid URL")
				c.At(ev, "add/valid", "Subscribe/topic", st.HasMatch('T', func(t *Term) bool { return a.join(st, t) == "has(stringToAction;topic)" }), "a webhook may be stored for an unknown topic")
			case op == "AddToBucket" && bucket == hooksByAction:
				n++
				c.At(ev, "lock", "Subscribe/write", heldOn(st, "webhook.webhookService", true), "the list of webhooks of an action is changed while others may change it")
				c.At(ev, "list/key", "Subscribe", key == "["+action+"]", "the webhook is listed under "+key)
				got := a.join(st, val)
				self := false
				val.Contains(func(t *Term) bool {
					if t.Op == "append" {
						for _, x := range t.Args[1:] {
							for _, y := range a.e.Elems(st, x) {
								self = self || hook != nil && y.Op == "call" && lastIs(y.CallName(), "Serialize") && y.CallArgs()[0] == hook
							}
						}
					}
					return false
				})
				got = strings.ReplaceAll(strings.ReplaceAll(got, "nil|", ""), "|nil", "")
				i := strings.Index(got, "+[Serialize(")
				ok := self && i > 0 && got[:i] == "Join("+listOf(key) && strings.HasSuffix(got, ")];separator)") && strings.Count(got, "+") == 1
				c.At(ev, "list/add", "Subscribe", ok, "the webhooks of the action become "+got)
			case op == "RemoveFromBucket" && bucket == hooksByAction:
				c.At(ev, "list/add", "Subscribe", false, "other webhooks are removed")
			}
		case "after":
			if op, bucket, _, _ := a.stored(st, ev); op == "AddToBucket" {
				st.CondGen('N', ev.Res[len(ev.Res)-1], "added:"+bucket)
			}
			if strings.HasPrefix(ev.Name, "url.Parse") && len(ev.Res) == 2 && a.join(st, ev.Args[0]) == "args[0]" {
				st.CondGen('N', ev.Res[1], "url")
			}
		case "return":
			if ev.Frame.parent != nil {
				return
			}
			_, good := outcomes(st, ev)
			if good == nil {
				return
			}
			c.At(ev, "add/done", "Subscribe", good.Is("added:"+hooksByID) && good.Is("added:"+hooksByAction), "success may be reported for a webhook that is not kept or not listed")
			c.At(ev, "add/id", "Subscribe", a.join(good, ev.Res[0]) == "New()", "what is returned is not the id of the webhook")
		}
	}
	prev := a.e.onAssume
	a.e.onAssume = func(st *State, k byte, t *Term) {
		prev(st, k, t)
		// already there
		if k == 'F' && (t.Op == "isnil" || t.Op == "empty") && strings.HasPrefix(a.join(st, t.Args[0]), "GetFromBucket("+hooksByID+";") && t.Args[0].Op == "extract" && t.Args[0].Aux == "0" {
			st.Gen("added:" + hooksByID)
			st.Gen("added:" + hooksByAction)
		}
	}
	c.AnalyzeWith(a.e, fn, "", func(st *State, _ []*Term) { a.start(st) })
	c.Need("subscribe", n, 2, "writes of Subscribe")
}

// sameHook: a comparison of the id of the item of the list with that of the
// hook to remove: the item.
func (a *teller) sameHook(st *State, t *Term, list string) *Term {
	if t.Op != "eq" {
		return nil
	}
	for i, x := range t.Args {
		p, q := a.join(st, x), a.join(st, t.Args[1-i])
		if p == "NewWebhookFromBytes("+list+"[]).ID" && (q == "id" || q == removedHook+".ID") {
			var item *Term
			x.Contains(func(y *Term) bool {
				if y.Op == "index" && item == nil {
					item = y
				}
				return false
			})
			return item
		}
	}
	return nil
}

const removedHook = "NewWebhookFromBytes(GetFromBucket(" + hooksByID + ";id))"

func (c *Check) hooksRemove() {
	fn := c.method(hooksPkg, "webhookService", "Unsubscribe")
	if fn == nil {
		c.Need("unsubscribe", 0, 1, "Unsubscribe")
		return
	}
	a := c.hookTeller("Unsubscribe", fn)
	a.params = []string{"s", "_", "id"}
	key := "[" + removedHook + ".ActionType]"
	list := listOf(key)
	a.lists = []string{list}
	n := 0
	// positions that may be taken for that of the hook: whether they are
	which := map[*Term]bool{}
	found := func(st *State, v *Term) bool {
		return st.HasMatch('T', func(t *Term) bool {
			item := a.sameHook(st, t, list)
			return item != nil && item.Args[1] == v
		})
	}
	a.e.onPhi = func(ph *ssa.Phi, edge int, st *State, v *Term) {
		if b, ok := ph.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 || v == nil {
			return
		}
		for _, x := range ph.Edges {
			if o, ok := x.(*ssa.BinOp); ok && (o.X == ph || o.Y == ph) {
				return // a counter
			}
		}
		if _, k := v.IntConst(); k {
			return
		}
		ok, known := which[v]
		which[v] = (ok || !known) && found(st, v)
	}
	isPos := func(st *State, t *Term) bool {
		if found(st, t) {
			return true
		}
		n := 0
		ok := t.All(func(x *Term) bool {
			if k, is := x.IntConst(); is {
				return k < 0
			}
			n++
			return which[x]
		})
		return ok && n > 0
	}
	// the list without the hook
	without := func(st *State, t *Term) bool {
		switch {
		case t.Op == "append" && len(t.Args) == 2 && t.Args[0].Op == "slice" && t.Args[1].Op == "slice":
			l, r := t.Args[0], t.Args[1]
			if bare(a.join(st, l.Args[0])) != list || bare(a.join(st, r.Args[0])) != list || len(l.Args) < 3 || len(r.Args) < 2 {
				return false
			}
			i := l.Args[2]
			if l.Args[1] != nil && l.Args[1].Op != "?" && !l.Args[1].IsZero() || len(r.Args) > 2 && r.Args[2] != nil && r.Args[2].Op != "?" {
				return false
			}
			d := minus(linear(r.Args[1]), linear(i))
			one := false
			if len(d) == 1 {
				for k, v := range d {
					one = k == nil && v == 1 || k != nil && isOne(k) && v == 1
				}
			}
			lo, _ := st.Bounds(i)
			if _, direct := i.IntConst(); direct {
				return false
			}
			return one && isPos(st, i) && (found(st, i) || lo != nil && *lo >= 0)
		}
		// kept one by one
		rows := a.members(st, t)
		if len(rows) == 0 {
			return false
		}
		for _, r := range rows {
			if r.direct != "" || !expectSet(r.row[""], list+"[]") {
				return false
			}
		}
		return st.Is("all:" + list)
	}
	a.on = func(st *State, ev *Event) {
		lockHook(st, ev)
		a.noneStored(st, ev)
		switch ev.Kind {
		case "append":
			for _, x := range ev.Args[1:] {
				for _, v := range a.e.Elems(st, x) {
					if a.join(st, v) == list+"[]" {
						ok := st.HasMatch('F', func(t *Term) bool {
							item := a.sameHook(st, t, list)
							return item != nil && item == v
						})
						c.At(ev, "list/keep", "Unsubscribe", ok, "a webhook that may be the one to remove is kept")
					}
				}
			}
		case "call":
			op, bucket, k, val := a.stored(st, ev)
			switch {
			case op == "GetFromBucket" && bucket == hooksByAction:
				c.At(ev, "lock", "Unsubscribe", heldOn(st, "webhook.webhookService", true), "the list of webhooks of an action is read while others may change it")
			case op == "RemoveFromBucket" && bucket == hooksByID:
				n++
				c.At(ev, "remove/key", "Unsubscribe", k == "id", "the webhook removed is "+k)
			case op == "AddToBucket" && bucket == hooksByAction:
				n++
				c.At(ev, "list/key", "Unsubscribe", k == key, "the list of webhooks written is the one under "+k)
				ok := val.Op == "call" && lastIs(val.CallName(), "Join") && len(val.CallArgs()) == 2 && a.join(st, val.CallArgs()[1]) == "separator" && without(st, val.CallArgs()[0])
				c.At(ev, "list/remove", "Unsubscribe", ok, "the webhooks of the action become "+a.join(st, val))
				c.At(ev, "lock", "Unsubscribe/write", heldOn(st, "webhook.webhookService", true), "the list of webhooks of an action is changed while others may change it")
			case op == "RemoveFromBucket" && bucket == hooksByAction:
				n++
				c.At(ev, "list/key", "Unsubscribe/none left", k == key, "the list of webhooks removed is the one under "+k)
				ok := st.HasMatch('T', func(t *Term) bool { return t.Op == "empty" && without(st, t.Args[0]) })
				c.At(ev, "list/remove", "Unsubscribe/none left", ok, "all the webhooks of an action may be removed with one")
			case op == "AddToBucket":
				c.At(ev, "remove/key", "Unsubscribe", false, "a webhook is stored while removing one")
			}
		case "after":
			switch op, bucket, _, _ := a.stored(st, ev); op {
			case "RemoveFromBucket", "AddToBucket":
				st.CondGen('N', ev.Res[len(ev.Res)-1], "removed:"+bucket)
			}
		case "return":
			if ev.Frame.parent != nil {
				return
			}
			_, good := outcomes(st, ev)
			if good == nil {
				return
			}
			c.At(ev, "remove/done", "Unsubscribe", good.Is("removed:"+hooksByID), "success may be reported for a webhook that is still stored")
			c.At(ev, "remove/done", "Unsubscribe/list", good.Is("removed:"+hooksByAction), "success may be reported for a webhook that is still invoked")
		}
	}
	prev := a.e.onAssume
	a.e.onAssume = func(st *State, k byte, t *Term) {
		if k == 'T' && t.Op == "eq" {
			// none was left out
			for i, x := range t.Args {
				y := t.Args[1-i]
				if x.Op == "len" && y.Op == "len" && bare(a.join(st, x.Args[0])) == list && without(st, y.Args[0]) {
					st.Gen("removed:" + hooksByAction)
				}
			}
		}
		prev(st, k, t)
		if (k == 'T' && t.Op == "isnil" || k == 'T' && t.Op == "empty") && a.join(st, t.Args[0]) == "GetFromBucket("+hooksByID+";id)" {
			st.Gen("removed:" + hooksByID)
			st.Gen("removed:" + hooksByAction)
		}
		if item := a.sameHook(st, t, list); item != nil && k == 'T' {
			a.done(st, false, list)
		}
		if k == 'T' && t.Op == "lt" && t.Args[1].IsZero() && isPos(st, t.Args[0]) {
			st.Gen("removed:" + hooksByAction)
		}
	}
	c.AnalyzeWith(a.e, fn, "", func(st *State, _ []*Term) { a.start(st) })
	c.Need("unsubscribe", n, 2, "writes of Unsubscribe")
}

// hooksTell: who is listed, and who is told.
// isSpawned: the call runs a function in a goroutine of a group.
func isSpawned(ev *Event) bool {
	return ev.Fn != nil && isSpawner(ev.Fn) || ev.Name == "errgroup.Group.Go"
}

func (c *Check) hooksTell() {
	all := c.intConst(hooksPkg, "AllActions")
	for _, m := range []string{"ListSubscriptionsForTopic", "Publish"} {
		fn := c.method(hooksPkg, "webhookService", m)
		if fn == nil {
			c.Need("tell", 0, 1, m)
			continue
		}
		for _, mode := range []string{"one", "all"} {
			a := c.hookTeller(m, fn)
			a.params = []string{"s", "topic", "message"}
			own, every := listOf("[stringToAction[topic]]"), listOf("["+itoa(int(all))+"]")
			hook := func(l string) string { return "NewWebhookFromBytes(" + l + "[])" }
			want := []string{hook(own)}
			a.lists = []string{own}
			if mode == "one" {
				want = append(want, hook(every))
				a.lists = append(a.lists, every)
			}
			tag := m + "/" + map[string]string{"one": "one action", "all": "all actions"}[mode]
			sent := 0
			tellsEach := map[*Frame]bool{} // what goes through the webhooks
			var urls []string
			a.on = func(st *State, ev *Event) {
				lockHook(st, ev)
				a.noneStored(st, ev)
				switch ev.Kind {
				case "go":
					st.Kill("idle")
				case "recv":
					st.Gen("idle")
				case "mapupdate":
					if k, ok := ev.Args[1].StrConst(); ok && k == "Authorization" {
						st.Gen("authorized")
						got := a.join(st, ev.Val)
						ok := true
						hs := a.hooksIn(st, ev, got)
						for _, h := range hs {
							ok = ok && strings.Contains(strings.Join(want, " "), h)
						}
						c.At(ev, "request/secret", tag, ok && len(hs) > 0, "a webhook is authorized with "+got)
						c.At(ev, "request/secret", tag+": if any", st.HasMatch('F', a.emptySecret(st)), "a webhook may be authorized though it has no secret")
					}
				case "call":
					if lastIs(ev.Name, "Wait") {
						st.Gen("idle")
					}
					if isSpawned(ev) {
						st.Kill("idle")
					}
					if lastIs(ev.Name, "NewHTTPRequest") && len(ev.Args) >= 5 {
						sent++
						st.Gen("!somebody")
						for fr := ev.Frame; fr.parent != nil && !fr.async; fr = fr.parent {
							if fr.site != nil {
								if h, _ := loopOf(fr.site); h != nil {
									tellsEach[fr.parent] = true
								}
							}
						}
						as := ev.Args[len(ev.Args)-4:]
						url := a.part(st, as[1], "")
						urls = nil
						for _, u := range url {
							urls = append(urls, strings.TrimSuffix(u, ".Endpoint"))
							a.mention(st, ev, u)
						}
						a.handled(st, ev, as[1])
						c.At(ev, "request/method", tag, a.join(st, as[0]) == "'POST'", "webhooks are invoked with method "+a.join(st, as[0]))
						c.At(ev, "request/to", tag, expectSet(urls, want...) && strings.HasSuffix(url[0], ".Endpoint"), "webhooks are invoked at "+strings.Join(url, "|"))
						c.At(ev, "request/message", tag, a.join(st, as[2]) == "message", "the message sent is "+a.join(st, as[2]))
						h := a.join(st, as[3])
						c.At(ev, "request/headers", tag, strings.Contains(h, "'Content-Type':'application/json'"), "the headers of the requests are "+h)
						c.At(ev, "request/secret", tag+": always", st.Is("authorized"), "a webhook with a secret may be invoked without authorization")
					}
				case "return":
					fr := ev.Frame
					if tellsEach[fr] {
						for _, l := range a.lists {
							c.At(ev, "everyone", tag+": despite failures", !st.Is("!somebody") || st.Is("all:"+l) && st.Is("all:inner"), "the failure of a webhook leaves out others")
						}
					}
					if fr.parent != nil {
						return
					}
					_, good := outcomes(st, ev)
					if m == "Publish" {
						// those that could not be reached don't hide the others
						c.At(ev, "everyone", tag+": outcome", st.Is("idle"), "the outcome of the requests is not waited for")
					}
					if m == "ListSubscriptionsForTopic" {
						if ev.Res[0].IsNil() {
							return
						}
						good = st.given(func(s *State) bool { return s.assume(ev.Res[0], 'X') })
					}
					if good == nil {
						return
					}
					for _, l := range a.lists {
						c.At(ev, "everyone", tag, good.Is("all:"+l), "some webhooks may be left out")
					}
					if m == "ListSubscriptionsForTopic" {
						got := map[string]bool{}
						for _, p := range a.part(good, ev.Res[0], "[]") {
							got[p] = true
						}
						c.At(ev, "listed", tag, expectSet(sortedKeysB(got), want...), "the webhooks listed are "+strings.Join(sortedKeysB(got), ", "))
					}
					c.At(ev, "everyone", tag+": all of them", good.Is("all:inner"), "some webhooks may be left out")
				}
			}
			prev := a.e.onAssume
			a.e.onAssume = func(st *State, k byte, t *Term) {
				prev(st, k, t)
				if k == 'T' && a.emptySecret(st)(t) {
					st.Gen("authorized")
				}
			}
			// which action is asked for
			var act *Term
			on := a.on
			a.on = func(st *State, ev *Event) {
				if ev.Kind == "mapread" && a.join(st, ev.Args[0]) == "stringToAction" {
					act = a.e.tab.mk("lookup", "", ev.Args[0].Typ.Underlying().(*types.Map).Elem(), ev.Args[0], ev.Args[1])
				}
			}
			c.dryRun(func() { c.AnalyzeWith(a.e, fn, "", func(st *State, _ []*Term) { a.start(st) }) })
			a.on = on
			c.AnalyzeWith(a.e, fn, mode, func(st *State, _ []*Term) {
				a.start(st)
				st.Gen("idle")
				if act != nil {
					k := a.e.tab.constant(constant.MakeInt64(all), act.Typ)
					st.assume(a.e.eqT(act, k), map[string]byte{"one": 'F', "all": 'T'}[mode])
				}
			})
			c.Ob("tell/topic", tag, act != nil, "-", "the topic is not looked up")
			if m == "Publish" {
				c.Need("publish", sent, 1, "requests of Publish")
			}
		}
	}
}

func (a *teller) emptySecret(st *State) func(*Term) bool {
	return func(t *Term) bool {
		return t.Op == "empty" && t.Args[0].IsField("webhook.Webhook.Secret") || t.Op == "empty" && t.Args[0].Op == "field" && lastPart(t.Args[0].Aux) == "Secret"
	}
}

// hooksIn: whose secret it is.
func (a *teller) hooksIn(st *State, ev *Event, s string) (out []string) {
	for i := strings.Index(s, ".Secret"); i >= 0; i = strings.Index(s, ".Secret") {
		j := strings.LastIndex(s[:i], "NewWebhookFromBytes(")
		if j < 0 {
			return append(out, "?")
		}
		out = append(out, s[j:i])
		s = s[i+len(".Secret"):]
	}
	return
}

// hooksFormat: what is stored is read back.
func (c *Check) hooksFormat() {
	nt := c.P.Named(hooksPkg, "Webhook")
	if nt == nil {
		c.Need("format", 0, 1, "Webhook")
		return
	}
	s := nt.Underlying().(*types.Struct)
	seen := map[string]bool{}
	for i := 0; i < s.NumFields(); i++ {
		n := strings.Split(reflect.StructTag(s.Tag(i)).Get("json"), ",")[0]
		if n == "" {
			n = s.Field(i).Name()
		}
		n = strings.ToLower(n)
		c.Ob("format/field", s.Field(i).Name(), s.Field(i).Exported() && n != "-" && !seen[n], "-", "the field is not stored or shares its key with another one")
		seen[n] = true
	}
	// omitempty would be fine: the zero value is read back
	run := func(fn *ssa.Function, name string, params []string, f func(a *teller, st *State, ev *Event)) {
		if fn == nil {
			c.Ob("format", name, false, "-", "not found")
			return
		}
		a := c.teller(name, fn, func(g *ssa.Function) bool { return c.P.PkgRel(g) == hooksPkg }, nil)
		a.params = params
		a.on = func(st *State, ev *Event) {
			if ev.Kind == "after" && lastIs(ev.Name, "Unmarshal") {
				x := ev.Args[1]
				for len(x.Args) == 1 && (x.Op == "iface" || x.Op == "conv") {
					x = x.Args[0]
				}
				if a.join(st, ev.Args[0]) == "bytes" {
					st.CondGen('N', ev.Res[0], "read", x)
				}
			}
			if ev.Kind == "return" && ev.Frame.parent == nil {
				f(a, st, ev)
			}
		}
		c.AnalyzeWith(a.e, fn, "", func(st *State, _ []*Term) { a.start(st) })
	}
	run(c.method(hooksPkg, "Webhook", "Serialize"), "Serialize", []string{"h"}, func(a *teller, st *State, ev *Event) {
		got := a.join(st, ev.Res[0])
		c.At(ev, "format", "Serialize", got == "Marshal(h)", "a webhook is stored as "+got)
	})
	// webhooks can be registered for any action
	if fn := c.P.Func(hooksPkg, "NewWebhook"); fn == nil || len(fn.Params) == 0 {
		c.Ob("format", "NewWebhook", false, "-", "not found")
	} else {
		acts := map[int64]string{}
		for _, n := range c.P.Pkg(hooksPkg).Types.Scope().Names() {
			if k, ok := c.P.Pkg(hooksPkg).Types.Scope().Lookup(n).(*types.Const); ok && typeName(k.Type()) == typeName(fn.Params[0].Type()) {
				if v, ok := constant.Int64Val(k.Val()); ok {
					acts[v] = n
				}
			}
		}
		for k, n := range acts {
			n := n
			a := c.teller("NewWebhook", fn, func(g *ssa.Function) bool { return c.P.PkgRel(g) == hooksPkg }, nil)
			a.params = []string{"action", "endpoint", "secret"}
			a.on = func(st *State, ev *Event) {
				if ev.Kind != "return" || ev.Frame.parent != nil {
					return
				}
				bad, _ := outcomes(st, ev)
				if bad == nil {
					return
				}
				ok := false
				bad.Each(func(k byte, t *Term) bool {
					// all actions have a label, see hooksTopics
					ok = ok || k == 'F' && t.Op == "has" && t.Args[0].Op == "gload" && a.join(bad, t.Args[1]) != ""
					ok = ok || t.Contains(func(x *Term) bool { return x.Op == "call" && strings.Contains(a.callWords(bad, x), "endpoint") })
					return false
				})
				c.At(ev, "format/action", "NewWebhook/"+n, ok, "webhooks for this action cannot be registered")
			}
			c.AnalyzeWith(a.e, fn, n, func(st *State, args []*Term) {
				a.start(st)
				if len(args) > 0 {
					st.assume(a.e.eqT(args[0], a.e.tab.constant(constant.MakeInt64(k), fn.Params[0].Type())), 'T')
				}
			})
		}
		c.Need("format/action", len(acts), 2, "actions")
	}
	run(c.P.Func(hooksPkg, "NewWebhookFromBytes"), "NewWebhookFromBytes", []string{"bytes"}, func(a *teller, st *State, ev *Event) {
		_, good := outcomes(st, ev)
		if good != nil {
			c.At(ev, "format", "NewWebhookFromBytes", ev.Res[0].All(func(x *Term) bool { return good.Is("read", x) }), "a webhook is returned though it may not have been read")
		}
	})
	for m, f := range map[string]string{"Id": "ID", "NotifyAt": "Endpoint", "Topic": "ActionType"} {
		m, f := m, f
		run(c.method(hooksPkg, "Webhook", m), m, []string{"h"}, func(a *teller, st *State, ev *Event) {
			got := a.join(st, ev.Res[0])
			c.At(ev, "format", m, got == "h."+f, "what is reported of a webhook is "+got)
		})
	}
	run(c.method(hooksPkg, "Webhook", "IsSecured"), "IsSecured", []string{"h"}, func(a *teller, st *State, ev *Event) {
		ok := true
		for _, k := range []byte{'T', 'F'} {
			g := st.given(func(s *State) bool { return s.assume(ev.Res[0], k) })
			if g != nil {
				k2 := byte('F' + 'T' - k)
				ok = ok && g.HasMatch(k2, func(t *Term) bool { return t.Op == "empty" && a.join(g, t.Args[0]) == "h.Secret" })
			}
		}
		c.At(ev, "format", "IsSecured", ok, "a webhook is not reported as secured iff it has a secret")
	})
}

// hooksTopics: numbers, labels and topics are those of each other.
func (c *Check) hooksTopics() {
	// what the two tables map
	tabs := map[string]map[string]string{}
	var inits []*ssa.Function
	if m := c.method(hooksPkg, "WebhookAction", "Label"); m != nil && m.Pkg != nil {
		inits = append(inits, m.Pkg.Func("init"))
	}
	for _, f := range inits {
		if f == nil {
			continue
		}
		maps := map[ssa.Value]string{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						maps[s.Val] = g.Name()
					}
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.MapUpdate)
				if !ok || maps[u.Map] == "" {
					continue
				}
				k, ok1 := u.Key.(*ssa.Const)
				v, ok2 := u.Value.(*ssa.Const)
				if !ok1 || !ok2 {
					continue
				}
				t := maps[u.Map]
				if tabs[t] == nil {
					tabs[t] = map[string]string{}
				}
				tabs[t][k.Value.ExactString()] = v.Value.ExactString()
			}
		}
	}
	labels, actions := tabs["actionToString"], tabs["stringToAction"]
	c.Need("topics", len(labels), 2, "labels of actions")
	for _, k := range sortedKeys(labels) {
		c.Ob("topics/inverse", k, actions[labels[k]] == k, "-", "the action of label "+labels[k]+" is not "+k)
	}
	c.Ob("topics/inverse", "labels", len(labels) == len(actions), "-", "some labels have no action")
	for _, s := range [][2]string{{"TradeSettled", "TRADE_SETTLED"}, {"AccountLowBalance", "ACCOUNT_LOW_BALANCE"}, {"AccountWithdraw", "ACCOUNT_WITHDRAW"}, {"AllActions", ""}} {
		n := c.intConst(hooksPkg, s[0])
		_, ok := labels[itoa(int(n))]
		c.Ob("topics/known", s[0], ok, "-", "the action has no label")
		if s[1] != "" {
			c.Ob("topics/label", s[0], labels[itoa(int(n))] == `"`+s[1]+`"`, "-", "the label of the action is "+labels[itoa(int(n))])
			c.Ob("topics/published", s[0], c.intConst(app, s[0]) == n, "-", "what is published under this name is for another action")
		}
	}
	for m, w := range map[string]string{
		"TopicsByCode":  "actionToString[key] actionToString[key]",
		"TopicsByLabel": "stringToAction[key] stringToAction[]",
	} {
		fn := c.method(hooksPkg, "webhookService", m)
		if fn == nil {
			c.Ob("topics", m, false, "-", "not found")
			continue
		}
		a := c.teller(m, fn, func(g *ssa.Function) bool { return c.P.PkgRel(g) == hooksPkg }, nil)
		a.params = []string{"s"}
		a.lists = []string{strings.SplitN(w, "[", 2)[0]}
		m, w := m, w
		a.on = func(st *State, ev *Event) {
			if ev.Kind == "return" && ev.Frame.parent == nil {
				var got []string
				for _, r := range a.rows[contKey(ev.Res[0])] {
					got = append(got, strings.Join(r["key"], "|")+" "+strings.Join(r[""], "|"))
				}
				sort.Strings(got)
				c.At(ev, "topics", m, expectSet(got, w), "topics are mapped as "+strings.Join(got, ", "))
				c.At(ev, "topics/all", m, st.Is("all:"+a.lists[0]), "some topics are missing")
			}
		}
		c.AnalyzeWith(a.e, fn, "", func(st *State, _ []*Term) { a.start(st) })
	}
	for m, w := range map[string]string{"Code": "h", "Label": "actionToString[h]"} {
		fn := c.method(hooksPkg, "WebhookAction", m)
		if fn == nil {
			c.Ob("topics", m, false, "-", "not found")
			continue
		}
		a := c.teller(m, fn, func(g *ssa.Function) bool { return c.P.PkgRel(g) == hooksPkg }, nil)
		a.params = []string{"h"}
		m, w := m, w
		a.on = func(st *State, ev *Event) {
			if ev.Kind == "return" && ev.Frame.parent == nil {
				for _, p := range a.part(st, ev.Res[0], "") {
					unknown := p == "'UNKNOWN'"
					c.At(ev, "topics", m, p == w || unknown && m == "Label", "the "+m+" of an action is "+p)
				}
			}
		}
		c.AnalyzeWith(a.e, fn, "", func(st *State, _ []*Term) { a.start(st) })
	}
}

// hooksStore: the store is prepared, opened and re-encrypted with the password.
func (c *Check) hooksStore() {
	for m, want := range map[string][]string{
		"Init":           {"CreateUnlock(pwd)", "CreateBucket(hooksBucket)", "CreateBucket(hooksByActionBucket)", "Lock()"},
		"Unlock":         {"CreateUnlock(pwd)"},
		"ChangePassword": {"ChangePassword(pwd;new)"},
		"Lock":           {"Lock()"},
		"Close":          {"Close()"},
		"IsLocked":       {"IsLocked()"},
	} {
		fn := c.method(hooksPkg, "webhookStore", m)
		if fn == nil {
			c.Ob("store", m, false, "-", "not found")
			continue
		}
		a := c.teller(m, fn, func(g *ssa.Function) bool { return c.P.PkgRel(g) == hooksPkg }, nil)
		a.params = []string{"s", "pwd", "new"}
		m, want := m, want
		said := map[ssa.Instruction]string{}
		a.on = func(st *State, ev *Event) {
			words := func() string {
				var ss []string
				for _, x := range ev.Args[1:] {
					ss = append(ss, a.join(st, x))
				}
				return ev.Last() + "(" + strings.Join(ss, ";") + ")"
			}
			switch ev.Kind {
			case "call":
				if strings.HasPrefix(ev.Name, "securestore.SecureStorage.") {
					said[ev.Instr] = words()
					known := false
					for _, w := range want {
						known = known || w == words()
					}
					c.At(ev, "store/call", m, known, "the store is used as "+words())
					if ev.Last() == "Lock" && m == "Init" {
						return
					}
				}
			case "after":
				if strings.HasPrefix(ev.Name, "securestore.SecureStorage.") {
					w := said[ev.Instr]
					if len(ev.Res) > 0 && isErrorType(ev.Res[len(ev.Res)-1].Typ) {
						st.CondGen('N', ev.Res[len(ev.Res)-1], w)
					} else {
						st.Gen(w)
					}
				}
			case "return":
				if ev.Frame.parent != nil {
					return
				}
				good := st
				if len(ev.Res) > 0 && isErrorType(ev.Res[len(ev.Res)-1].Typ) {
					_, good = outcomes(st, ev)
				}
				if good == nil {
					return
				}
				for _, w := range want {
					c.At(ev, "store/done", m+"/"+w, good.Is(w), "success may be reported without "+w)
				}
			}
		}
		c.AnalyzeWith(a.e, fn, "", func(st *State, _ []*Term) { a.start(st) })
	}
}

// hooksErrors: failures are reported.
func (c *Check) hooksErrors() {
	n := 0
	for _, f := range c.P.FuncsIn(hooksPkg) {
		r := f.Signature.Results()
		if f.Blocks == nil || r.Len() == 0 || !isErrorType(r.At(r.Len()-1).Type()) || f.Synthetic != "" {
			continue
		}
		n++
		c.errPropagated("errors", fnName(f), f, func(ev *Event) bool {
			if ev.Sig == nil || ev.Sig.Results().Len() == 0 || !isErrorType(ev.Sig.Results().At(ev.Sig.Results().Len()-1).Type()) {
				return false
			}
			l := ev.Last()
			return ev.Frame.parent == nil && !ev.Async && (strings.HasPrefix(ev.Name, "securestore.") || strings.HasPrefix(ev.Name, "webhook.") || l == "Execute" || l == "Wait" || l == "NewHTTPRequest" || l == "Unmarshal")
		}, func(st *State, ev *Event) {
			if ev.Kind == "return" && ev.Frame.parent == nil {
				_, good := outcomes(st, ev)
				if good == nil {
					return
				}
				// a request was made here
				if !st.Is("asked") {
					return
				}
				ok := good.HasMatch('T', func(t *Term) bool {
					k, is := t.Args[len(t.Args)-1].IntConst()
					k2, is2 := t.Args[0].IntConst()
					return t.Op == "eq" && (is && k == 200 || is2 && k2 == 200)
				})
				c.At(ev, "request/refused", fnName(f), ok, "an answer that is not OK is taken for a success")
			}
			if ev.Kind == "call" && lastIs(ev.Name, "NewHTTPRequest") && ev.Frame.parent == nil {
				st.Gen("asked")
			}
		}, nil)
	}
	c.Need("errors", n, 5, "functions that report errors")
}

// jsonOf: the values in a message, by their path of keys.
func (a *teller) jsonOf(st *State, v *Term, prefix string, out map[string]string) {
	for len(v.Args) == 1 && (v.Op == "iface" || v.Op == "conv") {
		v = v.Args[0]
	}
	if isMap(v.Typ) && v.Op == "make" {
		for _, kv := range a.entries[contKey(v)] {
			k := strings.Trim(a.join(st, kv[0]), "'")
			if prefix != "" {
				k = prefix + "." + k
			}
			a.jsonOf(st, kv[1], k, out)
		}
		return
	}
	t := v.Typ
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			k := jsonName(t, s.Field(i).Name())
			if prefix != "" {
				k = prefix + "." + k
			}
			f := a.field(st, v, s.Field(i).Name())
			if f == nil {
				continue
			}
			a.jsonOf(st, f, k, out)
		}
		return
	}
	out[prefix] = a.join(st, v)
}

// hooksOperator: the operator's requests reach the service unchanged.
func (c *Check) hooksOperator() {
	type spec struct {
		params []string
		call   string
		lists  []string
		want   []string
	}
	const subs = "ListSubscriptionsForTopic(PubSubService();Label(TopicsByCode(PubSubService())[action]))"
	for m, sp := range map[string]spec{
		"AddWebhook":    {params: []string{"s", "ctx", "hook"}, call: "Subscribe(PubSubService();Label(TopicsByCode(PubSubService())[hook.ActionType]);[hook.Endpoint,hook.Secret])"},
		"RemoveWebhook": {params: []string{"s", "ctx", "id"}, call: "Unsubscribe(PubSubService();nil;id)"},
		"ListWebhooks": {params: []string{"s", "ctx", "action"}, lists: []string{subs},
			want: sub("", subs+"[]", "Id", "Endpoint", "ActionType", "IsSecured")},
	} {
		m, sp := m, sp
		fn := c.method(app, "operatorService", m)
		if fn == nil {
			c.Ob("operator", m, false, "-", "not found")
			continue
		}
		a := c.teller(m, fn, func(g *ssa.Function) bool { return c.P.PkgRel(g) == app }, []string{"Id", "ActionType", "Endpoint", "IsSecured"})
		a.params, a.lists = sp.params, sp.lists
		a.on = func(st *State, ev *Event) {
			if ev.Kind != "return" || ev.Frame.parent != nil {
				return
			}
			_, good := outcomes(st, ev)
			if good == nil {
				return
			}
			if sp.call != "" {
				for i, r := range ev.Res {
					want := sp.call
					if i > 0 {
						want += "#" + itoa(i)
					}
					got := a.join(good, r)
					c.At(ev, "operator", m, got == want, "what is reported is "+got)
				}
				return
			}
			for f, w := range map[string]string{"Id": "Id(" + subs + "[])", "Endpoint": "NotifyAt(" + subs + "[])", "IsSecured": "IsSecured(" + subs + "[])", "ActionType": "Code(Topic(" + subs + "[]))"} {
				got := a.part(good, ev.Res[0], "[]."+f)
				c.At(ev, "operator", m+"/"+f, expectSet(got, w), "what is reported is "+strings.Join(got, "|"))
			}
			c.At(ev, "operator/all", m, good.Is("all:"+subs), "some webhooks may not be reported")
		}
		c.AnalyzeWith(a.e, fn, "", func(st *State, _ []*Term) { a.start(st) })
	}
}

type published struct {
	params []string
	topic  string
	fields []string
	after  []string // calls one of which must have succeeded
	before string   // when it must have been said
}

func withPrefix(p string, ss ...string) (out []string) {
	for _, s := range ss {
		i := strings.Index(s, "=")
		out = append(out, s[:i+1]+strings.ReplaceAll(s[i+1:], "^", p))
	}
	return
}

// reaching: the functions of the package that may call one accepted.
func (c *Check) reaching(pkg string, is func(*ssa.CallCommon) bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range c.P.FuncsIn(pkg) {
			if f.Blocks == nil || out[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					hit := false
					if ci, ok := in.(ssa.CallInstruction); ok {
						hit = is(ci.Common()) || out[ci.Common().StaticCallee()]
					}
					if m, ok := in.(*ssa.MakeClosure); ok {
						hit = hit || out[m.Fn.(*ssa.Function)]
					}
					if hit && !out[f] {
						out[f], changed = true, true
					}
				}
			}
		}
	}
	return out
}

func invokes(names ...string) func(*ssa.CallCommon) bool {
	return func(cc *ssa.CallCommon) bool {
		if !cc.IsInvoke() {
			return false
		}
		for _, n := range names {
			if typeName(cc.Value.Type())+"."+cc.Method.Name() == n {
				return true
			}
		}
		return false
	}
}

// calls: the call is one of the functions or methods named.
func calls(names ...string) func(*ssa.CallCommon) bool {
	invoked := invokes(names...)
	return func(cc *ssa.CallCommon) bool {
		if f := cc.StaticCallee(); f != nil {
			return slices.Contains(names, fnName(f))
		}
		return invoked(cc)
	}
}

// starts: the function run by a go statement.
func starts(in ssa.Instruction) *ssa.Function {
	g, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	if f := g.Common().StaticCallee(); f != nil {
		return f
	}
	if m, ok := g.Common().Value.(*ssa.MakeClosure); ok {
		return m.Fn.(*ssa.Function)
	}
	return nil
}

// hooksPublished: what is said of events is about them, once they happened.
func (c *Check) hooksPublished() {
	const trade = "GetTradeByTxID(TradeRepository();received.TxID)"
	const mkt = "GetMarketByAsset(MarketRepository();" + trade + ".MarketQuoteAsset)"
	const balance = "GetBalance(UnspentRepository();Addresses(GetAllDerivedAddressesInfoForAccount(VaultRepository();" + mkt + "#1));" + mkt
	const unlocked = "GetUnlockedBalance(UnspentRepository();Addresses(AllDerivedAddressesInfoForAccount(GetOrCreateVault(VaultRepository();nil;nil;nil);GetMarketByAsset(MarketRepository();req.Market.QuoteAsset)#1));req.Market."
	specs := map[string]published{
		"blockchainListener.listenToEventChannel": {params: []string{"s"}, topic: "TradeSettled",
			fields: pairs(withPrefix(trade, "txid=^.TxID", "swap.amount_p=SwapRequestMessage(^).AmountP", "swap.asset_p=SwapRequestMessage(^).AssetP",
				"swap.amount_r=SwapRequestMessage(^).AmountR", "swap.asset_r=SwapRequestMessage(^).AssetR",
				"price.base_price=^.MarketPrice.BasePrice", "price.quote_price=^.MarketPrice.QuotePrice",
				"market.quote_asset=^.MarketQuoteAsset|"+mkt+".QuoteAsset"),
				[]string{"market.base_asset=" + mkt + ".BaseAsset", "balance.base_balance=" + balance + ".BaseAsset)", "balance.quote_balance=" + balance + ".QuoteAsset)"}),
			after: []string{"application.blockchainListener.settleTrade", "domain.TradeRepository.UpdateTrade"}, before: "application.blockchainListener.StopObserveTx"},
		"operatorService.WithdrawMarketFunds": {params: []string{"s", "ctx", "req"}, topic: "AccountWithdraw",
			fields: pairs(sub("market", "req.Market", "base_asset=BaseAsset", "quote_asset=QuoteAsset"), sub("amount_withdraw", "req.BalanceToWithdraw", "base_amount=BaseAmount", "quote_amount=QuoteAmount"),
				[]string{"receiving_address=req.Address", "txid=BroadcastTransaction(sendToMany(?struct))|nil",
					"balance.base_balance=" + unlocked + "BaseAsset)-req.BalanceToWithdraw.BaseAmount", "balance.quote_balance=" + unlocked + "QuoteAsset)-req.BalanceToWithdraw.QuoteAmount"}),
			after: []string{"explorer.Service.BroadcastTransaction"}, before: "return"},
	}
	reach := c.reaching(app, invokes("ports.SecurePubSub.Publish"))
	for _, n := range sortedKeys(specs) {
		i := strings.Index(n, ".")
		fn := c.method(app, n[:i], n[i+1:])
		c.Ob("published", n, fn != nil && reach[fn], "-", "nothing is published by "+n)
		if fn != nil {
			c.hookPublication(n[i+1:], specs[n], fn, reach)
		}
	}
}

// small helpers that make the messages
func makesMessage(f *ssa.Function) bool {
	if len(f.Blocks) > 8 || f.Signature.Results().Len() == 0 {
		return false
	}
	switch t := f.Signature.Results().At(0).Type().Underlying().(type) {
	case *types.Map, *types.Interface, *types.Struct:
		return !isErrorType(f.Signature.Results().At(0).Type())
	case *types.Slice:
		b, ok := t.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	case *types.Basic:
		return t.Info()&types.IsString != 0
	}
	return false
}

func (c *Check) hookPublication(name string, sp published, fn *ssa.Function, reach map[*ssa.Function]bool) {
	leads := c.reaching(app, calls(sp.after...))
	a := c.teller(name, fn, func(g *ssa.Function) bool {
		return c.P.PkgRel(g) == app && (g.Parent() != nil || reach[g] || makesMessage(g) || leads[g] && !slices.Contains(sp.after, fnName(g)))
	}, nil)
	a.params = sp.params
	n := 0
	is := func(ev *Event, names []string) bool {
		for _, x := range names {
			if ev.Name == x {
				return true
			}
		}
		return false
	}
	done := func(st *State, ev *Event) {
		c.At(ev, "published/always", name, st.Is("told"), "what happened may not be published")
	}
	code := itoa(int(c.intConst(hooksPkg, sp.topic)))
	a.on = func(st *State, ev *Event) {
		switch ev.Kind {
		case "go":
			if reach[starts(ev.Instr)] {
				st.Gen("told")
			}
		case "after":
			if is(ev, sp.after) {
				st.CondGen('N', ev.Res[len(ev.Res)-1], "happened")
			}
		case "return":
			if sp.before == "return" && ev.Frame.parent == nil {
				if _, good := outcomes(st, ev); good != nil {
					done(good, ev)
				}
			}
		case "call":
			if is(ev, sp.after) {
				st.Kill("happened")
				st.Kill("told")
			}
			if ev.Name == sp.before && st.Is("happened") {
				done(st, ev)
			}
			if ev.Name != "ports.SecurePubSub.Publish" || len(ev.Args) != 3 {
				return
			}
			n++
			st.Gen("told")
			topic := a.join(st, ev.Args[1])
			topic = strings.Replace(topic, "PubSubService()", "", 1)
			c.At(ev, "published/topic", name, topic == "Label(TopicsByCode()["+code+"])", "the event is published as "+topic)
			c.At(ev, "published/after", name, st.Is("happened"), "the event may be published though it did not happen")
			out := map[string]string{}
			ev.Args[2].Contains(func(t *Term) bool {
				if t.Op == "call" && lastIs(t.CallName(), "Marshal") {
					a.jsonOf(st, t.CallArgs()[0], "", out)
				}
				return false
			})
			for _, w := range sp.fields {
				i := strings.Index(w, "=")
				k := w[:i]
				opts := map[string]bool{w[i+1:]: true}
				if k == "market.quote_asset" {
					for _, o := range strings.Split(w[i+1:], "|") {
						opts[o] = true
					}
				}
				c.At(ev, "published/field", name+"/"+k, opts[out[k]], k+" is "+out[k])
			}
		}
	}
	prev := a.e.onAssume
	a.e.onAssume = func(st *State, k byte, t *Term) {
		prev(st, k, t)
		x := t
		if t.Op == "isnil" && k == 'T' {
			x = t.Args[0]
		} else if k != 'N' {
			x = nil
		}
		if x != nil && typeName(x.Typ) == "ports.SecurePubSub" {
			st.Gen("told")
		}
		// nothing is broadcast
		if k == 'F' && a.join(st, t) == "req.Push" {
			st.Gen("happened")
		}
	}
	c.AnalyzeWith(a.e, fn, "", func(st *State, _ []*Term) { a.start(st) })
	c.Need("published/"+name, n, 1, "publications")
}

// hooksWallet: the store of webhooks is opened with the wallet.
func (c *Check) hooksWallet() {
	for _, s := range []struct {
		m      string
		params []string
		calls  map[string]string // operation of the store = its arguments
		op     string            // what must be attempted
	}{
		{"InitWallet", []string{"s", "ctx", "mnemonic", "pwd", "restore", "chRes", "chErr"}, map[string]string{"Init": "pwd"}, "Init"},
		{"UnlockWallet", []string{"s", "ctx", "pwd"}, map[string]string{"Init": "pwd", "Unlock": "pwd", "IsLocked": ""}, "Unlock"},
		{"ChangePassword", []string{"s", "ctx", "old", "new"}, map[string]string{"ChangePassword": "old;new"}, "ChangePassword"},
	} {
		s := s
		fn := c.method(app, "walletService", s.m)
		if fn == nil {
			c.Ob("wallet", s.m, false, "-", "not found")
			continue
		}
		reach := c.reaching(app, invokes("ports.PubSubStore."+s.op))
		n := 0
		a := c.teller(s.m, fn, func(g *ssa.Function) bool {
			return c.P.PkgRel(g) == app && (g.Parent() != nil || reach[g])
		}, nil)
		a.params = s.params
		a.on = func(st *State, ev *Event) {
			switch ev.Kind {
			case "go":
				if reach[starts(ev.Instr)] {
					st.Gen("opened")
				}
			case "after":
				if lastIs(ev.Name, "UpdateVault") {
					st.CondGen('N', ev.Res[len(ev.Res)-1], "wallet done")
				}
			case "call":
				if ev.Name == "application.walletService.setInitialized" && s.m == "InitWallet" {
					c.At(ev, "wallet/init", s.m, st.Is("opened now"), "the wallet may be unlocked before the store of webhooks is ready")
				}
				if !strings.HasPrefix(ev.Name, "ports.PubSubStore.") {
					return
				}
				n++
				var as []string
				for _, x := range ev.Args[1:] {
					as = append(as, a.join(st, x))
				}
				w, ok := s.calls[ev.Last()]
				c.At(ev, "wallet/call", s.m+"/"+ev.Last(), ok && w == strings.Join(as, ";"), "the store of webhooks is given "+strings.Join(as, ";"))
				if ev.Last() == "Unlock" {
					c.At(ev, "wallet/ready", s.m, st.Is("ready"), "the store of webhooks may be opened before it is initialized")
				}
				if ev.Last() == s.op {
					st.Gen("opened")
					if !ev.Async {
						st.Gen("opened now")
					}
					if s.m != "InitWallet" {
						c.At(ev, "wallet/after", s.m, st.Is("wallet done"), "the store of webhooks may be opened though the wallet could not")
					}
				}
			case "return":
				if ev.Frame.parent != nil {
					if ev.Async && ev.Frame.fn.Parent() == fn && reach[ev.Frame.fn] {
						c.At(ev, "wallet/attempt", s.m, st.Is("opened here") || n == 0, "the store of webhooks may stay as it was")
					}
					return
				}
				if s.m == "InitWallet" {
					return
				}
				if _, good := outcomes(st, ev); good != nil {
					c.At(ev, "wallet/done", s.m, good.Is("opened"), "the store of webhooks may stay as it was")
				}
			}
			if ev.Kind == "call" && ev.Name == "ports.PubSubStore."+s.op {
				st.Gen("opened here")
			}
		}
		prev := a.e.onAssume
		a.e.onAssume = func(st *State, k byte, t *Term) {
			prev(st, k, t)
			if k == 'T' && t.Op == "isnil" && typeName(t.Args[0].Typ) == "ports.SecurePubSub" {
				st.Gen("opened")
				st.Gen("opened now")
			}
			if t.Op == "call" && t.CallName() == "ports.PubSubStore.IsLocked" && k == 'F' {
				st.Gen("ready")
			}
			if k == 'T' && t.Op == "isnil" && t.Args[0].Op == "call" && t.Args[0].CallName() == "ports.PubSubStore.Init" {
				st.Gen("ready")
			}
			if k == 'F' && t.Op == "call" && t.CallName() == "domain.Vault.IsLocked" {
				st.Gen("opened") // nothing to do
			}
			if k == 'F' && t.Op == "isnil" && t.Args[0].Op == "call" && t.Args[0].CallName() == "ports.PubSubStore.Init" {
				st.Gen("opened here") // cannot be used
			}
		}
		c.AnalyzeWith(a.e, fn, "", func(st *State, _ []*Term) { a.start(st) })
		c.Need("wallet/"+s.m, n, 1, "uses of the store of webhooks")
	}
}
