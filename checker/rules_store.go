package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C16: every query of the storage back-ends is answered with exactly the
// records that match it, and updates reach the records they name.

// storeQuery: a query of many records. The conditions are on fields of the
// record: "true", "false", "=n" and "in n" (the n-th argument), ">=k".
type storeQuery struct {
	m, rec string
	conds  map[string]string
	sum    string // the field summed up, if not the records are returned
	any    bool   // one match is returned
	free   string // both values of the field are asked for
}

var storeQueries = map[string][]storeQuery{
	"UnspentRepository": {
		{m: "GetAllUnspents", rec: "domain.Unspent"},
		{m: "GetAvailableUnspents", rec: "domain.Unspent", conds: map[string]string{"Spent": "false", "Confirmed": "true", "Locked": "false"}},
		{m: "GetAllUnspentsForAddresses", rec: "domain.Unspent", conds: map[string]string{"Address": "in 1"}},
		{m: "GetUnspentsForAddresses", rec: "domain.Unspent", conds: map[string]string{"Spent": "false", "Confirmed": "true", "Address": "in 1"}, free: "Locked"},
		{m: "GetAvailableUnspentsForAddresses", rec: "domain.Unspent", conds: map[string]string{"Spent": "false", "Confirmed": "true", "Locked": "false", "Address": "in 1"}},
		{m: "GetBalance", rec: "domain.Unspent", sum: "Value", conds: map[string]string{"Spent": "false", "Confirmed": "true", "Address": "in 1", "AssetHash": "=2"}},
		{m: "GetUnlockedBalance", rec: "domain.Unspent", sum: "Value", conds: map[string]string{"Spent": "false", "Confirmed": "true", "Locked": "false", "Address": "in 1", "AssetHash": "=2"}},
	},
	"TradeRepository": {
		{m: "GetAllTrades", rec: "domain.Trade"},
		{m: "GetAllTradesByMarket", rec: "domain.Trade", conds: map[string]string{"MarketQuoteAsset": "=1"}},
		{m: "GetCompletedTradesByMarket", rec: "domain.Trade", conds: map[string]string{"MarketQuoteAsset": "=1", "Status.Code": ">=Completed", "Status.Failed": "false"}},
		{m: "GetTradeBySwapAcceptID", rec: "domain.Trade", any: true, conds: map[string]string{"SwapAccept.ID": "=1"}},
		{m: "GetTradeByTxID", rec: "domain.Trade", any: true, conds: map[string]string{"TxID": "=1"}},
	},
	"MarketRepository": {
		{m: "GetAllMarkets", rec: "domain.Market", conds: map[string]string{"AccountIndex": ">=MarketAccountStart"}},
		{m: "GetTradableMarkets", rec: "domain.Market", conds: map[string]string{"AccountIndex": ">=MarketAccountStart", "Tradable": "true"}},
		{m: "GetMarketByAsset", rec: "domain.Market", any: true, conds: map[string]string{"QuoteAsset": "=1"}},
	},
}

// storeIndexes: maps of the in-memory stores by which records are found; the
// field of the record that is the key.
var storeIndexes = map[string]string{"tradesByMarket": "MarketQuoteAsset", "tradesBySwapAcceptID": "SwapAccept.ID", "accountsByAsset": "QuoteAsset"}

// storeKeyed: all records of these kinds satisfy the condition.
var storeImplied = map[string]bool{"AccountIndex": true}

func init() {
	rules["C16"] = func(c *Check) {
		for _, repo := range []string{"UnspentRepository", "TradeRepository", "MarketRepository", "VaultRepository"} {
			for pkg, nt := range c.repoImpls(repo) {
				for _, m := range c.P.exportedMethods(nt) {
					c.storeAccess(pkg, m)
				}
			}
		}
		for _, repo := range sortedKeys(storeQueries) {
			for pkg, nt := range c.repoImpls(repo) {
				for _, q := range storeQueries[repo] {
					fn := c.P.Method(nt, q.m)
					if fn == nil {
						c.Ob("anchor", pkg+"."+q.m, false, "-", "the method is gone")
						continue
					}
					if strings.Contains(pkg, "badger") {
						c.badgerQuery(pkg, fn, q)
					} else {
						c.memoryQuery(pkg, fn, q)
					}
				}
			}
		}
	}
}

// memoryQuery: all the records of a map that satisfy the conditions, and no
// other, get into the result.
func (c *Check) memoryQuery(pkg string, fn *ssa.Function, q storeQuery) {
	free := []string{""}
	if q.free != "" {
		free = []string{"true", "false"}
	}
	for _, f := range free {
		conds := map[string]string{}
		for k, v := range q.conds {
			conds[k] = v
		}
		if f != "" {
			conds[q.free] = f
		}
		c.memoryCase(pkg, fn, q, conds, "", q.m+strings.TrimSuffix("/"+f, "/"))
	}
	for _, not := range sortedKeys(q.conds) {
		c.memoryCase(pkg, fn, q, q.conds, not, q.m+"/not-"+not)
	}
}

// storeRun: one analysis of one query.
type storeRun struct {
	c        *Check
	e        *Engine
	q        storeQuery
	pkg      string
	args     []*Term
	appended map[*Term]bool     // loops that add their record to a result
	sites    map[string][]*Term // what a list gets its records from
	source   map[*Term]string   // the map a loop is over
	lists    map[*Term][]string // the lists a loop is over
	final    map[string]bool    // where the result gets its records
	rows     map[*Term]bool     // what is read from the database
	member   func(st *State, key, elem *Term) bool
	assumed  func(st *State, elem *Term)
	loops    map[*Term]bool // all the loops met
}

func isRec(t types.Type, rec string) bool {
	return t != nil && (typeName(t) == rec || typeName(elemOrSelf(t)) == rec)
}

// mapOf: the map of the in-memory store a term is.
func mapOf(x *Term) string {
	for x != nil && (x.Op == "load" || x.Op == "conv") {
		x = x.Args[0]
	}
	if x != nil && (x.Op == "field" || x.Op == "faddr") {
		if _, ok := x.Typ.Underlying().(*types.Map); ok || x.Op == "faddr" {
			return lastPart(x.Aux)
		}
	}
	return ""
}

// found: what is looked up in which map with which key.
func found(x *Term) (m, key *Term) {
	if x != nil && x.Op == "extract" && x.Aux == "0" {
		x = x.Args[0]
	}
	if x != nil && x.Op == "lookup" && len(x.Args) >= 2 {
		return x.Args[0], x.Args[1]
	}
	return nil, nil
}

// indexed: found in an index of the store.
func indexed(x *Term) (name string, key *Term) {
	m, k := found(x)
	if m == nil {
		return "", nil
	}
	if n := mapOf(m); storeIndexes[n] != "" {
		return n, k
	}
	return "", nil
}

// looped: the identity of a loop over records, and its current record.
func (r *storeRun) looped(t *Term) (key, elem *Term) {
	x := loopOver(t)
	if x == nil {
		return nil, nil
	}
	switch u := x.Typ.Underlying().(type) {
	case *types.Map:
		if !isRec(u.Elem(), r.q.rec) {
			return nil, nil
		}
		next := t
		if t.Op == "extract" {
			next = t.Args[0]
		}
		key, elem = next.Args[0], r.e.tab.mk("extract", "2", u.Elem(), next)
		r.source[key] = mapOf(x)
	case *types.Slice:
		if t.Op != "lt" || t.Args[0].Op == "extract" {
			return nil, nil
		}
		if n, _ := indexed(x); n != "" {
			return r.inList(x, t.Args[0]), nil
		}
		if !isRec(u.Elem(), r.q.rec) {
			return nil, nil
		}
		key, elem = r.inList(x, t.Args[0]), r.e.tab.mk("index", "", u.Elem(), x, t.Args[0])
	}
	return
}

// inList: a loop over a list.
func (r *storeRun) inList(list, i *Term) *Term {
	key := r.e.tab.mk("loop", "", nil, list, i)
	if n, _ := indexed(list); n != "" {
		r.source[key] = n
	} else {
		r.lists[key] = sitesOf(list)
	}
	return key
}

// record: the loop of which a value is the current record.
func (r *storeRun) record(st *State, v *Term) (key, elem *Term) {
	v = unconv(v)
	for i := 0; i < 4 && v != nil; i++ {
		if v.Op == "load" || v.Op == "conv" {
			v = v.Args[0]
		} else if w := cell(st, v); w != v {
			v = w
		} else {
			break
		}
	}
	if v == nil {
		return nil, nil
	}
	if v.Op == "struct" { // a changed copy
		for _, f := range v.Args {
			if f != nil && f.Op == "field" && isRec(f.Args[0].Typ, r.q.rec) {
				return r.record(st, f.Args[0])
			}
		}
		return nil, nil
	}
	if v.Op == "extract" && v.Aux == "2" && v.Args[0].Op == "next" && isRec(v.Typ, r.q.rec) {
		return v.Args[0].Args[0], v
	}
	if v.Op == "index" && isRec(v.Typ, r.q.rec) {
		return r.inList(v.Args[0], v.Args[1]), v
	}
	if v.Op == "idx" && isRec(elemOrSelf(v.Typ), r.q.rec) {
		return r.inList(v.Args[0], v.Args[1]), v
	}
	if m, k := found(v); m != nil && isRec(v.Typ, r.q.rec) {
		if k.Op == "extract" && k.Aux == "1" && k.Args[0].Op == "next" && mapOf(m) != "" && mapOf(m) == r.source[k.Args[0].Args[0]] {
			return k.Args[0].Args[0], v
		}
		if k.Op == "index" || k.Op == "load" && len(k.Args) > 0 && k.Args[0].Op == "idx" {
			if k.Op == "load" {
				k = k.Args[0]
			}
			if n, _ := indexed(k.Args[0]); n != "" {
				return r.inList(k.Args[0], k.Args[1]), v
			}
		}
		if n, _ := indexed(k); n != "" {
			r.source[k] = n
			return k, v
		}
	}
	return nil, nil
}

// field of a record, given its path.
func (r *storeRun) field(st *State, elem *Term, path string) *Term {
	for _, p := range strings.Split(path, ".") {
		if elem = fieldByName(r.e, st, elem, p); elem == nil {
			return nil
		}
	}
	return elem
}

func (r *storeRun) assume(st *State, elem *Term, path, cond string, holds bool) {
	f := r.field(st, elem, path)
	if f == nil {
		return
	}
	k := map[bool]byte{true: 'T', false: 'F'}
	switch {
	case cond == "true" || cond == "false":
		st.assume(f, k[holds == (cond == "true")])
	case cond[0] == '=':
		st.assume(r.e.eqT(f, r.args[cond[1]-'0']), k[holds])
	case strings.HasPrefix(cond, ">="):
		name := cond[2:]
		i := r.c.intConst(dom, name)
		st.assume(r.e.tab.mk("lt", "", types.Typ[types.Bool], f, r.e.tab.constant(constant.MakeInt64(i), f.Typ)), k[!holds])
		if nt := r.c.P.Named(dom, "Status"); nt != nil {
			g := r.e.tab.mk("gload", "domain."+name+"Status", nt)
			if x := r.field(st, g, lastPart(path)); x != nil {
				st.assume(r.e.tab.mk("lt", "", types.Typ[types.Bool], f, x), k[!holds])
			}
		}
	}
}

// newRun: conds hold of each record, but for the one negated.
func (c *Check) newRun(pkg string, fn *ssa.Function, q storeQuery, conds map[string]string, not, tag string) *storeRun {
	r := &storeRun{c: c, e: NewEngine(c.P), q: q, pkg: pkg, appended: map[*Term]bool{}, sites: map[string][]*Term{},
		source: map[*Term]string{}, lists: map[*Term][]string{}, rows: map[*Term]bool{}, final: map[string]bool{}, loops: map[*Term]bool{}}
	e := r.e
	among, isIn := 0, ""
	for f, cond := range q.conds {
		if strings.HasPrefix(cond, "in ") {
			among, isIn = int(cond[3]-'0'), f
		}
	}
	given := func(t *Term) bool {
		return among > 0 && whole(t) && (t == r.args[among] || e.madeOf(t, func(x *Term) bool { return x == r.args[among] }) && !t.IsNil())
	}
	// the given value a record is compared with
	compared := func(st *State, t *Term) (key *Term) {
		if isIn == "" || t.Op != "eq" && t.Op != "has" && t.Op != "lookup" {
			return nil
		}
		for i, x := range t.Args {
			if x.Op != "field" || lastPart(x.Aux) != isIn || !isRec(x.Args[0].Typ, q.rec) {
				continue
			}
			o := t.Args[1-i]
			if t.Op == "eq" && o.Op == "index" {
				o = o.Args[0]
			} else if t.Op == "eq" && o.Op == "load" && o.Args[0].Op == "idx" {
				o = o.Args[0].Args[0]
			} else if t.Op == "eq" {
				continue
			}
			if t.Op != "eq" || given(o) {
				key, _ = r.record(st, x.Args[0])
			}
		}
		return
	}
	e.onAssume = func(st *State, k byte, t *Term) {
		if dbg {
			println("assume", string(k), t.str(6))
		}
		if key, elem := r.looped(t); key != nil {
			r.loops[key] = true
			if k == 'T' {
				st.Kill("did", key)
				st.Gen("cmp", key)
				elems := []*Term{elem}
				if elem != nil && elem.Op == "extract" {
					m := loopOver(t)
					elems = append(elems, e.tab.mk("lookup", "", elem.Typ, m, e.tab.mk("extract", "1", nil, elem.Args[0])))
				}
				for _, elem := range elems {
					if elem == nil {
						continue
					}
					for f, cond := range conds {
						r.assume(st, elem, f, cond, f != not)
					}
				}
			}
			if k == 'F' {
				if st.Is("did", key) && (t.Op != "lt" || eachIndex(t.Args[0])) {
					st.Gen("all", key)
				}
			}
			return
		}
		if x := loopOver(t); x != nil && given(x) {
			if k == 'T' {
				st.Kill("did:in")
			} else if st.Is("did:in") {
				st.Gen("all:in")
			}
			var keys []*Term
			st.Each(func(kk byte, l *Term) bool {
				if kk == 'L' && l.Aux == "cmp" && len(l.Args) == 1 {
					keys = append(keys, l.Args[0])
				}
				return false
			})
			if k == 'T' {
				st.KillAll("cmp")
				st.Gen("some")
			} else if !st.Is("some") || len(keys) > 0 {
				for _, key := range keys {
					st.Gen("did", key)
				}
			}
			return
		}
		if k == 'F' {
			if key := compared(st, t); key != nil {
				st.Gen("cmp", key)
				if t.Op != "eq" {
					st.Gen("did", key)
				}
			}
			if m, _ := found(t); t.Op == "has" || m != nil {
				l := e.tab.mk("lookup", "", nil, t.Args[0], t.Args[1])
				if n, _ := indexed(l); n != "" {
					st.Gen("all", l)
					for key := range r.loops {
						if key.Op == "loop" && key.Args[0] == l {
							st.Gen("all", key)
						}
					}
					st.Gen("!absent")
				} else if n, _ := indexed(t.Args[1]); n != "" {
					st.Gen("!absent")
				}
			}
		}
		if k == 'T' && q.conds["Locked"] == "false" && not != "Locked" && t.Any(func(x *Term) bool { return x.Op == "field" && lastPart(x.Aux) == "Locked" }) {
			for _, x := range alts(t) {
				if x.Op == "field" {
					if key, _ := r.record(st, x.Args[0]); key != nil {
						st.Gen("did", key)
					}
				}
			}
		}
	}
	// the record gets into a result
	done := func(st *State, ev *Event, v *Term, into string) {
		key, elem := r.record(st, v)
		if dbg {
			println("done", v.str(5), key != nil)
		}
		if key == nil {
			if v != nil && isRec(v.Typ, q.rec) {
				c.At(ev, "query/record", pkg+"/"+tag, false, "what is returned is not a stored record: "+v.str(4))
			}
			return
		}
		st.Gen("did", key)
		if not != "" && not == isIn {
			ok := st.HasMatch('T', func(t *Term) bool { k2 := compared(st, t); return k2 == key })
			if ok {
				return
			}
		}
		_ = elem
		r.appended[key] = true
		r.sites[into] = append(r.sites[into], key)
	}
	e.hook = func(st *State, ev *Event) {
		switch ev.Kind {
		case "append":
			if elemOf(ev.Args[0].Typ) != nil && types.IsInterface(elemOf(ev.Args[0].Typ)) && isIn != "" {
				for _, v := range e.Elems(st, ev.Args[1]) {
					if e.From(v, func(x *Term) bool { return x == r.args[among] }) {
						st.Gen("did:in")
					}
				}
			}
			if !isRec(elemOf(ev.Args[0].Typ), q.rec) {
				return
			}
			c.At(ev, "query/alias", pkg+"/"+tag, !sharedElem(ev.Instr), "the records returned share the variable of the loop")
			for _, x := range ev.Args[1:] {
				for _, v := range e.Elems(st, x) {
					done(st, ev, v, "append@"+e.site(ev.Frame, ev.Instr))
				}
			}
		case "idxstore":
			b := ev.Base
			if s, ok := b.Typ.Underlying().(*types.Slice); ok && types.IsInterface(s.Elem()) && isIn != "" && e.From(ev.Val, func(x *Term) bool { return x == r.args[among] }) {
				st.Gen("did:in")
			}
			if s, ok := b.Typ.Underlying().(*types.Slice); ok && isRec(s.Elem(), q.rec) && (b.Op == "make" || b.Op == "makeslice") {
				done(st, ev, ev.Val, contKey(b))
			}
		case "arith":
			if q.sum == "" {
				return
			}
			for _, x := range ev.Args {
				if x.Op == "field" && lastPart(x.Aux) == q.sum {
					done(st, ev, x.Args[0], "sum")
				}
			}
		case "call":
			if lastIs(ev.Name, "Store.Find", "Store.TxFind") {
				r.rows[ev.Args[len(ev.Args)-2]] = true
				r.query(st, ev, tag)
			}
		case "after":
			if lastIs(ev.Name, "Store.Find", "Store.TxFind") {
				st.CondGen('N', ev.Res[0], "found")
			}
		case "return":
			if ev.Frame.parent != nil {
				return
			}
			_, good := outcomes(st, ev)
			if good == nil {
				return
			}
			if rs := fn.Signature.Results(); len(r.rows) > 0 && isErrorType(rs.At(rs.Len()-1).Type()) {
				c.At(ev, "query/error", pkg+"/"+tag, good.Is("found"), "an error of the query is hidden")
			}
			if not != "" {
				fs := []string{"sum"}
				if q.sum == "" {
					fs = sitesOf(ev.Res[0])
				}
				for _, x := range fs {
					r.final[x] = true
				}
			}
			if not == "" {
				r.result(good, ev, tag)
			} else if q.any {
				for _, v := range alts(ev.Res[0]) {
					if v.IsNil() {
						continue
					}
					g := good.lightClone()
					if !g.assume(ev.Res[0], 'X') {
						continue
					}
					key, _ := r.record(g, v)
					c.At(ev, "query/only", pkg+"/"+tag, key != nil && r.implied(key, not), "a record that does not match may be returned")
				}
			}
		}
	}
	start := func(st *State, args []*Term) {
		r.args = args[1:]
		st.Gen("did:in")
		for key := range r.loops {
			st.Gen("did", key)
		}
	}
	// a loop that is not entered leaves nothing out
	for i, n := 0, -1; i < 5 && n < len(r.loops); i++ {
		n = len(r.loops)
		c.dryRun(func() { c.AnalyzeWith(e, fn, tag, start) })
		r.appended, r.sites = map[*Term]bool{}, map[string][]*Term{}
	}
	c.AnalyzeWith(e, fn, tag, start)
	return r
}

// implied: by where the record comes from.
func (r *storeRun) implied(key *Term, cond string) bool {
	if storeImplied[cond] {
		return true
	}
	if s := r.source[key]; s != "" {
		return storeIndexes[s] == cond
	}
	for _, site := range r.lists[key] {
		for _, k := range r.sites[site] {
			if r.appended[k] && !r.implied(k, cond) {
				return false
			}
		}
	}
	return len(r.lists[key]) > 0
}

// complete: all records the list is made of were considered.
func (r *storeRun) complete(st *State, key *Term, n *int) bool {
	if !st.Is("all", key) && !(key.Op == "loop" && st.Is("all", key.Args[0])) {
		return false
	}
	if r.source[key] != "" {
		*n++
		return true
	}
	if key.Op != "loop" {
		return false
	}
	return r.made(st, key.Args[0], n)
}

func (r *storeRun) made(st *State, list *Term, n *int) bool {
	if r.rows[unload(list)] {
		*n++
		return true
	}
	for _, x := range alts(list) {
		if r.rows[unload(x)] {
			*n++
			return true
		}
	}
	sites := sitesOf(list)
	for _, s := range sites {
		seen := map[*Term]bool{}
		for _, k := range r.sites[s] {
			if !seen[k] && !r.complete(st, k, n) {
				return false
			}
			seen[k] = true
		}
	}
	return true
}

func unload(t *Term) *Term {
	if t != nil && t.Op == "load" && len(t.Args) > 0 {
		return t.Args[0]
	}
	return t
}

// result: everything that matches, once.
func (r *storeRun) result(st *State, ev *Event, tag string) {
	c, con := r.c, r.pkg+"/"+tag
	switch v := ev.Res[0]; {
	case r.q.sum != "":
		n, ok := 0, true
		seen := map[*Term]bool{}
		for _, k := range r.sites["sum"] {
			if !seen[k] {
				ok = ok && r.complete(st, k, &n)
				seen[k] = true
				// the lock is not part of the stored record
				if r.q.conds["Locked"] == "false" && k.Op == "loop" {
					for _, x := range alts(k.Args[0]) {
						ok = ok && !r.rows[unload(x)]
					}
				}
			}
		}
		c.At(ev, "query/all", con, ok && n == 1, "the sum may miss or repeat matching records")
		c.At(ev, "query/sum", con, v.Contains(func(x *Term) bool {
			return x.Op == "bin" && x.Aux == "+" && (lastPart(x.Args[0].Aux) == r.q.sum || lastPart(x.Args[1].Aux) == r.q.sum)
		}), "the sum is not returned")
	case r.q.any:
		none := st.lightClone()
		if none.assume(v, 'N') {
			ok := none.Is("!absent")
			none.Each(func(k byte, l *Term) bool {
				if k == 'L' && l.Aux == "all" {
					n := 0
					ok = ok || r.complete(none, l.Args[0], &n) && n > 0
				}
				return false
			})
			ok = ok || none.HasMatch('T', func(t *Term) bool { return t.Op == "empty" && r.made(none, t.Args[0], new(int)) })
			c.At(ev, "query/none", con, ok, "a stored record may not be found")
		}
	default:
		n := 0
		ok := r.made(st, v, &n)
		// the lock is not part of the stored record
		if r.q.conds["Locked"] == "false" && len(r.rows) > 0 {
			for _, x := range alts(v) {
				ok = ok && !r.rows[unload(x)]
			}
		}
		if dbg {
			println("result", v.str(5), ok, n, st.Is("!absent"))
		}
		c.At(ev, "query/all", con, ok && (n == 1 || n == 0 && st.Is("!absent")), "matching records may be missing or repeated")
	}
}

func (c *Check) memoryCase(pkg string, fn *ssa.Function, q storeQuery, conds map[string]string, not, tag string) {
	r := c.newRun(pkg, fn, q, conds, not, tag)
	if not != "" && !q.any {
		c.Ob("query/only", pkg+"/"+tag, !r.extra(sortedKeys(r.final), not), c.P.Pos(fn.Pos()), "records that do not match may be returned")
	}
}

// extra: the lists may have records that do not satisfy the condition.
func (r *storeRun) extra(sites []string, not string) bool {
	for _, s := range sites {
		for _, k := range r.sites[s] {
			if r.implied(k, not) {
				continue
			}
			if r.source[k] != "" || r.extra(r.lists[k], not) {
				return true
			}
		}
	}
	return false
}

// sitesOf: where records are added to a list.
func sitesOf(t *Term) (out []string) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch {
		case t.Op == "append":
			out = append(out, contKey(t))
			walk(t.Args[0])
			for _, x := range t.Args[1:] {
				walk(x)
			}
		case t.Op == "phi":
			for _, x := range t.Alts {
				walk(x)
			}
		case t.Op == "slice" && t.Args[0].Op != "alloc":
			walk(t.Args[0])
		case t.Op == "make" || t.Op == "makeslice":
			out = append(out, contKey(t))
		}
	}
	walk(t)
	return
}

// badgerQuery: the query has exactly the conditions, and all the rows found
// are returned.
func (c *Check) badgerQuery(pkg string, fn *ssa.Function, q storeQuery) {
	r := c.newRun(pkg, fn, q, q.conds, "", q.m)
	_ = r
}

// query: what the database is asked for.
func (r *storeRun) query(st *State, ev *Event, tag string) {
	c, con := r.c, r.pkg+"/"+tag
	conds, ok := bhQuery(ev.Args[len(ev.Args)-1])
	c.At(ev, "query/known", con, ok, "the query cannot be determined")
	cut := ev.Args[len(ev.Args)-1].Contains(func(t *Term) bool { return lastIs(t.CallName(), "Query.Limit", "Query.Skip") })
	c.At(ev, "query/limit", con, !cut || r.q.any, "only some of the matching records are asked for")
	left := map[string]bool{}
	for k := range conds {
		left[k] = true
	}
	for _, f := range sortedKeys(r.q.conds) {
		cond := r.q.conds[f]
		op := " Eq"
		switch {
		case f == "Locked":
			continue
		case strings.HasPrefix(cond, "in "):
			op = " In"
		case strings.HasPrefix(cond, ">="):
			op = " Ge"
		}
		t := conds[f+op]
		delete(left, f+op)
		ok := false
		if t != nil {
			t = unconv(t)
			b, isB := constBool(t)
			switch {
			case cond == "true" || cond == "false":
				ok = isB && b == (cond == "true")
			case cond[0] == '=':
				ok = t == r.args[cond[1]-'0']
			case op == " Ge":
				n, isN := t.IntConst()
				ok = isN && n == c.intConst(dom, cond[2:])
			default:
				arg := r.args[cond[3]-'0']
				ok = r.e.madeOf(t, func(x *Term) bool { return x == arg }) && !t.IsNil() && st.Is("all:in")
			}
		}
		c.At(ev, "query/condition", con+"/"+f, ok || storeImplied[f] && t == nil, "the query does not ask for the right "+f)
	}
	c.At(ev, "query/conditions", con, len(left) == 0, "the query has further conditions: "+strings.Join(sortedKeys(left), ", "))
}

// storeAccesses: which records of which kind each method may read, write and
// delete: the key, and the value written unless left open.
var storeAccesses = map[string][]string{
	"AddUnspents":                          {"Unspent row.Key", "LockedUnspent row.Key"},
	"GetUnspentWithKey":                    {"Unspent p1", "LockedUnspent p1"},
	"SpendUnspents":                        {"Unspent p1[]", "LockedUnspent p1[]"},
	"ConfirmUnspents":                      {"Unspent p1[]", "LockedUnspent p1[]"},
	"LockUnspents":                         {"Unspent p1[]", "LockedUnspent p1[]"},
	"UnlockUnspents":                       {"Unspent p1[]", "LockedUnspent p1[]"},
	"GetAllUnspents":                       {"LockedUnspent row.Key"},
	"GetAvailableUnspents":                 {"LockedUnspent row.Key"},
	"GetAllUnspentsForAddresses":           {"LockedUnspent row.Key"},
	"GetUnspentsForAddresses":              {"LockedUnspent row.Key"},
	"GetAvailableUnspentsForAddresses":     {"LockedUnspent row.Key"},
	"GetBalance":                           {"LockedUnspent row.Key"},
	"GetUnlockedBalance":                   {"LockedUnspent row.Key"},
	"GetOrCreateTrade":                     {"Trade p1", "Trade new.ID = new"},
	"GetTradeBySwapAcceptID":               {"tradesBySwapAcceptID p1", "Trade tradesBySwapAcceptID[p1]"},
	"GetAllTradesByMarket":                 {"tradesByMarket p1", "Trade tradesByMarket[p1][]"},
	"GetCompletedTradesByMarket":           {"tradesByMarket p1", "Trade tradesByMarket[p1][]"},
	"GetTradeByTxID":                       {},
	"GetAllTrades":                         {},
	"UpdateTrade":                          {"Trade p1 = updated", "Trade current.ID = updated", "Trade updated.ID = updated", "Trade new.ID = new", "tradesByMarket updated.MarketQuoteAsset", "tradesBySwapAcceptID SwapAcceptMessage(updated).Id = current.ID", "tradesBySwapAcceptID SwapAcceptMessage(updated).Id = updated.ID", "tradesBySwapAcceptID SwapAcceptMessage(updated).Id = p1"},
	"GetOrCreateMarket":                    {"Market p1.AccountIndex = new", "Prices p1.AccountIndex = zero"},
	"GetMarketByAccount":                   {"Market p1", "Prices p1"},
	"GetMarketByAsset":                     {"Prices row.AccountIndex", "accountsByAsset p1", "Market accountsByAsset[p1]"},
	"GetLatestMarket":                      {"Prices row.AccountIndex", "Market sorted", "Market made[?]", "Market markets[key]"},
	"GetTradableMarkets":                   {"Prices row.AccountIndex"},
	"GetAllMarkets":                        {"Prices row.AccountIndex"},
	"UpdateMarket":                         {"Market p1 = updated", "Prices p1 = updated.Price", "accountsByAsset updated.QuoteAsset = p1"},
	"OpenMarket":                           {"Market row.AccountIndex", "Prices row.AccountIndex", "accountsByAsset p1", "Market accountsByAsset[p1]"},
	"CloseMarket":                          {"Market row.AccountIndex", "Prices row.AccountIndex", "accountsByAsset p1", "Market accountsByAsset[p1]"},
	"UpdatePrices":                         {"Market p1", "Prices p1 = p2"},
	"DeleteMarket":                         {"Market p1", "accountsByAsset accountsByAsset[key]"},
	"GetOrCreateVault":                     {"Vault 'vault' = new"},
	"UpdateVault":                          {"Vault 'vault' = updated"},
	"GetAccountByIndex":                    {"Vault 'vault'"},
	"GetAccountByAddress":                  {"Vault 'vault'"},
	"GetAllDerivedAddressesInfoForAccount": {"Vault 'vault'"},
	"GetAllDerivedExternalAddressesInfoForAccount": {"Vault 'vault'"},
	"GetDerivationPathByScript":                    {"Vault 'vault'"},
}

// storeKinds: what the maps of the in-memory stores hold.
var storeKinds = map[string]string{"unspents": "Unspent", "trades": "Trade", "markets": "Market"}

// storeNew: how new records are made.
var storeNew = map[string]string{"GetOrCreateTrade": "NewTrade()", "UpdateTrade": "NewTrade()", "GetOrCreateMarket": "NewMarket(p1.AccountIndex;p1.Fee)", "GetOrCreateVault": "NewVault(p1;p2;p3)"}

// storeReads: the vault's answer handed out.
var storeReads = map[string]string{"GetAccountByIndex": "AccountByIndex", "GetAccountByAddress": "AccountByAddress",
	"GetAllDerivedAddressesInfoForAccount": "AllDerivedAddressesInfoForAccount", "GetAllDerivedExternalAddressesInfoForAccount": "AllDerivedExternalAddressesInfoForAccount"}

// storeEach: methods that handle every given record, unless it is missing or
// already in the state.
var storeEach = map[string]string{"AddUnspents": "", "SpendUnspents": "TSpent", "ConfirmUnspents": "TConfirmed", "LockUnspents": "TLocked", "UnlockUnspents": "FLocked"}

// word brings the names of keys and values of both back-ends together.
func (c *Check) storeWord(m, s string) string {
	s = strings.ReplaceAll(s, "s.store.", "")
	if i := strings.Index(s, "dynamic("); i >= 0 {
		d, j := 0, i+len("dynamic")
		for ; j < len(s); j++ {
			if s[j] == '(' {
				d++
			}
			if s[j] == ')' {
				d--
				if d == 0 {
					break
				}
			}
		}
		if j < len(s) {
			s = s[:i] + "updated" + s[j+1:]
		}
	}
	if n := storeNew[m]; n != "" {
		s = strings.ReplaceAll(s, n, "new")
	}
	if strings.Contains(m, "Market") {
		s = strings.ReplaceAll(s, "?alloc[0]", "row")
	}
	for _, r := range []string{"?alloc[]", "?alloc", "?struct", "unspents[]", "unspents[key]"} {
		s = strings.ReplaceAll(s, r, "row")
	}
	if m == "UpdateTrade" {
		s = strings.ReplaceAll(strings.ReplaceAll(s, "new|trades[p1]", "current"), "trades[p1]", "current")
	}
	return s
}

func (c *Check) storeAccess(pkg string, fn *ssa.Function) {
	m := fn.Name()
	name := pkg + "/" + m
	allowed, known := storeAccesses[m]
	if !known {
		return
	}
	a := c.teller(name, fn, func(g *ssa.Function) bool {
		return strings.HasPrefix(c.P.PkgRel(g), "internal/infrastructure/storage") || typeName(recvType(g)) == "domain.Unspent" || typeName(recvType(g)) == "domain.Market" && (strings.HasPrefix(g.Name(), "Make") || strings.HasPrefix(g.Name(), "Is") || strings.HasPrefix(g.Name(), "Change"))
	}, []string{"ID", "AccountIndex", "Price", "Tradable", "BasePrice", "QuotePrice"})
	a.params = []string{"s", "ctx", "p1", "p2", "p3", "p4"}
	badger := strings.Contains(pkg, "badger")
	var index *Term
	// the trade is in the list of its market
	listed := func(t *Term) bool {
		return t.Op == "eq" && t.Contains(func(x *Term) bool { return mapOf(x) == "tradesByMarket" })
	}
	n, asking := 0, false
	words := func(st *State, t *Term) (out []string) {
		for _, x := range alts(unconv(t)) {
			if _, ok := x.IntConst(); x.IsNil() || ok {
				continue
			}
			for _, w := range a.part(st, x, "") {
				w = c.storeWord(m, w)
				if w != "nil" && w != "" && w != "-1" {
					out = add(out, w)
				}
			}
		}
		return
	}
	// access of a record; val is what is written
	access := func(st *State, ev *Event, kind string, key, val *Term) {
		n++
		pre := kind + " "
		var keys []string
		lock := key.Contains(func(t *Term) bool { s, ok := t.StrConst(); return ok && strings.Contains(s, "Lock") })
		if lock {
			pre = "LockedUnspent "
			key.Contains(func(t *Term) bool {
				if lastIs(t.CallName(), "DefaultEncode") {
					arg := t.CallArgs()[len(t.CallArgs())-1]
					keys = words(st, arg)
					arg.Contains(func(x *Term) bool {
						if (x.Op == "index" || x.Op == "idx") && len(x.Args) == 2 && x.Args[0].Op != "alloc" {
							if _, fixed := x.Args[1].IntConst(); fixed {
								keys = []string{"one of them"}
							}
						}
						return false
					})
				}
				return false
			})
		} else {
			keys = words(st, key)
		}
		var vals []string
		if val != nil {
			vals = words(st, val)
			if badger && kind == "Prices" && len(vals) == 0 {
				vals = []string{"zero"}
			}
		}
		if val != nil && m == "UpdateMarket" && badger && kind == "Market" {
			vals = nil
			for _, w := range a.part(st, val, "AccountIndex") {
				vals = add(vals, strings.TrimSuffix(c.storeWord(m, w), ".AccountIndex"))
			}
		}
		ok := len(keys) > 0
		for _, k := range keys {
			if k == "row" || k == "Key(row)" || k == "row.AccountIndex" && kind == "Market" && m == "AddUnspents" {
				k = "row.Key"
			}
			one := false
			for _, al := range allowed {
				w := strings.SplitN(al, " = ", 2)
				if w[0] != pre+k {
					continue
				}
				good := true
				if len(w) == 2 {
					for _, v := range vals {
						good = good && (v == w[1] || v == "row" && !strings.HasPrefix(m, "Update"))
					}
				}
				one = one || good
			}
			// the key of the record at hand
			if val == nil && ev.Kind == "mapread" && (k == "markets[key]" || k == "trades[key]" || k == "unspents[key]") && strings.HasPrefix(m, "Get") {
				one = true
			}
			ok = ok && one
		}
		c.At(ev, "access/key", name+"/"+strings.TrimSpace(pre), ok, "the record of kind "+pre+"under the key "+strings.Join(keys, "|")+" is accessed, with "+strings.Join(vals, "|"))
		if val != nil || ev.Kind == "delete" || lastIs(ev.Name, "Store.Delete", "Store.TxDelete") {
			st.Gen("wrote:" + strings.TrimSpace(pre))
			st.Gen("did:keys")
			if !lock && kind != "Prices" {
				st.Gen("stored")
				st.Gen("!ok-market")
			}
		}
		if m == "GetOrCreateTrade" && index != nil && val != nil {
			c.At(ev, "access/named", name, expectSet(keys, "p1"), "the trade created for the given id has the id "+strings.Join(keys, "|"))
		}
		if m == "AddUnspents" && val != nil && !lock && (badger || ev.Kind == "mapupdate") {
			same := val.Op == "extract" && val.Aux == "2" && key.Op == "extract" && key.Args[0] == val.Args[0]
			free := lastIs(ev.Name, "Store.Insert", "Store.TxInsert") || st.HasMatch('F', func(t *Term) bool { return t.Op == "has" && mapOf(t.Args[0]) == "unspents" })
			c.At(ev, "access/kept", name, same || free, "an unspent stored before may be replaced, and its state lost")
		}
		if m == "UpdatePrices" && val != nil {
			for _, f := range []string{"BasePrice", "QuotePrice"} {
				pre := map[bool]string{true: "", false: "Price."}[kind == "Prices"]
				got := a.part(st, val, pre+f)
				c.At(ev, "access/price", name+"/"+f, expectSet(got, "p2."+f), "the price stored is "+strings.Join(got, "|"))
			}
		}
		switch {
		case kind == "tradesByMarket" && ev.Kind == "mapupdate":
			list := val
			if val.Op == "append" {
				list = val.Args[1]
			}
			for _, v := range a.e.Elems(st, list) {
				if w := words(st, v); expectSet(w, "current.ID") || expectSet(w, "updated.ID") || expectSet(w, "p1") {
					st.Gen("!by-market")
				}
			}
		case kind == "tradesBySwapAcceptID" && ev.Kind == "mapupdate":
			st.Gen("!by-accept")
		case kind == "accountsByAsset" && ev.Kind == "mapupdate":
			st.Gen("!by-asset")
		case kind == "accountsByAsset" && ev.Kind == "delete":
			ok := st.HasMatch('T', func(t *Term) bool {
				return t.Op == "eq" && t.Contains(func(x *Term) bool { return x == index }) && t.Contains(func(x *Term) bool { return x.Op == "next" })
			})
			c.At(ev, "access/removed", name, ok, "the name of another market may be deleted")
			st.Gen("did:names")
		}
		if val != nil && (m == "OpenMarket" || m == "CloseMarket") && kind == "Market" {
			got := a.part(st, val, "Tradable")
			c.At(ev, "access/tradable", name, expectSet(got, map[bool]string{true: "true", false: "false"}[m == "OpenMarket"]), "the market is stored with tradable "+strings.Join(got, "|"))
		}
	}
	kindOf := func(t *Term) string {
		for t != nil && t.Op == "conv" {
			t = t.Args[0]
		}
		if t == nil || t.Typ == nil {
			return "?"
		}
		return strings.TrimPrefix(strings.TrimPrefix(lastPart(typeName(elemOrSelf(elemOrSelf(t.Typ)))), "domain."), "dbbadger.")
	}
	var keyList *Term
	a.on = func(st *State, ev *Event) {
		switch ev.Kind {
		case "call":
			i := len(ev.Args)
			if lastIs(ev.Name, "Store.Get", "Store.TxGet", "Store.Delete", "Store.TxDelete") {
				k := kindOf(ev.Args[i-1])
				access(st, ev, k, ev.Args[i-2], nil)
				if lastIs(ev.Name, "Store.Get", "Store.TxGet") {
					st.Gen("read:" + k)
				}
			}
			if lastIs(ev.Name, "Store.Insert", "Store.TxInsert", "Store.Update", "Store.TxUpdate", "Store.Upsert", "Store.TxUpsert") {
				access(st, ev, kindOf(ev.Args[i-1]), ev.Args[i-2], ev.Args[i-1])
			}
			// what a transaction did before it was discarded never happened
			if lastIs(ev.Name, "DB.NewTransaction") {
				st.Gen("stored")
			}
			if nw := storeNew[m]; nw != "" && strings.HasPrefix(nw, ev.Last()+"(") {
				st.Kill("stored")
			}
		case "mapread", "mapupdate", "delete":
			if len(ev.Args) < 2 || badger {
				if badger && m == "GetDerivationPathByScript" && ev.Kind == "mapupdate" {
					break
				}
				return
			}
			mn := mapOf(ev.Args[0])
			if mn == "" || mn == "Accounts" || mn == "DerivationPathByScript" || mn == "AccountAndKeyByAddress" {
				break
			}
			if k := storeKinds[mn]; k != "" {
				mn = k
			}
			access(st, ev, mn, ev.Args[1], ev.Val)
		case "store":
			if lastPart(ev.Name) == "vault" {
				n++
				if m == "UpdateVault" {
					c.At(ev, "access/key", name+"/Vault", expectSet(words(st, ev.Val), "updated"), "the vault stored is "+strings.Join(words(st, ev.Val), "|"))
				} else {
					c.At(ev, "access/key", name+"/Vault", m == "GetOrCreateVault" && expectSet(words(st, ev.Val), "new"), "the vault stored is "+strings.Join(words(st, ev.Val), "|"))
				}
				st.Gen("wrote:Vault")
				st.Gen("stored")
			}
		}
		if ev.Kind == "mapupdate" && m == "GetDerivationPathByScript" {
			key, val := words(st, ev.Args[1]), words(st, ev.Val)
			if len(val) == 1 {
				n++
				ok := expectSet(key, "p2[]") && strings.HasPrefix(val[0], "AccountByIndex(") && strings.HasSuffix(val[0], "p1).DerivationPathByScript[p2[]]")
				ok = ok && st.HasMatch('T', func(t *Term) bool { return t.Op == "has" })
				c.At(ev, "answer/path", name, ok, "the path of "+strings.Join(key, "|")+" is "+val[0])
				st.Gen("did:keys")
			}
		}
		if ret, ok := ev.Instr.(*ssa.Return); ok && ev.Kind == "return" && m == "UpdateTrade" && !badger && len(ret.Results) == 1 {
			for _, x := range flat(ret.Results[0]) {
				k, is := x.(*ssa.Const)
				if is && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) && x == ret.Results[0] {
					c.At(ev, "access/listed", name, st.HasMatch('T', listed), "a trade may be taken for listed with its market though it is not")
				}
				if b, ok := x.(*ssa.BinOp); ok && b.Op != token.EQL {
					c.At(ev, "access/listed", name, false, "a trade may be taken for listed with its market though it is not")
				}
			}
		}
		// no record is answered only where none is stored
		if ret, ok := ev.Instr.(*ssa.Return); ok && ev.Kind == "return" && len(ret.Results) == 2 && (m == "GetUnspentWithKey" || m == "GetMarketByAccount") {
			none := false
			for _, x := range flat(ret.Results[0]) {
				k, is := x.(*ssa.Const)
				none = none || is && k.IsNil()
			}
			if none {
				_, good := outcomes(st, ev)
				asking = true
				if good != nil && good.assume(ev.Res[0], 'N') {
					c.At(ev, "answer/none", name, good.Is("!missing"), "a stored record may not be found")
				}
				asking = false
			}
		}
		if ev.Kind == "return" && ev.Frame.parent == nil {
			_, good := outcomes(st, ev)
			if good == nil {
				return
			}
			if _, each := storeEach[m]; each || m == "GetDerivationPathByScript" {
				c.At(ev, "access/each", name, good.Is("all:keys"), "some of the given records may be left out")
			}
			for _, l := range map[string][]string{"UpdateTrade": {"!by-market", "!by-accept"}, "UpdateMarket": {"!by-asset"}, "DeleteMarket": {"all:names"}}[m] {
				if !badger {
					c.At(ev, "access/index", name+"/"+strings.TrimPrefix(l, "!"), good.Is(l), "the stored record may not be found by its other names")
				}
			}
			switch m {
			case "UpdatePrices":
				c.At(ev, "access/done", name, good.Is("wrote:Prices") || good.Is("wrote:Market"), "the prices may not be stored")
			case "DeleteMarket":
				c.At(ev, "access/done", name, good.Is("wrote:Market"), "the market may not be deleted")
			case "OpenMarket", "CloseMarket":
				c.At(ev, "access/done", name, good.Is("!ok-market"), "the market may not be changed")
			case "GetOrCreateMarket", "GetOrCreateTrade", "GetOrCreateVault":
				c.At(ev, "access/stored", name, good.Is("stored"), "a new record may not be stored")
			case "GetUnspentWithKey", "GetMarketByAccount":
				for _, w := range words(good, ev.Res[0]) {
					want := map[string]string{"GetUnspentWithKey": "unspents[p1]", "GetMarketByAccount": "markets[p1]"}[m]
					c.At(ev, "answer/record", name, w == want || badger && w == "row" && good.Is("read:"+map[string]string{"GetUnspentWithKey": "Unspent", "GetMarketByAccount": "Market"}[m]), "what is returned is "+w)
				}
			}
			if r := storeReads[m]; r != "" {
				for i, t := range ev.Res {
					if isErrorType(fn.Signature.Results().At(i).Type()) {
						continue
					}
					ws := words(good, t)
					ok := len(ws) == 1 && strings.HasPrefix(ws[0], r+"(") && strings.Contains(ws[0]+"#", "p1)#") && (i == 0 || strings.HasSuffix(ws[0], "#"+itoa(i)))
					c.At(ev, "answer/vault", name, ok, "what is returned is "+strings.Join(ws, "|"))
				}
			}
		}
	}
	assumed := a.e.onAssume
	a.e.onAssume = func(st *State, k byte, t *Term) {
		assumed(st, k, t)
		armedLoop("keys", func(x *Term) bool { return x == keyList })(st, k, t)
		missing := !asking && (k == 'F' && t.Op == "has" || k == 'T' && t.Op == "eq" && (strings.HasSuffix(t.Args[0].Aux, "ErrNotFound") || strings.HasSuffix(t.Args[1].Aux, "ErrNotFound")) ||
			k == 'N' && t.Typ != nil && typeName(elemOrSelf(t.Typ)) == "domain.Unspent" || k == 'T' && t.Op == "isnil" && t.Args[0].Typ != nil && typeName(elemOrSelf(t.Args[0].Typ)) == "domain.Unspent")
		if missing {
			st.Gen("!missing")
			if m != "AddUnspents" {
				if _, each := storeEach[m]; each {
					st.Gen("did:keys")
				}
			}
		}
		if k == 'T' && t.Op == "has" && m == "AddUnspents" {
			st.Gen("did:keys")
		}
		armedLoop("names", func(x *Term) bool { return mapOf(x) == "accountsByAsset" })(st, k, t)
		if k == 'F' && t.Op == "eq" && m == "DeleteMarket" && t.Contains(func(x *Term) bool { return x.Op == "next" }) {
			st.Gen("did:names")
		}
		if m == "UpdateTrade" {
			if k == 'T' && (listed(t) || t.Op == "phi") {
				st.Gen("!by-market")
			}
			if k == 'T' && t.Op == "has" && mapOf(t.Args[0]) == "tradesBySwapAcceptID" ||
				k == 'N' && lastIs(t.CallName(), "Trade.SwapAcceptMessage") || k == 'T' && t.Op == "isnil" && lastIs(t.Args[0].CallName(), "Trade.SwapAcceptMessage") {
				st.Gen("!by-accept")
			}
		}
		if m == "UpdateMarket" && (k == 'T' && (t.Op == "empty" || t.Op == "eq") || k == 'N') && t.Contains(func(x *Term) bool {
			return x.Op == "field" && (lastPart(x.Aux) == "BaseAsset" || lastPart(x.Aux) == "QuoteAsset")
		}) {
			st.Gen("!by-asset")
		}
		if (m == "OpenMarket" || m == "CloseMarket") && (missing || k == 'T' && t.Op == "empty" ||
			k == map[string]byte{"OpenMarket": 'T', "CloseMarket": 'F'}[m] && t.Op == "field" && lastPart(t.Aux) == "Tradable") {
			st.Gen("!ok-market")
		}
		if w := storeEach[m]; w != "" && k == w[0] {
			for _, x := range alts(t) {
				if x.Op == "field" && lastPart(x.Aux) == w[1:] {
					st.Gen("did:keys")
				}
			}
		}
	}
	if m == "GetOrCreateTrade" {
		c.AnalyzeWith(a.e, fn, "given", func(st *State, args []*Term) {
			a.start(st)
			st.Gen("did:keys")
			st.Gen("stored")
			index = args[2]
			st.assume(index, 'X')
		})
		index = nil
	}
	c.AnalyzeWith(a.e, fn, "", func(st *State, args []*Term) {
		a.start(st)
		st.Gen("did:keys")
		st.Gen("stored")
		st.Gen("did:names")
		keyList = nil
		if m == "DeleteMarket" {
			index = args[2]
		}
		for _, x := range args {
			if _, ok := x.Typ.Underlying().(*types.Slice); ok {
				keyList = x
			}
		}
	})
	if m == "GetUnspentWithKey" || m == "GetMarketByAccount" || strings.HasPrefix(m, "Update") || strings.HasPrefix(m, "GetOrCreate") || strings.HasSuffix(m, "Unspents") && storeEach[m] != "" {
		c.Need("access/"+name, n, 1, "accesses of the store")
	}
}

func recvType(f *ssa.Function) types.Type {
	if r := f.Signature.Recv(); r != nil {
		return elemOrSelf(r.Type())
	}
	return types.Typ[types.Invalid]
}

// flat lists what a value is one of.
func flat(v ssa.Value) (out []ssa.Value) {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		if phi, ok := v.(*ssa.Phi); ok {
			for _, x := range phi.Edges {
				walk(x)
			}
			return
		}
		// results of functions with deferred calls
		if ld, ok := v.(*ssa.UnOp); ok {
			if al, ok := ld.X.(*ssa.Alloc); ok && !al.Heap {
				for _, r := range *al.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == al && s.Block() == ld.Block() {
						walk(s.Val)
						return
					}
				}
			}
		}
		out = append(out, v)
	}
	walk(v)
	return
}

// sharedElem: what is appended in a loop is the address of a variable that
// outlives the iteration.
func sharedElem(in ssa.Instruction) bool {
	_, body := loopOf(in)
	call, ok := in.(*ssa.Call)
	if !ok || body == nil || len(call.Call.Args) < 2 {
		return false
	}
	sl, ok := call.Call.Args[1].(*ssa.Slice)
	if !ok {
		return false
	}
	arr, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *arr.Referrers() {
		idx, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, rr := range *idx.Referrers() {
			if store, ok := rr.(*ssa.Store); ok && store.Addr == idx {
				v := store.Val
				if mk, ok := v.(*ssa.MakeInterface); ok {
					v = mk.X
				}
				if al, ok := v.(*ssa.Alloc); ok && !body[al.Block()] {
					return true
				}
			}
		}
	}
	return false
}

// whole: no part of a list is left out.
func whole(t *Term) bool {
	return !t.Contains(func(x *Term) bool {
		if x.Op != "slice" || x.Args[0].Op == "alloc" {
			return false
		}
		for _, b := range x.Args[1:] {
			if b == nil {
				continue
			}
			if k, ok := b.IntConst(); !b.IsNil() && (!ok || k != 0) {
				return true
			}
		}
		return false
	})
}

// eachIndex: the index takes all values from 0 on.
func eachIndex(i *Term) bool {
	first := int64(0)
	if i.Op == "bin" && i.Aux == "+" && isOne(i.Args[1]) {
		i, first = i.Args[0], -1
	}
	if i.Op != "phi" {
		return false
	}
	for _, x := range i.Alts {
		if k, ok := x.IntConst(); ok {
			if k != first {
				return false
			}
			continue
		}
		if x.Op != "bin" || x.Aux != "+" || !isOne(x.Args[1]) || x.Args[0] != i {
			return false
		}
	}
	return true
}
