package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const crawlerPkg = "pkg/crawler"

// C19: the crawler checks what it observes until told to stop, then stops.
func init() {
	rules["C19"] = func(c *Check) {
		c.Note("The implementations of the crawler's ports, the goroutine of an observable and the blockchain listener are followed: outcome of each check, the loop of the goroutine, registration and removal, the stop protocol and the hand-over of observables waiting for the start.")
		c.Assume("the consumer of the events and of the errors keeps receiving them; tickers tick; one goroutine per handler runs it")
		busy := c.observerLoop()
		c.observers(busy)
		c.initialStatus(busy)
		c.crawlerService()
		c.listenerObservation()
		c.listenerLoop()
	}
}

// loopOver: what the loop ranges over the condition of which this is.
func loopOver(t *Term) *Term {
	switch {
	case t.Op == "extract" && t.Aux == "0" && t.Args[0].Op == "next" && t.Args[0].Args[0].Op == "range":
		return t.Args[0].Args[0].Args[0]
	case t.Op == "next" && strings.HasSuffix(t.Aux, "0"):
		return t.Args[0].Args[0]
	case t.Op == "lt" && t.Args[1].Op == "len":
		return t.Args[1].Args[0]
	}
	return nil
}

// each: every iteration of a loop over something must do what `did` labels.
// The label "all:"+name holds once the loop ended having done so.
func eachLoop(name string, over func(*Term) bool) func(*State, byte, *Term) {
	return func(st *State, k byte, t *Term) {
		x := loopOver(t)
		if x == nil || !over(x) {
			return
		}
		if k == 'T' {
			st.Kill("did:" + name)
		}
		if k == 'F' {
			if st.Is("did:" + name) {
				st.Gen("all:" + name)
			} else {
				st.Kill("all:" + name)
			}
		}
	}
}

func chanField(t *Term, name string) bool {
	for t != nil && (t.Op == "conv" || t.Op == "load" && len(t.Args) == 1) {
		t = t.Args[0]
	}
	return t != nil && (t.Op == "field" || t.Op == "faddr") && strings.HasSuffix(t.Aux, "."+name)
}

// observerLoop: the goroutine of an observable. Returns the value of the status
// that keeps it from checking.
func (c *Check) observerLoop() *Term {
	obs := c.P.Iface(crawlerPkg, "Observable")
	if obs == nil {
		c.Ob("anchor", "Observable", false, "-", "the interface of observables is gone")
		return nil
	}
	isObserve := func(cm *ssa.CallCommon) bool {
		return cm.IsInvoke() && cm.Method.Name() == "Observe" && typeName(cm.Value.Type()) == "crawler.Observable"
	}
	var loops []*ssa.Function
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && isObserve(ci.Common()) {
					loops = append(loops, fn)
				}
			}
		}
	}
	c.Need("loop", len(loops), 1, "functions checking observables")
	var busy *Term
	// the goroutines the checks run in
	entry := map[*ssa.Function]bool{}
	cg := c.P.CallGraph()
	for _, fn := range c.P.FuncsIn(crawlerPkg) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					s := g.Call.StaticCallee()
					if s == nil {
						continue
					}
					for _, l := range loops {
						if s == l || cg.Reach(s)[l] != nil {
							entry[s] = true
						}
					}
				}
			}
		}
	}
	c.Need("loop/goroutine", len(entry), 1, "goroutines checking observables")
	for _, fn := range keysOf(entry) {
		var e *Engine
		ticks, rets := 0, 0
		// the case of the select an index stands for
		selCase := func(st *State, t *Term) (string, bool) {
			if t.Op != "eq" {
				return "", false
			}
			x, i := t.Args[0], t.Args[1]
			n, ok := i.IntConst()
			if !ok {
				return "", false
			}
			if x.Op != "extract" && x.Op != "select" {
				return "", false
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Select); ok && int(n) < len(s.States) {
						return fieldNameOf(s.States[n].Chan), true
					}
				}
			}
			return "", false
		}
		e = c.Engine(func(st *State, ev *Event) {
			switch ev.Kind {
			case "recv":
				c.At(ev, "loop/tick", fnName(fn), st.Is("checked"), "an observable may not be checked at a tick although no check of it is going on")
			case "call":
				if ci, ok := ev.Instr.(ssa.CallInstruction); ok && isObserve(ci.Common()) {
					ticks++
					st.Gen("checked")
					st.Each(func(k byte, t *Term) bool {
						if k == 'F' && t.Op == "eq" && (lf(t.Args[0], "status") || lf(t.Args[1], "status")) {
							for _, a := range t.Args {
								if a.Op == "const" {
									busy = a
								}
							}
						}
						return false
					})
					c.At(ev, "loop/args", fnName(fn), len(ev.Args) >= 6 && lf(ev.Args[0], "observable"), "something else than the observable of the handler is checked")
				}
				if ev.Name == "sync.WaitGroup.Done" {
					c.At(ev, "loop/done-once", fnName(fn), !st.Is("done"), "the end of the goroutine is signalled twice")
					st.Gen("done")
				}
				if ev.Name == "time.Ticker.Stop" {
					st.Gen("ticker-stopped")
				}
			case "return":
				if ev.Frame.parent != nil {
					return
				}
				rets++
				c.At(ev, "loop/done", fnName(fn), st.Is("done"), "the goroutine of an observable may end without being accounted for: stopping waits forever")
				c.At(ev, "loop/end", fnName(fn), st.Is("stop"), "an observable is not checked anymore although nobody stopped it")
				c.At(ev, "loop/ticker", fnName(fn), st.Is("ticker-stopped"), "the ticker of a removed observable keeps ticking")
			}
		})
		e.onAssume = func(st *State, k byte, t *Term) {
			if k == 'T' {
				if ch, ok := selCase(st, t); ok {
					if ch == "stopChan" || strings.Contains(strings.ToLower(ch), "stop") || strings.Contains(strings.ToLower(ch), "quit") || strings.Contains(strings.ToLower(ch), "done") {
						st.Gen("stop")
					} else {
						st.Kill("checked")
					}
				}
				if t.Op == "eq" && (lf(t.Args[0], "status") || lf(t.Args[1], "status")) {
					st.Gen("checked") // a check of it is going on
				}
			}
		}
		c.AnalyzeWith(e, fn, "", func(st *State, args []*Term) { st.Gen("checked") })
		c.Need("loop/checks", ticks, 1, "checks of an observable")
		c.Need("loop/ends", rets, 1, "ends of the goroutine of an observable")
	}
	return busy
}

// fieldNameOf: the name of the struct field a channel is read from.
func fieldNameOf(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		return fieldNameOf(x.X)
	case *ssa.FieldAddr:
		f, _ := fieldOf(x)
		return f[strings.LastIndex(f, ".")+1:]
	case *ssa.Field:
		st, _ := structOf(x.X.Type())
		if st != nil {
			return st.Field(x.Field).Name()
		}
	case *ssa.Call:
		return x.Call.Value.Name()
	}
	return v.Name()
}

// observers: each check has exactly one outcome, and leaves the observable to
// be checked again.
func (c *Check) observers(busy *Term) {
	obs := c.P.Iface(crawlerPkg, "Observable")
	if obs == nil {
		return
	}
	n := 0
	for _, nt := range c.P.Impls(obs, crawlerPkg) {
		fn := c.P.Method(nt, "Observe")
		if fn == nil {
			continue
		}
		n++
		name := typeName(nt)
		sets := 0
		var e *Engine
		var recv *Term
		isChan := func(t *Term, what string) bool {
			if t == nil || t.Op != "param" {
				return false
			}
			ch, ok := t.Typ.Underlying().(*types.Chan)
			if !ok {
				return false
			}
			if what == "err" {
				return isErrorType(ch.Elem())
			}
			return typeName(ch.Elem()) == "crawler.Event"
		}
		explorerOK := func(st *State) bool {
			return st.HasMatch('N', func(t *Term) bool {
				if t.Op != "extract" || t.Aux != "1" {
					return false
				}
				x := t.Args[0].CallName()
				return strings.HasPrefix(x, "gobreaker.CircuitBreaker.Execute") || strings.HasPrefix(x, "explorer.Service.")
			})
		}
		explorerErr := func(t *Term) bool {
			return t.All(func(t *Term) bool {
				n := t.CallName()
				return t.Op == "extract" && t.Aux == "1" && (n == "gobreaker.CircuitBreaker.Execute" || strings.HasPrefix(n, "explorer.Service.")) || isErrorType(t.Typ) && n != ""
			})
		}
		e = c.Engine(func(st *State, ev *Event) {
			if ev.Async {
				return
			}
			switch ev.Kind {
			case "store":
				if strings.HasSuffix(ev.Name, "observableStatus.status") {
					sets++
					x, ok := ev.Val.StrConst()
					y := ""
					if busy != nil {
						y, _ = busy.StrConst()
					}
					if busy == nil || !ok || x == y {
						st.Kill("free")
					} else {
						st.Gen("free")
					}
				}
			case "send":
				k := ""
				switch {
				case isChan(ev.Base, "err"):
					k = "err"
					c.At(ev, "check/error", name, explorerErr(ev.Val) && (st.Has('X', ev.Val) || ev.Val.CallName() != "" && !st.feasible(ev.Val, 'N')), "something else than the error of a failed request is reported")
				case isChan(ev.Base, "event"):
					k = "event"
					c.At(ev, "check/event", name, explorerOK(st), "an event is sent although the explorer may have failed")
					c.observedEvent(e, st, ev, name, recv)
				}
				if k != "" {
					c.At(ev, "check/once", name, st.Is("quiet"), "a check may have more than one outcome")
					st.Kill("quiet")
					st.Gen("told")
				}
			case "return":
				if ev.Frame.parent != nil {
					return
				}
				c.At(ev, "check/outcome", name, st.Is("told") || st.Has('N', recv), "a check may end with neither an event nor an error")
				c.At(ev, "check/again", name, st.Is("free"), "the observable may be left in the state that keeps it from being checked ever again")
			}
		})
		e.onAssume = func(st *State, k byte, t *Term) {
			if k == 'T' && t.Op == "eq" && (isStrConst(t.Args[0], "confirmed") || isStrConst(t.Args[1], "confirmed")) {
				st.Gen("asked:confirmed")
			}
		}
		c.AnalyzeWith(e, fn, "", func(st *State, args []*Term) {
			recv = args[0]
			st.Gen("free")
			st.Gen("quiet")
		})
		if busy != nil {
			c.Need("check/status", sets, 2, "changes of the status of "+name)
		}
		// the key
		if kf := c.P.Method(nt, "Key"); kf != nil {
			ke := c.Engine(func(st *State, ev *Event) {
				if ev.Kind == "return" && ev.Frame.parent == nil && len(ev.Res) == 1 {
					k := ev.Res[0]
					c.At(ev, "key", name, k.Op == "field" && (lf(k, "Address") || lf(k, "TxID")) && k.Args[0].Op == "param", "the key of an observable is not its address or transaction id")
				}
			})
			c.Analyze(ke, kf)
		}
	}
	c.Need("check", n, 2, "kinds of observables")
}

// initialStatus: a new observable can be checked.
func (c *Check) initialStatus(busy *Term) {
	if busy == nil {
		return
	}
	n := 0
	for _, fn := range c.P.FuncsIn(crawlerPkg) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fieldNameOf(fa) != "status" {
					continue
				}
				if al, ok := fa.X.(*ssa.Alloc); !ok || typeName(al.Type()) != "crawler.observableStatus" {
					continue
				}
				n++
				x, isConst := s.Val.(*ssa.Const)
				y, _ := busy.StrConst()
				c.Ob("check/initial", fnName(fn), !isConst || x.Value == nil || x.Value.Kind() != constant.String || constant.StringVal(x.Value) != y, c.P.Pos(in.Pos()), "a new observable is in the state that keeps it from being checked")
			}
		}
	}
	c.Need("check/initial", n, 0, "new observables")
}

// observedEvent: the event speaks about the observable it comes from.
func (c *Check) observedEvent(e *Engine, st *State, ev *Event, name string, recv *Term) {
	v := ev.Val
	if v.Op == "iface" && len(v.Args) > 0 {
		v = v.Args[0]
	}
	s, ok := v.Typ.Underlying().(*types.Struct)
	if !ok {
		c.At(ev, "event/own", name, false, "the event cannot be followed")
		return
	}
	rs, _ := structOf(recv.Typ)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i).Name()
		t := e.structField(st, v, i, v.Typ)
		own := false
		if rs != nil {
			for j := 0; j < rs.NumFields(); j++ {
				own = own || rs.Field(j).Name() == f
			}
		}
		explorer := func(m string) bool {
			return e.From(t, func(x *Term) bool { return lastIs(x.CallName(), m) }) || e.From(t, func(x *Term) bool {
				return x.Op == "extract" && x.Aux == "0" && x.CallName() == "gobreaker.CircuitBreaker.Execute"
			})
		}
		switch {
		case own:
			is := func(x *Term) bool {
				return lf(x, f) && len(x.Args) == 1 && (x.Args[0] == recv || e.From(x.Args[0], func(y *Term) bool { return y == recv }))
			}
			c.At(ev, "event/own", name+"."+f, t.Any(is) || e.From(t, is) || f == "TxHex" && explorer("GetTransactionHex"), "the "+f+" of the event is not the one of the observable")
		case f == "Utxos":
			c.At(ev, "event/utxos", name, explorer("GetUnspents"), "the event does not carry the unspents found")
		case f == "EventType":
			c.observedType(e, st, ev, name, t)
		}
	}
}

// observedType: the type of the event tells what was observed.
func (c *Check) observedType(e *Engine, st *State, ev *Event, name string, t *Term) {
	konst := func(n string) int64 { return c.intConst(crawlerPkg, n) }
	isTx := strings.HasPrefix(name, "crawler.Transaction")
	want := []string{"FeeAccountDeposit", "MarketAccountDeposit"}
	if isTx {
		want = []string{"TransactionConfirmed", "TransactionUnConfirmed"}
	}
	for i, w := range want {
		var k *Term
		for _, a := range t.Alts {
			if n, ok := a.IntConst(); ok && n == konst(w) {
				k = a
			}
		}
		ok := false
		if k != nil {
			s := st.given(func(s *State) bool { return s.assume(e.eqT(t, k), 'T') })
			if s == nil {
				continue
			}
			cond := func(kind byte) bool {
				return s.HasMatch(kind, func(x *Term) bool {
					if isTx {
						// the explorer says so
						return isBool(x.Typ) && x.Op == "phi" && (kind == 'F' || s.Is("asked:confirmed")) || x.Contains(func(y *Term) bool { return isStrConst(y, "confirmed") })
					}
					if x.Op != "eq" {
						return false
					}
					for j, a := range x.Args {
						if n, ok := a.IntConst(); ok && n == c.intConst("internal/core/domain", "FeeAccount") && lf(x.Args[1-j], "AccountIndex") {
							return true
						}
					}
					return false
				})
			}
			if i == 0 {
				ok = cond('T')
			} else {
				ok = cond('F')
			}
		}
		c.At(ev, "event/type", name+"/"+w, ok, "the event has the type "+w+" in other cases than it tells")
	}
}

// crawlerService: registration, removal and stop.
func (c *Check) crawlerService() {
	it := c.P.Iface(crawlerPkg, "Service")
	if it == nil {
		c.Ob("anchor", "crawler.Service", false, "-", "the crawler's port is gone")
		return
	}
	for _, nt := range c.P.Impls(it, crawlerPkg) {
		for _, m := range []string{"AddObservable", "RemoveObservable", "Stop", "Start", "GetEventChannel"} {
			fn := c.P.Method(nt, m)
			if fn == nil {
				c.Ob("anchor", m, false, "-", "the method "+m+" of the crawler is gone")
				continue
			}
			c.crawlerMethod(m, fn)
		}
	}
	// closing: at most once, and nobody sends afterwards
	n := 0
	for _, fn := range c.P.FuncsIn(crawlerPkg) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ca, ok := in.(*ssa.Call); ok {
					if bi, ok := ca.Call.Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						f := fieldNameOf(ca.Call.Args[0])
						n++
						c.Ob("close/which", fnName(fn)+"/"+f, f == "errChan" || f == "stopChan", c.P.Pos(in.Pos()), "the channel "+f+" is closed although others send on it")
					}
				}
			}
		}
	}
	c.Need("close", n, 2, "channels closed")
}

func (c *Check) crawlerMethod(m string, fn *ssa.Function) {
	var e *Engine
	var self, par *Term
	isObs := func(t *Term) bool { return t != nil && lf(t, "observables") }
	key := func(t *Term) bool {
		return t.CallName() == "crawler.Observable.Key" && len(t.CallArgs()) == 1 && t.CallArgs()[0] == par
	}
	stopped := func(st *State, k byte) bool {
		return st.HasMatch(k, func(t *Term) bool { return lf(t, "stopped") && t.Args[0] == self })
	}
	known := func(st *State, k byte) bool {
		return st.HasMatch(k, func(t *Term) bool { return t.Op == "has" && isObs(t.Args[0]) && key(t.Args[1]) })
	}
	sites, gos := 0, 0
	e = c.Engine(func(st *State, ev *Event) {
		if ev.Async {
			return
		}
		lockHook(st, ev)
		switch ev.Kind {
		case "close":
			switch {
			case chanField(ev.Base, "stopChan"):
				sites++
				if !st.Is("gone") {
					st.Kill("kept") // until it is deleted
				}
				st.Gen("stopping")
				st.Gen("clean")
				st.Gen("did:stop")
				c.At(ev, "close/known", m, m == "Stop" && ev.Base.Contains(func(t *Term) bool { return t.Op == "next" || t.Op == "index" || t.Op == "lookup" }) ||
					known(st, 'T'), "a handler that may not be registered is stopped")
			case chanField(ev.Base, "errChan"):
				sites++
				c.At(ev, "stop/close", m, st.Is("waited") && st.Is("all:stop"), "the error channel is closed while observables may still send on it")
				c.At(ev, "stop/once", m, st.Is("first"), "the error channel may be closed twice")
				st.Gen("closed-err")
			}
		case "delete":
			if isObs(ev.Base) {
				st.Gen("off")
				st.Gen("kept")
				st.Gen("gone")
				if !st.Is("stopping") {
					st.Kill("clean") // until it is stopped
				}
				if m == "RemoveObservable" {
					c.At(ev, "remove/which", m, len(ev.Args) > 1 && key(ev.Args[1]), "another observable than the one given is removed")
				}
			}
		case "store":
			if strings.HasSuffix(ev.Name, ".stopped") {
				if b, ok := ev.Val.BoolConst(); ok && b {
					st.Gen("flag")
					if stopped(st, 'F') || st.Is("was-running") {
						st.Gen("first")
					}
				}
			}
		case "mapupdate":
			if isObs(ev.Base) {
				sites++
				c.At(ev, "add/key", m, key(ev.Args[1]), "an observable is registered under something else than its key")
				c.At(ev, "add/new", m, known(st, 'F'), "an observable that is already there is registered again: the goroutine of the first is never stopped")
				c.At(ev, "add/stopped", m, stopped(st, 'F'), "an observable is added to a stopped crawler")
				v := ev.Val
				if o := c.handlerField(e, st, v, "observable"); o != nil {
					c.At(ev, "add/handler", m+"/observable", o == par, "the handler does not observe the observable given")
				} else {
					c.At(ev, "add/handler", m+"/observable", false, "the handler does not observe the observable given")
				}
				for _, f := range []string{"wg", "eventChan", "errChan", "explorerSvc", "rateLimiter"} {
					if x := c.handlerField(e, st, v, f); x != nil {
						c.At(ev, "add/handler", m+"/"+f, lf(x, f) && x.Args[0] == self, "the handler does not get the "+f+" of the crawler")
					} else {
						c.At(ev, "add/handler", m+"/"+f, false, "the handler has no "+f)
					}
				}
				st.Gen("registered")
				if st.Is("started") {
					st.Gen("off")
				}
			}
		case "go":
			if m == "AddObservable" {
				gos++
				if st.Is("registered") {
					st.Gen("off")
				}
				c.At(ev, "add/account", m, st.Is("accounted"), "the goroutine starts before it is accounted for: stopping may not wait for it")
				st.Gen("started")
			}
		case "call":
			if ev.Name == "sync.WaitGroup.Add" {
				n, ok := ev.Args[1].IntConst()
				c.At(ev, "add/one", m, ok && n == 1 && !st.Is("accounted"), "the goroutines are not counted one by one")
				st.Gen("accounted")
			}
			if ev.Name == "sync.WaitGroup.Wait" {
				c.At(ev, "stop/wait", m, st.Is("all:stop"), "stopping waits for observables that were not told to stop")
				st.Gen("waited")
			}
			if _, op := mutexOp(ev); op == "Unlock" && m != "AddObservable" {
				c.At(ev, "remove/stop", m, st.Is("clean"), "an observable is removed without stopping its goroutine")
				c.At(ev, "remove/deleted", m, st.Is("kept"), "a handler that was stopped stays registered: it is stopped again later, which panics")
			}
		case "send":
			if chanField(ev.Base, "eventChan") && m == "Stop" {
				sites++
				c.At(ev, "stop/event", m, st.Is("waited"), "the end of the events is announced before the last one is sent")
				st.Gen("announced")
			}
		case "return":
			if ev.Frame.parent != nil {
				return
			}
			switch m {
			case "AddObservable":
				c.At(ev, "add/done", m, st.Is("off"), "an observable may be neither registered nor observed")
			case "RemoveObservable":
				c.At(ev, "remove/done", m, st.Is("off"), "an observable may still be observed after its removal")
			case "Stop":
				c.At(ev, "stop/done", m, st.Is("off") || st.Is("flag") && st.Is("announced") && st.Is("closed-err"), "the crawler may not be stopped, or its consumers not told so")
			case "Start":
				c.At(ev, "errors/end", m, st.HasMatch('F', func(t *Term) bool {
					return t.Op == "extract" && t.Aux == "1" && t.Args[0].Op == "recv" && chanField(t.Args[0].Args[0], "errChan")
				}), "errors are not handled anymore although the crawler runs")
			case "GetEventChannel":
				sites++
				c.At(ev, "events/channel", m, len(ev.Res) == 1 && chanField(ev.Res[0], "eventChan"), "another channel than the one of the events is handed out")
			}
		}
		if m == "Start" && (ev.Kind == "go" || ev.Kind == "call") && strings.HasSuffix(ev.Name, "errorHandler") {
			st.Gen("handled")
		}
		if m == "Start" && ev.Kind == "recv" {
			sites++
			c.At(ev, "errors/each", m, st.Is("handled"), "an error may not reach the error handler")
		}
	})
	e.onAssume = func(st *State, k byte, t *Term) {
		eachLoop("stop", isObs)(st, k, t)
		if x := loopOver(t); x != nil && isObs(x) {
			st.Kill("gone")
			st.Kill("stopping")
		}
		if k == 'T' && lf(t, "stopped") && t.Args[0] == self {
			st.Gen("off")
		}
		if t.Op == "has" && isObs(t.Args[0]) && key(t.Args[1]) {
			if k == 'T' {
				st.Gen("there")
				if m == "AddObservable" {
					st.Gen("off")
				}
			} else if m == "RemoveObservable" {
				st.Gen("off")
			}
		}
		if k == 'F' && lf(t, "stopped") {
			st.Gen("was-running")
		}
		if m == "Start" && k == 'T' && t.Op == "extract" && t.Aux == "1" && t.Args[0].Op == "recv" {
			st.Kill("handled")
		}
	}
	c.AnalyzeWith(e, fn, m, func(st *State, args []*Term) {
		self = args[0]
		if len(args) > 1 {
			par = args[1]
		}
		st.Gen("kept")
		st.Gen("clean")
		st.Gen("handled")
		st.Gen("did:stop")
	})
	switch m {
	case "AddObservable":
		c.Need("add", sites, 1, "registrations")
		c.Need("add/go", gos, 1, "goroutines of observables")
	case "RemoveObservable":
		c.Need("remove", sites, 1, "removals")
	case "Stop":
		c.Need("stop", sites, 3, "steps of the stop")
	default:
		c.Need(m, sites, 1, "sites in "+m)
	}
}

// handlerField: the field of a freshly made handler.
func (c *Check) handlerField(e *Engine, st *State, v *Term, f string) *Term {
	et := elemType(v.Typ)
	if et == nil {
		return nil
	}
	s, ok := et.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	w := e.load(st, v, et)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return e.structField(st, w, i, et)
		}
	}
	return nil
}

func isStrConst(t *Term, s string) bool {
	x, ok := t.StrConst()
	return ok && x == s
}

// lf: the field of that name, of whatever struct.
func lf(t *Term, name string) bool {
	return t != nil && t.Op == "field" && lastPart(t.Aux) == name
}

// intConst: the value of an integer constant of a package.
func (c *Check) intConst(pkg, name string) int64 {
	p := c.P.Pkg(pkg)
	if p != nil {
		if k, ok := p.Types.Scope().Lookup(name).(*types.Const); ok {
			if v, ok := constant.Int64Val(constant.ToInt(k.Val())); ok {
				return v
			}
		}
	}
	c.Ob("anchor", "const:"+name, false, "-", "the constant "+name+" is gone")
	return -1
}

// listenerObservation: what is to be observed reaches the crawler, whether it
// runs already or not.
func (c *Check) listenerObservation() {
	nt := c.service("BlockchainListener", app)
	if nt == nil {
		return
	}
	isPending := func(t *Term) bool { return lf(t, "pendingObservables") }
	started := func(st *State, k byte) bool {
		return st.HasMatch(k, func(t *Term) bool { return lf(t, "started") })
	}
	n := 0
	for _, m := range []string{"StartObserveAddress", "StartObserveTx", "StopObserveAddress", "StopObserveTx"} {
		fn := c.P.Method(nt, m)
		if fn == nil {
			c.Ob("anchor", m, false, "-", "the method "+m+" of the listener is gone")
			continue
		}
		var e *Engine
		var args []*Term
		same := func(st *State, o *Term) bool {
			et := elemType(o.Typ)
			if et == nil || o.Op != "alloc" {
				return false
			}
			s, ok := et.Underlying().(*types.Struct)
			if !ok {
				return false
			}
			if strings.HasSuffix(m, "Tx") != (typeName(et) == "crawler.TransactionObservable") {
				return false
			}
			w := e.load(st, o, et)
			for i := 0; i < s.NumFields(); i++ {
				x := e.structField(st, w, i, et)
				switch s.Field(i).Name() {
				case "AccountIndex", "BlindingKey":
					if strings.HasPrefix(m, "Start") && (x.Op != "param" || !types.Identical(x.Typ, s.Field(i).Type())) {
						return false
					}
				case "Address", "TxID":
					if x.Op != "param" || !types.Identical(x.Typ, s.Field(i).Type()) {
						return false
					}
				}
			}
			return true
		}
		e = c.Engine(func(st *State, ev *Event) {
			switch ev.Kind {
			case "call":
				if lastIs(ev.Name, "crawler.Service.AddObservable") {
					n++
					c.At(ev, "listener/same", m, same(st, ev.Args[1]), "something else than requested is observed")
					c.At(ev, "listener/now", m, started(st, 'T'), "an observable is handed to a crawler that may not run")
					st.Gen("done")
				}
				if lastIs(ev.Name, "crawler.Service.RemoveObservable") {
					n++
					c.At(ev, "listener/same", m, same(st, ev.Args[1]), "something else than requested is not observed anymore")
					st.Gen("done")
				}
			case "append":
				if len(ev.Args) > 1 && isPending(ev.Args[0]) {
					ok := false
					for _, x := range e.Elems(st, ev.Args[1]) {
						ok = ok || same(st, x)
					}
					n++
					c.At(ev, "listener/same", m, ok, "something else than requested is going to be observed")
					c.At(ev, "listener/later", m, started(st, 'F'), "an observable is put aside although the crawler runs")
					st.Gen("appended")
				}
			case "store":
				if lastPart(ev.Name) == "pendingObservables" && st.Is("appended") {
					st.Gen("done")
				}
			case "return":
				if ev.Frame.parent == nil {
					c.At(ev, "listener/done", m, st.Is("done"), "the request to observe, or not to anymore, may get lost")
				}
			}
		})
		c.AnalyzeWith(e, fn, m, func(st *State, a []*Term) { args = a })
		_ = args
	}
	c.Need("listener", n, 6, "requests to the crawler")

	// the start
	fn := c.P.Method(nt, "StartObservation")
	if fn == nil {
		c.Ob("anchor", "StartObservation", false, "-", "the start of the listener is gone")
		return
	}
	var e *Engine
	n = 0
	listens := c.eventLoops()
	e = c.Engine(func(st *State, ev *Event) {
		if ev.Frame.parent != nil && ev.Async {
			if ev.Kind == "call" && lastIs(ev.Name, "crawler.Service.AddObservable") {
				n++
				x := ev.Args[1]
				c.At(ev, "start/pending", "each", x != nil && x.Op == "index" && isPending(x.Args[0]) || x.Op == "next" || x.Op == "extract", "something else than the observables put aside is observed at the start")
				st.Gen("did:pending")
			}
			if ev.Kind == "return" && st.Is("in:pending") {
				c.At(ev, "start/pending", "all", st.Is("all:pending"), "observables put aside before the start may never be observed")
			}
			return
		}
		switch ev.Kind {
		case "go":
			if strings.HasSuffix(ev.Name, "crawler.Service.Start") {
				st.Gen("crawler")
			}
		case "call":
			if ev.Fn != nil && listens[ev.Fn] && ev.Async {
				st.Gen("!listening")
			}
			if ev.Async {
				for _, a := range ev.Args {
					if isPending(a) {
						st.Gen("!pending")
					}
				}
			}
			if lastIs(ev.Name, "crawler.Service.AddObservable") && !ev.Async {
				n++
				st.Gen("did:pending")
			}
		case "return":
			if ev.Frame.parent == nil {
				c.At(ev, "start/crawler", "crawler", st.Is("crawler"), "the crawler may not be started")
				c.At(ev, "start/listen", "listener", st.Is("go!listening"), "nobody may receive the events of the crawler")
				c.At(ev, "start/pending", "handed", st.Is("go!pending"), "observables put aside before the start may never be observed")
			}
		}
	})
	e.inline = func(f *ssa.Function) bool { return !listens[f] }
	e.onAssume = func(st *State, k byte, t *Term) {
		eachLoop("pending", isPending)(st, k, t)
		if st.Is("all:pending") {
			st.Gen("go!pending")
			st.Gen("!pending")
		}
		if k == 'T' && lf(t, "started") {
			st.Gen("crawler")
			st.Gen("go!listening")
			st.Gen("go!pending")
		}
		if k == 'F' && t.Op == "lt" && t.Args[1].Op == "len" && isPending(t.Args[1].Args[0]) {
			st.Gen("in:pending")
		}
	}
	c.AnalyzeWith(e, fn, "start", func(st *State, a []*Term) { st.Gen("did:pending") })
	c.Need("start", n, 1, "observables put aside handed to the crawler")
}

// eventLoops: the functions receiving the events of the crawler.
func (c *Check) eventLoops() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range c.P.FuncsIn(app) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && ci.Common().Method.Name() == "GetEventChannel" {
					out[f] = true
				}
			}
		}
	}
	return out
}

// listenerLoop: events are received until the crawler says it stopped.
func (c *Check) listenerLoop() {
	loops := c.eventLoops()
	c.Need("receive", len(loops), 1, "functions receiving the events of the crawler")
	closing := c.intConst(crawlerPkg, "CloseSignal")
	for _, fn := range keysOf(loops) {
		n := 0
		var e *Engine
		e = c.Engine(func(st *State, ev *Event) {
			if ev.Kind == "return" && ev.Frame.parent == nil {
				n++
				c.At(ev, "receive/end", fnName(fn), st.HasMatch('T', func(t *Term) bool {
					if t.Op != "eq" {
						return false
					}
					for i, a := range t.Args {
						if k, ok := a.IntConst(); ok && k == closing && t.Args[1-i].CallName() == "crawler.Event.Type" {
							return true
						}
					}
					return false
				}), "events are not received anymore although the crawler runs: it blocks as soon as the queue is full")
			}
		})
		e.inline = func(f *ssa.Function) bool { return f.Parent() != nil }
		c.Analyze(e, fn)
		c.Need("receive/end", n, 1, "ends of the reception of events")
	}
}
