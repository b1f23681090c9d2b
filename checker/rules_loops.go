package main

import (
	"go/token"
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// everyElement: the loops of the given functions that gather something from
// the elements of a list go through all of them: they start with the first,
// end with the last, use the one whose turn it is, and are left before only
// with an error.
func (c *Check) everyElement(rule string, what string, fns []*ssa.Function) {
	n := 0
	for _, f := range fns {
		for i, l := range loopsOf(f) {
			if l.list == nil {
				continue
			}
			n++
			msg := l.skips()
			c.Ob(rule, fnName(f)+"/loop"+itoa(i+1), msg == "", c.P.Pos(l.pos()), what+" "+msg)
		}
	}
	c.Note("Loops that gather something from the elements of a list and go through all of them (%s): %d.", rule, n)
}

type loop struct {
	head    *ssa.BasicBlock
	body    map[*ssa.BasicBlock]bool
	list    ssa.Value // gone through
	counter *ssa.Phi
	start   int64 // of the counter, where known
	known   bool
	short   int64 // how many of the last elements are left out
}

func (l *loop) pos() token.Pos {
	for _, in := range l.head.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for b := range l.body {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

func loopsOf(f *ssa.Function) []*loop {
	var res []*loop
	byHead := map[*ssa.BasicBlock]*loop{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := byHead[s]
			if l == nil {
				l = &loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
				byHead[s] = l
				res = append(res, l)
			}
			var up func(x *ssa.BasicBlock)
			up = func(x *ssa.BasicBlock) {
				if !l.body[x] {
					l.body[x] = true
					for _, p := range x.Preds {
						up(p)
					}
				}
			}
			up(b)
		}
	}
	for _, l := range res {
		l.bounds()
	}
	return res
}

// bounds finds out what the loop goes through.
func (l *loop) bounds() {
	i, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	switch x := i.Cond.(type) {
	case *ssa.BinOp:
		at, end := x.X, x.Y
		switch x.Op {
		case token.LSS, token.NEQ:
		case token.GTR:
			at, end = end, at
		default:
			return
		}
		if b, ok := end.(*ssa.BinOp); ok && b.Op == token.SUB {
			if k, ok := b.Y.(*ssa.Const); ok && k.Value != nil {
				l.short, end = k.Int64(), b.X
			}
		}
		list := lenOf(end)
		if list == nil {
			return
		}
		first := int64(0)
		if b, ok := at.(*ssa.BinOp); ok && b.Op == token.ADD {
			if k, ok := b.Y.(*ssa.Const); ok && k.Value != nil {
				at, first = b.X, k.Int64()
			}
		}
		ph, ok := at.(*ssa.Phi)
		if !ok || ph.Block() != l.head {
			return
		}
		l.list, l.counter = list, ph
		for j, e := range ph.Edges {
			if l.body[l.head.Preds[j]] {
				continue
			}
			if k, ok := e.(*ssa.Const); ok && k.Value != nil {
				l.start, l.known = k.Int64()+first, true
			}
		}
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok {
			if r, ok := nx.Iter.(*ssa.Range); ok {
				l.list = r.X
			}
		}
	}
}

// gathers: something of each element is kept, or something done for it.
func (l *loop) gathers() bool {
	for b := range l.body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				return true
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() == "append" {
						return true
					}
					continue
				}
				// done for each
				if r := x.Call.Signature().Results(); r.Len() == 0 || r.Len() == 1 && isErrorType(r.At(0).Type()) {
					return true
				}
			case *ssa.Go:
				return true
			case *ssa.Store:
				if a, ok := x.Addr.(*ssa.IndexAddr); ok && !isVarargs(a) {
					return true
				}
			}
		}
	}
	for _, in := range l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if ph == l.counter {
			continue
		}
		if b, ok := ph.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
			return true
		}
	}
	return false
}

// sameValue: the two are the same by what they are made of.
func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameValue(x.X, y.X)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameValue(x.X, y.X)
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && sameValue(x.X, y.X)
	case *ssa.Convert:
		y, ok := b.(*ssa.Convert)
		return ok && sameValue(x.X, y.X)
	case *ssa.Call:
		y, ok := b.(*ssa.Call)
		if !ok || x.Call.IsInvoke() || y.Call.IsInvoke() || x.Call.StaticCallee() == nil || x.Call.StaticCallee() != y.Call.StaticCallee() || len(x.Call.Args) != len(y.Call.Args) {
			return false
		}
		for i := range x.Call.Args {
			if !sameValue(x.Call.Args[i], y.Call.Args[i]) {
				return false
			}
		}
		return strings.HasPrefix(x.Call.StaticCallee().Name(), "Get")
	}
	return false
}

func isVarargs(a *ssa.IndexAddr) bool {
	al, ok := a.X.(*ssa.Alloc)
	return ok && al.Comment == "varargs"
}

// elements accessed by position.
func (l *loop) fixed(inside bool, upTo int64, list ssa.Value) bool {
	for _, b := range l.head.Parent().Blocks {
		if l.body[b] != inside {
			continue
		}
		for _, in := range b.Instrs {
			var x, i ssa.Value
			switch y := in.(type) {
			case *ssa.IndexAddr:
				x, i = y.X, y.Index
			case *ssa.Index:
				x, i = y.X, y.Index
			default:
				continue
			}
			if k, ok := i.(*ssa.Const); ok && k.Value != nil && (upTo < 0 || k.Int64() < upTo) && sameValue(x, list) {
				return true
			}
		}
	}
	return false
}

// used: the element whose turn it is matters.
func (l *loop) used() bool {
	for b := range l.body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.IndexAddr:
				if _, k := x.Index.(*ssa.Const); k || !sameValue(x.X, l.list) {
					continue
				}
				if isRead(x) {
					return true
				}
			case *ssa.Index:
				if _, k := x.Index.(*ssa.Const); !k && sameValue(x.X, l.list) && !unused(x) {
					return true
				}
			}
		}
	}
	return false
}

// isRead: what is at the address matters.
func isRead(at ssa.Value) bool {
	for _, r := range *at.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if x.Addr != at {
				return true
			}
		case *ssa.FieldAddr:
			if isRead(x) {
				return true
			}
		case *ssa.UnOp:
			if x.Op != token.MUL || !unused(x) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

func unused(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			// the variable of the loop, set again before it is read
			al, ok := x.Addr.(*ssa.Alloc)
			if !ok || x.Val != v {
				return false
			}
			again := false
			after := false
			for _, in := range x.Block().Instrs {
				if in == ssa.Instruction(x) {
					after = true
					continue
				}
				if !after {
					continue
				}
				if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
					again = true
					break
				}
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if *o == ssa.Value(al) {
						return false
					}
				}
			}
			if !again {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// skips tells which elements are left out, if any.
func (l *loop) skips() string {
	if l.list == nil {
		return ""
	}
	if s, ok := l.list.(*ssa.Slice); ok && !isArrayPtr(s.X.Type()) {
		if lo, ok := s.Low.(*ssa.Const); s.Low != nil && !(ok && lo.Int64() == 0) {
			if !(ok && l.fixed(false, lo.Int64(), s.X)) && !moves(s.Low) {
				return "leaves out the first elements of the list"
			}
		}
		if s.High != nil && !moves(s.High) {
			if x := lenOf(s.High); x == nil || !sameValue(x, s.X) {
				return "leaves out the last elements of the list"
			}
		}
	}
	if l.counter != nil {
		if l.known && l.start > 0 && !l.fixed(false, l.start, l.list) {
			return "starts after the first element of the list"
		}
		if l.short > 0 && !l.neighbours() {
			return "ends before the last element of the list"
		}
		if !l.used() && l.fixed(true, -1, l.list) {
			return "takes the same element each time"
		}
	}
	if !l.gathers() {
		return ""
	}
	for b := range l.body {
		if b == l.head {
			continue
		}
		for _, s := range b.Succs {
			if !l.body[s] && !l.failing(s, b) {
				return "is left before the last element of the list"
			}
		}
	}
	return ""
}

func isArrayPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Array)
	return ok
}

// moves: the value differs from one iteration of some loop to the next.
func moves(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Phi:
		return true
	case *ssa.BinOp:
		return moves(x.X) || moves(x.Y)
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if moves(a) {
				return true
			}
		}
	}
	return false
}

// neighbours: the element after the current one is read too.
func (l *loop) neighbours() bool {
	for b := range l.body {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.IndexAddr); ok && sameValue(a.X, l.list) {
				if x, ok := a.Index.(*ssa.BinOp); ok && x.Op == token.ADD && x.X == ssa.Value(l.counter) {
					return true
				}
			}
		}
	}
	return false
}

// failing: nothing but a failure is returned from here, and what follows the
// loop is not reached.
func (l *loop) failing(b, from *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b, from *ssa.BasicBlock) bool
	walk = func(b, from *ssa.BasicBlock) bool {
		for _, s := range l.head.Succs {
			if s == b && !l.body[s] {
				return false
			}
		}
		if seen[b] {
			return true
		}
		switch x := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			if len(x.Results) == 0 {
				return true
			}
			r := x.Results[len(x.Results)-1]
			if ph, ok := r.(*ssa.Phi); ok && ph.Block() == b {
				for i, p := range b.Preds {
					if p == from {
						r = ph.Edges[i]
					}
				}
			}
			if k, ok := r.(*ssa.Const); ok {
				return k.Value != nil && len(x.Results) == 1
			}
			return isErrorType(r.Type())
		case *ssa.Panic:
			return true
		}
		seen[b] = true
		for _, s := range b.Succs {
			if !walk(s, b) {
				return false
			}
		}
		return true
	}
	return walk(b, from)
}

// callees: the functions of the repository that the given ones lead to,
// within the given packages; a method called through an interface is any of
// that name.
func (c *Check) callees(roots []*ssa.Function, pkgs ...string) []*ssa.Function {
	in := map[*ssa.Function]bool{}
	all := c.P.FuncsIn(pkgs...)
	for _, f := range all {
		in[f] = true
	}
	var res []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || !in[f] {
			return
		}
		seen[f] = true
		res = append(res, f)
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						walk(g)
					}
				}
				if ci, ok := i.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					for _, g := range all {
						if g.Name() == ci.Common().Method.Name() && g.Signature.Recv() != nil {
							walk(g)
						}
					}
				}
			}
		}
	}
	for _, f := range roots {
		walk(f)
	}
	return res
}

// loopsFrom: as everyElement, for all that the named methods of a service of
// the daemon lead to.
func (c *Check) loopsFrom(rule, what string, iface string, methods ...string) {
	nt := c.service(iface, app)
	if nt == nil {
		return
	}
	var roots []*ssa.Function
	for _, m := range c.P.exportedMethods(nt) {
		if len(methods) == 0 || slices.Contains(methods, m.Name()) {
			roots = append(roots, m)
		}
	}
	fns := c.callees(roots, app, dom)
	c.everyElement(rule, what, fns)
	c.failuresTold(strings.Replace(rule, "every/", "told/", 1), fns)
}

// also: what is checked for a property beside its own rule.
var also = map[string][]func(*Check){}

// loopsIn: as everyElement, for all the functions of some packages.
func (c *Check) loopsIn(what string, pkgs ...string) {
	fns := c.P.FuncsIn(pkgs...)
	c.everyElement("every/element", what, fns)
	c.failuresTold("told/failure", fns)
}

func init() {
	for id, f := range map[string]func(c *Check){
		"C03": func(c *Check) { c.loopsIn("the loop", "pkg/macaroons") },
		"C04": func(c *Check) { c.loopsIn("the loop", "pkg/securestore") },
		"C08": func(c *Check) {
			c.loopsFrom("every/element", "the loop", "TradeService")
			c.loopsFrom("every/tx", "the loop", "BlockchainListener")
		},
		"C09": func(c *Check) { c.loopsIn("the loop", dom) },
		"C10": func(c *Check) {
			c.loopsFrom("every/element", "the loop", "TradeService", "GetMarketPrice", "GetTradableMarkets", "GetMarketBalance", "TradePropose")
		},
		"C12": func(c *Check) {
			c.loopsIn("the loop", dom)
			c.loopsFrom("every/restored", "the loop", "WalletService", "InitWallet", "GenerateAddressAndBlindingKey", "WalletBalance")
		},
		"C13": func(c *Check) {
			for _, s := range []string{"OperatorService", "WalletService"} {
				nt := c.service(s, app)
				if nt == nil {
					continue
				}
				var names []string
				for _, m := range c.P.exportedMethods(nt) {
					if n := m.Name(); strings.HasPrefix(n, "List") || strings.HasPrefix(n, "Get") || strings.HasSuffix(n, "Balance") {
						names = append(names, n)
					}
				}
				c.loopsFrom("every/"+s, "the loop", s, names...)
			}
			c.loopsFrom("every/tradeService", "the loop", "TradeService", "GetTradableMarkets", "GetMarketBalance")
		},
		"C14": func(c *Check) { c.loopsIn("the loop", "internal/infrastructure/storage/db/uow") },
		"C16": func(c *Check) {
			c.loopsIn("the loop", "internal/infrastructure/storage/db/badger", "internal/infrastructure/storage/db/inmemory")
		},
		"C18": func(c *Check) { c.loopsIn("the loop", "internal/interfaces/grpc") },
		"C19": func(c *Check) {
			c.loopsIn("the loop", "pkg/crawler")
			c.loopsFrom("every/observed", "the loop", "BlockchainListener")
		},
		"C20": func(c *Check) { c.loopsIn("the loop", hooksPkg) },
		"C22": func(c *Check) { c.loopsIn("the loop", walletPkg, "pkg/transactionutil", "pkg/explorer") },
		"C23": func(c *Check) {
			c.loopsFrom("every/wallet", "the loop", "WalletService", "SendToMany")
			c.loopsFrom("every/withdraw", "the loop", "OperatorService", "WithdrawMarketFunds")
			c.loopsFrom("every/propose", "the loop", "TradeService", "TradePropose")
		},
		"C24": func(c *Check) { c.loopsIn("the loop", "pkg/explorer") },
		"C25": func(c *Check) {
			c.loopsFrom("every/claimed", "the loop", "OperatorService", "ClaimMarketDeposit", "ClaimFeeDeposit", "DepositMarket", "DepositFeeAccount")
		},
		"C28": func(c *Check) { c.loopsIn("the loop", "pkg/swap") },
		"C30": func(c *Check) { c.loopsIn("the loop", "pkg/trade") },
	} {
		also[id] = append(also[id], f)
	}
}
