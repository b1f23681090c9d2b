package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// teller says where values come from, as expressions over arguments and
// results of calls.
type teller struct {
	*exTracer
	fn *ssa.Function
	// names of parameters: receiver first
	params []string
	say    func(st *State, t *Term, name string, args []string) (string, bool)
	on     func(st *State, ev *Event)
	// what is in maps
	entries map[string]map[ssa.Instruction][2]*Term
	totals  map[string]bool // maps sums are put into
}

var tellSame = map[string]bool{
	"uuid.UUID.String": true, "decimal.Decimal.String": true,
}

func bare(s string) string {
	var out []string
	for _, x := range strings.Split(s, "|") {
		if x != "nil" {
			out = append(out, x)
		}
	}
	if len(out) == 0 {
		return s
	}
	return strings.Join(out, "|")
}

func (c *Check) teller(name string, fn *ssa.Function, inline func(*ssa.Function) bool, sufs []string) *teller {
	e := NewEngine(c.P)
	a := &teller{fn: fn, totals: map[string]bool{}, entries: map[string]map[ssa.Instruction][2]*Term{}, exTracer: &exTracer{
		api:     &api{c: c, e: e, name: name, rows: map[string]map[ssa.Instruction]map[string][]string{}, sufs: map[string]bool{"": true}, in: map[*Term][]apiElem{}},
		sent:    map[string]bool{},
		decoded: map[*Term]string{},
		want:    map[string]bool{},
		busy:    map[*Term]int{},
		pos:     map[string]*Term{},
		outs:    map[*Term]map[string]*Term{},
	}}
	for _, s := range sufs {
		a.sufs[s] = true
		a.sufs["[]."+s] = true
	}
	a.sufs["[]"] = true
	e.inline = inline
	a.root = a.words
	e.hook = func(st *State, ev *Event) {
		a.settle(st)
		a.fill(st, ev)
		if a.on != nil {
			a.on(st, ev)
		}
	}
	e.onAssume = func(st *State, k byte, t *Term) {
		a.settle(st)
		a.loops(st, k, t)
	}
	return a
}

func (a *teller) join(st *State, t *Term) string { return strings.Join(a.part(st, t, ""), "|") }

func (a *teller) words(st *State, t *Term) (string, bool) {
	if n, ok := t.IntConst(); ok {
		return itoa(int(n)), true
	}
	if s, ok := t.StrConst(); ok && s != "" {
		return "'" + s + "'", true
	}
	switch t.Op {
	case "param":
		if i := paramIdx(t); i >= 0 && i < len(a.params) {
			return a.params[i], true
		}
		return "a" + itoa(paramIdx(t)), true
	case "cbparam":
		return "given", true
	case "recv", "select":
		return "received", true
	case "gload", "global":
		return lastPart(t.Aux), true
	case "iface", "load", "deref", "conv":
		if len(t.Args) == 1 && !narrows(t) {
			return a.join(st, t.Args[0]), true
		}
	case "lt", "le", "eq", "bin":
		l, r := a.join(st, t.Args[0]), a.join(st, t.Args[1])
		op := map[string]string{"lt": "<", "le": "<=", "eq": "=="}[t.Op]
		if t.Op == "bin" {
			op = t.Aux
		}
		return l + op + r, true
	case "not":
		return "not(" + a.join(st, t.Args[0]) + ")", true
	case "index":
		b := bare(a.join(st, t.Args[0]))
		if n, ok := t.Args[1].IntConst(); ok {
			return b + "[" + itoa(int(n)) + "]", true
		}
		if !eachOf(t) {
			return b + "[?]", true
		}
		return b + "[]", true
	case "field", "faddr":
		b := bare(a.join(st, t.Args[0]))
		return b + "." + lastPart(t.Aux), true
	case "slice":
		if partial(t) {
			return a.join(st, t.Args[0]) + "?part", true
		}
		if els := a.e.Elems(st, t); len(els) > 0 {
			var ss []string
			for _, x := range els {
				ss = append(ss, a.join(st, x))
			}
			return "[" + strings.Join(ss, ",") + "]", true
		}
		return a.join(st, t.Args[0]), true
	case "alloc", "make":
		if m := a.rows[contKey(t)]; m != nil && isMap(t.Typ) {
			var ss []string
			for _, r := range m {
				ss = append(ss, strings.Join(r["key"], "|")+":"+strings.Join(r[""], "|"))
			}
			sort.Strings(ss)
			return "{" + strings.Join(ss, ",") + "}", true
		}
		if t.Op == "make" {
			return "made", true
		}
	case "append":
		var ss []string
		for _, x := range t.Args {
			ss = append(ss, a.join(st, x))
		}
		return strings.Join(ss, "+"), true
	case "lookup":
		return bare(a.join(st, t.Args[0])) + "[" + a.join(st, t.Args[1]) + "]", true
	case "has":
		return "has(" + a.join(st, t.Args[0]) + ";" + a.join(st, t.Args[1]) + ")", true
	case "extract":
		x := t.Args[0]
		if x.Op == "recv" || x.Op == "select" {
			return "received", true
		}
		if x.Op != "call" {
			break
		}
		s := a.callWords(st, x)
		if t.Aux != "0" {
			s += "#" + t.Aux
		}
		return s, true
	case "call":
		return a.callWords(st, t), true
	}
	return "", false
}

func (a *teller) callWords(st *State, t *Term) string {
	n, as := t.CallName(), t.CallArgs()
	if len(as) == 1 && (isNumConv[n] || tellSame[n]) {
		return a.join(st, as[0])
	}
	var ss []string
	for i, x := range as {
		s := a.join(st, x)
		if s == "ctx" || i == 0 && (s == "s" || strings.HasPrefix(s, "s.")) || strings.HasSuffix(s, "Background()") {
			continue
		}
		ss = append(ss, s)
	}
	if a.say != nil {
		if s, ok := a.say(st, t, n, ss); ok {
			return s
		}
	}
	l := lastPart(n)
	if strings.HasPrefix(n, "decimal.Decimal.Get") || len(ss) == 1 && len(as) == 1 && strings.HasPrefix(l, "Get") {
		return bare(ss[0]) + "." + l[3:]
	}
	return l + "(" + strings.Join(ss, ";") + ")"
}

func (a *teller) names() []string { return append([]string{"chan", "inner"}, a.lists...) }

// start: no loop has been entered.
func (a *teller) start(st *State) {
	a.exTracer.start(st)
	for _, l := range a.lists {
		st.Gen("none:" + l)
	}
}

func (a *teller) settle(st *State) {
	for _, n := range a.names() {
		if st.Is("go!did:" + n) {
			st.Gen("did:" + n)
		}
	}
}

func (a *teller) done(st *State, async bool, n string) {
	st.Gen("did:" + n)
	st.Gen("!did:" + n)
	_ = async
}

// handled: what the values belong to has been dealt with.
func (a *teller) handled(st *State, ev *Event, vs ...*Term) {
	for _, v := range vs {
		if v == nil {
			continue
		}
		if v.Contains(fromChan) {
			a.done(st, ev.Async, "chan")
		}
		if v.Contains(isItem) {
			a.done(st, ev.Async, "inner")
		}
	}
}

func (a *teller) put(st *State, ev *Event, cont string, v *Term) map[string][]string {
	row := map[string][]string{}
	for s := range a.sufs {
		row[s] = a.part(st, v, s)
	}
	if a.rows[cont] == nil {
		a.rows[cont] = map[ssa.Instruction]map[string][]string{}
	}
	a.rows[cont][ev.Instr] = row
	for s := range row {
		for _, p := range row[s] {
			a.mention(st, ev, p)
		}
	}
	a.handled(st, ev, v)
	return row
}

func (a *teller) mention(st *State, ev *Event, p string) {
	for _, l := range a.lists {
		if strings.Contains(p, l+"[]") || strings.Contains(p, l+"[key]") {
			a.done(st, ev.Async, l)
		}
	}
}

func (a *teller) fill(st *State, ev *Event) {
	switch ev.Kind {
	case "send":
		a.put(st, ev, contKey(ev.Base), ev.Val)
	case "append":
		key := "append@" + a.e.site(ev.Frame, ev.Instr)
		for i, x := range ev.Args {
			if i == 0 {
				continue
			}
			els := a.e.Elems(st, x)
			for _, v := range els {
				a.put(st, ev, key, v)
			}
			if len(els) == 0 {
				a.put(st, ev, key+"...", x)
			}
		}
	case "idxstore":
		if ev.Base != nil && ev.Val != nil && !isArray(ev.Base) {
			a.put(st, ev, contKey(ev.Base), ev.Val)
		}
	case "mapupdate":
		k := contKey(ev.Args[0])
		if a.entries[k] == nil {
			a.entries[k] = map[ssa.Instruction][2]*Term{}
		}
		a.entries[k][ev.Instr] = [2]*Term{ev.Args[1], ev.Val}
		a.put(st, ev, k, ev.Val)
		a.rows[k][ev.Instr]["key"] = a.part(st, ev.Args[1], "")
		for _, p := range a.rows[k][ev.Instr]["key"] {
			a.mention(st, ev, p)
		}
	}
}

func (a *teller) loops(st *State, k byte, t *Term) {
	if t.Op == "extract" && t.Aux == "1" && t.Args[0].Op == "recv" {
		a.turn(st, k, "chan")
		return
	}
	x := loopOver(t)
	if x == nil {
		return
	}
	p := bare(a.join(st, x))
	over := ""
	for _, l := range a.lists {
		if l == p {
			over = l
		}
	}
	if over == "" && x.Any(func(y *Term) bool { return y.Op == "append" || y.Op == "make" }) {
		over = "inner"
	}
	if over != "" {
		a.turn(st, k, over)
	}
}

func (a *teller) turn(st *State, k byte, over string) {
	switch k {
	case 'T':
		st.Kill("all:" + over)
		for _, s := range []string{"did:", "!did:", "go!did:"} {
			st.Kill(s + over)
		}
	case 'F':
		if st.Is("did:"+over) || st.Is("go!did:"+over) {
			st.Gen("all:" + over)
		} else {
			st.Kill("all:" + over)
		}
		st.Gen("did:" + over)
		st.Gen("go!did:" + over)
	}
}

// expectSet: a value is one of those given, and may be each of them.
func expectSet(got []string, want ...string) bool {
	if len(got) != len(want) {
		return false
	}
	m := map[string]bool{}
	for _, w := range want {
		m[w] = true
	}
	for _, g := range got {
		if !m[g] {
			return false
		}
	}
	return true
}

// eachOf: the element of a list at the position of a loop.
func eachOf(t *Term) bool {
	return t.Args[1].Any(func(i *Term) bool {
		return i.Op == "phi" || i.Op == "extract" || i.Op == "bin" && i.Aux == "+" && i.Args[0].Op == "phi"
	})
}
