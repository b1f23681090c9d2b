package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

type rule struct {
	id  string
	run func(c *Check)
}

var rules = map[string]func(c *Check){}

func main() {
	prop := flag.String("property", "", "property id, comma separated ids, or all")
	dump := flag.String("dump", "", "pkg:Func to dump events of")
	verbose := flag.Bool("v", false, "verbose")
	flag.Parse()
	start := time.Now()
	p, err := Load()
	if err != nil {
		// the tree does not type-check: nothing can be decided
		fmt.Println("cannot load the repository:", err)
		for _, id := range ids(*prop) {
			fmt.Printf("VIOLATION property=%s replay=none\n", id)
		}
		os.Exit(1)
	}
	if *dump != "" {
		doDump(p, *dump)
		return
	}
	code := 0
	for _, id := range ids(*prop) {
		f := rules[id]
		if f == nil {
			fmt.Println("unknown property", id)
			os.Exit(1)
		}
		s := time.Now()
		if len(ids(*prop)) == 1 {
			s = start
		}
		c := newCheck(p, id)
		runRule(c, f)
		for _, g := range also[id] {
			runRule(c, g)
		}
		if *verbose {
			c.flush()
			for _, o := range c.obl {
				fmt.Printf("    %v %s  %s  %s\n", o.OK, o.Key, o.Where, o.Msg)
			}
		}
		if r := c.Finish(s); r != 0 {
			code = r
		}
	}
	os.Exit(code)
}

func runRule(c *Check, f func(*Check)) {
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("CHECKER_PANIC") != "" {
				panic(r)
			}
			c.Ob("engine", "panic", false, "-", fmt.Sprintf("the analysis could not decide the property: %v", r))
		}
	}()
	f(c)
}

func ids(s string) []string {
	if s == "all" {
		var out []string
		for k := range rules {
			out = append(out, k)
		}
		sort.Strings(out)
		return out
	}
	if s == "" {
		return nil
	}
	return strings.Split(s, ",")
}

func doDump(p *Prog, what string) {
	parts := strings.SplitN(what, ":", 2)
	f := p.Func(parts[0], parts[1])
	if f == nil {
		fmt.Println("no such function")
		return
	}
	e := NewEngine(p)
	type rec struct{ s string }
	m := map[string]string{}
	var order []string
	e.hook = func(st *State, ev *Event) {
		if ev.Kind == "load" || ev.Kind == "arith" {
			return
		}
		if ev.Kind == "after" {
			return
		}
		k := fmt.Sprintf("%d.%d.%s", ev.Frame.id, ev.Frame.instrIndex(ev.Instr), ev.Kind)
		if _, ok := m[k]; !ok {
			order = append(order, k)
		}
		var as []string
		for _, a := range ev.Args {
			as = append(as, a.str(3))
		}
		for _, a := range ev.Res {
			as = append(as, a.str(3))
		}
		v := ""
		if ev.Val != nil {
			v = " = " + ev.Val.str(4)
		}
		var fs []string
		st.Each(func(k byte, t *Term) bool { fs = append(fs, string(k)+":"+t.str(4)); return false })
		sort.Strings(fs)
		m[k] = fmt.Sprintf("%s%s %s %s(%s)%s  [%s]\n        %s", strings.Repeat("  ", ev.Frame.depth), p.Pos(ev.Pos), ev.Kind, ev.Name, strings.Join(as, ", "), v, fnName(ev.Frame.fn), strings.Join(fs, "\n        "))
	}
	t := time.Now()
	e.Run(f)
	for _, k := range order {
		fmt.Println(m[k])
	}
	fmt.Println("frames", e.nframes, "evals", e.evals, "calls", e.calls, "overflow", e.overflow, time.Since(t))
}
