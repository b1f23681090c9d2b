package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Check collects the obligations of one property.
type Check struct {
	P       *Prog
	ID      string
	obl     []*Obligation
	byKey   map[string]*Obligation
	notes   []string
	assume  []string
	funcs   map[string]bool
	counts  map[string]int
	entries []string
	run     string
	dry     bool
	prefix  string
	ctx     map[string]*Obligation
	ctxKeys []string

	inline func(*ssa.Function) bool // default filter of the engines

	fixedBase, fixedQuote map[*ssa.Function]int // parameter set by a fixed fee setter
}

// Obligation is one instance of a rule at one construct.
type Obligation struct {
	Key   string `json:"key"` // rule + construct, stable across line moves
	Rule  string `json:"rule"`
	Where string `json:"where"`
	Msg   string `json:"detail,omitempty"`
	OK    bool   `json:"discharged"`
	Path  string `json:"path,omitempty"`
}

func newCheck(p *Prog, id string) *Check {
	return &Check{P: p, ID: id, byKey: map[string]*Obligation{}, funcs: map[string]bool{}, counts: map[string]int{}, ctx: map[string]*Obligation{}, fixedBase: map[*ssa.Function]int{}, fixedQuote: map[*ssa.Function]int{}}
}

// At records the verdict of a rule at an event in one calling context; a later
// pass of the fixpoint over the same context replaces it.
func (c *Check) At(ev *Event, rule, construct string, ok bool, msg string) {
	if c.dry {
		return
	}
	in := "0"
	if ev.Instr != nil {
		in = itoa(ev.Frame.instrIndex(ev.Instr))
	}
	k := rule + "/" + construct + "|" + itoa(ev.Frame.id) + "." + in + "|" + c.run
	if _, had := c.ctx[k]; !had {
		c.ctxKeys = append(c.ctxKeys, k)
	}
	c.ctx[k] = &Obligation{Key: rule + "/" + construct, Rule: rule, Where: c.P.Pos(ev.Pos), Msg: msg, OK: ok, Path: ev.Frame.Path()}
}

func (c *Check) flush() {
	for _, k := range c.ctxKeys {
		o := c.ctx[k]
		n := c.byKey[o.Key]
		if n == nil {
			cp := *o
			c.byKey[o.Key] = &cp
			c.obl = append(c.obl, &cp)
		} else if n.OK && !o.OK {
			*n = *o
		}
	}
	c.ctx = map[string]*Obligation{}
	c.ctxKeys = nil
}

// Engine makes an engine whose visited functions count as analysed.
func (c *Check) Engine(hook func(*State, *Event)) *Engine {
	e := NewEngine(c.P)
	e.hook = hook
	e.inline = c.inline
	return e
}

// Analyze runs an entry function and records coverage.
func (c *Check) Analyze(e *Engine, f *ssa.Function) { c.AnalyzeWith(e, f, "", nil) }

// AnalyzeWith runs an entry under assumptions made by init (one case of a
// case split, named by tag).
func (c *Check) AnalyzeWith(e *Engine, f *ssa.Function, tag string, init func(*State, []*Term)) {
	if f == nil {
		return
	}
	name := fnName(f)
	if tag != "" {
		name += "[" + tag + "]"
	}
	c.run = name
	e.evals = 0
	e.RunWith(f, init)
	c.entries = append(c.entries, name)
	for g := range e.visited {
		c.funcs[fnName(g)] = true
	}
	if e.overflow {
		c.Ob("engine", "budget:"+fnName(f), false, c.P.Pos(f.Pos()), "analysis budget exceeded; nothing is decided about this entry")
	}
}

// Ob records (or overwrites) an obligation.
func (c *Check) Ob(rule, construct string, ok bool, where, msg string) {
	k := rule + "/" + construct
	if o := c.byKey[k]; o != nil {
		// the same construct reached in several contexts: all must hold
		if o.OK && !ok {
			o.OK, o.Msg, o.Where = ok, msg, where
		}
		return
	}
	o := &Obligation{Key: k, Rule: rule, Where: where, Msg: msg, OK: ok}
	c.byKey[k] = o
	c.obl = append(c.obl, o)
}

func (c *Check) Need(rule string, n, min int, what string) {
	c.counts[rule] = n
	if n < min {
		c.Ob(rule, "anchor", false, "-", fmt.Sprintf("found %d %s, expected at least %d: the construct the property is anchored on is gone", n, what, min))
	}
}

func (c *Check) Note(f string, a ...interface{})   { c.notes = append(c.notes, fmt.Sprintf(f, a...)) }
func (c *Check) Assume(f string, a ...interface{}) { c.assume = append(c.assume, fmt.Sprintf(f, a...)) }

type known struct {
	prop, key, text string
	detail          string
}

func loadKnown(path string) []known {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: ")
		// property=<id> key=<rule/construct> :: text
		parts := strings.SplitN(l, " :: ", 2)
		k := known{}
		if len(parts) == 2 {
			k.text = parts[1]
		}
		head := parts[0]
		if i := strings.Index(head, " key="); i >= 0 {
			k.key = strings.TrimSpace(head[i+5:])
			if j := strings.Index(k.key, " detail="); j >= 0 {
				k.detail = strings.TrimSpace(k.key[j+8:])
				k.key = strings.TrimSpace(k.key[:j])
			}
			k.prop = strings.TrimPrefix(strings.TrimSpace(head[:i]), "property=")
		}
		out = append(out, k)
	}
	return out
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func (c *Check) Finish(start time.Time) int {
	c.flush()
	sort.SliceStable(c.obl, func(i, j int) bool { return c.obl[i].Key < c.obl[j].Key })
	kn := loadKnown(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
	var bad []*Obligation
	disch := 0
	usedKnown := 0
	for _, o := range c.obl {
		if o.OK {
			disch++
			continue
		}
		listed := false
		for _, k := range kn {
			if k.prop == c.ID && k.key == o.Key && (k.detail == "" || k.detail == o.Msg) {
				listed = true
				fmt.Printf("KNOWN-FINDING: property=%s %s [%s at %s]\n", c.ID, k.text, o.Key, o.Where)
				usedKnown++
				break
			}
		}
		if !listed {
			bad = append(bad, o)
		}
	}
	evdir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(evdir, 0755)
	replay := filepath.Join(evdir, c.ID+".violation.txt")
	os.Remove(replay)
	var sb strings.Builder
	type viol struct {
		Key, Rule, Where, Detail string
	}
	vs := []interface{}{}
	for _, o := range bad {
		fmt.Fprintf(&sb, "property %s\nrule      %s\nconstruct %s\nwhere     %s\ndetail    %s\n\n", c.ID, o.Rule, o.Key, o.Where, o.Msg)
		vs = append(vs, map[string]string{"key": o.Key, "where": o.Where, "detail": o.Msg})
		fmt.Printf("  violated: %s at %s: %s\n", o.Key, o.Where, o.Msg)
	}
	rules := map[string][2]int{}
	for _, o := range c.obl {
		r := rules[o.Rule]
		r[0]++
		if o.OK {
			r[1]++
		}
		rules[o.Rule] = r
	}
	var rl []string
	for r, n := range rules {
		rl = append(rl, fmt.Sprintf("%s: %d/%d", r, n[1], n[0]))
	}
	sort.Strings(rl)
	var samples []interface{}
	for i, o := range c.obl {
		if i >= 40 {
			break
		}
		samples = append(samples, o)
	}
	var fns []string
	for f := range c.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	if c.notes == nil {
		c.notes = []string{}
	}
	expl := strings.Join(c.notes, " ")
	if expl == "" {
		expl = "static analysis of the current source"
	}
	lim := fns
	if len(lim) > 120 {
		lim = lim[:120]
	}
	ev := map[string]interface{}{
		"property": c.ID,
		"tier":     tier,
		"seed":     seed,
		"level":    "other",
		"coverage": map[string]interface{}{
			"explanation":        expl,
			"obligations":        len(c.obl),
			"discharged":         disch,
			"known_findings":     usedKnown,
			"rules":              rl,
			"anchor_counts":      c.counts,
			"functions_analysed": len(fns),
			"functions":          lim,
			"packages_loaded":    len(c.P.Pkgs),
			"samples":            samples,
		},
		"assumptions": c.assume,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(vs),
	}
	if len(vs) > 0 {
		ev["coverage"].(map[string]interface{})["violated"] = vs
	}
	if c.assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evdir, c.ID+".json"), append(b, '\n'), 0644)
	fmt.Printf("%s: %d obligations, %d discharged, %d known findings, %d violations (%.1fs)\n", c.ID, len(c.obl), disch, usedKnown, len(bad), time.Since(start).Seconds())
	if len(bad) > 0 {
		os.WriteFile(replay, []byte(sb.String()), 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, replay)
		return 1
	}
	return 0
}
