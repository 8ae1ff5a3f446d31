package main

// Checks: what a run of the analyser on one property reports.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var verifDir = "/verif"

type Viol struct {
	Rule, Construct, Where, Msg string
	Trace                       []*Event
}

type Check struct {
	seenInstr map[ssa.Instruction]bool
	ID, Tier  string
	viols     []Viol
	vkeys     map[string]bool
	num       map[string]int
	insts     map[string]map[string]bool
	rules     []string
	s         *Session
	roles     map[roleKey]*paramRole
	all       map[string]*Session
}

type checkFn func(c *Check)

var checks = map[string]checkFn{}
var checkRule = map[string]string{}

func register(id, rule string, f checkFn) {
	checks[id] = f
	checkRule[id] = rule
}

// bad reports a violation of a rule by a construct.
func (c *Check) bad(rule, construct, where, msg string, trace []*Event) {
	k := rule + "|" + construct + "|" + where
	if c.vkeys[k] {
		return
	}
	c.vkeys[k] = true
	c.viols = append(c.viols, Viol{rule, construct, where, msg, trace})
}

func (c *Check) badEv(rule string, ev *Event, msg string, trace []*Event) {
	if ev == nil {
		c.bad(rule, "?", "-", msg, trace)
		return
	}
	c.bad(rule, evConstruct(ev), ev.Pos(), msg, trace)
}

func evConstruct(ev *Event) string {
	s := "?"
	if ev.Fr != nil {
		s = fnName(ev.Fr.fn)
	}
	return s + ":" + ev.Kind + ":" + ev.Name
}

// inst counts one analysed instance of a rule.
func (c *Check) inst(kind, what string) {
	m := c.insts[kind]
	if m == nil {
		m = map[string]bool{}
		c.insts[kind] = m
	}
	m[what] = true
}
func (c *Check) add(k string, n int) { c.num[k] += n }

// need: a check that found nothing to analyse has decided nothing.
func (c *Check) need(kind string, min int) bool {
	if n := len(c.insts[kind]); n < min {
		c.bad("anchor", kind, "-", fmt.Sprintf("only %d instances of %q found in the current source, at least %d expected: the rule cannot be decided", n, kind, min), nil)
		return false
	}
	return true
}

func (c *Check) variant(tags string) *Session {
	if s := c.all[tags]; s != nil {
		in.m, in.types = s.terms, s.typeKeys
		return s
	}
	if baseTerms == nil {
		baseTerms = in.m
	}
	m := make(map[string]*Term, len(baseTerms))
	for k, v := range baseTerms {
		m[k] = v
	}
	in.m, in.types = m, map[types.Type]string{}
	guardMemo = map[string]map[string]bool{}
	p, err := loadProgram(tags)
	if err != nil {
		c.bad("load", tags, "-", "the source does not load: "+err.Error(), nil)
		panic(abortCheck{})
	}
	s := &Session{p: p, e: p.engine(), tags: tags, runs: map[string]*Run{}, terms: in.m, typeKeys: in.types}
	c.all[tags] = s
	return s
}

// terms that exist before any program is loaded
var baseTerms map[string]*Term

type abortCheck struct{}

func runCheck(id, tier string) int {
	t0 := time.Now()
	f := checks[id]
	if f == nil {
		fmt.Println("unknown property", id)
		return 1
	}
	c := &Check{ID: id, Tier: tier, vkeys: map[string]bool{}, num: map[string]int{}, insts: map[string]map[string]bool{}, all: map[string]*Session{}}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(abortCheck); ok {
					return
				}
				c.bad("undecided", "analysis", "-", fmt.Sprintf("the analysis could not complete on this source: %v", r), nil)
				if os.Getenv("TL_PANIC") != "" {
					panic(r)
				}
			}
		}()
		c.s = c.variant("")
		f(c)
	}()
	tags := []string{}
	for t, s := range c.all {
		if s.e.over {
			c.bad("undecided", "analysis", "-", "analysis budget exceeded: "+s.e.overWhy, nil)
		}
		if t == "" {
			t = "default"
		}
		tags = append(tags, t)
		c.num["functions_analysed"] += len(s.e.nfns)
		c.num["loops_with_inferred_invariant"] += len(s.e.nloops)
		c.num["abstract_steps"] += s.e.steps
		c.num["call_sites_evaluated"] += s.e.ncalls
	}
	sort.Strings(tags)
	known := knownFindings(id)
	var open []Viol
	for _, v := range c.viols {
		if msg, ok := known[v.Rule+"|"+v.Construct]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, msg)
			continue
		}
		open = append(open, v)
	}
	// evidence
	cov := map[string]any{
		"explanation": "Static analysis of the current source (abstract interpretation of the SSA form, no execution). Rule: " + checkRule[id],
		"builds":      tags,
	}
	for k, n := range c.num {
		cov[k] = n
	}
	for k, m := range c.insts {
		var l []string
		for x := range m {
			l = append(l, x)
		}
		sort.Strings(l)
		cov["count:"+k] = len(l)
		if len(l) > 40 {
			l = append(l[:40], "…")
		}
		cov["list:"+k] = l
	}
	vs := []map[string]string{}
	for _, v := range open {
		vs = append(vs, map[string]string{"rule": v.Rule, "construct": v.Construct, "where": v.Where, "message": v.Msg})
	}
	if len(vs) > 0 {
		cov["violations"] = vs
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	out := map[string]any{"property": id, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": len(open)}
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(out, "", " ")
	os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644)
	rp := filepath.Join(dir, id+".violation.txt")
	if len(open) == 0 {
		os.Remove(rp)
		fmt.Printf("OK property=%s %.1fs\n", id, time.Since(t0).Seconds())
		return 0
	}
	var sb strings.Builder
	for i, v := range open {
		fmt.Fprintf(&sb, "%s: property %s, rule %s violated by %s\n  %s\n", v.Where, id, v.Rule, v.Construct, v.Msg)
		if i < 10 && len(v.Trace) > 0 {
			fmt.Fprintf(&sb, "  path:\n")
			for _, ev := range v.Trace {
				fmt.Fprintf(&sb, "    %s\n", evString(ev))
			}
		}
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	for i, v := range open {
		if i == 12 {
			fmt.Printf("… and %d more\n", len(open)-i)
			break
		}
		fmt.Printf("%s: [%s] %s: %s\n", v.Where, v.Rule, v.Construct, trunc(v.Msg, 500))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}

func evString(ev *Event) string {
	s := ev.Pos() + " " + ev.Kind + " " + ev.Name
	for _, a := range ev.Args {
		if a != nil {
			s += " " + trunc(a.String(), 90)
		}
	}
	if len(ev.Res) > 0 {
		s += " ->"
		for _, a := range ev.Res {
			s += " " + trunc(a.String(), 60)
		}
	}
	return s + " " + lockStr(ev.Locks)
}

// knownFindings reads "finding: property=<id> key=<rule|construct> <what fails>".
func knownFindings(id string) map[string]string {
	r := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+id+" key=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property="+id+" key=")
		if i := strings.Index(l, " "); i > 0 {
			r[l[:i]] = l[i+1:]
		}
	}
	return r
}
