package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ctx is the run of one check.
type Ctx struct {
	id        string
	tier      string
	p         *Prog
	obl       map[string]*Obligation
	fns       map[string]bool
	sites     int
	paths     int
	steps     int
	cov       map[string]any
	notes     []string
	undecided map[string]string
}

// undecidable reports whether a message says that the analysis gave up: it
// is not the report of a violation.
func undecidable(msg string) bool {
	for _, m := range []string{"exploration does not converge", "exploration takes too long", "exploration needs too much memory",
		"straight-line execution does not end", "unsupported instruction", "internal: ", "the analysis failed", "the analysis of the code failed", "worker: "} {
		if strings.HasPrefix(msg, m) {
			return true
		}
	}
	return false
}

// ob records an obligation of the property.
func (c *Ctx) ob(rule, what string, ok bool, msg string) {
	k := rule + "|" + what
	if !ok && undecidable(msg) {
		if c.undecided == nil {
			c.undecided = map[string]string{}
		}
		c.undecided[k] = msg
		return
	}
	o := c.obl[k]
	if o == nil {
		c.obl[k] = &Obligation{rule, what, ok, msg}
		return
	}
	if o.ok && !ok {
		o.ok, o.msg = false, msg
	}
}

func (c *Ctx) fail(rule, what, msg string) { c.ob(rule, what, false, msg) }

// need fails unless cond holds: anchors, minimum counts.
func (c *Ctx) need(cond bool, what, msg string) bool {
	c.ob("anchor", what, cond, msg)
	return cond
}

// addEngine counts what an exploration covered.
func (c *Ctx) addEngine(e *Engine) {
	for f := range e.fns {
		c.fns[f.String()] = true
	}
	c.sites += len(e.sites)
	c.paths += len(e.seen)
	c.steps += e.steps
}

func (c *Ctx) addFn(fns ...*ssa.Function) {
	for _, f := range fns {
		if f != nil {
			c.fns[f.String()] = true
		}
	}
}

// take copies obligations of an exploration that satisfy keep.
func (c *Ctx) take(obl map[string]*Obligation, keep func(o *Obligation) bool) {
	for _, o := range obl {
		if keep == nil || keep(o) {
			c.ob(o.rule, o.what, o.ok, o.msg)
		}
	}
}

type Check struct {
	id    string
	level string
	rule  string // what the coverage counts
	run   func(c *Ctx)
	assum []string
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.id] = c }

type knownFinding struct{ id, key string }

func readKnown(path string) []knownFinding {
	var r []knownFinding
	b, _ := os.ReadFile(path)
	for _, l := range strings.Split(string(b), "\n") {
		if rest, ok := strings.CutPrefix(l, "known: property="); ok {
			id, key, _ := strings.Cut(rest, " ")
			r = append(r, knownFinding{id, strings.TrimSpace(key)})
		}
	}
	return r
}

// runCheck decides one property; it returns the exit status.
func runCheck(id, tier, verif string) (status int) {
	start := time.Now()
	ck := checks[id]
	if ck == nil {
		fmt.Println("no check for", id)
		return 2
	}
	c := &Ctx{id: id, tier: tier, obl: map[string]*Obligation{}, fns: map[string]bool{}, cov: map[string]any{}}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("VERIF_PANIC") != "" {
					panic(r)
				}
				c.fail("analysis", "the analysis completes", fmt.Sprintf("the analysis of the code failed: %v", r))
			}
		}()
		p, err := load()
		if err != nil {
			c.fail("load", "the program type-checks", err.Error())
			return
		}
		c.p = p
		ck.run(c)
	}()
	known := readKnown(filepath.Join(verif, "known-findings.txt"))
	var keys []string
	for k := range c.obl {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var bad, knownBad []*Obligation
	rules := map[string]int{}
	var samples []string
	lastRule := ""
	for _, k := range keys {
		o := c.obl[k]
		rules[o.rule]++
		if o.rule != lastRule && o.ok {
			lastRule = o.rule
			samples = append(samples, o.rule+": "+o.what)
		}
		if o.ok {
			continue
		}
		isKnown := false
		for _, f := range known {
			if f.id == id && f.key == k {
				isKnown = true
			}
		}
		if isKnown {
			knownBad = append(knownBad, o)
		} else {
			bad = append(bad, o)
		}
	}
	var undec []string
	for k, m := range c.undecided {
		undec = append(undec, k+": "+m)
	}
	sort.Strings(undec)
	if len(c.obl) == 0 && len(undec) == 0 {
		o := &Obligation{"anchor", "the check finds something to decide", false, "no obligation was found in the code"}
		c.obl["anchor|none"] = o
		bad = append(bad, o)
	}
	var fns []string
	for f := range c.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]any{
		"explanation":          ck.rule,
		"rule":                 ck.rule,
		"obligations":          len(c.obl),
		"discharged":           len(c.obl) - len(bad) - len(knownBad),
		"obligations_per_rule": rules,
		"samples":              samples,
		"functions_analysed":   len(fns),
		"functions":            fns,
		"checker_cmd":          "checker -property " + id,
		"trusted_base":         append([]string{"go/types, golang.org/x/tools/go/ssa", "the models of standard library functions in checker/models.go"}, ck.assum...),
	}
	if c.sites > 0 {
		cov["call_sites"] = c.sites
	}
	if c.paths > 0 {
		cov["abstract_states"] = c.paths
	}
	if c.steps > 0 {
		cov["block_executions"] = c.steps
	}
	for k, v := range c.cov {
		cov[k] = v
	}
	if undec != nil {
		cov["undecided"] = undec
	}
	var viol []map[string]string
	for _, o := range bad {
		viol = append(viol, map[string]string{"rule": o.rule, "obligation": o.what, "violation": o.msg})
	}
	if viol != nil {
		cov["violating"] = viol
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": ck.level, "coverage": cov, "assumptions": ck.assum, "wall_s": time.Since(start).Seconds(), "violations": len(bad)}
	if ck.assum == nil {
		delete(ev, "assumptions")
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		dir := filepath.Join(verif, "evidence")
		os.MkdirAll(dir, 0o755)
		err = os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Println("evidence:", err)
		return 2
	}
	for _, o := range knownBad {
		fmt.Printf("KNOWN-FINDING: property=%s %s|%s\n", id, o.rule, o.what)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d functions, %.1fs\n", id, len(c.obl), len(c.obl)-len(bad)-len(knownBad), len(fns), time.Since(start).Seconds())
	for i, u := range undec {
		if i == 8 {
			fmt.Printf("  ... and %d more\n", len(undec)-i)
			break
		}
		fmt.Printf("  UNDECIDED %s\n", trunc(u, 300))
	}
	for i, o := range bad {
		if i == 12 {
			fmt.Printf("  ... and %d more\n", len(bad)-i)
			break
		}
		fmt.Printf("  %s: %s\n      %s\n", o.rule, o.what, strings.ReplaceAll(trunc(o.msg, 600), "\n", "\n      "))
	}
	if len(bad) > 0 {
		fmt.Printf("VIOLATION property=%s replay=evidence/%s.json\n", id, id)
		return 1
	}
	return 0
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
