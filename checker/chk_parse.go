package main

import (
	"fmt"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C20", level: "other", run: runC20,
		rule: "Every path of the exported validity function and of the recursive value parser below it is interpreted abstractly together with the state of an automaton of RFC 8259; an obligation is an exit (it accepts only in accepting states, it refuses only in others), or a recursive call (it gets the nesting depth of the text).",
	})
}

type bounds struct {
	fail map[string]string
	ok   map[string]bool
}

func (b *bounds) hook(e *Engine) {
	e.onBounds = func(e *Engine, s *State, ins ssaIns, kind string, ok int, msg string) {
		k := kind + " in " + ins.Parent().String() + " at " + e.P.pos(ins.Pos())
		if ok == 1 {
			b.ok[k] = true
		} else if b.fail[k] == "" {
			b.fail[k] = msg + " (" + e.stack(s) + ")"
		}
	}
}

// parseAnalysis explores Valid and the functions that its recursion goes
// through.
func parseAnalysis(c *Ctx) (map[string]*Obligation, *bounds, []*ssa.Function) {
	obl := map[string]*Obligation{}
	b := &bounds{map[string]string{}, map[string]bool{}}
	valid := c.p.fn("Valid")
	if !c.need(valid != nil, "func Valid", "the exported function Valid does not exist") {
		return obl, b, nil
	}
	cuts := cutPoints(c.p, []*ssa.Function{valid})
	var roots []*ssa.Function
	for f := range cuts {
		roots = append(roots, f)
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].String() < roots[j].String() })
	c.need(len(roots) > 0, "recursive value parser", "no recursive parser is reachable from Valid")
	sums := map[*ssa.Function]*summary{}
	for _, r := range roots {
		e, _ := checkParse(c.p, r, cuts, "V", obl, b.hook, sums, nil)
		c.addEngine(e)
	}
	e, _ := checkParse(c.p, valid, cuts, "W", obl, b.hook, sums, nil)
	c.addEngine(e)
	for f, s := range sums {
		if s != nil {
			c.addFn(f)
		}
	}
	return obl, b, append(roots, valid)
}

func runC20(c *Ctx) {
	obl, _, _ := parseAnalysis(c)
	c.take(obl, nil)
	n := 0
	for _, o := range c.obl {
		if o.rule == "accept" || o.rule == "reject" {
			n++
		}
	}
	c.need(n >= 4, "exits", fmt.Sprintf("only %d exits were found", n))
}
