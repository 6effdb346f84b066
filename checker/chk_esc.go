package main

import (
	"fmt"
	"sort"
)

// C08: the functions that write string tokens escape what must be escaped.

func escapeCheck(c *Ctx) {
	w := newEncWorld(c)
	if w == nil {
		return
	}
	n := 0
	var fns []string
	for f := range reachable(c.p, w.api.app) {
		if c.p.inMain(f) && f.Blocks != nil && w.api.strSig(f) != nil {
			fns = append(fns, f.String())
		}
	}
	sort.Strings(fns)
	byName := map[string]bool{}
	for _, x := range fns {
		byName[x] = true
	}
	for f := range reachable(c.p, w.api.app) {
		if !byName[f.String()] {
			continue
		}
		sh := w.api.strSig(f)
		for _, html := range []bool{false, true} {
			sum := w.api.strRun(c, f, sh, html)
			if !sum.lit {
				continue
			}
			what := fmt.Sprintf("%s, HTML escaping %v", f.Name(), html)
			c.ob("engine", "analysis of "+what, sum.e.fail == "", sum.e.fail)
			if sum.e.fail != "" {
				continue
			}
			n++
			c.addEngine(sum.e)
			c.ob("escape", what, true, "")
			for _, o := range sum.escs {
				c.ob(o.rule, o.what+fmt.Sprintf(", HTML escaping %v", html), o.ok, o.msg)
			}
			for _, x := range sum.e.exits {
				if x.panic {
					c.fail("escape", what, "panic: "+x.why)
				}
			}
		}
	}
	c.need(n >= 2, "string writers", "no function that writes a string token was found")
	encodeResW(c, w, "string", "escapes")
}
