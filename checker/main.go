package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "-list" {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "-worker" {
		worker()
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "-property" {
		tier := os.Getenv("VERIF_TIER")
		if tier != "thorough" {
			tier = "quick"
		}
		verif := os.Getenv("VERIF_DIR")
		if verif == "" {
			verif = "/verif"
		}
		os.Exit(runCheck(os.Args[2], tier, verif))
	}
	t := time.Now()
	p, err := load()
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	fmt.Println("loaded", time.Since(t))
	devRun(p, os.Args[1:])
	fmt.Println(time.Since(t))
}

func dbgEngine(e *Engine) {
	nb := map[string]int{}
	e.onBounds = func(e *Engine, s *State, ins ssaIns, kind string, ok int, msg string) {
		if ok != 1 {
			k := e.where(s) + " " + kind + " " + msg
			nb[k]++
			if nb[k] == 1 {
				fmt.Println("BOUNDS", ok, k, e.stack(s))
				if os.Getenv("ZN") != "" {
					for v, x := range s.top().regs {
						fmt.Println("   reg", v.Name(), v, "=", vstr(x))
					}
					for _, d := range s.neq {
						fmt.Println("   neq", d)
					}
					for i, v := range s.zone.vars {
						fmt.Println("   ", v, "up", s.zone.at(i+1, 0), "lo", -s.zone.at(0, i+1))
						for j, w := range s.zone.vars {
							if c := s.zone.at(i+1, j+1); i != j && c < inf {
								fmt.Println("        -", w, "<=", c)
							}
						}
					}
				}
			}
		}
	}
	if os.Getenv("DBG") != "" {
		e.locs = map[string]int{}
		e.keys = map[string]string{}
		e.dbg = func(e *Engine, s *State) {
			fmt.Println("step", e.steps, "work", len(e.work), "seen", len(e.seen), "zone", len(s.zone.vars), e.stack(s), e.where(s))
			if e.steps%2000 == 0 {
				for l, n := range e.locs {
					if n > 30 {
						fmt.Println("   ", n, l)
					}
					if n > 50 {
						os.WriteFile("/tmp/exp/keys.txt", []byte(e.keys[l]), 0644)
					}
				}
			}
		}
	}
}

func devRun(p *Prog, args []string) {
	if args[0] == "enc" {
		encDev(p, args[1:])
		return
	}
	if args[0] == "dec" {
		dbgProg = p
		decDev(&Ctx{id: "dev", p: p, obl: map[string]*Obligation{}, fns: map[string]bool{}, cov: map[string]any{}})
		return
	}
	fn := p.fn(args[0])
	if len(args) > 1 && args[1] == "word" {
		fmt.Printf("%+v\n", wordPredicate(p, fn))
		if w := wordPredicate(p, fn); w != nil {
			fmt.Println(w.set.String())
		}
		return
	}
	if fn == nil {
		fmt.Println("no function", args[0])
		return
	}
	if len(args) > 1 {
		cuts := cutPoints(p, []*ssa.Function{p.fn("Valid")})
		for f := range cuts {
			fmt.Println("cut", f)
		}
		obl := map[string]*Obligation{}
		e, pc := checkParse(p, fn, cuts, args[1], obl, dbgEngine, nil, nil)
		fmt.Println("steps", e.steps, "seen", len(e.seen), "exits", len(e.exits), "fail", e.fail, "fns", len(e.fns), "calls", pc.calls)
		var ks []string
		for k, o := range obl {
			ks = append(ks, fmt.Sprint(o.ok)+" "+k+" "+o.msg)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println(k)
		}
		return
	}
	e := newEngine(p)
	s := newState()
	var a []V
	for _, q := range fn.Params {
		a = append(a, e.wrap(freshSym(q.Name(), q.Type())))
	}
	dbgEngine(e)
	e.start(s, fn, a, nil)
	e.run()
	fmt.Println("steps", e.steps, "seen", len(e.seen), "exits", len(e.exits), "fail", e.fail, "nodes", len(e.g.nodes), "fns", len(e.fns))
	for i, x := range e.exits {
		if i > 20 {
			break
		}
		fmt.Println(" exit", x.panic, x.why, vstr(&VTuple{x.res}))
	}
}
