package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

// Functions that write one string token: they are explored once, and calls of
// them are then replaced by the token.

type strShape struct {
	dst, pay, opt int        // parameters (opt is -1 if there is none)
	load          types.Type // what is read through a pointer payload
	err           bool
}

// strSig recognises functions that append something made from one sequence
// of bytes.
func (a *encAPI) strSig(fn *ssa.Function) *strShape {
	res := fn.Signature.Results()
	if res.Len() < 1 || res.Len() > 2 || !isByteSlice(res.At(0).Type()) || res.Len() == 2 && !isErrorT(res.At(1).Type()) {
		return nil
	}
	sh := &strShape{-1, -1, -1, nil, res.Len() == 2}
	for i, q := range fn.Params {
		t := q.Type()
		switch {
		case isByteSlice(t) && sh.dst < 0:
			sh.dst = i
		case isByteSlice(t) || isString(t):
			if sh.pay >= 0 {
				return nil
			}
			sh.pay = i
		case types.Identical(t, a.flagsT) || types.Identical(t, types.NewPointer(a.indT)) || types.Identical(t, types.NewPointer(a.colorsT)):
		case isStructT(t):
			if sh.opt >= 0 {
				return nil
			}
			sh.opt = i
		case tstr(t) == "unsafe.Pointer":
			if sh.pay >= 0 {
				return nil
			}
			sh.pay = i
			for _, ref := range *q.Referrers() {
				cv, ok := ref.(*ssa.Convert)
				if !ok {
					return nil
				}
				pt, ok := cv.Type().(*types.Pointer)
				if !ok || !(isString(pt.Elem()) || isByteSlice(pt.Elem())) || sh.load != nil && !types.Identical(sh.load, pt.Elem()) {
					return nil
				}
				for _, r2 := range *cv.Referrers() {
					if u, ok := r2.(*ssa.UnOp); !ok || u.Op != token.MUL {
						return nil
					}
				}
				sh.load = pt.Elem()
			}
			if sh.load == nil {
				return nil
			}
		default:
			return nil
		}
	}
	if sh.dst < 0 || sh.pay < 0 {
		return nil
	}
	return sh
}

func isStructT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

// strSum is what is known about such a function in a configuration.
type strSum struct {
	sh    *strShape
	ok    bool // it writes a string token
	lit   bool // as far as it was explored
	label string
	viols []encViol
	esc   *escCheck
	escs  map[string]*Obligation
	e     *Engine
}

// strRun explores a function in isolation.
func (a *encAPI) strRun(c *Ctx, fn *ssa.Function, sh *strShape, html bool) *strSum {
	k := fmt.Sprint(fn.String(), html)
	if r, ok := a.strs[k]; ok {
		return r
	}
	if a.strs == nil {
		a.strs = map[string]*strSum{}
	}
	a.strs[k] = &strSum{sh: sh}
	// the beginning tells whether the function writes a token
	sum := a.strRunN(c, fn, sh, html, 400)
	if sum.lit {
		sum = a.strRunN(c, fn, sh, html, 30000)
	}
	a.strs[k] = sum
	return sum
}

func (a *encAPI) strRunN(c *Ctx, fn *ssa.Function, sh *strShape, html bool, max int) *strSum {
	sum := &strSum{sh: sh}
	r := &encRun{api: a, c: c, cfg: encCfg{"nil", "nil", 0, html}, calls: map[string]bool{}, noStr: true}
	e := newEngine(c.p)
	r.e = e
	e.max = max
	s := newState()
	r.setup(c, s)
	var args []V
	var pv V
	for i, q := range fn.Params {
		switch {
		case i == sh.dst:
			args = append(args, r.b)
		case i == sh.opt:
			args = append(args, r.encoder(e, s, q.Type()))
		case i == sh.pay:
			t := q.Type()
			if sh.load != nil {
				o := newObj("text", sh.load)
				o.perm = true
				pv = e.wrap(mk("sym", "text", sh.load))
				s.wheap()[o] = pv
				args = append(args, &VAddr{o: o})
			} else {
				pv = e.wrap(mk("sym", "text", t))
				args = append(args, pv)
			}
			e.watchInput("the encoded value", func(t *Term) bool { return t.op == "sym" && t.aux == "text" })
		default:
			args = append(args, r.option(e, s, q.Type(), q.Name()))
		}
	}
	if dbgStr != "" && fn.Name() == dbgStr && html {
		dbgEngine(e)
	}
	var esc *escCheck
	if text, ok := asSlice(pv); ok {
		esc = &escCheck{text: text.base, hi: text.hi, html: html, literal: true, fn: fn.Name()}
		esc.install(e)
	}
	e.start(s, fn, args, nil)
	e.run()
	if e.keys != nil {
		for l, n := range e.locs {
			fmt.Println("LOC", n, l)
			if n > 20 {
				os.WriteFile("/tmp/exp/keys2.txt", []byte(e.keys[l]), 0644)
			}
		}
	}
	r.exits = e.exits
	sum.e = e
	// the first label tells what is written
	first, other := false, false
	seen := map[*Node]bool{}
	var visit func(n *Node)
	visit = func(n *Node) {
		if seen[n] {
			return
		}
		seen[n] = true
		for _, ed := range n.out {
			switch {
			case ed.l.k == LEps:
				visit(ed.to)
			case ed.l.k == LLit && len(ed.l.s) > 0 && ed.l.s[0] == '"':
				first = true
			default:
				other = true
			}
		}
	}
	visit(r.start0)
	for _, n := range e.g.nodes {
		for _, ed := range n.out {
			if ed.l.k == LTok || ed.l.k == LCall || ed.l.k == LNum || ed.l.k == LSub {
				other = true
			}
		}
	}
	for _, o := range e.oblig {
		if dbgStr != "" && !o.ok {
			fmt.Println(o)
		}
	}
	sum.lit = first && !other
	sum.ok = sum.lit && e.fail == ""
	if sum.ok {
		sum.label = "strlit"
		sum.viols = r.check()
		for _, x := range e.exits {
			if !x.panic && esc != nil {
				esc.exit(e, x)
			}
		}
		if esc != nil {
			sum.esc = esc
			sum.escs = e.oblig
		}
	}
	return sum
}

// strHook replaces calls of functions that write a string token.
func (r *encRun) strHook(e *Engine, s *State, fn *ssa.Function, args []V) []outcome {
	if r.noStr || !r.c.p.inMain(fn) || fn.Blocks == nil {
		return nil
	}
	sh := r.api.strSig(fn)
	if sh == nil {
		return nil
	}
	// only without colors
	flags, clrs, _ := r.options(args, sigTypes(fn.Signature))
	html := r.cfg.html
	if x, ok := flags.(Int); ok {
		switch e.flagBit(s, x, r.api.html, r.api.flagsT) {
		case 0:
			return nil
		case 1:
			html = true
		case -1:
			html = false
		}
	}
	if clrs != nil && e.nilness(s, clrs) != 1 {
		if _, ok := clrs.(*VNil); !ok {
			return nil
		}
	}
	sum := r.api.strRun(r.c, fn, sh, html)
	if !sum.ok {
		return nil
	}
	r.strUsed = append(r.strUsed, sum)
	pay := args[sh.pay]
	if sh.load != nil {
		pay = e.load(s, s.top().blk.Instrs[s.top().pc], pay, sh.load)
	}
	l := sum.label
	if html != r.cfg.html {
		l += " with other escapes"
	}
	o := e.emit(s, e.asOut(s, args[sh.dst]), &Label{k: LTok, s: l, v: pay})
	if !sh.err {
		return []outcome{{s, o}}
	}
	return []outcome{{s, pairT(o, &VNil{errT})}}
}

var dbgStr = os.Getenv("DBGSTR")
