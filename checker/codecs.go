package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// codecFn is one function that encodes or decodes values of some types: a
// function value that the construction of codecs can produce.
type codecFn struct {
	name  string
	fn    *VFunc
	built bool   // a result of the construction, otherwise a part of one
	facts *State // what holds when it was built
}

type codecSet struct {
	encT, decT *types.Signature
	build      *ssa.Function // constructs a codec from a type
	cuts       map[*ssa.Function]bool
	enc, dec   []*codecFn
	keys       map[string]bool
	raw        map[*ssa.Function]bool
	e          *Engine
}

// calleesOf lists the functions of the program that fn calls or mentions.
func calleesOf(p *Prog, fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var ops []*ssa.Value
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			ops = ins.Operands(ops[:0])
			for _, o := range ops {
				if f, ok := (*o).(*ssa.Function); ok && !seen[f] && p.mine(f) {
					seen[f] = true
					out = append(out, f)
				}
			}
		}
	}
	for _, f := range fn.AnonFuncs {
		if !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	return out
}

func reachable(p *Prog, roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, g := range calleesOf(p, f) {
			visit(g)
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return seen
}

// holdsFunc reports whether a struct type has fields of the function types.
func codecStruct(t types.Type, enc, dec *types.Signature) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	e, d := false, false
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type().Underlying()
		e = e || enc != nil && types.Identical(ft, enc)
		d = d || dec != nil && types.Identical(ft, dec)
	}
	return e && d
}

// findCodecs determines the functions that construct codecs and the
// functions they produce.
func findCodecs(c *Ctx) *codecSet {
	p := c.p
	cs := &codecSet{keys: map[string]bool{}, cuts: map[*ssa.Function]bool{}}
	app, par := p.fn("Append"), p.fn("Parse")
	if !c.need(app != nil && par != nil, "exported functions Append and Parse", "they do not exist") {
		return nil
	}
	// dynamic calls in Append and Parse give the types
	dyn := func(root *ssa.Function) *types.Signature {
		var r *types.Signature
		for f := range reachable(p, root) {
			if f != root && (f.Parent() != nil || len(f.Blocks) == 0) {
				continue
			}
			if f != root {
				continue
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if ci, ok := ins.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() && ci.Common().StaticCallee() == nil {
						if _, ok := ci.Common().Value.(*ssa.Builtin); ok {
							continue
						}
						sig := ci.Common().Signature()
						if isEncSig(sig) >= 0 {
							r = sig
						}
					}
				}
			}
		}
		if r == nil {
			// the call was moved to a helper
			for f := range reachable(p, root) {
				for _, b := range f.Blocks {
					for _, ins := range b.Instrs {
						if ci, ok := ins.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() && ci.Common().StaticCallee() == nil && f.Parent() == nil {
							if _, ok := ci.Common().Value.(*ssa.Builtin); ok {
								continue
							}
							sig := ci.Common().Signature()
							if isEncSig(sig) >= 0 && sig.Params().Len() == 3 && (r == nil || true) {
								st, ok := sig.Params().At(0).Type().Underlying().(*types.Struct)
								if ok && st.NumFields() > 0 {
									isE := false
									for i := 0; i < st.NumFields(); i++ {
										if strings.HasSuffix(tstr(st.Field(i).Type()), ".Colors") {
											isE = true
										}
									}
									if isE == (root == app) {
										r = sig
									}
								}
							}
						}
					}
				}
			}
		}
		return r
	}
	cs.encT, cs.decT = dyn(app), dyn(par)
	if !c.need(cs.encT != nil && cs.decT != nil, "calls of encode and decode functions", "Append or Parse does not call an encode or decode function") {
		return nil
	}
	cs.encT = types.NewSignatureType(nil, nil, nil, cs.encT.Params(), cs.encT.Results(), false)
	cs.decT = types.NewSignatureType(nil, nil, nil, cs.decT.Params(), cs.decT.Results(), false)
	reach := map[*ssa.Function]map[*ssa.Function]bool{}
	var fns []*ssa.Function
	for f := range reachable(p, app, par) {
		if p.inMain(f) && len(f.Blocks) > 0 {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	isRec := func(f *ssa.Function) bool {
		if reach[f] == nil {
			r := map[*ssa.Function]bool{}
			for _, g := range calleesOf(p, f) {
				for h := range reachable(p, g) {
					r[h] = true
				}
			}
			reach[f] = r
		}
		return reach[f][f]
	}
	best := -1
	for _, f := range fns {
		res := f.Signature.Results()
		if res.Len() == 1 && codecStruct(res.At(0).Type(), cs.encT, cs.decT) && f.Signature.Params().Len() >= 1 && isReflectType(f.Signature.Params().At(0).Type()) && isRec(f) {
			// the one with the most callees of the kind
			n := 0
			for _, g := range calleesOf(p, f) {
				if g.Signature.Results().Len() == 1 && codecStruct(g.Signature.Results().At(0).Type(), cs.encT, cs.decT) {
					n++
				}
			}
			if n > best {
				best = n
				cs.build = f
			}
		}
	}
	if !c.need(cs.build != nil, "construction of codecs", "no recursive function constructs codecs from types") {
		return nil
	}
	// members of the recursion that construct something else
	for _, f := range fns {
		if f == cs.build || !isRec(f) || !reach[f][cs.build] {
			continue
		}
		hasT := false
		for _, q := range f.Params {
			hasT = hasT || isReflectType(q.Type())
		}
		if hasT && !cs.makesCodecs(f) {
			cs.cuts[f] = true
		}
	}
	cs.explore(c)
	return cs
}

// symCodec is the codec of a type that is not known.
func symCodec(t types.Type, arg V) V {
	st := t.Underlying().(*types.Struct)
	v := &VStruct{t: t}
	for i := 0; i < st.NumFields(); i++ {
		v.f = append(v.f, mk("codec", st.Field(i).Name(), st.Field(i).Type(), arg))
	}
	return v
}

// makesCodecs reports whether a function returns codecs or parts of codecs.
func (cs *codecSet) makesCodecs(f *ssa.Function) bool {
	for i := 0; i < f.Signature.Results().Len(); i++ {
		t := f.Signature.Results().At(i).Type()
		if codecStruct(t, cs.encT, cs.decT) || types.Identical(t.Underlying(), cs.encT) || types.Identical(t.Underlying(), cs.decT) {
			return true
		}
	}
	return false
}

func (cs *codecSet) exploreBuilder(c *Ctx, root *ssa.Function, built bool, used map[*ssa.Function]bool) *Engine {
	p := c.p
	e := newEngine(p)
	e.max = 200000
	s := newState()
	var a []V
	for _, q := range root.Params {
		a = append(a, e.wrap(freshSym(q.Name(), q.Type())))
	}
	cut := func(e *Engine, s *State, fn *ssa.Function, args []V) []outcome {
		res := fn.Signature.Results()
		var r []V
		for i := 0; i < res.Len(); i++ {
			t := freshSym(fn.Name(), res.At(i).Type())
			s.wfacts()[mk("isnil", "", boolT, t)] = false
			r = append(r, e.wrap(t))
		}
		return []outcome{{s, pack(r)}}
	}
	e.contract = func(e *Engine, s *State, ci ssa.CallInstruction, fnv V, sig *types.Signature, args []V, rec *ssa.Function) ([]outcome, bool) {
		if rec != nil && sig.Results().Len() == 1 && codecStruct(sig.Results().At(0).Type(), cs.encT, cs.decT) {
			return []outcome{{s, symCodec(sig.Results().At(0).Type(), args[0])}}, true
		}
		return nil, false
	}
	e.callHook = func(e *Engine, s *State, fn *ssa.Function, args []V) []outcome {
		if fn == cs.build && root != cs.build {
			return []outcome{{s, symCodec(fn.Signature.Results().At(0).Type(), args[0])}}
		}
		if cs.cuts[fn] || root != cs.build && fn != root && fn.Signature.Results().Len() == 0 && !cs.makesCodecs(fn) {
			return cut(e, s, fn, args)
		}
		return nil
	}
	e.start(s, root, a, nil)
	e.run()
	if e.fail != "" {
		c.fail("engine", "construction of codecs in "+root.Name(), e.fail)
	}
	c.addEngine(e)
	c.addFn(root)
	for _, x := range e.exits {
		if x.panic {
			continue
		}
		for ri, r := range x.res {
			rt := root.Signature.Results().At(ri).Type()
			if vf, ok := r.(*VFunc); ok {
				cs.add(vf, types.Identical(rt.Underlying(), cs.encT), built, x.s, used)
			}
			v, ok := r.(*VStruct)
			if !ok {
				continue
			}
			for i, f := range v.f {
				ft := v.t.Underlying().(*types.Struct).Field(i).Type().Underlying()
				if vf, ok := f.(*VFunc); ok {
					cs.add(vf, types.Identical(ft, cs.encT), built, x.s, used)
				}
			}
		}
	}
	return e
}

func (cs *codecSet) explore(c *Ctx) {
	p := c.p
	used := map[*ssa.Function]bool{}
	cs.e = cs.exploreBuilder(c, cs.build, true, used)
	e := cs.e
	// functions that build codecs elsewhere
	var more []*ssa.Function
	for f := range reachable(p, p.fn("Append"), p.fn("Parse")) {
		if p.inMain(f) && len(f.Blocks) > 0 && f.Parent() == nil && !e.fns[f] && !cs.cuts[f] && cs.makesCodecs(f) {
			more = append(more, f)
		}
	}
	sort.Slice(more, func(i, j int) bool { return more[i].String() < more[j].String() })
	for _, f := range more {
		cs.exploreBuilder(c, f, false, used)
	}
	// function values the construction combines into codecs
	for f := range reachable(p, p.fn("Append"), p.fn("Parse")) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range ins.Operands(ops) {
					g, ok := (*o).(*ssa.Function)
					if !ok || !p.inMain(g) && !p.mine(g) || used[g] {
						continue
					}
					if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().Value == g {
						continue
					}
					isE, isD := types.Identical(g.Signature, cs.encT), types.Identical(g.Signature, cs.decT)
					if !isE && !isD {
						continue
					}
					vf := &VFunc{fn: g}
					for _, fv := range g.FreeVars {
						vf.bind = append(vf.bind, e.wrap(freshSym(fv.Name(), fv.Type())))
					}
					cs.add(vf, isE, false, nil, used)
				}
			}
		}
	}
	sort.Slice(cs.enc, func(i, j int) bool { return cs.enc[i].name < cs.enc[j].name })
	sort.Slice(cs.dec, func(i, j int) bool { return cs.dec[i].name < cs.dec[j].name })
}

func (cs *codecSet) add(vf *VFunc, isE, built bool, s *State, used map[*ssa.Function]bool) {
	k := fmt.Sprint(isE) + deepKey(s, vf)
	if cs.keys[k] {
		return
	}
	cs.keys[k] = true
	cs.mark(s, vf, used)
	f := &codecFn{name: vf.fn.String() + bindNames(s, vf), fn: vf, built: built, facts: s}
	if isE {
		cs.enc = append(cs.enc, f)
	} else {
		cs.dec = append(cs.dec, f)
	}
}

// inCell follows a captured variable to its content.
func inCell(s *State, v V) V {
	if a, ok := v.(*VAddr); ok && a.o != nil && len(a.path) == 0 && s != nil {
		if c, ok := s.heap[a.o]; ok {
			return c
		}
	}
	return v
}

// deepKey names a function value with the function values it captures.
func deepKey(s *State, v V) string {
	v = inCell(s, v)
	switch x := v.(type) {
	case *VFunc:
		k := "fn " + x.fn.String()
		for _, b := range x.bind {
			k += "(" + deepKey(s, b) + ")"
		}
		return k
	case *Term:
		if x.op == "codec" {
			return "codec"
		}
		return "?"
	case VBool, *VNil, *VConst:
		return vkey(x)
	case Int:
		if x.isConst() {
			return vkey(x)
		}
	}
	return "?"
}

func (cs *codecSet) mark(s *State, vf *VFunc, used map[*ssa.Function]bool) {
	used[vf.fn] = true
	for _, b := range vf.bind {
		if g, ok := inCell(s, b).(*VFunc); ok {
			cs.mark(s, g, used)
		}
	}
}

func bindNames(s *State, vf *VFunc) string {
	var a []string
	for _, b := range vf.bind {
		b = inCell(s, b)
		if g, ok := b.(*VFunc); ok {
			a = append(a, g.fn.Name()+bindNames(s, g))
		} else if v, ok := b.(VBool); ok {
			a = append(a, fmt.Sprint(bool(v)))
		}
	}
	if len(a) == 0 {
		return ""
	}
	return "[" + strings.Join(a, ",") + "]"
}

func dbgHook(e *Engine) {}
