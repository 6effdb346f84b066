package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C32", level: "other", run: runC32,
		rule:  "The conversion functions of the adapter are interpreted abstractly: each field of the result is followed back to the field of the argument it comes from, and the converted colour is shown to be the text before the first space of what an enabled copy of the colour prints for one space.",
		assum: []string{"(*color.Color).Sprint wraps its text in the escape sequences of an enabled colour; EnableColor replaces the private switch of its receiver"},
	})
}

func fatihPkg(p *Prog) *ssa.Package {
	for _, q := range p.all {
		if strings.HasSuffix(q.Pkg.Path(), "/helper/fatihcolor") {
			return q
		}
	}
	return nil
}

func runC32(c *Ctx) {
	p := c.p
	q := fatihPkg(p)
	core := p.named("Colors")
	coreColor := p.named("Color")
	if !c.need(q != nil && core != nil && coreColor != nil, "package fatihcolor", "the package does not exist") {
		return
	}
	conv, one := q.Func("ToCoreColors"), q.Func("ToCoreColor")
	if !c.need(conv != nil && len(conv.Params) == 1 && one != nil && len(one.Params) == 1, "ToCoreColors and ToCoreColor", "the functions do not exist") {
		return
	}
	colT := one.Params[0].Type()
	// ToCoreColors
	for _, isNil := range []bool{true, false} {
		e := newEngine(p)
		e.callHook = func(e *Engine, s *State, fn *ssa.Function, args []V) []outcome {
			// a function from one colour to another one
			sig := fn.Signature
			if p.mine(fn) && sig.Recv() == nil && sig.Params().Len() == 1 && sig.Results().Len() == 1 && types.Identical(sig.Params().At(0).Type(), colT) && types.Identical(sig.Results().At(0).Type(), coreColor) {
				aux := ""
				if fn != one {
					return nil
				}
				return ret1(s, mk("core", aux, coreColor, args[0]))
			}
			return nil
		}
		s := newState()
		var arg V = &VNil{conv.Params[0].Type()}
		var in *Obj
		var v0 *VStruct
		if !isNil {
			arg, in, v0 = structArg(e, s, "colors", deref(conv.Params[0].Type()))
		}
		e.start(s, conv, []V{arg}, nil)
		e.run()
		c.addEngine(e)
		c.ob("fields", fmt.Sprintf("ToCoreColors is decided (nil argument: %v)", isNil), e.fail == "" && len(e.exits) > 0, e.fail)
		for _, x := range e.exits {
			if x.panic {
				c.fail("fields", fmt.Sprintf("ToCoreColors does not panic (nil argument: %v)", isNil), x.why)
				continue
			}
			if isNil {
				_, ok := x.res[0].(*VNil)
				c.ob("fields", "ToCoreColors(nil) is nil", ok, "it is "+vstr(x.res[0]))
				continue
			}
			c.ob("effect", "ToCoreColors keeps its argument", vkey(x.s.heap[in]) == vkey(v0), "a field of the argument changes")
			a, ok := x.res[0].(*VAddr)
			var v *VStruct
			if ok && a.o != nil && a.o != in && len(a.path) == 0 {
				v, _ = x.s.heap[a.o].(*VStruct)
			}
			if !c.ob2("fields", "ToCoreColors returns new colours", v != nil && types.Identical(v.t, core), "it returns "+vstr(x.res[0])) {
				continue
			}
			src := v0.t.Underlying().(*types.Struct)
			dst := v.t.Underlying().(*types.Struct)
			used := map[string]bool{}
			for i := 0; i < dst.NumFields(); i++ {
				n := dst.Field(i).Name()
				from := n
				if n == "Time" {
					from = "Datetime"
				}
				k := -1
				for j := 0; j < src.NumFields(); j++ {
					if src.Field(j).Name() == from {
						k = j
					}
				}
				if k < 0 {
					c.ob("fields", "field "+n+" has no counterpart and stays empty", emptyColor(x.s, v.f[i]), "it is "+vstr(v.f[i]))
					continue
				}
				used[from] = true
				t, ok := v.f[i].(*Term)
				if !ok || t.op != "core" {
					// an empty colour for a field that is nil
					nilField := e.nilness(x.s, v0.f[k]) == 0
					c.ob("fields", "field "+n+" is the colour of "+from, nilField && emptyColor(x.s, v.f[i]), "it is "+vstr(v.f[i]))
					continue
				}
				c.ob("fields", "field "+n+" is the colour of "+from, vkey(t.args[0]) == vkey(v0.f[k]), "it is the colour of "+vstr(t.args[0]))
			}
			for j := 0; j < src.NumFields(); j++ {
				if types.Identical(src.Field(j).Type(), colT) {
					c.ob("fields", "field "+src.Field(j).Name()+" is converted", used[src.Field(j).Name()], "the core colours have no field for it")
				}
			}
		}
	}
	fatihOne(c, p, one)
}

func emptyColor(s *State, v V) bool {
	if _, ok := v.(*VNil); ok {
		return true
	}
	sl, ok := asSlice(v)
	return ok && s.decEQ(sl.hi.sub(sl.lo)) == 1
}

func fatihOne(c *Ctx, p *Prog, one *ssa.Function) {
	colT := one.Params[0].Type()
	st := deref(colT)
	for _, isNil := range []bool{true, false} {
		e := newEngine(p)
		e.ghostLive = func(s *State, rn *renamer, k string) bool { return true }
		s := newState()
		var arg V = &VNil{colT}
		var in *Obj
		var v0 V
		if !isNil {
			in = newObj("color", st)
			in.perm = true
			v0 = mk("sym", "color", st)
			s.wheap()[in] = v0
			arg = &VAddr{o: in}
		}
		pre := colT.String()
		nm := func(m string) string { return "(" + pre + ")." + m }
		bad := func(what, msg string) { c.fail("effect", what, msg) }
		e.onCall = func(e *Engine, s *State, ci ssa.CallInstruction, name string, args []V) {
			if !strings.Contains(name, "fatih/color") || strings.Contains(name, p.modul) {
				return
			}
			switch name {
			case nm("EnableColor"), nm("Sprint"), nm("Sprintf"), nm("Equals"):
			default:
				bad("ToCoreColor uses a colour only to print a space", "it calls "+name+" at "+p.pos(ci.Pos()))
			}
		}
		e.onStore = func(e *Engine, s *State, ins ssa.Instruction, addr V, v V) {
			if a, ok := addr.(*VAddr); ok && (a.o == nil || a.o == in || a.o.perm) {
				bad("ToCoreColor changes nothing but its own copy", "it writes to "+vstr(addr)+" at "+p.pos(ins.Pos()))
			}
		}
		e.override[nm("EnableColor")] = func(e *Engine, s *State, ci ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
			ad, ok := a[0].(*VAddr)
			if !ok || ad.o == nil || ad.o == in {
				bad("ToCoreColor changes nothing but its own copy", "it enables the colour it was given at "+p.pos(ci.Pos()))
				return ret1(s, nil)
			}
			s.wghost()["enabled:"+vkey(ad)] = s.heap[ad.o]
			return ret1(s, nil)
		}
		sprint := func(e *Engine, s *State, ci ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
			ad, ok := a[0].(*VAddr)
			en := false
			if ok && ad.o != nil {
				g := s.ghost["enabled:"+vkey(ad)]
				en = g != nil && v0 != nil && vkey(g) == vkey(v0)
			}
			c.ob("prefix", "the colour that prints is an enabled copy of the argument", en, "at "+p.pos(ci.Pos())+" it is "+vstr(a[0]))
			text := ""
			for _, x := range a[1:] {
				if sl, ok := x.(*VSlice); ok && !sl.str && sl.base.op == "arr" {
					if r, ok := sl.base.args[0].(objRef); ok {
						if arr, ok := s.heap[r.o].(*VStruct); ok {
							for _, y := range arr.f {
								if i, ok := y.(*VIface); ok {
									if l, ok := litOf(i.v); ok {
										text += l
										continue
									}
								}
								text += "?"
							}
						}
					}
				} else if l, ok := litOf(x); ok {
					text += l
				}
			}
			c.ob("prefix", "the printed text is one space", text == " ", fmt.Sprintf("at %s it is %q", p.pos(ci.Pos()), text))
			b := freshSym("printed", stringT)
			n := it(mk("len", "", intT, b))
			s.assumeLE(ic(1).sub(n))
			return ret1(s, &VSlice{b, ic(0), n, true, types.Typ[types.Uint8]})
		}
		e.override[nm("Sprint")] = sprint
		e.override[nm("Sprintf")] = sprint
		var rets []Exit
		e.onRet = func(e *Engine, s *State, f *Frame, res []V) {
			if len(s.frames) == 1 {
				rets = append(rets, Exit{s: s.fork(), res: append([]V(nil), res...), pos: f.blk.Instrs[f.pc].Pos()})
			}
		}
		e.start(s, one, []V{arg}, nil)
		e.run()
		c.addEngine(e)
		for _, x := range e.exits {
			if x.panic {
				rets = append(rets, x)
			}
		}
		c.ob("prefix", fmt.Sprintf("ToCoreColor is decided (nil argument: %v)", isNil), e.fail == "" && len(e.exits) > 0, e.fail)
		n := 0
		for _, x := range rets {
			if x.panic {
				c.fail("prefix", fmt.Sprintf("ToCoreColor does not panic (nil argument: %v)", isNil), x.why)
				continue
			}
			if isNil {
				c.ob("prefix", "ToCoreColor(nil) is empty", emptyColor(x.s, x.res[0]), "it is "+vstr(x.res[0]))
				continue
			}
			c.ob("effect", "ToCoreColor keeps its argument", vkey(x.s.heap[in]) == vkey(v0), "the argument becomes "+vstr(x.s.heap[in]))
			sl, ok := asSlice(x.res[0])
			sp := bsetOf(" ")
			at := "return at " + p.pos(x.pos)
			if emptyColor(x.s, x.res[0]) {
				ok := false
				for _, f := range x.s.bytes {
					if f.base.op == "fresh" || strings.Contains(f.base.aux, "printed") {
						if x.s.decEQ(f.pos) == 1 && f.set.sub(sp) {
							ok = true
						}
					}
				}
				for _, y := range x.s.spans() {
					if strings.Contains(y.base.aux, "printed") && y.set.and(sp).empty() && x.s.decEQ(y.lo) == 1 && x.s.decEQ(y.hi.sub(it(mk("len", "", intT, y.base)))) == 1 {
						ok = true
					}
				}
				c.ob("prefix", "an empty colour is returned only if nothing precedes the space", ok, at)
				continue
			}
			if !ok || !strings.Contains(sl.base.aux, "printed") {
				c.fail("prefix", "the colour is a part of what was printed", at+" gives "+vstr(x.res[0]))
				continue
			}
			n++
			set, _, k := e.coverSpan(x.s, sl.base, sl.lo, sl.hi)
			ends := x.s.byteSet(sl.base, sl.hi).sub(sp)
			if x.s.decEQ(sl.lo) == 1 && x.s.decEQ(sl.hi.sub(it(mk("len", "", intT, sl.base)))) == 1 {
				ends = true // there is no space
			}
			c.ob("prefix", "the colour is what precedes the space", x.s.decEQ(sl.lo) == 1 && k && set.and(sp).empty() && ends, at+" gives "+vstr(x.res[0]))
		}
		if !isNil {
			c.need(n > 0, "a colour that is not empty", "no path returns a prefix")
		}
	}
}
