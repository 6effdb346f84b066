package main

import (
	"fmt"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C30", level: "other", run: runC30,
		rule: "Every exported flag constant is evaluated; every option setter and constructor is interpreted abstractly with symbolic fields, and the stored flags are evaluated bit by bit as a function of the old ones; every call of a codec from the exported functions is followed back to the flags, colours and indenter that the caller gave.",
	})
}

// structArg makes an object with one symbol per field.
func structArg(e *Engine, s *State, name string, t types.Type) (*VAddr, *Obj, *VStruct) {
	st := t.Underlying().(*types.Struct)
	o := newObj(name, t)
	v := &VStruct{t: t}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		v.f = append(v.f, e.wrap(mk("sym", name+"."+f.Name(), f.Type())))
	}
	o.perm = true
	s.wheap()[o] = v
	return &VAddr{o: o}, o, v
}

// evalInt64 evaluates an integer value with the symbol x replaced; exact tells
// that only bitwise operations were met.
func evalTerm(v V, x *Term, val int64, exact *bool) (int64, bool) {
	i, ok := v.(Int)
	if !ok {
		if t, k := v.(*Term); k {
			i = it(t)
		} else {
			return 0, false
		}
	}
	r := i.c
	if len(i.ts) > 1 || len(i.ts) == 1 && (i.c != 0 || i.ts[0].k != 1) {
		*exact = false
	}
	for _, y := range i.ts {
		t := y.t
		var w int64
		if t == x {
			w = val
		} else {
			if len(t.args) == 0 {
				return 0, false
			}
			a, ok := evalTerm(t.args[0], x, val, exact)
			if !ok {
				return 0, false
			}
			var b int64
			if len(t.args) > 1 {
				if b, ok = evalTerm(t.args[1], x, val, exact); !ok {
					return 0, false
				}
			}
			switch t.op {
			case "bor", "int|":
				w = a | b
			case "band", "int&":
				w = a & b
			case "bandnot", "int&^":
				w = a &^ b
			case "int^":
				w = a ^ b
			case "conv":
				w = a
			default:
				return 0, false
			}
		}
		r += y.k * w
	}
	return r, true
}

// bitEffect evaluates v as a bitwise function of x: the bits it sets, clears
// and flips.
func bitEffect(v V, x *Term) (set, clr, flip int64, ok bool) {
	exact := true
	z, ok1 := evalTerm(v, x, 0, &exact)
	o, ok2 := evalTerm(v, x, -1, &exact)
	if !ok1 || !ok2 {
		return 0, 0, 0, false
	}
	set, clr, flip = z&o, ^z&^o, z&^o
	if !exact {
		for k := 0; k < 62; k++ {
			for _, val := range []int64{1 << k, ^(1 << k)} {
				w, ok := evalTerm(v, x, val, &exact)
				if !ok || w != (val|set)&^clr^flip {
					return 0, 0, 0, false
				}
			}
		}
	}
	return set, clr, flip, true
}

// flagSet evaluates the exported constants of a flag type.
func flagSet(c *Ctx, t types.Type) map[string]int64 {
	r := map[string]int64{}
	sc := c.p.main.Pkg.Scope()
	for _, n := range sc.Names() {
		k, ok := sc.Lookup(n).(*types.Const)
		if !ok || !types.Identical(k.Type(), t) {
			continue
		}
		if v, ok := constant.Int64Val(constant.ToInt(k.Val())); ok {
			r[n] = v
		}
	}
	return r
}

func runC30(c *Ctx) {
	p := c.p
	at, pt := p.named("AppendFlags"), p.named("ParseFlags")
	encT, decT := p.named("Encoder"), p.named("Decoder")
	if !c.need(at != nil && pt != nil && encT != nil && decT != nil, "exported option types", "AppendFlags, ParseFlags, Encoder or Decoder is missing") {
		return
	}
	singles := map[types.Type][]string{
		at: {"EscapeHTML", "SortMapKeys", "TrustRawMessage"},
		pt: {"DisallowUnknownFields", "UseNumber", "DontCopyString", "DontCopyNumber", "DontCopyRawMessage", "DontMatchCaseInsensitiveStructFields"},
	}
	flags := map[string]int64{}
	for t, want := range singles {
		have := flagSet(c, t)
		for n, v := range have {
			flags[n] = v
		}
		for _, n := range want {
			v, ok := have[n]
			c.ob("flag", n+" is a single bit", ok && v > 0 && v&(v-1) == 0, fmt.Sprintf("%s = %d", n, v))
			for _, m := range want {
				if m > n {
					c.ob("flag", n+" and "+m+" are distinct", v&have[m] == 0, fmt.Sprintf("%s = %d and %s = %d share bits", n, v, m, have[m]))
				}
			}
		}
	}
	zc := flags["DontCopyString"] | flags["DontCopyNumber"] | flags["DontCopyRawMessage"]
	c.ob("flag", "ZeroCopy combines the three copy options", flags["ZeroCopy"] == zc, fmt.Sprintf("ZeroCopy = %d, the three options are %d", flags["ZeroCopy"], zc))

	type setter struct {
		t    types.Type
		ft   types.Type
		name string
		bits int64
		on   bool // takes a bool
	}
	setters := []setter{
		{encT, at, "SetEscapeHTML", flags["EscapeHTML"], true},
		{encT, at, "SetSortMapKeys", flags["SortMapKeys"], true},
		{encT, at, "SetTrustRawMessage", flags["TrustRawMessage"], true},
		{decT, pt, "DisallowUnknownFields", flags["DisallowUnknownFields"], false},
		{decT, pt, "UseNumber", flags["UseNumber"], false},
		{decT, pt, "DontCopyString", flags["DontCopyString"], false},
		{decT, pt, "DontCopyNumber", flags["DontCopyNumber"], false},
		{decT, pt, "DontCopyRawMessage", flags["DontCopyRawMessage"], false},
		{decT, pt, "DontMatchCaseInsensitiveStructFields", flags["DontMatchCaseInsensitiveStructFields"], false},
		{decT, pt, "ZeroCopy", flags["ZeroCopy"], false},
	}
	for _, st := range setters {
		tn := st.t.(*types.Named).Obj().Name()
		fn := p.fn("(*" + tn + ")." + st.name)
		if !c.need(fn != nil, tn+"."+st.name, "the method does not exist") {
			continue
		}
		for _, on := range []bool{true, false} {
			if !st.on && !on {
				continue
			}
			what := tn + "." + st.name
			if st.on {
				what += fmt.Sprintf("(%v)", on)
			}
			e := newEngine(p)
			s := newState()
			recv, o, v0 := structArg(e, s, "recv", st.t)
			args := []V{recv}
			if st.on {
				args = append(args, VBool(on))
			}
			e.start(s, fn, args, nil)
			e.run()
			c.addEngine(e)
			if !c.ob2("setter", what+" is decided", e.fail == "" && len(e.exits) > 0, e.fail) {
				continue
			}
			for _, x := range e.exits {
				if x.panic {
					c.fail("setter", what+" returns", "panic: "+x.why)
					continue
				}
				v1, ok := x.s.heap[o].(*VStruct)
				if !ok {
					c.fail("setter", what+" keeps the other fields", "the whole object is overwritten")
					continue
				}
				us := st.t.Underlying().(*types.Struct)
				for i := range v1.f {
					ft := us.Field(i)
					if !types.Identical(ft.Type(), st.ft) {
						c.ob("setter", what+" keeps field "+ft.Name(), vkey(v0.f[i]) == vkey(v1.f[i]), "it becomes "+vstr(v1.f[i]))
						continue
					}
					set, clr, flip, ok := bitEffect(v1.f[i], v0.f[i].(Int).single())
					want := ""
					wset, wclr := st.bits, int64(0)
					if !on {
						wset, wclr = 0, st.bits
						want = "clears"
					} else {
						want = "sets"
					}
					c.ob("setter", what+" "+want+" exactly its own bits", ok && set == wset && clr == wclr && flip == 0,
						fmt.Sprintf("the flags become %s: sets %#x, clears %#x, flips %#x", vstr(v1.f[i]), set, clr, flip))
				}
			}
		}
	}
	runC30new(c, flags)
	runC30fwd(c, at, pt, flags)
}

// ob2 is ob that returns the outcome.
func (c *Ctx) ob2(rule, what string, ok bool, msg string) bool {
	c.ob(rule, what, ok, msg)
	return ok
}

// runC30new checks constructors and the setters of colours and indentation.
func runC30new(c *Ctx, flags map[string]int64) {
	p := c.p
	at := p.named("AppendFlags")
	type ctor struct {
		name string
		typ  string
		want int64
	}
	for _, k := range []ctor{{"NewEncoder", "Encoder", flags["EscapeHTML"] | flags["SortMapKeys"]}, {"NewDecoder", "Decoder", 0}} {
		fn := p.fn(k.name)
		if !c.need(fn != nil && len(fn.Params) == 1, k.name, "the function does not exist") {
			continue
		}
		e := newEngine(p)
		s := newState()
		w := mk("sym", "stream", fn.Params[0].Type())
		e.start(s, fn, []V{w}, nil)
		e.run()
		c.addEngine(e)
		ok := e.fail == "" && len(e.exits) > 0
		c.ob("constructor", k.name+" is decided", ok, e.fail)
		for _, x := range e.exits {
			if x.panic {
				c.fail("constructor", k.name+" returns", x.why)
				continue
			}
			a, ok := x.res[0].(*VAddr)
			var v *VStruct
			if ok && a.o != nil && len(a.path) == 0 {
				v, _ = x.s.heap[a.o].(*VStruct)
			}
			if v == nil {
				c.fail("constructor", k.name+" returns a new value", "it returns "+vstr(x.res[0]))
				continue
			}
			st := v.t.Underlying().(*types.Struct)
			for i := range v.f {
				f := st.Field(i)
				what := k.name + ": field " + f.Name()
				switch {
				case types.Identical(f.Type(), at) || types.Identical(f.Type(), p.named("ParseFlags")):
					n, ok := v.f[i].(Int)
					c.ob("constructor", what+" has the documented options", ok && n.isConst() && n.c == k.want, fmt.Sprintf("%s instead of %#x", vstr(v.f[i]), k.want))
				case types.Identical(f.Type(), fn.Params[0].Type()):
					c.ob("constructor", what+" is the stream", vkey(v.f[i]) == vkey(w), vstr(v.f[i]))
				default:
					c.ob("constructor", what+" is unset", vkey(v.f[i]) == vkey(zeroV(f.Type())), vstr(v.f[i]))
				}
			}
		}
	}
	encT := p.named("Encoder")
	clrT, indT := types.NewPointer(p.named("Colors")), types.NewPointer(p.named("Indenter"))
	for _, n := range []string{"SetColors", "SetIndent"} {
		fn := p.fn("(*Encoder)." + n)
		if !c.need(fn != nil, "Encoder."+n, "the method does not exist") {
			continue
		}
		e := newEngine(p)
		s := newState()
		recv, o, v0 := structArg(e, s, "recv", encT)
		args := []V{recv}
		for _, q := range fn.Params[1:] {
			args = append(args, mk("sym", q.Name(), q.Type()))
		}
		ni := p.fn("NewIndenter")
		var niArgs []V
		if ni != nil {
			e.override[ni.String()] = func(e *Engine, s *State, _ ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
				niArgs = a
				return ret1(s, mk("newindenter", "", fn.Signature.Results().At(0).Type(), a...))
			}
		}
		e.start(s, fn, args, nil)
		e.run()
		c.addEngine(e)
		c.ob("setter", "Encoder."+n+" is decided", e.fail == "" && len(e.exits) > 0, e.fail)
		for _, x := range e.exits {
			v1, ok := x.s.heap[o].(*VStruct)
			if x.panic || !ok {
				c.fail("setter", "Encoder."+n+" returns", x.why)
				continue
			}
			st := encT.Underlying().(*types.Struct)
			for i := range v1.f {
				f := st.Field(i)
				what := "Encoder." + n + ": field " + f.Name()
				switch {
				case n == "SetColors" && types.Identical(f.Type(), clrT):
					c.ob("setter", what+" is the argument", vkey(v1.f[i]) == vkey(args[1]), vstr(v1.f[i]))
				case n == "SetIndent" && types.Identical(f.Type(), indT):
					ok := false
					if t, k := v1.f[i].(*Term); k && t.op == "newindenter" && len(t.args) == 2 {
						ok = vkey(t.args[0]) == vkey(args[1]) && vkey(t.args[1]) == vkey(args[2])
					}
					c.ob("setter", what+" is a new indenter with the prefix and the indent", ok, vstr(v1.f[i])+fmt.Sprint(len(niArgs)))
				default:
					c.ob("setter", what+" is kept", vkey(v0.f[i]) == vkey(v1.f[i]), vstr(v1.f[i]))
				}
			}
		}
	}
}

// noBuild cuts the exploration at functions that build codecs for a type.
func noBuild(p *Prog) func(e *Engine, s *State, fn *ssa.Function, args []V) []outcome {
	return func(e *Engine, s *State, fn *ssa.Function, args []V) []outcome {
		if !p.inMain(fn) {
			return nil
		}
		res := fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			st, ok := res.At(i).Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for j := 0; j < st.NumFields(); j++ {
				if _, ok := st.Field(j).Type().Underlying().(*types.Signature); ok {
					var r []V
					for i := 0; i < res.Len(); i++ {
						r = append(r, e.wrap(freshSym(fn.Name(), res.At(i).Type())))
					}
					return []outcome{{s, pack(r)}}
				}
			}
		}
		return nil
	}
}

// runC30fwd follows the options of the exported functions to the codecs.
func runC30fwd(c *Ctx, at, pt types.Type, flags map[string]int64) {
	p := c.p
	clrT, indT := types.NewPointer(p.named("Colors")), types.NewPointer(p.named("Indenter"))
	type root struct {
		name  string
		flags V // nil: from the receiver or the parameter
	}
	relevant := optionFns(p, at, pt, clrT, indT)
	roots := []root{{"Append", nil}, {"Marshal", ic(flags["EscapeHTML"] | flags["SortMapKeys"])}, {"(*Encoder).Encode", nil}, {"Parse", nil}, {"Unmarshal", ic(0)}, {"(*Decoder).Decode", nil}}
	for _, r := range roots {
		fn := p.fn(r.name)
		if !c.need(fn != nil, r.name, "the function does not exist") {
			continue
		}
		e := newEngine(p)
		e.callHook = func(e *Engine, s *State, fn *ssa.Function, args []V) []outcome {
			if o := noBuild(p)(e, s, fn, args); o != nil {
				return o
			}
			// only what leads to codecs or changes options matters
			if p.inMain(fn) && fn.Blocks != nil && !relevant[fn] {
				return e.opaque(s, nil, fn.Name(), fn.Signature, nil, false)
			}
			return nil
		}
		s := newState()
		var wf, wc, wi V = r.flags, &VNil{clrT}, &VNil{indT}
		var args []V
		for i, q := range fn.Params {
			if i == 0 && fn.Signature.Recv() != nil {
				a, _, v := structArg(e, s, "recv", deref(q.Type()))
				st := v.t.Underlying().(*types.Struct)
				for j := range v.f {
					switch t := st.Field(j).Type(); {
					case types.Identical(t, at), types.Identical(t, pt):
						wf = v.f[j]
					case types.Identical(t, clrT):
						wc = v.f[j]
					case types.Identical(t, indT):
						wi = v.f[j]
					}
				}
				args = append(args, a)
				continue
			}
			v := e.wrap(mk("sym", q.Name(), q.Type()))
			switch t := q.Type(); {
			case types.Identical(t, at), types.Identical(t, pt):
				wf = v
			case types.Identical(t, clrT):
				wc = v
			case types.Identical(t, indT):
				wi = v
			}
			args = append(args, v)
		}
		n := 0
		e.contract = func(e *Engine, s *State, ci ssa.CallInstruction, fnv V, sig *types.Signature, a []V, rec *ssa.Function) ([]outcome, bool) {
			if len(a) > 0 {
				if v, ok := a[0].(*VStruct); ok {
					st := v.t.Underlying().(*types.Struct)
					n++
					at0 := fmt.Sprintf("%s: codec call in %s", r.name, ci.Parent().Name())
					for j := range v.f {
						switch t := st.Field(j).Type(); {
						case types.Identical(t, at), types.Identical(t, pt):
							c.ob("forward", at0+" gets the flags", wf != nil && vkey(wf) == vkey(v.f[j]), "at "+p.pos(ci.Pos())+" it gets "+vstr(v.f[j]))
						case types.Identical(t, clrT):
							_, isnil := v.f[j].(*VNil)
							c.ob("forward", at0+" gets the colours, or nil", isnil || vkey(wc) == vkey(v.f[j]), "at "+p.pos(ci.Pos())+" it gets "+vstr(v.f[j]))
						case types.Identical(t, indT):
							c.ob("forward", at0+" gets the indenter", vkey(wi) == vkey(v.f[j]), "at "+p.pos(ci.Pos())+" it gets "+vstr(v.f[j]))
						}
					}
				}
			}
			return nil, false
		}
		e.max = 200000
		e.start(s, fn, args, nil)
		e.run()
		c.addEngine(e)
		c.ob("forward", r.name+" is decided", e.fail == "" && len(e.exits) > 0, e.fail)
		c.need(n > 0, "codec call below "+r.name, "no call of a codec was found")
	}
}

// optionFns are the functions from which a codec call, or a write to a field
// that holds options, is reachable.
func optionFns(p *Prog, at, pt, clrT, indT types.Type) map[*ssa.Function]bool {
	opt := func(t types.Type) bool {
		return types.Identical(t, at) || types.Identical(t, pt) || types.Identical(t, clrT) || types.Identical(t, indT)
	}
	base := map[*ssa.Function]bool{}
	for _, f := range p.fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && opt(deref(fa.Type())) {
						base[f] = true
					}
					if st, ok := x.Val.Type().Underlying().(*types.Struct); ok {
						for i := 0; i < st.NumFields(); i++ {
							if opt(st.Field(i).Type()) {
								base[f] = true
							}
						}
					}
				case ssa.CallInstruction:
					cc := x.Common()
					if cc.StaticCallee() == nil && !cc.IsInvoke() && len(cc.Args) > 0 {
						if st, ok := cc.Args[0].Type().Underlying().(*types.Struct); ok {
							for i := 0; i < st.NumFields(); i++ {
								if opt(st.Field(i).Type()) {
									base[f] = true
								}
							}
						}
					}
				}
			}
		}
	}
	r := map[*ssa.Function]bool{}
	for _, f := range p.fns {
		for g := range reachable(p, f) {
			if base[g] {
				r[f] = true
			}
		}
	}
	return r
}
