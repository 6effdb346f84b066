package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C33", level: "other", run: runC33,
		rule:  "The main function of the tool is interpreted for all values of its flags, all outcomes of the calls that can fail and all answers about the terminal; an obligation is a path to the encoder (it has colours exactly when they are due) or to the end (a failure leads to a message and a non-zero status).",
		assum: []string{"os.Exit ends the process with the given status; colorable.NewColorable writes to the file it is given"},
	})
}

func toolMain(p *Prog) *ssa.Function {
	for _, q := range p.all {
		if q.Pkg.Name() == "main" && strings.HasSuffix(q.Pkg.Path(), "/cmd/jc") {
			return q.Func("main")
		}
	}
	return nil
}

func runC33(c *Ctx) {
	for _, clr := range []bool{true, false} {
		for _, out := range []string{"", "out.json"} {
			toolRun(c, clr, out)
		}
	}
}

// toolRun interprets the tool with the given options.
func toolRun(c *Ctx, clrOpt bool, outOpt string) {
	p := c.p
	fn := toolMain(p)
	if !c.need(fn != nil, "command jc", "the command does not exist") {
		return
	}
	e := newEngine(p)
	e.max = 100000
	e.ghostLive = func(s *State, rn *renamer, k string) bool { return true }
	s := newState()
	at := func(ci ssa.CallInstruction) string { return "at " + p.pos(ci.Pos()) }
	full := func(n string) string {
		if f := p.fn(n); f != nil {
			return f.String()
		}
		c.need(false, n, "the function does not exist")
		return n
	}
	stdoutV := func(v V) bool { return strings.Contains(vstr(v), "global:os.Stdout") }
	flagOf := func(name string, t types.Type) V {
		switch name {
		case "c":
			return VBool(clrOpt)
		case "o":
			return strV(outOpt)
		}
		return mk("flag", name, t)
	}
	cells := map[string]*Obj{}
	// the flags are defined by the package initialiser
	init := fn.Pkg.Func("init")
	defs := 0
	mkFlag := func(s *State, name string, t types.Type) *Obj {
		o := cells[name]
		if o == nil {
			o = newObj("flag "+name, t)
			o.perm = true
			cells[name] = o
		}
		s.wheap()[o] = flagOf(name, t)
		return o
	}
	ie := newEngine(p)
	ie.noContract = true
	is := newState()
	for k, t := range map[string]types.Type{"Bool": boolT, "String": stringT} {
		t := t
		ie.override["flag."+k] = func(e *Engine, s *State, ci ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
			n, ok := litOf(a[0])
			c.ob("flags", "flags have fixed names", ok, at(ci))
			defs++
			return ret1(s, &VAddr{o: mkFlag(s, n, t)})
		}
		ie.override["flag."+k+"Var"] = func(e *Engine, s *State, ci ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
			n, ok := litOf(a[1])
			c.ob("flags", "flags have fixed names", ok, at(ci))
			defs++
			e.store(s, ci, a[0], flagOf(n, t))
			return ret1(s, nil)
		}
	}
	for _, m := range fn.Pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			is.wheap()[p.global(g)] = zeroV(deref(g.Type()))
		}
	}
	ie.callHook = func(e *Engine, s *State, f *ssa.Function, args []V) []outcome {
		if f.Synthetic == "package initializer" && f != init {
			return ret1(s, nil)
		}
		return nil
	}
	ie.start(is, init, nil, nil)
	ie.run()
	if !c.need(ie.fail == "" && len(ie.exits) == 1 && !ie.exits[0].panic, "flag definitions", "the package initialiser could not be interpreted: "+ie.fail) {
		return
	}
	for o, v := range ie.exits[0].s.heap {
		o.perm = true
		s.wheap()[o] = v
	}
	// flags may also be defined in main
	for k, t := range map[string]types.Type{"Bool": boolT, "String": stringT} {
		t := t
		e.override["flag."+k] = func(e *Engine, s *State, ci ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
			n, _ := litOf(a[0])
			defs++
			return ret1(s, &VAddr{o: mkFlag(s, n, t)})
		}
		e.override["flag."+k+"Var"] = func(e *Engine, s *State, ci ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
			n, _ := litOf(a[1])
			defs++
			e.store(s, ci, a[0], flagOf(n, t))
			return ret1(s, nil)
		}
	}
	e.override["flag.Parse"] = func(e *Engine, s *State, ci ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		s.wghost()["parsed"] = VBool(true)
		return ret1(s, nil)
	}
	e.override[full("IsColorTerminal")] = func(e *Engine, s *State, ci ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		k := "terminal:" + vstr(a[0])
		if v, ok := s.ghost[k]; ok {
			return ret1(s, v)
		}
		n := s.fork()
		n.wghost()[k] = VBool(false)
		s.wghost()[k] = VBool(true)
		return []outcome{{n, VBool(false)}, {s, VBool(true)}}
	}
	type encObj struct{ w V }
	encs := map[*Term]encObj{}
	e.override[full("NewEncoder")] = func(e *Engine, s *State, ci ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		t := mk("encoder", p.pos(ci.Pos()), fn.Signature.Results().At(0).Type(), a[0])
		encs[t] = encObj{a[0]}
		s.wfacts()[mk("isnil", "", boolT, t)] = false
		return ret1(s, t)
	}
	nop := func(e *Engine, s *State, ci ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		return ret1(s, nil)
	}
	for _, n := range []string{"SetIndent", "SetEscapeHTML", "SetSortMapKeys", "SetTrustRawMessage"} {
		e.override[full("(*Encoder)."+n)] = nop
	}
	e.override[full("DefaultColors")] = func(e *Engine, s *State, ci ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		t := mk("colors", "", fn.Signature.Results().At(0).Type())
		s.wfacts()[mk("isnil", "", boolT, t)] = false
		return ret1(s, t)
	}
	e.override[full("(*Encoder).SetColors")] = func(e *Engine, s *State, ci ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		s.wghost()["colors:"+vkey(a[0])] = a[1]
		return ret1(s, nil)
	}
	fails := func(s *State, what string, ok V) []outcome {
		n := s.fork()
		n.wghost()["failed"] = strV(what)
		return []outcome{{n, nil}, {s, ok}}
	}
	encodes := 0
	e.override[full("(*Encoder).Encode")] = func(e *Engine, s *State, ci ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		encodes++
		t, _ := a[0].(*Term)
		w := V(nil)
		if o, ok := encs[t]; t != nil && ok {
			w = o.w
		}
		clrs, set := s.ghost["colors:"+vkey(a[0])]
		if set && e.nilness(s, clrs) == 0 {
			set = false
		}
		c.ob("colour", "the options are parsed before the output", s.ghost["parsed"] != nil, at(ci))
		if !c.ob2("colour", "the writer of the encoder is known", w != nil, at(ci)) {
			return nil
		}
		isOut := stdoutV(w)
		term := -1
		for k, v := range s.ghost {
			if strings.HasPrefix(k, "terminal:") && strings.Contains(k, "global:os.Stdout") {
				term = 0
				if v.(VBool) {
					term = 1
				}
			}
		}
		if set {
			c.ob("colour", "coloured output goes to standard output", isOut && outOpt == "", at(ci)+": colours are set although the output goes to "+vstr(w))
			c.ob("colour", "coloured output was not switched off", clrOpt, at(ci)+": colours are set although the option is off or was not asked for")
			c.ob("colour", "coloured output goes to a colour terminal", term == 1, at(ci)+": colours are set although standard output was not recognised as a colour terminal")
		} else {
			due := isOut && outOpt == "" && clrOpt && term != 0
			c.ob("colour", "output to a colour terminal has colours", !due, at(ci)+": no colours are set although nothing rules them out")
		}
		c.ob("output", "the output goes to the file if there is one", (outOpt != "") == !isOut, at(ci)+": the output goes to "+vstr(w))
		r := fails(s, "Encode", &VNil{errT})
		r[0].v = mk("newerr", "Encode", errT)
		return r
	}
	e.override["os.Exit"] = func(e *Engine, s *State, ci ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		n, ok := a[0].(Int)
		if s.ghost["failed"] != nil {
			what, _ := litOf(s.ghost["failed"])
			c.ob("failure", "a failure of "+what+" gives a non-zero status", ok && n.isConst() && n.c != 0, at(ci)+": the status is "+vstr(a[0]))
			c.ob("failure", "a failure of "+what+" is reported on standard error", s.ghost["stderr"] != nil, at(ci)+": nothing was written to standard error before")
		} else if ok && n.isConst() && n.c != 0 {
			c.ob("failure", "a non-zero status comes with a message", s.ghost["stderr"] != nil, at(ci))
		}
		return []outcome{}
	}
	for _, n := range []string{"fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint", "io.WriteString"} {
		e.override[n] = func(e *Engine, s *State, ci ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
			if strings.Contains(vstr(a[0]), "global:os.Stderr") {
				s.wghost()["stderr"] = VBool(true)
			}
			return ret1(s, pairT(ic(1), &VNil{errT}))
		}
	}
	e.override["(*os.File).WriteString"] = func(e *Engine, s *State, ci ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		if strings.Contains(vstr(a[0]), "global:os.Stderr") {
			s.wghost()["stderr"] = VBool(true)
		}
		return ret1(s, pairT(ic(1), &VNil{errT}))
	}
	e.override["github.com/mattn/go-colorable.NewColorable"] = func(e *Engine, s *State, ci ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		t := mk("colorable", "", fn.Signature.Results().At(0).Type(), a[0])
		s.wfacts()[mk("isnil", "", boolT, t)] = false
		return ret1(s, t)
	}
	e.override["github.com/mattn/go-colorable.NewColorableStdout"] = func(e *Engine, s *State, ci ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		t := mk("colorable", "", fn.Signature.Results().At(0).Type(), mk("sym", "global:os.Stdout", fn.Signature.Results().At(0).Type()))
		s.wfacts()[mk("isnil", "", boolT, t)] = false
		return ret1(s, t)
	}
	// every other call that can fail does so on one path
	e.callHook = func(e *Engine, s *State, f *ssa.Function, args []V) []outcome {
		name := f.String()
		res := f.Signature.Results()
		if f.Pkg != nil && f.Pkg == fn.Pkg || f.Parent() != nil {
			return nil // part of the tool
		}
		if res.Len() == 0 || !isErrorT(res.At(res.Len()-1).Type()) || strings.HasSuffix(name, ").Close") {
			return nil
		}
		switch name {
		case "fmt.Errorf", "errors.New", "errors.Is", "errors.As":
			return nil
		}
		for _, a := range args {
			e.havoc(s, a)
		}
		n := s.fork()
		n.wghost()["failed"] = strV(name)
		var ok, bad []V
		for i := 0; i < res.Len(); i++ {
			t := res.At(i).Type()
			if i == res.Len()-1 {
				ok = append(ok, &VNil{errT})
				bad = append(bad, mk("newerr", name, errT))
				continue
			}
			x := e.wrap(freshSym(name, t))
			if y, k := x.(*Term); k {
				switch t.Underlying().(type) {
				case *types.Pointer, *types.Interface:
					s.wfacts()[mk("isnil", "", boolT, y)] = false
				}
			}
			if y, k := x.(*Term); k {
				// a new file is none of the standard ones
				for _, g := range []string{"Stdin", "Stdout", "Stderr"} {
					z := sym("global:os."+g, t)
					s.wfacts()[mk("eq", "", boolT, y, z)] = false
					s.wfacts()[mk("eq", "", boolT, z, y)] = false
				}
			}
			ok = append(ok, x)
			bad = append(bad, zeroV(t))
		}
		return []outcome{{n, pack(bad)}, {s, pack(ok)}}
	}
	e.start(s, fn, nil, nil)
	e.run()
	c.addEngine(e)
	c.ob("failure", "main is decided", e.fail == "" && len(e.exits) > 0, e.fail)
	c.need(encodes > 0, "output", "the tool encodes nothing")
	c.need(defs >= 2 && cells["c"] != nil && cells["o"] != nil, "flags -c and -o", fmt.Sprintf("the tool has %d flags", defs))
	for _, x := range e.exits {
		if x.panic {
			c.fail("failure", "main does not panic", x.why)
			continue
		}
		f := x.s.ghost["failed"]
		what := "anything"
		if f != nil {
			what, _ = litOf(f)
		}
		c.ob("failure", "after a failure of "+what+" main does not end normally", f == nil, "main returns at "+p.pos(x.pos)+" after "+what+" failed")
	}
}
