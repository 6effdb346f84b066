package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C31", level: "other", run: runC31,
		rule:  "The exported function that recognises colour terminals is interpreted for every class of values of the environment variables, every kind of writer and every answer of the operating system, on Unix and on Windows; an obligation is one row of the decision table.",
		assum: []string{"golang.org/x/term.IsTerminal, and GetConsoleMode and SetConsoleMode of golang.org/x/sys/windows, tell the truth about a file descriptor"},
	})
}

const (
	envUnset = iota
	envEmpty
	envDumb
	envOther
)

var envNames = []string{"unset", "empty", "dumb", "other"}

// envGet forks over the classes of values of an environment variable.
func envGet(s *State, name string) []*State {
	k := "env:" + name
	if s.ghost[k] != nil {
		return []*State{s}
	}
	var r []*State
	for i := envUnset; i <= envOther; i++ {
		n := s.fork()
		n.wghost()[k] = ic(int64(i))
		r = append(r, n)
	}
	return r
}

func envVal(s *State, name string) V {
	switch s.ghost["env:"+name].(Int).c {
	case envUnset, envEmpty:
		return strV("")
	case envDumb:
		return strV("dumb")
	}
	b := mk("envval", name, stringT)
	n := it(mk("len", "", intT, b))
	s.assumeLE(ic(1).sub(n))
	v := &VSlice{b, ic(0), n, true, types.Typ[types.Uint8]}
	s.wfacts()[mk("seqeq", "", boolT, v, strV("dumb"))] = false
	return v
}

func termModels(e *Engine, fail func(what, msg string)) {
	e.ghostLive = func(s *State, rn *renamer, k string) bool { return true }
	name := func(a V) (string, bool) {
		n, ok := litOf(a)
		if !ok {
			fail("environment variables have fixed names", vstr(a))
		}
		return n, ok
	}
	e.override["os.Getenv"] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		n, _ := name(a[0])
		var r []outcome
		for _, x := range envGet(s, n) {
			r = append(r, outcome{x, envVal(x, n)})
		}
		return r
	}
	e.override["os.LookupEnv"] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		n, _ := name(a[0])
		var r []outcome
		for _, x := range envGet(s, n) {
			r = append(r, outcome{x, pairT(envVal(x, n), VBool(x.ghost["env:"+n].(Int).c != envUnset))})
		}
		return r
	}
	e.override["(*os.File).Fd"] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		return ret1(s, it(mk("fd", "", types.Typ[types.Uintptr], a[0])))
	}
	// answer forks over the answers of the operating system about the file
	answer := func(s *State, fd V, k string) []*State {
		k += ":" + vkey(stripConv(fd))
		if s.ghost[k] != nil {
			return []*State{s}
		}
		y, n := s.fork(), s
		y.wghost()[k] = VBool(true)
		n.wghost()[k] = VBool(false)
		return []*State{y, n}
	}
	ans := func(s *State, fd V, k string) bool { return bool(s.ghost[k+":"+vkey(stripConv(fd))].(VBool)) }
	e.override["golang.org/x/term.IsTerminal"] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		var r []outcome
		for _, x := range answer(s, a[0], "tty") {
			r = append(r, outcome{x, VBool(ans(x, a[0], "tty"))})
		}
		return r
	}
	e.override["golang.org/x/sys/windows.GetConsoleMode"] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		var r []outcome
		for _, x := range answer(s, a[0], "console") {
			if !ans(x, a[0], "console") {
				r = append(r, outcome{x, mk("newerr", "GetConsoleMode", errT)})
				continue
			}
			for m := int64(0); m < 8; m++ {
				// the bits that matter, and one that does not
				y := x.fork()
				mode := m&1 | m&2<<1 | m&4<<1
				y.wghost()["mode"] = ic(mode)
				e.store(y, c, a[1], ic(mode))
				r = append(r, outcome{y, &VNil{errT}})
			}
		}
		return r
	}
	e.override["golang.org/x/sys/windows.SetConsoleMode"] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		var r []outcome
		for _, x := range answer(s, a[0], "set") {
			if !ans(x, a[0], "set") {
				r = append(r, outcome{x, mk("newerr", "SetConsoleMode", errT)})
				continue
			}
			x.wghost()["mode"] = a[1]
			r = append(r, outcome{x, &VNil{errT}})
		}
		return r
	}
}

func stripConv(v V) V {
	for {
		i, ok := v.(Int)
		if !ok || i.single() == nil || i.single().op != "conv" && i.single().op != "trunc" || len(i.single().args) == 0 {
			return v
		}
		v = i.single().args[0]
	}
}

func runC31(c *Ctx) {
	progs := map[string]*Prog{"unix": c.p}
	win, err := load("GOOS=windows")
	if c.need(err == nil, "Windows build", fmt.Sprint("the program does not type-check for Windows: ", err)) {
		progs["windows"] = win
	}
	for _, os := range []string{"unix", "windows"} {
		if p := progs[os]; p != nil {
			termTable(c, p, os)
		}
	}
}

func termTable(c *Ctx, p *Prog, os string) {
	fn := p.fn("IsColorTerminal")
	if !c.need(fn != nil && len(fn.Params) == 1, os+": IsColorTerminal", "the function does not exist") {
		return
	}
	fileT := fileType(p, fn)
	if !c.need(fileT != nil, os+": *os.File", "package os is not imported") {
		return
	}
	ft := types.NewPointer(fileT)
	for _, w := range []string{"nil", "file", "other"} {
		e := newEngine(p)
		termModels(e, func(what, msg string) { c.fail("table", os+": "+what, msg) })
		s := newState()
		var arg V
		file := mk("sym", "file", ft)
		switch w {
		case "nil":
			arg = &VNil{fn.Params[0].Type()}
		case "file":
			s.wfacts()[mk("isnil", "", boolT, file)] = false
			arg = &VIface{ft, file}
		case "other":
			t := mk("sym", "writer", fn.Params[0].Type())
			s.wfacts()[mk("isa", tstr(ft), boolT, t)] = false
			s.wfacts()[mk("isnil", "", boolT, t)] = false
			arg = t
		}
		e.start(s, fn, []V{arg}, nil)
		e.run()
		c.addEngine(e)
		c.ob("table", os+": writer "+w+" is decided", e.fail == "" && len(e.exits) > 0, e.fail)
		for _, x := range e.exits {
			if x.panic {
				c.fail("table", os+": writer "+w+" does not panic", x.why)
				continue
			}
			for _, val := range []bool{true, false} {
				for _, y := range e.assume(x.s.fork(), x.res[0], val) {
					termRow(c, p, os, w, y, val, vkey(it(mk("fd", "", types.Typ[types.Uintptr], file))), p.pos(x.pos))
				}
			}
		}
	}
}

func fileType(p *Prog, fn *ssa.Function) types.Type {
	for _, q := range p.main.Pkg.Imports() {
		if q.Path() == "os" {
			if o := q.Scope().Lookup("File"); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

// termRow compares one class of situations with the documented rules.
func termRow(c *Ctx, p *Prog, os, w string, s *State, got bool, fd, pos string) {
	classes := func(name string) []int64 {
		if v, ok := s.ghost["env:"+name].(Int); ok {
			return []int64{v.c}
		}
		return []int64{0, 1, 2, 3}
	}
	for k := range s.ghost {
		if pre, _, ok := strings.Cut(k, ":"); !ok || pre != "env" && pre != "tty" && pre != "console" && pre != "set" {
			continue
		}
		switch k {
		case "env:NO_COLOR", "env:FORCE_COLOR", "env:TERM", "tty:" + fd, "console:" + fd, "set:" + fd:
		default:
			c.fail("table", os+": the decision depends on the documented facts only", "it depends on "+k)
			return
		}
	}
	for _, no := range classes("NO_COLOR") {
		for _, force := range classes("FORCE_COLOR") {
			for _, term := range classes("TERM") {
				row := fmt.Sprintf("%s: writer %s, NO_COLOR %s, FORCE_COLOR %s, TERM %s", os, w, envNames[no], envNames[force], envNames[term])
				want := "terminal"
				switch {
				case no >= envDumb:
					want = "no"
				case force >= envDumb:
					want = "yes"
				case term == envDumb, w != "file":
					want = "no"
				}
				ok, why := false, ""
				switch want {
				case "yes":
					ok, why = got, "colour is not recognised although it is forced"
				case "no":
					ok, why = !got, "colour is recognised although it is ruled out"
				case "terminal":
					ok, why = termFile(s, os, fd, got)
				}
				c.ob("table", row, ok, why+" (return at "+pos+")")
			}
		}
	}
}

// termFile decides the rows in which the file descriptor matters.
func termFile(s *State, os, fd string, got bool) (bool, string) {
	is := func(k string) int {
		v, ok := s.ghost[k+":"+fd].(VBool)
		if !ok {
			return -1
		}
		if v {
			return 1
		}
		return 0
	}
	if os == "unix" {
		switch is("tty") {
		case 1:
			return got, "a terminal is not recognised"
		case 0:
			return !got, "a file that is no terminal is recognised"
		}
		return false, "the decision is made without asking whether the file is a terminal"
	}
	switch is("console") {
	case 0:
		return !got, "a file that is no console is recognised"
	case -1:
		return false, "the decision is made without asking whether the file is a console"
	}
	m, ok := s.ghost["mode"].(Int)
	if got {
		return ok && m.isConst() && m.c&5 == 5, "a console that does not process escape codes is recognised (mode " + vstr(s.ghost["mode"]) + ")"
	}
	return is("set") == 0, "a console that can process escape codes is not recognised"
}
