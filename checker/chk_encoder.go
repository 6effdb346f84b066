package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{id: "C12", level: "other", run: runC12,
		rule:  "every path of Encoder.Encode, for every state of the encoder, with the encoding of the value and the write failing or not: an obligation is a write (it has the encoding of the value, a newline and nothing else, and nothing was written before), or an exit (what is returned and stored agrees with what failed)",
		assum: []string{"the function that appends an encoding to a buffer keeps the buffer and appends one value (C01, C18)"}})
}

func runC12(c *Ctx) {
	p := c.p
	encT := p.named("Encoder")
	fn := p.fn("(*Encoder).Encode")
	if !c.need(encT != nil && fn != nil && len(fn.Params) == 2, "Encoder.Encode", "the method does not exist") {
		return
	}
	st, ok := encT.Underlying().(*types.Struct)
	if !c.need(ok, "Encoder", "the encoder is not a struct") {
		return
	}
	errF := -1
	for i := 0; i < st.NumFields(); i++ {
		if isErrorT(st.Field(i).Type()) {
			errF = i
		}
	}
	if !c.need(errF >= 0, "error of the encoder", "the encoder has no field that keeps an error") {
		return
	}
	e := newEngine(p)
	e.oblig = c.obl
	encodings := 0
	var encSl *VSlice
	e.callHook = func(e *Engine, s *State, f *ssa.Function, args []V) []outcome {
		if o := noBuild(p)(e, s, f, args); o != nil {
			return o
		}
		sig := f.Signature
		if f == fn || !p.inMain(f) || sig.Results().Len() != 2 || !isByteSlice(sig.Results().At(0).Type()) || !isErrorT(sig.Results().At(1).Type()) {
			return nil
		}
		dst, val := -1, -1
		for i, q := range f.Params {
			if isByteSlice(q.Type()) && dst < 0 {
				dst = i
			}
			if vkey(args[i]) == vkey(s.ghost["value"]) {
				val = i
			}
		}
		if val < 0 {
			return nil
		}
		encodings++
		e.fns[f] = true
		if dst >= 0 {
			n := e.length(s, args[dst])
			e.obl("buffer", "the buffer given to "+f.Name()+" is empty", s.decEQ(n) == 1, "its length is "+vstr(n)+" ("+e.stack(s)+")")
		}
		s2 := s.fork()
		s2.wghost()["encode"] = ic(1)
		o := e.wrap(mk("sym", "encoding", sig.Results().At(0).Type()))
		if sl, ok := asSlice(o); ok {
			encSl = sl
			s.assumeLE(sl.lo.addc(1).sub(sl.hi))
		}
		part := e.wrap(freshSym("partial", sig.Results().At(0).Type()))
		return []outcome{{s, pack([]V{o, &VNil{errT}})}, {s2, pack([]V{part, mk("newerr", "encode", errT)})}}
	}
	// whole reports whether a node of the output is the encoding and a newline.
	var whole func(n *Node, tail string, depth int) bool
	whole = func(n *Node, tail string, depth int) bool {
		if encSl != nil && n == e.g.start(vkey(encSl)) {
			return tail == "\n"
		}
		if len(n.in) == 0 || depth > 8 {
			return false
		}
		for _, x := range n.in {
			switch x.l.k {
			case LLit:
				if !whole(x.from, x.l.s+tail, depth+1) {
					return false
				}
			case LEps:
				if !whole(x.from, tail, depth+1) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	writes := 0
	e.invokeHook = func(e *Engine, s *State, ins ssa.CallInstruction, recv V, name string, args []V) []outcome {
		sig := ins.Common().Signature()
		if name != "Write" || sig.Results().Len() != 2 || len(args) != 1 {
			return nil
		}
		writes++
		at := "write in " + ins.Parent().Name() + " at " + p.pos(ins.Pos())
		e.obl("write", at+" after a successful encoding", s.ghost["encode"] == nil, "a failed encoding is written ("+e.stack(s)+")")
		e.obl("write", at+" is the only one", s.ghost["written"] == nil, "something was written before ("+e.stack(s)+")")
		o := e.asOut(s, args[0])
		e.obl("write", at+" has the value and a newline", s.ghost["encode"] != nil || o != nil && o.hole == nil && whole(o.n, "", 0), "it is not the encoding of the value, a newline and nothing else ("+e.stack(s)+")")
		s.wghost()["written"] = ic(1)
		s2 := s.fork()
		s2.wghost()["write"] = ic(1)
		return []outcome{{s, pack([]V{it(freshSym("n", intT)), &VNil{errT}})}, {s2, pack([]V{it(freshSym("n", intT)), mk("newerr", "write", errT)})}}
	}
	s := newState()
	recv, o, v0 := structArg(e, s, "enc", encT)
	val := e.wrap(mk("sym", "v", fn.Params[1].Type()))
	s.wghost()["value"] = val
	e.start(s, fn, []V{recv, val}, nil)
	e.run()
	c.addEngine(e)
	c.ob("exit", "Encode is decided", e.fail == "" && len(e.exits) > 0, e.fail)
	c.need(encodings > 0, "encoding", "no function that appends the encoding of the value to a buffer was found below Encode")
	c.need(writes > 0, "write", "no write to the writer was found below Encode")
	for _, x := range e.exits {
		where := "Encode returns at " + p.pos(x.pos)
		if x.panic {
			if !strings.HasPrefix(x.why, "call on nil interface") {
				c.fail("exit", where, x.why)
			}
			continue
		}
		v1, ok := x.s.heap[o].(*VStruct)
		if !ok {
			c.fail("exit", where, "internal: the fields are not known")
			continue
		}
		ret := e.nilness(x.s, x.res[0])
		old := e.nilness(x.s, v0.f[errF])
		switch {
		case x.s.ghost["encode"] != nil:
			c.ob("exit", where, ret == 1, "the encoding failed, and the error returned is "+vstr(x.res[0]))
			c.ob("exit", where, x.s.ghost["written"] == nil, "the encoding failed, and something was written")
		case x.s.ghost["write"] != nil:
			c.ob("exit", where, ret == 1, "the write failed, and the error returned is "+vstr(x.res[0]))
			c.ob("sticky", where, e.nilness(x.s, v1.f[errF]) == 1, "the write failed, and no error is kept")
		case x.s.ghost["written"] != nil:
			c.ob("exit", where, old == 0, "something is written although an earlier write may have failed")
			c.ob("exit", where, ret == 0, "the write succeeded, and the error returned is "+vstr(x.res[0]))
			c.ob("sticky", where, e.nilness(x.s, v1.f[errF]) == 0, "the write succeeded, and an error is kept")
		default:
			// nothing was encoded or written
			c.ob("exit", where, ret == 1, "nothing is written, and the error returned is "+vstr(x.res[0]))
			c.ob("sticky", where, old != 1 || vkey(v1.f[errF]) == vkey(v0.f[errF]), "the kept error is changed")
		}
	}
}
