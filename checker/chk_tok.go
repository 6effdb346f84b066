package main

import (
	"fmt"
	"go/types"
)

func init() {
	register(&Check{id: "C28", level: "other", run: runC28,
		rule:  "every path of Tokenizer.Next, for every state of the tokenizer and every input: an obligation is an exit (an earlier error is kept; true is returned only without an error and with a token; an error makes it return false; the token and the rest are adjacent parts of the input, behind nothing but white space; a token without a delimiter is a complete scalar) or an index or slice expression",
		assum: []string{"the exported fields of the tokenizer are only set by its methods"}})
}

func runC28(c *Ctx) {
	w := newDecWorld(c)
	if w == nil {
		return
	}
	w.tokenizer()
	c.take(w.obl, func(o *Obligation) bool { return o.rule != "depth" })
}

// tokenizer explores the method that returns the next token.
func (w *decWorld) tokenizer() {
	c := w.c
	tT := c.p.named("Tokenizer")
	fn := c.p.fn("(*Tokenizer).Next")
	if !c.need(tT != nil && fn != nil && len(fn.Params) == 1, "Tokenizer.Next", "the method does not exist") {
		return
	}
	st, ok := tT.Underlying().(*types.Struct)
	if !c.need(ok, "Tokenizer", "the tokenizer is not a struct") {
		return
	}
	fi := map[string]int{}
	text := -1
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Exported() {
			fi[f.Name()] = i
		} else if isByteSlice(f.Type()) {
			text = i
		}
	}
	for _, n := range []string{"Delim", "Value", "Err"} {
		if _, ok := fi[n]; !c.need(ok, "Tokenizer."+n, "the field does not exist") {
			return
		}
	}
	if !c.need(text >= 0, "text of the tokenizer", "the tokenizer holds no text") {
		return
	}
	w.exact = true
	e := w.engine(fn)
	e.exact = true
	e.oblig = w.obl
	bb := &bounds{map[string]string{}, map[string]bool{}}
	bb.hook(e)
	s := newState()
	recv, o, v0 := structArg(e, s, "t", tT)
	in, ok := asSlice(v0.f[text])
	if !c.need(ok, "text", "the text of the tokenizer is not followed") {
		return
	}
	s.wghost()["root"] = &VTuple{[]V{in, ic(0)}}
	addAnchor(s, in.base, in.lo, qset{"W"})
	e.watchInput("the input", isInput(in.base))
	e.start(s, fn, []V{recv}, nil)
	e.run()
	c.addEngine(e)
	if e.fail != "" {
		e.obl("engine", "analysis of "+fn.Name(), false, e.fail)
	}
	for k := range bb.ok {
		e.obl("bounds", k, true, "")
	}
	for k, m := range bb.fail {
		e.obl("bounds", k, false, m)
	}
	n := 0
	for _, x := range e.exits {
		where := fn.Name() + " returns at " + e.P.pos(x.pos)
		if x.panic {
			e.obl("panic", fn.Name()+": "+x.why, false, x.why)
			continue
		}
		n++
		v1, ok := x.s.heap[o].(*VStruct)
		if !ok {
			e.obl("engine", "state at "+where, false, "internal: the fields are not known")
			continue
		}
		err0, err1 := e.nilness(x.s, v0.f[fi["Err"]]), e.nilness(x.s, v1.f[fi["Err"]])
		val, known := x.res[0].(VBool)
		yes, no := !known || bool(val), !known || !bool(val)
		if !known {
			if t, ok := x.res[0].(*Term); ok {
				if b, ok := x.s.facts[t]; ok {
					yes, no = b, !b
				}
			}
		}
		if err0 != 0 {
			same := err0 == 1 && vkey(v1.f[fi["Err"]]) == vkey(v0.f[fi["Err"]]) && vkey(v1.f[text]) == vkey(v0.f[text])
			e.obl("sticky", where, same && !yes, fmt.Sprintf("an error was reported before, and the tokenizer goes on (result %s, error %s)", vstr(x.res[0]), vstr(v1.f[fi["Err"]])))
			continue
		}
		if yes {
			e.obl("no error", where, err1 == 0, "true is returned with the error "+vstr(v1.f[fi["Err"]]))
		}
		if err1 != 0 {
			e.obl("error", where, !yes, "an error is stored and the result is "+vstr(x.res[0]))
		}
		tok, ok1 := asSlice(v1.f[fi["Value"]])
		rest, ok2 := asSlice(v1.f[text])
		if yes {
			if !ok1 || !ok2 || tok.base != in.base || rest.base != in.base {
				e.obl("token", where, false, "the token is not a part of the input: "+vstr(v1.f[fi["Value"]])+" before "+vstr(v1.f[text]))
				continue
			}
			e.obl("token", where, x.s.decLE(tok.lo.addc(1).sub(tok.hi)) == 1, "the token may be empty: "+vstr(tok))
			e.obl("token", where, x.s.decEQ(tok.hi.sub(rest.lo)) == 1 && x.s.decEQ(rest.hi.sub(in.hi)) == 1, "the rest "+vstr(rest)+" is not what follows the token "+vstr(tok))
			q, okq := e.qAt(x.s, in.base, tok.lo)
			good := okq
			for _, st := range q {
				good = good && st == "W"
			}
			e.obl("token", where, good, fmt.Sprintf("something else than white space is skipped before the token (state %.80s)%s", q, dbgState(x.s)))
			d, isInt := toInt(v1.f[fi["Delim"]])
			if isInt && x.s.decEQ(d) != 0 {
				q, okq := e.qAt(x.s, in.base, tok.hi)
				e.obl("scalar", where, okq && q.all(jAccept), fmt.Sprintf("a token that is no delimiter may be no scalar (state %.80s)%s", q, dbgState(x.s)))
			}
		}
		if no && err1 != 1 && !yes {
			// the end of the input
			end := ok2 && x.s.decEQ(rest.hi.sub(rest.lo)) == 1
			_, isNil := v1.f[text].(*VNil)
			q, okq := e.qAt(x.s, in.base, in.hi)
			e.obl("end", where, end || isNil, "false is returned without an error before the end of the input")
			e.obl("end", where, okq && q.all(func(s string) bool { return s == "W" }), fmt.Sprintf("the end is reported, but there is more than white space (state %.80s)%s", q, dbgState(x.s)))
		}
	}
	c.need(n >= 3, "exits", fmt.Sprintf("only %d exits were found", n))
}
