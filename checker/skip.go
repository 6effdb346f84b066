package main

import (
	"golang.org/x/tools/go/ssa"
)

// Functions that skip white space: they return the text from the first byte
// on that is no space, and maybe how many bytes they skipped.

type skipFn struct {
	fn       *ssa.Function
	ri, ni   int
	emptyNil bool // they return nil where only spaces are left
	emptyAny bool // or the empty end of the text
	fns      map[*ssa.Function]bool
}

var spaceSet = bsetOf(" \t\r\n")

// skipper proves that a function skips white space.
func (w *decWorld) skipper(fn *ssa.Function) *skipFn {
	if r, ok := w.skips[fn]; ok {
		return r
	}
	w.skips[fn] = nil
	if fn.Blocks == nil || !w.c.p.mine(fn) || len(fn.Params) != 1 || !isByteSlice(fn.Params[0].Type()) {
		return nil
	}
	res := fn.Signature.Results()
	k := &skipFn{fn: fn, ri: -1, ni: -1}
	for i := 0; i < res.Len(); i++ {
		switch {
		case isByteSlice(res.At(i).Type()) && k.ri < 0:
			k.ri = i
		case isInt(res.At(i).Type()) && k.ni < 0:
			k.ni = i
		default:
			return nil
		}
	}
	if k.ri < 0 {
		return nil
	}
	e := newEngine(w.c.p)
	e.max = 3000
	s := newState()
	arg := e.wrap(freshSym("b", fn.Params[0].Type()))
	in, _ := asSlice(arg)
	// only white space leads from the start of a text back to it
	addAnchor(s, in.base, in.lo, qset{"W"})
	e.qMerge = func(e *Engine, s *State) { e.qUpdate(s) }
	e.start(s, fn, []V{arg}, nil)
	e.run()
	if e.fail != "" || len(e.exits) == 0 {
		return nil
	}
	for _, x := range e.exits {
		if x.panic {
			return nil
		}
		r := x.res[k.ri]
		m := in.hi
		if _, ok := r.(*VNil); ok {
			k.emptyNil = true
		} else {
			sl, ok := asSlice(r)
			if !ok || sl.base != in.base || x.s.decEQ(sl.hi.sub(in.hi)) != 1 {
				return nil
			}
			m = sl.lo
			if x.s.decEQ(m.sub(in.hi)) != 0 {
				k.emptyAny = true
			}
		}
		if x.s.decEQ(m.sub(in.hi)) != 1 {
			if !x.s.byteSet(in.base, m).and(spaceSet).empty() {
				return nil
			}
		}
		if x.s.decEQ(m.sub(in.lo)) != 1 {
			q, ok := e.qAt(x.s, in.base, m)
			if !ok || len(q) != 1 || q[0] != "W" {
				return nil
			}
		}
		if k.ni >= 0 {
			n, ok := toInt(x.res[k.ni])
			if !ok || x.s.decEQ(n.sub(m.sub(in.lo))) != 1 {
				return nil
			}
		}
	}
	k.fns = e.fns
	w.skips[fn] = k
	return k
}

// apply models a call of the function.
func (k *skipFn) apply(e *Engine, s *State, args []V) []outcome {
	for f := range k.fns {
		e.fns[f] = true
	}
	res := k.fn.Signature.Results()
	mk := func(r V, n Int) V {
		out := make([]V, res.Len())
		for i := range out {
			if i == k.ri {
				out[i] = r
			} else {
				out[i] = n
			}
		}
		return pack(out)
	}
	if _, ok := args[0].(*VNil); ok {
		if k.emptyNil {
			return []outcome{{s, mk(args[0], ic(0))}}
		}
		return nil
	}
	sl, ok := asSlice(args[0])
	if !ok || tokenSyms[sl.base] {
		return nil
	}
	q, okq := e.qAt(s, sl.base, sl.lo)
	same := okq
	for _, st := range q {
		if st == "?" || jStep(st, ' ') != st {
			same = false
		}
	}
	var out []outcome
	rest := func(m Int) V { return &VSlice{sl.base, m, sl.hi, false, sl.et} }
	if !same {
		// no space
		s1 := s.fork()
		if s1.assumeLE(sl.lo.addc(1).sub(sl.hi)) && s1.narrow(sl.base, sl.lo, spaceSet.not()) {
			out = append(out, outcome{s1, mk(rest(sl.lo), ic(0))})
		}
	}
	if okq {
		if !same {
			q = q.step(spaceSet)
		}
		q = q.closure(spaceSet)
	}
	// some spaces
	s2 := s.fork()
	m := it(freshSym("m", intT))
	low := sl.lo
	if !same {
		low = low.addc(1)
	}
	if s2.assumeLE(low.sub(m)) && s2.assumeLE(m.addc(1).sub(sl.hi)) && s2.narrow(sl.base, m, spaceSet.not()) {
		if !same && !s2.narrow(sl.base, sl.lo, spaceSet) {
			goto end
		}
		if okq {
			addAnchor(s2, sl.base, m, q)
		}
		out = append(out, outcome{s2, mk(rest(m), m.sub(sl.lo))})
	}
end:
	// nothing but spaces
	s3 := s
	if okq && !same {
		s4 := s.fork()
		if s4.assumeEQ(sl.lo.sub(sl.hi)) {
			if k.emptyNil {
				out = append(out, outcome{s4.fork(), mk(&VNil{byteSliceT}, sl.hi.sub(sl.lo))})
			}
			if k.emptyAny {
				out = append(out, outcome{s4, mk(rest(sl.hi), sl.hi.sub(sl.lo))})
			}
		}
		if !s3.assumeLE(sl.lo.addc(1).sub(sl.hi)) || !s3.narrow(sl.base, sl.lo, spaceSet) {
			return out
		}
	}
	if okq {
		addAnchor(s3, sl.base, sl.hi, q)
	}
	if k.emptyNil {
		out = append(out, outcome{s3.fork(), mk(&VNil{byteSliceT}, sl.hi.sub(sl.lo))})
	}
	if k.emptyAny {
		out = append(out, outcome{s3, mk(rest(sl.hi), sl.hi.sub(sl.lo))})
	}
	return out
}
