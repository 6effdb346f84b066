package main

import "go/types"

// Slices whose elements are known one by one: local stacks and lists that the
// analysed code builds with make and append.

const listMax = 4

// listOf returns the elements of such a slice.
func (e *Engine) listOf(s *State, v V) (*Obj, int64, []V, bool) {
	sl, ok := v.(*VSlice)
	if !ok || sl.base.op != "list" || !sl.lo.isConst() || !sl.hi.isConst() {
		return nil, 0, nil, false
	}
	o := sl.base.args[0].(objRef).o
	t, ok := s.heap[o].(*VTuple)
	if !ok || sl.lo.c < 0 || sl.lo.c > sl.hi.c || sl.hi.c > int64(len(t.e)) {
		return nil, 0, nil, false
	}
	return o, sl.lo.c, t.e[sl.lo.c:sl.hi.c], true
}

func (e *Engine) newList(s *State, t types.Type, elems []V) *VSlice {
	o := newObj("list", t)
	s.wheap()[o] = &VTuple{elems}
	return &VSlice{mk("list", "", t, objRef{o}), ic(0), ic(int64(len(elems))), false, elemOf(t)}
}

func (e *Engine) makeList(s *State, t types.Type, n Int) (V, bool) {
	if !e.lists || isByteSlice(t) || !n.isConst() || n.c < 0 || n.c > listMax {
		return nil, false
	}
	var el []V
	for i := int64(0); i < n.c; i++ {
		el = append(el, zeroV(elemOf(t)))
	}
	return e.newList(s, t, el), true
}

// appendList models append for such slices.
func (e *Engine) appendList(s *State, rt types.Type, a, b V) (V, bool) {
	if !e.lists {
		return nil, false
	}
	var add []V
	if _, _, el, ok := e.listOf(s, b); ok {
		add = el
	} else {
		sl, ok := b.(*VSlice)
		if !ok || sl.base.op != "arr" || !sl.lo.isConst() || !sl.hi.isConst() {
			return nil, false
		}
		r, ok := sl.base.args[0].(objRef)
		if !ok || sl.base.aux != "" {
			return nil, false
		}
		st, ok := s.heap[r.o].(*VStruct)
		if !ok || sl.lo.c < 0 || sl.hi.c > int64(len(st.f)) {
			return nil, false
		}
		add = st.f[sl.lo.c:sl.hi.c]
	}
	if n, ok := a.(*VNil); ok {
		_ = n
		if len(add) > listMax {
			return nil, false
		}
		return e.newList(s, rt, append([]V(nil), add...)), true
	}
	if sl, ok := a.(*VSlice); ok && sl.base.op == "arr" && sl.lo.isConst() && sl.hi.isConst() && sl.lo.c == sl.hi.c && len(add) <= listMax {
		// an empty part of a new array: the array is not used otherwise
		if r, ok := sl.base.args[0].(objRef); ok && sl.base.aux == "" && !r.o.perm {
			return e.newList(s, rt, append([]V(nil), add...)), true
		}
	}
	o, lo, el, ok := e.listOf(s, a)
	if !ok || len(el)+len(add) > listMax {
		return nil, false
	}
	t := s.heap[o].(*VTuple)
	all := append(append(append([]V(nil), t.e[:lo]...), el...), add...)
	s.wheap()[o] = &VTuple{all}
	sl := a.(*VSlice)
	return &VSlice{sl.base, sl.lo, ic(int64(len(all))), false, sl.et}, true
}

// listElem reads an element, storeList writes one.
func (e *Engine) listElem(s *State, sl *VSlice, idx Int, et types.Type) V {
	if _, _, el, ok := e.listOf(s, sl); ok && idx.isConst() && idx.c >= 0 && idx.c < int64(len(el)) {
		return el[idx.c]
	}
	return e.wrap(freshSym("element", et))
}

func (e *Engine) storeList(s *State, a *VElem, sl *VSlice, v V) {
	o, lo, el, ok := e.listOf(s, sl)
	if !ok {
		o = sl.base.args[0].(objRef).o
		e.havocList(s, o)
		return
	}
	if !a.idx.isConst() || a.idx.c < 0 || a.idx.c >= int64(len(el)) {
		e.havocList(s, o)
		return
	}
	n := append([]V(nil), s.heap[o].(*VTuple).e...)
	i := lo + a.idx.c
	n[i] = e.storePath(s, n[i], a.et, a.path, v)
	s.wheap()[o] = &VTuple{n}
}

func (e *Engine) havocList(s *State, o *Obj) {
	if t, ok := s.heap[o].(*VTuple); ok {
		n := &VTuple{}
		for range t.e {
			n.e = append(n.e, e.wrap(freshSym("element", elemOf(o.t))))
		}
		s.wheap()[o] = n
	}
}

// genLists keeps of the numbers in lists only whether they are 0, 1 or more,
// and drops elements that no slice reaches any more.
func (e *Engine) genLists(s *State) {
	reach := map[*Obj]int64{}
	var visit func(v V) (V, bool)
	visit = func(v V) (V, bool) {
		if sl, ok := v.(*VSlice); ok && sl.base.op == "list" {
			o := sl.base.args[0].(objRef).o
			n := int64(1 << 30)
			if sl.hi.isConst() {
				n = sl.hi.c
			}
			if n > reach[o] {
				reach[o] = n
			}
		}
		return nil, false
	}
	for _, f := range s.frames {
		for _, v := range f.regs {
			mapV(v, visit)
		}
	}
	for _, v := range s.heap {
		mapV(v, visit)
	}
	for _, v := range s.ghost {
		mapV(v, visit)
	}
	for o, n := range reach {
		t, ok := s.heap[o].(*VTuple)
		if !ok {
			continue
		}
		el := t.e
		if int64(len(el)) > n {
			el = el[:n]
		}
		r := &VTuple{}
		ch := len(el) != len(t.e)
		gen := func(v V) V {
			x, ok := v.(Int)
			if !ok || x.isConst() && x.c < 2 || s.decLE(ic(1).sub(x)) != 1 {
				return v
			}
			if y := x.single(); y != nil && y.fresh && y.aux == "many" {
				return v
			}
			ch = true
			y := freshSym("many", intT)
			s.assumeLE(ic(1).sub(it(y)))
			return it(y)
		}
		for _, v := range el {
			if st, ok := v.(*VStruct); ok {
				n := &VStruct{t: st.t}
				for _, f := range st.f {
					n.f = append(n.f, gen(f))
				}
				r.e = append(r.e, n)
			} else {
				r.e = append(r.e, gen(v))
			}
		}
		if ch {
			s.wheap()[o] = r
		}
	}
}
