package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Output buffers.

func (e *Engine) startOf(o *VOut) *Node {
	return e.g.start("empty")
}

// asOut views a byte slice as an output buffer.
func (e *Engine) asOut(s *State, v V) *VOut {
	switch x := v.(type) {
	case *VOut:
		return e.settleOut(s, x)
	case *VNil:
		return &VOut{n: e.g.start("empty")}
	}
	if sl, ok := asSlice(v); ok {
		if e.onAppend != nil {
			e.onAppend(e, s, nil, v)
		}
		if sl.base.op == "obj" {
			if t, ok := s.heap[sl.base.args[0].(objRef).o].(*VTuple); ok && len(t.e) == 3 {
				if o, ok := t.e[2].(*VOut); ok && s.decEQ(sl.lo) == 1 && s.decEQ(sl.hi.sub(e.length(s, o))) == 1 {
					return e.settleOut(s, o)
				}
			}
		}
		if s.decEQ(sl.hi.sub(sl.lo)) == 1 {
			if sl.base.op == "obj" || sl.base.op == "arr" || sl.base.op == "nilslice" {
				return &VOut{n: e.g.start("empty")}
			}
			return &VOut{n: e.g.start("empty@" + vkey(sl.base))}
		}
		return &VOut{n: e.g.start(vkey(sl))}
	}
	return &VOut{n: e.g.start(vkey(v))}
}

var dbgEmit = os.Getenv("DBGEMIT") != ""

func (e *Engine) emit(s *State, o *VOut, l *Label) *VOut {
	f := s.top()
	pos := f.blk.Instrs[f.pc].Pos()
	return &VOut{n: e.g.step(o.n, l, pos, f.fn.Name(), e.stack(s))}
}

func (e *Engine) bad(s *State, o *VOut, msg string) *VOut {
	return e.emit(s, o, &Label{k: LBad, s: msg})
}

// settle commits the pending parts of an output.
func (e *Engine) settle(s *State, v V) V {
	if o, ok := v.(*VOut); ok {
		return e.settleOut(s, o)
	}
	return v
}

func (e *Engine) settleAll(s *State) {
	need := false
	chk := func(v V) (V, bool) {
		if o, ok := v.(*VOut); ok {
			if len(o.pend) > 0 || o.hole != nil && e.holeFull(s, o) {
				need = true
			}
			return v, true
		}
		return nil, false
	}
	for k := range s.ghost {
		if strings.HasPrefix(k, "ow:") {
			need = true
		}
	}
	e.mapState(s, chk)
	if !need {
		return
	}
	e.mapState(s, func(v V) (V, bool) {
		if o, ok := v.(*VOut); ok {
			if o.hole != nil && !e.holeFull(s, o) {
				return v, true
			}
			return e.settleOut(s, o), true
		}
		return nil, false
	})
}

type tile struct {
	lo, hi Int
	v      V
}

func (e *Engine) tiles(s *State, o *VOut) (Int, []tile) {
	h := s.heap[o.hole].(*VTuple)
	var ts []tile
	for _, x := range h.e[1:] {
		t := x.(*VTuple)
		ts = append(ts, tile{t.e[0].(Int), t.e[1].(Int), t.e[2]})
	}
	sort.SliceStable(ts, func(i, j int) bool { return s.decLE(ts[i].hi.sub(ts[j].lo)) == 1 })
	return h.e[0].(Int), ts
}

func (e *Engine) holeFull(s *State, o *VOut) bool {
	n, ts := e.tiles(s, o)
	at := ic(0)
	for _, t := range ts {
		if s.decEQ(t.lo.sub(at)) != 1 {
			return false
		}
		at = t.hi
	}
	return s.decEQ(at.sub(n)) == 1
}

func (e *Engine) settleOut(s *State, o *VOut) *VOut {
	if ow, ok := s.ghost["ow:"+fmt.Sprint(o.n.id)]; ok && o.hole == nil {
		o = e.applyWrites(s, o, ow.(*VTuple))
	}
	if o.hole != nil {
		if !e.holeFull(s, o) {
			return e.bad(s, &VOut{n: o.n}, "output extended without writing all of it")
		}
		_, ts := e.tiles(s, o)
		r := &VOut{n: o.n}
		for _, t := range ts {
			r = e.emitVal(s, r, t.v)
		}
		return r
	}
	if len(o.pend) == 0 {
		return o
	}
	r := &VOut{n: o.n}
	return e.emitBytes(s, r, o.pend)
}

// VLab is a value that stands for modelled output.
type VLab struct{ l *Label }

func (x *VLab) write(w *kw) { w.s("lab:" + x.l.key()) }

func (e *Engine) emitVal(s *State, o *VOut, v V) *VOut {
	if l, ok := v.(*VLab); ok {
		return e.emit(s, o, l.l)
	}
	return e.emitBytes(s, o, []V{v})
}

func (e *Engine) emitBytes(s *State, o *VOut, bs []V) *VOut {
	lit := ""
	flush := func() {
		if lit != "" {
			o = e.emit(s, o, &Label{k: LLit, s: lit})
			lit = ""
		}
	}
	for _, b := range bs {
		switch x := b.(type) {
		case Int:
			if x.isConst() {
				lit += string([]byte{byte(x.c)})
				continue
			}
			flush()
			set := allBytes
			lo, hi := s.zone.lower(x), s.zone.upper(x)
			if lo >= 0 && hi <= 255 {
				set = bsetRange(int(lo), int(hi))
			}
			if t := x.single(); t != nil && t.op == "trunc" || lo < 0 || hi > 255 {
				set = allBytes
			}
			o = e.emit(s, o, &Label{k: LSet, set: set, v: x})
		case *BFn:
			flush()
			cur := s.byteSet(x.base, x.pos)
			var set bset
			for i := 0; i < 256; i++ {
				if cur.has(i) && x.tab[i] >= 0 && x.tab[i] < 256 {
					set.add(int(x.tab[i]))
				}
			}
			if c, ok := set.one(); ok {
				o = e.emit(s, o, &Label{k: LLit, s: string([]byte{byte(c)})})
			} else {
				o = e.emit(s, o, &Label{k: LSet, set: set, v: x})
			}
		default:
			flush()
			o = e.emit(s, o, &Label{k: LSet, set: e.setOf(s, b), v: b})
		}
	}
	flush()
	return o
}

// setOf bounds the value of an opaque byte.
func (e *Engine) setOf(s *State, v V) bset {
	if t, ok := v.(*Term); ok && t.op == "elem" {
		if b, ok := t.args[0].(*Term); ok && b.op == "str" {
			return bsetOf(b.aux)
		}
	}
	return allBytes
}

// bytesOf lists the bytes of a short sequence that is known byte by byte.
func (e *Engine) bytesOf(s *State, sl *VSlice) ([]V, bool) {
	if !sl.lo.isConst() || !sl.hi.isConst() || sl.hi.c-sl.lo.c > 256 {
		return nil, false
	}
	var r []V
	switch sl.base.op {
	case "str":
		for i := sl.lo.c; i < sl.hi.c && i < int64(len(sl.base.aux)); i++ {
			r = append(r, ic(int64(sl.base.aux[i])))
		}
		return r, true
	case "arr":
		ref, ok := sl.base.args[0].(objRef)
		if !ok || sl.base.aux != "" {
			return nil, false
		}
		st, ok := s.heap[ref.o].(*VStruct)
		if !ok {
			return nil, false
		}
		for i := sl.lo.c; i < sl.hi.c && i < int64(len(st.f)); i++ {
			r = append(r, st.f[i])
		}
		return r, true
	}
	return nil, false
}

// outAppend models append(dst, src...) on bytes.
func (e *Engine) outAppend(s *State, dst, src V) V {
	o := e.asOut(s, dst)
	if e.onOut != nil {
		e.onOut(e, s, src)
	}
	switch x := src.(type) {
	case *VNil:
		return o
	case *VOut:
		y := e.settleOut(s, x)
		return e.emit(s, o, &Label{k: LSub, a: e.g.start("empty"), b: y.n})
	}
	sl, ok := asSlice(src)
	if !ok {
		return e.emit(s, o, &Label{k: LRaw, v: src})
	}
	if s.decEQ(sl.hi.sub(sl.lo)) == 1 {
		return o
	}
	if bs, ok := e.bytesOf(s, sl); ok {
		return e.emitBytes(s, o, bs)
	}
	if sl.base.op == "obj" {
		if t, ok := s.heap[sl.base.args[0].(objRef).o].(*VTuple); ok && len(t.e) == 3 {
			if oo, ok := t.e[2].(*VOut); ok && s.decEQ(sl.lo) == 1 && s.decEQ(sl.hi.sub(e.length(s, oo))) == 1 {
				return e.outAppend(s, o, oo)
			}
		}
	}
	if sl.base.op == "region" && s.decEQ(sl.lo) == 1 {
		m, n := sl.base.args[0].(nodeRef).n, sl.base.args[1].(nodeRef).n
		d := it(mk("outlen", "", intT, nodeRef{n})).sub(e.nodeLen(m))
		if sl.hi.eq(d) || s.decEQ(sl.hi.sub(d)) == 1 {
			return e.emit(s, o, &Label{k: LSub, a: m, b: n})
		}
	}
	if sl.base.op == "label" && s.decEQ(sl.lo) == 1 && s.decEQ(sl.hi.sub(it(mk("len", "", intT, sl.base)))) == 1 {
		return e.emit(s, o, sl.base.args[0].(*VLab).l)
	}
	if l := e.segLabel(s, sl); l != nil {
		return e.emit(s, o, l)
	}
	return e.emit(s, o, &Label{k: LRaw, v: sl})
}

func (e *Engine) nodeLen(n *Node) Int {
	if n == e.g.start("empty") {
		return ic(0)
	}
	return it(mk("outlen", "", intT, nodeRef{n}))
}

// labelStr is a string value with modelled content.
func (e *Engine) labelStr(l *Label, str bool, t types.Type) V {
	b := mk("label", "", t, &VLab{l})
	return &VSlice{b, ic(0), it(mk("len", "", intT, b)), str, types.Typ[types.Uint8]}
}

// tail returns the offset of idx from the end of the output.
func (e *Engine) tailOff(s *State, o *VOut, idx Int) (int64, bool) {
	d := idx.sub(e.length(s, o))
	if d.isConst() {
		return d.c, true
	}
	u, l := s.zone.upper(d), s.zone.lower(d)
	if u == l {
		return u, true
	}
	return 0, false
}

func (e *Engine) tailBase(n *Node) *Term {
	return mk("tailof", "", types.NewSlice(types.Typ[types.Uint8]), nodeRef{n})
}

func (e *Engine) outByte(s *State, o *VOut, idx Int) V {
	k, ok := e.tailOff(s, o, idx)
	if !ok {
		return mk("outbyte", "", types.Typ[types.Uint8], nodeRef{o.n}, idx)
	}
	if p := int64(len(o.pend)) + k; p >= 0 && p < int64(len(o.pend)) {
		return o.pend[p]
	}
	k += int64(len(o.pend))
	if len(o.n.in) == 1 && o.n.in[0].l.k == LLit {
		l := o.n.in[0].l.s
		if i := int64(len(l)) + k; i >= 0 && i < int64(len(l)) {
			return ic(int64(l[i]))
		}
	}
	return e.byteAt(s, e.tailBase(o.n), ic(k))
}

func (e *Engine) outStore(s *State, o *VOut, idx Int, v V) {
	if o.hole != nil {
		rel := idx.sub(e.nodeLen(o.n))
		h := s.heap[o.hole].(*VTuple)
		n := &VTuple{append(append([]V(nil), h.e...), &VTuple{[]V{rel, rel.addc(1), v}})}
		s.wheap()[o.hole] = n
		return
	}
	k, ok := e.tailOff(s, o, idx)
	key := "ow:" + fmt.Sprint(o.n.id)
	w := &VTuple{}
	if g, ok := s.ghost[key].(*VTuple); ok {
		w.e = append(w.e, g.e...)
	}
	if !ok || k >= 0 {
		w.e = append(w.e, &VTuple{[]V{ic(1 << 40), v}})
	} else {
		w.e = append(w.e, &VTuple{[]V{ic(k), v}})
	}
	s.wghost()[key] = w
}

// decompose makes the last k bytes of the output explicit.
func (e *Engine) decompose(s *State, o *VOut, k int) (*VOut, bool) {
	for len(o.pend) < k {
		n := o.n
		if len(n.in) != 1 {
			return nil, false
		}
		ed := n.in[0]
		switch ed.l.k {
		case LLit:
			var p []V
			for i := 0; i < len(ed.l.s); i++ {
				p = append(p, ic(int64(ed.l.s[i])))
			}
			o = &VOut{n: ed.from, pend: append(p, o.pend...)}
		case LNum:
			if !strings.Contains(ed.l.s, "float") {
				return nil, false
			}
			tb := e.tailBase(n)
			f := func(i int64) bset { return s.byteSet(tb, ic(i)) }
			if !f(-4).sub(bsetOf("eE")) || !f(-3).sub(bsetOf("+-")) {
				return nil, false
			}
			m := e.g.step(ed.from, &Label{k: LMant, s: ed.l.s, v: ed.l.v}, ed.pos, ed.fn, ed.stack)
			s.narrow(tb, ic(-2), bsetRange('0', '9'))
			s.narrow(tb, ic(-1), bsetRange('0', '9'))
			p := []V{e.byteAt(s, tb, ic(-4)), e.byteAt(s, tb, ic(-3)), e.byteAt(s, tb, ic(-2)), e.byteAt(s, tb, ic(-1))}
			o = &VOut{n: m, pend: append(p, o.pend...)}
		case LSet:
			o = &VOut{n: ed.from, pend: append([]V{ed.l.v}, o.pend...)}
		default:
			return nil, false
		}
	}
	return o, true
}

func (e *Engine) applyWrites(s *State, o *VOut, w *VTuple) *VOut {
	orig := o.n
	delete(s.wghost(), "ow:"+fmt.Sprint(orig.id))
	need := 0
	for _, x := range w.e {
		k := x.(*VTuple).e[0].(Int).c
		if k >= 0 {
			return e.bad(s, &VOut{n: o.n}, "write at an unknown position of the output")
		}
		if int(-k) > need {
			need = int(-k)
		}
	}
	r, ok := e.decompose(s, o, need)
	if !ok {
		return e.bad(s, &VOut{n: o.n}, "overwrites content of the output")
	}
	p := append([]V(nil), r.pend...)
	for _, x := range w.e {
		t := x.(*VTuple)
		p[len(p)+int(t.e[0].(Int).c)] = t.e[1]
	}
	return &VOut{n: r.n, pend: p}
}

// outSlice models b[lo:hi] of an output.
func (e *Engine) outSlice(s *State, ins ssa.Instruction, o *VOut, lo, hi Int, hasLo, hasHi bool) V {
	length := e.length(s, o)
	zero := !hasLo || s.decEQ(lo) == 1
	if zero {
		d := hi.sub(length)
		if s.decEQ(d) == 1 {
			if _, ok := s.ghost["ow:"+fmt.Sprint(o.n.id)]; ok {
				return e.settleOut(s, o)
			}
			return o
		}
		if s.decEQ(hi) == 1 {
			return &VOut{n: e.g.start("empty")}
		}
		// content moved by copy
		if mv, ok := s.ghost["mv:"+fmt.Sprint(o.n.id)].(*VTuple); ok {
			m, j := mv.e[0].(nodeRef).n, mv.e[1].(nodeRef).n
			want := e.nodeLen(m).add(e.nodeLen(o.n)).sub(e.nodeLen(j))
			if s.decEQ(hi.sub(want)) == 1 {
				return e.emit(s, &VOut{n: m}, &Label{k: LSub, a: j, b: o.n})
			}
		}
		if m := e.marked(s, hi); m != nil && (m == o.n || o.n.anc[m]) {
			return &VOut{n: m}
		}
		if t := hi.single(); t != nil && t.op == "outlen" {
			m := t.args[0].(nodeRef).n
			if m == o.n {
				return &VOut{n: m}
			}
			if o.n.anc[m] {
				return &VOut{n: m}
			}
		}
		for a := range o.n.anc {
			if s.decEQ(hi.sub(e.nodeLen(a))) == 1 {
				return &VOut{n: a}
			}
		}
		u, l := s.zone.upper(d), s.zone.lower(d)
		if u == l && u < 0 && o.hole == nil {
			c := o
			if ow, ok := s.ghost["ow:"+fmt.Sprint(o.n.id)]; ok {
				c = e.applyWrites(s, o, ow.(*VTuple))
			}
			if r, ok := e.decompose(s, c, int(-u)); ok {
				return &VOut{n: r.n, pend: append([]V(nil), r.pend[:len(r.pend)+int(u)]...)}
			}
			return e.bad(s, &VOut{n: o.n}, fmt.Sprintf("removes %d bytes of content", -u))
		}
		if l >= 0 && o.hole == nil {
			so := e.settleOut(s, o)
			h := newObj("hole", nil)
			s.wheap()[h] = &VTuple{[]V{d}}
			return &VOut{n: so.n, hole: h}
		}
		return e.bad(s, e.asOut(s, o), "cut at an unknown position")
	}
	if o.hole != nil {
		rl, rh := lo.sub(e.nodeLen(o.n)), hi.sub(e.nodeLen(o.n))
		if s.decLE(rl.neg()) == 1 {
			b := mk("hole", "", types.NewSlice(types.Typ[types.Uint8]), objRef{o.hole})
			return &VSlice{b, rl, rh, false, types.Typ[types.Uint8]}
		}
	}
	so := e.settleOut(s, o)
	m := e.findNode(s, so, lo)
	if m != nil {
		sub := e.outRegion(s, m, so, false).(*VSlice)
		return &VSlice{sub.base, ic(0), hi.sub(lo), false, sub.et}
	}
	b := mk("outpart", "", types.NewSlice(types.Typ[types.Uint8]), nodeRef{so.n})
	return &VSlice{b, lo, hi, false, types.Typ[types.Uint8]}
}

func (e *Engine) findNode(s *State, o *VOut, at Int) *Node {
	if m := e.marked(s, at); m != nil && (m == o.n || o.n.anc[m]) {
		return m
	}
	if t := at.single(); t != nil && t.op == "outlen" {
		m := t.args[0].(nodeRef).n
		if m == o.n || o.n.anc[m] {
			return m
		}
	}
	if s.decEQ(at.sub(e.nodeLen(o.n))) == 1 {
		return o.n
	}
	for a := range o.n.anc {
		if s.decEQ(at.sub(e.nodeLen(a))) == 1 {
			return a
		}
	}
	return nil
}

// outRegion is the content of an output after that of node m.
func (e *Engine) outRegion(s *State, m *Node, o *VOut, str bool) V {
	so := e.settleOut(s, o)
	b := mk("region", "", types.NewSlice(types.Typ[types.Uint8]), nodeRef{m}, nodeRef{so.n})
	return &VSlice{b, ic(0), e.nodeLen(so.n).sub(e.nodeLen(m)), str, types.Typ[types.Uint8]}
}

// copyOf recognises the prefix of a buffer that was filled from an output.
func (e *Engine) copyOf(s *State, sl *VSlice, lo, hi Int) V {
	if sl.base.op != "obj" || sl.str {
		return nil
	}
	t, ok := s.heap[sl.base.args[0].(objRef).o].(*VTuple)
	if !ok || len(t.e) != 3 {
		return nil
	}
	o, ok := t.e[2].(*VOut)
	if !ok || s.decEQ(sl.lo.add(lo)) != 1 {
		return nil
	}
	d := sl.lo.add(hi).sub(e.length(s, o))
	if s.decEQ(d) == 1 {
		return o
	}
	return nil
}

// copyBuiltin models copy(dst, src).
func (e *Engine) copyBuiltin(s *State, dst, src V) V {
	n := e.length(s, src)
	dl := e.length(s, dst)
	r := n
	if s.decLE(n.sub(dl)) != 1 {
		if s.decLE(dl.sub(n)) == 1 {
			r = dl
		} else {
			t := freshSym("copied", intT)
			r = it(t)
			s.assumeLE(r.neg())
			s.assumeLE(r.sub(n))
			s.assumeLE(r.sub(dl))
		}
	}
	if d, ok := dst.(*VSlice); ok {
		switch d.base.op {
		case "obj":
			ob := d.base.args[0].(objRef).o
			if t, ok := s.heap[ob].(*VTuple); ok && s.decEQ(d.lo) == 1 {
				if o, ok := src.(*VOut); ok && s.decLE(n.sub(dl)) == 1 {
					s.wheap()[ob] = &VTuple{[]V{t.e[0], t.e[1], e.settleOut(s, o)}}
					return r
				}
				if sl, ok := asSlice(src); ok && s.decLE(n.sub(dl)) == 1 {
					s.wheap()[ob] = &VTuple{[]V{t.e[0], t.e[1], sl}}
					return r
				}
			}
		case "region":
			m, nn := d.base.args[0].(nodeRef).n, d.base.args[1].(nodeRef).n
			if sr, ok := asSlice(src); ok && sr.base.op == "region" {
				j, n2 := sr.base.args[0].(nodeRef).n, sr.base.args[1].(nodeRef).n
				if n2 == nn && s.decEQ(d.lo) == 1 && s.decEQ(sr.lo) == 1 && s.decEQ(sr.hi.sub(e.nodeLen(nn)).add(e.nodeLen(j))) == 1 && (m == j || j.anc[m]) {
					s.wghost()["mv:"+fmt.Sprint(nn.id)] = &VTuple{[]V{nodeRef{m}, nodeRef{j}}}
					return sr.hi
				}
			}
			s.wghost()["ow:"+fmt.Sprint(nn.id)] = &VTuple{[]V{&VTuple{[]V{ic(1 << 40), ic(0)}}}}
		case "hole":
			ob := d.base.args[0].(objRef).o
			h := s.heap[ob].(*VTuple)
			var v V = &VLab{&Label{k: LRaw, v: src}}
			if sl, ok := asSlice(src); ok {
				if bs, ok := e.bytesOf(s, sl); ok {
					nh := append([]V(nil), h.e...)
					for i, b := range bs {
						nh = append(nh, &VTuple{[]V{d.lo.addc(int64(i)), d.lo.addc(int64(i) + 1), b}})
					}
					s.wheap()[ob] = &VTuple{nh}
					return r
				}
			}
			if s.decEQ(r.sub(n)) != 1 {
				v = &VLab{&Label{k: LBad, s: "partial copy"}}
			}
			s.wheap()[ob] = &VTuple{append(append([]V(nil), h.e...), &VTuple{[]V{d.lo, d.lo.add(r), v}})}
		default:
			e.storeElem(s, &VElem{s: d, idx: ic(0)}, nil)
			if e.onStore != nil {
				f := s.top()
				e.onStore(e, s, f.blk.Instrs[f.pc], &VElem{s: d, idx: ic(0), et: d.et}, src)
			}
		}
	} else if o, ok := dst.(*VOut); ok {
		s.wghost()["ow:"+fmt.Sprint(o.n.id)] = &VTuple{[]V{&VTuple{[]V{ic(1 << 40), ic(0)}}}}
	}
	return r
}

// Marks: registers that hold the length that an output had are expressed by
// symbols, which are tied to the contents in the ghost "marks".

func (e *Engine) setMarks(s *State) {
	var old []V
	if t, ok := s.ghost["marks"].(*VTuple); ok {
		old = t.e
	}
	used := map[*Term]bool{}
	byNode := map[*Node]*Term{}
	for _, m := range old {
		t := m.(*VTuple)
		byNode[t.e[1].(*VOut).n] = t.e[0].(*Term)
	}
	start := map[*Node]bool{}
	var list []V
	for i := range s.frames {
		for r, v := range s.frames[i].regs {
			x, ok := v.(Int)
			if !ok || x.c != 0 || len(x.ts) != 1 || x.ts[0].k != 1 {
				continue
			}
			t := x.ts[0].t
			if t.op != "outlen" {
				if t.fresh {
					used[t] = true
				}
				continue
			}
			n := t.args[0].(nodeRef).n
			if len(n.in) == 0 {
				start[n] = true
				continue
			}
			k := byNode[n]
			if k == nil {
				k = freshSym("mark", intT)
				byNode[n] = k
				s.assumeEQ(it(k).sub(x))
				old = append(old, &VTuple{[]V{k, &VOut{n: n}}})
			}
			used[k] = true
			s.wframe(i).regs[r] = it(k)
		}
	}
	for _, m := range old {
		if used[m.(*VTuple).e[0].(*Term)] {
			list = append(list, m)
		}
	}
	if len(list) == 0 {
		if s.ghost["marks"] != nil {
			delete(s.wghost(), "marks")
		}
		return
	}
	s.wghost()["marks"] = &VTuple{list}
}

// marked is the content whose length is hi.
func (e *Engine) marked(s *State, hi Int) *Node {
	t := hi.single()
	if t == nil {
		return nil
	}
	if m, ok := s.ghost["marks"].(*VTuple); ok {
		for _, x := range m.e {
			if x.(*VTuple).e[0] == V(t) {
				return x.(*VTuple).e[1].(*VOut).n
			}
		}
	}
	return nil
}
