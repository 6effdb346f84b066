package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var byteSliceT = types.NewSlice(types.Typ[types.Uint8])
var stringT = types.Typ[types.String]

// ---- spans: facts about runs of bytes

// Span says that the bytes [lo,hi) of base all lie in set.
type Span struct {
	base   *Term
	lo, hi Int
	set    bset
	flags  int
}

const (
	spInvalid = 1 // may contain bytes that are not valid UTF-8
	spLineSep = 2 // may contain U+2028 or U+2029
	spMulti   = 4 // may contain other valid multi-byte characters
	spOpaque  = 8 // multi-byte content of unknown validity
)

func (x *Span) write(w *kw) {
	w.s("sp(")
	w.v(x.base)
	w.s(":")
	w.v(x.lo)
	w.s(":")
	w.v(x.hi)
	w.s(fmt.Sprintf("%s/%d)", x.set.String(), x.flags))
}

func (s *State) spans() []*Span {
	t, ok := s.ghost["spans"].(*VTuple)
	if !ok {
		return nil
	}
	r := make([]*Span, len(t.e))
	for i, x := range t.e {
		r[i] = x.(*Span)
	}
	return r
}

func (s *State) setSpans(sp []*Span) {
	if len(sp) == 0 {
		if _, ok := s.ghost["spans"]; ok {
			delete(s.wghost(), "spans")
		}
		return
	}
	t := &VTuple{}
	for _, x := range sp {
		t.e = append(t.e, x)
	}
	s.wghost()["spans"] = t
}

func (e *Engine) addSpan(s *State, x *Span) {
	if tokenSyms[x.base] {
		return
	}
	sp := append([]*Span(nil), s.spans()...)
	nx := *x
	for i, y := range sp {
		if y.base != x.base {
			continue
		}
		if s.decLE(y.lo.sub(x.lo)) == 1 && s.decLE(x.hi.sub(y.hi)) == 1 {
			nx.set = nx.set.and(y.set)
			nx.flags &= y.flags
		} else if s.decLE(x.lo.sub(y.lo)) == 1 && s.decLE(y.hi.sub(x.hi)) == 1 {
			ny := *y
			ny.set = y.set.and(x.set)
			ny.flags &= x.flags
			sp[i] = &ny
		}
	}
	for k, f := range s.bytes {
		if f.base == x.base && s.decLE(x.lo.sub(f.pos)) == 1 && s.decLE(f.pos.addc(1).sub(x.hi)) == 1 {
			s.wbytes()[k] = byteFact{f.base, f.pos, f.set.and(x.set)}
		}
	}
	for i, y := range sp {
		if y.base == x.base && y.lo.eq(x.lo) && y.hi.eq(x.hi) {
			sp[i] = &nx
			s.setSpans(sp)
			return
		}
	}
	s.setSpans(append(sp, &nx))
}

// coverSpan bounds the bytes of [lo,hi), if they are known.
func (e *Engine) coverSpan(s *State, base *Term, lo, hi Int) (bset, int, bool) {
	at := lo
	var set bset
	flags := 0
	sp := s.spans()
	for n := 0; n < 64; n++ {
		if s.decEQ(at.sub(hi)) == 1 {
			return set, flags, true
		}
		hit := false
		for _, x := range sp {
			if x.base == base && s.decEQ(x.lo.sub(at)) == 1 && s.decLE(x.hi.sub(hi)) == 1 && s.decLE(x.lo.addc(1).sub(x.hi)) == 1 {
				set = set.or(x.set)
				flags |= x.flags
				at = x.hi
				hit = true
				break
			}
		}
		if !hit {
			// a span that starts before
			for _, x := range sp {
				if x.base == base && s.decLE(x.lo.sub(at)) == 1 && s.decLE(hi.sub(x.hi)) == 1 {
					set = set.or(x.set)
					flags |= x.flags
					at = hi
					hit = true
					break
				}
			}
		}
		if !hit {
			if f := s.byteSet(base, at); f != allBytes {
				set = set.or(f)
				if !f.and(bsetRange(128, 255)).empty() {
					flags |= spOpaque
				}
				at = at.addc(1)
				hit = true
			}
		}
		if !hit {
			// a run that may be empty
			for _, x := range sp {
				if x.base == base && s.decEQ(x.lo.sub(at)) == 1 && s.decLE(x.hi.sub(hi)) == 1 && !x.hi.eq(at) {
					set = set.or(x.set)
					flags |= x.flags
					at = x.hi
					hit = true
					break
				}
			}
		}
		if !hit {
			return allBytes, spOpaque, false
		}
	}
	return allBytes, spOpaque, false
}

func (e *Engine) segLabel(s *State, sl *VSlice) *Label {
	set, flags, ok := e.coverSpan(s, sl.base, sl.lo, sl.hi)
	if !ok {
		return nil
	}
	return &Label{k: LRep, set: set, s: fmt.Sprint(flags), v: sl}
}

// extendSpans joins byte facts to runs, and drops those that do not concern
// positions of live values.
func (e *Engine) extendSpans(s *State) {
	if e.noSpans {
		return
	}
	if len(s.bytes) == 0 && s.ghost["spans"] == nil {
		return
	}
	lv := e.livePos(s)
	sp := append([]*Span(nil), s.spans()...)
	// runs that start at live positions, grown as far as possible
	type key struct{ b, lo string }
	best := map[key]*Span{}
	var order []key
	starts := map[string]Int{}
	bases := map[string]*Term{}
	addStart := func(b *Term, lo Int) {
		if b.op == "tokval" {
			return
		}
		if !lv.has(b, lo) {
			x, ok := lv.same(s, lo)
			if !ok || e.spanClean == nil {
				return
			}
			lo = x
		} else if e.spanClean != nil && !lo.isConst() && s.decEQ(lo) == 1 {
			lo = ic(0)
		}
		k := vkey(b) + "|" + vkey(lo)
		if _, ok := starts[k]; ok {
			return
		}
		starts[k] = lo
		bases[k] = b
		order = append(order, key{vkey(b), vkey(lo)})
	}
	for _, x := range sp {
		addStart(x.base, x.lo)
	}
	var bk []string
	for k := range s.bytes {
		bk = append(bk, k)
	}
	sortStrings(bk)
	for _, k := range bk {
		f := s.bytes[k]
		addStart(f.base, f.pos)
	}
	var out []*Span
	for _, k := range order {
		kk := k.b + "|" + k.lo
		b, lo := bases[kk], starts[kk]
		at := lo
		var set bset
		flags := 0
		var last, before *Span
		for n := 0; n < 80; n++ {
			adv := false
			var pick *Span
			for _, x := range sp {
				if x.base == b && (x.lo.eq(at) || s.decEQ(x.lo.sub(at)) == 1) && !x.hi.eq(at) && s.decLE(x.hi.sub(at)) != 1 {
					if pick == nil || s.decLE(pick.hi.sub(x.hi)) == 1 {
						pick = x
					}
				}
			}
			if pick != nil && e.spanClean != nil && !e.spanClean(set.or(pick.set), flags|pick.flags) {
				break
			}
			if pick != nil {
				before = nil
				set = set.or(pick.set)
				flags |= pick.flags
				at = pick.hi
				adv = true
			} else if f := s.byteSet(b, at); f != allBytes {
				before = nil
				fl := 0
				if !f.and(bsetRange(128, 255)).empty() {
					fl = spOpaque
				}
				if e.spanClean != nil && !e.spanClean(set.or(f), flags|fl) {
					break
				}
				if n > 0 && f.and(set).empty() {
					before = e.roundSpan(b, lo, at, set, flags)
				}
				set = set.or(f)
				if !f.and(bsetRange(128, 255)).empty() {
					flags |= spOpaque
				}
				at = at.addc(1)
				adv = true
			}
			if !adv {
				break
			}
			if !lv.has(b, at) && e.spanClean != nil {
				if x, ok := lv.same(s, at); ok {
					at = x
				}
			}
			if lv.has(b, at) {
				last = e.roundSpan(b, lo, at, set, flags)
			}
		}
		if last != nil {
			best[k] = last
			if before != nil && before.hi.addc(1).eq(last.hi) {
				out = append(out, before)
			}
			out = append(out, last)
		}
	}
	s.setSpans(out)
}

// livePositions are the positions of sequences that values of the state
// mention.
type livePositions struct {
	at   []Int // symbolic positions
	m    map[string]bool
	ends map[string]bool // first and last bytes of live slices
}

// liveByte reports whether a fact about the byte at p is worth keeping.
func (l *livePositions) liveByte(b *Term, p Int) bool {
	return l.ends[vkey(b)+"|"+vkey(p)]
}

// byteClasses are the distinctions that runs of bytes keep.
var byteClasses = func() []bset {
	cs := []bset{bsetOf(" \t\r\n"), bsetRange('0', '9'), bsetOf("\""), bsetOf("\\"), bsetRange(0, 0x1f), bsetOf("<>&"), bsetOf("\x7f"), bsetRange(0x80, 0xff), bsetOf("\x1b"), bsetOf("eE+-."), bsetOf("/")}
	var out []bset
	rest := allBytes
	for _, c := range cs {
		c = c.and(rest)
		rest = rest.and(c.not())
		out = append(out, c)
	}
	return append(out, rest)
}()

func roundUp(s bset) bset {
	var r bset
	for _, c := range byteClasses {
		if !c.and(s).empty() {
			r = r.or(c)
		}
	}
	return r
}

// roundSpan coarsens what is known about a run.
func (e *Engine) roundSpan(b *Term, lo, hi Int, set bset, flags int) *Span {
	if e.spanRound != nil {
		set, flags = e.spanRound(set, flags)
	} else {
		set = roundUp(set)
	}
	return &Span{b, lo, hi, set, flags}
}

// same finds a live position that is equal to p.
func (l *livePositions) same(s *State, p Int) (Int, bool) {
	if s.decEQ(p) == 1 {
		return ic(0), true
	}
	for _, x := range l.at {
		if d := x.sub(p); s.decEQ(d) == 1 {
			return x, true
		}
	}
	return p, false
}

// near finds a live position at a small constant distance before p.
func (l *livePositions) near(s *State, p Int) (Int, bool) {
	for d := int64(1); d <= 16; d++ {
		for _, x := range l.at {
			if s.decEQ(x.sub(p).addc(d)) == 1 {
				return x.addc(d), true
			}
		}
	}
	return p, false
}

func (l *livePositions) has(b *Term, p Int) bool {
	return p.isConst() && p.c == 0 || l.m[vkey(p)]
}

func (e *Engine) livePos(s *State) *livePositions {
	l := &livePositions{m: map[string]bool{}, ends: map[string]bool{}}
	mark := func(x Int) {
		k := vkey(x)
		if !l.m[k] && !x.isConst() {
			l.at = append(l.at, x)
		}
		l.m[k] = true
	}
	var visit func(v V) (V, bool)
	visit = func(v V) (V, bool) {
		switch x := v.(type) {
		case Int:
			mark(x)
			return v, true
		case *VSlice:
			mark(x.lo)
			mark(x.hi)
			l.ends[vkey(x.base)+"|"+vkey(x.lo)] = true
			l.ends[vkey(x.base)+"|"+vkey(x.hi.addc(-1))] = true
			return v, true
		case *BFn:
			l.ends[vkey(x.base)+"|"+vkey(x.pos)] = true
			return v, true
		case *CByte:
			l.ends[vkey(x.base)+"|"+vkey(x.pos)] = true
			return v, true
		case *Span:
			return v, true
		case *Term:
			if sl, ok := asSlice(x); ok {
				l.ends[vkey(sl.base)+"|"+vkey(sl.lo)] = true
				l.ends[vkey(sl.base)+"|"+vkey(sl.hi.addc(-1))] = true
				mark(sl.hi)
			}
			return v, true
		}
		return nil, false
	}
	for _, f := range s.frames {
		for _, v := range f.regs {
			mapV(v, visit)
		}
		for _, d := range f.defers {
			for _, a := range d.args {
				mapV(a, visit)
			}
		}
	}
	for _, v := range s.heap {
		mapV(v, visit)
	}
	for _, c := range s.mem {
		mapV(c.v, visit)
	}
	for k, v := range s.ghost {
		if k != "spans" && k != "Q" {
			mapV(v, visit)
		}
	}
	// absolute positions that correspond to relative indexes of live slices
	var use func(fi int, v ssa.Value, i Int, d int)
	use = func(fi int, v ssa.Value, i Int, d int) {
		f := s.frames[fi]
		for _, u := range indexedBy(f.fn, v) {
			at := i.addc(u.off)
			if u.plus != nil {
				pv := f.regs[u.plus]
				if x, ok := u.plus.(*ssa.Extract); ok && pv == nil {
					if t, ok := f.regs[x.Tuple].(*VTuple); ok {
						pv = t.e[x.Index]
					}
				}
				k, ok := pv.(Int)
				if !ok {
					at = i
				} else {
					at = at.add(k)
				}
			}
			if u.ret > 0 {
				if fi == 0 || f.isDef || d > 3 {
					continue
				}
				g := s.frames[fi-1]
				if g.pc == 0 {
					continue
				}
				call, ok := g.blk.Instrs[g.pc-1].(*ssa.Call)
				if !ok {
					continue
				}
				if f.fn.Signature.Results().Len() == 1 {
					use(fi-1, call, at, d+1)
					continue
				}
				for _, r := range *call.Referrers() {
					if x, ok := r.(*ssa.Extract); ok && x.Index == u.ret-1 {
						use(fi-1, x, at, d+1)
					}
				}
				continue
			}
			if sl, ok := asSlice(f.regs[u.seq]); ok {
				if d == 0 || u.plus == nil {
					l.ends[vkey(sl.base)+"|"+vkey(sl.lo.add(i))] = true
					mark(sl.lo.add(i))
				}
				if !at.eq(i) || d > 0 {
					l.ends[vkey(sl.base)+"|"+vkey(sl.lo.add(at))] = true
					mark(sl.lo.add(at))
				}
			}
		}
	}
	for fi, f := range s.frames {
		for v, x := range f.regs {
			if i, ok := x.(Int); ok {
				use(fi, v, i, 0)
			}
		}
	}
	return l
}

type idxUse struct {
	seq  ssa.Value
	off  int64
	plus ssa.Value
	ret  int // the result that it is, 1 for the first
}

var idxCache = map[*ssa.Function]map[ssa.Value][]idxUse{}

// indexedBy lists the sequences of a function that v (plus an offset) is an
// index of.
func indexedBy(fn *ssa.Function, v ssa.Value) []idxUse {
	c := idxCache[fn]
	if c == nil {
		c = map[ssa.Value][]idxUse{}
		idxCache[fn] = c
	}
	if r, ok := c[v]; ok {
		return r
	}
	var out []idxUse
	var find func(v ssa.Value, d int, off int64, plus ssa.Value)
	type key struct {
		v    ssa.Value
		off  int64
		plus ssa.Value
	}
	seen := map[key]bool{}
	find = func(v ssa.Value, d int, off int64, plus ssa.Value) {
		if seen[key{v, off, plus}] || v.Referrers() == nil {
			return
		}
		seen[key{v, off, plus}] = true
		addU := func(u idxUse) {
			for _, o := range out {
				if o == u {
					return
				}
			}
			out = append(out, u)
		}
		add := func(x ssa.Value) { addU(idxUse{x, off, plus, 0}) }
		for _, r := range *v.Referrers() {
			switch y := r.(type) {
			case *ssa.IndexAddr:
				if y.Index == v {
					add(y.X)
				}
			case *ssa.Index:
				if y.Index == v {
					add(y.X)
				}
			case *ssa.Lookup:
				if y.Index == v {
					add(y.X)
				}
			case *ssa.Slice:
				if y.Low == v || y.High == v {
					add(y.X)
				}
			case *ssa.BinOp:
				if d > 0 && (y.Op == token.ADD || y.Op == token.SUB) {
					o, pl := off, plus
					if k, ok := y.Y.(*ssa.Const); ok && k.Value != nil && isInt(k.Type()) {
						n := k.Int64()
						if n > -8 && n < 8 {
							if y.Op == token.SUB {
								n = -n
							}
							o += n
						}
					} else if y.Op == token.ADD {
						other := y.X
						if other == v {
							other = y.Y
						}
						if pl != nil || other == v {
							continue
						}
						pl = other
					}
					find(y, d-1, o, pl)
				}
			case *ssa.Phi:
				if d > 0 {
					find(y, d-1, off, plus)
				}
			case *ssa.Return:
				for i, x := range y.Results {
					if x == v {
						addU(idxUse{nil, off, plus, i + 1})
					}
				}
			}
		}
	}
	find(v, 5, 0, nil)
	c[v] = out
	return out
}

// ---- builtins

func (e *Engine) builtin(s *State, ins ssa.CallInstruction, name string, args []V) []outcome {
	ret := func(v V) []outcome { return []outcome{{s, v}} }
	c := ins.Common()
	rt := types.Type(intT)
	if v := ins.Value(); v != nil {
		rt = v.Type()
	}
	switch name {
	case "len", "cap":
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Array:
			return ret(ic(u.Len()))
		case *types.Pointer:
			if a, ok := u.Elem().Underlying().(*types.Array); ok {
				return ret(ic(a.Len()))
			}
		}
		if isToken(args[0]) {
			n := it(freshSym("tl", intT))
			s.assumeLE(n.neg())
			return ret(n)
		}
		if name == "len" {
			return ret(e.length(s, args[0]))
		}
		switch x := args[0].(type) {
		case *VOut:
			so := e.settleOut(s, x)
			return ret(it(mk("outcap", "", intT, nodeRef{so.n})))
		case *VNil:
			return ret(ic(0))
		}
		if sl, ok := asSlice(args[0]); ok {
			return ret(e.capOf(s, sl).sub(sl.lo))
		}
		t := mk("cap", "", intT, args[0])
		return ret(it(t))
	case "append":
		if e.onAppend != nil && len(args) > 1 {
			e.onAppend(e, s, ins, args[0])
		}
		if isByteSlice(rt) && !e.noOut {
			if len(args) == 1 {
				return ret(args[0])
			}
			return ret(e.outAppend(s, args[0], args[1]))
		}
		if len(args) == 1 {
			return ret(args[0])
		}
		if l, ok := e.appendList(s, rt, args[0], args[1]); ok {
			return ret(l)
		}
		if isByteSlice(rt) && e.noOut {
			if sl, ok := asSlice(args[0]); ok && aliasSyms[sl.base] {
				return ret(e.aliasToken(s, rt))
			}
			return ret(e.token(s, rt))
		}
		t := freshSym("append", rt)
		n := e.length(s, args[0]).add(e.length(s, args[1]))
		s.assumeEQ(it(mk("len", "", intT, t)).sub(n))
		if e.onStore != nil {
			e.onStore(e, s, ins, &VElem{s: t, idx: n, et: elemOf(rt)}, args[1])
		}
		return ret(t)
	case "copy":
		return ret(e.copyBuiltin(s, args[0], args[1]))
	case "delete", "clear":
		if t, ok := args[0].(*Term); ok {
			e.bump(s, t)
		} else if sl, ok := asSlice(args[0]); ok {
			e.storeElem(s, &VElem{s: sl, idx: ic(0)}, nil)
		}
		return ret(nil)
	case "min", "max":
		if len(args) == 2 && isInt(rt) {
			a, _ := e.intVal(args[0])
			b, _ := e.intVal(args[1])
			if name == "max" {
				a, b = b, a
			}
			// min(a,b): a if a<=b else b
			d := a.sub(b)
			if name == "max" {
				d = b.sub(a)
				a, b = b, a
				d = b.sub(a)
			}
			switch s.decLE(d) {
			case 1:
				return ret(a)
			case 0:
				return ret(b)
			}
			s1 := s.fork()
			var out []outcome
			if s1.assumeLE(d.neg().addc(1)) {
				out = append(out, outcome{s1, b})
			}
			if s.assumeLE(d) {
				out = append(out, outcome{s, a})
			}
			return out
		}
		return ret(e.wrap(mk(name, "", rt, args...)))
	case "print", "println":
		return ret(nil)
	case "recover":
		return ret(&VNil{rt})
	case "ssa:wrapnilchk":
		return ret(args[0])
	case "String":
		if t, ok := args[0].(*Term); ok && t.op == "sdata" {
			if sl, ok := asSlice(t.args[0]); ok {
				n, _ := e.intVal(args[1])
				return ret(&VSlice{sl.base, sl.lo, sl.lo.add(n), true, sl.et})
			}
			if o, ok := t.args[0].(*VOut); ok {
				return ret(e.outRegion(s, e.startOf(o), o, true))
			}
		}
	case "Slice":
		if t, ok := args[0].(*Term); ok && t.op == "sdata" {
			if sl, ok := asSlice(t.args[0]); ok {
				n, _ := e.intVal(args[1])
				return ret(&VSlice{sl.base, sl.lo, sl.lo.add(n), false, sl.et})
			}
		}
	case "StringData", "SliceData":
		return ret(mk("sdata", "", rt, args[0]))
	case "Add":
		n, _ := e.intVal(args[1])
		p := e.convert(s, args[0], types.Typ[types.UnsafePointer], types.Typ[types.Uintptr])
		pi, _ := e.intVal(p)
		return ret(e.convert(s, pi.add(n), types.Typ[types.Uintptr], types.Typ[types.UnsafePointer]))
	}
	return ret(e.wrap(mk("builtin:"+name, "", rt, args...)))
}

// ---- library functions

var models map[string]modelFn

func ret1(s *State, v V) []outcome { return []outcome{{s, v}} }

func litOf(v V) (string, bool) {
	if sl, ok := v.(*VSlice); ok && sl.base.op == "str" && sl.lo.isConst() && sl.hi.isConst() {
		return sl.base.aux[sl.lo.c:sl.hi.c], true
	}
	return "", false
}

func pairT(a, b V) V { return &VTuple{[]V{a, b}} }

func init() {
	models = map[string]modelFn{}
	nop := func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		return ret1(s, nil)
	}
	models["runtime.KeepAlive"] = nop
	models["(*sync.Pool).Put"] = nop
	models["(*sync.Pool).Get"] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		t := freshSym("pool", fn.Signature.Results().At(0).Type())
		s.wfacts()[mk("isnil", "", boolT, t)] = false
		return ret1(s, t)
	}
	models["sync/atomic.LoadPointer"] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		return ret1(s, mk("atomicload", "", fn.Signature.Results().At(0).Type(), freshSym("load", types.Typ[types.UnsafePointer])))
	}
	models["sync/atomic.StorePointer"] = nop
	newErr := func(wraps bool) modelFn {
		return func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
			w := wraps
			if f, ok := litOf(a[0]); ok && !strings.Contains(f, "%w") {
				w = false
			}
			aux := e.P.pos(c.Pos())
			if w {
				aux += " wraps"
			}
			return ret1(s, mk("newerr", aux, errT))
		}
	}
	models["fmt.Errorf"] = newErr(true)
	models["errors.New"] = newErr(false)
	models["errors.Is"] = modelIs
	for _, p := range []string{"strings.", "bytes."} {
		// searches for one byte
		models[p+"Index"] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
			if l, ok := litOf(a[1]); ok && len(l) == 1 {
				return modelIndexByte(e, s, c, fn, []V{a[0], ic(int64(l[0]))})
			}
			return nil
		}
		models[p+"IndexRune"] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
			if n, ok := a[1].(Int); ok && n.isConst() && n.c >= 0 && n.c < 128 {
				return modelIndexByte(e, s, c, fn, a)
			}
			return nil
		}
		models[p+"Cut"] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
			l, ok := litOf(a[1])
			sl, ok2 := asSlice(a[0])
			if !ok || !ok2 || len(l) != 1 {
				return nil
			}
			out := modelIndexByte(e, s, c, fn, []V{a[0], ic(int64(l[0]))})
			for i, o := range out {
				n := o.v.(Int)
				if n.isConst() && n.c == -1 {
					out[i].v = &VTuple{[]V{sl, zeroV(fn.Signature.Results().At(1).Type()), VBool(false)}}
					continue
				}
				out[i].v = &VTuple{[]V{&VSlice{sl.base, sl.lo, sl.lo.add(n), sl.str, sl.et}, &VSlice{sl.base, sl.lo.add(n).addc(1), sl.hi, sl.str, sl.et}, VBool(true)}}
			}
			return out
		}
	}
	models["errors.As"] = modelAs
	for _, p := range []string{"strconv.AppendInt", "strconv.AppendUint"} {
		models[p] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
			base := "?"
			if b, ok := a[2].(Int); ok && b.isConst() {
				base = fmt.Sprint(b.c)
			}
			o := e.asOut(s, a[0])
			return ret1(s, e.emit(s, o, &Label{k: LNum, s: strings.ToLower(strings.TrimPrefix(fn.Name(), "Append")) + ":" + base, v: a[1]}))
		}
	}
	for _, p := range []string{"strconv.FormatInt", "strconv.FormatUint"} {
		models[p] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
			base := "?"
			if b, ok := a[1].(Int); ok && b.isConst() {
				base = fmt.Sprint(b.c)
			}
			return ret1(s, e.labelStr(&Label{k: LNum, s: strings.ToLower(strings.TrimPrefix(fn.Name(), "Format")) + ":" + base, v: a[0]}, true, stringT))
		}
	}
	models["strconv.Itoa"] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		return ret1(s, e.labelStr(&Label{k: LNum, s: "int:10", v: a[0]}, true, stringT))
	}
	floatLab := func(e *Engine, s *State, f, fm, prec, bits V) *Label {
		st := stripFloat(f)
		no := func(t *Term) bool { b, ok := s.facts[t]; return ok && !b }
		fin := "?"
		if no(mk("call", "math.IsNaN", boolT, st)) && no(infAtom(st, 1)) && no(infAtom(st, -1)) {
			fin = "finite"
		}
		bs := "?"
		if b, ok := bits.(Int); ok && b.isConst() {
			bs = fmt.Sprint(b.c)
		}
		src := "64"
		if t, ok := f.(*Term); ok && t.op == "conv" && strings.HasPrefix(t.aux, "float32>") {
			src = "32"
		} else if t, ok := st.(*Term); ok && t.typ != nil {
			if b, ok := t.typ.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
				src = "32"
			}
		}
		return &Label{k: LNum, s: fmt.Sprintf("float:%s:fmt=%s:prec=%s:bits=%s:src=%s", fin, vstr(fm), vstr(prec), bs, src), v: st}
	}
	models["strconv.AppendFloat"] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		return ret1(s, e.emit(s, e.asOut(s, a[0]), floatLab(e, s, a[1], a[2], a[3], a[4])))
	}
	models["strconv.FormatFloat"] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		return ret1(s, e.labelStr(floatLab(e, s, a[0], a[1], a[2], a[3]), true, stringT))
	}
	boolFork := func(e *Engine, s *State, v V, f func(*State, string) V) []outcome {
		var out []outcome
		for _, x := range e.assume(s.fork(), v, true) {
			out = append(out, outcome{x, f(x, "true")})
		}
		for _, x := range e.assume(s.fork(), v, false) {
			out = append(out, outcome{x, f(x, "false")})
		}
		return out
	}
	models["strconv.AppendBool"] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		return boolFork(e, s, a[1], func(s *State, l string) V { return e.outAppend(s, a[0], strV(l)) })
	}
	models["strconv.FormatBool"] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		return boolFork(e, s, a[0], func(s *State, l string) V { return strV(l) })
	}
	models["math.IsNaN"] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		return ret1(s, mk("call", "math.IsNaN", boolT, stripFloat(a[0])))
	}
	models["math.IsInf"] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		if n, ok := a[1].(Int); ok && n.isConst() {
			st := stripFloat(a[0])
			switch {
			case n.c > 0:
				return ret1(s, infAtom(st, 1))
			case n.c < 0:
				return ret1(s, infAtom(st, -1))
			}
			return ret1(s, not(andC(not(infAtom(st, 1)), not(infAtom(st, -1)))))
		}
		return nil
	}
	models["(time.Time).AppendFormat"] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		l, _ := litOf(a[2])
		return ret1(s, e.emit(s, e.asOut(s, a[1]), &Label{k: LTok, s: "time:" + l, v: a[0]}))
	}
	models["(time.Time).Format"] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		l, _ := litOf(a[1])
		return ret1(s, e.labelStr(&Label{k: LTok, s: "time:" + l, v: a[0]}, true, stringT))
	}
	models["(time.Duration).String"] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		return ret1(s, e.labelStr(&Label{k: LTok, s: "duration", v: a[0]}, true, stringT))
	}
	models["(*encoding/base64.Encoding).EncodedLen"] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		n, _ := e.intVal(a[1])
		return ret1(s, it(mk("nonneg", "b64:"+vkey(a[0]), intT, n)))
	}
	models["(*encoding/base64.Encoding).DecodedLen"] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		n, _ := e.intVal(a[1])
		return ret1(s, it(mk("nonneg", "b64d:"+vkey(a[0]), intT, n)))
	}
	models["(*encoding/base64.Encoding).Encode"] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		n := it(mk("nonneg", "b64:"+vkey(a[0]), intT, e.length(s, a[2])))
		d, ok := a[1].(*VSlice)
		if ok && d.base.op == "hole" {
			ob := d.base.args[0].(objRef).o
			h := s.heap[ob].(*VTuple)
			if e.onBounds != nil {
				e.boundsObl(s, c, "encode", n.sub(d.hi.sub(d.lo)), "base64 output does not fit")
			}
			v := &VLab{&Label{k: LTok, s: "base64", v: a[2], v2: []V{a[0]}}}
			s.wheap()[ob] = &VTuple{append(append([]V(nil), h.e...), &VTuple{[]V{d.lo, d.lo.add(n), v}})}
			return ret1(s, nil)
		}
		e.havoc(s, a[1])
		if ok {
			e.storeElem(s, &VElem{s: d, idx: ic(0)}, nil)
		} else if o, ok := a[1].(*VOut); ok {
			e.outStore(s, o, ic(1<<40), ic(0))
		}
		return ret1(s, nil)
	}
	models["(*encoding/base64.Encoding).AppendEncode"] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		return ret1(s, e.emit(s, e.asOut(s, a[1]), &Label{k: LTok, s: "base64", v: a[2], v2: []V{a[0]}}))
	}
	models["(*encoding/base64.Encoding).EncodeToString"] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		return ret1(s, e.labelStr(&Label{k: LTok, s: "base64", v: a[1], v2: []V{a[0]}}, true, stringT))
	}
	models["(*encoding/base64.Encoding).Decode"] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		e.havoc(s, a[1])
		n := freshSym("decoded", intT)
		s.assumeLE(it(n).neg())
		if l := e.length(s, a[1]); true {
			s.assumeLE(it(n).sub(l))
		}
		return ret1(s, pairT(it(n), freshSym("b64err", errT)))
	}
	models["unicode/utf8.DecodeRuneInString"] = modelDecodeRune
	models["unicode/utf8.DecodeRune"] = modelDecodeRune
	models["unicode/utf8.EncodeRune"] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		r, _ := e.intVal(a[1])
		ub := int64(4)
		if s.zone.lower(r) >= 0 {
			switch u := s.zone.upper(r); {
			case u < 0x80:
				ub = 1
			case u < 0x800:
				ub = 2
			case u < 0x10000:
				ub = 3
			}
		}
		n := freshSym("runelen", intT)
		s.assumeLE(ic(1).sub(it(n)))
		s.assumeLE(it(n).addc(-ub))
		l := e.length(s, a[0])
		if e.onBounds != nil {
			e.boundsObl(s, c, "encoderune", ic(ub).sub(l), fmt.Sprintf("EncodeRune may write %d bytes into %s", ub, vstr(l)))
		}
		s.assumeLE(it(n).sub(l))
		if d, ok := a[0].(*VSlice); ok {
			e.storeElem(s, &VElem{s: d, idx: ic(0)}, nil)
			if e.onStore != nil {
				e.onStore(e, s, c, &VElem{s: d, idx: ic(0), et: d.et}, a[1])
			}
		} else if o, ok := a[0].(*VOut); ok {
			if h := o.hole; h != nil {
				_ = h
			}
			e.outStore(s, o, ic(1<<40), ic(0))
		}
		return ret1(s, it(n))
	}
	models["unicode/utf8.AppendRune"] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		return ret1(s, e.emit(s, e.asOut(s, a[0]), &Label{k: LTok, s: "rune", v: a[1]}))
	}
	models["bytes.IndexByte"] = modelIndexByte
	models["strings.IndexByte"] = modelIndexByte
	eq := func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		return ret1(s, e.seqEqual(s, a[0], a[1]))
	}
	models["bytes.Equal"] = eq
	hasPre := func(suffix bool) modelFn {
		return func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
			x, ok1 := asSlice(a[0])
			y, ok2 := asSlice(a[1])
			if !ok1 || !ok2 {
				return nil
			}
			n := y.hi.sub(y.lo)
			var out []outcome
			s1 := s.fork()
			if s1.assumeLE(x.hi.sub(x.lo).sub(n).addc(1)) {
				out = append(out, outcome{s1, VBool(false)})
			}
			if s.assumeLE(n.sub(x.hi.sub(x.lo))) {
				sub := &VSlice{x.base, x.lo, x.lo.add(n), true, x.et}
				if suffix {
					sub = &VSlice{x.base, x.hi.sub(n), x.hi, true, x.et}
				}
				out = append(out, outcome{s, e.seqEqual(s, sub, y)})
			}
			return out
		}
	}
	models["bytes.HasPrefix"] = hasPre(false)
	models["strings.HasPrefix"] = hasPre(false)
	models["bytes.HasSuffix"] = hasPre(true)
	models["strings.HasSuffix"] = hasPre(true)
	models["strings.Repeat"] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		l, ok := litOf(a[0])
		n, ok2 := a[1].(Int)
		if ok && ok2 && n.isConst() && n.c >= 0 && n.c < 100 {
			return ret1(s, strV(strings.Repeat(l, int(n.c))))
		}
		if ok2 && n.isConst() && n.c == 1 {
			return ret1(s, a[0])
		}
		if ok2 && n.isConst() && n.c == 0 {
			return ret1(s, strV(""))
		}
		return nil
	}
	models["reflect.TypeOf"] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		rt := fn.Signature.Results().At(0).Type()
		switch x := a[0].(type) {
		case *VIface:
			return ret1(s, rtypeOf(x.t))
		case *VNil:
			return ret1(s, &VNil{rt})
		case *Term:
			if e.nilness(s, x) == 0 {
				return ret1(s, &VNil{rt})
			}
			if b, ok := s.facts[mk("isnil", "", boolT, x)]; ok && !b {
				t := mk("typeof", "", rt, x)
				s.wfacts()[mk("isnil", "", boolT, t)] = false
				return ret1(s, t)
			}
			return ret1(s, mk("typeof", "", rt, x))
		}
		return nil
	}
	ptrTo := func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		rt := fn.Signature.Results().At(0).Type()
		t, ok := a[0].(*Term)
		if !ok {
			return nil
		}
		if k, ok := s.eqs[t].(*Term); ok {
			t = k
		}
		if t.op == "rtype" {
			if x, ok := rtypes[t.aux]; ok {
				return ret1(s, rtypeOf(types.NewPointer(x)))
			}
		}
		r := mk("rt.PointerTo", "", rt, t)
		s.wfacts()[mk("isnil", "", boolT, r)] = false
		return ret1(s, r)
	}
	models["reflect.PointerTo"] = ptrTo
	models["reflect.PtrTo"] = ptrTo
}

func infAtom(v V, sign int) *Term {
	return mk("call", fmt.Sprintf("math.IsInf(%d)", sign), boolT, v)
}

// modelIs models errors.Is.
func modelIs(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
	tgt, ok := a[1].(*VIface)
	switch x := a[0].(type) {
	case *VNil:
		_, n := a[1].(*VNil)
		return ret1(s, VBool(n))
	case *VIface:
		if ok {
			if types.Identical(x.t, tgt.t) {
				return ret1(s, e.equal(s, x.v, tgt.v, x.t))
			}
			if !hasMethod(x.t, "Is") && !hasMethod(x.t, "Unwrap") {
				return ret1(s, VBool(false))
			}
		}
		if !hasMethod(x.t, "Is") && !hasMethod(x.t, "Unwrap") {
			return ret1(s, e.equal(s, a[0], a[1], errT))
		}
	case *Term:
		if x.op == "newerr" && !strings.HasSuffix(x.aux, "wraps") {
			if vkey(a[0]) == vkey(a[1]) {
				return ret1(s, VBool(true))
			}
			if ok {
				return ret1(s, VBool(false))
			}
		}
		if vkey(a[0]) == vkey(a[1]) {
			return ret1(s, VBool(true))
		}
		if ok {
			t := mk("isa", tstr(tgt.t), boolT, x)
			if b, ok := s.facts[t]; ok {
				if !b {
					if u, ok := s.facts[mk("plainerr", "", boolT, x)]; ok && u {
						return ret1(s, VBool(false))
					}
				}
			}
		}
		return ret1(s, mk("errIs", "", boolT, x, a[1]))
	}
	return ret1(s, mk("errIs", "", boolT, a[0], a[1]))
}

func hasMethod(t types.Type, name string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

func modelAs(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
	if _, ok := a[0].(*VNil); ok {
		return ret1(s, VBool(false))
	}
	tv := a[1]
	var pt types.Type
	if i, ok := tv.(*VIface); ok {
		pt = i.t
		tv = i.v
	}
	if pt == nil {
		return nil
	}
	et := deref(pt)
	if i, ok := a[0].(*VIface); ok && !hasMethod(i.t, "As") && !hasMethod(i.t, "Unwrap") {
		if types.AssignableTo(i.t, et) {
			if _, isI := et.Underlying().(*types.Interface); isI {
				e.store(s, nil, tv, i)
			} else {
				e.store(s, nil, tv, i.v)
			}
			return ret1(s, VBool(true))
		}
		return ret1(s, VBool(false))
	}
	s1 := s.fork()
	v := freshSym("as", et)
	s.wfacts()[mk("isnil", "", boolT, v)] = false
	e.store(s, nil, tv, v)
	return []outcome{{s1, VBool(false)}, {s, VBool(true)}}
}

// modelDecodeRune models utf8.DecodeRune and DecodeRuneInString.
func modelDecodeRune(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
	sl, ok := asSlice(a[0])
	if !ok {
		return nil
	}
	n := sl.hi.sub(sl.lo)
	var out []outcome
	s0 := s.fork()
	if s0.assumeLE(n) {
		out = append(out, outcome{s0, pairT(ic(0xfffd), ic(0))})
	}
	if !s.assumeLE(ic(1).sub(n)) {
		return out
	}
	return append(out, e.decodeRune(s, sl.base, sl.lo, sl.hi)...)
}

// decodeRune forks over the kinds of characters at lo.
func (e *Engine) decodeRune(s *State, base *Term, lo, hi Int) []outcome {
	var out []outcome
	s1 := s.fork()
	if s1.narrow(base, lo, bsetRange(0, 127)) {
		if e.onNarrow != nil {
			e.onNarrow(e, s1, base, lo)
		}
		out = append(out, outcome{s1, pairT(e.byteAt(s1, base, lo), ic(1))})
	}
	hib := bsetRange(128, 255)
	s2 := s.fork()
	if s2.narrow(base, lo, hib) {
		e.addSpan(s2, &Span{base, lo, lo.addc(1), hib, spInvalid})
		if e.onNarrow != nil {
			e.onNarrow(e, s2, base, lo)
		}
		out = append(out, outcome{s2, pairT(ic(0xfffd), ic(1))})
	}
	for _, r := range []int64{0x2028, 0x2029} {
		s3 := s.fork()
		if s3.narrow(base, lo, hib) && s3.assumeLE(lo.addc(3).sub(hi)) {
			s3.narrow(base, lo, bsetRange(0xe2, 0xe2))
			s3.narrow(base, lo.addc(1), bsetRange(0x80, 0x80))
			s3.narrow(base, lo.addc(2), bsetRange(int(r)-0x2028+0xa8, int(r)-0x2028+0xa8))
			e.addSpan(s3, &Span{base, lo, lo.addc(3), hib, spLineSep})
			out = append(out, outcome{s3, pairT(ic(r), ic(3))})
		}
	}
	s4 := s.fork()
	if s4.narrow(base, lo, hib) {
		delete(s4.wbytes(), bkey(base, lo))
		r := freshSym("rune", types.Typ[types.Int32])
		sz := freshSym("size", intT)
		ok := s4.assumeLE(ic(0x80).sub(it(r))) && s4.assumeLE(it(r).addc(-0x10ffff)) &&
			s4.assumeNE(it(r).addc(-0x2028)) && s4.assumeNE(it(r).addc(-0x2029)) &&
			s4.assumeLE(ic(2).sub(it(sz))) && s4.assumeLE(it(sz).addc(-4)) &&
			s4.assumeLE(lo.add(it(sz)).sub(hi))
		if ok {
			e.addSpan(s4, &Span{base, lo, lo.add(it(sz)), hib, spMulti})
			out = append(out, outcome{s4, pairT(it(r), it(sz))})
		}
	}
	return out
}

func modelIndexByte(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
	sl, ok := asSlice(a[0])
	if !ok {
		return nil
	}
	n := sl.hi.sub(sl.lo)
	var set bset
	known := false
	if b, ok := a[1].(Int); ok && b.isConst() {
		set.add(int(byte(b.c)))
		known = true
	} else {
		set = allBytes
	}
	var out []outcome
	s1 := s.fork()
	okNot := true
	if known {
		if cov, _, ok := e.coverSpan(s1, sl.base, sl.lo, sl.hi); ok && cov.and(set.not()).empty() && s1.decLE(ic(1).sub(n)) == 1 {
			okNot = false
		}
		e.addSpan(s1, &Span{sl.base, sl.lo, sl.hi, set.not(), spOpaque})
	}
	if okNot {
		if e.onSpan != nil {
			e.onSpan(e, s1, sl.base)
		}
		out = append(out, outcome{s1, ic(-1)})
	}
	if s.decLE(n) == 1 {
		return out
	}
	ip := freshSym("p", intT)
	i := it(ip).sub(sl.lo)
	ok = s.assumeLE(i.neg()) && s.assumeLE(i.addc(1).sub(n))
	if ok && known {
		if cov, _, okc := e.coverSpan(s, sl.base, sl.lo, sl.hi); okc && cov.and(set).empty() {
			return out
		}
		e.addSpan(s, &Span{sl.base, sl.lo, it(ip), set.not(), spOpaque})
		ok = s.narrow(sl.base, it(ip), set)
		if ok && e.onNarrow != nil {
			e.onNarrow(e, s, sl.base, it(ip))
		}
	}
	if ok {
		out = append(out, outcome{s, i})
	}
	return out
}
