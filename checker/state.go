package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	fn   V
	args []V
	call *ssa.CallCommon
}

type Frame struct {
	fn     *ssa.Function
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	regs   map[ssa.Value]V
	defers []deferred
	isDef  bool // runs as a deferred call: the result is dropped
	onRet  func(e *Engine, s *State, res []V) []V
	tag    string
	shared bool
}

type memCell struct {
	a *VAddr
	v V
}

type byteFact struct {
	base *Term
	pos  Int
	set  bset
}

type eqFact struct {
	a *Term
	b V
}

type State struct {
	frames                         []*Frame
	heap                           map[*Obj]V
	mem                            map[string]memCell
	facts                          map[*Term]bool
	bytes                          map[string]byteFact
	neq                            map[string]Int
	eqs                            map[*Term]V // term known to equal a distinct constant
	zone                           *Zone
	ghost                          map[string]V
	hs, ms, fs, bs, ns, es, zs, gs bool
	steps                          int
}

func (s *State) fork() *State {
	n := *s
	n.frames = append([]*Frame(nil), s.frames...)
	for _, f := range n.frames {
		f.shared = true
	}
	n.hs, n.ms, n.fs, n.bs, n.ns, n.es, n.zs, n.gs = true, true, true, true, true, true, true, true
	s.hs, s.ms, s.fs, s.bs, s.ns, s.es, s.zs, s.gs = true, true, true, true, true, true, true, true
	return &n
}

func cp[K comparable, T any](m map[K]T) map[K]T {
	n := make(map[K]T, len(m)+1)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (s *State) top() *Frame  { return s.frames[len(s.frames)-1] }
func (s *State) wtop() *Frame { return s.wframe(len(s.frames) - 1) }
func (s *State) wframe(i int) *Frame {
	f := s.frames[i]
	if f.shared {
		n := *f
		n.regs = cp(f.regs)
		n.defers = append([]deferred(nil), f.defers...)
		n.shared = false
		s.frames[i] = &n
		return &n
	}
	return f
}
func (s *State) setReg(v ssa.Value, x V) { s.wtop().regs[v] = x }
func (s *State) wheap() map[*Obj]V {
	if s.hs {
		s.heap = cp(s.heap)
		s.hs = false
	}
	return s.heap
}
func (s *State) wmem() map[string]memCell {
	if s.ms {
		s.mem = cp(s.mem)
		s.ms = false
	}
	return s.mem
}
func (s *State) wfacts() map[*Term]bool {
	if s.fs {
		s.facts = cp(s.facts)
		s.fs = false
	}
	return s.facts
}
func (s *State) wbytes() map[string]byteFact {
	if s.bs {
		s.bytes = cp(s.bytes)
		s.bs = false
	}
	return s.bytes
}
func (s *State) wneq() map[string]Int {
	if s.ns {
		s.neq = cp(s.neq)
		s.ns = false
	}
	return s.neq
}
func (s *State) weqs() map[*Term]V {
	if s.es {
		s.eqs = cp(s.eqs)
		s.es = false
	}
	return s.eqs
}
func (s *State) wghost() map[string]V {
	if s.gs {
		s.ghost = cp(s.ghost)
		s.gs = false
	}
	return s.ghost
}
func (s *State) wzone() *Zone {
	if s.zs {
		s.zone = s.zone.clone()
		s.zs = false
	}
	return s.zone
}

func newState() *State {
	return &State{heap: map[*Obj]V{}, mem: map[string]memCell{}, facts: map[*Term]bool{}, bytes: map[string]byteFact{}, neq: map[string]Int{}, eqs: map[*Term]V{}, ghost: map[string]V{}, zone: newZone()}
}

// ---- numeric decisions

// decLE decides d <= 0: 1 yes, 0 no, -1 unknown.
func (s *State) decLE(d Int) int {
	if d.isConst() {
		if d.c <= 0 {
			return 1
		}
		return 0
	}
	if s.zone.upper(d) <= 0 {
		return 1
	}
	if s.zone.lower(d) > 0 {
		return 0
	}
	return -1
}

func (s *State) decEQ(d Int) int {
	if d.isConst() {
		if d.c == 0 {
			return 1
		}
		return 0
	}
	u, l := s.zone.upper(d), s.zone.lower(d)
	if u == 0 && l == 0 {
		return 1
	}
	if u < 0 || l > 0 {
		return 0
	}
	if len(s.neq) > 0 {
		if _, ok := s.neq[neqKey(d)]; ok {
			return 0
		}
	}
	return -1
}

func neqKey(d Int) string {
	if len(d.ts) > 0 && d.ts[0].k < 0 {
		d = d.neg()
	}
	return vkey(d)
}

func (s *State) assumeLE(d Int) bool {
	if s.decLE(d) == 1 {
		return true
	}
	if !s.wzone().assumeLE(d) {
		return false
	}
	return s.recheckNeq()
}

func (s *State) assumeEQ(d Int) bool {
	if s.decEQ(d) == 0 {
		return false
	}
	z := s.wzone()
	return z.assumeLE(d) && z.assumeLE(d.neg()) && s.recheckNeq()
}

func (s *State) assumeNE(d Int) bool {
	switch s.decEQ(d) {
	case 0:
		return true
	case 1:
		return false
	}
	u, l := s.zone.upper(d), s.zone.lower(d)
	switch {
	case l == 0:
		return s.assumeLE(d.neg().addc(1))
	case u == 0:
		return s.assumeLE(d.addc(1))
	}
	s.wneq()[neqKey(d)] = d
	return true
}

func (s *State) recheckNeq() bool {
	for k, d := range s.neq {
		u, l := s.zone.upper(d), s.zone.lower(d)
		switch {
		case u == 0 && l == 0:
			return false
		case u < 0 || l > 0:
			delete(s.wneq(), k)
		case l == 0:
			delete(s.wneq(), k)
			if !s.wzone().assumeLE(d.neg().addc(1)) {
				return false
			}
			return s.recheckNeq()
		case u == 0:
			delete(s.wneq(), k)
			if !s.wzone().assumeLE(d.addc(1)) {
				return false
			}
			return s.recheckNeq()
		}
	}
	return true
}

// ---- byte facts

func bkey(base *Term, pos Int) string {
	w := &kw{}
	w.v(base)
	w.s("@")
	w.v(pos)
	return w.sb.String()
}

func (s *State) byteSet(base *Term, pos Int) bset {
	if base.op == "str" && pos.isConst() && pos.c >= 0 && pos.c < int64(len(base.aux)) {
		var r bset
		r.add(int(base.aux[pos.c]))
		return r
	}
	if f, ok := s.bytes[bkey(base, pos)]; ok {
		return f.set
	}
	// positions that are equal by the zone
	for _, f := range s.bytes {
		if f.base == base && !f.pos.eq(pos) {
			d := f.pos.sub(pos)
			if !d.isConst() && s.decEQ(d) == 1 {
				return f.set
			}
		}
	}
	return allBytes
}

func (s *State) narrow(base *Term, pos Int, set bset) bool {
	if tokenSyms[base] {
		return true
	}
	cur := s.byteSet(base, pos)
	n := cur.and(set)
	if n.empty() {
		return false
	}
	if n != cur {
		s.wbytes()[bkey(base, pos)] = byteFact{base, pos, n}
	}
	return true
}

// ---- liveness

type liveInfo struct {
	in    []map[ssa.Value]bool // at block start, after the phis
	order map[ssa.Value]int
	after map[ssa.Instruction]map[ssa.Value]bool
}

var liveTab = map[*ssa.Function]*liveInfo{}

func live(fn *ssa.Function) *liveInfo {
	if l, ok := liveTab[fn]; ok {
		return l
	}
	n := len(fn.Blocks)
	l := &liveInfo{in: make([]map[ssa.Value]bool, n), order: map[ssa.Value]int{}, after: map[ssa.Instruction]map[ssa.Value]bool{}}
	k := 0
	add := func(v ssa.Value) { l.order[v] = k; k++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	isReg := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	for i := range l.in {
		l.in[i] = map[ssa.Value]bool{}
	}
	full := make([]map[ssa.Value]bool, n) // at block start before the phis
	for i := range full {
		full[i] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for bi := n - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			cur := l.liveOut(b)
			for ii := len(b.Instrs) - 1; ii >= 0; ii-- {
				ins := b.Instrs[ii]
				if _, ok := ins.(*ssa.Phi); ok {
					break
				}
				if v, ok := ins.(ssa.Value); ok {
					delete(cur, v)
				}
				for _, op := range ins.Operands(nil) {
					if isReg(*op) {
						cur[*op] = true
					}
				}
			}
			if len(cur) != len(l.in[bi]) {
				l.in[bi] = cur
				changed = true
			} else {
				for v := range cur {
					if !l.in[bi][v] {
						l.in[bi] = cur
						changed = true
						break
					}
				}
			}
		}
	}
	// after each call
	for _, b := range fn.Blocks {
		cur := l.liveOut(b)
		for ii := len(b.Instrs) - 1; ii >= 0; ii-- {
			ins := b.Instrs[ii]
			if _, ok := ins.(*ssa.Phi); ok {
				break
			}
			switch ins.(type) {
			case *ssa.Call, *ssa.RunDefers, *ssa.Defer:
				l.after[ins] = cp(cur)
			}
			if v, ok := ins.(ssa.Value); ok {
				delete(cur, v)
			}
			for _, op := range ins.Operands(nil) {
				if isReg(*op) {
					cur[*op] = true
				}
			}
		}
	}
	liveTab[fn] = l
	return l
}

func (l *liveInfo) liveOut(b *ssa.BasicBlock) map[ssa.Value]bool {
	cur := map[ssa.Value]bool{}
	for _, su := range b.Succs {
		// liveness after the phis, with phi results replaced by operands
		for v := range l.in[su.Index] {
			cur[v] = true
		}
		for _, ins := range su.Instrs {
			p, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			delete(cur, p)
		}
		for pi, pr := range su.Preds {
			if pr != b {
				continue
			}
			for _, ins := range su.Instrs {
				p, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				if l.in[su.Index][p] {
					switch p.Edges[pi].(type) {
					case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
					default:
						cur[p.Edges[pi]] = true
					}
				}
			}
		}
	}
	return cur
}

// gc drops registers that are not live in any frame.
func (s *State) gc() {
	for i := range s.frames {
		f := s.frames[i]
		l := live(f.fn)
		var lv map[ssa.Value]bool
		if i == len(s.frames)-1 {
			if f.pc == firstNonPhi(f.blk) {
				lv = l.in[f.blk.Index]
			} else if f.pc > 0 {
				lv = l.after[f.blk.Instrs[f.pc-1]]
			}
			if lv == nil {
				continue
			}
		} else {
			k := f.pc - 1
			if s.frames[i+1].isDef {
				k = f.pc
			}
			ins := f.blk.Instrs[k]
			lv = l.after[ins]
			if lv == nil {
				continue
			}
		}
		drop := false
		for v := range f.regs {
			if !lv[v] {
				drop = true
				break
			}
		}
		if !drop {
			continue
		}
		wf := s.wframe(i)
		for v := range wf.regs {
			if !lv[v] {
				delete(wf.regs, v)
			}
		}
	}
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Phi); !ok {
			return i
		}
	}
	return 0
}

// canon computes the canonical key of the state and garbage-collects the
// parts of it that are not reachable.
func (e *Engine) canon(s *State) (string, *renamer) {
	s.gc()
	rn := newRenamer()
	w := &kw{rn: rn}
	nobj := 0
	drain := func() {
		for nobj < len(rn.objL) {
			o := rn.objL[nobj]
			nobj++
			w.s("\n@" + strconv.Itoa(nobj) + "=")
			w.v(s.heap[o])
		}
	}
	for _, f := range s.frames {
		w.s("\nF" + f.fn.String() + ":" + strconv.Itoa(int(f.fn.Pos())) + ":" + strconv.Itoa(f.blk.Index) + ":" + strconv.Itoa(f.pc) + f.tag)
		l := live(f.fn)
		rs := make([]ssa.Value, 0, len(f.regs))
		for v := range f.regs {
			rs = append(rs, v)
		}
		sort.Slice(rs, func(i, j int) bool { return l.order[rs[i]] < l.order[rs[j]] })
		for _, v := range rs {
			w.s(" r" + strconv.Itoa(l.order[v]) + "=")
			w.v(f.regs[v])
		}
		for _, d := range f.defers {
			w.s(" D")
			w.v(d.fn)
			for _, a := range d.args {
				w.s(",")
				w.v(a)
			}
		}
		drain()
	}
	// permanent objects
	var po []*Obj
	for o := range s.heap {
		if o.perm {
			po = append(po, o)
		}
	}
	sort.Slice(po, func(i, j int) bool { return po[i].id < po[j].id })
	for _, o := range po {
		w.s("\no" + strconv.Itoa(o.id) + "=")
		w.v(s.heap[o])
	}
	drain()
	gk := make([]string, 0, len(s.ghost))
	for k := range s.ghost {
		gk = append(gk, k)
	}
	sort.Strings(gk)
	for _, k := range gk {
		if k == tzKey {
			continue
		}
		if e.ghostLive != nil && !e.ghostLive(s, rn, k) {
			delete(s.wghost(), k)
			continue
		}
		if pre, id, ok := strings.Cut(k, ":"); ok && (pre == "mv" || pre == "ow") && !rn.hasNode(id) {
			delete(s.wghost(), k)
			continue
		}
		w.s("\ng" + k + "=")
		w.v(s.ghost[k])
	}
	drain()
	if t, ok := s.ghost[tzKey].(*VTuple); ok {
		live := true
		if a, ok := t.e[0].(*VAddr); ok && a.o != nil && !a.o.perm {
			_, live = rn.objs[a.o]
		}
		if live {
			w.s("\ng" + tzKey + "=")
			w.v(t)
			drain()
		} else {
			delete(s.wghost(), tzKey)
		}
	}
	// memory behind symbolic pointers: permanent roots first
	var perm, dirty []string
	for k, c := range s.mem {
		if c.a.root.dirty {
			dirty = append(dirty, k)
		} else {
			perm = append(perm, k)
		}
	}
	sort.Strings(perm)
	for _, k := range perm {
		w.s("\nm" + k + "=")
		w.v(s.mem[k].v)
	}
	drain()
	known := func(v V) bool { return rn.covers(v) }
	for again := true; again; {
		again = false
		type kc struct{ k, c string }
		var cand []kc
		for _, k := range dirty {
			if known(s.mem[k].a) {
				ww := &kw{rn: rn}
				ww.v(s.mem[k].a)
				cand = append(cand, kc{k, ww.sb.String()})
			}
		}
		sort.Slice(cand, func(i, j int) bool { return cand[i].c < cand[j].c })
		for _, c := range cand {
			w.s("\nM" + c.c + "=")
			w.v(s.mem[c.k].v)
			for i, d := range dirty {
				if d == c.k {
					dirty = append(dirty[:i], dirty[i+1:]...)
					break
				}
			}
			again = true
		}
		drain()
	}
	for _, k := range dirty {
		delete(s.wmem(), k)
	}
	// unreachable objects
	for o := range s.heap {
		if !o.perm {
			if _, ok := rn.objs[o]; !ok {
				delete(s.wheap(), o)
			}
		}
	}
	// facts
	var lines []string
	line := func(pre string, v V, suf string) {
		ww := &kw{rn: rn}
		ww.s(pre)
		ww.v(v)
		ww.s(suf)
		lines = append(lines, ww.sb.String())
	}
	var ixs map[string]bool
	for t, b := range s.facts {
		if !known(t) || hasElem(t) && !elemLive(s, t, &ixs) {
			delete(s.wfacts(), t)
			continue
		}
		if b {
			line("+", t, "")
		} else {
			line("-", t, "")
		}
	}
	for t, v := range s.eqs {
		if !known(t) || !known(v) || hasElem(t) && !elemLive(s, t, &ixs) {
			delete(s.weqs(), t)
			continue
		}
		ww := &kw{rn: rn}
		ww.v(v)
		line("=", t, "=="+ww.sb.String())
	}
	for k, d := range s.neq {
		if !known(d) || !elemLiveInt(s, d, &ixs) {
			delete(s.wneq(), k)
			continue
		}
		line("#", d, "")
	}
	var lv *livePositions
	if len(s.bytes) > 0 {
		lv = e.livePos(s)
	}
	if e.noOut && lv != nil {
		// facts about positions that other live values are equal to
		var moved []byteFact
		for _, f := range s.bytes {
			if !lv.liveByte(f.base, f.pos) && !endsSpan(s, f) {
				if x, ok := lv.same(s, f.pos); ok && !x.eq(f.pos) && !lv.m[vkey(f.pos)] {
					moved = append(moved, byteFact{f.base, x, f.set})
				}
			}
		}
		for _, f := range moved {
			k := bkey(f.base, f.pos)
			if g, ok := s.bytes[k]; ok {
				f.set = f.set.and(g.set)
			}
			s.wbytes()[k] = f
		}
	}
	for k, f := range s.bytes {
		if f.base.op != "tailof" && !lv.liveByte(f.base, f.pos) && !endsSpan(s, f) && !(e.noOut && e.numberFact(s, lv, f)) {
			delete(s.wbytes(), k)
			continue
		}
		if !known(f.base) || !known(f.pos) || (e.byteLive != nil && !e.byteLive(s, rn, f)) {
			delete(s.wbytes(), k)
			continue
		}
		ww := &kw{rn: rn}
		ww.v(f.base)
		line("b", f.pos, ww.sb.String()+f.set.String())
	}
	sort.Strings(lines)
	for _, l := range lines {
		w.s("\n" + l)
	}
	// zone
	liveT := e.liveTerms(s)
	s.wzone().keep(func(t *Term) bool {
		if (t.op == "bfn" || t.op == "outlen" || t.fresh) && !liveT[t] {
			return false
		}
		return known(t) && !(hasElem(t) && !elemLive(s, t, &ixs))
	})
	z := s.zone
	type zv struct {
		i int
		k string
	}
	var zs []zv
	for i, v := range z.vars {
		ww := &kw{rn: rn}
		ww.v(v)
		zs = append(zs, zv{i + 1, ww.sb.String()})
	}
	sort.Slice(zs, func(i, j int) bool { return zs[i].k < zs[j].k })
	cls := func(c int64, bound bool) string {
		switch {
		case c >= inf:
			return "*"
		case c < 0:
			if bound && c >= -e.K-1 {
				return strconv.FormatInt(c, 10)
			}
			return "<"
		case c == 0:
			return "0"
		}
		return "*"
	}
	for _, a := range zs {
		w.s("\nz" + a.k + ":")
		w.s(cls(z.at(a.i, 0), false) + cls(z.at(0, a.i), false))
		if !e.pairs {
			continue
		}
		for _, b := range zs {
			if a.i != b.i {
				w.s(cls(z.at(a.i, b.i), false))
			}
		}
	}
	// relations of output nodes
	for i, n := range rn.outL {
		w.s("\nn" + strconv.Itoa(i) + ":")
		var ids []int
		for a := range n.anc {
			if rn.lens[a] {
				ids = append(ids, a.id)
			}
		}
		sort.Ints(ids)
		for _, id := range ids {
			w.s(strconv.Itoa(id) + ",")
		}
		for j, m := range rn.outL {
			if i != j && n.anc[m] {
				w.s("#" + strconv.Itoa(j) + ",")
			}
		}
	}
	return w.sb.String(), rn
}

func elemLiveInt(s *State, d Int, ixs *map[string]bool) bool {
	for _, t := range d.ts {
		if hasElem(t.t) && !elemLive(s, t.t, ixs) {
			return false
		}
	}
	return true
}

// hasNode reports whether a node of the output is still referred to.
func (rn *renamer) hasNode(id string) bool {
	for n := range rn.outs {
		if strconv.Itoa(n.id) == id {
			return true
		}
	}
	for n := range rn.lens {
		if strconv.Itoa(n.id) == id {
			return true
		}
	}
	return false
}

// covers reports whether all fresh symbols, objects and nodes of v are known
// to the renamer.
func (rn *renamer) covers(v V) bool {
	switch x := v.(type) {
	case nil:
		return true
	case *Term:
		if !x.dirty {
			return true
		}
		if x.fresh {
			_, ok := rn.syms[x]
			return ok
		}
		for _, a := range x.args {
			if !rn.covers(a) {
				return false
			}
		}
		return true
	case Int:
		for _, t := range x.ts {
			if !rn.covers(t.t) {
				return false
			}
		}
		return true
	case objRef:
		if x.o.perm {
			return true
		}
		_, ok := rn.objs[x.o]
		return ok
	case nodeRef:
		if rn.lens[x.n] {
			return true
		}
		_, ok := rn.outs[x.n]
		return ok
	case *VSlice:
		return rn.covers(x.base) && rn.covers(x.lo) && rn.covers(x.hi)
	case *VAddr:
		if x.o != nil {
			if x.o.perm {
				return true
			}
			_, ok := rn.objs[x.o]
			return ok
		}
		return rn.covers(x.root)
	case *VElem:
		return rn.covers(x.s) && rn.covers(x.idx)
	case *VOut:
		_, ok := rn.outs[x.n]
		return ok
	case *BFn:
		return rn.covers(x.base) && rn.covers(x.pos)
	case *VIface:
		return rn.covers(x.v)
	case *VTuple:
		for _, a := range x.e {
			if !rn.covers(a) {
				return false
			}
		}
		return true
	case *VStruct:
		for _, a := range x.f {
			if !rn.covers(a) {
				return false
			}
		}
		return true
	case *VFunc:
		for _, a := range x.bind {
			if !rn.covers(a) {
				return false
			}
		}
		return true
	case *Span:
		return rn.covers(x.base) && rn.covers(x.lo) && rn.covers(x.hi)
	case *VLab:
		return rn.covers(x.l.v)
	case *CNot:
		return rn.covers(x.c)
	case *CInt:
		return rn.covers(x.d)
	case *CByte:
		return rn.covers(x.base) && rn.covers(x.pos)
	}
	return true
}

// liveTerms are the terms that occur in the numbers of the state.
func (e *Engine) liveTerms(s *State) map[*Term]bool {
	l := map[*Term]bool{}
	var visit func(v V) (V, bool)
	visit = func(v V) (V, bool) {
		switch x := v.(type) {
		case Int:
			for _, t := range x.ts {
				l[t.t] = true
				for _, a := range t.t.args {
					mapV(a, visit)
				}
			}
			return v, true
		case *Term:
			if x.fresh {
				l[x] = true
			}
			return nil, false
		}
		return nil, false
	}
	for _, f := range s.frames {
		for _, v := range f.regs {
			mapV(v, visit)
		}
		for _, d := range f.defers {
			for _, a := range d.args {
				mapV(a, visit)
			}
		}
	}
	for _, v := range s.heap {
		mapV(v, visit)
	}
	for _, c := range s.mem {
		mapV(c.v, visit)
	}
	for _, v := range s.ghost {
		mapV(v, visit)
	}
	return l
}

func pathStr(p []pel) string {
	var sb strings.Builder
	for _, x := range p {
		sb.WriteByte('.')
		if x.ix != nil {
			sb.WriteString("[" + vkey(x.ix) + "]")
		} else {
			sb.WriteString(strconv.Itoa(x.idx))
		}
	}
	return sb.String()
}

func isByteSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func sortStrings(a []string) { sort.Strings(a) }

type ssaIns = ssa.Instruction

// endsSpan reports whether f tells more about the last byte of a run.
func endsSpan(s *State, f byteFact) bool {
	for _, x := range s.spans() {
		if x.base == f.base && x.hi.eq(f.pos.addc(1)) && !x.lo.eq(f.pos) && f.set.and(x.set) != x.set {
			return true
		}
	}
	return false
}

// hasElem reports whether a term talks about an element.
var hasElemT = map[*Term]bool{}

func hasElem(t *Term) bool {
	r, ok := hasElemT[t]
	if !ok {
		r = hasElem1(t)
		hasElemT[t] = r
	}
	return r
}

func hasElem1(t *Term) bool {
	if t.op == "elem" || t.op == "mul" || t.op == "ptr" {
		for _, a := range t.args {
			if _, ok := a.(Int); ok {
				return true
			}
		}
	}
	for _, a := range t.args {
		switch x := a.(type) {
		case *Term:
			if hasElem(x) {
				return true
			}
		case Int:
			for _, y := range x.ts {
				if hasElem(y.t) {
					return true
				}
			}
		case *VTuple:
			for _, y := range x.e {
				if z, ok := y.(*Term); ok && hasElem(z) {
					return true
				}
			}
		}
	}
	return false
}

// elemLive reports whether the indexes of all elements in a term are in use.
func elemLive(s *State, t *Term, ixs *map[string]bool) bool {
	if *ixs == nil {
		m := map[string]bool{}
		*ixs = m
		var visit func(v V) (V, bool)
		visit = func(v V) (V, bool) {
			if x, ok := v.(Int); ok {
				m[vkey(x)] = true
				for _, y := range x.ts {
					mapV(y.t, visit)
				}
				return v, true
			}
			return nil, false
		}
		for _, f := range s.frames {
			for _, v := range f.regs {
				mapV(v, visit)
			}
		}
		for _, v := range s.heap {
			mapV(v, visit)
		}
		for _, v := range s.ghost {
			mapV(v, visit)
		}
	}
	if t.op == "elem" || t.op == "mul" || t.op == "ptr" {
		for _, a := range t.args {
			if i, ok := a.(Int); ok && !(*ixs)[vkey(i)] {
				return false
			}
		}
	}
	for _, a := range t.args {
		if x, ok := a.(*Term); ok && !elemLive(s, x, ixs) {
			return false
		}
		if x, ok := a.(Int); ok && !elemLiveInt(s, x, ixs) {
			return false
		}
	}
	return true
}

// numberFact reports whether a fact is needed to tell where a number ends.
func (e *Engine) numberFact(s *State, lv *livePositions, f byteFact) bool {
	if _, ok := f.set.one(); ok && f.pos.isConst() && f.pos.c >= 0 && f.pos.c <= 4 {
		return true // maybe a literal
	}
	near := f.pos.isConst() && f.pos.c >= 0 && f.pos.c <= 2
	if near {
		if x, ok := f.set.one(); ok && x == '0' || !f.set.has('0') && bsetRange('1', '9').sub(f.set) {
			return true
		}
	}
	return (near || lv.m[vkey(f.pos)]) && e.endsNumber(s, f)
}

// endsNumber reports whether a byte that is not part of a number follows one.
func (e *Engine) endsNumber(s *State, f byteFact) bool {
	if !f.set.and(bsetRange('0', '9')).empty() {
		return false
	}
	q, ok := e.qAt(s, f.base, f.pos)
	if !ok {
		return false
	}
	for _, st := range q {
		if jNumber(st) {
			return true
		}
	}
	return false
}
