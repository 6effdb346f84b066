package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"runtime"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obligation is one thing that was checked at one construct.
type Obligation struct {
	rule string
	what string // construct
	ok   bool
	msg  string
}

type Exit struct {
	s     *State
	res   []V
	panic bool
	why   string
	pos   token.Pos
}

type rep struct {
	exit  int // index of the exit, plus one
	s     *State
	joins int
	rn    *renamer
}

type outcome struct {
	s *State
	v V
}

type modelFn func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, args []V) []outcome

// Engine is one exploration.
type Engine struct {
	P     *Prog
	g     *Graph
	K     int64
	work  []*State
	seen  map[string]*rep
	exits []Exit
	steps int
	max   int
	limit time.Duration
	lists bool // local slices are followed element by element
	// hooks
	contract   func(e *Engine, s *State, c ssa.CallInstruction, fnv V, sig *types.Signature, args []V, recursive *ssa.Function) ([]outcome, bool)
	override   map[string]modelFn // by function full name
	onBounds   func(e *Engine, s *State, ins ssa.Instruction, kind string, ok int, msg string)
	onLoad     func(e *Engine, s *State, ins ssa.Instruction, addr V, t types.Type, v V)
	onOpaque   func(e *Engine, s *State, fn *ssa.Function, args []V)
	onAppend   func(e *Engine, s *State, ins ssa.Instruction, dst V)
	onStore    func(e *Engine, s *State, ins ssa.Instruction, addr V, v V)
	onCall     func(e *Engine, s *State, c ssa.CallInstruction, name string, args []V)
	ghostLive  func(s *State, rn *renamer, k string) bool
	byteLive   func(s *State, rn *renamer, f byteFact) bool
	onRet      func(e *Engine, s *State, f *Frame, res []V)
	inlineExt  func(fn *ssa.Function) bool
	onNarrow   func(e *Engine, s *State, base *Term, pos Int)
	fail       string // engine failure (not a verdict)
	oblig      map[string]*Obligation
	fns        map[*ssa.Function]bool
	sites      map[ssa.Instruction]bool
	noFresh    bool
	noOut      bool // texts that are built are not followed
	exact      bool // texts that functions return are parts of the input
	noContract bool
	noSpans    bool
	spanClean  func(set bset, flags int) bool // runs end where they are no longer clean
	spanRound  func(set bset, flags int) (bset, int)
	pairs      bool
	K0         int64
	dbg        func(e *Engine, s *State)
	locs       map[string]int
	keys       map[string]string
	lastKey    string
	preMerge   func(e *Engine, s *State)
	invokeHook func(e *Engine, s *State, ins ssa.CallInstruction, recv V, name string, args []V) []outcome
	callHook   func(e *Engine, s *State, fn *ssa.Function, args []V) []outcome
	marks      bool
	qMerge     func(e *Engine, s *State)
	postGen    func(e *Engine, s *State)
	onOut      func(e *Engine, s *State, src V)
	onSpan     func(e *Engine, s *State, base *Term)
	trackEv    bool
}

func newEngine(p *Prog) *Engine {
	return &Engine{P: p, g: newGraph(), K: 4, K0: 1, seen: map[string]*rep{}, max: 4000000, override: map[string]modelFn{}, oblig: map[string]*Obligation{}, fns: map[*ssa.Function]bool{}, sites: map[ssa.Instruction]bool{}}
}

func (e *Engine) obl(rule, what string, ok bool, msg string) {
	k := rule + "|" + what
	o := e.oblig[k]
	if o == nil {
		o = &Obligation{rule, what, ok, msg}
		e.oblig[k] = o
		return
	}
	if o.ok && !ok {
		o.ok = false
		o.msg = msg
	}
}

func (e *Engine) where(s *State) string {
	f := s.top()
	var pos token.Pos
	if f.pc < len(f.blk.Instrs) {
		pos = f.blk.Instrs[f.pc].Pos()
	}
	if pos == token.NoPos {
		for i := f.pc - 1; i >= 0 && pos == token.NoPos; i-- {
			if i < len(f.blk.Instrs) {
				pos = f.blk.Instrs[i].Pos()
			}
		}
	}
	return f.fn.Name() + " " + e.P.pos(pos)
}

func (e *Engine) stack(s *State) string {
	var a []string
	for _, f := range s.frames {
		a = append(a, f.fn.Name())
	}
	return strings.Join(a, " > ")
}

// start begins an exploration of fn.
func (e *Engine) start(s *State, fn *ssa.Function, args []V, bind []V) {
	e.push(s, fn, args, bind)
	e.enter(s)
}

func (e *Engine) push(s *State, fn *ssa.Function, args []V, bind []V) *Frame {
	e.fns[fn] = true
	f := &Frame{fn: fn, blk: fn.Blocks[0], regs: map[ssa.Value]V{}}
	for i, p := range fn.Params {
		f.regs[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.regs[p] = bind[i]
	}
	s.frames = append(s.frames, f)
	return f
}

func (e *Engine) enter(s *State) { e.work = append(e.work, s) }

func (e *Engine) run() {
	start := time.Now()
	for len(e.work) > 0 && e.fail == "" {
		s := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		e.steps++
		if e.dbg != nil && e.steps%2000 == 0 {
			e.dbg(e, s)
		}
		if e.steps > e.max {
			e.fail = "exploration does not converge at " + e.where(s)
			return
		}
		if e.steps%256 == 0 {
			if e.limit > 0 && time.Since(start) > e.limit || !deadline.IsZero() && time.Now().After(deadline) {
				e.fail = "exploration takes too long at " + e.where(s)
				return
			}
			var m runtime.MemStats
			if runtime.ReadMemStats(&m); m.HeapAlloc > maxHeap {
				e.fail = "exploration needs too much memory at " + e.where(s)
				return
			}
		}
		e.runState(s)
	}
}

var maxHeap uint64 = 4 << 30

// deadline ends every exploration.
var deadline time.Time

// runState executes until the state forks, merges or ends.
func (e *Engine) runState(s *State) {
	for n := 0; ; n++ {
		if n > 200000 {
			e.fail = "straight-line execution does not end at " + e.where(s)
			return
		}
		if !e.step(s) || e.fail != "" {
			return
		}
	}
}

func (e *Engine) goTo(s *State, b *ssa.BasicBlock) bool {
	f := s.wtop()
	from := f.blk
	f.prev = from
	f.blk = b
	var vals []V
	var phis []*ssa.Phi
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range b.Preds {
			if pr == from {
				vals = append(vals, e.val(s, p.Edges[i]))
				break
			}
		}
		phis = append(phis, p)
	}
	for i, p := range phis {
		f.regs[p] = vals[i]
	}
	f.pc = len(phis)
	if len(b.Preds) >= 2 {
		return e.merge(s, e.isLoopHead(b))
	}
	return true
}

var loopHeads = map[*ssa.BasicBlock]bool{}
var loopDone = map[*ssa.Function]bool{}

func (e *Engine) isLoopHead(b *ssa.BasicBlock) bool {
	fn := b.Parent()
	if !loopDone[fn] {
		loopDone[fn] = true
		// back edges of a depth first search
		state := map[*ssa.BasicBlock]int{}
		var dfs func(b *ssa.BasicBlock)
		dfs = func(b *ssa.BasicBlock) {
			state[b] = 1
			for _, su := range b.Succs {
				if state[su] == 1 {
					loopHeads[su] = true
				} else if state[su] == 0 {
					dfs(su)
				}
			}
			state[b] = 2
		}
		dfs(fn.Blocks[0])
	}
	return loopHeads[b]
}

// merge joins the state with one that was seen at the same program point; it
// reports whether the execution goes on with s.
func (e *Engine) merge(s *State, loop bool) bool {
	e.settleAll(s)
	if e.marks {
		s.gc()
		e.setMarks(s)
	}
	if e.preMerge != nil || !e.noSpans {
		s.gc()
	}
	if e.qMerge != nil {
		e.qMerge(e, s)
	}
	e.extendSpans(s)
	if e.lists {
		e.genLists(s)
	}
	if e.preMerge != nil {
		e.preMerge(e, s)
	}
	if loop {
		e.generalize(s)
		if e.postGen != nil {
			e.postGen(e, s)
		}
	}
	if dbgAt != "" && strings.Contains(e.where(s), dbgAt) {
		fmt.Println("PRE", e.where(s), dumpState(s))
	}
	key, rn := e.canon(s)
	if dbgAt != "" && strings.Contains(e.where(s), dbgAt) {
		fmt.Println("POST", dumpState(s))
		for v, x := range s.top().regs {
			fmt.Println("   reg", v.Name(), v, "=", vstr(x))
		}
	}
	r := e.seen[key]
	if r == nil {
		if e.locs != nil {
			l := e.where(s)
			e.locs[l]++
			if e.locs[l]%20 == 18 && e.locs[l] < 60 {
				e.keys[l] += key + "\n=========\n"
			}
		}
		if !e.noFresh {
			e.freshen(s, rn)
		}
		_, rn2 := e.canon(s)
		e.seen[key] = &rep{s: s.fork(), rn: rn2}
		e.lastKey = key
		return true
	}
	for i, n := range rn.outL {
		e.g.addEps(n, r.rn.outL[i])
	}
	ren := map[*Term]*Term{}
	var renT func(t *Term) *Term
	for i, t := range rn.symL {
		ren[t] = r.rn.symL[i]
	}
	renT = func(t *Term) *Term {
		return e.rewriteTerm(t, func(x *Term) V {
			if y, ok := ren[x]; ok {
				return y
			}
			return nil
		}, rn, r.rn)
	}
	for _, v := range s.zone.vars {
		if v.dirty && !v.fresh {
			ren[v] = renT(v)
		}
	}
	r.joins++
	if r.s.zs {
		r.s.zone = r.s.zone.clone()
		r.s.zs = false
	}
	if r.s.zone.joinInto(s.zone, ren, r.joins > 3) {
		n := r.s.fork()
		n.wzone().close()
		if r.exit > 0 {
			x := &e.exits[r.exit-1]
			x.s = n
			x.res = n.ghost["ret"].(*VTuple).e
		} else {
			e.work = append(e.work, n)
		}
	}
	return false
}

// freshen replaces the current output nodes by new ones.
func (e *Engine) freshen(s *State, rn *renamer) {
	if len(rn.outL) == 0 {
		return
	}
	m := map[*Node]*Node{}
	for _, n := range rn.outL {
		f := e.g.node()
		e.g.addEps(n, f)
		m[n] = f
	}
	for _, n := range rn.outL {
		for a := range n.anc {
			if rn.lens[a] {
				m[n].anc[a] = true
			}
			if b, ok := m[a]; ok {
				m[n].anc[b] = true
			}
		}
		if rn.lens[n] {
			m[n].anc[n] = true
		}
	}
	e.mapState(s, func(v V) (V, bool) {
		if o, ok := v.(*VOut); ok {
			c := *o
			if f, ok := m[o.n]; ok {
				c.n = f
			}
			return &c, true
		}
		return nil, false
	})
	// the length of a renewed content
	z := s.wzone()
	_ = z
	for o, f := range m {
		lo := mk("outlen", "", intT, nodeRef{o})
		if rn.lens[o] {
			lf := mk("outlen", "", intT, nodeRef{f})
			s.assumeEQ(it(lf).sub(it(lo)))
		}
	}
}

// mapState rewrites all values of the state bottom-up through f.
func (e *Engine) mapState(s *State, f func(V) (V, bool)) {
	for i := range s.frames {
		var wf *Frame
		for r, v := range s.frames[i].regs {
			if n, ch := mapV(v, f); ch {
				if wf == nil {
					wf = s.wframe(i)
				}
				wf.regs[r] = n
			}
		}
		for j, d := range s.frames[i].defers {
			for k, a := range d.args {
				if n, ch := mapV(a, f); ch {
					wf = s.wframe(i)
					na := append([]V(nil), wf.defers[j].args...)
					na[k] = n
					wf.defers[j].args = na
				}
			}
		}
	}
	for o, v := range s.heap {
		if n, ch := mapV(v, f); ch {
			s.wheap()[o] = n
		}
	}
	for k, c := range s.mem {
		nv, ch := mapV(c.v, f)
		na, ch2 := mapV(c.a, f)
		if ch || ch2 {
			m := s.wmem()
			delete(m, k)
			a := c.a
			if x, ok := na.(*VAddr); ok && ch2 {
				a = x
			}
			m[memKey(a)] = memCell{a, nv}
		}
	}
	for k, v := range s.ghost {
		if n, ch := mapV(v, f); ch {
			s.wghost()[k] = n
		}
	}
}

func mapV(v V, f func(V) (V, bool)) (V, bool) {
	if v == nil {
		return nil, false
	}
	if n, ok := f(v); ok {
		if a, ok := n.(Int); ok {
			b, ok := v.(Int)
			return n, !ok || !a.eq(b)
		}
		if _, ok := v.(Int); ok {
			return n, true
		}
		return n, n != v
	}
	switch x := v.(type) {
	case *VStruct:
		var nf []V
		for i, a := range x.f {
			if n, ch := mapV(a, f); ch {
				if nf == nil {
					nf = append([]V(nil), x.f...)
				}
				nf[i] = n
			}
		}
		if nf != nil {
			return &VStruct{x.t, nf}, true
		}
	case *VTuple:
		var nf []V
		for i, a := range x.e {
			if n, ch := mapV(a, f); ch {
				if nf == nil {
					nf = append([]V(nil), x.e...)
				}
				nf[i] = n
			}
		}
		if nf != nil {
			return &VTuple{nf}, true
		}
	case *VFunc:
		var nf []V
		for i, a := range x.bind {
			if n, ch := mapV(a, f); ch {
				if nf == nil {
					nf = append([]V(nil), x.bind...)
				}
				nf[i] = n
			}
		}
		if nf != nil {
			return &VFunc{x.fn, nf}, true
		}
	case *VIface:
		if n, ch := mapV(x.v, f); ch {
			return &VIface{x.t, n}, true
		}
	case *VSlice:
		b, c0 := mapV(x.base, f)
		l, c1 := mapV(x.lo, f)
		h, c2 := mapV(x.hi, f)
		if c0 || c1 || c2 {
			bt, ok := b.(*Term)
			if !ok {
				bt = x.base
			}
			return &VSlice{bt, l.(Int), h.(Int), x.str, x.et}, true
		}
	case *VOut:
		var np []V
		for i, a := range x.pend {
			if n, ch := mapV(a, f); ch {
				if np == nil {
					np = append([]V(nil), x.pend...)
				}
				np[i] = n
			}
		}
		if np != nil {
			return &VOut{x.n, np, x.hole}, true
		}
	case *VAddr:
		ch := false
		c := *x
		if x.root != nil {
			if n, c1 := mapV(x.root, f); c1 {
				if t, ok := n.(*Term); ok {
					c.root = t
					ch = true
				}
			}
		}
		if np, c1 := mapPath(x.path, f); c1 {
			c.path = np
			ch = true
		}
		if ch {
			return &c, true
		}
	case *VElem:
		a, c0 := mapV(x.s, f)
		b, c1 := mapV(x.idx, f)
		np, c2 := mapPath(x.path, f)
		if c0 || c1 || c2 {
			return &VElem{a, b.(Int), x.et, np}, true
		}
	case *BFn:
		a, c0 := mapV(x.base, f)
		b, c1 := mapV(x.pos, f)
		if c0 || c1 {
			bt, ok := a.(*Term)
			if !ok {
				bt = x.base
			}
			return &BFn{bt, b.(Int), x.tab}, true
		}
	case *Span:
		b, c0 := mapV(x.base, f)
		l, c1 := mapV(x.lo, f)
		h, c2 := mapV(x.hi, f)
		if c0 || c1 || c2 {
			bt, ok := b.(*Term)
			if !ok {
				bt = x.base
			}
			return &Span{bt, l.(Int), h.(Int), x.set, x.flags}, true
		}
	case *CNot:
		if n, ch := mapV(x.c, f); ch {
			return &CNot{n}, true
		}
	case *CInt:
		if n, ch := mapV(x.d, f); ch {
			return &CInt{x.eq, n.(Int)}, true
		}
	case *CByte:
		a, c0 := mapV(x.base, f)
		b, c1 := mapV(x.pos, f)
		if c0 || c1 {
			return &CByte{a.(*Term), b.(Int), x.set}, true
		}
	case Int:
		// handled through f; terms inside
		r := x
		ch := false
		for _, t := range x.ts {
			if n, c1 := mapV(t.t, f); c1 {
				if ni, ok := toInt(n); ok {
					r = r.subst(t.t, ni)
					ch = true
				}
			}
		}
		if ch {
			return r, true
		}
	case *Term:
		if x.fresh || !x.dirty {
			return v, false
		}
		var na []V
		for i, a := range x.args {
			if n, ch := mapV(a, f); ch {
				if na == nil {
					na = append([]V(nil), x.args...)
				}
				na[i] = n
			}
		}
		if na != nil {
			return mk(x.op, x.aux, x.typ, na...), true
		}
	}
	return v, false
}

func mapPath(p []pel, f func(V) (V, bool)) ([]pel, bool) {
	var np []pel
	for i, a := range p {
		if a.ix == nil {
			continue
		}
		if n, ch := mapV(a.ix, f); ch {
			if np == nil {
				np = append([]pel(nil), p...)
			}
			np[i].ix = n
		}
	}
	if np != nil {
		return np, true
	}
	return p, false
}

// rewriteTerm renames the fresh symbols, objects and nodes of a term.
func (e *Engine) rewriteTerm(t *Term, sub func(*Term) V, from, to *renamer) *Term {
	r, _ := mapV(t, func(v V) (V, bool) {
		switch x := v.(type) {
		case *Term:
			if n := sub(x); n != nil {
				return n, true
			}
		case objRef:
			if k, ok := from.objs[x.o]; ok && k < len(to.objL) {
				return objRef{to.objL[k]}, true
			}
		case nodeRef:
			if k, ok := from.outs[x.n]; ok && k < len(to.outL) {
				return nodeRef{to.outL[k]}, true
			}
		}
		return nil, false
	})
	if rt, ok := r.(*Term); ok {
		return rt
	}
	return t
}

func toInt(v V) (Int, bool) {
	switch x := v.(type) {
	case Int:
		return x, true
	case *Term:
		return it(x), true
	}
	return Int{}, false
}

// boundedCounter reports whether a loop counter is compared with a small
// constant at the head of its loop, which is then unrolled.
func boundedCounter(p *ssa.Phi) bool {
	blk := p.Block()
	iff, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	ofP := func(v ssa.Value) bool {
		if v == p {
			return true
		}
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != p {
			return false
		}
		_, ok = b.Y.(*ssa.Const)
		return ok
	}
	small := func(v ssa.Value) bool {
		k, ok := v.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
			return false
		}
		n, ok := constant.Int64Val(k.Value)
		return ok && n >= 0 && n <= 8
	}
	return ofP(c.X) && small(c.Y) || ofP(c.Y) && small(c.X)
}

// generalize bounds the set of values at a loop head: large constants, moving
// positions and growing terms are replaced by fresh symbols.
func (e *Engine) generalize(s *State) {
	f := s.wtop()
	for _, ins := range f.blk.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		v, live := f.regs[p]
		if !live {
			continue
		}
		if x, ok := v.(Int); ok && x.isConst() && isInt(p.Type()) {
			if boundedCounter(p) && x.c >= -2 && x.c <= 9 {
				continue
			}
			if p0 := e.indexOrigin(s, f, p); p0 != nil && x.c >= e.K0 {
				// a position relative to the start of a slice
				t := freshSym("p", intT)
				s.assumeEQ(it(t).sub(*p0).addc(-x.c))
				f.regs[p] = it(t).sub(*p0)
				for _, d := range []int64{x.c, x.c - 1} {
					e.moveFactsAt(s, p0.addc(d), it(t).addc(d-x.c))
				}
				continue
			}
			if x.c > e.K || x.c < -e.K {
				t := freshSym("n", p.Type())
				f.regs[p] = it(t)
				s.assumeEQ(it(t).addc(-x.c))
				e.moveFacts(s, x.c, it(t))
			}
		}
	}
	// growing terms
	const maxDepth = 9
	sub := map[*Term]V{}
	e.mapState(s, func(v V) (V, bool) {
		if t, ok := v.(*Term); ok && t.depth > maxDepth && !t.fresh && t.op != "str" {
			if n, ok := sub[t]; ok {
				return n, true
			}
			n := freshSym("g", t.typ)
			sub[t] = n
			return n, true
		}
		return nil, false
	})
	if len(sub) > 0 {
		z := s.wzone()
		for t, n := range sub {
			if i, ok := z.idx[t]; ok {
				j := z.ensure(n.(*Term))
				z.addLE(i, j, 0)
				z.addLE(j, i, 0)
			}
			if b, ok := s.facts[t]; ok {
				s.wfacts()[n.(*Term)] = b
			}
		}
	}
	e.reanchor(s)
}

// moveFacts rewrites the facts about positions near the constant c.
func (e *Engine) moveFacts(s *State, c int64, t Int) {
	for _, d := range []int64{c - 1, c} {
		e.moveFactsAt(s, ic(d), t.addc(d-c))
	}
}

func (e *Engine) moveFactsAt(s *State, from, to Int) {
	for k, f := range s.bytes {
		if f.pos.eq(from) {
			delete(s.wbytes(), k)
			s.wbytes()[bkey(f.base, to)] = byteFact{f.base, to, f.set}
		}
	}
	sp := s.spans()
	ch := false
	for i, x := range sp {
		y := *x
		if x.lo.eq(from) {
			y.lo = to
		}
		if x.hi.eq(from) {
			y.hi = to
		}
		if !y.lo.eq(x.lo) || !y.hi.eq(x.hi) {
			sp[i] = &y
			ch = true
		}
	}
	if ch {
		s.setSpans(sp)
	}
	as := qAnchors(s)
	ch = false
	for i, a := range as {
		if aPos(a).eq(from) {
			as[i] = anchor(aBase(a), to, aSet(a))
			ch = true
		}
	}
	if ch {
		setAnchors(s, as)
	}
}

// indexOrigin finds the origin of the slice that v is used to index.
func (e *Engine) indexOrigin(s *State, f *Frame, v ssa.Value) *Int {
	origin := func(x ssa.Value) *Int {
		r, ok := f.regs[x]
		if !ok {
			return nil
		}
		sl, ok := asSlice(r)
		if !ok || len(sl.lo.ts) > 1 || len(sl.lo.ts) == 1 && sl.lo.ts[0].k != 1 {
			return nil
		}
		if sl.base.op == "str" || sl.base.op == "obj" {
			return nil
		}
		lo := sl.lo
		if len(lo.ts) == 1 {
			lo.c = 0
		}
		return &lo
	}
	var find func(v ssa.Value, d int) *Int
	find = func(v ssa.Value, d int) *Int {
		refs := v.Referrers()
		if refs == nil {
			return nil
		}
		for _, r := range *refs {
			switch y := r.(type) {
			case *ssa.IndexAddr:
				if y.Index == v {
					if t := origin(y.X); t != nil {
						return t
					}
				}
			case *ssa.Index:
				if y.Index == v {
					if t := origin(y.X); t != nil {
						return t
					}
				}
			case *ssa.Lookup:
				if y.Index == v {
					if t := origin(y.X); t != nil {
						return t
					}
				}
			case *ssa.Slice:
				if y.Low == v || y.High == v {
					if t := origin(y.X); t != nil {
						return t
					}
				}
			}
		}
		if d == 0 {
			return nil
		}
		for _, r := range *refs {
			switch y := r.(type) {
			case *ssa.BinOp:
				if y.Op == token.ADD || y.Op == token.SUB {
					if t := find(y, d-1); t != nil {
						return t
					}
				}
			case *ssa.Phi:
				if t := find(y, d-1); t != nil {
					return t
				}
			}
		}
		return nil
	}
	return find(v, 3)
}

// pairOf splits a difference P-q+c of a fresh position and another one.
func pairOf(x Int) (Int, Int, bool) {
	if len(x.ts) != 2 {
		return x, x, false
	}
	a, b := x.ts[0], x.ts[1]
	if a.k == -1 {
		a, b = b, a
	}
	if a.k != 1 || b.k != -1 || b.t.op == "outlen" || a.t.op == "outlen" || a.t.op == "outcap" || b.t.op == "outcap" {
		return x, x, false
	}
	return Int{c: x.c, ts: []lt{a}}, Int{ts: []lt{{1, b.t}}}, true
}

type farSub struct {
	near, far       Int
	from            int64
	hasNear, hasFar bool
}

type cluster struct {
	offs     map[int64]bool
	ts       []lt
	min, max int64
	zero     bool
	moving   bool
}

func partKey(x Int) string {
	return vkey(Int{ts: x.ts})
}

func (e *Engine) reanchor(s *State) {
	cl := map[string]*cluster{}
	var order []string
	visit := func(v V) (V, bool) {
		if x, ok := v.(Int); ok && len(x.ts) > 0 {
			if pos, _, ok := pairOf(x); ok {
				x = pos
			}
			k := partKey(x)
			c := cl[k]
			if c == nil {
				c = &cluster{ts: x.ts, min: x.c, max: x.c, offs: map[int64]bool{}}
				for _, t := range x.ts {
					if t.t.dirty {
						c.moving = true
					}
				}
				cl[k] = c
				order = append(order, k)
			}
			c.offs[x.c] = true
			if x.c < c.min {
				c.min = x.c
			}
			if x.c > c.max {
				c.max = x.c
			}
			return v, true
		}
		if t, ok := v.(*Term); ok && !t.fresh && t.dirty {
			return nil, false
		}
		return nil, false
	}
	e.mapState(s, visit)
	sub := map[string]farSub{}
	z := s.wzone()
	for _, k := range order {
		c := cl[k]
		single := len(c.ts) == 1 && c.ts[0].k == 1 && c.ts[0].t.fresh
		if c.max-c.min > e.K && !c.hasOut() {
			// the far part gets its own origin
			far := c.max
			for k := range c.offs {
				if k > c.min+e.K && k < far {
					far = k
				}
			}
			p := freshSym("p", intT)
			e.define(z, p, Int{c: far, ts: c.ts})
			sub[k] = farSub{far: it(p).addc(-far), from: far, hasFar: true}
		}
		if single && c.min == 0 {
			continue
		}
		if !c.moving && c.min >= -e.K && c.max <= e.K {
			continue
		}
		if len(c.ts) == 1 && c.ts[0].k == 1 && c.ts[0].t.op == "outlen" && c.min >= -e.K && c.max <= e.K {
			continue
		}
		if !single && len(c.ts) == 1 && c.ts[0].k == 1 && c.min >= -16 && c.max <= 16 && c.ts[0].t.depth <= 5 {
			continue // a dirty term such as len(x) with small offsets
		}
		if c.hasOut() {
			continue
		}
		p := freshSym("p", intT)
		whole := Int{c: c.min, ts: c.ts}
		e.define(z, p, whole)
		fs := sub[k]
		fs.near, fs.hasNear = it(p).addc(-c.min), true
		sub[k] = fs
	}
	if len(sub) == 0 {
		return
	}
	rw1 := func(x Int) (Int, bool) {
		if n, ok := sub[partKey(x)]; ok {
			if n.hasFar && x.c >= n.from {
				return n.far.addc(x.c), true
			}
			if n.hasNear {
				return n.near.addc(x.c), true
			}
		}
		return x, false
	}
	rw := func(v V) (V, bool) {
		if x, ok := v.(Int); ok && len(x.ts) > 0 {
			if pos, neg, ok := pairOf(x); ok {
				a, c1 := rw1(pos)
				b, c2 := rw1(neg)
				if c1 || c2 {
					return a.sub(b), true
				}
				return nil, false
			}
			if n, ok := rw1(x); ok {
				return n, true
			}
		}
		return nil, false
	}
	e.mapState(s, rw)
	for k, f := range s.bytes {
		n, ch := mapV(f.pos, rw)
		b, ch2 := mapV(f.base, rw)
		if ch || ch2 {
			nf := byteFact{b.(*Term), n.(Int), f.set}
			nk := bkey(nf.base, nf.pos)
			if nk != k {
				s.wbytes()[nk] = nf
			}
		}
	}
	for k, d := range s.neq {
		if n, ch := mapV(d, rw); ch {
			_ = k
			s.wneq()[neqKey(n.(Int))] = n.(Int)
		}
	}
	for t, b := range s.facts {
		if n, ch := mapV(t, rw); ch {
			if nt, ok := n.(*Term); ok {
				s.wfacts()[nt] = b
			}
		}
	}
	var gk []string
	for k := range s.ghost {
		gk = append(gk, k)
	}
}

func (c *cluster) hasOut() bool {
	for _, t := range c.ts {
		if t.t.op == "outlen" || t.t.op == "outcap" {
			return true
		}
	}
	return false
}

// define adds p == x to the zone as precisely as differences allow.
func (e *Engine) define(z *Zone, p *Term, x Int) {
	for _, t := range x.ts {
		z.ensure(t.t)
	}
	type bd struct {
		v      *Term
		up, lo int64
	}
	var bs []bd
	bs = append(bs, bd{nil, z.upper(x), z.lower(x)})
	for _, v := range z.vars {
		d := x.sub(it(v))
		bs = append(bs, bd{v, z.upper(d), z.lower(d)})
	}
	i := z.ensure(p)
	for _, b := range bs {
		j := 0
		if b.v != nil {
			j = z.idx[b.v]
		}
		if b.up < inf {
			z.addLE(i, j, b.up)
		}
		if b.lo > -inf {
			z.addLE(j, i, -b.lo)
		}
	}
}

// ---- values

func (e *Engine) val(s *State, v ssa.Value) V {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Function:
		return &VFunc{fn: x}
	case *ssa.Global:
		return &VAddr{o: e.P.global(x)}
	case *ssa.Builtin:
		return sym("builtin:"+x.Name(), x.Type())
	}
	f := s.top()
	r, ok := f.regs[v]
	if !ok {
		e.fail = fmt.Sprintf("internal: no value for %s in %s", v.Name(), f.fn)
		return sym("missing", v.Type())
	}
	return r
}

func constVal(x *ssa.Const) V {
	t := x.Type()
	if x.Value == nil {
		return zeroV(t)
	}
	switch x.Value.Kind() {
	case constant.Bool:
		return VBool(constant.BoolVal(x.Value))
	case constant.String:
		return strV(constant.StringVal(x.Value))
	case constant.Int:
		if isInt(t) {
			if n, ok := constant.Int64Val(x.Value); ok {
				return ic(n)
			}
			return it(mk("bigconst", x.Value.ExactString(), t))
		}
	}
	return &VConst{x.Value, t}
}

func strV(s string) *VSlice {
	return &VSlice{base: mk("str", s, types.Typ[types.String]), lo: ic(0), hi: ic(int64(len(s))), str: true, et: types.Typ[types.Uint8]}
}

func zeroV(t types.Type) V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VBool(false)
		case u.Info()&types.IsInteger != 0:
			return ic(0)
		case u.Info()&types.IsString != 0:
			return strV("")
		case u.Info()&types.IsFloat != 0:
			return &VConst{constant.MakeFloat64(0), t}
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return &VNil{t}
		}
		return sym("zero:"+tstr(t), t)
	case *types.Struct:
		r := &VStruct{t: t}
		for i := 0; i < u.NumFields(); i++ {
			r.f = append(r.f, zeroV(u.Field(i).Type()))
		}
		return r
	case *types.Array:
		if u.Len() <= 64 {
			r := &VStruct{t: t}
			for i := int64(0); i < u.Len(); i++ {
				r.f = append(r.f, zeroV(u.Elem()))
			}
			return r
		}
		return sym("zero:"+tstr(t), t)
	case *types.Tuple:
		r := &VTuple{}
		for i := 0; i < u.Len(); i++ {
			r.e = append(r.e, zeroV(u.At(i).Type()))
		}
		return r
	}
	return &VNil{t}
}

// asSlice views a value as a sequence.
func asSlice(v V) (*VSlice, bool) {
	switch x := v.(type) {
	case *VSlice:
		return x, true
	case *Term:
		switch u := x.typ.Underlying().(type) {
		case *types.Slice:
			return &VSlice{x, ic(0), it(mk("len", "", intT, x)), false, u.Elem()}, true
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				return &VSlice{x, ic(0), it(mk("len", "", intT, x)), true, types.Typ[types.Uint8]}, true
			}
		}
	case *VNil:
		if u, ok := x.t.Underlying().(*types.Slice); ok {
			return &VSlice{mk("nilslice", "", x.t), ic(0), ic(0), false, u.Elem()}, true
		}
	}
	return nil, false
}

func (e *Engine) length(s *State, v V) Int {
	switch x := v.(type) {
	case *VSlice:
		return x.hi.sub(x.lo)
	case *VOut:
		n := it(mk("outlen", "", intT, nodeRef{x.n})).addc(int64(len(x.pend)))
		if x.hole != nil {
			if h, ok := s.heap[x.hole].(*VTuple); ok {
				n = n.add(h.e[0].(Int))
			}
		}
		return n
	case *VNil:
		return ic(0)
	case *Term:
		return it(mk("len", "", intT, x))
	}
	return it(mk("len", "", intT, v))
}

func (e *Engine) load(s *State, ins ssa.Instruction, addr V, t types.Type) V {
	var r V
	switch a := addr.(type) {
	case *VAddr:
		if a.o != nil {
			cell := s.heap[a.o]
			if cell == nil {
				cell = e.P.initial(e, s, a.o)
			}
			r = e.loadPath(s, cell, a.o.t, a.path, t)
		} else {
			r = e.loadRoot(s, a, t)
		}
	case *Term:
		r = e.loadRoot(s, &VAddr{root: a, rt: t}, t)
	case *VElem:
		r = e.loadElem(s, a, t)
	default:
		r = mk("load", "", t, addr)
	}
	if e.onLoad != nil {
		e.onLoad(e, s, ins, addr, t, r)
	}
	return r
}

func sameType(a, b types.Type) bool {
	return types.Identical(a, b) || types.Identical(a.Underlying(), b.Underlying())
}

func (e *Engine) loadPath(s *State, v V, vt types.Type, path []pel, t types.Type) V {
	for _, p := range path {
		if p.ix != nil {
			// element of an array object
			if a, ok := v.(*VStruct); ok {
				if i, ok := p.ix.(Int); ok && i.isConst() && i.c >= 0 && i.c < int64(len(a.f)) {
					v = a.f[i.c]
					vt = elemOf(vt)
					continue
				}
				same := len(a.f) > 0
				for _, x := range a.f {
					if vkey(x) != vkey(a.f[0]) {
						same = false
					}
				}
				if same {
					v = a.f[0]
					vt = elemOf(vt)
					continue
				}
			}
			v = mk("elem", "", elemOf(vt), v, p.ix)
			vt = elemOf(vt)
			continue
		}
		if !sameType(p.st, vt) {
			ft := p.st.Underlying().(*types.Struct).Field(p.idx).Type()
			v = e.pun(s, v, vt, tstr(p.st)+"."+fieldName(p.st, p.idx), ft)
			vt = ft
			continue
		}
		v = e.fieldOf(s, v, p.st, p.idx)
		vt = p.st.Underlying().(*types.Struct).Field(p.idx).Type()
	}
	if !sameType(vt, t) {
		return e.pun(s, v, vt, tstr(t), t)
	}
	return v
}

// pun reads a value of another type from a cell.
func (e *Engine) pun(s *State, v V, vt types.Type, what string, t types.Type) V {
	if isString(t) {
		switch x := v.(type) {
		case *VSlice:
			return &VSlice{x.base, x.lo, x.hi, true, x.et}
		case *VOut:
			return e.outRegion(s, e.g.start("empty"), x, true)
		case *Term:
			if sl, ok := asSlice(x); ok {
				return &VSlice{sl.base, sl.lo, sl.hi, true, sl.et}
			}
		}
	}
	if isByteSlice(t) {
		if x, ok := asSlice(v); ok && x.str {
			return &VSlice{x.base, x.lo, x.hi, false, x.et}
		}
	}
	if _, ok := vt.Underlying().(*types.Slice); ok {
		if isInt(t) && strings.HasSuffix(what, ".len") {
			return e.length(s, v)
		}
	}
	if isInt(t) {
		return it(mk("pun", what, t, v))
	}
	return mk("pun", what, t, v)
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Pointer:
		return elemOf(u.Elem())
	}
	return types.Typ[types.Uint8]
}

func (e *Engine) fieldOf(s *State, v V, st types.Type, i int) V {
	if x, ok := v.(*VStruct); ok && i < len(x.f) {
		return x.f[i]
	}
	ft := st.Underlying().(*types.Struct).Field(i).Type()
	if t, ok := v.(*Term); ok && t.op == "load" {
		return e.wrap(mk("load", t.aux+"."+tstrShort(st)+"/"+fieldName(st, i), ft, t.args...))
	}
	return e.wrap(mk("field", tstrShort(st)+"/"+fieldName(st, i), ft, v))
}

func tstrShort(t types.Type) string {
	s := tstr(t)
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		s = s[i+1:]
	}
	return s
}

// wrap turns integer terms into linear forms.
func (e *Engine) wrap(t *Term) V {
	if isInt(t.typ) {
		return it(t)
	}
	return t
}

func rootPath(p []pel) string {
	var sb strings.Builder
	for _, x := range p {
		if x.ix != nil {
			sb.WriteString(".[" + vkey(x.ix) + "]")
		} else {
			sb.WriteString("." + tstrShort(x.st) + "/" + fieldName(x.st, x.idx))
		}
	}
	return sb.String()
}

func memKey(a *VAddr) string { return vkey(a.root) + rootPath(a.path) }

func (e *Engine) loadRoot(s *State, a *VAddr, t types.Type) V {
	k := memKey(a)
	if c, ok := s.mem[k]; ok {
		ct := e.P.typeOfV(c.v, t)
		if sameType(ct, t) {
			return c.v
		}
	}
	// a field of a stored struct
	for n := len(a.path) - 1; n >= 0; n-- {
		up := &VAddr{root: a.root, rt: a.rt, path: a.path[:n]}
		if c, ok := s.mem[memKey(up)]; ok {
			if st, ok := c.v.(*VStruct); ok {
				return e.loadPath(s, c.v, st.t, a.path[n:], t)
			}
			return e.loadPath(s, c.v, a.path[n].st, a.path[n:], t)
		}
	}
	// a struct some fields of which were stored
	if st, ok := t.Underlying().(*types.Struct); ok {
		hit := false
		pre := k + "."
		for mk := range s.mem {
			if strings.HasPrefix(mk, pre) {
				hit = true
				break
			}
		}
		if hit {
			r := &VStruct{t: t}
			for i := 0; i < st.NumFields(); i++ {
				na := &VAddr{root: a.root, rt: a.rt, path: append(append([]pel(nil), a.path...), pel{st: t, idx: i})}
				r.f = append(r.f, e.loadRoot(s, na, st.Field(i).Type()))
			}
			return r
		}
	}
	ver := ""
	if g, ok := s.ghost["ver:"+vkey(a.root)]; ok {
		ver = "#" + vkey(g)
	}
	var args []V
	args = append(args, a.root)
	for _, p := range a.path {
		if p.ix != nil {
			args = append(args, p.ix)
		}
	}
	aux := rootAux(a.path) + ":" + tstr(t) + ver
	if n := len(a.path); n > 0 && a.path[n-1].ix == nil && isHeaderLen(a.path[n-1].st, a.path[n-1].idx) {
		headerLens[aux] = true
	}
	return e.wrap(mk("load", aux, t, args...))
}

func rootAux(p []pel) string {
	var sb strings.Builder
	for _, x := range p {
		if x.ix != nil {
			sb.WriteString(".[]")
		} else {
			sb.WriteString("." + tstrShort(x.st) + "/" + fieldName(x.st, x.idx))
		}
	}
	return sb.String()
}

func (e *Engine) loadElem(s *State, a *VElem, t types.Type) V {
	var v V
	et := a.et
	switch x := a.s.(type) {
	case *VSlice:
		pos := x.lo.add(a.idx)
		if isByteT(et) {
			return e.byteAt(s, x.base, pos)
		}
		if x.base.op == "list" {
			v = e.listElem(s, x, a.idx, et)
			break
		}
		ver := ""
		if g, ok := s.ghost["ver:"+vkey(x.base)]; ok {
			ver = "#" + vkey(g)
		}
		v = e.wrap(mk("elem", ver, et, x.base, pos))
	case *VOut:
		return e.outByte(s, x, a.idx)
	default:
		v = e.wrap(mk("elem", "", et, a.s, a.idx))
	}
	return e.loadPath(s, v, et, a.path, t)
}

func isByteT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// tokenSyms are texts whose content is not followed.
var tokenSyms = map[*Term]bool{}

// aliasSyms are those of them that may be part of the input.
var aliasSyms = map[*Term]bool{}

func (e *Engine) token(s *State, t types.Type) V {
	x := freshSym("token", t)
	tokenSyms[x] = true
	return e.wrapToken(s, x)
}

// aliasToken is a token that may be a part of the input.
func (e *Engine) aliasToken(s *State, t types.Type) V {
	x := freshSym("part", t)
	tokenSyms[x], aliasSyms[x] = true, true
	return e.wrapToken(s, x)
}

func (e *Engine) wrapToken(s *State, x *Term) V {
	v := e.wrap(x)
	if n := e.length(s, v); true {
		s.assumeLE(n.neg())
	}
	return v
}

func isToken(v V) bool {
	if len(tokenSyms) == 0 {
		return false
	}
	sl, ok := asSlice(v)
	return ok && tokenSyms[sl.base]
}

func (e *Engine) byteAt(s *State, base *Term, pos Int) V {
	if tokenSyms[base] {
		x := it(freshSym("tb", types.Typ[types.Uint8]))
		s.assumeLE(x.neg())
		s.assumeLE(x.addc(-255))
		return x
	}
	if base.op == "str" {
		if pos.isConst() && pos.c >= 0 && pos.c < int64(len(base.aux)) {
			return ic(int64(base.aux[pos.c]))
		}
	}
	if n, ok := s.byteSet(base, pos).one(); ok {
		return ic(int64(n))
	}
	return &BFn{base, pos, idTab}
}

func (e *Engine) store(s *State, ins ssa.Instruction, addr V, v V) {
	if e.onStore != nil {
		e.onStore(e, s, ins, addr, v)
	}
	switch a := addr.(type) {
	case *VAddr:
		if a.o != nil {
			cell := s.heap[a.o]
			if cell == nil {
				cell = e.P.initial(e, s, a.o)
			}
			s.wheap()[a.o] = e.storePath(s, cell, a.o.t, a.path, v)
			return
		}
		e.storeRoot(s, a, v)
	case *Term:
		e.storeRoot(s, &VAddr{root: a}, v)
	case *VElem:
		e.storeElem(s, a, v)
	}
}

func (e *Engine) storePath(s *State, cell V, ct types.Type, path []pel, v V) V {
	if len(path) == 0 {
		return v
	}
	p := path[0]
	if p.ix != nil {
		if a, ok := cell.(*VStruct); ok {
			if i, ok := p.ix.(Int); ok && i.isConst() && i.c >= 0 && i.c < int64(len(a.f)) {
				n := &VStruct{ct, append([]V(nil), a.f...)}
				n.f[i.c] = e.storePath(s, a.f[i.c], elemOf(ct), path[1:], v)
				return n
			}
		}
		return mk("upd", "", ct, freshSym("arr", ct))
	}
	if !sameType(p.st, ct) {
		return freshSym("punned", ct)
	}
	st := p.st.Underlying().(*types.Struct)
	n := &VStruct{t: ct}
	for i := 0; i < st.NumFields(); i++ {
		f := e.fieldOf(s, cell, p.st, i)
		if i == p.idx {
			f = e.storePath(s, f, st.Field(i).Type(), path[1:], v)
		}
		n.f = append(n.f, f)
	}
	return n
}

// coarse forgets the numbers in a value, but whether they are zero.
func (e *Engine) coarse(s *State, v V) V {
	n, ch := mapV(v, func(x V) (V, bool) {
		i, ok := x.(Int)
		if !ok || i.isConst() && i.c == 0 {
			return nil, false
		}
		f := it(freshSym("n", intT))
		if s.zone.lower(i) >= 1 {
			s.assumeLE(f.neg().addc(1))
		} else if s.zone.lower(i) >= 0 {
			s.assumeLE(f.neg())
		}
		return f, true
	})
	if ch {
		return n
	}
	return v
}

func (e *Engine) storeRoot(s *State, a *VAddr, v V) {
	if e.noOut {
		switch v.(type) {
		case Int, *VStruct:
			v = e.coarse(s, v)
		}
	}
	// a field of a struct that is stored as a whole
	for n := len(a.path) - 1; n >= 0; n-- {
		up := &VAddr{root: a.root, rt: a.rt, path: a.path[:n]}
		if c, ok := s.mem[memKey(up)]; ok {
			s.wmem()[memKey(up)] = memCell{up, e.storePath(s, c.v, a.path[n].st, a.path[n:], v)}
			return
		}
	}
	k := memKey(a)
	pre := k + "."
	for mk := range s.mem {
		if strings.HasPrefix(mk, pre) {
			delete(s.wmem(), mk)
		}
	}
	s.wmem()[k] = memCell{a, v}
}

func (e *Engine) bump(s *State, root *Term) {
	k := "ver:" + vkey(root)
	n := ic(1)
	if g, ok := s.ghost[k]; ok {
		n = g.(Int).addc(1)
		if n.c > 3 {
			n.c = 2
		}
	}
	s.wghost()[k] = n
}

func (e *Engine) storeElem(s *State, a *VElem, v V) {
	switch x := a.s.(type) {
	case *VOut:
		e.outStore(s, x, a.idx, v)
	case *VSlice:
		if x.base.op == "list" {
			e.storeList(s, a, x, v)
			return
		}
		e.bump(s, x.base)
		for k, f := range s.bytes {
			if f.base == x.base {
				delete(s.wbytes(), k)
			}
		}
	}
}

// ---- instructions

func (e *Engine) step(s *State) bool {
	f := s.top()
	if f.pc >= len(f.blk.Instrs) {
		e.fail = "internal: fell off block in " + f.fn.String()
		return false
	}
	ins := f.blk.Instrs[f.pc]
	switch x := ins.(type) {
	case *ssa.DebugRef:
		s.wtop().pc++
		return true
	case *ssa.Jump:
		return e.goTo(s, f.blk.Succs[0])
	case *ssa.If:
		c := e.val(s, x.Cond)
		return e.branch(s, c, f.blk.Succs[0], f.blk.Succs[1])
	case *ssa.Return:
		res := make([]V, len(x.Results))
		for i, r := range x.Results {
			res[i] = e.val(s, r)
		}
		return e.ret(s, res)
	case *ssa.Panic:
		e.exits = append(e.exits, Exit{s: s, panic: true, why: "panic at " + e.P.pos(x.Pos())})
		return false
	case *ssa.Call:
		return e.call(s, x, x)
	case *ssa.Defer:
		d := deferred{call: &x.Call, fn: e.calleeVal(s, &x.Call)}
		for _, a := range x.Call.Args {
			d.args = append(d.args, e.val(s, a))
		}
		wf := s.wtop()
		wf.defers = append(wf.defers, d)
		wf.pc++
		return true
	case *ssa.RunDefers:
		wf := s.wtop()
		if n := len(wf.defers); n > 0 {
			d := wf.defers[n-1]
			wf.defers = wf.defers[:n-1]
			if fv, ok := d.fn.(*VFunc); ok && fv.fn.Blocks != nil && e.P.mine(fv.fn) {
				nf := e.push(s, fv.fn, d.args, fv.bind)
				nf.isDef = true
				// the caller frame's pc stays at RunDefers; see ret
				return true
			}
			if e.onCall != nil {
				if cf := d.call.StaticCallee(); cf != nil {
					e.onCall(e, s, nil, cf.String(), d.args)
				}
			}
			return true
		}
		wf.pc++
		return true
	case *ssa.Go, *ssa.Send, *ssa.Select:
		e.fail = "unsupported instruction " + ins.String() + " in " + f.fn.String()
		return false
	case *ssa.Store:
		addr := e.val(s, x.Addr)
		v := e.val(s, x.Val)
		e.nilDeref(s, x.Addr, addr)
		if el, ok := addr.(*VElem); ok {
			if _, isOut := el.s.(*VOut); isOut {
				e.store(s, ins, addr, v)
				s.wtop().pc++
				return true
			}
		}
		e.store(s, ins, addr, v)
		s.wtop().pc++
		return true
	case *ssa.MapUpdate:
		m := e.val(s, x.Map)
		if t, ok := m.(*Term); ok {
			e.bump(s, t)
		}
		if e.onStore != nil {
			e.onStore(e, s, ins, m, e.val(s, x.Value))
		}
		s.wtop().pc++
		return true
	case *ssa.Next:
		return e.next(s, x)
	case *ssa.TypeAssert:
		return e.typeAssert(s, x)
	case *ssa.Slice:
		return e.slice(s, x)
	}
	v, ok := ins.(ssa.Value)
	if !ok {
		e.fail = "unsupported instruction " + ins.String() + " in " + f.fn.String()
		return false
	}
	r, cont := e.compute(s, v)
	if !cont {
		return false
	}
	wf := s.wtop()
	wf.regs[v] = r
	wf.pc++
	return true
}

func (e *Engine) nilDeref(s *State, v ssa.Value, addr V) {}

func (e *Engine) compute(s *State, v ssa.Value) (V, bool) {
	switch x := v.(type) {
	case *ssa.Alloc:
		o := newObj(x.Comment, deref(x.Type()))
		s.wheap()[o] = zeroV(o.t)
		return &VAddr{o: o}, true
	case *ssa.BinOp:
		return e.binop(s, x.Op, e.val(s, x.X), e.val(s, x.Y), x.X.Type(), x.Type()), true
	case *ssa.UnOp:
		a := e.val(s, x.X)
		switch x.Op {
		case token.MUL:
			return e.load(s, x, a, x.Type()), true
		case token.NOT:
			return not(a), true
		case token.SUB:
			if n, ok := toInt(a); ok && isInt(x.Type()) {
				return n.neg(), true
			}
			return mk("neg", "", x.Type(), a), true
		case token.XOR:
			if n, ok := a.(Int); ok && n.isConst() {
				return ic(wrapConst(^n.c, x.Type())), true
			}
			return e.wrap(mk("compl", "", x.Type(), a)), true
		}
		return mk("unop"+x.Op.String(), "", x.Type(), a), true
	case *ssa.ChangeType, *ssa.ChangeInterface:
		return e.val(s, *v.(ssa.Instruction).Operands(nil)[0]), true
	case *ssa.Convert:
		return e.convert(s, e.val(s, x.X), x.X.Type(), x.Type()), true
	case *ssa.MultiConvert:
		return mk("conv", "", x.Type(), e.val(s, x.X)), true
	case *ssa.Extract:
		t := e.val(s, x.Tuple)
		if tt, ok := t.(*VTuple); ok {
			return tt.e[x.Index], true
		}
		return e.wrap(mk("extract", fmt.Sprint(x.Index), x.Type(), t)), true
	case *ssa.Field:
		return e.fieldOf(s, e.val(s, x.X), x.X.Type(), x.Field), true
	case *ssa.FieldAddr:
		a := e.val(s, x.X)
		p := pel{st: deref(x.X.Type()), idx: x.Field}
		switch y := a.(type) {
		case *VAddr:
			c := *y
			c.path = append(append([]pel(nil), y.path...), p)
			return &c, true
		case *VElem:
			c := *y
			c.path = append(append([]pel(nil), y.path...), p)
			return &c, true
		case *Term:
			return &VAddr{root: y, rt: p.st, path: []pel{p}}, true
		case *VNil:
			e.exits = append(e.exits, Exit{s: s, panic: true, why: "nil dereference at " + e.P.pos(x.Pos())})
			return nil, false
		}
		return &VAddr{root: mk("ptrof", "", x.X.Type(), a), rt: p.st, path: []pel{p}}, true
	case *ssa.Index:
		a := e.val(s, x.X)
		i, _ := toInt(e.val(s, x.Index))
		if sl, ok := asSlice(a); ok && sl.str {
			e.checkIndex(s, x, i, sl.hi.sub(sl.lo))
			iv := e.val(s, x.Index)
			if r := e.tableIndex(sl, iv); r != nil {
				return r, true
			}
			return e.byteAt(s, sl.base, sl.lo.add(i)), true
		}
		if st, ok := a.(*VStruct); ok && i.isConst() && i.c >= 0 && i.c < int64(len(st.f)) && st.f[i.c] != nil {
			return st.f[i.c], true
		}
		return e.wrap(mk("elem", "", x.Type(), a, e.val(s, x.Index))), true
	case *ssa.IndexAddr:
		return e.indexAddr(s, x)
	case *ssa.Lookup:
		m := e.val(s, x.X)
		if sl, ok := asSlice(m); ok && isString(x.X.Type()) {
			iv := e.val(s, x.Index)
			i, _ := e.intVal(iv)
			if bf, ok := iv.(*BFn); ok {
				if r := e.tableIndex(sl, bf); r != nil {
					e.checkTable(s, x, bf, sl)
					return r, true
				}
			}
			if !isToken(m) {
				e.checkIndex(s, x, i, sl.hi.sub(sl.lo))
			}
			if r := e.tableIndex(sl, iv); r != nil {
				return r, true
			}
			return e.byteAt(s, sl.base, sl.lo.add(i)), true
		}
		ver := ""
		if mt, ok := m.(*Term); ok {
			if g, ok := s.ghost["ver:"+vkey(mt)]; ok {
				ver = "#" + vkey(g)
			}
		}
		k := e.val(s, x.Index)
		if x.CommaOk {
			tt := x.Type().(*types.Tuple)
			return &VTuple{[]V{e.wrap(mk("lookup", ver, tt.At(0).Type(), m, k)), mk("found", ver, tt.At(1).Type(), m, k)}}, true
		}
		return e.wrap(mk("lookup", ver, x.Type(), m, k)), true
	case *ssa.MakeClosure:
		r := &VFunc{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			r.bind = append(r.bind, e.val(s, b))
		}
		return r, true
	case *ssa.MakeInterface:
		return &VIface{x.X.Type(), e.val(s, x.X)}, true
	case *ssa.MakeMap:
		return mk("map", "", x.Type(), objRef{newObj("map", x.Type())}), true
	case *ssa.MakeChan:
		return freshSym("chan", x.Type()), true
	case *ssa.MakeSlice:
		n, _ := e.intVal(e.val(s, x.Len))
		c, _ := e.intVal(e.val(s, x.Cap))
		if l, ok := e.makeList(s, x.Type(), n); ok {
			return l, true
		}
		o := newObj("make", x.Type())
		base := mk("obj", "", x.Type(), objRef{o})
		s.wheap()[o] = &VTuple{[]V{n, c}}
		if e.onBounds != nil {
			e.boundsObl(s, x, "make", n.neg(), fmt.Sprintf("length %s of make is negative", vstr(n)))
		}
		return &VSlice{base, ic(0), n, false, elemOf(x.Type())}, true
	case *ssa.Range:
		t := mk("iter", "", x.Type(), e.val(s, x.X), objRef{newObj("iter", x.X.Type())})
		return t, true
	case *ssa.SliceToArrayPointer:
		return mk("toarr", "", x.Type(), e.val(s, x.X)), true
	}
	e.fail = "unsupported instruction " + v.String()
	return nil, false
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (e *Engine) intVal(v V) (Int, bool) {
	switch x := v.(type) {
	case Int:
		return x, true
	case *Term:
		return it(x), true
	case *BFn:
		return it(mk("bfn", fmt.Sprint(tabID(x.tab)), types.Typ[types.Uint8], x)), true
	}
	return it(mk("int", "", intT, v)), false
}

// tableIndex composes a constant string with a function of a byte.
func (e *Engine) tableIndex(sl *VSlice, iv V) V {
	bf, ok := iv.(*BFn)
	if !ok || sl.base.op != "str" || !sl.lo.isConst() {
		return nil
	}
	var t [256]int64
	for i := range t {
		k := bf.tab[i] + sl.lo.c
		if k < 0 || k >= int64(len(sl.base.aux)) {
			t[i] = -1
			continue
		}
		t[i] = int64(sl.base.aux[k])
	}
	return &BFn{bf.base, bf.pos, internTab(t)}
}

func (e *Engine) checkTable(s *State, ins ssa.Instruction, bf *BFn, sl *VSlice) {
	if e.onBounds == nil {
		return
	}
	n := sl.hi.sub(sl.lo)
	ok := 1
	set := s.byteSet(bf.base, bf.pos)
	for i := 0; i < 256; i++ {
		if set.has(i) && (bf.tab[i] < 0 || n.isConst() && bf.tab[i] >= n.c) {
			ok = 0
		}
	}
	e.onBounds(e, s, ins, "index", ok, "table index out of range")
}

func (e *Engine) indexAddr(s *State, x *ssa.IndexAddr) (V, bool) {
	a := e.val(s, x.X)
	iv := e.val(s, x.Index)
	i, _ := e.intVal(iv)
	if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
		if n, ok := a.(*VNil); ok {
			_ = n
			if e.onBounds != nil {
				e.onBounds(e, s, x, "index", 0, "index into a nil slice")
			}
			e.exits = append(e.exits, Exit{s: s, panic: true, why: "index of nil slice at " + e.P.pos(x.Pos())})
			return nil, false
		}
		l := e.length(s, a)
		if !isToken(a) && !e.checkIndex(s, x, i, l) {
			return nil, false
		}
		if sl, ok := asSlice(a); ok {
			return &VElem{s: sl, idx: i, et: elemOf(x.X.Type())}, true
		}
		return &VElem{s: a, idx: i, et: elemOf(x.X.Type())}, true
	}
	// pointer to array
	n := int64(-1)
	if ar, ok := deref(x.X.Type()).Underlying().(*types.Array); ok {
		n = ar.Len()
	}
	if n >= 0 {
		if !e.checkIndex(s, x, i, ic(n)) {
			return nil, false
		}
	}
	switch y := a.(type) {
	case *VAddr:
		c := *y
		c.path = append(append([]pel(nil), y.path...), pel{st: deref(x.X.Type()), ix: iv})
		return &c, true
	case *Term:
		return &VAddr{root: y, path: []pel{{st: deref(x.X.Type()), ix: iv}}}, true
	}
	return mk("elemaddr", "", x.Type(), a, iv), true
}

// checkIndex checks 0 <= i < n and assumes it afterwards.
func (e *Engine) checkIndex(s *State, ins ssa.Instruction, i, n Int) bool {
	if e.onBounds != nil {
		e.boundsObl(s, ins, "index", i.neg(), fmt.Sprintf("index %s may be negative", vstr(i)))
		e.boundsObl(s, ins, "index", i.sub(n).addc(1), fmt.Sprintf("index %s may not be below the length %s", vstr(i), vstr(n)))
	}
	return s.assumeLE(i.neg()) && s.assumeLE(i.sub(n).addc(1))
}

// boundsObl reports the obligation d <= 0.
func (e *Engine) boundsObl(s *State, ins ssa.Instruction, kind string, d Int, msg string) {
	e.onBounds(e, s, ins, kind, s.decLE(d), msg)
}

func not(v V) V {
	switch x := v.(type) {
	case VBool:
		return VBool(!x)
	case *CNot:
		return x.c
	}
	return &CNot{v}
}

func wrapConst(c int64, t types.Type) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return c
	}
	switch b.Kind() {
	case types.Uint8:
		return int64(uint8(c))
	case types.Int8:
		return int64(int8(c))
	case types.Uint16:
		return int64(uint16(c))
	case types.Int16:
		return int64(int16(c))
	case types.Uint32:
		return int64(uint32(c))
	case types.Int32:
		return int64(int32(c))
	}
	return c
}

// signedTerms reports whether a value is made of signed values only, which
// are within the range of signed types.
func signedTerms(x Int) bool {
	for _, t := range x.ts {
		if t.t.typ == nil || !isInt(t.t.typ) {
			return false
		}
		if _, uns := intSize(t.t.typ); uns {
			return false
		}
	}
	return true
}

func intSize(t types.Type) (bits int, unsigned bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, false
	}
	switch b.Kind() {
	case types.Uint8:
		return 8, true
	case types.Int8:
		return 8, false
	case types.Uint16:
		return 16, true
	case types.Int16:
		return 16, false
	case types.Uint32:
		return 32, true
	case types.Int32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, true
	}
	return 64, false
}

func (e *Engine) convert(s *State, v V, from, to types.Type) V {
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	fu, tu := from.Underlying(), to.Underlying()
	fb, _ := fu.(*types.Basic)
	tb, _ := tu.(*types.Basic)
	switch {
	case isInt(from) && isInt(to):
		switch x := v.(type) {
		case *BFn:
			var t [256]int64
			for i := range t {
				t[i] = wrapConst(x.tab[i], to)
			}
			return &BFn{x.base, x.pos, internTab(t)}
		case Int:
			if x.isConst() {
				return ic(wrapConst(x.c, to))
			}
			fbits, fun := intSize(from)
			tbits, tun := intSize(to)
			if fun == tun && tbits >= fbits || fun && !tun && tbits > fbits || !fun && tun && tbits >= fbits && s.zone.lower(x) >= 0 {
				return x
			}
			if tbits >= fbits && fbits == 64 {
				// signedness changes of 64 bit values
				if s.zone.lower(x) >= 0 && (!fun || tun || s.zone.upper(x) < inf || signedTerms(x)) {
					return x
				}
			}
			lo, hi := typeBounds(&Term{op: "x", typ: to})
			if s.zone.lower(x) >= lo && s.zone.upper(x) <= hi && hi < inf {
				return x
			}
			return it(mk("trunc", tstr(to), to, x))
		case *VAddr, *VElem:
			return v
		}
		return it(mk("trunc", tstr(to), to, v))
	case tb != nil && tb.Kind() == types.UnsafePointer:
		if x, ok := v.(Int); ok {
			if t := x.single(); t != nil && t.op == "uptr" {
				return t.args[0]
			}
			return mk("ptr", "", to, x)
		}
		return v
	case fb != nil && fb.Kind() == types.UnsafePointer:
		if isInt(to) {
			switch x := v.(type) {
			case *Term:
				if x.op == "ptr" {
					return x.args[0]
				}
				return it(mk("uptr", "", to, x))
			case *VNil:
				return ic(0)
			}
			return it(mk("uptr", "", to, v))
		}
		return v
	case isString(to) && isByteSlice(from):
		if sl, ok := asSlice(v); ok {
			return &VSlice{sl.base, sl.lo, sl.hi, true, sl.et}
		}
		if o, ok := v.(*VOut); ok {
			return e.outRegion(s, e.startOf(o), o, true)
		}
	case isByteSlice(to) && isString(from):
		if sl, ok := asSlice(v); ok {
			return &VSlice{sl.base, sl.lo, sl.hi, false, sl.et}
		}
	}
	if c, ok := v.(*VConst); ok {
		return &VConst{c.v, to}
	}
	if isInt(to) {
		return it(mk("conv", tstr(from)+">"+tstr(to), to, v))
	}
	return mk("conv", tstr(from)+">"+tstr(to), to, v)
}

func (e *Engine) next(s *State, x *ssa.Next) bool {
	itv := e.val(s, x.Iter)
	t, _ := itv.(*Term)
	tt := x.Type().(*types.Tuple)
	if t == nil || t.op != "iter" {
		// renamed iterator: unknown collection
		t = mk("iter", "?", x.Iter.Type(), itv, itv)
	}
	coll := t.args[0]
	key := "it:" + vkey(t)
	started := s.ghost[key] != nil
	if x.IsString {
		sl, ok := asSlice(coll)
		if !ok {
			sl = &VSlice{base: mk("strof", "", types.Typ[types.String], coll), str: true}
		}
		if isToken(sl) {
			s1 := s.fork()
			s1.wtop().regs[x] = &VTuple{[]V{VBool(false), ic(0), ic(0)}}
			s1.wtop().pc++
			e.enter(s1)
			i, r := freshSym("i", intT), freshSym("r", types.Typ[types.Rune])
			s.assumeLE(it(i).neg())
			s.wtop().regs[x] = &VTuple{[]V{VBool(true), it(i), it(r)}}
			s.wtop().pc++
			e.enter(s)
			return false
		}
		pos := ic(0)
		if g, ok := s.ghost[key].(Int); ok {
			pos = g
		}
		n := sl.hi.sub(sl.lo)
		s1 := s.fork()
		if s1.assumeLE(n.sub(pos)) { // exhausted
			s1.wtop().regs[x] = &VTuple{[]V{VBool(false), ic(0), ic(0)}}
			s1.wtop().pc++
			e.enter(s1)
		}
		if !s.assumeLE(pos.addc(1).sub(n)) {
			return false
		}
		p := sl.lo.add(pos)
		for _, o := range e.decodeRune(s, sl.base, p, sl.hi) {
			rt := o.v.(*VTuple)
			sz := rt.e[1].(Int)
			o.s.wghost()[key] = pos.add(sz)
			o.s.wtop().regs[x] = &VTuple{[]V{VBool(true), pos, rt.e[0]}}
			o.s.wtop().pc++
			e.enter(o.s)
		}
		return false
	}
	n := it(mk("len", "", intT, coll))
	if _, isNil := coll.(*VNil); isNil {
		n = ic(0)
	}
	mkNil := func(t types.Type) V {
		if t == nil {
			return nil
		}
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return zeroV(t)
	}
	// end
	s1 := s.fork()
	ok := true
	if !started {
		ok = s1.assumeEQ(n)
	}
	if ok {
		s1.wtop().regs[x] = &VTuple{[]V{VBool(false), mkNil(tt.At(1).Type()), mkNil(tt.At(2).Type())}}
		s1.wtop().pc++
		delete(s1.wghost(), key)
		e.enter(s1)
	}
	if !started && !s.assumeLE(ic(1).sub(n)) {
		return false
	}
	s.wghost()[key] = ic(1)
	fr := func(t types.Type, nm string) V {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return e.wrap(freshSym(nm, t))
	}
	k := fr(tt.At(1).Type(), "key")
	v := fr(tt.At(2).Type(), "elem")
	s.wtop().regs[x] = &VTuple{[]V{VBool(true), k, v}}
	s.wtop().pc++
	return true
}

func (e *Engine) typeAssert(s *State, x *ssa.TypeAssert) bool {
	v := e.val(s, x.X)
	set := func(st *State, r V) {
		st.wtop().regs[x] = r
		st.wtop().pc++
	}
	res := func(ok bool, r V) V {
		if x.CommaOk {
			return &VTuple{[]V{r, VBool(ok)}}
		}
		return r
	}
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	if i, ok := v.(*VIface); ok {
		var hit bool
		var r V = i.v
		if toIface {
			hit = types.AssignableTo(i.t, x.AssertedType)
			r = v
		} else {
			hit = types.Identical(i.t, x.AssertedType)
		}
		if hit {
			set(s, res(true, r))
			return true
		}
		if x.CommaOk {
			set(s, res(false, zeroV(x.AssertedType)))
			return true
		}
		e.exits = append(e.exits, Exit{s: s, panic: true, why: "failed type assertion at " + e.P.pos(x.Pos())})
		return false
	}
	if _, ok := v.(*VNil); ok {
		if x.CommaOk {
			set(s, res(false, zeroV(x.AssertedType)))
			return true
		}
		e.exits = append(e.exits, Exit{s: s, panic: true, why: "failed type assertion at " + e.P.pos(x.Pos())})
		return false
	}
	var r V
	if toIface {
		r = v
	} else {
		r = e.wrap(mk("dyn", "", x.AssertedType, v))
	}
	if !x.CommaOk {
		set(s, r)
		return true
	}
	atom := mk("isa", tstr(x.AssertedType), types.Typ[types.Bool], v)
	if b, ok := s.facts[atom]; ok {
		if b {
			set(s, res(true, r))
		} else {
			set(s, res(false, zeroV(x.AssertedType)))
		}
		return true
	}
	s1 := s.fork()
	s1.wfacts()[atom] = false
	set(s1, res(false, zeroV(x.AssertedType)))
	e.enter(s1)
	s.wfacts()[atom] = true
	set(s, res(true, r))
	return true
}

func (e *Engine) slice(s *State, x *ssa.Slice) bool {
	a := e.val(s, x.X)
	if isToken(a) {
		t := e.token
		if sl, ok := asSlice(a); ok && aliasSyms[sl.base] {
			t = e.aliasToken
		}
		s.wtop().regs[x] = t(s, x.Type())
		s.wtop().pc++
		return true
	}
	lo := ic(0)
	if x.Low != nil {
		lo, _ = e.intVal(e.val(s, x.Low))
	}
	var hi Int
	hasHi := x.High != nil
	if hasHi {
		hi, _ = e.intVal(e.val(s, x.High))
	}
	done := func(r V) bool {
		s.wtop().regs[x] = r
		s.wtop().pc++
		return true
	}
	switch y := a.(type) {
	case *VOut:
		if !hasHi {
			hi = e.length(s, y)
		}
		return done(e.outSlice(s, x, y, lo, hi, x.Low != nil, hasHi))
	case *VSlice:
		if y.base.op == "list" && lo.isConst() && (!hasHi || hi.isConst()) {
			n := y.hi.sub(y.lo)
			if !hasHi {
				hi = n
			}
			if lo.c >= 0 && lo.c <= hi.c && hi.c <= n.c {
				return done(&VSlice{y.base, y.lo.add(lo), y.lo.add(hi), false, y.et})
			}
		}
	case *VNil:
		if !hasHi || s.decEQ(hi) == 1 {
			return done(a)
		}
	case *VAddr:
		// slicing an array
		if ar, ok := deref(x.X.Type()).Underlying().(*types.Array); ok {
			if !hasHi {
				hi = ic(ar.Len())
			}
			var base *Term
			if y.o != nil {
				base = mk("arr", pathStr(y.path), types.NewSlice(ar.Elem()), objRef{y.o})
			} else {
				base = mk("arr", rootPath(y.path), types.NewSlice(ar.Elem()), y.root)
			}
			e.checkSlice(s, x, lo, hi, ic(ar.Len()))
			return done(&VSlice{base, lo, hi, false, ar.Elem()})
		}
	}
	sl, ok := asSlice(a)
	if !ok {
		if isByteSlice(x.Type()) || isString(x.Type()) {
			sl, _ = asSlice(mk("sliceof", "", x.Type(), a))
		}
		if sl == nil {
			return done(e.wrap(mk("slice", "", x.Type(), a, lo, hi)))
		}
	}
	n := sl.hi.sub(sl.lo)
	lim := n
	if !hasHi {
		hi = n
	} else if !sl.str {
		// up to the capacity
		if s.decLE(hi.sub(n)) != 1 {
			lim = e.capOf(s, sl).sub(sl.lo)
		}
	}
	if !e.checkSlice(s, x, lo, hi, lim) {
		return false
	}
	// the prefix of a copy of an output
	if o := e.copyOf(s, sl, lo, hi); o != nil {
		return done(o)
	}
	return done(&VSlice{sl.base, sl.lo.add(lo), sl.lo.add(hi), sl.str, sl.et})
}

func (e *Engine) capOf(s *State, sl *VSlice) Int {
	if sl.base.op == "obj" {
		if t, ok := s.heap[sl.base.args[0].(objRef).o].(*VTuple); ok {
			return t.e[1].(Int)
		}
	}
	if sl.base.op == "nilslice" {
		return ic(0)
	}
	return it(mk("cap", "", intT, sl.base))
}

func (e *Engine) checkSlice(s *State, ins ssa.Instruction, lo, hi, lim Int) bool {
	if e.onBounds != nil {
		e.boundsObl(s, ins, "slice", lo.neg(), fmt.Sprintf("low bound %s may be negative", vstr(lo)))
		e.boundsObl(s, ins, "slice", lo.sub(hi), fmt.Sprintf("low bound %s may be above the high bound %s", vstr(lo), vstr(hi)))
		e.boundsObl(s, ins, "slice", hi.sub(lim), fmt.Sprintf("high bound %s may be above the limit %s", vstr(hi), vstr(lim)))
	}
	return s.assumeLE(lo.neg()) && s.assumeLE(lo.sub(hi)) && s.assumeLE(hi.sub(lim))
}

func (e *Engine) ret(s *State, res []V) bool {
	f := s.top()
	if e.onRet != nil {
		e.onRet(e, s, f, res)
	}
	if f.onRet != nil {
		res = f.onRet(e, s, res)
	}
	if len(s.frames) == 1 {
		for i := range res {
			res[i] = e.settle(s, res[i])
		}
		pos := f.blk.Instrs[min(f.pc, len(f.blk.Instrs)-1)].Pos()
		if pos == token.NoPos {
			pos = f.fn.Pos()
		}
		wf := s.wtop()
		for v := range wf.regs {
			delete(wf.regs, v)
		}
		s.wghost()["ret"] = &VTuple{res}
		wf.tag = "ret"
		if e.merge(s, false) {
			r := e.seen[e.lastKey]
			r.exit = len(e.exits) + 1
			e.exits = append(e.exits, Exit{s: s, res: s.ghost["ret"].(*VTuple).e, pos: pos})
		}
		return false
	}
	s.frames = s.frames[:len(s.frames)-1]
	if f.isDef {
		return true
	}
	wf := s.wtop()
	ins := wf.blk.Instrs[wf.pc-1]
	if v, ok := ins.(ssa.Value); ok {
		wf.regs[v] = pack(res)
	}
	if manyReturns(f.fn) {
		return e.merge(s, false)
	}
	return true
}

var retCount = map[*ssa.Function]int{}

// manyReturns reports whether paths can reach different returns.
func manyReturns(fn *ssa.Function) bool {
	n, ok := retCount[fn]
	if !ok {
		for _, b := range fn.Blocks {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				n++
			}
		}
		retCount[fn] = n
	}
	return n > 1
}

func pack(res []V) V {
	switch len(res) {
	case 0:
		return nil
	case 1:
		return res[0]
	}
	return &VTuple{res}
}

func (e *Engine) calleeVal(s *State, c *ssa.CallCommon) V {
	if c.IsInvoke() {
		return e.val(s, c.Value)
	}
	return e.val(s, c.Value)
}

func (e *Engine) onStack(s *State, fn *ssa.Function) bool {
	for _, f := range s.frames {
		if f.fn == fn {
			return true
		}
	}
	return false
}

func (e *Engine) call(s *State, ins ssa.CallInstruction, v ssa.Value) bool {
	c := ins.Common()
	args := make([]V, 0, len(c.Args)+1)
	e.sites[ins] = true
	if b, ok := c.Value.(*ssa.Builtin); ok {
		for _, a := range c.Args {
			args = append(args, e.val(s, a))
		}
		return e.finish(s, v, e.builtin(s, ins, b.Name(), args))
	}
	var fv V
	if c.IsInvoke() {
		recv := e.val(s, c.Value)
		for _, a := range c.Args {
			args = append(args, e.val(s, a))
		}
		if i, ok := recv.(*VIface); ok {
			if m := e.P.method(i.t, c.Method); m != nil {
				fv = &VFunc{fn: m}
				args = append([]V{i.v}, args...)
			}
		}
		if _, ok := recv.(*VNil); ok {
			e.exits = append(e.exits, Exit{s: s, panic: true, why: "call on nil interface at " + e.P.pos(ins.Pos())})
			return false
		}
		if fv == nil {
			return e.finish(s, v, e.invoke(s, ins, recv, c.Method, args))
		}
	} else {
		fv = e.val(s, c.Value)
		for _, a := range c.Args {
			args = append(args, e.val(s, a))
		}
	}
	return e.callV(s, ins, v, fv, args)
}

func (e *Engine) callV(s *State, ins ssa.CallInstruction, v ssa.Value, fv V, args []V) bool {
	c := ins.Common()
	f, ok := fv.(*VFunc)
	if !ok {
		if _, isnil := fv.(*VNil); isnil {
			e.exits = append(e.exits, Exit{s: s, panic: true, why: "call of nil function at " + e.P.pos(ins.Pos())})
			return false
		}
		if e.contract != nil {
			if out, ok := e.contract(e, s, ins, fv, c.Signature(), args, nil); ok {
				return e.finish(s, v, out)
			}
		}
		return e.finish(s, v, e.opaque(s, ins, "dynamic", c.Signature(), args, false))
	}
	name := f.fn.String()
	if e.onCall != nil {
		e.onCall(e, s, ins, name, args)
	}
	if m, ok := e.override[name]; ok {
		if out := m(e, s, ins, f.fn, args); out != nil {
			return e.finish(s, v, out)
		}
	}
	if e.callHook != nil {
		if out := e.callHook(e, s, f.fn, args); out != nil {
			return e.finish(s, v, out)
		}
	}
	if out := e.wordCall(s, f.fn, args); out != nil {
		return e.finish(s, v, out)
	}
	if len(tokenSyms) > 0 && len(args) > 0 && isToken(args[0]) && !e.P.mine(f.fn) {
		if out := e.tokenCall(s, f.fn, args); out != nil {
			return e.finish(s, v, out)
		}
	}
	if f.fn.Blocks != nil && (e.P.mine(f.fn) || e.inlineExt != nil && e.inlineExt(f.fn)) {
		if e.onStack(s, f.fn) {
			if e.contract != nil {
				if out, ok := e.contract(e, s, ins, fv, f.fn.Signature, args, f.fn); ok {
					return e.finish(s, v, out)
				}
			}
			return e.finish(s, v, e.opaque(s, ins, "rec:"+f.fn.Name(), f.fn.Signature, args, true))
		}
		s.wtop().pc++
		e.push(s, f.fn, args, f.bind)
		return true
	}
	if m, ok := models[name]; ok {
		if out := m(e, s, ins, f.fn, args); out != nil {
			return e.finish(s, v, out)
		}
	}
	return e.finish(s, v, e.opaque(s, ins, name, f.fn.Signature, args, false))
}

// tokenCall is a library function of a text that is not followed.
func (e *Engine) tokenCall(s *State, fn *ssa.Function, args []V) []outcome {
	tok := e.token
	own := fn.Blocks != nil && e.P.mine(fn)
	for i, a := range args {
		if sl, ok := asSlice(a); ok && aliasSyms[sl.base] && (!own || e.P.effects(fn).returns[i]) {
			tok = e.aliasToken
		}
	}
	if e.onOpaque != nil && own {
		e.onOpaque(e, s, fn, args)
	}
	res := fn.Signature.Results()
	if res.Len() == 0 {
		return nil
	}
	var r []V
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		switch {
		case isByteSlice(t) || isString(t):
			r = append(r, tok(s, t))
		case isErrorT(t):
			return nil
		default:
			r = append(r, e.wrap(freshSym(fn.Name(), t)))
		}
	}
	return []outcome{{s, pack(r)}}
}

// finish stores the result of a call in each outcome.
func (e *Engine) finish(s *State, v ssa.Value, out []outcome) bool {
	for i, o := range out {
		wf := o.s.wtop()
		if v != nil {
			wf.regs[v] = o.v
		}
		wf.pc++
		if i < len(out)-1 || o.s != s {
			e.enter(o.s)
		}
	}
	return len(out) > 0 && out[len(out)-1].s == s
}

// ---- branches

func (e *Engine) branch(s *State, c V, t, f *ssa.BasicBlock) bool {
	if b, ok := c.(VBool); ok {
		if b {
			return e.goTo(s, t)
		}
		return e.goTo(s, f)
	}
	ts := e.assume(s.fork(), c, true)
	fs := e.assume(s, c, false)
	for _, x := range ts {
		if e.goTo(x, t) {
			e.enter(x)
		}
	}
	for _, x := range fs {
		if e.goTo(x, f) {
			e.enter(x)
		}
	}
	return false
}

func one(ok bool, s *State) []*State {
	if ok {
		return []*State{s}
	}
	return nil
}

// assume restricts the state to those in which c has the given value.
func (e *Engine) assume(s *State, c V, val bool) []*State {
	switch x := c.(type) {
	case VBool:
		return one(bool(x) == val, s)
	case *CNot:
		return e.assume(s, x.c, !val)
	case *CInt:
		if x.eq {
			if val {
				return one(s.assumeEQ(x.d), s)
			}
			return one(s.assumeNE(x.d), s)
		}
		if val {
			return one(s.assumeLE(x.d), s)
		}
		return one(s.assumeLE(x.d.neg().addc(1)), s)
	case *CByte:
		set := x.set
		if !val {
			set = set.not()
		}
		ok := s.narrow(x.base, x.pos, set)
		if ok && e.onNarrow != nil {
			e.onNarrow(e, s, x.base, x.pos)
		}
		return one(ok, s)
	case *Term:
		if b, ok := s.facts[x]; ok {
			return one(b == val, s)
		}
		switch x.op {
		case "seqeq":
			return e.assumeSeq(s, x, val)
		case "isnil":
			// nil sequences are empty
			if val {
				if t, ok := x.args[0].(*Term); ok {
					switch t.typ.Underlying().(type) {
					case *types.Slice, *types.Map:
						if !s.assumeEQ(it(mk("len", "", intT, t))) {
							return nil
						}
					}
				}
			}
		case "eq":
			return e.assumeEq(s, x, val)
		case "and":
			if val {
				var r []*State
				for _, y := range e.assume(s, x.args[0], true) {
					r = append(r, e.assume(y, x.args[1], true)...)
				}
				return r
			}
			r := e.assume(s.fork(), x.args[0], false)
			for _, y := range e.assume(s, x.args[0], true) {
				r = append(r, e.assume(y, x.args[1], false)...)
			}
			return r
		}
		s.wfacts()[x] = val
		return []*State{s}
	}
	t := mk("cond", "", types.Typ[types.Bool], c)
	if b, ok := s.facts[t]; ok {
		return one(b == val, s)
	}
	s.wfacts()[t] = val
	return []*State{s}
}

// assumeEq handles equality of an opaque value with a distinct constant.
func (e *Engine) assumeEq(s *State, x *Term, val bool) []*State {
	a, _ := x.args[0].(*Term)
	if a != nil {
		if k, ok := s.eqs[a]; ok && isDistinct(x.args[1]) {
			return one((vkey(k) == vkey(x.args[1])) == val, s)
		}
	}
	if val && a != nil && isDistinct(x.args[1]) {
		// contradicts a recorded inequality through facts
		s.weqs()[a] = x.args[1]
	}
	s.wfacts()[x] = val
	return []*State{s}
}

func isDistinct(v V) bool {
	t, ok := v.(*Term)
	return ok && t.op == "rtype"
}

func (e *Engine) assumeSeq(s *State, x *Term, val bool) []*State {
	a, ok1 := asSlice(x.args[0])
	b, ok2 := asSlice(x.args[1])
	if !ok1 || !ok2 {
		s.wfacts()[x] = val
		return []*State{s}
	}
	if a.base.op == "str" && b.base.op != "str" {
		a, b = b, a
	}
	if b.base.op != "str" || !b.lo.isConst() || !b.hi.isConst() || len(b.base.aux) > 40 || a.base.op == "conv" {
		s.wfacts()[x] = val
		return []*State{s}
	}
	lit := b.base.aux[b.lo.c:b.hi.c]
	d := a.hi.sub(a.lo).addc(-int64(len(lit)))
	if val {
		if !s.assumeEQ(d) {
			return nil
		}
		for i := 0; i < len(lit); i++ {
			if !s.narrow(a.base, a.lo.addc(int64(i)), bsetOf(lit[i:i+1])) {
				return nil
			}
			if e.onNarrow != nil {
				e.onNarrow(e, s, a.base, a.lo.addc(int64(i)))
			}
		}
		return []*State{s}
	}
	var r []*State
	n := s.fork()
	if s.decEQ(d) == -1 {
		m := s.fork()
		if m.assumeNE(d) {
			r = append(r, m)
		}
		if !n.assumeEQ(d) {
			return r
		}
	} else if s.decEQ(d) == 0 {
		return []*State{s}
	}
	for i := 0; i < len(lit); i++ {
		m := n.fork()
		if m.narrow(a.base, a.lo.addc(int64(i)), bsetOf(lit[i:i+1]).not()) {
			if e.onNarrow != nil {
				e.onNarrow(e, m, a.base, a.lo.addc(int64(i)))
			}
			r = append(r, m)
		}
		if !n.narrow(a.base, a.lo.addc(int64(i)), bsetOf(lit[i:i+1])) {
			break
		}
		if e.onNarrow != nil {
			e.onNarrow(e, n, a.base, a.lo.addc(int64(i)))
		}
	}
	return r
}

var dbgAt = os.Getenv("AT")
