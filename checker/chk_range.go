package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Integers: intervals of exact, unbounded values along the paths of the
// functions that decode integers.

func init() {
	register(&Check{id: "C23", level: "other", run: runC23,
		rule:  "The functions that decode integers are run abstractly, with the functions they call, over intervals of exact integers without wrap-around; comparisons refine the intervals, loops are widened to a fixed point. Where an integer is stored through the destination its exact value lies in the range of the type that is stored on every path, so that no arithmetic or conversion before has wrapped or truncated it; and no path on which an integer was parsed ends without an error unless something was stored.",
		assum: []string{"that the value is the one that the digits denote is not part of it", "the arithmetic is that of amd64"}})
}

type rsym struct{ lo, hi *big.Int }

// rint is sym+off, or a constant if sym is 0.
type rint struct {
	sym int
	off *big.Int
	bad bool // was truncated before
}

type rval struct {
	kind byte // 'i' integer, 'b' boolean, 'n' nil, 'e' not nil, 'u' an unknown error
	i    rint
	b    bool
	id   int
	sums []rval // results of a call
}

type rstate struct {
	vals   map[ssa.Value]rval
	syms   map[int]rsym
	errs   map[int]byte // what is known of unknown errors
	stored bool
	parsed bool
	cells  map[ssa.Value]rval // local variables
	memo   map[string]rval    // sums that were computed
}

func (s *rstate) clone() *rstate {
	n := &rstate{vals: make(map[ssa.Value]rval, len(s.vals)), syms: make(map[int]rsym, len(s.syms)), errs: make(map[int]byte, len(s.errs)), stored: s.stored, parsed: s.parsed, cells: make(map[ssa.Value]rval, len(s.cells)), memo: make(map[string]rval, len(s.memo))}
	for k, v := range s.vals {
		n.vals[k] = v
	}
	for k, v := range s.syms {
		n.syms[k] = v
	}
	for k, v := range s.errs {
		n.errs[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.memo {
		n.memo[k] = v
	}
	return n
}

type rangeRun struct {
	p      *Prog
	sizes  types.Sizes
	next   int
	steps  int
	fail   string
	bad    map[string]string // store site -> what is wrong
	sites  map[string]bool
	ends   map[string]string
	inl    map[*ssa.Function]bool
	thresh []*big.Int
}

type rout struct {
	s    *rstate
	res  []rval
	pos  token.Pos
	path string
}

var bigZero = big.NewInt(0)

func (r *rangeRun) bounds(t types.Type) (*big.Int, *big.Int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	n := uint(r.sizes.Sizeof(b) * 8)
	if b.Info()&types.IsUnsigned != 0 {
		hi := new(big.Int).Lsh(big.NewInt(1), n)
		return bigZero, hi.Sub(hi, big.NewInt(1)), true
	}
	hi := new(big.Int).Lsh(big.NewInt(1), n-1)
	lo := new(big.Int).Neg(hi)
	return lo, hi.Sub(hi, big.NewInt(1)), true
}

func (r *rangeRun) fresh(s *rstate, lo, hi *big.Int) rval {
	r.next++
	s.syms[r.next] = rsym{lo, hi}
	return rval{kind: 'i', i: rint{sym: r.next, off: bigZero}}
}

func (s *rstate) iv(x rint) (*big.Int, *big.Int) {
	if x.sym == 0 {
		return x.off, x.off
	}
	y := s.syms[x.sym]
	return new(big.Int).Add(y.lo, x.off), new(big.Int).Add(y.hi, x.off)
}

func (r *rangeRun) fits(s *rstate, x rint, t types.Type) bool {
	lo, hi, ok := r.bounds(t)
	a, b := s.iv(x)
	return ok && !x.bad && a.Cmp(lo) >= 0 && b.Cmp(hi) <= 0
}

func rconst(v *big.Int) rval { return rval{kind: 'i', i: rint{off: v}} }

func (r *rangeRun) get(s *rstate, v ssa.Value) rval {
	if c, ok := v.(*ssa.Const); ok {
		if c.Value == nil {
			return rval{kind: 'n'}
		}
		switch c.Value.Kind() {
		case constant.Int:
			if _, _, ok := r.bounds(c.Type()); ok {
				b, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
				return rconst(b)
			}
		case constant.Bool:
			return rval{kind: 'b', b: constant.BoolVal(c.Value)}
		}
		return rval{}
	}
	if x, ok := s.vals[v]; ok {
		return x
	}
	return r.top(s, v)
}

// top makes an unknown value.
func (r *rangeRun) top(s *rstate, v ssa.Value) rval {
	x := r.topOf(s, v.Type())
	s.vals[v] = x
	return x
}

func (r *rangeRun) topOf(s *rstate, t types.Type) rval {
	if lo, hi, ok := r.bounds(t); ok {
		return r.fresh(s, lo, hi)
	}
	if isErrorType(t) {
		r.next++
		return rval{kind: 'u', id: r.next}
	}
	return rval{}
}

func (r *rangeRun) stop(msg string) {
	if r.fail == "" {
		r.fail = msg
	}
}

// call runs a function and returns the states at its ends.
func (r *rangeRun) call(fn *ssa.Function, s0 *rstate, depth int) []rout {
	type item struct {
		b    *ssa.BasicBlock
		from *ssa.BasicBlock
		s    *rstate
	}
	var outs []rout
	heads := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, q := range b.Preds {
			if b.Dominates(q) {
				heads[b] = true
			}
		}
	}
	type rec struct {
		s *rstate
		n int
	}
	type place struct {
		b   *ssa.BasicBlock
		ctx string
	}
	recs := map[place]*rec{}
	loops := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	after := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for b := range heads {
		loops[b] = loopOf(b)
		after[b] = map[*ssa.BasicBlock]bool{}
		var add func(q *ssa.BasicBlock)
		add = func(q *ssa.BasicBlock) {
			if !after[b][q] {
				after[b][q] = true
				for _, t := range q.Succs {
					add(t)
				}
			}
		}
		add(b)
	}
	places := map[*ssa.BasicBlock]int{}
	work := []item{{fn.Blocks[0], nil, s0}}
	for len(work) > 0 && r.fail == "" {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if r.steps++; r.steps > 200000 {
			r.stop("too many paths")
			return nil
		}
		s := it.s
		// phis
		var upd []rval
		var phis []*ssa.Phi
		for _, ins := range it.b.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			for i, q := range it.b.Preds {
				if q == it.from {
					upd = append(upd, r.get(s, ph.Edges[i]))
					break
				}
			}
			phis = append(phis, ph)
		}
		for i, ph := range phis {
			if upd[i].kind == 0 {
				delete(s.vals, ph)
			} else {
				s.vals[ph] = upd[i]
			}
		}
		if heads[it.b] {
			at := place{it.b, r.context(fn, s, loops[it.b], after[it.b])}
			if recs[at] == nil {
				if places[it.b]++; places[it.b] > 32 {
					at.ctx = ""
				}
			}
			h := recs[at]
			if h == nil {
				recs[at] = &rec{s: r.blur(s)}
				s = recs[at].s.clone()
			} else {
				j, grown := r.join(h.s, s, it.b, h.n > 3)
				if !grown {
					continue
				}
				h.n++
				if h.n > 60 {
					r.stop("a loop does not settle")
					return nil
				}
				h.s = j
				s = j.clone()
			}
		}
		states := []*rstate{s}
		dead := false
		for _, ins := range it.b.Instrs[len(phis):] {
			var nx []*rstate
			switch x := ins.(type) {
			case *ssa.If:
				for _, s := range states {
					c := r.get(s, x.Cond)
					if c.kind != 'b' || c.b {
						work = append(work, item{it.b.Succs[0], it.b, s.clone()})
					}
					if c.kind != 'b' || !c.b {
						work = append(work, item{it.b.Succs[1], it.b, s})
					}
				}
				dead = true
			case *ssa.Jump:
				for _, s := range states {
					work = append(work, item{it.b.Succs[0], it.b, s})
				}
				dead = true
			case *ssa.Return:
				for _, s := range states {
					o := rout{s: s, pos: x.Pos()}
					for _, v := range x.Results {
						o.res = append(o.res, r.get(s, v))
					}
					outs = append(outs, o)
				}
				dead = true
			case *ssa.Panic:
				dead = true
			default:
				for _, s := range states {
					nx = append(nx, r.step(fn, s, ins, depth)...)
				}
				states = nx
				if len(states) > 4000 {
					r.stop("too many paths")
					return nil
				}
			}
			if dead {
				break
			}
		}
	}
	return outs
}

// loopOf lists the blocks of a loop.
func loopOf(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{h: true}
	var add func(b *ssa.BasicBlock)
	add = func(b *ssa.BasicBlock) {
		if !in[b] {
			in[b] = true
			for _, q := range b.Preds {
				add(q)
			}
		}
	}
	for _, q := range h.Preds {
		if h.Dominates(q) {
			add(q)
		}
	}
	return in
}

// context describes what was decided before a loop: states that differ in it
// are kept apart.
func (r *rangeRun) context(fn *ssa.Function, s *rstate, loop, after map[*ssa.BasicBlock]bool) string {
	out := ""
	for _, k := range r.order(s) {
		ins, ok := k.(ssa.Instruction)
		if !ok || k.Parent() != fn || loop[ins.Block()] || !usedFrom(k, after) {
			continue
		}
		switch v := s.vals[k]; {
		case v.kind == 'b':
			if isConst(k) {
				continue
			}
			out += fmt.Sprintf("%s=%v ", k.Name(), v.b)
		case v.kind == 'i' && v.i.sym == 0:
			out += k.Name() + "=" + v.i.off.String() + " "
		}
	}
	return out
}

func isConst(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

// blur gives every value a symbol of its own.
func (r *rangeRun) blur(s *rstate) *rstate {
	n := s.clone()
	n.syms = map[int]rsym{}
	n.memo = map[string]rval{}
	keys := r.order(n)
	for _, k := range keys {
		v := n.vals[k]
		if v.kind == 'i' && v.i.sym != 0 {
			lo, hi := s.iv(v.i)
			w := r.fresh(n, lo, hi)
			w.i.bad = v.i.bad
			n.vals[k] = w
		}
	}
	for k, v := range n.cells {
		if v.kind == 'i' && v.i.sym != 0 {
			lo, hi := s.iv(v.i)
			w := r.fresh(n, lo, hi)
			w.i.bad = v.i.bad
			n.cells[k] = w
		}
	}
	return n
}

func (r *rangeRun) order(s *rstate) []ssa.Value {
	var keys []ssa.Value
	for k := range s.vals {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].Name() < keys[j].Name() })
	return keys
}

// join merges a state into that of the head of a loop.
func (r *rangeRun) join(h, s *rstate, b *ssa.BasicBlock, widen bool) (*rstate, bool) {
	n := &rstate{vals: map[ssa.Value]rval{}, syms: map[int]rsym{}, errs: map[int]byte{}, stored: h.stored && s.stored, parsed: h.parsed || s.parsed, cells: map[ssa.Value]rval{}, memo: map[string]rval{}}
	grown := n.stored != h.stored || n.parsed != h.parsed
	merge := func(v, w rval, t types.Type) (rval, bool) {
		if v.kind != w.kind {
			return rval{}, v.kind != 0
		}
		switch v.kind {
		case 'i':
			lo, hi := h.iv(v.i)
			a, c := s.iv(w.i)
			a, c = r.clamp(a), r.clamp(c)
			g := false
			if a.Cmp(lo) < 0 {
				lo, g = a, true
				if widen {
					lo = r.down(lo)
				}
			}
			if c.Cmp(hi) > 0 {
				hi, g = c, true
				if widen {
					hi = r.up(hi)
				}
			}
			bad := v.i.bad || w.i.bad
			g = g || bad != v.i.bad
			if lo.Cmp(hi) == 0 {
				x := rconst(lo)
				x.i.bad = bad
				return x, g
			}
			x := r.fresh(n, lo, hi)
			x.i.bad = bad
			return x, g
		case 'b':
			if v.b != w.b {
				return rval{}, true
			}
			return v, false
		case 'u':
			if v.id != w.id {
				r.next++
				return rval{kind: 'u', id: r.next}, false
			}
			if e := h.errs[v.id]; e != 0 && e == s.errs[v.id] {
				n.errs[v.id] = e
			} else if e != 0 {
				return v, true
			}
			return v, false
		}
		return v, false
	}
	for k, v := range h.vals {
		w, ok := s.vals[k]
		if !ok {
			grown = grown || v.kind != 0 && v.kind != 'u'
			continue
		}
		x, g := merge(v, w, k.Type())
		if x.kind != 0 {
			n.vals[k] = x
		}
		grown = grown || g
	}
	for k, v := range h.cells {
		w, ok := s.cells[k]
		if !ok {
			grown = true
			continue
		}
		x, g := merge(v, w, nil)
		if x.kind != 0 {
			n.cells[k] = x
		}
		grown = grown || g
	}
	return n, grown
}

// clamp makes values that are far out of every range the same.
func (r *rangeRun) clamp(x *big.Int) *big.Int {
	if t := r.thresh[0]; x.Cmp(t) < 0 {
		return t
	}
	if t := r.thresh[len(r.thresh)-1]; x.Cmp(t) > 0 {
		return t
	}
	return x
}

func (r *rangeRun) up(x *big.Int) *big.Int {
	for _, t := range r.thresh {
		if t.Cmp(x) >= 0 {
			return t
		}
	}
	return r.thresh[len(r.thresh)-1]
}

func (r *rangeRun) down(x *big.Int) *big.Int {
	for i := len(r.thresh) - 1; i >= 0; i-- {
		if r.thresh[i].Cmp(x) <= 0 {
			return r.thresh[i]
		}
	}
	return r.thresh[0]
}

func (r *rangeRun) step(fn *ssa.Function, s *rstate, ins ssa.Instruction, depth int) []*rstate {
	one := []*rstate{s}
	switch x := ins.(type) {
	case *ssa.BinOp:
		return r.binop(s, x)
	case *ssa.UnOp:
		switch x.Op {
		case token.SUB:
			if v := r.get(s, x.X); v.kind == 'i' {
				lo, hi := s.iv(v.i)
				w := r.fresh(s, new(big.Int).Neg(hi), new(big.Int).Neg(lo))
				w.i.bad = v.i.bad
				s.vals[x] = w
				return one
			}
		case token.NOT:
			if v := r.get(s, x.X); v.kind == 'b' {
				s.vals[x] = rval{kind: 'b', b: !v.b}
				return one
			}
		case token.MUL:
			if a, ok := x.X.(*ssa.Alloc); ok {
				if v, ok := s.cells[a]; ok {
					s.vals[x] = v
					return one
				}
			}
		}
		r.top(s, x)
	case *ssa.Convert:
		v := r.get(s, x.X)
		lo, hi, ok := r.bounds(x.Type())
		if v.kind != 'i' || !ok {
			r.top(s, x)
			return one
		}
		if r.fits(s, rint{v.i.sym, v.i.off, false}, x.X.Type()) {
			s.vals[x] = v // exact, though it may not fit in the new type
			return one
		}
		// a wrapped value is converted: what the machine has, and not what
		// was computed
		flo, fhi, _ := r.bounds(x.X.Type())
		if flo.Cmp(lo) >= 0 && fhi.Cmp(hi) <= 0 {
			w := r.fresh(s, flo, fhi)
			w.i.bad = true
			s.vals[x] = w
			return one
		}
		s.vals[x] = v
	case *ssa.ChangeType:
		if v := r.get(s, x.X); v.kind != 0 {
			s.vals[x] = v
		}
	case *ssa.MakeInterface:
		s.vals[x] = rval{kind: 'e'}
	case *ssa.ChangeInterface:
		if v := r.get(s, x.X); v.kind != 0 {
			s.vals[x] = v
		}
	case *ssa.Extract:
		if t, ok := s.vals[x.Tuple]; ok && x.Index < len(t.sums) {
			if v := t.sums[x.Index]; v.kind != 0 {
				s.vals[x] = v
				return one
			}
		}
		if _, ok := s.vals[x]; ok {
			delete(s.vals, x)
		}
		v := r.top(s, x)
		if nx, ok := x.Tuple.(*ssa.Next); ok && !nx.IsString && x.Index == 1 && v.kind == 'i' {
			return one
		}
	case *ssa.Store:
		if a, ok := x.Addr.(*ssa.Alloc); ok {
			if v := r.get(s, x.Val); v.kind != 0 {
				s.cells[a] = v
			} else {
				delete(s.cells, a)
			}
			return one
		}
		s.stored = true
		r.store(fn, s, x)
	case ssa.CallInstruction:
		return r.callIns(fn, s, x, depth)
	case ssa.Value:
		delete(s.vals, x)
		if _, ok := x.Type().(*types.Tuple); !ok {
			r.top(s, x)
		}
	}
	return one
}

// destAddr reports whether an address is an untyped pointer that was
// converted to one of an integer type.
func destAddr(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			b, ok := x.X.Type().Underlying().(*types.Basic)
			return ok && b.Kind() == types.UnsafePointer
		default:
			return false
		}
	}
}

func (r *rangeRun) store(fn *ssa.Function, s *rstate, x *ssa.Store) {
	if _, _, ok := r.bounds(x.Val.Type()); !ok || !destAddr(x.Addr) {
		return
	}
	v := r.get(s, x.Val)
	site := fmt.Sprintf("store of %s in %s at %s", tstr(x.Val.Type()), shortFn(fn.String()), r.p.pos(x.Pos()))
	r.sites[site] = true
	if v.kind != 'i' {
		return
	}
	if v.i.bad {
		r.bad[site] = "a value that was truncated before is stored"
	} else if !r.fits(s, v.i, x.Val.Type()) {
		lo, hi := s.iv(v.i)
		r.bad[site] = fmt.Sprintf("the exact value may be anything from %s to %s: it does not fit", short(lo), short(hi))
	}
}

func short(x *big.Int) string {
	t := x.String()
	if len(t) > 24 {
		return t[:6] + "..."
	}
	return t
}

func (r *rangeRun) callIns(fn *ssa.Function, s *rstate, x ssa.CallInstruction, depth int) []*rstate {
	one := []*rstate{s}
	val, _ := x.(ssa.Value)
	cc := x.Common()
	if val == nil {
		return one
	}
	delete(s.vals, val)
	sig := cc.Signature()
	results := func(s *rstate, res []rval, any bool) {
		if sig.Results().Len() == 1 {
			if any && res[0].kind != 0 {
				s.vals[val] = res[0]
			} else {
				r.top(s, val)
			}
			return
		}
		t := rval{kind: 't'}
		for i := 0; i < sig.Results().Len(); i++ {
			if any {
				t.sums = append(t.sums, res[i])
			} else {
				t.sums = append(t.sums, r.topOf(s, sig.Results().At(i).Type()))
			}
		}
		s.vals[val] = t
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if (b.Name() == "len" || b.Name() == "cap") && val != nil {
			s.vals[val] = r.fresh(s, bigZero, new(big.Int).Lsh(big.NewInt(1), 47))
		} else {
			r.top(s, val)
		}
		return one
	}
	g := cc.StaticCallee()
	parses := func() bool {
		rs := sig.Results()
		if rs.Len() < 2 || !isErrorType(rs.At(rs.Len()-1).Type()) {
			return false
		}
		for i := 0; i < rs.Len()-1; i++ {
			if b, ok := rs.At(i).Type().Underlying().(*types.Basic); ok && (b.Kind() == types.Int64 || b.Kind() == types.Uint64) {
				return true
			}
		}
		return false
	}
	if g != nil && (g.String() == "strconv.ParseInt" || g.String() == "strconv.ParseUint") && len(cc.Args) == 3 {
		results(s, nil, false)
		s.parsed = true
		if c, ok := cc.Args[2].(*ssa.Const); ok && c.Value != nil {
			n := uint(c.Int64())
			if n == 0 {
				n = 64
			}
			hi := new(big.Int).Lsh(big.NewInt(1), n)
			lo := bigZero
			if g.Name() == "ParseInt" {
				hi = new(big.Int).Lsh(big.NewInt(1), n-1)
				lo = new(big.Int).Neg(hi)
			}
			s.vals[val].sums[0] = r.fresh(s, lo, new(big.Int).Sub(hi, big.NewInt(1)))
		}
		return one
	}
	if g == nil || !r.p.mine(g) || g.Blocks == nil || depth >= 6 || !r.inlinable(g) {
		results(s, nil, false)
		if g != nil && r.p.mine(g) && parses() {
			s.parsed = true
		}
		return one
	}
	// run the function
	in := s.clone()
	for i, q := range g.Params {
		if i < len(cc.Args) {
			if v := r.get(s, cc.Args[i]); v.kind != 0 {
				in.vals[q] = v
			} else {
				delete(in.vals, q)
			}
			for k, v := range s.syms {
				in.syms[k] = v
			}
		}
	}
	var nx []*rstate
	for _, o := range r.call(g, in, depth+1) {
		n := o.s
		for k := range n.vals {
			if k.Parent() == g {
				delete(n.vals, k)
			}
		}
		if sig.Results().Len() > 0 {
			results(n, o.res, true)
		}
		if parses() && len(o.res) > 0 && o.res[len(o.res)-1].kind != 'e' {
			n.parsed = true
		}
		nx = append(nx, n)
	}
	return nx
}

// inlinable selects the functions that are run rather than assumed to return
// anything.
func (r *rangeRun) inlinable(g *ssa.Function) bool {
	if v, ok := r.inl[g]; ok {
		return v
	}
	ok := false
	n := 0
	for _, b := range g.Blocks {
		n += len(b.Instrs)
	}
	rs := g.Signature.Results()
	errs := rs.Len() > 0
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		if _, _, isInt := r.bounds(t); isInt || types.Identical(t.Underlying(), types.Typ[types.Bool]) {
			ok = true
		}
		if !isErrorType(t) {
			errs = false
		}
	}
	for i := 0; i < g.Signature.Params().Len(); i++ {
		t := g.Signature.Params().At(i).Type()
		if b, isB := t.Underlying().(*types.Basic); isB && b.Kind() == types.UnsafePointer {
			ok = true
		}
		if _, isF := t.Underlying().(*types.Signature); isF {
			ok = false
			break
		}
	}
	ok = (ok || errs) && n <= 400 && !recursiveFn(r.p, g)
	r.inl[g] = ok
	return ok
}

func (r *rangeRun) binop(s *rstate, x *ssa.BinOp) []*rstate {
	one := []*rstate{s}
	a, b := r.get(s, x.X), r.get(s, x.Y)
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return r.compare(s, x, a, b)
	}
	if _, _, ok := r.bounds(x.Type()); !ok || a.kind != 'i' || b.kind != 'i' {
		r.top(s, x)
		return one
	}
	alo, ahi := s.iv(a.i)
	blo, bhi := s.iv(b.i)
	bad := a.i.bad || b.i.bad
	key := ""
	if a.i.sym != 0 && b.i.sym != 0 && (x.Op == token.ADD || x.Op == token.SUB) {
		key = fmt.Sprintf("%s %d %s %d %s %v", x.Op, a.i.sym, a.i.off, b.i.sym, b.i.off, bad)
		if v, ok := s.memo[key]; ok {
			s.vals[x] = v
			return one
		}
	}
	put := func(s *rstate, v rval) {
		v.i.bad = bad
		s.vals[x] = v
		if key != "" {
			s.memo[key] = v
		}
	}
	rng := func(l ...*big.Int) rval {
		lo, hi := l[0], l[0]
		for _, v := range l[1:] {
			if v.Cmp(lo) < 0 {
				lo = v
			}
			if v.Cmp(hi) > 0 {
				hi = v
			}
		}
		if lo.Cmp(hi) == 0 {
			return rconst(lo)
		}
		return r.fresh(s, lo, hi)
	}
	switch x.Op {
	case token.ADD:
		switch {
		case b.i.sym == 0:
			put(s, rval{kind: 'i', i: rint{sym: a.i.sym, off: new(big.Int).Add(a.i.off, b.i.off)}})
		case a.i.sym == 0:
			put(s, rval{kind: 'i', i: rint{sym: b.i.sym, off: new(big.Int).Add(a.i.off, b.i.off)}})
		default:
			put(s, rng(new(big.Int).Add(alo, blo), new(big.Int).Add(ahi, bhi)))
		}
		if a.i.sym == 0 && b.i.sym != 0 || b.i.sym == 0 {
			// one of few digits plus an extreme value: tell the digits apart
			d, k := a.i, b.i
			if a.i.sym == 0 {
				d, k = b.i, a.i
			}
			if d.sym != 0 && k.off.BitLen() > 24 {
				return r.split(s, d, func(t *rstate, v *big.Int) {
					w := rconst(new(big.Int).Add(v, k.off))
					w.i.bad = bad
					t.vals[x] = w
				})
			}
		}
	case token.SUB:
		switch {
		case b.i.sym == 0:
			put(s, rval{kind: 'i', i: rint{sym: a.i.sym, off: new(big.Int).Sub(a.i.off, b.i.off)}})
		case a.i.sym == b.i.sym:
			put(s, rconst(new(big.Int).Sub(a.i.off, b.i.off)))
		case a.i.sym == 0:
			return r.split(s, b.i, func(t *rstate, v *big.Int) {
				w := rconst(new(big.Int).Sub(a.i.off, v))
				w.i.bad = bad
				t.vals[x] = w
			}, func() { put(s, rng(new(big.Int).Sub(alo, bhi), new(big.Int).Sub(ahi, blo))) })
		default:
			put(s, rng(new(big.Int).Sub(alo, bhi), new(big.Int).Sub(ahi, blo)))
		}
	case token.MUL:
		m := func(p, q *big.Int) *big.Int { return new(big.Int).Mul(p, q) }
		put(s, rng(m(alo, blo), m(alo, bhi), m(ahi, blo), m(ahi, bhi)))
	case token.SHL:
		if b.i.sym == 0 && b.i.off.IsUint64() && b.i.off.Uint64() < 64 {
			n := uint(b.i.off.Uint64())
			put(s, rng(new(big.Int).Lsh(alo, n), new(big.Int).Lsh(ahi, n)))
		} else {
			r.top(s, x)
		}
	case token.QUO:
		if b.i.sym == 0 && b.i.off.Sign() > 0 && r.fits(s, rint{a.i.sym, a.i.off, false}, x.X.Type()) {
			put(s, rng(new(big.Int).Quo(alo, b.i.off), new(big.Int).Quo(ahi, b.i.off)))
		} else {
			r.topKeep(s, x, bad)
		}
	case token.REM:
		if b.i.sym == 0 && b.i.off.Sign() > 0 && alo.Sign() >= 0 {
			put(s, rng(bigZero, new(big.Int).Sub(b.i.off, big.NewInt(1))))
		} else {
			r.topKeep(s, x, bad)
		}
	case token.AND:
		if b.i.sym == 0 && b.i.off.Sign() >= 0 {
			put(s, rng(bigZero, b.i.off))
		} else if a.i.sym == 0 && a.i.off.Sign() >= 0 {
			put(s, rng(bigZero, a.i.off))
		} else {
			r.topKeep(s, x, bad)
		}
	case token.SHR:
		if b.i.sym == 0 && b.i.off.IsUint64() && b.i.off.Uint64() < 64 && r.fits(s, rint{a.i.sym, a.i.off, false}, x.X.Type()) {
			n := uint(b.i.off.Uint64())
			put(s, rng(new(big.Int).Rsh(alo, n), new(big.Int).Rsh(ahi, n)))
		} else {
			r.topKeep(s, x, bad)
		}
	default:
		// bits of digits
		r.topKeep(s, x, bad)
	}
	return one
}

func (r *rangeRun) topKeep(s *rstate, x ssa.Value, bad bool) {
	v := r.top(s, x)
	v.i.bad = bad
	s.vals[x] = v
}

// split forks a state for each value of a symbol that has few.
func (r *rangeRun) split(s *rstate, d rint, set func(*rstate, *big.Int), alt ...func()) []*rstate {
	lo, hi := s.iv(d)
	n := new(big.Int).Sub(hi, lo)
	if !n.IsInt64() || n.Int64() > 40 {
		for _, f := range alt {
			f()
		}
		return []*rstate{s}
	}
	var out []*rstate
	for v := new(big.Int).Set(lo); v.Cmp(hi) <= 0; v = new(big.Int).Add(v, big.NewInt(1)) {
		t := s.clone()
		y := new(big.Int).Sub(v, d.off)
		t.syms[d.sym] = rsym{y, y}
		set(t, v)
		out = append(out, t)
	}
	return out
}

// compare forks a state at a comparison and refines both sides.
func (r *rangeRun) compare(s *rstate, x *ssa.BinOp, a, b rval) []*rstate {
	set := func(s *rstate, v bool) *rstate {
		s.vals[x] = rval{kind: 'b', b: v}
		return s
	}
	// errors and nil
	if x.Op == token.EQL || x.Op == token.NEQ {
		if b.kind == 'n' || a.kind == 'n' {
			o := a
			if a.kind == 'n' {
				o = b
			}
			eq := x.Op == token.EQL
			switch o.kind {
			case 'n':
				return []*rstate{set(s, eq)}
			case 'e':
				return []*rstate{set(s, !eq)}
			case 'u':
				switch s.errs[o.id] {
				case 'n':
					return []*rstate{set(s, eq)}
				case 'e':
					return []*rstate{set(s, !eq)}
				}
				t := s.clone()
				t.errs[o.id] = 'n'
				s.errs[o.id] = 'e'
				return []*rstate{set(t, eq), set(s, !eq)}
			}
		}
		if a.kind == 'b' && b.kind == 'b' {
			return []*rstate{set(s, (a.b == b.b) == (x.Op == token.EQL))}
		}
	}
	if a.kind != 'i' || b.kind != 'i' {
		t := s.clone()
		return []*rstate{set(s, true), set(t, false)}
	}
	var out []*rstate
	for _, v := range []bool{true, false} {
		op := x.Op
		if !v {
			op = map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}[op]
		}
		t := s.clone()
		if r.refine(t, op, x, a, b) {
			out = append(out, set(t, v))
		}
	}
	return out
}

// refine assumes a comparison; it reports whether it can hold.
func (r *rangeRun) refine(s *rstate, op token.Token, x *ssa.BinOp, a, b rval) bool {
	t := x.X.Type()
	plainA := r.fits(s, rint{a.i.sym, a.i.off, false}, t)
	plainB := r.fits(s, rint{b.i.sym, b.i.off, false}, t)
	alo, ahi := s.iv(a.i)
	blo, bhi := s.iv(b.i)
	tlo, thi, _ := r.bounds(t)
	if !plainA {
		alo, ahi = tlo, thi // what the machine compares
	}
	if !plainB {
		blo, bhi = tlo, thi
	}
	inc := func(v *big.Int, n int64) *big.Int { return new(big.Int).Add(v, big.NewInt(n)) }
	// the ranges that the machine's values are cut to
	na, nb, ma, mb := alo, blo, ahi, bhi
	min := func(p, q *big.Int) *big.Int {
		if p.Cmp(q) < 0 {
			return p
		}
		return q
	}
	max := func(p, q *big.Int) *big.Int {
		if p.Cmp(q) > 0 {
			return p
		}
		return q
	}
	switch op {
	case token.LSS:
		ma, nb = min(ma, inc(bhi, -1)), max(nb, inc(alo, 1))
	case token.LEQ:
		ma, nb = min(ma, bhi), max(nb, alo)
	case token.GTR:
		na, mb = max(na, inc(blo, 1)), min(mb, inc(ahi, -1))
	case token.GEQ:
		na, mb = max(na, blo), min(mb, ahi)
	case token.EQL:
		na, ma = max(na, blo), min(ma, bhi)
		nb, mb = na, ma
	case token.NEQ:
		if blo.Cmp(bhi) == 0 {
			if alo.Cmp(blo) == 0 {
				na = inc(alo, 1)
			}
			if ahi.Cmp(blo) == 0 {
				ma = inc(ahi, -1)
			}
		}
		if alo.Cmp(ahi) == 0 {
			if blo.Cmp(alo) == 0 {
				nb = inc(blo, 1)
			}
			if bhi.Cmp(alo) == 0 {
				mb = inc(bhi, -1)
			}
		}
	}
	if a.i.sym != 0 && a.i.sym == b.i.sym && plainA && plainB {
		c := a.i.off.Cmp(b.i.off)
		switch op {
		case token.LSS:
			return c < 0
		case token.LEQ:
			return c <= 0
		case token.GTR:
			return c > 0
		case token.GEQ:
			return c >= 0
		case token.EQL:
			return c == 0
		case token.NEQ:
			return c != 0
		}
	}
	return r.cut(s, a.i, na, ma, tlo, thi, plainA) && r.cut(s, b.i, nb, mb, tlo, thi, plainB)
}

// cut restricts a value to a range of machine values.
func (r *rangeRun) cut(s *rstate, x rint, lo, hi, tlo, thi *big.Int, plain bool) bool {
	if lo.Cmp(hi) > 0 {
		return false
	}
	if x.sym == 0 {
		return !plain || x.off.Cmp(lo) >= 0 && x.off.Cmp(hi) <= 0
	}
	y := s.syms[x.sym]
	set := func(lo, hi *big.Int) bool {
		l, h := new(big.Int).Sub(lo, x.off), new(big.Int).Sub(hi, x.off)
		if l.Cmp(y.lo) < 0 {
			l = y.lo
		}
		if h.Cmp(y.hi) > 0 {
			h = y.hi
		}
		if l.Cmp(h) > 0 {
			return false
		}
		s.syms[x.sym] = rsym{l, h}
		return true
	}
	if plain {
		return set(lo, hi)
	}
	// the exact value is one of the range, plus a multiple of 2^n
	mod := new(big.Int).Sub(thi, tlo)
	mod.Add(mod, big.NewInt(1))
	a, b := s.iv(x)
	k := new(big.Int).Sub(a, hi)
	k = bigFloor(new(big.Int).Add(k, new(big.Int).Sub(mod, big.NewInt(1))), mod) // first window that reaches a
	first, last := new(big.Int).Mul(k, mod), (*big.Int)(nil)
	f := new(big.Int).Add(first, lo)
	if f.Cmp(b) > 0 {
		return false
	}
	j := bigFloor(new(big.Int).Sub(b, lo), mod)
	last = new(big.Int).Add(new(big.Int).Mul(j, mod), hi)
	return set(f, last)
}

func bigFloor(a, b *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(a, b, new(big.Int))
	_ = m
	return q
}

// intStores reports whether a function, or one that it runs, stores integers
// through untyped pointers.
func (r *rangeRun) intStores(f *ssa.Function, depth int) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if _, _, ok := r.bounds(x.Val.Type()); ok && destAddr(x.Addr) {
					return true
				}
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != nil && depth < 3 && r.p.mine(g) && g.Blocks != nil && r.inlinable(g) && r.intStores(g, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

func runC23(c *Ctx) {
	p := c.p
	var units []*ssa.Function
	base := &rangeRun{p: p, sizes: p.sizes, inl: map[*ssa.Function]bool{}}
	for f := range allFuncs(p) {
		if len(f.Blocks) == 0 || !p.inMain(f) || !base.decodes(f) {
			continue
		}
		if base.intStores(f, 0) {
			units = append(units, f)
		}
	}
	sort.Slice(units, func(i, j int) bool { return units[i].String() < units[j].String() })
	c.need(len(units) >= 8, "units", fmt.Sprintf("only %d functions that decode integers were found", len(units)))
	for _, f := range units {
		c.addFn(f)
		r := &rangeRun{p: p, sizes: p.sizes, bad: map[string]string{}, sites: map[string]bool{}, ends: map[string]string{}, inl: base.inl}
		for _, n := range []uint{8, 16, 31, 32, 63, 64, 68, 80} {
			v := new(big.Int).Lsh(big.NewInt(1), n)
			w := new(big.Int).Sub(v, big.NewInt(1))
			r.thresh = append(r.thresh, v, w, new(big.Int).Neg(v), new(big.Int).Neg(w))
		}
		r.thresh = append(r.thresh, bigZero, big.NewInt(1), big.NewInt(-1), big.NewInt(9), new(big.Int).Lsh(big.NewInt(1), 200), new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 200)))
		sort.Slice(r.thresh, func(i, j int) bool { return r.thresh[i].Cmp(r.thresh[j]) < 0 })
		s := &rstate{vals: map[ssa.Value]rval{}, syms: map[int]rsym{}, errs: map[int]byte{}, cells: map[ssa.Value]rval{}, memo: map[string]rval{}}
		outs := r.call(f, s, 0)
		if r.fail != "" {
			c.ob("engine", shortFn(f.String()), false, "the analysis failed: "+r.fail)
			continue
		}
		for site := range r.sites {
			c.ob("range", site+", in "+shortFn(f.String()), r.bad[site] == "", r.bad[site])
		}
		lost := ""
		for _, o := range outs {
			if len(o.res) == 0 {
				continue
			}
			e := o.res[len(o.res)-1]
			ok := e.kind == 'n' || e.kind == 'u' && o.s.errs[e.id] == 'n'
			if ok && o.s.parsed && !o.s.stored {
				lost = "an integer was parsed, nothing is stored and no error is returned at " + p.pos(o.pos)
			}
		}
		c.ob("reported", shortFn(f.String()), lost == "", lost)
	}
}

// decodes reports whether a function decodes text into what an untyped pointer
// refers to.
func (r *rangeRun) decodes(f *ssa.Function) bool {
	if f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 || f.Synthetic != "" && len(f.TypeArgs()) == 0 {
		return false
	}
	sig := f.Signature
	text, ptr := false, false
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		if isByteSlice(t) {
			text = true
		}
		if b, ok := t.Underlying().(*types.Basic); ok {
			switch {
			case b.Kind() == types.UnsafePointer:
				ptr = true
			case b.Info()&types.IsInteger != 0:
				return false // part of another
			}
		}
	}
	n := sig.Results().Len()
	return text && ptr && n > 0 && isErrorType(sig.Results().At(n-1).Type())
}

// usedFrom reports whether a value is used in some blocks.
func usedFrom(v ssa.Value, in map[*ssa.BasicBlock]bool) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); !ok && in[r.Block()] {
			return true
		}
	}
	return false
}
