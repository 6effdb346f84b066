package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- the reference automaton along the input (ghost "Q")

func qAnchors(s *State) []*VTuple {
	t, ok := s.ghost["Q"].(*VTuple)
	if !ok {
		return nil
	}
	r := make([]*VTuple, len(t.e))
	for i, x := range t.e {
		r[i] = x.(*VTuple)
	}
	return r
}

func setAnchors(s *State, a []*VTuple) {
	t := &VTuple{}
	for _, x := range a {
		t.e = append(t.e, x)
	}
	s.wghost()["Q"] = t
}

func anchor(base *Term, pos Int, q qset) *VTuple {
	return &VTuple{[]V{base, pos, &VConst{constant.MakeString(q.String()), stringT}}}
}

func aBase(a *VTuple) *Term { t, _ := a.e[0].(*Term); return t }
func aPos(a *VTuple) Int {
	if p, ok := toInt(a.e[1]); ok {
		return p
	}
	return it(freshSym("lost", intT))
}
func aSet(a *VTuple) qset {
	return strings.Split(constant.StringVal(a.e[2].(*VConst).v), ",")
}

func addAnchor(s *State, base *Term, pos Int, q qset) {
	as := qAnchors(s)
	for i, a := range as {
		if aBase(a) == base && aPos(a).eq(pos) {
			if q.String() == aSet(a).String() || aSet(a).dead() {
				return
			}
			if q.weight() < aSet(a).weight() {
				as[i] = anchor(base, pos, q)
				setAnchors(s, as)
			}
			return
		}
	}
	setAnchors(s, append(as, anchor(base, pos, q)))
}

// advance takes one step of the automaton from at: a known byte or a run that
// ends at or before limit.
func (e *Engine) advance(s *State, base *Term, at Int, q qset, limit *Int) (Int, qset, bool) {
	var pick *Span
	for _, x := range s.spans() {
		if x.base != base || x.hi.eq(at) {
			continue
		}
		if !(x.lo.eq(at) || s.decEQ(x.lo.sub(at)) == 1 || s.decLE(x.lo.sub(at)) == 1 && s.decLE(at.addc(1).sub(x.hi)) == 1) {
			continue
		}
		if s.decLE(at.sub(x.hi)) != 1 || s.decEQ(at.sub(x.hi)) == 1 {
			continue
		}
		if limit != nil && s.decLE(x.hi.sub(*limit)) != 1 {
			continue
		}
		if pick == nil || s.decLE(pick.hi.sub(x.hi)) == 1 && !s.shortRun(pick, x) || s.shortRun(x, pick) {
			pick = x
		}
	}
	f := s.byteSet(base, at)
	if f != allBytes {
		if pick == nil || s.decEQ(pick.hi.sub(at.addc(1))) != 1 || f.sub(pick.set) {
			return at.addc(1), q.step(f), true
		}
	}
	if pick != nil {
		return pick.hi, q.closure(pick.set), true
	}
	if limit != nil {
		for _, x := range s.spans() {
			if x.base == base && s.decLE(x.lo.sub(at)) == 1 && s.decLE(limit.sub(x.hi)) == 1 {
				return *limit, q.closure(x.set), true
			}
		}
	}
	return at, nil, false
}

// shortRun reports whether x is y without a last byte that is known better.
func (s *State) shortRun(x, y *Span) bool {
	return x.hi.addc(1).eq(y.hi) && s.byteSet(x.base, x.hi) != allBytes
}

// qAt bounds the states of the automaton at a position.
func (e *Engine) qAt(s *State, base *Term, at Int) (qset, bool) {
	as := qAnchors(s)
	var best qset
	for i := len(as) - 1; i >= 0; i-- {
		a := as[i]
		if aBase(a) != base {
			continue
		}
		if aSet(a).dead() {
			if e.noOut {
				continue
			}
			return qset{dead}, true
		}
		if s.decLE(aPos(a).sub(at)) != 1 {
			continue
		}
		m := map[string]bool{}
		if e.qWalk(s, base, aPos(a), at, aSet(a), m, 0, 0) {
			q := newQ(m)
			if best == nil || best.weight() > q.weight() {
				best = q
			}
		}
	}
	return best, best != nil
}

func (e *Engine) qWalk(s *State, base *Term, p, at Int, q qset, out map[string]bool, n, free int) bool {
	add := func() bool {
		for _, x := range q {
			out[x] = true
		}
		return true
	}
	for ; n < 64; n++ {
		if q.dead() {
			return add()
		}
		switch s.decEQ(p.sub(at)) {
		case 1:
			return add()
		case -1:
			if p.eq(at) {
				return add()
			}
		}
		np, nq, ok := e.advance(s, base, p, q, &at)
		if ok && nq.dead() && (!e.noOut || s.decEQ(p.sub(at)) == 0) {
			// the byte is known, so it is there
			q = nq
			return add()
		}
		if s.decEQ(p.sub(at)) == -1 {
			// the position may be reached already
			s1 := s.fork()
			if s1.assumeEQ(p.sub(at)) {
				add()
			}
			s = s.fork()
			if !s.assumeLE(p.addc(1).sub(at)) {
				return true
			}
			np, nq, ok = e.advance(s, base, p, q, &at)
		}
		if !ok {
			if free > 3 {
				q = q.closure(allBytes)
				return add()
			}
			free++
			np, nq = p.addc(1), q.step(allBytes)
		}
		if s.decLE(np.sub(at)) != 1 {
			return false
		}
		p, q = np, nq
	}
	return false
}

// qUpdate moves the anchors along the input.
func (e *Engine) qUpdate(s *State) {
	as := qAnchors(s)
	if len(as) == 0 {
		return
	}
	lv := e.livePos(s)
	type item struct {
		b *Term
		p Int
		q qset
	}
	var work []item
	done := map[string]bool{}
	var out []*VTuple
	deadBase := map[*Term]bool{}
	for _, a := range as {
		work = append(work, item{aBase(a), aPos(a), aSet(a)})
	}
	var keep []item
	for i := 0; i < len(work) && i < 400; i++ {
		w := work[i]
		k := vkey(w.b) + "|" + vkey(w.p) + "|" + w.q.String()
		if done[k] {
			continue
		}
		done[k] = true
		if w.q[0] == "?" {
			continue
		}
		if w.q.dead() {
			if !e.noOut {
				deadBase[w.b] = true
			}
			continue
		}
		if lv.has(w.b, w.p) {
			keep = append(keep, w)
		} else if x, ok := lv.same(s, w.p); ok {
			keep = append(keep, item{w.b, x, w.q})
		}
		if np, nq, ok := e.advance(s, w.b, w.p, w.q, nil); ok {
			work = append(work, item{w.b, np, nq})
		} else if lv.m[vkey(w.p.addc(1))] {
			if nq := w.q.step(allBytes); nq[0] != "?" {
				work = append(work, item{w.b, w.p.addc(1), nq})
			}
		}
	}
	if len(s.frames) > 1 && s.top().tag == "ret" {
		// the caller may add the returned number to a position of its own
		for _, w := range work {
			if w.q[0] == "?" || w.q.dead() || lv.has(w.b, w.p) {
				continue
			}
			if _, ok := lv.same(s, w.p); ok {
				continue
			}
			if x, ok := lv.near(s, w.p); ok {
				keep = append(keep, item{w.b, x, w.q})
			}
		}
	}
	for i, w := range keep {
		if deadBase[w.b] {
			continue
		}
		// the best at each position
		skip := false
		for j, v := range keep {
			if j != i && v.b == w.b && v.p.eq(w.p) && (v.q.weight() < w.q.weight() || v.q.weight() == w.q.weight() && j < i) {
				skip = true
			}
		}
		if !skip {
			out = append(out, anchor(w.b, w.p, w.q))
		}
	}
	for b := range deadBase {
		out = append(out, anchor(b, ic(0), qset{dead}))
	}
	sortAnchors(out)
	setAnchors(s, out)
}

func sortAnchors(a []*VTuple) {
	key := func(x *VTuple) string { return vkey(x.e[2]) + vkey(x.e[0]) + vkey(x.e[1]) }
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && key(a[j]) < key(a[j-1]); j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// ---- parse functions

// parseShape reports whether a function takes a text and returns what is left
// of it: the indexes of the value (-1 if none), the rest and the error.
func parseShape(sig *types.Signature) (vi, ri, ei int, ok bool) {
	p, r := sig.Params(), sig.Results()
	if p.Len() == 0 || !isByteSlice(p.At(0).Type()) || r.Len() < 2 {
		return
	}
	n := r.Len()
	if !isErrorT(r.At(n-1).Type()) || !isByteSlice(r.At(0).Type()) {
		return
	}
	if n >= 3 && isByteSlice(r.At(1).Type()) {
		return 0, 1, n - 1, true
	}
	if n == 2 {
		return -1, 0, 1, true
	}
	return
}

func isErrorT(t types.Type) bool { return tstr(t) == "error" }

// cutPoints are the functions that the recursion of the parser goes through.
func cutPoints(p *Prog, roots []*ssa.Function) map[*ssa.Function]bool {
	cut := map[*ssa.Function]bool{}
	state := map[*ssa.Function]int{}
	var dfs func(f *ssa.Function)
	dfs = func(f *ssa.Function) {
		state[f] = 1
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || g.Blocks == nil || !p.mine(g) {
					continue
				}
				if _, _, _, ok := parseShape(g.Signature); ok && state[g] == 1 {
					cut[g] = true
				}
				if state[g] == 0 {
					dfs(g)
				}
			}
		}
		state[f] = 2
	}
	for _, r := range roots {
		if state[r] == 0 {
			dfs(r)
		}
	}
	return cut
}

// summary describes a function that parses one value whose first byte is in
// set, without nested values.
type summary struct {
	fn  *ssa.Function
	set bset
	obl map[string]*Obligation
	fns map[*ssa.Function]bool
}

// scalarStarts are the first bytes of values; the bytes that no value starts
// with are the last group.
var scalarStarts = []bset{bsetOf("\""), bsetOf("-").or(bsetRange('0', '9')), bsetOf("t"), bsetOf("f"), bsetOf("n"), bsetOf("["), bsetOf("{"), bsetOf("\"-0123456789tfn[{").not()}

// summarize derives and proves the summary of fn; nil if there is none.
func (pc *parseCheck) summarize(fn *ssa.Function) *summary {
	if r, ok := pc.sums[fn]; ok {
		return r
	}
	pc.sums[fn] = nil
	if _, _, _, ok := parseShape(fn.Signature); !ok || len(fn.Params) != 1 || pc.cuts[fn] || fn.Blocks == nil || !pc.e.P.mine(fn) {
		return nil
	}
	obl := map[string]*Obligation{}
	r := &summary{fn: fn, obl: obl, fns: map[*ssa.Function]bool{}}
	for _, g := range append(append([]bset(nil), scalarStarts...), bset{}) {
		o := map[string]*Obligation{}
		e, c := checkParse(pc.e.P, fn, pc.cuts, "V", o, nil, pc.sums, &g)
		for f := range e.fns {
			r.fns[f] = true
		}
		if e.fail != "" || c.calls > 0 {
			return nil
		}
		if !c.success {
			// always refused
			for _, x := range o {
				if !x.ok && x.rule != "accept" && x.rule != "reject" && x.rule != "incomplete" && x.rule != "rest" {
					return nil
				}
			}
			continue
		}
		if g.empty() {
			return nil
		}
		r.set = r.set.or(g)
		for k, x := range o {
			if !x.ok {
				if os.Getenv("DBGSUM") != "" {
					fmt.Println("SUM", fn.Name(), g.String(), k, x.msg)
				}
				return nil
			}
			obl[k] = x
		}
	}
	if r.set.empty() {
		return nil
	}
	pc.sums[fn] = r
	return r
}

// after is the state after a value that starts with a byte of set.
func (r *summary) after(st string) string {
	if v := jValue(st); v != dead {
		return v
	}
	if r.set.sub(bsetOf("\"")) {
		if x := jStep(st, '"'); x != dead {
			return jStep(x, '"')
		}
	}
	return dead
}

// apply models a call of the summarized function.
func (r *summary) apply(pc *parseCheck, e *Engine, s *State, args []V) []outcome {
	sig := r.fn.Signature
	vi, ri, ei, _ := parseShape(sig)
	sl, ok := asSlice(args[0])
	if !ok {
		return nil
	}
	e.fns[r.fn] = true
	for f := range r.fns {
		e.fns[f] = true
	}
	for k, o := range r.obl {
		e.oblig[k] = o
	}
	q, okq := e.qAt(s, sl.base, sl.lo)
	res0 := sig.Results()
	mkres := func(v, r, err V) V {
		res := make([]V, sig.Results().Len())
		for i := range res {
			switch i {
			case vi:
				if e.noOut && !e.exact {
					v = e.aliasToken(s, res0.At(i).Type())
				}
				res[i] = v
			case ri:
				res[i] = r
			case ei:
				res[i] = err
			default:
				res[i] = e.wrap(freshSym("res", sig.Results().At(i).Type()))
			}
		}
		return pack(res)
	}
	fail := func() V { return mk("newerr", "syntax", errT) }
	anyOf := func(s *State, at Int, f func(st string) []string) {
		if !okq {
			return
		}
		m := map[string]bool{}
		for _, st := range q {
			for _, x := range f(st) {
				m[x] = true
			}
		}
		addAnchor(s, sl.base, at, newQ(m))
	}
	var out []outcome
	// a value
	s1 := s.fork()
	m := it(freshSym("m", intT))
	minLen := int64(1)
	if r.set.sub(bsetOf("\"")) {
		minLen = 2
	}
	if s1.assumeLE(sl.lo.addc(minLen).sub(m)) && s1.assumeLE(m.sub(sl.hi)) && s1.narrow(sl.base, sl.lo, r.set) {
		anyOf(s1, m, func(st string) []string { return []string{r.after(st)} })
		out = append(out, outcome{s1, mkres(&VSlice{sl.base, sl.lo, m, false, sl.et}, &VSlice{sl.base, m, sl.hi, false, sl.et}, &VNil{errT})})
	}
	// the start of a value
	s2 := s.fork()
	if s2.assumeLE(sl.lo.addc(1).sub(sl.hi)) && s2.narrow(sl.base, sl.lo, r.set) {
		anyOf(s2, sl.hi, func(st string) []string {
			if r.after(st) == dead {
				return []string{dead}
			}
			return []string{dead, "Vs"}
		})
		out = append(out, outcome{s2, mkres(&VNil{byteSliceT}, &VSlice{sl.base, sl.hi, sl.hi, false, sl.et}, fail())})
	}
	// invalid
	s3 := s.fork()
	m3 := it(freshSym("m", intT))
	if s3.assumeLE(sl.lo.sub(m3)) && s3.assumeLE(m3.addc(1).sub(sl.hi)) && s3.narrow(sl.base, sl.lo, r.set) {
		if okq {
			addAnchor(s3, sl.base, m3, qset{dead})
		}
		out = append(out, outcome{s3, mkres(&VNil{byteSliceT}, &VSlice{sl.base, m3, sl.hi, false, sl.et}, fail())})
	}
	// some other byte
	s4 := s.fork()
	m4 := it(freshSym("m", intT))
	if s4.assumeLE(sl.lo.sub(m4)) && s4.assumeLE(m4.sub(sl.hi)) && s4.assumeLE(sl.lo.addc(1).sub(sl.hi)) && s4.narrow(sl.base, sl.lo, r.set.not()) {
		out = append(out, outcome{s4, mkres(&VNil{byteSliceT}, &VSlice{sl.base, m4, sl.hi, false, sl.et}, fail())})
	}
	// nothing
	if s.assumeEQ(sl.lo.sub(sl.hi)) {
		out = append(out, outcome{s, mkres(&VNil{byteSliceT}, &VSlice{sl.base, sl.hi, sl.hi, false, sl.et}, fail())})
	}
	return out
}

type parseCheck struct {
	sums    map[*ssa.Function]*summary
	success bool // some exit is a success
	e       *Engine
	cuts    map[*ssa.Function]bool
	root    *ssa.Function
	depth   *Term // nesting parameter of the root
	calls   int
}

func intParam(fn *ssa.Function) int {
	for i, p := range fn.Params {
		if isInt(p.Type()) {
			return i
		}
	}
	return -1
}

// valueContract models a call that consumes one JSON value from the start of
// its argument.
func (pc *parseCheck) valueContract(e *Engine, s *State, ins ssa.CallInstruction, sig *types.Signature, args []V) []outcome {
	vi, ri, ei, _ := parseShape(sig)
	ai := 0
	for i, a := range args {
		if sl, ok := asSlice(a); ok && !sl.str {
			_ = sl
			ai = i
			break
		}
	}
	sl, ok := asSlice(args[ai])
	if !ok {
		return nil
	}
	pc.calls++
	// nesting
	for i, a := range args {
		if x, ok := a.(Int); ok && i != ai {
			q, okq := e.qAt(s, sl.base, sl.lo)
			if okq {
				var base Int
				if pc.depth != nil {
					base = it(pc.depth)
				}
				d := x.sub(base)
				for _, st := range q {
					if st == dead || st == "?" {
						continue
					}
					n := int64(jDepth(st))
					ok := s.decEQ(d.addc(-n)) == 1 || s.decEQ(d.addc(n)) == 1
					e.obl("depth", fmt.Sprintf("nesting depth passed by %s", ins.Parent().Name()), ok, fmt.Sprintf("%s: the nesting depth passed on is %s, inside %d containers", e.P.pos(ins.Pos()), vstr(x), n))
				}
			}
		}
	}
	q, okq := e.qAt(s, sl.base, sl.lo)
	mkres := func(s *State, v, r, err V) V {
		res := make([]V, sig.Results().Len())
		for i := range res {
			switch i {
			case vi:
				if e.noOut {
					v = e.aliasToken(s, sig.Results().At(i).Type())
				}
				res[i] = v
			case ri:
				res[i] = r
			case ei:
				res[i] = err
			default:
				res[i] = e.wrap(freshSym("res", sig.Results().At(i).Type()))
			}
		}
		return pack(res)
	}
	fail := func() V { return mk("newerr", "syntax", errT) }
	var out []outcome
	// success
	s1 := s.fork()
	m := freshSym("m", intT)
	if s1.assumeLE(sl.lo.addc(1).sub(it(m))) && s1.assumeLE(it(m).sub(sl.hi)) && s1.narrow(sl.base, sl.lo, bsetOf(`{["-0123456789tfn`)) {
		if okq {
			mm := map[string]bool{}
			for _, st := range q {
				mm[jValue(st)] = true
			}
			addAnchor(s1, sl.base, it(m), newQ(mm))
		}
		out = append(out, outcome{s1, mkres(s1, &VSlice{sl.base, sl.lo, it(m), false, sl.et}, &VSlice{sl.base, it(m), sl.hi, false, sl.et}, &VNil{errT})})
	}
	// incomplete
	s2 := s.fork()
	if s2.assumeLE(sl.lo.sub(sl.hi)) {
		if okq {
			mm := map[string]bool{}
			for _, st := range q {
				mm[dead] = true
				if jValue(st) != dead {
					mm["Vs"] = true
				}
			}
			addAnchor(s2, sl.base, sl.hi, newQ(mm))
		}
		out = append(out, outcome{s2, mkres(s2, &VNil{byteSliceT}, &VSlice{sl.base, sl.hi, sl.hi, false, sl.et}, fail())})
	}
	// invalid
	m3 := freshSym("m", intT)
	if s.assumeLE(sl.lo.sub(it(m3))) && s.assumeLE(it(m3).addc(1).sub(sl.hi)) {
		space := !s.byteSet(sl.base, sl.lo).and(bsetOf(" \t\r\n")).empty()
		if okq && !space {
			addAnchor(s, sl.base, it(m3), qset{dead})
		}
		out = append(out, outcome{s, mkres(s, &VNil{byteSliceT}, &VSlice{sl.base, it(m3), sl.hi, false, sl.et}, fail())})
	}
	return out
}

// limited reports whether a failure may be due to the nesting limit.
func (pc *parseCheck) limited(s *State) bool {
	return pc.depth != nil && s.zone.lower(it(pc.depth)) >= 9999
}

// exitKind tells how a parse function ended: 0 success, 1 failure.
func (e *Engine) exitKind(s *State, err V) int { return e.nilness(s, err) }

// checkParse explores a function that parses one value (start "V") or a whole
// text (start "W").
func checkParse(p *Prog, root *ssa.Function, cuts map[*ssa.Function]bool, start string, obl map[string]*Obligation, onEngine func(*Engine), sums map[*ssa.Function]*summary, first *bset) (*Engine, *parseCheck) {
	if sums == nil {
		sums = map[*ssa.Function]*summary{}
	}
	e := newEngine(p)
	e.oblig = obl
	pc := &parseCheck{e: e, cuts: cuts, root: root, sums: sums}
	s := newState()
	var a []V
	for i, q := range root.Params {
		t := freshSym(q.Name(), q.Type())
		v := e.wrap(t)
		a = append(a, v)
		if i == intParam(root) {
			pc.depth = t
		}
	}
	in, _ := asSlice(a[0])
	root0 := []V{in}
	if pc.depth != nil {
		root0 = append(root0, it(pc.depth))
	}
	s.wghost()["root"] = &VTuple{root0}
	addAnchor(s, in.base, in.lo, qset{start})
	e.watchInput("the input", isInput(in.base))
	if first != nil {
		if first.empty() {
			s.assumeEQ(in.lo.sub(in.hi))
		} else {
			s.assumeLE(in.lo.addc(1).sub(in.hi))
			s.narrow(in.base, in.lo, *first)
		}
	}
	e.contract = func(e *Engine, s *State, c ssa.CallInstruction, fnv V, sig *types.Signature, args []V, rec *ssa.Function) ([]outcome, bool) {
		if rec == nil {
			return nil, false
		}
		if _, _, _, ok := parseShape(sig); !ok {
			return nil, false
		}
		out := pc.valueContract(e, s, c, sig, args)
		return out, out != nil
	}
	for f := range cuts {
		f := f
		e.override[f.String()] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, args []V) []outcome {
			if len(s.frames) == 0 {
				return nil
			}
			return pc.valueContract(e, s, c, fn.Signature, args)
		}
	}
	e.callHook = func(e *Engine, s *State, fn *ssa.Function, args []V) []outcome {
		if fn == root {
			return nil
		}
		r := pc.summarize(fn)
		if r == nil {
			return nil
		}
		return r.apply(pc, e, s, args)
	}
	e.qMerge = func(e *Engine, s *State) { e.qUpdate(s) }
	if onEngine != nil {
		onEngine(e)
	}
	e.start(s, root, a, nil)
	e.run()
	if e.fail != "" {
		e.obl("engine", root.Name(), false, e.fail)
		return e, pc
	}
	vi, ri, ei, isParse := parseShape(root.Signature)
	for _, x := range e.exits {
		if x.panic {
			e.obl("panic", root.Name()+": "+x.why, false, x.why)
			continue
		}
		where := root.Name() + " returns at " + e.P.pos(x.pos)
		if !isParse {
			for _, val := range []bool{true, false} {
				var ss []*State
				if b, ok := x.res[0].(VBool); !ok {
					ss = e.assume(x.s.fork(), x.res[0], val)
				} else if bool(b) == val {
					ss = []*State{x.s}
				}
				for _, s := range ss {
					q, okq := e.qAt(s, in.base, in.hi)
					if !okq {
						e.obl("grammar", where, false, "the text that was consumed is not known")
						continue
					}
					if val {
						pc.success = true
						e.obl("accept", where, q.all(jAccept), "accepts a text in state "+q.String())
					} else if pc.limited(s) {
						e.obl("nesting", where, true, "")
					} else {
						e.obl("reject", where, q.all(func(s string) bool { return !jAccept(s) && s != "?" }), "rejects a text in state "+q.String()+dbgState(s))
					}
				}
			}
			continue
		}
		v, r := V(nil), x.res[ri]
		if vi >= 0 {
			v = x.res[vi]
		}
		rs, ok := asSlice(r)
		switch e.nilness(x.s, x.res[ei]) {
		case 0:
			pc.success = true
			if !ok || rs.base != in.base || x.s.decEQ(rs.hi.sub(in.hi)) != 1 {
				e.obl("rest", where, false, "the rest is not a suffix of the input: "+vstr(r))
				continue
			}
			q, okq := e.qAt(x.s, in.base, rs.lo)
			good := okq && q.all(jAccept)
			if good && x.s.decEQ(rs.lo.sub(rs.hi)) != 1 {
				nx := q.step(x.s.byteSet(in.base, rs.lo))
				good = nx.all(func(s string) bool { return !jNumber(s) && s != dead })
			}
			e.obl("accept", where, good, fmt.Sprintf("success after a text in state %s%s", q, dbgState(x.s)))
			if vi >= 0 {
				vs, ok := asSlice(v)
				ok = ok && (vs.base != in.base || x.s.decEQ(vs.lo.sub(in.lo)) == 1 && x.s.decEQ(vs.hi.sub(rs.lo)) == 1)
				e.obl("value", where, ok, "the value is not the text that was consumed: "+vstr(v))
			}
		case 1:
			if pc.limited(x.s) {
				e.obl("nesting", where, true, "")
				continue
			}
			q, okq := e.qAt(x.s, in.base, in.hi)
			good := okq && q.all(func(s string) bool { return !jAccept(s) && s != "?" })
			e.obl("reject", where, good, fmt.Sprintf("failure on a text in state %.300s%s", q, dbgState(x.s)))
			if !good {
				continue
			}
			if ok && x.s.decLE(rs.hi.sub(rs.lo)) == 1 {
				rs = &VSlice{in.base, in.hi, in.hi, false, in.et}
			}
			if !ok || rs.base != in.base || x.s.decEQ(rs.hi.sub(in.hi)) != 1 {
				e.obl("rest", where, false, "the rest is not a suffix of the input: "+vstr(r))
				continue
			}
			if q.dead() {
				// any rest will do: no continuation of the text is valid
				e.obl("invalid", where, true, "")
			} else {
				e.obl("incomplete", where, x.s.decLE(rs.hi.sub(rs.lo)) == 1, "incomplete text reported as invalid: rest "+vstr(r))
			}
		default:
			e.obl("exit", where, false, "the error is not decided: "+vstr(x.res[ei]))
		}
	}
	return e, pc
}

func dumpState(s *State) string {
	var b strings.Builder
	for _, f := range s.bytes {
		fmt.Fprintf(&b, " byte %s[%s]∈%s;", f.base, vstr(f.pos), f.set)
	}
	for _, x := range s.spans() {
		fmt.Fprintf(&b, " span %s[%s:%s]⊆%s;", x.base, vstr(x.lo), vstr(x.hi), x.set)
	}
	for _, a := range qAnchors(s) {
		fmt.Fprintf(&b, " Q %s@%s=%s;", aBase(a), vstr(aPos(a)), aSet(a))
	}
	z := s.zone
	for i, v := range z.vars {
		fmt.Fprintf(&b, " %d<=%s<=%d", -z.at(0, i+1), v, z.at(i+1, 0))
		for j, w := range z.vars {
			if c := z.at(i+1, j+1); i != j && c < inf {
				fmt.Fprintf(&b, ",-%s<=%d", w, c)
			}
		}
	}
	return b.String()
}

func dbgState(s *State) string {
	if os.Getenv("ZN") == "" {
		return ""
	}
	return dumpState(s)
}
