package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The decoder: every decode function is explored together with the automaton
// of JSON along its input. Nested decode functions are called through
// pointers; their contract is the property itself: success consumes exactly
// one value.

type decWorld struct {
	c     *Ctx
	cs    *codecSet
	dT    types.Type // the decoder struct
	depth int        // its nesting field, or -1
	flags int
	cuts  map[*ssa.Function]bool
	psums map[*ssa.Function]*summary
	sums  map[*ssa.Function]*decSum
	obl   map[string]*Obligation
	b     *bounds
	limit int64
	roots int
	nest  int
	skips map[*ssa.Function]*skipFn
	exact bool // follow texts that are returned as they are
}

// decSum is what is known of a function that consumes a text.
type decSum struct {
	fn      *ssa.Function
	state   int // 1 in progress, 2 proven, 3 not proven
	assumed bool
	success bool
	nests   bool // decodes nested values
	inexact bool // the other texts it returns are not the one it consumes
	whole   bool // decodes all of the text: no rest is returned
	obl     map[string]*Obligation
	fns     map[*ssa.Function]bool
	set     bset
	haveSet bool
}

func newDecWorld(c *Ctx) *decWorld {
	cs := findCodecs(c)
	if cs == nil || cs.decT == nil {
		c.need(false, "decode functions", "the type of decode functions was not found")
		return nil
	}
	w := &decWorld{c: c, cs: cs, dT: cs.decT.Params().At(0).Type(), depth: -1, flags: -1, psums: map[*ssa.Function]*summary{}, sums: map[*ssa.Function]*decSum{}, skips: map[*ssa.Function]*skipFn{}, obl: map[string]*Obligation{}, b: &bounds{map[string]string{}, map[string]bool{}}}
	st, ok := w.dT.Underlying().(*types.Struct)
	if !c.need(ok, "decoder", "decode functions do not take a decoder struct first") {
		return nil
	}
	flagsT := c.p.named("ParseFlags")
	for i := 0; i < st.NumFields(); i++ {
		t := st.Field(i).Type()
		if flagsT != nil && types.Identical(t, flagsT) {
			w.flags = i
		} else if isInt(t) {
			w.depth = i
		}
	}
	valid := c.p.fn("Valid")
	if !c.need(valid != nil, "func Valid", "the exported function Valid does not exist") {
		return nil
	}
	var roots []*ssa.Function
	for _, cf := range cs.dec {
		roots = append(roots, cf.fn.fn)
	}
	w.cuts = cutPoints(c.p, append([]*ssa.Function{valid}, w.parseRoots()...))
	return w
}

// parseRoots are the functions without a decoder that take a text and return
// its rest; the recursion of the value parser is cut in them.
func (w *decWorld) parseRoots() []*ssa.Function {
	return nil
}

// decShape reports whether a function is given a text to decode: the index of
// the text among the parameters and of the rest and the error among the
// results.
func (w *decWorld) decShape(fn *ssa.Function) (ti, ri, ei int, ok bool) {
	sig := fn.Signature
	res := sig.Results()
	ei = res.Len() - 1
	if ei < 1 || !isErrorT(res.At(ei).Type()) {
		return
	}
	ti = -1
	for i, p := range fn.Params {
		if isByteSlice(p.Type()) {
			ti = i
			break
		}
	}
	for _, p := range fn.Params {
		if isErrorT(p.Type()) {
			return
		}
	}
	if ti < 0 || ti > 1 || ti == 1 && !types.Identical(fn.Params[0].Type(), w.dT) {
		return
	}
	ri = -1
	for i := 0; i < ei; i++ {
		if isByteSlice(res.At(i).Type()) {
			ri = i
			if i > 0 {
				break
			}
		}
	}
	return ti, ri, ei, ri >= 0
}

func (w *decWorld) engine(root *ssa.Function) *Engine {
	e := newEngine(w.c.p)
	e.max = 60000
	e.contract = func(e *Engine, s *State, ci ssa.CallInstruction, fnv V, sig *types.Signature, args []V, rec *ssa.Function) ([]outcome, bool) {
		if types.Identical(sig, w.cs.decT) || rec != nil && w.isDecSig(rec) {
			return w.nested(e, s, ci, sig, args), true
		}
		return nil, false
	}
	pc := &parseCheck{e: e, cuts: w.cuts, root: root, sums: w.psums}
	for f := range w.cuts {
		e.override[f.String()] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, args []V) []outcome {
			if len(s.frames) == 0 {
				return nil
			}
			for i, a := range args {
				if _, ok := a.(Int); ok && i > 0 {
					args = args[:1] // the depth of a parser that starts anew
					break
				}
			}
			return pc.valueContract(e, s, c, fn.Signature, args)
		}
	}
	e.callHook = func(e *Engine, s *State, fn *ssa.Function, args []V) []outcome {
		if fn == root && len(s.frames) <= 1 {
			return nil
		}
		if w.cs.makesCodecs(fn) && len(s.frames) > 0 {
			return w.opaqueCodec(e, s, fn)
		}
		if k := w.skipper(fn); k != nil {
			if out := k.apply(e, s, args); out != nil {
				return out
			}
		}
		if len(s.frames) > 0 && fn.Blocks != nil && w.textOnly(s, fn, args) {
			return e.tokenCall(s, fn, args)
		}
		if w.opaque(fn) && len(s.frames) > 0 {
			return w.opaqueCall(e, s, fn, args)
		}
		if r := pc.summarize(fn); r != nil {
			return r.apply(pc, e, s, args)
		}
		if ds := w.summarize(fn); ds != nil {
			return w.apply(e, s, ds, args)
		}
		return nil
	}
	e.invokeHook = func(e *Engine, s *State, ins ssa.CallInstruction, recv V, name string, args []V) []outcome {
		sig := ins.Common().Signature()
		n := sig.Results().Len()
		if n != 1 || !isErrorT(sig.Results().At(0).Type()) {
			return nil
		}
		// methods of the user: they may fail
		s2 := s.fork()
		s2.wghost()["failed"] = ic(1)
		return []outcome{{s, &VNil{errT}}, {s2, mk("newerr", name, errT)}}
	}
	e.qMerge = func(e *Engine, s *State) {
		pc := parseCheck{}
		_ = pc
		e.qUpdate(s)
	}
	e.noOut = true
	e.K = 1
	// these accept no text with quotes, backslashes or control characters
	for name, i := range map[string]int{"time.Parse": 1, "time.ParseDuration": 0, "(*time.Time).UnmarshalText": 1} {
		e.override[name] = func(e *Engine, s *State, c ssa.CallInstruction, fn *ssa.Function, args []V) []outcome {
			res := fn.Signature.Results()
			mk1 := func(err V) V {
				var r []V
				for i := 0; i < res.Len()-1; i++ {
					r = append(r, e.wrap(freshSym(fn.Name(), res.At(i).Type())))
				}
				return pack(append(r, err))
			}
			s2 := s.fork()
			if sl, ok := asSlice(args[i]); ok && sl.base.op != "str" && !tokenSyms[sl.base] {
				e.addSpan(s, &Span{base: sl.base, lo: sl.lo, hi: sl.hi, set: bsetRange(0, 0x1f).or(bsetOf("\"\\")).not()})
			}
			return []outcome{{s, mk1(&VNil{errT})}, {s2, mk1(mk("newerr", fn.Name(), errT))}}
		}
	}
	e.pairs = true
	return e
}

func (w *decWorld) isDecSig(fn *ssa.Function) bool {
	ti, _, _, ok := w.decShape(fn)
	return ok && ti == 1
}

// textOnly reports whether a function makes texts or numbers of texts that are
// not followed.
func (w *decWorld) textOnly(s *State, fn *ssa.Function, args []V) bool {
	tok := false
	root, _ := s.ghost["root"].(*VTuple)
	if root == nil {
		return false
	}
	in, _ := asSlice(root.e[0])
	for i, p := range fn.Params {
		switch {
		case isByteSlice(p.Type()) || isString(p.Type()):
			if sl, ok := asSlice(args[i]); ok && in != nil && sl.base == in.base {
				return false
			}
			tok = tok || isToken(args[i])
		default:
			if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Kind() == types.UnsafePointer {
				return false
			}
		}
	}
	res := fn.Signature.Results()
	if !tok || res.Len() != 1 {
		return false
	}
	t := res.At(0).Type()
	return isByteSlice(t) || isString(t)
}

// opaque reports whether a function looks at a text without consuming any of
// it: it may fail or not.
func (w *decWorld) opaque(fn *ssa.Function) bool {
	if fn.Blocks == nil || !w.c.p.mine(fn) || fn.Parent() != nil || fn.Signature.Recv() != nil || len(fn.Params) == 0 {
		return false
	}
	if !isByteSlice(fn.Params[0].Type()) && !isString(fn.Params[0].Type()) {
		return false
	}
	res := fn.Signature.Results()
	if res.Len() == 0 || !isErrorT(res.At(res.Len()-1).Type()) {
		return false
	}
	for i := 0; i < res.Len()-1; i++ {
		if isByteSlice(res.At(i).Type()) || isString(res.At(i).Type()) {
			return false
		}
	}
	for _, p := range fn.Params {
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			return false
		}
	}
	return res.Len() > 1
}

func (w *decWorld) opaqueCall(e *Engine, s *State, fn *ssa.Function, args []V) []outcome {
	e.fns[fn] = true
	if e.onOpaque != nil {
		e.onOpaque(e, s, fn, args)
	}
	res := fn.Signature.Results()
	mk1 := func(err V) V {
		var r []V
		for i := 0; i < res.Len()-1; i++ {
			r = append(r, e.wrap(freshSym("res", res.At(i).Type())))
		}
		return pack(append(r, err))
	}
	s2 := s.fork()
	return []outcome{{s, mk1(&VNil{errT})}, {s2, mk1(mk("newerr", fn.Name(), errT))}}
}

func (w *decWorld) opaqueCodec(e *Engine, s *State, fn *ssa.Function) []outcome {
	res := fn.Signature.Results()
	var r []V
	for i := 0; i < res.Len(); i++ {
		r = append(r, e.wrap(freshSym(fn.Name(), res.At(i).Type())))
	}
	return []outcome{{s, pack(r)}}
}

// nested is the contract of a decode function: it consumes one value or fails.
func (w *decWorld) nested(e *Engine, s *State, ci ssa.CallInstruction, sig *types.Signature, args []V) []outcome {
	w.nest++
	var sl *VSlice
	for _, a := range args {
		if x, ok := asSlice(a); ok && !x.str {
			sl = x
			break
		}
	}
	res := sig.Results()
	ei := res.Len() - 1
	mkres := func(r, err V) V {
		out := make([]V, res.Len())
		for i := range out {
			switch {
			case i == ei:
				out[i] = err
			case i == ei-1 && r != nil:
				out[i] = r
			case isByteSlice(res.At(i).Type()):
				out[i] = e.aliasToken(s, res.At(i).Type())
			default:
				out[i] = e.wrap(freshSym("res", res.At(i).Type()))
			}
		}
		return pack(out)
	}
	w.checkDepth(e, s, ci, sl, args)
	var out []outcome
	s1 := s.fork()
	if sl == nil {
		out = append(out, outcome{s1, mkres(nil, &VNil{errT})})
	} else {
		out = append(out, w.consume(e, s1, sl, bsetOf("{[\"-0123456789tfn \t\r\n"), func() bset { return bsetOf("\"") }, func(m Int) V {
			return mkres(&VSlice{sl.base, m, sl.hi, false, sl.et}, &VNil{errT})
		})...)
	}
	s.wghost()["failed"] = ic(1)
	out = append(out, outcome{s, mkres(nil, mk("newerr", "nested", errT))})
	return out
}

// checkDepth decides whether the nesting that is passed on counts every
// container that was opened.
func (w *decWorld) checkDepth(e *Engine, s *State, ci ssa.CallInstruction, sl *VSlice, args []V) {
	if w.depth < 0 || len(args) == 0 || ci == nil {
		return
	}
	root, _ := s.ghost["root"].(*VTuple)
	if root == nil || len(root.e) < 2 {
		return
	}
	base, ok := root.e[1].(Int)
	if !ok {
		return
	}
	var d *VStruct
	ok = false
	for _, a := range args {
		if x, is := a.(*VStruct); is && types.Identical(x.t, w.dT) {
			d, ok = x, true
			break
		}
	}
	what := fmt.Sprintf("nesting depth passed on by %s", ci.Parent().Name())
	at := e.P.pos(ci.Pos())
	if !ok {
		return
	}
	x, ok := toInt(d.f[w.depth])
	if !ok {
		return
	}
	n := int64(0)
	if sl != nil {
		if q, ok := e.qAt(s, sl.base, sl.lo); ok {
			lo := int64(-1)
			for _, st := range q {
				if st == dead || st == "?" {
					continue
				}
				if k := int64(jDepth(st)); lo < 0 || k < lo {
					lo = k
				}
			}
			if lo > 0 {
				n = lo
			}
		}
	}
	good := s.decLE(base.addc(n).sub(x)) == 1
	e.obl("depth", what, good, fmt.Sprintf("%s: the nesting depth passed on is %s, where it was %s, inside %d containers (%s)", at, vstr(x), vstr(base), n, e.stack(s)))
	if n > 0 {
		e.obl("depth", "limit of nesting in "+ci.Parent().Name(), s.zone.upper(x) < 1<<20, fmt.Sprintf("%s: the nesting depth is not limited before a nested value is decoded (%s)", at, e.stack(s)))
	}
}

// checkRestart finds functions that count the nesting anew within a value.
func (w *decWorld) checkRestart(e *Engine, s *State, ci ssa.CallInstruction, ds *decSum) {
	root, _ := s.ghost["root"].(*VTuple)
	if w.depth < 0 || root == nil || len(root.e) < 2 || !ds.nests {
		return
	}
	if x, ok := root.e[1].(Int); !ok || x.isConst() {
		return // nothing is nested yet
	}
	for _, p := range ds.fn.Params {
		if types.Identical(p.Type(), w.dT) || isInt(p.Type()) {
			return
		}
	}
	e.obl("depth", "nesting is counted on in "+ci.Parent().Name(), false, fmt.Sprintf("%s: %s decodes nested values, but it is not given the nesting depth: it counts anew (%s)", e.P.pos(ci.Pos()), ds.fn.Name(), e.stack(s)))
}

// summarize proves that a function consumes a value.
func (w *decWorld) summarize(fn *ssa.Function) *decSum {
	if fn.Blocks == nil || !w.c.p.mine(fn) || w.cuts[fn] || fn.Parent() != nil || fn.Synthetic != "" {
		return nil
	}
	ti, _, _, ok := w.decShape(fn)
	if !ok || ti == 0 && fn.Signature.Recv() != nil {
		return nil
	}
	ds := w.sums[fn]
	if ds == nil {
		ds = &decSum{fn: fn, state: 1, obl: map[string]*Obligation{}}
		w.sums[fn] = ds
		start := "W"
		good := w.prove(ds, nil, nil, start, nil)
		if !good {
			if os.Getenv("DBGSUM") != "" {
				for k, o := range ds.obl {
					if !o.ok {
						fmt.Println("SUM", fn.Name(), k, o.msg)
					}
				}
			}
			ds.state = 3
			if ds.assumed {
				// its own proof, or one below, relies on it
				for k, o := range ds.obl {
					w.obl[k] = o
				}
			}
		} else {
			ds.state = 2
			for k, o := range ds.obl {
				w.obl[k] = o
			}
		}
	}
	switch ds.state {
	case 1:
		ds.assumed = true
		return ds
	case 2:
		return ds
	}
	return nil
}

// apply models a call of a function that consumes a value.
func (w *decWorld) apply(e *Engine, s *State, ds *decSum, args []V) []outcome {
	ti, ri, ei, _ := w.decShape(ds.fn)
	sl, ok := asSlice(args[ti])
	if !ok {
		return nil
	}
	e.fns[ds.fn] = true
	res := ds.fn.Signature.Results()
	mkres := func(r, err V) V {
		out := make([]V, res.Len())
		for i := range out {
			switch {
			case i == ei:
				out[i] = err
			case i == ri && r != nil:
				out[i] = r
			case r != nil && w.exact && ds.state == 2 && !ds.inexact && isByteSlice(res.At(i).Type()):
				out[i] = &VSlice{sl.base, sl.lo, r.(*VSlice).lo, false, sl.et}
			case isByteSlice(res.At(i).Type()):
				out[i] = e.aliasToken(s, res.At(i).Type())
			default:
				out[i] = e.wrap(freshSym("res", res.At(i).Type()))
			}
		}
		return pack(out)
	}
	var out []outcome
	if len(s.frames) > 0 {
		f := s.top()
		if f.pc < len(f.blk.Instrs) {
			if ci, ok := f.blk.Instrs[f.pc].(ssa.CallInstruction); ok {
				w.checkDepth(e, s, ci, sl, args)
				w.checkRestart(e, s, ci, ds)
			}
		}
	}
	for i, a := range args {
		if i != ti {
			e.havoc(s, a)
		}
	}
	only := bsetOf("{[\"-0123456789tfn \t\r\n")
	if ds.success || ds.state == 1 {
		if ti == 0 && ds.state == 2 {
			only = w.setOf(ds)
		}
		out = append(out, w.consume(e, s, sl, only, func() bset { return w.setOf(ds) }, func(m Int) V {
			return mkres(&VSlice{sl.base, m, sl.hi, false, sl.et}, &VNil{errT})
		})...)
	}
	if ti == 1 {
		s.wghost()["failed"] = ic(1)
	}
	out = append(out, outcome{s, mkres(nil, mk("newerr", ds.fn.Name(), errT))})
	return out
}

// keyState reports whether a member name may follow, but no value.
func keyState(st string) bool {
	return st != dead && st != "?" && jValue(st) == dead && jStep(st, '"') != dead && jDepth(st) > 0
}

// consume continues after one value that starts at the start of a text. Where
// a key is expected, set tells what the function accepts.
func (w *decWorld) consume(e *Engine, s *State, sl *VSlice, only bset, set func() bset, res func(m Int) V) []outcome {
	q, okq := e.qAt(s, sl.base, sl.lo)
	key := false
	if okq {
		for _, st := range q {
			key = key || keyState(st)
		}
	}
	groups := []bset{bsetOf("{[\"-0123456789tfn \t\r\n").and(only)}
	if key {
		str := bsetOf("\"")
		groups = []bset{str}
		if x := set(); !x.sub(str) {
			rest := x.and(str.not())
			if nul := bsetOf("n"); nul.sub(rest) {
				rest = rest.and(nul.not())
				if !w.notNull(e, s, sl) {
					rest = rest.or(nul)
				}
			}
			if !rest.empty() {
				groups = append(groups, rest)
			}
		}
	}
	var out []outcome
	for _, g := range groups {
		s1 := s.fork()
		m := it(freshSym("m", intT))
		min := int64(1)
		if g.sub(bsetOf("\"")) {
			min = 2
		}
		if !s1.assumeLE(sl.lo.addc(min).sub(m)) || !s1.assumeLE(m.sub(sl.hi)) || !s1.narrow(sl.base, sl.lo, g) {
			continue
		}
		if okq {
			mm := map[string]bool{}
			for _, st := range q {
				if keyState(st) && g.sub(bsetOf("\"")) {
					mm[jStep(jStep(st, '"'), '"')] = true
				} else {
					mm[jValue(st)] = true
				}
			}
			addAnchor(s1, sl.base, m, newQ(mm))
		}
		out = append(out, outcome{s1, res(m)})
	}
	return out
}

// notNull reports whether a text is known not to begin with null.
func (w *decWorld) notNull(e *Engine, s *State, sl *VSlice) bool {
	if s.decLE(sl.lo.addc(4).sub(sl.hi)) == 0 {
		return true
	}
	four := &VSlice{sl.base, sl.lo, sl.lo.addc(4), false, sl.et}
	for i, c := range "null" {
		if !bsetOf(string(c)).sub(s.byteSet(sl.base, sl.lo.addc(int64(i)))) {
			return true
		}
	}
	for t, v := range s.facts {
		if v || t.op != "seqeq" {
			continue
		}
		for i := 0; i < 2; i++ {
			x, ok1 := asSlice(t.args[i])
			y, ok2 := asSlice(t.args[1-i])
			if ok1 && ok2 && x.base == four.base && x.lo.eq(four.lo) && x.hi.eq(four.hi) && y.base.op == "str" && y.lo.isConst() && y.hi.isConst() && y.base.aux[y.lo.c:y.hi.c] == "null" {
				return true
			}
		}
	}
	return false
}

// setOf has the first bytes of the values that a function accepts.
func (w *decWorld) setOf(ds *decSum) bset {
	if ds.state != 2 {
		return bsetOf(`{["-0123456789tfn`)
	}
	if !ds.haveSet {
		ds.haveSet = true
		for _, g := range scalarStarts {
			x := &decSum{fn: ds.fn, obl: map[string]*Obligation{}}
			w.prove(x, nil, &g, "W", nil)
			if x.success {
				ds.set = ds.set.or(g)
			}
		}
	}
	if os.Getenv("DBGSET") != "" {
		println("set", ds.fn.Name(), ds.set.String())
	}
	return ds.set
}

// prove explores a function; it reports whether all obligations hold.
func (w *decWorld) prove(ds *decSum, cf *codecFn, first *bset, start string, onEngine func(e *Engine)) bool {
	fn := ds.fn
	ti, ri, ei, ok := w.decShape(fn)
	if ds.whole {
		ti, ri, ei, ok = 0, -1, fn.Signature.Results().Len()-1, true
	}
	if !ok {
		return false
	}
	w.roots++
	nests := w.nest
	defer func() { ds.nests = w.nest > nests }()
	e := w.engine(fn)
	e.oblig = ds.obl
	bb := &bounds{map[string]string{}, map[string]bool{}}
	bb.hook(e)
	s := newState()
	var bind []V
	if cf != nil {
		if cf.facts != nil {
			s = cf.facts.fork()
			s.frames = nil
			s.ghost = map[string]V{}
		}
		bind = cf.fn.bind
	}
	var a []V
	var base V = ic(0)
	for _, q := range fn.Params {
		var v V
		if types.Identical(q.Type(), w.dT) {
			st := w.dT.Underlying().(*types.Struct)
			sv := &VStruct{t: w.dT}
			for i := 0; i < st.NumFields(); i++ {
				sv.f = append(sv.f, e.wrap(freshSym(st.Field(i).Name(), st.Field(i).Type())))
			}
			if w.depth >= 0 {
				base = sv.f[w.depth]
				if x, ok := toInt(base); ok {
					s.assumeLE(x.neg())
				}
			}
			v = sv
		} else {
			v = e.wrap(freshSym(q.Name(), q.Type()))
		}
		a = append(a, v)
	}
	in, _ := asSlice(a[ti])
	s.wghost()["root"] = &VTuple{[]V{in, base}}
	addAnchor(s, in.base, in.lo, qset{start})
	if first != nil {
		s.assumeLE(in.lo.addc(1).sub(in.hi))
		s.narrow(in.base, in.lo, *first)
	}
	e.watchInput("the input", isInput(in.base))
	if onEngine != nil {
		onEngine(e)
	}
	e.start(s, fn, a, bind)
	e.run()
	ds.fns = e.fns
	w.c.addEngine(e)
	if e.fail != "" {
		e.obl("engine", "analysis of "+fn.Name(), false, e.fail)
	}
	for _, x := range e.exits {
		where := fn.Name() + " returns at " + e.P.pos(x.pos)
		if x.panic {
			if strings.HasPrefix(x.why, "call on nil interface") {
				// depends on the type, not on the input
				continue
			}
			e.obl("panic", fn.Name()+": "+x.why, false, x.why)
			continue
		}
		kind := e.nilness(x.s, x.res[ei])
		failed := x.s.ghost["failed"] != nil
		if kind == 1 {
			e.obl("error", where, true, "")
			continue
		}
		e.obl("lost error", where, !failed, "a nested value or an unmarshaler failed, and no error is returned"+dbgState(x.s))
		if failed {
			continue
		}
		ds.success = true
		if first != nil && os.Getenv("DBGSET") != "" {
			println("succ", where, first.String(), kind, dbgState(x.s))
		}
		var rs *VSlice
		var rest V = &VNil{types.NewSlice(types.Typ[types.Byte])}
		if ri >= 0 {
			rest = x.res[ri]
		}
		rs, ok := asSlice(rest)
		if _, isNil := rest.(*VNil); isNil {
			rs, ok = &VSlice{in.base, in.hi, in.hi, false, in.et}, true
		}
		if !ok || rs.base != in.base || x.s.decEQ(rs.hi.sub(in.hi)) != 1 {
			e.obl("rest", where, false, "success with a rest that is not the end of the input: "+vstr(rest))
			continue
		}
		for i := range x.res {
			if i != ri && isByteSlice(fn.Signature.Results().At(i).Type()) {
				o, ok := asSlice(x.res[i])
				if !ok || o.base != in.base || x.s.decEQ(o.lo.sub(in.lo)) != 1 || x.s.decEQ(o.hi.sub(rs.lo)) != 1 {
					ds.inexact = true
				}
			}
		}
		q, okq := e.qAt(x.s, in.base, rs.lo)
		good := okq && q.all(jAccept)
		if good && x.s.decEQ(rs.lo.sub(rs.hi)) != 1 {
			// a number must not go on
			next := x.s.byteSet(in.base, rs.lo)
			for b := 0; b < 256; b++ {
				if !next.has(b) {
					continue
				}
				for _, st := range q {
					if jNumber(st) && jNumber(jStep(st, b)) {
						good = false
					}
				}
			}
		}
		if q.dead() {
			good = false
		}
		e.obl("accept", where, good, fmt.Sprintf("success after a text in state %.200s%s", q, dbgState(x.s)))
	}
	for k := range bb.ok {
		e.obl("bounds", k, true, "")
	}
	for k, m := range bb.fail {
		e.obl("bounds", k, false, m)
	}
	good := true
	for _, o := range ds.obl {
		if !o.ok {
			good = false
		}
	}
	return good
}

// all explores every decode function.
func (w *decWorld) all() {
	var list []*codecFn
	for _, cf := range w.cs.dec {
		list = append(list, cf)
	}
	for _, cf := range list {
		fn := cf.fn.fn
		if os.Getenv("DECFN") != "" && !strings.Contains(cf.name, os.Getenv("DECFN")) {
			continue
		}
		if ds := w.summarize(codecTarget(fn)); ds != nil {
			continue
		}
		ds := &decSum{fn: fn, obl: map[string]*Obligation{}}
		w.prove(ds, cf, nil, "W", nil)
		for k, o := range ds.obl {
			w.obl[k] = o
		}
	}
	for _, n := range []string{"Parse", "Unmarshal"} {
		p := w.c.p.fn(n)
		if !w.c.need(p != nil && len(p.Params) > 1 && isByteSlice(p.Params[0].Type()), "func "+n, "the exported function does not exist") || os.Getenv("DECFN") != "" && os.Getenv("DECFN") != n {
			continue
		}
		_, _, _, ok := w.decShape(p)
		ds := &decSum{fn: p, obl: map[string]*Obligation{}, whole: !ok}
		w.prove(ds, nil, nil, "W", nil)
		for k, o := range ds.obl {
			w.obl[k] = o
		}
	}
}

// decAnalysis explores every decode function once.
func decAnalysis(c *Ctx) *decWorld {
	if deadline.IsZero() {
		deadline = time.Now().Add(400 * time.Second)
		maxHeap = 12 << 30
	}
	w := newDecWorld(c)
	if w == nil {
		return nil
	}
	if !c.need(len(w.cs.dec) >= 20, "decode functions", fmt.Sprintf("only %d decode functions were found", len(w.cs.dec))) {
		return w
	}
	w.all()
	c.cov["decode_functions"] = len(w.cs.dec)
	c.cov["explorations"] = w.roots
	c.cov["nested_decode_calls"] = w.nest
	for f, ds := range w.sums {
		if ds.state == 2 {
			c.addFn(f)
		}
	}
	return w
}

func decCheck(rules ...string) func(c *Ctx) {
	return func(c *Ctx) {
		w := decAnalysis(c)
		if w == nil {
			return
		}
		keep := map[string]bool{"engine": true}
		for _, r := range rules {
			keep[r] = true
		}
		c.take(w.obl, func(o *Obligation) bool { return keep[o.rule] })
		n := 0
		for _, o := range c.obl {
			if keep[o.rule] {
				n++
			}
		}
		c.need(n >= 10, "obligations", fmt.Sprintf("only %d obligations were found", n))
	}
}

const decAll = "every exit of every decode function that codecs are built from, of the functions they call that consume text, and of Parse and Unmarshal: "

func init() {
	userMethods := "UnmarshalJSON and UnmarshalText methods of the user may fail or succeed, and do not change the input"
	register(&Check{id: "C21", level: "other", rule: decAll + "a nil error is returned only if an automaton of JSON, run along the input, has just read one complete value at the start of the returned rest",
		run: decCheck("accept", "rest"), assum: []string{userMethods}})
	register(&Check{id: "C26", level: "other", rule: decAll + "after a nested value, key or user method has failed on the path, the returned error is not nil",
		run: decCheck("lost error"), assum: []string{userMethods}})
	register(&Check{id: "C29", level: "other", rule: "every call of a decode function passes on a nesting depth that counts the containers the input has opened there, and containers are refused beyond a constant; the validator passes on the exact depth at each recursive call and refuses beyond the limit",
		run: func(c *Ctx) {
			decCheck("depth")(c)
			obl, _, _ := parseAnalysis(c)
			c.take(obl, func(o *Obligation) bool { return o.rule == "depth" })
		}})
	register(&Check{id: "C22", level: "other", rule: "every index and slice expression on the input in the validator, the parsers, the decode functions and the tokenizer, on every path: the indices lie within the bounds; and no path panics on purpose",
		run: func(c *Ctx) {
			decCheck("bounds", "panic")(c)
			if w := newDecWorld(c); w != nil {
				w.tokenizer()
				c.take(w.obl, func(o *Obligation) bool { return o.rule == "bounds" || o.rule == "panic" || o.rule == "engine" })
			}
			_, b, _ := parseAnalysis(c)
			for k := range b.ok {
				c.ob("bounds", k, true, "")
			}
			for k, m := range b.fail {
				c.ob("bounds", k, false, m)
			}
		}, assum: []string{userMethods, "indices into texts that are not part of the input (unescaped copies of strings) are not followed"}})
}

func decDev(c *Ctx) {
	w := newDecWorld(c)
	if w == nil {
		for k, o := range c.obl {
			fmt.Println(k, o.ok, o.msg)
		}
		return
	}
	fmt.Println("dec codecs", len(w.cs.dec), "depth", w.depth, "flags", w.flags)
	if os.Getenv("DECLIST") != "" {
		for _, cf := range w.cs.dec {
			fmt.Println(cf.name)
		}
		return
	}
	w.all()
	var ks []string
	n := map[string]int{}
	for k, o := range w.obl {
		n[o.rule]++
		if !o.ok {
			ks = append(ks, k+" :: "+o.msg)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println(k)
	}
	for f, d := range w.sums {
		fmt.Println("SUM", f.Name(), d.state, "assumed", d.assumed, "success", d.success)
	}
	fmt.Println(n, "roots", w.roots, "nested", w.nest)
}
