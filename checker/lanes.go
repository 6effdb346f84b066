package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Word predicates: functions of a byte sequence that test several bytes at
// once by loading machine words. For each length up to maxWordLen the function
// is interpreted with concrete lengths and offsets and symbolic bytes; the
// conditions on words of each path that returns true are evaluated lane by
// lane with an automaton over the carries of additions and subtractions.

const maxWordLen = 40

type lexpr struct {
	op   string // load const add sub and or xor not shl shr conv
	bits int
	c    uint64
	k    int // first byte of a load, shift of shl and shr in lanes
	a, b *lexpr
}

type lcond struct {
	e  *lexpr
	c  uint64
	eq bool
}

type lval struct {
	kind string // int word ptr slot bool cond seq tuple
	c    int64
	bits int
	uns  bool
	e    *lexpr
	b    bool
	cond *lcond
	tup  []lval
}

type lpath struct {
	regs  map[ssa.Value]lval
	conds []lcond
	slots map[ssa.Value]lval
}

type lwalk struct {
	n     int
	steps int
	err   string
	oob   []string
	prog  *Prog
}

type lret struct {
	vals  []lval
	conds []lcond
}

func (w *lwalk) fail(f string, a ...any) {
	if w.err == "" {
		w.err = fmt.Sprintf(f, a...)
	}
}

func hasWordLoads(p *Prog, fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] || fn.Blocks == nil {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Convert:
				if pt, ok := x.Type().Underlying().(*types.Pointer); ok {
					if bt, ok := pt.Elem().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
						if tstr(x.X.Type()) == "unsafe.Pointer" {
							return true
						}
					}
				}
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != nil && p.mine(g) && hasWordLoads(p, g, seen) {
					return true
				}
			}
		}
	}
	return false
}

type wordPred struct {
	set  bset
	err  string
	oob  []string
	lens int
}

var wordPreds = map[*ssa.Function]*wordPred{}

// wordPredicate analyses fn, if it is a word predicate.
func wordPredicate(p *Prog, fn *ssa.Function) *wordPred {
	if r, ok := wordPreds[fn]; ok {
		return r
	}
	wordPreds[fn] = nil
	sig := fn.Signature
	if sig.Params().Len() != 1 || sig.Results().Len() != 1 || sig.Recv() != nil {
		return nil
	}
	pt := sig.Params().At(0).Type()
	if !isByteSlice(pt) && !isString(pt) {
		return nil
	}
	if bt, ok := sig.Results().At(0).Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.Bool {
		return nil
	}
	if !hasWordLoads(p, fn, map[*ssa.Function]bool{}) {
		return nil
	}
	r := &wordPred{}
	for n := 0; n <= maxWordLen && r.err == ""; n++ {
		w := &lwalk{n: n, prog: p}
		rets := w.run(fn, []lval{{kind: "seq"}}, nil, 0)
		r.oob = append(r.oob, w.oob...)
		if w.err != "" {
			r.err = fmt.Sprintf("length %d: %s", n, w.err)
			break
		}
		r.lens++
		for _, x := range rets {
			cs := x.conds
			switch v := x.vals[0]; v.kind {
			case "bool":
				if !v.b {
					continue
				}
			case "cond":
				cs = append(append([]lcond(nil), cs...), *v.cond)
			default:
				r.err = "undecided result"
			}
			sets, err := laneSets(cs, n)
			if err != "" {
				r.err = err
				break
			}
			for _, s := range sets {
				r.set = r.set.or(s)
			}
		}
	}
	wordPreds[fn] = r
	return r
}

func (w *lwalk) get(p *lpath, v ssa.Value) lval {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return lval{kind: "nil"}
		}
		switch x.Value.Kind() {
		case constant.Bool:
			return lval{kind: "bool", b: constant.BoolVal(x.Value)}
		case constant.Int:
			bits, uns := intSize(x.Type())
			var c int64
			if u, ok := constant.Uint64Val(x.Value); ok {
				c = int64(u)
			} else if i, ok := constant.Int64Val(x.Value); ok {
				c = i
			}
			return lval{kind: "int", c: c, bits: bits, uns: uns}
		}
	}
	if r, ok := p.regs[v]; ok {
		return r
	}
	w.fail("value %s", v)
	return lval{}
}

func mask(bits int) uint64 {
	if bits >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(bits) - 1
}

func norm(v lval) lval {
	u := uint64(v.c) & mask(v.bits)
	if !v.uns && v.bits < 64 && u>>(uint(v.bits)-1) == 1 {
		u |= ^mask(v.bits)
	}
	v.c = int64(u)
	return v
}

func toExpr(v lval, bits int) *lexpr {
	switch v.kind {
	case "word":
		return v.e
	case "int":
		return &lexpr{op: "const", bits: bits, c: uint64(v.c) & mask(bits)}
	}
	return nil
}

func (w *lwalk) run(fn *ssa.Function, args []lval, conds []lcond, depth int) []lret {
	if depth > 8 {
		w.fail("recursion")
		return nil
	}
	p := &lpath{regs: map[ssa.Value]lval{}, slots: map[ssa.Value]lval{}, conds: append([]lcond(nil), conds...)}
	for i, q := range fn.Params {
		p.regs[q] = args[i]
	}
	return w.block(fn, p, fn.Blocks[0], nil, 0, depth)
}

func (p *lpath) clone() *lpath {
	return &lpath{cp(p.regs), append([]lcond(nil), p.conds...), cp(p.slots)}
}

func (w *lwalk) block(fn *ssa.Function, p *lpath, b, from *ssa.BasicBlock, pc, depth int) []lret {
	for {
		if w.steps++; w.steps > 200000 {
			w.fail("too many steps")
		}
		if w.err != "" {
			return nil
		}
		if pc == 0 {
			upd := map[ssa.Value]lval{}
			for _, ins := range b.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				for i, pr := range b.Preds {
					if pr == from {
						upd[ph] = w.get(p, ph.Edges[i])
					}
				}
				pc++
			}
			for k, v := range upd {
				p.regs[k] = v
			}
		}
		next := (*ssa.BasicBlock)(nil)
		for ; pc < len(b.Instrs); pc++ {
			if w.err != "" {
				return nil
			}
			switch x := b.Instrs[pc].(type) {
			case *ssa.DebugRef:
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				r := lret{conds: p.conds}
				for _, v := range x.Results {
					r.vals = append(r.vals, w.get(p, v))
				}
				return []lret{r}
			case *ssa.If:
				c := w.get(p, x.Cond)
				if c.kind == "bool" {
					next = b.Succs[1]
					if c.b {
						next = b.Succs[0]
					}
					break
				}
				if c.kind != "cond" {
					w.fail("condition %s", x.Cond)
					return nil
				}
				q := p.clone()
				q.conds = append(q.conds, *c.cond)
				out := w.block(fn, q, b.Succs[0], b, 0, depth)
				n := *c.cond
				n.eq = !n.eq
				p.conds = append(p.conds, n)
				return append(out, w.block(fn, p, b.Succs[1], b, 0, depth)...)
			case *ssa.Alloc:
				p.slots[x] = lval{kind: "zero"}
				p.regs[x] = lval{kind: "slot", tup: nil, e: nil}
			case *ssa.Store:
				a, ok := x.Addr.(*ssa.Alloc)
				if !ok {
					w.fail("store %s", x)
					return nil
				}
				p.slots[a] = w.get(p, x.Val)
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "len":
						if w.get(p, x.Call.Args[0]).kind == "seq" {
							p.regs[x] = lval{kind: "int", c: int64(w.n) - w.get(p, x.Call.Args[0]).c, bits: 64}
							continue
						}
					case "SliceData", "StringData", "ssa:wrapnilchk":
						if v := w.get(p, x.Call.Args[0]); v.kind == "seq" {
							p.regs[x] = lval{kind: "ptr", c: v.c}
							continue
						}
					}
					w.fail("builtin %s", bi.Name())
					return nil
				}
				g := x.Call.StaticCallee()
				if g == nil || g.Blocks == nil || !w.prog.mine(g) {
					w.fail("call %s", x)
					return nil
				}
				var args []lval
				for _, a := range x.Call.Args {
					args = append(args, w.get(p, a))
				}
				rets := w.run(g, args, p.conds, depth+1)
				var out []lret
				for _, r := range rets {
					q := p.clone()
					q.conds = r.conds
					if len(r.vals) == 1 {
						q.regs[x] = r.vals[0]
					} else {
						q.regs[x] = lval{kind: "tuple", tup: r.vals}
					}
					out = append(out, w.block(fn, q, b, from, pc+1, depth)...)
				}
				return out
			case ssa.Value:
				p.regs[x] = w.value(p, x)
			default:
				w.fail("instruction %s", x)
				return nil
			}
		}
		if next == nil {
			w.fail("no successor")
			return nil
		}
		from, b, pc = b, next, 0
	}
}

func (w *lwalk) loadAt(off int64, size int, uns bool) lval {
	if off < 0 || off+int64(size) > int64(w.n) {
		w.oob = append(w.oob, fmt.Sprintf("load of %d bytes at %d of %d", size, off, w.n))
		w.fail("load of %d bytes at %d of %d", size, off, w.n)
		return lval{}
	}
	return lval{kind: "word", bits: size * 8, uns: uns, e: &lexpr{op: "load", bits: size * 8, k: int(off)}}
}

func (w *lwalk) value(p *lpath, v ssa.Value) lval {
	switch x := v.(type) {
	case *ssa.Extract:
		return w.get(p, x.Tuple).tup[x.Index]
	case *ssa.ChangeType:
		return w.get(p, x.X)
	case *ssa.Convert:
		a := w.get(p, x.X)
		switch a.kind {
		case "slot":
			return lval{kind: "slotp", tup: []lval{p.slots[x.X]}}
		case "slotp", "ptr":
			return a
		case "int":
			bits, uns := intSize(x.Type())
			if bits == 0 {
				w.fail("conversion %s", x)
			}
			a.bits, a.uns = bits, uns
			return norm(a)
		case "word":
			bits, uns := intSize(x.Type())
			if bits == 0 || bits > a.bits && !a.uns {
				w.fail("conversion %s", x)
				return lval{}
			}
			return lval{kind: "word", bits: bits, uns: uns, e: &lexpr{op: "conv", bits: bits, a: a.e}}
		case "seq":
			return a
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if al, ok := x.X.(*ssa.Alloc); ok {
				return p.slots[al]
			}
			a := w.get(p, x.X)
			switch a.kind {
			case "slotp":
				if a.tup[0].kind == "seq" {
					if tstr(x.Type()) == "unsafe.Pointer" {
						return lval{kind: "ptr", c: a.tup[0].c}
					}
					return a.tup[0]
				}
			case "ptr":
				bits, uns := intSize(x.Type())
				if bits > 0 {
					return w.loadAt(a.c, bits/8, uns)
				}
			}
			w.fail("load %s", x)
			return lval{}
		}
		a := w.get(p, x.X)
		switch {
		case x.Op == token.NOT && a.kind == "bool":
			a.b = !a.b
			return a
		case x.Op == token.NOT && a.kind == "cond":
			c := *a.cond
			c.eq = !c.eq
			return lval{kind: "cond", cond: &c}
		case x.Op == token.XOR && a.kind == "int":
			a.c = ^a.c
			return norm(a)
		case x.Op == token.XOR && a.kind == "word":
			return lval{kind: "word", bits: a.bits, uns: a.uns, e: &lexpr{op: "not", bits: a.bits, a: a.e}}
		}
	case *ssa.IndexAddr:
		a, i := w.get(p, x.X), w.get(p, x.Index)
		if a.kind == "seq" && i.kind == "int" {
			return lval{kind: "ptr", c: a.c + i.c}
		}
	case *ssa.Lookup:
		a, i := w.get(p, x.X), w.get(p, x.Index)
		if a.kind == "seq" && i.kind == "int" {
			return w.loadAt(a.c+i.c, 1, true)
		}
	case *ssa.Slice:
		a := w.get(p, x.X)
		if a.kind == "seq" && x.High == nil && x.Max == nil {
			if x.Low != nil {
				i := w.get(p, x.Low)
				if i.kind != "int" || i.c < 0 || a.c+i.c > int64(w.n) {
					w.oob = append(w.oob, fmt.Sprintf("slice from %d of %d", a.c+i.c, w.n))
					w.fail("slice from %d of %d", a.c+i.c, w.n)
				}
				a.c += i.c
			}
			return a
		}
	case *ssa.BinOp:
		a, b := w.get(p, x.X), w.get(p, x.Y)
		if w.err != "" {
			return lval{}
		}
		if a.kind == "ptr" && b.kind == "int" && x.Op == token.ADD {
			a.c += b.c
			return a
		}
		if b.kind == "ptr" && a.kind == "int" && x.Op == token.ADD {
			b.c += a.c
			return b
		}
		if a.kind == "bool" && b.kind == "bool" {
			switch x.Op {
			case token.EQL:
				return lval{kind: "bool", b: a.b == b.b}
			case token.NEQ:
				return lval{kind: "bool", b: a.b != b.b}
			}
		}
		if a.kind == "int" && b.kind == "int" {
			return intOp(w, x, a, b)
		}
		bits, uns := intSize(x.X.Type())
		ea, eb := toExpr(a, bits), toExpr(b, bits)
		if ea == nil || eb == nil {
			break
		}
		op := ""
		switch x.Op {
		case token.ADD:
			op = "add"
		case token.SUB:
			op = "sub"
		case token.AND:
			op = "and"
		case token.OR:
			op = "or"
		case token.XOR:
			op = "xor"
		case token.AND_NOT:
			op, eb = "and", &lexpr{op: "not", bits: bits, a: eb}
		case token.SHL, token.SHR:
			if b.kind == "int" && b.c%8 == 0 {
				op = "shl"
				if x.Op == token.SHR {
					op = "shr"
				}
				return lval{kind: "word", bits: bits, uns: uns, e: &lexpr{op: op, bits: bits, k: int(b.c / 8), a: ea}}
			}
		case token.EQL, token.NEQ:
			if b.kind == "word" {
				a, b = b, a
			}
			if b.kind == "int" {
				return lval{kind: "cond", cond: &lcond{toExpr(a, bits), uint64(b.c) & mask(bits), x.Op == token.EQL}}
			}
		}
		if op != "" {
			return lval{kind: "word", bits: bits, uns: uns, e: &lexpr{op: op, bits: bits, a: ea, b: eb}}
		}
	}
	w.fail("instruction %s = %s", v.Name(), v)
	return lval{}
}

func intOp(w *lwalk, x *ssa.BinOp, a, b lval) lval {
	bl := func(v bool) lval { return lval{kind: "bool", b: v} }
	lt := a.c < b.c
	if a.uns {
		lt = uint64(a.c) < uint64(b.c)
	}
	r := lval{kind: "int", bits: a.bits, uns: a.uns}
	switch x.Op {
	case token.ADD:
		r.c = a.c + b.c
	case token.SUB:
		r.c = a.c - b.c
	case token.MUL:
		r.c = a.c * b.c
	case token.AND:
		r.c = a.c & b.c
	case token.OR:
		r.c = a.c | b.c
	case token.XOR:
		r.c = a.c ^ b.c
	case token.AND_NOT:
		r.c = a.c &^ b.c
	case token.SHL:
		r.c = a.c << uint(b.c)
	case token.SHR:
		if a.uns {
			r.c = int64(uint64(a.c) >> uint(b.c))
		} else {
			r.c = a.c >> uint(b.c)
		}
	case token.QUO, token.REM:
		if b.c == 0 {
			w.fail("division by zero")
			return r
		}
		switch {
		case a.uns && x.Op == token.QUO:
			r.c = int64(uint64(a.c) / uint64(b.c))
		case a.uns:
			r.c = int64(uint64(a.c) % uint64(b.c))
		case x.Op == token.QUO:
			r.c = a.c / b.c
		default:
			r.c = a.c % b.c
		}
	case token.EQL:
		return bl(a.c == b.c)
	case token.NEQ:
		return bl(a.c != b.c)
	case token.LSS:
		return bl(lt)
	case token.LEQ:
		return bl(lt || a.c == b.c)
	case token.GTR:
		return bl(!lt && a.c != b.c)
	case token.GEQ:
		return bl(!lt)
	default:
		w.fail("operator %s", x.Op)
	}
	return norm(r)
}

// ---- lanes

// laneSets bounds the bytes 0..n-1 under the conditions.
func laneSets(conds []lcond, n int) ([]bset, string) {
	sets := make([]bset, n)
	for i := range sets {
		sets[i] = allBytes
	}
	// group the equalities by the variables that they share
	var groups [][]lcond
	gvars := []map[int]bool{}
	for _, c := range conds {
		if !c.eq {
			continue
		}
		vs := map[int]bool{}
		lvars(c.e, vs)
		g := []lcond{c}
		var ng [][]lcond
		var nv []map[int]bool
		for i, o := range groups {
			shared := false
			for v := range vs {
				if gvars[i][v] {
					shared = true
				}
			}
			if shared {
				g = append(g, o...)
				for v := range gvars[i] {
					vs[v] = true
				}
			} else {
				ng = append(ng, o)
				nv = append(nv, gvars[i])
			}
		}
		groups, gvars = append(ng, g), append(nv, vs)
	}
	for _, g := range groups {
		var adders []*lexpr
		for _, c := range g {
			collectAdders(c.e, &adders, true)
		}
		if len(adders) > 10 {
			return nil, "too many additions in a condition"
		}
		idx := map[*lexpr]int{}
		for i, a := range adders {
			idx[a] = i
		}
		vars := [9]int{}
		for l := 0; l < 8; l++ {
			vs := map[int]bool{}
			for _, c := range g {
				if l*8 < c.e.bits {
					laneVars(c.e, l, vs)
				}
			}
			if len(vs) > 1 {
				return nil, "a lane of a word depends on several bytes"
			}
			vars[l] = -1
			for v := range vs {
				vars[l] = v
			}
		}
		for l := range vars[:8] {
			for m := 0; m < l; m++ {
				if vars[l] >= 0 && vars[l] == vars[m] {
					return nil, "a byte occurs in several lanes"
				}
			}
		}
		step := func(l int, cs uint32, v byte) (uint32, bool) {
			nc := uint32(0)
			bad := ""
			memo := map[*lexpr]byte{}
			var ev func(e *lexpr, l int) byte
			ev = func(e *lexpr, l int) byte {
				if l < 0 || l*8 >= e.bits {
					return 0
				}
				switch e.op {
				case "load":
					return v
				case "const":
					return byte(e.c >> uint(8*l))
				case "conv":
					return ev(e.a, l)
				case "not":
					return ^ev(e.a, l)
				case "and":
					return ev(e.a, l) & ev(e.b, l)
				case "or":
					return ev(e.a, l) | ev(e.b, l)
				case "xor":
					return ev(e.a, l) ^ ev(e.b, l)
				case "shl":
					return ev(e.a, l-e.k)
				case "shr":
					return ev(e.a, l+e.k)
				case "add", "sub":
					if r, ok := memo[e]; ok {
						return r
					}
					i := idx[e]
					x, y := int(ev(e.a, l)), int(ev(e.b, l))
					c := int(cs >> uint(i) & 1)
					var r int
					if e.op == "add" {
						r = x + y + c
						if r > 255 {
							nc |= 1 << uint(i)
						}
					} else {
						r = x - y - c
						if r < 0 {
							nc |= 1 << uint(i)
						}
					}
					memo[e] = byte(r)
					return byte(r)
				}
				bad = e.op
				return 0
			}
			ok := true
			for _, c := range g {
				if l*8 < c.e.bits {
					if ev(c.e, l) != byte(c.c>>uint(8*l)) {
						ok = false
					}
				}
			}
			if bad != "" {
				return 0, true
			}
			return nc, ok
		}
		fw := [9]map[uint32]bool{}
		fw[0] = map[uint32]bool{0: true}
		type edge struct {
			from, to uint32
			v        int
		}
		var edges [8][]edge
		for l := 0; l < 8; l++ {
			fw[l+1] = map[uint32]bool{}
			top := 255
			if vars[l] < 0 {
				top = 0
			}
			for c := range fw[l] {
				for v := 0; v <= top; v++ {
					if nc, ok := step(l, c, byte(v)); ok {
						fw[l+1][nc] = true
						edges[l] = append(edges[l], edge{c, nc, v})
					}
				}
			}
		}
		bw := fw[8]
		for l := 7; l >= 0; l-- {
			nb := map[uint32]bool{}
			var set bset
			for _, ed := range edges[l] {
				if bw[ed.to] {
					nb[ed.from] = true
					set = set.or(bsetRange(ed.v, ed.v))
				}
			}
			if vars[l] >= 0 {
				sets[vars[l]] = sets[vars[l]].and(set)
			}
			bw = nb
		}
	}
	return sets, ""
}

func lvars(e *lexpr, out map[int]bool) {
	if e == nil {
		return
	}
	if e.op == "load" {
		for i := 0; i < e.bits/8; i++ {
			out[e.k+i] = true
		}
	}
	lvars(e.a, out)
	lvars(e.b, out)
}

func laneVars(e *lexpr, l int, out map[int]bool) {
	if e == nil || l < 0 || l*8 >= e.bits {
		return
	}
	switch e.op {
	case "load":
		out[e.k+l] = true
	case "shl":
		laneVars(e.a, l-e.k, out)
	case "shr":
		laneVars(e.a, l+e.k, out)
	default:
		laneVars(e.a, l, out)
		laneVars(e.b, l, out)
	}
}

func collectAdders(e *lexpr, out *[]*lexpr, top bool) {
	if e == nil {
		return
	}
	if e.op == "add" || e.op == "sub" {
		for _, x := range *out {
			if x == e {
				return
			}
		}
		*out = append(*out, e)
	}
	collectAdders(e.a, out, false)
	collectAdders(e.b, out, false)
}

// wordCall models the call of a word predicate.
func (e *Engine) wordCall(s *State, fn *ssa.Function, args []V) []outcome {
	wp := wordPredicate(e.P, fn)
	if wp != nil && len(wp.oob) > 0 {
		e.obl("word", "word loads of "+fn.Name()+" stay within the text", false, strings.Join(wp.oob, "; "))
	}
	if wp == nil || wp.err != "" {
		return nil
	}
	e.fns[fn] = true
	sl, ok := asSlice(args[0])
	if !ok {
		return nil
	}
	e.obl("word", "word loads of "+fn.Name()+" stay within the text", len(wp.oob) == 0, strings.Join(wp.oob, "; "))
	s1 := s.fork()
	e.addSpan(s1, &Span{base: sl.base, lo: sl.lo, hi: sl.hi, set: wp.set, flags: spOpaque * b2i(!wp.set.and(bsetRange(128, 255)).empty())})
	out := []outcome{{s1, VBool(true)}}
	if s.assumeLE(sl.lo.addc(1).sub(sl.hi)) {
		out = append(out, outcome{s, VBool(false)})
	}
	return out
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
