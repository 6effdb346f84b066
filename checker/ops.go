package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var boolT = types.Typ[types.Bool]
var errT = types.Universe.Lookup("error").Type()

// nonNil reports whether a reference value is known to be nil (0), non-nil
// (1) or neither (-1).
func (e *Engine) nilness(s *State, v V) int {
	switch x := v.(type) {
	case *VNil:
		return 0
	case *VAddr, *VElem, *VFunc, *VIface, *VOut, *VStruct:
		if a, ok := v.(*VAddr); ok && a.o == nil && len(a.path) == 0 {
			return e.nilness(s, a.root)
		}
		return 1
	case *Term:
		switch x.op {
		case "newerr", "rtype", "obj", "map", "chan", "nonnil", "global":
			return 1
		}
		if b, ok := s.facts[mk("isnil", "", boolT, x)]; ok {
			if b {
				return 0
			}
			return 1
		}
		if k, ok := s.eqs[x]; ok {
			return e.nilness(s, k)
		}
		switch x.typ.Underlying().(type) {
		case *types.Slice, *types.Map:
			if s.decLE(ic(1).sub(it(mk("len", "", intT, x)))) == 1 {
				return 1
			}
		}
		return -1
	case *VSlice:
		switch x.base.op {
		case "obj", "str", "arr", "list":
			return 1
		case "nilslice":
			return 0
		}
		if s.decLE(ic(1).sub(x.hi.sub(x.lo))) == 1 {
			return 1
		}
		return e.nilness(s, x.base)
	}
	return -1
}

func (e *Engine) isNilCond(s *State, v V) V {
	switch e.nilness(s, v) {
	case 0:
		return VBool(true)
	case 1:
		return VBool(false)
	}
	switch x := v.(type) {
	case *VSlice:
		return mk("isnil", "", boolT, x.base)
	case *VAddr:
		return mk("isnil", "", boolT, x.root)
	}
	return mk("isnil", "", boolT, v)
}

func (e *Engine) binop(s *State, op token.Token, a, b V, xt, rt types.Type) V {
	switch op {
	case token.EQL:
		return e.equal(s, a, b, xt)
	case token.NEQ:
		return not(e.equal(s, a, b, xt))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return e.compare(s, op, a, b, xt)
	}
	if isInt(rt) {
		return e.arith(s, op, a, b, rt)
	}
	if isString(rt) && op == token.ADD {
		x, ok1 := asSlice(a)
		y, ok2 := asSlice(b)
		if ok1 && ok2 {
			if x.base.op == "str" && y.base.op == "str" && x.lo.isConst() && x.hi.isConst() && y.lo.isConst() && y.hi.isConst() {
				return strV(x.base.aux[x.lo.c:x.hi.c] + y.base.aux[y.lo.c:y.hi.c])
			}
		}
		t := freshSym("concat", rt)
		s.assumeEQ(it(mk("len", "", intT, t)).sub(e.length(s, a)).sub(e.length(s, b)))
		return t
	}
	if x, ok := a.(*VConst); ok {
		if y, ok := b.(*VConst); ok {
			return &VConst{constant.BinaryOp(x.v, op, y.v), rt}
		}
	}
	return e.wrap(mk("bin"+op.String(), "", rt, a, b))
}

func (e *Engine) arith(s *State, op token.Token, a, b V, rt types.Type) V {
	if _, ok := a.(*VAddr); ok {
		return mk("ptradd"+op.String(), "", rt, a, b)
	}
	if _, ok := a.(*VElem); ok {
		return mk("ptradd"+op.String(), "", rt, a, b)
	}
	if x, ok := a.(*BFn); ok {
		if y, ok := b.(Int); ok && y.isConst() {
			return bfnOp(x, func(v int64) int64 { return evalInt(op, v, y.c, rt) })
		}
		if y, ok := b.(*BFn); ok && y.base == x.base && y.pos.eq(x.pos) {
			var t [256]int64
			for i := range t {
				t[i] = evalInt(op, x.tab[i], y.tab[i], rt)
			}
			return &BFn{x.base, x.pos, internTab(t)}
		}
	}
	if y, ok := b.(*BFn); ok {
		if x, ok := a.(Int); ok && x.isConst() {
			return bfnOp(y, func(v int64) int64 { return evalInt(op, x.c, v, rt) })
		}
	}
	x, _ := e.intVal(a)
	y, _ := e.intVal(b)
	if x.isConst() && y.isConst() {
		return ic(evalInt(op, x.c, y.c, rt))
	}
	switch op {
	case token.ADD:
		return x.add(y)
	case token.SUB:
		return x.sub(y)
	case token.MUL:
		if y.isConst() {
			return x.mulc(y.c)
		}
		if x.isConst() {
			return y.mulc(x.c)
		}
		if vkey(x) > vkey(y) {
			x, y = y, x
		}
		return it(mk("mul", "", rt, x, y))
	case token.SHL:
		if y.isConst() && y.c >= 0 && y.c < 62 {
			return x.mulc(1 << uint(y.c))
		}
	case token.AND:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			return e.band(x, y.c, rt)
		}
	case token.OR:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			if y.c == 0 {
				return x
			}
			if t := x.single(); t != nil && t.op == "bor" {
				return it(mk("bor", "", rt, t.args[0], ic(t.args[1].(Int).c|y.c)))
			}
			return it(mk("bor", "", rt, x, y))
		}
	case token.AND_NOT:
		if y.isConst() {
			return it(mk("bandnot", "", rt, x, y))
		}
	case token.SHR:
		if y.isConst() && s.zone.lower(x) >= 0 {
			return it(mk("nonneg", "shr", rt, x, y))
		}
	case token.REM:
		if y.isConst() && y.c > 0 && s.zone.lower(x) >= 0 {
			return it(mk("rem", "", rt, x, y))
		}
	case token.QUO:
		if y.isConst() && y.c > 0 && s.zone.lower(x) >= 0 {
			return it(mk("nonneg", "quo", rt, x, y))
		}
	}
	return it(mk("int"+op.String(), "", rt, x, y))
}

// band masks x with the constant m.
func (e *Engine) band(x Int, m int64, rt types.Type) V {
	if t := x.single(); t != nil && m >= 0 {
		switch t.op {
		case "bor":
			c := t.args[1].(Int).c
			if c&m == m {
				return ic(m)
			}
			if c&m == 0 {
				return e.band(t.args[0].(Int), m, rt)
			}
		case "bandnot":
			c := t.args[1].(Int).c
			if c&m == m {
				return ic(0)
			}
			if c&m == 0 {
				return e.band(t.args[0].(Int), m, rt)
			}
		case "band":
			return e.band(t.args[0].(Int), m&t.args[1].(Int).c, rt)
		}
	}
	if m < 0 {
		// clearing bits
		return it(mk("bandnot", "", rt, x, ic(^m)))
	}
	if m == 0 {
		return ic(0)
	}
	return it(mk("band", "", rt, x, ic(m)))
}

func bfnOp(x *BFn, f func(int64) int64) V {
	var t [256]int64
	for i := range t {
		t[i] = f(x.tab[i])
	}
	return &BFn{x.base, x.pos, internTab(t)}
}

func evalInt(op token.Token, a, b int64, t types.Type) int64 {
	var r int64
	switch op {
	case token.ADD:
		r = a + b
	case token.SUB:
		r = a - b
	case token.MUL:
		r = a * b
	case token.QUO:
		if b == 0 {
			return 0
		}
		r = a / b
	case token.REM:
		if b == 0 {
			return 0
		}
		r = a % b
	case token.AND:
		r = a & b
	case token.OR:
		r = a | b
	case token.XOR:
		r = a ^ b
	case token.AND_NOT:
		r = a &^ b
	case token.SHL:
		if b < 0 || b > 63 {
			return 0
		}
		r = a << uint(b)
	case token.SHR:
		if b < 0 || b > 63 {
			return 0
		}
		r = a >> uint(b)
	}
	return wrapConst(r, t)
}

func cint(eq bool, d Int) V {
	if d.isConst() {
		if eq {
			return VBool(d.c == 0)
		}
		return VBool(d.c <= 0)
	}
	if eq && d.ts[0].k < 0 {
		d = d.neg()
	}
	return &CInt{eq, d}
}

func (e *Engine) bytePred(s *State, x *BFn, f func(int64) bool) V {
	var set bset
	for i := 0; i < 256; i++ {
		if f(x.tab[i]) {
			set.add(i)
		}
	}
	cur := s.byteSet(x.base, x.pos)
	if cur.and(set).empty() {
		return VBool(false)
	}
	if cur.sub(set) {
		return VBool(true)
	}
	return &CByte{x.base, x.pos, set}
}

func (e *Engine) compare(s *State, op token.Token, a, b V, t types.Type) V {
	cmp := func(x, y int64) bool {
		switch op {
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		}
		return x >= y
	}
	if isInt(t) {
		if x, ok := a.(*BFn); ok {
			if y, ok := b.(Int); ok && y.isConst() {
				return e.bytePred(s, x, func(v int64) bool { return cmp(v, y.c) })
			}
		}
		if y, ok := b.(*BFn); ok {
			if x, ok := a.(Int); ok && x.isConst() {
				return e.bytePred(s, y, func(v int64) bool { return cmp(x.c, v) })
			}
		}
		x, _ := e.intVal(a)
		y, _ := e.intVal(b)
		switch op {
		case token.LSS:
			return cint(false, x.sub(y).addc(1))
		case token.LEQ:
			return cint(false, x.sub(y))
		case token.GTR:
			return cint(false, y.sub(x).addc(1))
		default:
			return cint(false, y.sub(x))
		}
	}
	if x, ok := a.(*VConst); ok {
		if y, ok := b.(*VConst); ok {
			return VBool(constant.Compare(x.v, op, y.v))
		}
	}
	if isString(t) {
		switch op {
		case token.GTR:
			return mk("strlt", "", boolT, b, a)
		case token.LEQ:
			return not(mk("strlt", "", boolT, b, a))
		case token.GEQ:
			return not(mk("strlt", "", boolT, a, b))
		}
		return mk("strlt", "", boolT, a, b)
	}
	return mk("cmp"+op.String(), "", boolT, a, b)
}

func (e *Engine) equal(s *State, a, b V, t types.Type) V {
	if isInt(t) {
		x, xb := a.(*BFn)
		y, yb := b.(*BFn)
		ai, aIsInt := a.(Int)
		bi, bIsInt := b.(Int)
		switch {
		case xb && bIsInt && bi.isConst():
			return e.bytePred(s, x, func(v int64) bool { return v == bi.c })
		case yb && aIsInt && ai.isConst():
			return e.bytePred(s, y, func(v int64) bool { return v == ai.c })
		case xb && yb && x.base == y.base && x.pos.eq(y.pos):
			var set bset
			for i := 0; i < 256; i++ {
				if x.tab[i] == y.tab[i] {
					set.add(i)
				}
			}
			if set == allBytes {
				return VBool(true)
			}
			return &CByte{x.base, x.pos, set}
		}
		p, _ := e.intVal(a)
		q, _ := e.intVal(b)
		return cint(true, p.sub(q))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if x, ok := a.(VBool); ok {
				if x {
					return b
				}
				return not(b)
			}
			if y, ok := b.(VBool); ok {
				if y {
					return a
				}
				return not(a)
			}
			if vkey(a) == vkey(b) {
				return VBool(true)
			}
			return mk("booleq", "", boolT, a, b)
		case u.Info()&types.IsString != 0:
			return e.seqEqual(s, a, b)
		case u.Info()&types.IsFloat != 0:
			if x, ok := a.(*VConst); ok {
				if y, ok := b.(*VConst); ok {
					return VBool(constant.Compare(x.v, token.EQL, y.v))
				}
			}
			if vkey(a) == vkey(b) {
				// only NaN differs from itself
				return not(mk("call", "math.IsNaN", boolT, stripFloat(a)))
			}
			return mk("feq", "", boolT, a, b)
		}
	case *types.Struct:
		if x, ok := a.(*VStruct); ok {
			if y, ok := b.(*VStruct); ok && len(x.f) == len(y.f) {
				var r V = VBool(true)
				for i := range x.f {
					r = andC(r, e.equal(s, x.f[i], y.f[i], u.Field(i).Type()))
				}
				return r
			}
		}
		return mk("eq", "", boolT, a, b)
	}
	_, an := a.(*VNil)
	_, bn := b.(*VNil)
	switch {
	case an && bn:
		return VBool(true)
	case bn:
		return e.isNilCond(s, a)
	case an:
		return e.isNilCond(s, b)
	}
	if vkey(a) == vkey(b) {
		return VBool(true)
	}
	if x, ok := a.(*VIface); ok {
		if y, ok := b.(*VIface); ok {
			if !types.Identical(x.t, y.t) {
				return VBool(false)
			}
			return e.equal(s, x.v, y.v, x.t)
		}
	}
	if x, ok := a.(*VAddr); ok && x.o != nil {
		if y, ok := b.(*VAddr); ok && y.o != nil {
			return VBool(false)
		}
	}
	xt, xok := a.(*Term)
	yt, yok := b.(*Term)
	if xok && yok {
		if isDistinct(xt) && isDistinct(yt) {
			return VBool(false)
		}
		if isDistinct(xt) {
			xt, yt = yt, xt
		}
		if k, ok := s.eqs[xt]; ok && isDistinct(yt) {
			return VBool(vkey(k) == vkey(yt))
		}
		if !isDistinct(yt) && xt.id > yt.id {
			xt, yt = yt, xt
		}
		return mk("eq", "", boolT, xt, yt)
	}
	if yok {
		a, b = b, a
	}
	return mk("eq", "", boolT, a, b)
}

func stripFloat(v V) V {
	for {
		t, ok := v.(*Term)
		if !ok {
			return v
		}
		if t.op == "conv" && strings.HasSuffix(t.aux, ">float64") {
			v = t.args[0]
			continue
		}
		return v
	}
}

func andC(a, b V) V {
	if x, ok := a.(VBool); ok {
		if !x {
			return x
		}
		return b
	}
	if y, ok := b.(VBool); ok {
		if !y {
			return y
		}
		return a
	}
	return mk("and", "", boolT, a, b)
}

func (e *Engine) seqEqual(s *State, a, b V) V {
	x, ok1 := asSlice(a)
	y, ok2 := asSlice(b)
	if !ok1 || !ok2 {
		return mk("eq", "", boolT, a, b)
	}
	if x.base == y.base && x.lo.eq(y.lo) && x.hi.eq(y.hi) {
		return VBool(true)
	}
	if x.base.op == "str" && y.base.op != "str" {
		x, y = y, x
	}
	xl, yl := x.hi.sub(x.lo), y.hi.sub(y.lo)
	if yl.isConst() && yl.c == 0 {
		return cint(true, xl)
	}
	if s.decEQ(xl.sub(yl)) == 0 {
		return VBool(false)
	}
	if x.base.op == "str" && y.base.op == "str" && xl.isConst() && yl.isConst() && x.lo.isConst() && y.lo.isConst() {
		return VBool(x.base.aux[x.lo.c:x.hi.c] == y.base.aux[y.lo.c:y.hi.c])
	}
	return mk("seqeq", "", boolT, x, y)
}

// ---- opaque calls

var pureP = []string{"reflect.", "(reflect.", "(*reflect.", "strconv.", "strings.", "math.", "unicode.", "unicode/utf8.", "bytes.", "errors.", "encoding/base64.", "(encoding/base64", "(*encoding/base64", "(time.", "time.Unix", "path", "os.Get"}

func isPure(name string) bool {
	if strings.HasPrefix(name, "(*bytes.") || strings.HasPrefix(name, "(*strings.") || strings.HasPrefix(name, "(reflect.Value).Set") || strings.HasPrefix(name, "(*time.") {
		return false
	}
	for _, p := range pureP {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func hasAddr(v V) bool {
	switch x := v.(type) {
	case *VAddr:
		return x.o != nil
	case *VElem:
		return true
	case *VIface:
		return hasAddr(x.v)
	case *VTuple:
		for _, a := range x.e {
			if hasAddr(a) {
				return true
			}
		}
	case *VStruct:
		for _, a := range x.f {
			if hasAddr(a) {
				return true
			}
		}
	case *VSlice:
		return x.base.op == "arr"
	}
	return false
}

func (e *Engine) havoc(s *State, v V) {
	switch x := v.(type) {
	case *VAddr:
		if x.o != nil {
			if len(x.path) == 0 {
				s.wheap()[x.o] = e.wrap(freshSym("havoc", x.o.t))
			} else {
				cell := s.heap[x.o]
				if cell == nil {
					cell = e.P.initial(e, s, x.o)
				}
				ft := pathType(x.path)
				s.wheap()[x.o] = e.storePath(s, cell, x.o.t, x.path, e.wrap(freshSym("havoc", ft)))
			}
			return
		}
		for k, c := range s.mem {
			if c.a.root == x.root {
				delete(s.wmem(), k)
			}
		}
		e.bump(s, x.root)
	case *VIface:
		e.havoc(s, x.v)
	case *VTuple:
		for _, a := range x.e {
			e.havoc(s, a)
		}
	case *VStruct:
		for _, a := range x.f {
			e.havoc(s, a)
		}
	case *VSlice:
		if x.base.op == "list" {
			e.havocList(s, x.base.args[0].(objRef).o)
			break
		}
		if x.base.op != "str" && !x.str {
			if x.base.op == "arr" {
				if r, ok := x.base.args[0].(objRef); ok {
					// variadic arguments hold values that are havocked in turn
					if st, ok := s.heap[r.o].(*VStruct); ok {
						for _, a := range st.f {
							e.havoc(s, a)
						}
					}
				}
			}
		}
	case *VFunc:
		for _, b := range x.bind {
			e.havoc(s, b)
		}
	}
}

func pathType(p []pel) types.Type {
	l := p[len(p)-1]
	if l.ix != nil {
		return elemOf(l.st)
	}
	return l.st.Underlying().(*types.Struct).Field(l.idx).Type()
}

func (e *Engine) opaque(s *State, ins ssa.CallInstruction, name string, sig *types.Signature, args []V, rec bool) []outcome {
	pure := isPure(name) && !rec
	if pure {
		for _, a := range args {
			if hasAddr(a) {
				pure = false
			}
		}
	}
	if !pure {
		for _, a := range args {
			e.havoc(s, a)
		}
	}
	res := sig.Results()
	var r []V
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		if pure {
			aux := name
			if res.Len() > 1 {
				aux += fmt.Sprintf("/%d", i)
			}
			r = append(r, e.wrap(mk("call", aux, t, args...)))
		} else {
			r = append(r, e.wrap(freshSym(name, t)))
		}
	}
	return []outcome{{s, pack(r)}}
}

func isReflectType(t types.Type) bool { return tstr(t) == "reflect.Type" }

func (e *Engine) invoke(s *State, ins ssa.CallInstruction, recv V, m *types.Func, args []V) []outcome {
	name := m.Name()
	if isReflectType(ins.Common().Value.Type()) {
		if t, ok := recv.(*Term); ok {
			if k, ok := s.eqs[t]; ok {
				recv = k
			}
		}
		if t, ok := recv.(*Term); ok && t.op == "rtype" {
			if r := e.P.rtypeMethod(t, name, args); r != nil {
				return []outcome{{s, r}}
			}
		}
		sig := m.Type().(*types.Signature)
		var r []V
		for i := 0; i < sig.Results().Len(); i++ {
			r = append(r, e.wrap(mk("rt."+name, fmt.Sprint(i), sig.Results().At(i).Type(), append([]V{recv}, args...)...)))
		}
		return []outcome{{s, pack(r)}}
	}
	full := "invoke " + tstrShort(ins.Common().Value.Type()) + "." + name
	if e.onCall != nil {
		e.onCall(e, s, ins, full, append([]V{recv}, args...))
	}
	if e.invokeHook != nil {
		if out := e.invokeHook(e, s, ins, recv, name, args); out != nil {
			return out
		}
	}
	if mf, ok := e.override[full]; ok {
		if out := mf(e, s, ins, nil, append([]V{recv}, args...)); out != nil {
			return out
		}
	}
	return e.opaque(s, ins, full, m.Type().(*types.Signature), append([]V{recv}, args...), false)
}
