package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// V is an abstract value. All values are immutable.
type V interface{ write(w *kw) }

// kw serialises values; with a renamer it produces canonical keys in which
// fresh symbols, trace nodes and objects are numbered in encounter order.
type kw struct {
	sb strings.Builder
	rn *renamer
}

type renamer struct {
	syms  map[*Term]int
	symL  []*Term
	objs  map[*Obj]int
	objL  []*Obj
	outs  map[*Node]int
	outL  []*Node
	lens  map[*Node]bool
	onObj func(o *Obj)
}

func newRenamer() *renamer {
	return &renamer{syms: map[*Term]int{}, objs: map[*Obj]int{}, outs: map[*Node]int{}, lens: map[*Node]bool{}}
}

func (w *kw) s(x string) { w.sb.WriteString(x) }
func (w *kw) n(x int64)  { w.sb.WriteString(strconv.FormatInt(x, 10)) }
func (w *kw) v(x V) {
	if x == nil {
		w.s("_")
		return
	}
	x.write(w)
}
func vkey(x V) string {
	w := &kw{}
	w.v(x)
	return w.sb.String()
}

// ---- terms

type Term struct {
	id    int
	op    string
	aux   string
	args  []V
	typ   types.Type
	fresh bool // is a fresh symbol (renamable)
	dirty bool // contains fresh symbols, objects or nodes
	depth int
}

var (
	termTab  = map[string]*Term{}
	termCnt  int
	typeTab  = map[string]string{}
	typeStrs = map[types.Type]string{}
)

func tstr(t types.Type) string {
	if t == nil {
		return "?"
	}
	if s, ok := typeStrs[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	typeStrs[t] = s
	return s
}

func (t *Term) write(w *kw) {
	if w.rn == nil || !t.dirty {
		w.s("t")
		w.n(int64(t.id))
		return
	}
	if t.fresh {
		k, ok := w.rn.syms[t]
		if !ok {
			k = len(w.rn.symL)
			w.rn.syms[t] = k
			w.rn.symL = append(w.rn.symL, t)
			w.s("$")
			w.n(int64(k))
			w.s(":" + tstr(t.typ) + ":" + t.aux)
			return
		}
		w.s("$")
		w.n(int64(k))
		return
	}
	w.s(t.op)
	if t.aux != "" {
		w.s("<" + t.aux + ">")
	}
	w.s("(")
	for i, a := range t.args {
		if i > 0 {
			w.s(",")
		}
		w.v(a)
	}
	w.s(")")
}

func mk(op, aux string, typ types.Type, args ...V) *Term {
	w := &kw{}
	w.s(op + "<" + aux + ">" + tstr(typ) + "(")
	for _, a := range args {
		w.v(a)
		w.s(",")
	}
	k := w.sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termCnt++
	t := &Term{id: termCnt, op: op, aux: aux, args: args, typ: typ, depth: 1}
	for _, a := range args {
		if isDirty(a) {
			t.dirty = true
		}
		if d := vdepth(a) + 1; d > t.depth {
			t.depth = d
		}
	}
	termTab[k] = t
	return t
}

// sym makes a permanent (never renamed) leaf.
func sym(name string, typ types.Type) *Term { return mk("sym", name, typ) }

// freshSym makes a new renamable leaf; aux describes its origin.
func freshSym(aux string, typ types.Type) *Term {
	termCnt++
	return &Term{id: termCnt, op: "fresh", aux: aux, typ: typ, fresh: true, dirty: true, depth: 1}
}

func isDirty(v V) bool {
	switch x := v.(type) {
	case *Term:
		return x.dirty
	case Int:
		for _, t := range x.ts {
			if t.t.dirty {
				return true
			}
		}
		return false
	case *VConst, *VNil, nil:
		return false
	case VBool:
		return false
	case *VFunc:
		for _, b := range x.bind {
			if isDirty(b) {
				return true
			}
		}
		return false
	}
	return true
}

func vdepth(v V) int {
	switch x := v.(type) {
	case *Term:
		return x.depth
	case Int:
		d := 0
		for _, t := range x.ts {
			if t.t.depth > d {
				d = t.t.depth
			}
		}
		return d
	case *VSlice:
		return maxi(vdepth(x.base), maxi(vdepth(x.lo), vdepth(x.hi)))
	case *VTuple:
		d := 0
		for _, e := range x.e {
			d = maxi(d, vdepth(e))
		}
		return d
	case *VStruct:
		d := 0
		for _, e := range x.f {
			d = maxi(d, vdepth(e))
		}
		return d
	case *VIface:
		return vdepth(x.v)
	case *VAddr:
		if x.root != nil {
			return x.root.depth
		}
		return 0
	case *VFunc:
		d := 0
		for _, e := range x.bind {
			d = maxi(d, vdepth(e))
		}
		return d
	case *BFn:
		return maxi(x.base.depth, vdepth(x.pos))
	}
	return 0
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func (t *Term) String() string {
	if t.fresh {
		return fmt.Sprintf("%s#%d", t.aux, t.id)
	}
	if t.op == "sym" {
		return t.aux
	}
	var a []string
	for _, x := range t.args {
		a = append(a, vstr(x))
	}
	s := t.op
	if t.aux != "" {
		s += "<" + t.aux + ">"
	}
	return s + "(" + strings.Join(a, ",") + ")"
}

// ---- integers: linear forms

type lt struct {
	k int64
	t *Term
}
type Int struct {
	c  int64
	ts []lt // sorted by term id, non-zero coefficients
}

func (x Int) write(w *kw) {
	w.s("i")
	w.n(x.c)
	if len(x.ts) == 0 {
		return
	}
	if w.rn == nil || len(x.ts) == 1 {
		for _, t := range x.ts {
			w.s("+")
			w.n(t.k)
			w.s("*")
			t.t.write(w)
		}
		return
	}
	// canonical order: coefficient, then known/renamed
	ts := append([]lt(nil), x.ts...)
	sort.SliceStable(ts, func(i, j int) bool {
		a, b := ts[i], ts[j]
		if a.t.dirty != b.t.dirty {
			return !a.t.dirty
		}
		if a.t.fresh && b.t.fresh {
			ka, oka := w.rn.syms[a.t]
			kb, okb := w.rn.syms[b.t]
			if oka != okb {
				return oka
			}
			if oka && ka != kb {
				return ka < kb
			}
		}
		if a.k != b.k {
			return a.k > b.k
		}
		return a.t.id < b.t.id
	})
	for _, t := range ts {
		w.s("+")
		w.n(t.k)
		w.s("*")
		t.t.write(w)
	}
}

func ic(c int64) Int        { return Int{c: c} }
func it(t *Term) Int        { return Int{ts: []lt{{1, t}}} }
func (x Int) isConst() bool { return len(x.ts) == 0 }
func (x Int) add(y Int) Int { return x.lin(1, y) }
func (x Int) sub(y Int) Int { return x.lin(-1, y) }
func (x Int) addc(c int64) Int {
	return Int{c: x.c + c, ts: x.ts}
}
func (x Int) neg() Int { return Int{}.lin(-1, x) }
func (x Int) mulc(k int64) Int {
	return Int{}.lin(k, x)
}
func (x Int) lin(k int64, y Int) Int {
	r := Int{c: x.c + k*y.c}
	i, j := 0, 0
	for i < len(x.ts) || j < len(y.ts) {
		switch {
		case j >= len(y.ts) || i < len(x.ts) && x.ts[i].t.id < y.ts[j].t.id:
			r.ts = append(r.ts, x.ts[i])
			i++
		case i >= len(x.ts) || y.ts[j].t.id < x.ts[i].t.id:
			if k*y.ts[j].k != 0 {
				r.ts = append(r.ts, lt{k * y.ts[j].k, y.ts[j].t})
			}
			j++
		default:
			if c := x.ts[i].k + k*y.ts[j].k; c != 0 {
				r.ts = append(r.ts, lt{c, x.ts[i].t})
			}
			i++
			j++
		}
	}
	return r
}
func (x Int) eq(y Int) bool {
	if x.c != y.c || len(x.ts) != len(y.ts) {
		return false
	}
	for i := range x.ts {
		if x.ts[i] != y.ts[i] {
			return false
		}
	}
	return true
}
func (x Int) single() *Term {
	if x.c == 0 && len(x.ts) == 1 && x.ts[0].k == 1 {
		return x.ts[0].t
	}
	return nil
}
func (x Int) subst(from *Term, to Int) Int {
	for _, t := range x.ts {
		if t.t == from {
			return x.lin(-t.k, it(from)).lin(t.k, to)
		}
	}
	return x
}

// ---- other values

type VBool bool

func (x VBool) write(w *kw) {
	if x {
		w.s("T")
	} else {
		w.s("F")
	}
}

// VConst is a non-integer constant (float, complex).
type VConst struct {
	v constant.Value
	t types.Type
}

func (x *VConst) write(w *kw) { w.s("c" + tstr(x.t) + ":" + x.v.ExactString()) }

type VNil struct{ t types.Type }

func (x *VNil) write(w *kw) { w.s("nil") }

// VSlice is a slice or string: the elements [lo,hi) of base.
type VSlice struct {
	base *Term
	lo   Int
	hi   Int
	str  bool
	et   types.Type
}

func (x *VSlice) write(w *kw) {
	if x.str {
		w.s("S[")
	} else {
		w.s("L[")
	}
	w.v(x.base)
	w.s(":")
	w.v(x.lo)
	w.s(":")
	w.v(x.hi)
	w.s("]")
}

// VOut is an output buffer whose content is described by a trace node,
// followed by explicit pending tail bytes, or by a hole that is being filled.
type VOut struct {
	n    *Node
	pend []V
	hole *Obj
}

func (x *VOut) write(w *kw) {
	w.s("O")
	w.node(x.n)
	for _, p := range x.pend {
		w.s(";")
		w.v(p)
	}
	if x.hole != nil {
		w.s("H")
		w.obj(x.hole)
	}
}

func (w *kw) node(n *Node) {
	if w.rn == nil {
		w.n(int64(n.id))
		return
	}
	k, ok := w.rn.outs[n]
	if !ok {
		k = len(w.rn.outL)
		w.rn.outs[n] = k
		w.rn.outL = append(w.rn.outL, n)
	}
	w.s("#")
	w.n(int64(k))
}

func (w *kw) obj(o *Obj) {
	if w.rn == nil || o.perm {
		w.s("o")
		w.n(int64(o.id))
		return
	}
	k, ok := w.rn.objs[o]
	if !ok {
		k = len(w.rn.objL)
		w.rn.objs[o] = k
		w.rn.objL = append(w.rn.objL, o)
	}
	w.s("@")
	w.n(int64(k))
}

// nodeRef lets a term refer to a node by identity (lengths of outputs).
type nodeRef struct{ n *Node }

func (x nodeRef) write(w *kw) {
	w.s("N")
	w.n(int64(x.n.id))
	if w.rn != nil {
		w.rn.lens[x.n] = true
	}
}

type objRef struct{ o *Obj }

func (x objRef) write(w *kw) { w.s("R"); w.obj(x.o) }

type VStruct struct {
	t types.Type
	f []V
}

func (x *VStruct) write(w *kw) {
	w.s("{")
	for i, f := range x.f {
		if i > 0 {
			w.s(",")
		}
		w.v(f)
	}
	w.s("}")
}

type VTuple struct{ e []V }

func (x *VTuple) write(w *kw) {
	w.s("(")
	for i, f := range x.e {
		if i > 0 {
			w.s(",")
		}
		w.v(f)
	}
	w.s(")")
}

type VFunc struct {
	fn   *ssa.Function
	bind []V
}

func (x *VFunc) write(w *kw) {
	w.s("f" + x.fn.String() + fmt.Sprintf("@%d", x.fn.Pos()))
	if len(x.bind) > 0 {
		w.s("[")
		for _, b := range x.bind {
			w.v(b)
			w.s(",")
		}
		w.s("]")
	}
}

// VIface is an interface holding a value of known dynamic type.
type VIface struct {
	t types.Type
	v V
}

func (x *VIface) write(w *kw) { w.s("I" + tstr(x.t) + "("); w.v(x.v); w.s(")") }

// Obj is a memory object.
type Obj struct {
	id   int
	name string
	t    types.Type
	perm bool
}

var objCnt int

func newObj(name string, t types.Type) *Obj {
	objCnt++
	return &Obj{id: objCnt, name: name, t: t}
}

type pel struct {
	st  types.Type // struct (or array) type being selected from
	idx int
	ix  V // index for arrays
}

// VAddr is the address of a cell: an object or the target of a symbolic
// pointer, followed by a path of selections.
type VAddr struct {
	o    *Obj
	root *Term // symbolic pointer
	rt   types.Type
	path []pel
}

func (x *VAddr) write(w *kw) {
	w.s("&")
	if x.o != nil {
		w.obj(x.o)
	} else {
		w.v(x.root)
	}
	w.path(x.path)
}
func (w *kw) path(p []pel) {
	for _, e := range p {
		w.s(".")
		if e.ix != nil {
			w.s("[")
			w.v(e.ix)
			w.s("]")
		} else {
			w.s(tstr(e.st) + "/")
			w.n(int64(e.idx))
		}
	}
}

// VElem is the address of an element of a slice value.
type VElem struct {
	s    V // *VSlice or *VOut or *Term
	idx  Int
	et   types.Type
	path []pel
}

func (x *VElem) write(w *kw) {
	w.s("&e")
	w.v(x.s)
	w.s("[")
	w.v(x.idx)
	w.s("]")
	w.path(x.path)
}

// BFn is a function (given by a table) of one byte of a sequence.
type BFn struct {
	base *Term
	pos  Int
	tab  *[256]int64
}

var tabIDs = map[[256]int64]*[256]int64{}

func internTab(t [256]int64) *[256]int64 {
	if p, ok := tabIDs[t]; ok {
		return p
	}
	p := new([256]int64)
	*p = t
	tabIDs[t] = p
	return p
}

var idTab = func() *[256]int64 {
	var t [256]int64
	for i := range t {
		t[i] = int64(i)
	}
	return internTab(t)
}()
var tabNum = map[*[256]int64]int{}

func tabID(p *[256]int64) int {
	if n, ok := tabNum[p]; ok {
		return n
	}
	tabNum[p] = len(tabNum) + 1
	return len(tabNum)
}

func (x *BFn) write(w *kw) {
	w.s("B")
	w.n(int64(tabID(x.tab)))
	w.s("(")
	w.v(x.base)
	w.s("@")
	w.v(x.pos)
	w.s(")")
}

// ---- conditions

// CInt: d <= 0 (eq false) or d == 0 (eq true).
type CInt struct {
	eq bool
	d  Int
}

func (x *CInt) write(w *kw) {
	if x.eq {
		w.s("[0==")
	} else {
		w.s("[0>=")
	}
	w.v(x.d)
	w.s("]")
}

type CNot struct{ c V }

func (x *CNot) write(w *kw) { w.s("!"); w.v(x.c) }

// CByte: the byte at pos of base lies in set.
type CByte struct {
	base *Term
	pos  Int
	set  bset
}

func (x *CByte) write(w *kw) {
	w.s("[")
	w.v(x.base)
	w.s("@")
	w.v(x.pos)
	w.s("in" + x.set.String() + "]")
}

type bset [4]uint64

func (s bset) has(b int) bool { return s[b>>6]>>(uint(b)&63)&1 == 1 }
func (s *bset) add(b int)     { s[b>>6] |= 1 << (uint(b) & 63) }
func (s bset) and(t bset) bset {
	for i := range s {
		s[i] &= t[i]
	}
	return s
}
func (s bset) or(t bset) bset {
	for i := range s {
		s[i] |= t[i]
	}
	return s
}
func (s bset) not() bset {
	for i := range s {
		s[i] = ^s[i]
	}
	return s
}
func (s bset) empty() bool     { return s == bset{} }
func (s bset) sub(t bset) bool { return s.and(t) == s }
func (s bset) one() (int, bool) {
	n, r := 0, -1
	for i := 0; i < 256; i++ {
		if s.has(i) {
			n++
			r = i
		}
	}
	return r, n == 1
}

var allBytes = bset{}.not()

func bsetOf(s string) bset {
	var r bset
	for i := 0; i < len(s); i++ {
		r.add(int(s[i]))
	}
	return r
}
func bsetRange(lo, hi int) bset {
	var r bset
	for i := lo; i <= hi; i++ {
		r.add(i)
	}
	return r
}
func (s bset) String() string {
	var sb strings.Builder
	sb.WriteByte('{')
	for i := 0; i < 256; i++ {
		if !s.has(i) {
			continue
		}
		j := i
		for j < 255 && s.has(j+1) {
			j++
		}
		if i == j {
			fmt.Fprintf(&sb, "%q ", byte(i))
		} else {
			fmt.Fprintf(&sb, "%q-%q ", byte(i), byte(j))
		}
		i = j
	}
	return strings.TrimRight(sb.String(), " ") + "}"
}

// vstr renders a value for reports.
func vstr(v V) string {
	switch x := v.(type) {
	case nil:
		return "_"
	case *Term:
		return x.String()
	case Int:
		var sb strings.Builder
		for i, t := range x.ts {
			if t.k == 1 {
				if i > 0 {
					sb.WriteString("+")
				}
			} else if t.k == -1 {
				sb.WriteString("-")
			} else {
				fmt.Fprintf(&sb, "%+d*", t.k)
			}
			sb.WriteString(t.t.String())
		}
		if len(x.ts) == 0 {
			return strconv.FormatInt(x.c, 10)
		}
		if x.c != 0 {
			fmt.Fprintf(&sb, "%+d", x.c)
		}
		return sb.String()
	case *VSlice:
		if x.base.op == "str" && x.lo.isConst() && x.hi.isConst() {
			return strconv.Quote(x.base.aux[x.lo.c:x.hi.c])
		}
		return fmt.Sprintf("%s[%s:%s]", x.base, vstr(x.lo), vstr(x.hi))
	case *VOut:
		return fmt.Sprintf("out#%d", x.n.id)
	case *VStruct:
		var a []string
		for _, f := range x.f {
			a = append(a, vstr(f))
		}
		return "{" + strings.Join(a, ",") + "}"
	case *VTuple:
		var a []string
		for _, f := range x.e {
			a = append(a, vstr(f))
		}
		return "(" + strings.Join(a, ",") + ")"
	case *VFunc:
		return x.fn.Name()
	case *VIface:
		return tstr(x.t) + "(" + vstr(x.v) + ")"
	case *VAddr:
		s := "&"
		if x.o != nil {
			s += x.o.name
		} else {
			s += x.root.String()
		}
		for _, e := range x.path {
			if e.ix != nil {
				s += "[" + vstr(e.ix) + "]"
			} else {
				s += "." + fieldName(e.st, e.idx)
			}
		}
		return s
	case *CNot:
		return "!" + vstr(x.c)
	case *CInt:
		if x.eq {
			return vstr(x.d) + "==0"
		}
		return vstr(x.d) + "<=0"
	case *CByte:
		return fmt.Sprintf("%s@%s in %s", x.base, vstr(x.pos), x.set)
	case nodeRef:
		return fmt.Sprintf("node%d", x.n.id)
	case objRef:
		return x.o.name
	}
	return vkey(v)
}

func fieldName(t types.Type, i int) string {
	if st, ok := t.Underlying().(*types.Struct); ok && i < st.NumFields() {
		return st.Field(i).Name()
	}
	return strconv.Itoa(i)
}

func (s bset) members() []byte {
	var r []byte
	for i := 0; i < 256; i++ {
		if s.has(i) {
			r = append(r, byte(i))
		}
	}
	return r
}
