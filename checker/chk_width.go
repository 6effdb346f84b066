package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Widths: the code that is selected for a kind of types reads and writes
// values of that kind.

func init() {
	kinds := []string{"the construction of codecs is interpreted for a type of each kind, where everything else about the type is unknown"}
	register(&Check{id: "C17", level: "other", run: runC17,
		rule:  "The construction of codecs is interpreted abstractly for a symbolic type of each kind. Every load and store that the selected encode or decode function makes through the address of the value has a Go type with the layout of that kind (for the types that are compared by identity: that type), and the element sizes it passes on are those of the type of the codec it passes on.",
		assum: kinds})
	register(&Check{id: "C38", level: "other", run: runC38,
		rule:  "The selection of the emptiness test is interpreted abstractly for a symbolic type of each kind, and each selected test for a symbolic value: it reads with the layout of the kind, and returns true exactly on the paths where the value is zero or has the length zero.",
		assum: kinds})
}

type access struct {
	store bool
	t     types.Type
	ins   ssa.Instruction
	depth int
}

// accesses lists the direct accesses of fn through the address v.
func (w *widths) accesses(s *State, vf *VFunc, idx int, seen map[string]bool, depth int, out *[]access) {
	fn := vf.fn
	if fn == nil || fn.Blocks == nil || idx >= len(fn.Params) || !w.c.p.mine(fn) && fn.Synthetic == "" {
		return
	}
	key := deepKey(s, vf) + fmt.Sprint(idx)
	if seen[key] {
		return
	}
	seen[key] = true
	w.c.addFn(fn)
	der := map[ssa.Value]bool{fn.Params[idx]: true}
	cells := map[ssa.Value]bool{}
	add := func(v ssa.Value) bool {
		if der[v] {
			return false
		}
		der[v] = true
		return true
	}
	for ch := true; ch; {
		ch = false
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Convert:
					if der[x.X] {
						ch = add(x) || ch
					}
				case *ssa.ChangeType:
					if der[x.X] {
						ch = add(x) || ch
					}
				case *ssa.Phi:
					for _, v := range x.Edges {
						if der[v] {
							ch = add(x) || ch
						}
					}
				case *ssa.BinOp:
					if k, ok := x.Y.(*ssa.Const); ok && der[x.X] && x.Op == token.XOR && k.Value != nil && constant.Sign(k.Value) == 0 {
						ch = add(x) || ch
					}
				case *ssa.Store:
					// a variable that holds the address
					if a, ok := x.Addr.(*ssa.Alloc); ok && der[x.Val] {
						if !cells[a] {
							cells[a] = true
							ch = true
						}
					}
				case *ssa.UnOp:
					if x.Op == token.MUL && cells[x.X] {
						ch = add(x) || ch
					}
				case *ssa.Call:
					if f := x.Call.StaticCallee(); f != nil && w.c.p.mine(f) && f.Blocks != nil {
						for i, a := range x.Call.Args {
							if der[a] && passes(f, i) {
								ch = add(x) || ch
							}
						}
					}
				}
			}
		}
	}
	base := func(v ssa.Value) (types.Type, bool) {
		for {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				v = x.X
				continue
			case *ssa.IndexAddr:
				if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
					v = x.X
					continue
				}
			}
			break
		}
		if !der[v] {
			return nil, false
		}
		pt, ok := v.Type().Underlying().(*types.Pointer)
		if !ok {
			return nil, false
		}
		return pt.Elem(), true
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if t, ok := base(x.X); ok {
						*out = append(*out, access{false, t, x, depth})
					}
				}
			case *ssa.Store:
				if t, ok := base(x.Addr); ok {
					*out = append(*out, access{true, t, x, depth})
				}
			case ssa.CallInstruction:
				com := x.Common()
				for i, a := range com.Args {
					if !der[a] {
						continue
					}
					if f := com.StaticCallee(); f != nil {
						w.accesses(s, &VFunc{fn: f}, i, seen, depth+1, out)
						continue
					}
					if g := w.resolve(s, vf, com.Value); g != nil {
						w.accesses(s, g, i, seen, depth, out)
					}
				}
			}
		}
	}
}

// resolve follows a captured function value.
func (w *widths) resolve(s *State, vf *VFunc, v ssa.Value) *VFunc {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		v = u.X
	}
	if fv, ok := v.(*ssa.FreeVar); ok {
		for i, q := range vf.fn.FreeVars {
			if q == fv && i < len(vf.bind) {
				g, _ := inCell(s, vf.bind[i]).(*VFunc)
				return g
			}
		}
	}
	if f, ok := v.(*ssa.Function); ok {
		return &VFunc{fn: f}
	}
	return nil
}

// passes reports whether a function returns its parameter, as another type.
func passes(f *ssa.Function, i int) bool {
	if i >= len(f.Params) || f.Signature.Results().Len() != 1 {
		return false
	}
	var from func(v ssa.Value, n int) bool
	from = func(v ssa.Value, n int) bool {
		if v == f.Params[i] {
			return true
		}
		if n == 0 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Convert:
			return from(x.X, n-1)
		case *ssa.ChangeType:
			return from(x.X, n-1)
		case *ssa.BinOp:
			k, ok := x.Y.(*ssa.Const)
			return ok && x.Op == token.XOR && k.Value != nil && constant.Sign(k.Value) == 0 && from(x.X, n-1)
		}
		return false
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if r, ok := ins.(*ssa.Return); ok && from(r.Results[0], 6) {
				return true
			}
		}
	}
	return false
}

// layoutOf reports whether a value of type t has the layout of a kind.
func layoutOf(p *Prog, t types.Type, kind int64, exact bool) bool {
	words := func(n int) bool {
		st, ok := t.Underlying().(*types.Struct)
		if !ok || st.NumFields() > n {
			return false
		}
		var fs []*types.Var
		for i := 0; i < st.NumFields(); i++ {
			fs = append(fs, st.Field(i))
		}
		off := p.sizes.Offsetsof(fs)
		for i, f := range fs {
			k := kindOf(f.Type())
			if off[i] != int64(i)*p.sizes.Sizeof(types.Typ[types.Uintptr]) {
				return false
			}
			ptr := k == 22 || k == 26 || k == 12
			num := k == 2 || k == 7 || k == 12
			if n == 2 && kind == 20 {
				num = ptr
			}
			if i == 0 && !ptr || i > 0 && !num {
				return false
			}
		}
		return true
	}
	k := kindOf(t)
	isPtr := k == 26 || k == 22
	switch kind {
	case 17, 25:
		return false
	case 18, 19, 21:
		return k == kind || isPtr
	case 22, 26:
		return isPtr
	case 20:
		return k == kind || words(2)
	case 23:
		return k == kind || words(3)
	case 24:
		return k == kind || words(2)
	}
	if k == kind {
		return true
	}
	if !exact && kind >= 2 && kind <= 12 && k >= 2 && k <= 12 {
		return p.sizes.Sizeof(t) == sizeOfKind(p, kind)
	}
	return false
}

func sizeOfKind(p *Prog, k int64) int64 {
	for _, b := range types.Typ {
		if b.Info()&types.IsUntyped == 0 && kindOf(b) == k {
			return p.sizes.Sizeof(b)
		}
	}
	return -1
}

type widths struct {
	c  *Ctx
	cs *codecSet
}

// reflectKindT is the type of reflect.Kind.
func (w *widths) kindTerm(t *Term) *Term {
	ms := types.NewMethodSet(t.typ)
	for i := 0; i < ms.Len(); i++ {
		if m := ms.At(i).Obj(); m.Name() == "Kind" {
			return mk("rt.Kind", "0", m.Type().(*types.Signature).Results().At(0).Type(), t)
		}
	}
	return nil
}

// knownType is the type a symbolic type was found to be.
func knownType(s *State, t V) types.Type {
	x, ok := t.(*Term)
	if !ok {
		return nil
	}
	if k, ok := s.eqs[x].(*Term); ok {
		x = k
	}
	if x.op == "rtype" {
		return rtypes[x.aux]
	}
	return nil
}

// isType reports whether a symbolic type is known to have the layout of T.
func (w *widths) isType(s *State, t V, T types.Type) bool {
	if k := knownType(s, t); k != nil {
		return types.Identical(k.Underlying(), T.Underlying())
	}
	x, ok := t.(*Term)
	if !ok {
		return false
	}
	k := kindOf(T)
	if b, ok := T.Underlying().(*types.Basic); !ok || b.Kind() == types.UnsafePointer {
		return false
	}
	kt := w.kindTerm(x)
	return kt != nil && s.decEQ(it(kt).addc(-k)) == 1
}

func runC17(c *Ctx) {
	cs := findCodecs(c)
	if cs == nil {
		return
	}
	w := &widths{c, cs}
	n := 0
	for kind := int64(1); kind < int64(len(kindNames)); kind++ {
		n += w.kind(kind)
	}
	c.need(n >= 40, "accesses", fmt.Sprintf("only %d accesses were found", n))
	w.constSizes()
}

func (w *widths) kind(kind int64) int {
	c, cs := w.c, w.cs
	n := 0
	e := newEngine(c.p)
	e.max = 200000
	s := newState()
	var a []V
	var t *Term
	for _, q := range cs.build.Params {
		x := freshSym(q.Name(), q.Type())
		if isReflectType(q.Type()) && t == nil {
			x = mk("sym", "type", q.Type())
			t = x
		}
		a = append(a, e.wrap(x))
	}
	if t == nil || w.kindTerm(t) == nil {
		c.need(false, "type of a codec", "the construction of codecs is not given a type")
		return 0
	}
	s.wfacts()[mk("isnil", "", boolT, t)] = false
	s.assumeEQ(it(w.kindTerm(t)).addc(-kind))
	e.contract = func(e *Engine, s *State, ci ssa.CallInstruction, fnv V, sig *types.Signature, args []V, rec *ssa.Function) ([]outcome, bool) {
		if rec != nil && sig.Results().Len() == 1 && codecStruct(sig.Results().At(0).Type(), cs.encT, cs.decT) {
			return []outcome{{s, symCodec(sig.Results().At(0).Type(), args[0])}}, true
		}
		return nil, false
	}
	e.callHook = func(e *Engine, s *State, fn *ssa.Function, args []V) []outcome {
		if cs.cuts[fn] {
			res := fn.Signature.Results()
			var r []V
			for i := 0; i < res.Len(); i++ {
				x := freshSym(fn.Name(), res.At(i).Type())
				s.wfacts()[mk("isnil", "", boolT, x)] = false
				r = append(r, e.wrap(x))
			}
			return []outcome{{s, pack(r)}}
		}
		return nil
	}
	e.start(s, cs.build, a, nil)
	e.run()
	c.addEngine(e)
	name := "kind " + kindNames[kind]
	if e.fail != "" {
		c.fail("engine", "construction of codecs for "+name, e.fail)
		return 0
	}
	found := false
	for _, x := range e.exits {
		if x.panic {
			continue
		}
		T := knownType(x.s, t)
		if T != nil && kindOf(T) != kind {
			continue
		}
		for _, r := range x.res {
			v, ok := r.(*VStruct)
			if !ok {
				continue
			}
			for _, f := range v.f {
				if vf, ok := f.(*VFunc); ok {
					found = true
					n += w.check(x.s, vf, t, T, kind, name)
				}
			}
		}
	}
	c.need(found, "codec of "+name, "the construction gives no functions for "+name)
	return n
}

func (w *widths) check(s *State, vf *VFunc, t *Term, T types.Type, kind int64, name string) int {
	c := w.c
	n := 0
	var acc []access
	sig := vf.fn.Signature
	for i, q := range vf.fn.Params {
		if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			w.accesses(s, vf, i, map[string]bool{}, 0, &acc)
		}
	}
	_ = sig
	for _, a := range acc {
		n++
		verb := "reads"
		if a.store {
			verb = "writes"
		}
		good := false
		if T != nil {
			good = types.Identical(T.Underlying(), a.t.Underlying()) || layoutOf(c.p, a.t, kind, true)
		} else {
			good = layoutOf(c.p, a.t, kind, true)
		}
		why := ""
		if mt, ok := a.t.Underlying().(*types.Map); ok && good && T == nil {
			el, key := mk("rt.Elem", "0", t.typ, t), mk("rt.Key", "0", t.typ, t)
			if !w.isType(s, el, mt.Elem()) || !w.isType(s, key, mt.Key()) {
				good, why = false, ", but the types of the keys and elements may be others"
			}
		}
		if st, ok := a.t.Underlying().(*types.Slice); ok && good && T == nil && a.depth <= 1 && !w.isType(s, mk("rt.Elem", "0", t.typ, t), st.Elem()) {
			// deeper functions may test the type of the elements first
			good, why = false, ", but the type of the elements may be another"
		}
		what := name
		if T != nil {
			what = "type " + tstrShort(T)
		}
		c.ob("width", fmt.Sprintf("%s of %s %s the value at %s", shortFn(vf.fn.String()), what, verb, c.p.pos(a.ins.Pos())), good,
			fmt.Sprintf("it %s a %s%s (in %s)", verb, tstrShort(a.t), why, a.ins.Parent().Name()))
	}
	// sizes and codecs that are passed on belong to the same type
	var visit func(vf *VFunc)
	visit = func(vf *VFunc) {
		var sizes, elems []V
		for _, b := range vf.bind {
			switch x := inCell(s, b).(type) {
			case *VFunc:
				visit(x)
			case *Term:
				if x.op == "codec" {
					elems = append(elems, x.args[0])
				}
			case Int:
				for _, l := range x.ts {
					if l.t.op == "rt.Size" {
						good := len(x.ts) == 1 && l.k == 1 && x.c == 0
						c.ob("size", "size in "+shortFn(vf.fn.String())+" of "+name, good, "it is "+vstr(x))
						sizes = append(sizes, l.t.args[0])
					}
				}
			}
		}
		for _, z := range sizes {
			for _, x := range elems {
				c.ob("size", "size and codec of the elements in "+shortFn(vf.fn.String())+" of "+name, vkey(z) == vkey(x), "the size is that of "+vstr(z)+", the codec that of "+vstr(x))
			}
		}
	}
	visit(vf)
	return n
}

// constSizes checks the calls that pass on a constant size and a codec.
func (w *widths) constSizes() {
	c := w.c
	var fns []*ssa.Function
	for f := range reachable(c.p, c.p.fn("Append"), c.p.fn("Parse")) {
		if c.p.inMain(f) {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() == nil || !c.p.mine(ci.Common().StaticCallee()) {
					continue
				}
				var size *ssa.Const
				var el *ssa.Function
				for _, a := range ci.Common().Args {
					if k, ok := a.(*ssa.Const); ok && k.Value != nil {
						if b, ok := k.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
							size = k
						}
					}
					if g, ok := a.(*ssa.Function); ok && (types.Identical(g.Signature, w.cs.encT) || types.Identical(g.Signature, w.cs.decT)) {
						el = g
					}
				}
				if size == nil || el == nil {
					continue
				}
				var acc []access
				for i, q := range el.Params {
					if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
						w.accesses(newState(), &VFunc{fn: el}, i, map[string]bool{}, 0, &acc)
					}
				}
				for _, a := range acc {
					z := c.p.sizes.Sizeof(a.t)
					c.ob("size", fmt.Sprintf("size of the elements of %s at %s", shortFn(el.String()), c.p.pos(ci.Pos())), z == size.Int64(),
						fmt.Sprintf("the size passed on is %d, a %s has %d bytes", size.Int64(), tstrShort(a.t), z))
				}
			}
		}
	}
}

// ---- emptiness

func runC38(c *Ctx) {
	app := c.p.fn("Append")
	if !c.need(app != nil, "func Append", "the exported function Append does not exist") {
		return
	}
	isTest := func(t types.Type) bool {
		sig, ok := t.Underlying().(*types.Signature)
		if !ok || sig.Params().Len() != 1 || sig.Results().Len() != 1 {
			return false
		}
		b, ok := sig.Params().At(0).Type().Underlying().(*types.Basic)
		r, ok2 := sig.Results().At(0).Type().Underlying().(*types.Basic)
		return ok && ok2 && b.Kind() == types.UnsafePointer && r.Kind() == types.Bool
	}
	cand := map[*ssa.Function]bool{}
	fns := reachable(c.p, app)
	for f := range fns {
		if c.p.inMain(f) && len(f.Params) == 1 && isReflectType(f.Params[0].Type()) && f.Signature.Results().Len() == 1 && isTest(f.Signature.Results().At(0).Type()) {
			cand[f] = true
		}
	}
	used := map[*ssa.Function]bool{}
	for f := range fns {
		if cand[f] {
			continue
		}
		for _, g := range calleesOf(c.p, f) {
			used[g] = true
		}
	}
	w := &widths{c: c}
	n := 0
	for f := range cand {
		if !used[f] {
			continue
		}
		n++
		for kind := int64(1); kind < int64(len(kindNames)); kind++ {
			w.empty(f, kind)
		}
	}
	c.need(n > 0, "emptiness tests", "no function selects the test for empty values from a type")
}

func (w *widths) empty(fn *ssa.Function, kind int64) {
	c := w.c
	e := newEngine(c.p)
	s := newState()
	t := mk("sym", "type", fn.Params[0].Type())
	s.wfacts()[mk("isnil", "", boolT, t)] = false
	s.assumeEQ(it(w.kindTerm(t)).addc(-kind))
	e.start(s, fn, []V{t}, nil)
	e.run()
	c.addEngine(e)
	c.addFn(fn)
	name := "kind " + kindNames[kind]
	if e.fail != "" {
		c.fail("engine", "emptiness test of "+name, e.fail)
		return
	}
	for _, x := range e.exits {
		T := knownType(x.s, t)
		if x.panic || T != nil && kindOf(T) != kind {
			continue
		}
		vf, ok := x.res[0].(*VFunc)
		if !ok {
			c.fail("empty", "test of "+name, "the test is not known: "+vstr(x.res[0]))
			continue
		}
		var acc []access
		w.accesses(x.s, vf, 0, map[string]bool{}, 0, &acc)
		for _, a := range acc {
			c.ob("width", fmt.Sprintf("test of %s reads the value at %s", name, c.p.pos(a.ins.Pos())), layoutOf(c.p, a.t, kind, false), "it reads a "+tstrShort(a.t))
		}
		w.test(x.s, vf, t, kind, name)
	}
}

// test explores an emptiness test for a symbolic value.
func (w *widths) test(s0 *State, vf *VFunc, t *Term, kind int64, name string) {
	c := w.c
	e := newEngine(c.p)
	var val V
	var vt types.Type
	word := -1
	e.override = map[string]modelFn{"(reflect.Value).Len": func(e *Engine, s *State, ci ssa.CallInstruction, fn *ssa.Function, a []V) []outcome {
		if !reaches(a[0], func(t *Term) bool { return t.op == "sym" && t.aux == "value" }) {
			return nil
		}
		n := it(freshSym("len", intT))
		s.assumeLE(n.neg())
		val = n
		return []outcome{{s, n}}
	}}
	e.onLoad = func(e *Engine, s *State, ins ssa.Instruction, addr V, t types.Type, v V) {
		if root := rootOf(addr); root != nil && root.op == "sym" && root.aux == "value" {
			val, vt, word = v, t, -1
			if a, ok := addr.(*VAddr); ok && len(a.path) == 1 && a.path[0].ix == nil {
				word = a.path[0].idx
			}
		}
	}
	s := s0.fork()
	s.frames = nil
	s.ghost = map[string]V{}
	p := mk("sym", "value", types.Typ[types.UnsafePointer])
	s.wfacts()[mk("isnil", "", boolT, p)] = false
	e.start(s, vf.fn, []V{p}, vf.bind)
	e.run()
	c.addEngine(e)
	what := "test of " + name
	if e.fail != "" {
		c.fail("engine", what, e.fail)
		return
	}
	n := 0
	for _, x := range e.exits {
		if x.panic {
			c.fail("empty", what, "it panics")
			continue
		}
		for _, want := range []bool{true, false} {
			for _, s := range e.assume(x.s.fork(), x.res[0], want) {
				n++
				d := w.zero(e, s, val, vt, t, kind)
				if word >= 0 && word != map[int64]int{23: 1, 24: 1}[kind] {
					d = -1 // not the word that tells
				}
				good := want && d == 1 || !want && d == 0
				if os := map[bool]string{true: "empty", false: "not empty"}; true {
					c.ob("empty", what+": a value is "+os[want], good, fmt.Sprintf("%s says %s, but the value need not be: %s", shortFn(vf.fn.String()), os[want], vstr(val)))
				}
			}
		}
	}
	c.need(n > 0, what, "it never returns")
}

func rootOf(v V) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *VAddr:
		if x.o == nil {
			return x.root
		}
	}
	return nil
}

// zero decides whether a value is empty: 1 yes, 0 no, -1 unknown.
func (w *widths) zero(e *Engine, s *State, val V, vt types.Type, t *Term, kind int64) int {
	switch kind {
	case 17: // array
		return s.decEQ(it(mk("rt.Len", "0", intT, t)))
	case 15, 16, 18, 19, 25, 26:
		return 0 // never empty
	}
	if val == nil {
		return -1
	}
	switch kind {
	case 21, 23, 24:
		if i, ok := val.(Int); ok {
			return s.decEQ(i)
		}
		return s.decEQ(e.length(s, val))
	case 20, 22:
		switch e.nilness(s, val) {
		case 0:
			return 1
		case 1:
			return 0
		}
		return -1
	case 1:
		switch x := val.(type) {
		case VBool:
			return map[bool]int{true: 0, false: 1}[bool(x)]
		case *Term:
			if b, ok := s.facts[x]; ok {
				return map[bool]int{true: 0, false: 1}[b]
			}
		}
		return -1
	}
	if i, ok := toInt(val); ok && kind != 13 && kind != 14 {
		return s.decEQ(i)
	}
	isZero := func(v V) bool {
		if k, ok := v.(*VConst); ok && k.v != nil {
			return constant.Sign(k.v) == 0
		}
		i, ok := toInt(v)
		return ok && i.isConst() && i.c == 0
	}
	if x, ok := val.(*Term); ok {
		if k, ok := s.eqs[x]; ok && isZero(k) {
			return 1
		}
	}
	for f, b := range s.facts {
		if (f.op == "eq" || f.op == "feq") && len(f.args) == 2 && (vkey(f.args[0]) == vkey(val) && isZero(f.args[1]) || vkey(f.args[1]) == vkey(val) && isZero(f.args[0])) {
			return map[bool]int{true: 1, false: 0}[b]
		}
	}
	return -1
}
