package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Shared state: which memory can several goroutines reach, and who writes it.

func init() {
	register(&Check{id: "C15", level: "other", run: runC15,
		rule:  "Memory is shared if it can be reached from a package-level variable, from the result of an atomic load, or from what the functions of a codec capture. The values that refer to it are followed through variables, fields, elements, calls, results and closures. Outside of package initialisation no instruction stores to shared memory, updates or clears a shared map, appends to or sorts a shared slice, or passes it on to be decoded into, except through sync and sync/atomic or under a mutex; what is accessed atomically or under a mutex once is never accessed without; and nothing that was published by an atomic store is changed by the publishing function afterwards.",
		assum: []string{"values passed by the caller (indenters, colours, destinations, the values that are encoded or decoded into) are not shared between calls", "methods of the user are not part of it"}})
}

type raceMark uint8

const (
	mShared raceMark = 1 // refers to shared memory
	mHolds  raceMark = 2 // refers to local memory in which references to shared memory are stored
)

type raceCheck struct {
	c      *Ctx
	fns    []*ssa.Function
	live   map[*ssa.Function]bool // run outside of package initialisation
	param  map[ssa.Value]raceMark // parameters and free variables
	ret    map[*ssa.Function]map[int]raceMark
	marks  map[*ssa.Function]map[ssa.Value]raceMark
	codecs int
	pubs   map[*ssa.Function]map[int]bool // publish a parameter
	change bool
	enc    map[types.Type]bool
}

func runC15(c *Ctx) {
	w := &raceCheck{c: c, live: map[*ssa.Function]bool{}, param: map[ssa.Value]raceMark{}, ret: map[*ssa.Function]map[int]raceMark{},
		marks: map[*ssa.Function]map[ssa.Value]raceMark{}, pubs: map[*ssa.Function]map[int]bool{}}
	all := allFuncs(c.p)
	for f := range all {
		if len(f.Blocks) > 0 && f.Pkg != nil && f.Pkg.Pkg.Name() == "main" {
			continue
		}
		if len(f.Blocks) > 0 {
			w.fns = append(w.fns, f)
		}
	}
	sort.Slice(w.fns, func(i, j int) bool { return w.fns[i].String() < w.fns[j].String() })
	// the functions that can run after initialisation
	var roots []*ssa.Function
	for _, f := range w.fns {
		if f.Parent() == nil && (token.IsExported(f.Name()) || f.Signature.Recv() != nil) {
			roots = append(roots, f)
		}
	}
	for _, q := range c.p.all {
		for _, m := range q.Members {
			// functions that are the values of package-level variables
			if g, ok := m.(*ssa.Global); ok {
				if in := q.Func("init"); in != nil {
					roots = append(roots, storedFuncs(in, g)...)
				}
			}
		}
	}
	w.live = reachable(c.p, roots...)
	for f := range w.live {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			delete(w.live, f)
		}
	}
	// what the functions of codecs capture
	sigs := funcSigs(c.p)
	for _, f := range w.fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				mc, ok := ins.(*ssa.MakeClosure)
				if !ok {
					continue
				}
				fn := mc.Fn.(*ssa.Function)
				if f.Name() == "init" || !sigIn(sigs, fn.Signature) {
					continue
				}
				w.codecs++
				for i, fv := range fn.FreeVars {
					if refsMem(fv.Type()) {
						_ = i
						w.param[fv] |= mShared
					}
				}
			}
		}
	}
	w.change = true
	for round := 0; round < 30 && w.change; round++ {
		w.change = false
		for _, f := range w.fns {
			w.flow(f)
		}
	}
	c.need(!w.change, "sharing", "the propagation of shared memory did not end")
	c.need(w.codecs >= 3, "codecs", "the functions that codecs capture were not found")
	for i := 0; i < 4; i++ {
		for _, f := range w.fns {
			w.publishes(f)
		}
	}
	n := 0
	for _, f := range w.fns {
		if !w.live[f] {
			continue
		}
		c.addFn(f)
		n++
		w.writes(f)
		w.published(f)
	}
	w.mixed()
	c.need(n >= 50, "functions", "functions were not found")
}

// storedFuncs lists the functions that an initialiser stores in a variable.
func storedFuncs(in *ssa.Function, g *ssa.Global) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range in.Blocks {
		for _, ins := range b.Instrs {
			st, ok := ins.(*ssa.Store)
			if !ok || addrRoot(st.Addr) != ssa.Value(g) {
				continue
			}
			switch x := st.Val.(type) {
			case *ssa.Function:
				out = append(out, x)
			case *ssa.MakeClosure:
				out = append(out, x.Fn.(*ssa.Function))
			}
		}
	}
	return out
}

// funcSigs lists the signatures of the named function types and of the fields
// of function type in the library.
func funcSigs(p *Prog) []*types.Signature {
	var out []*types.Signature
	for _, m := range p.main.Members {
		t, ok := m.(*ssa.Type)
		if !ok {
			continue
		}
		switch u := t.Type().Underlying().(type) {
		case *types.Signature:
			out = append(out, u)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if s, ok := u.Field(i).Type().Underlying().(*types.Signature); ok {
					out = append(out, s)
				}
			}
		}
	}
	return out
}

func sigIn(l []*types.Signature, s *types.Signature) bool {
	for _, x := range l {
		if types.Identical(types.NewSignatureType(nil, nil, nil, x.Params(), x.Results(), x.Variadic()), types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())) {
			return true
		}
	}
	return false
}

// refsMem reports whether values of a type refer to memory that can be written.
func refsMem(t types.Type) bool { return refsMemN(t, 0) }

func refsMemN(t types.Type, n int) bool {
	if n > 4 {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer:
		return true
	case *types.Interface:
		return u.NumMethods() == 0
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Array:
		return refsMemN(u.Elem(), n+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refsMemN(u.Field(i).Type(), n+1) {
				return true
			}
		}
	}
	return false
}

// addrRoot is the value that an address is computed from.
func addrRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return v
			}
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

func syncPkg(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	s := f.String()
	return strings.HasPrefix(s, "sync/atomic.") || strings.HasPrefix(s, "(*sync/atomic.") || strings.HasPrefix(s, "(*sync.")
}

// atomicLoad reports whether a call reads shared memory atomically.
func atomicLoad(f *ssa.Function) bool {
	if !syncPkg(f) {
		return false
	}
	n := f.Name()
	if i := strings.IndexByte(n, '['); i > 0 {
		n = n[:i]
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if strings.HasPrefix(f.String(), "(*sync.Pool)") {
		return false
	}
	return strings.HasPrefix(n, "Load") || strings.HasPrefix(n, "Swap")
}

func atomicStore(f *ssa.Function) bool {
	if !syncPkg(f) {
		return false
	}
	n := f.Name()
	if o := f.Origin(); o != nil {
		f = o
		n = f.Name()
	}
	if strings.HasPrefix(f.String(), "(*sync.Pool)") {
		return false
	}
	return strings.HasPrefix(n, "Store") || strings.HasPrefix(n, "Swap") || strings.HasPrefix(n, "CompareAndSwap") || n == "LoadOrStore"
}

func (w *raceCheck) flow(f *ssa.Function) {
	m := w.marks[f]
	if m == nil {
		m = map[ssa.Value]raceMark{}
		w.marks[f] = m
	}
	get := func(v ssa.Value) raceMark {
		switch x := v.(type) {
		case *ssa.Global:
			if w.c.p.mineGlobal(x) {
				return mShared
			}
			return 0
		case *ssa.Parameter, *ssa.FreeVar:
			return w.param[v]
		}
		return m[v]
	}
	set := func(v ssa.Value, k raceMark) {
		if k != 0 && m[v]|k != m[v] && refsMem(v.Type()) {
			m[v] |= k
			w.change = true
		}
	}
	setParam := func(v ssa.Value, k raceMark) {
		if k != 0 && w.param[v]|k != w.param[v] && refsMem(v.Type()) {
			w.param[v] |= k
			w.change = true
		}
	}
	hold := func(addr ssa.Value) {
		switch r := addrRoot(addr).(type) {
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
			if m[r]&mHolds == 0 {
				m[r] |= mHolds
				w.change = true
			}
		}
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Phi:
				for _, y := range x.Edges {
					set(x, get(y))
				}
			case *ssa.ChangeType:
				set(x, get(x.X))
			case *ssa.Convert:
				set(x, get(x.X))
			case *ssa.MakeInterface:
				set(x, get(x.X))
			case *ssa.ChangeInterface:
				set(x, get(x.X))
			case *ssa.TypeAssert:
				if k := get(x.X); k != 0 {
					m[x] |= k
				}
			case *ssa.Slice:
				set(x, get(x.X))
			case *ssa.FieldAddr:
				set(x, get(x.X))
			case *ssa.IndexAddr:
				set(x, get(x.X))
			case *ssa.Field:
				set(x, get(x.X)&mShared)
			case *ssa.Index:
				set(x, get(x.X)&mShared)
			case *ssa.UnOp:
				if x.Op == token.MUL && get(x.X) != 0 {
					set(x, mShared)
				}
			case *ssa.Lookup:
				if k := get(x.X); k != 0 {
					if x.CommaOk {
						m[x] |= mShared
					} else {
						set(x, mShared)
					}
				}
			case *ssa.Range:
				if get(x.X) != 0 {
					m[x] |= mShared
				}
			case *ssa.Next:
				if m[x.Iter] != 0 {
					m[x] |= mShared
				}
			case *ssa.Extract:
				if m[x.Tuple] != 0 {
					if call, ok := x.Tuple.(*ssa.Call); ok {
						if g := call.Call.StaticCallee(); g != nil && w.ret[g] != nil {
							set(x, w.ret[g][x.Index])
							continue
						}
					}
					set(x, m[x.Tuple])
				}
			case *ssa.Store:
				if get(x.Val)&mShared != 0 {
					hold(x.Addr)
				}
			case *ssa.MapUpdate:
				if get(x.Value)&mShared != 0 {
					hold(x.Map)
				}
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				for i, y := range x.Bindings {
					setParam(fn.FreeVars[i], get(y))
				}
			case *ssa.Return:
				for i, y := range x.Results {
					if k := get(y) & mShared; k != 0 && refsMem(y.Type()) {
						if w.ret[f] == nil {
							w.ret[f] = map[int]raceMark{}
						}
						if w.ret[f][i]|k != w.ret[f][i] {
							w.ret[f][i] |= k
							w.change = true
						}
					}
				}
			case ssa.CallInstruction:
				cc := x.Common()
				if cc.IsInvoke() {
					continue
				}
				val, _ := x.(ssa.Value)
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					if bi.Name() == "append" && val != nil {
						set(val, get(cc.Args[0]))
						if sl, ok := val.Type().Underlying().(*types.Slice); ok && len(cc.Args) == 2 && refsMem(sl.Elem()) && get(cc.Args[1]) != 0 {
							set(val, mHolds)
						}
					}
					continue
				}
				g := cc.StaticCallee()
				if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
					g = mc.Fn.(*ssa.Function)
				}
				if atomicLoad(g) && len(cc.Args) > 0 && get(cc.Args[0])&mShared != 0 && val != nil {
					if m[val]&mShared == 0 {
						m[val] |= mShared
						w.change = true
					}
					continue
				}
				if g == nil || syncPkg(g) || g.Blocks == nil || !w.c.p.mine(g) {
					continue
				}
				for i, y := range cc.Args {
					if i < len(g.Params) {
						setParam(g.Params[i], get(y))
					}
				}
				if val != nil && w.ret[g] != nil {
					if _, ok := val.Type().(*types.Tuple); ok {
						m[val] |= mShared
					} else {
						set(val, w.ret[g][0])
					}
				}
			}
		}
	}
}

func (w *raceCheck) mark(f *ssa.Function, v ssa.Value) raceMark {
	switch x := v.(type) {
	case *ssa.Global:
		if w.c.p.mineGlobal(x) {
			return mShared
		}
		return 0
	case *ssa.Parameter, *ssa.FreeVar:
		return w.param[v]
	}
	return w.marks[f][v]
}

// guarded reports whether a mutex is held at an instruction.
func guarded(ins ssa.Instruction) bool {
	f := ins.Parent()
	held := false
	type ev struct {
		ins  ssa.Instruction
		lock bool
	}
	var evs []ev
	for _, b := range f.Blocks {
		for _, x := range b.Instrs {
			c, ok := x.(*ssa.Call)
			if !ok {
				continue
			}
			switch g := c.Call.StaticCallee(); {
			case g == nil:
			case g.String() == "(*sync.Mutex).Lock", g.String() == "(*sync.RWMutex).Lock", g.String() == "(*sync.RWMutex).RLock":
				evs = append(evs, ev{x, true})
			case g.String() == "(*sync.Mutex).Unlock", g.String() == "(*sync.RWMutex).Unlock", g.String() == "(*sync.RWMutex).RUnlock":
				evs = append(evs, ev{x, false})
			}
		}
	}
	dom := func(a, b ssa.Instruction) bool {
		if a.Block() == b.Block() {
			for _, x := range a.Block().Instrs {
				if x == a {
					return true
				}
				if x == b {
					return false
				}
			}
		}
		return a.Block().Dominates(b.Block())
	}
	for _, l := range evs {
		if !l.lock || !dom(l.ins, ins) {
			continue
		}
		ok := true
		for _, u := range evs {
			if !u.lock && dom(l.ins, u.ins) && dom(u.ins, ins) {
				ok = false
			}
		}
		held = held || ok
	}
	return held
}

// inOnce reports whether a function only runs under sync.Once or is part of a
// value that sync.OnceFunc returns.
func inOnce(f *ssa.Function) bool {
	p := f.Parent()
	if p == nil {
		return false
	}
	n := 0
	for _, b := range p.Blocks {
		for _, ins := range b.Instrs {
			var v ssa.Value
			if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == f {
				v = mc
			}
			if v == nil {
				if c, ok := ins.(*ssa.Call); ok && onceCall(c) {
					for _, a := range c.Call.Args {
						if a == ssa.Value(f) {
							n++
						}
					}
				}
				continue
			}
			for _, r := range *v.Referrers() {
				c, ok := r.(*ssa.Call)
				if !ok || !onceCall(c) {
					return false
				}
				n++
			}
		}
	}
	return n > 0
}

func onceCall(c *ssa.Call) bool {
	g := c.Call.StaticCallee()
	if g == nil {
		return false
	}
	s := genericName(g)
	return s == "(*sync.Once).Do" || strings.HasPrefix(s, "sync.OnceFunc") || strings.HasPrefix(s, "sync.OnceValue")
}

// mutators of other packages, and the argument that they write to.
func writesArg(g *ssa.Function) (int, bool) {
	if g == nil {
		return 0, false
	}
	s := genericName(g)
	switch {
	case strings.HasPrefix(s, "sort.") && !strings.Contains(s, "Search") && !strings.Contains(s, "AreSorted") && !strings.Contains(s, "IsSorted"),
		strings.HasPrefix(s, "slices.Sort"), s == "slices.Reverse", s == "maps.Copy", s == "maps.DeleteFunc", s == "slices.Delete", s == "slices.Compact",
		strings.HasPrefix(s, "strconv.Append"), strings.HasPrefix(s, "unicode/utf8.Append"), s == "utf8.EncodeRune", s == "unicode/utf8.EncodeRune":
		return 0, true
	case strings.HasPrefix(s, "(reflect.Value).Set"), s == "(reflect.Value).Clear":
		return 0, true
	case s == "reflect.Copy":
		return 0, true
	}
	return 0, false
}

// writesCallee reports whether functions of a type write to what their
// pointer argument refers to.
func writesCallee(sig *types.Signature) bool {
	if sig.Results().Len() == 1 {
		return false
	}
	if sig.Params().Len() > 0 {
		if st, ok := sig.Params().At(0).Type().Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				// encoders have colours and an indenter
				if _, ok := st.Field(i).Type().Underlying().(*types.Pointer); ok {
					return false
				}
			}
			return true
		}
	}
	return false
}

// writes checks that a function does not write to shared memory.
func (w *raceCheck) writes(f *ssa.Function) {
	c := w.c
	once := inOnce(f)
	shared := func(v ssa.Value) bool { return w.mark(f, v)&mShared != 0 }
	rep := func(ins ssa.Instruction, ok bool, what, bad string) {
		if !ok && (once || guarded(ins)) {
			return
		}
		c.ob("write", fmt.Sprintf("%s in %s at %s", what, shortFn(f.String()), c.p.pos(ins.Pos())), ok, bad)
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				rep(x, !shared(x.Addr) && !w.sharedBase(f, x.Addr), "store", "it writes to memory that other goroutines can reach")
			case *ssa.MapUpdate:
				rep(x, !shared(x.Map), "update of a map", "other goroutines can read the map")
			case ssa.CallInstruction:
				cc := x.Common()
				if cc.IsInvoke() {
					continue
				}
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append":
						rep(x, !shared(cc.Args[0]) || capped(cc.Args[0], nil), "append", "it writes behind the end of a slice that other goroutines can reach")
					case "delete", "clear", "copy":
						rep(x, !shared(cc.Args[0]), bi.Name(), "it changes memory that other goroutines can reach")
					}
					continue
				}
				g := cc.StaticCallee()
				if g != nil {
					if i, ok := writesArg(g); ok && i < len(cc.Args) && !w.c.p.mine(g) {
						rep(x, !shared(cc.Args[i]), "call of "+genericName(g), "it changes memory that other goroutines can reach")
					}
					continue
				}
				sig, ok := cc.Value.Type().Underlying().(*types.Signature)
				if !ok || !writesCallee(sig) {
					continue
				}
				for i, a := range cc.Args {
					if bt, ok := a.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.UnsafePointer {
						rep(x, !shared(a), fmt.Sprintf("argument %d of a call", i+1), "a value is decoded into memory that other goroutines can reach")
					}
				}
			}
		}
	}
}

// sharedBase reports whether an address lies in a package-level variable.
func (w *raceCheck) sharedBase(f *ssa.Function, a ssa.Value) bool {
	g, ok := addrRoot(a).(*ssa.Global)
	return ok && w.c.p.mineGlobal(g)
}

// memKey names a piece of shared memory: a variable, or a field of a type.
func raceKey(a ssa.Value) string {
	switch x := addrRoot(a).(type) {
	case *ssa.Global:
		return x.String()
	}
	if fa, ok := a.(*ssa.FieldAddr); ok {
		pt, ok := fa.X.Type().Underlying().(*types.Pointer)
		if ok {
			return fmt.Sprintf("field %d of %s", fa.Field, pt.Elem())
		}
	}
	return ""
}

// mixed checks that memory is not accessed both atomically, or under a mutex,
// and without.
func (w *raceCheck) mixed() {
	c := w.c
	at, lock := map[string]string{}, map[string]string{}
	type acc struct {
		ins ssa.Instruction
		f   *ssa.Function
		key string
		wr  bool
	}
	var plain []acc
	for _, f := range w.fns {
		if !w.live[f] {
			continue
		}
		once := inOnce(f)
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case ssa.CallInstruction:
					g := x.Common().StaticCallee()
					if syncPkg(g) && strings.HasPrefix(genericName(g), "sync/atomic.") && len(x.Common().Args) > 0 {
						a := x.Common().Args[0]
						if k := raceKey(a); k != "" && w.mark(f, a)&mShared != 0 {
							at[k] = c.p.pos(x.Pos())
						}
					}
				case *ssa.Store:
					if k := raceKey(x.Addr); k != "" && w.mark(f, x.Addr)&mShared != 0 && !once {
						plain = append(plain, acc{x, f, k, true})
						if guarded(x) {
							lock[k] = c.p.pos(x.Pos())
						}
					}
				case *ssa.MapUpdate:
					if l, ok := x.Map.(*ssa.UnOp); ok && w.mark(f, l)&mShared != 0 {
						if k := raceKey(l.X); k != "" && guarded(x) {
							lock[k] = c.p.pos(x.Pos())
						}
					}
				case *ssa.UnOp:
					if x.Op != token.MUL {
						continue
					}
					if k := raceKey(x.X); k != "" && (w.mark(f, x.X)&mShared != 0 || w.sharedBase(f, x.X)) {
						plain = append(plain, acc{x, f, k, false})
					}
				}
			}
		}
	}
	for _, a := range plain {
		site := fmt.Sprintf("access to %s in %s at %s", shortFn(a.key), shortFn(a.f.String()), c.p.pos(a.ins.Pos()))
		if p, ok := at[a.key]; ok {
			c.ob("mixed", site, false, "it is accessed atomically at "+p+" and here it is not")
			continue
		}
		if p, ok := lock[a.key]; ok {
			c.ob("mixed", site, guarded(a.ins), "it is written under a mutex at "+p+" and no mutex is held here")
		}
	}
	for k, p := range at {
		c.ob("mixed", "all accesses to "+shortFn(k)+", accessed atomically at "+p, true, "")
	}
}

// aliases lists the values of a function that share memory with a value.
func aliases(f *ssa.Function, roots ...ssa.Value) map[ssa.Value]bool {
	a := map[ssa.Value]bool{}
	for _, r := range roots {
		a[r] = true
	}
	for ch := true; ch; {
		ch = false
		join := func(x, y ssa.Value) {
			if _, ok := x.(*ssa.Const); ok {
				return
			}
			if _, ok := y.(*ssa.Const); ok {
				return
			}
			if a[x] != a[y] {
				a[x], a[y] = true, true
				ch = true
			}
		}
		down := func(x, y ssa.Value) { // y is a part of x
			if a[x] && !a[y] && (refsMem(y.Type()) || isFunc(y.Type())) {
				if _, ok := y.(*ssa.Const); !ok {
					a[y] = true
					ch = true
				}
			}
		}
		tuple := func(x, y ssa.Value) {
			if a[x] && !a[y] {
				a[y] = true
				ch = true
			}
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Phi:
					for _, y := range x.Edges {
						join(x, y)
					}
				case *ssa.ChangeType:
					join(x, x.X)
				case *ssa.Convert:
					join(x, x.X)
				case *ssa.MakeInterface:
					join(x, x.X)
				case *ssa.Slice:
					join(x, x.X)
				case *ssa.TypeAssert:
					join(x, x.X)
				case *ssa.Extract:
					if _, ok := x.Tuple.(*ssa.Call); ok {
						if refsMem(x.Type()) || isFunc(x.Type()) {
							join(x, x.Tuple)
						}
					} else {
						down(x.Tuple, x)
					}
				case *ssa.Lookup:
					if x.CommaOk {
						tuple(x.X, x)
					} else {
						down(x.X, x)
					}
				case *ssa.Range:
					tuple(x.X, x)
				case *ssa.Next:
					tuple(x.Iter, x)
				case *ssa.FieldAddr:
					join(x, x.X)
				case *ssa.IndexAddr:
					join(x, x.X)
				case *ssa.UnOp:
					if x.Op == token.MUL && (refsMem(x.Type()) || isFunc(x.Type())) {
						join(x, x.X)
					}
				case *ssa.Store:
					if refsMem(x.Val.Type()) || isFunc(x.Val.Type()) {
						join(x.Val, x.Addr)
					}
				case *ssa.MapUpdate:
					down(x.Map, x.Value)
				case *ssa.MakeClosure:
					for _, y := range x.Bindings {
						down(x, y)
					}
				case *ssa.Call:
					// what the results of a call are made of
					if _, ok := x.Call.Value.(*ssa.Builtin); ok {
						if len(x.Call.Args) > 0 && x.Call.Value.Name() == "append" {
							join(x, x.Call.Args[0])
						}
						continue
					}
					for _, y := range x.Call.Args {
						switch y.Type().Underlying().(type) {
						case *types.Pointer, *types.Map:
							down(x, y)
						}
						if isFunc(y.Type()) {
							down(x, y)
						}
					}
				}
			}
		}
	}
	return a
}

func isFunc(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if isFunc(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// pubAt lists the values that an instruction publishes.
func (w *raceCheck) pubAt(f *ssa.Function, ins ssa.Instruction) []ssa.Value {
	x, ok := ins.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	cc := x.Common()
	g := cc.StaticCallee()
	if g == nil {
		return nil
	}
	if atomicStore(g) && len(cc.Args) > 1 && w.mark(f, cc.Args[0])&mShared != 0 {
		return cc.Args[1:]
	}
	var out []ssa.Value
	for i := range w.pubs[g] {
		if i < len(cc.Args) {
			out = append(out, cc.Args[i])
		}
	}
	return out
}

// publishes finds the parameters that a function publishes.
func (w *raceCheck) publishes(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			vs := w.pubAt(f, ins)
			if len(vs) == 0 {
				continue
			}
			a := aliases(f, vs...)
			for i, q := range f.Params {
				cell := false
				for _, r := range *q.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Val == ssa.Value(q) && a[st.Addr] {
						cell = true
					}
				}
				if (a[q] || cell) && (refsMem(q.Type()) || isFunc(q.Type())) {
					if w.pubs[f] == nil {
						w.pubs[f] = map[int]bool{}
					}
					w.pubs[f][i] = true
				}
			}
		}
	}
}

// published checks that what a function publishes is not changed afterwards.
func (w *raceCheck) published(f *ssa.Function) {
	c := w.c
	for _, b := range f.Blocks {
		for i, ins := range b.Instrs {
			vs := w.pubAt(f, ins)
			if len(vs) == 0 {
				continue
			}
			a := aliases(f, vs...)
			bad := ""
			note := func(ins ssa.Instruction, s string) {
				if bad == "" {
					bad = s + " at " + c.p.pos(ins.Pos()) + " after it was published"
				}
			}
			check := func(x ssa.Instruction) {
				switch x := x.(type) {
				case *ssa.Store:
					al, local := x.Addr.(*ssa.Alloc)
					if a[x.Addr] && !(local && !al.Heap) && !varCell(x.Addr) {
						note(x, "it is written to")
					}
				case *ssa.MapUpdate:
					if a[x.Map] {
						note(x, "it is updated")
					}
				case ssa.CallInstruction:
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") && a[x.Common().Args[0]] {
						note(x, "it is changed")
					}
				}
			}
			seen := map[*ssa.BasicBlock]bool{}
			var scan func(b *ssa.BasicBlock, i int)
			scan = func(b *ssa.BasicBlock, i int) {
				for ; i < len(b.Instrs); i++ {
					// a new round of a loop, with a new map
					switch x := b.Instrs[i].(type) {
					case *ssa.MakeMap:
						if a[x] {
							return
						}
					case *ssa.Alloc:
						if a[x] {
							return
						}
					}
					check(b.Instrs[i])
				}
				for _, s := range b.Succs {
					if !seen[s] {
						seen[s] = true
						scan(s, 0)
					}
				}
			}
			scan(b, i+1)
			// deferred functions run after it
			for _, b2 := range f.Blocks {
				for _, x := range b2.Instrs {
					d, ok := x.(*ssa.Defer)
					if !ok {
						continue
					}
					if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok {
						fn := mc.Fn.(*ssa.Function)
						var in []ssa.Value
						for k, y := range mc.Bindings {
							if a[y] {
								in = append(in, fn.FreeVars[k])
							}
						}
						if len(in) == 0 {
							continue
						}
						old := a
						a = aliases(fn, in...)
						for _, b3 := range fn.Blocks {
							for _, y := range b3.Instrs {
								check(y)
							}
						}
						a = old
					}
				}
			}
			c.ob("publish", fmt.Sprintf("value published in %s at %s", shortFn(f.String()), c.p.pos(ins.Pos())), bad == "", bad)
		}
	}
}

// varCell reports whether an address is that of a variable of the function
// that holds the published value, and not of its memory.
func varCell(v ssa.Value) bool {
	a, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	switch a.Type().Underlying().(*types.Pointer).Elem().Underlying().(type) {
	case *types.Map, *types.Pointer, *types.Slice, *types.Interface, *types.Basic:
		return true
	}
	return false
}
