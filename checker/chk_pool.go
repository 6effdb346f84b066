package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Pools: a typestate of the objects taken from a sync.Pool.

func init() {
	register(&Check{id: "C14", level: "other", run: runC14,
		rule:  "For every call that takes an object from a pool, the values that refer to its memory are followed through the function (loads of its fields, slices, appends, results of calls it is passed to, variables). No path from a call that returns the object to the pool reaches another one, or an instruction that reads, writes, passes on or returns such a value; none is stored elsewhere; and slices of the object are cut to length zero before they are read or before the object is returned.",
		assum: []string{"functions of other packages do not keep the slices that they are passed", "functions that are passed an object do not keep it"}})
}

type poolCheck struct {
	c     *Ctx
	gets  map[*ssa.Function]bool         // return an object of a pool
	puts  map[*ssa.Function]map[int]bool // return a parameter to a pool
	fns   []*ssa.Function
	sites int
}

func poolCall(ci ssa.CallInstruction, name string) bool {
	f := ci.Common().StaticCallee()
	return f != nil && f.String() == "(*sync.Pool)."+name
}

// getAt reports whether an instruction takes an object from a pool.
func (w *poolCheck) getAt(ins ssa.Instruction) (ssa.Value, bool) {
	ci, ok := ins.(*ssa.Call)
	if !ok {
		return nil, false
	}
	if poolCall(ci, "Get") {
		return ci, true
	}
	if f := ci.Call.StaticCallee(); f != nil && w.gets[f] {
		return ci, true
	}
	return nil, false
}

// putAt lists the values that an instruction returns to a pool.
func (w *poolCheck) putAt(ins ssa.Instruction) []ssa.Value {
	ci, ok := ins.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	a := ci.Common().Args
	if poolCall(ci, "Put") && len(a) == 2 {
		return []ssa.Value{a[1]}
	}
	var out []ssa.Value
	f := ci.Common().StaticCallee()
	if f == nil {
		return nil
	}
	for i := range w.puts[f] {
		if i < len(a) {
			out = append(out, a[i])
		}
	}
	if mc, ok := ci.Common().Value.(*ssa.MakeClosure); ok {
		for i := range w.puts[f] {
			if j := i - 1000; j >= 0 && j < len(mc.Bindings) {
				out = append(out, mc.Bindings[j])
			}
		}
	}
	return out
}

func refType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Pointer, *types.Map, *types.Interface, *types.Chan:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

// derived lists the values of a function that refer to memory of v.
func (w *poolCheck) derived(fn *ssa.Function, roots ...ssa.Value) map[ssa.Value]bool {
	d := map[ssa.Value]bool{}
	elem := map[ssa.Value]bool{} // addresses of elements: what they hold is not part of the object
	for _, r := range roots {
		d[r] = true
	}
	cells := map[ssa.Value]bool{}
	for ch := true; ch; {
		ch = false
		add := func(v ssa.Value, ok bool) {
			if ok && !d[v] {
				d[v] = true
				ch = true
			}
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.TypeAssert:
					add(x, d[x.X])
				case *ssa.Extract:
					if call, ok := x.Tuple.(*ssa.Call); ok && !w.gets[call.Call.StaticCallee()] {
						add(x, d[x.Tuple] && isByteSlice(x.Type()))
						continue
					}
					add(x, d[x.Tuple] && refType(x.Type()) && !isErrorType(x.Type()))
				case *ssa.ChangeType:
					add(x, d[x.X])
				case *ssa.Convert:
					add(x, d[x.X] && refType(x.Type()) && refType(x.X.Type()))
				case *ssa.MakeInterface:
					add(x, d[x.X])
				case *ssa.ChangeInterface:
					add(x, d[x.X])
				case *ssa.FieldAddr:
					add(x, d[x.X])
					if elem[x.X] && !elem[x] {
						elem[x], ch = true, true
					}
				case *ssa.IndexAddr:
					add(x, d[x.X])
					if d[x.X] && !elem[x] {
						elem[x], ch = true, true
					}
				case *ssa.Slice:
					add(x, d[x.X])
				case *ssa.Phi:
					for _, y := range x.Edges {
						add(x, d[y])
					}
				case *ssa.UnOp:
					if x.Op == token.MUL {
						add(x, (d[x.X] && !elem[x.X] || cells[x.X]) && refType(x.Type()))
					}
				case *ssa.Store:
					if a, ok := x.Addr.(*ssa.Alloc); ok && d[x.Val] && !cells[a] {
						cells[a], ch = true, true
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
						add(x, bi.Name() == "append" && d[x.Call.Args[0]])
						continue
					}
					if poolCall(x, "Get") || poolCall(x, "Put") {
						continue
					}
					f := x.Call.StaticCallee()
					if f != nil && copies[genericName(f)] {
						continue
					}
					for i, y := range x.Call.Args {
						if !d[y] {
							continue
						}
						if f != nil && w.c.p.mine(f) && f.Blocks != nil && isByteSlice(x.Type()) {
							add(x, w.c.p.effects(f).returns[i] || recursiveFn(w.c.p, f))
							continue
						}
						switch t := x.Type().(type) {
						case *types.Tuple:
							for j := 0; j < t.Len(); j++ {
								add(x, isByteSlice(t.At(j).Type()) && isByteSlice(y.Type()))
							}
						default:
							add(x, isByteSlice(t) && isByteSlice(y.Type()))
						}
					}
				}
			}
		}
	}
	for a := range cells {
		// the variable itself is not part of the object
		delete(d, a)
	}
	return d
}

func recursiveFn(p *Prog, f *ssa.Function) bool {
	for _, g := range calleesOf(p, f) {
		if reachable(p, g)[f] {
			return true
		}
	}
	return false
}

func runC14(c *Ctx) {
	w := &poolCheck{c: c, gets: map[*ssa.Function]bool{}, puts: map[*ssa.Function]map[int]bool{}}
	for f := range allFuncs(c.p) {
		if len(f.Blocks) > 0 {
			w.fns = append(w.fns, f)
		}
	}
	sort.Slice(w.fns, func(i, j int) bool { return w.fns[i].String() < w.fns[j].String() })
	for round := 0; round < 4; round++ {
		for _, f := range w.fns {
			w.wrapper(f)
		}
	}
	for _, f := range w.fns {
		w.function(f)
	}
	c.need(w.sites >= 1, "pools", "no object is taken from a pool")
}

// allFuncs lists the functions of the packages of the repository.
func allFuncs(p *Prog) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || out[f] || !p.mine(f) {
			return
		}
		out[f] = true
		for _, g := range calleesOf(p, f) {
			add(g)
		}
	}
	for _, sp := range p.prog.AllPackages() {
		for _, m := range sp.Members {
			switch x := m.(type) {
			case *ssa.Function:
				add(x)
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := p.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f, ok := ms.At(i).Obj().(*types.Func); ok {
							add(p.prog.FuncValue(f))
						}
					}
				}
			}
		}
	}
	return out
}

// wrapper finds the functions that take or return objects for others.
func (w *poolCheck) wrapper(f *ssa.Function) {
	var got []ssa.Value
	put := map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := w.getAt(ins); ok {
				got = append(got, v)
			}
			for _, v := range w.putAt(ins) {
				put[v] = true
			}
		}
	}
	for i, q := range f.Params {
		if len(put) == 0 || !refType(q.Type()) {
			continue
		}
		d := w.derived(f, q)
		for v := range put {
			if d[v] {
				if w.puts[f] == nil {
					w.puts[f] = map[int]bool{}
				}
				w.puts[f][i] = true
			}
		}
	}
	for i, q := range f.FreeVars {
		if len(put) == 0 {
			continue
		}
		d := w.derived(f, q)
		for v := range put {
			if d[v] {
				if w.puts[f] == nil {
					w.puts[f] = map[int]bool{}
				}
				w.puts[f][1000+i] = true
			}
		}
	}
	if len(got) > 0 && len(put) == 0 {
		d := w.derived(f, got...)
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if r, ok := ins.(*ssa.Return); ok {
					for _, v := range r.Results {
						if d[v] {
							if _, ok := v.Type().Underlying().(*types.Slice); !ok || len(r.Results) == 1 {
								w.gets[f] = true
							}
						}
					}
				}
			}
		}
	}
}

func (w *poolCheck) function(f *ssa.Function) {
	c := w.c
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			v, ok := w.getAt(ins)
			if !ok {
				continue
			}
			w.sites++
			c.addFn(f)
			w.object(f, v)
		}
	}
}

func (w *poolCheck) object(f *ssa.Function, get ssa.Value) {
	c := w.c
	gi := get.(ssa.Instruction)
	d := w.derived(f, get)
	site := fmt.Sprintf("object taken in %s at %s", shortFn(f.String()), c.p.pos(gi.Pos()))
	cellOf := map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if st, ok := ins.(*ssa.Store); ok && d[st.Val] {
				if a, ok := st.Addr.(*ssa.Alloc); ok {
					cellOf[a] = true
				}
			}
		}
	}
	type loc struct {
		b *ssa.BasicBlock
		i int
	}
	var puts []loc
	deferred := false
	for _, b := range f.Blocks {
		for i, ins := range b.Instrs {
			for _, v := range w.putAt(ins) {
				if !d[v] && !cellOf[v] {
					continue
				}
				if _, ok := ins.(*ssa.Defer); ok {
					deferred = true
				} else {
					puts = append(puts, loc{b, i})
				}
			}
		}
	}
	at := func(ins ssa.Instruction) string {
		for _, b := range []token.Pos{ins.Pos()} {
			if b.IsValid() {
				return c.p.pos(b)
			}
		}
		return "the end of " + f.Name()
	}
	// uses after the object was returned
	for _, p := range puts {
		put := p.b.Instrs[p.i]
		what := site + ", returned at " + at(put)
		bad := ""
		seen := map[*ssa.BasicBlock]bool{}
		var scan func(b *ssa.BasicBlock, i int)
		scan = func(b *ssa.BasicBlock, i int) {
			for ; i < len(b.Instrs); i++ {
				ins := b.Instrs[i]
				if v, ok := ins.(ssa.Value); ok && v == get {
					return
				}
				for _, v := range w.putAt(ins) {
					if d[v] {
						bad = "it is returned again at " + at(ins)
					}
				}
				if u := w.use(ins, d); u != "" && bad == "" {
					bad = u + " at " + at(ins) + " after that"
				}
			}
			for _, s := range b.Succs {
				if !seen[s] {
					seen[s] = true
					scan(s, 0)
				}
			}
		}
		scan(p.b, p.i+1)
		if deferred {
			bad = "it is also returned when the function ends"
		}
		c.ob("after", what, bad == "", bad)
	}
	// values that leave the function
	esc := ""
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if !d[x.Val] || d[x.Addr] || cellOf[x.Addr] {
					continue
				}
				if _, ok := x.Addr.(*ssa.Alloc); !ok && !localAddr(x.Addr) && (len(puts) > 0 || deferred) {
					esc = "a part of it is stored elsewhere at " + at(x)
				}
			case *ssa.MapUpdate:
				if d[x.Value] && (len(puts) > 0 || deferred) {
					esc = "a part of it is stored in a map at " + at(x)
				}
			case *ssa.Return:
				if deferred {
					for _, v := range x.Results {
						if d[v] {
							esc = "a part of it is returned to the caller, and it is returned to the pool then"
						}
					}
				}
			}
		}
	}
	c.ob("escape", site, esc == "", esc)
	w.reset(f, get, d, site)
}

// localAddr reports whether an address is a part of a local variable.
func localAddr(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Alloc:
			return !x.Heap
		default:
			return false
		}
	}
}

// use reports whether an instruction touches memory of the object.
func (w *poolCheck) use(ins ssa.Instruction, d map[ssa.Value]bool) string {
	switch x := ins.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL && d[x.X] {
			return "it is read"
		}
	case *ssa.Store:
		if d[x.Addr] {
			return "it is written to"
		}
		if d[x.Val] {
			if _, ok := x.Addr.(*ssa.Alloc); !ok {
				return "a part of it is stored"
			}
		}
	case *ssa.Return:
		for _, v := range x.Results {
			if d[v] {
				return "a part of it is returned to the caller"
			}
		}
	case *ssa.Range:
		if d[x.X] {
			return "it is read"
		}
	case *ssa.Convert:
		if d[x.X] && !refType(x.Type()) {
			return "it is read"
		}
	case *ssa.Send:
		if d[x.X] {
			return "it is sent"
		}
	case *ssa.MakeClosure:
		for _, v := range x.Bindings {
			if d[v] {
				return "it is captured"
			}
		}
	case ssa.CallInstruction:
		if b, ok := x.Common().Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return ""
		}
		for _, v := range x.Common().Args {
			if d[v] && !poolCall(x, "Put") {
				return "it is passed on"
			}
		}
		if x.Common().IsInvoke() && d[x.Common().Value] {
			return "it is used"
		}
	}
	return ""
}

// reset checks that slices of the object are emptied between two uses.
func (w *poolCheck) reset(f *ssa.Function, get ssa.Value, d map[ssa.Value]bool, site string) {
	c := w.c
	zeroCut := func(v ssa.Value) bool {
		x, ok := v.(*ssa.Slice)
		if !ok {
			if k, ok := v.(*ssa.Const); ok && k.IsNil() {
				return true
			}
			return false
		}
		k, ok := x.High.(*ssa.Const)
		return ok && k.Value != nil && k.Int64() == 0
	}
	// loads and stores of the fields that are slices
	loads := map[int][]*ssa.UnOp{}
	stores := map[int][]*ssa.Store{}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			fa, ok := ins.(*ssa.FieldAddr)
			if !ok || !d[fa.X] {
				continue
			}
			ft := fa.Type().Underlying().(*types.Pointer).Elem()
			if _, ok := ft.Underlying().(*types.Slice); !ok || fa.X.Type() != objType(get, d, fa.X) {
				continue
			}
			for _, r := range *fa.Referrers() {
				switch x := r.(type) {
				case *ssa.UnOp:
					loads[fa.Field] = append(loads[fa.Field], x)
				case *ssa.Store:
					if x.Addr == fa {
						stores[fa.Field] = append(stores[fa.Field], x)
					}
				}
			}
		}
	}
	gb := get.(ssa.Instruction).Block()
	for i, ls := range loads {
		// emptied where the object is returned?
		clean, n := true, 0
		for _, b := range f.Blocks {
			for j, ins := range b.Instrs {
				for _, v := range w.putAt(ins) {
					if a, ok := v.(*ssa.Alloc); !d[v] && !(ok && holds(a, d)) {
						continue
					}
					n++
					if cf := ins.(ssa.CallInstruction).Common().StaticCallee(); cf != nil && w.puts[cf] != nil && w.resetsParam(cf, i, zeroCut) {
						continue
					}
					clean = clean && lastStoreCut(b, j, stores[i], zeroCut, map[*ssa.BasicBlock]bool{})
				}
			}
		}
		if clean && n > 0 {
			c.ob("reset", fmt.Sprintf("%s: field %d is emptied before it is returned", site, i), true, "")
			continue
		}
		for _, l := range ls {
			// only what was stored since, or a slice of length zero
			stored := storedOnAllPaths(l, gb, get.(ssa.Instruction), stores[i])
			good := stored
			if !stored {
				good = true
				for _, r := range *l.Referrers() {
					switch x := r.(type) {
					case *ssa.Slice:
						good = good && zeroCut(x)
					case *ssa.Call:
						b, ok := x.Call.Value.(*ssa.Builtin)
						good = good && ok && (b.Name() == "cap" || b.Name() == "len")
					case *ssa.DebugRef:
					default:
						good = false
					}
				}
			}
			c.ob("reset", fmt.Sprintf("%s: field %d read at %s", site, i, c.p.pos(l.Pos())), good, "it may hold data of an earlier use: it is neither cut to length zero here, nor always before the object is returned to the pool")
		}
	}
}

// objType is the type of the values that are the object itself.
func objType(get ssa.Value, d map[ssa.Value]bool, v ssa.Value) types.Type {
	for {
		switch x := v.(type) {
		case *ssa.TypeAssert:
			return x.Type()
		case *ssa.Phi:
			return x.Type()
		case *ssa.Extract:
			return x.Type()
		case *ssa.Call:
			return x.Type()
		case *ssa.UnOp:
			return x.Type()
		}
		return nil
	}
}

// resetsParam reports whether a function that returns its parameter to a pool
// empties the field before.
func (w *poolCheck) resetsParam(f *ssa.Function, field int, cut func(ssa.Value) bool) bool {
	for i := range w.puts[f] {
		var st []*ssa.Store
		var refs []ssa.Instruction
		switch {
		case i < len(f.Params):
			refs = *f.Params[i].Referrers()
		case i >= 1000 && i-1000 < len(f.FreeVars):
			for _, r := range *f.FreeVars[i-1000].Referrers() {
				if l, ok := r.(*ssa.UnOp); ok && l.Op == token.MUL {
					refs = append(refs, *l.Referrers()...)
				}
			}
			refs = append(refs, *f.FreeVars[i-1000].Referrers()...)
		}
		for _, r := range refs {
			if fa, ok := r.(*ssa.FieldAddr); ok && fa.Field == field {
				for _, r2 := range *fa.Referrers() {
					if s, ok := r2.(*ssa.Store); ok && s.Addr == fa {
						st = append(st, s)
					}
				}
			}
		}
		for _, b := range f.Blocks {
			for j, ins := range b.Instrs {
				if len(w.putAt(ins)) > 0 && !lastStoreCut(b, j, st, cut, map[*ssa.BasicBlock]bool{}) {
					return false
				}
			}
		}
	}
	return true
}

// lastStoreCut reports whether on every path to an instruction the last store
// is one of an empty slice.
func lastStoreCut(b *ssa.BasicBlock, i int, st []*ssa.Store, cut func(ssa.Value) bool, seen map[*ssa.BasicBlock]bool) bool {
	for j := i - 1; j >= 0; j-- {
		for _, s := range st {
			if b.Instrs[j] == ssa.Instruction(s) {
				return cut(s.Val)
			}
		}
	}
	if seen[b] {
		return true
	}
	seen[b] = true
	if len(b.Preds) == 0 {
		return false
	}
	for _, q := range b.Preds {
		if !lastStoreCut(q, len(q.Instrs), st, cut, seen) {
			return false
		}
	}
	return true
}

// storedOnAllPaths reports whether every path from the get to the load stores
// the field.
func storedOnAllPaths(l *ssa.UnOp, gb *ssa.BasicBlock, get ssa.Instruction, st []*ssa.Store) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock, i int) bool
	back = func(b *ssa.BasicBlock, i int) bool {
		for j := i - 1; j >= 0; j-- {
			for _, s := range st {
				if b.Instrs[j] == ssa.Instruction(s) {
					return true
				}
			}
			if b.Instrs[j] == get {
				return false
			}
		}
		if seen[b] {
			return true
		}
		seen[b] = true
		if len(b.Preds) == 0 {
			return false
		}
		for _, q := range b.Preds {
			if !back(q, len(q.Instrs)) {
				return false
			}
		}
		return true
	}
	for j, x := range l.Block().Instrs {
		if x == ssa.Instruction(l) {
			return back(l.Block(), j)
		}
	}
	return false
}

func isErrorType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// copies names functions of the standard library whose results share no
// memory with their arguments.
var copies = map[string]bool{
	"bytes.Clone": true, "slices.Clone": true, "bytes.Join": true, "slices.Concat": true, "bytes.Repeat": true,
	"slices.Repeat": true, "bytes.ReplaceAll": true, "bytes.Replace": true,
}

// genericName is the name of a function without its type arguments.
func genericName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.String()
}

// holds reports whether one of the values is stored in a variable.
func holds(a *ssa.Alloc, d map[ssa.Value]bool) bool {
	for _, r := range *a.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == a && d[st.Val] {
			return true
		}
	}
	return false
}
