package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the type-checked program in SSA form.
type Prog struct {
	effect map[*ssa.Function]*effectSum
	dir    string
	env    string
	pkgs   []*packages.Package
	prog   *ssa.Program
	main   *ssa.Package // the library
	mainP  *packages.Package
	all    []*ssa.Package
	fset   *token.FileSet
	fns    []*ssa.Function
	sizes  types.Sizes
	globs  map[*ssa.Global]*Obj
	globOf map[*Obj]*ssa.Global
	mut    map[*ssa.Global]bool
	inits  map[*Obj]V
	modul  string
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// load type-checks every package of the module and builds SSA for it.
func load(env ...string) (*Prog, error) {
	dir := repoDir()
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Dir:  dir,
		Fset: fset,
		Mode: packages.LoadSyntax | packages.NeedModule | packages.NeedDeps | packages.NeedTypesSizes,
		Env:  append(append(os.Environ(), "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "CGO_ENABLED=0"), env...),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Prog{dir: dir, env: strings.Join(env, " "), fset: fset, globs: map[*ssa.Global]*Obj{}, globOf: map[*Obj]*ssa.Global{}, mut: map[*ssa.Global]bool{}}
	for _, q := range pkgs {
		for _, e := range q.Errors {
			return nil, fmt.Errorf("%s: %v", q.PkgPath, e)
		}
		if q.Module != nil {
			p.modul = q.Module.Path
		}
	}
	if len(pkgs) == 0 || p.modul == "" {
		return nil, fmt.Errorf("no packages below %s", dir)
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	for i, q := range sp {
		if q == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
	}
	prog.Build()
	p.pkgs, p.prog, p.all = pkgs, prog, sp
	for i, q := range pkgs {
		if q.PkgPath == p.modul {
			p.main, p.mainP = sp[i], q
		}
	}
	if p.main == nil {
		return nil, fmt.Errorf("package %s not found", p.modul)
	}
	p.sizes = p.mainP.TypesSizes
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks != nil && p.mine(fn) {
			p.fns = append(p.fns, fn)
		}
	}
	// functions that nothing refers to are still part of the program
	have := map[*ssa.Function]bool{}
	for _, fn := range p.fns {
		have[fn] = true
	}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil || have[fn] || fn.Blocks == nil {
			return
		}
		have[fn] = true
		p.fns = append(p.fns, fn)
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	for _, q := range sp {
		for _, m := range q.Members {
			switch x := m.(type) {
			case *ssa.Function:
				if x.TypeParams().Len() == 0 {
					add(x)
				}
			case *ssa.Type:
				n, ok := x.Type().(*types.Named)
				if !ok || n.TypeParams().Len() > 0 {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					add(prog.FuncValue(n.Method(i)))
				}
			}
		}
	}
	sort.Slice(p.fns, func(i, j int) bool {
		a, b := p.fns[i], p.fns[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	p.findMutable()
	return p, nil
}

func (p *Prog) pkgOf(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Object(); o != nil {
		return o.Pkg()
	}
	return nil
}

// mine reports whether fn belongs to the module under test.
func (p *Prog) mine(fn *ssa.Function) bool {
	q := p.pkgOf(fn)
	return q != nil && (q.Path() == p.modul || strings.HasPrefix(q.Path(), p.modul+"/"))
}

func (p *Prog) inMain(fn *ssa.Function) bool {
	q := p.pkgOf(fn)
	return q != nil && q.Path() == p.modul
}

func (p *Prog) pos(x token.Pos) string {
	if x == token.NoPos {
		return "?"
	}
	q := p.fset.Position(x)
	f := q.Filename
	if r, err := filepath.Rel(p.dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// fnPos is the position of a function.
func (p *Prog) fnPos(fn *ssa.Function) string {
	x := fn.Pos()
	if x == token.NoPos && fn.Parent() != nil {
		x = fn.Parent().Pos()
	}
	return p.pos(x)
}

// exported function or method of the library by name ("Append",
// "(*Encoder).Encode").
func (p *Prog) fn(name string) *ssa.Function {
	if strings.HasPrefix(name, "(") {
		i := strings.Index(name, ").")
		recv, m := name[1:i], name[i+2:]
		ptr := strings.HasPrefix(recv, "*")
		t := p.main.Type(strings.TrimPrefix(recv, "*"))
		if t == nil {
			return nil
		}
		var rt types.Type = t.Type()
		if ptr {
			rt = types.NewPointer(rt)
		}
		sel := types.NewMethodSet(rt).Lookup(p.main.Pkg, m)
		if sel == nil {
			return nil
		}
		return p.prog.MethodValue(sel)
	}
	return p.main.Func(name)
}

func (p *Prog) named(name string) types.Type {
	if t := p.main.Type(name); t != nil {
		return t.Type()
	}
	return nil
}

// findMutable marks the globals that are written after initialisation or
// whose address is used for more than loading.
func (p *Prog) findMutable() {
	var readonly func(v ssa.Value, d int) bool
	readonly = func(v ssa.Value, d int) bool {
		if d > 6 || v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.UnOp:
			case *ssa.FieldAddr:
				if !readonly(x, d+1) {
					return false
				}
			case *ssa.IndexAddr:
				if !readonly(x, d+1) {
					return false
				}
			case *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	for _, fn := range p.fns {
		init := fn.Synthetic == "package initializer"
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := ins.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
						continue
					case *ssa.Store:
						if init && x.Addr == g {
							continue
						}
					case *ssa.FieldAddr:
						if init || readonly(x, 0) {
							continue
						}
					case *ssa.IndexAddr:
						if init || readonly(x, 0) {
							continue
						}
					}
					p.mut[g] = true
				}
			}
		}
	}
}

func (p *Prog) global(g *ssa.Global) *Obj {
	if o, ok := p.globs[g]; ok {
		return o
	}
	o := newObj(g.Name(), deref(g.Type()))
	o.perm = true
	p.globs[g] = o
	p.globOf[o] = g
	return o
}

// initial is the value of a global before the exploration starts.
func (p *Prog) initial(e *Engine, s *State, o *Obj) V {
	g := p.globOf[o]
	if g == nil {
		return sym("unknown:"+o.name, o.t)
	}
	name := g.Pkg.Pkg.Path() + "." + g.Name()
	if !p.mineGlobal(g) || p.mut[g] {
		if types.Identical(o.t, errT) {
			return mk("global", name, o.t)
		}
		return e.wrap(sym("global:"+name, o.t))
	}
	if p.inits == nil {
		p.runInits()
	}
	if v, ok := p.inits[o]; ok {
		return v
	}
	return e.wrap(sym("global:"+name, o.t))
}

func (p *Prog) mineGlobal(g *ssa.Global) bool {
	for _, q := range p.all {
		if g.Pkg == q {
			return true
		}
	}
	return false
}

// runInits evaluates the package initialisers abstractly.
func (p *Prog) runInits() {
	p.inits = map[*Obj]V{}
	for _, q := range p.all {
		fn := q.Func("init")
		if fn == nil {
			continue
		}
		e := newEngine(p)
		e.noContract = true
		s := newState()
		for _, m := range q.Members {
			if g, ok := m.(*ssa.Global); ok {
				s.heap[p.global(g)] = zeroV(deref(g.Type()))
			}
		}
		e.start(s, fn, nil, nil)
		e.run()
		if e.fail != "" || len(e.exits) != 1 || e.exits[0].panic {
			continue
		}
		for _, m := range q.Members {
			if g, ok := m.(*ssa.Global); ok {
				o := p.global(g)
				p.inits[o] = e.exits[0].s.heap[o]
			}
		}
		// objects that are reachable from globals stay valid
		for o, v := range e.exits[0].s.heap {
			if !o.perm {
				o.perm = true
				p.inits[o] = v
			}
		}
	}
}

func (p *Prog) typeOfV(v V, def types.Type) types.Type {
	switch x := v.(type) {
	case *Term:
		return x.typ
	case *VStruct:
		return x.t
	case *VSlice:
		if x.str == isString(def) {
			return def
		}
		if x.str {
			return types.Typ[types.String]
		}
		return types.NewSlice(x.et)
	case *VConst:
		return x.t
	case *VOut:
		return types.NewSlice(types.Typ[types.Uint8])
	}
	return def
}

func (p *Prog) method(t types.Type, m *types.Func) *ssa.Function {
	sel := p.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

// ---- reflect types

var rtypes = map[string]types.Type{}
var reflectTypeT types.Type = types.Universe.Lookup("any").Type()

func rtypeOf(t types.Type) *Term {
	k := tstr(t)
	if _, ok := rtypes[k]; !ok {
		rtypes[k] = t
	}
	return mk("rtype", k, reflectTypeT)
}

var kindNames = []string{"invalid", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "float32", "float64", "complex64", "complex128", "array", "chan", "func", "interface", "map", "ptr", "slice", "string", "struct", "unsafe.Pointer"}

func kindOf(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int, types.Int8, types.Int16, types.Int32, types.Int64:
			return int64(u.Kind()-types.Int) + 2
		case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
			return int64(u.Kind()-types.Uint) + 7
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func (p *Prog) rtypeMethod(rt *Term, name string, args []V) V {
	t := rtypes[rt.aux]
	if t == nil {
		return nil
	}
	switch name {
	case "Kind":
		return ic(kindOf(t))
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return rtypeOf(u.Elem())
		case *types.Slice:
			return rtypeOf(u.Elem())
		case *types.Array:
			return rtypeOf(u.Elem())
		case *types.Map:
			return rtypeOf(u.Elem())
		case *types.Chan:
			return rtypeOf(u.Elem())
		}
	case "Key":
		if u, ok := t.Underlying().(*types.Map); ok {
			return rtypeOf(u.Key())
		}
	case "Len":
		if u, ok := t.Underlying().(*types.Array); ok {
			return ic(u.Len())
		}
	case "Name":
		switch u := t.(type) {
		case *types.Named:
			return strV(u.Obj().Name())
		case *types.Basic:
			return strV(u.Name())
		}
		return strV("")
	case "Size":
		return ic(p.sizes.Sizeof(t))
	case "Align":
		return ic(p.sizes.Alignof(t))
	case "NumField":
		if u, ok := t.Underlying().(*types.Struct); ok {
			return ic(int64(u.NumFields()))
		}
	case "Implements":
		if a, ok := args[0].(*Term); ok && a.op == "rtype" {
			if it, ok := rtypes[a.aux].Underlying().(*types.Interface); ok {
				return VBool(types.Implements(t, it))
			}
		}
	case "String":
		return strV(tstrShort(t))
	}
	return nil
}

var _ = constant.MakeInt64

// constInt returns the value of an integer constant of the main package.
func (p *Prog) constInt(name string) (int64, bool) {
	c, ok := p.main.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(constant.ToInt(c.Val()))
}
