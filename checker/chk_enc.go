package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// encCfg is one configuration of an encoding.
type encCfg struct {
	clrs   string // nil, all, fallback, some, zero
	indent string // nil, off, on
	depth  int64
	html   bool
}

func (c encCfg) String() string {
	return fmt.Sprintf("colours %s, indentation %s, level %d", c.clrs, c.indent, c.depth)
}

// encAPI holds the exported anchors of the encoder.
type encAPI struct {
	app             *ssa.Function
	colorsT, indT   types.Type // struct types
	flagsT          types.Type
	html, sort, raw int64
	ind             map[string]*VStruct
	prefix, indent  *Term
	strs            map[string]*strSum
	cuts            map[*ssa.Function]bool
	psums           map[*ssa.Function]*summary
	keys            map[string]keyName
}

func findEncAPI(c *Ctx) *encAPI {
	a := &encAPI{app: c.p.fn("Append"), colorsT: c.p.named("Colors"), indT: c.p.named("Indenter"), flagsT: c.p.named("AppendFlags")}
	if !c.need(a.app != nil && a.colorsT != nil && a.indT != nil && a.flagsT != nil, "exported encoder API", "Append, Colors, Indenter or AppendFlags is missing") {
		return nil
	}
	if !c.need(a.app.Signature.Params().Len() == 5, "signature of Append", "Append does not have five parameters") {
		return nil
	}
	var ok bool
	if a.html, ok = c.p.constInt("EscapeHTML"); !ok {
		c.fail("anchor", "EscapeHTML", "no such constant")
	}
	a.sort, _ = c.p.constInt("SortMapKeys")
	a.raw, _ = c.p.constInt("TrustRawMessage")
	if !a.findIndenters(c) {
		return nil
	}
	return a
}

type encRun struct {
	api       *encAPI
	cfg       encCfg
	e         *Engine
	clrsO     *Obj
	indO      *Obj
	flags     *Term
	b         V
	calls     map[string]bool
	exits     []Exit
	start0    *Node
	cs        *codecSet
	cf        *codecFn
	clrs      V
	indentr   V
	rollT     types.Type
	c         *Ctx
	noStr     bool
	strUsed   []*strSum
	hookViols []string
	content   map[string]string
	okText    map[string]string
	recoded   map[*ssa.Function]bool
	tokenized bool
	parseHook func(e *Engine, s *State, fn *ssa.Function, args []V) []outcome
}

// isEncSig recognises functions that append an encoding to a buffer.
func isEncSig(sig *types.Signature) int {
	res := sig.Results()
	if res.Len() != 2 || !isByteSlice(res.At(0).Type()) || !isErrorT(res.At(1).Type()) {
		return -1
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if isByteSlice(sig.Params().At(i).Type()) {
			return i
		}
	}
	return -1
}

func colorField(name string) *VSlice {
	t := types.NewSlice(types.Typ[types.Uint8])
	b := mk("color", name, t)
	return &VSlice{b, ic(0), it(mk("len", "", intT, b)), false, types.Typ[types.Uint8]}
}

var granular = map[string]bool{"Brackets": true, "Braces": true, "Comma": true, "Colon": true}

func (r *encRun) colors(e *Engine, s *State) V {
	ct := r.api.colorsT
	if r.cfg.clrs == "nil" {
		return &VNil{types.NewPointer(ct)}
	}
	st := ct.Underlying().(*types.Struct)
	v := &VStruct{t: ct}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		n := f.Name()
		set := r.cfg.clrs == "all" || r.cfg.clrs == "fallback" && !granular[n] || r.cfg.clrs == "some" && n == "Key"
		if !set {
			v.f = append(v.f, &VNil{f.Type()})
			continue
		}
		cf := colorField(n)
		s.assumeLE(ic(1).sub(cf.hi))
		v.f = append(v.f, cf)
	}
	r.clrsO = newObj("colors", ct)
	r.clrsO.perm = true
	s.wheap()[r.clrsO] = v
	return &VAddr{o: r.clrsO}
}

// newIndenter interprets the exported constructor.
func (r *encRun) indenter(e *Engine, s *State) V {
	pt := types.NewPointer(r.api.indT)
	if r.cfg.indent == "nil" {
		return &VNil{pt}
	}
	key := "off"
	if r.cfg.indent == "on" {
		key = "on"
	}
	tpl := r.api.ind[key]
	if tpl == nil {
		return nil
	}
	o := newObj("indenter", r.api.indT)
	o.perm = true
	v := &VStruct{t: r.api.indT}
	st := r.api.indT.Underlying().(*types.Struct)
	for i, f := range tpl.f {
		if isInt(st.Field(i).Type()) {
			f = ic(r.cfg.depth)
		}
		v.f = append(v.f, f)
	}
	s.wheap()[o] = v
	r.indO = o
	if key == "on" {
		for _, t := range []*Term{r.api.prefix, r.api.indent} {
			s.assumeLE(ic(1).sub(it(mk("len", "", intT, t))))
		}
	}
	return &VAddr{o: o}
}

// depthOf is the indentation level in a state.
func (r *encRun) depthOf(s *State) (Int, bool) {
	if r.indO == nil {
		return ic(0), false
	}
	st := r.api.indT.Underlying().(*types.Struct)
	if v, ok := s.heap[r.indO].(*VStruct); ok {
		for i := range v.f {
			if isInt(st.Field(i).Type()) {
				x, ok := v.f[i].(Int)
				return x, ok
			}
		}
	}
	return ic(0), false
}

func (r *encRun) havocDepth(e *Engine, s *State) {
	if r.indO == nil {
		return
	}
	st := r.api.indT.Underlying().(*types.Struct)
	if v, ok := s.heap[r.indO].(*VStruct); ok {
		n := &VStruct{v.t, append([]V(nil), v.f...)}
		for i := range n.f {
			if isInt(st.Field(i).Type()) {
				n.f[i] = it(freshSym("level", intT))
			}
		}
		s.wheap()[r.indO] = n
	}
}

func (a *encAPI) findIndenters(c *Ctx) bool {
	a.ind = map[string]*VStruct{}
	fn := c.p.fn("NewIndenter")
	if !c.need(fn != nil && len(fn.Params) == 2, "exported function NewIndenter", "NewIndenter does not exist") {
		return false
	}
	a.prefix = mk("sym", "indenter prefix", stringT)
	a.indent = mk("sym", "indenter indent", stringT)
	for _, on := range []bool{true, false} {
		e := newEngine(c.p)
		s := newState()
		args := []V{strV(""), strV("")}
		if on {
			p, _ := asSlice(a.prefix)
			i, _ := asSlice(a.indent)
			args = []V{p, i}
			for _, t := range []*Term{a.prefix, a.indent} {
				s.assumeLE(ic(1).sub(it(mk("len", "", intT, t))))
			}
		}
		e.start(s, fn, args, nil)
		e.run()
		c.addFn(fn)
		ok := false
		if len(e.exits) == 1 && !e.exits[0].panic {
			x := e.exits[0]
			if ad, k := x.res[0].(*VAddr); k && ad.o != nil {
				if v, k := x.s.heap[ad.o].(*VStruct); k {
					key := "off"
					if on {
						key = "on"
					}
					a.ind[key] = v
					ok = true
				}
			}
			if _, k := x.res[0].(*VNil); k && !on {
				ok = true
			}
		}
		if !c.need(ok, "result of NewIndenter", "NewIndenter does not return one new Indenter") {
			return false
		}
	}
	return true
}

// rollbackType finds the error that fields return that are left out.
func rollbackType(c *Ctx, cs *codecSet) types.Type {
	var r types.Type
	for f := range reachable(c.p, c.p.fn("Append")) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok || ci.Common().StaticCallee() == nil || ci.Common().StaticCallee().String() != "errors.Is" || len(ci.Common().Args) != 2 {
					continue
				}
				if mi, ok := ci.Common().Args[1].(*ssa.MakeInterface); ok {
					if n, ok := mi.X.Type().(*types.Named); ok && n.Obj().Pkg() == c.p.main.Pkg && !n.Obj().Exported() {
						r = n
					}
				}
			}
		}
	}
	return r
}

const (
	pendKey = "pending"
)

// encRoot explores one encode function in one configuration.
func encRoot(c *Ctx, api *encAPI, cs *codecSet, cf *codecFn, cfg encCfg, prep func(r *encRun)) *encRun {
	r := &encRun{api: api, c: c, cfg: cfg, cs: cs, calls: map[string]bool{}, cf: cf, okText: map[string]string{}, recoded: map[*ssa.Function]bool{}}
	e := newEngine(c.p)
	r.e = e
	e.max = 60000
	e.lists = true
	e.limit = 120 * time.Second
	if dbgMax > 0 {
		e.max = dbgMax
	}
	s := newState()
	if cf.facts != nil {
		s = cf.facts.fork()
		s.frames = nil
		s.ghost = map[string]V{}
	}
	r.setup(c, s)
	st := cs.encT.Params().At(0).Type()
	enc := r.encoder(e, s, st)
	args := []V{}
	for i := 0; i < cs.encT.Params().Len(); i++ {
		t := cs.encT.Params().At(i).Type()
		switch {
		case i == 0:
			args = append(args, enc)
		case isByteSlice(t):
			args = append(args, r.b)
		default:
			p := freshSym("p", t)
			e.watchInput("the encoded value", func(t *Term) bool { return t == p })
			args = append(args, e.wrap(p))
		}
	}
	if prep != nil {
		prep(r)
	}
	r.installRaw(s)
	e.start(s, cf.fn.fn, args, cf.fn.bind)
	e.run()
	r.exits = e.exits
	return r
}

func (r *encRun) setup(c *Ctx, s *State) {
	e := r.e
	r.start0 = e.g.start("dst")
	r.b = &VOut{n: r.start0}
	s.assumeLE(e.nodeLen(r.start0).neg())
	r.flags = mk("sym", "flags", r.api.flagsT)
	r.clrs = r.colors(e, s)
	r.indentr = r.indenter(e, s)
	html := e.binop(s, token.NEQ, e.binop(s, token.AND, it(r.flags), ic(r.api.html), r.api.flagsT, r.api.flagsT), ic(0), r.api.flagsT, boolT)
	for _, x := range e.assume(s, html, r.cfg.html) {
		if x != s {
			*s = *x
		}
	}
	e.contract = r.contract
	e.spanRound = cleanRound
	e.spanClean = isClean
	if r.cfg.html {
		e.spanClean = func(set bset, flags int) bool { return isClean(set, flags) && set.and(htmlBytes).empty() }
	}
	e.callHook = r.hook
	e.marks = true
	for _, m := range []string{"MarshalJSON", "MarshalText"} {
		m := m
		e.invokeHook = func(e *Engine, s *State, ins ssa.CallInstruction, recv V, name string, args []V) []outcome {
			if name != "MarshalJSON" && name != "MarshalText" {
				return nil
			}
			res := ins.Common().Signature().Results()
			if res.Len() != 2 || !isErrorT(res.At(1).Type()) {
				return nil
			}
			s2 := s.fork()
			s2.wghost()[pendKey] = strV(m)
			r.calls["marshaler"] = true
			t := freshSym(name, res.At(0).Type())
			return []outcome{{s, &VTuple{[]V{t, &VNil{errT}}}}, {s2, &VTuple{[]V{freshSym(name, res.At(0).Type()), mk("newerr", "marshaler", errT)}}}}
		}
	}
}

// encoder builds the value that carries the options.
func (r *encRun) encoder(e *Engine, s *State, t types.Type) V {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return e.wrap(freshSym("encoder", t))
	}
	v := &VStruct{t: t}
	for i := 0; i < st.NumFields(); i++ {
		v.f = append(v.f, r.option(e, s, st.Field(i).Type(), st.Field(i).Name()))
	}
	return v
}

func (r *encRun) option(e *Engine, s *State, t types.Type, name string) V {
	switch {
	case types.Identical(t, r.api.flagsT):
		return it(r.flags)
	case types.Identical(t, types.NewPointer(r.api.colorsT)):
		return r.clrs
	case types.Identical(t, types.NewPointer(r.api.indT)):
		return r.indentr
	}
	return e.wrap(freshSym(name, t))
}

// options extracts flags, colors and indenter from arguments.
func (r *encRun) options(args []V, ts []types.Type) (flags, clrs, ind V) {
	var visit func(v V, t types.Type)
	visit = func(v V, t types.Type) {
		switch {
		case types.Identical(t, r.api.flagsT):
			flags = v
		case types.Identical(t, types.NewPointer(r.api.colorsT)):
			clrs = v
		case types.Identical(t, types.NewPointer(r.api.indT)):
			ind = v
		default:
			if st, ok := t.Underlying().(*types.Struct); ok {
				if sv, ok := v.(*VStruct); ok {
					for i := range sv.f {
						visit(sv.f[i], st.Field(i).Type())
					}
				}
			}
		}
	}
	for i := range args {
		if i < len(ts) {
			visit(args[i], ts[i])
		}
	}
	return
}

func sigTypes(sig *types.Signature) []types.Type {
	var ts []types.Type
	if sig.Recv() != nil {
		ts = append(ts, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	return ts
}

func (r *encRun) contract(e *Engine, s *State, ci ssa.CallInstruction, fnv V, sig *types.Signature, args []V, rec *ssa.Function) ([]outcome, bool) {
	if isEncSig(sig) < 0 {
		return nil, false
	}
	return r.value(e, s, ci, fnv, sig, args), true
}

func (r *encRun) hook(e *Engine, s *State, fn *ssa.Function, args []V) []outcome {
	if fn == r.api.app && (len(s.frames) > 0 && s.frames[0].fn != fn || len(s.frames) > 1) {
		return r.value(e, s, nil, &VFunc{fn: fn}, fn.Signature, args)
	}
	if r.tokenises()[fn] && fn != codecTarget(r.cf.fn.fn) {
		// verified on its own, as it is an encode function too
		return r.value(e, s, nil, &VFunc{fn: fn}, fn.Signature, args)
	}
	if out := r.recode(e, s, fn, args); out != nil {
		return out
	}
	if out := r.strHook(e, s, fn, args); out != nil {
		return out
	}
	if r.parseHook != nil {
		return r.parseHook(e, s, fn, args)
	}
	return nil
}

// codecTarget is the method behind a method value.
func codecTarget(fn *ssa.Function) *ssa.Function {
	if fn.Synthetic == "" {
		return fn
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok {
				if f := ci.Common().StaticCallee(); f != nil {
					return f
				}
			}
		}
	}
	return fn
}

// tokenises lists the encode functions that split raw text into tokens.
func (r *encRun) tokenises() map[*ssa.Function]bool {
	if r.cs == nil {
		return nil
	}
	if r.cs.raw == nil {
		r.cs.raw = map[*ssa.Function]bool{}
		next := r.c.p.fn("(*Tokenizer).Next")
		for _, cf := range r.cs.enc {
			f := codecTarget(cf.fn.fn)
			if next != nil && f.Parent() == nil && isEncSig(f.Signature) >= 0 && reachable(r.c.p, f)[next] {
				r.cs.raw[f] = true
			}
		}
	}
	return r.cs.raw
}

// fieldCodec reports whether a function value was read from the codec of a
// struct field, which may ask for the field to be left out.
func fieldCodec(v V) bool {
	t, ok := v.(*Term)
	if !ok {
		return false
	}
	return t.op != "codec" && !(t.op == "load" && !strings.Contains(t.aux, "[]") && !strings.Contains(t.aux, "ield/"))
}

// value is the contract of encode functions: they append one value, or fail
// and keep what was there.
func (r *encRun) value(e *Engine, s *State, ci ssa.CallInstruction, fnv V, sig *types.Signature, args []V) []outcome {
	bi := -1
	ts := sigTypes(sig)
	for i, t := range ts {
		if isByteSlice(t) {
			bi = i
			break
		}
	}
	if bi < 0 || bi >= len(args) {
		return nil
	}
	flags, clrs, ind := r.options(args, ts)
	depth, okd := r.depthOf(s)
	if x, ok := flags.(Int); ok && vkey(x) != vkey(it(r.flags)) && e.flagBit(s, x, r.api.raw, r.api.flagsT) == 1 && r.trusted(s) != 1 {
		r.viol(s, "raw", "raw messages of a nested value are trusted although the caller did not ask for it: "+vstr(x))
	}
	l := &Label{k: LCall, s: "VALUE", v: fnv}
	var payload V
	for i := range args {
		if i != bi && !types.Identical(ts[i], r.api.flagsT) && i > 0 {
			if _, isP := ts[i].Underlying().(*types.Pointer); isP {
				continue
			}
			payload = args[i]
		}
	}
	var dv V = &VNil{}
	if okd {
		dv = depth
	}
	l.v2 = []V{flags, clrs, ind, dv, payload}
	for i, v := range l.v2 {
		if v == nil {
			l.v2[i] = &VNil{}
		}
	}
	o := e.asOut(s, args[bi])
	r.calls[e.where(s)] = true
	var out []outcome
	// failure
	s2 := s.fork()
	r.havocDepth(e, s2)
	s2.wghost()[pendKey] = strV("value")
	out = append(out, outcome{s2, pairT(e.emit(s2, o, &Label{k: LBad, s: "the partial output of a value that failed"}), mk("newerr", "value", errT))})
	if r.rollT != nil && fieldCodec(fnv) {
		s3 := s.fork()
		out = append(out, outcome{s3, pairT(e.emit(s3, o, &Label{k: LBad, s: "the partial output of a field that is left out"}), &VIface{r.rollT, zeroV(r.rollT)})})
	}
	out = append(out, outcome{s, pairT(e.emit(s, o, l), &VNil{errT})})
	return out
}

var dbgMax, _ = strconv.Atoi(os.Getenv("MAXS"))

func encDev(p *Prog, args []string) {
	dbgProg = p
	if len(args) > 0 && args[0] == "codecs" {
		c := &Ctx{id: "dev", p: p, obl: map[string]*Obligation{}, fns: map[string]bool{}, cov: map[string]any{}}
		cs := findCodecs(c)
		fmt.Println(cs.build, cs.cuts, "steps", cs.e.steps, "exits", len(cs.e.exits), c.obl)
		for _, f := range cs.enc {
			fmt.Println("ENC", f.built, f.name, vstr(f.fn))
		}
		for _, f := range cs.dec {
			fmt.Println("DEC", f.built, f.name, vstr(f.fn))
		}
		return
	}
	c := &Ctx{id: "dev", p: p, obl: map[string]*Obligation{}, fns: map[string]bool{}, cov: map[string]any{}}
	api := findEncAPI(c)
	cs := findCodecs(c)
	if api == nil || cs == nil {
		fmt.Println(c.obl)
		return
	}
	if len(args) > 0 && args[0] == "esc" {
		for f := range reachable(p, api.app) {
			if !p.inMain(f) || f.Blocks == nil {
				continue
			}
			sh := api.strSig(f)
			if len(args) > 1 && !strings.HasSuffix(f.Name(), args[1]) {
				continue
			}
			if sh == nil {
				continue
			}
			for _, html := range []bool{false, true} {
				t := time.Now()
				sum := api.strRun(c, f, sh, html)
				fmt.Println(f, html, sum.ok, sum.e.fail, sum.viols, time.Since(t))
				o := sum.escs
				if !sum.ok && sh.load == nil {
					e := api.escRun(c, f, sh, html)
					o = e.oblig
					fmt.Println("recode", e.fail, len(e.exits), time.Since(t))
				}
				for _, x := range o {
					fmt.Println("    ", x)
				}
			}
		}
		return
	}
	cfgs := encConfigs
	for _, cf := range cs.enc {
		if len(args) > 0 && !strings.Contains(cf.name, args[0]) {
			continue
		}
		for i, cfg := range cfgs {
			if len(args) > 1 && args[1] != fmt.Sprint(i) {
				continue
			}
			t := time.Now()
			r := encRoot(c, api, cs, cf, cfg, func(r *encRun) { dbgEngine(r.e); r.rollT = rollbackType(c, cs) })
			fmt.Println("==", shortFn(cf.name), cfg, "steps", r.e.steps, "exits", len(r.exits), "nodes", len(r.e.g.nodes), "fail", r.e.fail, time.Since(t))
			if r.e.keys != nil {
				for l, n := range r.e.locs {
					fmt.Println("LOC", n, l)
					if n > 20 {
						os.WriteFile("/tmp/exp/keys2.txt", []byte(r.e.keys[l]), 0644)
					}
				}
			}
			viol := r.check()
			for _, v := range viol {
				fmt.Println("   ", v)
			}
		}
	}
	_ = os.Stdout
}

func shortFn(s string) string { return strings.ReplaceAll(s, "github.com/neilotoole/jsoncolor.", "") }

var encConfigs = []encCfg{
	{"nil", "nil", 0, false},
	{"nil", "on", 0, true},
	{"all", "on", 2, false},
	{"fallback", "off", 1, true},
	{"some", "nil", 0, true},
}

// check compares the outputs of the exits with the reference.
type encViol struct{ Rule, Msg string }

func (r *encRun) check() []encViol {
	var out []encViol
	for _, v := range r.hookViols {
		rule, msg, _ := strings.Cut(v, ": ")
		out = append(out, encViol{rule, msg})
	}
	add := func(rule, msg string) { out = append(out, encViol{rule, msg}) }
	e := r.e
	if e.fail != "" {
		add("engine", e.fail)
	}
	type ex struct {
		x Exit
		n *Node
	}
	var ok []ex
	targets := map[*Node]bool{}
	for _, x := range r.exits {
		at := e.P.pos(x.pos)
		if x.panic {
			continue
		}
		o, _ := x.res[0].(*VOut)
		if o == nil || !onlyFrom(o.n, r.start0) {
			add("prefix", "the result does not begin with the destination: "+vstr(x.res[0])+" at "+at)
			continue
		}
		switch e.nilness(x.s, x.res[1]) {
		case 0:
			if _, p := x.s.ghost[pendKey]; p {
				add("lost error", "a nested error is dropped at "+at)
			}
			if x.s.ghost[badRaw] == nil {
				ok = append(ok, ex{x, o.n})
				targets[o.n] = true
			}
			if d, okd := r.depthOf(x.s); okd && x.s.decEQ(d.addc(-r.cfg.depth)) != 1 {
				add("level", fmt.Sprintf("the indentation level is %s instead of %d after the value, at %s", vstr(d), r.cfg.depth, at))
			} else if r.indO != nil && !okd {
				add("level", "the indentation level is not known at "+at)
			}
		case 1:
			if i, isI := x.res[1].(*VIface); isI && r.rollT != nil && types.Identical(i.t, r.rollT) {
				if r.cf != nil && r.cf.built {
					add("lost error", "the error that leaves a member out is returned for a value, at "+at)
				}
				if d, okd := r.depthOf(x.s); okd && x.s.decEQ(d.addc(-r.cfg.depth)) != 1 {
					add("level", "the indentation level is "+vstr(d)+" after a member that is left out, at "+at)
				}
			}
		default:
			add("engine", "undecided error "+vstr(x.res[1])+" at "+at)
		}
	}
	gr := &grammar{clrs: r.cfg.clrs, on: r.cfg.indent == "on", depth: r.cfg.depth, prefix: r.api.prefix, indent: r.api.indent}
	gr.raw = r.rawKindOf
	gr.call = r.callOK
	dup := map[string]bool{}
	res := gr.walk(e.g, r.start0, []gState{{ph: "V"}}, targets, func(v gViol) {
		m := fmt.Sprintf("%s (%s %s, %s)", v.msg, v.fn, e.P.pos(v.pos), v.stack)
		if k := v.rule + v.fn + fmt.Sprint(v.pos); !dup[k] {
			dup[k] = true
			add(v.rule, m)
		}
	})
	r.content = contentOf(targets)
	for _, x := range ok {
		if len(res[x.n]) == 0 && len(out) == 0 {
			add("engine", "no path to the exit at "+e.P.pos(x.x.pos))
		}
		for _, g := range res[x.n] {
			if g.tok == "md" {
				var err *gErr
				if g, err = gr.numberDone(g); err != nil {
					add(err.rule, err.msg)
				}
			}
			if g.ph != "D" || g.tok != "" || g.col != "" || g.lay != "" {
				rule := "end"
				if g.col != "" || g.tok != "" && g.tok[0] == 'R' {
					rule = "reset"
				}
				add(rule, fmt.Sprintf("the function succeeds where %s, at %s", g, e.P.pos(x.x.pos)))
			}
		}
	}
	return out
}

// normV names a value without numbers, positions and identities.
func normV(v V) string {
	switch x := v.(type) {
	case Int:
		var a []string
		for _, t := range x.ts {
			a = append(a, normV(t.t))
		}
		sort.Strings(a)
		return strings.Join(a, "+")
	case *Term:
		if x.fresh || x.op == "sym" {
			return x.aux
		}
		n := len(x.args)
		if x.op == "elem" || x.op == "append" {
			n = 1
		}
		if x.op == "ptr" {
			n = 0
		}
		var a []string
		for _, y := range x.args[:n] {
			a = append(a, normV(y))
		}
		return x.op + "<" + x.aux + ">(" + strings.Join(a, ",") + ")"
	case *VSlice:
		return normV(x.base)
	case *VFunc:
		return x.fn.Name()
	case *VConst, VBool:
		return vstr(v)
	}
	return ""
}

// contentOf describes everything but punctuation, colours and layout that is
// written on the way to some nodes.
func contentOf(targets map[*Node]bool) map[string]string {
	m := map[string]string{}
	seen := map[*Node]bool{}
	var work []*Node
	add := func(n *Node) {
		if !seen[n] {
			seen[n] = true
			work = append(work, n)
		}
	}
	for n := range targets {
		add(n)
	}
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		for _, ed := range n.in {
			add(ed.from)
			if ed.l.k == LSub {
				add(ed.l.b)
				continue
			}
			var d string
			switch l := ed.l; l.k {
			case LNum, LMant, LTok:
				d = fmt.Sprintf("%s of %s", l.s, normV(l.v))
			case LCall:
				d = fmt.Sprintf("a value written by %s from %s", normV(l.v), normV(l.v2[4]))
			case LRaw:
				if sl, ok := asSlice(l.v); ok {
					if sl.base.op == "color" || sl.base.op == "sym" && strings.HasPrefix(sl.base.aux, "indenter ") {
						continue
					}
					d = "the bytes " + normV(sl.base)
				}
			}
			if d != "" && m[d] == "" {
				m[d] = ed.fn
			}
		}
	}
	return m
}

// callOK compares the options that a nested value gets.
func (r *encRun) callOK(g gState, level int64, l *Label) string {
	same := func(a, b V) bool { return vkey(a) == vkey(b) }
	flags, clrs, ind, depth := l.v2[0], l.v2[1], l.v2[2], l.v2[3]
	switch {
	case !same(flags, it(r.flags)):
		return "a nested value gets other options: " + vstr(flags)
	case !sameOpt(clrs, r.clrs):
		return "a nested value gets other colours: " + vstr(clrs)
	case !sameOpt(ind, r.indentr):
		return "a nested value gets another indentation: " + vstr(ind)
	}
	if r.indO != nil {
		d, ok := depth.(Int)
		if !ok || !d.isConst() || d.c != level {
			return fmt.Sprintf("a nested value is written at indentation level %s instead of %d", vstr(depth), level)
		}
	}
	return ""
}

func sameOpt(a, b V) bool {
	_, na := a.(*VNil)
	_, nb := b.(*VNil)
	if na || nb {
		return na && nb
	}
	x, ok := b.(*VAddr)
	return ok && sameObj(a, x)
}

// onlyFrom reports whether every path to a node begins at the start node.
func onlyFrom(n, start *Node) bool {
	seen := map[*Node]bool{n: true}
	work := []*Node{n}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == start {
			continue
		}
		if len(x.in) == 0 {
			return false
		}
		for _, ed := range x.in {
			if !seen[ed.from] {
				seen[ed.from] = true
				work = append(work, ed.from)
			}
		}
	}
	return true
}

var cleanBytes, htmlBytes, multiBytes = func() (bset, bset, bset) {
	h := bsetOf("<>&")
	return bsetRange(0x20, 0x7f).and(bsetOf("\"\\<>&").not()), h, bsetRange(0x80, 0xff)
}()

func isClean(set bset, flags int) bool {
	return set.sub(cleanBytes.or(htmlBytes).or(multiBytes)) && flags&^spMulti == 0
}

// cleanRound keeps of a run only whether it can be the text of a string.
func cleanRound(set bset, flags int) (bset, int) {
	r := cleanBytes.or(multiBytes)
	if !set.and(htmlBytes).empty() {
		r = r.or(htmlBytes)
	}
	return r, spMulti
}
