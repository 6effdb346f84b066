package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Raw JSON text: parsers that validate it, and the tokenizer.

const (
	rawOKKey = "rawok" // texts that were parsed in full
	tzKey    = "tz"    // the tokenizer and its position in the grammar
	tzPend   = "tzpend"
	badRaw   = "malformed"
)

// rawTexts are the sources of raw text.
func (r *encRun) parsers() *parseCheck {
	a := r.api
	if a.cuts == nil {
		var roots []*ssa.Function
		if v := r.c.p.fn("Valid"); v != nil {
			roots = append(roots, v)
		}
		a.cuts = cutPoints(r.c.p, roots)
		a.psums = map[*ssa.Function]*summary{}
	}
	return &parseCheck{e: r.e, cuts: a.cuts, sums: a.psums}
}

func (r *encRun) ghostSet(s *State, k string) map[*Term]bool {
	m := map[*Term]bool{}
	if t, ok := s.ghost[k].(*VTuple); ok {
		for _, x := range t.e {
			if y, ok := x.(*Term); ok {
				m[y] = true
			}
		}
	}
	return m
}

func (r *encRun) addGhost(s *State, k string, t *Term) {
	if r.ghostSet(s, k)[t] {
		return
	}
	n := &VTuple{}
	if o, ok := s.ghost[k].(*VTuple); ok {
		n.e = append(n.e, o.e...)
	}
	n.e = append(n.e, t)
	s.wghost()[k] = n
}

func (r *encRun) viol(s *State, rule, msg string) {
	m := rule + ": " + msg + " (" + r.e.where(s) + ")"
	for _, x := range r.hookViols {
		if x == m {
			return
		}
	}
	r.hookViols = append(r.hookViols, m)
}

// trusted reports whether raw messages are known to be trusted (1), known not
// to be (-1), or may be either (0).
func (r *encRun) trusted(s *State) int {
	return r.e.flagBit(s, it(r.flags), r.api.raw, r.api.flagsT)
}

func (e *Engine) flagBit(s *State, flags Int, bit int64, t types.Type) int {
	c := e.binop(s, token.NEQ, e.binop(s, token.AND, flags, ic(bit), t, t), ic(0), t, boolT)
	if b, ok := c.(VBool); ok {
		if bool(b) {
			return 1
		}
		return -1
	}
	t1, t0 := len(e.assume(s.fork(), c, true)) > 0, len(e.assume(s.fork(), c, false)) > 0
	switch {
	case t1 && !t0:
		return 1
	case t0 && !t1:
		return -1
	}
	return 0
}

func (r *encRun) installRaw(s *State) {
	e := r.e
	e.qMerge = func(e *Engine, s *State) {
		e.qUpdate(s)
		r.noteParsed(s)
	}
	e.onOut = r.onOut
	e.onLoad = func(e *Engine, s *State, ins ssa.Instruction, addr V, t types.Type, v V) {
		if !isByteSlice(t) && !isString(t) {
			return
		}
		n, ok := t.(*types.Named)
		if !ok {
			if al, isA := t.(*types.Alias); isA {
				n, ok = al.Rhs().(*types.Named)
			}
		}
		if !ok || n.Obj().Name() != "RawMessage" && n.Obj().Name() != "Number" {
			return
		}
		if sl, ok := asSlice(v); ok && !hasAnchor(s, sl.base) {
			addAnchor(s, sl.base, ic(0), qset{"W"})
		}
	}
	if tk := r.c.p.named("Tokenizer"); tk != nil {
		if f := r.c.p.fn("(*Tokenizer).Next"); f != nil {
			e.override[f.String()] = r.tokenizerNext
		}
	}
	r.parseHook = r.parse
}

func hasAnchor(s *State, b *Term) bool {
	for _, a := range qAnchors(s) {
		if aBase(a) == b {
			return true
		}
	}
	return false
}

// noteParsed records the texts that are known to be valid as a whole.
func (r *encRun) noteParsed(s *State) {
	seen := map[*Term]bool{}
	for _, a := range qAnchors(s) {
		b := aBase(a)
		if seen[b] || r.ghostSet(s, rawOKKey)[b] {
			continue
		}
		seen[b] = true
		if r.fullyParsed(s, b) {
			r.addGhost(s, rawOKKey, b)
		}
	}
}

func (r *encRun) fullyParsed(s *State, b *Term) bool {
	if r.ghostSet(s, rawOKKey)[b] {
		return true
	}
	q, ok := r.e.qAt(s, b, it(mk("len", "", intT, b)))
	return ok && !q.dead() && q.all(jAccept)
}

// parse models calls of functions that parse values.
func (r *encRun) parse(e *Engine, s *State, fn *ssa.Function, args []V) []outcome {
	vi, _, ei, ok := parseShape(fn.Signature)
	if !ok || fn.Blocks == nil || !r.c.p.mine(fn) {
		return nil
	}
	sl, ok := asSlice(args[0])
	if !ok {
		return nil
	}
	pc := r.parsers()
	var out []outcome
	if !hasAnchor(s, sl.base) {
		addAnchor(s, sl.base, sl.lo, qset{"W"})
	}
	if pc.cuts[fn] {
		ins, ok := s.top().blk.Instrs[s.top().pc].(ssa.CallInstruction)
		if !ok {
			return nil
		}
		out = pc.valueContract(e, s, ins, fn.Signature, args)
	} else if sum := pc.summarize(fn); sum != nil {
		out = sum.apply(pc, e, s, args)
	}
	for i := range out {
		t, ok := out[i].v.(*VTuple)
		if !ok || vi < 0 || e.nilness(out[i].s, t.e[ei]) != 0 {
			continue
		}
		v, ok := asSlice(t.e[vi])
		if !ok || v.base != sl.base {
			continue
		}
		// the text of the value
		b := mk("valid", "", byteSliceT, sl.base)
		n := &VTuple{append([]V(nil), t.e...)}
		w := &VSlice{b, ic(0), it(mk("len", "", intT, b)), v.str, v.et}
		out[i].s.assumeLE(ic(1).sub(w.hi))
		out[i].s.narrow(b, ic(0), out[i].s.byteSet(sl.base, v.lo))
		n.e[vi] = w
		out[i].v = n
	}
	return out
}

// whole reports whether a slice is all of its base.
func (r *encRun) whole(s *State, sl *VSlice) bool {
	return s.decEQ(sl.lo) == 1 && s.decEQ(sl.hi.sub(it(mk("len", "", intT, sl.base)))) == 1
}

// onOut is told about everything that is written.
func (r *encRun) onOut(e *Engine, s *State, src V) {
	sl, ok := asSlice(src)
	if !ok {
		return
	}
	if _, known := litOf(sl); known {
		return
	}
	switch sl.base.op {
	case "tokval":
		r.tokenOut(s, sl)
	case "valid":
		o, _ := sl.base.args[0].(*Term)
		if !r.whole(s, sl) {
			r.viol(s, "raw", "only a part of raw text is written")
		} else if r.trusted(s) != 1 && !r.fullyParsed(s, o) {
			r.viol(s, "raw", "raw text is written although it was not checked up to its end")
		}
	default:
		if hasAnchor(s, sl.base) {
			switch {
			case r.trusted(s) == 1 || s.ghost[badRaw] != nil:
			case !r.whole(s, sl):
				r.viol(s, "raw", "only a part of raw text is written: "+vstr(sl))
			case !r.fullyParsed(s, sl.base):
				r.viol(s, "raw", "raw text is written that was not checked")
			default:
				k := "value"
				if s.byteSet(sl.base, ic(0)).sub(bsetOf("-0123456789")) {
					k = "number"
				}
				r.okText[vkey(sl.base)] = k
			}
		}
	}
}

func (r *encRun) tokenOut(s *State, sl *VSlice) {
	p, _ := litOf(s.ghost[tzPend])
	switch {
	case !r.whole(s, sl):
		r.viol(s, "rawtoken", "only a part of a token of raw text is written")
	case p != sl.base.aux:
		r.viol(s, "rawtoken", "a token of raw text is written twice or late")
	}
	s.wghost()[tzPend] = strV("")
}

// recode models functions that copy a string token with more escapes.
func (r *encRun) recode(e *Engine, s *State, fn *ssa.Function, args []V) []outcome {
	sig := fn.Signature
	if sig.Recv() != nil || sig.Params().Len() != 2 || sig.Results().Len() != 1 || !isByteSlice(sig.Results().At(0).Type()) || !isByteSlice(sig.Params().At(0).Type()) || !isByteSlice(sig.Params().At(1).Type()) || !r.c.p.inMain(fn) {
		return nil
	}
	sl, ok := asSlice(args[1])
	if !ok || sl.base.op != "tokval" && sl.base.op != "valid" && s.ghost[badRaw] == nil {
		return nil
	}
	dst := args[0]
	if sl.base.op == "tokval" && (sl.base.aux == "string" || sl.base.aux == "key") {
		r.recoded[fn] = true
		r.tokenOut(s, sl)
		return []outcome{{s, e.emit(s, e.asOut(s, dst), &Label{k: LRaw, v: sl})}}
	}
	if s.ghost[badRaw] != nil {
		return []outcome{{s, e.emit(s, e.asOut(s, dst), &Label{k: LBad, s: "malformed text"})}}
	}
	return nil
}

// tokenizerNext models the tokenizer on a text whose tokens form one value.
func (r *encRun) tokenizerNext(e *Engine, s *State, ci ssa.CallInstruction, fn *ssa.Function, args []V) []outcome {
	a, ok := args[0].(*VAddr)
	if !ok || a.o == nil {
		return nil
	}
	tv, ok := s.heap[a.o].(*VStruct)
	if !ok {
		return nil
	}
	st, ok := tv.t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	src, nsrc := -1, 0
	idx := map[string]int{}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Exported() {
			idx[f.Name()] = i
		} else if isByteSlice(f.Type()) {
			src = i
			nsrc++
		}
	}
	for _, n := range []string{"Delim", "Value", "Err", "Depth", "Index", "IsKey"} {
		if _, ok := idx[n]; !ok {
			nsrc = 0
		}
	}
	if nsrc != 1 {
		return nil
	}
	stack, ph, wild := "", "V", false
	if t, ok := s.ghost[tzKey].(*VTuple); ok && sameObj(t.e[0], a) {
		x, _ := litOf(t.e[1])
		stack, ph, _ = strings.Cut(x, "|")
		wild = strings.HasSuffix(ph, "?")
		ph = strings.TrimSuffix(ph, "?")
	} else {
		// the start of a text
		sl, ok := asSlice(tv.f[src])
		switch {
		case !ok:
			r.viol(s, "raw", "unknown text is tokenized: "+vstr(tv.f[src]))
			wild = true
		case sl.base.op == "valid" && r.whole(s, sl):
			o, _ := sl.base.args[0].(*Term)
			if !r.fullyParsed(s, o) && r.trusted(s) != 1 {
				r.viol(s, "raw", "raw text is written although it was not checked up to its end")
			}
		case r.whole(s, sl) && r.fullyParsed(s, sl.base):
		case r.trusted(s) == 1:
			wild = true
		default:
			r.viol(s, "raw", "raw text is written that was not checked")
			wild = true
		}
	}
	if p, _ := litOf(s.ghost[tzPend]); p != "" {
		r.viol(s, "rawtoken", "a "+p+" of raw text is not written")
	}
	r.tokenized = true
	var out []outcome
	res := func(s *State, ok bool, delim byte, val *VSlice, err V, key bool, stack, ph string) {
		n := &VStruct{tv.t, append([]V(nil), tv.f...)}
		n.f[idx["Delim"]] = ic(int64(delim))
		n.f[idx["Value"]] = &VNil{st.Field(idx["Value"]).Type()}
		if val != nil {
			n.f[idx["Value"]] = val
		}
		n.f[idx["Err"]] = err
		n.f[idx["IsKey"]] = VBool(key)
		n.f[idx["Depth"]] = e.wrap(freshSym("depth", intT))
		n.f[idx["Index"]] = e.wrap(freshSym("index", intT))
		s.wheap()[a.o] = n
		w := ""
		if wild {
			w = "?"
		}
		s.wghost()[tzKey] = &VTuple{[]V{a, strV(stack + "|" + ph + w)}}
		out = append(out, outcome{s, VBool(ok)})
	}
	if wild {
		s2 := s.fork()
		s2.wghost()[badRaw] = ic(1)
		delete(s2.wghost(), tzPend)
		res(s2, false, 0, nil, mk("newerr", "syntax", errT), false, stack, "X")
	}
	if ph == "X" {
		return []outcome{{s, VBool(false)}}
	}
	afterV := func(stack string) string {
		if stack == "" {
			return "D"
		}
		return string(stack[len(stack)-1])
	}
	tokval := func(s *State, kind string, set bset, one bool) *VSlice {
		b := mk("tokval", kind, byteSliceT, freshSym("token", intT))
		n := it(mk("len", "", intT, b))
		if one {
			s.assumeEQ(n.addc(-1))
		} else {
			s.assumeLE(ic(1).sub(n))
		}
		s.narrow(b, ic(0), set)
		return &VSlice{b, ic(0), n, false, types.Typ[types.Uint8]}
	}
	delim := func(c byte, stack, ph string) {
		s := s.fork()
		s.wghost()[tzPend] = strV("")
		res(s, true, c, tokval(s, "delim"+string(c), bsetOf(string(c)), true), &VNil{errT}, false, stack, ph)
	}
	scalar := func(kind string, set string, key bool, ph string) {
		s := s.fork()
		s.wghost()[tzPend] = strV(kind)
		res(s, true, 0, tokval(s, kind, bsetOf(set), false), &VNil{errT}, key, stack, ph)
	}
	value := func() {
		p := afterV(stack)
		scalar("string", `"`, false, p)
		scalar("number", "-0123456789", false, p)
		scalar("bool", "tf", false, p)
		scalar("null", "n", false, p)
		if len(stack) < rawDepth {
			delim('[', stack+"a", "A")
			delim('{', stack+"o", "O")
		}
	}
	pop := func() string { return stack[:len(stack)-1] }
	switch ph {
	case "V", "E":
		value()
	case "A":
		value()
		delim(']', pop(), afterV(pop()))
	case "O", "K":
		scalar("key", `"`, true, "C")
		if ph == "O" {
			delim('}', pop(), afterV(pop()))
		}
	case "C":
		delim(':', stack, "V")
	case "a":
		delim(',', stack, "E")
		delim(']', pop(), afterV(pop()))
	case "o":
		delim(',', stack, "K")
		delim('}', pop(), afterV(pop()))
	case "D":
		s := s.fork()
		s.wghost()[tzPend] = strV("")
		res(s, false, 0, nil, &VNil{errT}, false, "", "D")
	}
	return out
}

const rawDepth = 2

func sameObj(a V, b *VAddr) bool {
	x, ok := a.(*VAddr)
	return ok && x.o == b.o
}

// rawKindOf tells the grammar what the text of a label is.
func (r *encRun) rawKindOf(g gState, l *Label) (string, string) {
	sl, ok := asSlice(l.v)
	if !ok || l.k != LRaw {
		return "", ""
	}
	switch sl.base.op {
	case "tokval":
		return sl.base.aux, ""
	case "valid":
		return r.plainRaw()
	}
	if f := keyField(sl.base); f != "" {
		h, known := r.api.keyFields(r.c)[f]
		if !known {
			return "", ""
		}
		if h.html != r.cfg.html {
			return "", fmt.Sprintf("escapes:the name of a field is written %s HTML escaping", map[bool]string{true: "with", false: "without"}[h.html])
		}
		return "key", ""
	}
	switch r.okText[vkey(sl.base)] {
	case "number":
		return "number", ""
	case "value":
		return r.plainRaw()
	}
	return "", ""
}

func (r *encRun) plainRaw() (string, string) {
	if r.cfg.clrs != "nil" {
		return "", "raw text is written without colours"
	}
	if r.cfg.indent == "on" {
		return "", "raw text is written without indentation"
	}
	return "value", ""
}

// keyName is a struct field that holds an encoded key.
type keyName struct{ html bool }

func keyField(b *Term) string {
	if b.op != "field" {
		return ""
	}
	return b.aux
}

// keyFields finds the fields of structs that hold encoded names.
func (a *encAPI) keyFields(c *Ctx) map[string]keyName {
	if a.keys != nil {
		return a.keys
	}
	a.keys = map[string]keyName{}
	bad := map[string]bool{}
	for _, fn := range c.p.fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok || !isString(st.Val.Type()) {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
				name := tstrShort(pt) + "/" + fieldName(pt.Underlying().(*types.Struct), fa.Field)
				call, ok := st.Val.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil {
					bad[name] = true
					continue
				}
				html, ok := a.keyFn(c, call)
				if o, dup := a.keys[name]; !ok || dup && o.html != html {
					bad[name] = true
					continue
				}
				a.keys[name] = keyName{html}
			}
		}
	}
	for n := range bad {
		delete(a.keys, n)
	}
	return a.keys
}

// keyFn reports whether a call returns the string token of a string.
func (a *encAPI) keyFn(c *Ctx, call *ssa.Call) (html, ok bool) {
	fn := call.Call.StaticCallee()
	if fn.Blocks == nil || !c.p.inMain(fn) {
		return
	}
	e := newEngine(c.p)
	s := newState()
	var args []V
	var text *Term
	for i, v := range call.Call.Args {
		if k, isC := v.(*ssa.Const); isC {
			args = append(args, e.val(s, k))
			if types.Identical(k.Type(), a.flagsT) {
				html = k.Int64()&a.html != 0
			}
			continue
		}
		t := freshSym("arg", fn.Params[i].Type())
		if isString(t.typ) {
			if text != nil {
				return
			}
			text = t
		}
		args = append(args, e.wrap(t))
	}
	if text == nil {
		return
	}
	r := &encRun{api: a, c: c, cfg: encCfg{"nil", "nil", 0, html}, calls: map[string]bool{}, e: e}
	r.flags = mk("sym", "flags", a.flagsT)
	e.callHook = r.hook
	e.max = 2000
	e.start(s, fn, args, nil)
	e.run()
	if e.fail != "" || len(e.exits) != 1 || e.exits[0].panic || len(e.exits[0].res) != 1 {
		return
	}
	sl, isS := asSlice(e.exits[0].res[0])
	if dbgStr != "" {
		fmt.Println("KEYFN", fn, vstr(e.exits[0].res[0]))
	}
	if !isS {
		return
	}
	if sl.base.op != "region" || s.decEQ(sl.lo) != 1 {
		return
	}
	m, n := sl.base.args[0].(nodeRef).n, sl.base.args[1].(nodeRef).n
	ok = true
	gr := &grammar{clrs: "nil", keyRoot: true}
	res := gr.walk(e.g, m, []gState{{ph: "V"}}, map[*Node]bool{n: true}, func(gViol) { ok = false })
	for _, g := range res[n] {
		ok = ok && g.ph == "D" && g.tok == ""
	}
	for _, x := range e.g.nodes {
		for _, ed := range x.out {
			if ed.l.k == LTok && ed.l.v != nil {
				p, isS := asSlice(ed.l.v)
				ok = ok && isS && p.base == text
			}
		}
	}
	return html, ok && len(res[n]) > 0
}
