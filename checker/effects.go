package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effects: which writes of the interpreted code may reach the memory of the
// caller.

// watch reports every write of the interpreted code, and whether the address
// is computed from one of the symbols that in selects.
func (e *Engine) watch(in func(*Term) bool, rep func(s *State, what string, bad bool)) {
	at := func(s *State, kind string, ins ssa.Instruction) string {
		if ins == nil && len(s.frames) > 0 {
			f := s.top()
			if f.pc < len(f.blk.Instrs) {
				ins = f.blk.Instrs[f.pc]
			}
		}
		if ins == nil {
			return kind
		}
		return kind + " in " + ins.Parent().Name() + " at " + e.P.pos(ins.Pos())
	}
	onStore, onAppend, onCall := e.onStore, e.onAppend, e.onCall
	e.onStore = func(e *Engine, s *State, ins ssa.Instruction, addr V, v V) {
		if onStore != nil {
			onStore(e, s, ins, addr, v)
		}
		bad := false
		switch a := addr.(type) {
		case *VElem:
			if sl, ok := asSlice(a.s); ok {
				bad = reaches(sl.base, in)
			} else {
				bad = reaches(a.s, in)
			}
		case *VAddr:
			bad = a.o == nil && reaches(a.root, in)
		case *Term:
			bad = reaches(a, in)
		}
		rep(s, at(s, "write", ins), bad)
	}
	e.onAppend = func(e *Engine, s *State, ins ssa.Instruction, dst V) {
		if onAppend != nil {
			onAppend(e, s, ins, dst)
		}
		if ins == nil && len(s.frames) > 0 {
			if f := s.top(); f.pc < len(f.blk.Instrs) {
				ins = f.blk.Instrs[f.pc]
			}
		}
		bad := false
		if sl, ok := asSlice(dst); ok && reaches(sl.base, in) {
			bad = true
			if ci, ok := ins.(ssa.CallInstruction); ok {
				for _, a := range ci.Common().Args {
					if capped(a, nil) {
						bad = false
					}
				}
			}
		}
		rep(s, at(s, "append", ins), bad)
	}
	e.onCall = func(e *Engine, s *State, c ssa.CallInstruction, name string, args []V) {
		if onCall != nil {
			onCall(e, s, c, name, args)
		}
		if i := libWrites(name); i >= 0 && i < len(args) {
			bad := false
			if sl, ok := asSlice(args[i]); ok {
				bad = reaches(sl.base, in)
			} else {
				bad = reaches(args[i], in)
			}
			rep(s, at(s, name, c), bad)
		}
	}
	e.onOpaque = func(e *Engine, s *State, fn *ssa.Function, args []V) {
		w := e.P.writesParams(fn)
		for i := range w {
			sl, ok := asSlice(args[i])
			rep(s, at(s, "call of "+fn.Name(), nil), ok && reaches(sl.base, in))
		}
	}
}

// capped reports whether a slice has no room behind its end, or is newly
// allocated, so that appending to it does not write to what it was cut from.
func capped(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	if seen == nil {
		seen = map[ssa.Value]bool{}
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Slice:
		if x.Max == nil {
			return false
		}
		if a, ok := x.Max.(*ssa.Const); ok {
			b, ok := x.High.(*ssa.Const)
			return ok && a.Int64() == b.Int64()
		}
		return x.Max == x.High || sameLen(x.Max, x.High)
	case *ssa.MakeSlice:
		return true
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Phi:
		for _, y := range x.Edges {
			if !capped(y, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return capped(x.Call.Args[0], seen)
		}
	}
	return false
}

// sameLen reports whether two values are the length of the same value.
func sameLen(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.Call)
	y, ok2 := b.(*ssa.Call)
	if !ok1 || !ok2 {
		return false
	}
	p, ok1 := x.Call.Value.(*ssa.Builtin)
	q, ok2 := y.Call.Value.(*ssa.Builtin)
	return ok1 && ok2 && p.Name() == "len" && q.Name() == "len" && x.Call.Args[0] == y.Call.Args[0]
}

// libWrites is the index of the argument that a library function writes to;
// -1 if there is none.
func libWrites(name string) int {
	switch {
	case reflectWrites[name], strings.HasPrefix(name, "strconv.Append"), strings.HasPrefix(name, "unicode/utf8.Append"):
		return 0
	}
	switch name {
	case "unicode/utf8.EncodeRune", "encoding/hex.Decode", "encoding/hex.Encode", "io.ReadFull":
		return 0
	case "(*encoding/base64.Encoding).Decode", "(*encoding/base64.Encoding).Encode", "(time.Time).AppendFormat":
		return 1
	}
	return -1
}

// writesParams lists the byte slice parameters whose memory a function may
// write to, by a flow through slices, phis, appends and calls.
func (p *Prog) writesParams(fn *ssa.Function) map[int]bool { return p.effects(fn).writes }

type effectSum struct {
	writes  map[int]bool // parameters written to
	returns map[int]bool // parameters that results may be parts of
}

func (p *Prog) effects(fn *ssa.Function) *effectSum {
	if r, ok := p.effect[fn]; ok {
		return r
	}
	if p.effect == nil {
		p.effect = map[*ssa.Function]*effectSum{}
	}
	w, ret := map[int]bool{}, map[int]bool{}
	r := &effectSum{w, ret}
	p.effect[fn] = r
	from := map[ssa.Value]map[int]bool{}
	get := func(v ssa.Value) map[int]bool {
		if from[v] == nil {
			from[v] = map[int]bool{}
		}
		return from[v]
	}
	for i, q := range fn.Params {
		if isByteSlice(q.Type()) || isString(q.Type()) {
			get(q)[i] = true
		}
	}
	changed := true
	flow := func(to ssa.Value, v ssa.Value) {
		for i := range from[v] {
			if !get(to)[i] {
				get(to)[i] = true
				changed = true
			}
		}
	}
	write := func(v ssa.Value) {
		for i := range from[v] {
			if !w[i] {
				w[i] = true
				changed = true
			}
		}
	}
	for changed {
		changed = false
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Slice:
					flow(x, x.X)
				case *ssa.Phi:
					for _, v := range x.Edges {
						flow(x, v)
					}
				case *ssa.IndexAddr:
					flow(x, x.X)
				case *ssa.ChangeType:
					flow(x, x.X)
				case *ssa.Extract:
					flow(x, x.Tuple)
				case *ssa.Return:
					for _, v := range x.Results {
						for i := range from[v] {
							ret[i] = true
						}
					}
				case *ssa.Store:
					write(x.Addr)
				case ssa.CallInstruction:
					a := x.Common().Args
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok {
						if n := bi.Name(); (n == "append" && len(a) > 1 && !capped(a[0], nil)) || n == "copy" || n == "clear" {
							write(a[0])
							if v := x.Value(); v != nil && n == "append" {
								flow(v, a[0])
							}
						}
						continue
					}
					cf := x.Common().StaticCallee()
					if cf == nil {
						continue
					}
					if i := libWrites(cf.String()); i >= 0 && i < len(a) {
						write(a[i])
					}
					if cf.Blocks == nil || !p.mine(cf) {
						continue
					}
					for i := range p.writesParams(cf) {
						write(a[i])
					}
					if v := x.Value(); v != nil {
						for i := range p.effects(cf).returns {
							flow(v, a[i])
						}
					}
				}
			}
		}
	}
	return r
}

var reflectWrites = map[string]bool{
	"(reflect.Value).Set": true, "(reflect.Value).SetBool": true, "(reflect.Value).SetBytes": true,
	"(reflect.Value).SetInt": true, "(reflect.Value).SetUint": true, "(reflect.Value).SetFloat": true,
	"(reflect.Value).SetString": true, "(reflect.Value).SetLen": true, "(reflect.Value).SetCap": true,
	"(reflect.Value).SetMapIndex": true, "(reflect.Value).SetPointer": true, "(reflect.Value).SetZero": true,
	"(reflect.Value).SetIterKey": true, "(reflect.Value).SetIterValue": true, "(reflect.Value).Clear": true,
	"reflect.Copy": true, "sort.Strings": true, "sort.Ints": true, "sort.Slice": true, "sort.SliceStable": true,
	"sort.Sort": true, "sort.Stable": true, "slices.Sort": true, "slices.SortFunc": true, "slices.Reverse": true,
}

// effectObl are the obligations of the writes, of all explorations.
var effectObl = map[string]*Obligation{}

// watchInput records every write and whether it may reach the caller's data.
func (e *Engine) watchInput(what string, in func(*Term) bool) {
	e.watch(in, func(s *State, at string, bad bool) {
		o := effectObl[at]
		if o == nil {
			o = &Obligation{rule: "effect", what: at, ok: true}
			effectObl[at] = o
		}
		if bad && o.ok {
			o.ok, o.msg = false, "it may write to "+what+" ("+e.stack(s)+")"
		}
	})
}

// isInput selects a symbol and the parts of it that are no longer followed.
func isInput(x *Term) func(*Term) bool {
	return func(t *Term) bool { return t == x || aliasSyms[t] }
}

func init() {
	register(&Check{id: "C16", level: "other",
		rule: "on every path of the validator, the parsers, the decode functions and the tokenizer, no store, append, copy or reflective setter has a target whose address is computed from the input; on every path of the encode functions none has a target computed from the encoded value, and the destination is only appended to",
		run: func(c *Ctx) {
			if w := decAnalysis(c); w == nil {
				return
			}
			if w := newDecWorld(c); w != nil {
				w.tokenizer()
			}
			parseAnalysis(c)
			n := 0
			for _, o := range effectObl {
				c.ob(o.rule, o.what, o.ok, o.msg)
				n++
			}
			c.need(n >= 50, "writes", fmt.Sprintf("only %d writes were found", n))
			encodeRes(c, "effect", "prefix")
		}, assum: []string{"methods of the user do not modify their receivers or arguments", "reads through package reflect give the memory of the value or copies of it"}})
}

// freshResults are the library calls whose result is newly allocated.
var freshResults = map[string]bool{
	"(reflect.Value).MapKeys": true, "(reflect.Value).String": true, "reflect.New": true, "reflect.MakeSlice": true,
	"reflect.MakeMap": true, "reflect.MakeMapWithSize": true, "reflect.Zero": true, "reflect.Append": true,
}

// reaches reports whether an address is computed from a selected symbol.
func reaches(v V, in func(*Term) bool) bool {
	switch x := v.(type) {
	case *Term:
		if in(x) {
			return true
		}
		switch x.op {
		case "sym", "newerr", "global", "newerror":
			return false
		}
		if freshResults[x.aux] {
			return false
		}
		for _, a := range x.args {
			if reaches(a, in) {
				return true
			}
		}
	case *VSlice:
		return reaches(x.base, in)
	case *VElem:
		return reaches(x.s, in)
	case *VAddr:
		return x.o == nil && reaches(x.root, in)
	case *VIface:
		return reaches(x.v, in)
	case Int:
		for _, y := range x.ts {
			if reaches(y.t, in) {
				return true
			}
		}
	}
	return false
}
