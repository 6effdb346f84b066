package main

import (
	"fmt"
	"go/types"
	"os"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// The reference of escaping: everything that is written is compared with the
// source from left to right.

type escCheck struct {
	text    *Term
	hi      Int
	html    bool
	literal bool // the source is the content of the literal; otherwise the literal itself
	fn      string
	runs    int
	escs    int
}

func (k *escCheck) install(e *Engine) {
	e.onOut = k.out
	e.postGen = k.anchor
	old := e.preMerge
	e.preMerge = func(e *Engine, s *State) {
		if old != nil {
			old(e, s)
		}
		k.anchor(e, s)
	}
}

func (k *escCheck) pos(s *State) Int {
	if v, ok := s.ghost["E"].(Int); ok {
		return v
	}
	return ic(0)
}

// anchor expresses the position by a live variable.
func (k *escCheck) anchor(e *Engine, s *State) {
	p := k.pos(s)
	for i := len(s.frames) - 1; i >= 0; i-- {
		f := s.frames[i]
		l := live(f.fn)
		best := -1
		var bv Int
		for r, v := range f.regs {
			x, ok := v.(Int)
			if !ok || x.isConst() {
				continue
			}
			if o := l.order[r]; (best < 0 || o < best) && s.decEQ(x.sub(p)) == 1 {
				best, bv = o, x
			}
		}
		if best >= 0 {
			s.wghost()["E"] = bv
			return
		}
	}
}

func (k *escCheck) fail(e *Engine, s *State, what, msg string) {
	e.obl("escape", fmt.Sprintf("%s: %s", k.fn, what), false, fmt.Sprintf("%s (%s)", msg, e.where(s)))
}

// impossible reports whether the text up to a position cannot be the token.
func (k *escCheck) impossible(e *Engine, s *State, at Int) bool {
	if k.literal {
		return false
	}
	q, ok := e.qAt(s, k.text, at)
	return ok && q.all(func(st string) bool { return st == dead || s.decEQ(at.sub(k.hi)) == 1 && st != "*d" })
}

func (k *escCheck) dead(e *Engine, s *State, at Int) bool { return k.impossible(e, s, at) }

func (k *escCheck) phase(s *State) int64 {
	if v, ok := s.ghost["ph"].(Int); ok {
		return v.c
	}
	return 0
}

func (k *escCheck) out(e *Engine, s *State, src V) {
	if s.ghost["escbad"] != nil {
		return
	}
	if k.dead(e, s, k.pos(s)) {
		return
	}
	bad := func(what, msg string) {
		k.fail(e, s, what, msg)
		s.wghost()["escbad"] = ic(1)
	}
	sl, ok := asSlice(src)
	if !ok {
		bad("content", "something else than the text is written: "+vstr(src))
		return
	}
	if sl.base == k.text {
		k.run(e, s, sl.lo, sl.hi, bad)
		return
	}
	bs, ok := e.bytesOf(s, sl)
	if !ok {
		if s.decEQ(sl.hi.sub(sl.lo)) == 1 {
			return
		}
		bad("content", "something else than the text is written: "+vstr(src))
		return
	}
	for _, b := range bs {
		if !k.byte(e, s, b, bad) {
			return
		}
	}
}

func (k *escCheck) run(e *Engine, s *State, lo, hi Int, bad func(string, string)) {
	if s.decEQ(hi.sub(lo)) == 1 {
		return
	}
	k.runs++
	if p, ok := s.ghost["P"].(*VTuple); ok && len(p.e) > 0 {
		bad("escapes", "text is copied inside an escape sequence")
		return
	}
	if k.literal && k.phase(s) != 1 {
		bad("quotes", "text is copied outside the quotes")
		return
	}
	at := k.pos(s)
	if s.decEQ(lo.sub(at)) != 1 {
		if !k.impossible(e, s, hi) {
			bad("order", fmt.Sprintf("text is copied from %s although what was written ends at %s", vstr(lo), vstr(at)))
			return
		}
	}
	set, flags, ok := e.coverSpan(s, k.text, lo, hi)
	if k.literal {
		switch {
		case !ok:
			bad("content", "unexamined text is copied")
			return
		case !set.and(strStop).empty():
			bad("content", "bytes "+set.and(strStop).String()+" are copied without an escape")
			return
		case flags&spInvalid != 0:
			bad("content", "bytes that are not valid UTF-8 are copied")
			return
		case flags&spLineSep != 0:
			bad("content", "U+2028 or U+2029 is copied without an escape")
			return
		case flags&spOpaque != 0:
			bad("content", "text is copied without a check of its encoding")
			return
		}
	}
	if k.html && !k.impossible(e, s, hi) && (!ok || !set.and(htmlBytes).empty()) {
		if dbgStr != "" {
			fmt.Println("HTML", ok, set, vstr(lo), vstr(hi), dumpState(s))
		}
		bad("html", "<, > or & may be copied without an escape, although HTML escaping is on")
		return
	}
	e.obl("escape", fmt.Sprintf("%s: text copied at %s", k.fn, e.where(s)), true, "")
	s.wghost()["E"] = hi
}

func (k *escCheck) byte(e *Engine, s *State, b V, bad func(string, string)) bool {
	pend := &VTuple{}
	if p, ok := s.ghost["P"].(*VTuple); ok {
		pend.e = append(pend.e, p.e...)
	}
	at := k.pos(s)
	if len(pend.e) == 0 {
		if c, ok := b.(Int); ok && c.isConst() {
			switch {
			case k.literal && k.phase(s) == 0 && c.c == '"':
				s.wghost()["ph"] = ic(1)
				s.wghost()["E"] = ic(0)
				return true
			case k.literal && k.phase(s) == 1 && c.c == '"':
				s.wghost()["ph"] = ic(2)
				if s.decEQ(at.sub(k.hi)) != 1 {
					bad("end", "the text is not written to its end: written up to "+vstr(at))
					return false
				}
				return true
			case c.c == '\\' && (!k.literal || k.phase(s) == 1):
				pend.e = append(pend.e, c)
				s.wghost()["P"] = pend
				return true
			}
		}
		// one byte of the text
		if f, ok := b.(*BFn); ok && f.base == k.text && s.decEQ(f.pos.sub(at)) == 1 {
			id := true
			cur := s.byteSet(f.base, f.pos)
			for _, c := range cur.members() {
				id = id && f.tab[c] == int64(c)
			}
			if id {
				if k.literal && !cur.sub(cleanBytes.or(htmlBytes)) {
					bad("content", "bytes "+cur.String()+" are copied without an escape")
					return false
				}
				if k.html && !cur.and(htmlBytes).empty() {
					bad("html", "<, > or & may be copied without an escape, although HTML escaping is on")
					return false
				}
				s.wghost()["E"] = at.addc(1)
				return true
			}
		}
		bad("content", "something else than the text is written: "+vstr(b))
		return false
	}
	pend.e = append(pend.e, b)
	// the values of the source byte
	cur := s.byteSet(k.text, at)
	eval := func(v V, c int) int64 {
		switch x := v.(type) {
		case Int:
			if x.isConst() {
				return x.c
			}
		case *BFn:
			if x.base == k.text && s.decEQ(x.pos.sub(at)) == 1 {
				return x.tab[c]
			}
		}
		return -1
	}
	complete := 0
	for _, c := range cur.members() {
		n := 2
		if eval(pend.e[1], int(c)) == 'u' {
			n = 6
		}
		if complete != 0 && complete != n {
			bad("escapes", "escape sequences of different lengths")
			return false
		}
		complete = n
	}
	if len(pend.e) < complete {
		s.wghost()["P"] = pend
		return true
	}
	delete(s.wghost(), "P")
	k.escs++
	if !k.literal {
		if q, ok := e.qAt(s, k.text, at); !ok || !q.all(func(st string) bool { return st == "*i" || st == dead }) {
			bad("escapes", "an escape sequence is written where the text may be after a backslash")
			return false
		}
	}
	skip := int64(0)
	for _, c := range cur.members() {
		var r rune
		for i, v := range pend.e {
			x := eval(v, int(c))
			switch {
			case x < 0 || x > 255:
				bad("escapes", fmt.Sprintf("an escape sequence contains something that does not depend on the text: %s at %s (%d)", vstr(v), vstr(at), x))
				return false
			case i == 0:
			case complete == 2:
				m := map[int64]rune{'"': '"', '\\': '\\', '/': '/', 'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9}
				y, ok := m[x]
				if !ok {
					bad("escapes", fmt.Sprintf("malformed escape sequence \\%c", x))
					return false
				}
				r = y
			case i >= 2:
				var d int64
				switch {
				case x >= '0' && x <= '9':
					d = x - '0'
				case x >= 'a' && x <= 'f':
					d = x - 'a' + 10
				case x >= 'A' && x <= 'F':
					d = x - 'A' + 10
				default:
					bad("escapes", fmt.Sprintf("malformed escape sequence: %q is not a hexadecimal digit", rune(x)))
					return false
				}
				r = r<<4 | rune(d)
			}
		}
		n := int64(1)
		switch {
		case r == rune(c) && c < 0x80:
			if !k.html && htmlBytes.has(int(c)) {
				bad("html", fmt.Sprintf("%q is escaped although HTML escaping is off", rune(c)))
				return false
			}
		case r == utf8.RuneError && c >= 0x80:
			_, fl, ok := e.coverSpan(s, k.text, at, at.addc(1))
			if !ok || fl&spInvalid == 0 {
				bad("escapes", "U+FFFD is written for text that may be valid")
				return false
			}
		case r == 0x2028 || r == 0x2029:
			n = 3
			t := s.byteSet(k.text, at.addc(2))
			m := s.byteSet(k.text, at.addc(1))
			if c != 0xe2 || !m.sub(bsetRange(0x80, 0x80)) || !t.sub(bsetRange(int(r)-0x2028+0xa8, int(r)-0x2028+0xa8)) {
				bad("escapes", fmt.Sprintf("U+%04X is written for other text", r))
				return false
			}
		default:
			bad("escapes", fmt.Sprintf("byte %q is written as U+%04X", rune(c), r))
			return false
		}
		if skip != 0 && skip != n {
			bad("escapes", "escape sequences for texts of different lengths")
			return false
		}
		skip = n
	}
	e.obl("escape", fmt.Sprintf("%s: escape sequence at %s", k.fn, e.where(s)), true, "")
	s.wghost()["E"] = at.addc(skip)
	return true
}

// exit checks that everything was written.
func (k *escCheck) exit(e *Engine, x Exit) {
	if x.s.ghost["escbad"] != nil {
		return
	}
	at := k.pos(x.s)
	if p, ok := x.s.ghost["P"].(*VTuple); ok && len(p.e) > 0 {
		e.obl("escape", k.fn+": end", false, "the output ends inside an escape sequence at "+e.P.pos(x.pos))
		return
	}
	switch {
	case k.literal && k.phase(x.s) != 2:
		e.obl("escape", k.fn+": end", false, "the string is not closed at "+e.P.pos(x.pos))
	case x.s.decEQ(at.sub(k.hi)) != 1:
		if !k.literal {
			if k.impossible(e, x.s, k.hi) {
				return
			}
		}
		e.obl("escape", k.fn+": end", false, "the text is written up to "+vstr(at)+" only, at "+e.P.pos(x.pos))
	default:
		e.obl("escape", k.fn+": end", true, "")
	}
}

// escRun explores a function that copies JSON text and escapes it.
func (a *encAPI) escRun(c *Ctx, fn *ssa.Function, sh *strShape, html bool) *Engine {
	r := &encRun{api: a, c: c, cfg: encCfg{"nil", "nil", 0, html}, calls: map[string]bool{}, noStr: true}
	e := newEngine(c.p)
	r.e = e
	e.max = 30000
	s := newState()
	r.setup(c, s)
	all := allBytes
	e.spanRound = func(set bset, flags int) (bset, int) {
		if set.and(htmlBytes).empty() {
			return htmlBytes.not(), spOpaque
		}
		return all, spOpaque
	}
	e.spanClean = func(set bset, flags int) bool { return set.and(htmlBytes).empty() }
	var args []V
	var text *VSlice
	for i, q := range fn.Params {
		switch {
		case i == sh.dst:
			args = append(args, r.b)
		case i == sh.opt:
			args = append(args, r.encoder(e, s, q.Type()))
		case i == sh.pay:
			v := e.wrap(mk("sym", "text", q.Type()))
			text, _ = asSlice(v)
			args = append(args, v)
			e.watchInput("the encoded value", func(t *Term) bool { return t.op == "sym" && t.aux == "text" })
		default:
			args = append(args, r.option(e, s, q.Type(), q.Name()))
		}
	}
	if text == nil {
		return nil
	}
	k := &escCheck{text: text.base, hi: text.hi, html: html, fn: fn.Name()}
	k.install(e)
	addAnchor(s, text.base, text.lo, qset{"*s"})
	e.qMerge = func(e *Engine, s *State) { e.qUpdate(s) }
	s.wghost()["E"] = ic(0)
	if dbgStr == fn.Name() {
		dbgEngine(e)
	}
	e.start(s, fn, args, nil)
	e.run()
	if e.keys != nil {
		for l, n := range e.locs {
			fmt.Println("LOC", n, l)
			if n > 20 {
				os.WriteFile("/tmp/exp/keys2.txt", []byte(e.keys[l]), 0644)
			}
		}
	}
	for _, x := range e.exits {
		if x.panic {
			e.obl("escape", k.fn+": panic", false, x.why)
			continue
		}
		k.exit(e, x)
	}
	if e.fail != "" {
		e.obl("engine", fn.Name(), false, e.fail)
	}
	_ = types.Typ
	return e
}
