package main

import (
	"fmt"
	"go/token"
	"strings"
)

// The reference automaton of encoded output: one JSON value whose tokens are
// colored and laid out as documented.

type gState struct {
	stack string // open containers, 'a' or 'o'
	ph    string // V value, A after [, O after {, a after element, o after member, K key, C colon, D done
	lay   string // white space since the last token: "", "n", "p", "i<count>", "sp"
	col   string // color prefix written for the next token
	tok   string // progress inside a token
	cls   string // kinds of content seen in a string
}

func (g gState) key() string {
	return g.stack + "|" + g.ph + "|" + g.lay + "|" + g.col + "|" + g.tok + "|" + g.cls
}

func (g gState) String() string {
	d := map[string]string{"V": "a value is expected", "A": "after [", "O": "after {", "a": "after an element", "o": "after a member", "K": "a key is expected", "C": "a colon is expected", "D": "the value is complete"}[g.ph]
	if g.tok != "" {
		d += ", inside token " + g.tok
	}
	if g.col != "" {
		d += ", after color " + g.col
	}
	if g.lay != "" {
		d += ", after white space " + g.lay
	}
	return d
}

type grammar struct {
	clrs    string // nil, all, fallback, some
	on      bool   // indented
	depth   int64
	keyRoot bool // the output is a key
	prefix  *Term
	indent  *Term
	call    func(g gState, level int64, l *Label) string
	raw     func(g gState, l *Label) (string, string) // kind of a raw label: class or error
	sub     func(m, n *Node) *gErr
	// problem classification
	rule string
}

func (gr *grammar) level(g gState) int64 { return gr.depth + int64(len(g.stack)) }

// gErr is a violation: the rule that is broken and the message.
type gErr struct{ rule, msg string }

func (gr *grammar) fieldSet(f string) bool {
	switch gr.clrs {
	case "all":
		return true
	case "fallback":
		return !granular[f]
	case "some":
		return f == "Key"
	}
	return false
}

// wanted is the color field of a token.
func (gr *grammar) puncField(b byte) string {
	f := map[byte]string{'[': "Brackets", ']': "Brackets", '{': "Braces", '}': "Braces", ',': "Comma", ':': "Colon"}[b]
	if !gr.fieldSet(f) {
		f = "Punc"
	}
	return f
}

func (gr *grammar) checkColor(g gState, want []string, what string) *gErr {
	if gr.clrs == "nil" {
		if g.col != "" {
			return &gErr{"color", "a color is written without colors"}
		}
		return nil
	}
	for _, w := range want {
		c := w
		if !gr.fieldSet(w) {
			c = ""
		}
		if g.col == c {
			return nil
		}
	}
	have := g.col
	if have == "" {
		have = "no color"
	}
	return &gErr{"colorclass", fmt.Sprintf("%s is written in %s instead of %s", what, have, strings.Join(want, " or "))}
}

// layOK checks the white space before a token.
func (gr *grammar) layOK(g gState, tokc byte) *gErr {
	want := ""
	if gr.on {
		L := gr.level(g)
		switch g.ph {
		case "A", "O":
			if tokc != ']' && tokc != '}' {
				want = fmt.Sprintf("i%d", L)
			}
		case "a", "o":
			if tokc == ']' || tokc == '}' {
				want = fmt.Sprintf("i%d", L-1)
			}
		case "K", "E":
			want = fmt.Sprintf("i%d", L)
		case "V":
			if len(g.stack) > 0 {
				want = "sp"
			}
		}
	}
	have := g.lay
	if have == "p" {
		have = "i0"
	}
	if have != want {
		n := func(s string) string {
			switch {
			case s == "":
				return "no white space"
			case s == "sp":
				return "one space"
			case s == "n":
				return "a line break without prefix"
			}
			return "a new line with " + s[1:] + " indents"
		}
		return &gErr{"layout", fmt.Sprintf("%s before %s (%s), %s expected", n(have), tokName(tokc), gState{ph: g.ph}.String(), n(want))}
	}
	return nil
}

func tokName(b byte) string {
	switch b {
	case 'k':
		return "a key"
	case 'v':
		return "a value"
	}
	return "'" + string([]byte{b}) + "'"
}

// startTok begins a token of the kind: punctuation or 'v' for scalars.
func (gr *grammar) startTok(g gState, b byte) (gState, byte, *gErr) {
	kind := byte('v')
	if strings.IndexByte("[]{},:", b) >= 0 {
		kind = b
	}
	isStr := b == '"'
	bad := func(s string) (gState, byte, *gErr) {
		return g, kind, &gErr{"grammar", fmt.Sprintf("%s is written where %s", tokName(kind), g.String())}
	}
	switch g.ph {
	case "V", "E", "A":
		if kind == 'v' || kind == '[' || kind == '{' || kind == ']' && g.ph == "A" {
			break
		}
		return bad("")
	case "O", "K":
		if kind == 'v' && isStr {
			kind = 'k'
			break
		}
		if kind == '}' && g.ph == "O" {
			break
		}
		return bad("")
	case "C":
		if kind != ':' {
			return bad("")
		}
	case "a":
		if kind != ',' && kind != ']' {
			return bad("")
		}
	case "o":
		if kind != ',' && kind != '}' {
			return bad("")
		}
	default:
		return bad("")
	}
	if err := gr.layOK(g, kind); err != nil {
		return g, kind, err
	}
	g.lay = ""
	return g, kind, nil
}

// endTok finishes the bytes of a token; a reset must follow with colors.
func (gr *grammar) endTok(g gState) gState {
	g.tok = ""
	g.cls = ""
	g.col = ""
	if gr.clrs != "nil" {
		g.tok = "R0"
	}
	return g
}

func afterValue(g gState) gState {
	if g.stack == "" {
		g.ph = "D"
	} else {
		g.ph = string(g.stack[len(g.stack)-1])
	}
	return g
}

// after sets the phase that follows a token.
func after(g gState, kind byte) gState {
	switch kind {
	case '[':
		g.stack += "a"
		g.ph = "A"
	case '{':
		g.stack += "o"
		g.ph = "O"
	case ']', '}':
		g.stack = g.stack[:len(g.stack)-1]
		return afterValue(g)
	case ',':
		if g.ph == "a" {
			g.ph = "E"
		} else {
			g.ph = "K"
		}
	case ':':
		g.ph = "V"
	case 'k':
		g.ph = "C"
	case 'v':
		return afterValue(g)
	}
	return g
}

const resetSeq = "\x1b[0m"

var literals = map[byte]string{'n': "null", 't': "true", 'f': "false"}
var litField = map[string]string{"null": "Null", "true": "Bool", "false": "Bool"}

func (gr *grammar) layRule(g gState) string {
	if r := gr.leak(g); r == "reset" {
		return r
	}
	return "layout"
}

// leak names the rule that is broken if something is written inside or
// after a color where it does not belong.
func (gr *grammar) leak(g gState) string {
	switch {
	case gr.clrs == "nil":
		return "color"
	case g.col != "" || g.tok != "" && g.tok[0] == 'R':
		return "reset"
	}
	return "grammar"
}

func (gr *grammar) numberDone(g gState) (gState, *gErr) {
	if err := gr.checkColor(g, []string{"Number"}, "a number"); err != nil {
		return g, err
	}
	return gr.endTok(after(g, 'v')), nil
}

// step consumes one byte.
func (gr *grammar) step(g gState, b byte) (gState, *gErr) {
	if g.tok == "md" && !(b >= '0' && b <= '9') {
		var err *gErr
		if g, err = gr.numberDone(g); err != nil {
			return g, err
		}
	}
	switch {
	case g.tok == "":
	case g.tok[0] == 'R':
		i := int(g.tok[1] - '0')
		if b != resetSeq[i] {
			return g, &gErr{"reset", fmt.Sprintf("a token is not followed by the reset sequence but by %q", string([]byte{b}))}
		}
		if i+1 == len(resetSeq) {
			g.tok = ""
		} else {
			g.tok = fmt.Sprintf("R%d", i+1)
		}
		return g, nil
	case g.tok[0] == 'l':
		lit := g.tok[2:]
		at := int(g.tok[1] - '0')
		if lit[at] != b {
			return g, &gErr{"grammar", "malformed literal"}
		}
		if at+1 == len(lit) {
			if err := gr.checkColor(g, []string{litField[lit]}, lit); err != nil {
				return g, err
			}
			return gr.endTok(after(g, 'v')), nil
		}
		g.tok = fmt.Sprintf("l%d%s", at+1, lit)
		return g, nil
	case g.tok[0] == 's' || g.tok[0] == 'k':
		k := g.tok[:1]
		switch g.tok[1:] {
		case "":
			switch {
			case b == '"':
				return gr.endString(g)
			case b == '\\':
				g.tok = k + "\\"
			case b < 0x20:
				return g, &gErr{"string", fmt.Sprintf("a control character %q is written into a string", string([]byte{b}))}
			}
			return g, nil
		case "\\":
			switch {
			case b == 'u':
				g.tok = k + "1"
			case strings.IndexByte(`"\/bfnrt`, b) >= 0:
				g.tok = k
			default:
				return g, &gErr{"string", "malformed escape sequence (" + fmt.Sprintf("%q", b) + ")"}
			}
			return g, nil
		default:
			if !(b >= '0' && b <= '9' || b >= 'a' && b <= 'f' || b >= 'A' && b <= 'F') {
				return g, &gErr{"string", "malformed escape sequence (" + fmt.Sprintf("%q", b) + ")"}
			}
			if g.tok[1] == '4' {
				g.tok = k
			} else {
				g.tok = k + string(g.tok[1]+1)
			}
			return g, nil
		}
	case g.tok[0] == 'm':
		switch {
		case g.tok == "m" && (b == 'e' || b == 'E'):
			g.tok = "me"
			return g, nil
		case g.tok == "me" && (b == '+' || b == '-'):
			g.tok = "ms"
			return g, nil
		case b >= '0' && b <= '9' && g.tok != "m":
			g.tok = "md"
			return g, nil
		}
		return g, &gErr{"number", "malformed exponent"}
	}
	// between tokens
	if g.col == "" {
		switch b {
		case '\n':
			if gr.on && g.lay == "" {
				g.lay = "n"
				return g, nil
			}
		case ' ':
			if gr.on && g.lay == "" {
				g.lay = "sp"
				return g, nil
			}
		}
	}
	switch b {
	case '[', ']', '{', '}', ',', ':':
		h, kind, err := gr.startTok(g, b)
		if err != nil {
			return g, err
		}
		if err := gr.checkColor(h, []string{gr.puncField(b)}, tokName(b)); err != nil {
			return g, err
		}
		return gr.endTok(after(h, kind)), nil
	case '"':
		h, kind, err := gr.startTok(g, b)
		if err != nil {
			return g, err
		}
		h.tok = "s"
		if kind == 'k' || gr.keyRoot && len(h.stack) == 0 {
			h.tok = "k"
		}
		return h, nil
	case 'n', 't', 'f':
		h, _, err := gr.startTok(g, b)
		if err != nil {
			return g, err
		}
		h.tok = "l1" + literals[b]
		return h, nil
	case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
		h, _, err := gr.startTok(g, b)
		if err != nil {
			return g, err
		}
		return gr.numberDone(h)
	case 0x1b:
		if gr.clrs == "nil" {
			return g, &gErr{"escape", "an escape code is written without colors"}
		}
		return g, &gErr{"reset", "a reset sequence is written that does not follow a token"}
	case ' ', '\n', '\t', '\r':
		if g.col != "" {
			return g, &gErr{"reset", fmt.Sprintf("white space %q follows color %s", string([]byte{b}), g.col)}
		}
		return g, &gErr{"layout", fmt.Sprintf("unexpected white space %q (%s)", string([]byte{b}), g.String())}
	}
	return g, &gErr{"grammar", fmt.Sprintf("byte %q is written where %s", string([]byte{b}), g.String())}
}

func (gr *grammar) endString(g gState) (gState, *gErr) {
	isKey := g.tok[0] == 'k'
	want := []string{"String", "Bytes", "Time", "TextMarshaler"}
	what := "a string"
	if isKey {
		want, what = []string{"Key"}, "a key"
	} else if g.cls != "" {
		want = []string{g.cls}
		what = "the text of a value of kind " + g.cls
	}
	if err := gr.checkColor(g, want, what); err != nil {
		return g, err
	}
	if isKey && !(gr.keyRoot && len(g.stack) == 0) {
		return gr.endTok(after(g, 'k')), nil
	}
	return gr.endTok(after(g, 'v')), nil
}

// label consumes a label; several states may result.
func (gr *grammar) label(g gState, l *Label) ([]gState, *gErr) {
	one := func(g gState, err *gErr) ([]gState, *gErr) { return []gState{g}, err }
	if g.tok == "md" && l.k != LLit && l.k != LSet {
		var err *gErr
		if g, err = gr.numberDone(g); err != nil {
			return nil, err
		}
	}
	if g.tok != "" && g.tok[0] == 'R' && l.k != LLit && l.k != LEps && l.k != LSub {
		return nil, &gErr{"reset", "a token is not followed by the reset sequence but by " + l.String()}
	}
	inStr := g.tok == "s" || g.tok == "k"
	switch l.k {
	case LEps:
		return one(g, nil)
	case LLit:
		for i := 0; i < len(l.s); i++ {
			var err *gErr
			if g, err = gr.step(g, l.s[i]); err != nil {
				return nil, err
			}
		}
		return one(g, nil)
	case LSet, LRep:
		set := l.set
		if l.k == LRep && !inStr {
			if g.tok == "" && g.col == "" {
				return gr.rawLabel(g, l)
			}
			return nil, &gErr{"grammar", l.String() + " is written where " + g.String()}
		}
		if inStr {
			if !set.and(strStop).empty() && l.k == LRep {
				return nil, &gErr{"string", "unescaped bytes " + set.and(strStop).String() + " may be written into a string"}
			}
			g = gr.classify(g, l)
			if l.k == LRep {
				return one(g, nil)
			}
		}
		seen := map[string]gState{}
		for _, b := range set.members() {
			h, err := gr.step(g, b)
			if err != nil {
				return nil, err
			}
			seen[h.key()] = h
		}
		var out []gState
		for _, h := range seen {
			out = append(out, h)
		}
		return out, nil
	case LNum, LMant:
		if g.tok != "" {
			if inStr {
				if !strings.HasPrefix(l.s, "float:?") {
					return one(gr.classify(g, l), nil)
				}
			}
			return nil, &gErr{"grammar", l.String() + " is written where " + g.String()}
		}
		h, _, err := gr.startTok(g, '0')
		if err != nil {
			return nil, err
		}
		if err := numberOK(l); err != nil {
			return nil, err
		}
		if l.k == LMant {
			h.tok = "m"
			return one(h, nil)
		}
		return one(gr.numberDone(h))
	case LCall:
		if g.tok != "" || g.col != "" {
			return nil, &gErr{gr.leak(g), l.String() + " is written where " + g.String()}
		}
		kind := byte('v')
		if l.s == "KEY" {
			kind = 'k'
			if g.ph != "O" && g.ph != "K" {
				return nil, &gErr{"grammar", "a key is written where " + g.String()}
			}
		} else if g.ph != "V" && g.ph != "A" && g.ph != "E" {
			return nil, &gErr{"grammar", "a value is written where " + g.String()}
		}
		if err := gr.layOK(g, kind); err != nil {
			return nil, err
		}
		g.lay = ""
		if gr.call != nil {
			if m := gr.call(g, gr.level(g), l); m != "" {
				return nil, &gErr{"propagation", m}
			}
		}
		return one(after(g, kind), nil)
	case LTok, LRaw:
		if l.k == LTok && l.s == "strlit" {
			return gr.strLit(g, l)
		}
		if l.k == LTok && strings.HasPrefix(l.s, "strlit with") {
			return nil, &gErr{"escapes", "a string is written with HTML escaping switched on or off against the options"}
		}
		return gr.rawLabel(g, l)
	case LBad:
		return nil, &gErr{"output", l.s}
	}
	return nil, &gErr{"grammar", l.String() + " is written where " + g.String()}
}

var strStop = func() bset {
	s := bsetRange(0, 0x1f)
	s.add('"')
	s.add('\\')
	return s
}()

func (gr *grammar) classify(g gState, l *Label) gState {
	if g.tok[0] == 'k' {
		return g
	}
	c := "String"
	switch {
	case l.k == LTok && strings.HasPrefix(l.s, "base64"):
		c = "Bytes"
	case l.k == LTok && strings.HasPrefix(l.s, "time"):
		c = "Time"
	case l.v != nil && strings.Contains(vstr(l.v), "MarshalText"):
		c = "TextMarshaler"
	}
	if g.cls == "" || g.cls == c {
		g.cls = c
	} else {
		g.cls = "String"
	}
	return g
}

// strLit consumes a whole string token.
func (gr *grammar) strLit(g gState, l *Label) ([]gState, *gErr) {
	if g.tok != "" {
		return nil, &gErr{"grammar", "a string is written where " + g.String()}
	}
	h, kind, err := gr.startTok(g, '"')
	if err != nil {
		return nil, err
	}
	h.tok = "s"
	if kind == 'k' || gr.keyRoot && len(h.stack) == 0 {
		h.tok = "k"
	}
	if sl, ok := asSlice(l.v); ok && sl.base.op == "region" {
		// the text is output itself, it has to be one value
		m, n := sl.base.args[0].(nodeRef).n, sl.base.args[1].(nodeRef).n
		h.cls = "" // any
		if gr.sub != nil {
			if e := gr.sub(m, n); e != nil {
				return nil, e
			}
		}
	} else {
		h = gr.classify(h, l)
	}
	h, err = gr.endString(h)
	return []gState{h}, err
}

func numberOK(l *Label) *gErr {
	s := l.s
	switch {
	case s == "int:10" || s == "uint:10":
		if x, ok := l.v.(Int); ok {
			for _, t := range x.ts {
				if t.t.op == "trunc" {
					return &gErr{"number", "a number is changed by a conversion before it is written: " + vstr(x)}
				}
			}
		}
		return nil
	case strings.HasPrefix(s, "int:"), strings.HasPrefix(s, "uint:"):
		return &gErr{"number", "a number is not written in base 10: " + s}
	case strings.HasPrefix(s, "float:finite:"):
		p := strings.Split(s, ":")
		ok := true
		var fm, prec, bits, src string
		for _, x := range p[2:] {
			k, v, _ := strings.Cut(x, "=")
			switch k {
			case "fmt":
				fm = v
			case "prec":
				prec = v
			case "bits":
				bits = v
			case "src":
				src = v
			}
		}
		ok = prec == "-1" && bits == src
		if !ok {
			return &gErr{"number", "a float is not written with the precision of its type: " + s}
		}
		if fm == fmt.Sprint(int('x')) || fm == fmt.Sprint(int('X')) || fm == fmt.Sprint(int('b')) {
			return &gErr{"number", "a float is not written in decimal"}
		}
		return nil
	case strings.HasPrefix(s, "float:"):
		return &gErr{"number", "a float that may be infinite or not a number is written"}
	}
	return &gErr{"number", "unknown number format " + s}
}

func (gr *grammar) rawLabel(g gState, l *Label) ([]gState, *gErr) {
	one := func(g gState, err *gErr) ([]gState, *gErr) { return []gState{g}, err }
	if l.k == LRaw {
		if sl, ok := asSlice(l.v); ok {
			switch {
			case sl.base.op == "color":
				if g.tok != "" || g.col != "" {
					return nil, &gErr{gr.leak(g), "color " + sl.base.aux + " is written where " + g.String()}
				}
				g.col = sl.base.aux
				return one(g, nil)
			case sl.base == gr.prefix:
				if g.tok != "" || g.col != "" || g.lay != "n" {
					return nil, &gErr{gr.layRule(g), "the prefix is written where " + g.String()}
				}
				g.lay = "p"
				return one(g, nil)
			case sl.base == gr.indent:
				if g.tok != "" || g.col != "" || g.lay != "p" && (g.lay == "" || g.lay[0] != 'i') {
					return nil, &gErr{gr.layRule(g), "an indent is written where " + g.String()}
				}
				n := 0
				if g.lay != "p" {
					fmt.Sscanf(g.lay, "i%d", &n)
				}
				if n > 20 {
					return nil, &gErr{"layout", "unbounded number of indents"}
				}
				g.lay = fmt.Sprintf("i%d", n+1)
				return one(g, nil)
			}
		}
	}
	inStr := g.tok == "s" || g.tok == "k"
	if inStr {
		if l.k == LTok && (strings.HasPrefix(l.s, "base64") || strings.HasPrefix(l.s, "time:") || l.s == "duration") {
			return one(gr.classify(g, l), nil)
		}
	}
	if gr.raw != nil {
		k, m := gr.raw(g, l)
		if x, ok := strings.CutPrefix(m, "escapes:"); ok {
			return nil, &gErr{"escapes", x}
		}
		if m != "" {
			return nil, &gErr{"raw", m}
		}
		if k != "" {
			return gr.rawKind(g, l, k)
		}
	}
	if inStr {
		return nil, &gErr{"string", "unescaped text " + l.String() + " is written into a string"}
	}
	return nil, &gErr{"grammar", l.String() + " is written where " + g.String()}
}

// rawKind consumes text that is known to be of a kind: key, string, number,
// value, content.
func (gr *grammar) rawKind(g gState, l *Label, k string) ([]gState, *gErr) {
	one := func(g gState, err *gErr) ([]gState, *gErr) { return []gState{g}, err }
	if k == "content" {
		if g.tok == "s" || g.tok == "k" {
			return one(gr.classify(g, l), nil)
		}
		return nil, &gErr{"grammar", "string content is written where " + g.String()}
	}
	if g.tok != "" {
		return nil, &gErr{"grammar", l.String() + " is written where " + g.String()}
	}
	switch k {
	case "key":
		h, kind, err := gr.startTok(g, '"')
		if err != nil {
			return nil, err
		}
		if kind != 'k' {
			return nil, &gErr{"grammar", "a key is written where " + g.String()}
		}
		h.tok = "k"
		return one(gr.endString(h))
	case "string":
		h, kind, err := gr.startTok(g, '"')
		if err != nil {
			return nil, err
		}
		h.tok = "s"
		if kind == 'k' {
			h.tok = "k"
		}
		return one(gr.endString(h))
	case "number":
		h, _, err := gr.startTok(g, '0')
		if err != nil {
			return nil, err
		}
		return one(gr.numberDone(h))
	case "null", "bool":
		h, _, err := gr.startTok(g, '0')
		if err != nil {
			return nil, err
		}
		f := map[string]string{"null": "Null", "bool": "Bool"}[k]
		if err := gr.checkColor(h, []string{f}, k); err != nil {
			return nil, err
		}
		return one(gr.endTok(after(h, 'v')), nil)
	case "value":
		if g.col != "" {
			return nil, &gErr{"reset", "a value is written after color " + g.col}
		}
		h, _, err := gr.startTok(g, '0')
		if err != nil {
			return nil, err
		}
		return one(after(h, 'v'), nil)
	}
	return nil, &gErr{"grammar", "unknown text " + k}
}

// gViol is a violation found on a path of the trace graph.
type gViol struct {
	gErr
	pos   token.Pos
	fn    string
	stack string
}

// walk runs the automaton over all paths from a node and returns the states
// at each target.
func (gr *grammar) walk(g *Graph, from *Node, init []gState, targets map[*Node]bool, report func(v gViol)) map[*Node]map[string]gState {
	type item struct {
		n *Node
		s gState
	}
	// nodes from which a target can be reached
	useful := map[*Node]bool{}
	var back []*Node
	for t := range targets {
		if !useful[t] {
			useful[t] = true
			back = append(back, t)
		}
	}
	for len(back) > 0 {
		n := back[len(back)-1]
		back = back[:len(back)-1]
		for _, ed := range n.in {
			if !useful[ed.from] {
				useful[ed.from] = true
				back = append(back, ed.from)
			}
		}
	}
	res := map[*Node]map[string]gState{}
	seen := map[string]bool{}
	var work []item
	push := func(n *Node, s gState) {
		k := fmt.Sprint(n.id, "#", s.key())
		if seen[k] {
			return
		}
		seen[k] = true
		if targets[n] {
			if res[n] == nil {
				res[n] = map[string]gState{}
			}
			res[n][s.key()] = s
		}
		work = append(work, item{n, s})
	}
	for _, s := range init {
		push(from, s)
	}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		for _, ed := range it.n.out {
			if !useful[ed.to] {
				continue
			}
			if ed.l.k == LSub {
				r := gr.walk(g, ed.l.a, []gState{it.s}, map[*Node]bool{ed.l.b: true}, report)
				for _, s := range r[ed.l.b] {
					push(ed.to, s)
				}
				continue
			}
			out, err := gr.label(it.s, ed.l)
			if err != nil {
				if dbgEmit && ed.l.k == LBad {
					dbgPath(dbgProg, ed.to, targets)
				}
				if dbgEmit {
					err.msg += " AT " + ed.l.String() + fmt.Sprint(ed.l.k, it.s)
				}
				report(gViol{*err, ed.pos, ed.fn, ed.stack})
				continue
			}
			for _, s := range out {
				push(ed.to, s)
			}
		}
	}
	return res
}
