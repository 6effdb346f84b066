package main

import (
	"sort"
	"strings"
)

// A reference automaton for RFC 8259 texts. A state is a string: a base
// letter, the open containers from the outermost to the innermost, and the
// state of a scalar that has begun.
//
//	V   one value is expected; what follows it does not matter
//	W   white space and one value are expected
//	D,E the same after the value; X nothing can make the text valid
//
//	A  after '['       B  after an element     C  after ','
//	O  after '{'       P  after a key          Q  after ':'
//	R  after a member  T  after ','
//
//	s e 1 2 3 4                 strings
//	m z i p f x y k             numbers
//	b c d, g h j l, n o q       literals

const dead = "X"

var litNext = map[byte]struct {
	c byte
	n byte
}{'b': {'r', 'c'}, 'c': {'u', 'd'}, 'd': {'e', 0}, 'g': {'a', 'h'}, 'h': {'l', 'j'}, 'j': {'s', 'l'}, 'l': {'e', 0}, 'n': {'u', 'o'}, 'o': {'l', 'q'}, 'q': {'l', 0}}

func isSpaceB(b int) bool { return b == ' ' || b == '\t' || b == '\r' || b == '\n' }

func jDone(st string) string {
	// a value is complete on top of st
	n := len(st) - 1
	switch st[n] {
	case 'V':
		return "D"
	case 'W':
		return "E"
	case 'A', 'C':
		return st[:n] + "B"
	case 'Q':
		return st[:n] + "R"
	case 'O', 'T':
		return st[:n] + "P"
	}
	return dead
}

// jValue consumes a whole value that starts at the current byte.
func jValue(st string) string {
	switch st[len(st)-1] {
	case 'V', 'W', 'A', 'C', 'Q':
		return jDone(st)
	case 'D':
		return st
	}
	return dead
}

func jAccept(st string) bool {
	if st == "*d" {
		return true
	}
	switch st {
	case "D", "E":
		return true
	}
	if len(st) == 2 && (st[0] == 'V' || st[0] == 'W') {
		return strings.IndexByte("zifk", st[1]) >= 0
	}
	return false
}

func jNumber(st string) bool { return strings.IndexByte("mzipfxyk", st[len(st)-1]) >= 0 }

func jDepth(st string) int {
	n := 0
	for i := 1; i < len(st); i++ {
		if strings.IndexByte("ABCOPQRT", st[i]) >= 0 {
			n++
		}
	}
	return n
}

func jStep(st string, b int) string {
	if st == dead || st == "?" {
		return st
	}
	if st[0] == '*' {
		// a string token: *s before, *i inside, *e after a backslash, *d after
		switch {
		case st == "*s" && b == '"', st == "*e", st == "*i" && b != '"' && b != '\\':
			return "*i"
		case st == "*i" && b == '"':
			return "*d"
		case st == "*i":
			return "*e"
		}
		return dead
	}
	n := len(st) - 1
	top := st[n]
	rep := func(c byte) string { return st[:n] + string(c) }
	c := byte(b)
	digit := c >= '0' && c <= '9'
	switch top {
	case 'D':
		return st
	case 'E':
		if isSpaceB(b) {
			return st
		}
		return dead
	case 's':
		switch {
		case c == '"':
			return jDone(st[:n])
		case c == '\\':
			return rep('e')
		case c < 0x20:
			return dead
		}
		return st
	case 'e':
		switch c {
		case '"', '\\', '/', 'b', 'f', 'n', 'r', 't':
			return rep('s')
		case 'u':
			return rep('4')
		}
		return dead
	case '1', '2', '3', '4':
		if digit || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F' {
			if top == '1' {
				return rep('s')
			}
			return rep(top - 1)
		}
		return dead
	case 'm':
		if c == '0' {
			return rep('z')
		}
		if digit {
			return rep('i')
		}
		return dead
	case 'z', 'i', 'f', 'k':
		switch {
		case digit && top != 'z':
			return st
		case c == '.' && (top == 'z' || top == 'i'):
			return rep('p')
		case (c == 'e' || c == 'E') && top != 'k':
			return rep('x')
		}
		return jStep(jDone(st[:n]), b)
	case 'p':
		if digit {
			return rep('f')
		}
		return dead
	case 'x':
		if c == '+' || c == '-' {
			return rep('y')
		}
		if digit {
			return rep('k')
		}
		return dead
	case 'y':
		if digit {
			return rep('k')
		}
		return dead
	}
	if l, ok := litNext[top]; ok {
		if c != l.c {
			return dead
		}
		if l.n == 0 {
			return jDone(st[:n])
		}
		return rep(l.n)
	}
	// white space
	if isSpaceB(b) {
		if top == 'V' {
			return dead
		}
		return st
	}
	if len(st) > 8 {
		return "?"
	}
	pop := func() string {
		return jDone(st[:n])
	}
	switch top {
	case 'O', 'T':
		if c == '"' {
			return st + "s"
		}
		if c == '}' && top == 'O' {
			return pop()
		}
		return dead
	case 'P':
		if c == ':' {
			return rep('Q')
		}
		return dead
	case 'R':
		switch c {
		case ',':
			return rep('T')
		case '}':
			return pop()
		}
		return dead
	case 'B':
		switch c {
		case ',':
			return rep('C')
		case ']':
			return pop()
		}
		return dead
	case 'A', 'C', 'Q', 'V', 'W':
		if c == ']' && top == 'A' {
			return pop()
		}
		switch {
		case c == '{':
			return st + "O"
		case c == '[':
			return st + "A"
		case c == '"':
			return st + "s"
		case c == '-':
			return st + "m"
		case c == '0':
			return st + "z"
		case digit:
			return st + "i"
		case c == 't':
			return st + "b"
		case c == 'f':
			return st + "g"
		case c == 'n':
			return st + "n"
		}
	}
	return dead
}

// qset is a sorted set of states.
type qset []string

func (q qset) String() string { return strings.Join(q, ",") }

func newQ(m map[string]bool) qset {
	var r qset
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var stepMemo = map[string]qset{}

func (q qset) step(b bset) qset {
	key := q.String() + "|" + string(bsetBytes(b))
	if r, ok := stepMemo[key]; ok {
		return r
	}
	m := map[string]bool{}
	for _, s := range q {
		for c := 0; c < 256; c++ {
			if b.has(c) {
				m[jStep(s, c)] = true
			}
		}
	}
	r := newQ(m)
	if len(r) > 40 {
		r = qset{"?"}
	}
	stepMemo[key] = r
	return r
}

func bsetBytes(b bset) []byte {
	r := make([]byte, 0, 32)
	for _, x := range b {
		for i := 0; i < 8; i++ {
			r = append(r, byte(x>>(8*uint(i))))
		}
	}
	return r
}

var closureMemo = map[string]qset{}

func (q qset) closure(b bset) qset {
	key := q.String() + "|" + string(bsetBytes(b))
	if r, ok := closureMemo[key]; ok {
		return r
	}
	m := map[string]bool{}
	for _, s := range q {
		m[s] = true
	}
	var r qset
	for {
		n := len(m)
		for _, s := range newQ(m).step(b) {
			m[s] = true
		}
		r = newQ(m)
		if n > 40 || m["?"] {
			r = qset{"?"}
			break
		}
		if len(m) == n {
			break
		}
	}
	closureMemo[key] = r
	return r
}

func (q qset) dead() bool { return len(q) == 1 && q[0] == dead }

func (q qset) all(f func(string) bool) bool {
	for _, s := range q {
		if !f(s) {
			return false
		}
	}
	return len(q) > 0
}

// weight orders sets by how much they tell.
func (q qset) weight() int {
	if q.dead() {
		return 0
	}
	for _, s := range q {
		if s == "?" {
			return 1000
		}
	}
	return len(q)
}
