package main

import (
	"fmt"
	"go/token"
	"strings"
)

// The trace graph: nodes stand for contents of output buffers, edges append
// a label to a content. A node denotes the set of label sequences that lead
// to it from a start node.

type LKind int

const (
	LEps   LKind = iota
	LLit         // literal bytes
	LSet         // one byte out of set
	LRep         // any number of bytes, each out of set
	LColor       // the content of a color field
	LRaw         // the bytes of a sequence (v)
	LNum         // a formatted number
	LMant        // mantissa of a float, before its exponent
	LCall        // a value written by a callee under its contract
	LSub         // content between two nodes, moved
	LBad         // something that is not understood
	LTok         // a token written by a modelled library function
)

type Label struct {
	k   LKind
	s   string
	set bset
	v   V
	v2  []V
	a   *Node
	b   *Node
}

func (l *Label) key() string {
	w := &kw{}
	w.n(int64(l.k))
	w.s("|" + l.s + "|")
	if l.k == LSet || l.k == LRep {
		w.s(l.set.String())
	}
	w.v(l.v)
	for _, x := range l.v2 {
		w.s(",")
		w.v(x)
	}
	if l.a != nil {
		w.s(fmt.Sprintf("|%d-%d", l.a.id, l.b.id))
	}
	return w.sb.String()
}

func (l *Label) String() string {
	switch l.k {
	case LEps:
		return "ε"
	case LLit:
		return fmt.Sprintf("%q", l.s)
	case LSet:
		return "one of " + l.set.String()
	case LRep:
		return "bytes " + l.set.String() + "*"
	case LColor:
		return "COLOR(" + vstr(l.v) + ")"
	case LRaw:
		return "BYTES(" + vstr(l.v) + ")"
	case LNum:
		return "NUMBER(" + l.s + " " + vstr(l.v) + ")"
	case LMant:
		return "MANTISSA"
	case LCall:
		var a []string
		for _, x := range l.v2 {
			a = append(a, vstr(x))
		}
		return "VALUE(" + l.s + " " + vstr(l.v) + " " + strings.Join(a, " ") + ")"
	case LSub:
		return "MOVED"
	case LTok:
		return l.s
	}
	return "?" + l.s
}

type Edge struct {
	from, to *Node
	l        *Label
	pos      token.Pos
	fn       string
	stack    string
}

type Node struct {
	id  int
	in  []*Edge
	out []*Edge
	anc map[*Node]bool // nodes whose content is a prefix of this one's
}

type Graph struct {
	nodes []*Node
	tab   map[string]*Node
	eps   map[[2]int]bool
}

func newGraph() *Graph { return &Graph{tab: map[string]*Node{}, eps: map[[2]int]bool{}} }

var nodeIDs int // unique over all graphs, since terms refer to nodes

func (g *Graph) node() *Node {
	nodeIDs++
	n := &Node{id: nodeIDs, anc: map[*Node]bool{}}
	g.nodes = append(g.nodes, n)
	return n
}

func (g *Graph) start(key string) *Node {
	if n, ok := g.tab["start|"+key]; ok {
		return n
	}
	n := g.node()
	g.tab["start|"+key] = n
	return n
}

func (g *Graph) step(from *Node, l *Label, pos token.Pos, fn, stack string) *Node {
	k := fmt.Sprintf("%d|%s|%d", from.id, l.key(), pos)
	if n, ok := g.tab[k]; ok {
		return n
	}
	n := g.node()
	for a := range from.anc {
		n.anc[a] = true
	}
	n.anc[from] = true
	e := &Edge{from, n, l, pos, fn, stack}
	from.out = append(from.out, e)
	n.in = append(n.in, e)
	g.tab[k] = n
	return n
}

var epsLabel = &Label{k: LEps}

func (g *Graph) addEps(a, b *Node) {
	if a == b || g.eps[[2]int{a.id, b.id}] {
		return
	}
	g.eps[[2]int{a.id, b.id}] = true
	e := &Edge{from: a, to: b, l: epsLabel}
	a.out = append(a.out, e)
	b.in = append(b.in, e)
}
