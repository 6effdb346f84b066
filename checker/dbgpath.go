package main

import "fmt"

// dbgPath prints a path between two nodes.
func dbgPath(p *Prog, from *Node, targets map[*Node]bool) {
	prev := map[*Node]*Edge{from: nil}
	q := []*Node{from}
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		if targets[n] {
			for prev[n] != nil {
				fmt.Println("   PATH", n.id, len(targets))
				fmt.Println("   PATH", n.id, prev[n].l, prev[n].fn, p.pos(prev[n].pos))
				n = prev[n].from
			}
			return
		}
		for _, ed := range n.out {
			if _, ok := prev[ed.to]; !ok {
				prev[ed.to] = ed
				q = append(q, ed.to)
			}
		}
	}
}

var dbgProg *Prog
