package main

import (
	"fmt"
	"os"
)

func (e *Engine) dbgMissing(from *Group, t *State) {
	if os.Getenv("URN_MISS") == "" {
		return
	}
	key, _, _, _ := e.canon(t)
	best, bn := "", -1
	for k := range e.groups {
		n := 0
		for n < len(k) && n < len(key) && k[n] == key[n] {
			n++
		}
		if n > bn {
			best, bn = k, n
		}
	}
	lo := bn - 200
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := bn + 300
		if hi > len(s) {
			hi = len(s)
		}
		return s[lo:hi]
	}
	fmt.Fprintf(os.Stderr, "MISS from group visits=%d\n want ..%s\n have ..%s\n", from.visits, cut(key), cut(best))
}

func (e *Engine) dbgComp(nodes []*rankNode, comp []int, es []*rankEdge, names []string) {
	if os.Getenv("URN_MISS") == "" {
		return
	}
	for _, n := range comp {
		pos, fn := e.instrPos(nodes[n].st)
		fmt.Fprintf(os.Stderr, "COMP node %d %v %v visits=%d\n", n, fn, pos, nodes[n].g.visits)
		for k, l := range nodes[n].slots {
			fmt.Fprintf(os.Stderr, "   %s = %v [%d,%d]\n", names[k], l, nodes[n].st.z.lb(l, con(0)), nodes[n].st.z.ub(l, con(0)))
		}
	}
	for _, x := range es {
		fmt.Fprintf(os.Stderr, "  EDGE %d -> %d", x.from, x.to)
		for k, d := range x.d {
			if d[0] != 0 || d[1] != 0 {
				fmt.Fprintf(os.Stderr, " %s:%d..%d", names[k], d[0], d[1])
			}
		}
		fmt.Fprintln(os.Stderr)
	}
}
