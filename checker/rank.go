package main

import (
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Termination. The fixpoint is a finite graph of groups; a run that does not end follows some cycle of it forever.
// Every edge bounds how much each number of the state changes. A measure is a difference of two numbers, plus an
// offset per group, that never grows along the edges of a component and is bounded from below in its groups: an
// edge it shrinks along cannot be taken forever. Components must fall apart this way until no cycle is left.

type rankEdge struct {
	from, to int
	d        map[int][2]int64 // label -> bounds of the change
	seq      int              // which of the edges of its source
	cost     string           // work on a whole text on the way
}

type edgeID struct{ from, seq int }

func (x *rankEdge) id() edgeID { return edgeID{x.from, x.seq} }

type rankNode struct {
	g     *Group
	slots map[int]Lin
	st    *State
}

// slotsOf lists the numbers of a state by the way they are reached.
func (e *Engine) slotsOf(st *State, id func(string) int) map[int]Lin {
	w := &walker{e: e, st: st, lab: true}
	out := map[int]Lin{}
	w.lin = func(l Lin, cls byte) Lin {
		if w.inSum == 0 && !st.sum[l.s] {
			k := id(strings.Join(w.label, ""))
			if _, dup := out[k]; !dup {
				out[k] = l
			}
		}
		return l
	}
	w.state(true)
	out[0] = con(0)
	return out
}

func (e *Engine) edgePass(fn *ssa.Function) {
	ids := map[string]int{"": 0}
	names := []string{"0"}
	id := func(s string) int {
		k, ok := ids[s]
		if !ok {
			k = len(names)
			ids[s] = k
			names = append(names, s)
		}
		return k
	}
	var nodes []*rankNode
	index := map[*Group]int{}
	for _, g := range e.glist {
		if g.isRet {
			continue
		}
		index[g] = len(nodes)
		nodes = append(nodes, &rankNode{g: g})
	}
	var edges []*rankEdge
	for i, n := range nodes {
		st := e.inst(n.g)
		n.st = st.clone()
		n.slots = e.slotsOf(st, id)
		e.follow(n, st, func(t *State, h *Group, seq int) {
			ed := &rankEdge{from: i, to: index[h], d: map[int][2]int64{}, seq: seq, cost: t.cost}
			for k, l := range e.slotsOf(t, id) {
				if s, ok := n.slots[k]; ok {
					ed.d[k] = [2]int64{t.z.lb(l, s), t.z.ub(l, s)}
				}
			}
			edges = append(edges, ed)
		}, true)
	}
	e.rankNodes += len(nodes)
	e.rankEdges += len(edges)
	all := make([]int, len(nodes))
	for i := range all {
		all[i] = i
	}
	e.rankID, e.rankNames = id, &names
	e.rankSplit(nodes, all, edges, names, nil)
}

// budget is what is known of a component that is not part of another: the edges that are taken at most as many
// times as the input is long (times a constant, plus one).
type budget struct {
	edges   []*rankEdge
	counted map[edgeID]bool
}

// shrunk: the edges a measure shrinks along, or nil where it can grow along an edge that is not counted, so that the
// total of its shrinking is not bounded by the counted edges.
func (b *budget) shrunk(f, s int) map[edgeID]bool {
	grow := func(x *rankEdge) int64 {
		d, ok := x.d[f]
		q, ok2 := x.d[s]
		if !ok || !ok2 || d[1] >= inf || q[0] <= -inf {
			return inf
		}
		return d[1] - q[0]
	}
	for _, x := range b.edges {
		if grow(x) >= inf {
			return nil
		}
	}
	psi, ok := potential(b.edges, func(x *rankEdge) (int64, bool) { return grow(x), !b.counted[x.id()] })
	if !ok {
		return nil
	}
	out := map[edgeID]bool{}
	for _, x := range b.edges {
		if b.counted[x.id()] || psi[x.to]-psi[x.from]+grow(x) < 0 {
			out[x.id()] = true
		}
	}
	return out
}

// potential gives offsets that make a measure that changes by at most f(x) along each edge it must not grow along
// shrink or stay there.
func potential(es []*rankEdge, f func(*rankEdge) (int64, bool)) (map[int]int64, bool) {
	psi := map[int]int64{}
	for round := 0; ; round++ {
		changed := false
		for _, x := range es {
			d, on := f(x)
			if !on {
				continue
			}
			if v := psi[x.from] - d; v < psi[x.to] {
				psi[x.to] = v
				changed = true
				if v < -200 {
					return nil, false
				}
			}
		}
		if !changed {
			return psi, true
		}
		if round > 300 {
			return nil, false
		}
	}
}

// follow runs a group and gives the groups its successors belong to.
func (e *Engine) follow(n *rankNode, st *State, to func(*State, *Group, int), report bool) {
	seq := 0
	e.exec(st, func(t *State) {
		if len(t.fr) == 0 {
			return
		}
		e.foldLists(t)
		found := false
		edge := func() {
			for _, h := range e.groupsOf(t) {
				found = true
				to(t, h, seq)
				seq++
			}
		}
		edge()
		if e.tooMany(t) {
			// the fixpoint may know the state with its texts forgotten, without them, or both
			e.widenTexts(t)
			edge()
		}
		if !found && report {
			e.event(t, "loop", "the fixpoint has no group for a successor")
		}
	})
}

var localName = regexp.MustCompile(`^f[0-9]+v[0-9]+[+-]?$`)

// aliases finds numbers that live on under another name, such as the index of a range loop, and makes each such
// family one more number of the groups.
//
// Strictly: only names that take over from each other wherever one ends and the other begins.
func (e *Engine) aliases(nodes []*rankNode, comp []int, es []*rankEdge, strict bool) []*rankEdge {
	names := *e.rankNames
	inside := map[int]bool{}
	for _, n := range comp {
		inside[n] = true
	}
	type key struct{ from, seq int }
	old := map[key]*rankEdge{}
	for _, x := range es {
		old[key{x.from, x.seq}] = x
	}
	up := map[int]int{}
	var find func(int) int
	find = func(k int) int {
		if p, ok := up[k]; ok && p != k {
			r := find(p)
			up[k] = r
			return r
		}
		return k
	}
	frame := func(k int) string { return names[k][:strings.Index(names[k], "v")] }
	pass := func(f func(n *rankNode, x *rankEdge, t *State, slots map[int]Lin)) {
		for _, i := range comp {
			n := nodes[i]
			e.follow(n, e.inst(n.g), func(t *State, h *Group, seq int) {
				if x := old[key{i, seq}]; x != nil && nodes[x.to].g == h {
					f(n, x, t, e.slotsOf(t, e.rankID))
				}
			}, false)
		}
	}
	type pair struct{ k, q int }
	met, held := map[pair]int{}, map[pair]int{}
	// the states of one run of a group share their symbols with the group's instance
	pass(func(n *rankNode, x *rankEdge, t *State, slots map[int]Lin) {
		for k, s := range n.slots {
			if _, stays := slots[k]; stays || !localName.MatchString(names[k]) {
				continue
			}
			for q, l := range slots {
				if _, was := n.slots[q]; was || !localName.MatchString((*e.rankNames)[q]) {
					continue
				}
				names = *e.rankNames
				if s.isConst() || frame(k) != frame(q) {
					continue
				}
				met[pair{k, q}]++
				if lo, hi := t.z.lb(l, s), t.z.ub(l, s); lo == hi && lo >= -4 && lo <= 4 {
					held[pair{k, q}]++
				}
			}
		}
	})
	var ps []pair
	for x := range held {
		ps = append(ps, x)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].k < ps[j].k || ps[i].k == ps[j].k && ps[i].q < ps[j].q })
	for _, x := range ps {
		if strict && held[x] < met[x] {
			continue
		}
		a, b := find(x.k), find(x.q)
		if a > b {
			a, b = b, a
		}
		up[b], up[a] = a, a
	}
	if len(up) == 0 {
		return nil
	}
	family := map[int]int{}
	var members []int
	for k := range up {
		members = append(members, k)
	}
	sort.Ints(members)
	for _, k := range members {
		r := find(k)
		if _, ok := family[r]; !ok {
			family[r] = e.rankID(map[bool]string{true: "family of ", false: "wide family of "}[strict] + names[r])
		}
	}
	pick := func(slots map[int]Lin) {
		for _, k := range members {
			if l, ok := slots[k]; ok {
				if f := family[find(k)]; true {
					if _, dup := slots[f]; !dup {
						slots[f] = l
					}
				}
			}
		}
	}
	for _, i := range comp {
		pick(nodes[i].slots)
	}
	var out []*rankEdge
	pass(func(n *rankNode, x *rankEdge, t *State, slots map[int]Lin) {
		pick(slots)
		y := &rankEdge{from: x.from, to: x.to, seq: x.seq, cost: x.cost, d: map[int][2]int64{}}
		for k, l := range slots {
			if s, ok := n.slots[k]; ok {
				y.d[k] = [2]int64{t.z.lb(l, s), t.z.ub(l, s)}
			}
		}
		out = append(out, y)
	})
	if len(out) != len(es) {
		return nil
	}
	return out
}

// rankSplit removes what cannot go on forever from a set of groups.
//
// Where that is looked at, it also tells whether the loops take more than linearly many rounds.
func (e *Engine) rankSplit(nodes []*rankNode, in []int, edges []*rankEdge, names []string, b *budget) {
	for _, comp := range sccs(in, edges) {
		inside := map[int]bool{}
		for _, n := range comp {
			inside[n] = true
		}
		var es []*rankEdge
		for _, x := range edges {
			if inside[x.from] && inside[x.to] {
				es = append(es, x)
			}
		}
		if len(es) == 0 {
			continue
		}
		e.rankComps++
		m, ok := e.measure(nodes, comp, es, names, b)
		if !ok {
			for _, strict := range []bool{true, false} {
				if ok {
					break
				}
				if more := e.aliases(nodes, comp, es, strict); more != nil {
					es, names = more, *e.rankNames
					m, ok = e.measure(nodes, comp, es, names, b)
				}
			}
		}
		if ok {
			if e.linear {
				e.costs(nodes, es, m, b)
			}
			if len(e.rankHow) < 40 {
				_, f := e.instrPos(nodes[comp[0]].st)
				h := f + ": " + m.how
				if !e.rankSeen[h] {
					if e.rankSeen == nil {
						e.rankSeen = map[string]bool{}
					}
					e.rankSeen[h] = true
					e.rankHow = append(e.rankHow, h)
				}
			}
			e.rankSplit(nodes, comp, m.rest, names, e.budgetOf(nodes, comp, es, m, b))
			continue
		}
		e.dbgComp(nodes, comp, es, names)
		// name the outermost position
		e.event(outermost(nodes, comp).st, "loop", "no bounded measure shrinks along this loop: it may run forever")
	}
}

// measured is a measure of a component, and what is left of the component without the edges it shrinks along.
type measured struct {
	rest    []*rankEdge
	how     string
	small   bool            // it starts from a number that does not depend on the input
	counted map[edgeID]bool // the edges that are taken linearly often, where they are
}

func (e *Engine) measure(nodes []*rankNode, comp []int, es []*rankEdge, names []string, b *budget) (*measured, bool) {
	// numbers present and boundedly changing everywhere
	lo, hi := map[int]int64{}, map[int]int64{}
	var labels []int
	for k := range nodes[comp[0]].slots {
		labels = append(labels, k)
	}
	sort.Ints(labels)
	var use []int
	for _, k := range labels {
		good := true
		for _, n := range comp {
			if _, has := nodes[n].slots[k]; !has {
				good = false
				break
			}
		}
		var l, h int64
		for _, x := range es {
			if !good {
				break
			}
			d, has := x.d[k]
			if !has {
				good = false
				break
			}
			if d[0] < l {
				l = d[0]
			}
			if d[1] > h {
				h = d[1]
			}
		}
		if good {
			use = append(use, k)
			lo[k], hi[k] = l, h
		}
	}
	try := func(a, b int) *measured {
		if a == b || hi[a] >= inf || lo[b] <= -inf {
			return nil
		}
		shrink := false
		for _, x := range es {
			if x.d[a][1]-x.d[b][0] < 0 {
				shrink = true
				break
			}
		}
		if !shrink {
			return nil
		}
		small := true
		for _, n := range comp {
			nd := nodes[n]
			if nd.st.z.lb(nd.slots[a], nd.slots[b]) <= -inf {
				return nil
			}
			if nd.st.z.ub(nd.slots[a], nd.slots[b]) >= inf {
				small = false
			}
		}
		psi, ok := potential(es, func(x *rankEdge) (int64, bool) { return x.d[a][1] - x.d[b][0], true })
		if !ok {
			return nil
		}
		m := &measured{small: small, how: names[a] + " - " + names[b]}
		for _, x := range es {
			if psi[x.to]-psi[x.from]+x.d[a][1]-x.d[b][0] >= 0 {
				m.rest = append(m.rest, x)
			}
		}
		if len(m.rest) < len(es) && less(comp, es, m.rest) {
			return m
		}
		return nil
	}
	konst := func(k int) bool { return lo[k] == 0 && hi[k] == 0 }
	var found *measured
	for pass := 0; pass < 2; pass++ {
		for _, f := range use {
			for _, s := range use {
				if (konst(f) || konst(s)) != (pass == 0) || konst(f) && konst(s) {
					continue
				}
				m := try(f, s)
				if m == nil {
					continue
				}
				m.counted = map[edgeID]bool{}
				rest := map[*rankEdge]bool{}
				for _, x := range m.rest {
					rest[x] = true
				}
				for _, x := range es {
					if !rest[x] {
						m.counted[x.id()] = true
					}
				}
				if !e.linear || b == nil {
					return m, true
				}
				if !m.small {
					if m.counted = b.shrunk(f, s); m.counted == nil {
						if found == nil {
							found = m
						}
						continue
					}
				}
				for x := range b.counted {
					m.counted[x] = true
				}
				return m, true
			}
		}
	}
	return found, found != nil
}

// budgetOf is what can be counted on inside a component.
func (e *Engine) budgetOf(nodes []*rankNode, comp []int, es []*rankEdge, m *measured, b *budget) *budget {
	switch {
	case !e.linear || b == nil && m.small: // a fixed number of rounds: what is inside is as good as outside
		return nil
	case b == nil:
		return &budget{es, m.counted}
	case m.counted == nil:
		e.event(outermost(nodes, comp).st, "superlinear", "a loop inside another one: their numbers of rounds may multiply (%s shrinks, but nothing bounds its growth in between)", m.how)
		return &budget{b.edges, b.counted}
	}
	return &budget{b.edges, m.counted}
}

func outermost(nodes []*rankNode, comp []int) *rankNode {
	best := nodes[comp[0]]
	for _, n := range comp {
		if len(nodes[n].st.fr) < len(best.st.fr) {
			best = nodes[n]
		}
	}
	return best
}

// less: do fewer edges lie on cycles?
func less(comp []int, before, after []*rankEdge) bool {
	count := func(es []*rankEdge) int {
		in := map[int]int{}
		for i, c := range sccs(comp, es) {
			for _, n := range c {
				in[n] = i + 1
			}
		}
		k := 0
		for _, x := range es {
			if in[x.from] != 0 && in[x.from] == in[x.to] {
				k++
			}
		}
		return k
	}
	return count(after) < count(before)
}

// sccs: the strongly connected components of a graph.
func sccs(in []int, edges []*rankEdge) [][]int {
	succ := map[int][]int{}
	for _, x := range edges {
		succ[x.from] = append(succ[x.from], x.to)
	}
	idx := map[int]int{}
	low := map[int]int{}
	on := map[int]bool{}
	var stack []int
	var out [][]int
	n := 0
	type fr struct{ v, i int }
	for _, r := range in {
		if _, ok := idx[r]; ok {
			continue
		}
		work := []fr{{r, 0}}
		for len(work) > 0 {
			f := &work[len(work)-1]
			v := f.v
			if f.i == 0 {
				n++
				idx[v], low[v] = n, n
				stack = append(stack, v)
				on[v] = true
			}
			pushed := false
			for f.i < len(succ[v]) {
				w := succ[v][f.i]
				f.i++
				if _, ok := idx[w]; !ok {
					work = append(work, fr{w, 0})
					pushed = true
					break
				} else if on[w] && idx[w] < low[v] {
					low[v] = idx[w]
				}
			}
			if pushed {
				continue
			}
			if low[v] == idx[v] {
				var c []int
				for {
					w := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					on[w] = false
					c = append(c, w)
					if w == v {
						break
					}
				}
				out = append(out, c)
			}
			work = work[:len(work)-1]
			if len(work) > 0 {
				p := work[len(work)-1].v
				if low[v] < low[p] {
					low[p] = low[v]
				}
			}
		}
	}
	return out
}

// costs reports work on a whole text that is done again and again.
func (e *Engine) costs(nodes []*rankNode, es []*rankEdge, m *measured, b *budget) {
	if b == nil && m.small {
		return
	}
	for _, x := range es {
		if x.cost != "" {
			e.event(nodes[x.from].st, "superlinear", "%s in every round of a loop", x.cost)
		}
	}
}
