package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// verdict of the specification on the inputs of a state.
type verdict struct {
	acc, rej   bool   // some input of the state is (not) in the language
	wacc, wrej string // how such an input goes on
}

type specWalk struct {
	s    SpecState
	path string
}

// judge asks the specification about every way the input of a state can go on.
func judge(st *State) verdict {
	g := &st.g
	var v verdict
	set := func(s SpecState, path string) {
		if specFinal(g.mode, s) {
			if !v.acc {
				v.acc, v.wacc = true, path
			}
		} else if !v.rej {
			v.rej, v.wrej = true, path
		}
	}
	if g.s.ph == phDead {
		v.rej = true
		return v
	}
	lo, hi := st.z.lb(g.N, g.F), st.z.ub(g.N, g.F)
	if lo < 0 {
		lo = 0
	}
	max := lo + 110
	if hi < max {
		max = hi
	}
	cur := []specWalk{{g.s, ""}}
	for l := int64(0); l <= max; l++ {
		if l >= lo {
			for _, w := range cur {
				set(w.s, w.path)
			}
			if v.acc && v.rej {
				break
			}
		}
		bytes := allBytes
		for _, r := range g.ring {
			if st.z.isEq(r.pos, g.F.add(l)) {
				bytes = st.cells[r.cell].set
			}
		}
		seen := map[SpecState]bool{}
		var next []specWalk
		for _, w := range cur {
			for _, cl := range specClasses(g.mode, w.s) {
				b := bytes.and(cl.set)
				if b.empty() || seen[cl.next] {
					continue
				}
				seen[cl.next] = true
				next = append(next, specWalk{cl.next, w.path + string([]byte{b.sample()})})
			}
		}
		cur = next
	}
	return v
}

// where names the construct an outcome comes from: where the last byte was read.
func (a *API) where(st *State) string {
	for t := st.trace; t != nil; t = t.prev {
		if t.at.IsValid() {
			return a.e.posOf(t.at)
		}
	}
	return "entry"
}

func (a *API) at(fn *ssa.Function, st *State) string {
	return fmt.Sprintf("%s (%s, last byte read at %s)", fn.Name(), a.e.posOf(fn.Pos()), a.where(st))
}

// nilness: 1 nil, 0 not nil, -1 unknown.
func nilness(v Val) int {
	switch v := v.(type) {
	case PtrV:
		if v.obj == 0 {
			return 1
		}
		return 0
	case IfaceV:
		if v.t == nil {
			return 1
		}
		return 0
	case SliceV:
		if v.obj == 0 {
			return 1
		}
		return 0
	}
	return -1
}

// covers: is s made of the input bytes from..to in order? Each piece is given to f with its place.
func covers(e *Engine, st *State, s StrV, from, to Lin, f func(a Atom) bool) bool {
	p := from
	for _, a := range s.a {
		switch a.k {
		case aRegion:
			if !st.z.isEq(a.from, p) {
				return false
			}
			if !f(a) {
				return false
			}
			p = a.to
		case aConst:
			for i := 0; i < len(a.s); i++ {
				set, cell := e.known(st, p)
				b := a
				b.s = a.s[i : i+1]
				b.from, b.to = p, p.add(1)
				if set == allBytes && cell == 0 && !(st.g.xon && st.g.xpast && st.z.isEq(p, st.g.X)) {
					return false
				}
				if !f(b) {
					return false
				}
				p = p.add(1)
			}
		case aZero:
			if !st.z.isEq(a.from, a.to) {
				return false
			}
		default:
			return false
		}
	}
	return st.z.isEq(p, to)
}

// isRegion: is s exactly input[from:to)?
func isRegion(e *Engine, st *State, s StrV, from, to Lin) bool {
	return covers(e, st, s, from, to, func(a Atom) bool {
		if a.k == aConst {
			set, _ := e.known(st, a.from)
			b, ok := set.single()
			return ok && b == a.s[0]
		}
		return !a.dirty && a.x == nil && !a.lower
	})
}

// isMapped: is s of the length of input[from:to), and its value at the distinguished position what want says?
// The position must be known to be in the region.
func isMapped(e *Engine, st *State, s StrV, from, to Lin, want *Tab) bool {
	set := st.cells[st.g.xcell].set
	return covers(e, st, s, from, to, func(a Atom) bool {
		in := st.z.isLe(a.from, st.g.X, 0) && st.z.isLe(st.g.X, a.to, -1)
		out := st.z.isLe(st.g.X, a.from, -1) || st.z.isLe(a.to, st.g.X, 0)
		if out {
			return true
		}
		if !in {
			// can be either: must be right in both cases
			in = true
		}
		for b := 0; b < 256; b++ {
			if !set.has(byte(b)) {
				continue
			}
			got := int64(b)
			switch {
			case a.k == aConst:
				got = int64(a.s[0])
			case a.x != nil:
				f, ok := a.x.(FnV)
				if !ok || f.cell != st.g.xcell {
					c, okc := constOf(st, a.x)
					if !okc {
						return false
					}
					got = c
				} else {
					got = f.tab.v[b]
				}
			}
			if a.lower {
				got = lowerTab.v[got&255]
			}
			if got != want.v[b] {
				return false
			}
		}
		return true
	})
}

func asStr(v Val) (StrV, bool) {
	s, ok := v.(StrV)
	return s, ok
}

// span is a component of the input in the specification.
type span struct {
	from, to Lin
	ok       bool
}

type spans struct{ nid, nss, r, q, f, name, other span }

// components gives the components of an accepted input.
func components(st *State) spans {
	g := &st.g
	end := func(rs ...int) Lin {
		for _, r := range rs {
			if g.has(r) {
				return g.reg[r]
			}
		}
		return g.N
	}
	var c spans
	c.nid = span{con(4), g.reg[rgNidE], g.has(rgNidE)}
	c.nss = span{g.reg[rgNssS], end(rgNssE), g.has(rgNssS)}
	if g.has(rgRS) {
		c.r = span{g.reg[rgRS], end(rgRE), true}
	}
	if g.has(rgQS) {
		c.q = span{g.reg[rgQS], end(rgQE), true}
	}
	if g.has(rgFS) {
		c.f = span{g.reg[rgFS], g.N, true}
	}
	if g.has(rgNameS) {
		c.name = span{g.reg[rgNameS], end(rgNameE), true}
	}
	if g.has(rgOthS) {
		c.other = span{g.reg[rgOthS], g.N, true}
	}
	return c
}

// field reads a field of the struct a pointer points to.
func (a *API) field(st *State, p Val, t types.Type, name string) Val {
	pp, ok := p.(PtrV)
	if !ok || pp.obj == 0 {
		return TopV{why: "no object"}
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic(missing{"struct " + t.String()})
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			v, ok := getPath(st.obj(a.e, pp.obj).val, append(pathParts(pp.path), i))
			if !ok {
				return TopV{why: "field"}
			}
			return v
		}
	}
	panic(missing{"field " + name + " of " + t.String()})
}

// on calls a method of *T on root i of each state; the outcomes keep the roots.
func (a *API) on(t types.Type, name string, sts []*State, i int) []Ret {
	m := a.method(types.NewPointer(t), name)
	return a.e.call(m, sts, func(st *State) []Val { return []Val{st.roots[i]} })
}

// splitEq gives the state with two positions equal and the one with them different.
func splitEq(st *State, x, y Lin) (eq, ne []*State) {
	for _, o := range cmpLin(st.clone(), token.EQL, x, y) {
		if o.b {
			eq = append(eq, o.st)
		} else {
			ne = append(ne, o.st)
		}
	}
	return
}
