package main

import (
	"fmt"
	"go/token"
	"strings"
)

var lowerTab = func() *Tab {
	var v [256]int64
	for i := range v {
		v[i] = int64(i)
		if 'A' <= i && i <= 'Z' {
			v[i] += 32
		}
	}
	return mkTab(v)
}()

// regionStr is input[from:to).
func regionStr(st *State, from, to Lin) StrV {
	if st.z.isEq(from, to) {
		return StrV{}
	}
	return StrV{[]Atom{{k: aRegion, from: from, to: to}}}
}

// byteAtom is a one-byte string.
func byteAtom(st *State, v Val) Atom {
	if c, ok := constOf(st, v); ok {
		if _, isFn := v.(FnV); !isFn {
			return Atom{k: aConst, s: string([]byte{byte(c)})}
		}
	}
	if f, ok := v.(FnV); ok {
		c := st.cells[f.cell]
		a := Atom{k: aRegion, from: c.pos, to: c.pos.add(1)}
		ident := true
		for b := 0; b < 256; b++ {
			if c.set.has(byte(b)) && f.tab.v[b] != int64(b) {
				ident = false
			}
		}
		if !ident {
			if st.g.xon && st.z.isEq(c.pos, st.g.X) {
				a.x = f
			} else {
				a.dirty = true
			}
		}
		return a
	}
	return Atom{k: aByte, v: v}
}

func concatStr(st *State, a, b StrV) StrV {
	out := append([]Atom(nil), a.a...)
	for _, x := range b.a {
		if x.k == aConst && x.s == "" {
			continue
		}
		if (x.k == aRegion || x.k == aZero) && st.z.isEq(x.from, x.to) {
			continue
		}
		if n := len(out); n > 0 {
			l := out[n-1]
			switch {
			case l.k == aConst && x.k == aConst:
				out[n-1] = Atom{k: aConst, s: l.s + x.s}
				continue
			case l.k == aRegion && x.k == aRegion && st.z.isEq(l.to, x.from) && l.lower == x.lower && !(l.lower && (l.x != nil || x.x != nil)) &&
				!(st.g.mode == MSS && st.g.on && (l.dirty != x.dirty || l.v != nil || x.v != nil || l.x != nil && x.x != nil)):
				m := l
				m.to = x.to
				m.dirty = l.dirty || x.dirty
				if x.x != nil {
					m.x = x.x
				}
				out[n-1] = m
				continue
			case l.k == aTop && x.k == aTop:
				out[n-1] = Atom{k: aTop, stale: l.stale || x.stale}
				continue
			}
		}
		out = append(out, x)
	}
	vague, stale := 0, false
	for _, x := range out {
		if x.k == aTop || x.k == aByte {
			vague++
		}
		stale = stale || x.stale
	}
	if len(out) > 14 || vague > 1 {
		return topStr(stale)
	}
	return StrV{out}
}

// window is how far back the bytes of the input stay known.
func (g *Ghost) window() int64 {
	if g.mode == MSS {
		return 4
	}
	return 3
}

// settle puts the pieces of a text together that were made of bytes read long ago.
func (st *State) settle(in []Atom) []Atom {
	g := &st.g
	if !g.on || g.mode != MSS || st.z == nil {
		return in
	}
	behind := g.F.add(-g.window())
	var out []Atom
	same := true
	for _, x := range in {
		if x.k == aRegion && x.v != nil && !st.z.isLe(behind, x.from, 0) {
			x.v = nil
			same = false
		}
		if n := len(out); n > 0 && x.k == aRegion && out[n-1].k == aRegion {
			l := out[n-1]
			if l.v == nil && x.v == nil && st.z.isEq(l.to, x.from) && st.z.isLe(x.to, behind, 0) && (l.x == nil || x.x == nil) {
				l.settled(st)
				x.settled(st)
				if l.x == nil || x.x == nil {
					l.dirty = l.dirty || x.dirty
					if x.x != nil {
						l.x = x.x
					}
					l.to = x.to
					out[n-1] = l
					same = false
					continue
				}
			}
		}
		out = append(out, x)
	}
	if same {
		return in
	}
	return out
}

// settled makes a lowered part of the input one that was changed.
func (a *Atom) settled(st *State) {
	if !a.lower {
		return
	}
	a.lower, a.dirty = false, true
	if !st.g.xon || !st.g.xpast || st.z.isLe(st.g.X, a.from, -1) || st.z.isLe(a.to, st.g.X, 0) {
		return
	}
	if st.z.isLe(a.from, st.g.X, 0) && st.z.isLe(st.g.X, a.to, -1) {
		if a.x == nil {
			a.x = FnV{st.g.xcell, lowerTab}
			return
		}
		if f, ok := a.x.(FnV); ok {
			a.x = FnV{f.cell, mapTab(f.tab, func(v int64) int64 { return lowerTab.v[v&255] })}
			return
		}
	}
	a.x = TopV{why: "lowered"}
}

func topStr(stale bool) StrV { return StrV{[]Atom{{k: aTop, stale: stale}}} }

// someStr is any text, of a length that is the same wherever the text is looked at.
func someStr(st *State) StrV {
	return StrV{[]Atom{{k: aTop, sized: true, to: freshRange(st, 0, inf).l}}}
}

func (s StrV) stale() bool {
	for _, a := range s.a {
		if a.stale {
			return true
		}
	}
	return false
}

// atomLen gives the length of an atom as a number.
func (e *Engine) atomLen(st *State, a Atom) Val {
	switch a.k {
	case aConst:
		return IntV{l: con(int64(len(a.s)))}
	case aRegion, aZero:
		return mkDiff(st, a.to, a.from)
	case aByte:
		return IntV{l: con(1)}
	case aTop:
		if a.sized {
			return IntV{l: a.to}
		}
	case aSym:
		if a.sized && !a.lower {
			return IntV{l: a.to}
		}
		if emp, ok := st.facts[fmt.Sprintf("e:%d", a.id)]; ok {
			if emp {
				return IntV{l: con(0)}
			}
			return freshRange(st, 1, inf)
		}
	case aInt:
		return freshRange(st, 1, 20)
	}
	return freshRange(st, 0, inf)
}

func (e *Engine) strLen(st *State, s StrV) Val {
	var n Val = IntV{l: con(0)}
	ii := intInfo{64, false}
	for i, a := range s.a {
		l := e.atomLen(st, a)
		if i == 0 {
			n = l
		} else {
			n = e.arith(st, token.ADD, n, l, ii)
		}
	}
	return n
}

// known says what is known of the input byte at a position.
func (e *Engine) known(st *State, pos Lin) (ByteSet, int) {
	g := &st.g
	if !g.on {
		return allBytes, 0
	}
	s, cell := allBytes, 0
	if g.xon && g.xpast && st.z.isEq(pos, g.X) {
		s, cell = st.cells[g.xcell].set, g.xcell
	}
	for _, r := range g.ring {
		if st.z.isEq(r.pos, pos) {
			s, cell = st.cells[r.cell].set, r.cell
			break
		}
	}
	if t := g.knownAt(st, pos); t != allBytes {
		// what the states merged into this one had in common may be less than what the position says
		if n := s.and(t); !n.empty() {
			s = n
		}
	}
	return s, cell
}

// knownAt says what the place of a position in the input tells of its byte.
func (g *Ghost) knownAt(st *State, pos Lin) ByteSet {
	if c, ok := st.z.diff(pos, con(0)); ok && c >= 0 && int(c) < len(g.konst) {
		return g.konst[c]
	}
	sep := func(r int, d int64, b byte) bool { return g.has(r) && st.z.isEq(pos, g.reg[r].add(d)) }
	var s ByteSet
	switch {
	case sep(rgNidE, 0, ':'), sep(rgTypE, 0, ':'), sep(rgNameE, 0, ':'):
		s.add(':')
	case sep(rgRS, -2, '?'), g.has(rgQS) && sep(rgQS, -2, '?'):
		s.add('?')
	case sep(rgRS, -1, '+'):
		s.add('+')
	case sep(rgQS, -1, '='):
		s.add('=')
	case sep(rgFS, -1, '#'):
		s.add('#')
	case g.mode != MNone && g.s.ph != phDead && st.z.isEq(pos, con(3)) && st.z.isLe(con(4), g.F, 0):
		s.add(':')
	default:
		return allBytes
	}
	return s
}

func sameAtom(st *State, a, b Atom) bool {
	if a.k != b.k || a.lower != b.lower {
		return false
	}
	switch a.k {
	case aConst:
		return a.s == b.s
	case aRegion:
		return !a.dirty && !b.dirty && a.x == nil && b.x == nil && st.z.isEq(a.from, b.from) && st.z.isEq(a.to, b.to)
	case aSym:
		return a.id == b.id
	case aZero:
		return st.z.isEq(a.from, b.from) && st.z.isEq(a.to, b.to)
	}
	return false
}

func sameStr(st *State, a, b StrV) bool {
	if len(a.a) != len(b.a) {
		return false
	}
	for i := range a.a {
		if !sameAtom(st, a.a[i], b.a[i]) {
			return false
		}
	}
	return true
}

// emptyStr splits on whether a string is empty.
func (e *Engine) emptyStr(st *State, s StrV) []sb {
	out := []sb{{st, true}} // so far empty
	for _, a := range s.a {
		var next []sb
		for _, o := range out {
			if !o.b {
				next = append(next, o)
				continue
			}
			st := o.st
			switch a.k {
			case aConst:
				next = append(next, sb{st, a.s == ""})
			case aByte, aInt:
				next = append(next, sb{st, false})
			case aRegion, aZero:
				next = append(next, cmpLin(st, token.EQL, a.from, a.to)...)
			case aSym:
				for _, x := range factSplit(st, fmt.Sprintf("e:%d", a.id)) {
					if a.sized && (x.b && !x.st.z.eq(a.to, con(0)) || !x.b && !x.st.z.le(con(0), a.to, -1)) {
						continue
					}
					next = append(next, x)
				}
			default:
				if a.sized {
					next = append(next, cmpLin(st, token.EQL, a.to, con(0))...)
					continue
				}
				next = append(next, sb{st.clone(), true}, sb{st, false})
			}
		}
		out = next
	}
	return out
}

func factSplit(st *State, k string) []sb {
	if v, ok := st.facts[k]; ok {
		return []sb{{st, v}}
	}
	st2 := st.clone()
	st.facts[k] = true
	st2.facts[k] = false
	return []sb{{st, true}, {st2, false}}
}

// eqStr splits on the equality of two strings; fold compares without regard to ASCII case.
func (e *Engine) eqStr(st *State, a, b StrV, fold bool) []sb {
	if sameStr(st, a, b) {
		return []sb{{st, true}}
	}
	ca, aok := a.konst()
	cb, bok := b.konst()
	if aok && bok {
		if fold {
			return []sb{{st, strings.EqualFold(ca, cb)}}
		}
		return []sb{{st, ca == cb}}
	}
	if aok {
		a, b, ca, cb, aok, bok = b, a, cb, ca, bok, aok
	}
	if bok && cb == "" {
		return e.emptyStr(st, a)
	}
	if bok && len(a.a) == 1 && a.a[0].k == aRegion && !a.a[0].dirty && a.a[0].x == nil {
		r := a.a[0]
		var out []sb
		for _, o := range cmpLin(st, token.EQL, r.to, r.from.add(int64(len(cb)))) {
			if !o.b {
				out = append(out, o)
				continue
			}
			cur := []sb{o}
			for i := 0; i < len(cb); i++ {
				ch := cb[i]
				pred := func(b byte) bool {
					if r.lower || fold {
						if 'A' <= b && b <= 'Z' {
							b += 32
						}
						c := ch
						if fold && 'A' <= c && c <= 'Z' {
							c += 32
						}
						return b == c
					}
					return b == ch
				}
				var next []sb
				for _, c := range cur {
					if !c.b {
						next = append(next, c)
						continue
					}
					if d, ok := c.st.z.diff(r.from.add(int64(i)), c.st.g.F); ok && d >= 0 && c.st.g.on {
						// not read yet: what the comparison finds is known from here on
						for _, x := range e.readInput(c.st, r.from.add(int64(i))) {
							v, ok := x.v.(FnV)
							if !ok {
								next = append(next, sb{x.st.clone(), false}, sb{x.st, true})
								continue
							}
							holds := func(b byte) bool { return pred(byte(v.tab.v[b])) }
							s2 := x.st.clone()
							if s := narrow(x.st, v.cell, holds); s != nil {
								next = append(next, sb{s, true})
							}
							if s := narrow(s2, v.cell, func(b byte) bool { return !holds(b) }); s != nil {
								next = append(next, sb{s, false})
							}
						}
						continue
					}
					set, cell := e.known(c.st, r.from.add(int64(i)))
					any, all := false, true
					for b := 0; b < 256; b++ {
						if set.has(byte(b)) {
							if pred(byte(b)) {
								any = true
							} else {
								all = false
							}
						}
					}
					switch {
					case all:
						next = append(next, c)
					case !any:
						next = append(next, sb{c.st, false})
					case cell != 0:
						s2 := c.st.clone()
						if s := narrow(c.st, cell, pred); s != nil {
							next = append(next, sb{s, true})
						}
						if s := narrow(s2, cell, func(b byte) bool { return !pred(b) }); s != nil {
							next = append(next, sb{s, false})
						}
					default:
						s2 := c.st.clone()
						next = append(next, c, sb{s2, false})
					}
				}
				cur = next
			}
			out = append(out, cur...)
		}
		return out
	}
	// a constant whose length differs cannot be equal
	if bok {
		l := e.strLen(st, a)
		if lo, hi := bounds(st, l); lo > int64(len(cb)) || hi < int64(len(cb)) {
			return []sb{{st, false}}
		}
		// known first/last constant pieces
		if n := len(a.a); n > 0 && !fold {
			if f := a.a[0]; f.k == aConst && !strings.HasPrefix(cb, f.s) {
				return []sb{{st, false}}
			}
		}
		if len(a.a) == 1 && a.a[0].k == aSym && !fold {
			x := a.a[0]
			k := fmt.Sprintf("c:%d%v=%q", x.id, x.lower, cb)
			// two different constants cannot both be equal
			pre := fmt.Sprintf("c:%d%v=", x.id, x.lower)
			for f, v := range st.facts {
				if v && strings.HasPrefix(f, pre) && f != k {
					return []sb{{st, false}}
				}
			}
			if emp, ok := st.facts[fmt.Sprintf("e:%d", x.id)]; ok && emp {
				return []sb{{st, false}}
			}
			return factSplit(st, k)
		}
	}
	if len(a.a) == 1 && len(b.a) == 1 && a.a[0].k == aSym && b.a[0].k == aSym && !fold {
		x, y := a.a[0], b.a[0]
		if x.id > y.id || x.id == y.id && x.lower {
			x, y = y, x
		}
		ex, okx := st.facts[fmt.Sprintf("e:%d", x.id)]
		ey, oky := st.facts[fmt.Sprintf("e:%d", y.id)]
		if okx && oky && ex != ey {
			return []sb{{st, false}}
		}
		if okx && oky && ex && ey {
			return []sb{{st, true}}
		}
		return factSplit(st, fmt.Sprintf("q:%d%v,%d%v", x.id, x.lower, y.id, y.lower))
	}
	if len(a.a) == 1 && len(b.a) == 1 && a.a[0].k == aSym && b.a[0].k == aSym && fold {
		x, y := a.a[0], b.a[0]
		if x.id > y.id {
			x, y = y, x
		}
		return factSplit(st, fmt.Sprintf("q:%d%v,%d%v", x.id, true, y.id, true))
	}
	return []sb{{st.clone(), true}, {st, false}}
}

// lowerStr is strings.ToLower on ASCII.
func lowerStr(st *State, s StrV) StrV {
	out := make([]Atom, len(s.a))
	for i, a := range s.a {
		switch a.k {
		case aConst:
			a.s = strings.ToLower(a.s)
		case aRegion:
			if a.lower {
				break
			}
			if f, ok := a.x.(FnV); ok {
				a.x = FnV{f.cell, mapTab(f.tab, func(v int64) int64 { return lowerTab.v[v&255] })}
				a.dirty = true
			} else if a.x != nil {
				a = Atom{k: aTop}
			} else if st.g.xon && st.g.xpast && st.z.isLe(a.from, st.g.X, 0) && st.z.isLe(st.g.X, a.to, -1) {
				a.x = FnV{st.g.xcell, lowerTab}
				a.dirty = true
			} else {
				a.lower = true
			}
		case aSym:
			a.lower = true
		case aInt, aZero:
		case aByte:
			a = Atom{k: aByte, v: freshRange(st, 0, 255)}
		default:
			a = Atom{k: aTop, stale: a.stale}
		}
		out[i] = a
	}
	return StrV{out}
}

// locate finds the atom that holds coordinate c of a string starting at coordinate start.
type loc struct {
	st   *State
	i    int // atom, -1: unknown
	off  Lin // c - (start of atom) when rel, else position in the input
	rel  bool
	pos  Lin // for regions: position in the input
	aoff Lin // coordinate where the atom starts
}

func (e *Engine) locate(st *State, s StrV, start, c Lin) []loc {
	var out []loc
	cur := start
	for i, a := range s.a {
		var end Lin
		ok := true
		switch a.k {
		case aConst:
			end = cur.add(int64(len(a.s)))
		case aByte:
			end = cur.add(1)
		case aRegion, aZero:
			if d, k := st.z.diff(a.from, cur); k {
				end = a.to.add(-d)
			} else if d, k := st.z.diff(a.to, a.from); k {
				end = cur.add(d)
			} else {
				ok = false
			}
		case aSym, aTop:
			if ok = a.sized && !a.lower; ok {
				var d int64
				if d, ok = st.z.diff(cur, con(0)); ok {
					end = a.to.add(d)
				} else if d, ok = st.z.diff(a.to, con(0)); ok {
					end = cur.add(d)
				}
			}
		default:
			ok = false
		}
		if !ok {
			if i == len(s.a)-1 && a.k == aRegion {
				// length of the rest does not matter
			}
			return append(out, loc{st: st, i: -1})
		}
		in := cmpLin(st, token.LSS, c, end)
		var rest *State
		for _, o := range in {
			if !o.b {
				rest = o.st
				continue
			}
			l := loc{st: o.st, i: i, aoff: cur}
			if a.k == aRegion {
				if d, k := o.st.z.diff(a.from, cur); k {
					l.pos = c.add(d)
				} else if d, k := o.st.z.diff(c, cur); k {
					l.pos = a.from.add(d)
				} else {
					l.i = -1
				}
			}
			out = append(out, l)
		}
		if rest == nil {
			return out
		}
		st = rest
		cur = end
	}
	// past the end: only with an unproved bound
	return append(out, loc{st: st, i: -1})
}

// readByte reads the byte at coordinate c.
func (e *Engine) readByte(st *State, s StrV, start, c Lin) []sv {
	var out []sv
	for _, l := range e.locate(st, s, start, c) {
		st := l.st
		if l.i < 0 {
			stale := s.stale()
			if stale {
				out = append(out, sv{st, TopV{true, "bytes of an earlier call"}})
			} else {
				out = append(out, sv{st, freshRange(st, 0, 255)})
			}
			continue
		}
		a := s.a[l.i]
		switch a.k {
		case aConst:
			if d, ok := st.z.diff(c, l.aoff); ok && d >= 0 && int(d) < len(a.s) {
				out = append(out, sv{st, IntV{con(int64(a.s[d])), true}})
			} else {
				lo, hi := int64(255), int64(0)
				for k := 0; k < len(a.s); k++ {
					if v := int64(a.s[k]); v < lo {
						lo = v
					}
					if v := int64(a.s[k]); v > hi {
						hi = v
					}
				}
				out = append(out, sv{st, freshRange(st, lo, hi)})
			}
		case aByte:
			out = append(out, sv{st, a.v})
		case aZero:
			out = append(out, sv{st, IntV{con(0), true}})
		case aRegion:
			low := func(v Val) Val {
				if f, ok := v.(FnV); ok && a.lower {
					return FnV{f.cell, mapTab(f.tab, func(v int64) int64 { return lowerTab.v[v&255] })}
				} else if a.lower {
					return nil
				}
				return v
			}
			fin := func(rs []sv) {
				for _, r := range rs {
					v := low(r.v)
					if v == nil {
						v = freshRange(r.st, 0, 255)
					}
					out = append(out, sv{r.st, v})
				}
			}
			if a.v != nil {
				if f, ok := a.v.(FnV); !ok || st.cells[f.cell] != nil {
					fin([]sv{{st, a.v}})
					continue
				}
			}
			if a.dirty || a.x != nil {
				if st.g.xon {
					for _, o := range cmpLin(st, token.EQL, l.pos, st.g.X) {
						switch {
						case o.b && a.x != nil:
							out = append(out, sv{o.st, a.x})
						case o.b:
							fin(e.readInput(o.st, l.pos))
						case a.dirty:
							out = append(out, sv{o.st, freshRange(o.st, 0, 255)})
						default:
							fin(e.readInput(o.st, l.pos))
						}
					}
				} else {
					out = append(out, sv{st, freshRange(st, 0, 255)})
				}
				continue
			}
			fin(e.readInput(st, l.pos))
		default:
			out = append(out, sv{st, freshRange(st, 0, 255)})
		}
	}
	return out
}

// readInput reads the input at a position, advancing the specification when it is the first unread byte.
func (e *Engine) readInput(st *State, pos Lin) []sv {
	g := &st.g
	if !g.on {
		return one(st, freshRange(st, 0, 255))
	}
	if d, ok := st.z.diff(pos, g.F); ok {
		if d == 0 {
			var out []sv
			for _, s := range e.consume(st) {
				out = append(out, sv{s, FnV{s.g.ring[len(s.g.ring)-1].cell, tabIdent}})
			}
			// the ring may hold peeked cells behind the consumed one
			for i, o := range out {
				for _, r := range o.st.g.ring {
					if o.st.z.isEq(r.pos, pos) {
						out[i].v = FnV{r.cell, tabIdent}
					}
				}
			}
			return out
		}
		if d > 0 {
			for _, r := range g.ring {
				if st.z.isEq(r.pos, pos) {
					return one(st, FnV{r.cell, tabIdent})
				}
			}
			if g.mode == MSS && d <= 4 {
				// let the specification catch up
				cur := []*State{st}
				for ; d >= 0; d-- {
					var next []*State
					for _, s := range cur {
						next = append(next, e.consume(s)...)
					}
					cur = next
				}
				var out []sv
				for _, s := range cur {
					out = append(out, e.readInput(s, pos)...)
				}
				return out
			}
			if d > 40 {
				return one(st, freshRange(st, 0, 255))
			}
			c := st.newCell(pos, allBytes)
			g.ring = append(g.ring, ringEnt{pos, c})
			return one(st, FnV{c, tabIdent})
		}
		for _, r := range g.ring {
			if st.z.isEq(r.pos, pos) {
				return one(st, FnV{r.cell, tabIdent})
			}
		}
	}
	if _, ok := st.z.diff(pos, g.F); !ok && st.z.canEq(pos, g.F) {
		var out []sv
		for _, o := range cmpLin(st, token.EQL, pos, g.F) {
			switch {
			case o.b:
				out = append(out, e.readInput(o.st, o.st.g.F)...)
			case o.st.z.isLe(pos, o.st.g.F, -1):
				out = append(out, e.readInput(o.st, pos)...)
			default:
				out = append(out, sv{o.st, freshRange(o.st, 0, 255)})
			}
		}
		return out
	}
	if g.xon && g.xpast {
		var out []sv
		for _, o := range cmpLin(st, token.EQL, pos, g.X) {
			if o.b {
				out = append(out, sv{o.st, FnV{o.st.g.xcell, tabIdent}})
			} else {
				out = append(out, e.readOld(o.st, pos)...)
			}
		}
		return out
	}
	return e.readOld(st, pos)
}

func (e *Engine) readOld(st *State, pos Lin) []sv {
	for _, r := range st.g.ring {
		if st.z.isEq(r.pos, pos) {
			return one(st, FnV{r.cell, tabIdent})
		}
	}
	if set, _ := e.known(st, pos); set != allBytes {
		if b, ok := set.single(); ok {
			return one(st, IntV{con(int64(b)), true})
		}
		c := st.newCell(pos, set)
		return one(st, FnV{c, tabIdent})
	}
	if g := &st.g; g.mode == MSS && st.z.isLe(pos, g.F, -1) {
		return one(st, FnV{st.newCell(pos, g.old), tabIdent})
	}
	return one(st, freshRange(st, 0, 255))
}

// consume lets the specification read the next byte of the input.
func (e *Engine) consume(st *State) []*State {
	g := &st.g
	ci := -1
	for i, r := range g.ring {
		if st.z.isEq(r.pos, g.F) {
			ci = i
		}
	}
	if ci < 0 {
		c := st.newCell(g.F, g.rest)
		g.ring = append(g.ring, ringEnt{g.F, c})
		ci = len(g.ring) - 1
	}
	cell := g.ring[ci].cell
	set := st.cells[cell].set
	at := e.readAt(st)
	var out []*State
	for _, cl := range specClasses(g.mode, g.s) {
		s := set.and(cl.set)
		if s.empty() {
			continue
		}
		if e.dropDead && cl.next.ph == phDead {
			continue
		}
		n := st.clone()
		n.setCell(cell, s)
		n.trace = &Trace{prev: st.trace, set: s, at: at}
		ng := &n.g
		pos := ng.F
		if k, ok := n.z.diff(pos, con(0)); ok && int(k) == len(ng.konst) && k < 40 &&
			(ng.s.ph == phPre || ng.s.ph == phCol || ng.s.ph == phScimNid || ng.s.ph == phScimTyp) {
			ng.konst = append(ng.konst, s)
		}
		for _, a := range cl.acts {
			if a.cp != 0 {
				ng.reg[a.reg] = ng.reg[a.cp-1]
			} else {
				ng.reg[a.reg] = pos.add(a.d)
			}
			ng.def |= 1 << a.reg
		}
		ng.s = cl.next
		for r := 0; r < nReg; r++ {
			if ng.has(r) && !regLive(ng.s, r) {
				ng.def &^= 1 << r
			}
		}
		if ng.s.ph == phDead {
			ng.konst = nil
		}
		ng.F = pos.add(1)
		n.z.le(ng.F, ng.N, 0)
		// forget bytes further back
		var ring []ringEnt
		for _, r := range ng.ring {
			if n.z.ub(ng.F, r.pos) <= ng.window() {
				ring = append(ring, r)
			} else {
				ng.old = ng.old.or(n.cells[r.cell].set)
			}
		}
		ng.ring = ring
		if ng.xon && !ng.xpast {
			for _, o := range cmpLin(n, token.EQL, pos, ng.X) {
				if o.b {
					if cl.x == xPre || cl.x == xOther && g.mode != MSCIM {
						continue // only positions of the identifier and the specific string are looked at
					}
					o.st.g.xpast = true
					o.st.markOld()
					o.st.g.xcell = cell
					o.st.g.xclass = cl.x
				} else if ng.has(rgNssE) || !o.st.z.le(o.st.g.F, o.st.g.X, 0) { // pos < X: never behind it here
					continue
				}
				out = append(out, o.st)
			}
			continue
		}
		out = append(out, n)
	}
	return out
}

// jump lets the specification read on to a position without telling the bytes apart, which are of a set.
func (e *Engine) jump(st *State, to Lin, set ByteSet) []*State {
	if st.z.isEq(st.g.F, to) {
		return []*State{st}
	}
	set = set.and(st.g.rest)
	skip := func(st *State, to Lin) []*State {
		seen := map[SpecState]bool{st.g.s: true}
		todo := []SpecState{st.g.s}
		var out []*State
		for i := 0; i < len(todo); i++ {
			n := st.clone()
			least := int64(0)
			if i > 0 {
				least = -1
			}
			if n.z.le(n.g.F, to, least) && n.z.le(to, n.g.N, 0) {
				for _, r := range n.g.ring {
					n.g.old = n.g.old.or(n.cells[r.cell].set)
				}
				n.g.s, n.g.F, n.g.ring = todo[i], to, nil
				n.g.old = n.g.old.or(set)
				n.trace = &Trace{prev: st.trace, note: "…"}
				out = append(out, n)
			}
			for _, cl := range specClasses(st.g.mode, todo[i]) {
				if !cl.set.and(set).empty() && cl.next.ph != phDead && !seen[cl.next] {
					seen[cl.next] = true
					todo = append(todo, cl.next)
				}
			}
		}
		return out
	}
	if !st.g.xon || st.g.xpast {
		return skip(st, to)
	}
	var out []*State
	for _, o := range cmpLin(st, token.LSS, st.g.X, to) {
		if !o.b {
			out = append(out, skip(o.st, to)...)
			continue
		}
		for _, s := range skip(o.st, o.st.g.X) {
			s.g.ring = []ringEnt{{s.g.F, s.newCell(s.g.F, set)}}
			for _, p := range e.consume(s) {
				out = append(out, e.jump(p, to, set)...)
			}
		}
	}
	return out
}

// indexSet looks for the first byte of a set in a text; a position is -1 when there is none.
func (e *Engine) indexSet(st *State, s StrV, set ByteSet, only bool) []sv {
	none, ii := IntV{l: con(-1)}, intInfo{64, false}
	if k, ok := s.konst(); ok {
		for i := 0; i < len(k); i++ {
			if set.has(k[i]) {
				return one(st, IntV{l: con(int64(i))})
			}
		}
		return one(st, none)
	}
	var out []sv
	for _, o := range e.emptyStr(st, s) {
		st := o.st
		if o.b {
			out = append(out, sv{st, none})
			continue
		}
		if g := &st.g; g.on && g.mode == MSS && len(s.a) == 1 && s.a[0].k == aRegion && !s.a[0].dirty && s.a[0].x == nil && !s.a[0].lower {
			a := s.a[0]
			at := func(st *State, p Lin) {
				out = append(out, sv{st, mkDiff(st, p, a.from)})
			}
			if st.z.isLe(a.to, g.F, 0) { // read before
				if _, back := st.z.diff(a.from, g.F); !back {
					all := g.old
					for _, r := range g.ring {
						all = all.or(st.cells[r.cell].set)
					}
					if all.and(set).empty() {
						out = append(out, sv{st, none})
						continue
					}
				}
			}
			if d, ok := st.z.diff(g.F, a.from); ok && d >= 0 && d <= g.window() && (st.z.isEq(a.to, g.N) || st.z.isLe(a.to, g.F, 0)) {
				cur := []*State{st}
				for k := int64(0); k < d && len(cur) > 0; k++ { // bytes read before
					var next []*State
					for _, x := range cur {
						for _, w := range cmpLin(x, token.LSS, a.from.add(k), a.to) {
							if !w.b {
								out = append(out, sv{w.st, none})
								continue
							}
							for _, r := range e.readInput(w.st, a.from.add(k)) {
								for _, y := range e.inSet(r.st, r.v, set) {
									if y.b {
										at(y.st, a.from.add(k))
									} else {
										next = append(next, y.st)
									}
								}
							}
						}
					}
					cur = next
				}
				for _, x := range cur {
					if x.z.isLe(a.to, x.g.F, 0) {
						out = append(out, sv{x, none})
						continue
					}
					n := x.clone()
					n.g.rest = n.g.rest.and(set.not())
					out = append(out, sv{n, none})
					if x.g.rest.and(set).empty() {
						continue
					}
					if only { // where it is does not matter
						if x.z.le(x.g.F, x.g.N, -1) {
							out = append(out, sv{x, IntV{l: con(0)}})
						}
						continue
					}
					p := x.freshSym()
					if x.z.le(x.g.F, p, 0) && x.z.le(p, x.g.N, -1) {
						for _, j := range e.jump(x, p, set.not()) {
							j.g.ring = append(j.g.ring, ringEnt{p, j.newCell(p, set.and(j.g.rest))})
							at(j, p)
						}
					}
				}
				continue
			}
		}
		n := st.clone()
		out = append(out, sv{n, none})
		p := freshRange(st, 0, inf)
		for _, x := range e.cmpInt(st, token.LSS, p, e.strLen(st, s), ii) {
			if x.b {
				out = append(out, sv{x.st, p})
			}
		}
	}
	return out
}

// inSet splits on whether a byte is of a set.
func (e *Engine) inSet(st *State, v Val, set ByteSet) []sb {
	f, ok := v.(FnV)
	if !ok {
		if c, ok := constOf(st, v); ok {
			return []sb{{st, set.has(byte(c))}}
		}
		return []sb{{st.clone(), true}, {st, false}}
	}
	var out []sb
	s2 := st.clone()
	if s := narrow(st, f.cell, func(b byte) bool { return set.has(byte(f.tab.v[b])) }); s != nil {
		out = append(out, sb{s, true})
	}
	if s := narrow(s2, f.cell, func(b byte) bool { return !set.has(byte(f.tab.v[b])) }); s != nil {
		out = append(out, sb{s, false})
	}
	return out
}

// subStr gives the part [lo,hi) (coordinates) of a string that starts at coordinate start.
func (e *Engine) subStr(st *State, s StrV, start, end, lo, hi Lin) StrV {
	if st.z.isEq(lo, hi) {
		return StrV{}
	}
	if st.z.isEq(lo, start) && st.z.isEq(hi, end) {
		return s
	}
	if len(s.a) == 0 {
		return s
	}
	if len(s.a) == 1 && s.a[0].k == aRegion {
		a := s.a[0]
		if d, ok := st.z.diff(a.from, start); ok {
			a.from, a.to = lo.add(d), hi.add(d)
			return StrV{[]Atom{a}}
		}
		d1, ok1 := st.z.diff(lo, start)
		d2, ok2 := st.z.diff(hi, start)
		if ok1 && ok2 {
			a.from, a.to = a.from.add(d1), a.from.add(d2)
			return StrV{[]Atom{a}}
		}
		if ok1 && st.z.isEq(hi, end) {
			a.from = a.from.add(d1)
			return StrV{[]Atom{a}}
		}
		return cutStr(st, s, lo, hi)
	}
	// general: cut at the atoms' boundaries when they can be told
	cur := start
	var out StrV
	for i, a := range s.a {
		var aend Lin
		switch a.k {
		case aConst:
			aend = cur.add(int64(len(a.s)))
		case aByte:
			aend = cur.add(1)
		case aRegion, aZero:
			if d, k := st.z.diff(a.from, cur); k {
				aend = a.to.add(-d)
			} else if d, k := st.z.diff(a.to, a.from); k {
				aend = cur.add(d)
			} else if i == len(s.a)-1 {
				aend = end
			} else {
				return cutStr(st, s, lo, hi)
			}
		default:
			if i == len(s.a)-1 {
				aend = end
			} else {
				return cutStr(st, s, lo, hi)
			}
		}
		switch {
		case st.z.isLe(aend, lo, 0): // before
		case st.z.isLe(hi, cur, 0): // behind
		case st.z.isLe(lo, cur, 0) && st.z.isLe(aend, hi, 0):
			out = concatStr(st, out, StrV{[]Atom{a}})
		default:
			l, h := cur, aend
			if st.z.isLe(cur, lo, 0) {
				l = lo
			} else if !st.z.isLe(lo, cur, 0) {
				return cutStr(st, s, lo, hi)
			}
			if st.z.isLe(hi, aend, 0) {
				h = hi
			} else if !st.z.isLe(aend, hi, 0) {
				return cutStr(st, s, lo, hi)
			}
			d1, ok1 := st.z.diff(l, cur)
			d2, ok2 := st.z.diff(h, cur)
			switch {
			case a.k == aConst && ok1 && ok2 && d1 >= 0 && d2 <= int64(len(a.s)) && d1 <= d2:
				out = concatStr(st, out, cstr(a.s[d1:d2]))
			case a.k == aRegion || a.k == aZero:
				b := a
				if d, ok := st.z.diff(a.from, cur); ok {
					b.from, b.to = l.add(d), h.add(d)
				} else if ok1 && ok2 {
					b.from, b.to = a.from.add(d1), a.from.add(d2)
				} else if ok1 && st.z.isEq(h, aend) {
					b.from = a.from.add(d1)
				} else {
					return cutStr(st, s, lo, hi)
				}
				out = concatStr(st, out, StrV{[]Atom{b}})
			default:
				return cutStr(st, s, lo, hi)
			}
		}
		cur = aend
	}
	return out
}

// cutStr is a part of a text of which only the length is known.
func cutStr(st *State, s StrV, lo, hi Lin) StrV {
	if s.stale() {
		return topStr(true)
	}
	out := someStr(st)
	if d, ok := st.z.diff(hi, lo); ok {
		out.a[0].to = con(d)
	} else if d, ok := st.z.diff(lo, con(0)); ok {
		out.a[0].to = hi.add(-d)
	}
	out.a[0].lower = lo.isConst() || len(s.a) == 1 && s.a[0].sized && st.z.isEq(hi, s.a[0].to)
	return out
}

// writeByte stores a byte at coordinate c of a buffer; the states carry the new contents.
func (e *Engine) writeByte(st *State, s StrV, start, c Lin, v Val) []sv {
	var out []sv
	for _, l := range e.locate(st, s, start, c) {
		st := l.st
		if l.i < 0 {
			out = append(out, sv{st, StrV{[]Atom{{k: aTop}}}})
			continue
		}
		a := s.a[l.i]
		repl := func(st *State, mid ...Atom) {
			r := StrV{append([]Atom(nil), s.a[:l.i]...)}
			for _, m := range mid {
				r = concatStr(st, r, StrV{[]Atom{m}})
			}
			for _, m := range s.a[l.i+1:] {
				r = concatStr(st, r, StrV{[]Atom{m}})
			}
			out = append(out, sv{st, r})
		}
		switch a.k {
		case aByte:
			repl(st, byteAtom(st, v))
		case aConst:
			d, ok := st.z.diff(c, l.aoff)
			if !ok || d < 0 || int(d) >= len(a.s) {
				out = append(out, sv{st, topLen(s)})
				continue
			}
			repl(st, Atom{k: aConst, s: a.s[:d]}, byteAtom(st, v), Atom{k: aConst, s: a.s[d+1:]})
		case aZero:
			if d, ok := st.z.diff(a.from, l.aoff); ok {
				p := c.add(d)
				repl(st, Atom{k: aZero, from: a.from, to: p}, byteAtom(st, v), Atom{k: aZero, from: p.add(1), to: a.to})
			} else {
				out = append(out, sv{st, topLen(s)})
			}
		case aRegion:
			f, isFn := v.(FnV)
			same := func(st *State) bool {
				if !isFn || f.tab != tabIdent {
					return false
				}
				return st.z.isEq(st.cells[f.cell].pos, l.pos)
			}
			if a.lower {
				a.lower = false
				a.dirty = true
				if st.g.xon && st.g.xpast && a.x == nil {
					// the value at X was lowered
					if st.z.isLe(a.from, st.g.X, 0) && st.z.isLe(st.g.X, a.to, -1) {
						a.x = FnV{st.g.xcell, lowerTab}
					} else {
						a.x = TopV{why: "lowered"}
					}
				}
			}
			if g := &st.g; g.on && g.mode == MSS && a.v == nil && st.z.ub(g.F, l.pos) <= g.window() || a.v != nil {
				e.writeNear(st, a, l.pos, v, same, repl)
				continue
			}
			if st.g.xon {
				for _, o := range cmpLin(st, token.EQL, l.pos, st.g.X) {
					b := a
					if o.b {
						if same(o.st) {
							b.x = nil
							if a.dirty {
								b.x = v
							}
						} else {
							b.x = v
						}
					} else if !same(o.st) {
						b.dirty = true
					}
					repl(o.st, b)
				}
				continue
			}
			if !same(st) {
				a.dirty = true
			}
			repl(st, a)
		default:
			out = append(out, sv{st, topLen(s)})
		}
	}
	return out
}

// writeNear stores a byte over one of the input that was read recently: it becomes a piece of its own.
func (e *Engine) writeNear(st *State, a Atom, p Lin, v Val, same func(*State) bool, repl func(*State, ...Atom)) {
	part := func(from, to Lin, x Val) Atom {
		b := a
		b.from, b.to, b.x, b.v = from, to, x, nil
		return b
	}
	one := func(st *State, at bool) Atom {
		b := part(p, p.add(1), nil)
		b.dirty = false
		if same(st) {
			return b
		}
		b.dirty, b.v = true, v
		if at {
			b.x = v
		}
		return b
	}
	if !st.g.xon {
		repl(st, part(a.from, p, nil), one(st, false), part(p.add(1), a.to, nil))
		return
	}
	for _, o := range cmpLin(st, token.EQL, p, st.g.X) {
		if o.b {
			repl(o.st, part(a.from, p, nil), one(o.st, true), part(p.add(1), a.to, nil))
			continue
		}
		if a.x == nil {
			repl(o.st, part(a.from, p, nil), one(o.st, false), part(p.add(1), a.to, nil))
			continue
		}
		for _, q := range cmpLin(o.st, token.LSS, p, o.st.g.X) {
			if q.b {
				repl(q.st, part(a.from, p, nil), one(q.st, false), part(p.add(1), a.to, a.x))
			} else {
				repl(q.st, part(a.from, p, a.x), one(q.st, false), part(p.add(1), a.to, nil))
			}
		}
	}
}

func topLen(s StrV) StrV { return topStr(s.stale()) }

// readAt is where the program is, for reports.
func (e *Engine) readAt(st *State) token.Pos {
	for i := len(st.fr) - 1; i >= 0; i-- {
		f := st.fr[i]
		for k := f.pc - 1; k >= 0 && k < len(f.blk.Instrs); k-- {
			if p := f.blk.Instrs[k].Pos(); p.IsValid() {
				return p
			}
		}
	}
	return token.NoPos
}
