package main

import (
	"go/token"
	"go/types"
)

// sv is a state with a value computed in it.
type sv struct {
	st *State
	v  Val
}

func one(st *State, v Val) []sv { return []sv{{st, v}} }

type intInfo struct {
	bits     int
	unsigned bool
}

func intType(t types.Type) (intInfo, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return intInfo{}, false
	}
	switch b.Kind() {
	case types.Int8:
		return intInfo{8, false}, true
	case types.Int16:
		return intInfo{16, false}, true
	case types.Int32, types.UntypedRune:
		return intInfo{32, false}, true
	case types.Uint8:
		return intInfo{8, true}, true
	case types.Uint16:
		return intInfo{16, true}, true
	case types.Uint32:
		return intInfo{32, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intInfo{64, true}, true
	}
	return intInfo{64, false}, true
}

func truncInt(v int64, ii intInfo) int64 {
	switch {
	case ii.bits == 8 && ii.unsigned:
		return int64(uint8(v))
	case ii.bits == 8:
		return int64(int8(v))
	case ii.bits == 16 && ii.unsigned:
		return int64(uint16(v))
	case ii.bits == 16:
		return int64(int16(v))
	case ii.bits == 32 && ii.unsigned:
		return int64(uint32(v))
	case ii.bits == 32:
		return int64(int32(v))
	}
	return v
}

func (ii intInfo) rng() (int64, int64) {
	switch {
	case ii.bits == 64 && ii.unsigned:
		return 0, inf
	case ii.bits == 64:
		return -inf, inf
	case ii.unsigned:
		return 0, 1<<uint(ii.bits) - 1
	}
	return -(1 << uint(ii.bits-1)), 1<<uint(ii.bits-1) - 1
}

// freshInt is an unknown integer of a type.
func freshInt(st *State, ii intInfo) IntV {
	lo, hi := ii.rng()
	return freshRange(st, lo, hi)
}

func freshRange(st *State, lo, hi int64) IntV {
	if lo == hi {
		return IntV{l: con(lo)}
	}
	p := st.freshSym()
	if hi < inf {
		st.z.le(p, con(0), hi)
	}
	if lo > -inf {
		st.z.le(con(0), p, -lo)
	}
	return IntV{l: p}
}

func constOp(op token.Token, x, y int64) (int64, bool) {
	switch op {
	case token.ADD:
		return x + y, true
	case token.SUB:
		return x - y, true
	case token.MUL:
		return x * y, true
	case token.QUO:
		if y == 0 {
			return 0, false
		}
		return x / y, true
	case token.REM:
		if y == 0 {
			return 0, false
		}
		return x % y, true
	case token.AND:
		return x & y, true
	case token.OR:
		return x | y, true
	case token.XOR:
		return x ^ y, true
	case token.AND_NOT:
		return x &^ y, true
	case token.SHL:
		if y < 0 || y > 63 {
			return 0, y > 63
		}
		return x << uint(y), true
	case token.SHR:
		if y < 0 {
			return 0, false
		}
		if y > 63 {
			y = 63
		}
		return x >> uint(y), true
	}
	return 0, false
}

func mapTab(t *Tab, f func(int64) int64) *Tab {
	var v [256]int64
	for i := range v {
		v[i] = f(t.v[i])
	}
	return mkTab(v)
}

// arith computes x op y on integers of the type.
func (e *Engine) arith(st *State, op token.Token, x, y Val, ii intInfo) Val {
	if t, ok := x.(TopV); ok {
		if t.stale {
			return t
		}
		x = freshInt(st, ii)
	}
	if t, ok := y.(TopV); ok {
		if t.stale {
			return t
		}
		y = freshInt(st, ii)
	}
	xc, xok := constOf(st, x)
	yc, yok := constOf(st, y)
	if (op == token.QUO || op == token.REM) && (!yok || yc == 0) {
		if l, ok := asLin(st, y); !ok || (st.z.lb(l, con(0)) < 1 && st.z.ub(l, con(0)) > -1) {
			e.event(st, "panic", "division by zero possible")
		}
	}
	if d, ok := x.(DiffV); ok && d.keep && xok && yok && (op == token.ADD || op == token.SUB) && ii.bits == 64 && !ii.unsigned && yc >= -16 && yc <= 16 {
		// stays comparable with what it counts up to (see align)
		if op == token.SUB {
			yc = -yc
		}
		return DiffV{d.a.add(yc), d.b, d.keep}
	}
	if xok && yok {
		r, ok := constOp(op, xc, yc)
		if ok {
			return IntV{l: con(truncInt(r, ii))}
		}
		return freshInt(st, ii)
	}
	if fx, ok := x.(FnV); ok {
		if yok {
			bad := false
			t := mapTab(fx.tab, func(v int64) int64 {
				r, ok := constOp(op, v, yc)
				if !ok {
					bad = true
				}
				return truncInt(r, ii)
			})
			if !bad {
				return FnV{fx.cell, t}
			}
		}
		if fy, ok := y.(FnV); ok && fy.cell == fx.cell {
			var v [256]int64
			bad := false
			for i := range v {
				r, ok := constOp(op, fx.tab.v[i], fy.tab.v[i])
				if !ok {
					bad = true
				}
				v[i] = truncInt(r, ii)
			}
			if !bad {
				return FnV{fx.cell, mkTab(v)}
			}
		}
	}
	if fy, ok := y.(FnV); ok && xok {
		bad := false
		t := mapTab(fy.tab, func(v int64) int64 {
			r, ok := constOp(op, xc, v)
			if !ok {
				bad = true
			}
			return truncInt(r, ii)
		})
		if !bad {
			return FnV{fy.cell, t}
		}
	}
	v := e.arithSym(st, op, x, y, xc, xok, yc, yok)
	if v == nil {
		return e.arithRange(st, op, x, y, yc, yok, ii)
	}
	// does it fit the type?
	lo, hi := ii.rng()
	if ii.bits == 64 && !ii.unsigned {
		return v
	}
	if ii.unsigned && op == token.ADD && ii.bits == 64 {
		return v
	}
	l, h := bounds(st, v)
	if l >= lo && (h <= hi || ii.bits == 64) {
		return v
	}
	return freshInt(st, ii)
}

// bounds of an integer value.
func bounds(st *State, v Val) (int64, int64) {
	switch v := v.(type) {
	case IntV:
		return st.z.lb(v.l, con(0)), st.z.ub(v.l, con(0))
	case DiffV:
		return st.z.lb(v.a, v.b), st.z.ub(v.a, v.b)
	case FnV:
		l, _ := asLin(st, v)
		return st.z.lb(l, con(0)), st.z.ub(l, con(0))
	}
	return -inf, inf
}

func constOf(st *State, v Val) (int64, bool) {
	switch v := v.(type) {
	case IntV:
		if v.l.isConst() {
			return v.l.o, true
		}
		return st.z.diff(v.l, con(0))
	case DiffV:
		return st.z.diff(v.a, v.b)
	case FnV:
		var r int64
		first := true
		set := st.cells[v.cell].set
		for b := 0; b < 256; b++ {
			if set.has(byte(b)) {
				if first {
					r, first = v.tab.v[b], false
				} else if r != v.tab.v[b] {
					return 0, false
				}
			}
		}
		return r, !first
	}
	return 0, false
}

func mkDiff(st *State, a, b Lin) Val {
	if d, ok := st.z.diff(a, b); ok {
		return IntV{l: con(d)}
	}
	if c, ok := st.z.diff(b, con(0)); ok {
		return IntV{l: a.add(-c)}
	}
	return simpDiff(a, b)
}

func (e *Engine) arithSym(st *State, op token.Token, x, y Val, xc int64, xok bool, yc int64, yok bool) Val {
	shift := func(v Val, c int64) Val {
		switch v := v.(type) {
		case IntV:
			return IntV{l: v.l.add(c)}
		case DiffV:
			return DiffV{v.a.add(c), v.b, v.keep}
		}
		return nil
	}
	switch op {
	case token.ADD:
		if yok {
			return shift(x, yc)
		}
		if xok {
			return shift(y, xc)
		}
		for k := 0; k < 2; k++ {
			if k == 1 {
				x, y = y, x
			}
			if d, ok := y.(DiffV); ok {
				switch l := x.(type) {
				case IntV: // l + (a-b)
					if c, ok := st.z.diff(l.l, d.b); ok {
						return IntV{l: d.a.add(c)}
					}
				case DiffV: // (p-q)+(a-b)
					if c, ok := st.z.diff(l.a, d.b); ok {
						return mkDiff(st, d.a.add(c), l.b)
					}
					if c, ok := st.z.diff(d.a, l.b); ok {
						return mkDiff(st, l.a.add(c), d.b)
					}
				}
			}
		}
	case token.SUB:
		if yok {
			return shift(x, -yc)
		}
		switch p := x.(type) {
		case IntV:
			switch q := y.(type) {
			case IntV:
				return mkDiff(st, p.l, q.l)
			case DiffV: // p - (a-b)
				if c, ok := st.z.diff(p.l, q.a); ok {
					return IntV{l: q.b.add(c)}
				}
			}
		case DiffV:
			switch q := y.(type) {
			case DiffV:
				if c, ok := st.z.diff(q.b, p.b); ok {
					return mkDiff(st, p.a.add(c), q.a)
				}
				if c, ok := st.z.diff(p.a, q.a); ok {
					return mkDiff(st, q.b.add(c), p.b)
				}
			}
		}
	}
	return nil
}

func (e *Engine) arithRange(st *State, op token.Token, x, y Val, yc int64, yok bool, ii intInfo) Val {
	xl, xh := bounds(st, x)
	yl, yh := bounds(st, y)
	lo, hi := ii.rng()
	fit := func(a, b int64) Val {
		if a < lo || b > hi && ii.bits < 64 {
			return freshInt(st, ii)
		}
		return freshRange(st, a, b)
	}
	fin := func(v ...int64) bool {
		for _, a := range v {
			if a >= inf || a <= -inf {
				return false
			}
		}
		return true
	}
	switch op {
	case token.ADD:
		l, h := int64(-inf), int64(inf)
		if fin(xl, yl) {
			l = xl + yl
		}
		if fin(xh, yh) {
			h = xh + yh
		}
		v := fit(l, h)
		// keep the order to the operands
		if r, ok := v.(IntV); ok && ii.bits == 64 && !ii.unsigned {
			if a, ok := x.(IntV); ok {
				relate(st, r.l, a.l, yl, yh)
			}
			if a, ok := y.(IntV); ok {
				relate(st, r.l, a.l, xl, xh)
			}
		}
		return v
	case token.SUB:
		l, h := int64(-inf), int64(inf)
		if fin(xl, yh) {
			l = xl - yh
		}
		if fin(xh, yl) {
			h = xh - yl
		}
		v := fit(l, h)
		if r, ok := v.(IntV); ok && ii.bits == 64 && !ii.unsigned {
			if a, ok := x.(IntV); ok {
				relate(st, r.l, a.l, negB(yh), negB(yl))
			}
		}
		return v
	case token.MUL:
		if xl >= 0 && yl >= 0 {
			h := int64(inf)
			if fin(xh, yh) && (xh == 0 || yh < inf/(xh+1)) {
				h = xh * yh
			}
			return fit(xl*min64(yl, 1), h)
		}
	case token.AND:
		if yok && yc >= 0 {
			return fit(0, yc)
		}
		if xl >= 0 {
			return fit(0, xh)
		}
		if yl >= 0 {
			return fit(0, yh)
		}
	case token.OR, token.XOR:
		if xl >= 0 && yl >= 0 {
			return fit(0, inf)
		}
	case token.REM:
		if yok && yc > 0 {
			if xl >= 0 {
				return fit(0, yc-1)
			}
			return fit(-(yc - 1), yc-1)
		}
	case token.QUO, token.SHR:
		if xl >= 0 && yl >= 0 {
			v := fit(0, xh)
			if r, ok := v.(IntV); ok {
				if a, ok := x.(IntV); ok {
					st.z.le(r.l, a.l, 0)
				}
			}
			return v
		}
	}
	return freshInt(st, ii)
}

func negB(v int64) int64 {
	if v >= inf {
		return -inf
	}
	if v <= -inf {
		return inf
	}
	return -v
}

// relate: r - a in [lo,hi]
func relate(st *State, r, a Lin, lo, hi int64) {
	if hi < inf {
		st.z.le(r, a, hi)
	}
	if lo > -inf {
		st.z.le(a, r, -lo)
	}
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// sb is a state with a truth value.
type sb struct {
	st *State
	b  bool
}

// narrow restricts a byte to those satisfying a predicate; nil when none does.
func narrow(st *State, cell int, pred func(b byte) bool) *State {
	var s ByteSet
	old := st.cells[cell].set
	for b := 0; b < 256; b++ {
		if old.has(byte(b)) && pred(byte(b)) {
			s.add(byte(b))
		}
	}
	if s.empty() {
		return nil
	}
	if s != old {
		st.setCell(cell, s)
	}
	return st
}

func cmpConst(op token.Token, a, b int64) bool {
	switch op {
	case token.EQL:
		return a == b
	case token.NEQ:
		return a != b
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	}
	return a >= b
}

// cmpInt compares integers, splitting the state.
func (e *Engine) cmpInt(st *State, op token.Token, x, y Val, ii intInfo) []sb {
	if t, ok := x.(TopV); ok {
		_ = t
		x = freshInt(st, ii)
	}
	if t, ok := y.(TopV); ok {
		_ = t
		y = freshInt(st, ii)
	}
	xc, xok := constOf(st, x)
	yc, yok := constOf(st, y)
	if xok && yok {
		return []sb{{st, cmpConst(op, xc, yc)}}
	}
	split := func(cell int, pred func(byte) bool) []sb {
		var out []sb
		st2 := st.clone()
		if s := narrow(st, cell, pred); s != nil {
			out = append(out, sb{s, true})
		}
		if s := narrow(st2, cell, func(b byte) bool { return !pred(b) }); s != nil {
			out = append(out, sb{s, false})
		}
		return out
	}
	fx, fxok := x.(FnV)
	fy, fyok := y.(FnV)
	switch {
	case fxok && yok:
		return split(fx.cell, func(b byte) bool { return cmpConst(op, fx.tab.v[b], yc) })
	case fyok && xok:
		return split(fy.cell, func(b byte) bool { return cmpConst(op, xc, fy.tab.v[b]) })
	case fxok && fyok && fx.cell == fy.cell:
		return split(fx.cell, func(b byte) bool { return cmpConst(op, fx.tab.v[b], fy.tab.v[b]) })
	}
	// reduce to a comparison of two positions a op b
	var a, b Lin
	dx, dxok := x.(DiffV)
	dy, dyok := y.(DiffV)
	done := false
	switch {
	case dxok && yok:
		a, b, done = dx.a, dx.b.add(yc), true
	case dyok && xok:
		a, b, done = dy.b.add(xc), dy.a, true
	case dxok && dyok:
		if c, ok := st.z.diff(dx.b, dy.b); ok { // a1-b op a2-b
			a, b, done = dx.a, dy.a.add(c), true
		} else if c, ok := st.z.diff(dx.a, dy.a); ok { // a-b1 op a-b2
			a, b, done = dy.b.add(c), dx.b, true
		}
	}
	if !done {
		var ok1, ok2 bool
		a, ok1 = asLin(st, x)
		b, ok2 = asLin(st, y)
		if !ok1 || !ok2 {
			return []sb{{st.clone(), true}, {st, false}}
		}
	}
	return cmpLin(st, op, a, b)
}

func cmpLin(st *State, op token.Token, a, b Lin) []sb {
	switch op {
	case token.GTR:
		return flip(cmpLin(st, token.LEQ, a, b))
	case token.GEQ:
		return cmpLin(st, token.LEQ, b, a)
	case token.LSS:
		return flip(cmpLin(st, token.LEQ, b, a))
	case token.NEQ:
		return flip(cmpLin(st, token.EQL, a, b))
	case token.LEQ:
		if st.z.isLe(a, b, 0) {
			return []sb{{st, true}}
		}
		if st.z.isLe(b, a, -1) {
			return []sb{{st, false}}
		}
		st2 := st.clone()
		var out []sb
		if st.z.le(a, b, 0) {
			out = append(out, sb{st, true})
		}
		if st2.z.le(b, a, -1) {
			out = append(out, sb{st2, false})
		}
		return out
	}
	// EQL
	if st.z.isEq(a, b) {
		return []sb{{st, true}}
	}
	if !st.z.canEq(a, b) {
		return []sb{{st, false}}
	}
	var out []sb
	s1, s2, s3 := st.clone(), st.clone(), st
	if s1.z.eq(a, b) {
		out = append(out, sb{s1, true})
	}
	if s2.z.ub(b, a) >= 1 && s2.z.le(a, b, -1) {
		out = append(out, sb{s2, false})
	}
	if s3.z.ub(a, b) >= 1 && s3.z.le(b, a, -1) {
		out = append(out, sb{s3, false})
	}
	return out
}

func flip(x []sb) []sb {
	for i := range x {
		x[i].b = !x[i].b
	}
	return x
}
