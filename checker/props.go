package main

import (
	"go/token"
	"go/types"
)

var allModes = []Mode{M2141, MSCIM, M8141}

// nilInput makes the input of a run the nil slice.
func nilInput(st *State) {
	st.roots[len(st.roots)-1] = SliceV{}
	st.z.eq(st.g.N, con(0))
}

// accepted sorts an outcome of Machine.Parse.
func (c *Ctx) accepted(a *API, r Ret, rule string) (acc, ok bool) {
	u, e := nilness(r.vals[0]), nilness(r.vals[1])
	if e < 0 || u < 0 {
		c.check(rule, false, a.where(r.st), witness(r.st.trace), "cannot tell whether the result is nil: URN %s, error %s", valString(r.vals[0]), valString(r.vals[1]))
		return false, false
	}
	return e == 1, true
}

// language: the verdict of Parse is that of the grammar (C01, C02, C03).
func (c *Ctx) language(a *API, m Mode, rets []Ret, how string) {
	rule := "verdict-" + m.String()
	nacc := 0
	for _, r := range rets {
		acc, ok := c.accepted(a, r, rule)
		if !ok {
			continue
		}
		w := witness(r.st.trace)
		v := judge(r.st)
		g := &r.st.g
		if acc {
			nacc++
			c.check(rule, !v.rej, "accepting return of Parse, last byte read at "+a.where(r.st), w+v.wrej,
				"%s: accepts an input that is not in the language (specification: %s after %s of %s bytes)", how, g.s, g.F, g.N)
			c.sample("%s %s: accepts %q..., specification state %s", how, m, w, g.s)
		} else {
			c.check(rule, !v.acc, "rejecting return of Parse, last byte read at "+a.where(r.st), w+v.wacc,
				"%s: rejects an input of the language with %s", how, valString(r.vals[1]))
		}
	}
	c.mu.Lock()
	c.outcomes += len(rets)
	c.mu.Unlock()
	c.check("accepts-something", nacc > 0, how, "", "no accepting outcome in mode %s", m)
}

func (c *Ctx) langJobs(m Mode) {
	c.eachRoute([]Mode{m}, func(a *API, m Mode, r route) {
		c.language(a, m, r.rets(a, nil), r.name)
		for _, x := range r.rets(a, nilInput) {
			acc, ok := c.accepted(a, x, "nil-input")
			c.check("nil-input", ok && !acc, r.name, "", "the nil slice is accepted in mode %s", m)
		}
	})
}

// parseFunc analyses urn.Parse(input, options...): outcomes have the roots of parseStates, the error made up from the flag.
func (a *API) parseFunc(m Mode, opts []modeCase, prep func(*State)) []Ret {
	var in []*State
	for _, st := range a.optionList(opts) {
		st = st.clone()
		st.roots = append(st.roots, a.newInput(st, m))
		if prep != nil {
			prep(st)
		}
		in = append(in, st)
	}
	var out []Ret
	for _, r := range a.e.call(a.parse, in, func(st *State) []Val { return []Val{st.roots[1], st.roots[0]} }) {
		input := r.st.roots[1]
		var errv Val = TopV{why: "flag"}
		if b, ok := r.vals[1].(BoolV); ok {
			if b.b {
				errv = IfaceV{}
			} else {
				errv = mkErr("flag", nil)
			}
		}
		r.st.roots = []Val{IfaceV{}, r.vals[0], errv, input}
		out = append(out, Ret{r.st, []Val{r.vals[0], errv}})
	}
	return out
}

// acceptedBy gives the accepting outcomes of a way to parse; their roots are machine, urn, err, input.
func (c *Ctx) acceptedBy(a *API, m Mode, x route, prep func(*State)) []*State {
	a.e.dropDead = true
	rets := x.rets(a, prep)
	a.e.dropDead = false
	c.mu.Lock()
	c.outcomes += len(rets)
	c.mu.Unlock()
	return c.pick(a, m, rets)
}

// pick keeps the accepting outcomes whose input is in the language.
func (c *Ctx) pick(a *API, m Mode, rets []Ret) []*State {
	var out []*State
	for _, r := range rets {
		if nilness(r.vals[1]) == 0 || !specFinal(m, r.st.g.s) {
			continue
		}
		// inputs outside the language are the business of C01-C03
		if r.st.z.isLe(r.st.g.F, r.st.g.N, -1) {
			continue
		}
		st := r.st.clone()
		if !st.z.eq(st.g.F, st.g.N) {
			continue
		}
		if p, ok := r.vals[0].(PtrV); !ok || p.obj == 0 {
			continue
		}
		out = append(out, st)
	}
	c.check("accepts-something", len(out) > 0, "Parse", "", "no accepting outcome in mode %s", m)
	return out
}

func (c *Ctx) wantRegion(a *API, st *State, rule, what string, v Val, from, to Lin, where string) {
	s, ok := asStr(v)
	c.check(rule, ok && isRegion(a.e, st, s, from, to), where, witness(st.trace),
		"%s is %s, expected input[%s:%s) (%s)", what, valString(v), from, to, st.g.s)
}

func (c *Ctx) wantEmpty(a *API, st *State, rule, what string, v Val, where string) {
	s, ok := asStr(v)
	k, isK := s.konst()
	c.check(rule, ok && isK && k == "", where, witness(st.trace), "%s is %s, expected to be empty (%s)", what, valString(v), st.g.s)
}

func (c *Ctx) wantSpan(a *API, st *State, rule, what string, v Val, s span, where string) {
	if !s.ok {
		c.wantEmpty(a, st, rule, what, v, where)
		return
	}
	c.wantRegion(a, st, rule, what, v, s.from, s.to, where)
}

// fidelity: ID, SS and String() (C04).
func (c *Ctx) fidelity(a *API, m Mode, sts []*State) {
	for _, st := range sts {
		co := components(st)
		at := "Parse, last byte read at " + a.where(st)
		c.wantSpan(a, st, "ID", "ID", a.field(st, st.roots[1], a.urnT, "ID"), co.nid, at)
		c.wantSpan(a, st, "SS", "SS", a.field(st, st.roots[1], a.urnT, "SS"), co.nss, at)
		c.sample("%s %s: ID = input[%s:%s), SS = input[%s:%s)", m, st.g.s, co.nid.from, co.nid.to, co.nss.from, co.nss.to)
	}
	for _, r := range a.on(a.urnT, "String", sts, 1) {
		c.wantWhole(a, r.st, "String", "String()", r.vals[0], con(0), StrV{})
	}
}

// wantWhole: the text is pre followed by the input from a position on, without the # of an empty fragment.
func (c *Ctx) wantWhole(a *API, st *State, rule, what string, v Val, from Lin, pre StrV) {
	try := func(st *State, to Lin) {
		s, ok := asStr(v)
		if k, isK := pre.konst(); isK && k != "" {
			if ok && len(s.a) > 0 && s.a[0].k == aConst && len(s.a[0].s) >= len(k) && s.a[0].s[:len(k)] == k {
				b := s.a[0]
				b.s = b.s[len(k):]
				n := append([]Atom(nil), s.a[1:]...)
				if b.s != "" {
					n = append([]Atom{b}, n...)
				}
				s = StrV{n}
			} else {
				ok = false
			}
		}
		c.check(rule, ok && isRegion(a.e, st, s, from, to), what+", input last read at "+a.where(st), witness(st.trace),
			"%s is %s, expected %s followed by input[%s:%s) (%s)", what, valString(v), valString(pre), from, to, st.g.s)
	}
	if st.g.has(rgFS) {
		eq, ne := splitEq(st, st.g.reg[rgFS], st.g.N)
		for _, s := range eq {
			try(s, s.g.reg[rgFS].add(-1))
		}
		for _, s := range ne {
			try(s, s.g.N)
		}
		return
	}
	try(st, st.g.N)
}

func (c *Ctx) rqf(a *API, m Mode, sts []*State) {
	for _, x := range []struct {
		name string
		sp   func(spans) span
	}{{"RComponent", func(s spans) span { return s.r }}, {"QComponent", func(s spans) span { return s.q }}, {"FComponent", func(s spans) span { return s.f }}} {
		for _, r := range a.on(a.urnT, x.name, sts, 1) {
			c.wantSpan(a, r.st, x.name, x.name+"()", r.vals[0], x.sp(components(r.st)), x.name+"(), input last read at "+a.where(r.st))
			c.sample("%s %s: %s() = %s", m, r.st.g.s, x.name, valString(r.vals[0]))
		}
	}
}

func (c *Ctx) scimParts(a *API, sts []*State) {
	var next []*State
	for _, r := range a.on(a.urnT, "SCIM", sts, 1) {
		st := r.st
		at := "SCIM(), input last read at " + a.where(st)
		if !c.check("SCIM", nilness(r.vals[0]) == 0, at, witness(st.trace), "SCIM() is %s", valString(r.vals[0])) {
			continue
		}
		p := r.vals[0]
		c.scimFields(a, st, p, at)
		st = st.clone()
		st.roots = append(st.roots, p)
		next = append(next, st)
	}
	if len(next) == 0 {
		return
	}
	for _, r := range a.on(a.scimT, "String", next, len(next[0].roots)-1) {
		c.wantWhole(a, r.st, "SCIM.String", "SCIM().String()", r.vals[0], con(3), cstr("urn"))
	}
}

// scimFields: Type, Name and Other of the SCIM p are what the input holds.
func (c *Ctx) scimFields(a *API, st *State, p Val, at string) {
	ty := a.field(st, p, a.scimT, "Type")
	want := a.stypes[[...]string{"", "Schemas", "API", "Param"}[st.g.s.ty]]
	k, ok := constOf(st, ty)
	if _, isI := ty.(IntV); !isI {
		ok = false
	}
	c.check("Type", ok && k == want, at, witness(st.trace), "Type is %s, expected %d (%s)", valString(ty), want, scimTypes[st.g.s.ty])
	co := components(st)
	c.wantSpan(a, st, "Name", "Name", a.field(st, p, a.scimT, "Name"), co.name, at)
	c.wantSpan(a, st, "Other", "Other", a.field(st, p, a.scimT, "Other"), co.other, at)
	c.sample("%s: Type %d, Name input[%s:%s)", st.g.s, want, co.name.from, co.name.to)
}

// distinct: the named constants of a type are different values.
func (c *Ctx) distinct(ks map[string]int64, names ...string) {
	seen := map[int64]string{}
	for _, n := range names {
		o, dup := seen[ks[n]]
		c.check("distinct", !dup, "const "+n, "", "%s and %s are the same value", n, o)
		seen[ks[n]] = n
	}
}

func (c *Ctx) kinds(a *API, m Mode, sts []*State) {
	want := a.kinds[m.String()]
	for _, r := range a.on(a.urnT, "RFC", sts, 1) {
		k, ok := constOf(r.st, r.vals[0])
		c.check("RFC", ok && k == want, "RFC(), input last read at "+a.where(r.st), witness(r.st.trace), "RFC() is %s, expected %d", valString(r.vals[0]), want)
		c.sample("%s %s: RFC() = %s", m, r.st.g.s, valString(r.vals[0]))
	}
	for _, r := range a.on(a.urnT, "IsSCIM", sts, 1) {
		b, ok := r.vals[0].(BoolV)
		c.check("IsSCIM", ok && b.b == (m == MSCIM), "IsSCIM(), input last read at "+a.where(r.st), witness(r.st.trace), "IsSCIM() is %s in mode %s", valString(r.vals[0]), m)
	}
	for _, r := range a.on(a.urnT, "SCIM", sts, 1) {
		n := nilness(r.vals[0])
		c.check("SCIM", n >= 0 && (n == 0) == (m == MSCIM), "SCIM(), input last read at "+a.where(r.st), witness(r.st.trace), "SCIM() is %s in mode %s", valString(r.vals[0]), m)
	}
}

// outcomePairs: a URN or an error, and Error() agrees (C07).
func (c *Ctx) outcomePairs(a *API, what string, rets []Ret) {
	for _, r := range rets {
		u, e := nilness(r.vals[0]), nilness(r.vals[1])
		c.check("one-of-both", u >= 0 && e >= 0 && u != e, "Parse, last byte read at "+a.where(r.st), witness(r.st.trace),
			"%s returns URN %s with error %s", what, valString(r.vals[0]), valString(r.vals[1]))
	}
	var sts []*State
	for _, r := range rets {
		sts = append(sts, r.st)
	}
	for _, r := range a.invoke(sts, 0, "Error", func(*State) []Val { return nil }) {
		got, want := r.vals[0], r.st.roots[2]
		c.check("Error", sameVal(a.e, r.st, got, want), "Error(), input last read at "+a.where(r.st), witness(r.st.trace),
			"%s returned the error %s, Error() then gives %s", what, valString(want), valString(got))
		c.sample("%s %s: Parse error %s, Error() %s", what, r.st.g.s, valString(want), valString(got))
	}
}

// sameVal: provably the same value.
func sameVal(e *Engine, st *State, x, y Val) bool {
	switch x := x.(type) {
	case StrV:
		y, ok := y.(StrV)
		return ok && sameText(e, st, x, y)
	case IntV, DiffV, FnV:
		switch y.(type) {
		case IntV, DiffV, FnV:
		default:
			return false
		}
		if fx, ok := x.(FnV); ok {
			if fy, ok := y.(FnV); ok && fx == fy {
				return true
			}
		}
		if dx, ok := x.(DiffV); ok {
			if dy, ok := y.(DiffV); ok && st.z.isEq(dx.a, dy.a) && st.z.isEq(dx.b, dy.b) {
				return true
			}
		}
		s := st.clone()
		a, ok1 := asLin(s, x)
		b, ok2 := asLin(s, y)
		return ok1 && ok2 && s.z.isEq(a, b)
	case BoolV:
		y, ok := y.(BoolV)
		return ok && x == y
	case PtrV:
		y, ok := y.(PtrV)
		return ok && x == y
	case SliceV:
		y, ok := y.(SliceV)
		return ok && x.obj == y.obj && (x.obj == 0 || st.z.isEq(x.lo, y.lo) && st.z.isEq(x.hi, y.hi))
	case IfaceV:
		y, ok := y.(IfaceV)
		if !ok || (x.t == nil) != (y.t == nil) {
			return false
		}
		if x.t == nil {
			return true
		}
		return types.Identical(x.t, y.t) && sameVal(e, st, x.v, y.v)
	case ErrV:
		y, ok := y.(ErrV)
		if !ok || x.kind != y.kind || (x.text == nil) != (y.text == nil) {
			return false
		}
		return x.text == nil || sameText(e, st, *x.text, *y.text)
	case StructV:
		y, ok := y.(StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !sameVal(e, st, x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case FuncV:
		y, ok := y.(FuncV)
		return ok && x.fn == y.fn && len(x.bind) == 0 && len(y.bind) == 0
	}
	return false
}

// sameText compares texts that may contain numbers.
func sameText(e *Engine, st *State, a, b StrV) bool {
	if len(a.a) != len(b.a) {
		return false
	}
	for i, x := range a.a {
		y := b.a[i]
		if x.k == aInt && y.k == aInt {
			if !sameVal(e, st, x.v, y.v) {
				return false
			}
			continue
		}
		if x.k == aRegion && y.k == aRegion && x.dirty == y.dirty && x.lower == y.lower && (x.x == nil) == (y.x == nil) {
			if !st.z.isEq(x.from, y.from) || !st.z.isEq(x.to, y.to) || x.x != nil && !sameVal(e, st, x.x, y.x) {
				return false
			}
			if x.dirty && !st.g.xon {
				return false
			}
			continue
		}
		if !sameAtom(st, x, y) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- C10

func prepX(st *State) {
	g := &st.g
	g.xon = true
	g.X = st.freshSym()
	st.z.le(con(0), g.X, 0)
	st.z.le(g.X, g.N, -1)
}

// atX checks a text that should be input[from:to) mapped by want, at the distinguished position.
func (c *Ctx) atX(a *API, st *State, rule, what string, v Val, from, to Lin, pre, post string, want func(class int) *Tab) {
	where := what + ", input last read at " + a.where(st)
	s, ok := asStr(v)
	for _, o := range cmpLin(st.clone(), token.GEQ, st.g.X, from) {
		for _, p := range cmpLin(o.st, token.LSS, o.st.g.X, to) {
			w := tabIdent
			if o.b && p.b {
				if !p.st.g.xpast {
					c.check(rule, false, where, witness(st.trace), "%s is made without looking at the whole text (%s)", what, valString(v))
					continue
				}
				w = want(p.st.g.xclass)
			}
			good := ok
			if good {
				good = isMapped(a.e, p.st, s, from, to, w)
			}
			c.check(rule, good, where, witness(st.trace), "%s is %s, expected input[%s:%s) normalized, at position %s (byte class %d, value set %s)",
				what, valString(v), from, to, p.st.g.X, p.st.g.xclass, setString(p.st.cells[p.st.g.xcell]))
		}
	}
}

func setString(c *Cell) string {
	if c == nil {
		return "unread"
	}
	out := ""
	for b := 33; b < 127; b++ {
		if c.set.has(byte(b)) {
			out += string(rune(b))
		}
	}
	return out
}

func lowerAll(int) *Tab { return lowerTab }
func lowerHexes(cl int) *Tab {
	if cl == xHex {
		return lowerTab
	}
	return tabIdent
}

func (c *Ctx) normal(a *API, m Mode, sts []*State) {
	norm := a.on(a.urnT, "Normalize", sts, 1)
	var n1 []*State
	for _, r := range norm {
		st := r.st
		p, ok := r.vals[0].(PtrV)
		if !c.check("Normalize", ok && p.obj != 0, "Normalize", witness(st.trace), "Normalize() returns %s", valString(r.vals[0])) {
			continue
		}
		if u, ok := st.roots[1].(PtrV); ok {
			c.check("new-URN", u.obj != p.obj, "Normalize", witness(st.trace), "Normalize() returns its receiver")
		}
		co := components(st)
		c.atX(a, st, "ID", "Normalize().ID", a.field(st, p, a.urnT, "ID"), co.nid.from, co.nid.to, "", "", lowerAll)
		c.atX(a, st, "SS", "Normalize().SS", a.field(st, p, a.urnT, "SS"), co.nss.from, co.nss.to, "", "", lowerHexes)
		c.sample("%s %s X=%s class %d: Normalize().SS = %s", m, st.g.s, st.g.X, st.g.xclass, valString(a.field(st, p, a.urnT, "SS")))
		st = st.clone()
		st.roots = append(st.roots, p)
		n1 = append(n1, st)
	}
	if len(n1) == 0 {
		return
	}
	k := len(n1[0].roots) - 1
	// what else shows: String() is urn:ID:SS
	for _, r := range a.on(a.urnT, "String", n1, k) {
		st := r.st
		p := st.roots[k]
		id, _ := asStr(a.field(st, p, a.urnT, "ID"))
		ss, _ := asStr(a.field(st, p, a.urnT, "SS"))
		want := concatStr(st, concatStr(st, cstr("urn:"), id), concatStr(st, cstr(":"), ss))
		s, ok := asStr(r.vals[0])
		c.check("String", ok && sameText(a.e, st, s, want), "Normalize().String()", witness(st.trace), "Normalize().String() is %s, expected %s", valString(r.vals[0]), valString(want))
	}
	for _, n := range []string{"RComponent", "QComponent", "FComponent"} {
		for _, r := range a.on(a.urnT, n, n1, k) {
			c.wantEmpty(a, r.st, "dropped", "Normalize()."+n+"()", r.vals[0], "Normalize")
		}
	}
	// again
	for _, r := range a.on(a.urnT, "Normalize", n1, k) {
		st := r.st
		for _, f := range []string{"ID", "SS"} {
			x, y := a.field(st, st.roots[k], a.urnT, f), a.field(st, r.vals[0], a.urnT, f)
			sx, ok1 := asStr(x)
			sy, ok2 := asStr(y)
			c.check("idempotent", ok1 && ok2 && sameText(a.e, st, sx, lowerIf(st, sy, false)), "Normalize", witness(st.trace),
				"normalizing twice turns %s %s into %s", f, valString(x), valString(y))
		}
	}
}

func lowerIf(st *State, s StrV, b bool) StrV {
	if b {
		return lowerStr(st, s)
	}
	return s
}

// handBuilt normalizes URN{ID: any, SS: well-formed}.
func (c *Ctx) handBuilt(a *API) {
	st := newState()
	in := a.newInput(st, MSS)
	prepX(st)
	id := StrV{[]Atom{{k: aSym, id: 900}}}
	uv, ok := a.e.zero(a.urnT).(StructV)
	if !ok {
		panic(missing{"struct URN"})
	}
	s := a.urnT.Underlying().(*types.Struct)
	f := append([]Val(nil), uv.f...)
	for i := 0; i < s.NumFields(); i++ {
		switch s.Field(i).Name() {
		case "ID":
			f[i] = id
		case "SS":
			f[i] = regionStr(st, con(0), st.g.N)
		}
	}
	o := st.alloc(&Obj{typ: a.urnT, val: StructV{f}, site: "hand-built"})
	st.roots = []Val{in, PtrV{obj: o}}
	a.e.dropDead = true
	rets := a.on(a.urnT, "Normalize", []*State{st}, 1)
	a.e.dropDead = false
	n := 0
	for _, r := range rets {
		st := r.st
		p, ok := r.vals[0].(PtrV)
		if !c.check("Normalize", ok && p.obj != 0, "Normalize", witness(st.trace), "Normalize() returns %s", valString(r.vals[0])) {
			continue
		}
		// what was not looked at can be anything
		a.e.dropDead = true
		var ends []*State
		near := []*State{st.clone()}
		for k := 0; k < 4; k++ { // the next few exactly
			var next []*State
			for _, x := range near {
				for _, o := range cmpLin(x, token.GEQ, x.g.F, x.g.N) {
					if o.b {
						ends = append(ends, o.st)
					} else {
						next = append(next, a.e.consume(o.st)...)
					}
				}
			}
			near = next
		}
		for _, x := range near {
			ends = append(ends, a.e.jump(x, x.g.N, allBytes)...)
		}
		a.e.dropDead = false
		for _, st := range ends {
			if v := judge(st); !v.acc {
				continue // not a well-formed specific string
			}
			n++
			c.atX(a, st, "SS-built", "Normalize().SS of a hand-built URN", a.field(st, p, a.urnT, "SS"), con(0), st.g.N, "", "", lowerHexes)
		}
		idv, _ := asStr(a.field(st, p, a.urnT, "ID"))
		c.check("ID-built", sameStr(st, idv, lowerStr(st, id)), "Normalize", witness(st.trace), "Normalize().ID is %s for a hand-built URN", valString(idv))
	}
	c.check("accepts-something", n > 0, "Normalize", "", "no outcome for hand-built URNs")
}
