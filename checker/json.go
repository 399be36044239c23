package main

import "go/types"

// C15 and C16: JSON.

type jsonType struct {
	t types.Type
	n string
	m Mode
}

func (a *API) jsonTypes() []jsonType {
	return []jsonType{{a.urnT, "URN", M2141}, {a.urn8141T, "URN8141", M8141}, {a.scimT, "SCIM", MSCIM}}
}

// theURN is the URN (or for SCIM the SCIM) a decoded receiver holds.
func (a *API) theURN(st *State, t jsonType, recv Val) Val {
	if t.n != "URN8141" {
		return recv
	}
	p, ok := recv.(PtrV)
	if !ok || p.obj == 0 {
		return TopV{why: "receiver"}
	}
	sv, ok := st.obj(a.e, p.obj).val.(StructV)
	s, ok2 := t.t.Underlying().(*types.Struct)
	if !ok || !ok2 {
		return TopV{why: "receiver"}
	}
	for i := 0; i < s.NumFields(); i++ {
		if pt, ok := s.Field(i).Type().(*types.Pointer); ok && types.Identical(pt.Elem(), a.urnT) {
			return sv.f[i]
		}
	}
	panic(missing{"the URN of a URN8141"})
}

// unmarshal: decoding is all or nothing, in the mode of the type (C15).
func (c *Ctx) unmarshal() {
	var r *Repo
	c.guard("loading", func() { r = c.load() })
	if r == nil {
		return
	}
	var jobs []job
	c.guard("types", func() {
		for _, t := range newAPI(r).jsonTypes() {
			for _, full := range []bool{false, true} {
				t, full := t, full
				name := t.n + ".UnmarshalJSON into "
				if full {
					name += "any value"
				} else {
					name += "the zero value"
				}
				jobs = append(jobs, job{name, func(a *API) {
					// types belong to this engine's program
					for _, x := range a.jsonTypes() {
						if x.n == t.n {
							t = x
						}
					}
					for _, st := range a.receivers(t.t, full) {
						rets, hooked := a.decode(st, t.t, t.m, true)
						c.count(rets)
						c.decoded(a, t, name, rets, hooked)
					}
					c.absorb(a, name, "write-input", "write-frozen", "panic")
				}})
			}
		}
	})
	c.par(jobs...)
}

func (c *Ctx) decoded(a *API, t jsonType, name string, rets []Ret, hooked bool) {
	at := t.n + ".UnmarshalJSON"
	var done []*State
	if hooked {
		c.note("%s: hands the decoded string to Machine.Parse in mode %s", name, t.m)
	} else {
		c.note("%s: followed through the parse", name)
	}
	nok := 0
	for _, r := range rets {
		st := r.st
		w := ""
		if !hooked {
			w = witness(st.trace)
		}
		failed := nilness(r.vals[0])
		if !c.check("verdict", failed >= 0, at, w, "%s: cannot tell whether the error %s is nil", name, valString(r.vals[0])) {
			continue
		}
		failed = 1 - failed // 1: error
		c.sample("%s: %v error %s", name, sortedFacts(st), valString(r.vals[0]))
		if failed == 1 {
			c.check("unchanged-on-failure", sameMark(a.e, st, st.roots[0], st.roots[1]), at+", on an error", w, "%s: the receiver is changed although an error is returned (%s)", name, sortedFacts(st))
		}
		switch {
		case st.facts["json:err"]:
			c.check("verdict", failed == 1, at, w, "%s: no error for a document that is not a string", name)
		case hooked:
			ok := st.facts[factParsed]
			c.check("verdict", (failed == 0) == ok, at, w, "%s: error %s although parsing the string %s", name, valString(r.vals[0]), map[bool]string{true: "succeeds", false: "fails"}[ok])
			if failed == 0 && ok {
				nok++
				s2 := st.clone()
				m := a.mark(s2, a.kinds[t.m.String()], t.m == MSCIM)
				var want Val = m
				if t.n == "SCIM" {
					want = a.scimOf(s2, m)
				}
				got := a.theURN(s2, t, s2.roots[0])
				c.check("replaced", sameMark(a.e, s2, got, want), at+", on success", w, "%s: the receiver is not what Parse returned: %s", name, describe(a.e, s2, got))
			}
		default:
			v := judge(st)
			if failed == 0 {
				nok++
				c.check("verdict", !v.rej, at, w, "%s: accepts a string that is not in the language of mode %s", name, t.m)
				if specFinal(t.m, st.g.s) && !st.z.isLe(st.g.F, st.g.N, -1) {
					s2 := st.clone()
					if s2.z.eq(s2.g.F, s2.g.N) {
						s2.roots = []Val{IfaceV{}, a.theURN(s2, t, s2.roots[0])}
						done = append(done, s2)
					}
				}
			} else {
				c.check("verdict", !v.acc, at, w, "%s: error for a string in the language of mode %s", name, t.m)
			}
		}
	}
	c.check("accepts-something", nok > 0, at, "", "%s: no successful outcome", name)
	if len(done) > 0 {
		if t.n == "SCIM" {
			for _, st := range done {
				c.scimFields(a, st, st.roots[1], at+", input last read at "+a.where(st))
			}
		} else {
			c.fidelity(a, t.m, done)
			c.rqf(a, t.m, done)
			c.kinds(a, t.m, done)
		}
	}
}

func sortedFacts(st *State) string {
	s := ""
	for _, k := range []string{"json:err", "json:str", "json:null", factParsed} {
		if v, ok := st.facts[k]; ok {
			if v {
				s += k + " "
			} else {
				s += "not " + k + " "
			}
		}
	}
	return s
}

func describe(e *Engine, st *State, v Val) string {
	if p, ok := v.(PtrV); ok && p.obj != 0 {
		return "&" + valString(st.obj(e, p.obj).val)
	}
	return valString(v)
}

// marshal: encoding gives the string form (C16).
func (c *Ctx) marshal() {
	var r *Repo
	c.guard("loading", func() { r = c.load() })
	if r == nil {
		return
	}
	var jobs []job
	c.guard("types", func() {
		a := newAPI(r)
		for _, t := range a.jsonTypes() {
			t := t
			c.marshalMethod(a, t)
			same := func(a *API) jsonType {
				for _, x := range a.jsonTypes() {
					if x.n == t.n {
						return x
					}
				}
				panic(missing{t.n})
			}
			jobs = append(jobs, job{t.n + ", any value", func(a *API) { c.marshalAny(a, same(a)) }})
		}
		c.dropsHash()
	})
	c.par(jobs...)
	c.eachRoute(allModes, func(a *API, m Mode, r route) {
		sts := c.acceptedBy(a, m, r, nil)
		for _, t := range a.jsonTypes() {
			if t.m == m {
				c.marshalParsed(a, t, sts)
			}
		}
	})
}

// marshalMethod: MarshalJSON is reached by value and by pointer.
func (c *Ctx) marshalMethod(a *API, t jsonType) {
	for _, x := range []types.Type{t.t, types.NewPointer(t.t)} {
		how := t.n + " by value"
		if x != t.t {
			how = t.n + " by pointer"
		}
		sel := a.r.prog.MethodSets.MethodSet(x).Lookup(nil, "MarshalJSON")
		ok := sel != nil
		if ok {
			s, isSig := sel.Obj().Type().(*types.Signature)
			ok = isSig && s.Params().Len() == 0 && s.Results().Len() == 2 && isByteSlice(s.Results().At(0).Type()) &&
				types.Identical(s.Results().At(1).Type(), errType)
		}
		c.check("method-set", ok, how, "", "%s does not implement json.Marshaler: encoding falls back to its fields", how)
		// a text form would be used for map keys and nothing else; JSON prefers MarshalJSON
	}
}

// jsonText is the text a MarshalJSON outcome encodes.
func jsonText(r Ret) (StrV, bool) {
	j, ok := r.vals[0].(JSONV)
	if !ok || nilness(r.vals[1]) != 1 {
		return StrV{}, false
	}
	return asStr(j.v)
}

func (c *Ctx) marshalAny(a *API, t jsonType) {
	// by pointer and by value, zero and any
	for v := 0; v < 4; v++ {
		what := "any " + t.n
		if v&1 == 1 {
			what = "the zero " + t.n
		}
		how := " by pointer"
		mt := types.Type(types.NewPointer(t.t))
		if v&2 == 2 {
			how = " by value"
			mt = t.t
		}
		in := a.cases(newState(), func(st *State) {
			x := a.e.zero(t.t)
			if v&1 == 0 {
				k := 0
				x = a.symbolic(st, t.t, what, &k, 1)
			}
			ptr := PtrV{obj: st.alloc(&Obj{typ: t.t, val: x, frozen: true, site: what})}
			st.roots = []Val{ptr, ptr}
			if v&2 == 2 {
				st.roots[1] = x
			}
		})
		what += how
		var rets []Ret
		for _, st := range in { // one by one: not to merge them
			rets = append(rets, a.e.call(a.method(mt, "MarshalJSON"), []*State{st}, func(st *State) []Val { return []Val{st.roots[1]} })...)
		}
		c.count(rets)
		var next []*State
		for _, r := range rets {
			txt, ok := jsonText(r)
			if !c.check("never-fails", nilness(r.vals[1]) == 1, "MarshalJSON of "+what, "", "MarshalJSON of %s returns the error %s", what, valString(r.vals[1])) {
				continue
			}
			if !c.check("string-form", ok, "MarshalJSON of "+what, "", "MarshalJSON of %s gives %s, not the encoding of a string", what, valString(r.vals[0])) {
				continue
			}
			s := r.st.clone()
			s.roots = append(s.roots, txt)
			next = append(next, s)
		}
		c.check("returns", len(next) > 0, "MarshalJSON of "+what, "", "MarshalJSON of %s has no outcome", what)
		// the string form: of a zero URN8141 the empty string
		var strs []*State
		for _, s := range next {
			p := a.theURN(s, t, s.roots[0])
			if nilness(p) == 1 {
				got, _ := asStr(s.roots[2])
				kk, isK := got.konst()
				c.check("string-form", isK && kk == "", "MarshalJSON of "+what, "", "MarshalJSON of %s encodes %s", what, valString(got))
				continue
			}
			s.roots = append(s.roots, p)
			strs = append(strs, s)
		}
		if len(strs) == 0 {
			continue
		}
		st2 := a.urnT
		if t.n == "SCIM" {
			st2 = a.scimT
		}
		var ss []Ret
		for _, st := range strs {
			ss = append(ss, a.on(st2, "String", []*State{st}, 3)...)
		}
		for _, r := range ss {
			got, _ := asStr(r.st.roots[2])
			want, ok := asStr(r.vals[0])
			c.check("string-form", ok && sameText(a.e, r.st, got, want), "MarshalJSON of "+what, "", "MarshalJSON of %s encodes %s, String() is %s", what, valString(got), valString(want))
			c.sample("%s: encodes %s, String() is %s", what, valString(got), valString(want))
		}
		if a.e.overrun != "" {
			return
		}
	}
	c.absorb(a, t.n+", any value", "panic", "write-frozen")
}

func (c *Ctx) marshalParsed(a *API, t jsonType, sts []*State) {
	// by value
	var in []*State
	for _, st := range sts {
		s := st.clone()
		var v Val
		switch t.n {
		case "URN":
			v = s.obj(a.e, s.roots[1].(PtrV).obj).val
		case "URN8141":
			z, ok := a.e.zero(t.t).(StructV)
			if !ok {
				panic(missing{"struct URN8141"})
			}
			f := append([]Val(nil), z.f...)
			u := t.t.Underlying().(*types.Struct)
			for i := range f {
				if pt, ok := u.Field(i).Type().(*types.Pointer); ok && types.Identical(pt.Elem(), a.urnT) {
					f[i] = s.roots[1]
				}
			}
			v = StructV{f}
		case "SCIM":
			p, ok := a.scimOf(s, s.roots[1]).(PtrV)
			if !ok || p.obj == 0 {
				c.check("round-trip", false, "SCIM, last byte read at "+a.where(s), witness(s.trace), "a parsed SCIM URN without SCIM part")
				continue
			}
			v = s.obj(a.e, p.obj).val
		}
		s.roots = append(s.roots, v)
		in = append(in, s)
	}
	if len(in) == 0 {
		return
	}
	k := len(in[0].roots) - 1
	for _, r := range a.e.call(a.method(t.t, "MarshalJSON"), in, func(st *State) []Val { return []Val{st.roots[k]} }) {
		txt, ok := jsonText(r)
		if !c.check("string-form", ok, "MarshalJSON of a parsed "+t.n, witness(r.st.trace), "MarshalJSON gives %s, %s", valString(r.vals[0]), valString(r.vals[1])) {
			continue
		}
		if t.n == "SCIM" {
			c.wantWhole(a, r.st, "round-trip", "the text MarshalJSON encodes", txt, con(3), cstr("urn"))
		} else {
			c.wantWhole(a, r.st, "round-trip", "the text MarshalJSON encodes", txt, con(0), StrV{})
		}
	}
}

// dropsHash: in the grammar an empty fragment's # can be dropped: it stands where the URN may end.
func (c *Ctx) dropsHash() {
	seen := map[SpecState]bool{}
	work := []SpecState{specInit(M8141)}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[s] {
			continue
		}
		seen[s] = true
		for b := 0; b < 256; b++ {
			n, _, _ := specStep(M8141, s, byte(b))
			if n.ph == phDead {
				continue
			}
			if n.ph == phFrag && s.ph != phFrag && s.ctx != phFrag {
				c.check("empty-fragment", specFinal(M8141, s), "the RFC 8141 grammar", "", "a fragment may start where the URN may not end (%s)", s)
			}
			work = append(work, n)
		}
	}
}

// scimOf is the SCIM part of the URN p points to.
func (a *API) scimOf(st *State, p Val) Val {
	s, ok := a.urnT.Underlying().(*types.Struct)
	if !ok {
		panic(missing{"struct URN"})
	}
	name := ""
	for i := 0; i < s.NumFields(); i++ {
		if pt, ok := s.Field(i).Type().(*types.Pointer); ok && types.Identical(pt.Elem(), a.scimT) {
			name = s.Field(i).Name()
		}
	}
	if name == "" {
		panic(missing{"the SCIM part of a URN"})
	}
	return a.field(st, p, a.urnT, name)
}
