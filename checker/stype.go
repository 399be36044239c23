package main

// C17: SCIM type names and values.

func (c *Ctx) scimTypes() {
	c.par(job{"scim types", func(a *API) {
		names := map[string]string{"Schemas": "schemas", "API": "api", "Param": "param"}
		t := a.r.typ(a.r.schema, "Type")
		str := a.method(t, "String")
		from := a.r.fn(a.r.schema, "TypeFromString")

		// three different values, none of them Unsupported
		seen := map[int64]string{}
		for _, n := range []string{"Unsupported", "Schemas", "API", "Param"} {
			o, dup := seen[a.stypes[n]]
			c.check("distinct", !dup, "const "+n, "", "%s and %s are the same value", n, o)
			seen[a.stypes[n]] = n
		}

		// values to names
		for _, st := range a.cases(newState(), func(st *State) {
			k := 0
			st.roots = []Val{a.symbolic(st, t, "a type", &k, 0)}
		}) {
			iv := st.roots[0].(IntV)
			want, what := "", "values without a name"
			if k, ok := st.z.diff(iv.l, con(0)); ok {
				what = seen[k]
				want = names[what]
			}
			rets := a.e.call(str, []*State{st}, func(st *State) []Val { return []Val{st.roots[0]} })
			c.count(rets)
			c.check("name", len(rets) > 0, "Type.String", "", "String of %s does not return", what)
			for _, r := range rets {
				s, _ := asStr(r.vals[0])
				k, ok := s.konst()
				c.check("name", ok && k == want, "Type.String", "", "String of %s is %s, not %q", what, valString(r.vals[0]), want)
				c.sample("String of %s is %s", what, valString(r.vals[0]))
			}
		}

		// names to values, and back
		for n, name := range names {
			st := newState()
			st.roots = []Val{cstr(name)}
			rets := a.e.call(from, []*State{st}, func(st *State) []Val { return []Val{st.roots[0]} })
			c.count(rets)
			c.check("value", len(rets) > 0, "TypeFromString", "", "TypeFromString(%q) does not return", name)
			for _, r := range rets {
				k, ok := constOf(r.st, r.vals[0])
				c.check("value", ok && k == a.stypes[n], "TypeFromString", "", "TypeFromString(%q) is %s, not %s", name, valString(r.vals[0]), n)
			}
		}

		// every other text, by length
		longest := 0
		for _, n := range names {
			if len(n) > longest {
				longest = len(n)
			}
		}
		for l := 0; l <= longest+1; l++ {
			st := newState()
			x := a.anyText(st, 700)
			if !st.z.le(con(int64(l)), x.a[0].to, 0) || l <= longest && !st.z.le(x.a[0].to, con(int64(l)), 0) {
				panic("lengths")
			}
			st.roots = []Val{x}
			rets := a.e.call(from, []*State{st}, func(st *State) []Val { return []Val{st.roots[0]} })
			c.count(rets)
			c.check("value", len(rets) > 0, "TypeFromString", "", "TypeFromString does not return")
			for _, r := range rets {
				k, ok := constOf(r.st, r.vals[0])
				if !c.check("value", ok, "TypeFromString", "", "TypeFromString gives %s for some text", valString(r.vals[0])) {
					continue
				}
				x := r.st.roots[0].(StrV)
				if n := names[seen[k]]; n != "" {
					c.check("value", a.settled(r.st, x, n) == 1, "TypeFromString", "", "TypeFromString gives %s for a text that need not be %q", seen[k], n)
				} else {
					c.check("value", k == a.stypes["Unsupported"], "TypeFromString", "", "TypeFromString gives %d", k)
					for v, n := range names {
						c.check("value", a.settled(r.st, x, n) == 0, "TypeFromString", "", "TypeFromString gives Unsupported for a text that may be %q (%s)", n, v)
					}
				}
				c.sample("TypeFromString of any text of length %d: %s", l, valString(r.vals[0]))
			}
		}
		c.absorb(a, "scim types", "panic")
	}})
}

// settled: is it known whether a text is a constant?
func (a *API) settled(st *State, x StrV, k string) int {
	if v := a.equalTexts(&unknownTexts{}, st, x, cstr(k)); v >= 0 {
		return v
	}
	// a text that is one constant is no other
	s := st.clone()
	out := a.e.eqStr(s, x, cstr(k), false)
	if len(out) == 1 && !out[0].b {
		return 0
	}
	return -1
}
