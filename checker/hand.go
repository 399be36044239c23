package main

import (
	"fmt"
	"go/types"
	"strings"
)

// C26: values that were not made by parsing.

// handMade makes a struct whose named fields are given and whose other ones are zero.
func (a *API) handMade(t types.Type, f map[string]Val) Val {
	v, ok := a.e.zero(t).(StructV)
	s, ok2 := t.Underlying().(*types.Struct)
	if !ok || !ok2 {
		panic(missing{"struct " + t.String()})
	}
	out := append([]Val(nil), v.f...)
	n := 0
	for i := 0; i < s.NumFields(); i++ {
		if x, ok := f[s.Field(i).Name()]; ok {
			out[i] = x
			n++
		}
	}
	if n != len(f) {
		panic(missing{"the fields of " + t.String()})
	}
	return StructV{out}
}

// plain writes the texts that are known to be a constant as one.
func plain(st *State, s StrV) StrV {
	out := cstr("")
	for _, x := range s.a {
		if x.k == aSym {
			if st.facts[fmt.Sprintf("e:%d", x.id)] {
				continue
			}
			for f, v := range st.facts {
				pre := fmt.Sprintf("c:%d%v=", x.id, x.lower)
				var k string
				if v && strings.HasPrefix(f, pre) {
					if _, err := fmt.Sscanf(f[len(pre):], "%q", &k); err == nil {
						x = Atom{k: aConst, s: k}
						break
					}
				}
			}
		}
		out = concatStr(st, out, StrV{[]Atom{x}})
	}
	// texts of unknown content carry their length along
	return noLen(out)
}

// byEmpty splits on which of some texts are empty.
func (a *API) byEmpty(st *State, xs []StrV, f func(st *State, empty []bool)) {
	var rec func(st *State, got []bool)
	rec = func(st *State, got []bool) {
		if len(got) == len(xs) {
			f(st, got)
			return
		}
		for _, o := range a.e.emptyStr(st.clone(), xs[len(got)]) {
			rec(o.st, append(append([]bool(nil), got...), o.b))
		}
	}
	rec(st, nil)
}

func (c *Ctx) handmade() {
	c.par(job{"hand-made URN", func(a *API) {
		st := newState()
		id, ss := a.anyText(st, 910), a.anyText(st, 911)
		o := st.alloc(&Obj{typ: a.urnT, frozen: true, site: "hand-made", val: a.handMade(a.urnT, map[string]Val{"ID": id, "SS": ss})})
		st.roots = []Val{PtrV{obj: o}, id, ss}
		rets := a.on(a.urnT, "String", []*State{st.clone()}, 0)
		c.count(rets)
		seen := map[[2]bool]bool{}
		for _, r := range rets {
			got, ok := asStr(r.vals[0])
			id, ss := r.st.roots[1].(StrV), r.st.roots[2].(StrV)
			a.byEmpty(r.st, []StrV{id, ss}, func(st *State, empty []bool) {
				seen[[2]bool{empty[0], empty[1]}] = true
				want := StrV{}
				if !empty[0] && !empty[1] {
					want = concatStr(st, concatStr(st, cstr("urn:"), id), concatStr(st, cstr(":"), ss))
				}
				c.check("String", ok && sameStr(st, plain(st, got), plain(st, want)), "String", witness(st.trace),
					"String() of a hand-made URN is %s, expected %s (ID empty: %v, SS empty: %v)", valString(r.vals[0]), valString(want), empty[0], empty[1])
				c.sample("ID empty %v, SS empty %v: String() is %s", empty[0], empty[1], valString(r.vals[0]))
			})
		}
		c.check("String", len(seen) == 4, "String", "", "String() has %d of 4 outcomes on hand-made URNs", len(seen))

		for _, x := range []struct{ name, want string }{{"RFC", "NONE"}, {"IsSCIM", "false"}, {"SCIM", "nil"}, {"RComponent", ""}, {"QComponent", ""}, {"FComponent", ""}} {
			rets := a.on(a.urnT, x.name, []*State{st.clone()}, 0)
			c.count(rets)
			c.check("accessor", len(rets) > 0, x.name, "", "%s does not return", x.name)
			for _, r := range rets {
				ok := false
				switch v := r.vals[0].(type) {
				case IntV:
					k, is := constOf(r.st, v)
					ok = is && x.want == "NONE" && k == a.kinds["NONE"]
				case BoolV:
					ok = x.want == "false" && !v.b
				case PtrV:
					ok = x.want == "nil" && nilness(v) == 1
				case StrV:
					k, is := plain(r.st, v).konst()
					ok = is && x.want == "" && k == ""
				}
				c.check("accessor", ok, x.name, witness(r.st.trace), "%s() of a hand-made URN is %s, expected %s", x.name, valString(r.vals[0]), orEmpty(x.want))
			}
		}
		c.absorb(a, "hand-made URN", "panic")
	}})
	c.par(job{"hand-made SCIM", func(a *API) {
		t := a.r.typ(a.r.schema, "Type")
		names := map[int64]string{a.stypes["Schemas"]: "schemas", a.stypes["API"]: "api", a.stypes["Param"]: "param"}
		seen := map[string]bool{}
		for _, st := range a.cases(newState(), func(st *State) {
			k := 0
			ty := a.symbolic(st, t, "a type", &k, 0)
			name, other := a.anyText(st, 920), a.anyText(st, 921)
			o := st.alloc(&Obj{typ: a.scimT, frozen: true, site: "hand-made", val: a.handMade(a.scimT, map[string]Val{"Type": ty, "Name": name, "Other": other})})
			st.roots = []Val{PtrV{obj: o}, ty, name, other}
		}) {
			word := ""
			if k, ok := st.z.diff(st.roots[1].(IntV).l, con(0)); ok {
				word = names[k]
			}
			rets := a.on(a.scimT, "String", []*State{st}, 0)
			c.count(rets)
			for _, r := range rets {
				got, ok := asStr(r.vals[0])
				name, other := r.st.roots[2].(StrV), r.st.roots[3].(StrV)
				a.byEmpty(r.st, []StrV{name, other}, func(st *State, empty []bool) {
					seen[fmt.Sprint(word, empty)] = true
					want := concatStr(st, cstr("urn:ietf:params:scim:"+word+":"), name)
					if !empty[1] {
						want = concatStr(st, concatStr(st, want, cstr(":")), other)
					}
					c.check("SCIM.String", ok && sameStr(st, plain(st, got), plain(st, want)), "(*SCIM).String", witness(st.trace),
						"String() of a hand-made SCIM is %s, expected %s", valString(r.vals[0]), valString(want))
				})
				c.sample("type %q: String() is %s", word, valString(r.vals[0]))
			}
		}
		c.check("SCIM.String", len(seen) == 16, "(*SCIM).String", "", "String() has %d of 16 outcomes on hand-made values", len(seen))
		c.absorb(a, "hand-made SCIM", "panic")
	}})
}

func orEmpty(s string) string {
	if s == "" {
		return `""`
	}
	return s
}
