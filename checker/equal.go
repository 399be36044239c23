package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C11: Equal is equality of normalized forms.
//
// Two arbitrary URNs are normalized and then compared. Functions that turn texts into a text (or else Normalize as a
// whole) are not looked into: equal arguments give equal results, and nothing else is known of them.

// deterministic: does the result of a function depend on its arguments (and what they point to) only?
func (a *API) deterministic(fn *ssa.Function, seen map[*ssa.Function]bool) string {
	if seen[fn] {
		return ""
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan, *ssa.Defer, *ssa.RunDefers:
				return fmt.Sprintf("%s in %s", in, fn)
			case *ssa.Next:
				if !x.IsString {
					return "iterates over a map in " + fn.String()
				}
			case *ssa.UnOp:
				if x.Op.String() == "<-" {
					return "receives from a channel in " + fn.String()
				}
			}
			for _, op := range in.Operands(nil) {
				if op == nil {
					continue
				}
				switch v := (*op).(type) {
				case *ssa.Global:
					if a.r.assigned(v) {
						return "reads the variable " + v.String() + " in " + fn.String()
					}
				case *ssa.Function:
					if a.r.inMod(v) {
						if why := a.deterministic(v, seen); why != "" {
							return why
						}
					}
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				cc := c.Common()
				f := cc.StaticCallee()
				if f == nil {
					if _, isB := cc.Value.(*ssa.Builtin); !isB {
						return "calls an unknown function in " + fn.String()
					}
					continue
				}
				if a.r.inMod(f) {
					continue
				}
				if _, known := stdModels[f.String()]; known {
					continue
				}
				pkg := ""
				if f.Pkg != nil {
					pkg = f.Pkg.Pkg.Path()
				}
				if impure(f, pkg, f.String()) != "" {
					return "calls " + f.String() + " in " + fn.String()
				}
			}
		}
	}
	return ""
}

// assigned: may a package-level variable, or what it refers to, be written to other than by its initialiser?
func (r *Repo) assigned(g *ssa.Global) bool {
	if r.written == nil {
		r.written = map[*ssa.Global]bool{}
		for fn := range r.allFuncs() {
			if fn.Synthetic != "" && fn.Name() == "init" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if op == nil {
							continue
						}
						if g, ok := (*op).(*ssa.Global); ok && !onlyRead(in, g, 0) {
							r.written[g] = true
						}
					}
				}
			}
		}
	}
	return r.written[g]
}

// onlyRead: does an instruction use v (a variable, a part of it or what it refers to) for reading only?
func onlyRead(in ssa.Instruction, v ssa.Value, depth int) bool {
	all := func(w ssa.Value) bool {
		if depth > 8 || w.Referrers() == nil {
			return false
		}
		for _, x := range *w.Referrers() {
			if !onlyRead(x, w, depth+1) {
				return false
			}
		}
		return true
	}
	plain := func(t types.Type) bool {
		_, basic := t.Underlying().(*types.Basic)
		return basic || types.Identical(t, errType)
	}
	switch x := in.(type) {
	case *ssa.DebugRef, *ssa.BinOp, *ssa.If:
		return true
	case *ssa.UnOp:
		return x.Op.String() != "*" || plain(x.Type()) || all(x)
	case *ssa.IndexAddr:
		return x.X == v && all(x)
	case *ssa.FieldAddr, *ssa.Slice, *ssa.Range:
		return all(in.(ssa.Value))
	case *ssa.Field, *ssa.Index, *ssa.Lookup, *ssa.Next, *ssa.Extract:
		w := in.(ssa.Value)
		return plain(w.Type()) || all(w)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap"
		}
	}
	return false
}

// textFuncs are the functions of the module from texts to a text.
func (a *API) textFuncs() []*ssa.Function {
	var out []*ssa.Function
	for fn := range a.r.allFuncs() {
		s := fn.Signature
		if s.Recv() != nil || len(fn.FreeVars) > 0 || s.Params().Len() == 0 || s.Results().Len() != 1 || !isString(s.Results().At(0).Type()) || !a.r.inMod(fn) || len(fn.Blocks) == 0 {
			continue
		}
		ok := true
		for i := 0; i < s.Params().Len(); i++ {
			ok = ok && isString(s.Params().At(i).Type())
		}
		if ok {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// unknownTexts numbers the results of functions that are not looked into.
type unknownTexts struct {
	ids map[string]int
	of  map[int]appl // what it is the result of
}

type appl struct {
	fn   string
	args []StrV
}

func (u *unknownTexts) id(k string) int {
	if n, ok := u.ids[k]; ok {
		return n
	}
	n := 5000 + len(u.ids)
	u.ids[k] = n
	return n
}

// name writes out a text.
func (u *unknownTexts) name(s StrV) string {
	n := ""
	for _, a := range s.a {
		if n != "" {
			n += "+"
		}
		switch f := u.of[a.id]; {
		case a.k == aConst:
			n += fmt.Sprintf("%q", a.s)
		case a.k != aSym:
			n += "?"
		case f.fn != "":
			n += f.fn[strings.LastIndex(f.fn, ".")+1:] + "("
			for i, x := range f.args {
				if i > 0 {
					n += ","
				}
				n += u.name(x)
			}
			n += ")"
		default:
			x := fmt.Sprintf("$%d", a.id)
			for k, id := range u.ids {
				if id == a.id {
					x = k
				}
			}
			if a.lower {
				x = "ToLower(" + x + ")"
			}
			n += x
		}
	}
	if n == "" {
		return `""`
	}
	return n
}

// text gives the unknown text of a name; its length is the same wherever it comes up (kept in root reg).
func (u *unknownTexts) text(st *State, k string, reg int) StrV {
	id := u.id(k)
	t := st.roots[reg].(TupleV)
	for _, x := range t.e {
		if s := x.(StrV); s.a[0].id == id {
			return s
		}
	}
	n := st.freshSym()
	st.z.le(con(0), n, 0)
	s := StrV{[]Atom{{k: aSym, id: id, sized: true, to: n}}}
	st.roots[reg] = TupleV{append(append([]Val(nil), t.e...), s)}
	return s
}

// textKey names a text made of constants and unknown texts.
func textKey(s StrV) (string, bool) {
	k := ""
	for _, a := range s.a {
		switch a.k {
		case aConst:
			k += fmt.Sprintf("%q,", a.s)
		case aSym:
			k += fmt.Sprintf("%d%v,", a.id, a.lower)
		default:
			return "", false
		}
	}
	return k, true
}

const (
	eqU = iota
	eqX
	eqReg // lengths of unknown texts
	eqIDu
	eqSSu
	eqIDx
	eqSSx
	eqRoots
)

// newURNs makes two arbitrary URNs, or the same one twice.
func (a *API) newURNs(same bool) []*State {
	return a.cases(newState(), func(st *State) {
		k := 0
		mk := func(w string) Val {
			v := a.symbolic(st, a.urnT, w, &k, 1)
			return PtrV{obj: st.alloc(&Obj{typ: a.urnT, val: v, frozen: true, site: w})}
		}
		st.roots = make([]Val, eqRoots)
		for i := range st.roots {
			st.roots[i] = IfaceV{}
		}
		st.roots[eqU] = mk("u")
		if same {
			st.roots[eqX] = st.roots[eqU]
		} else {
			st.roots[eqX] = mk("x")
		}
		st.roots[eqReg] = TupleV{}
	})
}

// equalTexts: is the equality of two texts settled?
func (a *API) equalTexts(u *unknownTexts, st *State, x, y StrV) int {
	// functions of equal texts are equal
	if len(x.a) == 1 && len(y.a) == 1 && x.a[0].k == aSym && y.a[0].k == aSym {
		p, q := x.a[0], y.a[0]
		if p.lower && q.lower {
			p.lower, q.lower = false, false
			if a.equalTexts(u, st, StrV{[]Atom{p}}, StrV{[]Atom{q}}) == 1 {
				return 1
			}
		}
		f, g := u.of[p.id], u.of[q.id]
		if f.fn != "" && f.fn == g.fn && len(f.args) == len(g.args) && x.a[0].lower == y.a[0].lower {
			all := true
			for i := range f.args {
				all = all && a.equalTexts(u, st, noLen(f.args[i]), noLen(g.args[i])) == 1
			}
			if all {
				return 1
			}
		}
	}
	lx, ly := a.e.strLen(st.clone(), x), a.e.strLen(st.clone(), y)
	if ix, ok := lx.(IntV); ok {
		if iy, ok := ly.(IntV); ok && ix.l.s < st.z.n && iy.l.s < st.z.n && !st.z.canEq(ix.l, iy.l) {
			return 0
		}
	}
	s := st.clone()
	n := len(s.facts)
	out := a.e.eqStr(s, x, y, false)
	if len(out) != 1 || len(out[0].st.facts) != n {
		return -1
	}
	if out[0].b {
		return 1
	}
	return 0
}

// noLen drops the numbers from a text that was made in another state.
func noLen(s StrV) StrV {
	out := StrV{append([]Atom(nil), s.a...)}
	for i := range out.a {
		out.a[i].sized, out.a[i].to = false, Lin{}
	}
	return out
}

// equality checks one way of taking Normalize apart; it returns the failures.
func (a *API) equality(c *Ctx, what string, hook func(u *unknownTexts), rets *int) (bad []string) {
	u := &unknownTexts{map[string]int{}, map[int]appl{}}
	a.e.hooks = map[*ssa.Function]stdModel{}
	hook(u)
	defer func() { a.e.hooks = nil }()
	fail := func(f string, args ...interface{}) { bad = append(bad, fmt.Sprintf(f, args...)) }
	for _, same := range []bool{true, false} {
		sts := a.newURNs(same)
		for _, x := range []struct{ from, id, ss int }{{eqU, eqIDu, eqSSu}, {eqX, eqIDx, eqSSx}} {
			var next []*State
			for _, st := range sts {
				for _, r := range a.on(a.urnT, "Normalize", []*State{st}, x.from) {
					s := r.st.clone()
					id, ok1 := asStr(a.field(s, r.vals[0], a.urnT, "ID"))
					ss, ok2 := asStr(a.field(s, r.vals[0], a.urnT, "SS"))
					if !ok1 || !ok2 {
						fail("the normal form is %s", valString(r.vals[0]))
						continue
					}
					s.roots[x.id], s.roots[x.ss] = id, ss
					next = append(next, s)
				}
			}
			sts = next
		}
		for _, st := range sts {
			for _, r := range a.e.call(a.method(types.NewPointer(a.urnT), "Equal"), []*State{st}, func(st *State) []Val { return []Val{st.roots[eqU], st.roots[eqX]} }) {
				*rets++
				at := "Equal of two URNs"
				if same {
					at = "Equal of a URN and itself"
				}
				b, ok := r.vals[0].(BoolV)
				if !ok {
					fail("%s is    %s", at, valString(r.vals[0]))
					continue
				}
				s := r.st
				get := func(i int) StrV { v, _ := asStr(s.roots[i]); return v }
				show := func(i int) string { return u.name(get(i)) }
				ids := a.equalTexts(u, s, get(eqIDu), get(eqIDx))
				sss := a.equalTexts(u, s, get(eqSSu), get(eqSSx))
				if b.b {
					if ids != 1 {
						fail("%s is true where the normalized IDs %s and %s need not be equal", at, show(eqIDu), show(eqIDx))
					}
					if sss != 1 {
						fail("%s is true where the normalized SS %s and %s need not be equal", at, show(eqSSu), show(eqSSx))
					}
				} else if ids != 0 && sss != 0 {
					fail("%s is false where the normalized IDs %s and %s and SS %s and %s may be equal", at, show(eqIDu), show(eqIDx), show(eqSSu), show(eqSSx))
				}
				c.sample("%s (%s): %v, IDs %s and %s, SS %s and    %s", at, what, b.b, show(eqIDu), show(eqIDx), show(eqSSu), show(eqSSx))
			}
		}
		if !same {
			// nil
			var in []*State
			for _, st := range a.newURNs(true) {
				st.roots[eqX] = PtrV{}
				in = append(in, st)
			}
			for _, r := range a.e.call(a.method(types.NewPointer(a.urnT), "Equal"), in, func(st *State) []Val { return []Val{st.roots[eqU], st.roots[eqX]} }) {
				*rets++
				if b, ok := r.vals[0].(BoolV); !ok || b.b {
					fail("Equal(nil) is %s", valString(r.vals[0]))
				}
			}
		}
	}
	for _, ev := range a.e.events {
		switch ev.kind {
		case "panic", "undecided", "unsupported":
			fail("%s at %s: %s", ev.kind, ev.fn, ev.msg)
		}
	}
	if a.e.overrun != "" {
		fail("%s", a.e.overrun)
	}
	return bad
}

// byTexts does not look into the functions from texts to a text.
func (a *API) byTexts() func(u *unknownTexts) {
	return func(u *unknownTexts) {
		for _, fn := range a.textFuncs() {
			if a.deterministic(fn, map[*ssa.Function]bool{}) != "" {
				continue
			}
			name := fn.String()
			a.e.funcs[fn] = true
			a.e.hooks[fn] = func(e *Engine, st *State, c *callCtx) []sv {
				k := name
				var args []StrV
				for _, x := range c.args {
					s, _ := asStr(x)
					args = append(args, s)
					w, ok := textKey(s)
					if !ok {
						return one(st, topStr(s.stale()))
					}
					k += "|" + w
				}
				u.of[u.id(k)] = appl{name, args}
				return one(st, u.text(st, k, eqReg))
			}
		}
	}
}

// byNormalize does not look into Normalize: its result for one and the same URN is the same.
func (a *API) byNormalize(c *Ctx) (func(u *unknownTexts), string) {
	m := a.method(types.NewPointer(a.urnT), "Normalize")
	if why := a.deterministic(m, map[*ssa.Function]bool{}); why != "" {
		return nil, why
	}
	// fields with one and the same value in all outcomes keep it
	s := a.urnT.Underlying().(*types.Struct)
	fixed := make([]Val, s.NumFields())
	first := true
	for _, st := range a.newURNs(true) {
		for _, r := range a.on(a.urnT, "Normalize", []*State{st}, eqU) {
			p, ok := r.vals[0].(PtrV)
			if !ok || p.obj == 0 {
				return nil, "Normalize returns " + valString(r.vals[0])
			}
			o := r.st.obj(a.e, p.obj)
			v, ok := o.val.(StructV)
			if !ok || p.path != "" {
				return nil, "Normalize returns " + valString(r.vals[0])
			}
			for i := range fixed {
				x := v.f[i]
				switch y := x.(type) {
				case StrV:
					if _, ok := y.konst(); !ok {
						x = nil
					}
				case IntV:
					if !y.l.isConst() {
						x = nil
					}
				case PtrV:
					if y.obj != 0 {
						x = nil
					}
				case SliceV:
					if y.obj != 0 {
						x = nil
					}
				case BoolV:
				default:
					x = nil
				}
				if first {
					fixed[i] = x
				} else if x == nil || fixed[i] == nil || valString(x) != valString(fixed[i]) {
					fixed[i] = nil
				}
			}
			first = false
		}
	}
	a.e.events = nil
	a.e.seenEv = map[string]bool{}
	return func(u *unknownTexts) {
		a.e.hooks[m] = func(e *Engine, st *State, c *callCtx) []sv {
			who := ""
			switch {
			case c.args[0] == st.roots[eqU]:
				who = "u"
			case c.args[0] == st.roots[eqX]:
				who = "x"
			default:
				e.event(st, "undecided", "Normalize of %s", valString(c.args[0]))
				return one(st, PtrV{})
			}
			f := make([]Val, len(fixed))
			for i := range f {
				t := s.Field(i).Type()
				switch {
				case fixed[i] != nil:
					f[i] = fixed[i]
				case isString(t):
					f[i] = u.text(st, "Normalize("+who+")."+s.Field(i).Name(), eqReg)
				default:
					f[i] = TopV{why: oneValue + who + s.Field(i).Name()}
				}
			}
			return one(st, PtrV{obj: st.alloc(&Obj{typ: a.urnT, val: StructV{f}, site: "the normal form of " + who})})
		}
	}, ""
}

func (c *Ctx) equal() {
	c.par(job{"Equal", func(a *API) {
		n := 0
		how := "functions from texts to a text not looked into"
		bad := a.equality(c, how, a.byTexts(), &n)
		c.count(make([]Ret, n))
		if len(bad) > 0 {
			a.e.events = nil
			a.e.seenEv = map[string]bool{}
			if h, why := a.byNormalize(c); why == "" {
				n = 0
				how = "Normalize not looked into"
				if bad2 := a.equality(c, how, h, &n); len(bad2) == 0 {
					bad = nil
				}
				c.count(make([]Ret, n))
			} else {
				bad = append(bad, "Normalize is not a function of its receiver: "+why)
			}
			a.e.events = nil
		}
		c.note("compared with %s: %d outcomes", how, n)
		var fns []string
		for _, f := range a.textFuncs() {
			fns = append(fns, f.Name())
		}
		c.note("functions from texts to a text: %s", strings.Join(fns, " "))
		c.check("equality", n > 0, "Equal", "", "Equal has no outcome")
		for _, b := range bad {
			c.check("equality", false, "(*URN).Equal", "", "%s", b)
		}
		for i := 0; len(bad) == 0 && i < n; i++ {
			c.check("equality", true, "(*URN).Equal", "", "")
		}
		c.absorb(a, "Equal")
	}})
}
