package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// modeCase is one way a mode can be given: a named value, or any value between or around them.
type modeCase struct {
	name string
	spec Mode
	val  func(st *State) Val
}

// modeCases splits all values of a ParsingMode.
func (a *API) modeCases() []modeCase {
	type nv struct {
		n string
		v int64
	}
	var named []nv
	for n, v := range a.modes {
		if n != "DefaultParsingMode" {
			named = append(named, nv{n, v})
		}
	}
	sort.Slice(named, func(i, j int) bool { return named[i].v < named[j].v })
	var out []modeCase
	gap := func(name string, lo, hi int64) {
		if lo > hi {
			return
		}
		out = append(out, modeCase{name, M2141, func(st *State) Val {
			s := st.freshSym()
			if lo > -inf {
				st.z.le(con(0), s, -lo)
			}
			if hi < inf {
				st.z.le(s, con(0), hi)
			}
			return IntV{l: s}
		}})
	}
	prev := int64(-inf)
	for _, x := range named {
		x := x
		gap("any mode below "+x.n, prev, x.v-1)
		out = append(out, modeCase{x.n, a.specMode(x.v), func(*State) Val { return IntV{con(x.v), true} }})
		prev = x.v + 1
	}
	gap("any mode above "+named[len(named)-1].n, prev, inf)
	return out
}

func (a *API) named(n string) modeCase {
	v := a.modes[n]
	return modeCase{n, a.specMode(v), func(*State) Val { return IntV{con(v), true} }}
}

func (a *API) modeOf(m Mode) modeCase {
	return a.named([...]string{"RFC2141Only", "RFC7643Only", "RFC8141Only"}[m])
}

// optionList makes an option list; the states' only root is the list.
func (a *API) optionList(cases []modeCase) []*State {
	sts := []*State{newState()}
	for i, mc := range cases {
		var next []*State
		for _, st := range sts {
			v := mc.val(st)
			for _, r := range a.e.call(a.withMode, []*State{st}, func(*State) []Val { return []Val{v} }) {
				r.st.roots = append(r.st.roots, r.vals[0])
				next = append(next, r.st)
			}
		}
		sts = next
		_ = i
	}
	el := a.withMode.Signature.Results().At(0).Type()
	for _, st := range sts {
		st.roots = []Val{a.list(st, el, append([]Val(nil), st.roots...)...)}
	}
	return sts
}

// newWith makes a machine with the options; roots: machine.
func (a *API) newWith(cases []modeCase) []*State {
	var out []*State
	for _, r := range a.e.call(a.newMachine, a.optionList(cases), func(st *State) []Val { return []Val{st.roots[0]} }) {
		r.st.roots = []Val{r.vals[0]}
		out = append(out, r.st)
	}
	return out
}

// parseMethod is the concrete Parse of the machine in root i.
func (a *API) concrete(st *State, i int, name string) (Val, types.Type, bool) {
	iv, ok := st.roots[i].(IfaceV)
	if !ok || iv.t == nil {
		return nil, nil, false
	}
	return iv.v, iv.t, true
}

// deepSame: provably the same value, following pointers.
func deepSame(e *Engine, st *State, x, y Val, seen map[[2]int]bool) bool {
	if seen == nil {
		seen = map[[2]int]bool{}
	}
	switch a := x.(type) {
	case PtrV:
		b, ok := y.(PtrV)
		if !ok || (a.obj == 0) != (b.obj == 0) || a.path != b.path {
			return false
		}
		if a == b {
			return true
		}
		k := [2]int{a.obj, b.obj}
		if seen[k] {
			return true
		}
		seen[k] = true
		oa, ob := st.obj(e, a.obj), st.obj(e, b.obj)
		return oa != nil && ob != nil && oa.val != nil && ob.val != nil && deepSame(e, st, oa.val, ob.val, seen)
	case SliceV:
		b, ok := y.(SliceV)
		if !ok || (a.obj == 0) != (b.obj == 0) {
			return false
		}
		if a.obj == 0 {
			return true
		}
		if a.obj == b.obj {
			return st.z.isEq(a.lo, b.lo) && st.z.isEq(a.hi, b.hi)
		}
		ea, ok1 := e.sliceVals(st, a)
		eb, ok2 := e.sliceVals(st, b)
		if !ok1 || !ok2 || len(ea) != len(eb) {
			return false
		}
		for i := range ea {
			if !deepSame(e, st, ea[i], eb[i], seen) {
				return false
			}
		}
		return true
	case StructV:
		b, ok := y.(StructV)
		if !ok || len(a.f) != len(b.f) {
			return false
		}
		for i := range a.f {
			if !deepSame(e, st, a.f[i], b.f[i], seen) {
				return false
			}
		}
		return true
	case IfaceV:
		b, ok := y.(IfaceV)
		if !ok || (a.t == nil) != (b.t == nil) {
			return false
		}
		return a.t == nil || types.Identical(a.t, b.t) && deepSame(e, st, a.v, b.v, seen)
	case FuncV:
		b, ok := y.(FuncV)
		if !ok || a.fn != b.fn || len(a.bind) != len(b.bind) {
			return false
		}
		for i := range a.bind {
			if !deepSame(e, st, a.bind[i], b.bind[i], seen) {
				return false
			}
		}
		return true
	case BuilderV:
		b, ok := y.(BuilderV)
		return ok && sameText(e, st, a.s, b.s)
	case MapV:
		b, ok := y.(MapV)
		return ok && a.obj == b.obj
	}
	return sameVal(e, st, x, y)
}

// mark makes a recognisable URN that a hooked Parse returns.
func (a *API) mark(st *State, kind int64, scim bool) PtrV {
	uv, ok := a.e.zero(a.urnT).(StructV)
	if !ok {
		panic(missing{"struct URN"})
	}
	f := append([]Val(nil), uv.f...)
	s := a.urnT.Underlying().(*types.Struct)
	fill := func(s *types.Struct, f []Val, base int) {
		for i := range f {
			switch f[i].(type) {
			case StrV:
				f[i] = StrV{[]Atom{{k: aSym, id: base + i}}}
			case IntV:
				f[i] = IntV{con(int64(424200 + base + i)), true}
			case BoolV:
				f[i] = TopV{why: "mark"}
			}
		}
	}
	fill(s, f, 910)
	for i := range f {
		t := s.Field(i).Type()
		if n := namedOf(t); n != nil && n.Obj().Name() == "Kind" {
			f[i] = IntV{con(kind), true}
		}
		if p, ok := t.(*types.Pointer); ok && types.Identical(p.Elem(), a.scimT) && scim {
			sv, ok := a.e.zero(a.scimT).(StructV)
			if !ok {
				panic(missing{"struct SCIM"})
			}
			g := append([]Val(nil), sv.f...)
			fill(a.scimT.Underlying().(*types.Struct), g, 940)
			f[i] = PtrV{obj: st.alloc(&Obj{typ: a.scimT, val: StructV{g}, site: "parsed SCIM"})}
		}
	}
	return PtrV{obj: st.alloc(&Obj{typ: a.urnT, val: StructV{f}, site: "parsed"})}
}

// sameMark compares values that may hold marks.
func sameMark(e *Engine, st *State, x, y Val) bool {
	switch a := x.(type) {
	case TopV:
		b, ok := y.(TopV)
		return ok && !a.stale && !b.stale && a.why == b.why && (a.why == "mark" || strings.HasPrefix(a.why, oneValue))
	case StructV:
		b, ok := y.(StructV)
		if !ok || len(a.f) != len(b.f) {
			return false
		}
		for i := range a.f {
			if !sameMark(e, st, a.f[i], b.f[i]) {
				return false
			}
		}
		return true
	case PtrV:
		b, ok := y.(PtrV)
		if !ok || a.path != b.path || (a.obj == 0) != (b.obj == 0) {
			return false
		}
		if a.obj == b.obj {
			return true
		}
		return sameMark(e, st, st.obj(e, a.obj).val, st.obj(e, b.obj).val)
	}
	return sameVal(e, st, x, y)
}

const factDirect, factOther, factParsed = "parse:direct", "parse:other", "parse:ok"

// hookParse replaces the concrete Parse of the machine by two outcomes, a marked URN or an error; facts tell
// whether it was called on a machine like the one in root ref and with the expected input.
func (a *API) hookParse(method types.Type, kind int64, scim bool, ref func(st *State) Val, input func(st *State, got Val) bool) func() {
	m := a.method(method, "Parse")
	if a.e.hooks == nil {
		a.e.hooks = map[*ssa.Function]stdModel{}
	}
	a.e.hooks[m] = func(e *Engine, st *State, c *callCtx) []sv {
		same := deepSame(e, st, c.args[0], ref(st), nil) && input(st, c.args[1])
		if _, twice := st.facts[factDirect]; twice {
			same = false
		}
		if p, ok := c.args[0].(PtrV); ok && (p.obj < dynBase || st.obj(e, p.obj).static) {
			same = false // a machine that is not this call's own: what earlier calls left in it is not in the reference's
		}
		if !same {
			st.facts[factOther] = true
		}
		st.facts[factDirect] = true
		bad := st.clone()
		st.facts[factParsed] = true
		bad.facts[factParsed] = false
		u := a.mark(st, kind, scim)
		return append(one(st, TupleV{[]Val{u, IfaceV{}}}), sv{bad, TupleV{[]Val{PtrV{}, mkErr("parse", nil)}}})
	}
	return func() { delete(a.e.hooks, m) }
}

// direct: is Parse(u, options...) nothing but Machine.Parse of a machine like ref's handed through?
func (a *API) direct(cases, ref []modeCase) bool {
	var in []*State
	var mt types.Type
	spec := M2141
	if n := len(ref); n > 0 {
		spec = ref[n-1].spec
	}
	for _, st := range a.optionList(cases) {
		// the reference machine, in the same state
		for _, r := range a.refMachine([]*State{st}, ref) {
			iv, ok := r.roots[1].(IfaceV)
			if !ok || iv.t == nil {
				return false
			}
			mt = iv.t
			r.roots = append(r.roots, a.newInput(r, spec))
			in = append(in, r)
		}
	}
	if mt == nil {
		return false
	}
	undo := a.hookParse(mt, a.kinds[spec.String()], spec == MSCIM,
		func(st *State) Val { return st.roots[1].(IfaceV).v },
		func(st *State, got Val) bool { return sameVal(a.e, st, got, st.roots[2]) })
	defer undo()
	quiet := a.e.mute()
	defer quiet()
	rets := a.e.call(a.parse, in, func(st *State) []Val { return []Val{st.roots[2], st.roots[0]} })
	n := 0
	for _, r := range rets {
		st := r.st
		if !st.facts[factDirect] || st.facts[factOther] {
			return false
		}
		b, ok := r.vals[1].(BoolV)
		if !ok || b.b != st.facts[factParsed] {
			return false
		}
		if !b.b {
			if nilness(r.vals[0]) != 1 {
				return false
			}
			n |= 1
			continue
		}
		u, ok := r.vals[0].(PtrV)
		if !ok || u.obj == 0 || st.obj(a.e, u.obj).site != "parsed" {
			return false
		}
		s2 := st.clone()
		if !sameMark(a.e, s2, st.obj(a.e, u.obj).val, s2.obj(a.e, a.mark(s2, a.kinds[spec.String()], spec == MSCIM).obj).val) {
			return false
		}
		n |= 2
	}
	return n == 3 && quiet() == 0
}

// refMachine makes NewMachine(options...) next to what the states hold; the machine becomes their last root.
func (a *API) refMachine(sts []*State, cases []modeCase) []*State {
	for _, mc := range cases {
		var next []*State
		for _, st := range sts {
			v := mc.val(st)
			for _, r := range a.e.call(a.withMode, []*State{st}, func(*State) []Val { return []Val{v} }) {
				r.st.roots = append(r.st.roots, r.vals[0])
				next = append(next, r.st)
			}
		}
		sts = next
	}
	return a.machine(sts, len(cases))
}

// mute drops the events noticed from now on; the function it gives ends that and counts them.
func (e *Engine) mute() func() int {
	n := len(e.events)
	k, done := 0, false
	return func() int {
		if !done {
			done = true
			for _, ev := range e.events[n:] {
				delete(e.seenEv, ev.kind+"|"+ev.pos+"|"+ev.msg)
				if ev.kind == "undecided" || ev.kind == "panic" || ev.kind == "write-global" {
					k++
				}
			}
			e.events = e.events[:n]
		}
		return k
	}
}

// route is a way to parse in a mode: its outcomes have the roots machine, urn, err, input.
type route struct {
	name string
	rets func(a *API, prep func(*State)) []Ret
}

// routes gives the ways to parse in a mode that need an analysis of their own: Machine.Parse, and Parse where it
// is more than handing that through.
func (c *Ctx) routes(a *API, m Mode) []route {
	out := []route{{"Machine.Parse", func(a *API, prep func(*State)) []Ret { return a.parseStates(m, prep) }}}
	ref := []modeCase{a.modeOf(m)}
	lists := [][]modeCase{ref}
	if m == M2141 {
		lists = append(lists, nil, []modeCase{a.named("Default")})
	}
	for _, l := range lists {
		l := l
		name := "Parse without options"
		if len(l) > 0 {
			name = "Parse with " + l[0].name
		}
		if a.direct(l, ref) {
			c.check("handed-through", true, name, "", "")
			c.note("%s: exactly Machine.Parse of NewMachine(WithParsingMode(%s)), handed through", name, ref[0].name)
			continue
		}
		c.note("%s: analysed on its own", name)
		out = append(out, route{name, func(a *API, prep func(*State)) []Ret { return a.parseFunc(m, l, prep) }})
	}
	return out
}

// eachRoute runs f on every way to parse in every mode, in parallel.
func (c *Ctx) eachRoute(modes []Mode, f func(a *API, m Mode, r route)) {
	var r *Repo
	c.guard("loading", func() { r = c.load() })
	if r == nil {
		return
	}
	var jobs []job
	for _, m := range modes {
		m := m
		c.guard("mode "+m.String(), func() {
			a := newAPI(r)
			a.e.deadline = c.start.Add(700e9)
			rs := c.routes(a, m)
			c.absorb(a, "routes of "+m.String())
			for _, x := range rs {
				x := x
				jobs = append(jobs, job{x.name + " in mode " + m.String(), func(a *API) { f(a, m, x) }})
			}
		})
	}
	c.par(jobs...)
}
