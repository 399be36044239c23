package main

import (
	"go/constant"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// C08, C09, C19: what calls of the exported functions can do, over all of them.

// symbolic makes an arbitrary value of a type: texts and numbers of any value, pointers to arbitrary objects.
func (a *API) symbolic(st *State, t types.Type, site string, n *int, depth int) Val {
	*n++
	id := 600 + *n
	if ii, ok := intType(t); ok {
		v := freshInt(st, ii)
		if a.seen != nil {
			a.seen(v.l, t)
		}
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return a.anyText(st, id)
		}
		return TopV{why: oneValue + itoa(int(id))}
	case *types.Pointer:
		if depth > 4 {
			return PtrV{}
		}
		v := a.symbolic(st, u.Elem(), site, n, depth+1)
		return PtrV{obj: st.alloc(&Obj{typ: u.Elem(), val: v, frozen: true, site: site})}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = a.symbolic(st, u.Field(i).Type(), site, n, depth+1)
		}
		return StructV{f}
	case *types.Array:
		if z, ok := a.e.zero(t).(ArrV); ok {
			for i := range z.e {
				z.e[i] = a.symbolic(st, u.Elem(), site, n, depth+1)
			}
			return z
		}
	case *types.Slice:
		hi, mx := st.freshSym(), st.freshSym()
		st.z.le(con(0), hi, 0)
		st.z.le(hi, mx, 0)
		seq := &Seq{start: con(0), end: hi, elem: u.Elem(), elemTop: true}
		if isByteSlice(t) {
			seq.isBytes, seq.elemTop, seq.str = true, false, topStr(false)
		}
		o := st.alloc(&Obj{typ: t, frozen: true, site: site, seq: seq})
		return SliceV{o, con(0), hi, mx}
	case *types.Interface:
		return IfaceV{}
	}
	return TopV{why: site}
}

// cases splits states with symbolic numbers of a type that has named constants: one for each constant, for the
// values between two of them, below the first and above the last. Numbers are only compared to such constants.
func (a *API) cases(st *State, make func(st *State)) []*State {
	type num struct {
		l Lin
		t types.Type
	}
	var found []num
	a.seen = func(l Lin, t types.Type) { found = append(found, num{l, t}) }
	make(st)
	a.seen = nil
	out := []*State{st}
	for _, x := range found {
		n, ok := x.t.(*types.Named)
		if !ok || n.Obj().Pkg() == nil {
			continue
		}
		var ks []int64
		sc := n.Obj().Pkg().Scope()
		for _, name := range sc.Names() {
			if k, ok := sc.Lookup(name).(*types.Const); ok && types.Identical(k.Type(), x.t) {
				if v, ok := constant.Int64Val(constant.ToInt(k.Val())); ok {
					ks = append(ks, v)
				}
			}
		}
		if len(ks) == 0 {
			continue
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		var next []*State
		part := func(s *State, lo, hi int64) {
			if lo > hi {
				return
			}
			s = s.clone()
			if (lo == -inf || s.z.le(con(0), x.l, -lo)) && (hi == inf || s.z.le(x.l, con(0), hi)) {
				next = append(next, s)
			}
		}
		for _, s := range out {
			prev := int64(-inf)
			for _, k := range ks {
				part(s, prev, k-1)
				if prev <= k {
					part(s, k, k)
				}
				prev = k + 1
			}
			part(s, prev, inf)
		}
		out = next
	}
	return out
}

// oneValue starts the name of an unknown value that is the same wherever it is copied to.
const oneValue = "value#"

// anyText is an arbitrary text.
func (a *API) anyText(st *State, id int) StrV {
	n := st.freshSym()
	st.z.le(con(0), n, 0)
	return StrV{[]Atom{{k: aSym, id: id, sized: true, to: n}}}
}

// allMethods lists the exported methods of a type.
func (a *API) allMethods(t types.Type, skip ...string) []*ssa.Function {
	ms := a.r.prog.MethodSets.MethodSet(t)
	var out []*ssa.Function
next:
	for i := 0; i < ms.Len(); i++ {
		f := ms.At(i).Obj()
		for _, s := range skip {
			if f.Name() == s {
				continue next
			}
		}
		if !f.Exported() {
			continue
		}
		if m := a.r.prog.MethodValue(ms.At(i)); m != nil && len(m.Blocks) > 0 {
			out = append(out, m)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// exercise calls every exported method of t on root i, with arbitrary further arguments.
func (a *API) exercise(t types.Type, sts []*State, i int, skip ...string) int {
	n := 0
	for _, m := range a.allMethods(t, skip...) {
		var in []*State
		for _, st := range sts {
			// one set of arguments, and the nil one
			sig := m.Signature
			for v := 0; v < 2; v++ {
				x := st.clone()
				k := 0
				var args []Val
				for j := 0; j < sig.Params().Len(); j++ {
					pt := sig.Params().At(j).Type()
					if v == 0 {
						args = append(args, a.symbolic(x, pt, "argument", &k, 0))
					} else {
						args = append(args, a.e.zero(pt))
					}
				}
				x.roots = append(x.roots, TupleV{args})
				in = append(in, x)
				if sig.Params().Len() == 0 {
					break
				}
			}
		}
		if len(in) == 0 {
			continue
		}
		n++
		a.e.call(m, in, func(st *State) []Val {
			return append([]Val{st.roots[i]}, st.roots[len(st.roots)-1].(TupleV).e...)
		})
	}
	return n
}

// effects is what a run over all calls looks for.
type effects struct {
	kinds   []string
	rank    bool
	linear  bool
	alias   bool
	used    bool // machines with a past
	methods bool // methods of the results
	frozen  bool // methods of arbitrary values, other functions
}

func (c *Ctx) effectRuns(x effects) {
	var r *Repo
	c.guard("loading", func() { r = c.load() })
	if r == nil {
		return
	}
	var jobs []job
	add := func(name string, f func(a *API)) {
		jobs = append(jobs, job{name, func(a *API) {
			a.e.rank, a.e.linear = x.rank, x.linear
			f(a)
			c.absorb(a, name, x.kinds...)
			c.mu.Lock()
			c.rules["termination"] += a.e.rankComps
			c.held += a.e.rankComps
			c.rankEdges += a.e.rankEdges
			c.mu.Unlock()
			for _, h := range a.e.rankHow {
				c.once("a loop of %s ends because this shrinks and is bounded: %s", h[:indexOf(h, ": ")], h[indexOf(h, ": ")+2:])
			}
		}})
	}
	own := c.ownCases()
	for _, mc := range own {
		mc := mc
		for i, prep := range []func(*State){nil, nilInput} {
			prep := prep
			name := "Machine.Parse in mode " + mc.name
			if i == 1 {
				name += " of the nil slice"
			}
			add(name, func(a *API) {
				rets := a.runParse(a.newWith([]modeCase{mc}), mc.spec, prep)
				c.count(rets)
				if x.alias {
					c.noAlias(a, rets, name)
				}
				var ms, us []*State
				for _, r := range rets {
					ms = append(ms, r.st)
					if nilness(r.vals[0]) == 0 {
						us = append(us, r.st)
					}
					c.sample("%s: outcome %s, %s", name, valString(r.vals[0]), valString(r.vals[1]))
				}
				a.invoke(ms, 0, "Error", func(*State) []Val { return nil })
				if !x.methods {
					return
				}
				n := a.exercise(types.NewPointer(a.urnT), us, 1, "UnmarshalJSON")
				var ss []*State
				for _, r := range a.on(a.urnT, "SCIM", us, 1) {
					if nilness(r.vals[0]) == 0 {
						s := r.st.clone()
						s.roots = append(s.roots, r.vals[0])
						ss = append(ss, s)
					}
				}
				if len(ss) > 0 {
					n += a.exercise(types.NewPointer(a.scimT), ss, len(ss[0].roots)-1, "UnmarshalJSON")
				}
				c.note("%s: %d outcomes, %d methods on the results", name, len(rets), n)
			})
		}
	}
	if x.used {
		parse, all := c.history()
		c.noteChanged(all, "parses and selections")
		for _, mc := range own {
			mc := mc
			name := "Machine.Parse of a used machine in mode " + mc.name
			add(name, func(a *API) {
				rets := c.settle(a, parse, mc.spec, func() []*State {
					c.mu.Lock()
					defer c.mu.Unlock()
					var in []*State
					for _, st := range a.newWith([]modeCase{a.modeOf(M2141)}) {
						in = append(in, a.forget(st, all))
					}
					return a.selectMode(in, mc)
				})
				c.count(rets)
			})
		}
	}
	// Parse: the glue around Machine.Parse
	lists := [][]modeCase{nil}
	c.guard("modes", func() {
		a := newAPI(r)
		for _, mc := range a.modeCases() {
			lists = append(lists, []modeCase{mc})
		}
	})
	for _, l := range lists {
		l := l
		name, m := "Parse without options", M2141
		if len(l) > 0 {
			name, m = "Parse with "+l[0].name, l[0].spec
		}
		add(name, func(a *API) {
			if a.direct(l, l) {
				c.note("%s: hands Machine.Parse's outcome through", name)
				return
			}
			rets := a.parseFunc(m, l, nil)
			c.count(rets)
			if x.alias {
				c.noAlias(a, rets, name)
			}
			var us []*State
			for _, r := range rets {
				if nilness(r.vals[0]) == 0 {
					us = append(us, r.st)
				}
			}
			if x.methods {
				a.exercise(types.NewPointer(a.urnT), us, 1, "UnmarshalJSON")
			}
		})
	}
	// decoding into the three types
	c.guard("types", func() {
		a := newAPI(r)
		for _, t := range []struct {
			t types.Type
			m Mode
		}{{a.urnT, M2141}, {a.urn8141T, M8141}, {a.scimT, MSCIM}} {
			t := t
			nm := namedOf(t.t).Obj().Name()
			for _, full := range []bool{false, true} {
				full := full
				name := nm + ".UnmarshalJSON"
				add(name, func(a *API) {
					if full && !x.frozen {
						return
					}
					for _, rc := range a.receivers(t.t, full) {
						a.decode(rc, t.t, t.m, true)
					}
				})
			}
			add(nm+", zero value", func(a *API) {
				var ms, vs []*State
				st := newState()
				st.roots = []Val{a.e.zero(t.t)}
				vs = append(vs, st)
				st = newState()
				st.roots = []Val{PtrV{obj: st.alloc(&Obj{typ: t.t, val: a.e.zero(t.t), frozen: true, site: "zero " + nm})}}
				ms = append(ms, st)
				// methods promoted through a nil pointer are the caller's business
				if _, ok := t.t.Underlying().(*types.Struct); ok {
					a.callNamed(t.t, vs, "MarshalJSON")
					a.callNamed(types.NewPointer(t.t), ms, "MarshalJSON")
				}
				if nm != "URN8141" {
					a.exercise(types.NewPointer(t.t), ms, 0, "UnmarshalJSON")
				}
			})
		}
	})
	if x.frozen {
		c.guard("types", func() {
			a := newAPI(r)
			ts := []types.Type{a.urnT, a.urn8141T, a.scimT}
			for _, p := range []*ssa.Package{r.urn, r.schema} {
				var names []string
				for n := range p.Members {
					names = append(names, n)
				}
				sort.Strings(names)
				for _, n := range names {
					if t, ok := p.Members[n].(*ssa.Type); ok && t.Object().Exported() {
						if _, isI := t.Type().Underlying().(*types.Interface); isI {
							continue
						}
						dup := false
						for _, y := range ts {
							dup = dup || types.Identical(y, t.Type())
						}
						if !dup {
							ts = append(ts, t.Type())
						}
					}
				}
			}
			for _, t := range ts {
				t := t
				nm := namedOf(t).Obj().Name()
				add("methods of any "+nm, func(a *API) {
					n := 0
					for v := 0; v < 2; v++ {
						st := newState()
						k := 0
						tt := types.Type(types.NewPointer(t))
						if v == 1 {
							tt = t
						}
						st.roots = []Val{a.symbolic(st, tt, "any "+nm, &k, 0)}
						n += a.exercise(tt, []*State{st}, 0, "UnmarshalJSON")
					}
					c.note("any %s: %d methods called on memory they must only read", nm, n)
				})
			}
			for _, mc := range a.modeCases() {
				mc := mc
				name := "an option shared by machines, " + mc.name
				add(name, func(a *API) {
					c.count(a.sharedOption(mc))
				})
			}
			for _, p := range []*ssa.Package{r.urn, r.schema} {
				for n, m := range p.Members {
					f, ok := m.(*ssa.Function)
					if !ok || f.Object() == nil || !f.Object().Exported() || n == "Parse" || n == "NewMachine" {
						continue
					}
					name := f.String()
					p := p
					add("function "+name, func(a *API) {
						f := p.Func(n)
						st := newState()
						k := 0
						var args []Val
						for j := 0; j < f.Signature.Params().Len(); j++ {
							args = append(args, a.symbolic(st, f.Signature.Params().At(j).Type(), "argument", &k, 0))
						}
						st.roots = []Val{TupleV{args}}
						a.e.call(f, []*State{st}, func(st *State) []Val { return st.roots[0].(TupleV).e })
					})
				}
			}
		})
	}
	c.par(jobs...)
	c.mu.Lock()
	c.rules["memory accesses"] += c.engOb
	c.held += c.engOb
	c.mu.Unlock()
}

func indexOf(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return 0
}

// sharedOption uses an option, in a list that others may be using too, for a machine.
func (a *API) sharedOption(mc modeCase) []Ret {
	st := newState()
	v := mc.val(st)
	el := a.withMode.Signature.Results().At(0).Type()
	var in []*State
	for _, r := range a.e.call(a.withMode, []*State{st}, func(*State) []Val { return []Val{v} }) {
		st := r.st.clone()
		// the list has room for one more
		id := st.alloc(&Obj{typ: types.NewArray(el, 3), val: ArrV{[]Val{r.vals[0], r.vals[0], a.e.zero(el)}}, site: "the list of options"})
		st.roots = []Val{SliceV{id, con(0), con(2), con(3)}}
		for id := range reach(a.e, st, st.roots[0]) {
			if o := st.obj(a.e, id); o != nil && id >= dynBase {
				n := o.clone()
				n.frozen = true
				st.heap[id] = n
			}
		}
		in = append(in, st)
	}
	return a.e.call(a.newMachine, in, func(st *State) []Val { return []Val{st.roots[0]} })
}

// callNamed calls a method without arguments on root 0.
func (a *API) callNamed(t types.Type, sts []*State, name string) []Ret {
	return a.e.call(a.method(t, name), sts, func(st *State) []Val { return []Val{st.roots[0]} })
}

// noAlias: nothing of the caller's slice is reachable from a result.
func (c *Ctx) noAlias(a *API, rets []Ret, name string) {
	for _, r := range rets {
		bad := ""
		for id := range reach(a.e, r.st, r.vals[0], r.vals[1]) {
			if o := r.st.obj(a.e, id); o != nil && o.ext {
				bad = "the input slice itself"
			}
		}
		if why, ok := unknownRef(a.e, r.st, a.urnT, r.vals[0]); !ok {
			bad = "memory the analysis cannot tell apart from it (" + why + ")"
		}
		c.check("no-alias", bad == "", "Parse, last byte read at "+a.where(r.st), witness(r.st.trace), "%s: the result keeps a reference to %s", name, bad)
	}
}

// unknownRef: are all references in a URN to known memory?
func unknownRef(e *Engine, st *State, t types.Type, v Val) (string, bool) {
	seen := map[int]bool{}
	var walk func(t types.Type, v Val, path string) (string, bool)
	obj := func(id int, t types.Type, path string) (string, bool) {
		if id == 0 || seen[id] {
			return "", true
		}
		seen[id] = true
		o := st.obj(e, id)
		if o == nil {
			return path, false
		}
		if o.val != nil {
			return walk(t, o.val, path)
		}
		return "", true
	}
	walk = func(t types.Type, v Val, path string) (string, bool) {
		switch v := v.(type) {
		case TopV:
			switch t.Underlying().(type) {
			case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan, *types.Struct, *types.Array:
				return path, false
			}
			if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
				return path, false
			}
		case PtrV:
			if p, ok := t.Underlying().(*types.Pointer); ok {
				return obj(v.obj, p.Elem(), path)
			}
		case StructV:
			if s, ok := t.Underlying().(*types.Struct); ok {
				for i := range v.f {
					if w, ok := walk(s.Field(i).Type(), v.f[i], path+"."+s.Field(i).Name()); !ok {
						return w, ok
					}
				}
			}
		case IfaceV:
			if v.t != nil {
				return walk(v.t, v.v, path)
			}
		}
		return "", true
	}
	return walk(types.NewPointer(t), v, "URN")
}

// receivers are states with something to decode into in root 0, the zero value or any value, and a copy in root 1.
func (a *API) receivers(t types.Type, full bool) []*State {
	st := newState()
	var v Val
	if full {
		k := 0
		v = a.symbolic(st, t, "what the receiver refers to", &k, 1)
		for _, o := range st.heap {
			if _, ok := o.val.(StructV); ok {
				o.frozen = false
			}
		}
	} else {
		v = a.e.zero(t)
	}
	r := PtrV{obj: st.alloc(&Obj{typ: t, val: v, site: "receiver"})}
	st.roots = []Val{r, a.twin(st, r)}
	return []*State{st}
}

// twin is a copy of a value, following pointers to structs.
func (a *API) twin(st *State, v Val) Val {
	switch v := v.(type) {
	case PtrV:
		o := st.obj(a.e, v.obj)
		if v.obj == 0 || v.path != "" || o == nil || o.val == nil {
			return v
		}
		n := o.clone()
		n.site = "copy of " + o.site
		n.frozen = true
		n.val = a.twin(st, o.val)
		return PtrV{obj: st.alloc(n)}
	case StructV:
		f := make([]Val, len(v.f))
		for i := range f {
			f[i] = a.twin(st, v.f[i])
		}
		return StructV{f}
	}
	return v
}

// document makes a JSON document the caller owns; decoding it gives the input of the specification.
func (a *API) document(st *State, m Mode) SliceV {
	a.newInput(st, m)
	n := st.freshSym()
	mx := st.freshSym()
	st.z.le(con(0), n, 0)
	st.z.le(n, mx, 0)
	o := &Obj{typ: types.NewSlice(types.Typ[types.Byte]), ext: true, site: "json-document",
		seq: &Seq{isBytes: true, start: con(0), end: n, elem: types.Typ[types.Byte], str: topStr(false)}}
	return SliceV{st.alloc(o), con(0), n, mx}
}

// decode calls UnmarshalJSON of the receiver in root 0 on any document (root 2 of the outcomes). Machine.Parse is
// replaced by its two outcomes (see hookParse) when that is what is called once, on a machine of the mode, for every
// document that is a string or null; else, or if not asked for, it is followed.
func (a *API) decode(st *State, t types.Type, m Mode, hook bool) (rets []Ret, hooked bool) {
	st = st.clone()
	doc := a.document(st, m)
	st.roots = append(st.roots, doc)
	in := []*State{st}
	um := a.method(types.NewPointer(t), "UnmarshalJSON")
	args := func(st *State) []Val { return []Val{st.roots[0], st.roots[2]} }
	if hook {
		var ref []*State
		var mt types.Type
		for _, s := range in {
			for _, r := range a.refMachine([]*State{s}, []modeCase{a.modeOf(m)}) {
				ref = append(ref, r)
				if iv, ok := r.roots[len(r.roots)-1].(IfaceV); ok {
					mt = iv.t
				}
			}
		}
		if mt != nil {
			undo := a.hookParse(mt, a.kinds[m.String()], m == MSCIM,
				func(st *State) Val { return st.roots[3].(IfaceV).v },
				func(st *State, got Val) bool {
					b, ok := got.(SliceV)
					if !ok {
						return false
					}
					if b.obj == 0 {
						return st.z.isEq(st.g.N, con(0))
					}
					return isRegion(a.e, st, a.e.bytesOf(st, b), con(0), st.g.N)
				})
			mark := len(a.e.events)
			rets = a.e.call(um, ref, args)
			undo()
			good := true
			for _, r := range rets {
				if r.st.facts[factOther] || !r.st.facts[factDirect] && !r.st.facts["json:err"] {
					good = false
				}
			}
			if good {
				return rets, true
			}
			a.e.events = a.e.events[:mark]
			a.e.seenEv = map[string]bool{}
		}
	}
	return a.e.call(um, in, args), false
}
