package main

import (
	"go/types"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- C07

// outcomes: every mode value, every input (C07).
func (c *Ctx) outcomesAll() {
	var r *Repo
	c.guard("loading", func() { r = c.load() })
	if r == nil {
		return
	}
	var jobs []job
	c.guard("modes", func() {
		a := newAPI(r)
		for _, mc := range a.modeCases() {
			mc := mc
			want := a.modeOf(mc.spec)
			if mc.name != want.name && a.sameMachine([]modeCase{mc}, []modeCase{want}) {
				c.note("NewMachine(WithParsingMode(%s)) is the machine of %s", mc.name, want.name)
				c.check("same-machine", true, mc.name, "", "")
			} else {
				jobs = append(jobs, job{"Machine.Parse with " + mc.name, func(a *API) {
					for _, prep := range []func(*State){nil, nilInput} {
						rets := a.runParse(a.newWith([]modeCase{mc}), mc.spec, prep)
						c.outcomePairs(a, "Machine.Parse with "+mc.name, rets)
						c.count(rets)
					}
				}})
			}
		}
		// Parse: what the flag says, and agreement with Machine.Parse
		lists := [][]modeCase{nil}
		for _, mc := range a.modeCases() {
			lists = append(lists, []modeCase{mc})
		}
		for _, l := range lists {
			l := l
			name := "Parse without options"
			m := M2141
			if len(l) > 0 {
				name, m = "Parse with "+l[0].name, l[0].spec
			}
			if a.direct(l, l) {
				c.check("handed-through", true, name, "", "")
				c.note("%s: exactly Machine.Parse of NewMachine with the same options, handed through", name)
				continue
			}
			jobs = append(jobs, job{name, func(a *API) {
				// not handed through: both must have the verdict of the grammar
				rets := a.parseFunc(m, l, nil)
				for _, r := range rets {
					u, e := nilness(r.vals[0]), nilness(r.vals[1])
					c.check("flag", u >= 0 && e >= 0 && u != e, name+", last byte read at "+a.where(r.st), witness(r.st.trace),
						"%s returns URN %s with %s", name, valString(r.vals[0]), valString(r.vals[1]))
				}
				c.language(a, m, rets, name)
				c.language(a, m, a.runParse(a.newWith(l), m, nil), "Machine.Parse with the options of "+name)
			}})
		}
		c.absorb(a, "modes")
	})
	c.par(jobs...)
}

func (c *Ctx) count(rets []Ret) {
	c.mu.Lock()
	c.outcomes += len(rets)
	c.mu.Unlock()
}

// sameMachine: do two option lists provably make the same machine?
func (a *API) sameMachine(x, y []modeCase) bool {
	quiet := a.e.mute()
	defer quiet()
	n := 0
	for _, st := range a.refMachine([]*State{newState()}, x) {
		for _, r := range a.refMachine([]*State{st}, y) {
			n++
			if !deepSame(a.e, r, r.roots[0], r.roots[1], nil) {
				return false
			}
		}
	}
	return n > 0 && quiet() == 0
}

// ownCases are the mode values that make a machine of their own: the named ones, and others that do not make the
// same machine as the named one of their grammar.
func (c *Ctx) ownCases() []modeCase {
	var out []modeCase
	var r *Repo
	c.guard("loading", func() { r = c.load() })
	if r == nil {
		return nil
	}
	c.guard("modes", func() {
		a := newAPI(r)
		for _, mc := range a.modeCases() {
			want := a.modeOf(mc.spec)
			if mc.name == want.name || !a.sameMachine([]modeCase{mc}, []modeCase{want}) {
				out = append(out, mc)
			}
		}
		c.absorb(a, "modes")
	})
	return out
}

// ---------------------------------------------------------------- C12, C14: histories

// loc paths: fields from the machine, "*" follows a pointer.
type hist struct {
	changed map[string]bool // paths of fields that differ after a parse or a selection
	why     map[string]string
}

func (h *hist) add(p, why string) bool {
	for q := range h.changed {
		if p == q || strings.HasPrefix(p, q+".") || strings.HasPrefix(p, q+"*") {
			return false
		}
	}
	h.changed[p] = true
	h.why[p] = why
	return true
}

// diff notes where two values of the same type, in the same state or in two states, differ.
func (a *API) diff(h *hist, path string, x, y Val, sx, sy *State, t types.Type, seen map[int]bool) {
	e := a.e
	name := func(i int) string {
		if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
			return s.Field(i).Name()
		}
		return itoa(i)
	}
	switch v := x.(type) {
	case StructV:
		w, ok := y.(StructV)
		if ok && len(v.f) == len(w.f) {
			s, _ := t.Underlying().(*types.Struct)
			for i := range v.f {
				var ft types.Type = types.Typ[types.Invalid]
				if s != nil && i < s.NumFields() {
					ft = s.Field(i).Type()
				}
				a.diff(h, path+"."+name(i), v.f[i], w.f[i], sx, sy, ft, seen)
			}
			return
		}
	case PtrV:
		w, ok := y.(PtrV)
		if ok && sameObj(e, sx, sy, v.obj, w.obj) && v.path == w.path {
			if v.obj == 0 || seen[v.obj] {
				return
			}
			seen[v.obj] = true
			ox, oy := sx.obj(e, v.obj), sy.obj(e, w.obj)
			if ox == oy {
				return
			}
			if ox != nil && oy != nil && ox.val != nil && oy.val != nil {
				var et types.Type = types.Typ[types.Invalid]
				if ox.typ != nil {
					et = ox.typ
				}
				a.diff(h, path+"*", ox.val, oy.val, sx, sy, et, seen)
				return
			}
			h.add(path+"*", "contents of "+path)
			return
		}
	case SliceV:
		w, ok := y.(SliceV)
		konst := v.lo.isConst() && v.hi.isConst() && v.lo == w.lo && v.hi == w.hi
		if ok && v.obj == 0 && w.obj == 0 {
			return
		}
		if ok && konst && sameObj(e, sx, sy, v.obj, w.obj) {
			if sx.obj(e, v.obj) == sy.obj(e, w.obj) {
				return
			}
			h.add(path, path+" (elements)")
			return
		}
	case ArrV:
		w, ok := y.(ArrV)
		if ok && len(v.e) == len(w.e) {
			same := true
			for i := range v.e {
				if !constSame(v.e[i], w.e[i]) {
					same = false
				}
			}
			if same {
				return
			}
		}
	case IfaceV:
		w, ok := y.(IfaceV)
		if ok && v.t == nil && w.t == nil {
			return
		}
		if ok && v.t != nil && w.t != nil && types.Identical(v.t, w.t) {
			a.diff(h, path, v.v, w.v, sx, sy, v.t, seen)
			return
		}
	case BuilderV:
		w, ok := y.(BuilderV)
		if ok && constSame(v, w) {
			return
		}
	case TopV:
		if w, ok := y.(TopV); ok && v.stale && w.stale {
			return
		}
	case FuncV:
		w, ok := y.(FuncV)
		if ok && v.fn == w.fn && len(v.bind) == len(w.bind) {
			for i := range v.bind {
				a.diff(h, path+"*", v.bind[i], w.bind[i], sx, sy, types.Typ[types.Invalid], seen)
			}
			return
		}
	case MapV:
		w, ok := y.(MapV)
		if ok && sameObj(e, sx, sy, v.obj, w.obj) && (v.obj == 0 || sx.obj(e, v.obj) == sy.obj(e, w.obj)) {
			return
		}
	default:
		if constSame(x, y) {
			return
		}
	}
	h.add(path, path)
}

// sameObj: the same object, in two states.
func sameObj(e *Engine, sx, sy *State, x, y int) bool {
	if x == 0 || y == 0 || x < dynBase || y < dynBase {
		return x == y
	}
	ox, oy := sx.obj(e, x), sy.obj(e, y)
	return ox != nil && oy != nil && (ox == oy || ox.tag != "" && ox.tag == oy.tag)
}

// tagged names all objects of a state, by the way they are reached first; what is made later has no name.
func tagged(e *Engine, st *State) *State {
	st = st.clone()
	name := func(id int, path string) bool {
		o := st.heap[id]
		if o == nil || o.tag != "" {
			return false
		}
		m := o.clone()
		m.tag = path
		st.heap[id] = m
		return true
	}
	for id, o := range st.heap {
		if o.tag != "" {
			m := o.clone()
			m.tag = ""
			st.heap[id] = m
		}
	}
	var walk func(v Val, path string)
	visit := func(id int, path string) {
		if id == 0 || !name(id, path) {
			return
		}
		o := st.heap[id]
		walk(o.val, path+"*")
		if o.seq != nil {
			for i, s := range o.seq.segs {
				walk(s.v, path+"["+itoa(i)+"]")
			}
		}
		var ks []string
		for k := range o.m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			walk(o.m[k].k, path+"[key "+k+"]")
			walk(o.m[k].v, path+"["+k+"]")
		}
	}
	walk = func(v Val, path string) {
		switch v := v.(type) {
		case PtrV:
			visit(v.obj, path)
		case ElemV:
			visit(v.obj, path)
		case SliceV:
			visit(v.obj, path)
		case MapV:
			visit(v.obj, path)
		case StructV:
			for i, x := range v.f {
				walk(x, path+"."+itoa(i))
			}
		case ArrV:
			for i, x := range v.e {
				walk(x, path+"."+itoa(i))
			}
		case IfaceV:
			if v.t != nil {
				walk(v.v, path)
			}
		case FuncV:
			for i, x := range v.bind {
				walk(x, path+"^"+itoa(i))
			}
		}
	}
	for i, v := range st.roots {
		walk(v, "root"+itoa(i))
	}
	var ids []int
	for id := range st.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		name(id, "object "+itoa(id))
	}
	return st
}

// constSame: the same value whatever the state.
func constSame(x, y Val) bool {
	switch a := x.(type) {
	case IntV:
		b, ok := y.(IntV)
		return ok && a.l.isConst() && b.l == a.l
	case BoolV:
		b, ok := y.(BoolV)
		return ok && a == b
	case StrV:
		b, ok := y.(StrV)
		if !ok {
			return false
		}
		ka, ok1 := a.konst()
		kb, ok2 := b.konst()
		return ok1 && ok2 && ka == kb
	case BuilderV:
		b, ok := y.(BuilderV)
		return ok && constSame(a.s, b.s)
	case FuncV:
		b, ok := y.(FuncV)
		return ok && a.fn == b.fn && len(a.bind) == 0 && len(b.bind) == 0
	case PtrV:
		b, ok := y.(PtrV)
		return ok && a == b
	case MapV:
		b, ok := y.(MapV)
		return ok && a == b
	case nil:
		return y == nil
	}
	return false
}

// forget replaces the changed fields of the machine in root 0 by values left over from earlier.
func (a *API) forget(st *State, h *hist) *State {
	st = st.clone()
	iv, ok := st.roots[0].(IfaceV)
	if !ok {
		return st
	}
	var walk func(path string, v Val, t types.Type, seen map[int]bool) Val
	walk = func(path string, v Val, t types.Type, seen map[int]bool) Val {
		if h.changed[path] {
			return TopV{true, strings.TrimPrefix(strings.ReplaceAll(path, "*", ""), ".")}
		}
		switch v := v.(type) {
		case StructV:
			f := append([]Val(nil), v.f...)
			s, _ := t.Underlying().(*types.Struct)
			for i := range f {
				n := itoa(i)
				var ft types.Type = types.Typ[types.Invalid]
				if s != nil && i < s.NumFields() {
					n, ft = s.Field(i).Name(), s.Field(i).Type()
				}
				f[i] = walk(path+"."+n, f[i], ft, seen)
			}
			return StructV{f}
		case PtrV:
			if v.obj == 0 || seen[v.obj] {
				return v
			}
			seen[v.obj] = true
			o := st.obj(a.e, v.obj)
			if o == nil || o.val == nil {
				return v
			}
			var et types.Type = types.Typ[types.Invalid]
			if o.typ != nil {
				et = o.typ
			}
			n := walk(path+"*", o.val, et, seen)
			m := o.clone()
			m.val = n
			st.heap[v.obj] = m
			return v
		}
		return v
	}
	if h.changed[""] {
		panic(missing{"a machine whose identity a call cannot change"})
	}
	walk("", iv.v, iv.t, map[int]bool{})
	return st
}

// reach lists the objects reachable from values.
func reach(e *Engine, st *State, vs ...Val) map[int]bool {
	seen := map[int]bool{}
	var walk func(v Val)
	walk = func(v Val) {
		visit := func(id int) {
			if id == 0 || seen[id] {
				return
			}
			seen[id] = true
			o := st.obj(e, id)
			if o == nil {
				return
			}
			walk(o.val)
			if o.seq != nil {
				for _, s := range o.seq.segs {
					walk(s.v)
				}
			}
			for _, m := range o.m {
				walk(m.k)
				walk(m.v)
			}
		}
		switch v := v.(type) {
		case PtrV:
			visit(v.obj)
		case ElemV:
			visit(v.obj)
		case SliceV:
			visit(v.obj)
		case MapV:
			visit(v.obj)
		case StructV:
			for _, x := range v.f {
				walk(x)
			}
		case ArrV:
			for _, x := range v.e {
				walk(x)
			}
		case TupleV:
			for _, x := range v.e {
				walk(x)
			}
		case IfaceV:
			if v.t != nil {
				walk(v.v)
			}
		case FuncV:
			for _, x := range v.bind {
				walk(x)
			}
		}
	}
	for _, v := range vs {
		walk(v)
	}
	return seen
}

// hasStale: does a result contain something left over from an earlier call?
func hasStale(e *Engine, st *State, v Val) (string, bool) {
	why := ""
	var walk func(v Val) bool
	seen := map[int]bool{}
	walk = func(v Val) bool {
		obj := func(id int) bool {
			if id == 0 || seen[id] {
				return false
			}
			seen[id] = true
			o := st.obj(e, id)
			if o == nil {
				return false
			}
			if o.stale {
				why = "memory of an earlier call (" + o.site + ")"
				return true
			}
			if walk(o.val) {
				return true
			}
			if o.seq != nil {
				if walk(o.seq.str) {
					return true
				}
				for _, s := range o.seq.segs {
					if walk(s.v) {
						return true
					}
				}
			}
			return false
		}
		switch v := v.(type) {
		case TopV:
			if v.stale {
				why = v.why
			}
			return v.stale
		case StrV:
			if v.stale() {
				why = "text of an earlier call"
				return true
			}
			for _, a := range v.a {
				if (a.k == aInt || a.k == aByte) && walk(a.v) {
					return true
				}
			}
		case PtrV:
			return obj(v.obj)
		case SliceV:
			return obj(v.obj)
		case MapV:
			return obj(v.obj)
		case StructV:
			for _, x := range v.f {
				if walk(x) {
					return true
				}
			}
		case ArrV:
			for _, x := range v.e {
				if walk(x) {
					return true
				}
			}
		case IfaceV:
			if v.t != nil {
				return walk(v.v)
			}
		case ErrV:
			if v.text != nil {
				return walk(*v.text)
			}
		}
		return false
	}
	r := walk(v)
	return why, r
}

// machineVal is the machine of a state, to compare.
func machineVal(st *State) Val { return st.roots[0] }

// history finds the fields of a machine that a parse or a mode selection can change, over all modes, and the memory
// of the machine that results share.
func (c *Ctx) history() (parse, all *hist) {
	parse = &hist{changed: map[string]bool{}, why: map[string]string{}}
	all = &hist{changed: map[string]bool{}, why: map[string]string{}}
	var jobs []job
	for _, mc := range c.ownCases() {
		mc, m := mc, mc.spec
		jobs = append(jobs, job{"what a parse changes, mode " + mc.name, func(a *API) {
			base := a.newWith([]modeCase{mc})
			for _, b := range base {
				b = tagged(a.e, b)
				for _, r := range a.runParse([]*State{b}, m, nil) {
					c.mu.Lock()
					a.diff(parse, "", b.roots[0], r.st.roots[0], b, r.st, types.Typ[types.Invalid], map[int]bool{})
					c.mu.Unlock()
				}
			}
		}})
	}
	jobs = append(jobs, job{"what a mode selection changes", func(a *API) {
		first := a.newWith([]modeCase{a.modeOf(M2141)})
		for _, mc := range a.modeCases() {
			for _, b := range first {
				b = tagged(a.e, b)
				for _, r := range a.selectMode([]*State{b}, mc) {
					c.mu.Lock()
					a.diff(all, "", b.roots[0], r.roots[0], b, r, types.Typ[types.Invalid], map[int]bool{})
					c.mu.Unlock()
				}
				for _, o := range a.newWith([]modeCase{mc}) {
					o = tagged(a.e, o)
					c.mu.Lock()
					a.diff(all, "", b.roots[0], o.roots[0], b, o, types.Typ[types.Invalid], map[int]bool{})
					c.mu.Unlock()
				}
			}
		}
	}})
	c.par(jobs...)
	for k := range parse.changed {
		all.add(k, parse.why[k])
	}
	return parse, all
}

// selectMode calls WithParsingMode on the machine in root 0.
func (a *API) selectMode(sts []*State, mc modeCase) []*State {
	var out []*State
	for _, st := range sts {
		st := st.clone()
		v := mc.val(st)
		for _, r := range a.invoke([]*State{st}, 0, "WithParsingMode", func(*State) []Val { return []Val{v} }) {
			out = append(out, r.st)
		}
	}
	return out
}

// settle runs the parse of a mode from a machine with the changed fields forgotten until no other field changes.
func (c *Ctx) settle(a *API, h *hist, m Mode, start func() []*State) []Ret {
	for i := 0; ; i++ {
		c.mu.Lock()
		hc := &hist{map[string]bool{}, map[string]string{}}
		for k := range h.changed {
			hc.changed[k] = true
		}
		c.mu.Unlock()
		n := len(a.e.events)
		_ = n
		var in []*State
		for _, st := range start() {
			in = append(in, a.forget(st, hc))
		}
		var out []Ret
		grew := false
		for _, b := range in {
			b = tagged(a.e, b)
			rets := a.runParse([]*State{b}, m, nil)
			for _, r := range rets {
				g := &hist{map[string]bool{}, map[string]string{}}
				a.diff(g, "", b.roots[0], r.st.roots[0], b, r.st, types.Typ[types.Invalid], map[int]bool{})
				c.mu.Lock()
				for k := range g.changed {
					if h.add(k, g.why[k]) {
						grew = true
					}
				}
				c.mu.Unlock()
			}
			c.freshResult(a, b, rets)
			out = append(out, rets...)
		}
		if !grew || i >= 4 {
			c.check("closed", !grew, "Parse", "", "the fields a parse changes keep growing")
			return out
		}
		// once more, with more fields forgotten
		a.e.events = a.e.events[:n]
		a.e.seenEv = map[string]bool{}
	}
}

// freshResult: memory the machine had before the parse and that a result shares is never written by a parse.
func (c *Ctx) freshResult(a *API, b *State, rets []Ret) {
	shared := map[string]string{}
	for _, r := range rets {
		for id := range reach(a.e, r.st, r.vals[0], r.vals[1]) {
			if o := r.st.obj(a.e, id); o != nil && id >= dynBase && o.tag != "" && !o.ext {
				shared[o.tag] = a.where(r.st)
			}
		}
	}
	before := map[string]*Obj{}
	for _, o := range b.heap {
		before[o.tag] = o
	}
	for _, r := range rets {
		c.check("fresh-result", true, "Parse", "", "")
		for id, o := range r.st.heap {
			at, ok := shared[o.tag]
			p := before[o.tag]
			if id < dynBase || !ok || p == nil || o.tag == "" {
				continue
			}
			g := &hist{map[string]bool{}, map[string]string{}}
			switch {
			case o == p:
			case o.val != nil && p.val != nil:
				a.diff(g, "", p.val, o.val, b, r.st, types.Typ[types.Invalid], map[int]bool{})
			default:
				g.add("", "")
			}
			c.check("fresh-result", len(g.changed) == 0, "Parse, last byte read at "+a.where(r.st), witness(r.st.trace),
				"a result (of the Parse whose last byte is read at %s) shares memory with the machine, %s, that the next Parse changes", at, o.site)
		}
	}
}

// reuse: a machine that has parsed anything before (C12).
func (c *Ctx) reuse() {
	parse, all := c.history()
	c.noteChanged(parse, "parses")
	c.noteChanged(all, "parses and selections")
	var jobs []job
	for _, mc := range c.ownCases() {
		mc, m := mc, mc.spec
		jobs = append(jobs, job{"select and parse again in mode " + mc.name, func(a *API) {
			rets := c.settle(a, parse, m, func() []*State {
				c.mu.Lock()
				defer c.mu.Unlock()
				var in []*State
				for _, st := range a.newWith([]modeCase{a.modeOf(M2141)}) {
					in = append(in, a.forget(st, all))
				}
				return a.selectMode(in, mc)
			})
			c.count(rets)
			c.notStale(a, rets, "Parse")
			c.absorb(a, "Parse after a selection on a used machine, mode "+mc.name, "stale")
		}})
		jobs = append(jobs, job{"Parse again in mode " + mc.name, func(a *API) {
			rets := c.settle(a, parse, m, func() []*State { return a.newWith([]modeCase{mc}) })
			c.count(rets)
			c.notStale(a, rets, "Parse")
			c.outcomePairs(a, "a later Parse", rets)
			c.absorb(a, "Parse on a used machine, mode "+mc.name, "stale")
		}})
	}
	c.par(jobs...)
}

func (c *Ctx) notStale(a *API, rets []Ret, what string) {
	for _, r := range rets {
		for i, n := range []string{"URN", "error"} {
			why, bad := hasStale(a.e, r.st, r.vals[i])
			c.check("independent-"+n, !bad, what+", last byte read at "+a.where(r.st), witness(r.st.trace),
				"the %s of a later %s contains what an earlier call left in %s", n, what, why)
		}
		c.sample("%s: URN %s, error %s: nothing left over", r.st.g.s, valString(r.vals[0]), valString(r.vals[1]))
	}
}

func (c *Ctx) noteChanged(h *hist, by string) {
	var ks []string
	for k := range h.changed {
		ks = append(ks, strings.TrimPrefix(strings.ReplaceAll(k, "*", ""), "."))
	}
	sortStrings(ks)
	c.note("machine fields that earlier %s can leave changed, taken as unknown: %s", by, strings.Join(ks, ", "))
}

// selections: the last mode selected is the one in force (C14).
func (c *Ctx) selections() {
	var r *Repo
	c.guard("loading", func() { r = c.load() })
	if r == nil {
		return
	}
	var jobs []job
	c.guard("option lists", func() {
		a := newAPI(r)
		cases := a.modeCases()
		var lists [][]modeCase
		lists = append(lists, nil)
		for _, x := range cases {
			lists = append(lists, []modeCase{x})
			for _, y := range cases {
				lists = append(lists, []modeCase{x, y})
				for _, z := range cases {
					lists = append(lists, []modeCase{x, y, z})
				}
			}
		}
		n := 0
		for _, l := range lists {
			l := l
			last := a.named("Default")
			if len(l) > 0 {
				last = l[len(l)-1]
			}
			want := a.modeOf(last.spec)
			if a.sameMachine(l, []modeCase{want}) {
				c.check("same-machine", true, listName(l), "", "")
				continue
			}
			n++
			if n > 12 {
				continue // more of the same
			}
			jobs = append(jobs, job{"options " + listName(l), func(a *API) {
				c.grammarOf(a, last.spec, a.runParse(a.newWith(l), last.spec, nil), "NewMachine with "+listName(l))
			}})
		}
		if n > 12 {
			c.note("%d option lists make a machine of their own; the first 12 are analysed", n)
		}
		c.absorb(a, "option lists")
	})
	for _, mc := range c.allCases() {
		mc := mc
		jobs = append(jobs, job{"a kept option, " + mc.name, func(a *API) {
			c.keptOption(a, mc)
			c.absorb(a, "a kept option, "+mc.name)
		}})
	}
	c.par(jobs...)
	// a call on a machine with any past
	_, h := c.history()
	c.noteChanged(h, "parses and selections")
	jobs = nil
	for _, mc := range c.allCases() {
		mc := mc
		jobs = append(jobs, job{"WithParsingMode(" + mc.name + ") on a used machine", func(a *API) {
			n := 0
			rets := c.settleSel(a, h, mc)
			n += len(rets)
			c.count(rets)
			c.grammarOf(a, mc.spec, rets, "a used machine after WithParsingMode("+mc.name+")")
			c.notStale(a, rets, "Parse")
			c.absorb(a, "a used machine after WithParsingMode("+mc.name+")", "stale")
		}})
	}
	c.par(jobs...)
}

// allCases are the mode values.
func (c *Ctx) allCases() (cases []modeCase) {
	c.guard("modes", func() { cases = newAPI(c.load()).modeCases() })
	return cases
}

// keptOption: an option that has been used makes the same machine again, and shares no memory with either.
func (c *Ctx) keptOption(a *API, mc modeCase) {
	again := func(st *State) []*State { // one more machine from the option in root 0
		st = st.clone()
		st.roots = append(append([]Val(nil), st.roots...), st.roots[0])
		return a.machine([]*State{st}, 1)
	}
	name := "WithParsingMode(" + mc.name + ")"
	st := newState()
	v := mc.val(st)
	for _, r := range a.e.call(a.withMode, []*State{st}, func(*State) []Val { return []Val{v} }) {
		r.st.roots = []Val{r.vals[0]}
		was := func(st *State) *State { // roots: option, the option as it is now
			st = st.clone()
			st.roots = []Val{st.roots[0], a.snapshot(st, st.roots[0], map[int]int{})}
			return st
		}
		for _, s1 := range again(was(r.st)) {
			own := reach(a.e, s1, s1.roots[0])
			for id := range reach(a.e, s1, s1.roots[2]) {
				o := s1.obj(a.e, id)
				c.check("kept-option", !own[id] || o == nil || id < dynBase || o.static, name, "", "the option shares memory with the machine it was used for, %s", siteOf(o))
			}
			if deepSame(a.e, s1, s1.roots[0], s1.roots[1], nil) {
				c.check("kept-option", true, name, "", "")
				continue
			}
			first := s1.roots[2]
			s1 = was(s1)
			s1.roots = append(s1.roots, first)
			for _, s2 := range again(s1) {
				c.check("kept-option", deepSame(a.e, s2, s2.roots[0], s2.roots[1], nil) && deepSame(a.e, s2, s2.roots[2], s2.roots[3], nil), name, "",
					"using the option changes what it holds, and a second use does not make the same machine")
			}
		}
	}
}

// snapshot copies a value with all it refers to.
func (a *API) snapshot(st *State, v Val, copied map[int]int) Val {
	obj := func(id int) int {
		if n, ok := copied[id]; ok {
			return n
		}
		o := st.obj(a.e, id)
		if o == nil {
			return id
		}
		n := *o
		n.tag = ""
		k := st.alloc(&n)
		copied[id] = k
		if o.val != nil {
			n.val = a.snapshot(st, o.val, copied)
		}
		return k
	}
	list := func(l []Val) []Val {
		out := make([]Val, len(l))
		for i, x := range l {
			out[i] = a.snapshot(st, x, copied)
		}
		return out
	}
	switch v := v.(type) {
	case PtrV:
		if v.obj != 0 {
			v.obj = obj(v.obj)
		}
		return v
	case SliceV:
		if v.obj != 0 {
			v.obj = obj(v.obj)
		}
		return v
	case StructV:
		return StructV{list(v.f)}
	case ArrV:
		return ArrV{list(v.e)}
	case IfaceV:
		if v.t != nil {
			v.v = a.snapshot(st, v.v, copied)
		}
		return v
	case FuncV:
		return FuncV{v.fn, list(v.bind)}
	}
	return v
}

func siteOf(o *Obj) string {
	if o == nil {
		return ""
	}
	return o.site
}

// settleSel is settle with a mode selection between the past and the parse.
func (c *Ctx) settleSel(a *API, h *hist, mc modeCase) []Ret {
	var in []*State
	for _, st := range a.newWith([]modeCase{a.modeOf(M2141)}) {
		in = append(in, a.forget(st, h))
	}
	return a.runParse(a.selectMode(in, mc), mc.spec, nil)
}

func listName(l []modeCase) string {
	if len(l) == 0 {
		return "no options"
	}
	var n []string
	for _, x := range l {
		n = append(n, x.name)
	}
	return strings.Join(n, ", then ")
}

// grammarOf: verdict and kind of a mode.
func (c *Ctx) grammarOf(a *API, m Mode, rets []Ret, how string) {
	c.language(a, m, rets, how)
	c.kinds(a, m, c.pick(a, m, rets))
}

func sortStrings(s []string) {
	for i := range s {
		for j := i + 1; j < len(s); j++ {
			if s[j] < s[i] {
				s[i], s[j] = s[j], s[i]
			}
		}
	}
}
