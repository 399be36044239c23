package main

import (
	"fmt"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// API is the exported surface the properties speak about.
type API struct {
	e                           *Engine
	r                           *Repo
	newMachine, parse, withMode *ssa.Function
	urnT, urn8141T, scimT       types.Type
	modes                       map[string]int64
	kinds                       map[string]int64
	stypes                      map[string]int64
	fine                        bool                      // see SpecState
	seen                        func(l Lin, t types.Type) // told of the numbers symbolic makes
	modeT                       types.Type
}

type missing struct{ what string }

func (r *Repo) fn(p *ssa.Package, name string) *ssa.Function {
	f := p.Func(name)
	if f == nil || len(f.Blocks) == 0 {
		panic(missing{"function " + name})
	}
	return f
}

func (r *Repo) typ(p *ssa.Package, name string) types.Type {
	t := p.Type(name)
	if t == nil {
		panic(missing{"type " + name})
	}
	return t.Type()
}

func (r *Repo) konst(p *ssa.Package, name string) int64 {
	c := p.Const(name)
	if c == nil {
		panic(missing{"constant " + name})
	}
	i, ok := constant.Int64Val(constant.ToInt(c.Value.Value))
	if !ok {
		panic(missing{"integer constant " + name})
	}
	return i
}

func newAPI(r *Repo) *API {
	if r.urn == nil {
		panic(missing{"package " + urnPath})
	}
	if r.schema == nil {
		panic(missing{"package " + schemaPath})
	}
	a := &API{r: r, e: newRepoEngine(r), modes: map[string]int64{}, kinds: map[string]int64{}, stypes: map[string]int64{}}
	a.newMachine = r.fn(r.urn, "NewMachine")
	a.parse = r.fn(r.urn, "Parse")
	a.withMode = r.fn(r.urn, "WithParsingMode")
	a.urnT = r.typ(r.urn, "URN")
	a.urn8141T = r.typ(r.urn, "URN8141")
	a.scimT = r.typ(r.urn, "SCIM")
	a.modeT = r.typ(r.urn, "ParsingMode")
	for _, n := range []string{"Default", "RFC2141Only", "RFC7643Only", "RFC8141Only", "DefaultParsingMode"} {
		a.modes[n] = r.konst(r.urn, n)
	}
	for _, n := range []string{"NONE", "RFC2141", "RFC7643", "RFC8141"} {
		a.kinds[n] = r.konst(r.urn, n)
	}
	for _, n := range []string{"Unsupported", "Schemas", "API", "Param"} {
		a.stypes[n] = r.konst(r.schema, n)
	}
	return a
}

// method finds a method of a type (or of the pointer to it).
func (a *API) method(t types.Type, name string) *ssa.Function {
	var pkg *types.Package
	if n := namedOf(t); n != nil {
		pkg = n.Obj().Pkg()
	}
	sel := a.r.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		panic(missing{fmt.Sprintf("method %s of %s", name, t)})
	}
	m := a.r.prog.MethodValue(sel)
	if m == nil {
		panic(missing{fmt.Sprintf("method %s of %s", name, t)})
	}
	return m
}

// specMode is the grammar a parsing mode stands for.
func (a *API) specMode(v int64) Mode {
	switch v {
	case a.modes["RFC7643Only"]:
		return MSCIM
	case a.modes["RFC8141Only"]:
		return M8141
	}
	return M2141
}

func (a *API) modeVal(m Mode) int64 {
	return a.modes[[...]string{"RFC2141Only", "RFC7643Only", "RFC8141Only"}[m]]
}

// newInput sets up the input of a parse: any bytes, any length.
func (a *API) newInput(st *State, mode Mode) SliceV {
	n := st.freshSym()
	st.z.le(con(0), n, 0)
	mx := st.freshSym()
	st.z.le(n, mx, 0)
	g := &st.g
	g.on, g.mode, g.s = true, mode, specInit(mode)
	g.s.fine = a.fine
	g.F, g.N = con(0), n
	g.rest = allBytes
	b := types.Typ[types.Byte]
	id := st.alloc(&Obj{typ: types.NewSlice(b), ext: true, site: "input",
		seq: &Seq{isBytes: true, start: con(0), end: n, elem: b, str: StrV{[]Atom{{k: aRegion, from: con(0), to: n}}}}})
	return SliceV{id, con(0), n, mx}
}

// list makes the slice a variadic call would pass.
func (a *API) list(st *State, el types.Type, vs ...Val) Val {
	if len(vs) == 0 {
		return SliceV{}
	}
	id := st.alloc(&Obj{typ: types.NewArray(el, int64(len(vs))), val: ArrV{vs}, site: "varargs"})
	n := con(int64(len(vs)))
	return SliceV{id, con(0), n, n}
}

// option calls WithParsingMode; the option is the last root of the states.
func (a *API) option(sts []*State, mode Val) []*State {
	var out []*State
	for _, r := range a.e.call(a.withMode, sts, func(*State) []Val { return []Val{mode} }) {
		r.st.roots = append(r.st.roots, r.vals[0])
		out = append(out, r.st)
	}
	return out
}

// machine makes a machine with the given options (already made: the last k roots); they are replaced by the machine.
func (a *API) machine(sts []*State, k int) []*State {
	el := a.withMode.Signature.Results().At(0).Type()
	for i, st := range sts {
		st = st.clone()
		opts := append([]Val(nil), st.roots[len(st.roots)-k:]...)
		st.roots = append(st.roots[:len(st.roots)-k:len(st.roots)-k], a.list(st, el, opts...))
		sts[i] = st
	}
	var out []*State
	for _, r := range a.e.call(a.newMachine, sts, func(st *State) []Val { return []Val{st.roots[len(st.roots)-1]} }) {
		r.st.roots[len(r.st.roots)-1] = r.vals[0]
		out = append(out, r.st)
	}
	return out
}

// invoke calls an interface method on root i.
func (a *API) invoke(sts []*State, i int, name string, args func(st *State) []Val) []Ret {
	var out []Ret
	by := map[*ssa.Function][]*State{}
	var order []*ssa.Function
	for _, st := range sts {
		iv, ok := st.roots[i].(IfaceV)
		if !ok || iv.t == nil {
			a.e.event(st, "undecided", "no machine to call %s on", name)
			continue
		}
		m := a.method(iv.t, name)
		if by[m] == nil {
			order = append(order, m)
		}
		by[m] = append(by[m], st)
	}
	for _, m := range order {
		out = append(out, a.e.call(m, by[m], func(st *State) []Val {
			return append([]Val{st.roots[i].(IfaceV).v}, args(st)...)
		})...)
	}
	return out
}

// parseStates analyses NewMachine(WithParsingMode(mode)).Parse(input) for any input.
// roots of the outcomes: machine, urn, err, input.
func (a *API) parseStates(mode Mode, prep func(st *State)) []Ret {
	st := newState()
	sts := a.option([]*State{st}, IntV{con(a.modeVal(mode)), true})
	sts = a.machine(sts, 1)
	return a.runParse(sts, mode, prep)
}

func (a *API) runParse(sts []*State, mode Mode, prep func(st *State)) []Ret {
	var in []*State
	for _, st := range sts {
		st = st.clone()
		s := a.newInput(st, mode)
		st.roots = append(st.roots, s)
		if prep != nil {
			prep(st)
		}
		in = append(in, st)
	}
	var out []Ret
	for _, r := range a.invoke(in, 0, "Parse", func(st *State) []Val { return []Val{st.roots[1]} }) {
		input := r.st.roots[1]
		r.st.roots = []Val{r.st.roots[0], r.vals[0], r.vals[1], input}
		out = append(out, r)
	}
	return out
}

// witness spells a trace as a sample input.
func witness(t *Trace) string {
	var b []byte
	for ; t != nil; t = t.prev {
		if t.note == "" {
			b = append(b, t.set.sample())
		}
	}
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return string(b)
}
