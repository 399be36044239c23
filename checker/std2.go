package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// subcall runs a function that a modelled function of the standard library calls back, to its own fixpoint.
func (e *Engine) subcall(st *State, fn *ssa.Function, bind, args []Val) []sv {
	if e.subDepth > 3 {
		e.event(st, "undecided", "recursion through %s", fn)
		return one(st, TopV{why: "recursion"})
	}
	if len(fn.Blocks) == 0 {
		e.event(st, "undecided", "no body for %s", fn)
		return one(st, TopV{why: "no body"})
	}
	e.subDepth++
	cur := e.cur
	defer func() { e.subDepth--; e.cur = cur }()
	// the activations under way become roots of the state
	st = st.clone()
	type place struct {
		f int
		k ssa.Value
	}
	var places []place
	var vals []Val
	for i, f := range st.fr {
		var ks []ssa.Value
		for k := range f.env {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].Name() < ks[j].Name() })
		for _, k := range ks {
			places = append(places, place{i, k})
			vals = append(vals, f.env[k])
		}
	}
	nv := len(vals)
	for _, f := range st.fr {
		for _, d := range f.defers {
			vals = append(vals, d.fn)
			vals = append(vals, d.args...)
		}
	}
	frames, n := st.fr, len(st.roots)
	st.fr = nil
	st.roots = append(st.roots, TupleV{vals}, TupleV{append(append([]Val(nil), bind...), args...)})
	var out []sv
	for _, r := range e.callBindArgs(fn, st, len(bind)) {
		s := r.st
		kept := s.roots[n].(TupleV).e
		s.roots = s.roots[:n:n]
		s.fr = make([]*Frame, len(frames))
		for i, f := range frames {
			g := *f
			g.env = make(map[ssa.Value]Val, len(f.env)+4)
			g.defers = append([]deferred(nil), f.defers...)
			s.fr[i] = &g
		}
		for i, p := range places {
			s.fr[p.f].env[p.k] = kept[i]
		}
		k := nv
		for _, f := range s.fr {
			for i := range f.defers {
				d := &f.defers[i]
				d.fn = kept[k]
				d.args = append([]Val(nil), kept[k+1:k+1+len(d.args)]...)
				k += 1 + len(d.args)
			}
		}
		var v Val
		switch len(r.vals) {
		case 0:
		case 1:
			v = r.vals[0]
		default:
			v = TupleV{r.vals}
		}
		out = append(out, sv{s, v})
	}
	return out
}

// callBindArgs calls fn with the captured variables and arguments in the last root of the state.
func (e *Engine) callBindArgs(fn *ssa.Function, st *State, nbind int) []Ret {
	all := st.roots[len(st.roots)-1].(TupleV).e
	return e.callBind(fn, all[:nbind], []*State{st}, func(st *State) []Val { return all[nbind:] })
}

// methodOf finds a method without arguments that gives a string.
func (e *Engine) methodOf(t types.Type, name string) *ssa.Function {
	sel := types.NewMethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	sig, ok := sel.Type().(*types.Signature)
	if !ok || sig.Params().Len() != 0 || sig.Results().Len() != 1 || !types.Identical(sig.Results().At(0).Type(), types.Typ[types.String]) {
		return nil
	}
	return e.prog.MethodValue(sel)
}

// verbs lists the verb that formats each argument; nil when the format is not plain.
func verbs(f string) []byte {
	var out []byte
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		if i < len(f) && f[i] != '%' {
			out = append(out, f[i])
		}
	}
	return out
}

type textCase struct {
	st *State
	s  StrV
}

// texts formats like fmt does: arguments that know how to format themselves are asked.
func (e *Engine) texts(st *State, f StrV, argv Val) []textCase {
	args, ok := e.sliceVals(st, argv)
	if !ok {
		return []textCase{{st, topStr(false)}}
	}
	var vs []byte
	if k, ok := f.konst(); ok {
		vs = verbs(k)
	}
	type partial struct {
		st *State
		f  Val
		a  []Val
	}
	// everything that has to survive the calls is a root meanwhile
	st = st.clone()
	n := len(st.roots)
	st.roots = append(st.roots, TupleV{append([]Val{f}, args...)})
	cur := []*State{st}
	for i := range args {
		if i >= len(vs) || !strings.ContainsRune("vsxXq", rune(vs[i])) {
			continue
		}
		var next []*State
		for _, s := range cur {
			iv, ok := s.roots[n].(TupleV).e[i+1].(IfaceV)
			if !ok || iv.t == nil {
				next = append(next, s)
				continue
			}
			if _, isErr := iv.v.(ErrV); isErr {
				next = append(next, s)
				continue
			}
			m := e.methodOf(iv.t, "Error")
			if m == nil {
				m = e.methodOf(iv.t, "String")
			}
			if m == nil || !e.inMod(m) && m.Synthetic == "" {
				next = append(next, s)
				continue
			}
			for _, r := range e.subcall(s, m, nil, []Val{iv.v}) {
				v := r.v
				if _, ok := v.(StrV); !ok {
					v = strArg(v)
				}
				t := r.st.roots[n].(TupleV)
				l := append([]Val(nil), t.e...)
				l[i+1] = IfaceV{types.Typ[types.String], v}
				r.st.roots[n] = TupleV{l}
				next = append(next, r.st)
			}
		}
		cur = next
	}
	var out []textCase
	for _, s := range cur {
		l := s.roots[n].(TupleV).e
		s.roots = s.roots[:n:n]
		out = append(out, textCase{s, e.format(s, l[0].(StrV), l[1:])})
	}
	return out
}

// operands gives the format that prints arguments the way Sprint does when all are strings.
func printFormat(args []Val, ln bool) StrV {
	f := ""
	for i := range args {
		if i > 0 && ln {
			f += " "
		}
		f += "%v"
	}
	if ln {
		f += "\n"
	}
	return cstr(f)
}

func allStrings(args []Val) bool {
	for _, a := range args {
		iv, ok := a.(IfaceV)
		if !ok || iv.t == nil || !isString(iv.t) {
			return false
		}
	}
	return true
}

// writeTo writes a text to a writer.
func writeTo(e *Engine, st *State, c *callCtx, s StrV) []sv {
	w, ok := c.args[0].(IfaceV)
	if ok && w.t != nil {
		if p, isPtr := w.t.(*types.Pointer); isPtr {
			if n := namedOf(p.Elem()); n != nil && n.Obj().Pkg() != nil {
				switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
				case "strings.Builder", "bytes.Buffer":
					cc := *c
					cc.args = []Val{w.v}
					return writeBuilder(e, st, &cc, s, e.strLen(st, s))
				}
			}
		}
	}
	if t := valString(c.args[0]); !strings.Contains(t, "os.Stderr") && !strings.Contains(t, "os.Stdout") {
		e.event(st, "undecided", "%s to an unknown writer", c.name)
	}
	return one(st, TupleV{[]Val{freshRange(st, 0, inf), TopV{why: "write"}}})
}

// part cuts [lo,hi) out of a text.
func (e *Engine) part(st *State, s StrV, lo, hi Val) Val {
	n, ok := asLin(st, e.strLen(st, s))
	l, ok1 := asLin(st, lo)
	h, ok2 := asLin(st, hi)
	if !ok || !ok1 || !ok2 {
		return topStr(s.stale())
	}
	return e.subStr(st, s, con(0), n, l, h)
}

// suffix tells whether a text ends in another one, when its last piece says so.
func suffix(s, p StrV) (has, known bool) {
	k, ok := p.konst()
	if !ok {
		return false, false
	}
	if k == "" {
		return true, true
	}
	if len(s.a) == 0 {
		return false, true
	}
	l := s.a[len(s.a)-1]
	if l.k != aConst {
		return false, false
	}
	if len(l.s) >= len(k) || len(s.a) == 1 || !strings.HasSuffix(k, l.s) {
		return strings.HasSuffix(l.s, k), true
	}
	return false, false
}

func init() {
	m := stdModels
	sprintf := func(e *Engine, st *State, c *callCtx) []sv {
		var out []sv
		for _, t := range e.texts(st, strArg(c.args[0]), c.args[1]) {
			out = append(out, sv{t.st, t.s})
		}
		return out
	}
	m["fmt.Sprintf"] = sprintf
	m["fmt.Errorf"] = func(e *Engine, st *State, c *callCtx) []sv {
		var out []sv
		for _, t := range e.texts(st, strArg(c.args[0]), c.args[1]) {
			s := t.s
			out = append(out, sv{t.st, mkErr("fmt", &s)})
		}
		return out
	}
	for _, ln := range []bool{false, true} {
		ln := ln
		n := "fmt.Sprint"
		if ln {
			n += "ln"
		}
		m[n] = func(e *Engine, st *State, c *callCtx) []sv {
			args, ok := e.sliceVals(st, c.args[0])
			if !ok || !ln && !allStrings(args) {
				return one(st, topStr(false))
			}
			var out []sv
			for _, t := range e.texts(st, printFormat(args, ln), c.args[0]) {
				out = append(out, sv{t.st, t.s})
			}
			return out
		}
	}
	m["fmt.Fprintf"] = func(e *Engine, st *State, c *callCtx) []sv {
		st = st.clone()
		n := len(st.roots)
		st.roots = append(st.roots, c.args[0])
		var out []sv
		for _, t := range e.texts(st, strArg(c.args[1]), c.args[2]) {
			cc := *c
			cc.args = []Val{t.st.roots[n]}
			t.st.roots = t.st.roots[:n:n]
			out = append(out, writeTo(e, t.st, &cc, t.s)...)
		}
		return out
	}
	m["fmt.Fprint"] = func(e *Engine, st *State, c *callCtx) []sv {
		args, ok := e.sliceVals(st, c.args[1])
		s := topStr(false)
		if ok && allStrings(args) {
			s = e.format(st, printFormat(args, false), args)
		}
		return writeTo(e, st, c, s)
	}
	m["io.WriteString"] = func(e *Engine, st *State, c *callCtx) []sv { return writeTo(e, st, c, strArg(c.args[1])) }
	compare := func(e *Engine, st *State, c *callCtx) []sv {
		a, ok1 := c.args[0].(StrV)
		b, ok2 := c.args[1].(StrV)
		if _, isS := c.args[0].(SliceV); isS {
			a, b, ok1, ok2 = e.anyBytes(st, c.args[0]), e.anyBytes(st, c.args[1]), true, true
		}
		if !ok1 || !ok2 {
			return one(st, freshRange(st, -1, 1))
		}
		var out []sv
		for _, o := range e.eqStr(st, a, b, false) {
			if o.b {
				out = append(out, sv{o.st, IntV{l: con(0)}})
			} else {
				out = append(out, sv{o.st.clone(), IntV{l: con(-1)}}, sv{o.st, IntV{l: con(1)}})
			}
		}
		return out
	}
	m["strings.Compare"], m["bytes.Compare"], m["cmp.Compare"] = compare, compare, compare
	cut := func(e *Engine, st *State, c *callCtx, last bool) []sv {
		// TrimPrefix, TrimSuffix
		s, p := strArg(c.args[0]), strArg(c.args[1])
		k, ok := p.konst()
		if !ok {
			return one(st, topStr(s.stale()))
		}
		if last {
			has, known := suffix(s, p)
			if !known {
				return one(st, topStr(s.stale()))
			}
			if !has {
				return one(st, s)
			}
			if k == "" {
				return one(st, s)
			}
			a := append([]Atom(nil), s.a...)
			l := a[len(a)-1]
			l.s = strings.TrimSuffix(l.s, k)
			return one(st, concatStr(st, StrV{a[: len(a)-1 : len(a)-1]}, cstr(l.s)))
		}
		var out []sv
		for _, r := range hasPrefix(e, st, c) {
			b, ok := r.v.(BoolV)
			switch {
			case !ok:
				out = append(out, sv{r.st, topStr(s.stale())})
			case b.b:
				out = append(out, sv{r.st, e.part(r.st, s, IntV{l: con(int64(len(k)))}, e.strLen(r.st, s))})
			default:
				out = append(out, sv{r.st, s})
			}
		}
		return out
	}
	m["strings.TrimPrefix"] = func(e *Engine, st *State, c *callCtx) []sv { return cut(e, st, c, false) }
	m["strings.TrimSuffix"] = func(e *Engine, st *State, c *callCtx) []sv { return cut(e, st, c, true) }
	m["strings.HasSuffix"] = func(e *Engine, st *State, c *callCtx) []sv {
		if has, known := suffix(strArg(c.args[0]), strArg(c.args[1])); known {
			return one(st, BoolV{has})
		}
		return one(st, TopV{why: "suffix"})
	}
	m["strings.Cut"] = func(e *Engine, st *State, c *callCtx) []sv {
		s := strArg(c.args[0])
		set, ok := needle(e, st, c.args[1], false)
		if !ok {
			return one(st, TupleV{[]Val{topStr(s.stale()), topStr(s.stale()), TopV{why: "cut"}}})
		}
		var out []sv
		for _, r := range e.indexSet(st, s, set, false) {
			for _, o := range e.cmpInt(r.st, token.GEQ, r.v, IntV{l: con(0)}, intInfo{64, false}) {
				if !o.b {
					out = append(out, sv{o.st, TupleV{[]Val{s, StrV{}, BoolV{false}}}})
					continue
				}
				next := e.arith(o.st, token.ADD, r.v, IntV{l: con(1)}, intInfo{64, false})
				out = append(out, sv{o.st, TupleV{[]Val{e.part(o.st, s, IntV{l: con(0)}, r.v), e.part(o.st, s, next, e.strLen(o.st, s)), BoolV{true}}}})
			}
		}
		return out
	}
	m["strings.Map"] = func(e *Engine, st *State, c *callCtx) []sv { return mapText(e, st, c) }
}

// mapText is strings.Map with a function of the character alone.
func mapText(e *Engine, st *State, c *callCtx) []sv {
	fv, ok := c.args[0].(FuncV)
	s := strArg(c.args[1])
	if !ok || fv.fn == nil || len(fv.bind) > 0 {
		e.event(st, "undecided", "strings.Map calls a function with a state")
		return one(st, topStr(s.stale()))
	}
	if m := stdModels[fv.fn.String()]; m == nil && !e.inMod(fv.fn) {
		return one(st, topStr(s.stale()))
	}
	var v [256]int64
	for b := 0; b < 128; b++ {
		arg := []Val{IntV{l: con(int64(b))}}
		var rs []sv
		if m := stdModels[fv.fn.String()]; m != nil {
			rs = m(e, newState(), &callCtx{name: fv.fn.String(), args: arg, sig: fv.fn.Signature})
		} else {
			s := newState()
			for _, r := range e.call(fv.fn, []*State{s}, func(*State) []Val { return arg }) {
				rs = append(rs, sv{r.st, r.vals[0]})
			}
		}
		if len(rs) != 1 {
			return one(st, topStr(s.stale()))
		}
		k, ok := constOf(rs[0].st, rs[0].v)
		if !ok || k < 0 || k > 127 {
			return one(st, topStr(s.stale()))
		}
		v[b] = k
	}
	for b := 128; b < 256; b++ {
		v[b] = int64(b)
	}
	t := mkTab(v)
	switch t {
	case tabIdent:
		return one(st, s)
	case lowerTab:
		return one(st, lowerStr(st, s))
	}
	if k, ok := s.konst(); ok {
		b := []byte(k)
		for i := range b {
			b[i] = byte(v[b[i]])
		}
		return one(st, cstr(string(b)))
	}
	return one(st, topStr(s.stale()))
}
