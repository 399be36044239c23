package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ElemV points at an element of an array or of a slice's backing store, by coordinate.
type ElemV struct {
	obj  int
	path string
	idx  Val // IntV or FnV
}

func (e *Engine) get(st *State, f *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v)
	case *ssa.Global:
		return PtrV{e.globalObj(v), ""}
	case *ssa.Function:
		return FuncV{fn: v}
	case *ssa.Builtin:
		return nil
	}
	if x, ok := f.env[v]; ok {
		return x
	}
	return TopV{why: "value " + v.Name() + " of " + f.fn.Name()}
}

func (e *Engine) globalObj(g *ssa.Global) int {
	if id, ok := e.globs[g]; ok {
		return id
	}
	id := len(e.globs) + 1
	e.globs[g] = id
	t := g.Type().(*types.Pointer).Elem()
	o := &Obj{typ: t, static: true, site: g.String()}
	if g.Pkg != nil && e.inModPkg(g.Pkg) {
		o.val = e.zero(t)
	} else {
		o.val = TopV{why: "variable " + g.String()}
	}
	e.static[id] = o
	return id
}

func (e *Engine) inModPkg(p *ssa.Package) bool {
	if f := p.Func("init"); f != nil {
		return e.inMod(f)
	}
	return false
}

func (e *Engine) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return e.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return BoolV{constant.BoolVal(c.Value)}
	case constant.String:
		return cstr(constant.StringVal(c.Value))
	case constant.Int:
		if _, ok := intType(c.Type()); ok {
			if i, ok := constant.Int64Val(c.Value); ok {
				return IntV{con(i), true}
			}
		}
	}
	return TopV{why: "constant " + c.String()}
}

func isBuilderType(t types.Type) bool {
	s := t.String()
	return s == "strings.Builder" || s == "bytes.Buffer"
}

func (e *Engine) zero(t types.Type) Val {
	if isBuilderType(t) {
		return BuilderV{}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolV{false}
		case u.Info()&types.IsInteger != 0:
			return IntV{con(0), true}
		case u.Info()&types.IsString != 0:
			return StrV{}
		case u.Kind() == types.UnsafePointer:
			return PtrV{}
		}
		return TopV{why: "number"}
	case *types.Pointer:
		return PtrV{}
	case *types.Slice:
		return SliceV{}
	case *types.Interface:
		return IfaceV{}
	case *types.Signature:
		return FuncV{}
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return PtrV{}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = e.zero(u.Field(i).Type())
		}
		return StructV{f}
	case *types.Array:
		if u.Len() > 70000 {
			return TopV{why: "large array"}
		}
		el := make([]Val, u.Len())
		for i := range el {
			el[i] = e.zero(u.Elem())
		}
		return ArrV{el}
	case *types.Tuple:
		f := make([]Val, u.Len())
		for i := range f {
			f[i] = e.zero(u.At(i).Type())
		}
		return TupleV{f}
	}
	return TopV{why: t.String()}
}

// unknown gives any value of a type.
func (e *Engine) unknown(st *State, t types.Type, why string) Val {
	if ii, ok := intType(t); ok {
		return freshInt(st, ii)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return someStr(st)
		}
	case *types.Tuple:
		f := make([]Val, u.Len())
		for i := range f {
			f[i] = e.unknown(st, u.At(i).Type(), why)
		}
		return TupleV{f}
	}
	return TopV{why: why}
}

func staleOf(vs ...Val) (TopV, bool) {
	for _, v := range vs {
		if t, ok := v.(TopV); ok && t.stale {
			return t, true
		}
	}
	return TopV{}, false
}

// instr executes a non-branching instruction (f.pc is already past it).
func (e *Engine) instr(st *State, f *Frame, in ssa.Instruction) []*State {
	set := func(st *State, v Val) []*State {
		st.top().env[in.(ssa.Value)] = v
		return []*State{st}
	}
	setAll := func(rs []sv) []*State {
		var out []*State
		for _, r := range rs {
			out = append(out, set(r.st, r.v)...)
		}
		return out
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		return []*State{st}
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		id := st.alloc(&Obj{typ: t, val: e.zero(t), site: e.siteOf(in)})
		return set(st, PtrV{id, ""})
	case *ssa.BinOp:
		e.align(st, f, in)
		return setAll(e.binop(st, in.Op, e.get(st, f, in.X), e.get(st, f, in.Y), in.X.Type(), in.Y.Type(), in.Type()))
	case *ssa.UnOp:
		x := e.get(st, f, in.X)
		switch in.Op {
		case token.MUL:
			return setAll(e.load(st, x, in.Type()))
		case token.NOT:
			if b, ok := x.(BoolV); ok {
				return set(st, BoolV{!b.b})
			}
			return set(st, x)
		case token.SUB:
			if ii, ok := intType(in.Type()); ok {
				return set(st, e.arith(st, token.SUB, IntV{l: con(0)}, x, ii))
			}
		case token.XOR:
			if ii, ok := intType(in.Type()); ok {
				return set(st, e.arith(st, token.XOR, x, IntV{l: con(-1)}, ii))
			}
		case token.ARROW:
			e.event(st, "undecided", "channel operation")
		}
		return set(st, e.unknown(st, in.Type(), "operation"))
	case *ssa.ChangeType:
		return set(st, e.get(st, f, in.X))
	case *ssa.ChangeInterface:
		return set(st, e.get(st, f, in.X))
	case *ssa.MakeInterface:
		x := e.get(st, f, in.X)
		if t, ok := x.(TopV); ok && t.stale {
			return set(st, x)
		}
		return set(st, IfaceV{in.X.Type(), x})
	case *ssa.Convert:
		if isString(in.X.Type()) != isString(in.Type()) {
			e.work(st, "a conversion to "+in.Type().String(), e.get(st, f, in.X))
		}
		return setAll(e.convert(st, e.get(st, f, in.X), in.X.Type(), in.Type()))
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		return set(st, TopV{why: "conversion"})
	case *ssa.Extract:
		x := e.get(st, f, in.Tuple)
		if t, ok := x.(TupleV); ok && in.Index < len(t.e) {
			return set(st, t.e[in.Index])
		}
		if t, ok := staleOf(x); ok {
			return set(st, t)
		}
		return set(st, e.unknown(st, in.Type(), "result"))
	case *ssa.Field:
		x := e.get(st, f, in.X)
		if s, ok := x.(StructV); ok {
			return set(st, s.f[in.Field])
		}
		if t, ok := staleOf(x); ok {
			return set(st, t)
		}
		return set(st, e.unknown(st, in.Type(), "field"))
	case *ssa.FieldAddr:
		x := e.get(st, f, in.X)
		switch p := x.(type) {
		case PtrV:
			e.obligations++
			if p.obj == 0 {
				e.event(st, "panic", "nil pointer dereference")
				return nil
			}
			return set(st, PtrV{p.obj, pathCat(p.path, in.Field)})
		case ElemV:
			return set(st, ElemV{p.obj, p.path + "|" + pathCat("", in.Field), p.idx})
		}
		if t, ok := x.(TopV); ok {
			if t.stale {
				e.event(st, "stale", "dereference of %s", valString(t))
			} else {
				e.event(st, "panic", "dereference of an unknown pointer (%s)", t.why)
			}
			return set(st, x)
		}
		return set(st, TopV{why: "address"})
	case *ssa.IndexAddr:
		return setAll(e.indexAddr(st, e.get(st, f, in.X), e.get(st, f, in.Index), in.X.Type()))
	case *ssa.Index:
		x := e.get(st, f, in.X)
		i := e.get(st, f, in.Index)
		if a, ok := x.(ArrV); ok {
			id := st.alloc(&Obj{val: a, site: "idx"})
			var out []*State
			for _, r := range e.indexAddr(st, PtrV{id, ""}, i, types.NewPointer(in.X.Type())) {
				out = append(out, setAll(e.load(r.st, r.v, in.Type()))...)
			}
			return out
		}
		if s, ok := x.(StrV); ok {
			return setAll(e.indexStr(st, s, i))
		}
		return set(st, e.unknown(st, in.Type(), "element"))
	case *ssa.Lookup:
		x := e.get(st, f, in.X)
		i := e.get(st, f, in.Index)
		if s, ok := x.(StrV); ok {
			return setAll(e.indexStr(st, s, i))
		}
		return setAll(e.lookup(st, x, i, in))
	case *ssa.Slice:
		var lo, hi, mx Val
		if in.Low != nil {
			lo = e.get(st, f, in.Low)
		}
		if in.High != nil {
			hi = e.get(st, f, in.High)
		}
		if in.Max != nil {
			mx = e.get(st, f, in.Max)
		}
		return setAll(e.slice(st, e.get(st, f, in.X), in.X.Type(), lo, hi, mx, in.Type()))
	case *ssa.Store:
		return e.store(st, e.get(st, f, in.Addr), e.get(st, f, in.Val))
	case *ssa.MakeClosure:
		var b []Val
		for _, x := range in.Bindings {
			b = append(b, e.get(st, f, x))
		}
		return set(st, FuncV{in.Fn.(*ssa.Function), b})
	case *ssa.MakeSlice:
		return setAll(e.makeSlice(st, in.Type(), e.get(st, f, in.Len), e.get(st, f, in.Cap), e.measured(st, f, in.Len), e.siteOf(in)))
	case *ssa.MakeMap:
		id := st.alloc(&Obj{typ: in.Type(), m: map[string]mapEnt{}, site: e.siteOf(in)})
		return set(st, MapV{id})
	case *ssa.MapUpdate:
		m, ok := e.get(st, f, in.Map).(MapV)
		if !ok {
			e.event(st, "undecided", "map update")
			return []*State{st}
		}
		if m.obj == 0 {
			e.event(st, "panic", "assignment to nil map")
			return nil
		}
		e.checkWrite(st, m.obj)
		o := st.mut(e, m.obj)
		k := e.get(st, f, in.Key)
		ks, ok := mapKey(st, k)
		if !ok {
			o.m, o.mdefTop = map[string]mapEnt{}, true
			return []*State{st}
		}
		o.m[ks] = mapEnt{k, e.get(st, f, in.Value)}
		return []*State{st}
	case *ssa.TypeAssert:
		return setAll(e.typeAssert(st, e.get(st, f, in.X), in))
	case *ssa.Call:
		return e.doCall(st, f, &in.Call, in)
	case *ssa.Defer:
		fr := st.top()
		d := deferred{call: &in.Call, pos: in}
		d.fn, d.args = e.callee(st, f, &in.Call)
		fr.defers = append(fr.defers, d)
		return []*State{st}
	case *ssa.RunDefers:
		fr := st.top()
		if len(fr.defers) == 0 {
			return []*State{st}
		}
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.pc-- // come back for the others
		return e.invoke(st, d.call, d.fn, d.args, nil, true)
	case *ssa.Range:
		x := e.get(st, f, in.X)
		if s, ok := x.(StrV); ok {
			start := con(0)
			if len(s.a) == 1 && s.a[0].k == aRegion {
				start = s.a[0].from
			}
			return set(st, IterV{s: s, pos: start})
		}
		return set(st, IterV{m: x})
	case *ssa.Next:
		return e.next(st, f, in)
	case *ssa.Go, *ssa.Send, *ssa.Select:
		e.event(st, "undecided", "concurrency construct")
		if _, ok := in.(ssa.Value); ok {
			return set(st, TopV{why: "select"})
		}
		return []*State{st}
	}
	e.event(st, "undecided", "instruction %T", in)
	if v, ok := in.(ssa.Value); ok {
		return set(st, e.unknown(st, v.Type(), "instruction"))
	}
	return []*State{st}
}

func (e *Engine) siteOf(in ssa.Instruction) string {
	return in.Parent().Name() + "/" + itoa(in.Block().Index) + "/" + instrIndex(in)
}

func instrIndex(in ssa.Instruction) string {
	for i, x := range in.Block().Instrs {
		if x == in {
			return itoa(i)
		}
	}
	return "?"
}

func itoa(i int) string { return constant.MakeInt64(int64(i)).String() }

func bools(rs []sb) []sv {
	var out []sv
	for _, r := range rs {
		out = append(out, sv{r.st, BoolV{r.b}})
	}
	return out
}

func (e *Engine) binop(st *State, op token.Token, x, y Val, tx, ty, t types.Type) []sv {
	if s, ok := staleOf(x, y); ok {
		return one(st, s)
	}
	if a, ok := x.(StrV); ok {
		if b, ok := y.(StrV); ok {
			if a.stale() || b.stale() {
				if op == token.ADD {
					return one(st, topStr(true))
				}
				return one(st, TopV{true, "text of an earlier call"})
			}
			switch op {
			case token.ADD:
				e.work(st, "a concatenation", a, b)
				return one(st, concatStr(st, a, b))
			case token.EQL:
				return bools(e.eqStr(st, a, b, false))
			case token.NEQ:
				return bools(flip(e.eqStr(st, a, b, false)))
			}
			ca, ok1 := a.konst()
			cb, ok2 := b.konst()
			if ok1 && ok2 {
				return one(st, BoolV{cmpConst(op, int64(strings.Compare(ca, cb)), 0)})
			}
			return one(st, TopV{why: "string order"})
		}
	}
	if ii, ok := intType(tx); ok {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return bools(e.cmpInt(st, op, x, y, ii))
		case token.SHL, token.SHR:
			return one(st, e.arith(st, op, x, y, ii))
		}
		return one(st, e.arith(st, op, x, y, ii))
	}
	if op == token.EQL || op == token.NEQ {
		r := e.eqVal(st, x, y)
		if op == token.NEQ {
			r = flip(r)
		}
		return bools(r)
	}
	if op == token.AND || op == token.OR || op == token.LAND || op == token.LOR {
		a, ok1 := x.(BoolV)
		b, ok2 := y.(BoolV)
		if ok1 && ok2 {
			if op == token.AND || op == token.LAND {
				return one(st, BoolV{a.b && b.b})
			}
			return one(st, BoolV{a.b || b.b})
		}
	}
	return one(st, TopV{why: "operation"})
}

func (e *Engine) eqVal(st *State, x, y Val) []sb {
	both := []sb{{st.clone(), true}, {st, false}}
	switch a := x.(type) {
	case BoolV:
		if b, ok := y.(BoolV); ok {
			return []sb{{st, a.b == b.b}}
		}
	case PtrV:
		if b, ok := y.(PtrV); ok {
			return []sb{{st, a == b}}
		}
	case ElemV:
		if b, ok := y.(PtrV); ok && b.obj == 0 {
			return []sb{{st, false}}
		}
	case SliceV:
		if b, ok := y.(SliceV); ok && (a.obj == 0 || b.obj == 0) {
			return []sb{{st, a.obj == b.obj}}
		}
	case MapV:
		if b, ok := y.(MapV); ok && (a.obj == 0 || b.obj == 0) {
			return []sb{{st, a.obj == b.obj}}
		}
	case FuncV:
		if b, ok := y.(FuncV); ok && (a.fn == nil || b.fn == nil) {
			return []sb{{st, a.fn == b.fn}}
		}
	case IfaceV:
		b, ok := y.(IfaceV)
		if !ok {
			return both
		}
		if a.t == nil || b.t == nil {
			return []sb{{st, a.t == nil && b.t == nil}}
		}
		if !types.Identical(a.t, b.t) {
			return []sb{{st, false}}
		}
		if _, ok := a.v.(ErrV); ok {
			return both
		}
		return e.eqTyped(st, a.v, b.v, a.t)
	case StructV:
		if b, ok := y.(StructV); ok && len(a.f) == len(b.f) {
			cur := []sb{{st, true}}
			for i := range a.f {
				var next []sb
				for _, c := range cur {
					if !c.b {
						next = append(next, c)
						continue
					}
					next = append(next, e.eqTyped(c.st, a.f[i], b.f[i], nil)...)
				}
				cur = next
			}
			return cur
		}
	}
	return both
}

func (e *Engine) eqTyped(st *State, x, y Val, t types.Type) []sb {
	if a, ok := x.(StrV); ok {
		if b, ok := y.(StrV); ok {
			return e.eqStr(st, a, b, false)
		}
	}
	switch x.(type) {
	case IntV, DiffV, FnV:
		return e.cmpInt(st, token.EQL, x, y, intInfo{64, false})
	}
	return e.eqVal(st, x, y)
}

// load reads through a pointer.
func (e *Engine) load(st *State, p Val, t types.Type) []sv {
	switch p := p.(type) {
	case PtrV:
		e.obligations++
		if p.obj == 0 {
			e.event(st, "panic", "nil pointer dereference")
			return nil
		}
		o := st.obj(e, p.obj)
		if o.val == nil {
			return one(st, e.unknown(st, t, "memory"))
		}
		v, ok := getPath(o.val, pathParts(p.path))
		if !ok {
			return one(st, e.unknown(st, t, "memory"))
		}
		if tv, ok := v.(TopV); ok && !tv.stale {
			return one(st, e.unknown(st, t, tv.why))
		}
		return one(st, v)
	case ElemV:
		return e.loadElem(st, p, t)
	case TopV:
		if p.stale {
			e.event(st, "stale", "read through %s", valString(p))
			return one(st, p)
		}
		e.event(st, "panic", "dereference of an unknown pointer (%s)", p.why)
		return one(st, e.unknown(st, t, p.why))
	}
	return one(st, e.unknown(st, t, "memory"))
}

func (e *Engine) loadElem(st *State, p ElemV, t types.Type) []sv {
	o := st.obj(e, p.obj)
	base, sub := p.path, ""
	if i := strings.Index(base, "|"); i >= 0 {
		base, sub = base[:i], strings.ReplaceAll(base[i:], "|", "")
	}
	if o.seq != nil && o.val == nil {
		var rs []sv
		l, _ := asLin(st, p.idx)
		if o.seq.isBytes {
			rs = e.readByte(st, o.seq.str, o.seq.start, l)
		} else {
			rs = e.readList(st, o.seq, l, t)
		}
		if sub != "" {
			for i, r := range rs {
				if v, ok := getPath(r.v, pathParts(sub)); ok {
					rs[i].v = v
				} else {
					rs[i].v = e.unknown(r.st, t, "element")
				}
			}
		}
		return rs
	}
	av, ok := getPath(o.val, pathParts(base))
	arr, isArr := av.(ArrV)
	if !ok || !isArr {
		if tv, ok := av.(TopV); ok && tv.stale {
			return one(st, tv)
		}
		return one(st, e.unknown(st, t, "element"))
	}
	get := func(i int64) Val {
		v := arr.e[i]
		if sub != "" {
			w, ok := getPath(v, pathParts(sub))
			if !ok {
				return TopV{why: "element"}
			}
			return w
		}
		return v
	}
	if c, ok := constOf(st, p.idx); ok {
		if c < 0 || c >= int64(len(arr.e)) {
			return nil
		}
		return one(st, get(c))
	}
	if f, ok := p.idx.(FnV); ok {
		set := st.cells[f.cell].set
		var tab [256]int64
		allInt := true
		byVal := map[string]ByteSet{}
		vals := map[string]Val{}
		for b := 0; b < 256; b++ {
			if !set.has(byte(b)) {
				continue
			}
			i := f.tab.v[b]
			if i < 0 || i >= int64(len(arr.e)) {
				continue
			}
			v := get(i)
			if iv, ok := v.(IntV); ok && iv.l.isConst() {
				tab[b] = iv.l.o
			} else {
				allInt = false
			}
			k := valString(v)
			s := byVal[k]
			s.add(byte(b))
			byVal[k] = s
			vals[k] = v
		}
		if allInt {
			return one(st, FnV{f.cell, mkTab(tab)})
		}
		if len(byVal) <= 40 {
			var out []sv
			for _, k := range sortedKeys(byVal) {
				n := st.clone()
				n.setCell(f.cell, byVal[k])
				out = append(out, sv{n, vals[k]})
			}
			return out
		}
	}
	// any element
	l, okl := asLin(st, p.idx)
	lo, hi := int64(0), int64(len(arr.e)-1)
	if okl {
		if v := st.z.lb(l, con(0)); v > lo {
			lo = v
		}
		if v := st.z.ub(l, con(0)); v < hi {
			hi = v
		}
	}
	if okl && hi-lo < 300 {
		// one state per element
		var out []sv
		for i := lo; i <= hi; i++ {
			n := st.clone()
			if n.z.eq(l, con(i)) {
				out = append(out, sv{n, get(i)})
			}
		}
		return out
	}
	return one(st, e.unknown(st, t, "element"))
}

func sortedKeys(m map[string]ByteSet) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

// readList reads the element at coordinate c of a list.
func (e *Engine) readList(st *State, s *Seq, c Lin, t types.Type) []sv {
	if s.elemTop {
		return one(st, e.unknown(st, t, "element"))
	}
	var out []sv
	cur := st
	for _, g := range s.segs {
		var rest *State
		for _, o := range cmpLin(cur, token.LSS, c, g.end) {
			if !o.b {
				rest = o.st
				continue
			}
			v := g.v
			if g.sum {
				v = e.expand(o.st, v)
			} else if r, ok := v.(RelV); ok {
				v = simpDiff(r.a, r.b)
			}
			if tv, ok := v.(TopV); ok && !tv.stale {
				v = e.unknown(o.st, t, tv.why)
			}
			out = append(out, sv{o.st, v})
		}
		if rest == nil {
			return out
		}
		cur = rest
	}
	return append(out, sv{cur, e.unknown(cur, t, "element")})
}

// checkWrite reports writes to memory that must not be written.
func (e *Engine) checkWrite(st *State, id int) {
	o := st.obj(e, id)
	if o == nil {
		return
	}
	if o.ext {
		e.event(st, "write-input", "writes to the caller's input")
	}
	if o.static && !e.initing {
		e.event(st, "write-global", "writes to package-level state %s", o.site)
	}
	if o.frozen {
		e.event(st, "write-frozen", "writes to memory it must only read (%s)", o.site)
	}
	if id < dynBase && !o.static && !e.initing {
		e.event(st, "write-global", "writes to package-level state %s", o.site)
	}
}

func (e *Engine) store(st *State, p, v Val) []*State {
	switch p := p.(type) {
	case PtrV:
		e.obligations++
		if p.obj == 0 {
			e.event(st, "panic", "nil pointer dereference")
			return nil
		}
		e.checkWrite(st, p.obj)
		if e.initing {
			o := st.obj(e, p.obj)
			nv, ok := setPath(o.val, pathParts(p.path), v)
			if ok {
				o.val = nv
				return []*State{st}
			}
		}
		o := st.mut(e, p.obj)
		if o.val == nil {
			e.event(st, "undecided", "store to a backing array")
			return []*State{st}
		}
		nv, ok := setPath(o.val, pathParts(p.path), v)
		if !ok {
			e.event(st, "undecided", "store to an unknown place")
			return []*State{st}
		}
		o.val = nv
		return []*State{st}
	case ElemV:
		e.checkWrite(st, p.obj)
		o := st.obj(e, p.obj)
		if strings.Contains(p.path, "|") {
			// field of an element: forget the elements
			o = st.mut(e, p.obj)
			if o.seq != nil && o.val == nil {
				o.seq.elemTop = true
			} else {
				o.val = TopV{why: "array"}
			}
			return []*State{st}
		}
		if o.seq != nil && o.val == nil {
			l, _ := asLin(st, p.idx)
			if o.seq.isBytes {
				var out []*State
				for _, r := range e.writeByte(st, o.seq.str, o.seq.start, l, v) {
					m := r.st.mut(e, p.obj)
					m.seq.str = r.v.(StrV)
					out = append(out, r.st)
				}
				return out
			}
			return e.writeList(st, p.obj, l, v)
		}
		av, ok := getPath(o.val, pathParts(p.path))
		arr, isArr := av.(ArrV)
		if ok && isArr {
			if c, ok := constOf(st, p.idx); ok && c >= 0 && c < int64(len(arr.e)) {
				return e.store(st, PtrV{p.obj, pathCat(p.path, int(c))}, v)
			}
			m := st.mut(e, p.obj)
			ne := make([]Val, len(arr.e))
			for i := range ne {
				ne[i] = TopV{why: "array element"}
				if _, ok := v.(IntV); ok {
					if w, ok := asLin(st, v); ok && w.isConst() {
						if x, ok := arr.e[i].(IntV); ok && x.l == w {
							ne[i] = x
						}
					}
				}
			}
			nv, _ := setPath(m.val, pathParts(p.path), ArrV{ne})
			m.val = nv
		}
		return []*State{st}
	case TopV:
		if p.stale {
			e.event(st, "stale", "write through %s", valString(p))
			return []*State{st}
		}
		e.event(st, "panic", "write through an unknown pointer (%s)", p.why)
		e.event(st, "undecided", "write through an unknown pointer (%s)", p.why)
		return []*State{st}
	}
	e.event(st, "undecided", "store to %T", p)
	return []*State{st}
}

func (e *Engine) writeList(st *State, id int, c Lin, v Val) []*State {
	o := st.mut(e, id)
	prev := o.seq.start
	for i, g := range o.seq.segs {
		if st.z.isLe(prev, c, 0) && st.z.isLe(c, g.end, -1) && !g.sum && st.z.isEq(g.end, prev.add(1)) {
			segs := append([]Seg(nil), o.seq.segs...)
			segs[i].v = v
			o.seq.segs = segs
			return []*State{st}
		}
		prev = g.end
	}
	// unknown position: everything may have changed
	o.seq.elemTop = true
	return []*State{st}
}

// inBounds imposes 0 <= c-lo and c < hi, reporting a possible panic.
func (e *Engine) inBounds(st *State, c, lo, hi Lin, what string) bool {
	e.obligations++
	if !st.z.isLe(lo, c, 0) || !st.z.isLe(c, hi, -1) {
		e.event(st, "panic", "%s may be out of range", what)
	}
	return st.z.le(lo, c, 0) && st.z.le(c, hi, -1)
}

// coord adds an index to a coordinate.
func (e *Engine) coord(st *State, base Lin, i Val) (Lin, bool) {
	r := e.arithSym(st, token.ADD, IntV{l: base}, i, constO(st, base), base.isConst(), func() int64 { c, _ := constOf(st, i); return c }(), func() bool { _, ok := constOf(st, i); return ok }())
	if r == nil {
		return Lin{}, false
	}
	if v, ok := r.(IntV); ok {
		return v.l, true
	}
	return asLin(st, r)
}

func constO(st *State, l Lin) int64 { return l.o }

func (e *Engine) indexAddr(st *State, x, i Val, t types.Type) []sv {
	if s, ok := staleOf(x, i); ok {
		e.event(st, "stale", "indexing depends on %s", valString(s))
		return one(st, s)
	}
	if _, ok := i.(TopV); ok {
		i = freshInt(st, intInfo{64, false})
	}
	switch p := x.(type) {
	case PtrV: // pointer to array
		if p.obj == 0 {
			e.event(st, "panic", "nil pointer dereference")
			return nil
		}
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return one(st, TopV{why: "element"})
		}
		n := pt.Elem().Underlying().(*types.Array).Len()
		if c, ok := constOf(st, i); ok {
			e.obligations++
			if c < 0 || c >= n {
				e.event(st, "panic", "index %d out of range [0,%d)", c, n)
				return nil
			}
			return one(st, PtrV{p.obj, pathCat(p.path, int(c))})
		}
		l, _ := asLin(st, i)
		if !e.inBounds(st, l, con(0), con(n), "array index") {
			return nil
		}
		if f, ok := i.(FnV); ok {
			return one(st, ElemV{p.obj, p.path, f})
		}
		return one(st, ElemV{p.obj, p.path, IntV{l: l}})
	case SliceV:
		if p.obj == 0 {
			e.obligations++
			e.event(st, "panic", "index of an empty slice")
			return nil
		}
		if f, ok := i.(FnV); ok && p.lo == con(0) {
			l, _ := asLin(st, i)
			if !e.inBounds(st, l, p.lo, p.hi, "slice index") {
				return nil
			}
			return one(st, ElemV{p.obj, e.arrPath(st, p.obj), f})
		}
		c, ok := e.coord(st, p.lo, i)
		if !ok {
			// compare the index with the length instead
			n := mkDiff(st, p.hi, p.lo)
			c = st.freshSym()
			st.z.le(p.lo, c, 0)
			okk := true
			for _, r := range e.cmpInt(st.clone(), token.LSS, i, n, intInfo{64, false}) {
				if !r.b {
					okk = false
				}
			}
			lo, _ := bounds(st, i)
			e.obligations++
			if !okk || lo < 0 {
				e.event(st, "panic", "slice index may be out of range")
			}
			if !st.z.le(c, p.hi, -1) {
				return nil
			}
		} else if !e.inBounds(st, c, p.lo, p.hi, "slice index") {
			return nil
		}
		return one(st, ElemV{p.obj, e.arrPath(st, p.obj), IntV{l: c}})
	case TopV:
		return one(st, p)
	}
	return one(st, TopV{why: "element"})
}

// arrPath: slices made from arrays point at the whole object.
func (e *Engine) arrPath(st *State, id int) string { return "" }

func (e *Engine) indexStr(st *State, s StrV, i Val) []sv {
	if s.stale() {
		e.event(st, "stale", "reads text of an earlier call")
		return one(st, TopV{true, "text of an earlier call"})
	}
	if t, ok := staleOf(i); ok {
		e.event(st, "stale", "index depends on %s", valString(t))
		return one(st, t)
	}
	// constant string indexed by a function of a byte
	if c, ok := s.konst(); ok {
		if f, ok := i.(FnV); ok {
			l, _ := asLin(st, i)
			if !e.inBounds(st, l, con(0), con(int64(len(c))), "string index") {
				return nil
			}
			return one(st, FnV{f.cell, mapTab(f.tab, func(v int64) int64 {
				if v >= 0 && v < int64(len(c)) {
					return int64(c[v])
				}
				return 0
			})})
		}
	}
	start := con(0)
	var end Lin
	if len(s.a) == 1 && s.a[0].k == aRegion {
		start, end = s.a[0].from, s.a[0].to
	} else {
		end, _ = asLin(st, e.strLen(st, s))
	}
	c, ok := e.coord(st, start, i)
	if !ok {
		n := mkDiff(st, end, start)
		okk := true
		for _, r := range e.cmpInt(st.clone(), token.LSS, i, n, intInfo{64, false}) {
			if !r.b {
				okk = false
			}
		}
		lo, _ := bounds(st, i)
		e.obligations++
		if !okk || lo < 0 {
			e.event(st, "panic", "string index may be out of range")
		}
		return one(st, freshRange(st, 0, 255))
	}
	if !e.inBounds(st, c, start, end, "string index") {
		return nil
	}
	return e.readByte(st, s, start, c)
}

// seqOf gives the byte contents of a slice.
func (e *Engine) bytesOf(st *State, s SliceV) StrV {
	if s.obj == 0 {
		return StrV{}
	}
	o := st.obj(e, s.obj)
	if o.seq != nil && o.val == nil {
		if !o.seq.isBytes {
			return topStr(o.stale)
		}
		return e.subStr(st, o.seq.str, o.seq.start, o.seq.end, s.lo, s.hi)
	}
	if arr, ok := o.val.(ArrV); ok {
		lo, ok1 := constOf(st, IntV{l: s.lo})
		hi, ok2 := constOf(st, IntV{l: s.hi})
		if ok1 && ok2 {
			var out StrV
			for i := lo; i < hi; i++ {
				out = concatStr(st, out, StrV{[]Atom{byteAtom(st, arr.e[i])}})
			}
			return out
		}
	}
	return topStr(o.stale)
}

func (e *Engine) newBytes(st *State, s StrV, site string) SliceV {
	start, end := con(0), Lin{}
	if len(s.a) == 1 && (s.a[0].k == aRegion || s.a[0].k == aZero) {
		start, end = s.a[0].from, s.a[0].to
	} else {
		switch n := e.strLen(st, s).(type) {
		case IntV:
			end = n.l
		case DiffV:
			start, end = n.b, n.a
		default:
			end, _ = asLin(st, n)
		}
	}
	id := st.alloc(&Obj{typ: types.NewSlice(types.Typ[types.Byte]), seq: &Seq{isBytes: true, start: start, end: end, str: s, elem: types.Typ[types.Byte]}, site: site})
	return SliceV{id, start, end, end}
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *Engine) convert(st *State, x Val, from, to types.Type) []sv {
	if s, ok := staleOf(x); ok {
		return one(st, s)
	}
	if ii, ok := intType(to); ok {
		if _, ok := intType(from); ok {
			switch v := x.(type) {
			case IntV:
				if v.l.isConst() {
					return one(st, IntV{con(truncInt(v.l.o, ii)), v.lit})
				}
			case FnV:
				return one(st, FnV{v.cell, mapTab(v.tab, func(a int64) int64 { return truncInt(a, ii) })})
			case TopV:
				return one(st, freshInt(st, ii))
			}
			lo, hi := ii.rng()
			l, h := bounds(st, x)
			if l >= lo && (h <= hi || ii.bits == 64) {
				return one(st, x)
			}
			return one(st, freshInt(st, ii))
		}
		return one(st, freshInt(st, ii))
	}
	if isString(to) {
		switch v := x.(type) {
		case SliceV:
			if isByteSlice(from) {
				return one(st, e.bytesOf(st, v))
			}
			return one(st, topStr(false))
		case StrV:
			return one(st, v)
		}
		if _, ok := intType(from); ok {
			// string(rune)
			if c, ok := constOf(st, x); ok {
				return one(st, cstr(string(rune(c))))
			}
			if f, ok := x.(FnV); ok {
				set := st.cells[f.cell].set
				ascii := true
				for b := 0; b < 256; b++ {
					if set.has(byte(b)) && (f.tab.v[b] < 0 || f.tab.v[b] > 127) {
						ascii = false
					}
				}
				if ascii {
					return one(st, StrV{[]Atom{byteAtom(st, f)}})
				}
			}
		}
		return one(st, topStr(false))
	}
	if isByteSlice(to) {
		if v, ok := x.(StrV); ok {
			return one(st, e.newBytes(st, v, "bytes"))
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return one(st, x)
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		e.event(st, "undecided", "unsafe conversion")
	}
	return one(st, e.unknown(st, to, "conversion"))
}

func (e *Engine) slice(st *State, x Val, tx types.Type, lo, hi, mx Val, t types.Type) []sv {
	if s, ok := staleOf(x, lo, hi, mx); ok {
		return one(st, s)
	}
	ii := intInfo{64, false}
	check := func(c1, c2, c3 Lin, b Lin) bool { // b <= c1 <= c2 <= c3
		e.obligations++
		if !st.z.isLe(b, c1, 0) || !st.z.isLe(c1, c2, 0) || !st.z.isLe(c2, c3, 0) {
			e.event(st, "panic", "slice bounds may be out of range")
		}
		return st.z.le(b, c1, 0) && st.z.le(c1, c2, 0) && st.z.le(c2, c3, 0)
	}
	at := func(base Lin, i Val, dflt Lin) Lin {
		if i == nil {
			return dflt
		}
		if _, ok := i.(TopV); ok {
			i = freshInt(st, ii)
		}
		if c, ok := e.coord(st, base, i); ok {
			return c
		}
		// unknown coordinate at or after base when the index is not negative
		c := st.freshSym()
		if l, _ := bounds(st, i); l >= 0 {
			st.z.le(base, c, -l)
		}
		return c
	}
	switch p := x.(type) {
	case StrV:
		if p.stale() {
			return one(st, p)
		}
		start := con(0)
		var end Lin
		if len(p.a) == 1 && p.a[0].k == aRegion {
			start, end = p.a[0].from, p.a[0].to
		} else {
			end, _ = asLin(st, e.strLen(st, p))
		}
		a := at(start, lo, start)
		b := at(start, hi, end)
		if !check(a, b, end, start) {
			return nil
		}
		return one(st, e.subStr(st, p, start, end, a, b))
	case SliceV:
		if p.obj == 0 {
			for _, i := range []Val{lo, hi, mx} {
				if i == nil {
					continue
				}
				if c, ok := constOf(st, i); !ok || c != 0 {
					e.event(st, "panic", "slice bounds of a nil slice")
				}
			}
			return one(st, p)
		}
		a := at(p.lo, lo, p.lo)
		b := at(p.lo, hi, p.hi)
		m := at(p.lo, mx, p.max)
		if !check(a, b, m, p.lo) {
			return nil
		}
		if mx != nil {
			st.z.le(m, p.max, 0)
		}
		return one(st, SliceV{p.obj, a, b, m})
	case PtrV:
		if p.obj == 0 {
			e.event(st, "panic", "nil pointer dereference")
			return nil
		}
		arr, ok := tx.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			return one(st, TopV{why: "slice"})
		}
		if p.path != "" {
			// an array inside something else: forget the link, keep the contents
			v, ok := getPath(st.obj(e, p.obj).val, pathParts(p.path))
			if !ok {
				return one(st, TopV{why: "slice"})
			}
			id := st.alloc(&Obj{val: v, site: "arr"})
			p = PtrV{id, ""}
			if !e.initing {
				e.event(st, "undecided", "slice of an array inside a structure")
			}
		}
		n := con(arr.Len())
		a := at(con(0), lo, con(0))
		b := at(con(0), hi, n)
		m := at(con(0), mx, n)
		if !check(a, b, m, con(0)) {
			return nil
		}
		return one(st, SliceV{p.obj, a, b, m})
	}
	return one(st, TopV{why: "slice"})
}

// align writes the first value of a counter that runs up to the length of a part of the input as that length is
// written, so that later values can be merged with it.
func (e *Engine) align(st *State, f *Frame, in *ssa.BinOp) {
	switch in.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
	default:
		return
	}
	counter := func(v ssa.Value) bool {
		if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
			v = b.X
		}
		_, ok := v.(*ssa.Phi)
		return ok
	}
	for _, p := range [][2]ssa.Value{{in.X, in.Y}, {in.Y, in.X}} {
		if !counter(p[0]) {
			continue
		}
		n, ok := e.get(st, f, p[0]).(IntV)
		if !ok || !n.l.isConst() {
			continue
		}
		from := con(0)
		if d, ok := e.get(st, f, p[1]).(DiffV); ok {
			from = d.b
		}
		switch v := e.measured(st, f, p[1]).(type) {
		case StrV:
			if len(v.a) == 1 && v.a[0].k == aRegion {
				from = v.a[0].from
			}
		case SliceV:
			if v.obj != 0 {
				from = v.lo
			}
		}
		if from != con(0) {
			st.top().env[p[0]] = DiffV{from.add(n.l.o), from, true}
		}
	}
}

// measured is the value a number is the length of, if the program says so.
func (e *Engine) measured(st *State, f *Frame, n ssa.Value) Val {
	if c, ok := n.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return e.get(st, f, c.Call.Args[0])
		}
	}
	// the distance of two positions of the input
	if d, ok := n.(*ssa.BinOp); ok && d.Op == token.SUB {
		x, ok1 := e.get(st, f, d.X).(IntV)
		y, ok2 := e.get(st, f, d.Y).(IntV)
		if ok1 && ok2 && !y.lit && y.l != con(0) && st.z.isLe(y.l, x.l, 0) {
			return StrV{[]Atom{{k: aRegion, from: y.l, to: x.l}}}
		}
	}
	return nil
}

func (e *Engine) makeSlice(st *State, t types.Type, n, c, like Val, site string) []sv {
	if s, ok := staleOf(n, c); ok {
		e.event(st, "stale", "allocation depends on %s", valString(s))
		return one(st, s)
	}
	el := t.Underlying().(*types.Slice).Elem()
	if lo, _ := bounds(st, n); lo < 0 {
		e.event(st, "panic", "make with a negative length")
	}
	start, end := con(0), Lin{}
	switch v := n.(type) {
	case DiffV:
		start, end = v.b, v.a
	default:
		end, _ = asLin(st, n)
		if !end.isConst() && end.o < 0 {
			// the length of a part of the input: number its bytes as the input does
			start, end = con(-end.o), Lin{end.s, 0}
		}
	}
	// a copy to be: number its bytes as the original's are
	switch v := like.(type) {
	case SliceV:
		if v.obj != 0 {
			start, end = v.lo, v.hi
		}
	case StrV:
		if len(v.a) == 1 && v.a[0].k == aRegion {
			start, end = v.a[0].from, v.a[0].to
		}
	}
	mx, ok := e.coord(st, start, c)
	if !ok {
		mx = st.freshSym()
		st.z.le(end, mx, 0)
	}
	e.obligations++
	if !st.z.isLe(end, mx, 0) {
		e.event(st, "panic", "make with length greater than capacity")
	}
	seq := &Seq{start: start, end: end, elem: el}
	if isByteSlice(t) {
		seq.isBytes = true
		if !st.z.isEq(start, end) {
			if k, ok := st.z.diff(end, start); ok && k <= 64 {
				seq.str = cstr(strings.Repeat("\x00", int(k)))
			} else {
				seq.str = StrV{[]Atom{{k: aZero, from: start, to: end}}}
			}
		}
	} else if !st.z.isEq(start, end) {
		seq.segs = []Seg{{end: end, sum: true, v: e.zero(el)}}
	}
	id := st.alloc(&Obj{typ: t, seq: seq, site: site})
	return one(st, SliceV{id, start, end, mx})
}

func mapKey(st *State, k Val) (string, bool) {
	switch k := k.(type) {
	case IntV:
		if c, ok := constOf(st, k); ok {
			return "i" + itoa(int(c)), true
		}
	case StrV:
		if c, ok := k.konst(); ok {
			return "s" + c, true
		}
	case BoolV:
		return valString(k), true
	}
	return "", false
}

// lookup reads a map (with or without the ok result).
func (e *Engine) lookup(st *State, m, k Val, in *ssa.Lookup) []sv {
	if s, ok := staleOf(m, k); ok {
		return one(st, s)
	}
	mt, isMap := in.X.Type().Underlying().(*types.Map)
	mk := func(v Val, ok bool) Val {
		if in.CommaOk {
			return TupleV{[]Val{v, BoolV{ok}}}
		}
		return v
	}
	mv, ok := m.(MapV)
	if !isMap || !ok || (mv.obj != 0 && st.obj(e, mv.obj).mdefTop) {
		if in.CommaOk {
			return one(st, TupleV{[]Val{e.unknown(st, in.Type().(*types.Tuple).At(0).Type(), "map"), TopV{why: "map"}}})
		}
		return one(st, e.unknown(st, in.Type(), "map"))
	}
	zero := e.zero(mt.Elem())
	if mv.obj == 0 {
		return one(st, mk(zero, false))
	}
	o := st.obj(e, mv.obj)
	if ks, ok := mapKey(st, k); ok {
		if v, ok := o.m[ks]; ok {
			return one(st, mk(v.v, true))
		}
		return one(st, mk(zero, false))
	}
	// compare with each key in turn
	var out []sv
	cur := []*State{st}
	var ks []string
	for x := range o.m {
		ks = append(ks, x)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	for _, x := range ks {
		ent := o.m[x]
		var next []*State
		for _, s := range cur {
			for _, r := range e.eqTyped(s, k, ent.k, mt.Key()) {
				if r.b {
					out = append(out, sv{r.st, mk(ent.v, true)})
				} else {
					next = append(next, r.st)
				}
			}
		}
		cur = next
	}
	for _, s := range cur {
		out = append(out, sv{s, mk(zero, false)})
	}
	return out
}

func (e *Engine) typeAssert(st *State, x Val, in *ssa.TypeAssert) []sv {
	mk := func(st *State, v Val, ok bool) []sv {
		if in.CommaOk {
			return one(st, TupleV{[]Val{v, BoolV{ok}}})
		}
		if !ok {
			e.event(st, "panic", "type assertion fails")
			return nil
		}
		return one(st, v)
	}
	e.obligations++
	iv, ok := x.(IfaceV)
	if !ok {
		if t, ok := x.(TopV); ok && t.stale {
			return one(st, t)
		}
		if !in.CommaOk {
			e.event(st, "panic", "type assertion on an unknown value may fail")
			return one(st, e.unknown(st, in.AssertedType, "assertion"))
		}
		s2 := st.clone()
		return append(one(st, TupleV{[]Val{e.unknown(st, in.AssertedType, "assertion"), BoolV{true}}}), sv{s2, TupleV{[]Val{e.zero(in.AssertedType), BoolV{false}}}})
	}
	if iv.t == nil {
		return mk(st, e.zero(in.AssertedType), false)
	}
	if types.IsInterface(in.AssertedType) {
		if types.Implements(iv.t, in.AssertedType.Underlying().(*types.Interface)) {
			return mk(st, iv, true)
		}
		return mk(st, IfaceV{}, false)
	}
	if types.Identical(iv.t, in.AssertedType) {
		return mk(st, iv.v, true)
	}
	return mk(st, e.zero(in.AssertedType), false)
}

// next steps an iterator over a string or a map.
func (e *Engine) next(st *State, f *Frame, in *ssa.Next) []*State {
	it, _ := e.get(st, f, in.Iter).(IterV)
	set := func(st *State, v Val) *State {
		st.top().env[in] = v
		return st
	}
	if !in.IsString {
		t := in.Type().(*types.Tuple)
		s2 := st.clone()
		// any number of arbitrary elements
		return []*State{set(st, TupleV{[]Val{BoolV{false}, e.unknown(st, t.At(1).Type(), "map"), e.unknown(st, t.At(2).Type(), "map")}}),
			set(s2, TupleV{[]Val{BoolV{true}, e.unknown(s2, t.At(1).Type(), "map"), e.unknown(s2, t.At(2).Type(), "map")}})}
	}
	start := con(0)
	var end Lin
	if len(it.s.a) == 1 && it.s.a[0].k == aRegion {
		start, end = it.s.a[0].from, it.s.a[0].to
	} else {
		end, _ = asLin(st, e.strLen(st, it.s))
	}
	var out []*State
	for _, o := range cmpLin(st, token.LSS, it.pos, end) {
		if !o.b {
			out = append(out, set(o.st, TupleV{[]Val{BoolV{false}, IntV{l: con(0)}, IntV{l: con(0)}}}))
			continue
		}
		for _, r := range e.readByte(o.st, it.s, start, it.pos) {
			k := mkDiff(r.st, it.pos, start)
			emit := func(st *State, v Val, adv Lin) {
				st.top().env[in.Iter] = IterV{s: it.s, pos: adv}
				out = append(out, set(st, TupleV{[]Val{BoolV{true}, k, v}}))
			}
			for _, c := range e.cmpInt(r.st, token.LSS, r.v, IntV{con(128), true}, intInfo{32, false}) {
				if c.b {
					emit(c.st, r.v, it.pos.add(1))
				} else {
					// a multi-byte rune (or an invalid one): 1 to 4 bytes
					s1 := c.st
					p := s1.freshSym()
					s1.z.le(p, it.pos, 4)
					s1.z.le(it.pos, p, -1)
					s1.z.le(p, end, 0)
					emit(s1, freshRange(s1, 128, 0x10ffff), p)
				}
			}
		}
	}
	return out
}
