package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	name  string
	args  []Val
	call  *ssa.CallCommon
	sig   *types.Signature
	retTo ssa.Value
}

// callee resolves the function and arguments of a call.
func (e *Engine) callee(st *State, f *Frame, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	if c.IsInvoke() {
		recv := e.get(st, f, c.Value)
		for _, a := range c.Args {
			args = append(args, e.get(st, f, a))
		}
		return recv, args
	}
	for _, a := range c.Args {
		args = append(args, e.get(st, f, a))
	}
	return e.get(st, f, c.Value), args
}

func (e *Engine) doCall(st *State, f *Frame, c *ssa.CallCommon, in *ssa.Call) []*State {
	fn, args := e.callee(st, f, c)
	return e.invoke(st, c, fn, args, in, false)
}

// setRet stores the result of a modelled call.
func setRet(st *State, retTo ssa.Value, v Val) *State {
	if retTo != nil {
		st.top().env[retTo] = v
	}
	return st
}

func (e *Engine) invoke(st *State, c *ssa.CallCommon, fn Val, args []Val, in *ssa.Call, isDefer bool) []*State {
	var retTo ssa.Value
	if in != nil {
		retTo = in
	}
	resT := c.Signature().Results()
	unknownRes := func(st *State, why string) Val {
		if resT.Len() == 1 {
			return e.unknown(st, resT.At(0).Type(), why)
		}
		return e.unknown(st, resT, why)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		var out []*State
		for _, r := range e.builtin(st, b.Name(), args, c, in) {
			out = append(out, setRet(r.st, retTo, r.v))
		}
		return out
	}
	if c.IsInvoke() {
		iv, ok := fn.(IfaceV)
		if !ok {
			if t, ok := fn.(TopV); ok && t.stale {
				e.event(st, "stale", "calls %s on %s", c.Method.Name(), valString(t))
				return []*State{setRet(st, retTo, TopV{true, t.why})}
			}
			e.event(st, "undecided", "dynamic call of %s on an unknown value", c.Method.Name())
			return []*State{setRet(st, retTo, unknownRes(st, "dynamic call"))}
		}
		if iv.t == nil {
			e.obligations++
			e.event(st, "panic", "method %s called on a nil interface", c.Method.Name())
			return nil
		}
		if ev, ok := iv.v.(ErrV); ok {
			switch c.Method.Name() {
			case "Error":
				if ev.text != nil {
					return []*State{setRet(st, retTo, *ev.text)}
				}
				return []*State{setRet(st, retTo, topStr(false))}
			}
			return []*State{setRet(st, retTo, unknownRes(st, "error method"))}
		}
		m := e.prog.LookupMethod(iv.t, c.Method.Pkg(), c.Method.Name())
		if m == nil {
			e.event(st, "undecided", "method %s of %s not found", c.Method.Name(), iv.t)
			return []*State{setRet(st, retTo, unknownRes(st, "dynamic call"))}
		}
		args = append([]Val{iv.v}, args...)
		return e.callFn(st, m, nil, args, retTo, isDefer, unknownRes)
	}
	fv, ok := fn.(FuncV)
	if !ok {
		if t, ok := fn.(TopV); ok && t.stale {
			e.event(st, "stale", "calls %s", valString(t))
			return []*State{setRet(st, retTo, TopV{true, t.why})}
		}
		e.event(st, "undecided", "call of an unknown function (%s)", valString(fn))
		return []*State{setRet(st, retTo, unknownRes(st, "unknown function"))}
	}
	if fv.fn == nil {
		e.event(st, "panic", "call of a nil function")
		return nil
	}
	return e.callFn(st, fv.fn, fv.bind, args, retTo, isDefer, unknownRes)
}

func (e *Engine) callFn(st *State, fn *ssa.Function, bind, args []Val, retTo ssa.Value, isDefer bool, unknownRes func(*State, string) Val) []*State {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if h, ok := e.hooks[fn]; ok {
		cc := &callCtx{name: name, args: args, sig: fn.Signature, retTo: retTo}
		var out []*State
		for _, r := range h(e, st, cc) {
			out = append(out, setRet(r.st, retTo, r.v))
		}
		return out
	}
	if whole(name) {
		e.work(st, name, args...)
	}
	m, ok := e.models[name]
	if !ok {
		m, ok = stdModels[name]
	}
	if ok {
		cc := &callCtx{name: name, args: args, sig: fn.Signature, retTo: retTo}
		var out []*State
		for _, r := range m(e, st, cc) {
			out = append(out, setRet(r.st, retTo, r.v))
		}
		return out
	}
	if e.inMod(fn) && len(fn.Blocks) > 0 {
		if len(st.fr) >= e.depthLimit {
			e.event(st, "undecided", "recursion through %s", name)
			return []*State{setRet(st, retTo, unknownRes(st, "recursion"))}
		}
		if strings.HasPrefix(fn.Name(), "init") && fn.Synthetic != "" && e.initing && fn.Pkg != nil && fn.Name() == "init" {
			// package initialisers of the module are run separately
			return []*State{st}
		}
		fr := st.top()
		fr.retTo = retTo
		nf := &Frame{fn: fn, env: map[ssa.Value]Val{}, blk: fn.Blocks[0], deferred: isDefer}
		e.funcs[fn] = true
		for i, p := range fn.Params {
			nf.env[p] = args[i]
		}
		for i, p := range fn.FreeVars {
			nf.env[p] = bind[i]
		}
		st.fr = append(st.fr, nf)
		return []*State{st}
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	if e.initing {
		return []*State{setRet(st, retTo, unknownRes(st, "result of "+name))}
	}
	if e.fallback != nil {
		if rs, ok := e.fallback(st, fn, &callCtx{name: name, args: args, sig: fn.Signature, retTo: retTo}); ok {
			var out []*State
			for _, r := range rs {
				out = append(out, setRet(r.st, retTo, r.v))
			}
			return out
		}
	}
	if why := impure(fn, pkg, name); why != "" {
		e.event(st, "undecided", "call of %s, whose effects are not modelled%s", name, why)
	}
	for _, a := range args {
		if t, ok := a.(TopV); ok && t.stale {
			return []*State{setRet(st, retTo, TopV{true, t.why})}
		}
		if s, ok := a.(StrV); ok && s.stale() {
			return []*State{setRet(st, retTo, TopV{true, "text of an earlier call"})}
		}
	}
	if resT := fn.Signature.Results(); resT.Len() == 1 && pkg == "strings" && !isByteSlice(resT.At(0).Type()) {
		if sl, ok := resT.At(0).Type().Underlying().(*types.Slice); ok {
			// a list of its own
			hi := freshRange(st, 0, inf).l
			o := st.alloc(&Obj{typ: sl, site: "result of " + name, seq: &Seq{start: con(0), end: hi, elem: sl.Elem(), elemTop: true}})
			return []*State{setRet(st, retTo, SliceV{o, con(0), hi, hi})}
		}
	}
	return []*State{setRet(st, retTo, unknownRes(st, "result of "+name))}
}

// impure: may a function without a model have effects we would miss?
func impure(fn *ssa.Function, pkg, name string) string {
	if pureFuncs[name] {
		return ""
	}
	if !purePkgs[pkg] {
		return " (package " + pkg + ")"
	}
	sig := fn.Signature
	if r := sig.Recv(); r != nil {
		if _, ok := r.Type().Underlying().(*types.Basic); !ok {
			return " (a method with state)"
		}
	}
	for i := 0; i < sig.Params().Len(); i++ {
		switch u := sig.Params().At(i).Type().Underlying().(type) {
		case *types.Signature:
			return " (calls a function it is given)"
		case *types.Interface, *types.Pointer, *types.Map, *types.Chan:
			return " (takes a reference)"
		case *types.Slice:
			n := fn.Name()
			if strings.HasPrefix(n, "Append") || strings.HasPrefix(n, "Encode") {
				return " (writes to a slice it is given)"
			}
			_ = u
		}
	}
	switch fn.Name() {
	case "Repeat", "NewReplacer", "FormatInt", "FormatUint", "FormatFloat":
		return " (may panic)"
	}
	return ""
}

// packages whose functions have no effect on their arguments and do not panic on any argument we see
var purePkgs = map[string]bool{"strings": true, "bytes": true, "strconv": true, "unicode": true, "unicode/utf8": true, "errors": true, "math": true,
	"math/bits": true, "cmp": true, "internal/bytealg": true}
var pureFuncs = map[string]bool{"fmt.Sprint": true, "fmt.Sprintln": true, "regexp.MustCompile": true, "encoding/json.Valid": true,
	"(*regexp.Regexp).MatchString": true, "(*regexp.Regexp).Match": true, "(*regexp.Regexp).FindString": true, "(*regexp.Regexp).ReplaceAllString": true,
	"(*regexp.Regexp).ReplaceAll": true, "sort.SearchInts": true, "slices.Contains": true, "slices.Index": true}

type stdModel func(e *Engine, st *State, c *callCtx) []sv

var errType = types.Universe.Lookup("error").Type()
var opaqueErrType = types.NewPointer(types.NewStruct(nil, nil))

func mkErr(kind string, text *StrV) Val { return IfaceV{opaqueErrType, ErrV{kind, text}} }

// sliceVals lists the elements of a slice of known length.
func (e *Engine) sliceVals(st *State, v Val) ([]Val, bool) {
	s, ok := v.(SliceV)
	if !ok {
		return nil, false
	}
	if s.obj == 0 {
		return nil, true
	}
	lo, ok1 := constOf(st, IntV{l: s.lo})
	hi, ok2 := constOf(st, IntV{l: s.hi})
	if !ok1 || !ok2 {
		return nil, false
	}
	o := st.obj(e, s.obj)
	if arr, ok := o.val.(ArrV); ok && hi <= int64(len(arr.e)) {
		return arr.e[lo:hi], true
	}
	if o.seq != nil && !o.seq.isBytes && !o.seq.elemTop {
		var out []Val
		prev := o.seq.start
		for _, g := range o.seq.segs {
			if g.sum {
				return nil, false
			}
			if st.z.isLe(s.lo, prev, 0) && st.z.isLe(g.end, s.hi, 0) {
				out = append(out, g.v)
			}
			prev = g.end
		}
		return out, int64(len(out)) == hi-lo
	}
	return nil, false
}

// format expands a format string.
func (e *Engine) format(st *State, f StrV, args []Val) StrV {
	fs, ok := f.konst()
	if !ok {
		return topStr(f.stale())
	}
	var out StrV
	add := func(s StrV) { out = concatStr(st, out, s) }
	k := 0
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			j := i
			for j < len(fs) && fs[j] != '%' {
				j++
			}
			add(cstr(fs[i:j]))
			i = j - 1
			continue
		}
		i++
		if i >= len(fs) {
			add(cstr("%!(NOVERB)"))
			break
		}
		verb := fs[i]
		if verb == '%' {
			add(cstr("%"))
			continue
		}
		if k >= len(args) {
			add(cstr("%!" + string(verb) + "(MISSING)"))
			continue
		}
		a := args[k]
		k++
		if iv, ok := a.(IfaceV); ok {
			if iv.t == nil {
				add(cstr("%!" + string(verb) + "(<nil>)"))
				continue
			}
			if _, isErr := iv.v.(ErrV); !isErr {
				if n, ok := iv.t.(*types.Named); ok && n.NumMethods() > 0 {
					add(topStr(false))
					continue
				}
			}
			a = iv.v
		}
		switch v := a.(type) {
		case IntV, DiffV, FnV:
			if c, ok := constOf(st, v); ok && verb == 'd' {
				if iv, isI := v.(IntV); isI && iv.lit {
					add(cstr(fmt.Sprint(c)))
					continue
				}
			}
			if verb == 'd' || verb == 'v' {
				add(StrV{[]Atom{{k: aInt, v: v}}})
			} else {
				add(topStr(false))
			}
		case StrV:
			if verb == 's' || verb == 'v' {
				add(v)
			} else {
				add(topStr(v.stale()))
			}
		case ErrV:
			if v.text != nil && (verb == 's' || verb == 'v' || verb == 'w') {
				add(*v.text)
			} else {
				add(topStr(false))
			}
		case TopV:
			add(topStr(v.stale))
		case SliceV:
			add(topStr(false))
		default:
			add(topStr(false))
		}
	}
	if k < len(args) {
		add(cstr("%!(EXTRA)"))
	}
	return out
}

func strArg(v Val) StrV {
	if s, ok := v.(StrV); ok {
		return s
	}
	if t, ok := v.(TopV); ok {
		return topStr(t.stale)
	}
	return topStr(false)
}

// builderUpd appends to a strings.Builder / bytes.Buffer.
func (e *Engine) builder(st *State, p Val) (BuilderV, PtrV, bool) {
	pp, ok := p.(PtrV)
	if !ok || pp.obj == 0 {
		return BuilderV{}, pp, false
	}
	v, ok := getPath(st.obj(e, pp.obj).val, pathParts(pp.path))
	if !ok {
		return BuilderV{}, pp, false
	}
	b, ok := v.(BuilderV)
	return b, pp, ok
}

func writeBuilder(e *Engine, st *State, c *callCtx, s StrV, n Val) []sv {
	var nilErr Val = IfaceV{}
	res := func(st *State) Val {
		switch c.sig.Results().Len() {
		case 0:
			return nil
		case 1:
			return nilErr
		}
		return TupleV{[]Val{n, nilErr}}
	}
	if t, ok := staleOf(c.args[0]); ok {
		e.event(st, "stale", "writes to a buffer of an earlier call (%s)", t.why)
		return one(st, res(st))
	}
	b, p, ok := e.builder(st, c.args[0])
	if !ok {
		if pp, isP := c.args[0].(PtrV); isP && pp.obj == 0 {
			e.event(st, "panic", "nil pointer dereference")
			return nil
		}
		e.event(st, "undecided", "write to an unknown buffer")
		return one(st, res(st))
	}
	out := e.store(st, p, BuilderV{concatStr(st, b.s, s)})
	var rs []sv
	for _, o := range out {
		rs = append(rs, sv{o, res(o)})
	}
	return rs
}

var stdModels map[string]stdModel

func init() {
	text := func(e *Engine, st *State, c *callCtx) StrV {
		f := strArg(c.args[0])
		args, ok := e.sliceVals(st, c.args[1])
		if !ok {
			return topStr(false)
		}
		return e.format(st, f, args)
	}
	m := map[string]stdModel{
		"fmt.Errorf": func(e *Engine, st *State, c *callCtx) []sv {
			t := text(e, st, c)
			return one(st, mkErr("fmt", &t))
		},
		"fmt.Sprintf": func(e *Engine, st *State, c *callCtx) []sv { return one(st, text(e, st, c)) },
		"errors.New": func(e *Engine, st *State, c *callCtx) []sv {
			t := strArg(c.args[0])
			return one(st, mkErr("new", &t))
		},
		"strings.ToLower": func(e *Engine, st *State, c *callCtx) []sv { return one(st, lowerStr(st, strArg(c.args[0]))) },
		"strings.Clone":   func(e *Engine, st *State, c *callCtx) []sv { return one(st, c.args[0]) },
		"strings.EqualFold": func(e *Engine, st *State, c *callCtx) []sv {
			return bools(e.eqStr(st, strArg(c.args[0]), strArg(c.args[1]), true))
		},
		"strings.HasPrefix": hasPrefix,
		"strings.IndexByte": indexIn, "bytes.IndexByte": indexIn, "strings.Index": indexIn, "strings.IndexRune": indexIn,
		"bytes.IndexRune": indexIn, "bytes.Index": indexIn, "strings.IndexAny": indexAny, "bytes.IndexAny": indexAny,
		"strings.Contains": containsIn, "bytes.Contains": containsIn, "strings.ContainsRune": containsIn, "bytes.ContainsRune": containsIn,
		"strings.ContainsAny": containsAny, "bytes.ContainsAny": containsAny,
		"bytes.HasPrefix": hasPrefix,
		"regexp.MustCompile": func(e *Engine, st *State, c *callCtx) []sv {
			pat, ok := strArg(c.args[0]).konst()
			if !ok {
				return one(st, e.unknown(st, c.sig.Results().At(0).Type(), "regular expression"))
			}
			if _, err := regexp.Compile(pat); err != nil {
				e.event(st, "panic", "regular expression %q: %v", pat, err)
				return nil
			}
			t := c.sig.Results().At(0).Type().(*types.Pointer).Elem()
			return one(st, PtrV{obj: st.alloc(&Obj{typ: t, val: cstr(pat), frozen: true, site: "regular expression " + pat})})
		},
		"strings.Join": func(e *Engine, st *State, c *callCtx) []sv {
			el, ok := e.sliceVals(st, c.args[0])
			if !ok {
				return one(st, topStr(false))
			}
			var out StrV
			for i, x := range el {
				if i > 0 {
					out = concatStr(st, out, strArg(c.args[1]))
				}
				out = concatStr(st, out, strArg(x))
			}
			return one(st, out)
		},
		"bytes.Equal": func(e *Engine, st *State, c *callCtx) []sv {
			return bools(e.eqStr(st, e.anyBytes(st, c.args[0]), e.anyBytes(st, c.args[1]), false))
		},
		"bytes.EqualFold": func(e *Engine, st *State, c *callCtx) []sv {
			return bools(e.eqStr(st, e.anyBytes(st, c.args[0]), e.anyBytes(st, c.args[1]), true))
		},
		"bytes.ToLower": func(e *Engine, st *State, c *callCtx) []sv {
			return one(st, e.newBytes(st, lowerStr(st, e.anyBytes(st, c.args[0])), "lower"))
		},
		"bytes.Clone": func(e *Engine, st *State, c *callCtx) []sv {
			if s, ok := c.args[0].(SliceV); ok && s.obj == 0 {
				return one(st, s)
			}
			return one(st, e.newBytes(st, e.anyBytes(st, c.args[0]), "clone"))
		},
		"strconv.Itoa": func(e *Engine, st *State, c *callCtx) []sv { return one(st, itoaStr(st, c.args[0])) },
		"strconv.FormatInt": func(e *Engine, st *State, c *callCtx) []sv {
			if b, ok := constOf(st, c.args[1]); ok && b == 10 {
				return one(st, itoaStr(st, c.args[0]))
			}
			return one(st, topStr(false))
		},
		"encoding/json.Marshal": func(e *Engine, st *State, c *callCtx) []sv {
			iv, ok := c.args[0].(IfaceV)
			if ok && iv.t != nil && isString(iv.t) {
				if _, named := iv.t.(*types.Named); !named {
					return one(st, TupleV{[]Val{JSONV{iv.v}, IfaceV{}}})
				}
			}
			e.event(st, "undecided", "json.Marshal of something else than a string")
			s2 := st.clone()
			return append(one(st, TupleV{[]Val{JSONV{TopV{why: "value"}}, IfaceV{}}}), sv{s2, TupleV{[]Val{SliceV{}, mkErr("json", nil)}}})
		},
		"encoding/json.Unmarshal": jsonUnmarshal,
	}
	for _, b := range []string{"(*strings.Builder)", "(*bytes.Buffer)"} {
		m[b+".WriteString"] = func(e *Engine, st *State, c *callCtx) []sv {
			s := strArg(c.args[1])
			return writeBuilder(e, st, c, s, e.strLen(st, s))
		}
		m[b+".Write"] = func(e *Engine, st *State, c *callCtx) []sv {
			s := e.anyBytes(st, c.args[1])
			return writeBuilder(e, st, c, s, e.strLen(st, s))
		}
		m[b+".WriteByte"] = func(e *Engine, st *State, c *callCtx) []sv {
			return writeBuilder(e, st, c, StrV{[]Atom{byteAtom(st, c.args[1])}}, nil)
		}
		m[b+".WriteRune"] = func(e *Engine, st *State, c *callCtx) []sv {
			var out []sv
			for _, r := range e.convert(st, c.args[1], types.Typ[types.Int32], types.Typ[types.String]) {
				out = append(out, writeBuilder(e, r.st, c, r.v.(StrV), freshRange(r.st, 1, 4))...)
			}
			return out
		}
		m[b+".String"] = func(e *Engine, st *State, c *callCtx) []sv {
			if bv, _, ok := e.builder(st, c.args[0]); ok {
				return one(st, bv.s)
			}
			return one(st, topStr(false))
		}
		m[b+".Bytes"] = func(e *Engine, st *State, c *callCtx) []sv {
			if bv, _, ok := e.builder(st, c.args[0]); ok {
				return one(st, e.newBytes(st, bv.s, "buffer"))
			}
			return one(st, TopV{why: "buffer"})
		}
		m[b+".Len"] = func(e *Engine, st *State, c *callCtx) []sv {
			if bv, _, ok := e.builder(st, c.args[0]); ok {
				return one(st, e.strLen(st, bv.s))
			}
			return one(st, freshRange(st, 0, inf))
		}
		m[b+".Grow"] = func(e *Engine, st *State, c *callCtx) []sv {
			if lo, _ := bounds(st, c.args[1]); lo < 0 {
				e.event(st, "panic", "Grow with a negative count")
			}
			return one(st, nil)
		}
		m[b+".Reset"] = func(e *Engine, st *State, c *callCtx) []sv {
			_, p, ok := e.builder(st, c.args[0])
			if !ok {
				if t, ok := staleOf(c.args[0]); ok {
					_ = t
					return one(st, nil)
				}
				e.event(st, "undecided", "Reset of an unknown buffer")
				return one(st, nil)
			}
			var out []sv
			for _, o := range e.store(st, p, BuilderV{}) {
				out = append(out, sv{o, nil})
			}
			return out
		}
	}
	// predicates and mappings on single characters
	for n, f := range map[string]func(rune) int64{
		"unicode.IsLetter": b2i(unicode.IsLetter), "unicode.IsDigit": b2i(unicode.IsDigit), "unicode.IsUpper": b2i(unicode.IsUpper),
		"unicode.IsLower": b2i(unicode.IsLower), "unicode.IsNumber": b2i(unicode.IsNumber), "unicode.IsSpace": b2i(unicode.IsSpace),
		"unicode.IsControl": b2i(unicode.IsControl), "unicode.IsPrint": b2i(unicode.IsPrint), "unicode.IsPunct": b2i(unicode.IsPunct),
		"unicode.ToLower": func(r rune) int64 { return int64(unicode.ToLower(r)) }, "unicode.ToUpper": func(r rune) int64 { return int64(unicode.ToUpper(r)) },
	} {
		f := f
		pred := strings.HasPrefix(n, "unicode.Is")
		m[n] = func(e *Engine, st *State, c *callCtx) []sv {
			if k, ok := constOf(st, c.args[0]); ok {
				if pred {
					return one(st, BoolV{f(rune(k)) != 0})
				}
				return one(st, IntV{l: con(f(rune(k)))})
			}
			if fv, ok := c.args[0].(FnV); ok {
				if !pred {
					return one(st, FnV{fv.cell, mapTab(fv.tab, func(v int64) int64 { return f(rune(v)) })})
				}
				return bools(e.cmpInt(st, token.NEQ, FnV{fv.cell, mapTab(fv.tab, func(v int64) int64 { return f(rune(v)) })}, IntV{con(0), true}, intInfo{64, false}))
			}
			if pred {
				return one(st, TopV{why: n})
			}
			return one(st, freshInt(st, intInfo{32, false}))
		}
	}
	stdModels = m
}

func b2i(f func(rune) bool) func(rune) int64 {
	return func(r rune) int64 {
		if f(r) {
			return 1
		}
		return 0
	}
}

func itoaStr(st *State, v Val) StrV {
	if c, ok := v.(IntV); ok && c.l.isConst() && c.lit {
		return cstr(fmt.Sprint(c.l.o))
	}
	if t, ok := v.(TopV); ok {
		return topStr(t.stale)
	}
	return StrV{[]Atom{{k: aInt, v: v}}}
}

func (e *Engine) anyBytes(st *State, v Val) StrV {
	switch v := v.(type) {
	case SliceV:
		return e.bytesOf(st, v)
	case StrV:
		return v
	case TopV:
		return topStr(v.stale)
	}
	return topStr(false)
}

// needle gives what is looked for when that is one of some bytes.
func needle(e *Engine, st *State, v Val, any bool) (set ByteSet, ok bool) {
	if c, ok := constOf(st, v); ok {
		if c < 0 || c > 127 {
			return set, false
		}
		set.add(byte(c))
		return set, true
	}
	s, ok := e.anyBytes(st, v).konst()
	if !ok || len(s) == 0 || len(s) > 1 && !any {
		return set, false
	}
	for i := 0; i < len(s); i++ {
		if s[i] > 127 {
			return set, false
		}
		set.add(s[i])
	}
	return set, true
}

func indexFind(e *Engine, st *State, c *callCtx, any, only bool) []sv {
	s := e.anyBytes(st, c.args[0])
	if set, ok := needle(e, st, c.args[1], any); ok {
		return e.indexSet(st, s, set, only)
	}
	if a, ok := s.konst(); ok {
		if _, isInt := c.args[1].(IntV); !isInt {
			if b, ok := e.anyBytes(st, c.args[1]).konst(); ok {
				if any {
					return one(st, IntV{l: con(int64(strings.IndexAny(a, b)))})
				}
				return one(st, IntV{l: con(int64(strings.Index(a, b)))})
			}
		}
	}
	// -1 to the length
	n := st.clone()
	p := freshRange(st, 0, inf)
	out := []sv{{n, IntV{l: con(-1)}}}
	for _, x := range e.cmpInt(st, token.LEQ, p, e.strLen(st, s), intInfo{64, false}) {
		if x.b {
			out = append(out, sv{x.st, p})
		}
	}
	return out
}

func indexIn(e *Engine, st *State, c *callCtx) []sv  { return indexFind(e, st, c, false, false) }
func indexAny(e *Engine, st *State, c *callCtx) []sv { return indexFind(e, st, c, true, false) }

func contains(e *Engine, st *State, c *callCtx, any bool) []sv {
	var out []sv
	for _, r := range indexFind(e, st, c, any, true) {
		for _, o := range e.cmpInt(r.st, token.GEQ, r.v, IntV{l: con(0)}, intInfo{64, false}) {
			out = append(out, sv{o.st, BoolV{o.b}})
		}
	}
	return out
}

func containsIn(e *Engine, st *State, c *callCtx) []sv  { return contains(e, st, c, false) }
func containsAny(e *Engine, st *State, c *callCtx) []sv { return contains(e, st, c, true) }

func hasPrefix(e *Engine, st *State, c *callCtx) []sv {
	s, p := e.anyBytes(st, c.args[0]), e.anyBytes(st, c.args[1])
	k, ok := p.konst()
	if !ok || len(s.a) != 1 || s.a[0].k != aRegion {
		if cs, ok2 := s.konst(); ok && ok2 {
			return one(st, BoolV{strings.HasPrefix(cs, k)})
		}
		return one(st, TopV{why: "prefix"})
	}
	a := s.a[0]
	var out []sv
	for _, o := range cmpLin(st, token.LEQ, a.from.add(int64(len(k))), a.to) {
		if !o.b {
			out = append(out, sv{o.st, BoolV{false}})
			continue
		}
		sub := a
		sub.to = a.from.add(int64(len(k)))
		// read the bytes that have not been read yet
		cur := []*State{o.st}
		for i := range k {
			var next []*State
			for _, x := range cur {
				for _, r := range e.readInput(x, a.from.add(int64(i))) {
					next = append(next, r.st)
				}
			}
			cur = next
		}
		for _, x := range cur {
			for _, r := range e.eqStr(x, StrV{[]Atom{sub}}, p, false) {
				out = append(out, sv{r.st, BoolV{r.b}})
			}
		}
	}
	return out
}

// jsonUnmarshal models decoding the document under analysis into a string.
func jsonUnmarshal(e *Engine, st *State, c *callCtx) []sv {
	iv, ok := c.args[1].(IfaceV)
	doc, okd := c.args[0].(SliceV)
	if !ok || iv.t == nil || !okd || doc.obj == 0 || st.obj(e, doc.obj).site != "json-document" {
		e.event(st, "undecided", "json.Unmarshal of something else than the document")
		return one(st, TopV{why: "json"})
	}
	p, ok := iv.v.(PtrV)
	if pt, okp := iv.t.(*types.Pointer); !ok || !okp || !isString(pt.Elem()) || p.obj == 0 {
		e.event(st, "undecided", "json.Unmarshal into something else than a string")
		return one(st, TopV{why: "json"})
	}
	var out []sv
	s1, s2, s3 := st.clone(), st.clone(), st
	outcome := func(s *State, k string) bool {
		for _, o := range []string{"json:err", "json:str", "json:null"} {
			if v, ok := s.facts[o]; ok && v && o != k {
				return false
			}
		}
		s.facts[k] = true
		return true
	}
	if outcome(s1, "json:err") {
		out = append(out, sv{s1, mkErr("json", nil)})
	}
	if outcome(s2, "json:str") {
		for _, o := range e.store(s2, p, regionStr(s2, con(0), s2.g.N)) {
			out = append(out, sv{o, IfaceV{}})
		}
	}
	if outcome(s3, "json:null") && s3.z.eq(s3.g.N, con(0)) {
		out = append(out, sv{s3, IfaceV{}})
	}
	return out
}

func (e *Engine) lenOf(st *State, v Val) Val {
	switch v := v.(type) {
	case StrV:
		if v.stale() {
			return TopV{true, "text of an earlier call"}
		}
		return e.strLen(st, v)
	case SliceV:
		if v.obj == 0 {
			return IntV{l: con(0)}
		}
		return mkDiff(st, v.hi, v.lo)
	case MapV:
		if v.obj == 0 {
			return IntV{l: con(0)}
		}
		if o := st.obj(e, v.obj); !o.mdefTop {
			return IntV{l: con(int64(len(o.m)))}
		}
	case ArrV:
		return IntV{l: con(int64(len(v.e)))}
	case TopV:
		if v.stale {
			return v
		}
	}
	return freshRange(st, 0, inf)
}

func (e *Engine) builtin(st *State, name string, args []Val, c *ssa.CallCommon, in *ssa.Call) []sv {
	switch name {
	case "len":
		if p, ok := args[0].(PtrV); ok && p.obj != 0 {
			if v, ok := getPath(st.obj(e, p.obj).val, pathParts(p.path)); ok {
				return one(st, e.lenOf(st, v))
			}
		}
		return one(st, e.lenOf(st, args[0]))
	case "cap":
		if s, ok := args[0].(SliceV); ok {
			if s.obj == 0 {
				return one(st, IntV{l: con(0)})
			}
			return one(st, mkDiff(st, s.max, s.lo))
		}
		if t, ok := staleOf(args[0]); ok {
			return one(st, t)
		}
		return one(st, freshRange(st, 0, inf))
	case "append":
		e.work(st, "an append", args[1])
		if s, ok := args[0].(SliceV); ok && s.obj != 0 && st.z.isEq(s.max, s.hi) {
			e.work(st, "an append without room", s)
		}
		return e.appendB(st, args[0], args[1], c)
	case "copy":
		if e.long(st, args[0], 0) {
			e.work(st, "a copy", args[1])
		}
		return e.copyB(st, args[0], args[1])
	case "print", "println":
		return one(st, nil)
	case "panic":
		e.event(st, "panic", "explicit panic reached")
		return nil
	case "recover":
		e.event(st, "undecided", "a panic may be recovered here")
		return one(st, IfaceV{})
	case "min", "max":
		out := one(st, args[0])
		for _, a := range args[1:] {
			var next []sv
			for _, o := range out {
				op := token.LEQ
				if name == "max" {
					op = token.GEQ
				}
				for _, r := range e.cmpInt(o.st, op, o.v, a, intInfo{64, false}) {
					if r.b {
						next = append(next, sv{r.st, o.v})
					} else {
						next = append(next, sv{r.st, a})
					}
				}
			}
			out = next
		}
		return out
	case "delete":
		if m, ok := args[0].(MapV); ok && m.obj != 0 {
			e.checkWrite(st, m.obj)
			st.mut(e, m.obj).mdefTop = true
		}
		return one(st, nil)
	case "ssa:wrapnilchk":
		if p, ok := args[0].(PtrV); ok && p.obj == 0 {
			e.event(st, "panic", "value method called through a nil pointer")
			return nil
		}
		return one(st, args[0])
	}
	e.event(st, "undecided", "builtin %s", name)
	if in != nil {
		return one(st, e.unknown(st, in.Type(), name))
	}
	return one(st, nil)
}

func (e *Engine) appendB(st *State, dst, src Val, c *ssa.CallCommon) []sv {
	if t, ok := staleOf(dst, src); ok {
		return one(st, t)
	}
	d, ok := dst.(SliceV)
	if !ok {
		return one(st, TopV{why: "append"})
	}
	elem := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	byteElem := isByteSlice(c.Args[0].Type())
	staleMem := false
	if d.obj != 0 {
		o := st.obj(e, d.obj)
		if o.ext || o.static || o.frozen || d.obj < dynBase {
			// in place when there is room
			if st.z.ub(d.max, d.hi) > 0 {
				e.checkWrite(st, d.obj)
			}
		}
		staleMem = o.stale
	}
	if byteElem {
		s := e.bytesOf(st, d)
		n := concatStr(st, s, e.anyBytes(st, src))
		r := e.newBytes(st, n, "append")
		o := st.heap[r.obj]
		o.stale = staleMem
		mx := st.freshSym()
		st.z.le(r.hi, mx, 0)
		r.max = mx
		return one(st, r)
	}
	// a list
	seq := &Seq{elem: elem}
	if d.obj != 0 {
		o := st.obj(e, d.obj)
		switch {
		case o.seq != nil && o.val == nil && st.z.isEq(d.lo, o.seq.start) && st.z.isEq(d.hi, o.seq.end):
			*seq = *o.seq
			seq.segs = append([]Seg(nil), o.seq.segs...)
		case st.z.isEq(d.lo, d.hi):
			seq.start, seq.end = con(0), con(0)
		default:
			if el, ok := e.sliceVals(st, d); ok {
				for i, x := range el {
					seq.segs = append(seq.segs, Seg{end: con(int64(i + 1)), v: x})
				}
				seq.end = con(int64(len(el)))
			} else {
				seq.start, seq.end = d.lo, d.hi
				seq.elemTop = true
			}
		}
	}
	switch s := src.(type) {
	case SliceV:
		if s.obj != 0 {
			if el, ok := e.sliceVals(st, s); ok {
				for _, x := range el {
					seq.end = seq.end.add(1)
					seq.segs = append(seq.segs, Seg{end: seq.end, v: x})
				}
			} else {
				end := st.freshSym()
				st.z.le(seq.end, end, 0)
				seq.end = end
				seq.elemTop = true
			}
		}
	default:
		end := st.freshSym()
		st.z.le(seq.end, end, 0)
		seq.end = end
		seq.elemTop = true
	}
	id := st.alloc(&Obj{typ: c.Args[0].Type(), seq: seq, site: "append", stale: staleMem})
	mx := st.freshSym()
	st.z.le(seq.end, mx, 0)
	return one(st, SliceV{id, seq.start, seq.end, mx})
}

func (e *Engine) copyB(st *State, dst, src Val) []sv {
	if t, ok := staleOf(dst, src); ok {
		e.event(st, "stale", "copy involves %s", valString(t))
		return one(st, t)
	}
	d, ok := dst.(SliceV)
	if !ok {
		e.event(st, "undecided", "copy into an unknown slice")
		return one(st, freshRange(st, 0, inf))
	}
	if d.obj == 0 {
		return one(st, IntV{l: con(0)})
	}
	e.checkWrite(st, d.obj)
	o := st.obj(e, d.obj)
	nd := e.lenOf(st, d)
	ns := e.lenOf(st, src)
	var out []sv
	for _, r := range e.cmpInt(st, token.LEQ, ns, nd, intInfo{64, false}) {
		st := r.st
		m := st.mut(e, d.obj)
		if o.seq == nil || o.val != nil || !o.seq.isBytes {
			if m.seq != nil && m.val == nil {
				m.seq.elemTop = true
			} else {
				m.val = TopV{why: "copied"}
			}
			n := nd
			if r.b {
				n = ns
			}
			out = append(out, sv{st, n})
			continue
		}
		s := e.anyBytes(st, src)
		if r.b {
			// dst = dst[:lo] + src + dst[lo+len(src):]
			mid, ok := e.coord(st, d.lo, ns)
			if !ok {
				m.seq.str = topStr(false)
			} else {
				t := concatStr(st, e.subStr(st, o.seq.str, o.seq.start, o.seq.end, o.seq.start, d.lo), s)
				t = concatStr(st, t, e.subStr(st, o.seq.str, o.seq.start, o.seq.end, mid, o.seq.end))
				m.seq.str = t
			}
			out = append(out, sv{st, ns})
		} else {
			m.seq.str = topStr(false)
			out = append(out, sv{st, nd})
		}
	}
	return out
}
