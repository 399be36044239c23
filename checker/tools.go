package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C20: the code-generation tools never report success on a failed run.
//
// main of each tool is followed for every number of arguments, with every file operation either failing or
// succeeding; facts remember what was done to which file. What is written is traced back, over the value graph of the
// whole tool, to what was read.

const (
	tReadOK   = "read"
	tReadBad  = "failed read"
	tWrote    = "write"
	tTwice    = "second write"
	tWriteBad = "failed write"
	tEarly    = "write before a read"
	tElse     = "other file"
)

// fileOps: where the path and the data are among the arguments.
var readFuncs = map[string]bool{"os.ReadFile": true, "io/ioutil.ReadFile": true}
var writeFuncs = map[string]bool{"os.WriteFile": true, "io/ioutil.WriteFile": true}

// toolDirs are the modules under tools with a main package.
func toolDirs(repo string) []string {
	m, _ := filepath.Glob(filepath.Join(repo, "tools", "*", "go.mod"))
	var out []string
	for _, f := range m {
		out = append(out, filepath.Dir(f))
	}
	sort.Strings(out)
	return out
}

func (c *Ctx) tools() {
	names := map[string]bool{"removecomments": false, "snake2camel": false}
	for _, dir := range toolDirs(c.repo) {
		name := filepath.Base(dir)
		if _, ok := names[name]; !ok {
			continue
		}
		names[name] = true
		dir := dir
		c.guard(name, func() { c.tool(name, dir) })
	}
	for n, seen := range names {
		c.check("anchor", seen, "tools/"+n, "", "the tool %s is not there", n)
	}
}

func (c *Ctx) tool(name, dir string) {
	t := newToolRun(c, name, dir)
	t.derive()
	t.models()
	t.opaque()
	for n := 0; n <= 4; n++ {
		st := newState()
		t.args(st, n)
		for _, x := range t.a.e.call(t.main, []*State{st}, func(*State) []Val { return nil }) {
			t.exit(x.st, IntV{con(0), true}, t.main.String()+", on return")
		}
	}
	c.check("accepts-something", t.good > 0, "tools/"+name, "", "no outcome of main is a success")
	c.absorb(t.a, "tools/"+name)
}

func newToolRun(c *Ctx, name, dir string) *toolRun {
	r, err := loadModule(dir, nil)
	if err != nil {
		panic(missing{"source of tools/" + name + ": " + err.Error()})
	}
	c.mu.Lock()
	c.files += r.nfiles
	c.mu.Unlock()
	var main *ssa.Function
	for _, p := range r.pkgs {
		if p.Pkg.Name() == "main" {
			main = p.Func("main")
		}
	}
	if main == nil {
		panic(missing{"main of tools/" + name})
	}
	e := newRepoEngine(r)
	e.repo, _ = filepath.Abs(c.repo)
	t := &toolRun{c: c, a: &API{r: r, e: e}, r: r, name: name, main: main}
	t.inits()
	return t
}

type toolRun struct {
	c       *Ctx
	a       *API
	r       *Repo
	name    string
	derived map[ssa.Value]int
	good    int
	main    *ssa.Function
	silent  bool // how the process ends is not looked at
}

// args sets os.Args: n of them, or for n = 4 any number above 3.
func (t *toolRun) args(st *State, n int) {
	var g *ssa.Global
	for _, p := range t.r.prog.AllPackages() {
		if p.Pkg.Path() == "os" {
			g, _ = p.Members["Args"].(*ssa.Global)
		}
	}
	if g == nil {
		panic(missing{"os.Args"})
	}
	id := t.a.e.globalObj(g)
	str := types.Typ[types.String]
	var v Val
	if n < 4 {
		vals := make([]Val, n)
		for i := range vals {
			vals[i] = t.a.anyText(st, 500+i)
		}
		v = SliceV{}
		if n > 0 {
			o := st.alloc(&Obj{typ: types.NewArray(str, int64(n)), val: ArrV{vals}, site: "os.Args"})
			v = SliceV{o, con(0), con(int64(n)), con(int64(n))}
		}
	} else {
		hi, mx := st.freshSym(), st.freshSym()
		st.z.le(con(0), hi, -4)
		st.z.le(hi, mx, 0)
		o := st.alloc(&Obj{typ: types.NewSlice(str), site: "os.Args", seq: &Seq{start: con(0), end: hi, elem: str, elemTop: true}})
		v = SliceV{o, con(0), hi, mx}
	}
	st.heap[id] = &Obj{typ: g.Type().(*types.Pointer).Elem(), static: true, site: g.String(), val: v}
	st.facts[fmt.Sprintf("args:%d", n)] = true
}

// exit judges a state in which the process ends with a status.
func (t *toolRun) exit(st *State, code Val, at string) {
	c := t.c
	if t.silent {
		return
	}
	c.mu.Lock()
	c.outcomes++
	c.mu.Unlock()
	lo, hi := bounds(st, code)
	var done []string
	for _, k := range []string{"args:0", "args:1", "args:2", "args:3", "args:4", tReadOK, tReadBad, tEarly, tWrote, tTwice, tWriteBad, tElse} {
		if st.facts[k] {
			done = append(done, k)
		}
	}
	what := strings.Join(done, ", ")
	c.sample("tools/%s: exit status %d..%d after %s", t.name, lo, hi, what)
	// the status is taken modulo 256
	if lo == hi && lo&255 != 0 || lo > 0 && hi < 256 {
		c.check("status", true, at, "", "")
		return
	}
	ok := true
	say := func(good bool, format string, args ...interface{}) {
		ok = c.check("status", good, at, "", "tools/%s: exit status 0 is possible %s (%s)", t.name, fmt.Sprintf(format, args...), what) && ok
	}
	say(st.facts["args:2"], "with another number of arguments than one")
	say(st.facts[tReadOK], "without a successful read")
	say(!st.facts[tReadBad], "after a failed read")
	say(st.facts[tWrote], "without a write")
	say(!st.facts[tWriteBad], "after a failed write")
	say(!st.facts[tElse], "although another file than the argument was used")
	if ok {
		t.good++
	}
}

// isArg: is the path the one argument?
func (t *toolRun) isArg(st *State, v Val) bool {
	s, ok := v.(StrV)
	return ok && len(s.a) == 1 && s.a[0].k == aSym && s.a[0].id == 501 && st.facts["args:2"]
}

// site is the call instruction a model stands for.
func site(st *State) *ssa.Call {
	f := st.top()
	if f.pc > 0 && f.pc <= len(f.blk.Instrs) {
		if c, ok := f.blk.Instrs[f.pc-1].(*ssa.Call); ok {
			return c
		}
	}
	return nil
}

func (t *toolRun) models() {
	c, e := t.c, t.a.e
	m := map[string]stdModel{}
	at := func(st *State) string {
		pos, fn := e.instrPos(st)
		return fn + " (" + pos + ")"
	}
	for n := range readFuncs {
		m[n] = func(e *Engine, st *State, cc *callCtx) []sv {
			if !t.isArg(st, cc.args[0]) {
				st.facts[tElse] = true
			}
			bad := st.clone()
			st.facts[tReadOK] = true
			bad.facts[tReadBad] = true
			return append(one(st, TupleV{[]Val{e.unknown(st, cc.sig.Results().At(0).Type(), "file content"), IfaceV{}}}),
				sv{bad, TupleV{[]Val{SliceV{}, mkErr("read", nil)}}})
		}
	}
	for n := range writeFuncs {
		m[n] = func(e *Engine, st *State, cc *callCtx) []sv {
			where := at(st)
			c.check("once", !st.facts[tWrote], where, "", "tools/%s: writes a second time", t.name)
			c.check("after-read", st.facts[tReadOK], where, "", "tools/%s: writes without a successful read before", t.name)
			same := t.isArg(st, cc.args[0]) && !st.facts[tElse]
			c.check("same-file", same, where, "", "tools/%s: writes to %s, which is not the file it read", t.name, valString(cc.args[0]))
			if !t.isArg(st, cc.args[0]) {
				st.facts[tElse] = true
			}
			in := site(st)
			good := in != nil && in.Call.StaticCallee() != nil && writeFuncs[in.Call.StaticCallee().String()] && t.of(in.Call.Args[1]) == isDerived
			c.check("derived", good, where, "", "tools/%s: what is written is not derived from what was read", t.name)
			if st.facts[tWrote] {
				st.facts[tTwice] = true
			}
			st.facts[tWrote] = true
			bad := st.clone()
			bad.facts[tWriteBad] = true
			return append(one(st, IfaceV{}), sv{bad, mkErr("write", nil)})
		}
	}
	end := func(code func(cc *callCtx) Val) stdModel {
		return func(e *Engine, st *State, cc *callCtx) []sv {
			t.exit(st, code(cc), at(st))
			return nil
		}
	}
	m["os.Exit"] = end(func(cc *callCtx) Val { return cc.args[0] })
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln"} {
		m[n] = end(func(cc *callCtx) Val { return IntV{con(1), true} })
	}
	e.models = m
	e.fallback = func(st *State, fn *ssa.Function, cc *callCtx) ([]sv, bool) {
		if !t.harmless(fn, cc.args) {
			return nil, false
		}
		return t.anyResult(st, cc), true
	}
}

// anyResult gives unknown results; an error is there or not.
func (t *toolRun) anyResult(st *State, cc *callCtx) []sv {
	type part struct {
		st *State
		v  []Val
	}
	cur := []part{{st: st}}
	res := cc.sig.Results()
	for i := 0; i < res.Len(); i++ {
		var next []part
		for _, p := range cur {
			if !types.Identical(res.At(i).Type(), errType) {
				next = append(next, part{p.st, append(p.v[:i:i], t.a.e.unknown(p.st, res.At(i).Type(), "result of "+cc.name))})
				continue
			}
			next = append(next, part{p.st.clone(), append(p.v[:i:i], mkErr("call", nil))}, part{p.st, append(p.v[:i:i], IfaceV{})})
		}
		cur = next
	}
	var out []sv
	for _, p := range cur {
		switch len(p.v) {
		case 0:
			out = append(out, sv{p.st, nil})
		case 1:
			out = append(out, sv{p.st, p.v[0]})
		default:
			out = append(out, sv{p.st, TupleV{p.v}})
		}
	}
	return out
}

// printers: functions that only print to where they are told.
var printers = map[string]bool{"fmt.Fprint": true, "fmt.Fprintf": true, "fmt.Fprintln": true, "io.WriteString": true}
var quiet = map[string]bool{"fmt.Print": true, "fmt.Printf": true, "fmt.Println": true, "log.Print": true, "log.Printf": true, "log.Println": true,
	"log.SetFlags": true, "log.SetPrefix": true, "os.Stat": true, "os.Lstat": true, "os.IsNotExist": true, "os.IsExist": true, "os.IsPermission": true,
	"errors.Is": true, "errors.Unwrap": true, "errors.Join": true, "fmt.Sprint": true, "fmt.Sprintln": true,
	"path/filepath.Clean": true, "path/filepath.Base": true, "path/filepath.Ext": true, "path/filepath.Abs": true, "path/filepath.Dir": true}

// harmless: a library function that neither touches files nor ends the process, and leaves what it is given alone.
func (t *toolRun) harmless(fn *ssa.Function, args []Val) bool {
	name, pkg := fn.String(), ""
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	if quiet[name] {
		return true
	}
	if printers[name] {
		s := fmt.Sprint(valString(args[0]))
		return strings.Contains(s, "os.Stderr") || strings.Contains(s, "os.Stdout")
	}
	if name == "(*os.File).WriteString" || name == "(*os.File).Write" {
		s := valString(args[0])
		return strings.Contains(s, "os.Stderr") || strings.Contains(s, "os.Stdout")
	}
	if strings.HasPrefix(name, "(*regexp.Regexp).") && name != "(*regexp.Regexp).Longest" || pkg == "regexp" && fn.Signature.Recv() == nil || pkg == "strings" || pkg == "bytes" || pkg == "strconv" {
		for _, x := range args {
			switch x := x.(type) {
			case FuncV:
				if x.fn == nil || !t.pure(x.fn, nil) {
					return false
				}
			case PtrV:
				if o := x.obj; o != 0 && !strings.HasPrefix(name, "(*regexp") {
					return false // changes what it points to
				}
			case IfaceV:
				if x.t != nil {
					return false
				}
			}
		}
		if n := fn.Name(); strings.HasPrefix(n, "Append") || strings.HasPrefix(n, "Expand") {
			return false
		}
		return true
	}
	return false
}

// pure: may a function of the tool be called, any number of times, without an effect on anything but its own memory?
func (t *toolRun) pure(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen == nil {
		seen = map[*ssa.Function]bool{}
	}
	if seen[fn] {
		return true
	}
	seen[fn] = true
	if !t.r.inMod(fn) {
		if _, ok := stdModels[fn.String()]; ok && fn.Signature.Recv() == nil {
			return true
		}
		return t.harmless(fn, nil) && !printers[fn.String()] && !quiet[fn.String()]
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if !localAddr(in.Addr) {
					return false
				}
			case *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Select:
				return false
			case *ssa.Call:
				if _, ok := in.Call.Value.(*ssa.Builtin); ok {
					continue
				}
				f := in.Call.StaticCallee()
				if f == nil {
					if in.Call.IsInvoke() || !t.pureTaken(in.Call.Signature(), seen) {
						return false
					}
					continue
				}
				if !t.pure(f, seen) {
					return false
				}
			}
		}
	}
	return true
}

// pureTaken: are all functions of a signature that are used as values pure?
func (t *toolRun) pureTaken(sig *types.Signature, seen map[*ssa.Function]bool) bool {
	for fn := range t.r.allFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					f, ok := (*op).(*ssa.Function)
					if !ok || !types.Identical(f.Signature, sig) {
						continue
					}
					if c, isCall := in.(ssa.CallInstruction); isCall && op == &c.Common().Value {
						continue
					}
					if !t.pure(f, seen) {
						return false
					}
				}
			}
		}
	}
	return true
}

// opaque: functions that compute a text in a loop are not looked into.
func (t *toolRun) opaque() {
	text := func(tt types.Type) bool { return isString(tt) || isByteSlice(tt) }
	for fn := range t.r.allFuncs() {
		takes, gives := false, false
		for _, p := range fn.Params {
			takes = takes || text(p.Type())
		}
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			gives = gives || text(fn.Signature.Results().At(i).Type())
		}
		if !takes || !gives || fn.Parent() != nil || !t.pure(fn, nil) || !t.loops(fn, map[*ssa.Function]bool{}) {
			continue
		}
		if t.a.e.hooks == nil {
			t.a.e.hooks = map[*ssa.Function]stdModel{}
		}
		t.c.note("tools/%s: %s has no effects; its result is any text", t.name, fn.Name())
		t.a.e.hooks[fn] = func(e *Engine, st *State, cc *callCtx) []sv { return t.anyResult(st, cc) }
	}
}

// loops: may a function run a loop (or itself)?
func (t *toolRun) loops(fn *ssa.Function, path map[*ssa.Function]bool) bool {
	if path[fn] {
		return true
	}
	path[fn] = true
	defer delete(path, fn)
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && t.r.inMod(f) && t.loops(f, path) {
					return true
				}
			}
		}
	}
	return false
}

func localAddr(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return localAddr(v.X)
	case *ssa.IndexAddr:
		return localAddr(v.X)
	case *ssa.MakeSlice:
		return true
	}
	return false
}

// inits: initialisers do nothing but compute values.
func (t *toolRun) inits() {
	for fn := range t.r.allFuncs() {
		if fn.Name() != "init" && !strings.HasPrefix(fn.Name(), "init#") || fn.Parent() != nil || fn.Signature.Recv() != nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := call.Common().StaticCallee()
				if _, isB := call.Common().Value.(*ssa.Builtin); isB {
					continue
				}
				good := false
				if _, plain := in.(*ssa.Call); plain && f != nil {
					good = f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") && t.r.inMod(f) || t.pure(f, nil)
				}
				t.c.check("initialiser", good, fn.String(), "", "tools/%s: an initialiser calls %s", t.name, call.Common().Value)
			}
		}
	}
}

const (
	unseen = iota
	isEmpty
	isForeign
	isDerived
)

func (t *toolRun) of(v ssa.Value) int {
	if x, ok := t.derived[v]; ok {
		return x
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.IsNil() || v.Value == nil || v.Value.ExactString() == `""` {
			return isEmpty
		}
		return isForeign
	case *ssa.Function, *ssa.Builtin, *ssa.Global:
		return isForeign
	}
	return unseen
}

// derive traces what was read through the values of the tool: a value is derived when something it is computed from
// is, and none of the values it may alternatively be is foreign.
func (t *toolRun) derive() {
	t.derived = map[ssa.Value]int{}
	var order []*ssa.Function
	for fn := range t.r.allFuncs() {
		order = append(order, fn)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].String() < order[j].String() })
	calls := map[*ssa.Function][]*ssa.CallCommon{}
	makes := map[*ssa.Function][]*ssa.MakeClosure{}
	cells := map[ssa.Value]int{} // what memory holds, by the allocation
	for _, fn := range order {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil {
						calls[f] = append(calls[f], c.Common())
					}
				}
				if m, ok := in.(*ssa.MakeClosure); ok {
					makes[m.Fn.(*ssa.Function)] = append(makes[m.Fn.(*ssa.Function)], m)
				}
			}
		}
	}
	alt := func(xs ...int) int { // one of them
		r := unseen
		for _, x := range xs {
			switch {
			case x == isForeign || r == isForeign:
				r = isForeign
			case x > r:
				r = x
			}
		}
		return r
	}
	mix := func(xs ...int) int { // made of all of them
		r := unseen
		for _, x := range xs {
			if x > r {
				r = x
			}
		}
		return r
	}
	var base func(v ssa.Value) ssa.Value
	base = func(v ssa.Value) ssa.Value {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			return base(x.X)
		case *ssa.IndexAddr:
			return base(x.X)
		case *ssa.FreeVar:
			for _, m := range makes[x.Parent()] {
				for i, fv := range x.Parent().FreeVars {
					if fv == x {
						return base(m.Bindings[i])
					}
				}
			}
		}
		return v
	}
	results := func(f *ssa.Function, i int) []int {
		var rs []int
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(ret.Results) {
				rs = append(rs, t.of(ret.Results[i]))
			}
		}
		return rs
	}
	for changed := true; changed; {
		changed = false
		set := func(v ssa.Value, x int) {
			if t.derived[v] != x && x != unseen {
				t.derived[v] = x
				changed = true
			}
		}
		put := func(addr ssa.Value, x int) {
			b := base(addr)
			if y := mix(cells[b], x); y != cells[b] {
				cells[b] = y
				changed = true
			}
		}
		for _, fn := range order {
			for _, p := range fn.Params {
				var xs []int
				for _, c := range calls[fn] {
					for i, q := range fn.Params {
						if q == p && i < len(c.Args) {
							xs = append(xs, t.of(c.Args[i]))
						}
					}
				}
				set(p, alt(xs...))
			}
			for i, p := range fn.FreeVars {
				var xs []int
				for _, m := range makes[fn] {
					xs = append(xs, t.of(m.Bindings[i]))
				}
				set(p, alt(xs...))
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Phi:
						var xs []int
						for _, e := range in.Edges {
							xs = append(xs, t.of(e))
						}
						set(in, alt(xs...))
					case *ssa.Store:
						put(in.Addr, t.of(in.Val))
					case *ssa.MapUpdate:
						put(in.Map, t.of(in.Value))
					case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
						v := in.(ssa.Value)
						set(v, mix(isEmpty, cells[v]))
					case *ssa.Call:
						var xs []int
						for _, x := range in.Call.Args {
							xs = append(xs, t.of(x))
						}
						f := in.Call.StaticCallee()
						switch {
						case f != nil && readFuncs[f.String()]:
							set(in, isDerived)
						case f != nil && t.r.inMod(f) && len(f.Blocks) > 0:
							set(in, alt(results(f, 0)...))
						default:
							x := mix(xs...)
							if len(in.Call.Args) > 0 && x == isDerived {
								// it may be written into what an argument points to
								for _, y := range in.Call.Args {
									if _, ok := y.Type().Underlying().(*types.Pointer); ok {
										put(y, isDerived)
									}
									if _, ok := y.Type().Underlying().(*types.Slice); ok {
										put(y, isDerived)
									}
								}
							}
							set(in, x)
						}
					case *ssa.Extract:
						if call, ok := in.Tuple.(*ssa.Call); ok {
							if f := call.Call.StaticCallee(); f != nil && t.r.inMod(f) && len(f.Blocks) > 0 {
								set(in, alt(results(f, in.Index)...))
								continue
							}
						}
						set(in, t.of(in.Tuple))
					default:
						v, ok := in.(ssa.Value)
						if !ok {
							continue
						}
						var xs []int
						for _, op := range in.Operands(nil) {
							if *op != nil {
								x := t.of(*op)
								if _, num := intType((*op).Type()); num && x == isForeign {
									x = unseen // an index or a bound
								}
								xs = append(xs, x)
								xs = append(xs, cells[base(*op)])
							}
						}
						set(v, mix(xs...))
					}
				}
			}
		}
	}
	if os.Getenv("URN_DUMP") != "" {
		for v, x := range t.derived {
			fmt.Fprintln(os.Stderr, x, v.Parent(), v.Name(), v)
		}
	}
}
