package main

import (
	"container/heap"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Event is something the analysis noticed on a path.
type Event struct {
	kind  string // panic, write-input, write-frozen, write-global, stale, undecided, exit
	msg   string
	pos   string
	fn    string
	trace *Trace
}

// Engine runs the abstract interpretation.
type Engine struct {
	prog   *ssa.Program
	fset   *token.FileSet
	repo   string
	inMod  func(fn *ssa.Function) bool
	static map[int]*Obj
	globs  map[*ssa.Global]int

	groups   map[string]*Group
	locs     map[string]int // groups at the heads of loops
	grow     map[*ssa.BasicBlock]bool
	asking   *asking
	subDepth int

	rankID    func(string) int
	rankNames *[]string
	shapes    map[string]*shape
	glist     []*Group
	events    []Event
	seenEv    map[string]bool

	types  typeutil.Map
	ntypes int
	fns    map[*ssa.Function]int
	info   map[*ssa.Function]*fnInfo

	// statistics
	steps, visits, obligations int
	funcs                      map[*ssa.Function]bool
	blocks                     map[*ssa.BasicBlock]bool
	edgesSeen                  int
	deadline                   time.Time
	overrun                    string

	initBad                         string
	initing                         bool
	noMerge                         bool
	hooks                           map[*ssa.Function]stdModel // functions of the module the analysis does not look into
	models                          map[string]stdModel        // models that go before the general ones
	fallback                        func(st *State, fn *ssa.Function, cc *callCtx) ([]sv, bool)
	hookReturn                      func(st *State, vals []Val)
	rank                            bool // look for loops that may not end
	rankNodes, rankEdges, rankComps int
	rankHow                         []string
	linear                          bool // look for more than linearly many rounds
	rankSeen                        map[string]bool
	cur                             *Group
	inputTop                        bool // bytes of the input are not tracked
	maxGroups                       int
	maxSeen                         int
	allGroups                       int
	dropDead                        bool // inputs outside the language are of no interest
	depthLimit                      int
}

type liveKey struct {
	v ssa.Value
	i int
}

type fnInfo struct {
	num    map[ssa.Value]int
	liveIn []map[ssa.Value]bool // at the start of each block (after its phis)
	cache  map[[2]int][]liveKey
}

func newEngine(prog *ssa.Program, inMod func(*ssa.Function) bool) *Engine {
	e := &Engine{prog: prog, fset: prog.Fset, inMod: inMod, static: map[int]*Obj{}, globs: map[*ssa.Global]int{},
		fns: map[*ssa.Function]int{}, info: map[*ssa.Function]*fnInfo{}, funcs: map[*ssa.Function]bool{}, blocks: map[*ssa.BasicBlock]bool{},
		maxGroups: 60000, depthLimit: 40}
	e.reset()
	return e
}

func (e *Engine) reset() {
	e.groups = map[string]*Group{}
	e.locs = map[string]int{}
	e.shapes = map[string]*shape{}
	e.glist = nil
	e.events = nil
	e.seenEv = map[string]bool{}
	e.overrun = ""
}

func (e *Engine) typeID(t types.Type) int {
	if x := e.types.At(t); x != nil {
		return x.(int)
	}
	e.ntypes++
	e.types.Set(t, e.ntypes)
	return e.ntypes
}

func (e *Engine) fnID(f *ssa.Function) int {
	if x, ok := e.fns[f]; ok {
		return x
	}
	e.fns[f] = len(e.fns) + 1
	return len(e.fns)
}

func (e *Engine) posOf(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := e.fset.Position(p)
	f := q.Filename
	if e.repo != "" {
		f = strings.TrimPrefix(f, e.repo+"/")
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (e *Engine) instrPos(st *State) (string, string) {
	// the innermost frame with a position inside the module
	for i := len(st.fr) - 1; i >= 0; i-- {
		f := st.fr[i]
		pc := f.pc
		if i < len(st.fr)-1 {
			pc--
		}
		fnm := f.fn.String()
		for k := pc; k >= 0 && k < len(f.blk.Instrs); k-- {
			if p := f.blk.Instrs[k].Pos(); p.IsValid() {
				return e.posOf(p), fnm
			}
		}
		if p := f.fn.Pos(); p.IsValid() {
			return e.posOf(p), fnm
		}
	}
	return "?", "?"
}

func (e *Engine) event(st *State, kind, format string, args ...interface{}) {
	pos, fn := "?", "?"
	if len(st.fr) > 0 {
		pos, fn = e.instrPos(st)
	}
	ev := Event{kind: kind, msg: fmt.Sprintf(format, args...), pos: pos, fn: fn, trace: st.trace}
	k := ev.kind + "|" + ev.pos + "|" + ev.msg
	if e.seenEv[k] {
		return
	}
	e.seenEv[k] = true
	e.events = append(e.events, ev)
}

// ---------------------------------------------------------------- liveness

func (e *Engine) fi(fn *ssa.Function) *fnInfo {
	if x, ok := e.info[fn]; ok {
		return x
	}
	fi := &fnInfo{num: map[ssa.Value]int{}, cache: map[[2]int][]liveKey{}}
	n := 0
	add := func(v ssa.Value) { fi.num[v] = n; n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.liveIn = make([]map[ssa.Value]bool, len(fn.Blocks))
	for i := range fi.liveIn {
		fi.liveIn[i] = map[ssa.Value]bool{}
	}
	local := func(v ssa.Value) bool { _, ok := fi.num[v]; return ok }
	var rands []*ssa.Value
	for changed := true; changed; {
		changed = false
		for bi := len(fn.Blocks) - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range fi.liveIn[s.Index] {
					live[v] = true
				}
				pi := predIndex(s, b)
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, phi)
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range s.Preds {
						if p == b && (k == pi || true) {
							if v := phi.Edges[k]; local(v) {
								live[v] = true
							}
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				rands = in.Operands(rands[:0])
				for _, r := range rands {
					if *r != nil && local(*r) {
						live[*r] = true
					}
				}
			}
			for v := range live {
				if !fi.liveIn[bi][v] {
					fi.liveIn[bi][v] = true
					changed = true
				}
			}
		}
	}
	e.info[fn] = fi
	return fi
}

func predIndex(s, b *ssa.BasicBlock) int {
	for i, p := range s.Preds {
		if p == b {
			return i
		}
	}
	return -1
}

// liveAt lists the variables of a frame that may still be used, in a fixed order.
func (e *Engine) liveAt(f *Frame, fr []*Frame, i int) []liveKey {
	fi := e.fi(f.fn)
	ck := [2]int{f.blk.Index, f.pc}
	if k, ok := fi.cache[ck]; ok {
		return k
	}
	live := map[ssa.Value]bool{}
	// from the end of the block back to pc
	for _, s := range f.blk.Succs {
		for v := range fi.liveIn[s.Index] {
			live[v] = true
		}
		for _, in := range s.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			delete(live, phi)
		}
		for _, in := range s.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for k, p := range s.Preds {
				if p == f.blk {
					live[phi.Edges[k]] = true
				}
			}
		}
	}
	var rands []*ssa.Value
	for k := len(f.blk.Instrs) - 1; k >= f.pc; k-- {
		in := f.blk.Instrs[k]
		if v, ok := in.(ssa.Value); ok {
			delete(live, v)
		}
		rands = in.Operands(rands[:0])
		for _, r := range rands {
			if *r != nil {
				live[*r] = true
			}
		}
	}
	var out []liveKey
	for v := range live {
		if n, ok := fi.num[v]; ok {
			out = append(out, liveKey{v, n})
		}
	}
	sort.Slice(out, func(a, b int) bool { return out[a].i < out[b].i })
	fi.cache[ck] = out
	return out
}

// ---------------------------------------------------------------- running

// Ret is a possible outcome of a call.
type Ret struct {
	st   *State
	vals []Val
}

// call analyses fn from the given states to a fixpoint and gives the possible outcomes.
// The outcomes' roots are those of the states given.
func (e *Engine) call(fn *ssa.Function, sts []*State, argsOf func(*State) []Val) []Ret {
	return e.callBind(fn, nil, sts, argsOf)
}

func (e *Engine) callBind(fn *ssa.Function, bind []Val, sts []*State, argsOf func(*State) []Val) []Ret {
	if h, ok := e.hooks[fn]; ok && bind == nil {
		var out []Ret
		for _, st := range sts {
			st = st.clone()
			for _, x := range h(e, st, &callCtx{name: fn.String(), args: argsOf(st), sig: fn.Signature}) {
				out = append(out, Ret{x.st, []Val{x.v}})
			}
		}
		return out
	}
	if len(fn.Blocks) == 0 {
		for _, st := range sts {
			e.event(st, "undecided", "no body for %s", fn)
		}
		return nil
	}
	saved, savedLocs := [3]interface{}{e.groups, e.shapes, e.glist}, e.locs
	e.locs = map[string]int{}
	e.groups, e.shapes, e.glist = map[string]*Group{}, map[string]*shape{}, nil
	defer func() {
		e.groups, e.shapes, e.glist = saved[0].(map[string]*Group), saved[1].(map[string]*shape), saved[2].([]*Group)
		e.locs = savedLocs
	}()
	queue := &groupHeap{}
	push := func(g *Group) {
		if g != nil && !g.queued && !g.isRet {
			g.queued = true
			heap.Push(queue, g)
		}
	}
	sink := func(st *State) {
		g := e.arrive(st, len(st.fr) == 0)
		push(g)
	}
	for _, st := range sts {
		st = st.clone()
		if len(st.fr) != 0 {
			panic("call on a running state")
		}
		args := argsOf(st)
		nroots := len(st.roots)
		_ = nroots
		f := &Frame{fn: fn, env: map[ssa.Value]Val{}, blk: fn.Blocks[0]}
		e.funcs[fn] = true
		for i, p := range fn.Params {
			f.env[p] = args[i]
		}
		for i, p := range fn.FreeVars {
			f.env[p] = bind[i]
		}
		st.fr = []*Frame{f}
		e.exec(st, sink)
	}
	for queue.Len() > 0 {
		g := heap.Pop(queue).(*Group)
		g.queued = false
		g.visits++
		e.visits++
		if len(e.glist) > e.maxGroups || (!e.deadline.IsZero() && time.Now().After(e.deadline)) || g.visits > 400 || e.visits&255 == 0 && lowMemory() {
			e.overrun = fmt.Sprintf("analysis of %s did not converge (groups=%d visits=%d)", fn, len(e.glist), g.visits)
			if len(sts) > 0 {
				st := e.inst(g)
				e.event(st, "undecided", "%s", e.overrun)
			}
			break
		}
		e.cur = g
		e.exec(e.inst(g), sink)
	}
	e.cur = nil
	if len(e.glist) > e.maxSeen {
		e.maxSeen = len(e.glist)
	}
	if os.Getenv("URN_DUMP") != "" {
		dumpGroups(e)
	}
	e.allGroups += len(e.glist)
	var out []Ret
	for _, g := range e.glist {
		if g.isRet {
			st := e.inst(g)
			t := st.roots[len(st.roots)-1].(TupleV)
			st.roots = st.roots[:len(st.roots)-1]
			out = append(out, Ret{st, t.e})
		}
	}
	if e.rank && e.overrun == "" {
		e.edgePass(fn)
	}
	return out
}

// lowMemory: has the analysis grown beyond what the machine can be expected to have?
func lowMemory() bool {
	memMu.Lock()
	defer memMu.Unlock()
	if time.Since(memAt) > 500*time.Millisecond {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		memAt, memLow = time.Now(), m.HeapAlloc > 10<<30
	}
	return memLow
}

var memMu sync.Mutex
var memAt time.Time
var memLow bool

// exec runs a state until every path reaches a merge point or returns.
func (e *Engine) exec(st *State, sink func(*State)) {
	work := []*State{st}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		n := 0
		for s != nil {
			n++
			if n > 2000000 {
				e.event(s, "undecided", "path too long")
				break
			}
			succ, merged := e.step(s)
			for _, x := range merged {
				sink(x)
			}
			if len(succ) == 0 {
				s = nil
				break
			}
			for _, x := range succ[1:] {
				work = append(work, x)
			}
			s = succ[0]
		}
	}
}

// step executes one instruction: cont are states to go on with, merged those at a merge point (or returned).
func (e *Engine) step(st *State) (cont, merged []*State) {
	e.steps++
	f := st.top()
	if f.pc == 0 && !e.blocks[f.blk] {
		e.blocks[f.blk] = true
	}
	in := f.blk.Instrs[f.pc]
	put := func(s *State, k int) {
		if e.goTo(s, k) {
			merged = append(merged, s)
		} else {
			cont = append(cont, s)
		}
	}
	switch in := in.(type) {
	case *ssa.Jump:
		put(st, 0)
		return
	case *ssa.If:
		c := e.get(st, f, in.Cond)
		if c, ok := c.(BoolV); ok {
			if c.b {
				put(st, 0)
			} else {
				put(st, 1)
			}
			return
		}
		if t, ok := c.(TopV); ok && t.stale {
			e.event(st, "stale", "a branch depends on %s", valString(c))
		}
		st2 := st.clone()
		put(st, 0)
		put(st2, 1)
		return
	case *ssa.Return:
		var vals []Val
		for _, r := range in.Results {
			vals = append(vals, e.get(st, f, r))
		}
		if e.ret(st, vals) {
			merged = append(merged, st)
		} else {
			cont = append(cont, st)
		}
		return
	case *ssa.Panic:
		e.event(st, "panic", "explicit panic reached")
		return
	case *ssa.Phi:
		panic("phi executed")
	}
	f.pc++
	return e.instr(st, f, in), nil
}

func (e *Engine) ret(st *State, vals []Val) bool {
	f := st.top()
	st.fr = st.fr[:len(st.fr)-1]
	if f.deferred {
		return false
	}
	if len(st.fr) == 0 {
		st.roots = append(st.roots, TupleV{vals})
		return true
	}
	f2 := st.top()
	if f2.retTo != nil {
		if len(vals) == 1 {
			f2.env[f2.retTo] = vals[0]
		} else {
			f2.env[f2.retTo] = TupleV{vals}
		}
		f2.retTo = nil
	}
	return false
}

// goTo moves to the k-th successor, evaluating its phis; it reports whether that is a merge point.
func (e *Engine) goTo(st *State, k int) bool {
	f := st.top()
	b := f.blk.Succs[k]
	pi := predIndex(b, f.blk)
	if k == 1 && f.blk.Succs[0] == b {
		for i, p := range b.Preds {
			if p == f.blk && i != pi {
				pi = i
				break
			}
		}
	}
	var phis []*ssa.Phi
	var vals []Val
	pc := 0
	for ; pc < len(b.Instrs); pc++ {
		phi, ok := b.Instrs[pc].(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, e.get(st, f, phi.Edges[pi]))
	}
	for i, p := range phis {
		f.env[p] = vals[i]
	}
	f.blk = b
	f.pc = pc
	if len(b.Preds) > 1 && !e.initing {
		return true
	}
	if len(f.env) > 48 {
		keep := map[ssa.Value]Val{}
		for _, lk := range e.liveAt(f, st.fr, len(st.fr)-1) {
			if v, ok := f.env[lk.v]; ok {
				keep[lk.v] = v
			}
		}
		f.env = keep
	}
	return false
}

// foldLists merges neighbouring list elements that need not be told apart.
func (e *Engine) foldLists(st *State) {
	for id, o := range st.heap {
		if o.seq == nil || o.seq.isBytes || len(o.seq.segs) == 0 {
			continue
		}
		segs := o.seq.segs
		var out []Seg
		seen, seenAbs := false, false
		for _, s := range segs {
			if !s.sum && !seenAbs && e.trackedAbs(st, s.v) {
				seenAbs = true
				s.v = IntV{l: st.g.X}
				out = append(out, s)
				continue
			}
			if !s.sum && !seen && e.tracked(st, s.v) {
				seen = true
				if b, ok := st.ssStart(); ok {
					s.v = RelV{st.g.X, b}
				}
				out = append(out, s)
				continue
			}
			if !s.sum && foldable(s.v) {
				s.sum = true
				s.v = st.rel(s.v)
			}
			if len(out) > 0 && out[len(out)-1].sum && s.sum && out[len(out)-1].old == s.old {
				if v, ok := e.foldVals(st, out[len(out)-1].v, s.v); ok {
					out[len(out)-1] = Seg{s.end, true, v, s.old}
					continue
				}
			}
			out = append(out, s)
		}
		if len(out) > 12 {
			out = []Seg{{segs[len(segs)-1].end, true, TopV{why: "list element"}, false}}
		}
		n := o.clone()
		n.seq.segs = out
		st.heap[id] = n
	}
}

func foldable(v Val) bool {
	switch v.(type) {
	case IntV, DiffV, RelV, TopV:
		return true
	}
	return false
}

// markOld tells the list elements there are from the ones to come, when the distinguished position is read.
func (st *State) markOld() {
	for id, o := range st.heap {
		if o.seq == nil || o.seq.isBytes || len(o.seq.segs) == 0 {
			continue
		}
		n := o.clone()
		n.seq.segs = append([]Seg(nil), n.seq.segs...)
		for i := range n.seq.segs {
			n.seq.segs[i].old = true
		}
		st.heap[id] = n
	}
}

// tracked: is this the list element that stands for the distinguished position?
func (e *Engine) tracked(st *State, v Val) bool {
	if !st.g.xon || !st.g.xpast || st.g.xclass != xHex {
		return false
	}
	switch v := v.(type) {
	case RelV:
		return e.tracked(st, DiffV{a: v.a, b: v.b})
	case DiffV:
		if b, ok := st.ssStart(); ok {
			if d, ok := st.z.diff(b, v.b); ok {
				return st.z.isEq(v.a.add(d), st.g.X)
			}
		}
	case IntV:
		b, ok := st.ssStart()
		if !ok || v.lit {
			return false
		}
		if d, ok := st.z.diff(st.g.X, b); ok && st.z.isEq(v.l, con(d)) {
			return true
		}
		d, ok := st.z.diff(st.g.X, v.l)
		return ok && st.z.isEq(b, con(d))
	}
	return false
}

// trackedAbs: is this the distinguished position itself?
func (e *Engine) trackedAbs(st *State, v Val) bool {
	if !st.g.xon || !st.g.xpast || st.g.xclass != xHex {
		return false
	}
	x, ok := v.(IntV)
	return ok && !x.lit && st.z.isEq(x.l, st.g.X)
}

func (e *Engine) foldVals(st *State, a, b Val) (Val, bool) {
	switch x := a.(type) {
	case TopV:
		return x, true
	case RelV:
		if y, ok := b.(RelV); ok && st.z.isEq(x.b, y.b) {
			return RelV{e.foldLin(st, x.a, y.a), x.b}, true
		}
		if y, ok := b.(RelV); ok {
			b = DiffV{a: y.a, b: y.b}
		}
		return e.foldVals(st, DiffV{a: x.a, b: x.b}, b)
	case DiffV:
		if y, ok := b.(DiffV); ok && st.z.isEq(x.b, y.b) {
			return DiffV{a: e.foldLin(st, x.a, y.a), b: x.b}, true
		}
		// different bases: keep an interval only
		if y, ok := asLin(st, b); ok {
			if z, ok2 := asLin(st, a); ok2 {
				return IntV{l: e.foldLin(st, z, y)}, true
			}
		}
	case IntV:
		if y, ok := b.(RelV); ok {
			b = DiffV{a: y.a, b: y.b}
		}
		if y, ok := b.(IntV); ok {
			return IntV{l: e.foldLin(st, x.l, y.l)}, true
		}
		if y, ok := asLin(st, b); ok {
			return IntV{l: e.foldLin(st, x.l, y)}, true
		}
	}
	return nil, false
}

// foldLin gives a symbol standing for both numbers.
func (e *Engine) foldLin(st *State, a, b Lin) Lin {
	if st.z.isEq(a, b) && !st.sum[a.s] && !st.sum[b.s] {
		return a
	}
	p := st.z.fresh()
	st.sum[p] = true
	z2 := st.z.clone()
	st.z.eq(Lin{p, 0}, a)
	z2.eq(Lin{p, 0}, b)
	st.z.join(z2)
	return Lin{p, 0}
}

// expandLin gives a copy of a summary symbol: same bounds, independent choice.
func (e *Engine) expandLin(st *State, a Lin) Lin {
	if a.isConst() || !st.sum[a.s] {
		return a
	}
	n := st.z.n
	p := st.z.fresh()
	for i := 0; i < n; i++ {
		if i == a.s {
			continue
		}
		st.z.d[p*st.z.n+i] = st.z.d[a.s*st.z.n+i]
		st.z.d[i*st.z.n+p] = st.z.d[i*st.z.n+a.s]
	}
	return Lin{p, a.o}
}

func (e *Engine) expand(st *State, v Val) Val {
	switch v := v.(type) {
	case IntV:
		return IntV{e.expandLin(st, v.l), v.lit}
	case DiffV:
		return DiffV{a: e.expandLin(st, v.a), b: v.b}
	case RelV:
		return simpDiff(e.expandLin(st, v.a), v.b)
	}
	return v
}

// rel expresses an offset as a position relative to the start of the specific string, where that is known.
func (st *State) rel(v Val) Val {
	b, ok := st.ssStart()
	if !ok {
		return v
	}
	switch v := v.(type) {
	case DiffV:
		if d, ok := st.z.diff(b, v.b); ok {
			return RelV{v.a.add(d), b}
		}
		return st.relBounds(b, st.z.lb(v.a, v.b), st.z.ub(v.a, v.b))
	case IntV:
		if v.l.isConst() && st.parsing() {
			if st.z.isLe(st.g.F, b.add(v.l.o), 0) {
				return v // not read yet: a position of the input and no offset
			}
			return RelV{b.add(v.l.o), b}
		}
		if b.isConst() {
			if st.z.isLe(st.g.F, v.l.add(b.o), 0) {
				return v
			}
			return RelV{v.l.add(b.o), b}
		}
		return v // not a position of the input: what bounds it stays known
	}
	return v
}

// parsing: is the parser at work, or what uses its outcome?
func (st *State) parsing() bool {
	for _, f := range st.fr {
		if f.fn.Name() == "Parse" {
			return true
		}
	}
	return false
}

// relBounds is an offset only known to be in [lo,hi].
func (st *State) relBounds(b Lin, lo, hi int64) Val {
	p := st.freshSym()
	if hi < inf {
		st.z.le(p, b, hi)
	}
	if lo > -inf {
		st.z.le(b, p, -lo)
	}
	return RelV{p, b}
}

func (st *State) ssStart() (Lin, bool) {
	if st.g.on && st.g.mode == MSS {
		return con(0), true
	}
	if st.g.on && st.g.mode == MSCIM {
		return con(int64(len("urn:ietf:params:scim:"))), true
	}
	return st.g.reg[rgNssS], st.g.on && st.g.has(rgNssS)
}

// asLin gives an integer value a position of the zone (making up a symbol for a difference).
func asLin(st *State, v Val) (Lin, bool) {
	switch v := v.(type) {
	case IntV:
		return v.l, true
	case DiffV:
		u, l := st.z.ub(v.a, v.b), st.z.lb(v.a, v.b)
		p := st.freshSym()
		if u < inf {
			st.z.le(p, con(0), u)
		}
		if l > -inf {
			st.z.le(con(0), p, -l)
		}
		// if b is known to be at least lb, p <= a - lb; at most ub, p >= a - ub
		if lb := st.z.lb(v.b, con(0)); lb > -inf {
			st.z.le(p, v.a, -lb)
		}
		if ub := st.z.ub(v.b, con(0)); ub < inf {
			st.z.le(v.a, p, ub)
		}
		return p, true
	case FnV:
		lo, hi := int64(inf), int64(-inf)
		set := st.cells[v.cell].set
		for b := 0; b < 256; b++ {
			if set.has(byte(b)) {
				if v.tab.v[b] < lo {
					lo = v.tab.v[b]
				}
				if v.tab.v[b] > hi {
					hi = v.tab.v[b]
				}
			}
		}
		if lo == hi {
			return con(lo), true
		}
		p := st.freshSym()
		st.z.le(p, con(0), hi)
		st.z.le(con(0), p, -lo)
		return p, true
	}
	return Lin{}, false
}

// groupHeap orders the groups to explore: those explored least first, then in order of discovery.
type groupHeap struct{ g []*Group }

func (h *groupHeap) Len() int { return len(h.g) }
func (h *groupHeap) Less(i, j int) bool {
	a, b := h.g[i], h.g[j]
	if a.visits != b.visits {
		return a.visits < b.visits
	}
	return a.id < b.id
}
func (h *groupHeap) Swap(i, j int)      { h.g[i], h.g[j] = h.g[j], h.g[i] }
func (h *groupHeap) Push(x interface{}) { h.g = append(h.g, x.(*Group)) }
func (h *groupHeap) Pop() interface{} {
	x := h.g[len(h.g)-1]
	h.g = h.g[:len(h.g)-1]
	return x
}
