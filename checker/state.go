package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	pos  ssa.Instruction
}

// Frame is an activation of a function.
type Frame struct {
	fn       *ssa.Function
	env      map[ssa.Value]Val
	blk      *ssa.BasicBlock
	pc       int
	retTo    ssa.Value // where the caller keeps the result (nil: dropped)
	defers   []deferred
	inDef    bool // running deferred calls
	deferred bool // this activation is a deferred call
}

type ringEnt struct {
	pos  Lin
	cell int
}

// Ghost is the specification side of the product.
type Ghost struct {
	on     bool
	mode   Mode
	s      SpecState
	F, N   Lin // furthest byte read (exclusive) and length of the input
	reg    [nReg]Lin
	def    uint32
	ring   []ringEnt // bytes still known: recently read ones and peeked ones
	konst  []ByteSet // what is known of the bytes at constant positions
	rest   ByteSet   // bytes that can still come (specific strings alone)
	old    ByteSet   // bytes that were read and are no longer in the ring (specific strings alone)
	xon    bool
	xpast  bool
	X      Lin
	xcell  int
	xclass int
}

func (g *Ghost) has(r int) bool { return g.def&(1<<r) != 0 }

// Trace records how a state came about, for reports.
type Trace struct {
	prev *Trace
	set  ByteSet
	note string
	at   token.Pos // where the program read the byte
}

// State is an abstract state of the analysed program and of the specification.
type State struct {
	z     *DBM
	fr    []*Frame
	heap  map[int]*Obj
	next  int
	cells map[int]*Cell
	ncell int
	g     Ghost
	facts map[string]bool
	trace *Trace
	roots []Val
	log   []string     // effect trace (tools)
	cost  string       // work on a whole text since the group was entered (ranking pass)
	slack []Lin        // extra tracked numbers (ranking pass)
	sum   map[int]bool // symbols that stand for many numbers (list elements)
}

const dynBase = 1000000

func newState() *State {
	return &State{z: newDBM(), heap: map[int]*Obj{}, next: dynBase, cells: map[int]*Cell{}, ncell: 1, facts: map[string]bool{}, sum: map[int]bool{}}
}

func (st *State) clone() *State {
	n := *st
	n.z = st.z.clone()
	n.fr = make([]*Frame, len(st.fr))
	for i, f := range st.fr {
		g := *f
		g.env = make(map[ssa.Value]Val, len(f.env)+8)
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]deferred(nil), f.defers...)
		n.fr[i] = &g
	}
	n.heap = make(map[int]*Obj, len(st.heap)+4)
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.cells = make(map[int]*Cell, len(st.cells)+4)
	for k, v := range st.cells {
		n.cells[k] = v
	}
	n.g.ring = append([]ringEnt(nil), st.g.ring...)
	n.g.konst = append([]ByteSet(nil), st.g.konst...)
	n.facts = make(map[string]bool, len(st.facts))
	for k, v := range st.facts {
		n.facts[k] = v
	}
	n.roots = append([]Val(nil), st.roots...)
	n.log = append([]string(nil), st.log...)
	n.slack = append([]Lin(nil), st.slack...)
	n.sum = make(map[int]bool, len(st.sum))
	for k := range st.sum {
		n.sum[k] = true
	}
	return &n
}

func (st *State) top() *Frame { return st.fr[len(st.fr)-1] }

func (st *State) obj(e *Engine, id int) *Obj {
	if o, ok := st.heap[id]; ok {
		return o
	}
	return e.static[id]
}

// mut gives a private copy of an object to write to.
func (st *State) mut(e *Engine, id int) *Obj {
	o := st.obj(e, id).clone()
	o.static = false
	st.heap[id] = o
	return o
}

func (st *State) alloc(o *Obj) int {
	st.next++
	st.heap[st.next] = o
	return st.next
}

func (st *State) freshSym() Lin { return Lin{st.z.fresh(), 0} }

func (st *State) newCell(pos Lin, set ByteSet) int {
	st.ncell++
	st.cells[st.ncell] = &Cell{pos, set}
	return st.ncell
}

func (st *State) setCell(id int, set ByteSet) {
	c := *st.cells[id]
	c.set = set
	st.cells[id] = &c
}

// walker visits every number, object and cell of a state in a fixed order, rebuilding it; with emit it also
// spells the shape into a key.
type walker struct {
	e      *Engine
	st     *State
	emit   bool
	buf    []byte
	lin    func(l Lin, cls byte) Lin
	obj    map[int]int
	order  []int
	cell   map[int]int
	corder []int
	label  []string // path of labels, for the ranking pass
	lab    bool
	objLab map[int]string
	inSum  int
}

func (w *walker) s(x string) {
	if w.emit {
		w.buf = append(w.buf, x...)
	}
}
func (w *walker) i(x int) {
	if w.emit {
		w.buf = strconv.AppendInt(w.buf, int64(x), 10)
		w.buf = append(w.buf, ',')
	}
}

func (w *walker) push(l string) {
	if w.lab {
		w.label = append(w.label, l)
	}
}
func (w *walker) pop() {
	if w.lab {
		w.label = w.label[:len(w.label)-1]
	}
}

func (w *walker) objID(id int) int {
	if id == 0 {
		return 0
	}
	if _, ok := w.st.heap[id]; !ok {
		w.s("G")
		w.i(id)
		return id // static
	}
	n, ok := w.obj[id]
	if !ok {
		if id < dynBase {
			n = id
		} else {
			n = dynBase + 1 + len(w.order)
		}
		w.obj[id] = n
		w.order = append(w.order, id)
		if w.lab {
			w.objLab[id] = strings.Join(w.label, "")
		}
	}
	w.i(n)
	return n
}

func (w *walker) cellID(id int) int {
	n, ok := w.cell[id]
	if !ok {
		n = len(w.corder) + 1
		w.cell[id] = n
		w.corder = append(w.corder, id)
	}
	w.i(n)
	return n
}

func (w *walker) val(v Val) Val {
	switch v := v.(type) {
	case nil:
		w.s("_")
		return nil
	case IntV:
		w.s("i")
		c := byte('p')
		if v.l.isConst() && v.lit {
			c = 'l'
		}
		n := w.lin(v.l, c)
		return IntV{n, v.lit}
	case DiffV:
		w.s("d")
		if v.keep {
			w.s("k")
		}
		w.push("+")
		a := w.lin(v.a, 'g')
		w.pop()
		w.push("-")
		b := w.lin(v.b, 'g')
		w.pop()
		if v.keep {
			return DiffV{a, b, true}
		}
		return simpDiff(a, b)
	case RelV:
		w.s("r")
		w.push("+")
		a := w.lin(v.a, 'g')
		w.pop()
		w.push("-")
		b := w.lin(v.b, 'g')
		w.pop()
		return RelV{a, b}
	case FnV:
		w.s("f")
		w.i(v.tab.id)
		return FnV{w.cellID(v.cell), v.tab}
	case BoolV:
		if v.b {
			w.s("T")
		} else {
			w.s("F")
		}
		return v
	case StrV:
		w.s("s")
		return StrV{w.atoms(v.a)}
	case PtrV:
		w.s("*")
		n := w.objID(v.obj)
		w.s(v.path)
		w.s(";")
		return PtrV{n, v.path}
	case ElemV:
		w.s("e")
		n := w.objID(v.obj)
		w.s(v.path)
		w.s(";")
		return ElemV{n, v.path, w.val(v.idx)}
	case SliceV:
		w.s("S")
		w.push("[")
		n := w.objID(v.obj)
		w.pop()
		if v.obj == 0 {
			return v
		}
		w.push("lo")
		lo := w.lin(v.lo, 'g')
		w.pop()
		w.push("hi")
		hi := w.lin(v.hi, 'g')
		w.pop()
		w.push("cap")
		mx := w.lin(v.max, 'g')
		w.pop()
		return SliceV{n, lo, hi, mx}
	case StructV:
		w.s("{")
		f := make([]Val, len(v.f))
		for i, x := range v.f {
			if w.lab {
				w.push("." + strconv.Itoa(i))
			}
			f[i] = w.val(x)
			w.pop()
		}
		w.s("}")
		return StructV{f}
	case ArrV:
		w.s("a")
		w.i(len(v.e))
		f := make([]Val, len(v.e))
		for i, x := range v.e {
			if w.lab {
				w.push("." + strconv.Itoa(i))
			}
			f[i] = w.val(x)
			w.pop()
		}
		return ArrV{f}
	case TupleV:
		w.s("(")
		f := make([]Val, len(v.e))
		for i, x := range v.e {
			if w.lab {
				w.push("." + strconv.Itoa(i))
			}
			f[i] = w.val(x)
			w.pop()
		}
		w.s(")")
		return TupleV{f}
	case IfaceV:
		w.s("I")
		if v.t == nil {
			w.s("nil")
			return v
		}
		w.i(w.e.typeID(v.t))
		return IfaceV{v.t, w.val(v.v)}
	case FuncV:
		w.s("c")
		if v.fn == nil {
			w.s("nil")
			return v
		}
		w.i(w.e.fnID(v.fn))
		var b []Val
		for _, x := range v.bind {
			b = append(b, w.val(x))
		}
		return FuncV{v.fn, b}
	case MapV:
		w.s("M")
		return MapV{w.objID(v.obj)}
	case BuilderV:
		w.s("B")
		return BuilderV{StrV{w.atoms(v.s.a)}}
	case ErrV:
		w.s("E")
		w.s(v.kind)
		if v.text != nil {
			t := StrV{w.atoms(v.text.a)}
			return ErrV{v.kind, &t}
		}
		return v
	case JSONV:
		w.s("J")
		return JSONV{w.val(v.v)}
	case IterV:
		w.s("R")
		a := w.atoms(v.s.a)
		return IterV{StrV{a}, w.lin(v.pos, 'g'), w.val(v.m)}
	case TopV:
		w.s("?")
		if v.stale {
			w.s("!")
		}
		return v
	}
	panic(fmt.Sprintf("walk %T", v))
}

func (w *walker) atoms(a []Atom) []Atom {
	a = w.st.settle(a)
	out := make([]Atom, len(a))
	w.i(len(a))
	for i, x := range a {
		w.s("A")
		w.i(int(x.k))
		if w.lab {
			w.push("@" + strconv.Itoa(i))
		}
		switch x.k {
		case aConst:
			w.i(len(x.s))
			w.s(x.s)
		case aRegion:
			x.from = w.lin(x.from, 'g')
			w.push("to")
			x.to = w.lin(x.to, 'g')
			w.pop()
			if x.lower {
				w.s("l")
			}
			if x.dirty {
				w.s("d")
			}
			x.x = w.val(x.x)
			x.v = w.val(x.v)
		case aSym:
			w.i(x.id)
			if x.lower {
				w.s("l")
			}
			if x.sized {
				w.s("n")
				if w.emit {
					switch {
					case w.st.z.isLe(con(1), x.to, 0):
						w.s("+")
					case w.st.z.isLe(x.to, con(0), 0):
						w.s("0")
					}
				}
				w.push("len")
				x.to = w.lin(x.to, 'g')
				w.pop()
			}
		case aZero:
			x.from = w.lin(x.from, 'g')
			w.push("to")
			x.to = w.lin(x.to, 'g')
			w.pop()
		case aInt:
			if iv, ok := x.v.(IntV); ok {
				w.s("i")
				x.v = IntV{l: w.lin(iv.l, 'g')}
			} else {
				x.v = w.val(x.v)
			}
		case aByte, aFmt:
			x.v = w.val(x.v)
		case aTop:
			if x.stale {
				w.s("!")
			}
			if x.lower {
				w.s("a")
			}
			if x.sized {
				w.s("n")
				w.push("len")
				x.to = w.lin(x.to, 'g')
				w.pop()
			}
		}
		w.pop()
		out[i] = x
	}
	return out
}

// state rebuilds the whole state; live filters the frames' variables.
func (w *walker) state(live bool) *State {
	st := w.st
	n := &State{z: nil, heap: map[int]*Obj{}, cells: map[int]*Cell{}, facts: st.facts, trace: st.trace, log: st.log}
	w.obj = map[int]int{}
	w.cell = map[int]int{}
	w.objLab = map[int]string{}
	// ghost first
	g := st.g
	w.s("g")
	if g.on {
		w.i(int(g.mode))
		w.s(g.s.String())
		w.i(int(g.def))
		w.push("F")
		g.F = w.lin(g.F, 'g')
		w.pop()
		w.push("N")
		g.N = w.lin(g.N, 'g')
		w.pop()
		for r := 0; r < nReg; r++ {
			if g.has(r) {
				w.push("reg" + strconv.Itoa(r))
				g.reg[r] = w.lin(g.reg[r], 'g')
				w.pop()
			} else {
				g.reg[r] = Lin{}
			}
		}
		g.ring = make([]ringEnt, len(st.g.ring))
		w.i(len(st.g.ring))
		for i, x := range st.g.ring {
			w.push("ring" + strconv.Itoa(i))
			if w.emit {
				if d, ok := w.st.z.diff(x.pos, st.g.F); ok {
					w.i(int(d))
				}
			}
			g.ring[i] = ringEnt{w.lin(x.pos, 'g'), w.cellID(x.cell)}
			w.pop()
		}
		w.i(len(st.g.konst))
		if g.xon {
			w.s("X")
			w.push("X")
			g.X = w.lin(g.X, 'g')
			w.pop()
			if g.xpast {
				w.s("past")
				w.i(g.xclass)
				if c := st.cells[g.xcell]; c != nil && g.xclass == xHex && !c.set.and(upperSet).empty() {
					w.s("U") // still to be lowered: told apart from those that need nothing
				}
				g.xcell = w.cellID(g.xcell)
			}
		}
	}
	n.g = g
	n.roots = make([]Val, len(st.roots))
	for i, r := range st.roots {
		w.push("root" + strconv.Itoa(i))
		n.roots[i] = w.val(r)
		w.pop()
	}
	for i, f := range st.fr {
		w.s("\nfr")
		w.i(w.e.fnID(f.fn))
		w.i(f.blk.Index)
		w.i(f.pc)
		if f.inDef {
			w.s("D")
		}
		h := &Frame{fn: f.fn, env: map[ssa.Value]Val{}, blk: f.blk, pc: f.pc, retTo: f.retTo, inDef: f.inDef, deferred: f.deferred}
		keys := w.e.liveAt(f, st.fr, i)
		for _, k := range keys {
			v, ok := f.env[k.v]
			if !ok {
				continue
			}
			w.s("v")
			w.i(k.i)
			if w.lab {
				w.push("f" + strconv.Itoa(i) + "v" + strconv.Itoa(k.i))
			}
			h.env[k.v] = w.val(v)
			w.pop()
		}
		for _, d := range f.defers {
			w.s("def")
			nd := deferred{call: d.call, pos: d.pos, fn: w.val(d.fn)}
			for _, a := range d.args {
				nd.args = append(nd.args, w.val(a))
			}
			h.defers = append(h.defers, nd)
		}
		n.fr = append(n.fr, h)
	}
	for i, l := range st.slack {
		_ = i
		n.slack = append(n.slack, w.lin(l, 'g'))
	}
	// static objects that were written to are always part of the state
	var dirty []int
	for id := range st.heap {
		if id < dynBase {
			dirty = append(dirty, id)
		}
	}
	sort.Ints(dirty)
	for _, id := range dirty {
		w.objID(id)
	}
	for q := 0; q < len(w.order); q++ {
		id := w.order[q]
		o := st.heap[id]
		w.s("\no")
		w.s(o.site)
		if o.tag != "" {
			w.s("#" + o.tag)
		}
		if w.lab {
			w.push("(" + w.objLab[id] + ")*")
		}
		if o.ext {
			w.s("x")
		}
		if o.stale {
			w.s("t")
		}
		if o.frozen {
			w.s("z")
		}
		m := *o
		if o.val != nil {
			m.val = w.val(o.val)
		}
		if o.m != nil {
			m.m = map[string]mapEnt{}
			var ks []string
			for k := range o.m {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				w.s(k)
				m.m[k] = mapEnt{w.val(o.m[k].k), w.val(o.m[k].v)}
			}
		}
		if o.seq != nil {
			s := *o.seq
			w.s("q")
			w.push("st")
			s.start = w.lin(s.start, 'g')
			w.pop()
			w.push("en")
			s.end = w.lin(s.end, 'g')
			w.pop()
			if s.elemTop {
				w.s("?")
			}
			s.str = StrV{w.atoms(s.str.a)}
			w.i(len(s.segs))
			segs := make([]Seg, len(s.segs))
			for i, x := range s.segs {
				if x.sum {
					w.s("~")
				}
				if x.old {
					w.s("<")
				}
				if w.emit && !x.sum && w.e.tracked(st, x.v) {
					w.s("X")
				} else if w.emit && !x.sum && w.e.trackedAbs(st, x.v) {
					w.s("A")
				}
				if w.lab {
					w.push("seg" + strconv.Itoa(i))
				}
				if x.sum {
					w.inSum++
				}
				v := w.val(x.v)
				if x.sum {
					w.inSum--
				}
				if w.lab {
					w.push("e")
				}
				segs[i] = Seg{w.lin(x.end, 'g'), x.sum, v, x.old}
				if w.lab {
					w.pop()
					w.pop()
				}
			}
			s.segs = segs
			m.seq = &s
		}
		w.pop()
		nid := w.obj[id]
		n.heap[nid] = &m
	}
	n.next = dynBase + 1 + len(w.order)
	// cells
	w.s("\ncells")
	for q := 0; q < len(w.corder); q++ {
		c := st.cells[w.corder[q]]
		w.push("cell" + strconv.Itoa(q))
		n.cells[q+1] = &Cell{w.lin(c.pos, 'g'), c.set}
		w.pop()
	}
	n.ncell = len(w.corder) + 1
	// facts
	if len(st.facts) > 0 && w.emit {
		var ks []string
		for k, v := range st.facts {
			ks = append(ks, fmt.Sprint(k, v))
		}
		sort.Strings(ks)
		w.s("\nfacts" + strings.Join(ks, ";"))
	}
	for _, l := range st.log {
		w.s("\n!" + l)
	}
	return n
}

func simpDiff(a, b Lin) Val {
	if a.s == b.s {
		return IntV{con(a.o - b.o), false}
	}
	if b.s == 0 {
		return IntV{a.add(-b.o), false}
	}
	// normalise the constant into a
	return DiffV{a: a.add(-b.o), b: Lin{b.s, 0}}
}

// ---------------------------------------------------------------- merging

type slotInfo struct {
	l   Lin
	cls byte
}

// Group is the merged abstract state of one program point and shape.
type Group struct {
	key    string
	id     int
	tmpl   *State // numbers are Lin{slot+1, 0}, or constants
	n      int
	sum    []bool  // slot of a list summary
	d      []int64 // (n+1)x(n+1) bounds between slots (0 is the constant zero)
	sets   []ByteSet
	joins  int
	queued bool
	isRet  bool
	visits int
	labels []string
}

type shape struct {
	consts map[int]map[int64]bool
	num    map[int]bool
}

const maxComputed = 5

// asking asks for the keys a state may have had: a number that is no longer told apart once was.
type asking struct{ mask, n uint }

func (l *asking) next() bool {
	l.n++
	return l.mask>>(l.n-1)&1 == 1
}

// groupsOf lists the groups a state may have been merged into.
func (e *Engine) groupsOf(st *State) []*Group {
	var out []*Group
	defer func() { e.asking = nil }()
	for mask := uint(0); ; mask++ {
		e.asking = &asking{mask: mask}
		key, _, _, _ := e.canon(st)
		if g := e.groups[key]; g != nil {
			out = append(out, g)
		}
		if n := e.asking.n; mask+1 >= 1<<n || mask > 1<<10 {
			return out
		}
	}
}

// posLike: is this constant just a position close to the reading head (or irrelevant, once the input is known to
// be wrong)?
func (st *State) posLike(c int64) bool {
	if !st.g.on {
		return false
	}
	if st.g.s.ph == phDead {
		return true
	}
	d, ok := st.z.diff(con(c), st.g.F)
	return ok && d >= -3 && d <= 3
}

// canon computes the canonical form of a state.
func (e *Engine) canon(st *State) (string, *State, []Lin, []bool) {
	return e.canonL(st, nil)
}

func (e *Engine) canonL(st *State, labels *[]string) (string, *State, []Lin, []bool) {
	w := &walker{e: e, st: st, emit: true}
	if labels != nil {
		w.lab = true
	}
	var slots []slotInfo
	w.lin = func(l Lin, cls byte) Lin {
		if w.inSum > 0 {
			cls = 's'
		}
		w.buf = append(w.buf, '#')
		slots = append(slots, slotInfo{l, cls})
		if labels != nil {
			*labels = append(*labels, strings.Join(w.label, ""))
		}
		return Lin{len(slots), 0} // placeholder: slot number + 1
	}
	t := w.state(true)
	key1 := string(w.buf)
	sh := e.shapes[key1]
	if sh == nil {
		sh = &shape{map[int]map[int64]bool{}, map[int]bool{}}
		e.shapes[key1] = sh
	}
	var nums []Lin
	var sums []bool
	assign := make([]Lin, len(slots))
	k2 := make([]byte, 0, 64)
	var nl []string
	for i, s := range slots {
		disc := false
		if s.l.isConst() {
			switch s.cls {
			case 'l':
				disc = true
			case 'p':
				if st.posLike(s.l.o) {
					break
				}
				if e.asking != nil {
					disc = !sh.num[i] || sh.consts[i][s.l.o] && e.asking.next()
				} else if !sh.num[i] {
					m := sh.consts[i]
					if m == nil {
						m = map[int64]bool{}
						sh.consts[i] = m
					}
					m[s.l.o] = true
					if len(m) > maxComputed {
						sh.num[i] = true
					} else {
						disc = true
					}
				}
			}
		}
		if disc {
			k2 = append(k2, '=')
			k2 = strconv.AppendInt(k2, s.l.o, 10)
			k2 = append(k2, ',')
			assign[i] = s.l
		} else {
			if st.g.mode == MSS && st.g.on && s.cls == 'p' {
				if d, ok := st.z.diff(s.l, st.g.F); ok && d >= -st.g.window() && d <= 2 {
					k2 = append(k2, '~')
					k2 = strconv.AppendInt(k2, d, 10)
				}
			} else if st.g.on && s.cls == 'p' && st.z.ub(st.g.F, con(0)) <= 16 {
				if d, ok := st.z.diff(s.l, st.g.F); ok && -4 <= d && d < -1 {
					k2 = append(k2, '~')
					k2 = strconv.AppendInt(k2, d, 10)
				}
			}
			k2 = append(k2, 'n')
			nums = append(nums, s.l)
			sums = append(sums, s.cls == 's')
			assign[i] = Lin{len(nums), 0}
			if labels != nil {
				nl = append(nl, (*labels)[i])
			}
		}
	}
	if labels != nil {
		*labels = nl
	}
	// replace the placeholders
	w2 := &walker{e: e, st: t}
	w2.lin = func(l Lin, cls byte) Lin { return assign[l.s-1] }
	t2 := w2.stateRaw()
	return key1 + "\n" + string(k2), t2, nums, sums
}

// stateRaw maps numbers only.
func (w *walker) stateRaw() *State { return w.state(true) }

// slotMatrix: bounds between the slots of a state.
func slotMatrix(z *DBM, nums []Lin) []int64 {
	n := len(nums) + 1
	d := make([]int64, n*n)
	at := func(i int) Lin {
		if i == 0 {
			return con(0)
		}
		return nums[i-1]
	}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i != j {
				d[i*n+j] = z.ub(at(i), at(j))
			}
		}
	}
	return d
}

var thresholds = []int64{-4, -3, -2, -1, 0, 1, 2, 3, 4, 36, inf}

func widen(v int64) int64 {
	for _, t := range thresholds {
		if v <= t {
			return t
		}
	}
	return inf
}

// arrive merges a state into its group; it reports the group when there is something new to explore.
func (e *Engine) arrive(st *State, isRet bool) *Group {
	e.foldLists(st)
	loc := ""
	if !isRet && len(st.fr) > 0 {
		if loc = e.loopLoc(st); e.locs[loc] > maxTexts {
			e.widenTexts(st)
		}
	}
	key, t, nums, sums := e.canon(st)
	if isRet {
		key = "RET" + key
	}
	d := slotMatrix(st.z, nums)
	sets := stateSets(t)
	g := e.groups[key]
	if g == nil {
		g = &Group{key: key, id: len(e.groups), tmpl: t, n: len(nums), sum: sums, d: d, sets: sets, isRet: isRet}
		e.groups[key] = g
		e.glist = append(e.glist, g)
		if loc != "" {
			e.locs[loc]++
		}
		return g
	}
	changed := false
	for i, v := range d {
		if v > g.d[i] {
			changed = true
			if g.joins >= 2 {
				v = widen(v)
			}
			g.d[i] = v
		}
	}
	for i, s := range sets {
		if !s.sub(g.sets[i]) {
			changed = true
			g.sets[i] = g.sets[i].or(s)
		}
	}
	if !changed {
		return nil
	}
	g.joins++
	return g
}

// maxTexts is how many states of one loop may differ before their texts are forgotten.
const maxTexts = 400

func (e *Engine) tooMany(st *State) bool { return e.locs[e.loopLoc(st)] > maxTexts }

// loopLoc names the point of the program a state is at when that is the head of a loop in which texts may grow.
func (e *Engine) loopLoc(st *State) string {
	f := st.top()
	if !e.growing(f.blk) {
		return ""
	}
	s := st.g.s.String()
	for _, f := range st.fr {
		s += "/" + itoa(e.fnID(f.fn)) + "." + itoa(f.blk.Index) + "." + itoa(f.pc)
	}
	return s
}

// growing: is a block the head of a loop of a function that puts texts together?
func (e *Engine) growing(b *ssa.BasicBlock) bool {
	if v, ok := e.grow[b]; ok {
		return v
	}
	head := false
	for _, p := range b.Preds {
		head = head || b.Dominates(p)
	}
	if head {
		head = false
		for _, o := range b.Parent().Blocks {
			for _, in := range o.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if a, ok := in.Addr.(*ssa.IndexAddr); ok {
						b, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Basic)
						head = head || ok && b.Kind() == types.Uint8
					}
				case *ssa.BinOp:
					head = head || in.Op == token.ADD && isString(in.Type())
				case *ssa.Call:
					if c := in.Call.StaticCallee(); c != nil && c.Signature.Recv() != nil {
						if n := namedOf(c.Signature.Recv().Type()); n != nil && (n.Obj().Name() == "Builder" || n.Obj().Name() == "Buffer") {
							head = true
						}
					}
					if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
						head = true
					}
				}
			}
		}
	}
	if e.grow == nil {
		e.grow = map[*ssa.BasicBlock]bool{}
	}
	e.grow[b] = head
	return head
}

// widenTexts forgets texts that are not made of the input.
func (e *Engine) widenTexts(st *State) {
	wide := func(s StrV) (StrV, bool) {
		if len(s.a) == 0 || len(s.a) == 1 && s.a[0].k != aConst {
			return s, false
		}
		for _, a := range s.a {
			if a.k == aRegion || a.k == aSym {
				return s, false
			}
		}
		return topStr(s.stale()), true
	}
	for id, o := range st.heap {
		if b, ok := o.val.(BuilderV); ok {
			if s, ok := wide(b.s); ok {
				n := o.clone()
				n.val = BuilderV{s}
				st.heap[id] = n
			}
		}
		if o.seq != nil && o.seq.isBytes {
			if s, ok := wide(o.seq.str); ok {
				n := o.clone()
				n.seq.str = s
				st.heap[id] = n
			}
		}
	}
	f := st.top()
	for _, in := range f.blk.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if s, ok := f.env[p].(StrV); ok {
			f.env[p], _ = wide(s)
		}
	}
}

func stateSets(t *State) []ByteSet {
	out := append([]ByteSet(nil), t.g.konst...)
	out = append(out, t.g.rest, t.g.old)
	for i := 1; i <= len(t.cells); i++ {
		out = append(out, t.cells[i].set)
	}
	return out
}

// inst makes a state out of a group.
func (e *Engine) inst(g *Group) *State {
	n := g.n + 1
	full := &DBM{n, g.d}
	// slots that differ by a constant share a symbol
	rep1, reps1, _, _ := represent(full, func(i int) bool { return g.sum[i-1] })
	m1 := len(reps1)
	z1 := &DBM{m1, make([]int64, m1*m1)}
	for a, i := range reps1 {
		for b, j := range reps1 {
			z1.d[a*m1+b] = full.d[i*n+j]
		}
	}
	// bounds on a slot are bounds on its symbol
	for i := 1; i < n; i++ {
		if reps1[rep1[i].s] == i {
			continue
		}
		r, o := rep1[i].s, rep1[i].o
		for b, j := range reps1 {
			if b == r {
				continue
			}
			if v := full.d[i*n+j]; v < inf && v-o < z1.d[r*m1+b] {
				z1.d[r*m1+b] = v - o
			}
			if v := full.d[j*n+i]; v < inf && v+o < z1.d[b*m1+r] {
				z1.d[b*m1+r] = v + o
			}
		}
	}
	if !z1.close() {
		panic("widened matrix is empty")
	}
	rep2, reps2, sumSyms, changed := represent(z1, func(i int) bool { return g.sum[reps1[i]-1] })
	z := z1
	if changed {
		m := len(reps2)
		z = &DBM{m, make([]int64, m*m)}
		for a, i := range reps2 {
			for b, j := range reps2 {
				z.d[a*m+b] = z1.d[i*m1+j]
			}
		}
	}
	rep := make([]Lin, n)
	for i := 1; i < n; i++ {
		r := rep1[i]
		rep[i] = rep2[r.s].add(r.o)
	}
	w := &walker{e: e, st: g.tmpl}
	w.lin = func(l Lin, cls byte) Lin {
		if l.s == 0 {
			return l
		}
		return rep[l.s]
	}
	st := w.state(true)
	st.z = z
	st.sum = sumSyms
	k := len(st.g.konst)
	st.g.konst = append([]ByteSet(nil), g.sets[:k]...)
	st.g.rest, st.g.old = g.sets[k], g.sets[k+1]
	for i := range st.cells {
		st.cells[i].set = g.sets[k+2+i-1]
	}
	st.facts = map[string]bool{}
	for k, v := range g.tmpl.facts {
		st.facts[k] = v
	}
	st.log = append([]string(nil), g.tmpl.log...)
	return st
}

// represent picks one of every set of slots at constant distance: symbols that stand for many numbers may be
// expressed by an ordinary one, never the reverse.
func represent(z *DBM, isSum func(i int) bool) (rep []Lin, reps []int, sums map[int]bool, changed bool) {
	n := z.n
	rep = make([]Lin, n)
	reps = []int{0}
	sums = map[int]bool{}
	nord := 1
	for pass := 0; pass < 2; pass++ {
		for i := 1; i < n; i++ {
			if isSum(i) != (pass == 1) {
				continue
			}
			found := false
			for r, j := range reps[:nord] {
				u, l := z.d[i*n+j], z.d[j*n+i]
				if u < inf && l < inf && u == -l {
					rep[i] = Lin{r, u}
					found = true
					changed = true
					break
				}
			}
			if !found {
				rep[i] = Lin{len(reps), 0}
				if i != len(reps) {
					changed = true
				}
				reps = append(reps, i)
				if pass == 0 {
					nord = len(reps)
				} else {
					sums[len(reps)-1] = true
				}
			}
		}
	}
	return
}

var _ = types.Typ
