package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Abstract values.
type Val interface{}

type (
	// IntV is an integer: a constant or a symbol of the zone plus an offset. lit marks constants that
	// are spelled in the program or read from a constant table (they are kept apart when states merge).
	IntV struct {
		l   Lin
		lit bool
	}
	// DiffV is the difference a-b of two positions.
	DiffV struct {
		a, b Lin
		keep bool // stays in this form even when it is known to be a constant
	}
	// RelV is such a difference as an element of a list, where b is the start of the specific string: it is kept
	// in this form even when it is known to be a constant, so that elements can be merged.
	RelV struct{ a, b Lin }
	// FnV is a function of an input byte.
	FnV struct {
		cell int
		tab  *Tab
	}
	BoolV struct{ b bool }
	StrV  struct{ a []Atom }
	PtrV  struct {
		obj  int // 0: nil
		path string
	}
	SliceV struct {
		obj         int // 0: nil
		lo, hi, max Lin
	}
	StructV struct{ f []Val }
	ArrV    struct{ e []Val }
	TupleV  struct{ e []Val }
	IfaceV  struct {
		t types.Type // nil: nil interface
		v Val
	}
	FuncV struct {
		fn   *ssa.Function // nil: nil func
		bind []Val
	}
	MapV struct{ obj int }
	// BuilderV is a strings.Builder or bytes.Buffer.
	BuilderV struct{ s StrV }
	// ErrV is an opaque error: fmt.Errorf / errors.New (text known) or one of a modelled call (text nil).
	ErrV struct {
		kind string
		text *StrV
	}
	// BytesOfV is the JSON encoding of a string (result of json.Marshal).
	JSONV struct{ v Val }
	IterV struct {
		s   StrV
		pos Lin
		m   Val
	}
	TopV struct {
		stale bool
		why   string
	}
)

// Tab is an interned table of the values of a function on bytes.
type Tab struct {
	id int
	v  [256]int64
}

var tabs = map[[256]int64]*Tab{}
var tabIdent *Tab

var tabMu sync.Mutex

func mkTab(v [256]int64) *Tab {
	tabMu.Lock()
	defer tabMu.Unlock()
	if t, ok := tabs[v]; ok {
		return t
	}
	t := &Tab{len(tabs), v}
	tabs[v] = t
	return t
}

func init() {
	var v [256]int64
	for i := range v {
		v[i] = int64(i)
	}
	tabIdent = mkTab(v)
}

// Atom kinds
const (
	aConst = iota
	aRegion
	aSym
	aInt
	aByte
	aTop
	aFmt  // %v of something else
	aZero // to-from zero bytes
)

// Atom is a piece of a string.
type Atom struct {
	k        uint8
	s        string // aConst
	from, to Lin    // aRegion: bytes [from,to) of the input
	lower    bool   // aRegion, aSym: passed through strings.ToLower; aTop: shares its start or its end with another text
	dirty    bool   // aRegion: bytes may have been changed (other than at the distinguished position)
	x        Val    // aRegion: value at the distinguished position when it was changed
	id       int    // aSym
	sized    bool   // aSym: its length is to
	v        Val    // aInt, aByte, aFmt; aRegion: the value of the only byte
	stale    bool   // aTop
}

func cstr(s string) StrV {
	if s == "" {
		return StrV{}
	}
	return StrV{[]Atom{{k: aConst, s: s}}}
}

func (s StrV) konst() (string, bool) {
	var b strings.Builder
	for _, a := range s.a {
		if a.k != aConst {
			return "", false
		}
		b.WriteString(a.s)
	}
	return b.String(), true
}

func isTop(v Val) bool { _, ok := v.(TopV); return ok }

// Obj is a heap object.
type Obj struct {
	typ     types.Type
	val     Val  // contents of a variable, struct or array
	seq     *Seq // backing store of a slice (when val is nil)
	static  bool // made by package initialisation and never written since
	ext     bool // memory of the caller: never to be written
	stale   bool // memory of an earlier call
	shared  bool // may be reachable by the caller (receiver etc.)
	frozen  bool // writes to it are reported (read-only receivers)
	site    string
	tag     string            // names an object across states
	m       map[string]mapEnt // map contents
	mdefTop bool
}

type mapEnt struct{ k, v Val }

// Seq is the content of a slice's backing array, in coordinates of its own.
type Seq struct {
	isBytes    bool
	start, end Lin
	str        StrV // bytes
	segs       []Seg
	elemTop    bool // nothing is known about the elements
	elem       types.Type
}

// Seg is a run of elements up to coordinate end: one element, or any number described by one value.
type Seg struct {
	end Lin
	sum bool
	v   Val
	old bool // was there before the distinguished position was read
}

func (o *Obj) clone() *Obj {
	n := *o
	if o.seq != nil {
		s := *o.seq
		n.seq = &s
	}
	if o.m != nil {
		n.m = map[string]mapEnt{}
		for k, v := range o.m {
			n.m[k] = v
		}
	}
	return &n
}

// Cell is one byte of the input whose set of possible values is tracked.
type Cell struct {
	pos Lin
	set ByteSet
}

func valString(v Val) string {
	switch v := v.(type) {
	case nil:
		return "<unset>"
	case IntV:
		return v.l.String()
	case RelV:
		return valString(DiffV{a: v.a, b: v.b})
	case DiffV:
		return "(" + v.a.String() + ")-(" + v.b.String() + ")"
	case FnV:
		return fmt.Sprintf("fn%d(cell%d)", v.tab.id, v.cell)
	case BoolV:
		return strconv.FormatBool(v.b)
	case StrV:
		return strString(v)
	case PtrV:
		if v.obj == 0 {
			return "nil"
		}
		return fmt.Sprintf("&o%d%s", v.obj, v.path)
	case SliceV:
		return fmt.Sprintf("o%d[%s:%s]", v.obj, v.lo, v.hi)
	case StructV:
		var p []string
		for _, f := range v.f {
			p = append(p, valString(f))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case ErrV:
		if v.text != nil {
			return "error(" + strString(*v.text) + ")"
		}
		return "error(" + v.kind + ")"
	case IfaceV:
		if v.t == nil {
			return "nil"
		}
		return valString(v.v)
	case TopV:
		if v.stale {
			return "<left over from earlier: " + v.why + ">"
		}
		return "<unknown " + v.why + ">"
	case JSONV:
		return "json(" + valString(v.v) + ")"
	}
	return fmt.Sprintf("%T", v)
}

func strString(s StrV) string {
	if len(s.a) == 0 {
		return `""`
	}
	var p []string
	for _, a := range s.a {
		switch a.k {
		case aConst:
			p = append(p, strconv.Quote(a.s))
		case aRegion:
			t := fmt.Sprintf("input[%s:%s]", a.from, a.to)
			if a.lower {
				t = "lower(" + t + ")"
			}
			if a.dirty || a.x != nil {
				t += "*"
			}
			p = append(p, t)
		case aSym:
			t := fmt.Sprintf("$%d", a.id)
			if a.lower {
				t = "lower(" + t + ")"
			}
			p = append(p, t)
		case aInt:
			p = append(p, "itoa("+valString(a.v)+")")
		case aByte:
			p = append(p, "byte("+valString(a.v)+")")
		default:
			p = append(p, "<unknown string>")
		}
	}
	return strings.Join(p, "+")
}

// splitPath / joinPath: a path is a string of dot-separated indices.
func pathCat(p string, i int) string { return p + "." + strconv.Itoa(i) }

func pathParts(p string) []int {
	if p == "" {
		return nil
	}
	var out []int
	for _, s := range strings.Split(p[1:], ".") {
		n, _ := strconv.Atoi(s)
		out = append(out, n)
	}
	return out
}

func getPath(v Val, p []int) (Val, bool) {
	for _, i := range p {
		switch w := v.(type) {
		case StructV:
			if i >= len(w.f) {
				return nil, false
			}
			v = w.f[i]
		case ArrV:
			if i >= len(w.e) {
				return nil, false
			}
			v = w.e[i]
		case TopV:
			return w, true
		default:
			return nil, false
		}
	}
	return v, true
}

func setPath(v Val, p []int, x Val) (Val, bool) {
	if len(p) == 0 {
		return x, true
	}
	switch w := v.(type) {
	case StructV:
		f := append([]Val(nil), w.f...)
		n, ok := setPath(f[p[0]], p[1:], x)
		if !ok {
			return nil, false
		}
		f[p[0]] = n
		return StructV{f}, true
	case ArrV:
		e := append([]Val(nil), w.e...)
		n, ok := setPath(e[p[0]], p[1:], x)
		if !ok {
			return nil, false
		}
		e[p[0]] = n
		return ArrV{e}, true
	case TopV:
		return w, true
	}
	return nil, false
}
