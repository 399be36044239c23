package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What is done to a whole text: a step that takes as long as the text, which must not be repeated in a loop over it.

// whole tells the functions that always go through all of their texts from those that stop at what they look for.
func whole(name string) bool {
	i := strings.LastIndex(name, ".")
	if i < 0 {
		return false
	}
	switch name[:i] {
	case "strings", "bytes":
		switch f := name[i+1:]; f {
		case "ToLower", "ToUpper", "ToTitle", "Title", "Map", "Replace", "ReplaceAll", "Split", "SplitN", "SplitAfter", "Fields", "FieldsFunc",
			"Join", "Repeat", "Count", "Clone", "ToValidUTF8", "Runes":
			return true
		}
	case "fmt":
		return strings.Contains(name[i+1:], "print") || strings.Contains(name[i+1:], "Append") || name[i+1:] == "Errorf"
	case "unicode/utf8":
		return strings.HasPrefix(name[i+1:], "RuneCount") || name[i+1:] == "Valid" || name[i+1:] == "ValidString"
	case "encoding/json":
		return true
	}
	return false
}

// work notes a step on whole texts on the way to the next group.
func (e *Engine) work(st *State, what string, vs ...Val) {
	if !e.linear || st.cost != "" {
		return
	}
	for _, v := range vs {
		if e.long(st, v, 0) {
			st.cost = what + " goes through a whole text"
			return
		}
	}
}

// long: is this a text (or a list with one) that can be as long as the input, and that a loop does not go through
// piece by piece because one of its ends stays where it is?
func (e *Engine) long(st *State, v Val, depth int) bool {
	if depth > 3 {
		return false
	}
	fixed := func(from, to, end Lin) bool {
		if st.z.ub(to, from) < inf {
			return false
		}
		if from.isConst() || st.z.isEq(to, end) || e.anchored(st, from, to) {
			return true
		}
		for r := 0; r < nReg; r++ {
			if st.g.on && st.g.has(r) && (st.z.isEq(st.g.reg[r], from) || st.z.isEq(st.g.reg[r], to)) {
				return true
			}
		}
		return false
	}
	switch v := v.(type) {
	case IfaceV:
		return e.long(st, v.v, depth+1)
	case StrV:
		for _, a := range v.a {
			switch a.k {
			case aRegion:
				if fixed(a.from, a.to, st.g.N) {
					return true
				}
			case aTop:
				if a.lower && a.sized && st.z.ub(a.to, con(0)) >= inf {
					return true
				}
			case aSym:
				if !a.sized || st.z.ub(a.to, con(0)) >= inf {
					return true
				}
			}
		}
	case SliceV:
		o := st.obj(e, v.obj)
		if v.obj == 0 || o == nil || o.seq == nil {
			return false
		}
		if o.seq.isBytes || depth == 0 && fixed(v.lo, v.hi, o.seq.end) {
			return fixed(v.lo, v.hi, o.seq.end)
		}
		for _, s := range o.seq.segs {
			if e.long(st, s.v, depth+1) {
				return true
			}
		}
	}
	return false
}

// anchored: does a text the running functions know start or end where this one does?
func (e *Engine) anchored(st *State, from, to Lin) bool {
	at := func(a, b Lin) bool {
		if st.z.isEq(a, from) && st.z.isEq(b, to) {
			return false // it is itself that text, perhaps: its ends tell
		}
		return st.z.isEq(a, from) || st.z.isEq(b, to)
	}
	for _, f := range st.fr {
		for k, v := range f.env {
			_, param := k.(*ssa.Parameter)
			switch v := v.(type) {
			case StrV:
				if len(v.a) == 1 && v.a[0].k == aRegion && (at(v.a[0].from, v.a[0].to) || param && st.z.isEq(v.a[0].from, from)) {
					return true
				}
			case SliceV:
				if v.obj != 0 && at(v.lo, v.hi) {
					return true
				}
			}
		}
	}
	return false
}
