package main

import (
	"fmt"
	"strconv"
	"strings"
)

// C18: errors say where and in which part.

// errorText splits the text of an error into what comes before the column, and the column.
func errorText(st *State, v Val) (string, Val, bool) {
	iv, ok := v.(IfaceV)
	if !ok {
		return "", nil, false
	}
	e, ok := iv.v.(ErrV)
	if !ok || e.text == nil {
		return "", nil, false
	}
	var col Val
	pre, post := "", ""
	for _, x := range e.text.a {
		switch {
		case x.k == aConst && col == nil:
			pre += x.s
		case x.k == aConst:
			post += x.s
		case x.k == aInt && col == nil:
			col = x.v
		default:
			return "", nil, false
		}
	}
	if col == nil {
		// all of it is known
		if i := strings.LastIndex(pre, " [col "); i >= 0 && strings.HasSuffix(pre, "]") {
			if n, err := strconv.Atoi(pre[i+6 : len(pre)-1]); err == nil {
				return pre[:i], IntV{l: con(int64(n))}, true
			}
		}
	}
	if col == nil || post != "]" || !strings.HasSuffix(pre, " [col ") {
		return "", nil, false
	}
	return strings.TrimSuffix(pre, " [col "), col, true
}

// what an error may say: a text and how far its column is from the offending byte
type saying struct {
	text   string
	lo, hi int64
}

const (
	txtPrefix          = "expecting the prefix to be the \"urn\" string (whatever case)"
	txtIdentifier      = "expecting the identifier to be string (1..31 alnum chars, also containing dashes but not at its beginning)"
	txtSpecificString  = "expecting the specific string to be a string containing alnum, hex, or others ([()+,-.:=@;$_!*']) chars"
	txtNoUrnWithinID   = "expecting the identifier to not contain the \"urn\" reserved string"
	txtHex             = "expecting the percent encoded chars to be well-formed (%alnum{2})"
	txtSCIMNamespace   = "expecing the SCIM namespace identifier (ietf:params:scim)"
	txtSCIMType        = "expecting a correct SCIM type (schemas, api, param)"
	txtSCIMName        = "expecting one or more alnum char in the SCIM name part"
	txtSCIMOther       = "expecting a well-formed other SCIM part"
	txtSCIMIncomplete  = "expecting a not empty SCIM other part after colon"
	txtInformalID      = "informal URN namespace must be in the form urn-[1-9][0-9]"
	txt8141Specific    = "expecting the specific string to contain alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] not in first position) chars"
	txt8141Identifier  = "expecting the indentifier to be a string with (length 2 to 32 chars) containing alnum (or dashes) not starting or ending with a dash"
	txtRComponentStart = "expecting only one r-component (starting with the ?+ sequence)"
	txtQComponentStart = "expecting only one q-component (starting with the ?= sequence)"
	txtMalformedRComp  = "expecting a non-empty r-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning)"
	txtMalformedQComp  = "expecting a non-empty q-component containing alnum, hex, or others ([~&()+,-.:=@;$_!*'] or [/?] but not at its beginning)"
	txtMalformed       = "expecting a well-formed URN"
)

// sayings: what may be said of an input that the specification leaves in a state, at its offending byte or its end.
func sayings(m Mode, s SpecState) []saying {
	end := s.ph != phDead
	hex := s.hx
	var out []saying
	add := func(t string, off int64) { out = append(out, saying{t, off, off}) }
	comp := func(malformed, start string) {
		switch {
		case end || s.k == 0:
			add(malformed, 0)
		case s.k == 1:
			out = append(out, saying{malformed, 1, 2})
			add(start, 2)
		default:
			add(malformed, 1)
			add(start, 1)
		}
	}
	switch specComp(m, s) {
	case cPrefix:
		add(txtPrefix, 0)
	case cID:
		if m == M8141 {
			add(txt8141Identifier, 0)
		} else {
			add(txtIdentifier, 0)
		}
	case cReserved:
		add(txtNoUrnWithinID, 0)
	case cInformal:
		add(txtInformalID, -1)
	case cSS:
		if m == M8141 {
			add(txt8141Specific, 0)
		} else {
			add(txtSpecificString, 0)
		}
	case cHex:
		hex = true
		switch {
		case m == MSCIM && end:
			add(txtSCIMIncomplete, -1)
		case m == MSCIM:
			add(txtSCIMOther, 0)
		}
	case cScimNid:
		add(txtSCIMNamespace, 0)
	case cScimType:
		add(txtSCIMType, 0)
	case cScimName:
		add(txtSCIMName, 0)
	case cScimOther:
		if end {
			add(txtSCIMIncomplete, -1)
		} else {
			add(txtSCIMOther, 0)
		}
	case cR:
		comp(txtMalformedRComp, txtRComponentStart)
	case cQ:
		comp(txtMalformedQComp, txtQComponentStart)
	case cF, cAfterSS:
		add(txtMalformed, 0)
	}
	if hex {
		// right after a percent-encoding it may also be blamed
		add(txtHex, 0)
	}
	return out
}

// offences are the ways the input of a rejecting outcome can offend: the state of the specification and the place.
type offence struct {
	s  SpecState
	at Lin
}

func offences(st *State) []offence {
	g := &st.g
	if g.s.ph == phDead {
		return []offence{{g.s, g.reg[rgE]}}
	}
	var out []offence
	cur := map[SpecState]bool{g.s: true}
	for l := int64(0); l < 4 && len(cur) > 0; l++ {
		p := g.F.add(l)
		if st.z.canEq(p, g.N) {
			for s := range cur {
				if !specFinal(g.mode, s) {
					out = append(out, offence{s, g.N})
				}
			}
		}
		if st.z.isLe(g.N, p, 0) {
			break
		}
		set, _ := allBytes, 0
		ok := false
		for _, r := range g.ring {
			if st.z.isEq(r.pos, p) {
				set, ok = st.cells[r.cell].set, true
			}
		}
		next := map[SpecState]bool{}
		for s := range cur {
			for _, cl := range specClasses(g.mode, s) {
				switch {
				case set.and(cl.set).empty():
				case cl.next.ph == phDead:
					out = append(out, offence{cl.next, p})
				default:
					next[cl.next] = true
				}
			}
		}
		if !ok {
			break // a byte that was not looked at
		}
		cur = next
	}
	return out
}

func (c *Ctx) errors() {
	var jobs []job
	for _, mc := range c.ownCases() {
		mc := mc
		jobs = append(jobs, job{mc.name, func(a *API) {
			a.fine = true
			for _, prep := range []func(*State){nil, nilInput} {
				rets := a.runParse(a.newWith([]modeCase{mc}), mc.spec, prep)
				c.count(rets)
				n := 0
				for _, r := range rets {
					if nilness(r.vals[1]) != 1 {
						n++
						c.offending(a, mc.spec, r)
					}
				}
				c.check("rejects-something", n > 0, mc.name, "", "no rejecting outcome")
			}
			c.absorb(a, mc.name)
		}})
	}
	c.par(jobs...)
}

// offending checks the error of a rejecting outcome.
func (c *Ctx) offending(a *API, m Mode, r Ret) {

	if iv, ok := r.vals[1].(IfaceV); ok && iv.t != nil {
		if _, std := iv.v.(ErrV); !std {
			// an error type of the module: ask it for its text
			n := namedOf(iv.t)
			if n != nil && n.Obj().Pkg() != nil && a.r.mod[n.Obj().Pkg()] {
				text := a.method(iv.t, "Error")
				st := r.st.clone()
				st.roots = append(st.roots, iv.v)
				k := len(st.roots) - 1
				for _, x := range a.e.call(text, []*State{st}, func(st *State) []Val { return []Val{st.roots[k]} }) {
					t, _ := asStr(x.vals[0])
					c.offending(a, m, Ret{x.st, []Val{r.vals[0], mkErr("text", &t)}})
				}
				return
			}
		}
	}
	st := r.st
	at := "rejecting return of Parse, last byte read at " + a.where(st)
	w := witness(st.trace)
	txt, col, ok := errorText(st, r.vals[1])
	if !c.check("form", ok, at, w, "the error is %s, not a text with a column", valString(r.vals[1])) {
		return
	}
	st = st.clone()
	l, ok := asLin(st, col)
	if !c.check("column", ok && st.z.isLe(con(0), l, 0) && st.z.isLe(l, st.g.N, 0), at, w, "the column %s of %q may lie outside the input", valString(col), txt) {
		return
	}
	off := offences(st)
	c.check("place", len(off) > 0, at, w, "the error %q is given for an input that does not offend", txt)
	for _, o := range off {
		var says []string
		okT, okC := false, false
		for _, x := range sayings(m, o.s) {
			says = append(says, fmt.Sprintf("%q", x.text))
			if x.text == txt {
				okT = true
				if st.z.isLe(o.at, l, -x.lo) && st.z.isLe(l, o.at, x.hi) {
					okC = true
				}
			}
		}
		what := compName[specComp(m, o.s)]
		c.check("part", okT, at, w, "the error %q is given where the %s is wrong, expected %s", txt, o.s, strings.Join(says, " or "))
		if okT {
			c.check("place", okC, at, w, "the column of %q is %d to %d bytes from the offending byte (%s)", txt, st.z.lb(l, o.at), st.z.ub(l, o.at), o.s)
		}
		c.sample("%s, %s: %q, column %s, offending byte %s", m, what, txt, valString(col), o.at)
	}
}
