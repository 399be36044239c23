package main

import (
	"fmt"
	"sync"
)

// The specification automata: one per parsing mode, written from the syntax (not from the implementation).
// They consume an input byte by byte and record positions in registers.

type Mode int

const (
	M2141 Mode = iota
	MSCIM
	M8141
	MSS   // a well-formed 2141/8141 specific string alone (for Normalize on hand-built URNs)
	MNone // no specification: any stream
)

func (m Mode) String() string { return [...]string{"RFC2141", "RFC7643", "RFC8141", "SS", "any"}[m] }

// phases
const (
	phDead = iota
	phPre  // n = how many prefix bytes were read (0..2)
	phCol  // ':' after the prefix
	phNid  // n = identifier length so far, k = progress of the reserved word, dash = last was '-'
	phNss0 // first byte of the specific string
	phNss
	phH1 // first hex digit, ctx says of what
	phH2
	phScimNid // n = bytes of "ietf:params:scim:" matched
	phScimTyp // ty/n: candidate types and matched length
	phName0
	phName
	phOther0
	phOther
	phQM // '?' after the specific string
	phR0 // first byte of r
	phR
	phRQ  // '?' within r
	phRQE // '?=' within r
	phQ0
	phQ
	phQQ // '?' within q
	phFrag
	phAny
)

// components (for errors)
const (
	cPrefix = iota
	cID
	cReserved
	cInformal
	cSS
	cHex
	cR
	cQ
	cF
	cScimNid
	cScimType
	cScimName
	cScimOther
	cAfterSS // a '?' that starts neither component
)

var compName = [...]string{"prefix", "identifier", "reserved identifier", "informal identifier", "specific string", "percent-encoding",
	"r-component", "q-component", "fragment", "SCIM namespace", "SCIM type", "SCIM name", "SCIM rest", "component separator"}

// registers
const (
	rgE = iota // first offending byte
	rgNidE
	rgNssS
	rgNssE
	rgRS
	rgRE
	rgQS
	rgQE
	rgFS
	rgTypE
	rgNameS
	rgNameE
	rgOthS
	rgTent
	nReg
)

var regName = [...]string{"E", "nidE", "nssS", "nssE", "rS", "rE", "qS", "qE", "fS", "typE", "nameS", "nameE", "otherS", "tent"}

// SpecState is a state of a specification automaton.
type SpecState struct {
	ph   uint8
	n, k uint8
	ctx  uint8 // phase to return to after a percent-encoding
	ty   uint8 // scim type: 1 schemas 2 api 3 param (bit set while matching)
	comp uint8 // of phDead
	dash bool
	fine bool // tell more apart: how many bytes were read after the offending one (n of phDead), how it offends (k of phDead), hx
	hx   bool // the last good byte completed a percent-encoding
}

func (s SpecState) String() string {
	if s.ph == phDead {
		return fmt.Sprintf("dead:%s.%d.%d", compName[s.comp], s.n, s.k)
	}
	return fmt.Sprintf("ph%d.%d.%d.%d.%d.%v", s.ph, s.n, s.k, s.ctx, s.ty, s.dash)
}

type act struct {
	reg int
	d   int64 // register = position of the byte + d
	cp  int   // copy from this register instead (+1), if non-zero
}

// classes of a byte for the distinguished position
const (
	xOther = iota
	xPre
	xNid
	xNss
	xHex // a digit of a percent-encoding of the specific string
)

func isAlpha(b byte) bool { b |= 32; return 'a' <= b && b <= 'z' }
func isDigit(b byte) bool { return '0' <= b && b <= '9' }
func isAlnum(b byte) bool { return isAlpha(b) || isDigit(b) }
func isSss(b byte) bool {
	if isAlnum(b) {
		return true
	}
	switch b {
	case '(', ')', '+', ',', '-', '.', ':', '=', '@', ';', '$', '_', '!', '*', '\'':
		return true
	}
	return false
}
func isPch(b byte) bool { return isSss(b) || b == '~' || b == '&' } // without percent-encodings

var scimTypes = [...]string{"", "schemas", "api", "param"}

const scimNid = "ietf:params:scim"

func specInit(m Mode) SpecState {
	switch m {
	case MSS:
		return SpecState{ph: phNss0}
	case MNone:
		return SpecState{ph: phAny}
	}
	return SpecState{ph: phPre}
}

func dead(c uint8) (SpecState, []act, int) {
	return SpecState{ph: phDead, comp: c}, []act{{rgE, 0, 0}}, xOther
}

// specStep gives the next state, the register actions and the class of the byte.
func specStep(m Mode, s SpecState, b byte) (SpecState, []act, int) {
	if !s.fine {
		return baseStep(m, s, b)
	}
	t := s
	t.fine, t.hx = false, false
	if s.ph == phDead {
		if t.n < 3 {
			t.n++
		}
		t.fine, t.hx = true, s.hx
		return t, nil, xOther
	}
	n, a, x := baseStep(m, t, b)
	n.fine = true
	if n.ph == phDead && (n.comp == cR || n.comp == cQ) {
		switch {
		case b == '?' && (s.ph == phR0 || s.ph == phQ0):
			n.k = 1 // a component that starts with a ?
		case s.ph == phRQ && b == '+' || s.ph == phQQ && b == '=':
			n.k = 2 // the component starts again
		}
	}
	n.hx = s.ph == phH2 && n.ph != phDead || n.ph == phDead && s.hx
	return n, a, x
}

func baseStep(m Mode, s SpecState, b byte) (SpecState, []act, int) {
	lower := b
	if isAlpha(b) {
		lower = b | 32
	}
	hexTo := func(ctx uint8) SpecState { return SpecState{ph: phH1, ctx: ctx, ty: s.ty} }
	frag := []act{{rgFS, 1, 0}}
	_ = frag
	switch s.ph {
	case phDead, phAny:
		return s, nil, xOther
	case phPre:
		if lower != "urn"[s.n] {
			return dead(cPrefix)
		}
		if s.n == 2 {
			return SpecState{ph: phCol}, nil, xPre
		}
		return SpecState{ph: phPre, n: s.n + 1}, nil, xPre
	case phCol:
		if b != ':' {
			return dead(cPrefix)
		}
		if m == MSCIM {
			return SpecState{ph: phScimNid}, nil, xOther
		}
		return SpecState{ph: phNid}, nil, xOther
	case phNid:
		if m == M2141 {
			switch {
			case b == ':' && s.n > 0:
				if s.n == 3 && s.k == 3 {
					return dead(cReserved)
				}
				return SpecState{ph: phNss0}, []act{{rgNidE, 0, 0}, {rgNssS, 1, 0}}, xOther
			case s.n < 32 && (isAlnum(b) || b == '-' && s.n > 0):
				k := s.k
				if k == s.n && k < 3 && lower == "urn"[k] {
					k++
				} else if s.n < 4 {
					k = 0
				}
				if s.n >= 3 {
					k = 0
				}
				return SpecState{ph: phNid, n: s.n + 1, k: k}, nil, xNid
			}
			return dead(cID)
		}
		switch {
		case b == ':' && s.n >= 2 && !s.dash:
			return SpecState{ph: phNss0}, []act{{rgNidE, 0, 0}, {rgNssS, 1, 0}}, xOther
		case s.n == 4 && s.k == 4 && (isAlpha(b) || b == '0'):
			return dead(cInformal)
		case s.n < 32 && (isAlnum(b) || b == '-' && s.n > 0 && s.n < 31):
			k := s.k
			if k == s.n && k < 4 && lower == "urn-"[k] {
				k++
			} else {
				k = 0
			}
			return SpecState{ph: phNid, n: s.n + 1, k: k, dash: b == '-'}, nil, xNid
		}
		return dead(cID)
	case phNss0, phNss:
		eight := m == M8141 || m == MSS
		switch {
		case isSss(b), eight && isPch(b), eight && b == '/' && s.ph == phNss:
			return SpecState{ph: phNss}, nil, xNss
		case b == '%':
			return hexTo(phNss), nil, xNss
		case m == M8141 && s.ph == phNss && b == '?':
			return SpecState{ph: phQM}, []act{{rgNssE, 0, 0}}, xOther
		case m == M8141 && s.ph == phNss && b == '#':
			return SpecState{ph: phFrag}, []act{{rgNssE, 0, 0}, {rgFS, 1, 0}}, xOther
		}
		return dead(cSS)
	case phH1, phH2:
		if !isAlnum(b) {
			return dead(cHex)
		}
		x := xOther
		if s.ctx == phNss || s.ctx == phOther {
			x = xHex
		}
		if s.ph == phH1 {
			return SpecState{ph: phH2, ctx: s.ctx, ty: s.ty}, nil, x
		}
		return SpecState{ph: s.ctx, ty: s.ty}, nil, x
	case phScimNid:
		if int(s.n) < len(scimNid) {
			if b != scimNid[s.n] {
				return dead(cScimNid)
			}
			n := SpecState{ph: phScimNid, n: s.n + 1}
			return n, nil, xNid
		}
		if b != ':' {
			return dead(cScimNid)
		}
		return SpecState{ph: phScimTyp, ty: 1<<1 | 1<<2 | 1<<3}, []act{{rgNidE, 0, 0}, {rgNssS, 1, 0}}, xOther
	case phScimTyp:
		if b == ':' {
			for i := 1; i <= 3; i++ {
				if s.ty&(1<<i) != 0 && len(scimTypes[i]) == int(s.n) {
					return SpecState{ph: phName0, ty: uint8(i)}, []act{{rgTypE, 0, 0}, {rgNameS, 1, 0}}, xNss
				}
			}
			return dead(cScimType)
		}
		var left uint8
		for i := 1; i <= 3; i++ {
			if s.ty&(1<<i) != 0 && int(s.n) < len(scimTypes[i]) && scimTypes[i][s.n] == b {
				left |= 1 << i
			}
		}
		if left == 0 {
			return dead(cScimType)
		}
		return SpecState{ph: phScimTyp, ty: left, n: s.n + 1}, nil, xNss
	case phName0, phName:
		switch {
		case isAlnum(b):
			return SpecState{ph: phName, ty: s.ty}, nil, xNss
		case b == ':' && s.ph == phName:
			return SpecState{ph: phOther0, ty: s.ty}, []act{{rgNameE, 0, 0}, {rgOthS, 1, 0}}, xNss
		}
		return dead(cScimName)
	case phOther0, phOther:
		switch {
		case isSss(b):
			return SpecState{ph: phOther, ty: s.ty}, nil, xNss
		case b == '%':
			return hexTo(phOther), nil, xNss
		}
		return dead(cScimOther)
	case phQM:
		switch b {
		case '+':
			return SpecState{ph: phR0}, []act{{rgRS, 1, 0}}, xOther
		case '=':
			return SpecState{ph: phQ0}, []act{{rgQS, 1, 0}}, xOther
		}
		return dead(cAfterSS)
	case phR0:
		switch {
		case isPch(b):
			return SpecState{ph: phR}, nil, xOther
		case b == '%':
			return hexTo(phR), nil, xOther
		}
		return dead(cR)
	case phR, phRQ, phRQE:
		switch {
		case s.ph == phRQ && b == '+':
			return dead(cR)
		case s.ph == phRQ && b == '=':
			return SpecState{ph: phRQE}, []act{{rgTent, -1, 0}}, xOther
		case s.ph == phRQE && isPch(b):
			return SpecState{ph: phQ}, []act{{rgRE, 0, rgTent + 1}, {rgQS, 0, 0}}, xOther
		case s.ph == phRQE && b == '%':
			return hexTo(phQ), []act{{rgRE, 0, rgTent + 1}, {rgQS, 0, 0}}, xOther
		case isPch(b) || b == '/':
			return SpecState{ph: phR}, nil, xOther
		case b == '%':
			return hexTo(phR), nil, xOther
		case b == '?':
			return SpecState{ph: phRQ}, nil, xOther
		case b == '#':
			return SpecState{ph: phFrag}, []act{{rgRE, 0, 0}, {rgFS, 1, 0}}, xOther
		}
		return dead(cR)
	case phQ0:
		switch {
		case isPch(b):
			return SpecState{ph: phQ}, nil, xOther
		case b == '%':
			return hexTo(phQ), nil, xOther
		}
		return dead(cQ)
	case phQ, phQQ:
		switch {
		case s.ph == phQQ && b == '=':
			return dead(cQ)
		case isPch(b) || b == '/':
			return SpecState{ph: phQ}, nil, xOther
		case b == '%':
			return hexTo(phQ), nil, xOther
		case b == '?':
			return SpecState{ph: phQQ}, nil, xOther
		case b == '#':
			return SpecState{ph: phFrag}, []act{{rgQE, 0, 0}, {rgFS, 1, 0}}, xOther
		}
		return dead(cQ)
	case phFrag:
		switch {
		case isPch(b) || b == '/' || b == '?':
			return SpecState{ph: phFrag}, nil, xOther
		case b == '%':
			return hexTo(phFrag), nil, xOther
		}
		return dead(cF)
	}
	panic("spec phase")
}

// specFinal: may the input end here?
func specFinal(m Mode, s SpecState) bool {
	switch s.ph {
	case phNss, phName, phOther, phR, phRQ, phRQE, phQ, phQQ, phFrag, phAny:
		return true
	}
	return false
}

// specComp names the component a state is in, for inputs that end too early.
func specComp(m Mode, s SpecState) uint8 {
	switch s.ph {
	case phDead:
		return s.comp
	case phPre, phCol:
		return cPrefix
	case phNid:
		return cID
	case phNss0, phNss:
		return cSS
	case phH1, phH2:
		return cHex
	case phScimNid:
		return cScimNid
	case phScimTyp:
		return cScimType
	case phName0, phName:
		return cScimName
	case phOther0, phOther:
		return cScimOther
	case phQM:
		return cAfterSS
	case phR0, phR, phRQ, phRQE:
		return cR
	case phQ0, phQ, phQQ:
		return cQ
	}
	return cF
}

// specRegs: the registers that have a meaning in a state (others are forgotten).
func regLive(s SpecState, r int) bool {
	switch r {
	case rgTent:
		return s.ph == phRQE
	case rgE:
		return s.ph == phDead
	}
	return s.ph != phDead
}

type specClass struct {
	set  ByteSet
	next SpecState
	acts []act
	x    int
}

type specKey struct {
	m Mode
	s SpecState
}

var specCache = map[specKey][]specClass{}
var specMu sync.RWMutex

// specClasses partitions the bytes by what they do in a state.
func specClasses(m Mode, s SpecState) []specClass {
	k := specKey{m, s}
	specMu.RLock()
	c, ok := specCache[k]
	specMu.RUnlock()
	if ok {
		return c
	}
	var out []specClass
	idx := map[string]int{}
	for b := 0; b < 256; b++ {
		n, a, x := specStep(m, s, byte(b))
		key := fmt.Sprint(n, a, x)
		i, ok := idx[key]
		if !ok {
			i = len(out)
			idx[key] = i
			out = append(out, specClass{next: n, acts: a, x: x})
		}
		out[i].set.add(byte(b))
	}
	specMu.Lock()
	specCache[k] = out
	specMu.Unlock()
	return out
}

// ByteSet is a set of byte values.
type ByteSet [4]uint64

func (s *ByteSet) add(b byte)     { s[b>>6] |= 1 << (b & 63) }
func (s ByteSet) has(b byte) bool { return s[b>>6]&(1<<(b&63)) != 0 }
func (s ByteSet) not() ByteSet    { return ByteSet{^s[0], ^s[1], ^s[2], ^s[3]} }
func (s ByteSet) and(t ByteSet) (r ByteSet) {
	for i := range s {
		r[i] = s[i] & t[i]
	}
	return
}
func (s ByteSet) or(t ByteSet) (r ByteSet) {
	for i := range s {
		r[i] = s[i] | t[i]
	}
	return
}
func (s ByteSet) empty() bool { return s == ByteSet{} }
func (s ByteSet) sub(t ByteSet) bool {
	for i := range s {
		if s[i]&^t[i] != 0 {
			return false
		}
	}
	return true
}
func (s ByteSet) single() (byte, bool) {
	c, r := 0, byte(0)
	for b := 0; b < 256; b++ {
		if s.has(byte(b)) {
			c++
			r = byte(b)
		}
	}
	return r, c == 1
}

// sample picks a readable member.
func (s ByteSet) sample() byte {
	for _, r := range []byte("aA1-:%/?#=+.") {
		if s.has(r) {
			return r
		}
	}
	for b := 33; b < 127; b++ {
		if s.has(byte(b)) {
			return byte(b)
		}
	}
	for b := 0; b < 256; b++ {
		if s.has(byte(b)) {
			return byte(b)
		}
	}
	return 0
}

var allBytes = ByteSet{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

var upperSet = func() (r ByteSet) {
	for b := byte('A'); b <= 'Z'; b++ {
		r.add(b)
	}
	return
}()
