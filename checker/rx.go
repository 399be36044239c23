package main

import (
	"fmt"
	"regexp/syntax"
	"sort"
	"unicode"
)

// Comparing regular expressions as machines.
//
// Two expressions find the same things in every text if, at every place, they match there or not, and the preferred
// match (leftmost-first) ends at the same place. Both are run as ordered lists of threads over classes of characters
// that neither tells apart; all pairs of lists that can come up together are visited.

type rxSide struct{ p *syntax.Prog }

func rxProg(pat string) (*syntax.Prog, error) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil, err
	}
	return syntax.Compile(re.Simplify())
}

// rxRunes gives one character for each class that the programs and the assertions tell apart.
func rxRunes(ps ...*syntax.Prog) []rune {
	cut := map[rune]bool{0: true, '\n': true, '\n' + 1: true, '0': true, '9' + 1: true, 'A': true, 'Z' + 1: true, '_': true, '_' + 1: true, 'a': true, 'z' + 1: true, unicode.MaxRune: true}
	for _, p := range ps {
		for i := range p.Inst {
			in := &p.Inst[i]
			switch in.Op {
			case syntax.InstRune, syntax.InstRune1:
				for j, r := range in.Rune {
					cut[r] = true
					cut[r+1] = true
					if len(in.Rune) == 1 || j%2 == 0 {
						// case folding
						for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
							cut[f], cut[f+1] = true, true
						}
					}
				}
			}
		}
	}
	var out []rune
	for r := range cut {
		if r <= unicode.MaxRune {
			out = append(out, r)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// closure lists the instructions that read a character, in order of preference, reached from pcs between two
// characters; matched tells whether a match ends here, and then less preferred threads are gone.
func (s rxSide) closure(pcs []uint32, cond syntax.EmptyOp) (out []uint32, matched bool) {
	seen := map[uint32]bool{}
	var add func(pc uint32) bool
	add = func(pc uint32) bool {
		if seen[pc] {
			return true
		}
		seen[pc] = true
		in := &s.p.Inst[pc]
		switch in.Op {
		case syntax.InstFail:
		case syntax.InstAlt, syntax.InstAltMatch:
			return add(in.Out) && add(in.Arg)
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(in.Arg)&^cond == 0 {
				return add(in.Out)
			}
		case syntax.InstNop, syntax.InstCapture:
			return add(in.Out)
		case syntax.InstMatch:
			matched = true
			return false
		default:
			out = append(out, pc)
		}
		return true
	}
	for _, pc := range pcs {
		if !add(pc) {
			break
		}
	}
	return out, matched
}

func (s rxSide) step(pcs []uint32, r rune) []uint32 {
	var out []uint32
	for _, pc := range pcs {
		if in := &s.p.Inst[pc]; in.MatchRune(r) {
			out = append(out, in.Out)
		}
	}
	return out
}

// rxSame: do two expressions match the same, at every place of every text? Otherwise a text that tells them apart.
func rxSame(x, y string) (same bool, text string, err error) {
	px, err := rxProg(x)
	if err != nil {
		return false, "", err
	}
	py, err := rxProg(y)
	if err != nil {
		return false, "", err
	}
	a, b := rxSide{px}, rxSide{py}
	runes := rxRunes(px, py)
	type conf struct {
		a, b []uint32
		prev rune // -1 at the beginning of the text
		diff bool // the last matches seen differ
		text string
		skip int // characters before the place
	}
	key := func(c conf) string { return fmt.Sprint(c.a, c.b, rxKind(c.prev), c.diff) }
	start := func(prev rune, text string) conf {
		return conf{a: []uint32{uint32(px.Start)}, b: []uint32{uint32(py.Start)}, prev: prev, text: text, skip: len(text)}
	}
	work := []conf{start(-1, "")}
	for _, r := range runes {
		work = append(work, start(r, string(r)))
	}
	seen := map[string]bool{}
	for len(work) > 0 {
		c := work[0]
		work = work[1:]
		if k := key(c); seen[k] {
			continue
		} else {
			seen[k] = true
		}
		if len(seen) > 200000 {
			return false, "", fmt.Errorf("too many states")
		}
		for i := -1; i < len(runes); i++ {
			next := rune(-1)
			if i >= 0 {
				next = runes[i]
			}
			cond := syntax.EmptyOpContext(c.prev, next)
			la, ma := a.closure(c.a, cond)
			lb, mb := b.closure(c.b, cond)
			diff := c.diff
			if ma || mb {
				diff = ma != mb
			}
			if next < 0 {
				if diff {
					return false, c.text, nil
				}
				continue
			}
			na, nb := a.step(la, next), b.step(lb, next)
			t := c.text + string(next)
			if len(na) == 0 && len(nb) == 0 {
				if diff {
					return false, t, nil
				}
				continue
			}
			work = append(work, conf{na, nb, next, diff, t, c.skip})
		}
	}
	return true, "", nil
}

// rxKind is what assertions look at in a character.
func rxKind(r rune) int {
	switch {
	case r < 0:
		return 0
	case r == '\n':
		return 1
	case syntax.IsWordChar(r):
		return 2
	}
	return 3
}
