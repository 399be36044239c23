package main

import "fmt"

// Zone domain: difference-bound matrices over symbols. Symbol 0 is the constant zero.

const inf = int64(1) << 40

// Lin is a symbol plus a constant offset; {0,c} is the constant c.
type Lin struct {
	s int
	o int64
}

func con(c int64) Lin         { return Lin{0, c} }
func (l Lin) add(c int64) Lin { return Lin{l.s, l.o + c} }
func (l Lin) isConst() bool   { return l.s == 0 }
func (l Lin) String() string {
	if l.s == 0 {
		return fmt.Sprint(l.o)
	}
	if l.o == 0 {
		return fmt.Sprintf("s%d", l.s)
	}
	return fmt.Sprintf("s%d%+d", l.s, l.o)
}

// DBM is kept closed (all implied bounds explicit).
type DBM struct {
	n int
	d []int64 // d[i*n+j]: upper bound of v_i - v_j
}

func newDBM() *DBM { return &DBM{n: 1, d: []int64{0}} }

func (z *DBM) clone() *DBM {
	d := make([]int64, len(z.d))
	copy(d, z.d)
	return &DBM{z.n, d}
}

// fresh adds an unconstrained symbol.
func (z *DBM) fresh() int {
	n := z.n
	m := n + 1
	d := make([]int64, m*m)
	for i := 0; i < n; i++ {
		copy(d[i*m:i*m+n], z.d[i*n:i*n+n])
		d[i*m+n] = inf
		d[n*m+i] = inf
	}
	z.n, z.d = m, d
	return n
}

func addB(a, b int64) int64 {
	if a >= inf || b >= inf {
		return inf
	}
	return a + b
}

// add imposes v_i - v_j <= c; it reports whether the system stays satisfiable.
func (z *DBM) add(i, j int, c int64) bool {
	n := z.n
	if i == j {
		return c >= 0
	}
	if c >= z.d[i*n+j] {
		return true
	}
	if addB(z.d[j*n+i], c) < 0 {
		return false
	}
	z.d[i*n+j] = c
	for a := 0; a < n; a++ {
		ai := z.d[a*n+i]
		if ai >= inf {
			continue
		}
		aij := ai + c
		for b := 0; b < n; b++ {
			jb := z.d[j*n+b]
			if jb >= inf {
				continue
			}
			if v := aij + jb; v < z.d[a*n+b] {
				z.d[a*n+b] = v
			}
		}
	}
	return true
}

// ub is the least known upper bound of a - b.
func (z *DBM) ub(a, b Lin) int64 {
	if a.s == b.s {
		return a.o - b.o
	}
	v := z.d[a.s*z.n+b.s]
	if v >= inf {
		return inf
	}
	return v + a.o - b.o
}

// lb is the greatest known lower bound of a - b.
func (z *DBM) lb(a, b Lin) int64 {
	v := z.ub(b, a)
	if v >= inf {
		return -inf
	}
	return -v
}

// le imposes a - b <= c.
func (z *DBM) le(a, b Lin, c int64) bool {
	if a.s == b.s {
		return a.o-b.o <= c
	}
	return z.add(a.s, b.s, c-a.o+b.o)
}

func (z *DBM) eq(a, b Lin) bool { return z.le(a, b, 0) && z.le(b, a, 0) }

// entailed relations
func (z *DBM) isLe(a, b Lin, c int64) bool { return z.ub(a, b) <= c }
func (z *DBM) isEq(a, b Lin) bool          { return z.ub(a, b) == 0 && z.ub(b, a) == 0 }
func (z *DBM) canEq(a, b Lin) bool         { return z.ub(a, b) >= 0 && z.ub(b, a) >= 0 }

// diff gives a-b when it is a known constant.
func (z *DBM) diff(a, b Lin) (int64, bool) {
	u, l := z.ub(a, b), z.lb(a, b)
	if u == l {
		return u, true
	}
	return 0, false
}

func (z *DBM) close() bool {
	n := z.n
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			ik := z.d[i*n+k]
			if ik >= inf {
				continue
			}
			for j := 0; j < n; j++ {
				kj := z.d[k*n+j]
				if kj >= inf {
					continue
				}
				if ik+kj < z.d[i*n+j] {
					z.d[i*n+j] = ik + kj
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		if z.d[i*n+i] < 0 {
			return false
		}
	}
	return true
}

// join is the pointwise maximum of two matrices over the same symbols.
func (z *DBM) join(y *DBM) {
	for i := range z.d {
		if y.d[i] > z.d[i] {
			z.d[i] = y.d[i]
		}
	}
}
