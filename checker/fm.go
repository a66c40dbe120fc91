package main

import (
	"math/big"
	"math/bits"
	"sort"
)

// Fourier-Motzkin elimination over machine integers. Rows are sum co_i x_i + cn/cd <= 0 (or < 0),
// the coefficients integers without a common factor. Whenever a number leaves the range the caller
// falls back to the same elimination over arbitrary rationals (fmInfeasible).
type frow struct {
	co     []int64
	cn, cd int64
	strict bool
	isInt  bool
}

const fmRange = int64(1) << 40

type fmOverflow struct{}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func mul64(a, b int64) int64 {
	neg := (a < 0) != (b < 0)
	x, y := a, b
	if x < 0 {
		x = -x
	}
	if y < 0 {
		y = -y
	}
	hi, lo := bits.Mul64(uint64(x), uint64(y))
	if hi != 0 || lo > uint64(fmRange) {
		panic(fmOverflow{})
	}
	if neg {
		return -int64(lo)
	}
	return int64(lo)
}

func add64(a, b int64) int64 {
	r := a + b
	if r > fmRange || r < -fmRange {
		panic(fmOverflow{})
	}
	return r
}

// normal divides the row by the common factor of its coefficients and rounds the constant of an
// integer row.
func (r *frow) normal() {
	g := int64(0)
	for _, x := range r.co {
		if x != 0 {
			g = gcd64(g, x)
			if g == 1 {
				break
			}
		}
	}
	if g == 0 {
		return
	}
	if g > 1 {
		for i, x := range r.co {
			r.co[i] = x / g
		}
		r.cd = mul64(r.cd, g)
	}
	if h := gcd64(r.cn, r.cd); h > 1 {
		r.cn /= h
		r.cd /= h
	}
	if r.isInt && !r.strict && r.cd > 1 {
		// integer sum <= -c: the constant becomes ceil(c)
		q := r.cn / r.cd
		if r.cn > 0 && r.cn%r.cd != 0 {
			q++
		}
		r.cn, r.cd = q, 1
	}
}

func toInt64(x *big.Int) int64 {
	if !x.IsInt64() {
		panic(fmOverflow{})
	}
	v := x.Int64()
	if v > fmRange || v < -fmRange {
		panic(fmOverflow{})
	}
	return v
}

// fmTable numbers the monomials of a set of constraints.
func fmTable(sets ...[]*lin) map[string]int {
	seen := map[string]bool{}
	var ks []string
	for _, s := range sets {
		for _, l := range s {
			for k := range l.v {
				if !seen[k] {
					seen[k] = true
					ks = append(ks, k)
				}
			}
		}
	}
	sort.Strings(ks)
	m := make(map[string]int, len(ks))
	for i, k := range ks {
		m[k] = i
	}
	return m
}

func toRow(l *lin, tab map[string]int) *frow {
	den := int64(1)
	isInt := l.isInt
	for _, x := range l.v {
		if !x.IsInt() {
			d := toInt64(x.Denom())
			den = mul64(den, d/gcd64(den, d))
			isInt = false
		}
	}
	r := &frow{co: make([]int64, len(tab)), strict: l.strict, isInt: isInt}
	for k, x := range l.v {
		r.co[tab[k]] = mul64(toInt64(x.Num()), den/toInt64(x.Denom()))
	}
	r.cn = mul64(toInt64(l.c.Num()), den)
	r.cd = toInt64(l.c.Denom())
	return r
}

// infNeFast decides infNe on machine integers; ok is false when a number leaves the range.
func infNeFast(cs, nes []*lin) (res, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(fmOverflow); !is {
				panic(x)
			}
			res, ok = false, false
		}
	}()
	tab := fmTable(cs, nes)
	rows := make([]*frow, len(cs))
	for i, l := range cs {
		rows[i] = toRow(l, tab)
	}
	return infNeRows(rows, nes, tab), true
}

func infNeRows(rows []*frow, nes []*lin, tab map[string]int) bool {
	if fmRows(rows, len(tab)) {
		return true
	}
	if len(nes) == 0 {
		return false
	}
	n := nes[0]
	side := func(l *lin) *frow {
		r := toRow(l, tab)
		if l.isInt {
			r.cn = add64(r.cn, r.cd)
		} else {
			r.strict = true
		}
		return r
	}
	a := append(append([]*frow{}, rows...), side(n))
	if !infNeRows(a, nes[1:], tab) {
		return false
	}
	b := append(append([]*frow{}, rows...), side(n.neg()))
	return infNeRows(b, nes[1:], tab)
}

func rowKey(buf []byte, co []int64) []byte {
	buf = buf[:0]
	for i, x := range co {
		if x == 0 {
			continue
		}
		buf = append(buf, byte(i), byte(i>>8))
		u := uint64(x)
		for k := 0; k < 6; k++ {
			buf = append(buf, byte(u>>(8*k)))
		}
	}
	return buf
}

type rowSet struct {
	at   map[string]int
	rows []*frow
	buf  []byte
}

// add keeps the strongest constant per coefficient vector; true means a contradiction.
func (s *rowSet) add(r *frow) bool {
	r.normal()
	zero := true
	for _, x := range r.co {
		if x != 0 {
			zero = false
			break
		}
	}
	if zero {
		return r.cn > 0 || (r.cn == 0 && r.strict)
	}
	s.buf = rowKey(s.buf, r.co)
	i, ok := s.at[string(s.buf)]
	if !ok {
		s.at[string(s.buf)] = len(s.rows)
		s.rows = append(s.rows, r)
		return false
	}
	o := s.rows[i]
	// cn/cd against o.cn/o.cd
	x, y := mul128(r.cn, o.cd), mul128(o.cn, r.cd)
	if c := x.Cmp(y); c > 0 || (c == 0 && r.strict) {
		s.rows[i] = r
	}
	return false
}

func mul128(a, b int64) *big.Int { return new(big.Int).Mul(big.NewInt(a), big.NewInt(b)) }

func fmRows(in []*frow, n int) bool {
	s := &rowSet{at: make(map[string]int, len(in))}
	for _, r := range in {
		c := *r
		c.co = append([]int64(nil), r.co...)
		if s.add(&c) {
			return true
		}
	}
	pc, nc := make([]int, n), make([]int, n)
	for len(s.rows) > 0 {
		for i := range pc {
			pc[i], nc[i] = 0, 0
		}
		for _, r := range s.rows {
			for i, x := range r.co {
				if x > 0 {
					pc[i]++
				} else if x < 0 {
					nc[i]++
				}
			}
		}
		best, bv := -1, 1<<30
		for i := range pc {
			if pc[i]+nc[i] == 0 {
				continue
			}
			if p := pc[i]*nc[i] - pc[i] - nc[i]; p < bv {
				best, bv = i, p
			}
		}
		if best < 0 {
			return false
		}
		if pc[best]*nc[best] > fmMax*4 {
			return false
		}
		ns := &rowSet{at: make(map[string]int, len(s.rows))}
		var pos, neg []*frow
		for _, r := range s.rows {
			switch x := r.co[best]; {
			case x > 0:
				pos = append(pos, r)
			case x < 0:
				neg = append(neg, r)
			default:
				ns.at[string(rowKey(nil, r.co))] = len(ns.rows)
				ns.rows = append(ns.rows, r)
			}
		}
		for _, p := range pos {
			for _, q := range neg {
				a, b := -q.co[best], p.co[best]
				g := gcd64(a, b)
				a, b = a/g, b/g
				r := &frow{co: make([]int64, n), strict: p.strict || q.strict, isInt: p.isInt && q.isInt}
				for i := range r.co {
					x, y := p.co[i], q.co[i]
					if x != 0 {
						x = mul64(x, a)
					}
					if y != 0 {
						y = mul64(y, b)
					}
					r.co[i] = add64(x, y)
				}
				r.co[best] = 0
				d := gcd64(p.cd, q.cd)
				r.cn = add64(mul64(mul64(p.cn, a), q.cd/d), mul64(mul64(q.cn, b), p.cd/d))
				r.cd = mul64(p.cd, q.cd/d)
				if ns.add(r) {
					return true
				}
			}
		}
		if len(ns.rows) > fmMax {
			return false
		}
		s = ns
	}
	return false
}

// Answers are kept per set of constraints. A set is told by the sum of its members' hashes.
var (
	fmMemo = map[setHash]bool{}
	fmIDs  = map[string]int32{}
)

type setHash struct{ a, b uint64 }

func (s *setHash) add(t setHash) { s.a += t.a; s.b += t.b }

func (s setHash) times(x uint64) setHash { return setHash{s.a*x + x, s.b*x + x} }

func mix(h, x uint64) uint64 {
	h ^= x
	h *= 0x9E3779B97F4A7C15
	h ^= h >> 29
	h *= 0xBF58476D1CE4E5B9
	return h ^ h>>32
}

// nums are the numbers of the monomials of l; its hash is computed along with them.
func (l *lin) nums() []int32 {
	if l.ids != nil {
		return l.ids
	}
	l.ids = make([]int32, 0, len(l.v))
	var sum setHash
	for k, x := range l.v {
		g, ok := fmIDs[k]
		if !ok {
			g = int32(len(fmIDs))
			fmIDs[k] = g
		}
		l.ids = append(l.ids, g)
		n, d := hashInt(x.Num()), hashInt(x.Denom())
		sum.add(setHash{mix(mix(mix(1, uint64(g)), n), d), mix(mix(mix(2, uint64(g)), n), d)})
	}
	n, d := hashInt(l.c.Num()), hashInt(l.c.Denom())
	f := uint64(0)
	for i, b := range []bool{l.strict, l.ne, l.isInt} {
		if b {
			f |= 1 << i
		}
	}
	l.h = setHash{mix(mix(mix(mix(3, sum.a), n), d), f), mix(mix(mix(mix(4, sum.b), n), d), f)}
	return l.ids
}

func hashInt(x *big.Int) uint64 {
	h := uint64(7)
	if x.Sign() < 0 {
		h = 11
	}
	for _, w := range x.Bits() {
		h = mix(h, uint64(w))
	}
	return h
}
