package main

// Terms: hash-consed value-graph nodes. Numeric terms are kept in a rational-function
// normal form (sum of monomials over atoms, atoms may carry negative exponents, and a
// multi-monomial denominator is a Group atom). Booleans are decision diagrams over
// comparison atoms (Ite / Lt0 / Eq0).

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Op uint8

const (
	OpPoly   Op = iota // numeric normal form
	OpSym              // free symbol (input scalar, length, assumption symbol)
	OpVar              // bound / loop variable, placeholder
	OpApp              // uninterpreted application (incl. input element reads)
	OpIte              // args: cond, then, else
	OpLt0              // args[0] < 0
	OpEq0              // args[0] == 0
	OpEqO              // args[0] == args[1], non numeric
	OpBool             // constant
	OpStr              // constant (string or other opaque constant)
	OpRec              // recurrence application
	OpGroup            // parenthesised polynomial, only used under negative exponents
	OpOpaque           // unknown value
	OpFirst            // least k with exit condition
)

type Sort uint8

const (
	SInt Sort = iota
	SReal
	SBool
	SOther
)

type Term struct {
	id        int
	op        Op
	sort      Sort
	name      string
	bval      bool
	args      []*Term
	poly      *Poly
	grp       *RecGroup
	comp      int
	ph        bool    // contains a placeholder of a loop still being solved
	mu        bool    // contains a mu reference
	height    int     // nesting height of recurrences
	bad       bool    // contains an opaque value
	fv        []*Term // free OpVar's, sorted by id (nil if none)
	size      int
	condState int8
}

// RecGroup is a set of mutually recursive definitions. Bodies are kept with unique
// parameter variables and with a unique tag: a reference to component i of the same group
// is the application "μ<uid>.<i>".
type RecGroup struct {
	id     int
	name   string
	params [][]*Term // per component, OpVar
	body   []*Term
	sort   []Sort
	first  bool // single component: body is the exit condition in params[0][0]
	bad    bool
	fv     []*Term
	ph     bool
	mu     bool // bodies contain self references (or references to an enclosing group)
	height int
	size   int
	tag    string
}

type Mono struct {
	coef *big.Rat
	fac  []Factor
}
type Factor struct {
	a *Term
	e int
}
type Poly struct{ m []Mono } // sorted by key, no zero coefs

// ---- term bank
var (
	bank    = map[string]*Term{}
	nextID  = 1
	zeroRat = new(big.Rat)
	oneRat  = big.NewRat(1, 1)
)

func intern(key string, mk func() *Term) *Term {
	if t, ok := bank[key]; ok {
		return t
	}
	t := mk()
	t.id = nextID
	nextID++
	t.size = 1
	t.finish()
	bank[key] = t
	return t
}

func (t *Term) finish() {
	set := map[int]*Term{}
	add := func(x *Term) {
		if x.bad {
			t.bad = true
		}
		t.ph = t.ph || x.ph
		t.mu = t.mu || x.mu
		if x.height > t.height {
			t.height = x.height
		}
		t.size += x.size
		for _, v := range x.fv {
			set[v.id] = v
		}
	}
	if t.op == OpOpaque {
		t.bad = true
	}
	if t.op == OpVar {
		set[t.id] = t
	}
	if t.op == OpApp && strings.HasPrefix(t.name, "κ") {
		t.ph = true
	}
	if t.op == OpApp && strings.HasPrefix(t.name, "μ") {
		t.mu = true
	}
	if t.grp != nil {
		t.height = t.grp.height
		t.ph = t.ph || t.grp.ph
		t.mu = t.mu || t.grp.mu
		t.bad = t.bad || t.grp.bad
		t.size += t.grp.size
		for _, v := range t.grp.fv {
			set[v.id] = v
		}
	}
	for _, a := range t.args {
		add(a)
	}
	if t.poly != nil {
		for _, m := range t.poly.m {
			for _, f := range m.fac {
				add(f.a)
			}
		}
	}
	if t.size > 1<<40 {
		t.size = 1 << 40
	}
	if len(set) > 0 {
		t.fv = make([]*Term, 0, len(set))
		for _, v := range set {
			t.fv = append(t.fv, v)
		}
		sort.Slice(t.fv, func(i, j int) bool { return t.fv[i].id < t.fv[j].id })
	}
}

func ids(args []*Term) string {
	var b strings.Builder
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	return b.String()
}

func mkSym(name string, s Sort) *Term {
	return intern("S:"+name, func() *Term { return &Term{op: OpSym, name: name, sort: s} })
}

var varCtr int

func mkFreshVar(name string, s Sort) *Term {
	varCtr++
	return mkVar(fmt.Sprintf("%s'%d", name, varCtr), s)
}
func mkVar(name string, s Sort) *Term {
	return intern(fmt.Sprintf("V:%d:%s", s, name), func() *Term { return &Term{op: OpVar, name: name, sort: s} })
}

var opqCtr int
var opaqueWhy = map[string]int{}

func mkOpaque(why string, s Sort) *Term {
	opqCtr++
	opaqueWhy[why]++
	n := fmt.Sprintf("?%s#%d", why, opqCtr)
	return intern("Q:"+n, func() *Term { return &Term{op: OpOpaque, name: n, sort: s} })
}
func mkApp(name string, s Sort, args ...*Term) *Term {
	return intern(fmt.Sprintf("A:%s:%s", name, ids(args)), func() *Term { return &Term{op: OpApp, name: name, sort: s, args: args} })
}
func mkStr(name string) *Term {
	return intern("C:"+name, func() *Term { return &Term{op: OpStr, name: name, sort: SOther} })
}

var tTrue = intern("B:1", func() *Term { return &Term{op: OpBool, bval: true, sort: SBool} })
var tFalse = intern("B:0", func() *Term { return &Term{op: OpBool, bval: false, sort: SBool} })

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

// ---- polynomials

func factorKey(f []Factor) string {
	var b strings.Builder
	for _, x := range f {
		fmt.Fprintf(&b, "%d^%d.", x.a.id, x.e)
	}
	return b.String()
}

// cmpFac orders monomials by decreasing total degree, then by atom ids.
func cmpFac(a, b []Factor) int {
	da, db := 0, 0
	for _, f := range a {
		da += abs(f.e)
	}
	for _, f := range b {
		db += abs(f.e)
	}
	if da != db {
		return db - da
	}
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i].a.id != b[i].a.id {
			return a[i].a.id - b[i].a.id
		}
		if a[i].e != b[i].e {
			return b[i].e - a[i].e
		}
	}
	return len(a) - len(b)
}
func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

func mkPolyTerm(p *Poly) *Term {
	if len(p.m) == 1 && len(p.m[0].fac) == 1 && p.m[0].fac[0].e == 1 && p.m[0].coef.Cmp(oneRat) == 0 && p.m[0].fac[0].a.op != OpGroup {
		return p.m[0].fac[0].a
	}
	var b strings.Builder
	b.WriteString("P:")
	isInt := true
	for _, m := range p.m {
		b.WriteString(m.coef.RatString())
		b.WriteByte('*')
		b.WriteString(factorKey(m.fac))
		b.WriteByte('+')
		if !m.coef.IsInt() {
			isInt = false
		}
		for _, f := range m.fac {
			if f.a.sort != SInt || f.e < 0 {
				isInt = false
			}
		}
	}
	s := SReal
	if isInt {
		s = SInt
	}
	return intern(b.String(), func() *Term { return &Term{op: OpPoly, sort: s, poly: p} })
}

func toPoly(t *Term) *Poly {
	if t.op == OpPoly {
		return t.poly
	}
	return &Poly{m: []Mono{{coef: oneRat, fac: []Factor{{t, 1}}}}}
}

func mkRat(r *big.Rat) *Term {
	if r.Sign() == 0 {
		return mkPolyTerm(&Poly{})
	}
	return mkPolyTerm(&Poly{m: []Mono{{coef: r}}})
}
func mkInt(i int64) *Term { return mkRat(new(big.Rat).SetInt64(i)) }

var t0, t1 *Term

func init() { t0 = mkInt(0); t1 = mkInt(1) }

func normMonos(ms []Mono) *Poly {
	sort.SliceStable(ms, func(i, j int) bool { return cmpFac(ms[i].fac, ms[j].fac) < 0 })
	out := ms[:0:0]
	for _, m := range ms {
		if n := len(out); n > 0 && cmpFac(out[n-1].fac, m.fac) == 0 {
			out[n-1] = Mono{new(big.Rat).Add(out[n-1].coef, m.coef), m.fac}
			continue
		}
		out = append(out, m)
	}
	res := out[:0:0]
	for _, m := range out {
		if m.coef.Sign() != 0 {
			res = append(res, m)
		}
	}
	return &Poly{m: res}
}

func polyAdd(a, b *Poly) *Poly {
	ms := make([]Mono, 0, len(a.m)+len(b.m))
	ms = append(ms, a.m...)
	ms = append(ms, b.m...)
	return normMonos(ms)
}
func polyScale(a *Poly, r *big.Rat) *Poly {
	if r.Sign() == 0 {
		return &Poly{}
	}
	ms := make([]Mono, len(a.m))
	for i, m := range a.m {
		ms[i] = Mono{new(big.Rat).Mul(m.coef, r), m.fac}
	}
	return &Poly{m: ms}
}
func mulFac(a, b []Factor) []Factor {
	out := make([]Factor, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i].a.id < b[j].a.id):
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j].a.id < a[i].a.id:
			out = append(out, b[j])
			j++
		default:
			if e := a[i].e + b[j].e; e != 0 {
				out = append(out, Factor{a[i].a, e})
			}
			i++
			j++
		}
	}
	return out
}

const maxMonos = 4000

func polyMul(a, b *Poly) *Poly {
	if len(a.m)*len(b.m) > maxMonos {
		return nil
	}
	ms := make([]Mono, 0, len(a.m)*len(b.m))
	for _, x := range a.m {
		for _, y := range b.m {
			ms = append(ms, Mono{new(big.Rat).Mul(x.coef, y.coef), mulFac(x.fac, y.fac)})
		}
	}
	p := normMonos(ms)
	return expandGroups(p)
}

// expandGroups replaces positive powers of Group atoms by their polynomial.
func expandGroups(p *Poly) *Poly {
	for {
		found := false
		for mi, m := range p.m {
			for fi, f := range m.fac {
				if f.a.op == OpGroup && f.e > 0 {
					rest := make([]Factor, 0, len(m.fac))
					rest = append(rest, m.fac[:fi]...)
					if f.e > 1 {
						rest = append(rest, Factor{f.a, f.e - 1})
					}
					rest = append(rest, m.fac[fi+1:]...)
					var ms []Mono
					ms = append(ms, p.m[:mi]...)
					ms = append(ms, p.m[mi+1:]...)
					for _, g := range f.a.args[0].poly.m {
						ms = append(ms, Mono{new(big.Rat).Mul(m.coef, g.coef), mulFac(rest, g.fac)})
					}
					p = normMonos(ms)
					found = true
					break
				}
			}
			if found {
				break
			}
		}
		if !found {
			return p
		}
	}
}

func mkAdd(a, b *Term) *Term { return mkPolyTerm(polyAdd(toPoly(a), toPoly(b))) }
func mkNeg(a *Term) *Term    { return mkPolyTerm(polyScale(toPoly(a), big.NewRat(-1, 1))) }
func mkSub(a, b *Term) *Term {
	return mkPolyTerm(polyAdd(toPoly(a), polyScale(toPoly(b), big.NewRat(-1, 1))))
}
func mkMul(a, b *Term) *Term {
	p := polyMul(toPoly(a), toPoly(b))
	if p == nil {
		return mkOpaque("polysize", SReal)
	}
	return mkPolyTerm(cancelGroups(p))
}

// cancelGroups tries, for each Group atom g with exponent -1, to divide the part of the
// polynomial carrying that factor by g when it is an exact scalar multiple of g.
func cancelGroups(p *Poly) *Poly {
	groups := map[int]*Term{}
	for _, m := range p.m {
		for _, f := range m.fac {
			if f.a.op == OpGroup {
				groups[f.a.id] = f.a
			}
		}
	}
	for _, g := range groups {
		var with, without []Mono
		for _, m := range p.m {
			has := false
			for i, f := range m.fac {
				if f.a == g && f.e == -1 {
					rest := make([]Factor, 0, len(m.fac)-1)
					rest = append(rest, m.fac[:i]...)
					rest = append(rest, m.fac[i+1:]...)
					with = append(with, Mono{m.coef, rest})
					has = true
				}
			}
			if !has {
				without = append(without, m)
			}
		}
		if len(with) == 0 {
			continue
		}
		if q, ok := polyDivExact(normMonos(with), g.args[0].poly); ok {
			p = normMonos(append(append([]Mono{}, without...), q.m...))
		}
	}
	return p
}

// polyDivExact divides a by b if the quotient is a polynomial (monomial order division).
func polyDivExact(a, b *Poly) (*Poly, bool) {
	if len(b.m) == 0 || len(a.m) < len(b.m) {
		return nil, false
	}
	var q []Mono
	r := a
	for step := 0; len(r.m) > 0; step++ {
		if step > len(a.m)+4 {
			return nil, false
		}
		lead, bl := r.m[0], b.m[0]
		inv := make([]Factor, len(bl.fac))
		for i, f := range bl.fac {
			inv[i] = Factor{f.a, -f.e}
		}
		fac := mulFac(lead.fac, inv)
		for _, f := range fac {
			// a genuine division must not introduce new denominators
			if f.e < 0 {
				neg := false
				for _, lf := range lead.fac {
					if lf.a == f.a && lf.e < 0 {
						neg = true
					}
				}
				if !neg {
					return nil, false
				}
			}
		}
		c := new(big.Rat).Quo(lead.coef, bl.coef)
		q = append(q, Mono{c, fac})
		var ms []Mono
		ms = append(ms, r.m...)
		nc := new(big.Rat).Neg(c)
		for _, m := range b.m {
			ms = append(ms, Mono{new(big.Rat).Mul(nc, m.coef), mulFac(fac, m.fac)})
		}
		nr := normMonos(ms)
		if len(nr.m) > len(r.m)+len(b.m) {
			return nil, false
		}
		r = nr
	}
	return normMonos(q), true
}

func mkGroup(t *Term) *Term {
	return intern(fmt.Sprintf("G:%d", t.id), func() *Term { return &Term{op: OpGroup, args: []*Term{t}, sort: SReal} })
}

// mkInv is 1/t for t not identically zero.
func mkInv(t *Term) *Term {
	p := toPoly(t)
	if len(p.m) == 0 {
		return mkApp("inf", SReal)
	}
	if len(p.m) == 1 {
		m := p.m[0]
		inv := make([]Factor, len(m.fac))
		for i, f := range m.fac {
			inv[i] = Factor{f.a, -f.e}
		}
		return mkPolyTerm(expandGroups(&Poly{m: []Mono{{new(big.Rat).Inv(m.coef), inv}}}))
	}
	// pull out common denominators: t = c * t' with t' monic; also clear negative exponents
	c := p.m[0].coef
	mon := polyScale(p, new(big.Rat).Inv(c))
	// common factor extraction: minimal exponents over all monomials
	common := map[int]Factor{}
	for i, m := range mon.m {
		cur := map[int]Factor{}
		for _, f := range m.fac {
			cur[f.a.id] = f
		}
		if i == 0 {
			for k, f := range cur {
				common[k] = f
			}
			continue
		}
		for k, f := range common {
			g, ok := cur[k]
			if !ok {
				if f.e > 0 {
					delete(common, k)
				}
				continue
			}
			if g.e < f.e {
				common[k] = g
			}
		}
		for k, g := range cur {
			if _, ok := common[k]; !ok && g.e < 0 {
				common[k] = g
			}
		}
	}
	var cf []Factor
	for _, f := range common {
		cf = append(cf, f)
	}
	sort.Slice(cf, func(i, j int) bool { return cf[i].a.id < cf[j].a.id })
	if len(cf) > 0 {
		inv := make([]Factor, len(cf))
		for i, f := range cf {
			inv[i] = Factor{f.a, -f.e}
		}
		q := expandGroups(normMonos(func() []Mono {
			var ms []Mono
			for _, m := range mon.m {
				ms = append(ms, Mono{m.coef, mulFac(m.fac, inv)})
			}
			return ms
		}()))
		lead := mkPolyTerm(&Poly{m: []Mono{{new(big.Rat).Inv(c), inv}}})
		if len(q.m) == 1 {
			return mkMul(lead, mkInv(mkPolyTerm(q)))
		}
		if len(q.m) == 0 {
			return mkApp("inf", SReal)
		}
		c2 := q.m[0].coef
		g := mkGroup(mkPolyTerm(polyScale(q, new(big.Rat).Inv(c2))))
		return mkPolyTerm(polyScale(&Poly{m: []Mono{{oneRat, mulFac(toPoly(lead).m[0].fac, []Factor{{g, -1}})}}},
			new(big.Rat).Mul(toPoly(lead).m[0].coef, new(big.Rat).Inv(c2))))
	}
	g := mkGroup(mkPolyTerm(mon))
	return mkPolyTerm(&Poly{m: []Mono{{new(big.Rat).Inv(c), []Factor{{g, -1}}}}})
}
func mkDiv(a, b *Term) *Term { return mkMul(a, mkInv(b)) }

func (t *Term) isConst() (*big.Rat, bool) {
	if t.op != OpPoly {
		return nil, false
	}
	if len(t.poly.m) == 0 {
		return zeroRat, true
	}
	if len(t.poly.m) == 1 && len(t.poly.m[0].fac) == 0 {
		return t.poly.m[0].coef, true
	}
	return nil, false
}
func (t *Term) constInt() (int64, bool) {
	r, ok := t.isConst()
	if !ok || !r.IsInt() || !r.Num().IsInt64() {
		return 0, false
	}
	return r.Num().Int64(), true
}

// isIntTerm: provably integer valued.
func isIntTerm(t *Term) bool {
	if t.op == OpPoly {
		for _, m := range t.poly.m {
			if !m.coef.IsInt() {
				return false
			}
			for _, f := range m.fac {
				if f.e < 0 || f.a.sort != SInt {
					return false
				}
			}
		}
		return true
	}
	return t.sort == SInt
}

// ---- booleans

// mkLt0: t < 0
// liftConst applies a test to the leaves of a decision diagram whose leaves are constants.
func liftConst(t *Term, fn func(*Term) *Term) *Term {
	x, scale, off := t, t1, t0
	if t.op == OpPoly {
		ms := t.poly.m
		if len(ms) > 2 || len(ms[0].fac) != 1 || ms[0].fac[0].e != 1 || len(ms) == 2 && len(ms[1].fac) > 0 {
			return nil
		}
		x, scale = ms[0].fac[0].a, mkRat(ms[0].coef)
		if len(ms) == 2 {
			off = mkRat(ms[1].coef)
		}
	}
	if x.op != OpIte {
		return nil
	}
	seen := map[int]bool{}
	var flat func(u *Term) bool
	flat = func(u *Term) bool {
		if seen[u.id] {
			return true
		}
		seen[u.id] = true
		if u.op != OpIte {
			_, ok := u.isConst()
			return ok
		}
		return len(seen) < 400 && flat(u.args[1]) && flat(u.args[2])
	}
	if !flat(x) {
		return nil
	}
	memo := map[int]*Term{}
	var apply func(u *Term) *Term
	apply = func(u *Term) *Term {
		r, ok := memo[u.id]
		if !ok {
			if u.op == OpIte {
				r = mkIte(u.args[0], apply(u.args[1]), apply(u.args[2]))
			} else {
				r = fn(mkAdd(mkMul(scale, u), off))
			}
			memo[u.id] = r
		}
		return r
	}
	return apply(x)
}

func mkLt0(t *Term) *Term {
	if r, ok := t.isConst(); ok {
		return mkBool(r.Sign() < 0)
	}
	if r := liftConst(t, mkLt0); r != nil {
		return r
	}
	p := toPoly(t)
	for _, m := range p.m { // infinities dominate
		if len(m.fac) == 1 && m.fac[0].a == tInf && m.fac[0].e == 1 {
			return mkBool(m.coef.Sign() < 0)
		}
	}
	lead := p.m[0].coef
	sc := new(big.Rat).Abs(new(big.Rat).Inv(lead))
	if isIntTerm(t) {
		// primitive integer polynomial
		g := new(big.Int)
		for _, m := range p.m {
			if len(m.fac) == 0 {
				continue
			}
			g.GCD(nil, nil, g, new(big.Int).Abs(m.coef.Num()))
		}
		sc = new(big.Rat).SetFrac(big.NewInt(1), g)
		q := polyScale(p, sc)
		// c may be fractional: x + c < 0 with x integer  <=>  x + ceil(c)... use x < -c <=> x <= ceil(-c)-1
		ms := append([]Mono{}, q.m...)
		n := len(ms)
		if n > 0 && len(ms[n-1].fac) == 0 && !ms[n-1].coef.IsInt() {
			// floor(c): x + c < 0  <=> x < -c <=> x + floor(c) < 0  when c non-integer (x <= ceil(-c)-1 = -floor(c)-1)
			fl := new(big.Int).Div(ms[n-1].coef.Num(), ms[n-1].coef.Denom())
			ms[n-1] = Mono{new(big.Rat).SetInt(fl), nil}
			q = normMonos(ms)
		}
		if q.m[0].coef.Sign() < 0 {
			// -y < 0 <=> y > 0 <=> not (y < 1) <=> not (y - 1 < 0)
			y := polyScale(q, big.NewRat(-1, 1))
			y = polyAdd(y, &Poly{m: []Mono{{big.NewRat(-1, 1), nil}}})
			return mkNot(rawLt0(mkPolyTerm(y)))
		}
		return rawLt0(mkPolyTerm(q))
	}
	return rawLt0(mkPolyTerm(polyScale(p, sc)))
}
func rawLt0(t *Term) *Term {
	if r, ok := t.isConst(); ok {
		return mkBool(r.Sign() < 0)
	}
	return intern(fmt.Sprintf("L:%d", t.id), func() *Term { return &Term{op: OpLt0, args: []*Term{t}, sort: SBool} })
}
func mkEq0(t *Term) *Term {
	if r, ok := t.isConst(); ok {
		return mkBool(r.Sign() == 0)
	}
	if r := liftConst(t, mkEq0); r != nil {
		return r
	}
	p := toPoly(t)
	q := polyScale(p, new(big.Rat).Inv(p.m[0].coef))
	if isIntTerm(t) {
		g := new(big.Int)
		for _, m := range p.m {
			if len(m.fac) > 0 {
				g.GCD(nil, nil, g, new(big.Int).Abs(m.coef.Num()))
			}
		}
		q = polyScale(p, new(big.Rat).SetFrac(big.NewInt(1), g))
		if q.m[0].coef.Sign() < 0 {
			q = polyScale(q, big.NewRat(-1, 1))
		}
		if n := len(q.m); len(q.m[n-1].fac) == 0 && !q.m[n-1].coef.IsInt() {
			return tFalse
		}
	}
	u := mkPolyTerm(q)
	return intern(fmt.Sprintf("E:%d", u.id), func() *Term { return &Term{op: OpEq0, args: []*Term{u}, sort: SBool} })
}
func mkLt(a, b *Term) *Term { return mkLt0(mkSub(a, b)) }
func mkLe(a, b *Term) *Term { return mkNot(mkLt(b, a)) }
func mkEqNum(a, b *Term) *Term {
	return mkEq0(mkSub(a, b))
}
func mkEqO(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.op == OpStr && b.op == OpStr {
		return tFalse
	}
	if (a == tNil && b.op == OpApp && nonNilFun(b.name)) || (b == tNil && a.op == OpApp && nonNilFun(a.name)) {
		return tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(fmt.Sprintf("O:%d,%d", a.id, b.id), func() *Term { return &Term{op: OpEqO, args: []*Term{a, b}, sort: SBool} })
}

// mkEq for any sort.
func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	switch {
	case a.sort == SBool:
		return mkIte(a, b, mkNot(b))
	case a.sort == SOther || b.sort == SOther:
		return mkEqO(a, b)
	}
	return mkEqNum(a, b)
}

func mkNot(a *Term) *Term { return mkIte(a, tFalse, tTrue) }
func mkAnd(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	return mkIte(a, b, tFalse)
}
func mkOr(a, b *Term) *Term {
	if a == tFalse {
		return b
	}
	return mkIte(a, tTrue, b)
}

// topCond of a (possibly boolean) term viewed as a decision diagram.
func isAtomBool(t *Term) bool {
	return t.sort == SBool && t.op != OpIte && t.op != OpBool
}

type iteKey struct{ c, a, b int }

var iteMemo = map[iteKey]*Term{}

// mkIte builds a canonical decision diagram: conditions are atoms, ordered by id from the
// root; nested conditions are flattened (ROBDD-style apply).
func mkIte(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if a == tTrue && b == tFalse {
		return c
	}
	if c.sort != SBool {
		return mkOpaque("non-boolean condition", a.sort)
	}
	k := iteKey{c.id, a.id, b.id}
	if t, ok := iteMemo[k]; ok {
		return t
	}
	t := iteApply(c, a, b)
	iteMemo[k] = t
	return t
}

func rootAtom(t *Term) *Term {
	if t.op == OpIte {
		return t.args[0]
	}
	if isAtomBool(t) {
		return t
	}
	return nil
}
func cofactor(t, atom *Term, v bool) *Term {
	if t.op == OpIte && t.args[0] == atom {
		if v {
			return t.args[1]
		}
		return t.args[2]
	}
	if t == atom {
		return mkBool(v)
	}
	return t
}
func iteApply(c, a, b *Term) *Term {
	// choose smallest root atom
	best := rootAtom(c)
	for _, x := range []*Term{a, b} {
		if r := rootAtom(x); r != nil && r.id < best.id {
			best = r
		}
	}
	if c == best && rootAtom(a) != best && rootAtom(b) != best {
		return rawIte(c, a, b)
	}
	th := mkIte(cofactor(c, best, true), cofactor(a, best, true), cofactor(b, best, true))
	el := mkIte(cofactor(c, best, false), cofactor(a, best, false), cofactor(b, best, false))
	return rawIte(best, th, el)
}
func rawIte(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	if a == tTrue && b == tFalse {
		return c
	}
	// [x == e ? a : b] is b when b agrees with a at x = e
	if c.op == OpEq0 && a.sort != SBool {
		if v, e := solveVar(c.args[0]); v != nil && (hasVar(a, v) || hasVar(b, v)) {
			sub := newSubst()
			sub.vars[v.id] = e
			if sub.apply(b) == sub.apply(a) {
				return b
			}
		}
	}
	s := a.sort
	if s == SInt && b.sort == SReal {
		s = SReal
	}
	return intern(fmt.Sprintf("I:%d,%d,%d", c.id, a.id, b.id), func() *Term { return &Term{op: OpIte, args: []*Term{c, a, b}, sort: s} })
}

// solveVar: t == 0 as v == e for an integer variable v with coefficient +-1.
func solveVar(t *Term) (*Term, *Term) {
	if len(t.fv) == 0 {
		return nil, nil
	}
	p := toPoly(t)
	for _, m := range p.m {
		if len(m.fac) != 1 || m.fac[0].e != 1 || m.fac[0].a.op != OpVar || m.fac[0].a.sort != SInt {
			continue
		}
		v := m.fac[0].a
		co, rest, ok := affineIn(t, v)
		if !ok || (co != 1 && co != -1) || hasVar(rest, v) {
			continue
		}
		if co == 1 {
			rest = mkNeg(rest)
		}
		return v, rest
	}
	return nil, nil
}

func mkMax(a, b *Term) *Term { return mkIte(mkLt(a, b), b, a) }
func mkMin(a, b *Term) *Term { return mkIte(mkLt(b, a), b, a) }
func mkAbs(a *Term) *Term    { return mkIte(mkLt0(a), mkNeg(a), a) }

// ---- recurrences

func muName(tag string, i int) string { return fmt.Sprintf("%s.%d", tag, i) }

var groupBank = map[string]*RecGroup{}
var groupCtr int
var muGroups = map[string]*RecGroup{}
var muCtr int

func freshMuTag() string {
	muCtr++
	return fmt.Sprintf("μ%d", muCtr)
}

// mkRecGroup closes over the given parameter variables; self references in the bodies are
// applications of muName(tag, i). Groups equal up to renaming are shared.
func mkRecGroup(name string, params [][]*Term, body []*Term, tag string, first bool) *RecGroup {
	h := 0
	for _, b := range body {
		if b.height > h {
			h = b.height
		}
	}
	h++
	var key strings.Builder
	fmt.Fprintf(&key, "%v|%d", first, h)
	for i, b := range body {
		sub := newSubst()
		for j, p := range params[i] {
			sub.vars[p.id] = mkVar(fmt.Sprintf("%%%d.%d", h, j), p.sort)
		}
		if b.mu {
			sub.muApps = true
			sub.apps = map[string]func([]*Term) *Term{}
			for j := range body {
				sub.ren(muName(tag, j), fmt.Sprintf("μ%%%d.%d", h, j))
			}
		}
		c := sub.apply(b)
		fmt.Fprintf(&key, "|%d:%d", len(params[i]), c.id)
	}
	if g, ok := groupBank[key.String()]; ok {
		return g
	}
	groupCtr++
	g := &RecGroup{id: groupCtr, name: fmt.Sprintf("%s#%d", name, groupCtr), params: params, body: body, first: first, height: h, tag: tag}
	set := map[int]*Term{}
	for i, b := range body {
		s := b.sort
		if first {
			s = SInt
		}
		g.sort = append(g.sort, s)
		g.bad = g.bad || b.bad
		g.ph = g.ph || b.ph
		g.mu = g.mu || b.mu
		g.size += b.size
		own := map[int]bool{}
		for _, p := range params[i] {
			own[p.id] = true
		}
		for _, v := range b.fv {
			if !own[v.id] {
				set[v.id] = v
			}
		}
	}
	for _, v := range set {
		g.fv = append(g.fv, v)
	}
	sort.Slice(g.fv, func(i, j int) bool { return g.fv[i].id < g.fv[j].id })
	groupBank[key.String()] = g
	if tag != "" {
		muGroups[tag] = g
	}
	return g
}

func mkRec(g *RecGroup, comp int, args []*Term) *Term {
	return intern(fmt.Sprintf("R:%d.%d:%s", g.id, comp, ids(args)), func() *Term {
		op := OpRec
		if g.first {
			op = OpFirst
		}
		return &Term{op: op, grp: g, comp: comp, args: args, sort: g.sort[comp]}
	})
}

// unfold expands one step of a recurrence application.
func unfold(t *Term) *Term {
	s := newSubst()
	for i, p := range t.grp.params[t.comp] {
		s.vars[p.id] = t.args[i]
	}
	if t.grp.body[t.comp].mu {
		s.muApps = true
		s.apps = map[string]func([]*Term) *Term{}
		g := t.grp
		for i := range g.body {
			i := i
			s.apps[muName(g.tag, i)] = func(a []*Term) *Term { return mkRec(g, i, a) }
		}
	}
	return s.apply(t.grp.body[t.comp])
}

// ---- substitution

type Subst struct {
	vars   map[int]*Term                       // OpVar id -> term
	apps   map[string]func(args []*Term) *Term // placeholder name -> replacement
	muApps bool                                // apps also names μ references
	atoms  map[int]*Term                       // arbitrary term id -> term
	memo   map[int]*Term
	rename map[string]string
}

func newSubst() *Subst {
	return &Subst{vars: map[int]*Term{}, memo: map[int]*Term{}}
}

func (s *Subst) ren(from, to string) {
	s.apps[from] = nil
	if s.rename == nil {
		s.rename = map[string]string{}
	}
	s.rename[from] = to
}

func (s *Subst) touches(t *Term) bool {
	if s.atoms != nil {
		return true
	}
	if s.apps != nil && t.ph {
		return true
	}
	if s.muApps && t.mu {
		return true
	}
	for _, v := range t.fv {
		if _, ok := s.vars[v.id]; ok {
			return true
		}
	}
	return false
}

func (s *Subst) apply(t *Term) *Term {
	if !s.touches(t) {
		return t
	}
	if r, ok := s.memo[t.id]; ok {
		return r
	}
	r := s.apply1(t)
	s.memo[t.id] = r
	return r
}

func (s *Subst) list(a []*Term) []*Term {
	out := make([]*Term, len(a))
	for i, x := range a {
		out[i] = s.apply(x)
	}
	return out
}

func (s *Subst) apply1(t *Term) *Term {
	if s.atoms != nil {
		if r, ok := s.atoms[t.id]; ok {
			return r
		}
	}
	switch t.op {
	case OpVar:
		if r, ok := s.vars[t.id]; ok {
			return r
		}
		return t
	case OpPoly:
		return s.poly(t.poly)
	case OpApp:
		args := s.list(t.args)
		if s.apps != nil {
			if f, ok := s.apps[t.name]; ok {
				if f == nil {
					return mkApp(s.rename[t.name], t.sort, args...)
				}
				return f(args)
			}
		}
		return rebuildApp(t, args)
	case OpIte:
		c := s.apply(t.args[0])
		if c == tTrue {
			return s.apply(t.args[1])
		}
		if c == tFalse {
			return s.apply(t.args[2])
		}
		return mkIte(c, s.apply(t.args[1]), s.apply(t.args[2]))
	case OpLt0:
		return mkLt0(s.apply(t.args[0]))
	case OpEq0:
		return mkEq0(s.apply(t.args[0]))
	case OpEqO:
		return mkEqO(s.apply(t.args[0]), s.apply(t.args[1]))
	case OpGroup:
		return s.apply(t.args[0])
	case OpRec, OpFirst:
		args := s.list(t.args)
		g := s.group(t.grp)
		return mkRec(g, t.comp, args)
	}
	return t
}

func (s *Subst) group(g *RecGroup) *RecGroup {
	need := s.atoms != nil || (s.apps != nil && g.ph) || (s.muApps && g.mu)
	for _, v := range g.fv {
		if _, ok := s.vars[v.id]; ok {
			need = true
		}
	}
	if !need {
		return g
	}
	nb := make([]*Term, len(g.body))
	changed := false
	for i, b := range g.body {
		nb[i] = s.apply(b)
		if nb[i] != b {
			changed = true
		}
	}
	if !changed {
		return g
	}
	// the new group gets fresh parameters and a fresh tag
	tag := freshMuTag()
	params := make([][]*Term, len(g.params))
	for i, ps := range g.params {
		sub := newSubst()
		for _, p := range ps {
			q := mkFreshVar("p", p.sort)
			params[i] = append(params[i], q)
			sub.vars[p.id] = q
		}
		if nb[i].mu {
			sub.muApps = true
			sub.apps = map[string]func([]*Term) *Term{}
			for j := range g.body {
				sub.ren(muName(g.tag, j), muName(tag, j))
			}
		}
		nb[i] = sub.apply(nb[i])
	}
	base := g.name
	if j := strings.IndexByte(base, '#'); j >= 0 {
		base = base[:j]
	}
	return mkRecGroup(base, params, nb, tag, g.first)
}

func (s *Subst) poly(p *Poly) *Term {
	acc := t0
	var keep []Mono
	for _, m := range p.m {
		touched := false
		for _, f := range m.fac {
			if s.touches(f.a) {
				touched = true
				break
			}
		}
		if !touched {
			keep = append(keep, m)
			continue
		}
		x := mkRat(m.coef)
		for _, f := range m.fac {
			y := s.apply(f.a)
			if f.e < 0 {
				y = mkInv(y)
			}
			for n := abs(f.e); n > 0; n-- {
				x = mkMul(x, y)
			}
		}
		acc = mkAdd(acc, x)
	}
	if len(keep) > 0 {
		acc = mkAdd(acc, mkPolyTerm(&Poly{m: keep}))
	}
	return acc
}

func rebuildApp(t *Term, args []*Term) *Term {
	return mkFun(t.name, t.sort, args...)
}

// ---- printing
func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if d > 14 {
		return "…"
	}
	args := func(a []*Term) string {
		var s []string
		for _, x := range a {
			s = append(s, x.str(d+1))
		}
		return strings.Join(s, ",")
	}
	switch t.op {
	case OpSym, OpVar, OpOpaque:
		return t.name
	case OpStr:
		return t.name
	case OpBool:
		return fmt.Sprint(t.bval)
	case OpApp:
		return t.name + "(" + args(t.args) + ")"
	case OpIte:
		return "[" + t.args[0].str(d+1) + " ? " + t.args[1].str(d+1) + " : " + t.args[2].str(d+1) + "]"
	case OpLt0:
		return "(" + t.args[0].str(d+1) + " < 0)"
	case OpEq0:
		return "(" + t.args[0].str(d+1) + " == 0)"
	case OpEqO:
		return "(" + t.args[0].str(d+1) + " == " + t.args[1].str(d+1) + ")"
	case OpGroup:
		return "(" + t.args[0].str(d+1) + ")"
	case OpRec, OpFirst:
		if len(t.grp.body) > 1 {
			return fmt.Sprintf("%s.%d<%s>", t.grp.name, t.comp, args(t.args))
		}
		return t.grp.name + "<" + args(t.args) + ">"
	case OpPoly:
		if len(t.poly.m) == 0 {
			return "0"
		}
		var b strings.Builder
		for i, m := range t.poly.m {
			c := m.coef
			if i > 0 {
				if c.Sign() < 0 {
					b.WriteString(" - ")
				} else {
					b.WriteString(" + ")
				}
				c = new(big.Rat).Abs(c)
			}
			if i > 12 {
				b.WriteString("…")
				break
			}
			one := c.Cmp(oneRat) == 0
			if !one || len(m.fac) == 0 {
				b.WriteString(c.RatString())
			}
			for j, f := range m.fac {
				if j > 0 || !one {
					b.WriteString("*")
				}
				b.WriteString(f.a.str(d + 1))
				if f.e != 1 {
					fmt.Fprintf(&b, "^%d", f.e)
				}
			}
		}
		return b.String()
	}
	return "?"
}
