package main

// Equality of extracted terms: normal forms, case splits on the conditions occurring in the
// two terms, congruence, and induction over recurrences.

import (
	"fmt"
	"math/big"
	"time"
)

type hyp struct {
	a, b   int // group ids
	ca, cb int
	off    string
}

// guard restricts an induction to positions (argument i) below the counter t(first argument).
type guard struct {
	i int
	t *Term
}

type prover struct {
	guards   map[hyp]*guard
	budget   int
	hyps     map[hyp]int // assumed (being proved)
	deadline time.Time
	done     map[hyp]bool
	failed   map[hyp]bool
}

func newProver(budget int) *prover {
	return &prover{budget: budget, hyps: map[hyp]int{}, guards: map[hyp]*guard{}, done: map[hyp]bool{}, failed: map[hyp]bool{}, deadline: time.Now().Add(4 * time.Second)}
}

func proveEq(f *Facts, a, b *Term) bool {
	if a == b {
		return true
	}
	if a.bad || b.bad {
		return false
	}
	return newProver(3000).eq(f, a, b, 0)
}

func (p *prover) out() bool {
	p.budget--
	return p.budget < 0 || time.Now().After(p.deadline)
}

func approxEqual(a, b *Term) bool {
	d := mkSub(a, b)
	if d == t0 {
		return true
	}
	if d.op != OpPoly || a.sort == SInt && b.sort == SInt {
		return false
	}
	// constants folded in a different order: coefficients tiny relative to the originals
	max := new(big.Rat)
	for _, m := range toPoly(a).m {
		if x := new(big.Rat).Abs(m.coef); x.Cmp(max) > 0 {
			max = x
		}
	}
	eps := big.NewRat(1, 1000000000000)
	for _, m := range d.poly.m {
		ref := new(big.Rat)
		for _, q := range toPoly(a).m {
			if cmpFac(q.fac, m.fac) == 0 {
				ref = new(big.Rat).Abs(q.coef)
			}
		}
		if new(big.Rat).Abs(m.coef).Cmp(new(big.Rat).Mul(ref, eps)) > 0 {
			return false
		}
	}
	return true
}

func (p *prover) eq(f *Facts, a, b *Term, depth int) bool {
	if p.out() || depth > 40 {
		return false
	}
	a, b = f.simp(a), f.simp(b)
	if a == b || f.contradictory() {
		return true
	}
	if a.sort == SBool || b.sort == SBool {
		if c := firstCond(a); c != nil {
			return p.split(f, c, a, b, depth)
		}
		if c := firstCond(b); c != nil {
			return p.split(f, c, a, b, depth)
		}
		return p.cong(f, a, b, depth)
	}
	numeric := (a.sort == SInt || a.sort == SReal) && (b.sort == SInt || b.sort == SReal)
	if numeric {
		if approxEqual(a, b) {
			return true
		}
	}
	for _, t := range []*Term{a, b} {
		if c := firstCond(t); c != nil {
			return p.split(f, c, a, b, depth)
		}
	}
	if !numeric {
		return p.cong(f, a, b, depth)
	}
	if f.simp(mkEqNum(a, b)) == tTrue {
		return true
	}
	if p.cleared(a, b) {
		return true
	}
	if a.op != OpPoly && b.op != OpPoly {
		if p.cong(f, a, b, depth) {
			return true
		}
	}
	// pair up the atoms that occur on one side only
	pa, pb := atomsOf(a), atomsOf(b)
	for x := range pa {
		if pb[x] {
			continue
		}
		for y := range pb {
			if pa[y] || x.op != y.op {
				continue
			}
			if x.op == OpApp && x.name != y.name || x.op == OpSym {
				continue
			}
			if p.cong(f, x, y, depth+1) {
				s := newSubst()
				s.atoms = map[int]*Term{y.id: x}
				return p.eq(f, a, s.apply(b), depth+1)
			}
		}
	}
	// unfold one recurrence whose argument is known to be in its recursive case
	for _, t := range []*Term{a, b} {
		for x := range atomsOf(t) {
			if x.op == OpRec && depth < 12 {
				u := f.simp(unfold(x))
				if firstCond(u) == nil || depth < 3 {
					s := newSubst()
					s.atoms = map[int]*Term{x.id: u}
					if p.eq(f, s.apply(a), s.apply(b), depth+8) {
						return true
					}
				}
			}
		}
	}
	return false
}

func atomsOf(t *Term) map[*Term]bool {
	m := map[*Term]bool{}
	if t.op != OpPoly {
		m[t] = true
		return m
	}
	for _, mo := range t.poly.m {
		for _, fc := range mo.fac {
			x := fc.a
			if x.op == OpGroup {
				for y := range atomsOf(x.args[0]) {
					m[y] = true
				}
				continue
			}
			m[x] = true
		}
	}
	return m
}

// cleared compares after multiplying out the denominators.
func (p *prover) cleared(a, b *Term) bool {
	d := mkSub(a, b)
	for n := 0; n < 8; n++ {
		if d == t0 {
			return true
		}
		if d.op != OpPoly {
			return false
		}
		var den *Term
		for _, m := range d.poly.m {
			for _, fc := range m.fac {
				if fc.e < 0 {
					den = fc.a
				}
			}
		}
		if den == nil {
			return d == t0
		}
		if den.op == OpGroup {
			den = den.args[0]
		}
		d2 := mkMul(d, den)
		if d2 == d {
			return false
		}
		d = d2
		if d.size > 20000 {
			return false
		}
	}
	return false
}

func (p *prover) split(f *Facts, c, a, b *Term, depth int) bool {
	return p.eq(f.push(c, true), a, b, depth+1) && p.eq(f.push(c, false), a, b, depth+1)
}

// firstCond finds a condition to split on, outside recurrence bodies.
func firstCond(t *Term) *Term {
	if !t.hasCond() {
		return nil
	}
	switch t.op {
	case OpIte:
		c := t.args[0]
		if x := innerCond(c); x != nil {
			return x
		}
		return c
	case OpLt0, OpEq0, OpEqO:
		if x := innerCond(t); x != nil {
			return x
		}
		return t
	case OpPoly:
		for _, m := range t.poly.m {
			for _, fc := range m.fac {
				if x := firstCond(fc.a); x != nil {
					return x
				}
			}
		}
		return nil
	}
	for _, a := range t.args {
		if x := firstCond(a); x != nil {
			return x
		}
	}
	if t.sort == SBool && t.op == OpApp {
		return t
	}
	return nil
}

func innerCond(c *Term) *Term {
	for _, a := range c.args {
		if x := firstCond(a); x != nil {
			return x
		}
	}
	return nil
}

func (p *prover) cong(f *Facts, a, b *Term, depth int) bool {
	if a == b {
		return true
	}
	if p.out() {
		return false
	}
	switch {
	case a.op == OpApp && b.op == OpApp && a.name == b.name && len(a.args) == len(b.args):
		for i := range a.args {
			if !p.eq(f, a.args[i], b.args[i], depth+1) {
				return false
			}
		}
		return true
	case a.op == OpRec && b.op == OpRec:
		return p.recEq(f, a, b, depth)
	case a.op == OpFirst && b.op == OpFirst:
		k := mkFreshVar("k", SInt)
		g := f.push(mkLt0(k), false)
		sa, sb := newSubst(), newSubst()
		sa.vars[a.grp.params[0][0].id] = k
		sb.vars[b.grp.params[0][0].id] = k
		return p.eq(g, sa.apply(a.grp.body[0]), sb.apply(b.grp.body[0]), depth+1)
	case a.op == OpEqO && b.op == OpEqO:
		return p.eq(f, a.args[0], b.args[0], depth+1) && p.eq(f, a.args[1], b.args[1], depth+1)
	}
	return false
}

// recEq: a(s) == b(t). The arguments must agree up to a constant offset of the first one;
// the claim is generalised over the arguments and shown by induction on the first.
func (p *prover) recEq(f *Facts, a, b *Term, depth int) bool {
	if len(a.args) != len(b.args) || len(a.args) == 0 {
		return false
	}
	off := t0
	for i := range a.args {
		if p.eq(f, a.args[i], b.args[i], depth+1) {
			continue
		}
		d := f.simp(mkSub(a.args[i], b.args[i]))
		if c, ok := d.constInt(); i == 0 && ok && c >= -3 && c <= 3 {
			off = d
			continue
		}
		return false
	}
	h := hyp{a.grp.id, b.grp.id, a.comp, b.comp, fmt.Sprint(off.id)}
	if _, ok := p.hyps[h]; ok {
		if gd := p.guards[h]; gd != nil {
			// the hypothesis only speaks of positions below the counter
			j := b.args[gd.i]
			return f.simp(mkLt0(j)) == tFalse && f.simp(mkLt(j, mkRec(gd.t.grp, gd.t.comp, []*Term{b.args[0]}))) == tTrue
		}
		return true
	}
	if a.grp == b.grp && a.comp == b.comp {
		return off == t0
	}
	if p.done[h] {
		return true
	}
	if p.failed[h] || len(p.hyps) > 6 {
		return false
	}
	ok := p.induct(f, h, a, b, off, nil, depth)
	if !ok && off == t0 {
		for _, gd := range guardsOf(f, b) {
			if ok = p.induct(f, h, a, b, off, gd, depth); ok {
				break
			}
		}
	}
	if ok && len(p.hyps) == 1 {
		p.done[h] = true
	}
	if !ok {
		p.failed[h] = true
	}
	return ok
}

// guardsOf finds counters t(k) known to exceed a position argument of b(k, ...).
func guardsOf(f *Facts, b *Term) []*guard {
	var out []*guard
	seen := map[*Term]bool{}
	for _, l := range f.lits() {
		visitTerms(l.t, func(x *Term) bool {
			if x.op == OpRec && len(x.args) == 1 && x.args[0] == b.args[0] && !seen[x] {
				seen[x] = true
				for i := 1; i < len(b.args); i++ {
					if f.simp(mkLt0(b.args[i])) == tFalse && f.simp(mkLt(b.args[i], x)) == tTrue {
						out = append(out, &guard{i, x})
					}
				}
			}
			return x.op != OpRec
		})
	}
	return out
}

func (p *prover) induct(f *Facts, h hyp, a, b, off *Term, gd *guard, depth int) bool {
	p.hyps[h] = 1
	p.guards[h] = gd
	defer func() { delete(p.hyps, h); delete(p.guards, h) }()
	var xs, ys []*Term
	g := f
	for i := range b.args {
		q := mkFreshVar("q", b.args[i].sort)
		y := q
		x := q
		if i == 0 {
			x = mkAdd(q, off)
			g = g.push(mkLt0(q), false)
			if off != t0 {
				g = g.with(mkLt0(x), false)
			}
			g = g.with(mkLe(q, b.args[0]), true)
		}
		xs = append(xs, x)
		ys = append(ys, y)
	}
	ux := g.simp(unfold(mkRec(a.grp, a.comp, xs)))
	uy := g.simp(unfold(mkRec(b.grp, b.comp, ys)))
	if gd != nil {
		g = g.push(mkLt0(ys[gd.i]), false)
		c := g.simp(mkLt(ys[gd.i], unfold(mkRec(gd.t.grp, gd.t.comp, []*Term{ys[0]}))))
		ux, uy = mkIte(c, ux, t0), mkIte(c, uy, t0)
		if ux.sort != uy.sort {
			return false
		}
	}
	return p.eq(g, ux, uy, depth+1)
}
