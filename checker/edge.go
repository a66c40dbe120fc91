package main

// Assignments on the boundary of a comparison. A strict and a non-strict comparison differ only
// where both sides are equal, which drawn values almost never hit. For the comparisons only one
// of two terms has, one input is moved (by secant steps in exact arithmetic) until the two
// sides of the comparison are equal, and the terms are evaluated there.

import (
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strings"
)

// cell is an input value that may be moved: an element of an input sequence or a real symbol.
type inCell struct {
	key, base, field string
	idx              int64
	sym              *Term
}

var debugEdges = os.Getenv("CK_EDGES") != ""

type edgeTarget struct {
	cond *Term
	grp  *RecGroup // nil: evaluated at the point itself
}

// condsOf are the order and equality tests of t outside recurrences, and those of every recurrence.
func condsOf(t *Term) (top map[int]*Term, groups map[*RecGroup]map[int]*Term) {
	top, groups = map[int]*Term{}, map[*RecGroup]map[int]*Term{}
	var work []*RecGroup
	scan := func(t *Term, out map[int]*Term) {
		seen := map[int]bool{}
		var walk func(t *Term)
		enter := func(g *RecGroup) {
			if g != nil && groups[g] == nil {
				groups[g] = map[int]*Term{}
				work = append(work, g)
			}
		}
		walk = func(t *Term) {
			if seen[t.id] {
				return
			}
			seen[t.id] = true
			if (t.op == OpLt0 || t.op == OpEq0) && t.args[0].sort == SReal {
				out[t.id] = t
			}
			if t.poly != nil {
				for _, m := range t.poly.m {
					for _, f := range m.fac {
						walk(f.a)
					}
				}
			}
			for _, a := range t.args {
				walk(a)
			}
			if t.op != OpFirst {
				enter(t.grp)
			} else if t.grp != nil {
				for _, b := range t.grp.body {
					walk(b)
				}
			}
			if t.op == OpApp && strings.HasPrefix(t.name, "μ") {
				enter(muGroups[t.name[:strings.LastIndexByte(t.name, '.')]])
			}
		}
		walk(t)
	}
	scan(t, top)
	for len(work) > 0 {
		g := work[0]
		work = work[1:]
		for _, b := range g.body {
			scan(b, groups[g])
		}
	}
	return
}

func edgeTargets(a, b *Term) (out []edgeTarget) {
	ta, ga := condsOf(a)
	tb, gb := condsOf(b)
	var only, both []*Term
	for id, c := range ta {
		if tb[id] == nil {
			only = append(only, c)
		} else {
			both = append(both, c)
		}
	}
	for id, c := range tb {
		if ta[id] == nil {
			only = append(only, c)
		}
	}
	byID := func(l []*Term) { sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id }) }
	byID(only)
	byID(both)
	for _, c := range only {
		out = append(out, edgeTarget{c, nil})
	}
	var gs []*RecGroup
	for g := range ga {
		if gb[g] == nil {
			gs = append(gs, g)
		}
	}
	for g := range gb {
		if ga[g] == nil {
			gs = append(gs, g)
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].id < gs[j].id })
	for _, g := range gs {
		m := ga[g]
		if m == nil {
			m = gb[g]
		}
		var cs []*Term
		for _, c := range m {
			cs = append(cs, c)
		}
		byID(cs)
		for _, c := range cs {
			out = append(out, edgeTarget{c, g})
		}
	}
	if len(out) == 0 {
		for _, c := range both {
			out = append(out, edgeTarget{c, nil})
		}
	}
	return
}

// reset forgets derived values, not the inputs.
func (v *Valuation) reset() {
	v.recs, v.firsts = map[string]NV{}, map[string]NV{}
	v.active, v.stack = map[string]bool{}, nil
}

func (v *Valuation) get(c inCell) (*big.Rat, bool) {
	var x NV
	var ok bool
	if c.sym != nil {
		x, ok = v.syms[c.sym.id]
	} else {
		x, ok = v.data[c.key]
	}
	if !ok || x.k != nRat {
		return nil, false
	}
	return x.r, true
}

// put moves a cell, keeping a candle's prices market shaped; false: it cannot be moved there.
func (v *Valuation) put(c inCell, x *big.Rat) bool {
	if c.sym != nil {
		v.syms[c.sym.id] = ratV(x)
		return true
	}
	if !strings.HasSuffix(c.base, "Candles") {
		v.data[c.key] = ratV(x)
		return true
	}
	if x.Sign() < 0 || x.Sign() == 0 && c.field != "Volume" {
		return false
	}
	suffix := c.key[strings.IndexByte(c.key, ','):]
	k := func(f string) string { return c.base + "[]." + f + suffix }
	at := func(f string) *big.Rat {
		if y, ok := v.data[k(f)]; ok && y.k == nRat {
			return y.r
		}
		y := v.candleField(nil, c.base, f, int(c.idx))
		v.data[k(f)] = y
		return y.r
	}
	switch c.field {
	case "Close", "Open":
		if x.Cmp(at("High")) > 0 {
			v.data[k("High")] = ratV(x)
		}
		if x.Cmp(at("Low")) < 0 {
			v.data[k("Low")] = ratV(x)
		}
	case "High":
		if x.Cmp(at("Open")) < 0 || x.Cmp(at("Close")) < 0 {
			return false
		}
	case "Low":
		if x.Cmp(at("Open")) > 0 || x.Cmp(at("Close")) > 0 {
			return false
		}
	case "Volume":
	default:
		return false
	}
	v.data[c.key] = ratV(x)
	return true
}

type edgeSearch struct {
	s    *sampler
	rng  *rand.Rand
	st   *sepStats
	left int // evaluation steps left
}

func (es *edgeSearch) value(v *Valuation, t *Term, e env) (NV, bool) {
	v.reset()
	v.steps = 0
	var x NV
	why := attempt(func() { x = v.eval(t, e) })
	es.left -= v.steps + 50
	return x, why == ""
}

// edges looks for a separating assignment on the boundary of one of the targets.
func (s *sampler) edges(a, b *Term, ts []edgeTarget, rounds, budget int, seed int64) (*Witness, int) {
	es := &edgeSearch{s: s, rng: rand.New(rand.NewSource(seed)), left: budget}
	hits := 0
	if len(ts) > 40 {
		es.rng.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
		ts = ts[:40]
	}
	for n := 0; n < rounds && es.left > 0; n++ {
		v := s.assign(n, es.rng)
		if v == nil {
			continue
		}
		ps := s.points(v, es.rng, 6)
		es.left -= 2000
		for _, t := range ts {
			if len(ps) == 0 || es.left <= 0 {
				break
			}
			e := ps[es.rng.Intn(len(ps))]
			if w := es.approach(v, t, a, b, e, &hits); w != nil {
				return w, hits
			}
		}
	}
	return nil, hits
}

func (es *edgeSearch) approach(v0 *Valuation, t edgeTarget, a, b *Term, e env, hits *int) *Witness {
	v := v0.fork()
	te := e
	// the inputs the comparison depends on
	if t.grp != nil {
		v.recEnvs = map[*RecGroup][]env{}
		es.value(v, a, e)
		va := v.recEnvs[t.grp]
		es.value(v, b, e)
		va = append(va, v.recEnvs[t.grp]...)
		v.recEnvs = nil
		if len(va) == 0 {
			return nil
		}
		k := 0 // the outermost
		if near := es.nearPoint(v, t.grp, va, e); len(near) > 0 && es.rng.Intn(4) != 0 {
			k = near[es.rng.Intn(len(near))]
		} else if es.rng.Intn(2) == 0 {
			k = es.rng.Intn(len(va))
		}
		te = va[k]
	}
	arg := t.cond.args[0]
	v.touch = map[string]inCell{}
	x0, ok := es.value(v, arg, te)
	var cells []inCell
	for _, c := range v.touch {
		cells = append(cells, c)
	}
	v.touch = nil
	if !ok || x0.k != nRat || len(cells) == 0 {
		return nil
	}
	sort.Slice(cells, func(i, j int) bool {
		if cells[i].idx != cells[j].idx {
			return cells[i].idx > cells[j].idx
		}
		return cells[i].key < cells[j].key
	})
	tries := 0
	for k := 0; k < len(cells) && tries < 2; k++ {
		c := cells[k]
		if len(cells) > 4 && es.rng.Intn(3) == 0 {
			continue
		}
		tries++
		w := v.fork()
		ya, ok := w.get(c)
		if !ok {
			continue
		}
		fa, ok := es.value(w, arg, te)
		if !ok || fa.k != nRat {
			continue
		}
		step := big.NewRat(1, 1)
		if es.rng.Intn(2) == 0 {
			step = big.NewRat(-1, 1)
		}
		xs, fs := []*big.Rat{ya}, []*big.Rat{fa.r}
		x := new(big.Rat).Add(ya, step)
		found := fa.r.Sign() == 0
		for it := 0; it < 7 && !found; it++ {
			if !w.put(c, x) {
				break
			}
			f, ok := es.value(w, arg, te)
			if !ok || f.k != nRat || f.r.Denom().BitLen() > 3000 {
				break
			}
			if f.r.Sign() == 0 {
				found = true
				break
			}
			xs, fs = append(xs, x), append(fs, f.r)
			if x = root(xs, fs); x == nil {
				break
			}
		}
		if !found {
			continue
		}
		// the assumptions must still hold, and the terms are compared here and nearby
		if !es.holds(w, e) {
			continue
		}
		*hits++
		if debugEdges {
			println("hit", t.grp != nil, cutTo(t.cond.String(), 160))
		}
		va, ok := es.value(w, a, e)
		if !ok {
			continue
		}
		vb, ok := es.value(w, b, e)
		if !ok {
			continue
		}
		if attempt(func() { bounded(va); bounded(vb) }) == "" && differ(va, vb) {
			at, _ := w.get(c)
			name := c.key
			if c.sym != nil {
				name = c.sym.name
			}
			return &Witness{es.s.describe(w, e) + " with " + name + "=" + ratV(at).show(), va.show(), vb.show()}
		}
	}
	return nil
}

// root estimates where the last points' function is zero: they lie on a line or, from three
// points on, on a quotient of two linear functions.
func root(xs, fs []*big.Rat) *big.Rat {
	n := len(xs)
	x1, f1, x2, f2 := xs[n-2], fs[n-2], xs[n-1], fs[n-1]
	sub := func(a, b *big.Rat) *big.Rat { return new(big.Rat).Sub(a, b) }
	mul := func(a, b *big.Rat) *big.Rat { return new(big.Rat).Mul(a, b) }
	if n >= 3 {
		// f (1 + r x) = p + q x through three points
		x0, f0 := xs[n-3], fs[n-3]
		// eliminating p: (fi - f0) + r (fi xi - f0 x0) = q (xi - x0)
		a1, b1, c1 := sub(f1, f0), sub(mul(f1, x1), mul(f0, x0)), sub(x1, x0)
		a2, b2, c2 := sub(f2, f0), sub(mul(f2, x2), mul(f0, x0)), sub(x2, x0)
		if d := sub(mul(b1, c2), mul(b2, c1)); d.Sign() != 0 {
			// a1 c2 + r b1 c2 = q c1 c2 = a2 c1 + r b2 c1
			r := sub(mul(a2, c1), mul(a1, c2))
			r.Quo(r, d)
			if c1.Sign() != 0 {
				q := new(big.Rat).Add(a1, mul(r, b1))
				q.Quo(q, c1)
				p := new(big.Rat).Add(f0, mul(mul(r, f0), x0))
				p.Sub(p, mul(q, x0))
				if q.Sign() != 0 {
					return p.Neg(p.Quo(p, q))
				}
			}
		}
	}
	d := sub(f2, f1)
	if d.Sign() == 0 {
		return nil
	}
	t := mul(f2, sub(x2, x1))
	return sub(x2, t.Quo(t, d))
}

// nearPoint: the environments in which a parameter has the value of a free index, or the next.
func (es *edgeSearch) nearPoint(v *Valuation, g *RecGroup, va []env, e env) (out []int) {
	at := map[string]bool{}
	add := func(x NV) {
		if x.k == nRat && x.r.IsInt() {
			at[x.key()] = true
			at[addV(x, intV(1)).key()] = true
		}
	}
	for _, x := range e {
		add(x)
	}
	for _, t := range es.s.syms {
		if x, ok := v.syms[t.id]; ok && t.sort == SInt && len(t.name) == 1 {
			add(x)
		}
	}
	for k, w := range va {
		hit := false
		for _, ps := range g.params {
			for _, p := range ps {
				if x, ok := w[p.id]; ok && at[x.key()] {
					hit = true
				}
			}
		}
		if hit {
			out = append(out, k)
		}
	}
	return
}

func (es *edgeSearch) holds(v *Valuation, e env) bool {
	ok := true
	v.reset()
	why := attempt(func() {
		for _, l := range es.s.base {
			if v.eval(l.t, env{}).b != l.v {
				ok = false
				return
			}
		}
		for _, l := range es.s.dep {
			if v.eval(l.t, e).b != l.v {
				ok = false
				return
			}
		}
	})
	return ok && why == ""
}

// fork copies the inputs.
func (v *Valuation) fork() *Valuation {
	w := newValuation(v.seed, v.mode)
	w.hint, w.max, w.walks = v.hint, v.max, v.walks
	for k, x := range v.syms {
		w.syms[k] = x
	}
	for k, x := range v.lens {
		w.lens[k] = x
	}
	for k, x := range v.data {
		w.data[k] = x
	}
	return w
}
