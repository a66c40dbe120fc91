package main

// Facts: what is known at a program point (dominating branch conditions, loop bounds,
// assumptions), and decisions of conditions under them. Linear arithmetic is decided by
// Fourier-Motzkin elimination over monomials, with integer tightening.

import (
	"math/big"
	"sort"
	"strings"
)

type lit struct {
	t *Term // atom or a residual (undecomposed) condition
	v bool
}

type Facts struct {
	parent *Facts
	lit    lit
	n      int
	known  map[int]bool // atom id -> value (own literal only stored in chain)
	memo   map[int]*Term
	kids   map[lit]*Facts
	dead   int8 // 0 unknown, 1 contradictory, 2 feasible as far as known
	lins   []*lin
	linsOK bool
}

func newFacts() *Facts { return &Facts{memo: map[int]*Term{}} }

func (f *Facts) push(t *Term, v bool) *Facts {
	l := lit{t, v}
	if k, ok := f.kids[l]; ok {
		return k
	}
	if f.kids == nil {
		f.kids = map[lit]*Facts{}
	}
	k := &Facts{parent: f, lit: l, n: f.n + 1, memo: map[int]*Term{}}
	f.kids[l] = k
	return k
}

// with adds a condition known to hold (v true) or fail.
func (f *Facts) with(c *Term, v bool) *Facts {
	c = f.simp(c)
	return f.add(c, v)
}

func (f *Facts) add(c *Term, v bool) *Facts {
	if c.op == OpBool {
		if c.bval != v {
			k := f.push(tFalse, true)
			k.dead = 1
			return k
		}
		return f
	}
	if c.op == OpIte && c.sort == SBool {
		// conjunction shapes
		a, x, y := c.args[0], c.args[1], c.args[2]
		t, e := x, y
		if !v {
			t, e = mkNot(x), mkNot(y)
		}
		if e == tFalse {
			return f.add(a, true).with(t, true)
		}
		if t == tFalse {
			return f.add(a, false).with(e, true)
		}
		// implied common part: both branches share a conjunct (cheap check on cofactors)
		return f.push(c, v)
	}
	k := f.push(c, v)
	return k
}

func (f *Facts) lits() []lit {
	var out []lit
	for x := f; x.parent != nil; x = x.parent {
		out = append(out, x.lit)
	}
	return out
}

func (f *Facts) contradictory() bool {
	if f.dead != 0 {
		return f.dead == 1
	}
	f.dead = 2
	if f.parent == nil {
		return false
	}
	if f.parent.contradictory() {
		f.dead = 1
		return true
	}
	// only what the own literal is connected with can have become infeasible
	if own := f.own(); len(own) > 0 && infeasible(f.parent.linear(), own) {
		f.dead = 1
	}
	return f.dead == 1
}

// own are the linear constraints of the last literal.
func (f *Facts) own() []*lin {
	switch f.lit.t.op {
	case OpLt0, OpEq0:
		return condLins(f.lit.t.args[0], f.lit.t.op == OpLt0, f.lit.v)
	}
	return nil
}

// simp simplifies t under the facts: decided conditions are replaced.
func (f *Facts) simp(t *Term) *Term {
	if f.parent == nil && f.n == 0 {
		// still decide from axioms (lengths are non negative)
	}
	switch t.op {
	case OpSym, OpVar, OpBool, OpStr, OpOpaque:
		return t
	}
	if !t.hasCond() {
		return t
	}
	if r, ok := f.memo[t.id]; ok {
		return r
	}
	r := f.simp1(t)
	f.memo[t.id] = r
	return r
}

func (f *Facts) simpList(a []*Term) ([]*Term, bool) {
	var out []*Term
	for i, x := range a {
		y := f.simp(x)
		if y != x && out == nil {
			out = append([]*Term{}, a...)
		}
		if out != nil {
			out[i] = y
		}
	}
	if out == nil {
		return a, false
	}
	return out, true
}

func (f *Facts) simp1(t *Term) *Term {
	switch t.op {
	case OpIte:
		c := f.simp(t.args[0])
		switch f.decideAtom(c) {
		case 1:
			return f.simp(t.args[1])
		case -1:
			return f.simp(t.args[2])
		}
		if c.op != OpBool && isAtomBool(c) {
			a := f.push(c, true).simp(t.args[1])
			b := f.push(c, false).simp(t.args[2])
			return mkIte(c, a, b)
		}
		return mkIte(c, f.simp(t.args[1]), f.simp(t.args[2]))
	case OpLt0, OpEq0, OpEqO:
		args, ch := f.simpList(t.args)
		c := t
		if ch {
			switch t.op {
			case OpLt0:
				c = mkLt0(args[0])
			case OpEq0:
				c = mkEq0(args[0])
			default:
				c = mkEqO(args[0], args[1])
			}
		}
		switch f.decideAtom(c) {
		case 1:
			return tTrue
		case -1:
			return tFalse
		}
		return c
	case OpApp:
		args, ch := f.simpList(t.args)
		c := t
		if ch {
			c = rebuildApp(t, args)
		}
		if c.sort == SBool {
			switch f.decideAtom(c) {
			case 1:
				return tTrue
			case -1:
				return tFalse
			}
		}
		return c
	case OpRec, OpFirst:
		args, ch := f.simpList(t.args)
		if ch {
			return mkRec(t.grp, t.comp, args)
		}
		return t
	case OpPoly:
		s := &Subst{vars: map[int]*Term{}, memo: map[int]*Term{}, atoms: map[int]*Term{}}
		any := false
		for _, m := range t.poly.m {
			for _, fc := range m.fac {
				a := fc.a
				if a.op == OpGroup {
					a = a.args[0]
				}
				y := f.simp(a)
				if y != a {
					s.atoms[fc.a.id] = y
					any = true
				}
			}
		}
		if !any {
			return t
		}
		acc := t0
		for _, m := range t.poly.m {
			x := mkRat(m.coef)
			for _, fc := range m.fac {
				y, ok := s.atoms[fc.a.id]
				if !ok {
					y = fc.a
				}
				if fc.e < 0 {
					y = mkInv(y)
				}
				for n := abs(fc.e); n > 0; n-- {
					x = mkMul(x, y)
				}
			}
			acc = mkAdd(acc, x)
		}
		return acc
	}
	return t
}

// hasCond: the term contains a decidable condition somewhere outside recurrence bodies.
func (t *Term) hasCond() bool {
	if t.condState != 0 {
		return t.condState == 1
	}
	r := false
	switch t.op {
	case OpIte, OpLt0, OpEq0, OpEqO:
		r = true
	case OpPoly:
		for _, m := range t.poly.m {
			for _, f := range m.fac {
				if f.a.hasCond() {
					r = true
				}
			}
		}
	default:
		if t.sort == SBool && t.op != OpBool {
			r = true
		}
		for _, a := range t.args {
			if a.hasCond() {
				r = true
			}
		}
	}
	if r {
		t.condState = 1
	} else {
		t.condState = 2
	}
	return r
}

// decideAtom: 1 true, -1 false, 0 unknown.
func (f *Facts) decideAtom(c *Term) int {
	if c.op == OpBool {
		if c.bval {
			return 1
		}
		return -1
	}
	if c.op == OpIte {
		return 0
	}
	for x := f; x != nil; x = x.parent {
		if x.parent != nil && x.lit.t == c {
			if x.lit.v {
				return 1
			}
			return -1
		}
		if x.dead == 1 {
			return 1
		}
	}
	switch c.op {
	case OpLt0:
		return f.decideLt0(c.args[0], 0)
	case OpEq0:
		return f.decideEq0(c.args[0], 0)
	case OpEqO:
		// distinct constants: x == c1 known, asked x == c2
		for x := f; x.parent != nil; x = x.parent {
			l := x.lit
			if l.v && l.t.op == OpEqO {
				if a, b, ok := sharedEqO(l.t, c); ok && a.op == OpStr && b.op == OpStr && a != b {
					return -1
				}
			}
		}
	}
	return 0
}

func sharedEqO(p, q *Term) (*Term, *Term, bool) {
	for i := 0; i < 2; i++ {
		for j := 0; j < 2; j++ {
			if p.args[i] == q.args[j] {
				return p.args[1-i], q.args[1-j], true
			}
		}
	}
	return nil, nil, false
}

// topIte returns an Ite atom occurring linearly in t (to split on).
func topIte(t *Term) *Term {
	if t.op == OpIte {
		return t
	}
	if t.op != OpPoly {
		return nil
	}
	for _, m := range t.poly.m {
		for _, fc := range m.fac {
			if fc.a.op == OpIte {
				return fc.a
			}
			if fc.a.op == OpGroup {
				if x := topIte(fc.a.args[0]); x != nil {
					return x
				}
			}
		}
	}
	return nil
}

func linearIDiv(t *Term) *Term {
	if t.op == OpApp && t.name == "idiv" {
		return t
	}
	if t.op == OpPoly {
		for _, m := range t.poly.m {
			if len(m.fac) == 1 && m.fac[0].a.op == OpApp && m.fac[0].a.name == "idiv" {
				return m.fac[0].a
			}
		}
	}
	return nil
}

func replaceAtom(t, atom, by *Term) *Term {
	s := newSubst()
	s.atoms = map[int]*Term{atom.id: by}
	return s.apply(t)
}

func (f *Facts) split(t *Term, depth int, fn func(*Facts, *Term, int) int) (int, bool) {
	if depth >= 3 {
		return 0, false
	}
	it := topIte(t)
	if it == nil {
		// a quotient smaller than one
		if q := linearIDiv(t); q != nil && depth < 2 {
			x, y := q.args[0], q.args[1]
			if _, isC := y.isConst(); !isC && f.decideLt0(x, depth+1) == -1 && f.decideLt0(mkSub(x, y), depth+1) == 1 {
				return fn(f, replaceAtom(t, q, t0), depth+1), true
			}
		}
		return 0, false
	}
	c := it.args[0]
	a := f.push(c, true)
	b := f.push(c, false)
	var ra, rb int
	if a.contradictory() {
		return fn(b, replaceAtom(t, it, it.args[2]), depth+1), true
	}
	ra = fn(a, replaceAtom(t, it, it.args[1]), depth+1)
	if ra == 0 {
		return 0, true
	}
	if b.contradictory() {
		return ra, true
	}
	rb = fn(b, replaceAtom(t, it, it.args[2]), depth+1)
	if ra == rb {
		return ra, true
	}
	return 0, true
}

func (f *Facts) decideLt0(t *Term, depth int) int {
	if r, ok := t.isConst(); ok {
		if r.Sign() < 0 {
			return 1
		}
		return -1
	}
	if r, ok := f.split(t, depth, (*Facts).decideLt0); ok {
		return r
	}
	// t < 0 certain: t >= 0 infeasible
	base := f.linear()
	l := sides(t)
	if infeasible(base, []*lin{l.ge}) {
		return 1
	}
	if infeasible(base, []*lin{l.lt}) {
		return -1
	}
	if u := f.cleared(t, depth); u != nil {
		return f.decideLt0(u, depth+1)
	}
	if ext := f.products(t); ext != nil {
		if infeasible(base, append([]*lin{l.ge}, ext...)) {
			return 1
		}
		if infeasible(base, append([]*lin{l.lt}, ext...)) {
			return -1
		}
	}
	return 0
}

// cleared is t times the whole numbers it is divided by, when they are known to be positive.
func (f *Facts) cleared(t *Term, depth int) *Term {
	if depth > 2 || t.op != OpPoly {
		return nil
	}
	u := t
	done := map[*Term]bool{}
	for _, m := range t.poly.m {
		for _, x := range m.fac {
			if x.e >= 0 || done[x.a] {
				continue
			}
			if x.a.sort != SInt || !infeasible(f.linear(), []*lin{sides(x.a).le}) {
				return nil
			}
			done[x.a] = true
		}
	}
	if len(done) == 0 {
		return nil
	}
	for a := range done {
		e := 0
		for _, m := range t.poly.m {
			for _, x := range m.fac {
				if x.a == a && x.e < e {
					e = x.e
				}
			}
		}
		for ; e < 0; e++ {
			u = mkMul(u, a)
		}
	}
	return u
}

// products bounds the products of whole numbers in t: no less than zero when no factor is
// negative, no less than any factor when every factor is at least one.
func (f *Facts) products(t *Term) []*lin {
	var out []*lin
	for _, m := range toPoly(t).m {
		if len(m.fac) < 2 {
			continue
		}
		low := 1
		for _, x := range m.fac {
			if x.e < 1 || x.a.sort != SInt {
				low = -1
				break
			}
			if low == 1 && !infeasible(f.linear(), []*lin{sides(mkSub(x.a, mkInt(1))).lt}) {
				low = 0
			}
			if low == 0 && !infeasible(f.linear(), []*lin{sides(x.a).lt}) {
				low = -1
				break
			}
		}
		if low < 0 {
			continue
		}
		p := mkPolyTerm(&Poly{[]Mono{{coef: oneRat, fac: m.fac}}})
		if low == 0 {
			out = append(out, sides(p).ge)
			continue
		}
		for _, x := range m.fac {
			out = append(out, sides(mkSub(p, x.a)).ge)
		}
	}
	return out
}

func (f *Facts) decideEq0(t *Term, depth int) int {
	if r, ok := t.isConst(); ok {
		if r.Sign() == 0 {
			return 1
		}
		return -1
	}
	if r, ok := f.split(t, depth, (*Facts).decideEq0); ok {
		return r
	}
	base := f.linear()
	l := sides(t)
	neg := !infeasible(base, []*lin{l.lt})
	pos := !infeasible(base, []*lin{l.gt})
	if !neg && !pos {
		return 1
	}
	if infeasible(base, []*lin{l.le, l.ge}) {
		return -1
	}
	if u := f.cleared(t, depth); u != nil {
		return f.decideEq0(u, depth+1)
	}
	if ext := f.products(t); ext != nil {
		if infeasible(base, append([]*lin{l.le, l.ge}, ext...)) {
			return -1
		}
	}
	return 0
}

// ---- linear constraints

// lin is sum c_i x_i + c (<= 0 or < 0), x_i monomials.
type lin struct {
	v      map[string]*big.Rat
	atoms  map[string][]Factor
	c      *big.Rat
	strict bool
	ne     bool // disequality: != 0
	isInt  bool

	ids []int32 // numbers of the monomials, computed on first use
	h   setHash
}

func (l *lin) copy() *lin {
	r := &lin{v: map[string]*big.Rat{}, atoms: l.atoms, c: new(big.Rat).Set(l.c), strict: l.strict, isInt: l.isInt}
	for k, x := range l.v {
		r.v[k] = x
	}
	return r
}
func (l *lin) neg() *lin {
	r := &lin{v: map[string]*big.Rat{}, atoms: l.atoms, c: new(big.Rat).Neg(l.c), strict: l.strict, isInt: l.isInt}
	for k, x := range l.v {
		r.v[k] = new(big.Rat).Neg(x)
	}
	return r
}

func toLin(t *Term) *lin {
	p := toPoly(t)
	l := &lin{v: map[string]*big.Rat{}, atoms: map[string][]Factor{}, c: new(big.Rat), isInt: isIntTerm(t)}
	for _, m := range p.m {
		if len(m.fac) == 0 {
			l.c = new(big.Rat).Set(m.coef)
			continue
		}
		k := factorKey(m.fac)
		l.v[k] = m.coef
		l.atoms[k] = m.fac
	}
	return l
}

func nonNegAtom(a *Term) bool {
	switch a.op {
	case OpSym:
		return strings.HasPrefix(a.name, "len(")
	case OpApp:
		switch a.name {
		case "sqrt", "len", "fabs":
			return true
		}
		return strings.HasPrefix(a.name, "len(")
	case OpFirst:
		return true
	}
	return false
}

// linear constraints implied by the facts (Lt0/Eq0 literals), own chain cached.
func (f *Facts) linear() []*lin {
	if f.linsOK {
		return f.lins
	}
	var out []*lin
	if f.parent != nil {
		out = append(out, f.parent.linear()...)
		out = append(out, f.own()...)
	}
	f.lins = out
	f.linsOK = true
	return out
}

func condLins(x *Term, lt, v bool) []*lin {
	l := sides(x)
	switch {
	case lt && v:
		return []*lin{l.lt}
	case lt && !v:
		return []*lin{l.ge}
	case !lt && v:
		return []*lin{l.le, l.ge}
	default:
		return []*lin{l.ne}
	}
}

// signs are the constraints x < 0, x <= 0, x > 0, x >= 0 and x != 0 of a term.
type signs struct{ lt, le, gt, ge, ne *lin }

var signMemo = map[int]*signs{}

func sides(x *Term) *signs {
	if s, ok := signMemo[x.id]; ok {
		return s
	}
	l := toLin(x)
	mk := func(l *lin) *lin {
		y := l.copy()
		if y.isInt {
			y.c.Add(y.c, oneRat)
		} else {
			y.strict = true
		}
		return y
	}
	n := l.copy()
	n.ne = true
	m := l.neg()
	s := &signs{lt: mk(l), le: l, gt: mk(m), ge: m, ne: n}
	signMemo[x.id] = s
	return s
}

const fmMax = 120

// infeasible reports that base ∧ extra has no solution (sound, incomplete).
func infeasible(base, extra []*lin) bool {
	// relevance: constraints sharing monomials transitively with extra
	var cur []*lin
	var nes []*lin
	if extra == nil {
		for _, b := range base {
			if b.ne {
				nes = append(nes, b)
			} else {
				cur = append(cur, b)
			}
		}
	} else {
		vars := map[int32]bool{}
		for _, e := range extra {
			if e.ne {
				nes = append(nes, e)
			} else {
				cur = append(cur, e)
			}
			for _, k := range e.nums() {
				vars[k] = true
			}
		}
		used := make([]bool, len(base))
		for ch := true; ch; {
			ch = false
			for i, b := range base {
				if used[i] {
					continue
				}
				ids := b.nums()
				hit := len(ids) == 0
				for _, k := range ids {
					if vars[k] {
						hit = true
						break
					}
				}
				if hit {
					used[i] = true
					ch = true
					if b.ne {
						nes = append(nes, b)
					} else {
						cur = append(cur, b)
					}
					for _, k := range ids {
						vars[k] = true
					}
				}
			}
		}
	}
	if len(nes) > 3 {
		if len(extra) > 0 && extra[0].ne {
			nes = append(nes[:1:1], nes[len(nes)-2:]...)
		} else {
			nes = nes[len(nes)-3:]
		}
	}
	var key setHash
	for _, l := range cur {
		l.nums()
		key.add(l.h)
	}
	for i, l := range nes {
		l.nums()
		key.add(l.h.times(uint64(2*i + 3)))
	}
	if r, ok := fmMemo[key]; ok {
		return r
	}
	r := infeasible1(cur, nes)
	if len(fmMemo) > 1<<21 {
		fmMemo = map[setHash]bool{}
	}
	fmMemo[key] = r
	return r
}

func infeasible1(cur, nes []*lin) bool {
	// axioms on atoms
	seen := map[string]bool{}
	var all []*lin
	all = append(all, cur...)
	for _, src := range [][]*lin{cur, nes} {
		for _, l := range src {
			for k := range l.v {
				if seen[k] {
					continue
				}
				seen[k] = true
				fac := l.atoms[k]
				if len(fac) == 1 && fac[0].e == 1 {
					all = append(all, atomAxioms(k, fac)...)
				} else {
					nn := true
					for _, fc := range fac {
						if !(nonNegAtom(fc.a) || fc.e%2 == 0) {
							nn = false
						}
					}
					if nn {
						all = append(all, &lin{v: map[string]*big.Rat{k: big.NewRat(-1, 1)}, atoms: l.atoms, c: new(big.Rat)})
					}
				}
			}
		}
	}
	if r, ok := infNeFast(all, nes); ok {
		return r
	}
	return infNe(all, nes)
}

func atomAxioms(k string, fac []Factor) []*lin {
	a := fac[0].a
	var out []*lin
	if nonNegAtom(a) {
		out = append(out, &lin{v: map[string]*big.Rat{k: big.NewRat(-1, 1)}, atoms: map[string][]Factor{k: fac}, c: new(big.Rat), isInt: a.sort == SInt})
	}
	if a.op == OpApp && a.name == "imod" {
		// dividends are non negative where this is used, divisors positive
		out = append(out, toLin(mkAdd(mkSub(a, a.args[1]), t1)))
		out = append(out, toLin(mkNeg(a)))
	}
	return out
}

func infNe(cs []*lin, nes []*lin) bool {
	if fmInfeasible(cs) {
		return true
	}
	if len(nes) == 0 {
		return false
	}
	n := nes[0]
	rest := nes[1:]
	mk := func(l *lin) *lin {
		y := l.copy()
		y.ne = false
		if l.isInt {
			y.c.Add(y.c, oneRat)
		} else {
			y.strict = true
		}
		return y
	}
	a := append(append([]*lin{}, cs...), mk(n))
	if !infNe(a, rest) {
		return false
	}
	b := append(append([]*lin{}, cs...), mk(n.neg()))
	return infNe(b, rest)
}

func (l *lin) tighten() {
	if !l.isInt || len(l.v) == 0 || l.strict {
		return
	}
	g := new(big.Int)
	for _, x := range l.v {
		if !x.IsInt() {
			return
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(x.Num()))
	}
	if g.Cmp(big.NewInt(1)) > 0 || !l.c.IsInt() {
		q := new(big.Rat).SetFrac(big.NewInt(1), g)
		for k, x := range l.v {
			l.v[k] = new(big.Rat).Mul(x, q)
		}
		c := new(big.Rat).Mul(l.c, q)
		// sum + c <= 0 with integer sum: sum <= floor(-c)  => c' = -floor(-c) = ceil(c)
		fl := new(big.Int).Div(new(big.Int).Neg(c.Num()), c.Denom()) // floor(-c)
		l.c = new(big.Rat).SetInt(fl.Neg(fl))
	}
}

func (l *lin) key() string {
	ks := make([]string, 0, len(l.v))
	for k := range l.v {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		b.WriteString(k)
		b.WriteByte(':')
		b.WriteString(l.v[k].RatString())
		b.WriteByte(';')
	}
	return b.String()
}

func fmInfeasible(in []*lin) bool {
	// dedupe by coefficient vector keeping the strongest constant
	add := func(m map[string]*lin, l *lin) bool {
		l.tighten()
		if len(l.v) == 0 {
			s := l.c.Sign()
			return s > 0 || (s == 0 && l.strict)
		}
		k := l.key()
		o, ok := m[k]
		if !ok || l.c.Cmp(o.c) > 0 || (l.c.Cmp(o.c) == 0 && l.strict) {
			m[k] = l
		}
		return false
	}
	m := map[string]*lin{}
	for _, l := range in {
		if add(m, l.copy()) {
			return true
		}
	}
	for len(m) > 0 {
		// choose variable with least product
		cnt := map[string][2]int{}
		for _, l := range m {
			for k, x := range l.v {
				c := cnt[k]
				if x.Sign() > 0 {
					c[0]++
				} else {
					c[1]++
				}
				cnt[k] = c
			}
		}
		best, bv := "", 1<<30
		for k, c := range cnt {
			p := c[0]*c[1] - c[0] - c[1]
			if p < bv || (p == bv && k < best) {
				best, bv = k, p
			}
		}
		var pos, neg []*lin
		nm := map[string]*lin{}
		for k, l := range m {
			x, ok := l.v[best]
			if !ok {
				nm[k] = l
				continue
			}
			if x.Sign() > 0 {
				pos = append(pos, l)
			} else {
				neg = append(neg, l)
			}
		}
		if len(pos)*len(neg) > fmMax*4 {
			return false
		}
		for _, p := range pos {
			for _, n := range neg {
				a := new(big.Rat).Neg(n.v[best])
				b := p.v[best]
				r := &lin{v: map[string]*big.Rat{}, atoms: p.atoms, c: new(big.Rat), strict: p.strict || n.strict, isInt: p.isInt && n.isInt}
				r.c.Add(new(big.Rat).Mul(p.c, a), new(big.Rat).Mul(n.c, b))
				for k, x := range p.v {
					if k != best {
						r.v[k] = new(big.Rat).Mul(x, a)
					}
				}
				for k, x := range n.v {
					if k == best {
						continue
					}
					y := new(big.Rat).Mul(x, b)
					if o, ok := r.v[k]; ok {
						y = new(big.Rat).Add(o, y)
					}
					if y.Sign() == 0 {
						delete(r.v, k)
					} else {
						r.v[k] = y
					}
				}
				if add(nm, r) {
					return true
				}
			}
		}
		if len(nm) > fmMax {
			return false
		}
		m = nm
	}
	return false
}
