package main

// Known functions: constant folding and algebraic identities for uninterpreted applications.

import (
	"math"
	"math/big"
)

// mkFun builds an application of a (possibly interpreted) function.
func mkFun(name string, s Sort, args ...*Term) *Term {
	switch name {
	case "idiv":
		return mkIDiv(args[0], args[1])
	case "imod":
		return mkIMod(args[0], args[1])
	case "fdiv":
		return mkFDiv(args[0], args[1])
	case "sqrt":
		return mkSqrt(args[0])
	case "pow":
		return mkPow(args[0], args[1])
	case "is.nan", "is.inf", "is.inf+", "is.inf-":
		return nanCond(args[0], name[3:])
	case "trunc":
		if isIntTerm(args[0]) {
			return args[0]
		}
		if a := args[0]; a.op == OpIte && (isIntTerm(a.args[1]) || isIntTerm(a.args[2])) {
			return mkIte(a.args[0], mkFun("trunc", s, a.args[1]), mkFun("trunc", s, a.args[2]))
		}
		if r, ok := args[0].isConst(); ok {
			q := new(big.Int).Quo(r.Num(), r.Denom())
			return mkRat(new(big.Rat).SetInt(q))
		}
	case "floor", "round", "ceil":
		if isIntTerm(args[0]) {
			return args[0]
		}
		if r, ok := args[0].isConst(); ok {
			f, _ := r.Float64()
			switch name {
			case "floor":
				f = math.Floor(f)
			case "ceil":
				f = math.Ceil(f)
			default:
				f = math.Round(f)
			}
			return mkRat(new(big.Rat).SetFloat64(f))
		}
	}
	return mkApp(name, s, args...)
}

// mkIDiv is Go integer division (truncation). Exact when the quotient is provably an
// integer polynomial.
func mkIDiv(a, b *Term) *Term {
	if c, ok := b.constInt(); ok && c != 0 {
		if ca, ok := a.constInt(); ok {
			return mkInt(ca / c)
		}
		if c == 1 {
			return a
		}
		if q, ok := intValuedQuotient(a, c); ok {
			return q
		}
		if a.op == OpIte {
			return mkIte(a.args[0], mkIDiv(a.args[1], b), mkIDiv(a.args[2], b))
		}
	}
	if q, ok := monoQuotient(a, b); ok {
		return q
	}
	return mkApp("idiv", SInt, a, b)
}

// monoQuotient divides a whole-number polynomial by a product that divides each of its
// terms. A zero divisor panics, so it may be cancelled.
func monoQuotient(a, b *Term) (*Term, bool) {
	if a.op == OpIte || b.op == OpIte || !isIntTerm(a) || !isIntTerm(b) {
		return nil, false
	}
	d := toPoly(b)
	if len(d.m) != 1 {
		return nil, false
	}
	exp := map[*Term]int{}
	for _, f := range d.m[0].fac {
		exp[f.a] = f.e
	}
	for _, m := range toPoly(a).m {
		if !new(big.Rat).Quo(m.coef, d.m[0].coef).IsInt() {
			return nil, false
		}
		n := 0
		for _, f := range m.fac {
			if e := exp[f.a]; e > 0 && f.e >= e {
				n++
			}
		}
		if n != len(exp) {
			return nil, false
		}
	}
	q := mkMul(a, mkInv(b))
	return q, isIntTerm(q)
}

// intValuedQuotient: a/c for a univariate integer polynomial a that is divisible by c at
// every integer (checked on residues).
func intValuedQuotient(a *Term, c int64) (*Term, bool) {
	if !isIntTerm(a) || c == 0 || c > 64 || c < -64 {
		return nil, false
	}
	p := toPoly(a)
	var v *Term
	for _, m := range p.m {
		if len(m.fac) > 1 {
			return nil, false
		}
		for _, f := range m.fac {
			if v != nil && v != f.a {
				return nil, false
			}
			v = f.a
		}
	}
	n := c
	if n < 0 {
		n = -n
	}
	for x := int64(0); x < n; x++ {
		s := new(big.Int)
		for _, m := range p.m {
			t := new(big.Int).Set(m.coef.Num())
			for _, f := range m.fac {
				t.Mul(t, new(big.Int).Exp(big.NewInt(x), big.NewInt(int64(f.e)), nil))
			}
			s.Add(s, t)
		}
		if new(big.Int).Mod(s, big.NewInt(n)).Sign() != 0 {
			return nil, false
		}
	}
	return mkPolyTerm(polyScale(p, big.NewRat(1, c))), true
}

func mkIMod(a, b *Term) *Term {
	if c, ok := b.constInt(); ok && c != 0 {
		if ca, ok := a.constInt(); ok {
			return mkInt(ca % c)
		}
		if c == 1 || c == -1 {
			return t0
		}
	}
	return mkApp("imod", SInt, a, b)
}

func mkSqrt(a *Term) *Term {
	if r, ok := a.isConst(); ok && r.Sign() >= 0 {
		n := new(big.Int).Sqrt(r.Num())
		d := new(big.Int).Sqrt(r.Denom())
		if new(big.Int).Mul(n, n).Cmp(r.Num()) == 0 && new(big.Int).Mul(d, d).Cmp(r.Denom()) == 0 {
			return mkRat(new(big.Rat).SetFrac(n, d))
		}
	}
	return mkApp("sqrt", SReal, a)
}

func mkPow(a, e *Term) *Term {
	if c, ok := e.constInt(); ok && c >= -8 && c <= 64 {
		if r, isc := a.isConst(); isc && c > 8 {
			if f := new(big.Int).Exp(r.Num(), big.NewInt(c), nil); r.IsInt() {
				return mkRat(new(big.Rat).SetInt(f))
			}
		}
		if c <= 8 {
			x := t1
			y := a
			if c < 0 {
				y = mkInv(a)
			}
			for i := int64(0); i < int64(abs(int(c))); i++ {
				x = mkMul(x, y)
			}
			return x
		}
	}
	if r, ok := e.isConst(); ok && r.Cmp(big.NewRat(1, 2)) == 0 {
		return mkSqrt(a)
	}
	return mkApp("pow", SReal, a, e)
}

// mkFDiv is floor division by a positive divisor, as used for clock arithmetic.
func mkFDiv(a, b *Term) *Term {
	c, ok := b.isConst()
	if !ok || c.Sign() <= 0 || !c.IsInt() || !isIntTerm(a) {
		if !ok && a.op == OpPoly && b.op == OpPoly {
			// floor((x + q·b) / b) = q + floor(x / b)
			out, rest := t0, t0
			for _, m := range toPoly(a).m {
				t := mkPolyTerm(&Poly{[]Mono{m}})
				if q, ok := monoQuotient(t, b); ok {
					out = mkAdd(out, q)
				} else {
					rest = mkAdd(rest, t)
				}
			}
			if out != t0 {
				if rest == t0 {
					return out
				}
				return mkAdd(out, mkApp("fdiv", SInt, rest, b))
			}
		}
		return mkApp("fdiv", SInt, a, b)
	}
	if a.op == OpIte {
		return mkIte(a.args[0], mkFDiv(a.args[1], b), mkFDiv(a.args[2], b))
	}
	p := toPoly(a)
	out, rest := t0, t0
	for _, m := range p.m {
		one := t1
		for _, f := range m.fac {
			for i := 0; i < int(f.e); i++ {
				one = mkMul(one, f.a)
			}
			if f.e < 0 {
				return mkApp("fdiv", SInt, a, b)
			}
		}
		if !m.coef.IsInt() {
			return mkApp("fdiv", SInt, a, b)
		}
		q, r := new(big.Int).DivMod(m.coef.Num(), c.Num(), new(big.Int))
		out = mkAdd(out, mkMul(mkRat(new(big.Rat).SetInt(q)), one))
		rest = mkAdd(rest, mkMul(mkRat(new(big.Rat).SetInt(r)), one))
	}
	if r, ok := rest.isConst(); ok && r.Sign() >= 0 && r.Cmp(c) < 0 {
		return out
	}
	return mkAdd(out, mkApp("fdiv", SInt, rest, b))
}
