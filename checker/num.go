package main

// Separating assignments for extracted terms. Two value graphs whose normal forms differ are
// only reported as different when an assignment of the free symbols is found under which the
// two closed terms denote different numbers (polynomial identity testing over exact
// rationals). Nothing of /repo is executed here: the objects evaluated are the terms.

import (
	"fmt"
	"hash/fnv"
	"math"
	"math/big"
	"math/rand"
	"sort"
	"strings"
)

type nkind uint8

const (
	nRat nkind = iota
	nFlt
	nBool
	nStr
	nBag
)

type NV struct {
	k nkind
	r *big.Rat
	f float64
	b bool
	s string
	g []*big.Rat // sorted
}

type stop struct{ why string }

func (v NV) float() float64 {
	if v.k == nRat {
		f, _ := v.r.Float64()
		return f
	}
	return v.f
}

func (v NV) key() string {
	switch v.k {
	case nRat:
		return v.r.RatString()
	case nFlt:
		return fmt.Sprintf("~%.12g", v.f)
	case nBool:
		return fmt.Sprint(v.b)
	case nStr:
		return v.s
	}
	var b strings.Builder
	for _, r := range v.g {
		b.WriteString(r.RatString())
		b.WriteByte(',')
	}
	return "{" + b.String() + "}"
}

func (v NV) show() string {
	if v.k == nRat {
		if v.r.IsInt() {
			return v.r.RatString()
		}
		f, _ := v.r.Float64()
		return fmt.Sprintf("%.8g", f)
	}
	return v.key()
}

func ratV(r *big.Rat) NV {
	if n := r.Num().BitLen() + r.Denom().BitLen(); n > 6000 {
		f, _ := r.Float64()
		return NV{k: nFlt, f: f}
	}
	return NV{k: nRat, r: r}
}
func intV(i int64) NV   { return NV{k: nRat, r: new(big.Rat).SetInt64(i)} }
func boolV(b bool) NV   { return NV{k: nBool, b: b} }
func strV(s string) NV  { return NV{k: nStr, s: s} }
func fltV(f float64) NV { return NV{k: nFlt, f: f} }

func halt(why string) {
	panic(stop{why})
}

type Valuation struct {
	seed    int64
	mode    int
	syms    map[int]NV
	lens    map[string]int64
	recs    map[string]NV
	firsts  map[string]NV
	active  map[string]bool
	stack   []string
	steps   int
	max     int
	data    map[string]NV
	walks   map[string][]candle
	hint    *big.Rat            // scale of the drawn values (nil: the usual one)
	halves  bool                // draw signed multiples of a half of a decimal place
	touch   map[string]inCell   // inputs read (when not nil)
	recEnvs map[*RecGroup][]env // environments recurrences were evaluated in (when not nil)
}

// scaled redraws a real input value on the scale of the hint: small constants are approached by
// differences of their order, large ones by values of their order.
func (v *Valuation) scaled(x *big.Rat) NV {
	if v.hint == nil {
		return ratV(x)
	}
	r := new(big.Rat).Mul(x, v.hint)
	if v.hint.Cmp(big.NewRat(1, 5)) < 0 {
		// four units are a third of the constant
		r.Mul(r, big.NewRat(4, 3))
		return ratV(r.Add(r, big.NewRat(100, 1)))
	}
	return ratV(r.Mul(r, big.NewRat(1, 60)))
}

type candle struct{ open, close, high, low, volume, amount, change, count int64 }

func newValuation(seed int64, mode int) *Valuation {
	return &Valuation{seed: seed, mode: mode, syms: map[int]NV{}, lens: map[string]int64{}, recs: map[string]NV{}, firsts: map[string]NV{}, active: map[string]bool{}, max: 400000, data: map[string]NV{}, walks: map[string][]candle{}}
}

type env map[int]NV

type scope struct {
	env  env
	memo map[int]NV
}

func (v *Valuation) eval(t *Term, e env) NV {
	return v.ev(t, &scope{env: e, memo: map[int]NV{}})
}

func (v *Valuation) ev(t *Term, sc *scope) NV {
	switch t.op {
	case OpBool:
		return boolV(t.bval)
	case OpStr:
		if t.name == "bag.empty" {
			return NV{k: nBag}
		}
		return strV(t.name)
	case OpSym:
		return v.sym(t)
	case OpVar:
		if x, ok := sc.env[t.id]; ok {
			return x
		}
		halt("free variable " + t.name)
	case OpOpaque:
		halt("opaque " + t.name)
	}
	if x, ok := sc.memo[t.id]; ok {
		return x
	}
	v.steps++
	if v.steps > v.max {
		halt("budget")
	}
	x := v.ev1(t, sc)
	sc.memo[t.id] = x
	return x
}

func (v *Valuation) ev1(t *Term, sc *scope) NV {
	switch t.op {
	case OpPoly:
		acc := intV(0)
		for _, m := range t.poly.m {
			x := NV{k: nRat, r: m.coef}
			zero := false
			for _, f := range m.fac {
				y := v.ev(f.a, sc)
				if f.e < 0 {
					y = inv(y)
				}
				for n := abs(f.e); n > 0; n-- {
					x = mulV(x, y)
				}
			}
			if !zero {
				acc = addV(acc, x)
			}
		}
		return acc
	case OpGroup:
		return v.ev(t.args[0], sc)
	case OpIte:
		var c bool
		if why := v.guard(func() { c = v.truth(t.args[0], sc) }); why != "" {
			if why != "undefined" {
				halt(why)
			}
			// decision diagrams order their tests by term, not by evaluation order: a test
			// that is only meaningful under a later one must not matter here
			x, y := v.ev(t.args[1], sc), v.ev(t.args[2], sc)
			if x.k != y.k || x.key() != y.key() {
				halt(why)
			}
			return x
		}
		if c {
			return v.ev(t.args[1], sc)
		}
		return v.ev(t.args[2], sc)
	case OpLt0:
		return boolV(sign(v.ev(t.args[0], sc)) < 0)
	case OpEq0:
		return boolV(sign(v.ev(t.args[0], sc)) == 0)
	case OpEqO:
		return boolV(eqV(v.ev(t.args[0], sc), v.ev(t.args[1], sc)))
	case OpRec:
		return v.rec(t.grp, t.comp, v.evs(t.args, sc), sc)
	case OpFirst:
		return v.first(t, sc)
	case OpApp:
		if strings.HasPrefix(t.name, "μ") {
			i := strings.LastIndexByte(t.name, '.')
			g := muGroups[t.name[:i]]
			if g == nil {
				halt("unknown recurrence " + t.name)
			}
			var comp int
			fmt.Sscan(t.name[i+1:], &comp)
			return v.rec(g, comp, v.evs(t.args, sc), sc)
		}
		if strings.HasPrefix(t.name, "κ") {
			halt("unresolved loop value")
		}
		return v.app(t, v.evs(t.args, sc))
	}
	halt("term " + t.String())
	return NV{}
}

func (v *Valuation) truth(c *Term, sc *scope) bool {
	x := v.ev(c, sc)
	if x.k != nBool {
		halt("condition")
	}
	return x.b
}

func (v *Valuation) evs(a []*Term, sc *scope) []NV {
	out := make([]NV, len(a))
	for i, x := range a {
		out[i] = v.ev(x, sc)
	}
	return out
}

func (v *Valuation) rec(g *RecGroup, comp int, args []NV, sc *scope) NV {
	var b strings.Builder
	fmt.Fprintf(&b, "%d.%d", g.id, comp)
	for _, a := range args {
		b.WriteByte(';')
		b.WriteString(a.key())
	}
	e := make(env, len(args)+len(g.fv))
	for _, x := range g.fv {
		y, ok := sc.env[x.id]
		if !ok {
			halt("free variable " + x.name)
		}
		e[x.id] = y
		b.WriteByte('|')
		b.WriteString(y.key())
	}
	key := b.String()
	if r, ok := v.recs[key]; ok {
		return r
	}
	if v.active[key] {
		halt("non-terminating recurrence")
	}
	for i, p := range g.params[comp] {
		e[p.id] = args[i]
	}
	if v.recEnvs != nil && len(v.recEnvs[g]) < 400 {
		v.recEnvs[g] = append(v.recEnvs[g], e)
	}
	v.active[key] = true
	v.stack = append(v.stack, key)
	r := v.ev(g.body[comp], &scope{env: e, memo: map[int]NV{}})
	v.stack = v.stack[:len(v.stack)-1]
	delete(v.active, key)
	v.recs[key] = r
	return r
}

func (v *Valuation) first(t *Term, sc *scope) NV {
	g := t.grp
	var b strings.Builder
	fmt.Fprintf(&b, "%d", g.id)
	e := make(env)
	for _, x := range g.fv {
		y, ok := sc.env[x.id]
		if !ok {
			halt("free variable " + x.name)
		}
		e[x.id] = y
		b.WriteByte('|')
		b.WriteString(y.key())
	}
	if r, ok := v.firsts[b.String()]; ok {
		return r
	}
	for k := int64(0); k < 3000; k++ {
		e[g.params[0][0].id] = intV(k)
		if v.truth(g.body[0], &scope{env: e, memo: map[int]NV{}}) {
			v.firsts[b.String()] = intV(k)
			return intV(k)
		}
	}
	halt("unbounded search")
	return NV{}
}

// ---- arithmetic

// ieee makes divisions by zero and roots of negatives produce NaN and infinities that
// propagate through comparisons as in the running program; otherwise they end the evaluation.
var ieee bool

// nonfinite tells whether the last "undefined" came from a division by zero or a root.
var nonfinite bool

// beyond stands for an infinity in comparisons; no result may be of half its size.
var (
	beyond     = new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(400), nil))
	beyondHalf = new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(200), nil))
)

// bounded ends the evaluation for a result that can only stem from an infinity.
func bounded(x NV) {
	if x.k == nRat && new(big.Rat).Abs(x.r).Cmp(beyondHalf) > 0 {
		undef()
	}
}

func undef() {
	nonfinite = true
	halt("undefined")
}

func finite(v NV) bool { return v.k != nFlt || !math.IsNaN(v.f) && !math.IsInf(v.f, 0) }

func num(v NV) NV {
	if v.k != nRat && v.k != nFlt {
		halt("number expected")
	}
	if !ieee && !finite(v) {
		undef()
	}
	return v
}
func addV(a, b NV) NV {
	num(a)
	num(b)
	if a.k == nRat && b.k == nRat {
		return ratV(new(big.Rat).Add(a.r, b.r))
	}
	return num(fltV(a.float() + b.float()))
}
func mulV(a, b NV) NV {
	num(a)
	num(b)
	if a.k == nRat && b.k == nRat {
		return ratV(new(big.Rat).Mul(a.r, b.r))
	}
	if !finite(a) || !finite(b) {
		return num(fltV(a.float() * b.float()))
	}
	if a.k == nRat && a.r.Sign() == 0 || b.k == nRat && b.r.Sign() == 0 {
		return intV(0)
	}
	return num(fltV(a.float() * b.float()))
}
func inv(a NV) NV {
	num(a)
	if a.k == nRat {
		if a.r.Sign() == 0 {
			if ieee {
				return fltV(math.Inf(1))
			}
			undef()
		}
		return ratV(new(big.Rat).Inv(a.r))
	}
	if math.Abs(a.f) < 1e-12 {
		if ieee {
			halt("ambiguous")
		}
		undef()
	}
	return num(fltV(1 / a.f))
}
func sign(a NV) int {
	num(a)
	if a.k == nRat {
		return a.r.Sign()
	}
	if math.IsNaN(a.f) {
		return 2 // neither less nor equal
	}
	if math.Abs(a.f) < 1e-9 {
		halt("ambiguous")
	}
	if a.f < 0 {
		return -1
	}
	return 1
}
func subV(a, b NV) NV { return addV(a, mulV(intV(-1), b)) }

func eqV(a, b NV) bool {
	if (a.k == nRat || a.k == nFlt) && (b.k == nRat || b.k == nFlt) {
		return sign(subV(a, b)) == 0
	}
	return a.k == b.k && a.key() == b.key()
}

// differ decides inequality of two results, allowing for inexact numbers.
func differ(a, b NV) bool {
	if (a.k == nRat || a.k == nFlt) && (b.k == nRat || b.k == nFlt) {
		if a.k == nRat && b.k == nRat && a.r.Cmp(b.r) == 0 {
			return false
		}
		x, y := a.float(), b.float()
		d := math.Abs(x - y)
		m := math.Max(math.Abs(x), math.Abs(y))
		return d > 1e-7*m && d > 1e-10
	}
	return a.k != b.k || a.key() != b.key()
}

func h64(parts ...interface{}) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	x := h.Sum64()
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	return x
}

// ---- symbols and applications

func (v *Valuation) sym(t *Term) NV {
	if v.touch != nil && t.sort == SReal && t.name != "nan" && t.name != "+inf" {
		v.touch["sym "+t.name] = inCell{key: "sym " + t.name, idx: -1, sym: t}
	}
	if x, ok := v.syms[t.id]; ok {
		return x
	}
	if t.name == "nan" {
		if ieee {
			return fltV(math.NaN())
		}
		undef()
	}
	if t.name == "+inf" {
		if ieee {
			return fltV(math.Inf(1))
		}
		return ratV(beyond) // compares as an infinity does; a result of that size counts as undefined
	}
	var x NV
	h := h64(v.seed, "sym", t.name)
	switch t.sort {
	case SInt:
		x = intV(int64(h % 7))
		if strings.HasSuffix(t.name, ".Interval") && h%3 != 0 {
			x = intV(60_000_000_000) // one minute
		}
	case SReal:
		x = v.scaled(big.NewRat(int64(h%20)+1, 4))
		if v.halves {
			x = halfStep(h)
		}
	case SBool:
		x = boolV(h&1 == 1)
	default:
		x = strV("'" + t.name)
	}
	v.syms[t.id] = x
	return x
}

func asInt(a NV) int64 {
	if a.k != nRat || !a.r.IsInt() || !a.r.Num().IsInt64() {
		halt("integer expected")
	}
	return a.r.Num().Int64()
}

func (v *Valuation) app(t *Term, a []NV) NV {
	switch t.name {
	case "inf":
		if ieee {
			return fltV(math.Inf(1))
		}
		return ratV(beyond) // compares as an infinity does; a result of that size counts as undefined
	case "fdiv":
		if a[0].k != nRat || a[1].k != nRat || !a[0].r.IsInt() || !a[1].r.IsInt() || a[1].r.Sign() <= 0 {
			halt("undefined")
		}
		return ratV(new(big.Rat).SetInt(new(big.Int).Div(a[0].r.Num(), a[1].r.Num())))
	case "idiv", "imod":
		x, y := asInt(a[0]), asInt(a[1])
		if y == 0 {
			nonfinite = false
			halt("undefined")
		}
		if t.name == "idiv" {
			return intV(x / y)
		}
		return intV(x % y)
	case "is.nan", "is.inf", "is.inf+", "is.inf-":
		// outside ieee mode the argument evaluated, so it is finite
		f := a[0].float()
		return boolV(!finite(a[0]) && (t.name == "is.nan" && math.IsNaN(f) || t.name == "is.inf" && math.IsInf(f, 0) || t.name == "is.inf+" && math.IsInf(f, 1) || t.name == "is.inf-" && math.IsInf(f, -1)))
	case "sqrt":
		if !finite(a[0]) {
			return fltV(math.Sqrt(a[0].f))
		}
		if sign0(a[0]) < 0 {
			if ieee {
				return fltV(math.NaN())
			}
			undef()
		}
		if a[0].k == nRat {
			r := a[0].r
			n := new(big.Int).Sqrt(r.Num())
			d := new(big.Int).Sqrt(r.Denom())
			if new(big.Int).Mul(n, n).Cmp(r.Num()) == 0 && new(big.Int).Mul(d, d).Cmp(r.Denom()) == 0 {
				return ratV(new(big.Rat).SetFrac(n, d))
			}
		}
		f := a[0].float()
		if f < 0 {
			f = 0
		}
		return num(fltV(math.Sqrt(f)))
	case "trunc", "floor", "ceil", "round":
		if a[0].k == nRat {
			r := a[0].r
			fl := new(big.Int)
			fl.Div(r.Num(), r.Denom()) // Euclid: floor for positive denominators
			res := new(big.Rat).SetInt(fl)
			isInt := r.IsInt()
			switch t.name {
			case "ceil":
				if !isInt {
					res.Add(res, oneRat)
				}
			case "trunc":
				if !isInt && r.Sign() < 0 {
					res.Add(res, oneRat)
				}
			case "round":
				half := big.NewRat(1, 2)
				d := new(big.Rat).Sub(r, res)
				c := d.Cmp(half)
				if c > 0 || (c == 0 && r.Sign() > 0) {
					res.Add(res, oneRat)
				}
			}
			return ratV(res)
		}
		f := a[0].f
		if !finite(a[0]) {
			return a[0]
		}
		near := math.Round(f*2) / 2
		if math.Abs(f-near) < 1e-7 {
			halt("ambiguous")
		}
		switch t.name {
		case "trunc":
			f = math.Trunc(f)
		case "floor":
			f = math.Floor(f)
		case "ceil":
			f = math.Ceil(f)
		default:
			f = math.Round(f)
		}
		return ratV(new(big.Rat).SetFloat64(f))
	case "pow":
		if a[1].k == nRat && a[1].r.IsInt() && a[0].k == nRat && a[1].r.Num().IsInt64() {
			n := a[1].r.Num().Int64()
			if n >= -40 && n <= 40 {
				x := intV(1)
				for i := int64(0); i < int64(abs(int(n))); i++ {
					x = mulV(x, a[0])
				}
				if n < 0 {
					x = inv(x)
				}
				return x
			}
		}
		return num(fltV(math.Pow(a[0].float(), a[1].float())))
	case "bag.ins":
		g := append([]*big.Rat{}, a[0].g...)
		x := exact(a[1])
		i := sort.Search(len(g), func(i int) bool { return g[i].Cmp(x) >= 0 })
		g = append(g, nil)
		copy(g[i+1:], g[i:])
		g[i] = x
		return NV{k: nBag, g: g}
	case "bag.rem":
		g := a[0].g
		x := exact(a[1])
		i := sort.Search(len(g), func(i int) bool { return g[i].Cmp(x) >= 0 })
		if i < len(g) && g[i].Cmp(x) == 0 {
			return NV{k: nBag, g: append(append([]*big.Rat{}, g[:i]...), g[i+1:]...)}
		}
		return a[0]
	case "bag.has":
		g := a[0].g
		x := exact(a[1])
		i := sort.Search(len(g), func(i int) bool { return g[i].Cmp(x) >= 0 })
		return boolV(i < len(g) && g[i].Cmp(x) == 0)
	case "bag.max", "bag.min":
		g := a[0].g
		if len(g) == 0 {
			return intV(0)
		}
		if t.name == "bag.min" {
			return ratV(g[0])
		}
		return ratV(g[len(g)-1])
	}
	if f, ok := floatFuns[t.name]; ok && len(a) == f.n {
		var x float64
		if f.n == 1 {
			x = f.f1(a[0].float())
		} else {
			x = f.f2(a[0].float(), a[1].float())
		}
		return num(fltV(x))
	}
	if strings.Contains(t.name, "[]") && t.sort != SBool || isInputName(t.name) {
		return v.input(t, a)
	}
	// uninterpreted function
	var b strings.Builder
	b.WriteString(t.name)
	b.WriteByte('(')
	for i, x := range a {
		if i > 0 {
			b.WriteByte(',')
		}
		if x.k == nFlt {
			halt("ambiguous")
		}
		b.WriteString(x.key())
	}
	b.WriteByte(')')
	s := b.String()
	h := h64(v.seed, s)
	switch t.sort {
	case SInt:
		return intV(int64(h % 11))
	case SReal:
		return ratV(big.NewRat(int64(h%400)-100, 8))
	case SBool:
		return boolV(h&1 == 1)
	}
	return strV(s)
}

func sign0(a NV) int {
	if a.k == nFlt {
		if a.f < -1e-9 {
			return -1
		}
		return 1
	}
	return sign(a)
}

func exact(a NV) *big.Rat {
	if a.k == nRat {
		return a.r
	}
	if !finite(a) {
		halt("number expected")
	}
	if a.k == nFlt {
		return new(big.Rat).SetFloat64(num(a).f)
	}
	halt("number expected")
	return nil
}

type fun12 struct {
	n  int
	f1 func(float64) float64
	f2 func(float64, float64) float64
}

var floatFuns = map[string]fun12{
	"math.Atan": {n: 1, f1: math.Atan}, "math.Log": {n: 1, f1: math.Log}, "math.Exp": {n: 1, f1: math.Exp},
	"math.Sin": {n: 1, f1: math.Sin}, "math.Cos": {n: 1, f1: math.Cos}, "math.Tan": {n: 1, f1: math.Tan},
	"math.Log10": {n: 1, f1: math.Log10}, "math.Log2": {n: 1, f1: math.Log2}, "math.Cbrt": {n: 1, f1: math.Cbrt},
	"math.Hypot": {n: 2, f2: math.Hypot}, "math.Mod": {n: 2, f2: math.Mod},
}

func isInputName(n string) bool { return strings.Contains(n, "[]") }

// input: an element of an input sequence. Candle fields follow the shape of market data
// (low <= open, close <= high, increasing times), other sequences are arbitrary numbers.
func (v *Valuation) input(t *Term, a []NV) NV {
	idx := asInt(a[len(a)-1])
	if idx < 0 {
		nonfinite = false
		halt("undefined")
	}
	j := strings.LastIndex(t.name, "[]")
	base, field := t.name[:j], strings.TrimPrefix(t.name[j+2:], ".")
	if n, ok := v.lens[base]; ok && idx >= n {
		nonfinite = false
		halt("undefined")
	}
	key := t.name
	for _, x := range a {
		key += "," + x.key()
	}
	if v.touch != nil && t.sort == SReal {
		v.touch[key] = inCell{key: key, base: base, field: field, idx: idx}
	}
	if x, ok := v.data[key]; ok {
		return x
	}
	var x NV
	if strings.HasSuffix(base, "Candles") && len(a) == 1 {
		x = v.candleField(t, base, field, int(idx))
	} else {
		h := h64(v.seed, key)
		switch t.sort {
		case SInt:
			x = intV(int64(h % 9))
		case SBool:
			x = boolV(h&1 == 1)
		case SReal:
			x = v.series(base, field, idx, h)
		default:
			x = strV("'" + key)
		}
	}
	v.data[key] = x
	return x
}

func (v *Valuation) series(base, field string, i int64, h uint64) NV {
	if v.halves {
		return halfStep(h)
	}
	off := int64(0)
	switch v.mode % 8 {
	case 0:
		return v.scaled(big.NewRat(int64(h%5), 1))
	case 1:
		return v.scaled(big.NewRat(int64(h%400)-100, 8))
	case 2:
		off = 10 + 3*i + int64(h%2)
	case 3:
		off = 400 - 3*i - int64(h%2)
	case 4:
		return v.scaled(big.NewRat(7, 1))
	case 5:
		off = 20 + 6*(i%2) + int64(h%3)
	case 6:
		off = 20
		if h%5 == 0 {
			off = 20 + int64(h/7%40)
		}
	default:
		off = 30 + int64(h/3%12) - 6
		if (i/4)%2 == 0 {
			off = 30
		}
		return v.scaled(big.NewRat(off, 2))
	}
	return v.scaled(big.NewRat(off, 1))
}

// halfStep is a value at which rounding to some decimal place is a tie.
func halfStep(h uint64) NV {
	return ratV(big.NewRat(int64(h%41)-20, []int64{2, 2, 20, 200}[h/41%4]))
}

func (v *Valuation) price(x *big.Rat) NV {
	if v.hint != nil && v.hint.Cmp(big.NewRat(1, 5)) < 0 {
		x = new(big.Rat).Sub(x, big.NewRat(100, 1))
	}
	return v.scaled(x)
}

func (v *Valuation) candleField(t *Term, base, field string, i int) NV {
	w := v.walks[base]
	for len(w) <= i {
		w = append(w, v.nextCandle(base, w))
	}
	v.walks[base] = w
	c := w[i]
	d := int64(4)
	switch field {
	case "Open":
		return v.price(big.NewRat(c.open, d))
	case "Close":
		return v.price(big.NewRat(c.close, d))
	case "High":
		return v.price(big.NewRat(c.high, d))
	case "Low":
		return v.price(big.NewRat(c.low, d))
	case "Volume":
		if v.hint != nil && v.hint.Cmp(big.NewRat(1, 5)) >= 0 {
			return v.scaled(big.NewRat(4*c.volume, 1))
		}
		return intV(c.volume)
	case "Amount":
		return intV(c.amount)
	case "ChangePercent":
		return ratV(big.NewRat(c.change, 8))
	case "Count":
		return intV(c.count)
	case "TimeUnix":
		if anyTimes && v.mode%3 != 0 {
			unit, pool := v.timeUnits()
			return intV(1600000000 + unit*int64(h64(v.seed, base, "t", i)%uint64(pool)))
		}
		return intV(1600000000 + 60*int64(i))
	case "IsBullMarket":
		return boolV(h64(v.seed, base, field, i)&1 == 1)
	}
	h := h64(v.seed, base, field, i)
	switch t.sort {
	case SInt:
		return intV(int64(h % 9))
	case SReal:
		return intV(int64(h % 90))
	case SBool:
		return boolV(h&1 == 1)
	}
	return strV(fmt.Sprintf("'%s.%s[%d]", base, field, i))
}

// timeUnits: candle times out of order are drawn from a pool of that many times, unit seconds apart.
func (v *Valuation) timeUnits() (unit, pool int64) {
	unit, pool = 60, 5
	if v.seed&16 != 0 {
		unit = 1
	}
	if v.seed&32 != 0 {
		pool = 30
	}
	return
}

func (v *Valuation) nextCandle(base string, w []candle) candle {
	i := len(w)
	r := rand.New(rand.NewSource(int64(h64(v.seed, v.mode, base, i))))
	prev := int64(400)
	if i > 0 {
		prev = w[i-1].close
	}
	step := func(lo, hi int64) int64 { return lo + r.Int63n(hi-lo+1) }
	open, cl := prev, prev
	switch v.mode % 8 {
	case 0: // small values, many ties
		open, cl = 40+4*step(0, 3), 40+4*step(0, 3)
	case 1: // random walk
		open, cl = prev+step(-6, 6), prev+step(-20, 20)
	case 2:
		open, cl = prev+step(0, 3), prev+step(1, 14)
	case 3:
		open, cl = prev-step(0, 2), prev-step(1, 5)
	case 4: // flat
		return candle{400, 400, 400, 400, 7, 9, 0, 3}
	case 5: // oscillating trend
		a := int64(12)
		if (i/6)%2 == 0 {
			a = -12
		}
		open, cl = prev+step(-2, 2), prev+a+step(-6, 6)
	case 6: // quiet with spikes
		if r.Intn(5) == 0 {
			cl = prev + step(-60, 60)
		}
	default:
		if (i/5)%3 == 0 {
			// plateau
		} else {
			open, cl = prev+step(-3, 3), prev+step(-16, 16)
		}
	}
	if open < 12 {
		open = 12 + step(0, 5)
	}
	if cl < 12 {
		cl = 12 + step(0, 5)
	}
	hi, lo := open, open
	if cl > hi {
		hi = cl
	}
	if cl < lo {
		lo = cl
	}
	switch r.Intn(4) {
	case 0:
	case 1:
		hi += step(0, 8)
	default:
		hi += step(0, 8)
		lo -= step(0, 8)
	}
	vol := step(1, 30)
	if v.mode%8 == 0 && r.Intn(4) == 0 {
		vol = 1
	}
	if v.seed%4 == 0 && r.Intn(4) == 0 {
		vol = 0
	}
	return candle{open, cl, hi, lo, vol, step(1, 90), step(-40, 40), step(0, 9)}
}

// ---- search for a separating assignment

type sepStats struct {
	tried, agreed, undef, ambig, opaque int
	why                                 map[string]int
}

func collectSyms(ts []*Term) (syms []*Term, maxConst int64, times map[int]bool) {
	times = map[int]bool{}
	seen := map[int]bool{}
	gs := map[*RecGroup]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == OpSym {
			syms = append(syms, t)
		}
		if t.poly != nil {
			timed := false
			for _, m := range t.poly.m {
				timed = timed || len(m.fac) == 1 && m.fac[0].a.op == OpApp && strings.HasSuffix(m.fac[0].a.name, ".TimeUnix")
			}
			for _, m := range t.poly.m {
				if timed && len(m.fac) == 1 && m.fac[0].a.op == OpSym {
					times[m.fac[0].a.id] = true
				}
			}
			for _, m := range t.poly.m {
				if len(m.fac) == 0 && m.coef.IsInt() && m.coef.Num().IsInt64() {
					if c := m.coef.Num().Int64(); c > maxConst && t.sort == SInt && c < 1000 {
						maxConst = c
					} else if -c > maxConst && t.sort == SInt && -c < 1000 {
						maxConst = -c
					}
				}
				for _, f := range m.fac {
					walk(f.a)
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
		if t.grp != nil && !gs[t.grp] {
			gs[t.grp] = true
			for _, b := range t.grp.body {
				walk(b)
			}
		}
		if t.op == OpApp && strings.HasPrefix(t.name, "μ") {
			if g := muGroups[t.name[:strings.LastIndexByte(t.name, '.')]]; g != nil && !gs[g] {
				gs[g] = true
				for _, b := range g.body {
					walk(b)
				}
			}
		}
	}
	for _, t := range ts {
		walk(t)
	}
	sort.Slice(syms, func(i, j int) bool { return syms[i].name < syms[j].name })
	return
}

// attempt evaluates fn, converting a halt into a reason.
func attempt(fn func()) (why string) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(stop); ok {
				why = s.why
				return
			}
			panic(r)
		}
	}()
	fn()
	return ""
}

// guard is attempt inside an evaluation: recurrences abandoned by the halt are released.
func (v *Valuation) guard(fn func()) string {
	n := len(v.stack)
	why := attempt(fn)
	if why != "" {
		for _, k := range v.stack[n:] {
			delete(v.active, k)
		}
		v.stack = v.stack[:n]
	}
	return why
}

type sampler struct {
	facts []lit
	terms []*Term
	vars  []*Term // free variables to enumerate
	syms  []*Term
	maxC  int64
	base  []lit // facts without free variables
	dep   []lit
	hints []*big.Rat
	ints  []int64      // whole hints: values for lengths and whole numbers
	times map[int]bool // symbols compared with candle times
	ties  bool         // some term rounds
}

// intHintsOf are the whole ones of the hints.
func intHintsOf(hs []*big.Rat) (out []int64) {
	for _, h := range hs {
		if h.IsInt() && h.Num().IsInt64() && h.Num().Int64() <= 3000 {
			out = append(out, h.Num().Int64())
		}
	}
	return
}

// constants are the unusual numeric constants of a term.
func constants(t *Term, all bool) map[string]*big.Rat {
	out := map[string]*big.Rat{}
	seen := map[int]bool{}
	gs := map[*RecGroup]bool{}
	var walk func(t *Term)
	group := func(g *RecGroup) {
		if g != nil && !gs[g] {
			gs[g] = true
			for _, b := range g.body {
				walk(b)
			}
		}
	}
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.poly != nil {
			for _, m := range t.poly.m {
				if len(m.fac) == 0 {
					c := new(big.Rat).Abs(m.coef)
					if c.Sign() > 0 && (all && c.IsInt() && c.Cmp(big.NewRat(2, 1)) > 0 || c.Cmp(big.NewRat(1, 5)) < 0 || c.Cmp(big.NewRat(30, 1)) > 0) {
						out[c.RatString()] = c
					}
				}
				for _, f := range m.fac {
					walk(f.a)
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
		group(t.grp)
		if t.op == OpApp && strings.HasPrefix(t.name, "μ") {
			group(muGroups[t.name[:strings.LastIndexByte(t.name, '.')]])
		}
	}
	walk(t)
	return out
}

// hasRounding: the term rounds a number that is not whole by construction.
func hasRounding(t *Term) bool {
	found := false
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] || found {
			return
		}
		seen[t.id] = true
		if t.op == OpApp {
			switch t.name {
			case "round", "floor", "ceil", "trunc":
				found = true
			}
		}
		if t.poly != nil {
			for _, m := range t.poly.m {
				for _, f := range m.fac {
					walk(f.a)
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	return found
}

// hintsOf are the constants only one of the two terms has.
func hintsOf(a, b *Term, all bool) (hs []*big.Rat) {
	ca, cb := constants(a, all), constants(b, all)
	for k, c := range ca {
		if cb[k] == nil {
			hs = append(hs, c)
		}
	}
	for k, c := range cb {
		if ca[k] == nil {
			hs = append(hs, c)
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Cmp(hs[j]) < 0 })
	return
}

func newSampler(facts []lit, ts []*Term) *sampler {
	s := &sampler{facts: facts}
	for _, t := range ts {
		if t != nil {
			s.terms = append(s.terms, t)
		}
	}
	all := append([]*Term{}, s.terms...)
	vs := map[int]*Term{}
	for _, l := range facts {
		all = append(all, l.t)
		for _, v := range l.t.fv {
			vs[v.id] = v
		}
		if len(l.t.fv) == 0 {
			s.base = append(s.base, l)
		} else {
			s.dep = append(s.dep, l)
		}
	}
	for _, t := range s.terms {
		for _, v := range t.fv {
			vs[v.id] = v
		}
	}
	for _, v := range vs {
		s.vars = append(s.vars, v)
	}
	sort.Slice(s.vars, func(i, j int) bool { return s.vars[i].id < s.vars[j].id })
	s.syms, s.maxC, s.times = collectSyms(all)
	return s
}

// assign draws symbol values satisfying the closed facts.
func (s *sampler) assign(n int, rng *rand.Rand) *Valuation {
	for try := 0; try < 60; try++ {
		v := newValuation(rng.Int63(), n)
		if len(s.hints) > 0 && n%3 == 2 {
			v.hint = s.hints[rng.Intn(len(s.hints))]
		}
		v.halves = s.ties && n%3 == 1
		shared := int64(-1)
		ints := s.ints
		if n%4 == 3 || try > 20 {
			ints = nil
		}
		if len(ints) > 0 && ints[len(ints)-1] > 30 {
			v.max = 4000000
		}
		for _, t := range s.syms {
			switch {
			case t.sort == SInt && strings.HasPrefix(t.name, "len("):
				if shared < 0 || rng.Intn(4) == 0 {
					hi := int64(26)
					if s.maxC > 8 {
						hi = 2*s.maxC + 12
					}
					if hi > 260 {
						hi = 260
					}
					if len(ints) > 0 && n%2 == 1 {
						if c := ints[rng.Intn(len(ints))]; c > 24 {
							hi = c + c/4 + 8
						}
					}
					lo := int64(0)
					if n%3 != 0 {
						lo = hi / 2
					}
					shared = lo + rng.Int63n(hi-lo+1)
				}
				v.syms[t.id] = intV(shared)
				v.lens[t.name[4:len(t.name)-1]] = shared
			case t.sort == SInt:
				hi := int64(7)
				switch rng.Intn(6) {
				case 0:
					hi = 1
				case 1, 2:
					hi = 14
				}
				v.syms[t.id] = intV(rng.Int63n(hi + 1))
				if len(ints) > 0 && rng.Intn(3) == 0 {
					if c := ints[rng.Intn(len(ints))] - 1 + rng.Int63n(3); c <= 300 {
						v.syms[t.id] = intV(c)
					}
				}
				unit, pool := v.timeUnits()
				if s.times[t.id] && anyTimes && rng.Intn(8) != 0 {
					v.syms[t.id] = intV(1600000000 + unit*rng.Int63n(pool+1))
				}
			}
		}
		ok := true
		why := attempt(func() {
			for _, l := range s.base {
				if v.eval(l.t, env{}).b != l.v {
					ok = false
					return
				}
			}
		})
		if why == "" && ok {
			return v
		}
	}
	return nil
}

// points enumerates assignments of the free variables satisfying the dependent facts.
func (s *sampler) points(v *Valuation, rng *rand.Rand, limit int) []env {
	if len(s.vars) == 0 {
		return []env{{}}
	}
	var hi int64 = 30
	for _, n := range v.lens {
		if n > hi {
			hi = n
		}
	}
	var out []env
	check := func(e env) bool {
		ok := true
		why := attempt(func() {
			for _, l := range s.dep {
				if v.eval(l.t, e).b != l.v {
					ok = false
					return
				}
			}
		})
		return why == "" && ok
	}
	if len(s.vars) == 1 {
		for i := int64(0); i <= hi; i++ {
			e := env{s.vars[0].id: intV(i)}
			if check(e) {
				out = append(out, e)
			}
		}
		if len(out) > limit {
			rng.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
			out = out[:limit]
		}
		return out
	}
	// several variables: keep each partial assignment consistent as far as decidable
	for try := 0; try < 40*limit && len(out) < limit; try++ {
		e := env{}
		for _, x := range s.vars {
			if rng.Intn(2) == 0 {
				e[x.id] = intV(rng.Int63n(hi + 1))
			} else {
				e[x.id] = intV(rng.Int63n(6))
			}
		}
		if check(e) {
			out = append(out, e)
		}
	}
	return out
}

type Witness struct {
	text string
	a, b string
}

func (s *sampler) describe(v *Valuation, e env) string {
	var p []string
	for _, t := range s.syms {
		if x, ok := v.syms[t.id]; ok && t.name != "+inf" {
			p = append(p, t.name+"="+x.show())
		}
	}
	for _, x := range s.vars {
		p = append(p, x.name+"="+e[x.id].show())
	}
	p = append(p, fmt.Sprintf("data-shape=%d", v.mode%8))
	if v.hint != nil {
		p = append(p, "data-scale="+v.hint.RatString())
	}
	return strings.Join(p, " ")
}

// separate looks for an assignment under which a and b differ.
func separate(facts []lit, a, b *Term, rounds int, seed int64) (*Witness, *sepStats) {
	st := &sepStats{why: map[string]int{}}
	s := newSampler(facts, []*Term{a, b})
	s.hints = hintsOf(a, b, false)
	s.ties = hasRounding(a) || hasRounding(b)
	whole := a.sort == SInt && b.sort == SInt // no rounding
	s.ints = intHintsOf(hintsOf(a, b, true))
	rng := rand.New(rand.NewSource(seed))
	if len(s.vars) == 0 {
		rounds *= 12 // a single point per assignment
	}
	for n := 0; n < rounds; n++ {
		v := s.assign(n, rng)
		if v == nil {
			st.why["no assignment"]++
			continue
		}
		for _, e := range s.points(v, rng, 40) {
			var x, y NV
			v.steps = 0
			why := attempt(func() {
				x = v.eval(a, e)
				y = v.eval(b, e)
				bounded(x)
				bounded(y)
			})
			v.active, v.stack = map[string]bool{}, nil
			st.tried++
			switch {
			case why == "":
				if differ(x, y) || whole && x.key() != y.key() {
					return &Witness{s.describe(v, e), x.show(), y.show()}, st
				}
				st.agreed++
			case why == "undefined":
				st.undef++
			case why == "ambiguous":
				st.ambig++
			default:
				st.opaque++
			}
			if why != "" {
				st.why[why]++
			}
		}
	}
	return nil, st
}

// falsify looks for an assignment satisfying the facts under which cond is false.
func falsify(facts []lit, cond *Term, rounds int, seed int64) (*Witness, *sepStats) {
	if cond == nil {
		cond = tFalse
	}
	return separate(facts, cond, tTrue, rounds, seed)
}

// poison looks for an assignment under which the value is NaN or an infinity: its exact
// evaluation divides by zero (or takes the root of a negative), and with such a value carried
// on as IEEE arithmetic does, the result is not finite.
func poison(facts []lit, a *Term, rounds int, seed int64) (*Witness, *sepStats) {
	st := &sepStats{why: map[string]int{}}
	s := newSampler(facts, []*Term{a})
	rng := rand.New(rand.NewSource(seed))
	if len(s.vars) == 0 {
		rounds *= 12
	}
	defer func() { ieee = false }()
	for n := 0; n < rounds; n++ {
		ieee = false
		v := s.assign(n, rng)
		if v == nil {
			st.why["no assignment"]++
			continue
		}
		for _, e := range s.points(v, rng, 40) {
			v.steps = 0
			ieee = false
			why := attempt(func() { bounded(v.eval(a, e)) })
			v.active, v.stack = map[string]bool{}, nil
			st.tried++
			if why == "" {
				st.agreed++
				continue
			}
			st.why[why]++
			if why != "undefined" || !nonfinite {
				continue
			}
			ieee = true
			w := newValuation(v.seed, v.mode)
			w.hint = v.hint
			w.syms, w.lens = v.syms, v.lens
			var x NV
			why = attempt(func() { x = w.eval(a, e) })
			ieee = false
			if why == "" && !finite(x) {
				return &Witness{s.describe(v, e), fmt.Sprint(x.f), "a finite value"}, st
			}
		}
	}
	return nil, st
}

// anyTimes: candle times may repeat and be out of order.
var anyTimes bool
