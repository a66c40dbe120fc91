package zzverif

import (
	"math"

	"github.com/idoall/stockindicator/helpertools"
	"github.com/idoall/stockindicator/utils/ta"
)

// ---- C15: stream helpers

func feed(in []float64) <-chan float64 {
	c := make(chan float64)
	go func() {
		defer close(c)
		for _, n := range in {
			c <- n
		}
	}()
	return c
}

func collect(c <-chan float64) []float64 {
	var out []float64
	for n := range c {
		out = append(out, n)
	}
	return out
}

// ended: nothing is left to read.
func ended(c <-chan float64) bool {
	_, ok := <-c
	return !ok
}

func sq(x float64) float64 { return x*x + 3 }

func C15_Apply(in []float64) (got, want []float64, end, wantEnd bool) {
	c := feed(in)
	got = collect(helpertools.Apply(c, sq))
	want = make([]float64, len(in))
	for i, x := range in {
		want[i] = sq(x)
	}
	return got, want, ended(c), true
}

func C15_Slice2Chan(in []float64) (got, want []float64) {
	return collect(helpertools.Slice2Chan(in)), in
}

func C15_Chan2Slice(in []float64) (got, want []float64, end, wantEnd bool) {
	c := feed(in)
	got = helpertools.Chan2Slice(c)
	return got, in, ended(c), true
}

func C15_Drain(in []float64) bool {
	c := feed(in)
	helpertools.Drain(c)
	return ended(c)
}

func C15_Pipe(in []float64) (got, want []float64, end, wantEnd bool) {
	c, t := feed(in), make(chan float64)
	go helpertools.Pipe(c, t)
	return collect(t), in, ended(c), true
}

func C15_Shift(in []float64, n int, fill float64) (got, want []float64, end, wantEnd bool) {
	Assume(n >= 0)
	c := feed(in)
	got = collect(helpertools.Shift(c, n, fill))
	want = make([]float64, n+len(in))
	for i := range want {
		if i < n {
			want[i] = fill
		} else {
			want[i] = in[i-n]
		}
	}
	return got, want, ended(c), true
}

func C15_Skip(in []float64, n int) (got, want []float64, end, wantEnd bool) {
	Assume(n >= 0)
	c := feed(in)
	got = collect(helpertools.Skip(c, n))
	l := len(in) - n
	if l < 0 {
		l = 0
	}
	want = make([]float64, l)
	for i := range want {
		want[i] = in[i+n]
	}
	return got, want, ended(c), true
}

func op2(a, b float64) float64 { return a*a - 3*b }

func C15_Operate(a, b []float64) (got, want []float64, endA, wantA, endB, wantB bool) {
	x, y := feed(a), feed(b)
	got = collect(helpertools.Operate(x, y, op2))
	l := len(a)
	if len(b) < l {
		l = len(b)
	}
	want = make([]float64, l)
	for i := range want {
		want[i] = op2(a[i], b[i])
	}
	return got, want, ended(x), true, ended(y), true
}

func C15_Duplicate(in []float64, n, j int) (k, wantK int, got, want []float64, end, wantEnd bool) {
	Assume(j >= 0)
	Assume(j < n)
	c := feed(in)
	o := helpertools.Duplicate(c, n)
	return len(o), n, collect(o[j]), in, ended(c), true
}

func C15_DuplicateNone(in []float64) (k, wantK int, end, wantEnd bool) {
	c := feed(in)
	o := helpertools.Duplicate(c, 0)
	return len(o), 0, ended(c), true
}

func C15_RoundDigits(in []float64, d int) (got, want []float64, end, wantEnd bool) {
	c := feed(in)
	got = collect(helpertools.RoundDigits(c, d))
	want = make([]float64, len(in))
	for i, x := range in {
		want[i] = helpertools.RoundDigit(x, d)
	}
	return got, want, ended(c), true
}

func C15_RoundDigit(x float64, d int) (got, want float64) {
	f := 1.0
	for i := 0; i < d; i++ {
		f *= 10
	}
	return helpertools.RoundDigit(x, d), math.Round(x*f) / f
}

// C15_CheckEquals: nil exactly when the pair is the same stream; both are read to the end when
// they are, or when one ends before the other.
func C15_CheckEquals(a, b []float64) (same, wantSame bool) {
	x, y := feed(a), feed(b)
	err := helpertools.CheckEquals(x, y)
	eq := len(a) == len(b)
	if eq {
		for i := range a {
			if a[i] != b[i] {
				eq = false
			}
		}
	}
	return err == nil, eq
}

// C15_CheckEqualsEnds: the common part is equal, so all the reader finds is the lengths.
func C15_CheckEqualsEnds(a []float64, n, m int) (same, wantSame, endA, wantA, endB, wantB bool) {
	Assume(n >= 0)
	Assume(m >= 0)
	Assume(n <= len(a))
	Assume(m <= len(a))
	x, y := feed(a[:n]), feed(a[:m])
	err := helpertools.CheckEquals(x, y)
	return err == nil, n == m, ended(x), true, ended(y), true
}

func C15_CheckEqualsOdd(a []float64) (odd, wantOdd bool) {
	x := feed(a)
	return helpertools.CheckEquals(x) != nil, true
}

// C15_CheckEqualsPairs: every pair is compared to its own end.
func C15_CheckEqualsPairs(a, b []float64, n, m int) (same, wantSame, endA, wantA, endB, wantB, endC, wantC, endD, wantD bool) {
	Assume(n >= 0)
	Assume(m >= 0)
	Assume(n <= len(b))
	Assume(m <= len(b))
	w, x, y, z := feed(a), feed(a), feed(b[:n]), feed(b[:m])
	err := helpertools.CheckEquals(w, x, y, z)
	return err == nil, n == m, ended(w), true, ended(x), true, ended(y), true, ended(z), true
}

// C15_SmaT: the window sum over the values so far, divided by the whole period.
func C15_SmaT(in []float64, p int) (got, want []float64, end, wantEnd bool) {
	Assume(p > 0)
	c := feed(in)
	got = collect(ta.SmaT(p, c))
	want = make([]float64, len(in))
	for i := range want {
		s := 0.0
		for j := i; j >= 0 && j > i-p; j-- {
			s += in[j]
		}
		want[i] = s / float64(p)
	}
	return got, want, ended(c), true
}

// C15_Room: the copies hold as many values as the source, and the shift its fill besides, so
// pipelines that split and rejoin a stream do not stall.
func C15_Room(m, n int) bool {
	Assume(m >= 0)
	Assume(n >= 1)
	c := make(chan float64, m)
	close(c)
	d := make(chan float64, m)
	close(d)
	e := make(chan float64, m)
	close(e)
	o := helpertools.Duplicate(c, n)
	return cap(o[n-1]) >= m && cap(helpertools.Shift(d, n, 0)) >= m+n && cap(helpertools.Skip(e, n)) >= m
}

// C15_order: one sender per channel at a time, whatever the scheduler does (checker: order.go).
func C15_order(a, b, c <-chan float64, d chan<- float64, s []float64) {
	helpertools.Apply(a, sq)
	helpertools.Duplicate(a, 2)
	helpertools.Operate(a, b, func(x, y float64) float64 { return x + y })
	helpertools.Pipe(a, d)
	helpertools.Shift(a, 2, 0)
	helpertools.Skip(a, 2)
	helpertools.Slice2Chan(s)
	helpertools.Chan2Slice(a)
	helpertools.CheckEquals(a, b)
	helpertools.Drain(c)
	helpertools.RoundDigits(a, 2)
	helpertools.RoundDigit(1, 2)
}
