package zzverif

import (
	"math"

	"github.com/idoall/stockindicator/utils/ta"
)

func C20_Add(a, b []float64) (add, want []float64) {
	Assume(len(a) == len(b))
	return ta.Add(a, b), refMap(len(a), func(i int) float64 { return a[i] + b[i] })
}

func C20_AddBy(a []float64, x float64) (addBy, want []float64) {
	return ta.AddBy(a, x), refMap(len(a), func(i int) float64 { return a[i] + x })
}

func C20_Subtract(a, b []float64) (subtract, want []float64) {
	Assume(len(a) == len(b))
	return ta.Subtract(a, b), refMap(len(a), func(i int) float64 { return a[i] - b[i] })
}

func C20_Multiply(a, b []float64) (multiply, want []float64) {
	Assume(len(a) == len(b))
	return ta.Multiply(a, b), refMap(len(a), func(i int) float64 { return a[i] * b[i] })
}

func C20_MultiplyBy(a []float64, x float64) (multiplyBy, want []float64) {
	return ta.MultiplyBy(a, x), refMap(len(a), func(i int) float64 { return a[i] * x })
}

func C20_Divide(a, b []float64) (divide, want []float64) {
	Assume(len(a) == len(b))
	return ta.Divide(a, b), refMap(len(a), func(i int) float64 { return div(a[i], b[i]) })
}

func C20_DivideBy(a []float64, x float64) (divideBy, want []float64) {
	Assume(x != 0)
	return ta.DivideBy(a, x), refMap(len(a), func(i int) float64 { return a[i] / x })
}

func C20_Diff(a []float64, n int) (diff, want []float64) {
	Assume(n >= 1)
	return ta.Diff(a, n), refMap(len(a), func(i int) float64 {
		if i < n {
			return a[i]
		}
		return a[i] - a[i-n]
	})
}

func C20_PercentDiff(a []float64, n int) (percentDiff, want []float64) {
	Assume(n >= 1)
	return ta.PercentDiff(a, n), refMap(len(a), func(i int) float64 {
		if i < n {
			return 0
		}
		return (a[i] - a[i-n]) / a[i-n]
	})
}

func C20_Shift(a []float64, n int, fill float64) (shift, want, fillBy, wantFillBy []float64) {
	Assume(n >= 0)
	return ta.ShiftRight(n, a), refMap(len(a), func(i int) float64 {
			if i < n {
				return 0
			}
			return a[i-n]
		}), ta.ShiftRightAndFillBy(n, fill, a), refMap(len(a), func(i int) float64 {
			if i < n {
				return fill
			}
			return a[i-n]
		})
}

func C20_Pow(a []float64, x float64) (pow, want []float64) {
	return ta.Pow(a, x), refMap(len(a), func(i int) float64 { return math.Pow(a[i], x) })
}

func C20_Pow2(a []float64) (square, want []float64) {
	return ta.Pow(a, 2), refMap(len(a), func(i int) float64 { return a[i] * a[i] })
}

func C20_Sqrt(a []float64) (sqrt, want []float64) {
	return ta.Sqrt(a), refMap(len(a), func(i int) float64 { return math.Sqrt(a[i]) })
}

func C20_Abs(a []float64) (abs, want []float64) {
	return ta.Abs(a), refMap(len(a), func(i int) float64 {
		if a[i] < 0 {
			return -a[i]
		}
		return a[i]
	})
}

func C20_Sign(a []float64) (sign, want []float64) {
	return ta.ExtractSign(a), refMap(len(a), func(i int) float64 {
		if a[i] < 0 {
			return -1
		}
		return 1
	})
}

func C20_Keep(a []float64) (pos, wantPos, neg, wantNeg []float64) {
	return ta.KeepPositives(a), refMap(len(a), func(i int) float64 { return math.Max(a[i], 0) }),
		ta.KeepNegatives(a), refMap(len(a), func(i int) float64 { return math.Min(a[i], 0) })
}

func C20_Sum(a []float64, p int) (sum, want []float64) {
	Assume(p >= 1)
	return ta.Sum(p, a), refMap(len(a), func(i int) float64 {
		if i < p {
			return winSum(a, i, i+1)
		}
		return winSum(a, i, p)
	})
}

func C20_Total(a []float64) (cum, wantCum, mean, wantMean float64) {
	Assume(len(a) >= 1)
	s := 0.0
	for i := range a {
		s += a[i]
	}
	return ta.Cum(a), s, ta.Mean(a), s / float64(len(a))
}

func C20_Round(a []float64, x float64, d int) (one, wantOne float64, all, wantAll []float64) {
	n := math.Pow(10, float64(d))
	return ta.RoundDigits(x, d), math.Round(x*n) / n,
		ta.RoundDigitsAll(a, d), refMap(len(a), func(i int) float64 { return math.Round(a[i]*n) / n })
}

func C20_Nz(a []float64, x, r float64) (one, wantOne float64, all, wantAll []float64) {
	ref := func(v float64) float64 {
		if math.IsNaN(v) {
			return r
		}
		return v
	}
	b := make([]float64, len(a))
	copy(b, a)
	return ta.Nz(x, r), ref(x), ta.Nzs(b, r), refMap(len(a), func(i int) float64 { return ref(a[i]) })
}

func C20_Generate(begin, end, step float64) (gen, want []float64) {
	Assume(step > 0)
	Assume(end > begin)
	n := int(math.Round((end - begin) / step))
	return ta.GenerateNumbers(begin, end, step), refMap(n, func(i int) float64 { return begin + step*float64(i) })
}

func C20_Cross(a []float64, x float64) (over, wantOver, under, wantUnder bool) {
	Assume(len(a) >= 2)
	n := len(a)
	return ta.CrossOver(a, x), a[n-1] > x && a[n-2] < x,
		ta.CrossUnder(a, x), a[n-1] < x && a[n-2] > x
}

// ---- extremes

func C26_Max(a []float64, p int) (max, want []float64) {
	Assume(p >= 1)
	return ta.Max(p, a), refMax(a, p)
}

func C26_Min(a []float64, p int) (min, want []float64) {
	Assume(p >= 1)
	return ta.Min(p, a), refMin(a, p)
}

func C26_Highest(a []float64, n int) (highest, want, lowest, wantLowest float64) {
	Assume(n >= 1)
	Assume(len(a) >= 1)
	hi, lo := a[len(a)-1], a[len(a)-1]
	for j := 1; j < n && j < len(a); j++ {
		hi = math.Max(hi, a[len(a)-1-j])
		lo = math.Min(lo, a[len(a)-1-j])
	}
	return ta.Highest(a, n), hi, ta.Lowest(a, n), lo
}

func C26_PivotHigh(a []float64, left, right int) (pivot, want []float64) {
	Assume(left >= 0)
	Assume(right >= 0)
	return ta.PivotHigh(a, left, right), refMap(len(a), func(i int) float64 {
		if i < left+right {
			return 0
		}
		c := a[i-right]
		for j := 0; j <= left+right; j++ {
			if a[i-j] > c {
				return 0
			}
		}
		return c
	})
}

func C26_PivotLow(a []float64, left, right int) (pivot, want []float64) {
	Assume(left >= 0)
	Assume(right >= 0)
	return ta.PivotLow(a, left, right), refMap(len(a), func(i int) float64 {
		if i < left+right {
			return 0
		}
		c := a[i-right]
		for j := 0; j <= left+right; j++ {
			if a[i-j] < c {
				return 0
			}
		}
		return c
	})
}

func C26_PivotMax(a []float64, i, left, right int) (max, want float64, at bool, atWant bool) {
	Assume(left >= 0)
	Assume(right >= 0)
	Assume(i >= 0)
	Assume(i < len(a))
	lo, hi := i-left, i+right
	if lo < 0 {
		lo = 0
	}
	if hi > len(a)-1 {
		hi = len(a) - 1
	}
	m := a[lo]
	for j := lo; j <= hi; j++ {
		m = math.Max(m, a[j])
	}
	v, p := ta.PivotMax(a, i, left, right)
	return v, m, p >= lo && p <= hi && a[p] == v, true
}

func C26_PivotMin(a []float64, i, left, right int) (min, want float64, at bool, atWant bool) {
	Assume(left >= 0)
	Assume(right >= 0)
	Assume(i >= 0)
	Assume(i < len(a))
	lo, hi := i-left, i+right
	if lo < 0 {
		lo = 0
	}
	if hi > len(a)-1 {
		hi = len(a) - 1
	}
	m := a[lo]
	for j := lo; j <= hi; j++ {
		m = math.Min(m, a[j])
	}
	v, p := ta.PivotMin(a, i, left, right)
	return v, m, p >= lo && p <= hi && a[p] == v, true
}
