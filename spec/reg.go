package zzverif

import (
	"math"

	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/ta"
)

func C25_LeastSquare(x, y []float64) (m, wantM, b, wantB float64) {
	Assume(len(x) == len(y))
	m, b = utils.LeastSquare(x, y)
	wantM, wantB = winFit(x, y, len(x)-1, len(x))
	return m, wantM, b, wantB
}

func C25_LinearRegressionUsingLeastSquare(x, y []float64) (r, want []float64) {
	Assume(len(x) == len(y))
	m, b := winFit(x, y, len(x)-1, len(x))
	return utils.LinearRegressionUsingLeastSquare(x, y), refMap(len(x), func(i int) float64 { return m*x[i] + b })
}

func C25_MovingLeastSquare(x, y []float64, p int) (m, wantM, b, wantB, r, want []float64) {
	Assume(p >= 2)
	Assume(len(x) == len(y))
	m, b = utils.MovingLeastSquare(p, x, y)
	n := func(i int) int {
		if i < p {
			return i + 1
		}
		return p
	}
	return m, refMap(len(x), func(i int) float64 { m, _ := winFit(x, y, i, n(i)); return m }),
		b, refMap(len(x), func(i int) float64 { _, b := winFit(x, y, i, n(i)); return b }),
		utils.MovingLinearRegressionUsingLeastSquare(p, x, y),
		refMap(len(x), func(i int) float64 { m, b := winFit(x, y, i, n(i)); return m*x[i] + b })
}

// linFit fits the window of p values ending at i against 0..p-1.
func linFit(v []float64, i, p int) (m, b float64) {
	sx, sxx, sy, sxy := 0.0, 0.0, 0.0, 0.0
	for j := 0; j < p; j++ {
		sx += float64(j)
		sxx += float64(j) * float64(j)
		sy += v[i-p+1+j]
		sxy += float64(j) * v[i-p+1+j]
	}
	return refFit(float64(p), sx, sxx, sy, sxy)
}

func C25_LinearReg(v []float64, p int) (reg, wantReg, slope, wantSlope, icept, wantIcept, angle, wantAngle []float64) {
	Assume(p >= 2)
	Assume(len(v) >= p)
	from := func(f func(m, b float64) float64) []float64 {
		return refMap(len(v), func(i int) float64 {
			if i < p-1 {
				return 0
			}
			m, b := linFit(v, i, p)
			return f(m, b)
		})
	}
	return ta.LinearReg(v, p), from(func(m, b float64) float64 { return b + m*float64(p-1) }),
		ta.LinearRegSlope(v, p), from(func(m, b float64) float64 { return m }),
		ta.LinearRegIntercept(v, p), from(func(m, b float64) float64 { return b }),
		ta.LinearRegAngle(v, p), from(func(m, b float64) float64 { return math.Atan(m) * (180.0 / math.Pi) })
}

func winVar(v []float64, i, p int) float64 {
	m := winSum(v, i, p) / float64(p)
	s := 0.0
	for j := i - p + 1; j <= i; j++ {
		s += v[j] * v[j]
	}
	return s/float64(p) - m*m
}

func C25_Variance(v []float64, p int) (variance, want []float64) {
	Assume(p >= 1)
	Assume(len(v) >= p)
	return ta.Variance(v, p), refMap(len(v), func(i int) float64 {
		if i < p-1 {
			return 0
		}
		return winVar(v, i, p)
	})
}

func C25_StdDev(v []float64, p int, k float64) (sd, want []float64) {
	Assume(p >= 1)
	Assume(len(v) >= p)
	return ta.StdDev(v, p, k), refMap(len(v), func(i int) float64 {
		if i < p-1 {
			return 0
		}
		x := winVar(v, i, p)
		if x < 0.00000000000001 {
			return 0
		}
		return math.Sqrt(x) * k
	})
}

func C25_SD(v []float64) (sd, want float64) {
	Assume(len(v) >= 1)
	n := float64(len(v))
	m := winSum(v, len(v)-1, len(v)) / n
	s := 0.0
	for i := range v {
		s += (v[i] - m) * (v[i] - m)
	}
	return ta.SD(v), math.Sqrt(s / n)
}

func C25_Dev(v []float64, p int) (dev, want []float64) {
	Assume(p >= 1)
	return ta.Dev(v, p), refMap(len(v), func(i int) float64 {
		if i < p-1 {
			return 0
		}
		m := winSum(v, i, p) / float64(p)
		s := 0.0
		for j := i - p + 1; j <= i; j++ {
			s += math.Abs(v[j] - m)
		}
		return s / float64(p)
	})
}

func C25_MeanDeviation(v, ma []float64, p int) (md, want []float64) {
	Assume(p >= 1)
	Assume(len(v) == len(ma))
	return ta.MeanDeviation(v, p, ma), refMap(len(v), func(i int) float64 {
		if i < p-1 {
			return 0
		}
		s := 0.0
		for j := i - p + 1; j <= i; j++ {
			s += math.Abs(v[j] - ma[i])
		}
		return s / float64(p)
	})
}
