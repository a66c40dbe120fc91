package zzverif

import "github.com/idoall/stockindicator/utils/ta"

func C18_Sma(v []float64, p int) (sma, want []float64) {
	Assume(p >= 1)
	return ta.Sma(p, v), refSma(v, p)
}

func C18_Ema(v []float64, p int) (ema, want []float64) {
	Assume(p >= 1)
	return ta.Ema(p, v), refEma(v, p)
}

func C18_Dema(v []float64, p int) (dema, want []float64) {
	Assume(p >= 1)
	e1 := refEma(v, p)
	e2 := refEma(e1, p)
	return ta.Dema(p, v), refMap(len(v), func(i int) float64 { return 2*e1[i] - e2[i] })
}

func C18_Rma(v []float64, p int) (rma, want []float64) {
	Assume(p >= 1)
	return ta.Rma(p, v), refRma(v, p)
}

func C18_Wma(v []float64, p int) (wma, want []float64) {
	Assume(p >= 1)
	Assume(len(v) >= p)
	return ta.Wma(p, v), refWma(v, p)
}

func C18_MA(v []float64, p int) (ma, want []float64) {
	Assume(p >= 1)
	return ta.MA(v, p), refMap(len(v), func(i int) float64 {
		if i < p-1 {
			return 0
		}
		return winSum(v, i, p) / float64(p)
	})
}
