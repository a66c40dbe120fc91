package zzverif

import "github.com/idoall/stockindicator/utils/ta"

// Drivers for the safety properties (C03, C07): every helper of the vector library on
// arbitrary slices.

func X_ta_LinearReg(v []float64, n int) []float64 {
	Assume(n >= 1)
	return ta.LinearReg(v, n)
}

func X_ta_LinearRegAngle(v []float64, n int) []float64 {
	Assume(n >= 1)
	return ta.LinearRegAngle(v, n)
}

func X_ta_LinearRegIntercept(v []float64, n int) []float64 {
	Assume(n >= 1)
	return ta.LinearRegIntercept(v, n)
}

func X_ta_LinearRegSlope(v []float64, n int) []float64 {
	Assume(n >= 1)
	return ta.LinearRegSlope(v, n)
}

func X_ta_Variance(v []float64, n int) []float64 {
	Assume(n >= 1)
	return ta.Variance(v, n)
}

func X_ta_MA(v []float64, n int) []float64 {
	Assume(n >= 1)
	return ta.MA(v, n)
}

func X_ta_Dev(v []float64, n int) []float64 {
	Assume(n >= 1)
	return ta.Dev(v, n)
}

func X_ta_Sma(v []float64, n int) []float64 {
	Assume(n >= 1)
	return ta.Sma(n, v)
}

func X_ta_Rma(v []float64, n int) []float64 {
	Assume(n >= 1)
	return ta.Rma(n, v)
}

func X_ta_Dema(v []float64, n int) []float64 {
	Assume(n >= 1)
	return ta.Dema(n, v)
}

func X_ta_Ema(v []float64, n int) []float64 {
	Assume(n >= 1)
	return ta.Ema(n, v)
}

func X_ta_Wma(v []float64, n int) []float64 {
	Assume(n >= 1)
	return ta.Wma(n, v)
}

func X_ta_Max(v []float64, n int) []float64 {
	Assume(n >= 1)
	return ta.Max(n, v)
}

func X_ta_Min(v []float64, n int) []float64 {
	Assume(n >= 1)
	return ta.Min(n, v)
}

func X_ta_Sum(v []float64, n int) []float64 {
	Assume(n >= 1)
	return ta.Sum(n, v)
}

func X_ta_ShiftRight(v []float64, n int) []float64 {
	Assume(n >= 0)
	return ta.ShiftRight(n, v)
}

func X_ta_ShiftRightAndFillBy(v []float64, n int, x float64) []float64 {
	Assume(n >= 0)
	return ta.ShiftRightAndFillBy(n, x, v)
}

func X_ta_TRange(h, l, c []float64) []float64 {
	Assume(len(h) == len(c))
	Assume(len(l) == len(c))
	return ta.TRange(h, l, c)
}

func X_ta_TrueRange(h, l, c []float64) []float64 {
	Assume(len(h) == len(c))
	Assume(len(l) == len(c))
	return ta.TrueRange(h, l, c)
}

func X_ta_Atr(h, l, c []float64, n int) []float64 {
	Assume(len(h) == len(c))
	Assume(len(l) == len(c))
	Assume(n >= 1)
	return ta.Atr(h, l, c, n)
}

func X_ta_Natr(h, l, c []float64, n int) []float64 {
	Assume(len(h) == len(c))
	Assume(len(l) == len(c))
	Assume(n >= 1)
	return ta.Natr(h, l, c, n)
}

func X_ta_Stochastic(h, l, c []float64, n int) ([]float64, []float64) {
	Assume(len(h) == len(c))
	Assume(len(l) == len(c))
	Assume(n >= 1)
	return ta.Stochastic(c, h, l, n)
}

func X_ta_SD(v []float64) float64 {
	return ta.SD(v)
}

func X_ta_Mean(v []float64) float64 {
	return ta.Mean(v)
}

func X_ta_Cum(v []float64) float64 {
	return ta.Cum(v)
}

func X_ta_MeanDeviation(v, m []float64, n int) []float64 {
	Assume(n >= 1)
	Assume(len(m) == len(v))
	return ta.MeanDeviation(v, n, m)
}

func X_ta_CCI(v []float64, n, s int) []float64 {
	Assume(n >= 1)
	Assume(s >= 1)
	return ta.CCI(v, n, s)
}

func X_ta_AiCoinCCI(v []float64, n int, f float64) []float64 {
	Assume(n >= 1)
	return ta.AiCoinCCI(v, n, f)
}

func X_ta_MultiplyBy(v []float64, x float64) []float64 {
	return ta.MultiplyBy(v, x)
}

func X_ta_DivideBy(v []float64, x float64) []float64 {
	return ta.DivideBy(v, x)
}

func X_ta_AddBy(v []float64, x float64) []float64 {
	return ta.AddBy(v, x)
}

func X_ta_Pow(v []float64, x float64) []float64 {
	return ta.Pow(v, x)
}

func X_ta_Multiply(v, w []float64) []float64 {
	Assume(len(v) == len(w))
	return ta.Multiply(v, w)
}

func X_ta_Divide(v, w []float64) []float64 {
	Assume(len(v) == len(w))
	return ta.Divide(v, w)
}

func X_ta_Add(v, w []float64) []float64 {
	Assume(len(v) == len(w))
	return ta.Add(v, w)
}

func X_ta_Subtract(v, w []float64) []float64 {
	Assume(len(v) == len(w))
	return ta.Subtract(v, w)
}

func X_ta_Diff(v []float64, n int) []float64 {
	Assume(n >= 1)
	return ta.Diff(v, n)
}

func X_ta_PercentDiff(v []float64, n int) []float64 {
	Assume(n >= 1)
	return ta.PercentDiff(v, n)
}

func X_ta_RoundDigitsAll(v []float64, n int) []float64 {
	Assume(n >= 0)
	return ta.RoundDigitsAll(v, n)
}

func X_ta_ExtractSign(v []float64) []float64 {
	return ta.ExtractSign(v)
}

func X_ta_KeepPositives(v []float64) []float64 {
	return ta.KeepPositives(v)
}

func X_ta_KeepNegatives(v []float64) []float64 {
	return ta.KeepNegatives(v)
}

func X_ta_Sqrt(v []float64) []float64 {
	return ta.Sqrt(v)
}

func X_ta_Abs(v []float64) []float64 {
	return ta.Abs(v)
}

func X_ta_Highest(v []float64, n int) float64 {
	Assume(n >= 1)
	return ta.Highest(v, n)
}

func X_ta_Lowest(v []float64, n int) float64 {
	Assume(n >= 1)
	return ta.Lowest(v, n)
}

func X_ta_PivotHigh(v []float64, l, r int) []float64 {
	Assume(l >= 0)
	Assume(r >= 0)
	return ta.PivotHigh(v, l, r)
}

func X_ta_PivotLow(v []float64, l, r int) []float64 {
	Assume(l >= 0)
	Assume(r >= 0)
	return ta.PivotLow(v, l, r)
}

func X_ta_PivotMax(v []float64, i, l, r int) (float64, int) {
	Assume(l >= 0)
	Assume(r >= 0)
	Assume(i >= 0)
	Assume(i < len(v))
	return ta.PivotMax(v, i, l, r)
}

func X_ta_PivotMin(v []float64, i, l, r int) (float64, int) {
	Assume(l >= 0)
	Assume(r >= 0)
	Assume(i >= 0)
	Assume(i < len(v))
	return ta.PivotMin(v, i, l, r)
}

func X_ta_StdDev(v []float64, n int, x float64) []float64 {
	Assume(n >= 1)
	return ta.StdDev(v, n, x)
}

func X_ta_CrossOver(v []float64, x float64) bool {
	return ta.CrossOver(v, x)
}

func X_ta_CrossUnder(v []float64, x float64) bool {
	return ta.CrossUnder(v, x)
}
