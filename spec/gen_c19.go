// Code generated by tools/mkspec.py. DO NOT EDIT.

package zzverif

import (
	"github.com/idoall/stockindicator/oscillator"
	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/volume"
)

func C19_StochasticOscillator_GetValues_fresh(k *klines.Item, n int) (ks, wantK []float64, ds, wantD []float64) {
	Assume(n >= 1)
	e := oscillator.NewStochasticOscillator(k, n)
	v0, v1 := e.GetValues()
	d := oscillator.NewStochasticOscillator(k, n).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].K }), v1, refMap(len(d), func(i int) float64 { return d[i].D })
}

func C19_StochasticOscillator_GetValues_calculated(k *klines.Item, n int) (ks, wantK []float64, ds, wantD []float64) {
	Assume(n >= 1)
	e := oscillator.NewStochasticOscillator(k, n)
	e.Calculation()
	v0, v1 := e.GetValues()
	d := oscillator.NewStochasticOscillator(k, n).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].K }), v1, refMap(len(d), func(i int) float64 { return d[i].D })
}

func C19_VolumeOscillator_GetValues_fresh(k *klines.Item, s0 int, g int) (values, wantValue []float64) {
	Assume(s0 >= 1)
	Assume(g >= 1)
	e := oscillator.NewVolumeOscillator(k, s0, g)
	v0 := e.GetValues()
	d := oscillator.NewVolumeOscillator(k, s0, g).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].Value })
}

func C19_VolumeOscillator_GetValues_calculated(k *klines.Item, s0 int, g int) (values, wantValue []float64) {
	Assume(s0 >= 1)
	Assume(g >= 1)
	e := oscillator.NewVolumeOscillator(k, s0, g)
	e.Calculation()
	v0 := e.GetValues()
	d := oscillator.NewVolumeOscillator(k, s0, g).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].Value })
}

func C19_AiCoinCCI_GetValue_fresh(k *klines.Item, n int) (values, wantValue []float64) {
	Assume(n >= 1)
	e := trend.NewAiCoinCCI(k, n)
	v0 := e.GetValue()
	d := trend.NewAiCoinCCI(k, n).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].Value })
}

func C19_AiCoinCCI_GetValue_calculated(k *klines.Item, n int) (values, wantValue []float64) {
	Assume(n >= 1)
	e := trend.NewAiCoinCCI(k, n)
	e.Calculation()
	v0 := e.GetValue()
	d := trend.NewAiCoinCCI(k, n).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].Value })
}

func C19_Atr_GetValues_fresh(k *klines.Item, n int) (tRs, wantTR []float64, atrs, wantAtr []float64) {
	Assume(n >= 1)
	e := trend.NewAtr(k, n)
	v0, v1 := e.GetValues()
	d := trend.NewAtr(k, n).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].TR }), v1, refMap(len(d), func(i int) float64 { return d[i].Atr })
}

func C19_Atr_GetValues_calculated(k *klines.Item, n int) (tRs, wantTR []float64, atrs, wantAtr []float64) {
	Assume(n >= 1)
	e := trend.NewAtr(k, n)
	e.Calculation()
	v0, v1 := e.GetValues()
	d := trend.NewAtr(k, n).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].TR }), v1, refMap(len(d), func(i int) float64 { return d[i].Atr })
}

func C19_Cci_GetValue_fresh(k *klines.Item, n int, s0 int) (values, wantValue []float64) {
	Assume(n >= 1)
	Assume(s0 >= 1)
	e := trend.NewCci(k, n, s0)
	v0 := e.GetValue()
	d := trend.NewCci(k, n, s0).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].Value })
}

func C19_Cci_GetValue_calculated(k *klines.Item, n int, s0 int) (values, wantValue []float64) {
	Assume(n >= 1)
	Assume(s0 >= 1)
	e := trend.NewCci(k, n, s0)
	e.Calculation()
	v0 := e.GetValue()
	d := trend.NewCci(k, n, s0).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].Value })
}

func C19_Dema_GetValues_fresh(k *klines.Item, n int) (values, wantValue []float64) {
	Assume(n >= 1)
	e := trend.NewDema(k, n)
	v0 := e.GetValues()
	d := trend.NewDema(k, n).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].Value })
}

func C19_Dema_GetValues_calculated(k *klines.Item, n int) (values, wantValue []float64) {
	Assume(n >= 1)
	e := trend.NewDema(k, n)
	e.Calculation()
	v0 := e.GetValues()
	d := trend.NewDema(k, n).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].Value })
}

func C19_Ema_GetValues_fresh(k *klines.Item, n int) (values, wantValue []float64) {
	Assume(n >= 1)
	e := trend.NewEma(k, n)
	v0 := e.GetValues()
	d := trend.NewEma(k, n).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].Value })
}

func C19_Ema_GetValues_calculated(k *klines.Item, n int) (values, wantValue []float64) {
	Assume(n >= 1)
	e := trend.NewEma(k, n)
	e.Calculation()
	v0 := e.GetValues()
	d := trend.NewEma(k, n).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].Value })
}

func C19_Kdj_GetListK_fresh(k *klines.Item, n int) (ks, wantK []float64) {
	Assume(n >= 1)
	e := trend.NewKdj(k, n)
	v0 := e.GetListK()
	d := trend.NewKdj(k, n).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].K })
}

func C19_Kdj_GetListK_calculated(k *klines.Item, n int) (ks, wantK []float64) {
	Assume(n >= 1)
	e := trend.NewKdj(k, n)
	e.Calculation()
	v0 := e.GetListK()
	d := trend.NewKdj(k, n).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].K })
}

func C19_Kdj_GetListD_fresh(k *klines.Item, n int) (ds, wantD []float64) {
	Assume(n >= 1)
	e := trend.NewKdj(k, n)
	v0 := e.GetListD()
	d := trend.NewKdj(k, n).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].D })
}

func C19_Kdj_GetListD_calculated(k *klines.Item, n int) (ds, wantD []float64) {
	Assume(n >= 1)
	e := trend.NewKdj(k, n)
	e.Calculation()
	v0 := e.GetListD()
	d := trend.NewKdj(k, n).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].D })
}

func C19_Kdj_GetListJ_fresh(k *klines.Item, n int) (js, wantJ []float64) {
	Assume(n >= 1)
	e := trend.NewKdj(k, n)
	v0 := e.GetListJ()
	d := trend.NewKdj(k, n).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].J })
}

func C19_Kdj_GetListJ_calculated(k *klines.Item, n int) (js, wantJ []float64) {
	Assume(n >= 1)
	e := trend.NewKdj(k, n)
	e.Calculation()
	v0 := e.GetListJ()
	d := trend.NewKdj(k, n).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].J })
}

func C19_LinearRegressionCandles_GetValues_fresh(k *klines.Item, g int, n int, sma bool) (signals, wantSignal []float64) {
	Assume(g >= 1)
	Assume(n >= 1)
	e := trend.NewLinearRegressionCandles(k, g, n, sma)
	v0 := e.GetValues()
	d := trend.NewLinearRegressionCandles(k, g, n, sma).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].Signal })
}

func C19_LinearRegressionCandles_GetValues_calculated(k *klines.Item, g int, n int, sma bool) (signals, wantSignal []float64) {
	Assume(g >= 1)
	Assume(n >= 1)
	e := trend.NewLinearRegressionCandles(k, g, n, sma)
	e.Calculation()
	v0 := e.GetValues()
	d := trend.NewLinearRegressionCandles(k, g, n, sma).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].Signal })
}

func C19_Macd_GetDifs_fresh(k *klines.Item, s0 int, g int, l int) (dIFs, wantDIF []float64) {
	Assume(s0 >= 1)
	Assume(g >= 1)
	Assume(l >= 1)
	e := trend.NewMacd(k, s0, g, l)
	v0 := e.GetDifs()
	d := trend.NewMacd(k, s0, g, l).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].DIF })
}

func C19_Macd_GetDifs_calculated(k *klines.Item, s0 int, g int, l int) (dIFs, wantDIF []float64) {
	Assume(s0 >= 1)
	Assume(g >= 1)
	Assume(l >= 1)
	e := trend.NewMacd(k, s0, g, l)
	e.Calculation()
	v0 := e.GetDifs()
	d := trend.NewMacd(k, s0, g, l).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].DIF })
}

func C19_Macd_GetMACDs_fresh(k *klines.Item, s0 int, g int, l int) (macds, wantMacd []float64) {
	Assume(s0 >= 1)
	Assume(g >= 1)
	Assume(l >= 1)
	e := trend.NewMacd(k, s0, g, l)
	v0 := e.GetMACDs()
	d := trend.NewMacd(k, s0, g, l).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].Macd })
}

func C19_Macd_GetMACDs_calculated(k *klines.Item, s0 int, g int, l int) (macds, wantMacd []float64) {
	Assume(s0 >= 1)
	Assume(g >= 1)
	Assume(l >= 1)
	e := trend.NewMacd(k, s0, g, l)
	e.Calculation()
	v0 := e.GetMACDs()
	d := trend.NewMacd(k, s0, g, l).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].Macd })
}

func C19_PivotPointSuperTrend_GetValues_fresh(k *klines.Item, n int, a0 int, w float64) (upTrends, wantUpTrend []float64, downTrends, wantDownTrend []float64) {
	Assume(n >= 1)
	Assume(a0 >= 1)
	Assume(w > 0)
	e := trend.NewPivotPointSuperTrend(k, n, a0, w)
	v0, v1 := e.GetValues()
	d := trend.NewPivotPointSuperTrend(k, n, a0, w).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].UpTrend }), v1, refMap(len(d), func(i int) float64 { return d[i].DownTrend })
}

func C19_PivotPointSuperTrend_GetValues_calculated(k *klines.Item, n int, a0 int, w float64) (upTrends, wantUpTrend []float64, downTrends, wantDownTrend []float64) {
	Assume(n >= 1)
	Assume(a0 >= 1)
	Assume(w > 0)
	e := trend.NewPivotPointSuperTrend(k, n, a0, w)
	e.Calculation()
	v0, v1 := e.GetValues()
	d := trend.NewPivotPointSuperTrend(k, n, a0, w).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].UpTrend }), v1, refMap(len(d), func(i int) float64 { return d[i].DownTrend })
}

func C19_Rsi_GetValue_fresh(k *klines.Item, n int) (values, wantValue []float64) {
	Assume(n >= 1)
	e := trend.NewRsi(k, n)
	v0 := e.GetValue()
	d := trend.NewRsi(k, n).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].Value })
}

func C19_Rsi_GetValue_calculated(k *klines.Item, n int) (values, wantValue []float64) {
	Assume(n >= 1)
	e := trend.NewRsi(k, n)
	e.Calculation()
	v0 := e.GetValue()
	d := trend.NewRsi(k, n).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].Value })
}

func C19_Sma_GetValues_fresh(k *klines.Item, n int) (values, wantValue []float64) {
	Assume(n >= 1)
	e := trend.NewSma(k, n)
	v0 := e.GetValues()
	d := trend.NewSma(k, n).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].Value })
}

func C19_Sma_GetValues_calculated(k *klines.Item, n int) (values, wantValue []float64) {
	Assume(n >= 1)
	e := trend.NewSma(k, n)
	e.Calculation()
	v0 := e.GetValues()
	d := trend.NewSma(k, n).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].Value })
}

func C19_SuperTrend_GetValues_fresh(k *klines.Item, a0 int, w int, ch bool) (upTrends, wantUpTrend []float64, downTrends, wantDownTrend []float64) {
	Assume(a0 >= 1)
	Assume(w >= 1)
	e := trend.NewSuperTrend(k, a0, w, ch)
	v0, v1 := e.GetValues()
	d := trend.NewSuperTrend(k, a0, w, ch).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].UpTrend }), v1, refMap(len(d), func(i int) float64 { return d[i].DownTrend })
}

func C19_SuperTrend_GetValues_calculated(k *klines.Item, a0 int, w int, ch bool) (upTrends, wantUpTrend []float64, downTrends, wantDownTrend []float64) {
	Assume(a0 >= 1)
	Assume(w >= 1)
	e := trend.NewSuperTrend(k, a0, w, ch)
	e.Calculation()
	v0, v1 := e.GetValues()
	d := trend.NewSuperTrend(k, a0, w, ch).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].UpTrend }), v1, refMap(len(d), func(i int) float64 { return d[i].DownTrend })
}

func C19_TraderXO_GetValues_fresh(k *klines.Item, f int, s0 int) (fasts, wantFast []float64, slows, wantSlow []float64) {
	Assume(f >= 1)
	Assume(s0 >= 1)
	e := trend.NewTraderXO(k, f, s0)
	v0, v1 := e.GetValues()
	d := trend.NewTraderXO(k, f, s0).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].Fast }), v1, refMap(len(d), func(i int) float64 { return d[i].Slow })
}

func C19_TraderXO_GetValues_calculated(k *klines.Item, f int, s0 int) (fasts, wantFast []float64, slows, wantSlow []float64) {
	Assume(f >= 1)
	Assume(s0 >= 1)
	e := trend.NewTraderXO(k, f, s0)
	e.Calculation()
	v0, v1 := e.GetValues()
	d := trend.NewTraderXO(k, f, s0).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].Fast }), v1, refMap(len(d), func(i int) float64 { return d[i].Slow })
}

func C19_UTBot_GetValues_fresh(k *klines.Item, n int, a0 int) (values, wantValue []float64) {
	Assume(n >= 1)
	Assume(a0 >= 1)
	e := trend.NewUTBot(k, n, a0)
	v0 := e.GetValues()
	d := trend.NewUTBot(k, n, a0).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].Value })
}

func C19_UTBot_GetValues_calculated(k *klines.Item, n int, a0 int) (values, wantValue []float64) {
	Assume(n >= 1)
	Assume(a0 >= 1)
	e := trend.NewUTBot(k, n, a0)
	e.Calculation()
	v0 := e.GetValues()
	d := trend.NewUTBot(k, n, a0).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].Value })
}

func C19_AccumulationDistribution_GetValues_fresh(k *klines.Item) (values, wantValue []float64) {
	e := volume.NewAccumulationDistribution(k)
	v0 := e.GetValues()
	d := volume.NewAccumulationDistribution(k).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].Value })
}

func C19_AccumulationDistribution_GetValues_calculated(k *klines.Item) (values, wantValue []float64) {
	e := volume.NewAccumulationDistribution(k)
	e.Calculation()
	v0 := e.GetValues()
	d := volume.NewAccumulationDistribution(k).GetData()
	return v0, refMap(len(d), func(i int) float64 { return d[i].Value })
}
