// Code generated by tools/mkspec.py. DO NOT EDIT.

package zzverif

import (
	"github.com/idoall/stockindicator/channel"
	"github.com/idoall/stockindicator/oscillator"
	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/utils/types"
	"github.com/idoall/stockindicator/volume"
)

func C27_own_Boll(k *klines.Item, n int, w int) (name, want string) {
	Assume(n >= 1)
	Assume(w >= 1)
	e := channel.NewBoll(k, n, w)
	return e.AnalysisSide().Name, e.Name
}

func C27_own_DonchianChannel(k *klines.Item, n int) (name, want string) {
	Assume(n >= 1)
	e := channel.NewDonchianChannel(k, n)
	return e.AnalysisSide().Name, e.Name
}

func C27_own_KeltnerChannel(k *klines.Item, n int) (name, want string) {
	Assume(n >= 1)
	e := channel.NewKeltnerChannel(k, n)
	return e.AnalysisSide().Name, e.Name
}

func C27_own_AbsolutePriceOscillator(k *klines.Item) (name, want string) {
	e := oscillator.NewAbsolutePriceOscillator(k)
	return e.AnalysisSide().Name, e.Name
}

func C27_own_AwesomeOscillator(k *klines.Item) (name, want string) {
	e := oscillator.NewAwesomeOscillator(k)
	return e.AnalysisSide().Name, e.Name
}

func C27_own_ChaikinOscillator(k *klines.Item, f int, s0 int) (name, want string) {
	Assume(f >= 1)
	Assume(s0 >= 1)
	e := oscillator.NewChaikinOscillator(k, f, s0)
	return e.AnalysisSide().Name, e.Name
}

func C27_own_IchimokuCloud(k *klines.Item, c0 int, b int, g int) (name, want string) {
	Assume(c0 >= 1)
	Assume(b >= 1)
	Assume(g >= 1)
	e := oscillator.NewIchimokuCloud(k, c0, b, g)
	return e.AnalysisSide().Name, e.Name
}

func C27_own_PercentagePriceOscillator(k *klines.Item, f int, s0 int, g int) (name, want string) {
	Assume(f >= 1)
	Assume(s0 >= 1)
	Assume(g >= 1)
	e := oscillator.NewPercentagePriceOscillator(k, f, s0, g)
	return e.AnalysisSide().Name, e.Name
}

func C27_own_ProjectionOscillator(k *klines.Item, n int, s0 int) (name, want string) {
	Assume(n >= 1)
	Assume(s0 >= 1)
	e := oscillator.NewProjectionOscillator(k, n, s0)
	return e.AnalysisSide().Name, e.Name
}

func C27_own_StochasticOscillator(k *klines.Item, n int) (name, want string) {
	Assume(n >= 1)
	e := oscillator.NewStochasticOscillator(k, n)
	return e.AnalysisSide().Name, e.Name
}

func C27_own_WilliamsR(k *klines.Item, n int) (name, want string) {
	Assume(n >= 1)
	e := oscillator.NewWilliamsR(k, n)
	return e.AnalysisSide().Name, e.Name
}

func C27_own_AiCoinCCI(k *klines.Item, n int) (name, want string) {
	Assume(n >= 1)
	e := trend.NewAiCoinCCI(k, n)
	return e.AnalysisSide().Name, e.Name
}

func C27_own_Cci(k *klines.Item, n int, s0 int) (name, want string) {
	Assume(n >= 1)
	Assume(s0 >= 1)
	e := trend.NewCci(k, n, s0)
	return e.AnalysisSide().Name, e.Name
}

func C27_own_EMAVegas(k *klines.Item, n int, s1 int, s2 int, g1 int, g2 int) (name, want string) {
	Assume(n >= 1)
	Assume(s1 >= 1)
	Assume(s2 >= 1)
	Assume(g1 >= 1)
	Assume(g2 >= 1)
	e := trend.NewEMAVegas(k, n, s1, s2, g1, g2)
	return e.AnalysisSide().Name, e.Name
}

func C27_own_Kdj(k *klines.Item, n int) (name, want string) {
	Assume(n >= 1)
	e := trend.NewKdj(k, n)
	return e.AnalysisSide().Name, e.Name
}

func C27_own_Macd(k *klines.Item, s0 int, g int, l int) (name, want string) {
	Assume(s0 >= 1)
	Assume(g >= 1)
	Assume(l >= 1)
	e := trend.NewMacd(k, s0, g, l)
	return e.AnalysisSide().Name, e.Name
}

func C27_own_PivotPointSuperTrend(k *klines.Item, n int, a0 int, w float64) (name, want string) {
	Assume(n >= 1)
	Assume(a0 >= 1)
	Assume(w > 0)
	e := trend.NewPivotPointSuperTrend(k, n, a0, w)
	return e.AnalysisSide().Name, e.Name
}

func C27_own_Rsi(k *klines.Item, n int) (name, want string) {
	Assume(n >= 1)
	e := trend.NewRsi(k, n)
	return e.AnalysisSide().Name, e.Name
}

func C27_own_StochRsi(k *klines.Item, sk int, sd int, rl int, sl int) (name, want string) {
	Assume(sk >= 1)
	Assume(sd >= 1)
	Assume(rl >= 1)
	Assume(sl >= 1)
	e := trend.NewStochRsi(k, sk, sd, rl, sl)
	return e.AnalysisSide().Name, e.Name
}

func C27_own_StochasticHeat_EMA(k *klines.Item, inc int, sf int, ss int, pn int) (name, want string) {
	Assume(inc >= 1)
	Assume(sf >= 1)
	Assume(ss >= 1)
	Assume(pn >= 1)
	e := trend.NewStochasticHeat(k, inc, sf, ss, pn, types.EMA)
	return e.AnalysisSide().Name, e.Name
}

func C27_own_StochasticHeat_SMA(k *klines.Item, inc int, sf int, ss int, pn int) (name, want string) {
	Assume(inc >= 1)
	Assume(sf >= 1)
	Assume(ss >= 1)
	Assume(pn >= 1)
	e := trend.NewStochasticHeat(k, inc, sf, ss, pn, types.SMA)
	return e.AnalysisSide().Name, e.Name
}

func C27_own_StochasticHeat_WMA(k *klines.Item, inc int, sf int, ss int, pn int) (name, want string) {
	Assume(inc >= 1)
	Assume(sf >= 1)
	Assume(ss >= 1)
	Assume(pn >= 1)
	e := trend.NewStochasticHeat(k, inc, sf, ss, pn, types.WMA)
	return e.AnalysisSide().Name, e.Name
}

func C27_own_SuperTrend(k *klines.Item, a0 int, w int, ch bool) (name, want string) {
	Assume(a0 >= 1)
	Assume(w >= 1)
	e := trend.NewSuperTrend(k, a0, w, ch)
	return e.AnalysisSide().Name, e.Name
}

func C27_own_TraderXO(k *klines.Item, f int, s0 int) (name, want string) {
	Assume(f >= 1)
	Assume(s0 >= 1)
	e := trend.NewTraderXO(k, f, s0)
	return e.AnalysisSide().Name, e.Name
}

func C27_own_UTBot(k *klines.Item, n int, a0 int) (name, want string) {
	Assume(n >= 1)
	Assume(a0 >= 1)
	e := trend.NewUTBot(k, n, a0)
	return e.AnalysisSide().Name, e.Name
}

func C27_own_MoneyFlowIndex(k *klines.Item, n int) (name, want string) {
	Assume(n >= 1)
	e := volume.NewMoneyFlowIndex(k, n)
	return e.AnalysisSide().Name, e.Name
}
