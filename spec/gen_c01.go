// Code generated by tools/mkspec.py. DO NOT EDIT.

package zzverif

import (
	"github.com/idoall/stockindicator/channel"
	"github.com/idoall/stockindicator/oscillator"
	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/utils/types"
	"github.com/idoall/stockindicator/volume"
	"time"
)

func C01_Boll(k *klines.Item, n int, w int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(n >= 1)
	Assume(w >= 1)
	d := channel.NewBoll(k, n, w).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_DonchianChannel(k *klines.Item, n int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(n >= 1)
	d := channel.NewDonchianChannel(k, n).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_KeltnerChannel(k *klines.Item, n int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(n >= 1)
	d := channel.NewKeltnerChannel(k, n).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_UlcerIndex(k *klines.Item, n int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(n >= 1)
	d := channel.NewUlcerIndex(k, n).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_AbsolutePriceOscillator(k *klines.Item, i int) (points, candles int, at, wantAt time.Time) {
	d := oscillator.NewAbsolutePriceOscillator(k).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_AwesomeOscillator(k *klines.Item, i int) (points, candles int, at, wantAt time.Time) {
	d := oscillator.NewAwesomeOscillator(k).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_Camarilla(k *klines.Item, n int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(n >= 1)
	d := oscillator.NewCamarilla(k, n).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_ChaikinOscillator(k *klines.Item, f int, s0 int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(f >= 1)
	Assume(s0 >= 1)
	d := oscillator.NewChaikinOscillator(k, f, s0).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_IchimokuCloud(k *klines.Item, c0 int, b int, g int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(c0 >= 1)
	Assume(b >= 1)
	Assume(g >= 1)
	d := oscillator.NewIchimokuCloud(k, c0, b, g).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_PercentagePriceOscillator(k *klines.Item, f int, s0 int, g int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(f >= 1)
	Assume(s0 >= 1)
	Assume(g >= 1)
	d := oscillator.NewPercentagePriceOscillator(k, f, s0, g).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_ProjectionOscillator(k *klines.Item, n int, s0 int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(n >= 1)
	Assume(s0 >= 1)
	d := oscillator.NewProjectionOscillator(k, n, s0).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_StochasticOscillator(k *klines.Item, n int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(n >= 1)
	d := oscillator.NewStochasticOscillator(k, n).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_VolumeOscillator(k *klines.Item, s0 int, g int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(s0 >= 1)
	Assume(g >= 1)
	d := oscillator.NewVolumeOscillator(k, s0, g).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_WilliamsR(k *klines.Item, n int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(n >= 1)
	d := oscillator.NewWilliamsR(k, n).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_AiCoinCCI(k *klines.Item, n int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(n >= 1)
	d := trend.NewAiCoinCCI(k, n).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_Atr(k *klines.Item, n int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(n >= 1)
	d := trend.NewAtr(k, n).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_AverageDirectionalIndex(k *klines.Item, n int, g int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(n >= 1)
	Assume(g >= 1)
	d := trend.NewAverageDirectionalIndex(k, n, g).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_BreakoutProbability(k *klines.Item, q0 float64, n int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(q0 > 0)
	Assume(n >= 1)
	d := trend.NewBreakoutProbability(k, q0, n).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_Cci(k *klines.Item, n int, s0 int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(n >= 1)
	Assume(s0 >= 1)
	d := trend.NewCci(k, n, s0).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_Dema(k *klines.Item, n int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(n >= 1)
	d := trend.NewDema(k, n).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_EMAVegas(k *klines.Item, n int, s1 int, s2 int, g1 int, g2 int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(n >= 1)
	Assume(s1 >= 1)
	Assume(s2 >= 1)
	Assume(g1 >= 1)
	Assume(g2 >= 1)
	d := trend.NewEMAVegas(k, n, s1, s2, g1, g2).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_Ema(k *klines.Item, n int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(n >= 1)
	d := trend.NewEma(k, n).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_Kdj(k *klines.Item, n int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(n >= 1)
	d := trend.NewKdj(k, n).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_LinearRegressionCandles(k *klines.Item, g int, n int, sma bool, i int) (points, candles int, at, wantAt time.Time) {
	Assume(g >= 1)
	Assume(n >= 1)
	d := trend.NewLinearRegressionCandles(k, g, n, sma).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_Ma(k *klines.Item, n int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(n >= 1)
	d := trend.NewMa(k, n).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_Macd(k *klines.Item, s0 int, g int, l int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(s0 >= 1)
	Assume(g >= 1)
	Assume(l >= 1)
	d := trend.NewMacd(k, s0, g, l).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_PivotPointSuperTrend(k *klines.Item, n int, a0 int, w float64, i int) (points, candles int, at, wantAt time.Time) {
	Assume(n >= 1)
	Assume(a0 >= 1)
	Assume(w > 0)
	d := trend.NewPivotPointSuperTrend(k, n, a0, w).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_Rma(k *klines.Item, n int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(n >= 1)
	d := trend.NewRma(k, n).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_Rsi(k *klines.Item, n int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(n >= 1)
	d := trend.NewRsi(k, n).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_Sma(k *klines.Item, n int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(n >= 1)
	d := trend.NewSma(k, n).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_StochRsi(k *klines.Item, sk int, sd int, rl int, sl int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(sk >= 1)
	Assume(sd >= 1)
	Assume(rl >= 1)
	Assume(sl >= 1)
	d := trend.NewStochRsi(k, sk, sd, rl, sl).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_StochasticHeat_EMA(k *klines.Item, inc int, sf int, ss int, pn int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(inc >= 1)
	Assume(sf >= 1)
	Assume(ss >= 1)
	Assume(pn >= 1)
	d := trend.NewStochasticHeat(k, inc, sf, ss, pn, types.EMA).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_StochasticHeat_SMA(k *klines.Item, inc int, sf int, ss int, pn int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(inc >= 1)
	Assume(sf >= 1)
	Assume(ss >= 1)
	Assume(pn >= 1)
	d := trend.NewStochasticHeat(k, inc, sf, ss, pn, types.SMA).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_StochasticHeat_WMA(k *klines.Item, inc int, sf int, ss int, pn int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(inc >= 1)
	Assume(sf >= 1)
	Assume(ss >= 1)
	Assume(pn >= 1)
	d := trend.NewStochasticHeat(k, inc, sf, ss, pn, types.WMA).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_SuperTrend(k *klines.Item, a0 int, w int, ch bool, i int) (points, candles int, at, wantAt time.Time) {
	Assume(a0 >= 1)
	Assume(w >= 1)
	d := trend.NewSuperTrend(k, a0, w, ch).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_TraderXO(k *klines.Item, f int, s0 int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(f >= 1)
	Assume(s0 >= 1)
	d := trend.NewTraderXO(k, f, s0).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_UTBot(k *klines.Item, n int, a0 int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(n >= 1)
	Assume(a0 >= 1)
	d := trend.NewUTBot(k, n, a0).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_Vortex(k *klines.Item, n int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(n >= 1)
	d := trend.NewVortex(k, n).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_AccumulationDistribution(k *klines.Item, i int) (points, candles int, at, wantAt time.Time) {
	d := volume.NewAccumulationDistribution(k).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_ChaikinMoneyFlow(k *klines.Item, n int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(n >= 1)
	d := volume.NewChaikinMoneyFlow(k, n).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_EaseOfMovement(k *klines.Item, n int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(n >= 1)
	d := volume.NewEaseOfMovement(k, n).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_ForceIndex(k *klines.Item, n int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(n >= 1)
	d := volume.NewForceIndex(k, n).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_MoneyFlowIndex(k *klines.Item, n int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(n >= 1)
	d := volume.NewMoneyFlowIndex(k, n).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_NegativeVolumeIndex(k *klines.Item, i int) (points, candles int, at, wantAt time.Time) {
	d := volume.NewNegativeVolumeIndex(k).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_Obv(k *klines.Item, i int) (points, candles int, at, wantAt time.Time) {
	d := volume.NewObv(k).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_VolumePriceTrend(k *klines.Item, n int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(n >= 1)
	d := volume.NewVolumePriceTrend(k, n).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

func C01_Vwma(k *klines.Item, n int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(n >= 1)
	d := volume.NewVwma(k, n).GetData()
	Assume(i >= 0 && i < len(k.Candles))
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}
