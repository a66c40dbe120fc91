// Code generated by tools/mkspec.py. DO NOT EDIT.

package zzverif

import (
	"github.com/idoall/stockindicator/channel"
	"github.com/idoall/stockindicator/oscillator"
	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/utils/types"
	"github.com/idoall/stockindicator/volume"
)

func C05_Boll(k *klines.Item, n int, w int, i, j int) (signals, candles int, warm, hold utils.Side, defined, yes bool) {
	Assume(n >= 1)
	Assume(w >= 1)
	s := channel.NewBoll(k, n, w).AnalysisSide().Data
	Assume(i >= 0 && i < len(k.Candles))
	Assume(j >= 0 && j < len(k.Candles))
	Assume(j < 1)
	warm = s[j]
	return len(s), len(k.Candles), warm, utils.Hold, s[i] == utils.Buy || s[i] == utils.Sell || s[i] == utils.Hold, true
}

func C05_DonchianChannel(k *klines.Item, n int, i, j int) (signals, candles int, warm, hold utils.Side, defined, yes bool) {
	Assume(n >= 1)
	s := channel.NewDonchianChannel(k, n).AnalysisSide().Data
	Assume(i >= 0 && i < len(k.Candles))
	Assume(j >= 0 && j < len(k.Candles))
	Assume(j < 1)
	warm = s[j]
	return len(s), len(k.Candles), warm, utils.Hold, s[i] == utils.Buy || s[i] == utils.Sell || s[i] == utils.Hold, true
}

func C05_KeltnerChannel(k *klines.Item, n int, i, j int) (signals, candles int, warm, hold utils.Side, defined, yes bool) {
	Assume(n >= 1)
	s := channel.NewKeltnerChannel(k, n).AnalysisSide().Data
	Assume(i >= 0 && i < len(k.Candles))
	Assume(j >= 0 && j < len(k.Candles))
	Assume(j < 1)
	warm = s[j]
	return len(s), len(k.Candles), warm, utils.Hold, s[i] == utils.Buy || s[i] == utils.Sell || s[i] == utils.Hold, true
}

func C05_AbsolutePriceOscillator(k *klines.Item, i, j int) (signals, candles int, warm, hold utils.Side, defined, yes bool) {
	s := oscillator.NewAbsolutePriceOscillator(k).AnalysisSide().Data
	Assume(i >= 0 && i < len(k.Candles))
	Assume(j >= 0 && j < len(k.Candles))
	Assume(j < 1)
	warm = s[j]
	return len(s), len(k.Candles), warm, utils.Hold, s[i] == utils.Buy || s[i] == utils.Sell || s[i] == utils.Hold, true
}

func C05_AwesomeOscillator(k *klines.Item, i, j int) (signals, candles int, warm, hold utils.Side, defined, yes bool) {
	s := oscillator.NewAwesomeOscillator(k).AnalysisSide().Data
	Assume(i >= 0 && i < len(k.Candles))
	Assume(j >= 0 && j < len(k.Candles))
	Assume(j < 1)
	warm = s[j]
	return len(s), len(k.Candles), warm, utils.Hold, s[i] == utils.Buy || s[i] == utils.Sell || s[i] == utils.Hold, true
}

func C05_Camarilla(k *klines.Item, n int, i, j int) (signals, candles int, warm, hold utils.Side, defined, yes bool) {
	Assume(n >= 1)
	s := oscillator.NewCamarilla(k, n).AnalysisSide(k).Data
	Assume(i >= 0 && i < len(k.Candles))
	Assume(j >= 0 && j < len(k.Candles))
	warm = utils.Hold
	return len(s), len(k.Candles), warm, utils.Hold, s[i] == utils.Buy || s[i] == utils.Sell || s[i] == utils.Hold, true
}

func C05_ChaikinOscillator(k *klines.Item, f int, s0 int, i, j int) (signals, candles int, warm, hold utils.Side, defined, yes bool) {
	Assume(f >= 1)
	Assume(s0 >= 1)
	s := oscillator.NewChaikinOscillator(k, f, s0).AnalysisSide().Data
	Assume(i >= 0 && i < len(k.Candles))
	Assume(j >= 0 && j < len(k.Candles))
	Assume(j < 1)
	warm = s[j]
	return len(s), len(k.Candles), warm, utils.Hold, s[i] == utils.Buy || s[i] == utils.Sell || s[i] == utils.Hold, true
}

func C05_IchimokuCloud(k *klines.Item, c0 int, b int, g int, i, j int) (signals, candles int, warm, hold utils.Side, defined, yes bool) {
	Assume(c0 >= 1)
	Assume(b >= 1)
	Assume(g >= 1)
	s := oscillator.NewIchimokuCloud(k, c0, b, g).AnalysisSide().Data
	Assume(i >= 0 && i < len(k.Candles))
	Assume(j >= 0 && j < len(k.Candles))
	Assume(j < c0)
	warm = s[j]
	return len(s), len(k.Candles), warm, utils.Hold, s[i] == utils.Buy || s[i] == utils.Sell || s[i] == utils.Hold, true
}

func C05_PercentagePriceOscillator(k *klines.Item, f int, s0 int, g int, i, j int) (signals, candles int, warm, hold utils.Side, defined, yes bool) {
	Assume(f >= 1)
	Assume(s0 >= 1)
	Assume(g >= 1)
	s := oscillator.NewPercentagePriceOscillator(k, f, s0, g).AnalysisSide().Data
	Assume(i >= 0 && i < len(k.Candles))
	Assume(j >= 0 && j < len(k.Candles))
	Assume(j < 1)
	warm = s[j]
	return len(s), len(k.Candles), warm, utils.Hold, s[i] == utils.Buy || s[i] == utils.Sell || s[i] == utils.Hold, true
}

func C05_ProjectionOscillator(k *klines.Item, n int, s0 int, i, j int) (signals, candles int, warm, hold utils.Side, defined, yes bool) {
	Assume(n >= 1)
	Assume(s0 >= 1)
	s := oscillator.NewProjectionOscillator(k, n, s0).AnalysisSide().Data
	Assume(i >= 0 && i < len(k.Candles))
	Assume(j >= 0 && j < len(k.Candles))
	Assume(j < 1)
	warm = s[j]
	return len(s), len(k.Candles), warm, utils.Hold, s[i] == utils.Buy || s[i] == utils.Sell || s[i] == utils.Hold, true
}

func C05_StochasticOscillator(k *klines.Item, n int, i, j int) (signals, candles int, warm, hold utils.Side, defined, yes bool) {
	Assume(n >= 1)
	s := oscillator.NewStochasticOscillator(k, n).AnalysisSide().Data
	Assume(i >= 0 && i < len(k.Candles))
	Assume(j >= 0 && j < len(k.Candles))
	Assume(j < 1)
	warm = s[j]
	return len(s), len(k.Candles), warm, utils.Hold, s[i] == utils.Buy || s[i] == utils.Sell || s[i] == utils.Hold, true
}

func C05_WilliamsR(k *klines.Item, n int, i, j int) (signals, candles int, warm, hold utils.Side, defined, yes bool) {
	Assume(n >= 1)
	s := oscillator.NewWilliamsR(k, n).AnalysisSide().Data
	Assume(i >= 0 && i < len(k.Candles))
	Assume(j >= 0 && j < len(k.Candles))
	Assume(j < 1)
	warm = s[j]
	return len(s), len(k.Candles), warm, utils.Hold, s[i] == utils.Buy || s[i] == utils.Sell || s[i] == utils.Hold, true
}

func C05_AiCoinCCI(k *klines.Item, n int, i, j int) (signals, candles int, warm, hold utils.Side, defined, yes bool) {
	Assume(n >= 1)
	s := trend.NewAiCoinCCI(k, n).AnalysisSide().Data
	Assume(i >= 0 && i < len(k.Candles))
	Assume(j >= 0 && j < len(k.Candles))
	Assume(j < 1)
	warm = s[j]
	return len(s), len(k.Candles), warm, utils.Hold, s[i] == utils.Buy || s[i] == utils.Sell || s[i] == utils.Hold, true
}

func C05_Cci(k *klines.Item, n int, s0 int, i, j int) (signals, candles int, warm, hold utils.Side, defined, yes bool) {
	Assume(n >= 1)
	Assume(s0 >= 1)
	s := trend.NewCci(k, n, s0).AnalysisSide().Data
	Assume(i >= 0 && i < len(k.Candles))
	Assume(j >= 0 && j < len(k.Candles))
	Assume(j < 1)
	warm = s[j]
	return len(s), len(k.Candles), warm, utils.Hold, s[i] == utils.Buy || s[i] == utils.Sell || s[i] == utils.Hold, true
}

func C05_EMAVegas(k *klines.Item, n int, s1 int, s2 int, g1 int, g2 int, i, j int) (signals, candles int, warm, hold utils.Side, defined, yes bool) {
	Assume(n >= 1)
	Assume(s1 >= 1)
	Assume(s2 >= 1)
	Assume(g1 >= 1)
	Assume(g2 >= 1)
	s := trend.NewEMAVegas(k, n, s1, s2, g1, g2).AnalysisSide().Data
	Assume(i >= 0 && i < len(k.Candles))
	Assume(j >= 0 && j < len(k.Candles))
	Assume(j < 11)
	warm = s[j]
	return len(s), len(k.Candles), warm, utils.Hold, s[i] == utils.Buy || s[i] == utils.Sell || s[i] == utils.Hold, true
}

func C05_Kdj(k *klines.Item, n int, i, j int) (signals, candles int, warm, hold utils.Side, defined, yes bool) {
	Assume(n >= 1)
	s := trend.NewKdj(k, n).AnalysisSide().Data
	Assume(i >= 0 && i < len(k.Candles))
	Assume(j >= 0 && j < len(k.Candles))
	Assume(j < 1)
	warm = s[j]
	return len(s), len(k.Candles), warm, utils.Hold, s[i] == utils.Buy || s[i] == utils.Sell || s[i] == utils.Hold, true
}

func C05_Macd(k *klines.Item, s0 int, g int, l int, i, j int) (signals, candles int, warm, hold utils.Side, defined, yes bool) {
	Assume(s0 >= 1)
	Assume(g >= 1)
	Assume(l >= 1)
	s := trend.NewMacd(k, s0, g, l).AnalysisSide().Data
	Assume(i >= 0 && i < len(k.Candles))
	Assume(j >= 0 && j < len(k.Candles))
	Assume(j < 1)
	warm = s[j]
	return len(s), len(k.Candles), warm, utils.Hold, s[i] == utils.Buy || s[i] == utils.Sell || s[i] == utils.Hold, true
}

func C05_PivotPointSuperTrend(k *klines.Item, n int, a0 int, w float64, i, j int) (signals, candles int, warm, hold utils.Side, defined, yes bool) {
	Assume(n >= 1)
	Assume(a0 >= 1)
	Assume(w > 0)
	s := trend.NewPivotPointSuperTrend(k, n, a0, w).AnalysisSide().Data
	Assume(i >= 0 && i < len(k.Candles))
	Assume(j >= 0 && j < len(k.Candles))
	Assume(j < 1)
	warm = s[j]
	return len(s), len(k.Candles), warm, utils.Hold, s[i] == utils.Buy || s[i] == utils.Sell || s[i] == utils.Hold, true
}

func C05_Rsi(k *klines.Item, n int, i, j int) (signals, candles int, warm, hold utils.Side, defined, yes bool) {
	Assume(n >= 1)
	s := trend.NewRsi(k, n).AnalysisSide().Data
	Assume(i >= 0 && i < len(k.Candles))
	Assume(j >= 0 && j < len(k.Candles))
	Assume(j < 1)
	warm = s[j]
	return len(s), len(k.Candles), warm, utils.Hold, s[i] == utils.Buy || s[i] == utils.Sell || s[i] == utils.Hold, true
}

func C05_StochRsi(k *klines.Item, sk int, sd int, rl int, sl int, i, j int) (signals, candles int, warm, hold utils.Side, defined, yes bool) {
	Assume(sk >= 1)
	Assume(sd >= 1)
	Assume(rl >= 1)
	Assume(sl >= 1)
	s := trend.NewStochRsi(k, sk, sd, rl, sl).AnalysisSide().Data
	Assume(i >= 0 && i < len(k.Candles))
	Assume(j >= 0 && j < len(k.Candles))
	Assume(j < 1)
	warm = s[j]
	return len(s), len(k.Candles), warm, utils.Hold, s[i] == utils.Buy || s[i] == utils.Sell || s[i] == utils.Hold, true
}

func C05_StochasticHeat_EMA(k *klines.Item, inc int, sf int, ss int, pn int, i, j int) (signals, candles int, warm, hold utils.Side, defined, yes bool) {
	Assume(inc >= 1)
	Assume(sf >= 1)
	Assume(ss >= 1)
	Assume(pn >= 1)
	s := trend.NewStochasticHeat(k, inc, sf, ss, pn, types.EMA).AnalysisSide().Data
	Assume(i >= 0 && i < len(k.Candles))
	Assume(j >= 0 && j < len(k.Candles))
	Assume(j < 1)
	warm = s[j]
	return len(s), len(k.Candles), warm, utils.Hold, s[i] == utils.Buy || s[i] == utils.Sell || s[i] == utils.Hold, true
}

func C05_StochasticHeat_SMA(k *klines.Item, inc int, sf int, ss int, pn int, i, j int) (signals, candles int, warm, hold utils.Side, defined, yes bool) {
	Assume(inc >= 1)
	Assume(sf >= 1)
	Assume(ss >= 1)
	Assume(pn >= 1)
	s := trend.NewStochasticHeat(k, inc, sf, ss, pn, types.SMA).AnalysisSide().Data
	Assume(i >= 0 && i < len(k.Candles))
	Assume(j >= 0 && j < len(k.Candles))
	Assume(j < 1)
	warm = s[j]
	return len(s), len(k.Candles), warm, utils.Hold, s[i] == utils.Buy || s[i] == utils.Sell || s[i] == utils.Hold, true
}

func C05_StochasticHeat_WMA(k *klines.Item, inc int, sf int, ss int, pn int, i, j int) (signals, candles int, warm, hold utils.Side, defined, yes bool) {
	Assume(inc >= 1)
	Assume(sf >= 1)
	Assume(ss >= 1)
	Assume(pn >= 1)
	s := trend.NewStochasticHeat(k, inc, sf, ss, pn, types.WMA).AnalysisSide().Data
	Assume(i >= 0 && i < len(k.Candles))
	Assume(j >= 0 && j < len(k.Candles))
	Assume(j < 1)
	warm = s[j]
	return len(s), len(k.Candles), warm, utils.Hold, s[i] == utils.Buy || s[i] == utils.Sell || s[i] == utils.Hold, true
}

func C05_SuperTrend(k *klines.Item, a0 int, w int, ch bool, i, j int) (signals, candles int, warm, hold utils.Side, defined, yes bool) {
	Assume(a0 >= 1)
	Assume(w >= 1)
	s := trend.NewSuperTrend(k, a0, w, ch).AnalysisSide().Data
	Assume(i >= 0 && i < len(k.Candles))
	Assume(j >= 0 && j < len(k.Candles))
	Assume(j < 1)
	warm = s[j]
	return len(s), len(k.Candles), warm, utils.Hold, s[i] == utils.Buy || s[i] == utils.Sell || s[i] == utils.Hold, true
}

func C05_TraderXO(k *klines.Item, f int, s0 int, i, j int) (signals, candles int, warm, hold utils.Side, defined, yes bool) {
	Assume(f >= 1)
	Assume(s0 >= 1)
	s := trend.NewTraderXO(k, f, s0).AnalysisSide().Data
	Assume(i >= 0 && i < len(k.Candles))
	Assume(j >= 0 && j < len(k.Candles))
	Assume(j < 1)
	warm = s[j]
	return len(s), len(k.Candles), warm, utils.Hold, s[i] == utils.Buy || s[i] == utils.Sell || s[i] == utils.Hold, true
}

func C05_UTBot(k *klines.Item, n int, a0 int, i, j int) (signals, candles int, warm, hold utils.Side, defined, yes bool) {
	Assume(n >= 1)
	Assume(a0 >= 1)
	s := trend.NewUTBot(k, n, a0).AnalysisSide().Data
	Assume(i >= 0 && i < len(k.Candles))
	Assume(j >= 0 && j < len(k.Candles))
	Assume(j < 1)
	warm = s[j]
	return len(s), len(k.Candles), warm, utils.Hold, s[i] == utils.Buy || s[i] == utils.Sell || s[i] == utils.Hold, true
}

func C05_MoneyFlowIndex(k *klines.Item, n int, i, j int) (signals, candles int, warm, hold utils.Side, defined, yes bool) {
	Assume(n >= 1)
	s := volume.NewMoneyFlowIndex(k, n).AnalysisSide().Data
	Assume(i >= 0 && i < len(k.Candles))
	Assume(j >= 0 && j < len(k.Candles))
	Assume(j < 1)
	warm = s[j]
	return len(s), len(k.Candles), warm, utils.Hold, s[i] == utils.Buy || s[i] == utils.Sell || s[i] == utils.Hold, true
}
