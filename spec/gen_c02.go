// Code generated by tools/mkspec.py. DO NOT EDIT.

package zzverif

import (
	"github.com/idoall/stockindicator/channel"
	"github.com/idoall/stockindicator/oscillator"
	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/utils/types"
	"github.com/idoall/stockindicator/volume"
)

func C02_Boll(k *klines.Item, n int, w int) (again, once []channel.BollData) {
	Assume(n >= 1)
	Assume(w >= 1)
	a := channel.NewBoll(k, n, w)
	a.Calculation()
	one := channel.NewBoll(k, n, w).GetData()
	a.AnalysisSide()
	a.Calculation()
	return a.GetData(), one
}

func C02_DonchianChannel(k *klines.Item, n int) (again, once []channel.DonchianChannelData) {
	Assume(n >= 1)
	a := channel.NewDonchianChannel(k, n)
	a.Calculation()
	one := channel.NewDonchianChannel(k, n).GetData()
	a.AnalysisSide()
	a.Calculation()
	return a.GetData(), one
}

func C02_KeltnerChannel(k *klines.Item, n int) (again, once []channel.KeltnerChannelData) {
	Assume(n >= 1)
	a := channel.NewKeltnerChannel(k, n)
	a.Calculation()
	one := channel.NewKeltnerChannel(k, n).GetData()
	a.AnalysisSide()
	a.Calculation()
	return a.GetData(), one
}

func C02_UlcerIndex(k *klines.Item, n int) (again, once []channel.UlcerIndexData) {
	Assume(n >= 1)
	a := channel.NewUlcerIndex(k, n)
	a.Calculation()
	one := channel.NewUlcerIndex(k, n).GetData()
	a.Calculation()
	return a.GetData(), one
}

func C02_AbsolutePriceOscillator(k *klines.Item) (again, once []oscillator.AbsolutePriceOscillatorData) {
	a := oscillator.NewAbsolutePriceOscillator(k)
	a.Calculation()
	one := oscillator.NewAbsolutePriceOscillator(k).GetData()
	a.AnalysisSide()
	a.Calculation()
	return a.GetData(), one
}

func C02_AwesomeOscillator(k *klines.Item) (again, once []oscillator.AwesomeOscillatorData) {
	a := oscillator.NewAwesomeOscillator(k)
	a.Calculation()
	one := oscillator.NewAwesomeOscillator(k).GetData()
	a.AnalysisSide()
	a.Calculation()
	return a.GetData(), one
}

func C02_Camarilla(k *klines.Item, n int) (again, once []*oscillator.CamarillaData) {
	Assume(n >= 1)
	a := oscillator.NewCamarilla(k, n)
	a.Calculation()
	one := oscillator.NewCamarilla(k, n).GetData()
	a.Calculation()
	return a.GetData(), one
}

func C02_ChaikinOscillator(k *klines.Item, f int, s0 int) (again, once []oscillator.ChaikinOscillatorData) {
	Assume(f >= 1)
	Assume(s0 >= 1)
	a := oscillator.NewChaikinOscillator(k, f, s0)
	a.Calculation()
	one := oscillator.NewChaikinOscillator(k, f, s0).GetData()
	a.AnalysisSide()
	a.Calculation()
	return a.GetData(), one
}

func C02_IchimokuCloud(k *klines.Item, c0 int, b int, g int) (again, once []oscillator.IchimokuCloudData) {
	Assume(c0 >= 1)
	Assume(b >= 1)
	Assume(g >= 1)
	a := oscillator.NewIchimokuCloud(k, c0, b, g)
	a.Calculation()
	one := oscillator.NewIchimokuCloud(k, c0, b, g).GetData()
	a.AnalysisSide()
	a.Calculation()
	return a.GetData(), one
}

func C02_PercentagePriceOscillator(k *klines.Item, f int, s0 int, g int) (again, once []oscillator.PercentagePriceOscillatorData) {
	Assume(f >= 1)
	Assume(s0 >= 1)
	Assume(g >= 1)
	a := oscillator.NewPercentagePriceOscillator(k, f, s0, g)
	a.Calculation()
	one := oscillator.NewPercentagePriceOscillator(k, f, s0, g).GetData()
	a.AnalysisSide()
	a.Calculation()
	return a.GetData(), one
}

func C02_ProjectionOscillator(k *klines.Item, n int, s0 int) (again, once []oscillator.ProjectionOscillatorData) {
	Assume(n >= 1)
	Assume(s0 >= 1)
	a := oscillator.NewProjectionOscillator(k, n, s0)
	a.Calculation()
	one := oscillator.NewProjectionOscillator(k, n, s0).GetData()
	a.AnalysisSide()
	a.Calculation()
	return a.GetData(), one
}

func C02_StochasticOscillator(k *klines.Item, n int) (again, once []oscillator.StochasticOscillatorData) {
	Assume(n >= 1)
	a := oscillator.NewStochasticOscillator(k, n)
	a.Calculation()
	one := oscillator.NewStochasticOscillator(k, n).GetData()
	a.AnalysisSide()
	a.Calculation()
	return a.GetData(), one
}

func C02_VolumeOscillator(k *klines.Item, s0 int, g int) (again, once []oscillator.VolumeOscillatorData) {
	Assume(s0 >= 1)
	Assume(g >= 1)
	a := oscillator.NewVolumeOscillator(k, s0, g)
	a.Calculation()
	one := oscillator.NewVolumeOscillator(k, s0, g).GetData()
	a.Calculation()
	return a.GetData(), one
}

func C02_WilliamsR(k *klines.Item, n int) (again, once []oscillator.WilliamsRData) {
	Assume(n >= 1)
	a := oscillator.NewWilliamsR(k, n)
	a.Calculation()
	one := oscillator.NewWilliamsR(k, n).GetData()
	a.AnalysisSide()
	a.Calculation()
	return a.GetData(), one
}

func C02_AiCoinCCI(k *klines.Item, n int) (again, once []trend.AiCoinCCIData) {
	Assume(n >= 1)
	a := trend.NewAiCoinCCI(k, n)
	a.Calculation()
	one := trend.NewAiCoinCCI(k, n).GetData()
	a.AnalysisSide()
	a.Calculation()
	return a.GetData(), one
}

func C02_Atr(k *klines.Item, n int) (again, once []trend.AtrData) {
	Assume(n >= 1)
	a := trend.NewAtr(k, n)
	a.Calculation()
	one := trend.NewAtr(k, n).GetData()
	a.Calculation()
	return a.GetData(), one
}

func C02_AverageDirectionalIndex(k *klines.Item, n int, g int) (again, once []trend.AverageDirectionalIndexData) {
	Assume(n >= 1)
	Assume(g >= 1)
	a := trend.NewAverageDirectionalIndex(k, n, g)
	a.Calculation()
	one := trend.NewAverageDirectionalIndex(k, n, g).GetData()
	a.Calculation()
	return a.GetData(), one
}

func C02_BreakoutProbability(k *klines.Item) (again, once []trend.BreakoutProbabilityData) {
	a := trend.NewDefaultBreakoutProbability(k)
	a.Calculation()
	one := trend.NewDefaultBreakoutProbability(k).GetData()
	a.Calculation()
	return a.GetData(), one
}

func C02_Cci(k *klines.Item, n int, s0 int) (again, once []trend.CciData) {
	Assume(n >= 1)
	Assume(s0 >= 1)
	a := trend.NewCci(k, n, s0)
	a.Calculation()
	one := trend.NewCci(k, n, s0).GetData()
	a.AnalysisSide()
	a.Calculation()
	return a.GetData(), one
}

func C02_Dema(k *klines.Item, n int) (again, once []*trend.DemaData) {
	Assume(n >= 1)
	a := trend.NewDema(k, n)
	a.Calculation()
	one := trend.NewDema(k, n).GetData()
	a.Calculation()
	return a.GetData(), one
}

func C02_EMAVegas(k *klines.Item, n int, s1 int, s2 int, g1 int, g2 int) (again, once []trend.EMAVegasData) {
	Assume(n >= 1)
	Assume(s1 >= 1)
	Assume(s2 >= 1)
	Assume(g1 >= 1)
	Assume(g2 >= 1)
	a := trend.NewEMAVegas(k, n, s1, s2, g1, g2)
	a.Calculation()
	one := trend.NewEMAVegas(k, n, s1, s2, g1, g2).GetData()
	a.AnalysisSide()
	a.Calculation()
	return a.GetData(), one
}

func C02_Ema(k *klines.Item, n int) (again, once []trend.EmaData) {
	Assume(n >= 1)
	a := trend.NewEma(k, n)
	a.Calculation()
	one := trend.NewEma(k, n).GetData()
	a.Calculation()
	return a.GetData(), one
}

func C02_Kdj(k *klines.Item, n int) (again, once []trend.KdjData) {
	Assume(n >= 1)
	a := trend.NewKdj(k, n)
	a.Calculation()
	one := trend.NewKdj(k, n).GetData()
	a.AnalysisSide()
	a.Calculation()
	return a.GetData(), one
}

func C02_LinearRegressionCandles(k *klines.Item, g int, n int, sma bool) (again, once []trend.LinearRegressionCandlesData) {
	Assume(g >= 1)
	Assume(n >= 1)
	a := trend.NewLinearRegressionCandles(k, g, n, sma)
	a.Calculation()
	one := trend.NewLinearRegressionCandles(k, g, n, sma).GetData()
	a.Calculation()
	return a.GetData(), one
}

func C02_Ma(k *klines.Item, n int) (again, once []trend.MaData) {
	Assume(n >= 1)
	a := trend.NewMa(k, n)
	a.Calculation()
	one := trend.NewMa(k, n).GetData()
	a.Calculation()
	return a.GetData(), one
}

func C02_Macd(k *klines.Item, s0 int, g int, l int) (again, once []trend.MacdData) {
	Assume(s0 >= 1)
	Assume(g >= 1)
	Assume(l >= 1)
	a := trend.NewMacd(k, s0, g, l)
	a.Calculation()
	one := trend.NewMacd(k, s0, g, l).GetData()
	a.AnalysisSide()
	a.Calculation()
	return a.GetData(), one
}

func C02_PivotPointSuperTrend(k *klines.Item, n int, a0 int, w float64) (again, once []trend.PivotPointSuperTrendData) {
	Assume(n >= 1)
	Assume(a0 >= 1)
	Assume(w > 0)
	a := trend.NewPivotPointSuperTrend(k, n, a0, w)
	a.Calculation()
	one := trend.NewPivotPointSuperTrend(k, n, a0, w).GetData()
	a.AnalysisSide()
	a.Calculation()
	return a.GetData(), one
}

func C02_ReversalSignals(k *klines.Item) (again, once []trend.ReversalSignalsData) {
	a := trend.NewReversalSignals(k)
	a.Calculation()
	one := trend.NewReversalSignals(k).GetData()
	a.Calculation()
	return a.GetData(), one
}

func C02_Rma(k *klines.Item, n int) (again, once []trend.RmaData) {
	Assume(n >= 1)
	a := trend.NewRma(k, n)
	a.Calculation()
	one := trend.NewRma(k, n).GetData()
	a.Calculation()
	return a.GetData(), one
}

func C02_Rsi(k *klines.Item, n int) (again, once []trend.RsiData) {
	Assume(n >= 1)
	a := trend.NewRsi(k, n)
	a.Calculation()
	one := trend.NewRsi(k, n).GetData()
	a.AnalysisSide()
	a.Calculation()
	return a.GetData(), one
}

func C02_Sma(k *klines.Item, n int) (again, once []trend.SmaData) {
	Assume(n >= 1)
	a := trend.NewSma(k, n)
	a.Calculation()
	one := trend.NewSma(k, n).GetData()
	a.Calculation()
	return a.GetData(), one
}

func C02_StochRsi(k *klines.Item, sk int, sd int, rl int, sl int) (again, once []trend.StochRsiData) {
	Assume(sk >= 1)
	Assume(sd >= 1)
	Assume(rl >= 1)
	Assume(sl >= 1)
	a := trend.NewStochRsi(k, sk, sd, rl, sl)
	a.Calculation()
	one := trend.NewStochRsi(k, sk, sd, rl, sl).GetData()
	a.AnalysisSide()
	a.Calculation()
	return a.GetData(), one
}

func C02_StochasticHeat_EMA(k *klines.Item, inc int, sf int, ss int, pn int) (again, once []trend.StochasticHeatData) {
	Assume(inc >= 1)
	Assume(sf >= 1)
	Assume(ss >= 1)
	Assume(pn >= 1)
	a := trend.NewStochasticHeat(k, inc, sf, ss, pn, types.EMA)
	a.Calculation()
	one := trend.NewStochasticHeat(k, inc, sf, ss, pn, types.EMA).GetData()
	a.AnalysisSide()
	a.Calculation()
	return a.GetData(), one
}

//zz:thorough
func C02_StochasticHeat_SMA(k *klines.Item, inc int, sf int, ss int, pn int) (again, once []trend.StochasticHeatData) {
	Assume(inc >= 1)
	Assume(sf >= 1)
	Assume(ss >= 1)
	Assume(pn >= 1)
	a := trend.NewStochasticHeat(k, inc, sf, ss, pn, types.SMA)
	a.Calculation()
	one := trend.NewStochasticHeat(k, inc, sf, ss, pn, types.SMA).GetData()
	a.AnalysisSide()
	a.Calculation()
	return a.GetData(), one
}

func C02_StochasticHeat_WMA(k *klines.Item, inc int, sf int, ss int, pn int) (again, once []trend.StochasticHeatData) {
	Assume(inc >= 1)
	Assume(sf >= 1)
	Assume(ss >= 1)
	Assume(pn >= 1)
	a := trend.NewStochasticHeat(k, inc, sf, ss, pn, types.WMA)
	a.Calculation()
	one := trend.NewStochasticHeat(k, inc, sf, ss, pn, types.WMA).GetData()
	a.AnalysisSide()
	a.Calculation()
	return a.GetData(), one
}

func C02_SuperTrend(k *klines.Item, a0 int, w int, ch bool) (again, once []trend.SuperTrendData) {
	Assume(a0 >= 1)
	Assume(w >= 1)
	a := trend.NewSuperTrend(k, a0, w, ch)
	a.Calculation()
	one := trend.NewSuperTrend(k, a0, w, ch).GetData()
	a.AnalysisSide()
	a.Calculation()
	return a.GetData(), one
}

func C02_TraderXO(k *klines.Item, f int, s0 int) (again, once []trend.TraderXOData) {
	Assume(f >= 1)
	Assume(s0 >= 1)
	a := trend.NewTraderXO(k, f, s0)
	a.Calculation()
	one := trend.NewTraderXO(k, f, s0).GetData()
	a.AnalysisSide()
	a.Calculation()
	return a.GetData(), one
}

func C02_UTBot(k *klines.Item, n int, a0 int) (again, once []trend.UTBotData) {
	Assume(n >= 1)
	Assume(a0 >= 1)
	a := trend.NewUTBot(k, n, a0)
	a.Calculation()
	one := trend.NewUTBot(k, n, a0).GetData()
	a.AnalysisSide()
	a.Calculation()
	return a.GetData(), one
}

func C02_Vortex(k *klines.Item, n int) (again, once []trend.VortexData) {
	Assume(n >= 1)
	a := trend.NewVortex(k, n)
	a.Calculation()
	one := trend.NewVortex(k, n).GetData()
	a.Calculation()
	return a.GetData(), one
}

func C02_AccumulationDistribution(k *klines.Item) (again, once []volume.AccumulationDistributionData) {
	a := volume.NewAccumulationDistribution(k)
	a.Calculation()
	one := volume.NewAccumulationDistribution(k).GetData()
	a.Calculation()
	return a.GetData(), one
}

func C02_ChaikinMoneyFlow(k *klines.Item, n int) (again, once []volume.ChaikinMoneyFlowData) {
	Assume(n >= 1)
	a := volume.NewChaikinMoneyFlow(k, n)
	a.Calculation()
	one := volume.NewChaikinMoneyFlow(k, n).GetData()
	a.Calculation()
	return a.GetData(), one
}

func C02_EaseOfMovement(k *klines.Item, n int) (again, once []volume.EaseOfMovementData) {
	Assume(n >= 1)
	a := volume.NewEaseOfMovement(k, n)
	a.Calculation()
	one := volume.NewEaseOfMovement(k, n).GetData()
	a.Calculation()
	return a.GetData(), one
}

func C02_ForceIndex(k *klines.Item, n int) (again, once []volume.ForceIndexData) {
	Assume(n >= 1)
	a := volume.NewForceIndex(k, n)
	a.Calculation()
	one := volume.NewForceIndex(k, n).GetData()
	a.Calculation()
	return a.GetData(), one
}

func C02_MoneyFlowIndex(k *klines.Item, n int) (again, once []volume.MoneyFlowIndexData) {
	Assume(n >= 1)
	a := volume.NewMoneyFlowIndex(k, n)
	a.Calculation()
	one := volume.NewMoneyFlowIndex(k, n).GetData()
	a.AnalysisSide()
	a.Calculation()
	return a.GetData(), one
}

func C02_NegativeVolumeIndex(k *klines.Item) (again, once []volume.NegativeVolumeIndexData) {
	a := volume.NewNegativeVolumeIndex(k)
	a.Calculation()
	one := volume.NewNegativeVolumeIndex(k).GetData()
	a.Calculation()
	return a.GetData(), one
}

func C02_Obv(k *klines.Item) (again, once []volume.ObvData) {
	a := volume.NewObv(k)
	a.Calculation()
	one := volume.NewObv(k).GetData()
	a.Calculation()
	return a.GetData(), one
}

func C02_VolumePriceTrend(k *klines.Item, n int) (again, once []volume.VolumePriceTrendData) {
	Assume(n >= 1)
	a := volume.NewVolumePriceTrend(k, n)
	a.Calculation()
	one := volume.NewVolumePriceTrend(k, n).GetData()
	a.Calculation()
	return a.GetData(), one
}

func C02_Vwma(k *klines.Item, n int) (again, once []volume.VwmaData) {
	Assume(n >= 1)
	a := volume.NewVwma(k, n)
	a.Calculation()
	one := volume.NewVwma(k, n).GetData()
	a.Calculation()
	return a.GetData(), one
}
