// Code generated by tools/mkspec.py. DO NOT EDIT.

package zzverif

import (
	"github.com/idoall/stockindicator/channel"
	"github.com/idoall/stockindicator/oscillator"
	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/utils/types"
	"github.com/idoall/stockindicator/volume"
)

func X_Boll(k *klines.Item, n int, w int) []channel.BollData {
	Assume(n >= 1)
	Assume(w >= 1)
	return channel.NewBoll(k, n, w).GetData()
}

func X_Boll_signal(k *klines.Item, n int, w int) utils.SideData {
	Assume(n >= 1)
	Assume(w >= 1)
	return channel.NewBoll(k, n, w).AnalysisSide()
}

func X_DonchianChannel(k *klines.Item, n int) []channel.DonchianChannelData {
	Assume(n >= 1)
	return channel.NewDonchianChannel(k, n).GetData()
}

func X_DonchianChannel_signal(k *klines.Item, n int) utils.SideData {
	Assume(n >= 1)
	return channel.NewDonchianChannel(k, n).AnalysisSide()
}

func X_KeltnerChannel(k *klines.Item, n int) []channel.KeltnerChannelData {
	Assume(n >= 1)
	return channel.NewKeltnerChannel(k, n).GetData()
}

func X_KeltnerChannel_signal(k *klines.Item, n int) utils.SideData {
	Assume(n >= 1)
	return channel.NewKeltnerChannel(k, n).AnalysisSide()
}

func X_UlcerIndex(k *klines.Item, n int) []channel.UlcerIndexData {
	Assume(n >= 1)
	return channel.NewUlcerIndex(k, n).GetData()
}

func X_AbsolutePriceOscillator(k *klines.Item) []oscillator.AbsolutePriceOscillatorData {
	return oscillator.NewAbsolutePriceOscillator(k).GetData()
}

func X_AbsolutePriceOscillator_signal(k *klines.Item) utils.SideData {
	return oscillator.NewAbsolutePriceOscillator(k).AnalysisSide()
}

func X_AwesomeOscillator(k *klines.Item) []oscillator.AwesomeOscillatorData {
	return oscillator.NewAwesomeOscillator(k).GetData()
}

func X_AwesomeOscillator_signal(k *klines.Item) utils.SideData {
	return oscillator.NewAwesomeOscillator(k).AnalysisSide()
}

func X_Camarilla(k *klines.Item, n int) []*oscillator.CamarillaData {
	Assume(n >= 1)
	return oscillator.NewCamarilla(k, n).GetData()
}

func X_Camarilla_signal(k *klines.Item, n int) utils.SideData {
	Assume(n >= 1)
	return oscillator.NewCamarilla(k, n).AnalysisSide(k)
}

func X_ChaikinOscillator(k *klines.Item, f int, s0 int) []oscillator.ChaikinOscillatorData {
	Assume(f >= 1)
	Assume(s0 >= 1)
	return oscillator.NewChaikinOscillator(k, f, s0).GetData()
}

func X_ChaikinOscillator_signal(k *klines.Item, f int, s0 int) utils.SideData {
	Assume(f >= 1)
	Assume(s0 >= 1)
	return oscillator.NewChaikinOscillator(k, f, s0).AnalysisSide()
}

func X_IchimokuCloud(k *klines.Item, c0 int, b int, g int) []oscillator.IchimokuCloudData {
	Assume(c0 >= 1)
	Assume(b >= 1)
	Assume(g >= 1)
	return oscillator.NewIchimokuCloud(k, c0, b, g).GetData()
}

func X_IchimokuCloud_signal(k *klines.Item, c0 int, b int, g int) utils.SideData {
	Assume(c0 >= 1)
	Assume(b >= 1)
	Assume(g >= 1)
	return oscillator.NewIchimokuCloud(k, c0, b, g).AnalysisSide()
}

func X_PercentagePriceOscillator(k *klines.Item, f int, s0 int, g int) []oscillator.PercentagePriceOscillatorData {
	Assume(f >= 1)
	Assume(s0 >= 1)
	Assume(g >= 1)
	return oscillator.NewPercentagePriceOscillator(k, f, s0, g).GetData()
}

func X_PercentagePriceOscillator_signal(k *klines.Item, f int, s0 int, g int) utils.SideData {
	Assume(f >= 1)
	Assume(s0 >= 1)
	Assume(g >= 1)
	return oscillator.NewPercentagePriceOscillator(k, f, s0, g).AnalysisSide()
}

func X_ProjectionOscillator(k *klines.Item, n int, s0 int) []oscillator.ProjectionOscillatorData {
	Assume(n >= 1)
	Assume(s0 >= 1)
	return oscillator.NewProjectionOscillator(k, n, s0).GetData()
}

func X_ProjectionOscillator_signal(k *klines.Item, n int, s0 int) utils.SideData {
	Assume(n >= 1)
	Assume(s0 >= 1)
	return oscillator.NewProjectionOscillator(k, n, s0).AnalysisSide()
}

func X_StochasticOscillator(k *klines.Item, n int) []oscillator.StochasticOscillatorData {
	Assume(n >= 1)
	return oscillator.NewStochasticOscillator(k, n).GetData()
}

func X_StochasticOscillator_signal(k *klines.Item, n int) utils.SideData {
	Assume(n >= 1)
	return oscillator.NewStochasticOscillator(k, n).AnalysisSide()
}

func X_VolumeOscillator(k *klines.Item, s0 int, g int) []oscillator.VolumeOscillatorData {
	Assume(s0 >= 1)
	Assume(g >= 1)
	return oscillator.NewVolumeOscillator(k, s0, g).GetData()
}

func X_WilliamsR(k *klines.Item, n int) []oscillator.WilliamsRData {
	Assume(n >= 1)
	return oscillator.NewWilliamsR(k, n).GetData()
}

func X_WilliamsR_signal(k *klines.Item, n int) utils.SideData {
	Assume(n >= 1)
	return oscillator.NewWilliamsR(k, n).AnalysisSide()
}

func X_AiCoinCCI(k *klines.Item, n int) []trend.AiCoinCCIData {
	Assume(n >= 1)
	return trend.NewAiCoinCCI(k, n).GetData()
}

func X_AiCoinCCI_signal(k *klines.Item, n int) utils.SideData {
	Assume(n >= 1)
	return trend.NewAiCoinCCI(k, n).AnalysisSide()
}

func X_Atr(k *klines.Item, n int) []trend.AtrData {
	Assume(n >= 1)
	return trend.NewAtr(k, n).GetData()
}

func X_AverageDirectionalIndex(k *klines.Item, n int, g int) []trend.AverageDirectionalIndexData {
	Assume(n >= 1)
	Assume(g >= 1)
	return trend.NewAverageDirectionalIndex(k, n, g).GetData()
}

//zz:thorough C08
func X_BreakoutProbability(k *klines.Item, q0 float64, n int) []trend.BreakoutProbabilityData {
	Assume(q0 > 0)
	Assume(n >= 1)
	return trend.NewBreakoutProbability(k, q0, n).GetData()
}

func X_Cci(k *klines.Item, n int, s0 int) []trend.CciData {
	Assume(n >= 1)
	Assume(s0 >= 1)
	return trend.NewCci(k, n, s0).GetData()
}

func X_Cci_signal(k *klines.Item, n int, s0 int) utils.SideData {
	Assume(n >= 1)
	Assume(s0 >= 1)
	return trend.NewCci(k, n, s0).AnalysisSide()
}

func X_Dema(k *klines.Item, n int) []*trend.DemaData {
	Assume(n >= 1)
	return trend.NewDema(k, n).GetData()
}

func X_EMAVegas(k *klines.Item, n int, s1 int, s2 int, g1 int, g2 int) []trend.EMAVegasData {
	Assume(n >= 1)
	Assume(s1 >= 1)
	Assume(s2 >= 1)
	Assume(g1 >= 1)
	Assume(g2 >= 1)
	return trend.NewEMAVegas(k, n, s1, s2, g1, g2).GetData()
}

func X_EMAVegas_signal(k *klines.Item, n int, s1 int, s2 int, g1 int, g2 int) utils.SideData {
	Assume(n >= 1)
	Assume(s1 >= 1)
	Assume(s2 >= 1)
	Assume(g1 >= 1)
	Assume(g2 >= 1)
	return trend.NewEMAVegas(k, n, s1, s2, g1, g2).AnalysisSide()
}

func X_Ema(k *klines.Item, n int) []trend.EmaData {
	Assume(n >= 1)
	return trend.NewEma(k, n).GetData()
}

func X_Kdj(k *klines.Item, n int) []trend.KdjData {
	Assume(n >= 1)
	return trend.NewKdj(k, n).GetData()
}

func X_Kdj_signal(k *klines.Item, n int) utils.SideData {
	Assume(n >= 1)
	return trend.NewKdj(k, n).AnalysisSide()
}

func X_LinearRegressionCandles(k *klines.Item, g int, n int, sma bool) []trend.LinearRegressionCandlesData {
	Assume(g >= 1)
	Assume(n >= 1)
	return trend.NewLinearRegressionCandles(k, g, n, sma).GetData()
}

func X_Ma(k *klines.Item, n int) []trend.MaData {
	Assume(n >= 1)
	return trend.NewMa(k, n).GetData()
}

func X_Macd(k *klines.Item, s0 int, g int, l int) []trend.MacdData {
	Assume(s0 >= 1)
	Assume(g >= 1)
	Assume(l >= 1)
	return trend.NewMacd(k, s0, g, l).GetData()
}

func X_Macd_signal(k *klines.Item, s0 int, g int, l int) utils.SideData {
	Assume(s0 >= 1)
	Assume(g >= 1)
	Assume(l >= 1)
	return trend.NewMacd(k, s0, g, l).AnalysisSide()
}

func X_PivotPointSuperTrend(k *klines.Item, n int, a0 int, w float64) []trend.PivotPointSuperTrendData {
	Assume(n >= 1)
	Assume(a0 >= 1)
	Assume(w > 0)
	return trend.NewPivotPointSuperTrend(k, n, a0, w).GetData()
}

func X_PivotPointSuperTrend_signal(k *klines.Item, n int, a0 int, w float64) utils.SideData {
	Assume(n >= 1)
	Assume(a0 >= 1)
	Assume(w > 0)
	return trend.NewPivotPointSuperTrend(k, n, a0, w).AnalysisSide()
}

func X_ReversalSignals(k *klines.Item) []trend.ReversalSignalsData {
	return trend.NewReversalSignals(k).GetData()
}

func X_Rma(k *klines.Item, n int) []trend.RmaData {
	Assume(n >= 1)
	return trend.NewRma(k, n).GetData()
}

func X_Rsi(k *klines.Item, n int) []trend.RsiData {
	Assume(n >= 1)
	return trend.NewRsi(k, n).GetData()
}

func X_Rsi_signal(k *klines.Item, n int) utils.SideData {
	Assume(n >= 1)
	return trend.NewRsi(k, n).AnalysisSide()
}

func X_Sma(k *klines.Item, n int) []trend.SmaData {
	Assume(n >= 1)
	return trend.NewSma(k, n).GetData()
}

func X_StochRsi(k *klines.Item, sk int, sd int, rl int, sl int) []trend.StochRsiData {
	Assume(sk >= 1)
	Assume(sd >= 1)
	Assume(rl >= 1)
	Assume(sl >= 1)
	return trend.NewStochRsi(k, sk, sd, rl, sl).GetData()
}

func X_StochRsi_signal(k *klines.Item, sk int, sd int, rl int, sl int) utils.SideData {
	Assume(sk >= 1)
	Assume(sd >= 1)
	Assume(rl >= 1)
	Assume(sl >= 1)
	return trend.NewStochRsi(k, sk, sd, rl, sl).AnalysisSide()
}

func X_StochasticHeat_EMA(k *klines.Item, inc int, sf int, ss int, pn int) []trend.StochasticHeatData {
	Assume(inc >= 1)
	Assume(sf >= 1)
	Assume(ss >= 1)
	Assume(pn >= 1)
	return trend.NewStochasticHeat(k, inc, sf, ss, pn, types.EMA).GetData()
}

func X_StochasticHeat_EMA_signal(k *klines.Item, inc int, sf int, ss int, pn int) utils.SideData {
	Assume(inc >= 1)
	Assume(sf >= 1)
	Assume(ss >= 1)
	Assume(pn >= 1)
	return trend.NewStochasticHeat(k, inc, sf, ss, pn, types.EMA).AnalysisSide()
}

func X_StochasticHeat_SMA(k *klines.Item, inc int, sf int, ss int, pn int) []trend.StochasticHeatData {
	Assume(inc >= 1)
	Assume(sf >= 1)
	Assume(ss >= 1)
	Assume(pn >= 1)
	return trend.NewStochasticHeat(k, inc, sf, ss, pn, types.SMA).GetData()
}

func X_StochasticHeat_SMA_signal(k *klines.Item, inc int, sf int, ss int, pn int) utils.SideData {
	Assume(inc >= 1)
	Assume(sf >= 1)
	Assume(ss >= 1)
	Assume(pn >= 1)
	return trend.NewStochasticHeat(k, inc, sf, ss, pn, types.SMA).AnalysisSide()
}

func X_StochasticHeat_WMA(k *klines.Item, inc int, sf int, ss int, pn int) []trend.StochasticHeatData {
	Assume(inc >= 1)
	Assume(sf >= 1)
	Assume(ss >= 1)
	Assume(pn >= 1)
	return trend.NewStochasticHeat(k, inc, sf, ss, pn, types.WMA).GetData()
}

func X_StochasticHeat_WMA_signal(k *klines.Item, inc int, sf int, ss int, pn int) utils.SideData {
	Assume(inc >= 1)
	Assume(sf >= 1)
	Assume(ss >= 1)
	Assume(pn >= 1)
	return trend.NewStochasticHeat(k, inc, sf, ss, pn, types.WMA).AnalysisSide()
}

func X_SuperTrend(k *klines.Item, a0 int, w int, ch bool) []trend.SuperTrendData {
	Assume(a0 >= 1)
	Assume(w >= 1)
	return trend.NewSuperTrend(k, a0, w, ch).GetData()
}

func X_SuperTrend_signal(k *klines.Item, a0 int, w int, ch bool) utils.SideData {
	Assume(a0 >= 1)
	Assume(w >= 1)
	return trend.NewSuperTrend(k, a0, w, ch).AnalysisSide()
}

func X_TraderXO(k *klines.Item, f int, s0 int) []trend.TraderXOData {
	Assume(f >= 1)
	Assume(s0 >= 1)
	return trend.NewTraderXO(k, f, s0).GetData()
}

func X_TraderXO_signal(k *klines.Item, f int, s0 int) utils.SideData {
	Assume(f >= 1)
	Assume(s0 >= 1)
	return trend.NewTraderXO(k, f, s0).AnalysisSide()
}

func X_UTBot(k *klines.Item, n int, a0 int) []trend.UTBotData {
	Assume(n >= 1)
	Assume(a0 >= 1)
	return trend.NewUTBot(k, n, a0).GetData()
}

func X_UTBot_signal(k *klines.Item, n int, a0 int) utils.SideData {
	Assume(n >= 1)
	Assume(a0 >= 1)
	return trend.NewUTBot(k, n, a0).AnalysisSide()
}

func X_Vortex(k *klines.Item, n int) []trend.VortexData {
	Assume(n >= 1)
	return trend.NewVortex(k, n).GetData()
}

func X_AccumulationDistribution(k *klines.Item) []volume.AccumulationDistributionData {
	return volume.NewAccumulationDistribution(k).GetData()
}

func X_ChaikinMoneyFlow(k *klines.Item, n int) []volume.ChaikinMoneyFlowData {
	Assume(n >= 1)
	return volume.NewChaikinMoneyFlow(k, n).GetData()
}

func X_EaseOfMovement(k *klines.Item, n int) []volume.EaseOfMovementData {
	Assume(n >= 1)
	return volume.NewEaseOfMovement(k, n).GetData()
}

func X_ForceIndex(k *klines.Item, n int) []volume.ForceIndexData {
	Assume(n >= 1)
	return volume.NewForceIndex(k, n).GetData()
}

func X_MoneyFlowIndex(k *klines.Item, n int) []volume.MoneyFlowIndexData {
	Assume(n >= 1)
	return volume.NewMoneyFlowIndex(k, n).GetData()
}

func X_MoneyFlowIndex_signal(k *klines.Item, n int) utils.SideData {
	Assume(n >= 1)
	return volume.NewMoneyFlowIndex(k, n).AnalysisSide()
}

func X_NegativeVolumeIndex(k *klines.Item) []volume.NegativeVolumeIndexData {
	return volume.NewNegativeVolumeIndex(k).GetData()
}

func X_Obv(k *klines.Item) []volume.ObvData {
	return volume.NewObv(k).GetData()
}

func X_VolumePriceTrend(k *klines.Item, n int) []volume.VolumePriceTrendData {
	Assume(n >= 1)
	return volume.NewVolumePriceTrend(k, n).GetData()
}

func X_Vwma(k *klines.Item, n int) []volume.VwmaData {
	Assume(n >= 1)
	return volume.NewVwma(k, n).GetData()
}

func X_StochasticOscillator_GetValues(k *klines.Item, n int) ([]float64, []float64) {
	Assume(n >= 1)
	return oscillator.NewStochasticOscillator(k, n).GetValues()
}

func X_VolumeOscillator_GetValues(k *klines.Item, s0 int, g int) []float64 {
	Assume(s0 >= 1)
	Assume(g >= 1)
	return oscillator.NewVolumeOscillator(k, s0, g).GetValues()
}

func X_AiCoinCCI_GetValue(k *klines.Item, n int) []float64 {
	Assume(n >= 1)
	return trend.NewAiCoinCCI(k, n).GetValue()
}

func X_Atr_GetValues(k *klines.Item, n int) ([]float64, []float64) {
	Assume(n >= 1)
	return trend.NewAtr(k, n).GetValues()
}

func X_Cci_GetValue(k *klines.Item, n int, s0 int) []float64 {
	Assume(n >= 1)
	Assume(s0 >= 1)
	return trend.NewCci(k, n, s0).GetValue()
}

func X_Dema_GetValues(k *klines.Item, n int) []float64 {
	Assume(n >= 1)
	return trend.NewDema(k, n).GetValues()
}

func X_Ema_GetValues(k *klines.Item, n int) []float64 {
	Assume(n >= 1)
	return trend.NewEma(k, n).GetValues()
}

func X_Kdj_GetListK(k *klines.Item, n int) []float64 {
	Assume(n >= 1)
	return trend.NewKdj(k, n).GetListK()
}

func X_Kdj_GetListD(k *klines.Item, n int) []float64 {
	Assume(n >= 1)
	return trend.NewKdj(k, n).GetListD()
}

func X_Kdj_GetListJ(k *klines.Item, n int) []float64 {
	Assume(n >= 1)
	return trend.NewKdj(k, n).GetListJ()
}

func X_LinearRegressionCandles_GetValues(k *klines.Item, g int, n int, sma bool) []float64 {
	Assume(g >= 1)
	Assume(n >= 1)
	return trend.NewLinearRegressionCandles(k, g, n, sma).GetValues()
}

func X_Macd_GetDifs(k *klines.Item, s0 int, g int, l int) []float64 {
	Assume(s0 >= 1)
	Assume(g >= 1)
	Assume(l >= 1)
	return trend.NewMacd(k, s0, g, l).GetDifs()
}

func X_Macd_GetMACDs(k *klines.Item, s0 int, g int, l int) []float64 {
	Assume(s0 >= 1)
	Assume(g >= 1)
	Assume(l >= 1)
	return trend.NewMacd(k, s0, g, l).GetMACDs()
}

func X_PivotPointSuperTrend_GetValues(k *klines.Item, n int, a0 int, w float64) ([]float64, []float64) {
	Assume(n >= 1)
	Assume(a0 >= 1)
	Assume(w > 0)
	return trend.NewPivotPointSuperTrend(k, n, a0, w).GetValues()
}

func X_Rsi_GetValue(k *klines.Item, n int) []float64 {
	Assume(n >= 1)
	return trend.NewRsi(k, n).GetValue()
}

func X_Sma_GetValues(k *klines.Item, n int) []float64 {
	Assume(n >= 1)
	return trend.NewSma(k, n).GetValues()
}

func X_SuperTrend_GetValues(k *klines.Item, a0 int, w int, ch bool) ([]float64, []float64) {
	Assume(a0 >= 1)
	Assume(w >= 1)
	return trend.NewSuperTrend(k, a0, w, ch).GetValues()
}

func X_TraderXO_GetValues(k *klines.Item, f int, s0 int) ([]float64, []float64) {
	Assume(f >= 1)
	Assume(s0 >= 1)
	return trend.NewTraderXO(k, f, s0).GetValues()
}

func X_UTBot_GetValues(k *klines.Item, n int, a0 int) []float64 {
	Assume(n >= 1)
	Assume(a0 >= 1)
	return trend.NewUTBot(k, n, a0).GetValues()
}

func X_AccumulationDistribution_GetValues(k *klines.Item) []float64 {
	return volume.NewAccumulationDistribution(k).GetValues()
}
