// Code generated by tools/mkspec.py. DO NOT EDIT.

package zzverif

import (
	"github.com/idoall/stockindicator/channel"
	"github.com/idoall/stockindicator/oscillator"
	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/utils/types"
	"github.com/idoall/stockindicator/volume"
)

func C09_Boll_default(k *klines.Item) (name, wantName string, data, wantData []channel.BollData) {
	a := channel.NewDefaultBoll(k)
	b := channel.NewBoll(k, 20, 2)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_Boll_defaultFields(k *klines.Item) (p0, want0 int, p1, want1 int) {
	a := channel.NewDefaultBoll(k)
	return a.PeriodN, 20, a.PeriodK, 2
}

func C09_Boll_fields(k *klines.Item, n int, w int) (p0, want0 int, p1, want1 int) {
	e := channel.NewBoll(k, n, w)
	return e.PeriodN, n, e.PeriodK, w
}

func C09_DonchianChannel_default(k *klines.Item) (name, wantName string, data, wantData []channel.DonchianChannelData) {
	a := channel.NewDefaultDonchianChannel(k)
	b := channel.NewDonchianChannel(k, 20)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_DonchianChannel_defaultFields(k *klines.Item) (p0, want0 int) {
	a := channel.NewDefaultDonchianChannel(k)
	return a.Period, 20
}

func C09_DonchianChannel_fields(k *klines.Item, n int) (p0, want0 int) {
	e := channel.NewDonchianChannel(k, n)
	return e.Period, n
}

func C09_KeltnerChannel_default(k *klines.Item) (name, wantName string, data, wantData []channel.KeltnerChannelData) {
	a := channel.NewDefaultKeltnerChannel(k)
	b := channel.NewKeltnerChannel(k, 20)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_KeltnerChannel_defaultFields(k *klines.Item) (p0, want0 int) {
	a := channel.NewDefaultKeltnerChannel(k)
	return a.Period, 20
}

func C09_KeltnerChannel_fields(k *klines.Item, n int) (p0, want0 int) {
	e := channel.NewKeltnerChannel(k, n)
	return e.Period, n
}

func C09_UlcerIndex_default(k *klines.Item) (name, wantName string, data, wantData []channel.UlcerIndexData) {
	a := channel.NewDefaultUlcerIndex(k)
	b := channel.NewUlcerIndex(k, 14)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_UlcerIndex_defaultFields(k *klines.Item) (p0, want0 int) {
	a := channel.NewDefaultUlcerIndex(k)
	return a.Period, 14
}

func C09_UlcerIndex_fields(k *klines.Item, n int) (p0, want0 int) {
	e := channel.NewUlcerIndex(k, n)
	return e.Period, n
}

func C09_AbsolutePriceOscillator_fields(k *klines.Item) (p0, want0 int, p1, want1 int) {
	e := oscillator.NewAbsolutePriceOscillator(k)
	return e.FastPeriod, 14, e.SlowPeriod, 30
}

func C09_Camarilla_default(k *klines.Item) (name, wantName string, data, wantData []*oscillator.CamarillaData) {
	a := oscillator.NewDefaultCamarilla(k)
	b := oscillator.NewCamarilla(k, 8)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_Camarilla_defaultFields(k *klines.Item) (p0, want0 int) {
	a := oscillator.NewDefaultCamarilla(k)
	return a.EMAPeriod, 8
}

func C09_Camarilla_fields(k *klines.Item, n int) (p0, want0 int) {
	e := oscillator.NewCamarilla(k, n)
	return e.EMAPeriod, n
}

func C09_ChaikinOscillator_default(k *klines.Item) (name, wantName string, data, wantData []oscillator.ChaikinOscillatorData) {
	a := oscillator.NewDefaultChaikinOscillator(k)
	b := oscillator.NewChaikinOscillator(k, 3, 10)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_ChaikinOscillator_defaultFields(k *klines.Item) (p0, want0 int, p1, want1 int) {
	a := oscillator.NewDefaultChaikinOscillator(k)
	return a.FastPeriod, 3, a.SlowPeriod, 10
}

func C09_ChaikinOscillator_fields(k *klines.Item, f int, s0 int) (p0, want0 int, p1, want1 int) {
	e := oscillator.NewChaikinOscillator(k, f, s0)
	return e.FastPeriod, f, e.SlowPeriod, s0
}

func C09_IchimokuCloud_default(k *klines.Item) (name, wantName string, data, wantData []oscillator.IchimokuCloudData) {
	a := oscillator.NewDefaultIchimokuCloud(k)
	b := oscillator.NewIchimokuCloud(k, 20, 60, 120)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_IchimokuCloud_defaultFields(k *klines.Item) (p0, want0 int, p1, want1 int, p2, want2 int) {
	a := oscillator.NewDefaultIchimokuCloud(k)
	return a.ConversionPeriod, 20, a.LeadingSpanBPeriod, 60, a.LaggingLinePeriod, 120
}

func C09_IchimokuCloud_fields(k *klines.Item, c0 int, b int, g int) (p0, want0 int, p1, want1 int, p2, want2 int) {
	e := oscillator.NewIchimokuCloud(k, c0, b, g)
	return e.ConversionPeriod, c0, e.LeadingSpanBPeriod, b, e.LaggingLinePeriod, g
}

func C09_PercentagePriceOscillator_default(k *klines.Item) (name, wantName string, data, wantData []oscillator.PercentagePriceOscillatorData) {
	a := oscillator.NewDefaultPercentagePriceOscillator(k)
	b := oscillator.NewPercentagePriceOscillator(k, 12, 26, 9)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_PercentagePriceOscillator_defaultFields(k *klines.Item) (p0, want0 int, p1, want1 int, p2, want2 int) {
	a := oscillator.NewDefaultPercentagePriceOscillator(k)
	return a.FastPeriod, 12, a.SlowPeriod, 26, a.SignalPeriod, 9
}

func C09_PercentagePriceOscillator_fields(k *klines.Item, f int, s0 int, g int) (p0, want0 int, p1, want1 int, p2, want2 int) {
	e := oscillator.NewPercentagePriceOscillator(k, f, s0, g)
	return e.FastPeriod, f, e.SlowPeriod, s0, e.SignalPeriod, g
}

func C09_ProjectionOscillator_default(k *klines.Item) (name, wantName string, data, wantData []oscillator.ProjectionOscillatorData) {
	a := oscillator.NewDefaultProjectionOscillator(k)
	b := oscillator.NewProjectionOscillator(k, 13, 3)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_ProjectionOscillator_defaultFields(k *klines.Item) (p0, want0 int, p1, want1 int) {
	a := oscillator.NewDefaultProjectionOscillator(k)
	return a.Period, 13, a.Smooth, 3
}

func C09_ProjectionOscillator_fields(k *klines.Item, n int, s0 int) (p0, want0 int, p1, want1 int) {
	e := oscillator.NewProjectionOscillator(k, n, s0)
	return e.Period, n, e.Smooth, s0
}

func C09_StochasticOscillator_default(k *klines.Item) (name, wantName string, data, wantData []oscillator.StochasticOscillatorData) {
	a := oscillator.NewDefaultStochasticOscillator(k)
	b := oscillator.NewStochasticOscillator(k, 14)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_StochasticOscillator_defaultFields(k *klines.Item) (p0, want0 int) {
	a := oscillator.NewDefaultStochasticOscillator(k)
	return a.Period, 14
}

func C09_StochasticOscillator_fields(k *klines.Item, n int) (p0, want0 int) {
	e := oscillator.NewStochasticOscillator(k, n)
	return e.Period, n
}

func C09_VolumeOscillator_default(k *klines.Item) (name, wantName string, data, wantData []oscillator.VolumeOscillatorData) {
	a := oscillator.NewDefaultVolumeOscillator(k)
	b := oscillator.NewVolumeOscillator(k, 5, 10)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_VolumeOscillator_defaultFields(k *klines.Item) (p0, want0 int, p1, want1 int) {
	a := oscillator.NewDefaultVolumeOscillator(k)
	return a.ShortLength, 5, a.LongLength, 10
}

func C09_VolumeOscillator_fields(k *klines.Item, s0 int, g int) (p0, want0 int, p1, want1 int) {
	e := oscillator.NewVolumeOscillator(k, s0, g)
	return e.ShortLength, s0, e.LongLength, g
}

func C09_WilliamsR_default(k *klines.Item) (name, wantName string, data, wantData []oscillator.WilliamsRData) {
	a := oscillator.NewDefaultWilliamsR(k)
	b := oscillator.NewWilliamsR(k, 14)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_WilliamsR_defaultFields(k *klines.Item) (p0, want0 int) {
	a := oscillator.NewDefaultWilliamsR(k)
	return a.Period, 14
}

func C09_WilliamsR_fields(k *klines.Item, n int) (p0, want0 int) {
	e := oscillator.NewWilliamsR(k, n)
	return e.Period, n
}

func C09_AiCoinCCI_default(k *klines.Item) (name, wantName string, data, wantData []trend.AiCoinCCIData) {
	a := trend.NewDefaultAiCoinCCI(k)
	b := trend.NewAiCoinCCI(k, 20)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_AiCoinCCI_defaultFields(k *klines.Item) (p0, want0 int) {
	a := trend.NewDefaultAiCoinCCI(k)
	return a.Period, 20
}

func C09_AiCoinCCI_fields(k *klines.Item, n int) (p0, want0 int) {
	e := trend.NewAiCoinCCI(k, n)
	return e.Period, n
}

func C09_Atr_default(k *klines.Item) (name, wantName string, data, wantData []trend.AtrData) {
	a := trend.NewDefaultAtr(k)
	b := trend.NewAtr(k, 14)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_Atr_defaultFields(k *klines.Item) (p0, want0 int) {
	a := trend.NewDefaultAtr(k)
	return a.Period, 14
}

func C09_Atr_fields(k *klines.Item, n int) (p0, want0 int) {
	e := trend.NewAtr(k, n)
	return e.Period, n
}

func C09_AverageDirectionalIndex_default(k *klines.Item) (name, wantName string, data, wantData []trend.AverageDirectionalIndexData) {
	a := trend.NewDefaultAverageDirectionalIndex(k)
	b := trend.NewAverageDirectionalIndex(k, 30, 14)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_AverageDirectionalIndex_defaultFields(k *klines.Item) (p0, want0 int, p1, want1 int) {
	a := trend.NewDefaultAverageDirectionalIndex(k)
	return a.Period, 30, a.Len, 14
}

func C09_AverageDirectionalIndex_ohlc(k *klines.Item, n int, g int) (name, wantName string, data, wantData []trend.AverageDirectionalIndexData) {
	Assume(n >= 1)
	Assume(g >= 1)
	a, b := trend.NewAverageDirectionalIndexOHLC(k.GetOHLC(), n, g), trend.NewAverageDirectionalIndex(k, n, g)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_AverageDirectionalIndex_fields(k *klines.Item, n int, g int) (p0, want0 int, p1, want1 int) {
	e := trend.NewAverageDirectionalIndex(k, n, g)
	return e.Period, n, e.Len, g
}

func C09_AverageDirectionalIndex_ohlcFields(k *klines.Item, n int, g int) (p0, want0 int, p1, want1 int) {
	e := trend.NewAverageDirectionalIndexOHLC(k.GetOHLC(), n, g)
	return e.Period, n, e.Len, g
}

func C09_BreakoutProbability_default(k *klines.Item) (name, wantName string, data, wantData trend.BreakoutProbability) {
	a := trend.NewDefaultBreakoutProbability(k)
	b := trend.NewBreakoutProbability(k, 1.2, 5)
	return a.Name, b.Name, *a, *b
}

func C09_BreakoutProbability_defaultFields(k *klines.Item) (p0, want0 float64, p1, want1 int) {
	a := trend.NewDefaultBreakoutProbability(k)
	return a.PercentageStep, 1.2, a.NumberOfLines, 5
}

func C09_BreakoutProbability_ohlc(k *klines.Item, q0 float64, n int) (name, wantName string, data, wantData trend.BreakoutProbability) {
	Assume(q0 > 0)
	Assume(n >= 1)
	a, b := trend.NewBreakoutProbabilityOHLC(k.GetOHLC(), q0, n), trend.NewBreakoutProbability(k, q0, n)
	return a.Name, b.Name, *a, *b
}

func C09_BreakoutProbability_fields(k *klines.Item, q0 float64, n int) (p0, want0 float64, lines, wantLines int) {
	e := trend.NewBreakoutProbability(k, q0, n)
	return e.PercentageStep, q0, e.NumberOfLines, min(max(n, 1), 5)
}

func C09_BreakoutProbability_ohlcFields(k *klines.Item, q0 float64, n int) (p0, want0 float64, lines, wantLines int) {
	e := trend.NewBreakoutProbabilityOHLC(k.GetOHLC(), q0, n)
	return e.PercentageStep, q0, e.NumberOfLines, min(max(n, 1), 5)
}

func C09_Cci_default(k *klines.Item) (name, wantName string, data, wantData []trend.CciData) {
	a := trend.NewDefaultCci(k)
	b := trend.NewCci(k, 20, 20)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_Cci_defaultFields(k *klines.Item) (p0, want0 int, p1, want1 int) {
	a := trend.NewDefaultCci(k)
	return a.Period, 20, a.SMAPeriod, 20
}

func C09_Cci_fields(k *klines.Item, n int, s0 int) (p0, want0 int, p1, want1 int) {
	e := trend.NewCci(k, n, s0)
	return e.Period, n, e.SMAPeriod, s0
}

func C09_Dema_default(k *klines.Item) (name, wantName string, data, wantData []*trend.DemaData) {
	a := trend.NewDefaultDema(k)
	b := trend.NewDema(k, 20)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_Dema_defaultFields(k *klines.Item) (p0, want0 int) {
	a := trend.NewDefaultDema(k)
	return a.Period, 20
}

func C09_Dema_ohlc(k *klines.Item, n int) (name, wantName string, data, wantData []*trend.DemaData) {
	Assume(n >= 1)
	a, b := trend.NewDemaOHLC(k.GetOHLC(), n), trend.NewDema(k, n)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_Dema_fields(k *klines.Item, n int) (p0, want0 int) {
	e := trend.NewDema(k, n)
	return e.Period, n
}

func C09_Dema_ohlcFields(k *klines.Item, n int) (p0, want0 int) {
	e := trend.NewDemaOHLC(k.GetOHLC(), n)
	return e.Period, n
}

func C09_EMAVegas_default(k *klines.Item) (name, wantName string, data, wantData []trend.EMAVegasData) {
	a := trend.NewDefaultEMAVegas(k)
	b := trend.NewEMAVegas(k, 12, 144, 169, 575, 676)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_EMAVegas_defaultFields(k *klines.Item) (p0, want0 int, p1, want1 int, p2, want2 int, p3, want3 int, p4, want4 int) {
	a := trend.NewDefaultEMAVegas(k)
	return a.Period, 12, a.PeriodShort1, 144, a.PeriodShort2, 169, a.PeriodLong1, 575, a.PeriodLong2, 676
}

func C09_EMAVegas_ohlc(k *klines.Item, n int, s1 int, s2 int, g1 int, g2 int) (name, wantName string, data, wantData []trend.EMAVegasData) {
	Assume(n >= 1)
	Assume(s1 >= 1)
	Assume(s2 >= 1)
	Assume(g1 >= 1)
	Assume(g2 >= 1)
	a, b := trend.NewEMAVegasOHLC(k.GetOHLC(), n, s1, s2, g1, g2), trend.NewEMAVegas(k, n, s1, s2, g1, g2)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_EMAVegas_fields(k *klines.Item, n int, s1 int, s2 int, g1 int, g2 int) (p0, want0 int, p1, want1 int, p2, want2 int, p3, want3 int, p4, want4 int) {
	e := trend.NewEMAVegas(k, n, s1, s2, g1, g2)
	return e.Period, n, e.PeriodShort1, s1, e.PeriodShort2, s2, e.PeriodLong1, g1, e.PeriodLong2, g2
}

func C09_EMAVegas_ohlcFields(k *klines.Item, n int, s1 int, s2 int, g1 int, g2 int) (p0, want0 int, p1, want1 int, p2, want2 int, p3, want3 int, p4, want4 int) {
	e := trend.NewEMAVegasOHLC(k.GetOHLC(), n, s1, s2, g1, g2)
	return e.Period, n, e.PeriodShort1, s1, e.PeriodShort2, s2, e.PeriodLong1, g1, e.PeriodLong2, g2
}

func C09_Ema_default(k *klines.Item) (name, wantName string, data, wantData []trend.EmaData) {
	a := trend.NewDefaultEma(k)
	b := trend.NewEma(k, 5)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_Ema_defaultFields(k *klines.Item) (p0, want0 int) {
	a := trend.NewDefaultEma(k)
	return a.Period, 5
}

func C09_Ema_fields(k *klines.Item, n int) (p0, want0 int) {
	e := trend.NewEma(k, n)
	return e.Period, n
}

func C09_Kdj_default(k *klines.Item) (name, wantName string, data, wantData []trend.KdjData) {
	a := trend.NewDefaultKdj(k)
	b := trend.NewKdj(k, 9)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_Kdj_defaultFields(k *klines.Item) (p0, want0 int) {
	a := trend.NewDefaultKdj(k)
	return a.Period, 9
}

func C09_Kdj_fields(k *klines.Item, n int) (p0, want0 int) {
	e := trend.NewKdj(k, n)
	return e.Period, n
}

func C09_LinearRegressionCandles_default(k *klines.Item) (name, wantName string, data, wantData []trend.LinearRegressionCandlesData) {
	a := trend.NewDefaultLinearRegressionCandles(k)
	b := trend.NewLinearRegressionCandles(k, 7, 11, true)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_LinearRegressionCandles_defaultFields(k *klines.Item) (p0, want0 int, p1, want1 int, p2, want2 bool) {
	a := trend.NewDefaultLinearRegressionCandles(k)
	return a.SignalSmoothing, 7, a.LinearRegressionLength, 11, a.SMASignal, true
}

func C09_LinearRegressionCandles_ohlc(k *klines.Item, g int, n int, sma bool) (name, wantName string, data, wantData []trend.LinearRegressionCandlesData) {
	Assume(g >= 1)
	Assume(n >= 1)
	a, b := trend.NewLinearRegressionCandlesOHLC(k.GetOHLC(), g, n, sma), trend.NewLinearRegressionCandles(k, g, n, sma)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_LinearRegressionCandles_fields(k *klines.Item, g int, n int, sma bool) (p0, want0 int, p1, want1 int, p2, want2 bool) {
	e := trend.NewLinearRegressionCandles(k, g, n, sma)
	return e.SignalSmoothing, g, e.LinearRegressionLength, n, e.SMASignal, sma
}

func C09_LinearRegressionCandles_ohlcFields(k *klines.Item, g int, n int, sma bool) (p0, want0 int, p1, want1 int, p2, want2 bool) {
	e := trend.NewLinearRegressionCandlesOHLC(k.GetOHLC(), g, n, sma)
	return e.SignalSmoothing, g, e.LinearRegressionLength, n, e.SMASignal, sma
}

func C09_Ma_default(k *klines.Item) (name, wantName string, data, wantData []trend.MaData) {
	a := trend.NewDefaultMa(k)
	b := trend.NewMa(k, 20)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_Ma_defaultFields(k *klines.Item) (p0, want0 int) {
	a := trend.NewDefaultMa(k)
	return a.Period, 20
}

func C09_Ma_fields(k *klines.Item, n int) (p0, want0 int) {
	e := trend.NewMa(k, n)
	return e.Period, n
}

func C09_Macd_default(k *klines.Item) (name, wantName string, data, wantData []trend.MacdData) {
	a := trend.NewDefaultMacd(k)
	b := trend.NewMacd(k, 12, 9, 26)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_Macd_defaultFields(k *klines.Item) (p0, want0 int, p1, want1 int, p2, want2 int) {
	a := trend.NewDefaultMacd(k)
	return a.PeriodShort, 12, a.PeriodSignal, 9, a.PeriodLong, 26
}

func C09_Macd_fields(k *klines.Item, s0 int, g int, l int) (p0, want0 int, p1, want1 int, p2, want2 int) {
	e := trend.NewMacd(k, s0, g, l)
	return e.PeriodShort, s0, e.PeriodSignal, g, e.PeriodLong, l
}

func C09_PivotPointSuperTrend_default(k *klines.Item) (name, wantName string, data, wantData []trend.PivotPointSuperTrendData) {
	a := trend.NewDefaultPivotPointSuperTrend(k)
	b := trend.NewPivotPointSuperTrend(k, 3, 8, 2.8)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_PivotPointSuperTrend_defaultFields(k *klines.Item) (p0, want0 int, p1, want1 int, p2, want2 float64) {
	a := trend.NewDefaultPivotPointSuperTrend(k)
	return a.Period, 3, a.AtrPeriod, 8, a.AtrFactor, 2.8
}

func C09_PivotPointSuperTrend_ohlc(k *klines.Item, n int, a0 int, w float64) (name, wantName string, data, wantData []trend.PivotPointSuperTrendData) {
	Assume(n >= 1)
	Assume(a0 >= 1)
	Assume(w > 0)
	a, b := trend.NewPivotPointSuperTrendOHLC(k.GetOHLC(), n, a0, w), trend.NewPivotPointSuperTrend(k, n, a0, w)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_PivotPointSuperTrend_fields(k *klines.Item, n int, a0 int, w float64) (p0, want0 int, p1, want1 int, p2, want2 float64) {
	e := trend.NewPivotPointSuperTrend(k, n, a0, w)
	return e.Period, n, e.AtrPeriod, a0, e.AtrFactor, w
}

func C09_PivotPointSuperTrend_ohlcFields(k *klines.Item, n int, a0 int, w float64) (p0, want0 int, p1, want1 int, p2, want2 float64) {
	e := trend.NewPivotPointSuperTrendOHLC(k.GetOHLC(), n, a0, w)
	return e.Period, n, e.AtrPeriod, a0, e.AtrFactor, w
}

func C09_Rma_default(k *klines.Item) (name, wantName string, data, wantData []trend.RmaData) {
	a := trend.NewDefaultRma(k)
	b := trend.NewRma(k, 13)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_Rma_defaultFields(k *klines.Item) (p0, want0 int) {
	a := trend.NewDefaultRma(k)
	return a.Period, 13
}

func C09_Rma_fields(k *klines.Item, n int) (p0, want0 int) {
	e := trend.NewRma(k, n)
	return e.Period, n
}

func C09_Rsi_default(k *klines.Item) (name, wantName string, data, wantData []trend.RsiData) {
	a := trend.NewDefaultRsi(k)
	b := trend.NewRsi(k, 14)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_Rsi_defaultFields(k *klines.Item) (p0, want0 int) {
	a := trend.NewDefaultRsi(k)
	return a.Period, 14
}

func C09_Rsi_fields(k *klines.Item, n int) (p0, want0 int) {
	e := trend.NewRsi(k, n)
	return e.Period, n
}

func C09_Sma_default(k *klines.Item) (name, wantName string, data, wantData []trend.SmaData) {
	a := trend.NewDefaultSma(k)
	b := trend.NewSma(k, 9)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_Sma_defaultFields(k *klines.Item) (p0, want0 int) {
	a := trend.NewDefaultSma(k)
	return a.Period, 9
}

func C09_Sma_fields(k *klines.Item, n int) (p0, want0 int) {
	e := trend.NewSma(k, n)
	return e.Period, n
}

func C09_StochRsi_default(k *klines.Item) (name, wantName string, data, wantData []trend.StochRsiData) {
	a := trend.NewDefaultStochRsi(k)
	b := trend.NewStochRsi(k, 3, 3, 14, 14)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_StochRsi_defaultFields(k *klines.Item) (p0, want0 int, p1, want1 int, p2, want2 int, p3, want3 int) {
	a := trend.NewDefaultStochRsi(k)
	return a.SmoothK, 3, a.SmoothD, 3, a.RsiLength, 14, a.StochLength, 14
}

func C09_StochRsi_fields(k *klines.Item, sk int, sd int, rl int, sl int) (p0, want0 int, p1, want1 int, p2, want2 int, p3, want3 int) {
	e := trend.NewStochRsi(k, sk, sd, rl, sl)
	return e.SmoothK, sk, e.SmoothD, sd, e.RsiLength, rl, e.StochLength, sl
}

func C09_StochasticHeat_EMA_fields(k *klines.Item, inc int, sf int, ss int, pn int) (p0, want0 int, p1, want1 int, p2, want2 int, p3, want3 int, p4, want4 types.MATypes) {
	e := trend.NewStochasticHeat(k, inc, sf, ss, pn, types.EMA)
	return e.Increment, inc, e.SmoothFast, sf, e.SmoothSlow, ss, e.PlotNum, pn, e.MATypes, types.EMA
}

func C09_StochasticHeat_SMA_fields(k *klines.Item, inc int, sf int, ss int, pn int) (p0, want0 int, p1, want1 int, p2, want2 int, p3, want3 int, p4, want4 types.MATypes) {
	e := trend.NewStochasticHeat(k, inc, sf, ss, pn, types.SMA)
	return e.Increment, inc, e.SmoothFast, sf, e.SmoothSlow, ss, e.PlotNum, pn, e.MATypes, types.SMA
}

func C09_StochasticHeat_WMA_default(k *klines.Item) (name, wantName string, data, wantData []trend.StochasticHeatData) {
	a := trend.NewDefaultStochasticHeat(k)
	b := trend.NewStochasticHeat(k, 8, 7, 26, 25, types.WMA)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_StochasticHeat_WMA_defaultFields(k *klines.Item) (p0, want0 int, p1, want1 int, p2, want2 int, p3, want3 int, p4, want4 types.MATypes) {
	a := trend.NewDefaultStochasticHeat(k)
	return a.Increment, 8, a.SmoothFast, 7, a.SmoothSlow, 26, a.PlotNum, 25, a.MATypes, types.WMA
}

func C09_StochasticHeat_WMA_fields(k *klines.Item, inc int, sf int, ss int, pn int) (p0, want0 int, p1, want1 int, p2, want2 int, p3, want3 int, p4, want4 types.MATypes) {
	e := trend.NewStochasticHeat(k, inc, sf, ss, pn, types.WMA)
	return e.Increment, inc, e.SmoothFast, sf, e.SmoothSlow, ss, e.PlotNum, pn, e.MATypes, types.WMA
}

func C09_SuperTrend_default(k *klines.Item) (name, wantName string, data, wantData []trend.SuperTrendData) {
	a := trend.NewDefaultSuperTrend(k)
	b := trend.NewSuperTrend(k, 10, 3, true)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_SuperTrend_defaultFields(k *klines.Item) (p0, want0 int, p1, want1 int, p2, want2 bool) {
	a := trend.NewDefaultSuperTrend(k)
	return a.AtrPeriod, 10, a.AtrMultiplier, 3, a.ChangeAtr, true
}

func C09_SuperTrend_ohlc(k *klines.Item, a0 int, w int, ch bool) (name, wantName string, data, wantData []trend.SuperTrendData) {
	Assume(a0 >= 1)
	Assume(w >= 1)
	a, b := trend.NewSuperTrendOHLC(k.GetOHLC(), k.HL2(), a0, w, ch), trend.NewSuperTrend(k, a0, w, ch)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_SuperTrend_fields(k *klines.Item, a0 int, w int, ch bool) (p0, want0 int, p1, want1 int, p2, want2 bool) {
	e := trend.NewSuperTrend(k, a0, w, ch)
	return e.AtrPeriod, a0, e.AtrMultiplier, w, e.ChangeAtr, ch
}

func C09_SuperTrend_ohlcFields(k *klines.Item, a0 int, w int, ch bool) (p0, want0 int, p1, want1 int, p2, want2 bool) {
	e := trend.NewSuperTrendOHLC(k.GetOHLC(), k.HL2(), a0, w, ch)
	return e.AtrPeriod, a0, e.AtrMultiplier, w, e.ChangeAtr, ch
}

func C09_TraderXO_default(k *klines.Item) (name, wantName string, data, wantData []trend.TraderXOData) {
	a := trend.NewDefaultTraderXO(k)
	b := trend.NewTraderXO(k, 12, 25)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_TraderXO_defaultFields(k *klines.Item) (p0, want0 int, p1, want1 int) {
	a := trend.NewDefaultTraderXO(k)
	return a.FastPeriod, 12, a.SlowPeriod, 25
}

func C09_TraderXO_ohlc(k *klines.Item, f int, s0 int) (name, wantName string, data, wantData []trend.TraderXOData) {
	Assume(f >= 1)
	Assume(s0 >= 1)
	a, b := trend.NewTraderXOOHLC(k.GetOHLC(), f, s0), trend.NewTraderXO(k, f, s0)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_TraderXO_fields(k *klines.Item, f int, s0 int) (p0, want0 int, p1, want1 int) {
	e := trend.NewTraderXO(k, f, s0)
	return e.FastPeriod, f, e.SlowPeriod, s0
}

func C09_TraderXO_ohlcFields(k *klines.Item, f int, s0 int) (p0, want0 int, p1, want1 int) {
	e := trend.NewTraderXOOHLC(k.GetOHLC(), f, s0)
	return e.FastPeriod, f, e.SlowPeriod, s0
}

func C09_UTBot_default(k *klines.Item) (name, wantName string, data, wantData []trend.UTBotData) {
	a := trend.NewDefaultUTBot(k)
	b := trend.NewUTBot(k, 2, 1)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_UTBot_defaultFields(k *klines.Item) (p0, want0 int, p1, want1 int) {
	a := trend.NewDefaultUTBot(k)
	return a.Period, 2, a.AtrPeriod, 1
}

func C09_UTBot_ohlc(k *klines.Item, n int, a0 int) (name, wantName string, data, wantData []trend.UTBotData) {
	Assume(n >= 1)
	Assume(a0 >= 1)
	a, b := trend.NewUTBotOHLC(k.GetOHLC(), n, a0), trend.NewUTBot(k, n, a0)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_UTBot_fields(k *klines.Item, n int, a0 int) (p0, want0 int, p1, want1 int) {
	e := trend.NewUTBot(k, n, a0)
	return e.Period, n, e.AtrPeriod, a0
}

func C09_UTBot_ohlcFields(k *klines.Item, n int, a0 int) (p0, want0 int, p1, want1 int) {
	e := trend.NewUTBotOHLC(k.GetOHLC(), n, a0)
	return e.Period, n, e.AtrPeriod, a0
}

func C09_Vortex_default(k *klines.Item) (name, wantName string, data, wantData []trend.VortexData) {
	a := trend.NewDefaultVortex(k)
	b := trend.NewVortex(k, 9)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_Vortex_defaultFields(k *klines.Item) (p0, want0 int) {
	a := trend.NewDefaultVortex(k)
	return a.Period, 9
}

func C09_Vortex_fields(k *klines.Item, n int) (p0, want0 int) {
	e := trend.NewVortex(k, n)
	return e.Period, n
}

func C09_AccumulationDistribution_default(k *klines.Item) (name, wantName string, data, wantData []volume.AccumulationDistributionData) {
	a := volume.NewDefaultAccumulationDistribution(k)
	b := volume.NewAccumulationDistribution(k)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_ChaikinMoneyFlow_default(k *klines.Item) (name, wantName string, data, wantData []volume.ChaikinMoneyFlowData) {
	a := volume.NewDefaultChaikinMoneyFlow(k)
	b := volume.NewChaikinMoneyFlow(k, 20)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_ChaikinMoneyFlow_defaultFields(k *klines.Item) (p0, want0 int) {
	a := volume.NewDefaultChaikinMoneyFlow(k)
	return a.Period, 20
}

func C09_ChaikinMoneyFlow_fields(k *klines.Item, n int) (p0, want0 int) {
	e := volume.NewChaikinMoneyFlow(k, n)
	return e.Period, n
}

func C09_EaseOfMovement_default(k *klines.Item) (name, wantName string, data, wantData []volume.EaseOfMovementData) {
	a := volume.NewDefaultEaseOfMovement(k)
	b := volume.NewEaseOfMovement(k, 14)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_EaseOfMovement_defaultFields(k *klines.Item) (p0, want0 int) {
	a := volume.NewDefaultEaseOfMovement(k)
	return a.Period, 14
}

func C09_EaseOfMovement_fields(k *klines.Item, n int) (p0, want0 int) {
	e := volume.NewEaseOfMovement(k, n)
	return e.Period, n
}

func C09_ForceIndex_default(k *klines.Item) (name, wantName string, data, wantData []volume.ForceIndexData) {
	a := volume.NewDefaultForceIndex(k)
	b := volume.NewForceIndex(k, 13)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_ForceIndex_defaultFields(k *klines.Item) (p0, want0 int) {
	a := volume.NewDefaultForceIndex(k)
	return a.Period, 13
}

func C09_ForceIndex_fields(k *klines.Item, n int) (p0, want0 int) {
	e := volume.NewForceIndex(k, n)
	return e.Period, n
}

func C09_MoneyFlowIndex_default(k *klines.Item) (name, wantName string, data, wantData []volume.MoneyFlowIndexData) {
	a := volume.NewDefaultMoneyFlowIndex(k)
	b := volume.NewMoneyFlowIndex(k, 14)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_MoneyFlowIndex_defaultFields(k *klines.Item) (p0, want0 int) {
	a := volume.NewDefaultMoneyFlowIndex(k)
	return a.Period, 14
}

func C09_MoneyFlowIndex_fields(k *klines.Item, n int) (p0, want0 int) {
	e := volume.NewMoneyFlowIndex(k, n)
	return e.Period, n
}

func C09_NegativeVolumeIndex_default(k *klines.Item) (name, wantName string, data, wantData []volume.NegativeVolumeIndexData) {
	a := volume.NewDefaultNegativeVolumeIndex(k)
	b := volume.NewNegativeVolumeIndex(k)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_VolumePriceTrend_default(k *klines.Item) (name, wantName string, data, wantData []volume.VolumePriceTrendData) {
	a := volume.NewDefaultVolumePriceTrend(k)
	b := volume.NewVolumePriceTrend(k, 14)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_VolumePriceTrend_defaultFields(k *klines.Item) (p0, want0 int) {
	a := volume.NewDefaultVolumePriceTrend(k)
	return a.Period, 14
}

func C09_VolumePriceTrend_fields(k *klines.Item, n int) (p0, want0 int) {
	e := volume.NewVolumePriceTrend(k, n)
	return e.Period, n
}

func C09_Vwma_default(k *klines.Item) (name, wantName string, data, wantData []volume.VwmaData) {
	a := volume.NewDefaultVwma(k)
	b := volume.NewVwma(k, 5)
	return a.Name, b.Name, a.GetData(), b.GetData()
}

func C09_Vwma_defaultFields(k *klines.Item) (p0, want0 int) {
	a := volume.NewDefaultVwma(k)
	return a.Period, 5
}

func C09_Vwma_fields(k *klines.Item, n int) (p0, want0 int) {
	e := volume.NewVwma(k, n)
	return e.Period, n
}
