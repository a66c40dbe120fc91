// Code generated by tools/mkspec.py. DO NOT EDIT.

package zzverif

import (
	"github.com/idoall/stockindicator/channel"
	"github.com/idoall/stockindicator/oscillator"
	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/utils/types"
	"github.com/idoall/stockindicator/volume"
)

func C04_Boll(k *klines.Item, n int, w int, i, m int) (full, prefix channel.BollData) {
	Assume(n >= 1)
	Assume(w >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return channel.NewBoll(k, n, w).GetData()[i], channel.NewBoll(&q, n, w).GetData()[i]
}

func C04_Boll_signal(k *klines.Item, n int, w int, i, m int) (full, prefix utils.Side) {
	Assume(n >= 1)
	Assume(w >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return channel.NewBoll(k, n, w).AnalysisSide().Data[i], channel.NewBoll(&q, n, w).AnalysisSide().Data[i]
}

func C04_DonchianChannel(k *klines.Item, n int, i, m int) (full, prefix channel.DonchianChannelData) {
	Assume(n >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return channel.NewDonchianChannel(k, n).GetData()[i], channel.NewDonchianChannel(&q, n).GetData()[i]
}

func C04_DonchianChannel_signal(k *klines.Item, n int, i, m int) (full, prefix utils.Side) {
	Assume(n >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return channel.NewDonchianChannel(k, n).AnalysisSide().Data[i], channel.NewDonchianChannel(&q, n).AnalysisSide().Data[i]
}

func C04_KeltnerChannel(k *klines.Item, n int, i, m int) (full, prefix channel.KeltnerChannelData) {
	Assume(n >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return channel.NewKeltnerChannel(k, n).GetData()[i], channel.NewKeltnerChannel(&q, n).GetData()[i]
}

func C04_KeltnerChannel_signal(k *klines.Item, n int, i, m int) (full, prefix utils.Side) {
	Assume(n >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return channel.NewKeltnerChannel(k, n).AnalysisSide().Data[i], channel.NewKeltnerChannel(&q, n).AnalysisSide().Data[i]
}

func C04_UlcerIndex(k *klines.Item, n int, i, m int) (full, prefix channel.UlcerIndexData) {
	Assume(n >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return channel.NewUlcerIndex(k, n).GetData()[i], channel.NewUlcerIndex(&q, n).GetData()[i]
}

func C04_AbsolutePriceOscillator(k *klines.Item, i, m int) (full, prefix oscillator.AbsolutePriceOscillatorData) {
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return oscillator.NewAbsolutePriceOscillator(k).GetData()[i], oscillator.NewAbsolutePriceOscillator(&q).GetData()[i]
}

func C04_AbsolutePriceOscillator_signal(k *klines.Item, i, m int) (full, prefix utils.Side) {
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return oscillator.NewAbsolutePriceOscillator(k).AnalysisSide().Data[i], oscillator.NewAbsolutePriceOscillator(&q).AnalysisSide().Data[i]
}

func C04_AwesomeOscillator(k *klines.Item, i, m int) (full, prefix oscillator.AwesomeOscillatorData) {
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return oscillator.NewAwesomeOscillator(k).GetData()[i], oscillator.NewAwesomeOscillator(&q).GetData()[i]
}

func C04_AwesomeOscillator_signal(k *klines.Item, i, m int) (full, prefix utils.Side) {
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return oscillator.NewAwesomeOscillator(k).AnalysisSide().Data[i], oscillator.NewAwesomeOscillator(&q).AnalysisSide().Data[i]
}

func C04_Camarilla(k *klines.Item, n int, i, m int) (full, prefix *oscillator.CamarillaData) {
	Assume(n >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return oscillator.NewCamarilla(k, n).GetData()[i], oscillator.NewCamarilla(&q, n).GetData()[i]
}

func C04_ChaikinOscillator(k *klines.Item, f int, s0 int, i, m int) (full, prefix oscillator.ChaikinOscillatorData) {
	Assume(f >= 1)
	Assume(s0 >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return oscillator.NewChaikinOscillator(k, f, s0).GetData()[i], oscillator.NewChaikinOscillator(&q, f, s0).GetData()[i]
}

func C04_ChaikinOscillator_signal(k *klines.Item, f int, s0 int, i, m int) (full, prefix utils.Side) {
	Assume(f >= 1)
	Assume(s0 >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return oscillator.NewChaikinOscillator(k, f, s0).AnalysisSide().Data[i], oscillator.NewChaikinOscillator(&q, f, s0).AnalysisSide().Data[i]
}

func C04_IchimokuCloud(k *klines.Item, c0 int, b int, g int, i, m int) (full, prefix oscillator.IchimokuCloudData) {
	Assume(c0 >= 1)
	Assume(b >= 1)
	Assume(g >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return oscillator.NewIchimokuCloud(k, c0, b, g).GetData()[i], oscillator.NewIchimokuCloud(&q, c0, b, g).GetData()[i]
}

func C04_IchimokuCloud_signal(k *klines.Item, c0 int, b int, g int, i, m int) (full, prefix utils.Side) {
	Assume(c0 >= 1)
	Assume(b >= 1)
	Assume(g >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return oscillator.NewIchimokuCloud(k, c0, b, g).AnalysisSide().Data[i], oscillator.NewIchimokuCloud(&q, c0, b, g).AnalysisSide().Data[i]
}

func C04_PercentagePriceOscillator(k *klines.Item, f int, s0 int, g int, i, m int) (full, prefix oscillator.PercentagePriceOscillatorData) {
	Assume(f >= 1)
	Assume(s0 >= 1)
	Assume(g >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return oscillator.NewPercentagePriceOscillator(k, f, s0, g).GetData()[i], oscillator.NewPercentagePriceOscillator(&q, f, s0, g).GetData()[i]
}

func C04_PercentagePriceOscillator_signal(k *klines.Item, f int, s0 int, g int, i, m int) (full, prefix utils.Side) {
	Assume(f >= 1)
	Assume(s0 >= 1)
	Assume(g >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return oscillator.NewPercentagePriceOscillator(k, f, s0, g).AnalysisSide().Data[i], oscillator.NewPercentagePriceOscillator(&q, f, s0, g).AnalysisSide().Data[i]
}

func C04_ProjectionOscillator(k *klines.Item, n int, s0 int, i, m int) (full, prefix oscillator.ProjectionOscillatorData) {
	Assume(n >= 1)
	Assume(s0 >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return oscillator.NewProjectionOscillator(k, n, s0).GetData()[i], oscillator.NewProjectionOscillator(&q, n, s0).GetData()[i]
}

func C04_ProjectionOscillator_signal(k *klines.Item, n int, s0 int, i, m int) (full, prefix utils.Side) {
	Assume(n >= 1)
	Assume(s0 >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return oscillator.NewProjectionOscillator(k, n, s0).AnalysisSide().Data[i], oscillator.NewProjectionOscillator(&q, n, s0).AnalysisSide().Data[i]
}

func C04_StochasticOscillator(k *klines.Item, n int, i, m int) (full, prefix oscillator.StochasticOscillatorData) {
	Assume(n >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return oscillator.NewStochasticOscillator(k, n).GetData()[i], oscillator.NewStochasticOscillator(&q, n).GetData()[i]
}

func C04_StochasticOscillator_signal(k *klines.Item, n int, i, m int) (full, prefix utils.Side) {
	Assume(n >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return oscillator.NewStochasticOscillator(k, n).AnalysisSide().Data[i], oscillator.NewStochasticOscillator(&q, n).AnalysisSide().Data[i]
}

func C04_VolumeOscillator(k *klines.Item, s0 int, g int, i, m int) (full, prefix oscillator.VolumeOscillatorData) {
	Assume(s0 >= 1)
	Assume(g >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return oscillator.NewVolumeOscillator(k, s0, g).GetData()[i], oscillator.NewVolumeOscillator(&q, s0, g).GetData()[i]
}

func C04_WilliamsR(k *klines.Item, n int, i, m int) (full, prefix oscillator.WilliamsRData) {
	Assume(n >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return oscillator.NewWilliamsR(k, n).GetData()[i], oscillator.NewWilliamsR(&q, n).GetData()[i]
}

func C04_WilliamsR_signal(k *klines.Item, n int, i, m int) (full, prefix utils.Side) {
	Assume(n >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return oscillator.NewWilliamsR(k, n).AnalysisSide().Data[i], oscillator.NewWilliamsR(&q, n).AnalysisSide().Data[i]
}

func C04_AiCoinCCI(k *klines.Item, n int, i, m int) (full, prefix trend.AiCoinCCIData) {
	Assume(n >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewAiCoinCCI(k, n).GetData()[i], trend.NewAiCoinCCI(&q, n).GetData()[i]
}

func C04_AiCoinCCI_signal(k *klines.Item, n int, i, m int) (full, prefix utils.Side) {
	Assume(n >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewAiCoinCCI(k, n).AnalysisSide().Data[i], trend.NewAiCoinCCI(&q, n).AnalysisSide().Data[i]
}

func C04_Atr(k *klines.Item, n int, i, m int) (full, prefix trend.AtrData) {
	Assume(n >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewAtr(k, n).GetData()[i], trend.NewAtr(&q, n).GetData()[i]
}

func C04_AverageDirectionalIndex(k *klines.Item, n int, g int, i, m int) (full, prefix trend.AverageDirectionalIndexData) {
	Assume(n >= 1)
	Assume(g >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewAverageDirectionalIndex(k, n, g).GetData()[i], trend.NewAverageDirectionalIndex(&q, n, g).GetData()[i]
}

func C04_BreakoutProbability(k *klines.Item, q0 float64, n int, i, m int) (full, prefix trend.BreakoutProbabilityData) {
	Assume(q0 > 0)
	Assume(n >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewBreakoutProbability(k, q0, n).GetData()[i], trend.NewBreakoutProbability(&q, q0, n).GetData()[i]
}

func C04_Cci(k *klines.Item, n int, s0 int, i, m int) (full, prefix trend.CciData) {
	Assume(n >= 1)
	Assume(s0 >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewCci(k, n, s0).GetData()[i], trend.NewCci(&q, n, s0).GetData()[i]
}

func C04_Cci_signal(k *klines.Item, n int, s0 int, i, m int) (full, prefix utils.Side) {
	Assume(n >= 1)
	Assume(s0 >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewCci(k, n, s0).AnalysisSide().Data[i], trend.NewCci(&q, n, s0).AnalysisSide().Data[i]
}

func C04_Dema(k *klines.Item, n int, i, m int) (full, prefix *trend.DemaData) {
	Assume(n >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewDema(k, n).GetData()[i], trend.NewDema(&q, n).GetData()[i]
}

func C04_EMAVegas(k *klines.Item, n int, s1 int, s2 int, g1 int, g2 int, i, m int) (full, prefix trend.EMAVegasData) {
	Assume(n >= 1)
	Assume(s1 >= 1)
	Assume(s2 >= 1)
	Assume(g1 >= 1)
	Assume(g2 >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewEMAVegas(k, n, s1, s2, g1, g2).GetData()[i], trend.NewEMAVegas(&q, n, s1, s2, g1, g2).GetData()[i]
}

func C04_EMAVegas_signal(k *klines.Item, n int, s1 int, s2 int, g1 int, g2 int, i, m int) (full, prefix utils.Side) {
	Assume(n >= 1)
	Assume(s1 >= 1)
	Assume(s2 >= 1)
	Assume(g1 >= 1)
	Assume(g2 >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewEMAVegas(k, n, s1, s2, g1, g2).AnalysisSide().Data[i], trend.NewEMAVegas(&q, n, s1, s2, g1, g2).AnalysisSide().Data[i]
}

func C04_Ema(k *klines.Item, n int, i, m int) (full, prefix trend.EmaData) {
	Assume(n >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewEma(k, n).GetData()[i], trend.NewEma(&q, n).GetData()[i]
}

func C04_Kdj(k *klines.Item, n int, i, m int) (full, prefix trend.KdjData) {
	Assume(n >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewKdj(k, n).GetData()[i], trend.NewKdj(&q, n).GetData()[i]
}

func C04_Kdj_signal(k *klines.Item, n int, i, m int) (full, prefix utils.Side) {
	Assume(n >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewKdj(k, n).AnalysisSide().Data[i], trend.NewKdj(&q, n).AnalysisSide().Data[i]
}

func C04_LinearRegressionCandles(k *klines.Item, g int, n int, sma bool, i, m int) (full, prefix trend.LinearRegressionCandlesData) {
	Assume(g >= 1)
	Assume(n >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewLinearRegressionCandles(k, g, n, sma).GetData()[i], trend.NewLinearRegressionCandles(&q, g, n, sma).GetData()[i]
}

func C04_Ma(k *klines.Item, n int, i, m int) (full, prefix trend.MaData) {
	Assume(n >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewMa(k, n).GetData()[i], trend.NewMa(&q, n).GetData()[i]
}

func C04_Macd(k *klines.Item, s0 int, g int, l int, i, m int) (full, prefix trend.MacdData) {
	Assume(s0 >= 1)
	Assume(g >= 1)
	Assume(l >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewMacd(k, s0, g, l).GetData()[i], trend.NewMacd(&q, s0, g, l).GetData()[i]
}

func C04_Macd_signal(k *klines.Item, s0 int, g int, l int, i, m int) (full, prefix utils.Side) {
	Assume(s0 >= 1)
	Assume(g >= 1)
	Assume(l >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewMacd(k, s0, g, l).AnalysisSide().Data[i], trend.NewMacd(&q, s0, g, l).AnalysisSide().Data[i]
}

func C04_PivotPointSuperTrend(k *klines.Item, n int, a0 int, w float64, i, m int) (full, prefix trend.PivotPointSuperTrendData) {
	Assume(n >= 1)
	Assume(a0 >= 1)
	Assume(w > 0)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewPivotPointSuperTrend(k, n, a0, w).GetData()[i], trend.NewPivotPointSuperTrend(&q, n, a0, w).GetData()[i]
}

func C04_PivotPointSuperTrend_signal(k *klines.Item, n int, a0 int, w float64, i, m int) (full, prefix utils.Side) {
	Assume(n >= 1)
	Assume(a0 >= 1)
	Assume(w > 0)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewPivotPointSuperTrend(k, n, a0, w).AnalysisSide().Data[i], trend.NewPivotPointSuperTrend(&q, n, a0, w).AnalysisSide().Data[i]
}

func C04_Rma(k *klines.Item, n int, i, m int) (full, prefix trend.RmaData) {
	Assume(n >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewRma(k, n).GetData()[i], trend.NewRma(&q, n).GetData()[i]
}

func C04_Rsi(k *klines.Item, n int, i, m int) (full, prefix trend.RsiData) {
	Assume(n >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewRsi(k, n).GetData()[i], trend.NewRsi(&q, n).GetData()[i]
}

func C04_Rsi_signal(k *klines.Item, n int, i, m int) (full, prefix utils.Side) {
	Assume(n >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewRsi(k, n).AnalysisSide().Data[i], trend.NewRsi(&q, n).AnalysisSide().Data[i]
}

func C04_Sma(k *klines.Item, n int, i, m int) (full, prefix trend.SmaData) {
	Assume(n >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewSma(k, n).GetData()[i], trend.NewSma(&q, n).GetData()[i]
}

func C04_StochRsi(k *klines.Item, sk int, sd int, rl int, sl int, i, m int) (full, prefix trend.StochRsiData) {
	Assume(sk >= 1)
	Assume(sd >= 1)
	Assume(rl >= 1)
	Assume(sl >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewStochRsi(k, sk, sd, rl, sl).GetData()[i], trend.NewStochRsi(&q, sk, sd, rl, sl).GetData()[i]
}

func C04_StochRsi_signal(k *klines.Item, sk int, sd int, rl int, sl int, i, m int) (full, prefix utils.Side) {
	Assume(sk >= 1)
	Assume(sd >= 1)
	Assume(rl >= 1)
	Assume(sl >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewStochRsi(k, sk, sd, rl, sl).AnalysisSide().Data[i], trend.NewStochRsi(&q, sk, sd, rl, sl).AnalysisSide().Data[i]
}

func C04_StochasticHeat_EMA(k *klines.Item, inc int, sf int, ss int, pn int, i, m int) (full, prefix trend.StochasticHeatData) {
	Assume(inc >= 1)
	Assume(sf >= 1)
	Assume(ss >= 1)
	Assume(pn >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewStochasticHeat(k, inc, sf, ss, pn, types.EMA).GetData()[i], trend.NewStochasticHeat(&q, inc, sf, ss, pn, types.EMA).GetData()[i]
}

func C04_StochasticHeat_EMA_signal(k *klines.Item, inc int, sf int, ss int, pn int, i, m int) (full, prefix utils.Side) {
	Assume(inc >= 1)
	Assume(sf >= 1)
	Assume(ss >= 1)
	Assume(pn >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewStochasticHeat(k, inc, sf, ss, pn, types.EMA).AnalysisSide().Data[i], trend.NewStochasticHeat(&q, inc, sf, ss, pn, types.EMA).AnalysisSide().Data[i]
}

func C04_StochasticHeat_SMA(k *klines.Item, inc int, sf int, ss int, pn int, i, m int) (full, prefix trend.StochasticHeatData) {
	Assume(inc >= 1)
	Assume(sf >= 1)
	Assume(ss >= 1)
	Assume(pn >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewStochasticHeat(k, inc, sf, ss, pn, types.SMA).GetData()[i], trend.NewStochasticHeat(&q, inc, sf, ss, pn, types.SMA).GetData()[i]
}

//zz:thorough
func C04_StochasticHeat_SMA_signal(k *klines.Item, inc int, sf int, ss int, pn int, i, m int) (full, prefix utils.Side) {
	Assume(inc >= 1)
	Assume(sf >= 1)
	Assume(ss >= 1)
	Assume(pn >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewStochasticHeat(k, inc, sf, ss, pn, types.SMA).AnalysisSide().Data[i], trend.NewStochasticHeat(&q, inc, sf, ss, pn, types.SMA).AnalysisSide().Data[i]
}

func C04_StochasticHeat_WMA(k *klines.Item, inc int, sf int, ss int, pn int, i, m int) (full, prefix trend.StochasticHeatData) {
	Assume(inc >= 1)
	Assume(sf >= 1)
	Assume(ss >= 1)
	Assume(pn >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewStochasticHeat(k, inc, sf, ss, pn, types.WMA).GetData()[i], trend.NewStochasticHeat(&q, inc, sf, ss, pn, types.WMA).GetData()[i]
}

//zz:thorough
func C04_StochasticHeat_WMA_signal(k *klines.Item, inc int, sf int, ss int, pn int, i, m int) (full, prefix utils.Side) {
	Assume(inc >= 1)
	Assume(sf >= 1)
	Assume(ss >= 1)
	Assume(pn >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewStochasticHeat(k, inc, sf, ss, pn, types.WMA).AnalysisSide().Data[i], trend.NewStochasticHeat(&q, inc, sf, ss, pn, types.WMA).AnalysisSide().Data[i]
}

func C04_SuperTrend(k *klines.Item, a0 int, w int, ch bool, i, m int) (full, prefix trend.SuperTrendData) {
	Assume(a0 >= 1)
	Assume(w >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewSuperTrend(k, a0, w, ch).GetData()[i], trend.NewSuperTrend(&q, a0, w, ch).GetData()[i]
}

func C04_SuperTrend_signal(k *klines.Item, a0 int, w int, ch bool, i, m int) (full, prefix utils.Side) {
	Assume(a0 >= 1)
	Assume(w >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewSuperTrend(k, a0, w, ch).AnalysisSide().Data[i], trend.NewSuperTrend(&q, a0, w, ch).AnalysisSide().Data[i]
}

func C04_TraderXO(k *klines.Item, f int, s0 int, i, m int) (full, prefix trend.TraderXOData) {
	Assume(f >= 1)
	Assume(s0 >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewTraderXO(k, f, s0).GetData()[i], trend.NewTraderXO(&q, f, s0).GetData()[i]
}

func C04_TraderXO_signal(k *klines.Item, f int, s0 int, i, m int) (full, prefix utils.Side) {
	Assume(f >= 1)
	Assume(s0 >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewTraderXO(k, f, s0).AnalysisSide().Data[i], trend.NewTraderXO(&q, f, s0).AnalysisSide().Data[i]
}

func C04_UTBot(k *klines.Item, n int, a0 int, i, m int) (full, prefix trend.UTBotData) {
	Assume(n >= 1)
	Assume(a0 >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewUTBot(k, n, a0).GetData()[i], trend.NewUTBot(&q, n, a0).GetData()[i]
}

func C04_UTBot_signal(k *klines.Item, n int, a0 int, i, m int) (full, prefix utils.Side) {
	Assume(n >= 1)
	Assume(a0 >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewUTBot(k, n, a0).AnalysisSide().Data[i], trend.NewUTBot(&q, n, a0).AnalysisSide().Data[i]
}

func C04_Vortex(k *klines.Item, n int, i, m int) (full, prefix trend.VortexData) {
	Assume(n >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return trend.NewVortex(k, n).GetData()[i], trend.NewVortex(&q, n).GetData()[i]
}

func C04_AccumulationDistribution(k *klines.Item, i, m int) (full, prefix volume.AccumulationDistributionData) {
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return volume.NewAccumulationDistribution(k).GetData()[i], volume.NewAccumulationDistribution(&q).GetData()[i]
}

func C04_ChaikinMoneyFlow(k *klines.Item, n int, i, m int) (full, prefix volume.ChaikinMoneyFlowData) {
	Assume(n >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return volume.NewChaikinMoneyFlow(k, n).GetData()[i], volume.NewChaikinMoneyFlow(&q, n).GetData()[i]
}

func C04_EaseOfMovement(k *klines.Item, n int, i, m int) (full, prefix volume.EaseOfMovementData) {
	Assume(n >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return volume.NewEaseOfMovement(k, n).GetData()[i], volume.NewEaseOfMovement(&q, n).GetData()[i]
}

func C04_ForceIndex(k *klines.Item, n int, i, m int) (full, prefix volume.ForceIndexData) {
	Assume(n >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return volume.NewForceIndex(k, n).GetData()[i], volume.NewForceIndex(&q, n).GetData()[i]
}

func C04_MoneyFlowIndex(k *klines.Item, n int, i, m int) (full, prefix volume.MoneyFlowIndexData) {
	Assume(n >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return volume.NewMoneyFlowIndex(k, n).GetData()[i], volume.NewMoneyFlowIndex(&q, n).GetData()[i]
}

func C04_MoneyFlowIndex_signal(k *klines.Item, n int, i, m int) (full, prefix utils.Side) {
	Assume(n >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return volume.NewMoneyFlowIndex(k, n).AnalysisSide().Data[i], volume.NewMoneyFlowIndex(&q, n).AnalysisSide().Data[i]
}

func C04_NegativeVolumeIndex(k *klines.Item, i, m int) (full, prefix volume.NegativeVolumeIndexData) {
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return volume.NewNegativeVolumeIndex(k).GetData()[i], volume.NewNegativeVolumeIndex(&q).GetData()[i]
}

func C04_Obv(k *klines.Item, i, m int) (full, prefix volume.ObvData) {
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return volume.NewObv(k).GetData()[i], volume.NewObv(&q).GetData()[i]
}

func C04_VolumePriceTrend(k *klines.Item, n int, i, m int) (full, prefix volume.VolumePriceTrendData) {
	Assume(n >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return volume.NewVolumePriceTrend(k, n).GetData()[i], volume.NewVolumePriceTrend(&q, n).GetData()[i]
}

func C04_Vwma(k *klines.Item, n int, i, m int) (full, prefix volume.VwmaData) {
	Assume(n >= 1)
	Assume(i >= 0 && i < m && m <= len(k.Candles))
	q := *k
	q.Candles = k.Candles[:m]
	return volume.NewVwma(k, n).GetData()[i], volume.NewVwma(&q, n).GetData()[i]
}
