// Code generated by tools/mkspec.py. DO NOT EDIT.

package zzverif

import (
	"github.com/idoall/stockindicator/channel"
	"github.com/idoall/stockindicator/oscillator"
	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/utils/types"
	"github.com/idoall/stockindicator/volume"
)

func C06_Boll(k *klines.Item, n int, w int, i int) (signal, want utils.Side) {
	Assume(n >= 1)
	Assume(w >= 1)
	e := channel.NewBoll(k, n, w)
	s, d, c := e.AnalysisSide().Data, e.GetData(), k.Candles
	_ = c
	Assume(i >= 1 && i < len(k.Candles))
	want = utils.Hold
	if c[i].Close > d[i].Upper && c[i-1].Close < d[i-1].Upper {
		want = utils.Buy
	} else if c[i].Close < d[i].Lower && c[i-1].Close > d[i-1].Lower {
		want = utils.Sell
	}
	return s[i], want
}

func C06_DonchianChannel(k *klines.Item, n int, i int) (signal, want utils.Side) {
	Assume(n >= 1)
	e := channel.NewDonchianChannel(k, n)
	s, d, c := e.AnalysisSide().Data, e.GetData(), k.Candles
	_ = c
	Assume(i >= 1 && i < len(k.Candles))
	want = utils.Hold
	if c[i].Close > d[i].Middle && c[i-1].Close < d[i-1].Middle {
		want = utils.Buy
	} else if c[i].Close < d[i].Middle && c[i-1].Close > d[i-1].Middle {
		want = utils.Sell
	}
	return s[i], want
}

func C06_KeltnerChannel(k *klines.Item, n int, i int) (signal, want utils.Side) {
	Assume(n >= 1)
	e := channel.NewKeltnerChannel(k, n)
	s, d, c := e.AnalysisSide().Data, e.GetData(), k.Candles
	_ = c
	Assume(i >= 1 && i < len(k.Candles))
	want = utils.Hold
	if c[i].Close > d[i].Middle && c[i-1].Close < d[i-1].Middle {
		want = utils.Buy
	} else if c[i].Close < d[i].Middle && c[i-1].Close > d[i-1].Middle {
		want = utils.Sell
	}
	return s[i], want
}

func C06_AbsolutePriceOscillator(k *klines.Item, i int) (signal, want utils.Side) {
	e := oscillator.NewAbsolutePriceOscillator(k)
	s, d, c := e.AnalysisSide().Data, e.GetData(), k.Candles
	_ = c
	Assume(i >= 1 && i < len(k.Candles))
	want = utils.Hold
	if d[i].Value > 0 && d[i-1].Value < 0 {
		want = utils.Buy
	} else if d[i].Value < 0 && d[i-1].Value > 0 {
		want = utils.Sell
	}
	return s[i], want
}

func C06_AwesomeOscillator(k *klines.Item, i int) (signal, want utils.Side) {
	e := oscillator.NewAwesomeOscillator(k)
	s, d, c := e.AnalysisSide().Data, e.GetData(), k.Candles
	_ = c
	Assume(i >= 1 && i < len(k.Candles))
	want = utils.Hold
	if d[i].Value > 0 && d[i-1].Value < 0 {
		want = utils.Buy
	} else if d[i].Value < 0 && d[i-1].Value > 0 {
		want = utils.Sell
	}
	return s[i], want
}

func C06_ChaikinOscillator(k *klines.Item, f int, s0 int, i int) (signal, want utils.Side) {
	Assume(f >= 1)
	Assume(s0 >= 1)
	e := oscillator.NewChaikinOscillator(k, f, s0)
	s, d, c := e.AnalysisSide().Data, e.GetData(), k.Candles
	_ = c
	Assume(i >= 1 && i < len(k.Candles))
	want = utils.Hold
	if d[i].Value > 0 && d[i-1].Value < 0 {
		want = utils.Buy
	} else if d[i].Value < 0 && d[i-1].Value > 0 {
		want = utils.Sell
	}
	return s[i], want
}

func C06_IchimokuCloud(k *klines.Item, c0 int, b int, g int, i int) (signal, want utils.Side) {
	Assume(c0 >= 1)
	Assume(b >= 1)
	Assume(g >= 1)
	e := oscillator.NewIchimokuCloud(k, c0, b, g)
	s, d, c := e.AnalysisSide().Data, e.GetData(), k.Candles
	_ = c
	Assume(i >= c0 && i < len(k.Candles))
	want = utils.Hold
	if c[i].Close > d[i].LeadingSpanA && c[i-1].Close < d[i-1].LeadingSpanA && c[i].Close > d[i].LeadingSpanB && c[i-1].Close < d[i-1].LeadingSpanB {
		want = utils.Buy
	} else if c[i].Close < d[i].LeadingSpanA && c[i-1].Close > d[i-1].LeadingSpanA && c[i].Close < d[i].LeadingSpanB && c[i-1].Close > d[i-1].LeadingSpanB {
		want = utils.Sell
	}
	return s[i], want
}

func C06_PercentagePriceOscillator(k *klines.Item, f int, s0 int, g int, i int) (signal, want utils.Side) {
	Assume(f >= 1)
	Assume(s0 >= 1)
	Assume(g >= 1)
	e := oscillator.NewPercentagePriceOscillator(k, f, s0, g)
	s, d, c := e.AnalysisSide().Data, e.GetData(), k.Candles
	_ = c
	Assume(i >= 1 && i < len(k.Candles))
	want = utils.Hold
	if d[i].PPO > d[i].Signal && d[i-1].PPO < d[i-1].Signal {
		want = utils.Buy
	} else if d[i].PPO < d[i].Signal && d[i-1].PPO > d[i-1].Signal {
		want = utils.Sell
	}
	return s[i], want
}

func C06_ProjectionOscillator(k *klines.Item, n int, s0 int, i int) (signal, want utils.Side) {
	Assume(n >= 1)
	Assume(s0 >= 1)
	e := oscillator.NewProjectionOscillator(k, n, s0)
	s, d, c := e.AnalysisSide().Data, e.GetData(), k.Candles
	_ = c
	Assume(i >= 1 && i < len(k.Candles))
	want = utils.Hold
	if d[i].Po > d[i].Spo {
		want = utils.Buy
	} else if d[i].Po < d[i].Spo {
		want = utils.Sell
	}
	return s[i], want
}

func C06_StochasticOscillator(k *klines.Item, n int, i int) (signal, want utils.Side) {
	Assume(n >= 1)
	e := oscillator.NewStochasticOscillator(k, n)
	s, d, c := e.AnalysisSide().Data, e.GetData(), k.Candles
	_ = c
	Assume(i >= 1 && i < len(k.Candles))
	want = utils.Hold
	if d[i].K > d[i].D && d[i-1].K < d[i-1].D {
		want = utils.Buy
	} else if d[i].K < d[i].D && d[i-1].K > d[i-1].D {
		want = utils.Sell
	}
	return s[i], want
}

func C06_WilliamsR(k *klines.Item, n int, i int) (signal, want utils.Side) {
	Assume(n >= 1)
	e := oscillator.NewWilliamsR(k, n)
	s, d, c := e.AnalysisSide().Data, e.GetData(), k.Candles
	_ = c
	Assume(i >= 1 && i < len(k.Candles))
	want = utils.Hold
	if d[i].Value < -80 && d[i-1].Value > -80 {
		want = utils.Buy
	} else if d[i].Value > -20 && d[i-1].Value < -20 {
		want = utils.Sell
	}
	return s[i], want
}

func C06_AiCoinCCI(k *klines.Item, n int, i int) (signal, want utils.Side) {
	Assume(n >= 1)
	e := trend.NewAiCoinCCI(k, n)
	s, d, c := e.AnalysisSide().Data, e.GetData(), k.Candles
	_ = c
	Assume(i >= 1 && i < len(k.Candles))
	want = utils.Hold
	if d[i].Value < -100 && d[i-1].Value > -100 {
		want = utils.Buy
	} else if d[i].Value > 100 && d[i-1].Value < 100 {
		want = utils.Sell
	}
	return s[i], want
}

func C06_Cci(k *klines.Item, n int, s0 int, i int) (signal, want utils.Side) {
	Assume(n >= 1)
	Assume(s0 >= 1)
	e := trend.NewCci(k, n, s0)
	s, d, c := e.AnalysisSide().Data, e.GetData(), k.Candles
	_ = c
	Assume(i >= 1 && i < len(k.Candles))
	want = utils.Hold
	if d[i].Value < -100 && d[i-1].Value > -100 {
		want = utils.Buy
	} else if d[i].Value > 100 && d[i-1].Value < 100 {
		want = utils.Sell
	}
	return s[i], want
}

func C06_Kdj(k *klines.Item, n int, i int) (signal, want utils.Side) {
	Assume(n >= 1)
	e := trend.NewKdj(k, n)
	s, d, c := e.AnalysisSide().Data, e.GetData(), k.Candles
	_ = c
	Assume(i >= 1 && i < len(k.Candles))
	want = utils.Hold
	if d[i].K > d[i].D && d[i-1].K < d[i-1].D && d[i].J > d[i].D && d[i-1].J < d[i-1].D {
		want = utils.Buy
	} else if d[i].K < d[i].D && d[i-1].K > d[i-1].D && d[i].J < d[i].D && d[i-1].J > d[i-1].D {
		want = utils.Sell
	}
	return s[i], want
}

func C06_Macd(k *klines.Item, s0 int, g int, l int, i int) (signal, want utils.Side) {
	Assume(s0 >= 1)
	Assume(g >= 1)
	Assume(l >= 1)
	e := trend.NewMacd(k, s0, g, l)
	s, d, c := e.AnalysisSide().Data, e.GetData(), k.Candles
	_ = c
	Assume(i >= 1 && i < len(k.Candles))
	want = utils.Hold
	if d[i].DIF > 0 && d[i].DEA > 0 && d[i].DIF > d[i].DEA && d[i-1].DIF < d[i-1].DEA {
		want = utils.Buy
	} else if d[i].DIF < 0 && d[i].DEA < 0 && d[i].DIF < d[i].DEA && d[i-1].DIF > d[i-1].DEA {
		want = utils.Sell
	}
	return s[i], want
}

func C06_PivotPointSuperTrend(k *klines.Item, n int, a0 int, w float64, i int) (signal, want utils.Side) {
	Assume(n >= 1)
	Assume(a0 >= 1)
	Assume(w > 0)
	e := trend.NewPivotPointSuperTrend(k, n, a0, w)
	s, d, c := e.AnalysisSide().Data, e.GetData(), k.Candles
	_ = c
	Assume(i >= 1 && i < len(k.Candles))
	want = utils.Hold
	if d[i].UpTrendBegin != 0 {
		want = utils.Buy
	} else if d[i].DownTrendBegin != 0 {
		want = utils.Sell
	}
	return s[i], want
}

func C06_Rsi(k *klines.Item, n int, i int) (signal, want utils.Side) {
	Assume(n >= 1)
	e := trend.NewRsi(k, n)
	s, d, c := e.AnalysisSide().Data, e.GetData(), k.Candles
	_ = c
	Assume(i >= 1 && i < len(k.Candles))
	want = utils.Hold
	if d[i].Value < 20 && d[i-1].Value > 20 {
		want = utils.Buy
	} else if d[i].Value < 80 && d[i-1].Value > 80 {
		want = utils.Sell
	}
	return s[i], want
}

func C06_StochRsi(k *klines.Item, sk int, sd int, rl int, sl int, i int) (signal, want utils.Side) {
	Assume(sk >= 1)
	Assume(sd >= 1)
	Assume(rl >= 1)
	Assume(sl >= 1)
	e := trend.NewStochRsi(k, sk, sd, rl, sl)
	s, d, c := e.AnalysisSide().Data, e.GetData(), k.Candles
	_ = c
	Assume(i >= 1 && i < len(k.Candles))
	want = utils.Hold
	if d[i].K > d[i].D && d[i-1].K < d[i-1].D {
		want = utils.Buy
	} else if d[i].K < d[i].D && d[i-1].K > d[i-1].D {
		want = utils.Sell
	}
	return s[i], want
}

func C06_StochasticHeat_EMA(k *klines.Item, inc int, sf int, ss int, pn int, i int) (signal, want utils.Side) {
	Assume(inc >= 1)
	Assume(sf >= 1)
	Assume(ss >= 1)
	Assume(pn >= 1)
	e := trend.NewStochasticHeat(k, inc, sf, ss, pn, types.EMA)
	s, d, c := e.AnalysisSide().Data, e.GetData(), k.Candles
	_ = c
	Assume(i >= 1 && i < len(k.Candles))
	want = utils.Hold
	if d[i].Slow > d[i].Fast && d[i-1].Slow < d[i-1].Fast {
		want = utils.Buy
	} else if d[i].Slow < d[i].Fast && d[i-1].Slow > d[i-1].Fast {
		want = utils.Sell
	}
	return s[i], want
}

//zz:thorough
func C06_StochasticHeat_SMA(k *klines.Item, inc int, sf int, ss int, pn int, i int) (signal, want utils.Side) {
	Assume(inc >= 1)
	Assume(sf >= 1)
	Assume(ss >= 1)
	Assume(pn >= 1)
	e := trend.NewStochasticHeat(k, inc, sf, ss, pn, types.SMA)
	s, d, c := e.AnalysisSide().Data, e.GetData(), k.Candles
	_ = c
	Assume(i >= 1 && i < len(k.Candles))
	want = utils.Hold
	if d[i].Slow > d[i].Fast && d[i-1].Slow < d[i-1].Fast {
		want = utils.Buy
	} else if d[i].Slow < d[i].Fast && d[i-1].Slow > d[i-1].Fast {
		want = utils.Sell
	}
	return s[i], want
}

func C06_StochasticHeat_WMA(k *klines.Item, inc int, sf int, ss int, pn int, i int) (signal, want utils.Side) {
	Assume(inc >= 1)
	Assume(sf >= 1)
	Assume(ss >= 1)
	Assume(pn >= 1)
	e := trend.NewStochasticHeat(k, inc, sf, ss, pn, types.WMA)
	s, d, c := e.AnalysisSide().Data, e.GetData(), k.Candles
	_ = c
	Assume(i >= 1 && i < len(k.Candles))
	want = utils.Hold
	if d[i].Slow > d[i].Fast && d[i-1].Slow < d[i-1].Fast {
		want = utils.Buy
	} else if d[i].Slow < d[i].Fast && d[i-1].Slow > d[i-1].Fast {
		want = utils.Sell
	}
	return s[i], want
}

func C06_SuperTrend(k *klines.Item, a0 int, w int, ch bool, i int) (signal, want utils.Side) {
	Assume(a0 >= 1)
	Assume(w >= 1)
	e := trend.NewSuperTrend(k, a0, w, ch)
	s, d, c := e.AnalysisSide().Data, e.GetData(), k.Candles
	_ = c
	Assume(i >= 1 && i < len(k.Candles))
	want = utils.Hold
	if d[i].UpTrendBegin != 0 {
		want = utils.Buy
	} else if d[i].DownTrendBegin != 0 {
		want = utils.Sell
	}
	return s[i], want
}

func C06_UTBot(k *klines.Item, n int, a0 int, i int) (signal, want utils.Side) {
	Assume(n >= 1)
	Assume(a0 >= 1)
	e := trend.NewUTBot(k, n, a0)
	s, d, c := e.AnalysisSide().Data, e.GetData(), k.Candles
	_ = c
	Assume(i >= 1 && i < len(k.Candles))
	want = utils.Hold
	if c[i].Close > d[i].Value && c[i-1].Close < d[i-1].Value {
		want = utils.Buy
	} else if c[i].Close < d[i].Value && c[i-1].Close > d[i-1].Value {
		want = utils.Sell
	}
	return s[i], want
}

func C06_MoneyFlowIndex(k *klines.Item, n int, i int) (signal, want utils.Side) {
	Assume(n >= 1)
	e := volume.NewMoneyFlowIndex(k, n)
	s, d, c := e.AnalysisSide().Data, e.GetData(), k.Candles
	_ = c
	Assume(i >= 1 && i < len(k.Candles))
	want = utils.Hold
	if d[i].Value < 10 && d[i-1].Value > 10 {
		want = utils.Buy
	} else if d[i].Value > 90 && d[i-1].Value < 90 {
		want = utils.Sell
	}
	return s[i], want
}

func C06_Boll_name(k *klines.Item, n int, w int) (name, want string) {
	Assume(n >= 1)
	Assume(w >= 1)
	e := channel.NewBoll(k, n, w)
	return e.AnalysisSide().Name, e.Name
}

func C06_DonchianChannel_name(k *klines.Item, n int) (name, want string) {
	Assume(n >= 1)
	e := channel.NewDonchianChannel(k, n)
	return e.AnalysisSide().Name, e.Name
}

func C06_KeltnerChannel_name(k *klines.Item, n int) (name, want string) {
	Assume(n >= 1)
	e := channel.NewKeltnerChannel(k, n)
	return e.AnalysisSide().Name, e.Name
}

func C06_AbsolutePriceOscillator_name(k *klines.Item) (name, want string) {
	e := oscillator.NewAbsolutePriceOscillator(k)
	return e.AnalysisSide().Name, e.Name
}

func C06_AwesomeOscillator_name(k *klines.Item) (name, want string) {
	e := oscillator.NewAwesomeOscillator(k)
	return e.AnalysisSide().Name, e.Name
}

func C06_Camarilla_name(k *klines.Item, n int) (name, want string) {
	Assume(n >= 1)
	e := oscillator.NewCamarilla(k, n)
	return e.AnalysisSide(k).Name, e.Name
}

func C06_ChaikinOscillator_name(k *klines.Item, f int, s0 int) (name, want string) {
	Assume(f >= 1)
	Assume(s0 >= 1)
	e := oscillator.NewChaikinOscillator(k, f, s0)
	return e.AnalysisSide().Name, e.Name
}

func C06_IchimokuCloud_name(k *klines.Item, c0 int, b int, g int) (name, want string) {
	Assume(c0 >= 1)
	Assume(b >= 1)
	Assume(g >= 1)
	e := oscillator.NewIchimokuCloud(k, c0, b, g)
	return e.AnalysisSide().Name, e.Name
}

func C06_PercentagePriceOscillator_name(k *klines.Item, f int, s0 int, g int) (name, want string) {
	Assume(f >= 1)
	Assume(s0 >= 1)
	Assume(g >= 1)
	e := oscillator.NewPercentagePriceOscillator(k, f, s0, g)
	return e.AnalysisSide().Name, e.Name
}

func C06_ProjectionOscillator_name(k *klines.Item, n int, s0 int) (name, want string) {
	Assume(n >= 1)
	Assume(s0 >= 1)
	e := oscillator.NewProjectionOscillator(k, n, s0)
	return e.AnalysisSide().Name, e.Name
}

func C06_StochasticOscillator_name(k *klines.Item, n int) (name, want string) {
	Assume(n >= 1)
	e := oscillator.NewStochasticOscillator(k, n)
	return e.AnalysisSide().Name, e.Name
}

func C06_WilliamsR_name(k *klines.Item, n int) (name, want string) {
	Assume(n >= 1)
	e := oscillator.NewWilliamsR(k, n)
	return e.AnalysisSide().Name, e.Name
}

func C06_AiCoinCCI_name(k *klines.Item, n int) (name, want string) {
	Assume(n >= 1)
	e := trend.NewAiCoinCCI(k, n)
	return e.AnalysisSide().Name, e.Name
}

func C06_Cci_name(k *klines.Item, n int, s0 int) (name, want string) {
	Assume(n >= 1)
	Assume(s0 >= 1)
	e := trend.NewCci(k, n, s0)
	return e.AnalysisSide().Name, e.Name
}

func C06_EMAVegas_name(k *klines.Item, n int, s1 int, s2 int, g1 int, g2 int) (name, want string) {
	Assume(n >= 1)
	Assume(s1 >= 1)
	Assume(s2 >= 1)
	Assume(g1 >= 1)
	Assume(g2 >= 1)
	e := trend.NewEMAVegas(k, n, s1, s2, g1, g2)
	return e.AnalysisSide().Name, e.Name
}

func C06_Kdj_name(k *klines.Item, n int) (name, want string) {
	Assume(n >= 1)
	e := trend.NewKdj(k, n)
	return e.AnalysisSide().Name, e.Name
}

func C06_Macd_name(k *klines.Item, s0 int, g int, l int) (name, want string) {
	Assume(s0 >= 1)
	Assume(g >= 1)
	Assume(l >= 1)
	e := trend.NewMacd(k, s0, g, l)
	return e.AnalysisSide().Name, e.Name
}

func C06_PivotPointSuperTrend_name(k *klines.Item, n int, a0 int, w float64) (name, want string) {
	Assume(n >= 1)
	Assume(a0 >= 1)
	Assume(w > 0)
	e := trend.NewPivotPointSuperTrend(k, n, a0, w)
	return e.AnalysisSide().Name, e.Name
}

func C06_Rsi_name(k *klines.Item, n int) (name, want string) {
	Assume(n >= 1)
	e := trend.NewRsi(k, n)
	return e.AnalysisSide().Name, e.Name
}

func C06_StochRsi_name(k *klines.Item, sk int, sd int, rl int, sl int) (name, want string) {
	Assume(sk >= 1)
	Assume(sd >= 1)
	Assume(rl >= 1)
	Assume(sl >= 1)
	e := trend.NewStochRsi(k, sk, sd, rl, sl)
	return e.AnalysisSide().Name, e.Name
}

func C06_StochasticHeat_EMA_name(k *klines.Item, inc int, sf int, ss int, pn int) (name, want string) {
	Assume(inc >= 1)
	Assume(sf >= 1)
	Assume(ss >= 1)
	Assume(pn >= 1)
	e := trend.NewStochasticHeat(k, inc, sf, ss, pn, types.EMA)
	return e.AnalysisSide().Name, e.Name
}

func C06_StochasticHeat_SMA_name(k *klines.Item, inc int, sf int, ss int, pn int) (name, want string) {
	Assume(inc >= 1)
	Assume(sf >= 1)
	Assume(ss >= 1)
	Assume(pn >= 1)
	e := trend.NewStochasticHeat(k, inc, sf, ss, pn, types.SMA)
	return e.AnalysisSide().Name, e.Name
}

func C06_StochasticHeat_WMA_name(k *klines.Item, inc int, sf int, ss int, pn int) (name, want string) {
	Assume(inc >= 1)
	Assume(sf >= 1)
	Assume(ss >= 1)
	Assume(pn >= 1)
	e := trend.NewStochasticHeat(k, inc, sf, ss, pn, types.WMA)
	return e.AnalysisSide().Name, e.Name
}

func C06_SuperTrend_name(k *klines.Item, a0 int, w int, ch bool) (name, want string) {
	Assume(a0 >= 1)
	Assume(w >= 1)
	e := trend.NewSuperTrend(k, a0, w, ch)
	return e.AnalysisSide().Name, e.Name
}

func C06_TraderXO_name(k *klines.Item, f int, s0 int) (name, want string) {
	Assume(f >= 1)
	Assume(s0 >= 1)
	e := trend.NewTraderXO(k, f, s0)
	return e.AnalysisSide().Name, e.Name
}

func C06_UTBot_name(k *klines.Item, n int, a0 int) (name, want string) {
	Assume(n >= 1)
	Assume(a0 >= 1)
	e := trend.NewUTBot(k, n, a0)
	return e.AnalysisSide().Name, e.Name
}

func C06_MoneyFlowIndex_name(k *klines.Item, n int) (name, want string) {
	Assume(n >= 1)
	e := volume.NewMoneyFlowIndex(k, n)
	return e.AnalysisSide().Name, e.Name
}
