package zzverif

import (
	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils/klines"
)

// C09: the constructors of the smart-money analysis.

func C09_SMC_ohlc(k *klines.Item, s, b, t int) (name, wantName string, ps, wps, pb, wpb, pt, wpt, pn, wpn int, o, wo, h, wh, l, wl, c, wc []float64, u, wu []int64) {
	a := trend.NewSmartMoneyConcepts(k, s, b, t)
	v := k.GetOHLC()
	x := trend.NewSmartMoneyConceptsOHLC(v.Open, v.High, v.Low, v.Close, v.TimeUnix, s, b, t)
	o, h, l, c, u = a.ZZColumns()
	wo, wh, wl, wc, wu = x.ZZColumns()
	return a.Name, x.Name, a.SwingLenght, x.SwingLenght, a.EQHEQL_BarsConfirmation, x.EQHEQL_BarsConfirmation,
		a.EQHEQL_Threshold, x.EQHEQL_Threshold, a.OrderBlockNumber, x.OrderBlockNumber, o, wo, h, wh, l, wl, c, wc, u, wu
}

func C09_SMC_params(k *klines.Item, s, b, t int) (ps, wps, pb, wpb, pt, wpt int, c, wc []float64, u, wu []int64) {
	a := trend.NewSmartMoneyConcepts(k, s, b, t)
	_, _, _, c, u = a.ZZColumns()
	v := k.GetOHLC()
	return a.SwingLenght, s, a.EQHEQL_BarsConfirmation, b, a.EQHEQL_Threshold, t, c, v.Close, u, v.TimeUnix
}

func C09_SMC_default(k *klines.Item) (name, wantName string, ps, wps, pb, wpb, pt, wpt, pn, wpn int, o, wo, h, wh, l, wl, c, wc []float64, u, wu []int64) {
	a, x := trend.NewDefaultSmartMoneyConcepts(k), trend.NewSmartMoneyConcepts(k, 50, 3, 1)
	o, h, l, c, u = a.ZZColumns()
	wo, wh, wl, wc, wu = x.ZZColumns()
	return a.Name, x.Name, a.SwingLenght, x.SwingLenght, a.EQHEQL_BarsConfirmation, x.EQHEQL_BarsConfirmation,
		a.EQHEQL_Threshold, x.EQHEQL_Threshold, a.OrderBlockNumber, x.OrderBlockNumber, o, wo, h, wh, l, wl, c, wc, u, wu
}

// Clear forgets what a calculation found: nothing of it is served or carried into the next one.
func C02_SMC_clear(k *klines.Item, n, b, t int, i int) (bull, wantBull, bear, wantBear, points, candles int, hs, whs, ls, wls float64) {
	Assume(n >= 1)
	Assume(i >= 0)
	Assume(i < len(k.Candles))
	x := trend.NewSmartMoneyConcepts(k, n, b, t)
	x.Calculation()
	x.Clear()
	nb, ns := len(x.OrderBlockBullish), len(x.OrderBlockBearish)
	d := x.GetData()
	e := trend.NewSmartMoneyConcepts(k, n, b, t).GetData()
	return nb, 0, ns, 0, len(d), len(k.Candles), d[i].HighBOSShort, e[i].HighBOSShort, d[i].LowBOSShort, e[i].LowBOSShort
}

// A cleared item holds no candles.
func C02_Item_clear(k *klines.Item) (left, none int) {
	k.Clear()
	return len(k.Candles), 0
}
