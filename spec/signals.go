package zzverif

import (
	"github.com/idoall/stockindicator/oscillator"
	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils"
	"github.com/idoall/stockindicator/utils/klines"
)

// ---- C06: rules that look further back than one point

// C06_EMAVegas: the first line beyond the short tunnel, the short tunnel beyond the long one, the
// candle in the same direction, and a cross of the outer tunnel lines within the last ten points.
func C06_EMAVegas(k *klines.Item, n, s1, s2, g1, g2 int, i int) (signal, want utils.Side) {
	Assume(n >= 1)
	Assume(s1 >= 1)
	Assume(s2 >= 1)
	Assume(g1 >= 1)
	Assume(g2 >= 1)
	Assume(i >= 11)
	Assume(i < len(k.Candles))
	e := trend.NewEMAVegas(k, n, s1, s2, g1, g2)
	s, d := e.AnalysisSide().Data, e.GetData()
	bull := k.GetOHLC().BullMarket[i]
	up, down := false, false
	for j := i - 10; j < i; j++ {
		if d[j].Short2Value > d[j].Long2Value && d[j-1].Short2Value < d[j-1].Long2Value {
			up = true
		}
		if d[j].Short2Value < d[j].Long2Value && d[j-1].Short2Value > d[j-1].Long2Value {
			down = true
		}
	}
	x := d[i]
	above := x.Short1Value > x.Long1Value && x.Short1Value > x.Long2Value && x.Short2Value > x.Long1Value && x.Short2Value > x.Long2Value
	below := x.Short1Value < x.Long1Value && x.Short1Value < x.Long2Value && x.Short2Value < x.Long1Value && x.Short2Value < x.Long2Value
	want = utils.Hold
	if x.Value > x.Short1Value && above && bull && up {
		want = utils.Buy
	} else if x.Value < x.Short1Value && below && !bull && down {
		want = utils.Sell
	}
	return s[i], want
}

// C06_TraderXO: the first point with the fast line above (below) the slow one since it was last
// below (above).
func C06_TraderXO(k *klines.Item, f, s int, i int) (signal, want utils.Side) {
	Assume(f >= 1)
	Assume(s >= 1)
	Assume(i >= 1)
	Assume(i < len(k.Candles))
	e := trend.NewTraderXO(k, f, s)
	sd, d := e.AnalysisSide().Data, e.GetData()
	last := 0
	for j := 1; j < i; j++ {
		if d[j].Fast > d[j].Slow {
			last = 1
		} else if d[j].Fast < d[j].Slow {
			last = -1
		}
	}
	want = utils.Hold
	if d[i].Fast > d[i].Slow && last != 1 {
		want = utils.Buy
	} else if d[i].Fast < d[i].Slow && last != -1 {
		want = utils.Sell
	}
	return sd[i], want
}

// C06_Camarilla: the candle crosses the fourth level of its day against the moving average.
func C06_Camarilla(k, day *klines.Item, n int, i int) (signal, want utils.Side) {
	Assume(n >= 1)
	Assume(i >= 0)
	Assume(i < len(k.Candles))
	e := oscillator.NewCamarilla(k, n)
	s, d := e.AnalysisSide(day).Data, e.GetData()
	days := oscillator.NewCamarilla(day, n).GetData()
	h4 := 0.0
	for j := 0; j <= i; j++ {
		for _, x := range days {
			if x.Time.Year() == d[j].Time.Year() && x.Time.Month() == d[j].Time.Month() && x.Time.Day() == d[j].Time.Day() {
				h4 = x.High4
				break
			}
		}
	}
	c := k.Candles[i]
	want = utils.Hold
	if h4 > 0 && c.Close < d[i].EMA && c.Close > h4 && c.Open < h4 {
		want = utils.Buy
	} else if h4 > 0 && c.Close > d[i].EMA && c.Close < h4 && c.Open > h4 {
		want = utils.Sell
	}
	return s[i], want
}
