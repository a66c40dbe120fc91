package zzverif

import (
	"math"

	"github.com/idoall/stockindicator/channel"
	"github.com/idoall/stockindicator/utils/klines"
)

func C23_Boll(k *klines.Item, n, w int) (middle, wantMiddle, upper, wantUpper, lower, wantLower, md, wantMD []float64) {
	Assume(n >= 1)
	Assume(w >= 1)
	d := channel.NewBoll(k, n, w).GetData()
	c := cl(k)
	mid := runSma(c, n)
	// sum of squares of the window
	sd := make([]float64, len(c))
	q := 0.0
	for i := range c {
		q += c[i] * c[i]
		if i >= n-1 {
			sd[i] = math.Sqrt(q/float64(n) - mid[i]*mid[i])
			q -= c[i-n+1] * c[i-n+1]
		}
	}
	return refMap(len(d), func(i int) float64 { return d[i].Middle }), mid,
		refMap(len(d), func(i int) float64 { return d[i].Upper }), refMap(len(c), func(i int) float64 { return mid[i] + float64(w)*sd[i] }),
		refMap(len(d), func(i int) float64 { return d[i].Lower }), refMap(len(c), func(i int) float64 { return mid[i] - float64(w)*sd[i] }),
		refMap(len(d), func(i int) float64 { return d[i].MD }), sd
}

func C23_Donchian(k *klines.Item, n int) (upper, wantUpper, lower, wantLower, middle, wantMiddle []float64) {
	Assume(n >= 1)
	d := channel.NewDonchianChannel(k, n).GetData()
	c := cl(k)
	u, l := winMax(c, n), winMin(c, n)
	return refMap(len(d), func(i int) float64 { return d[i].Upper }), u,
		refMap(len(d), func(i int) float64 { return d[i].Lower }), l,
		refMap(len(d), func(i int) float64 { return d[i].Middle }), refMap(len(c), func(i int) float64 { return (u[i] + l[i]) / 2 })
}

func C23_Keltner(k *klines.Item, n int) (upper, wantUpper, lower, wantLower, middle, wantMiddle []float64) {
	Assume(n >= 1)
	d := channel.NewKeltnerChannel(k, n).GetData()
	c := cl(k)
	mid, atr := refEma(c, n), refAtr(k, n)
	return refMap(len(d), func(i int) float64 { return d[i].Upper }), refMap(len(c), func(i int) float64 { return mid[i] + 2*atr[i] }),
		refMap(len(d), func(i int) float64 { return d[i].Lower }), refMap(len(c), func(i int) float64 { return mid[i] - 2*atr[i] }),
		refMap(len(d), func(i int) float64 { return d[i].Middle }), mid
}

func C23_Ulcer(k *klines.Item, n int) (ulcer, want []float64) {
	Assume(n >= 1)
	d := channel.NewUlcerIndex(k, n).GetData()
	c := cl(k)
	m := winMax(c, n)
	sq := refMap(len(c), func(i int) float64 { x := div(c[i]-m[i], m[i]) * 100; return x * x })
	a := refEma(sq, n)
	return refMap(len(d), func(i int) float64 { return d[i].Value }), refMap(len(c), func(i int) float64 { return math.Sqrt(a[i]) })
}
