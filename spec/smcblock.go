package zzverif

import (
	"time"

	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils/klines"
)

func C29_blockTop(k *klines.Item, atr []float64, i, loc int) (isTop bool, wTop bool, at, wAt time.Time, o, wo, h, wh, l, wl, c, wc float64) {
	return c29block(k, atr, true, i, loc)
}

func C29_blockBottom(k *klines.Item, atr []float64, i, loc int) (isTop bool, wTop bool, at, wAt time.Time, o, wo, h, wh, l, wl, c, wc float64) {
	return c29block(k, atr, false, i, loc)
}

func c29block(k *klines.Item, atr []float64, top bool, i, loc int) (isTop bool, wTop bool, at, wAt time.Time, o, wo, h, wh, l, wl, c, wc float64) {
	Assume(loc >= 0)
	Assume(loc < i)
	Assume(i < len(k.Candles))
	Assume(len(atr) == len(k.Candles))
	oh := k.GetOHLC()
	b := trend.NewSmartMoneyConcepts(k, 5, 3, 1).ZZBlock(top, i, loc, oh.High[:i+1], oh.Low[:i+1], atr[:i+1])
	w := smcBlock(oh.High, oh.Low, atr, top, i, loc)
	x := k.Candles[w]
	return b.IsTop, top, b.Time, time.Unix(x.TimeUnix, 0), b.Open, x.Open, b.High, x.High, b.Low, x.Low, b.Close, x.Close
}
