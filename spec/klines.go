package zzverif

import (
	"math"
	"time"

	"github.com/idoall/stockindicator/channel"
	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils/commonutils"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/utils/ta"
)

// ---- C10: one true range

func C10_TRange(h, l, c []float64, i int) (n, wantN int, got, want float64) {
	Assume(len(h) == len(c))
	Assume(len(l) == len(c))
	Assume(i >= 1)
	Assume(i < len(c))
	t := ta.TRange(h, l, c)
	return len(t), len(c), t[i], refTR(h[i], l[i], c[i-1])
}

func C10_TrueRange(h, l, c []float64, i int) (n, wantN int, got, want float64) {
	Assume(len(h) == len(c))
	Assume(len(l) == len(c))
	Assume(i >= 1)
	Assume(i < len(c))
	t := ta.TrueRange(h, l, c)
	return len(t), len(c), t[i], refTR(h[i], l[i], c[i-1])
}

func C10_trendAtr(k *klines.Item, n, i int) (got, want float64, atr, wantAtr []float64) {
	Assume(n >= 1)
	Assume(i >= 1)
	Assume(i < len(k.Candles))
	tr, a := trend.NewAtr(k, n).GetValues()
	return tr[i], refTR(k.Candles[i].High, k.Candles[i].Low, k.Candles[i-1].Close), a, refRma(tr, n)
}

func C10_trendAtrData(k *klines.Item, n, i int) (got, want float64) {
	Assume(n >= 1)
	Assume(i >= 1)
	Assume(i < len(k.Candles))
	return trend.NewAtr(k, n).GetData()[i].TR, refTR(k.Candles[i].High, k.Candles[i].Low, k.Candles[i-1].Close)
}

func C10_taAtr(k *klines.Item, n, i int) (got, want float64) {
	Assume(n >= 1)
	Assume(i >= n)
	Assume(i < len(k.Candles))
	return ta.Atr(hi(k), lo(k), cl(k), n)[i], atr1(k, n)[i]
}

func C10_taNatr(k *klines.Item, n, i int) (got, want float64) {
	Assume(n >= 2)
	Assume(i >= n)
	Assume(i < len(k.Candles))
	t := trs(k)
	s := refSma(t, n)[n]
	for j := n + 1; j <= i; j++ {
		s = (s*float64(n-1) + t[j]) / float64(n)
	}
	return ta.Natr(hi(k), lo(k), cl(k), n)[i], div(s, k.Candles[i].Close) * 100
}

func C10_Keltner(k *klines.Item, n, i int) (got, want, down, wantDown float64) {
	Assume(n >= 1)
	Assume(i >= 0)
	Assume(i < len(k.Candles))
	d := channel.NewKeltnerChannel(k, n).GetData()[i]
	_, a := trend.NewAtr(k, n).GetValues()
	return d.Upper - d.Middle, 2 * a[i], d.Middle - d.Lower, 2 * a[i]
}

func C10_Adx(k *klines.Item, n, g, i int) (got, want float64) {
	Assume(n >= 1)
	Assume(g >= 1)
	Assume(i >= 1)
	Assume(i >= n-1)
	Assume(i < len(k.Candles))
	t, u := 0.0, 0.0
	for j := 1; j <= i; j++ {
		a, b := k.Candles[j], k.Candles[j-1]
		up, dn := a.High-b.High, b.Low-a.Low
		if up <= dn || up <= 0 {
			up = 0
		}
		t = t - t/float64(g) + refTR(a.High, a.Low, b.Close)
		u = u - u/float64(g) + up
	}
	return trend.NewAverageDirectionalIndex(k, n, g).GetData()[i].DIPlus, div(u, t) * 100
}

func C10_Vortex(k *klines.Item, n, i int) (got, want float64) {
	Assume(n >= 1)
	Assume(i >= 1)
	Assume(i < len(k.Candles))
	t, u := 0.0, 0.0
	for j := i; j >= 1 && j > i-n; j-- {
		a, b := k.Candles[j], k.Candles[j-1]
		t += refTR(a.High, a.Low, b.Close)
		u += math.Abs(a.High - b.Low)
	}
	return trend.NewVortex(k, n).GetData()[i].PlusVi, div(u, t)
}

// ---- C11: columns and typical prices

func C11_GetOHLC(k *klines.Item) (o, wantO, h, wantH, l, wantL, c, wantC, v, wantV []float64, b, wantB []bool, t, wantT []int64) {
	x := k.GetOHLC()
	wantB = make([]bool, len(k.Candles))
	wantT = make([]int64, len(k.Candles))
	for i, e := range k.Candles {
		wantB[i] = e.IsBullMarket
		wantT[i] = e.TimeUnix
	}
	return x.Open, op(k), x.High, hi(k), x.Low, lo(k), x.Close, cl(k), x.Volume, vo(k), x.BullMarket, wantB, x.TimeUnix, wantT
}

func C11_HL2(k *klines.Item) (got, want []float64) {
	return k.HL2(), refMap(len(k.Candles), func(i int) float64 {
		return (k.Candles[i].High + k.Candles[i].Low) / 2
	})
}

func C11_HLC3(k *klines.Item) (got, want []float64) {
	return k.HLC3(), refMap(len(k.Candles), func(i int) float64 {
		return (k.Candles[i].High + k.Candles[i].Low + k.Candles[i].Close) / 3
	})
}

func C11_OHLC4(k *klines.Item) (got, want []float64) {
	return k.OHLC4(), refMap(len(k.Candles), func(i int) float64 {
		return (k.Candles[i].Open + k.Candles[i].High + k.Candles[i].Low + k.Candles[i].Close) / 4
	})
}

func C11_HeikinAshi(k *klines.Item, i int) (n, wantN int, c, wantC, h, wantH, l, wantL float64, t, wantT int64, bull, wantBull bool) {
	Assume(i >= 0)
	Assume(i < len(k.Candles))
	a := k.ToHeikinAshi().Candles
	e, x := k.Candles[i], a[i]
	return len(a), len(k.Candles), x.Close, (e.Open + e.High + e.Low + e.Close) / 4,
		x.High, math.Max(e.High, math.Max(x.Open, e.Close)), x.Low, math.Min(e.Low, math.Min(x.Open, e.Close)),
		x.TimeUnix, e.TimeUnix, x.IsBullMarket, e.Close > e.Open
}

// C11_HeikinAshiOpen: the averaged open of the first candle and from the third on.
func C11_HeikinAshiOpen(k *klines.Item, i int) (first, wantFirst, open, wantOpen float64) {
	Assume(i >= 2)
	Assume(i < len(k.Candles))
	a := k.ToHeikinAshi().Candles
	e, p := k.Candles[0], k.Candles[i-1]
	return a[0].Open, (e.Open + e.Close) / 2, a[i].Open, (p.Open + p.Close) / 2
}

// ---- C13: derived items

func C13_HeikinAshi(k *klines.Item) (x, wantX, s, wantS, c, wantC string, n, wantN klines.Interval) {
	d := k.ToHeikinAshi()
	return d.Exchange, k.Exchange, d.Symbol, k.Symbol, d.Code, k.Code, d.Interval, k.Interval
}

// ---- C12: conversion and date checks answer unsuitable input with their error

func C12_nil(n klines.Interval) bool {
	var k *klines.Item
	r, err := k.ConvertToNewInterval(n)
	return r == nil && Wraps(err, "utils/klines.errNilKline")
}

func C12_oldInterval(k *klines.Item, n klines.Interval) bool {
	Assume(k.Interval <= 0)
	r, err := k.ConvertToNewInterval(n)
	return r == nil && Wraps(err, "utils/klines.ErrInvalidInterval")
}

func C12_newInterval(k *klines.Item, n klines.Interval) bool {
	Assume(k.Interval > 0)
	Assume(n <= 0)
	r, err := k.ConvertToNewInterval(n)
	return r == nil && Wraps(err, "utils/klines.ErrInvalidInterval")
}

func C12_upscale(k *klines.Item, n klines.Interval) bool {
	Assume(n > 0)
	Assume(n <= k.Interval)
	r, err := k.ConvertToNewInterval(n)
	return r == nil && Wraps(err, "utils/klines.ErrCanOnlyUpscaleCandles")
}

func C12_multiple(k *klines.Item, n klines.Interval) bool {
	Assume(k.Interval > 0)
	Assume(n > k.Interval)
	Assume(n%k.Interval != 0)
	r, err := k.ConvertToNewInterval(n)
	return r == nil && Wraps(err, "utils/klines.ErrWholeNumberScaling")
}

func C12_empty(k *klines.Item, n klines.Interval) bool {
	Assume(k.Interval > 0)
	Assume(n > k.Interval)
	Assume(n%k.Interval == 0)
	Assume(len(k.Candles) == 0)
	r, err := k.ConvertToNewInterval(n)
	return r == nil && Wraps(err, "utils/klines.ErrInsufficientCandleData")
}

func C12_padded(k *klines.Item, n klines.Interval) bool {
	Assume(k.Interval > 0)
	Assume(n > k.Interval)
	Assume(n%k.Interval == 0)
	m := len(k.Candles)
	Assume(m >= 1)
	window := time.Duration(k.Candles[m-1].TimeUnix-k.Candles[0].TimeUnix)*time.Second + time.Duration(k.Interval)
	Assume(int(window/time.Duration(k.Interval)) != m)
	r, err := k.ConvertToNewInterval(n)
	return r == nil && Wraps(err, "utils/klines.errCandleDataNotPadded")
}

func C12_few(k *klines.Item, n klines.Interval) bool {
	Assume(k.Interval > 0)
	Assume(n > k.Interval)
	Assume(n%k.Interval == 0)
	m := len(k.Candles)
	Assume(m >= 1)
	Assume(m < int(n/k.Interval))
	window := time.Duration(k.Candles[m-1].TimeUnix-k.Candles[0].TimeUnix)*time.Second + time.Duration(k.Interval)
	Assume(int(window/time.Duration(k.Interval)) == m)
	r, err := k.ConvertToNewInterval(n)
	return r == nil && Wraps(err, "utils/klines.ErrInsufficientCandleData")
}

func C12_startUnset(e time.Time) bool {
	var z time.Time
	return Wraps(commonutils.StartEndTimeCheck(z, e), "utils/commonutils.ErrDateUnset")
}

func C12_startEpoch(e time.Time) bool {
	return Wraps(commonutils.StartEndTimeCheck(time.Unix(0, 0), e), "utils/commonutils.ErrDateUnset")
}

func C12_endUnset(s time.Time) bool {
	return Wraps(commonutils.StartEndTimeCheck(s, time.Time{}), "utils/commonutils.ErrDateUnset") &&
		Wraps(commonutils.StartEndTimeCheck(s, time.Unix(0, 0)), "utils/commonutils.ErrDateUnset")
}

func C12_startAfterEnd(a, b int64) bool {
	Assume(b > 0)
	Assume(a > b)
	return Wraps(commonutils.StartEndTimeCheck(time.Unix(a, 0), time.Unix(b, 0)), "utils/commonutils.ErrStartAfterEnd")
}

func C12_startEqualsEnd(a int64) bool {
	Assume(a > 0)
	return Wraps(commonutils.StartEndTimeCheck(time.Unix(a, 0), time.Unix(a, 0)), "utils/commonutils.ErrStartEqualsEnd")
}

func C12_startAfterNow(a, b int64) bool {
	Assume(a > 0)
	Assume(b > a)
	Assume(time.Unix(a, 0).After(time.Now()))
	return Wraps(commonutils.StartEndTimeCheck(time.Unix(a, 0), time.Unix(b, 0)), "utils/commonutils.ErrStartAfterTimeNow")
}

func C12_datesFine(a, b int64) bool {
	Assume(a > 0)
	Assume(b > a)
	Assume(!time.Unix(a, 0).After(time.Now()))
	return commonutils.StartEndTimeCheck(time.Unix(a, 0), time.Unix(b, 0)) == nil
}

func C12_rangeStartUnset(e time.Time, n klines.Interval, limit uint32) bool {
	var z time.Time
	r, err := klines.CalculateCandleDateRanges(z, e, n, limit)
	return r == nil && Wraps(err, "utils/commonutils.ErrDateUnset")
}

func C12_rangeEndUnset(a int64, n klines.Interval, limit uint32) bool {
	Assume(a > 0)
	var z time.Time
	r, err := klines.CalculateCandleDateRanges(time.Unix(a, 0), z, n, limit)
	return r == nil && Wraps(err, "utils/commonutils.ErrDateUnset")
}

func C12_rangeInverted(a, b int64, n klines.Interval, limit uint32) bool {
	Assume(b > 0)
	Assume(a > b)
	r, err := klines.CalculateCandleDateRanges(time.Unix(a, 0), time.Unix(b, 0), n, limit)
	return r == nil && Wraps(err, "utils/commonutils.ErrStartAfterEnd")
}

func C12_rangeEqual(a int64, n klines.Interval, limit uint32) bool {
	Assume(a > 0)
	r, err := klines.CalculateCandleDateRanges(time.Unix(a, 0), time.Unix(a, 0), n, limit)
	return r == nil && Wraps(err, "utils/commonutils.ErrStartEqualsEnd")
}

func C12_rangeInterval(a, b int64, n klines.Interval, limit uint32) bool {
	Assume(a > 0)
	Assume(b > a)
	Assume(n <= 0)
	r, err := klines.CalculateCandleDateRanges(time.Unix(a, 0), time.Unix(b, 0), n, limit)
	return r == nil && Wraps(err, "utils/klines.ErrInvalidInterval")
}

func C12_rangeFine(a, b int64, n klines.Interval, limit uint32) bool {
	Assume(a > 0)
	Assume(b > a)
	Assume(n > 0)
	r, err := klines.CalculateCandleDateRanges(time.Unix(a, 0), time.Unix(b, 0), n, limit)
	return r != nil && err == nil
}

// C12_safe*: no panic is reachable outside the aggregation loops.

func C12_safeConvert(k *klines.Item, m int64) error {
	n := klines.Interval(m) * klines.OneMin
	_, err := k.ConvertToNewInterval(n)
	return err
}

func C12_safeRange(s, e time.Time, n klines.Interval, limit uint32) error {
	_, err := klines.CalculateCandleDateRanges(s, e, n, limit)
	return err
}

func C12_safeCheck(s, e time.Time) error {
	return commonutils.StartEndTimeCheck(s, e)
}

// ---- C13, C14: derived items and in-place filters

func keepRange(k *klines.Item, a, b int64) []*klines.Candle {
	out, n := make([]*klines.Candle, len(k.Candles)), 0
	for _, c := range k.Candles {
		if c.TimeUnix >= a && c.TimeUnix < b {
			out[n] = c
			n++
		}
	}
	return out[:n]
}

func C14_RemoveOutsideRange(k *klines.Item, a, b int64) (got, want []*klines.Candle) {
	Assume(a < b)
	a, b = 1600000000+30*a, 1600000000+30*b
	want = keepRange(k, a, b)
	k.RemoveOutsideRange(time.Unix(a, 0), time.Unix(b, 0))
	return k.Candles, want
}

func C14_RemoveOutsideRangeCopy(k *klines.Item, a, b int64) (got, want []*klines.Candle) {
	Assume(a < b)
	a, b = 1600000000+30*a, 1600000000+30*b
	want = keepRange(k, a, b)
	return k.RemoveOutsideRangeCopy(time.Unix(a, 0), time.Unix(b, 0)).Candles, want
}

func C14_RemoveDuplicates(k *klines.Item) (got, want []*klines.Candle) {
	out, n := make([]*klines.Candle, len(k.Candles)), 0
	for i, c := range k.Candles {
		dup := false
		for j := 0; j < i; j++ {
			if k.Candles[j].TimeUnix == c.TimeUnix {
				dup = true
			}
		}
		if !dup {
			out[n] = c
			n++
		}
	}
	k.RemoveDuplicates()
	return k.Candles, out[:n]
}

func modelSortLess(s []*klines.Candle, less func(i, j int) bool) {
	out := make([]*klines.Candle, len(s))
	for i := range s {
		r := 0
		for j := range s {
			if less(j, i) || (j < i && !less(i, j)) {
				r++
			}
		}
		out[r] = s[i]
	}
	copy(s, out)
}

func modelSortCmp(s []*klines.Candle, cmp func(a, b *klines.Candle) int) {
	modelSortLess(s, func(i, j int) bool { return cmp(s[i], s[j]) < 0 })
}

// C14_Sort: ascending, or descending when asked to (only the times are compared: equal times
// may be ordered either way).
func C14_Sort(k *klines.Item, desc bool, i int) (n, wantN int, t, wantT int64) {
	Assume(i >= 0)
	Assume(i < len(k.Candles))
	w := make([]int64, len(k.Candles))
	for i, c := range k.Candles {
		r := 0
		for j, d := range k.Candles {
			before := d.TimeUnix < c.TimeUnix
			if desc {
				before = d.TimeUnix > c.TimeUnix
			}
			if before || (j < i && d.TimeUnix == c.TimeUnix) {
				r++
			}
		}
		w[r] = c.TimeUnix
	}
	l := len(k.Candles)
	k.SortCandlesByTimestamp(desc)
	return len(k.Candles), l, k.Candles[i].TimeUnix, w[i]
}

// C13_Convert: the identity fields of a converted item.
func C13_Convert(k *klines.Item, n klines.Interval) (x, wantX, s, wantS, c, wantC string, v, wantV klines.Interval) {
	ex, sy, co := k.Exchange, k.Symbol, k.Code
	d, err := k.ConvertToNewInterval(n)
	if err != nil {
		return ex, ex, sy, sy, co, co, n, n
	}
	return d.Exchange, ex, d.Symbol, sy, d.Code, co, d.Interval, n
}

// C13_ConvertLeaves: converting leaves the source as it was, and so does writing through a
// candle of the result.
func C13_ConvertLeaves(k *klines.Item, n klines.Interval, i, j int, v float64) (l, wantL int, h, wantH, o, wantO float64, t, wantT int64) {
	Assume(i >= 0)
	Assume(i < len(k.Candles))
	Assume(j >= 0)
	ln, e := len(k.Candles), *k.Candles[i]
	d, err := k.ConvertToNewInterval(n)
	if err == nil && j < len(d.Candles) {
		d.Candles[j].High = v
		d.Candles[j].Open = v
		d.Candles[j].TimeUnix = 7
	}
	g := k.Candles[i]
	return len(k.Candles), ln, g.High, e.High, g.Open, e.Open, g.TimeUnix, e.TimeUnix
}

func C13_RangeCopy(k *klines.Item, a, b time.Time) (x, wantX, s, wantS, c, wantC string, v, wantV klines.Interval) {
	ex, sy, co, in := k.Exchange, k.Symbol, k.Code, k.Interval
	d := k.RemoveOutsideRangeCopy(a, b)
	return d.Exchange, ex, d.Symbol, sy, d.Code, co, d.Interval, in
}

// C13_RangeCopyLeaves: filtering a copy leaves the source as it was, and so does writing
// through a candle of the copy.
func C13_RangeCopyLeaves(k *klines.Item, a, b int64, i, j int, v float64) (n, wantN int, h, wantH float64, t, wantT int64) {
	Assume(i >= 0)
	Assume(i < len(k.Candles))
	Assume(j >= 0)
	l, hi, tu := len(k.Candles), k.Candles[i].High, k.Candles[i].TimeUnix
	d := k.RemoveOutsideRangeCopy(time.Unix(a, 0), time.Unix(b, 0))
	if j < len(d.Candles) {
		d.Candles[j].High = v
		d.Candles[j].TimeUnix = 7
	}
	return len(k.Candles), l, k.Candles[i].High, hi, k.Candles[i].TimeUnix, tu
}

func C13_HeikinAshiLeaves(k *klines.Item, i, j int, v float64) (n, wantN int, h, wantH, o, wantO, c, wantC float64, t, wantT int64) {
	Assume(i >= 0)
	Assume(i < len(k.Candles))
	Assume(j >= 0)
	l, e := len(k.Candles), *k.Candles[i]
	d := k.ToHeikinAshi()
	if j < len(d.Candles) {
		d.Candles[j].High = v
		d.Candles[j].Open = v
		d.Candles[j].Close = v
		d.Candles[j].TimeUnix = 7
	}
	g := k.Candles[i]
	return len(k.Candles), l, g.High, e.High, g.Open, e.Open, g.Close, e.Close, g.TimeUnix, e.TimeUnix
}

// ---- C28: each aggregated candle summarises its own group

// spaced are k's candles every u seconds, the first one off steps after the start of a span of m.
func spaced(k *klines.Item, u, m int64, off int) *klines.Item {
	cs := make([]*klines.Candle, len(k.Candles))
	for i, c := range k.Candles {
		cs[i] = &klines.Candle{TimeUnix: spanBase(u, m) + u*int64(i+off), Open: c.Open, High: c.High, Low: c.Low, Close: c.Close, Volume: c.Volume}
	}
	return &klines.Item{Interval: klines.Interval(u) * klines.Interval(time.Second), Candles: cs}
}

// spanBase starts a span of m*u seconds: spans are counted from the zero time.
func spanBase(u, m int64) int64 { return u*m*400000 - 62135596800%(u*m) }

func group(k *klines.Item, lo, hi int) (h, l, v float64) {
	h, l = k.Candles[lo].High, k.Candles[lo].Low
	for i := lo; i < hi; i++ {
		h = math.Max(h, k.Candles[i].High)
		l = math.Min(l, k.Candles[i].Low)
		v += k.Candles[i].Volume
	}
	return
}

func aggregated(k *klines.Item, u int64, m, off, q int) (n, wantN int, t, wantT int64, o, wantO, h, wantH, l, wantL, c, wantC, v, wantV, p, wantP float64, b, wantB bool) {
	Assume(q >= 0)
	// the new candles start at the multiple of m nearest to the first candle
	first := -off
	if off > m-off {
		first = m - off
	}
	lo, hi := first+q*m, first+q*m+m
	Assume(lo < len(k.Candles))
	Assume(m <= len(k.Candles))
	if lo < 0 {
		lo = 0
	}
	if hi > len(k.Candles) {
		hi = len(k.Candles)
	}
	s := spaced(k, u, int64(m), off)
	d, err := s.ConvertToNewInterval(klines.Interval(m) * klines.Interval(u) * klines.Interval(time.Second))
	if err != nil {
		return 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, false, true
	}
	if q >= len(d.Candles) {
		return
	}
	g := d.Candles[q]
	gh, gl, gv := group(k, lo, hi)
	if off == 0 {
		n, wantN = len(d.Candles), len(k.Candles)/m
	}
	first0, last := k.Candles[lo].Open, k.Candles[hi-1].Close
	return n, wantN, g.TimeUnix, spanBase(u, int64(m)) + u*int64(first+off+q*m), g.Open, first0, g.High, gh, g.Low, gl, g.Close, last, g.Volume, gv, g.ChangePercent, (last - first0) / first0, g.IsBullMarket, last > first0
}

func C28_Two(k *klines.Item, q int) (n, wantN int, t, wantT int64, o, wantO, h, wantH, l, wantL, c, wantC, v, wantV, p, wantP float64, b, wantB bool) {
	return aggregated(k, 60, 2, 0, q)
}

func C28_Three(k *klines.Item, q int) (n, wantN int, t, wantT int64, o, wantO, h, wantH, l, wantL, c, wantC, v, wantV, p, wantP float64, b, wantB bool) {
	return aggregated(k, 60, 3, 0, q)
}

func C28_ThreeOff1(k *klines.Item, q int) (n, wantN int, t, wantT int64, o, wantO, h, wantH, l, wantL, c, wantC, v, wantV, p, wantP float64, b, wantB bool) {
	return aggregated(k, 60, 3, 1, q)
}

func C28_ThreeOff2(k *klines.Item, q int) (n, wantN int, t, wantT int64, o, wantO, h, wantH, l, wantL, c, wantC, v, wantV, p, wantP float64, b, wantB bool) {
	return aggregated(k, 60, 3, 2, q)
}

func C28_Seconds(k *klines.Item, q int) (n, wantN int, t, wantT int64, o, wantO, h, wantH, l, wantL, c, wantC, v, wantV, p, wantP float64, b, wantB bool) {
	return aggregated(k, 15, 3, 0, q)
}

func C28_SecondsOff1(k *klines.Item, q int) (n, wantN int, t, wantT int64, o, wantO, h, wantH, l, wantL, c, wantC, v, wantV, p, wantP float64, b, wantB bool) {
	return aggregated(k, 15, 3, 1, q)
}

func C28_Hours(k *klines.Item, q int) (n, wantN int, t, wantT int64, o, wantO, h, wantH, l, wantL, c, wantC, v, wantV, p, wantP float64, b, wantB bool) {
	return aggregated(k, 3600, 4, 0, q)
}

func C28_HoursOff3(k *klines.Item, q int) (n, wantN int, t, wantT int64, o, wantO, h, wantH, l, wantL, c, wantC, v, wantV, p, wantP float64, b, wantB bool) {
	return aggregated(k, 3600, 4, 3, q)
}

func C28_Days(k *klines.Item, q int) (n, wantN int, t, wantT int64, o, wantO, h, wantH, l, wantL, c, wantC, v, wantV, p, wantP float64, b, wantB bool) {
	return aggregated(k, 86400, 3, 0, q)
}
