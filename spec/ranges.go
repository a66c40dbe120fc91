package zzverif

import (
	"time"

	"github.com/idoall/stockindicator/utils/klines"
)

// C31: date-range planning tiles the requested window.

func C31_total(a, b int64, n klines.Interval) (got, want int64) {
	Assume(n > 0)
	Assume(b >= a)
	return klines.TotalCandlesPerInterval(time.Unix(a, 0), time.Unix(b, 0), n),
		int64(time.Unix(b, 0).Sub(time.Unix(a, 0))) / int64(n)
}

func C31_totalUnset(a, b int64, n klines.Interval) bool {
	Assume(n <= 0)
	return klines.TotalCandlesPerInterval(time.Unix(a, 0), time.Unix(b, 0), n) == 0
}

func C31_intervalTime(a, b int64) (ticks, wantTicks, unix, wantUnix int64, same, wantSame bool) {
	t := klines.CreateIntervalTime(time.Unix(a, 0))
	return t.Ticks, a, t.Time.Unix(), a, t.Equal(time.Unix(b, 0)), a == b
}

// first is the first second of a span rounded to the interval of m minutes.
func first(a, m int64) int64 { return time.Unix(a, 0).Round(time.Duration(m) * time.Minute).Unix() }

func plan(a, c, m int64, limit uint32) *klines.IntervalRangeHolder {
	r, _ := klines.CalculateCandleDateRanges(time.Unix(a, 0), time.Unix(a+c*m*60, 0), klines.Interval(m)*klines.OneMin, limit)
	return r
}

// One request when the limit is not exceeded.
func C31_one(m, a, c int64, limit uint32, y int) (ranges, wantRanges, n, wantN int, s, ws, e, we, s0, ws0, e0, we0, hs, whs, he, whe int64) {
	Assume(m >= 1)
	Assume(a >= 1)
	Assume(c >= 1)
	f := first(a, m)
	Assume(c <= int64(limit))
	Assume(y >= 0)
	Assume(int64(y) < c)
	r := plan(a, c, m, limit)
	v := r.Ranges[0]
	t := f + int64(y)*m*60
	return len(r.Ranges), 1, len(v.Intervals), int(c),
		v.Intervals[y].Start.Ticks, t, v.Intervals[y].End.Ticks, t + m*60,
		v.Start.Ticks, f, v.End.Ticks, f + c*m*60, r.Start.Ticks, f, r.End.Ticks, f + c*m*60
}

// One request for everything when there is no limit.
func C31_unlimited(m, a, c int64, y int) (ranges, wantRanges, n, wantN, limit, wantLimit int, s, ws, e, we, he, whe int64) {
	Assume(m >= 1)
	Assume(a >= 1)
	Assume(c >= 1)
	f := first(a, m)
	Assume(c < 1000000)
	Assume(y >= 0)
	Assume(int64(y) < c)
	r := plan(a, c, m, 0)
	v := r.Ranges[0]
	t := f + int64(y)*m*60
	return len(r.Ranges), 1, len(v.Intervals), int(c), r.Limit, int(c),
		v.Intervals[y].Start.Ticks, t, v.Intervals[y].End.Ticks, t + m*60,
		r.End.Ticks, f + c*m*60
}

// Several requests, all but the last of them full.
func C31_several(m, a, c int64, limit uint32, x, y int) (ranges, wantRanges, n, wantN int, s, ws, e, we, s0, ws0, e0, we0, he, whe int64) {
	Assume(m >= 1)
	Assume(a >= 1)
	Assume(c >= 1)
	Assume(limit >= 1)
	f := first(a, m)
	Assume(c > int64(limit))
	Assume(c < 1000000)
	l := int(limit)
	rs := (int(c) + l - 1) / l
	Assume(x >= 0)
	Assume(x < rs)
	last := min(l, int(c)-x*l)
	Assume(y >= 0)
	Assume(y < last)
	r := plan(a, c, m, limit)
	v := r.Ranges[x]
	g := f + int64(x*l)*m*60
	t := g + int64(y)*m*60
	return len(r.Ranges), rs, len(v.Intervals), last,
		v.Intervals[y].Start.Ticks, t, v.Intervals[y].End.Ticks, t + m*60,
		v.Start.Ticks, g, v.End.Ticks, g + int64(last)*m*60, r.End.Ticks, f + c*m*60
}

// HasDataAtDate answers for the slot that contains the date: requests of l
// slots, each step seconds long, marked those at r modulo m.
func C31_hasData(m, r int, s, step int64, l, n, x, y int, off int64) (got, want bool) {
	Assume(step >= 1)
	Assume(l >= 1)
	Assume(n >= 1)
	Assume(m >= 1)
	Assume(x >= 0)
	Assume(x < n)
	Assume(y >= 0)
	Assume(y < l)
	Assume(off >= 0)
	Assume(off < step)
	a := s + int64(x*l+y)*step + off
	return marked(m, r, s, step, l, n).HasDataAtDate(time.Unix(a, 0)), (x*l+y)%m == r
}

func C31_noData(m, r int, s, step int64, l, n int, a int64) bool {
	Assume(step >= 1)
	Assume(l >= 1)
	Assume(n >= 1)
	Assume(m >= 1)
	d := time.Unix(a, 0)
	return !marked(m, r, s, step, l, n).HasDataAtDate(d) || a >= s && a < s+int64(n*l)*step
}

func marked(m, r int, s, step int64, l, n int) *klines.IntervalRangeHolder {
	at := func(i int) klines.IntervalTime { return klines.IntervalTime{Ticks: s + int64(i)*step} }
	h := &klines.IntervalRangeHolder{Start: at(0), End: at(n * l), Ranges: make([]klines.IntervalRange, n)}
	for i := range h.Ranges {
		v := make([]klines.IntervalData, l)
		for j := range v {
			v[j] = klines.IntervalData{Start: at(i*l + j), End: at(i*l + j + 1), HasData: (i*l+j)%m == r}
		}
		h.Ranges[i] = klines.IntervalRange{Start: at(i * l), End: at(i*l + l), Intervals: v}
	}
	return h
}

// Two moments of the same second are equal for an interval time.
func C31_sameSecond(a, b, m, n int64) (got, want bool) {
	Assume(m >= 0)
	Assume(m < 1000000000)
	Assume(n >= 0)
	Assume(n < 1000000000)
	t := klines.CreateIntervalTime(time.Unix(a, m))
	return t.Equal(time.Unix(b, n)), a == b
}

func at(s int64) klines.IntervalTime { return klines.CreateIntervalTime(time.Unix(s, 0)) }

// Padding: one candle per interval of the window, the given one where there is
// one and an empty one elsewhere.
func C31_pad(k *klines.Item, q, c int64, m, y int) (n, wantN int, u, wantU int64, p, wantP float64) {
	Assume(m >= 1)
	Assume(c >= 1)
	Assume(y >= 0)
	Assume(int64(y) < c)
	Assume(len(k.Candles) > 0)
	Assume(q >= 0)
	step := int64(m) * 60
	a := k.Candles[0].TimeUnix - q*step
	x := &klines.Item{Interval: klines.Interval(m) * klines.OneMin, Candles: k.Candles}
	if x.ZZPad(at(a), at(a+c*step), false) != nil {
		return int(c), int(c), 0, 0, 0, 0
	}
	t := a + int64(y)*step
	for _, v := range k.Candles {
		if v.TimeUnix == t {
			wantP = v.Close
		}
	}
	return len(x.Candles), int(c), x.Candles[y].TimeUnix, t, x.Candles[y].Close, wantP
}

func C31_padInterval(k *klines.Item, a, b int64) bool {
	Assume(k.Interval <= 0)
	return Wraps(k.ZZPad(at(a), at(b), false), "utils/klines.ErrInvalidInterval")
}

func C31_padWindow(k *klines.Item, a, b int64) bool {
	Assume(k.Interval > 0)
	Assume(b <= a)
	return Wraps(k.ZZPad(at(a), at(b), false), "utils/klines.errCannotEstablishTimeWindow")
}

func C31_padNil(a, b int64) bool {
	var k *klines.Item
	return Wraps(k.ZZPad(at(a), at(b), false), "utils/klines.errNilKline")
}

// A candle before the window is not aligned with it.
func C31_padEarly(k *klines.Item, d, c int64, m int) bool {
	Assume(m >= 1)
	Assume(c >= 1)
	Assume(len(k.Candles) > 0)
	Assume(d >= 1)
	a := k.Candles[0].TimeUnix + d
	x := &klines.Item{Interval: klines.Interval(m) * klines.OneMin, Candles: k.Candles}
	return Wraps(x.ZZPad(at(a), at(a+c*int64(m)*60), false), "utils/klines.errCandleOpenTimeIsNotUTCAligned")
}

// Purging drops a last candle that holds nothing.
func C31_padPurge(k *klines.Item, q, c int64, m int) (n, wantN int, u, wantU int64) {
	Assume(m >= 1)
	Assume(c >= 2)
	Assume(len(k.Candles) > 0)
	Assume(q >= 0)
	step := int64(m) * 60
	a := k.Candles[0].TimeUnix - q*step
	x := &klines.Item{Interval: klines.Interval(m) * klines.OneMin, Candles: k.Candles}
	if x.ZZPad(at(a), at(a+c*step), true) != nil {
		return 0, 0, 0, 0
	}
	wantN = int(c) - 1
	for _, v := range k.Candles {
		if v.TimeUnix == a+(c-1)*step {
			wantN = int(c)
		}
	}
	return len(x.Candles), wantN, x.Candles[0].TimeUnix, a
}
