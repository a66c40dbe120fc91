package zzverif

import (
	"time"

	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils/klines"
)

// ---- C29: smart money structure marks

// smcHigh and smcLow are the extremes of the n candles that end at candle i.
func smcHigh(k *klines.Item, i, n int) float64 {
	m := k.Candles[i].High
	for t := i - 1; t > i-n && t >= 0; t-- {
		if k.Candles[t].High > m {
			m = k.Candles[t].High
		}
	}
	return m
}

func smcLow(k *klines.Item, i, n int) float64 {
	m := k.Candles[i].Low
	for t := i - 1; t > i-n && t >= 0; t-- {
		if k.Candles[t].Low < m {
			m = k.Candles[t].Low
		}
	}
	return m
}

// smcTurn is the swing state after candle i: 0 when the candle n back is above everything since, 1
// when it is below everything since, and otherwise what it was.
func smcTurn(k *klines.Item, i, n, was int) int {
	if i < n {
		return was
	}
	if k.Candles[i-n].High > smcHigh(k, i, n) {
		return 0
	}
	if k.Candles[i-n].Low < smcLow(k, i, n) {
		return 1
	}
	return was
}

type smcState struct {
	hiBOS, hiCHoCH, loBOS, loCHoCH []float64
}

// smcLong marks the long structure (swings of n candles).
func smcLong(k *klines.Item, n int) smcState {
	c := len(k.Candles)
	s := smcState{make([]float64, c), make([]float64, c), make([]float64, c), make([]float64, c)}
	state, dir := 0, 0
	top, btm := 0.0, 0.0
	topAt, btmAt := 0, 0
	topOpen, btmOpen := true, true
	for i := 1; i < c; i++ {
		if i < n {
			continue
		}
		now := smcTurn(k, i, n, state)
		if now == 0 && state != 0 {
			top, topAt, topOpen = k.Candles[i-n].High, i-n, true
		}
		if now == 1 && state != 1 {
			btm, btmAt, btmOpen = k.Candles[i-n].Low, i-n, true
		}
		state = now
		if topOpen && k.Candles[i].Close > top && k.Candles[i-1].Close < top {
			for t := topAt; t <= i; t++ {
				if dir < 0 {
					s.hiCHoCH[t] = top
				} else {
					s.hiBOS[t] = top
				}
			}
			topOpen, dir = false, 1
		}
		if btmOpen && k.Candles[i].Close < btm && k.Candles[i-1].Close > btm {
			for t := btmAt; t <= i; t++ {
				if dir > 0 {
					s.loCHoCH[t] = btm
				} else {
					s.loBOS[t] = btm
				}
			}
			btmOpen, dir = false, -1
		}
	}
	return s
}

func C29_long(k *klines.Item, n, b, th int, i int) (hb, whb, hc, whc, lb, wlb, lc, wlc float64) {
	Assume(n >= 1)
	Assume(i >= 0)
	Assume(i < len(k.Candles))
	s := smcLong(k, n)
	d := trend.NewSmartMoneyConcepts(k, n, b, th).GetData()
	return d[i].HighBOSLong, s.hiBOS[i], d[i].HighCHoCHLong, s.hiCHoCH[i], d[i].LowBOSLong, s.loBOS[i], d[i].LowChoCHLong, s.loCHoCH[i]
}

func C29_time(k *klines.Item, n, b, th int, i int) (t, want time.Time) {
	Assume(n >= 1)
	Assume(i >= 0)
	Assume(i < len(k.Candles))
	d := trend.NewSmartMoneyConcepts(k, n, b, th).GetData()
	return d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

// smcBlock says which candle of the span loc..i an order block describes: among the candles whose
// range is below twice the average range the one with the highest high (the lowest low) and the
// candle before the crossing when there is none.
func smcBlock(highs, lows, atr []float64, top bool, i, loc int) int {
	at, seen := i-1, false
	best := 0.0
	for t := i; t >= loc; t-- {
		if highs[t]-lows[t] < atr[t]*2 {
			if top && (!seen || highs[t] >= best) {
				at, best, seen = t, highs[t], true
			}
			if !top && (!seen || lows[t] <= best) {
				at, best, seen = t, lows[t], true
			}
		}
	}
	return at
}

// A list of order blocks keeps what is not removed, in order; a block already listed is not listed
// twice, a new one comes first.
func C29_list(a, b, c trend.SmartMoneyConceptsDataOrderBlock) (n0, w0 int, f0, wf0, f1, wf1 float64, n1, w1 int, g0, wg0, g1, wg1 float64, n2, w2 int, h0, wh0, h1, wh1 float64, has, wHas, hasNot, wHasNot bool) {
	Assume(!a.Time.Equal(b.Time))
	Assume(!a.Time.Equal(c.Time))
	Assume(!b.Time.Equal(c.Time))
	two := trend.SmartMoneyConceptsDataOrderBlockList{a, b}
	three := trend.SmartMoneyConceptsDataOrderBlockList{a, b, c}
	added := two.Add(c)
	again := two.Add(b)
	left := three.Remove(b)
	return len(added), 3, added[0].Close, c.Close, added[2].Close, b.Close,
		len(again), 2, again[0].Close, a.Close, again[1].Close, b.Close,
		len(left), 2, left[0].Close, a.Close, left[1].Close, c.Close,
		three.Contains(c), true, two.Contains(c), false
}

// smcShort marks the short structure (swings of five candles), as far as the swing is not one of the
// long structure.
func smcShort(k *klines.Item, n int) smcState {
	c := len(k.Candles)
	s := smcState{make([]float64, c), make([]float64, c), make([]float64, c), make([]float64, c)}
	long, short, dir := 0, 0, 0
	longTop, longBtm, top, btm := 0.0, 0.0, 0.0, 0.0
	topAt, btmAt := 0, 0
	topOpen, btmOpen := true, true
	for i := 1; i < c; i++ {
		if i < n {
			continue
		}
		was := long
		long = smcTurn(k, i, n, long)
		if long == 0 && was != 0 {
			longTop = k.Candles[i-n].High
		}
		if long == 1 && was != 1 {
			longBtm = k.Candles[i-n].Low
		}
		was = short
		short = smcTurn(k, i, 5, short)
		if short == 0 && was != 0 {
			top, topAt, topOpen = k.Candles[i-5].High, i-5, true
		}
		if short == 1 && was != 1 {
			btm, btmAt, btmOpen = k.Candles[i-5].Low, i-5, true
		}
		if topOpen && k.Candles[i].Close > top && k.Candles[i-1].Close < top && top != longTop {
			for t := topAt; t <= i; t++ {
				if dir < 0 {
					s.hiCHoCH[t] = top
				} else {
					s.hiBOS[t] = top
				}
			}
			topOpen, dir = false, 1
		}
		if btmOpen && k.Candles[i].Close < btm && k.Candles[i-1].Close > btm && btm != longBtm {
			for t := btmAt; t <= i; t++ {
				if dir > 0 {
					s.loCHoCH[t] = btm
				} else {
					s.loBOS[t] = btm
				}
			}
			btmOpen, dir = false, -1
		}
	}
	return s
}

func C29_short(k *klines.Item, n, b, th int, i int) (hb, whb, hc, whc, lb, wlb, lc, wlc float64) {
	Assume(n >= 1)
	Assume(i >= 0)
	Assume(i < len(k.Candles))
	s := smcShort(k, n)
	d := trend.NewSmartMoneyConcepts(k, n, b, th).GetData()
	return d[i].HighBOSShort, s.hiBOS[i], d[i].HighCHoCHShort, s.hiCHoCH[i], d[i].LowBOSShort, s.loBOS[i], d[i].LowChoCHShort, s.loCHoCH[i]
}

func C01_SmartMoneyConcepts(k *klines.Item, n, b, th int, i int) (points, candles int, at, wantAt time.Time) {
	Assume(n >= 1)
	Assume(i >= 0)
	Assume(i < len(k.Candles))
	d := trend.NewSmartMoneyConcepts(k, n, b, th).GetData()
	return len(d), len(k.Candles), d[i].Time, time.Unix(k.Candles[i].TimeUnix, 0)
}

// The two runs are told apart by what the state left behind decides: marks and the levels kept.
func C02_SmartMoneyConcepts(k *klines.Item, n, b, th int, i int) (hs, whs, hl, whl, ls, wls, ll, wll, sh, wsh, wl, wwl float64) {
	Assume(n >= 1)
	Assume(i >= 0)
	Assume(i < len(k.Candles))
	x := trend.NewSmartMoneyConcepts(k, n, b, th)
	x.Calculation()
	x.Calculation()
	y := trend.NewSmartMoneyConcepts(k, n, b, th)
	y.Calculation()
	d, e := x.GetData(), y.GetData()
	return d[i].HighBOSShort, e[i].HighBOSShort, d[i].HighBOSLong, e[i].HighBOSLong, d[i].LowBOSShort, e[i].LowBOSShort, d[i].LowBOSLong, e[i].LowBOSLong,
		x.StrongHigh.Value, y.StrongHigh.Value, x.WeakLow.Value, y.WeakLow.Value
}
