package zzverif

import (
	"math"

	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils/klines"
)

// ---- C30: breakout probabilities

// bpShares are, as of candle i, the percentages for line j: up and down after a green candle, up and
// down after a red candle. A share is refreshed by each candle that reaches its line.
func bpShares(k *klines.Item, q float64, j float64, i int) (gu, gd, ru, rd float64) {
	green, red := 0.0, 0.0
	a, b, c, d := 0.0, 0.0, 0.0, 0.0
	for t := 1; t <= i; t++ {
		x := k.Candles[t].Close * (q / 100) * j
		g := k.Candles[t-1].Close > k.Candles[t-1].Open
		r := k.Candles[t-1].Close < k.Candles[t-1].Open
		up := k.Candles[t].High > k.Candles[t-1].High+x
		down := k.Candles[t].Low < k.Candles[t-1].Low-x
		if g {
			green++
			if up {
				a++
				gu = a / green * 100
			}
			if down {
				b++
				gd = b / green * 100
			}
		}
		if r {
			red++
			if up {
				c++
				ru = c / red * 100
			}
			if down {
				d++
				rd = d / red * 100
			}
		}
	}
	return
}

func bpLine(k *klines.Item, q float64, j float64, i int) (shown bool, up, down float64) {
	if i == 0 {
		return false, 0, 0
	}
	gu, gd, ru, rd := bpShares(k, q, j, i)
	g := k.Candles[i-1].Close > k.Candles[i-1].Open
	r := k.Candles[i-1].Close < k.Candles[i-1].Open
	if g {
		return math.Min(gu, gd) > 0, gu, gd
	}
	if r {
		return math.Min(ru, rd) > 0, ru, rd
	}
	return false, 0, 0
}

func bpPick(b bool, x float64) float64 {
	if b {
		return x
	}
	return 0
}

// C30_count: every candle after the first is counted as a win or a loss, once.
func C30_count(k *klines.Item, q float64, n, i int) (sum, want float64) {
	Assume(i >= 0)
	Assume(i < len(k.Candles))
	d := trend.NewBreakoutProbability(k, q, n).GetData()
	return d[i].Win + d[i].Loss, float64(i)
}

func C30_line0(k *klines.Item, q float64, i int) (up, wantUp, down, wantDown, hi, wantHi, lo, wantLo float64, isUp, wantIsUp, isDown, wantIsDown bool) {
	Assume(i >= 1)
	Assume(i < len(k.Candles))
	l := trend.NewBreakoutProbability(k, q, 5).GetData()[i].List
	s, u, d := bpLine(k, q, 0, i)
	return l[0].Per, bpPick(s, u), l[5].Per, bpPick(s, d), l[0].Price, bpPick(s, k.Candles[i].High), l[5].Price, bpPick(s, k.Candles[i].Low), l[0].Up, s, l[5].Up, false
}

func C30_line1(k *klines.Item, q float64, i int) (up, wantUp, down, wantDown, hi, wantHi, lo, wantLo float64) {
	Assume(i >= 1)
	Assume(i < len(k.Candles))
	l := trend.NewBreakoutProbability(k, q, 5).GetData()[i].List
	s, u, d := bpLine(k, q, 1, i)
	x := k.Candles[i].Close * (q / 100)
	return l[1].Per, bpPick(s, u), l[6].Per, bpPick(s, d), l[1].Price, bpPick(s, k.Candles[i].High+x), l[6].Price, bpPick(s, k.Candles[i].Low-x)
}

func C30_line4(k *klines.Item, q float64, i int) (up, wantUp, down, wantDown, hi, wantHi, lo, wantLo float64) {
	Assume(i >= 1)
	Assume(i < len(k.Candles))
	l := trend.NewBreakoutProbability(k, q, 5).GetData()[i].List
	s, u, d := bpLine(k, q, 4, i)
	x := k.Candles[i].Close * (q / 100) * 4
	return l[4].Per, bpPick(s, u), l[9].Per, bpPick(s, d), l[4].Price, bpPick(s, k.Candles[i].High+x), l[9].Price, bpPick(s, k.Candles[i].Low-x)
}

func C30_line2(k *klines.Item, q float64, i int) (up, wantUp, down, wantDown, hi, wantHi, lo, wantLo float64) {
	Assume(i >= 1)
	Assume(i < len(k.Candles))
	l := trend.NewBreakoutProbability(k, q, 3).GetData()[i].List
	s, u, d := bpLine(k, q, 2, i)
	x := k.Candles[i].Close * (q / 100) * 2
	return l[2].Per, bpPick(s, u), l[7].Per, bpPick(s, d), l[2].Price, bpPick(s, k.Candles[i].High+x), l[7].Price, bpPick(s, k.Candles[i].Low-x)
}

func C30_line3(k *klines.Item, q float64, n, i int) (up, wantUp, down, wantDown, hi, wantHi, lo, wantLo float64) {
	Assume(n >= 4)
	Assume(i >= 1)
	Assume(i < len(k.Candles))
	l := trend.NewBreakoutProbability(k, q, n).GetData()[i].List
	s, u, d := bpLine(k, q, 3, i)
	x := k.Candles[i].Close * (q / 100) * 3
	return l[3].Per, bpPick(s, u), l[8].Per, bpPick(s, d), l[3].Price, bpPick(s, k.Candles[i].High+x), l[8].Price, bpPick(s, k.Candles[i].Low-x)
}

// C30_beyond: a line that was not asked for is not shown.
func C30_beyond(k *klines.Item, q float64, n, i int) (up, wantUp, down, wantDown, hi, wantHi float64) {
	Assume(n <= 2)
	Assume(i >= 1)
	Assume(i < len(k.Candles))
	l := trend.NewBreakoutProbability(k, q, n).GetData()[i].List
	return l[2].Per, 0, l[8].Per, 0, l[4].Price, 0
}

// C30_win: a candle is a win when it reached the side its predecessor's colour had more often led
// to, that side being up when the two are even or the predecessor has no height.
func C30_win(k *klines.Item, q float64, n, i int) (win, want float64) {
	Assume(i >= 0)
	Assume(i < len(k.Candles))
	d := trend.NewBreakoutProbability(k, q, n).GetData()
	green, red, wins := 0.0, 0.0, 0.0
	a, b, c, e := 0.0, 0.0, 0.0, 0.0
	gu, gd, ru, rd := 0.0, 0.0, 0.0, 0.0
	for t := 1; t <= i; t++ {
		g := k.Candles[t-1].Close > k.Candles[t-1].Open
		up := k.Candles[t].High > k.Candles[t-1].High
		down := k.Candles[t].Low < k.Candles[t-1].Low
		if g {
			green++
		}
		if k.Candles[t-1].Close < k.Candles[t-1].Open {
			red++
			if up {
				c++
				ru = c / red * 100
			}
			if down {
				e++
				rd = e / red * 100
			}
		}
		if g && up {
			a++
			gu = a / green * 100
		}
		if g && down {
			b++
			gd = b / green * 100
		}
		upSide := ru >= rd
		if g {
			upSide = gu >= gd
		}
		upSide = upSide || k.Candles[t-1].High == k.Candles[t-1].Low
		if upSide && k.Candles[t].High >= k.Candles[t-1].High || !upSide && k.Candles[t].Low <= k.Candles[t-1].Low {
			wins++
		}
	}
	return d[i].Win, wins
}
