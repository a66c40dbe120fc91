// Package zzverif holds the reference definitions the analyser compares the library with.
// It is loaded as an overlay next to /repo's packages and is never compiled or executed:
// the analyser only extracts value graphs from its SSA form.
package zzverif

import (
	"math"

	"github.com/idoall/stockindicator/container/bst"
	"github.com/idoall/stockindicator/utils/klines"
)

// Assume tells the analyser that b holds from here on.
func Assume(b bool) {}

// winSum is v[i-n+1] + ... + v[i].
func winSum(v []float64, i, n int) float64 {
	s := 0.0
	for j := i - n + 1; j <= i; j++ {
		s += v[j]
	}
	return s
}

// refMap builds a series pointwise.
func refMap(n int, f func(i int) float64) []float64 {
	out := make([]float64, n)
	for i := 0; i < n; i++ {
		out[i] = f(i)
	}
	return out
}

// refSma is the simple moving average: the mean of the last min(i+1,p) values.
func refSma(v []float64, p int) []float64 {
	return refMap(len(v), func(i int) float64 {
		if i < p {
			return winSum(v, i, i+1) / float64(i+1)
		}
		return winSum(v, i, p) / float64(p)
	})
}

// refEma is the exponential moving average with weight 2/(p+1), seeded with the first value.
func refEma(v []float64, p int) []float64 {
	out := make([]float64, len(v))
	for i := range v {
		if i == 0 {
			out[i] = v[i]
		} else {
			out[i] = (2*v[i] + (float64(p)-1)*out[i-1]) / (float64(p) + 1)
		}
	}
	return out
}

// refRma is Wilder's average: the mean during warm-up, then ((p-1)*prev+v)/p.
// The first value does not enter it (a difference series has none).
func refRma(v []float64, p int) []float64 {
	out := make([]float64, len(v))
	sum := 0.0
	for i := 1; i < len(v); i++ {
		if i < p {
			sum += v[i]
			out[i] = sum / (float64(i) + 1)
		} else {
			out[i] = ((float64(p)-1)*out[i-1] + v[i]) / float64(p)
		}
	}
	return out
}

// refWma is the linearly weighted mean of the window, the newest value weighing p.
func refWma(v []float64, p int) []float64 {
	return refMap(len(v), func(i int) float64 {
		if i < p-1 {
			return 0
		}
		s := 0.0
		for j := 0; j < p; j++ {
			s += float64(j+1) * v[i-p+1+j]
		}
		return s * 2 / (float64(p) * (float64(p) + 1))
	})
}

// refMax is the greatest of the last min(i+1,p) values.
func refMax(v []float64, p int) []float64 {
	return refMap(len(v), func(i int) float64 {
		m := v[i]
		for j := 1; j < p && j <= i; j++ {
			if v[i-j] > m {
				m = v[i-j]
			}
		}
		return m
	})
}

// refMin is the least of the last min(i+1,p) values.
func refMin(v []float64, p int) []float64 {
	return refMap(len(v), func(i int) float64 {
		m := v[i]
		for j := 1; j < p && j <= i; j++ {
			if v[i-j] < m {
				m = v[i-j]
			}
		}
		return m
	})
}

// div is a ratio that is 0 when undefined.
func div(a, b float64) float64 {
	if b == 0 {
		return 0
	}
	return a / b
}

// refTR is the true range of a bar given the previous close.
func refTR(h, l, pc float64) float64 {
	return math.Max(h-l, math.Max(math.Abs(h-pc), math.Abs(l-pc)))
}

func refFit(n, sx, sxx, sy, sxy float64) (m, b float64) {
	m = (n*sxy - sx*sy) / (n*sxx - sx*sx)
	return m, (sy - m*sx) / n
}

func winFit(x, y []float64, i, n int) (m, b float64) {
	sx, sxx, sy, sxy := 0.0, 0.0, 0.0, 0.0
	for j := i - n + 1; j <= i; j++ {
		sx += x[j]
		sxx += x[j] * x[j]
		sy += y[j]
		sxy += x[j] * y[j]
	}
	return refFit(float64(n), sx, sxx, sy, sxy)
}

// ---- candle columns

func cl(k *klines.Item) []float64 {
	return refMap(len(k.Candles), func(i int) float64 { return k.Candles[i].Close })
}
func hi(k *klines.Item) []float64 {
	return refMap(len(k.Candles), func(i int) float64 { return k.Candles[i].High })
}
func lo(k *klines.Item) []float64 {
	return refMap(len(k.Candles), func(i int) float64 { return k.Candles[i].Low })
}
func op(k *klines.Item) []float64 {
	return refMap(len(k.Candles), func(i int) float64 { return k.Candles[i].Open })
}
func vo(k *klines.Item) []float64 {
	return refMap(len(k.Candles), func(i int) float64 { return k.Candles[i].Volume })
}

// runSum is the running sum over a window of p values (all of them when fewer).
func runSum(v []float64, p int) []float64 {
	out := make([]float64, len(v))
	s := 0.0
	for i := range v {
		s += v[i]
		if i >= p {
			s -= v[i-p]
		}
		out[i] = s
	}
	return out
}

// runSma is refSma written as a running sum.
func runSma(v []float64, p int) []float64 {
	s := runSum(v, p)
	return refMap(len(v), func(i int) float64 {
		if i < p {
			return s[i] / float64(i+1)
		}
		return s[i] / float64(p)
	})
}

// winMax and winMin are the extremes of the last p values, kept in an ordered bag.
func winMax(v []float64, p int) []float64 {
	out := make([]float64, len(v))
	bag := bst.New()
	for i := range v {
		bag.Insert(v[i])
		if i >= p {
			bag.Remove(v[i-p])
		}
		out[i] = bag.Max().(float64)
	}
	return out
}
func winMin(v []float64, p int) []float64 {
	out := make([]float64, len(v))
	bag := bst.New()
	for i := range v {
		bag.Insert(v[i])
		if i >= p {
			bag.Remove(v[i-p])
		}
		out[i] = bag.Min().(float64)
	}
	return out
}

// trs is the true range series (0 for the first candle).
func trs(k *klines.Item) []float64 {
	return refMap(len(k.Candles), func(i int) float64 {
		if i == 0 {
			return 0
		}
		return refTR(k.Candles[i].High, k.Candles[i].Low, k.Candles[i-1].Close)
	})
}

// refAtr is Wilder's average of the true range.
func refAtr(k *klines.Item, p int) []float64 { return refRma(trs(k), p) }

// atr1 is the average true range as ta.Atr publishes it: zero before a full period of
// changes, the plain true range for a period of one.
func atr1(k *klines.Item, p int) []float64 {
	t := trs(k)
	if p <= 1 {
		return t
	}
	r := refRma(t, p)
	return refMap(len(t), func(i int) float64 {
		if i < p {
			return 0
		}
		return r[i]
	})
}

// Wraps: the error is, or wraps with %w, the named package variable.
func Wraps(err error, name string) bool { return err == nil }

// refAD accumulates money flow volume.
func refAD(k *klines.Item) []float64 {
	out := make([]float64, len(k.Candles))
	s := 0.0
	for i := range k.Candles {
		s += mfm(k.Candles[i]) * k.Candles[i].Volume
		out[i] = s
	}
	return out
}

// mfm is the money flow multiplier ((C-L)-(H-C))/(H-L), 0 on a flat candle.
func mfm(c *klines.Candle) float64 {
	return div((c.Close-c.Low)-(c.High-c.Close), c.High-c.Low)
}
