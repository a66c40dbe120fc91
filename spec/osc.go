package zzverif

import (
	"github.com/idoall/stockindicator/oscillator"
	"github.com/idoall/stockindicator/utils/klines"
)

func C21_APO(k *klines.Item, f, s int) (apo, want []float64) {
	Assume(f >= 1)
	Assume(s >= 1)
	e := oscillator.NewAbsolutePriceOscillator(k)
	e.FastPeriod, e.SlowPeriod = f, s
	d := e.GetData()
	a, b := refEma(cl(k), f), refEma(cl(k), s)
	return refMap(len(d), func(i int) float64 { return d[i].Value }), refMap(len(a), func(i int) float64 { return a[i] - b[i] })
}

func C21_APO_default(k *klines.Item) (apo, want []float64) {
	d := oscillator.NewAbsolutePriceOscillator(k).GetData()
	a, b := refEma(cl(k), 14), refEma(cl(k), 30)
	return refMap(len(d), func(i int) float64 { return d[i].Value }), refMap(len(a), func(i int) float64 { return a[i] - b[i] })
}

func mid(k *klines.Item) []float64 {
	return refMap(len(k.Candles), func(i int) float64 { return (k.Candles[i].High + k.Candles[i].Low) / 2 })
}

func C21_Awesome(k *klines.Item) (ao, want []float64) {
	d := oscillator.NewAwesomeOscillator(k).GetData()
	a, b := runSma(mid(k), 5), runSma(mid(k), 34)
	return refMap(len(d), func(i int) float64 { return d[i].Value }), refMap(len(a), func(i int) float64 { return a[i] - b[i] })
}

func C21_Chaikin(k *klines.Item, f, s int) (co, want, ad, wantAD []float64) {
	Assume(f >= 1)
	Assume(s >= 1)
	d := oscillator.NewChaikinOscillator(k, f, s).GetData()
	x := refAD(k)
	a, b := refEma(x, f), refEma(x, s)
	return refMap(len(d), func(i int) float64 { return d[i].Value }), refMap(len(a), func(i int) float64 { return a[i] - b[i] }),
		refMap(len(d), func(i int) float64 { return d[i].AD }), x
}

func C21_PPO(k *klines.Item, f, s, g int) (ppo, wantPPO, signal, wantSignal, hist, wantHist []float64) {
	Assume(f >= 1)
	Assume(s >= 1)
	Assume(g >= 1)
	d := oscillator.NewPercentagePriceOscillator(k, f, s, g).GetData()
	a, b := refEma(cl(k), f), refEma(cl(k), s)
	p := refMap(len(a), func(i int) float64 { return 100 * div(a[i]-b[i], b[i]) })
	sg := refEma(p, g)
	return refMap(len(d), func(i int) float64 { return d[i].PPO }), p,
		refMap(len(d), func(i int) float64 { return d[i].Signal }), sg,
		refMap(len(d), func(i int) float64 { return d[i].Histogram }), refMap(len(p), func(i int) float64 { return p[i] - sg[i] })
}

// slopes is the moving least-squares slope of v against 0,1,2,... (0 for a single point).
func slopes(v []float64, p int) []float64 {
	out := make([]float64, len(v))
	sx, sxx, sy, sxy := 0.0, 0.0, 0.0, 0.0
	for i := range v {
		x := float64(i)
		sx += x
		sxx += x * x
		sy += v[i]
		sxy += x * v[i]
		n := float64(i + 1)
		if i >= p {
			y := float64(i - p)
			sx -= y
			sxx -= y * y
			sy -= v[i-p]
			sxy -= y * v[i-p]
			n = float64(p)
		}
		if d := n*sxx - sx*sx; d != 0 {
			out[i] = (n*sxy - sx*sy) / d
		}
	}
	return out
}

func C21_Projection(k *klines.Item, p, s int) (po, wantPo, spo, wantSpo []float64) {
	Assume(p >= 1)
	Assume(s >= 1)
	d := oscillator.NewProjectionOscillator(k, p, s).GetData()
	n := len(k.Candles)
	mh, ml := slopes(hi(k), p), slopes(lo(k), p)
	u := winMax(refMap(n, func(i int) float64 { return k.Candles[i].High + mh[i]*float64(i) }), p)
	l := winMin(refMap(n, func(i int) float64 { return k.Candles[i].Low + ml[i]*float64(i) }), p)
	w := refMap(n, func(i int) float64 { return div(100*(k.Candles[i].Close-l[i]), u[i]-l[i]) })
	return refMap(len(d), func(i int) float64 { return d[i].Po }), w,
		refMap(len(d), func(i int) float64 { return d[i].Spo }), refEma(w, s)
}

func C21_Stochastic(k *klines.Item, p int) (kk, wantK, dd, wantD []float64) {
	Assume(p >= 1)
	d := oscillator.NewStochasticOscillator(k, p).GetData()
	u, l := winMax(hi(k), p), winMin(lo(k), p)
	w := refMap(len(u), func(i int) float64 { return 100 * div(k.Candles[i].Close-l[i], u[i]-l[i]) })
	return refMap(len(d), func(i int) float64 { return d[i].K }), w,
		refMap(len(d), func(i int) float64 { return d[i].D }), runSma(w, 3)
}

func C21_VolumeOscillator(k *klines.Item, s, g int) (osc, want []float64) {
	Assume(s >= 1)
	Assume(g >= 1)
	d := oscillator.NewVolumeOscillator(k, s, g).GetData()
	a, b := refEma(vo(k), s), refEma(vo(k), g)
	return refMap(len(d), func(i int) float64 { return d[i].Value }), refMap(len(a), func(i int) float64 { return 100 * div(a[i]-b[i], b[i]) })
}

func C21_WilliamsR(k *klines.Item, p int) (wr, want []float64) {
	Assume(p >= 1)
	d := oscillator.NewWilliamsR(k, p).GetData()
	u, l := winMax(hi(k), p), winMin(lo(k), p)
	return refMap(len(d), func(i int) float64 { return d[i].Value }),
		refMap(len(u), func(i int) float64 { return -100 * div(u[i]-k.Candles[i].Close, u[i]-l[i]) })
}

func C21_Ichimoku(k *klines.Item, c, b, g int) (conv, wantConv, base, wantBase, spanA, wantA, spanB, wantB, lag, wantLag []float64) {
	Assume(c >= 1)
	Assume(b >= 1)
	Assume(g >= 1)
	d := oscillator.NewIchimokuCloud(k, c, b, g).GetData()
	n := len(k.Candles)
	m := func(p int) []float64 {
		u, l := winMax(hi(k), p), winMin(lo(k), p)
		return refMap(n, func(i int) float64 { return (u[i] + l[i]) / 2 })
	}
	wc, wb, ws := m(c), m(26), m(b)
	return refMap(len(d), func(i int) float64 { return d[i].ConversionLine }), wc,
		refMap(len(d), func(i int) float64 { return d[i].BaseLine }), wb,
		refMap(len(d), func(i int) float64 { return d[i].LeadingSpanA }), refMap(n, func(i int) float64 { return (wc[i] + wb[i]) / 2 }),
		refMap(len(d), func(i int) float64 { return d[i].LeadingSpanB }), ws,
		refMap(len(d), func(i int) float64 { return d[i].LaggingLine }), refMap(n, func(i int) float64 {
			if i < g {
				return 0
			}
			return k.Candles[i-g].Close
		})
}

func C21_Camarilla(k *klines.Item, p int) (ema, wantEma, pivot, wantPivot, h1, wh1, h2, wh2, h3, wh3, h4, wh4, h5, wh5, h6, wh6, l1, wl1, l2, wl2, l3, wl3, l4, wl4, l5, wl5, l6, wl6 []float64) {
	Assume(p >= 1)
	d := oscillator.NewCamarilla(k, p).GetData()
	n := len(k.Candles)
	got := func(f func(x *oscillator.CamarillaData) float64) []float64 {
		return refMap(len(d), func(i int) float64 { return f(d[i]) })
	}
	up := func(q float64) []float64 {
		return refMap(n, func(i int) float64 { c := k.Candles[i]; return c.Close + (c.High-c.Low)*1.1/q })
	}
	dn := func(q float64) []float64 {
		return refMap(n, func(i int) float64 { c := k.Candles[i]; return c.Close - (c.High-c.Low)*1.1/q })
	}
	w4 := up(2)
	w5 := refMap(n, func(i int) float64 { c := k.Candles[i]; return c.High / c.Low * c.Close })
	w6 := refMap(n, func(i int) float64 { return w5[i] + 1.168*(w5[i]-w4[i]) })
	return got(func(x *oscillator.CamarillaData) float64 { return x.EMA }), refEma(cl(k), p),
		got(func(x *oscillator.CamarillaData) float64 { return x.Pivot }), refMap(n, func(i int) float64 {
			c := k.Candles[i]
			return (c.High + c.Low + c.Close) / 3
		}),
		got(func(x *oscillator.CamarillaData) float64 { return x.High1 }), up(12),
		got(func(x *oscillator.CamarillaData) float64 { return x.High2 }), up(6),
		got(func(x *oscillator.CamarillaData) float64 { return x.High3 }), up(4),
		got(func(x *oscillator.CamarillaData) float64 { return x.High4 }), w4,
		got(func(x *oscillator.CamarillaData) float64 { return x.High5 }), w5,
		got(func(x *oscillator.CamarillaData) float64 { return x.High6 }), w6,
		got(func(x *oscillator.CamarillaData) float64 { return x.Low1 }), dn(12),
		got(func(x *oscillator.CamarillaData) float64 { return x.Low2 }), dn(6),
		got(func(x *oscillator.CamarillaData) float64 { return x.Low3 }), dn(4),
		got(func(x *oscillator.CamarillaData) float64 { return x.Low4 }), dn(2),
		got(func(x *oscillator.CamarillaData) float64 { return x.Low5 }), refMap(n, func(i int) float64 { return 2*k.Candles[i].Close - w5[i] }),
		got(func(x *oscillator.CamarillaData) float64 { return x.Low6 }), refMap(n, func(i int) float64 { return 2*k.Candles[i].Close - w6[i] })
}
