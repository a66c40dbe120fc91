package zzverif

import (
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/idoall/stockindicator/volume"
)

func C22_AD(k *klines.Item) (ad, want []float64) {
	d := volume.NewAccumulationDistribution(k).GetData()
	return refMap(len(d), func(i int) float64 { return d[i].Value }), refAD(k)
}

func C22_CMF(k *klines.Item, p int) (cmf, want []float64) {
	Assume(p >= 1)
	d := volume.NewChaikinMoneyFlow(k, p).GetData()
	n := len(k.Candles)
	f := runSum(refMap(n, func(i int) float64 { return mfm(k.Candles[i]) * k.Candles[i].Volume }), p)
	v := runSum(vo(k), p)
	return refMap(len(d), func(i int) float64 { return d[i].Value }), refMap(n, func(i int) float64 { return div(f[i], v[i]) })
}

func C22_EMV(k *klines.Item, p int) (emv, want []float64) {
	Assume(p >= 1)
	d := volume.NewEaseOfMovement(k, p).GetData()
	x := refMap(len(k.Candles), func(i int) float64 {
		c := k.Candles[i]
		mid := (c.High + c.Low) / 2
		if i > 0 {
			mid -= (k.Candles[i-1].High + k.Candles[i-1].Low) / 2
		}
		return div(mid, div(c.Volume/100000000, c.High-c.Low))
	})
	return refMap(len(d), func(i int) float64 { return d[i].Value }), runSma(x, p)
}

func C22_ForceIndex(k *klines.Item, p int) (fi, want []float64) {
	Assume(p >= 1)
	d := volume.NewForceIndex(k, p).GetData()
	x := refMap(len(k.Candles), func(i int) float64 {
		if i == 0 {
			return k.Candles[i].Close * k.Candles[i].Volume
		}
		return (k.Candles[i].Close - k.Candles[i-1].Close) * k.Candles[i].Volume
	})
	return refMap(len(d), func(i int) float64 { return d[i].Value }), refEma(x, p)
}

func C22_MFI(k *klines.Item, p int) (mfi, want []float64) {
	Assume(p >= 1)
	d := volume.NewMoneyFlowIndex(k, p).GetData()
	n := len(k.Candles)
	raw := refMap(n, func(i int) float64 {
		c := k.Candles[i]
		return (c.High + c.Low + c.Close) / 3 * c.Volume
	})
	up := func(i int) bool { return i == 0 && raw[i] >= 0 || i > 0 && raw[i]-raw[i-1] >= 0 }
	pos := runSum(refMap(n, func(i int) float64 {
		if up(i) {
			return raw[i]
		}
		return 0
	}), p)
	neg := runSum(refMap(n, func(i int) float64 {
		if up(i) {
			return 0
		}
		return raw[i]
	}), p)
	return refMap(len(d), func(i int) float64 { return d[i].Value }), refMap(n, func(i int) float64 {
		return 100 - 100/(1+div(pos[i], neg[i]))
	})
}

func C22_NVI(k *klines.Item) (nvi, want []float64) {
	d := volume.NewNegativeVolumeIndex(k).GetData()
	out := make([]float64, len(k.Candles))
	for i, c := range k.Candles {
		if i == 0 {
			out[i] = 1000
			continue
		}
		p := k.Candles[i-1]
		out[i] = out[i-1]
		if c.Volume <= p.Volume {
			out[i] += (c.Close - p.Close) / p.Close * out[i-1]
		}
	}
	return refMap(len(d), func(i int) float64 { return d[i].Value }), out
}

func C22_Obv(k *klines.Item) (obv, want []float64) {
	d := volume.NewObv(k).GetData()
	out := make([]float64, len(k.Candles))
	for i, c := range k.Candles {
		if i == 0 {
			continue
		}
		p := k.Candles[i-1]
		out[i] = out[i-1]
		if c.Close > p.Close {
			out[i] += c.Volume
		} else if c.Close < p.Close {
			out[i] -= c.Volume
		}
	}
	return refMap(len(d), func(i int) float64 { return d[i].Value }), out
}

func C22_VPT(k *klines.Item, p int) (vpt, want []float64) {
	Assume(p >= 1)
	Assume(len(k.Candles) >= 1)
	d := volume.NewVolumePriceTrend(k, p).GetData()
	out := make([]float64, len(k.Candles))
	s := 0.0
	for i, c := range k.Candles {
		prev := k.Candles[0].Close
		if i >= p {
			prev = k.Candles[i-p].Close
		}
		s += c.Volume * div(c.Close-prev, prev)
		out[i] = s
	}
	return refMap(len(d), func(i int) float64 { return d[i].Value }), out
}

func C22_Vwma(k *klines.Item, p int) (vwma, want []float64) {
	Assume(p >= 1)
	d := volume.NewVwma(k, p).GetData()
	n := len(k.Candles)
	f := runSum(refMap(n, func(i int) float64 { return k.Candles[i].Close * k.Candles[i].Volume }), p)
	v := runSum(vo(k), p)
	return refMap(len(d), func(i int) float64 { return d[i].Value }), refMap(n, func(i int) float64 { return div(f[i], v[i]) })
}
