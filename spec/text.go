package zzverif

import (
	"fmt"
	"strconv"
	"time"

	"github.com/idoall/stockindicator/trend"
	"github.com/idoall/stockindicator/utils/commonutils"
	"github.com/idoall/stockindicator/utils/klines"
	"github.com/shopspring/decimal"
)

// C32: text forms and conversions.

func C32_candle(c *klines.Candle) (got, want string) {
	return c.String(), fmt.Sprintf("%s Open:%f High:%f Low:%f Close:%f Volume:%f Bull:%+v ChangePercent:%.4f%%",
		time.Unix(c.TimeUnix, 0).Format("2006-01-02 15:04:05"), c.Open, c.High, c.Low, c.Close, c.Volume, c.IsBullMarket, c.ChangePercent*100)
}

func C32_adx(p, m, a float64, t int64) (got, want string) {
	d := trend.AverageDirectionalIndexData{DIPlus: p, DIMins: m, ADX: a, Time: time.Unix(t, 0)}
	return d.String(), fmt.Sprintf("[%s]DI+:%f DI-:%f ADX:%f", time.Unix(t, 0).Format("2006-01-02 15:04:05"), p, m, a)
}

func C32_interval(n klines.Interval) (got, want string, d, wantD time.Duration) {
	return n.String(), time.Duration(n).String(), n.Duration(), time.Duration(n)
}

func C32_parse(s string) (got, want float64, failed, wantFailed bool) {
	v, err := commonutils.FloatFromString(s)
	w, e := strconv.ParseFloat(s, 64)
	if e != nil {
		w = 0
	}
	return v, w, err != nil, e != nil
}

func C32_parseOther(x float64) bool {
	v, err := commonutils.FloatFromString(x)
	return v == 0 && err != nil
}

func C32_if(c bool, a, b string) (got, want string) {
	want = b
	if c {
		want = a
	}
	return commonutils.If(c, a, b).(string), want
}

// Rounding to a power of ten is left to the decimal package.
func C32_format(v float64, e int32) (got, want float64) {
	want, _ = decimal.NewFromFloatWithExponent(v, e).Float64()
	return commonutils.FormatDecimalFloat64(v, e), want
}
