package main

import "math/big"

// Clock arithmetic: a time.Time is the integer number of nanoseconds since the zero time
// (monotonic readings and locations are ignored), a time.Duration is its integer.

var (
	second    = mkInt(1_000_000_000)
	unixEpoch = mkInt(62135596800)
)

func (fr *Frame) clock(name string, args []Val) Val {
	var ts []*Term
	for _, a := range args {
		t, ok := a.(*Term)
		if !ok {
			return nil
		}
		ts = append(ts, t)
	}
	switch name {
	case "time.Unix":
		return mkAdd(mkMul(mkAdd(ts[0], unixEpoch), second), ts[1])
	case "time.UnixMilli":
		return mkAdd(mkMul(unixEpoch, second), mkMul(ts[0], mkInt(1_000_000)))
	case "time.Now":
		return mkVar("time.Now()", SInt)
	case "(time.Time).Unix":
		return mkSub(mkFDiv(ts[0], second), unixEpoch)
	case "(time.Time).UnixNano":
		return mkSub(ts[0], mkMul(unixEpoch, second))
	case "(time.Time).UnixMilli":
		return mkSub(mkFDiv(ts[0], mkInt(1_000_000)), mkMul(unixEpoch, mkInt(1000)))
	case "(time.Time).Add":
		return mkAdd(ts[0], ts[1])
	case "(time.Time).Sub":
		return mkSub(ts[0], ts[1])
	case "time.Since":
		return mkSub(mkVar("time.Now()", SInt), ts[0])
	case "(time.Time).Before":
		return mkLt(ts[0], ts[1])
	case "(time.Time).After":
		return mkLt(ts[1], ts[0])
	case "(time.Time).Equal":
		return mkEq(ts[0], ts[1])
	case "(time.Time).IsZero":
		return mkEq(ts[0], t0)
	case "(time.Time).Compare":
		return mkIte(mkLt(ts[0], ts[1]), mkInt(-1), mkIte(mkLt(ts[1], ts[0]), t1, t0))
	case "(time.Time).UTC", "(time.Time).Local":
		return ts[0]
	case "(time.Time).Truncate":
		return mkIte(mkLt(t0, ts[1]), mkMul(mkFDiv(ts[0], ts[1]), ts[1]), ts[0])
	case "(time.Time).Round":
		// halves round up
		two := mkInt(2)
		n := mkFDiv(mkAdd(mkMul(two, ts[0]), ts[1]), mkMul(two, ts[1]))
		return mkIte(mkLt(t0, ts[1]), mkMul(n, ts[1]), ts[0])
	case "(time.Duration).Seconds":
		return mkMul(ts[0], mkRat(big.NewRat(1, 1_000_000_000)))
	case "(time.Duration).Minutes":
		return mkMul(ts[0], mkRat(big.NewRat(1, 60_000_000_000)))
	case "(time.Duration).Hours":
		return mkMul(ts[0], mkRat(big.NewRat(1, 3_600_000_000_000)))
	case "(time.Duration).Milliseconds":
		return mkFun("idiv", SInt, ts[0], mkInt(1_000_000))
	case "(time.Duration).Nanoseconds":
		return ts[0]
	}
	return nil
}
