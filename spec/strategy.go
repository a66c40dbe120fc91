package zzverif

import (
	"github.com/idoall/stockindicator/utils"
)

// ---- C27: running several strategies

type canned struct {
	name string
	side []utils.Side
}

func (c *canned) AnalysisSide() utils.SideData { return utils.SideData{Name: c.name, Data: c.side} }

func C27_Three(a, b, c string, x, y, z []utils.Side) (n, wantN int, na, wantA string, sa, wantSa []utils.Side, nb, wantB string, sb, wantSb []utils.Side, nc, wantC string, sc, wantSc []utils.Side) {
	r := utils.RunStrategies(&canned{a, x}, &canned{b, y}, &canned{c, z})
	return len(r), 3, r[0].Name, a, r[0].Data, x, r[1].Name, b, r[1].Data, y, r[2].Name, c, r[2].Data, z
}

func C27_None() bool { return len(utils.RunStrategies()) == 0 }

// C27_Same: a strategy given twice reports twice.
func C27_Same(a string, x []utils.Side) (n, wantN int, na, wantA string, sa, wantSa []utils.Side, nb, wantB string, sb, wantSb []utils.Side) {
	s := &canned{a, x}
	r := utils.RunStrategies(s, s)
	return len(r), 2, r[0].Name, a, r[0].Data, x, r[1].Name, a, r[1].Data, x
}

// C27_Count: any number of strategies gives as many series.
func C27_Count(a string, x []utils.Side, m int) (n, wantN int) {
	Assume(m >= 0)
	s := &canned{a, x}
	ss := make([]utils.IStrategy, m)
	for j := range ss {
		ss[j] = s
	}
	return len(utils.RunStrategies(ss...)), m
}

// C27_schedule: no goroutine or map iteration decides the order (see schedule.go).
func C27_schedule() []utils.SideData { return utils.RunStrategies() }

func C27_labels() (a, wantA, b, wantB, c, wantC string) {
	return utils.Buy.String(), "BUY", utils.Sell.String(), "SELL", utils.Hold.String(), "HOLD"
}

// C27_Strings: a list of signals renders one label per signal.
func C27_Strings(s utils.Sides, i int) (n, wantN int, l, want string) {
	Assume(i >= 0)
	Assume(i < len(s))
	r := s.Strings()
	return len(r), len(s), r[i], s[i].String()
}

func C27_kinds() bool {
	return utils.Buy != utils.Sell && utils.Sell != utils.Hold && utils.Buy != utils.Hold
}
