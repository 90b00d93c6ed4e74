package props

import (
	"verif/harness/sym"
)

// C04_date: every [-]YYYY, [-]YYYY-MM, [-]YYYY-MM-DD of decimal digits, at all
// three precisions (20,000 years, 100 months, 100 days); the month codes 21 to
// 41, which are seasons and groupings, excepted.
func C04_date() {
	neg := sym.Choice("neg", 2)
	prec := sym.Choice("prec", 3)
	ys := sym.Digits("y", 4)
	s := ys
	y := sym.Num(ys)
	if neg == 1 {
		s = "-" + s
		y = -y
	}
	m, d := 1, 1
	if prec > 0 {
		ms := sym.Digits("m", 2)
		s += "-" + ms
		m = sym.Num(ms)
	}
	if prec > 1 {
		ds := sym.Digits("d", 2)
		s += "-" + ds
		d = sym.Num(ds)
	}
	if prec == 1 {
		sym.Assume(sym.Not(sym.And(21 <= m, m <= 41)))
	}
	res, err := parse(s)
	if !dateExists(y, m, d) {
		sym.Assert(err != nil, "an impossible date is refused")
		return
	}
	sym.Assert(err == nil, "an existing date parses")
	if err != nil {
		return
	}
	m2, d2 := m, d
	if prec == 0 {
		m2 = 12
	}
	if prec < 2 {
		d2 = sym.DaysIn(y, m2)
	}
	days(res, lo(y, m, d), hi(y, m2, d2))
	sym.Assert(res.Level == 0, "level")
	sym.Assert(sym.EqStr(res.Feature, "Date"), "feature")
}
