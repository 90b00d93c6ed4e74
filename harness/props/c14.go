package props

import (
	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/calendar"
	"github.com/sfomuseum/go-edtf/common"
	"verif/harness/sym"
)

// C14_days: every year between -9999 and 9999 and every month, as numbers.
func C14_days() {
	y, m := sym.Int("y", -9999, 9999), sym.Int("m", 1, 12)
	n, err := calendar.DaysInMonth(y, m)
	sym.Observe("n", n)
	sym.Assert(err == nil, "every month has a number of days")
	if err == nil {
		sym.Assert(n == sym.DaysIn(y, m), "number of days")
	}
}

// C14_days_string: [-]Y-M with years of 1 to 4 digits and months of 1 or 2.
func C14_days_string() {
	neg := sym.Choice("neg", 2)
	ys, ms := sym.Digits("y", 1+sym.Choice("ny", 4)), sym.Digits("m", 1+sym.Choice("nm", 2))
	s := ys + "-" + ms
	y, m := sym.Num(ys), sym.Num(ms)
	sym.Assume(sym.And(1 <= m, m <= 12))
	if neg == 1 {
		s, y = "-"+s, -y
	}
	n, err := calendar.DaysInMonthWithString(s)
	sym.Observe("n", n)
	sym.Assert(err == nil, "every month has a number of days")
	if err == nil {
		sym.Assert(n == sym.DaysIn(y, m), "number of days")
	}
}

// ymd checks a year-month-day value built from numbers: m and d are -1 when their
// part is missing.
func ymd(v *edtf.YMD, err error, y, m, d int, must bool) {
	sym.Observe("ok", err == nil)
	if v != nil {
		sym.Observe("y", v.Year)
		sym.Observe("m", v.Month)
		sym.Observe("d", v.Day)
	}
	sym.Assert((v == nil) != (err == nil), "exactly one of a value and an error")
	ambiguous := sym.Or(m == 0, d == 0) // a part of zeros may count as missing
	mm := sym.Ite(m <= 0, 1, m)
	inYears := sym.And(-9999 <= y, y <= 9999)
	if sym.And(m <= 0, d > 0) {
		sym.Assert(err != nil, "a day without a month is an error")
		return
	}
	okM := sym.And(inYears, 1 <= mm, mm <= 12)
	if !okM {
		sym.Assert(err != nil, "a date that does not exist is an error")
		return
	}
	dd := sym.Ite(d <= 0, sym.DaysIn(y, mm), d)
	if !sym.And(1 <= dd, dd <= sym.DaysIn(y, mm)) {
		sym.Assert(err != nil, "a date that does not exist is an error")
		return
	}
	if err != nil {
		sym.Assert(sym.Or(ambiguous, !must), "a date that exists gives a value")
		return
	}
	if v != nil {
		sym.Assert(isYMD(v, y, mm, dd), "the value is the date written")
	}
}

// C14_ymd_string: [-]Y[-M[-D]] with 1 to 5 digits of year, 1 or 2 (thorough 3) of
// month and day.
func C14_ymd_string() {
	neg, prec := sym.Choice("neg", 2), sym.Choice("prec", 3)
	ys := sym.Digits("y", 1+sym.Choice("ny", 5))
	s, y, m, d := ys, sym.Num(ys), -1, -1
	if neg == 1 {
		s, y = "-"+s, -y
	}
	if prec > 0 {
		ms := sym.Digits("m", 1+sym.Choice("nm", sym.N(2, 3)))
		s, m = s+"-"+ms, sym.Num(ms)
	}
	if prec > 1 {
		ds := sym.Digits("d", 1+sym.Choice("nd", sym.N(2, 3)))
		s, d = s+"-"+ds, sym.Num(ds)
	}
	v, err := common.YMDFromString(s)
	sym.Observe("s", s)
	// a negative year alone or with its month is not told from a missing year
	ymd(v, err, y, m, d, neg == 0 || prec == 2)
}

// C14_ymd_parts: the parts apart: a year of 0, 1 or 4 (thorough 0-4) digits, month and day of
// 0-2 (thorough 3), and the time they give.
func C14_ymd_parts() {
	neg := sym.Choice("neg", 2)
	ys := sym.Digits("y", [...]int{0, 4, 1, 2, 3}[sym.Choice("ny", sym.N(3, 5))])
	ms := sym.Digits("m", sym.Choice("nm", sym.N(3, 4)))
	ds := sym.Digits("d", sym.Choice("nd", sym.N(3, 4)))
	y, m, d := sym.Num(ys), sym.Num(ms), sym.Num(ds)
	if ms == "" {
		m = -1
	}
	if ds == "" {
		d = -1
	}
	if neg == 1 {
		if ys == "" {
			return
		}
		ys, y = "-"+ys, -y
	}
	v, err := common.YMDFromStrings(ys, ms, ds)
	hms := [2]string{edtf.HMS_LOWER, edtf.HMS_UPPER}[sym.Choice("hms", 2)]
	t, terr := common.TimeWithYMDString(ys, ms, ds, hms)
	sym.Assert((err == nil) == (terr == nil), "a date has a time when it exists")
	sym.Assert((t == nil) != (terr == nil), "exactly one of a time and an error")
	if ys == "" || ms == "" && ds != "" {
		sym.Assert(err != nil, "a missing year or month is an error")
		return
	}
	ymd(v, err, y, m, d, true)
	if v == nil {
		return
	}
	if t != nil {
		sym.Assert(t.Unix() == sym.Secs(v.Year, v.Month, v.Day, sym.Ite(hms == edtf.HMS_LOWER, 0, day-1)), "the time is that of the date")
	}
}

// C14_time: years of up to 99999 either way, months to 19, days to 39, with a clock
// of any six digits.
func C14_time() {
	v := &edtf.YMD{Year: sym.Int("y", -99999, 99999), Month: sym.Int("mo", 0, 19), Day: sym.Int("d", 0, 39)}
	h, m, s := sym.Digits("h", 2), sym.Digits("m", 2), sym.Digits("s", 2)
	t, err := common.TimeWithYMD(v, h+":"+m+":"+s)
	sym.Observe("ok", err == nil)
	sym.Assert((t == nil) != (err == nil), "exactly one of a time and an error")
	exists := sym.And(dateExists(v.Year, v.Month, v.Day), sym.Num(h) < 24, sym.Num(m) < 60, sym.Num(s) < 60)
	supported := sym.And(-9999 <= v.Year, v.Year <= 9999)
	sym.Assert(sym.Implies(err == nil, exists), "only a date and a clock that exist have a time")
	sym.Assert(sym.Implies(sym.And(supported, exists), err == nil), "a date and a clock that exist have a time")
	if t != nil {
		sym.Observe("t", t.Unix())
		sym.Assert(t.Unix() == sym.Secs(v.Year, v.Month, v.Day, sym.Num(h)*3600+sym.Num(m)*60+sym.Num(s)), "the time is that of the date")
	}
}

// C14_days_raw: every string of up to 7 (thorough 10) bytes.
func C14_days_raw() {
	n, err := calendar.DaysInMonthWithString(sym.String("s", sym.Choice("n", sym.N(8, 11))))
	sym.Observe("n", n)
	sym.Assert(sym.Or(err != nil, sym.And(28 <= n, n <= 31)), "a month has 28 to 31 days")
}

// C14_ymd_raw: parts of any bytes, of the lengths listed.
func C14_ymd_raw() {
	ny := 1 + sym.Choice("ny", sym.N(5, 6))
	nm := sym.Choice("nm", sym.N(3, 4))
	nd := sym.Choice("nd", sym.N(3, 4))
	ys, ms, ds := sym.String("y", ny), sym.String("m", nm), sym.String("d", nd)
	v, err := common.YMDFromStrings(ys, ms, ds)
	sym.Observe("ok", err == nil)
	sym.Assert((v == nil) != (err == nil), "exactly one of a value and an error")
	if v == nil {
		return
	}
	number := "^[+-]?[0-9]+$"
	sym.Assert(sym.And(sym.Match(number, ys), sym.Or(nm == 0, sym.Match(number, ms)), sym.Or(nd == 0, sym.Match(number, ds))), "only numbers give a value")
	sym.Assert(sym.And(-9999 <= v.Year, v.Year <= 9999, dateExists(v.Year, v.Month, v.Day)), "the value is a date that exists")
}

// C14_ymd_text: every string of up to 6 (thorough 9) bytes, and up to three bytes
// of anything in front of "-1985-04-12".
func C14_ymd_text() {
	s := ""
	if sym.Choice("junk", 2) == 0 {
		s = sym.String("s", sym.Choice("n", sym.N(7, 10)))
	} else {
		s = sym.String("s", sym.Choice("n", 4)) + "-1985-04-12"
	}
	v, err := common.YMDFromString(s)
	sym.Observe("ok", err == nil)
	sym.Assert((v == nil) != (err == nil), "exactly one of a value and an error")
	if v == nil {
		return
	}
	sym.Assert(sym.Match("^-?[+]?[0-9]+(-([+]?[0-9]+)?(-([+]?[0-9]+)?)?)?$", s), "only numbers between dashes give a value")
	sym.Assert(sym.And(-9999 <= v.Year, v.Year <= 9999, dateExists(v.Year, v.Month, v.Day)), "the value is a date that exists")
}

// C14_equal: any two triples of numbers; any two triples of strings of up to two bytes.
func C14_equal() {
	if sym.Choice("strings", 2) == 0 {
		a := &edtf.YMD{Year: int(sym.Int64("a.y")), Month: int(sym.Int64("a.m")), Day: int(sym.Int64("a.d"))}
		b := &edtf.YMD{Year: int(sym.Int64("b.y")), Month: int(sym.Int64("b.m")), Day: int(sym.Int64("b.d"))}
		eq := a.Equals(b)
		sym.Observe("equal", eq)
		sym.Assert(sym.Iff(eq, sym.And(a.Year == b.Year, a.Month == b.Month, a.Day == b.Day)), "equal exactly when year, month and day are")
		return
	}
	n := func(name string) string { return sym.String(name, sym.Choice(name+".n", 3)) }
	a := &common.StringDate{Year: n("a.y"), Month: n("a.m"), Day: n("a.d")}
	b := &common.StringDate{Year: n("b.y"), Month: n("b.m"), Day: n("b.d")}
	eq := a.Equals(b)
	sym.Observe("equal", eq)
	sym.Assert(sym.Iff(eq, sym.And(sym.EqStr(a.Year, b.Year), sym.EqStr(a.Month, b.Month), sym.EqStr(a.Day, b.Day))), "equal exactly when year, month and day are")
}
