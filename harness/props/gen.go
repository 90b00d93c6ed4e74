package props

import (
	"github.com/sfomuseum/go-edtf"
	"verif/harness/sym"
)

// side is a date expression and, computed from its fields alone, what it covers.
type side struct {
	s                      string
	y1, m1, d1, y2, m2, d2 int // first and last day
	unc, app               int // expected flags
	prec                   int // 0 year, 1 month, 2 day
}

func (v side) lo() int64 { return lo(v.y1, v.m1, v.d1) }
func (v side) hi() int64 { return hi(v.y2, v.m2, v.d2) }

// plain is an existing date [-]YYYY[-MM[-DD]].
func plain(tag string, neg, prec int) side {
	ys := sym.Digits(tag+".y", 4)
	v := side{s: ys, prec: prec}
	y := sym.Num(ys)
	if neg == 1 {
		v.s = "-" + v.s
		y = -y
	}
	v.y1, v.y2 = y, y
	v.m1, v.m2, v.d1, v.d2 = 1, 12, 1, 31
	if prec > 0 {
		ms := sym.Digits(tag+".m", 2)
		m := sym.Num(ms)
		sym.Assume(sym.And(1 <= m, m <= 12))
		v.s += "-" + ms
		v.m1, v.m2 = m, m
		v.d2 = sym.DaysIn(y, m)
	}
	if prec > 1 {
		ds := sym.Digits(tag+".d", 2)
		d := sym.Num(ds)
		sym.Assume(sym.And(1 <= d, d <= sym.DaysIn(v.y1, v.m1)))
		v.s += "-" + ds
		v.d1, v.d2 = d, d
	}
	return v
}

// anyPlain is plain with either sign and any precision.
func anyPlain(tag string) side {
	return plain(tag, sym.Choice(tag+".neg", 2), sym.Choice(tag+".prec", 3))
}

const (
	fy = int(edtf.YEAR)
	fm = int(edtf.MONTH)
	fd = int(edtf.DAY)
)

// flags are the flags of one kind, given which components carry it.
func flags(y, m, d bool) int {
	return sym.Ite(y, fy, 0) + sym.Ite(m, fm, 0) + sym.Ite(d, fd, 0)
}

// qualified is an existing date with a qualifier, on the side given by group,
// of each component in mask (bit 0 year, 1 month, 2 day).
func qualified(tag string, neg, prec, mask int, group bool) side {
	v := plain(tag, neg, prec)
	y, rest := v.s[:4], v.s[4:]
	if neg == 1 {
		y, rest = v.s[:5], v.s[5:]
	}
	part := [3]string{y}
	if prec > 0 {
		part[1] = rest[1:3]
	}
	if prec > 1 {
		part[2] = rest[4:6]
	}
	var u, a [3]bool
	s := ""
	for i := 0; i <= prec; i++ {
		if i > 0 {
			s += "-"
		}
		if mask>>uint(i)&1 == 0 {
			s += part[i]
			continue
		}
		q := sym.StringIn(tag+".q"+string(rune('0'+i)), 1, "?~%")
		qu := q[0] != '~'
		qa := q[0] != '?'
		if group {
			s += part[i] + q
			for j := 0; j <= i; j++ {
				u[j] = sym.Or(u[j], qu)
				a[j] = sym.Or(a[j], qa)
			}
		} else {
			s += q + part[i]
			u[i] = sym.Or(u[i], qu)
			a[i] = sym.Or(a[i], qa)
		}
	}
	v.s = s
	v.unc = flags(u[0], u[1], u[2])
	v.app = flags(a[0], a[1], a[2])
	return v
}

// Kinds of months and days with unspecified digits.
const (
	absent = iota
	digits
	xx
	zx
	ox
	tx
	hx
)

// unspecified is a date whose year has nx trailing X, with the given kinds of
// month (absent, digits, xx, zx, ox) and day (absent .. hx). Only dates whose
// earliest and latest fillings, component by component, exist are generated.
func unspecified(tag string, nx, mk, dk int) side {
	return fill(tag, nx, mk, dk, true)
}

func fill(tag string, nx, mk, dk int, must bool) side {
	ys := sym.Digits(tag+".y", 4-nx)
	v := side{s: ys}
	p := 1
	y := sym.Num(ys)
	for i := 0; i < nx; i++ {
		v.s += "X"
		p *= 10
	}
	v.y1, v.y2 = y*p, y*p+p-1
	return v.fill(tag, mk, dk, must)
}

// masked is a date with an X in place of the digits of the year in the mask, 1 for
// the first digit to 8 for the last.
func masked(tag string, mask, mk, dk int) side {
	v := side{}
	for i := 0; i < 4; i++ {
		v.y1, v.y2 = v.y1*10, v.y2*10
		if mask>>uint(i)&1 == 1 {
			v.s += "X"
			v.y2 += 9
			continue
		}
		d := sym.Digits(tag+".y"+"0123"[i:i+1], 1)
		v.s += d
		v.y1, v.y2 = v.y1+sym.Num(d), v.y2+sym.Num(d)
	}
	return v.fill(tag, mk, dk, false)
}

// fill adds a month and a day.
func (v side) fill(tag string, mk, dk int, must bool) side {
	v.m1, v.m2 = 1, 12
	switch mk {
	case digits:
		ms := sym.Digits(tag+".m", 2)
		m := sym.Num(ms)
		sym.Assume(sym.And(1 <= m, m <= 12))
		v.s += "-" + ms
		v.m1, v.m2 = m, m
	case xx:
		v.s += "-XX"
	case zx:
		v.s += "-0X"
		v.m2 = 9
	case ox:
		v.s += "-1X"
		v.m1 = 10
	}
	last := sym.DaysIn(v.y2, v.m2)
	v.d1, v.d2 = 1, last
	if mk != absent {
		v.prec = 1
	}
	if dk != absent {
		v.prec = 2
	}
	switch dk {
	case digits:
		ds := sym.Digits(tag+".d", 2)
		d := sym.Num(ds)
		v.s += "-" + ds
		v.d1, v.d2 = d, d
	case xx:
		v.s += "-XX"
	case zx:
		v.s += "-0X"
		v.d2 = 9
	case ox:
		v.s += "-1X"
		v.d1, v.d2 = 10, 19
	case tx:
		v.s += "-2X"
		v.d1, v.d2 = 20, sym.Ite(last < 29, last, 29)
	case hx:
		v.s += "-3X"
		v.d1 = 30
	}
	if must {
		sym.Assume(sym.And(dateExists(v.y1, v.m1, v.d1), dateExists(v.y2, v.m2, v.d2)))
	}
	return v
}

// sideOf is a side of one of the first kinds: plain, qualified, unspecified.
func sideOf(tag string, kinds int) side {
	return dressed(tag, sym.Choice(tag+".kind", kinds))
}

func dressed(tag string, kind int) side {
	switch kind {
	case 0:
		return anyPlain(tag)
	case 1:
		prec := sym.Choice(tag+".prec", 3)
		mask := 1 + sym.Choice(tag+".mask", 1<<uint(prec+1)-1)
		return qualified(tag, 0, prec, mask, false)
	}
	switch sym.Choice(tag+".form", 6) {
	case 0:
		return unspecified(tag, 1, absent, absent)
	case 1:
		return unspecified(tag, 2, absent, absent)
	case 2:
		return unspecified(tag, 0, xx, absent)
	case 3:
		return unspecified(tag, 0, xx, xx)
	case 4:
		return unspecified(tag, 0, digits, xx)
	}
	return unspecified(tag, 3, absent, absent)
}

// noFlags asserts that a bound carries exactly these qualification flags.
func flagged(d *edtf.Date, unc, app int, label string) {
	sym.Assert(int(d.Uncertain) == unc, label+" uncertain flags")
	sym.Assert(int(d.Approximate) == app, label+" approximate flags")
}
