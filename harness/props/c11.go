package props

import (
	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/common"
	"github.com/sfomuseum/go-edtf/level1"
	"github.com/sfomuseum/go-edtf/level2"
	"verif/harness/sym"
)

// year checks what a notation for the year y, or for a year beyond the supported
// ones, gives; must says whether a supported year may not be refused.
func year(res *edtf.EDTFDate, err error, y int, beyond, must bool) {
	if beyond {
		sym.Assert(err != nil, "a year beyond the supported ones is refused")
		if err != nil {
			sym.Assert(edtf.IsUnsupported(err), "with an unsupported error")
		}
		return
	}
	if err != nil {
		sym.Assert(sym.Not(must), "a supported year parses")
		return
	}
	days(res, lo(y, 1, 1), hi(y, 12, 31))
}

// C11_negative: every -YYYY.
func C11_negative() {
	ys := sym.Digits("y", 4)
	var res *edtf.EDTFDate
	var err error
	if sym.Choice("via", 2) == 0 {
		res, err = parse("-" + ys)
	} else {
		res, err = level1.ParseNegativeCalendarYear("-" + ys)
		observe("-"+ys, res, err)
	}
	year(res, err, -sym.Num(ys), false, true)
}

// C11_prefixed: Y and an optional minus before 1 to 6, 12, 19, 20 or 21 (thorough 1
// to 40) digits.
func C11_prefixed() {
	neg := sym.Choice("neg", 2)
	n := 1 + sym.Choice("n", sym.N(10, 40))
	if sym.Tier() == 0 && n > 6 {
		n = [4]int{12, 19, 20, 21}[n-7]
	}
	ds := sym.Digits("d", n)
	beyond := false
	low := ds
	if n > 4 {
		for i := 0; i < n-4; i++ {
			beyond = sym.Or(beyond, ds[i] != '0')
		}
		low = ds[n-4:]
	}
	y := sym.Num(low)
	s := "Y" + ds
	if neg == 1 {
		s = "Y-" + ds
		y = -y
	}
	var res *edtf.EDTFDate
	var err error
	if sym.Choice("via", 2) == 0 {
		res, err = parse(s)
	} else {
		res, err = level1.ParseLetterPrefixedCalendarYear(s)
		observe(s, res, err)
	}
	if beyond {
		year(res, err, 0, true, false)
		return
	}
	year(res, err, y, false, n == 4)
}

// exponential is m times ten to the power e: its value, when supported.
func exponential(m, e int) (y int, beyond bool) {
	y = sym.Ite(e == 0, m, sym.Ite(e == 1, 10*m, sym.Ite(e == 2, 100*m, 1000*m)))
	beyond = sym.Or(sym.And(e == 0, m > 9999), sym.And(e == 1, m > 999), sym.And(e == 2, m > 99), sym.And(e == 3, m > 9), sym.And(e > 3, m > 0))
	y = sym.Ite(m == 0, 0, y)
	return
}

// C11_exponential: [-] 1 to 7 or 20 (thorough 40) digits E 1 to 20 (thorough 40) digits,
// of the lengths listed, as a year and as a bare notation.
func C11_exponential() {
	neg := sym.Choice("neg", 2)
	mantissas, exponents := []int{1, 2, 4, 7, 20}, []int{1, 2, 11, 20}
	if sym.Tier() > 0 {
		mantissas, exponents = []int{1, 2, 3, 4, 5, 6, 8, 12, 17, 19, 20, 21, 40}, []int{1, 2, 3, 4, 6, 9, 10, 11, 15, 18, 19, 20, 21, 40}
	}
	ms, m := figures("m", mantissas[sym.Choice("nm", len(mantissas))])
	es, e := figures("e", exponents[sym.Choice("ne", len(exponents))])
	y, beyond := exponential(m, e)
	s := ms + "E" + es
	if neg == 1 {
		s, y = "-"+s, -y
	}
	switch sym.Choice("via", 3) {
	case 0:
		res, err := parse("Y" + s)
		year(res, err, y, beyond, sym.Or(y > 999, y < -999))
	case 1:
		res, err := level2.ParseExponentialYear("Y" + s)
		observe(s, res, err)
		year(res, err, y, beyond, sym.Or(y > 999, y < -999))
	case 2:
		v, err := common.ParseExponentialNotation(s)
		sym.Observe("notation", s)
		if beyond {
			sym.Assert(err != nil, "a number beyond the supported years is refused")
			if err != nil {
				sym.Assert(edtf.IsUnsupported(err), "with an unsupported error")
			}
			return
		}
		if err != nil && e > 999999999999999 {
			return // zero with an exponent beyond 64 bits
		}
		sym.Assert(err == nil, "a supported number is read")
		if err == nil {
			sym.Observe("v", v)
			sym.Assert(v == y, "the number read is the number written")
		}
	}
}
