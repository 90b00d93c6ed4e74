package props

import (
	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/level2"
	"verif/harness/sym"
)

// significant checks the year y (of four digits, with leading zeros) with the
// count n; must says whether a count of 1 to 4 has to be accepted.
func significant(s string, y int, neg int, n int, beyond, must bool) {
	var res *edtf.EDTFDate
	var err error
	if sym.Choice("via", 2) == 0 {
		res, err = parse(s)
	} else {
		res, err = level2.ParseSignificantDigits(s)
		observe(s, res, err)
	}
	if beyond {
		sym.Assert(err != nil, "a year beyond the supported ones is refused")
		return
	}
	if n > 4 {
		sym.Assert(err != nil, "a count of more digits than the year has is refused")
		return
	}
	if err != nil {
		sym.Assert(sym.Or(n == 0, sym.Not(must)), "a supported year with significant digits parses")
		return
	}
	p := sym.Ite(n == 0, 1, sym.Ite(n == 1, 10, sym.Ite(n == 2, 100, sym.Ite(n == 3, 1000, 10000))))
	first := y - y%p
	last := first + p - 1
	if neg == 1 {
		if y == 0 {
			// minus zero names no direction
			return
		}
		first, last = -last, -first
	}
	spans(res, lo(first, 1, 1), hi(last, 12, 31))
	if whole(res) {
		u, ok := unixOf(res.Start.Upper)
		v, okv := unixOf(res.End.Lower)
		sym.Assert(sym.And(ok, okv), "inner bounds are dated")
		if ok && okv {
			sym.Assert(sym.And(lo(first, 1, 1) <= u, u <= hi(first, 12, 31)), "the start range lies in the first year")
			sym.Assert(sym.And(lo(last, 1, 1) <= v, v <= hi(last, 12, 31)), "the end range lies in the last year")
		}
	}
}

func counted() (string, int) {
	lengths := []int{1, 2, 10, 20}
	if sym.Tier() > 0 {
		lengths = []int{1, 2, 3, 4, 10, 17, 19, 20, 21, 33, 40}
	}
	return figures("n", lengths[sym.Choice("nn", len(lengths))])
}

// figures is a number of n digits and its value; above 16 digits either all but the
// last six are zeros, or the first is at least 2, or (20 digits) all but the last four are
// those of two to the 64th; for the latter two ten to the sixteenth stands for the value.
func figures(tag string, n int) (string, int) {
	if n <= 16 {
		ds := sym.Digits(tag, n)
		return ds, sym.Num(ds)
	}
	cases := 2
	if n == 20 {
		cases = 3
	}
	switch sym.Choice(tag+".large", cases) {
	case 0:
		ds := sym.Digits(tag, 6)
		return "0000000000000000000000000000000000"[:n-6] + ds, sym.Num(ds)
	case 1:
		return sym.StringIn(tag+".first", 1, "23456789") + sym.Digits(tag, n-1), 10000000000000000
	}
	return "1844674407370955" + sym.Digits(tag, 4), 10000000000000000
}

// C12_plain: [-]YYYYSn, n of 1, 2, 10 or 20 (thorough up to 40) digits.
func C12_plain() {
	neg := sym.Choice("neg", 2)
	ys := sym.Digits("y", 4)
	ns, n := counted()
	s := ys + "S" + ns
	if neg == 1 {
		s = "-" + s
	}
	significant(s, sym.Num(ys), neg, n, false, true)
}

// C12_prefixed: Y[-] 1 to 6 (thorough 12) digits Sn.
func C12_prefixed() {
	neg := sym.Choice("neg", 2)
	nd := 1 + sym.Choice("nd", sym.N(6, 12))
	ds := sym.Digits("d", nd)
	ns, n := counted()
	s := ds + "S" + ns
	if neg == 1 {
		s = "-" + s
	}
	y := sym.Num(ds)
	significant("Y"+s, y, neg, n, y > 9999, nd == 4)
}

// C12_exponential: Y[-] 1 to 4 digits E 1 or 2 digits Sn.
func C12_exponential() {
	neg := sym.Choice("neg", 2)
	ms := sym.Digits("m", 1+sym.Choice("nm", sym.N(2, 4)))
	es := sym.Digits("e", 1+sym.Choice("ne", 2))
	ns, n := counted()
	y, beyond := exponential(sym.Num(ms), sym.Num(es))
	s := ms + "E" + es + "S" + ns
	if neg == 1 {
		s = "-" + s
	}
	significant("Y"+s, y, neg, n, beyond, y > 999)
}
