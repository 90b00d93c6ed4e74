package props

import (
	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/level1"
	"github.com/sfomuseum/go-edtf/level2"
	"verif/harness/sym"
)

// completions computes the earliest and the latest calendar date among the
// fillings of v; ok is false when there is none.
func completions(v side, nx, mk, dk int) (a, b side, ok bool) {
	a, b = v, v
	if dk == absent {
		// the whole of the last month
		return a, b, sym.And(1 <= v.m1, v.m2 <= 12)
	}
	ok = sym.And(1 <= v.m1, v.m2 <= 12, 1 <= v.d1, v.d1 <= 31)
	if !ok {
		return
	}
	// earliest: only a 29th of February may have to move to a later year, and
	// only a 31st to a later month (10 and 1, which start the month ranges, have it)
	if nx > 0 && mk == digits {
		leap := sym.And(v.m1 == 2, v.d1 == 29)
		for i := 0; i < 3; i++ {
			a.y1 = sym.Ite(sym.And(leap, sym.DaysIn(a.y1, 2) == 28, a.y1 < v.y2), a.y1+1, a.y1)
		}
		// a century that is no leap year may follow: eight years to the next
		for i := 0; i < 4; i++ {
			a.y1 = sym.Ite(sym.And(leap, sym.DaysIn(a.y1, 2) == 28, a.y1 < v.y2), a.y1+1, a.y1)
		}
		last := v.d2
		if dk != digits {
			last = v.d1
		}
		leap = sym.And(v.m2 == 2, last == 29)
		for i := 0; i < 7; i++ {
			b.y2 = sym.Ite(sym.And(leap, sym.DaysIn(b.y2, 2) == 28, b.y2 > v.y1), b.y2-1, b.y2)
		}
	}
	if mk == zx && dk == digits {
		b.m2 = sym.Ite(v.d2 == 31, 8, 9)
	}
	ok = sym.And(dateExists(a.y1, a.m1, a.d1), dateExists(b.y2, b.m2, b.d2))
	return
}

// granularity says that a precision is none or a single one.
func granularity(p edtf.Precision) bool {
	return sym.Or(p == edtf.NONE, p == edtf.DAY, p == edtf.WEEK, p == edtf.MONTH, p == edtf.YEAR, p == edtf.DECADE, p == edtf.CENTURY, p == edtf.MILLENIUM)
}

func unspecifiedDate(nx, mk, dk int, tens bool, res func(string) (*edtf.EDTFDate, error)) {
	v := fill("a", nx, mk, dk, false)
	simple := sym.And(dateExists(v.y1, v.m1, v.d1), dateExists(v.y2, v.m2, v.d2))
	r, err := res(v.s)
	a, b, ok := completions(v, nx, mk, dk)
	if !ok {
		sym.Assert(err != nil, "a date with no completion is refused")
		return
	}
	if err != nil {
		// the level 1 pattern leaves the days 10 and 20 to level 2
		skip := !tens && dk == digits && (v.d1 == 10 || v.d1 == 20)
		sym.Assert(sym.Or(skip, sym.Not(simple)), "a date whose first and last fillings exist parses")
		return
	}
	spans(r, a.lo(), b.hi())
	if !whole(r) {
		return
	}
	if nx > 0 || mk != digits {
		boundAt(r.Start.Upper, hi(a.y1, a.m1, a.d1), "start upper")
		boundAt(r.End.Lower, lo(b.y2, b.m2, b.d2), "end lower")
	} else {
		// "YYYY-09-3X" can only be one day
		days(r, a.lo(), b.hi())
	}
	want := edtf.NONE
	switch {
	case mk == absent && nx > 0:
		want = [4]edtf.Precision{0, edtf.DECADE, edtf.CENTURY, edtf.MILLENIUM}[nx]
	case nx == 0 && mk == xx && dk == xx, nx == 0 && mk == xx && dk == absent:
		want = edtf.YEAR
	case nx == 0 && mk == digits && dk == xx:
		want = edtf.MONTH
	}
	for i, d := range bounds(r) {
		if want != edtf.NONE {
			sym.Assert(d.Precision == want, boundNames[i]+" precision")
		}
		sym.Assert(sym.And(granularity(d.Precision), d.Precision == r.Start.Lower.Precision), boundNames[i]+" precision is one granularity, that of the date")
	}
}

// C10_public: every shape of date with unspecified rightmost digits of the
// year, month or day, through the public parser.
func C10_public() {
	nx := sym.Choice("nx", 4)
	mk := sym.Choice("mk", ox+1)
	dk := absent
	if mk != absent {
		dk = sym.Choice("dk", hx+1)
	}
	if nx == 0 && (mk == absent || mk == digits && dk <= digits) {
		return
	}
	unspecifiedDate(nx, mk, dk, true, parse)
}

// C10_feature: the shapes each feature parser reads, through that parser.
func C10_feature() {
	nx := sym.Choice("nx", 4)
	mk := sym.Choice("mk", ox+1)
	dk := absent
	if mk != absent {
		dk = sym.Choice("dk", hx+1)
	}
	if nx == 0 && (mk == absent || mk == digits && dk <= digits) {
		return
	}
	via := level1.ParseUnspecifiedDigits
	level2s := sym.Choice("level", 2) == 1
	if level2s {
		via = level2.ParseUnspecifiedDigit
	}
	unspecifiedDate(nx, mk, dk, level2s, func(s string) (*edtf.EDTFDate, error) {
		r, err := via(s)
		observe(s, r, err)
		return r, err
	})
}

// C10_interior: an X anywhere in the year, other than the last digits alone.
func C10_interior() {
	mask := 1 + sym.Choice("mask", 14)
	if mask == 8 || mask == 12 || mask == 14 {
		return
	}
	mk := sym.Choice("mk", ox+1)
	dk := absent
	if mk != absent {
		dk = sym.Choice("dk", hx+1)
	}
	v := masked("a", mask, mk, dk)
	r, err := parse(v.s)
	if err != nil {
		return
	}
	if !sym.And(dateExists(v.y1, v.m1, v.d1), dateExists(v.y2, v.m2, v.d2)) {
		return
	}
	spans(r, v.lo(), v.hi())
}
