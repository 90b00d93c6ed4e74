package props

import (
	"time"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/common"
	"verif/harness/sym"
)

const spanSides = "^(-?[0-9X?~%]+(-[0-9X?~%]+)*|(|[.][.]|-?[0-9X?~%]+(-[0-9X?~%]+)*)/(|[.][.]|-?[0-9X?~%]+(-[0-9X?~%]+)*))$"

// built checks the span built from a string against the one parsing it gives.
func built(s string, reversible bool) {
	sp, err := common.DateSpanFromEDTF(s)
	sym.Observe("err", err != nil)
	sym.Assert((sp == nil) != (err == nil), "exactly one of a span and an error")
	if sp == nil {
		return
	}
	sym.Assert(sym.Match(spanSides, s), "the string is one or two dates or markers")
	d := &edtf.EDTFDate{Start: sp.Start, End: sp.End}
	sym.Assert(whole(d), "the span is whole")
	if !whole(d) {
		return
	}
	var at [4]int64
	all := true
	for i, b := range bounds(d) {
		u, ok := consistent(b, boundNames[i])
		sym.Assert(ok || b.Open != b.Unknown, boundNames[i]+" is dated, open or unknown")
		sym.Assert(sym.And(b.Unspecified == edtf.NONE, b.Inclusivity == edtf.NONE), boundNames[i]+" carries no flag the string does not have")
		at[i] = u
		all = all && ok
	}
	if all && !reversible {
		sym.Assert(sym.And(at[0] <= at[1], at[1] <= at[3], at[0] <= at[2], at[2] <= at[3]), "the bounds are in order")
	}
	res, err := parse(s)
	if err == nil && whole(res) {
		sym.Assert(sym.And(sameRange(sp.Start, res.Start), sameRange(sp.End, res.End)), "the span is the one parsing gives")
	}
}

// written checks the dates a string of one date is read as against its span.
func written(s string) {
	r, rerr := common.StringRangeFromYMD(s)
	sym.Observe("rerr", rerr != nil)
	sym.Assert((r == nil) != (rerr == nil), "exactly one of a string range and an error")
	sp, err := common.DateSpanFromEDTF(s)
	if r == nil {
		sym.Assert(err != nil, "a span has a string range")
		return
	}
	if r.Start == nil || r.End == nil {
		sym.Assert(false, "the string range is whole")
		return
	}
	sym.Assert(sym.EqStr(r.EDTF, s), "the string range has the string")
	a, aerr := common.YMDFromStringDate(r.Start)
	b, berr := common.YMDFromStringDate(r.End)
	sym.Assert((aerr == nil && berr == nil) == (err == nil), "the span is built when both dates exist")
	if sp == nil || aerr != nil || berr != nil {
		return
	}
	d := &edtf.EDTFDate{Start: sp.Start, End: sp.End}
	for i, b4 := range bounds(d) {
		v := a
		if i > 1 {
			v = b
		}
		sym.Assert(isYMD(b4.YMD, v.Year, v.Month, v.Day), boundNames[i]+" is the date of the string range")
		sym.Assert(sym.And(b4.Precision == r.Precision, b4.Uncertain == r.Uncertain, b4.Approximate == r.Approximate), boundNames[i]+" has the flags of the string range")
	}
}

// C25_written: every string of up to 7 (thorough 12) bytes, dates with qualifiers or
// unspecified digits, and those of them that do not exist, read as two dates.
func C25_written() {
	s := ""
	switch sym.Choice("kind", 4) {
	case 0:
		s = sym.String("s", sym.Choice("n", sym.N(8, 13)))
		for i := 0; i < len(s); i++ {
			sym.Assume(s[i] != '/')
		}
	case 1:
		prec := sym.Choice("prec", 3)
		s = qualified("a", sym.Choice("neg", 2), prec, sym.Choice("mask", 1<<uint(prec+1)), sym.Choice("group", 2) == 1).s
	case 2:
		nx, mk, dk := sym.Choice("nx", 4), sym.Choice("mk", ox+1), absent
		if mk != absent {
			dk = sym.Choice("dk", hx+1)
		}
		s = fill("a", nx, mk, dk, false).s
	case 3:
		s, _ = anyDigits("a", sym.Choice("neg", 2), sym.Choice("prec", 3))
	}
	written(s)
}

// C25_raw: every string of up to 8 (thorough 14) bytes.
func C25_raw() {
	s := sym.String("s", sym.Choice("n", sym.N(9, 15)))
	built(s, true)
}

// C25_shapes: every shape of string.
func C25_shapes() {
	k := sym.Choice("shape", shapes)
	built(shape("s", k), k == 2 || k == 15)
}

// C25_near: every shape of string with one byte changed.
func C25_near() { built(mutated("s", sym.Choice("shape", shapes)), true) }

// C25_made: the spans and ranges made without a date.
func C25_made() {
	kind := sym.Choice("kind", 3)
	open, unknown := kind == 1, kind == 2
	span := [3]func() *edtf.DateSpan{common.EmptyDateSpan, common.OpenDateSpan, common.UnknownDateSpan}[kind]
	one := [3]func() *edtf.DateRange{common.EmptyDateRange, common.OpenDateRange, common.UnknownDateRange}[kind]
	for round := 0; round < 2; round++ {
		sp := span()
		var made []*edtf.Date
		for _, r := range [3]*edtf.DateRange{sp.Start, sp.End, one()} {
			if r == nil || r.Lower == nil || r.Upper == nil {
				sym.Assert(false, "the range is whole")
				return
			}
			made = append(made, r.Lower, r.Upper)
		}
		for _, b := range made {
			sym.Assert(sym.And(b.Open == open, b.Unknown == unknown), "flagged as its name says")
			sym.Assert(b.Timestamp == nil && b.YMD == nil && b.DateTime == "", "without a date")
			sym.Assert(b.Uncertain == edtf.NONE && b.Approximate == edtf.NONE && b.Unspecified == edtf.NONE && b.Precision == edtf.NONE && b.Inclusivity == edtf.NONE, "without any other flag")
		}
		for _, b := range made {
			// what the caller does with them must not show in the next ones
			b.Open, b.Unknown, b.Precision = !open, !unknown, edtf.DAY
		}
	}
}

// C25_bce: every day of the years 1 to 9999 and any clock.
func C25_bce() {
	y, m, d := sym.Int("y", 1, 9999), sym.Int("m", 1, 12), sym.Int("d", 1, 31)
	sym.Assume(d <= sym.DaysIn(y, m))
	sod := sym.Int("sod", 0, day-1)
	t := common.TimeToBCE(time.Unix(sym.Secs(y, m, d, sod), 0).UTC())
	sym.Observe("t", t.Unix())
	sym.Assert(t.Unix() == sym.Secs(-y, m, d, sod), "the same day and clock of the opposite year")
	sym.Assert(sym.And(common.FlipYear(y) == -y, common.FlipYear(-y) == y), "the opposite year")
}
