package props

import (
	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/level0"
	"github.com/sfomuseum/go-edtf/level1"
	"github.com/sfomuseum/go-edtf/level2"
	"github.com/sfomuseum/go-edtf/parser"
	"verif/harness/sym"
)

type feature struct {
	level int
	name  string
	is    func(string) bool
	parse func(string) (*edtf.EDTFDate, error)
}

var features = [...]feature{
	{0, level0.DATE, level0.IsDate, level0.ParseDate},
	{0, level0.DATE_AND_TIME, level0.IsDateAndTime, level0.ParseDateAndTime},
	{0, level0.TIME_INTERVAL, level0.IsTimeInterval, level0.ParseTimeInterval},
	{1, level1.LETTER_PREFIXED_CALENDAR_YEAR, level1.IsLetterPrefixedCalendarYear, level1.ParseLetterPrefixedCalendarYear},
	{1, level1.SEASON, level1.IsSeason, level1.ParseSeason},
	{1, level1.QUALIFIED_DATE, level1.IsQualifiedDate, level1.ParseQualifiedDate},
	{1, level1.UNSPECIFIED_DIGITS, level1.IsUnspecifiedDigits, level1.ParseUnspecifiedDigits},
	{1, level1.NEGATIVE_CALENDAR_YEAR, level1.IsNegativeCalendarYear, level1.ParseNegativeCalendarYear},
	{1, level1.EXTENDED_INTERVAL, level1.IsExtendedInterval, level1.ParseExtendedInterval},
	{1, level1.EXTENDED_INTERVAL_START, isStart, level1.ParseExtendedIntervalStart},
	{1, level1.EXTENDED_INTERVAL_END, isEnd, level1.ParseExtendedIntervalEnd},
	{2, level2.EXPONENTIAL_YEAR, level2.IsExponentialYear, level2.ParseExponentialYear},
	{2, level2.SIGNIFICANT_DIGITS, level2.IsSignificantDigits, level2.ParseSignificantDigits},
	{2, level2.SUB_YEAR_GROUPINGS, level2.IsSubYearGrouping, level2.ParseSubYearGroupings},
	{2, level2.SET_REPRESENTATIONS, level2.IsSetRepresentation, level2.ParseSetRepresentations},
	{2, level2.GROUP_QUALIFICATION, level2.IsGroupQualification, level2.ParseGroupQualification},
	{2, level2.INDIVIDUAL_QUALIFICATION, level2.IsIndividualQualification, level2.ParseIndividualQualification},
	{2, level2.UNSPECIFIED_DIGIT, level2.IsUnspecifiedDigit, level2.ParseUnspecifiedDigit},
	{2, level2.INTERVAL, level2.IsInterval, level2.ParseInterval},
}

// The two kinds of extended interval share a recogniser; the side left open or
// unknown tells which one it is.
func isStart(s string) bool {
	return level1.IsExtendedInterval(s) && (s[0] == '/' || len(s) > 2 && s[:3] == "../")
}

func isEnd(s string) bool {
	n := len(s)
	return level1.IsExtendedInterval(s) && (s[n-1] == '/' || n > 2 && s[n-3:] == "/..")
}

var recognisers = [...]func(string) bool{level0.IsLevel0, level1.IsLevel1, level2.IsLevel2}

// sameDate says that two bounds are equal, field by field.
func sameDate(a, b *edtf.Date) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if (a.Timestamp == nil) != (b.Timestamp == nil) || (a.YMD == nil) != (b.YMD == nil) {
		return false
	}
	ok := sym.And(sym.EqStr(a.DateTime, b.DateTime), a.Uncertain == b.Uncertain, a.Approximate == b.Approximate, a.Unspecified == b.Unspecified,
		a.Precision == b.Precision, a.Open == b.Open, a.Unknown == b.Unknown, a.Inclusivity == b.Inclusivity)
	if a.Timestamp != nil {
		ok = sym.And(ok, a.Timestamp.Unix() == b.Timestamp.Unix())
	}
	if a.YMD != nil {
		ok = sym.And(ok, a.YMD.Year == b.YMD.Year, a.YMD.Month == b.YMD.Month, a.YMD.Day == b.YMD.Day)
	}
	return ok
}

func sameRange(a, b *edtf.DateRange) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return sym.And(sym.EqStr(a.EDTF, b.EDTF), sameDate(a.Lower, b.Lower), sameDate(a.Upper, b.Upper))
}

// same says that two results are equal, field by field.
func same(a, b *edtf.EDTFDate) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return sym.And(a.Level == b.Level, sym.EqStr(a.Feature, b.Feature), sym.EqStr(a.EDTF, b.EDTF), sameRange(a.Start, b.Start), sameRange(a.End, b.End))
}

// levels checks that each level's recogniser is the union of its features'.
func levels(s string) {
	var any [3]bool
	for i := range features {
		f := &features[i]
		any[f.level] = sym.Or(any[f.level], f.is(s))
	}
	for l, is := range recognisers {
		sym.Assert(sym.Iff(is(s), any[l]), "a level's recogniser holds exactly when one of its features does")
	}
}

// own checks one feature's parser on one string.
func own(s string, f *feature) {
	is := f.is(s)
	res, err := f.parse(s)
	sym.Observe("err", err != nil)
	sym.Assert((res == nil) != (err == nil), "exactly one of a result and an error")
	if err == nil {
		sym.Assert(is, "a feature's parser accepts only what its recogniser accepts")
	}
	if err == nil && res != nil {
		named := sym.EqStr(res.Feature, f.name)
		if f.name == level1.EXTENDED_INTERVAL {
			named = sym.Or(sym.EqStr(res.Feature, level1.EXTENDED_INTERVAL_START), sym.EqStr(res.Feature, level1.EXTENDED_INTERVAL_END))
		}
		sym.Assert(sym.And(res.Level == f.level, named, sym.EqStr(res.EDTF, s)), "the result carries the level, the feature and the string")
	}
	if !is {
		return
	}
	level, name, merr := parser.Matches(s)
	if merr != nil || level != f.level || name != f.name {
		return
	}
	pub, perr := parser.ParseString(s)
	sym.Assert((perr == nil) == (err == nil), "the feature's parser and the public parser accept the same")
	if perr == nil && err == nil {
		sym.Assert(same(res, pub), "the feature's parser gives the public parser's result")
	}
}

// C23_levels: every string of up to 12 (thorough 24) bytes.
func C23_levels() { levels(sym.String("s", sym.Choice("n", sym.N(13, 25)))) }

// C23_levels_shapes: every shape of string, with one byte changed.
func C23_levels_shapes() { levels(mutated("s", sym.Choice("shape", shapes))) }

// C23_own: every feature's parser on every shape of string.
func C23_own() {
	f := &features[sym.Choice("feature", len(features))]
	own(lean("s", sym.Choice("shape", shapes)), f)
}

// C23_own_near: every feature's parser on every shape of string with one byte changed.
func C23_own_near() {
	f := &features[sym.Choice("feature", len(features))]
	own(mutated("s", sym.Choice("shape", shapes)), f)
}

// C23_raw: every feature's parser on every string of up to 8 (thorough 13) bytes.
func C23_raw() {
	f := &features[sym.Choice("feature", len(features))]
	own(sym.String("s", sym.Choice("n", sym.N(9, 14))), f)
}
