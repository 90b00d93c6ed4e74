package props

import (
	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/level1"
	"github.com/sfomuseum/go-edtf/level2"
	"verif/harness/sym"
)

// first and last months of the groups 21 to 41; a last month before the first
// belongs to the following year.
var firstMonth = [...]int{3, 6, 9, 12, 3, 6, 9, 12, 9, 12, 3, 6, 1, 4, 7, 10, 1, 5, 9, 1, 7}
var lastMonth = [...]int{5, 8, 11, 2, 5, 8, 11, 2, 11, 2, 5, 8, 3, 6, 9, 12, 4, 8, 12, 6, 12}

// group checks what a season or grouping of year y covers.
func group(res *edtf.EDTFDate, err error, y, code, level int, feature string) {
	m1, m2 := firstMonth[code-21], lastMonth[code-21]
	y2 := y
	if m2 < m1 {
		y2 = y + 1
		if y2 > 9999 {
			// the following year cannot be represented
			sym.Assert(err != nil, "a winter ending in year 10000 is refused")
			return
		}
	}
	sym.Assert(err == nil, "a season or grouping parses")
	if err != nil {
		return
	}
	if m2 == 2 {
		// the end range of some of these is all of February
		spans(res, lo(y, m1, 1), hi(y2, m2, sym.DaysIn(y2, m2)))
	} else {
		days(res, lo(y, m1, 1), hi(y2, m2, sym.DaysIn(y2, m2)))
	}
	if !whole(res) {
		return
	}
	sym.Assert(res.Level == level, "level")
	sym.Assert(sym.EqStr(res.Feature, feature), "feature")
}

// C08_code: [-]YYYY-21 to [-]YYYY-24 and YYYY-25 to YYYY-41, every year, through
// the public parser.
func C08_code() {
	neg := sym.Choice("neg", 2)
	ys := sym.Digits("y", 4)
	y := sym.Num(ys)
	code := 21 + sym.Choice("code", 21)
	level, feature := 1, level1.SEASON
	if code > 24 {
		level, feature = 2, level2.SUB_YEAR_GROUPINGS
		if neg == 1 {
			return
		}
	}
	if neg == 1 {
		ys, y = "-"+ys, -y
	}
	res, err := parse(ys + "-" + sym.Pad(code, 2))
	group(res, err, y, code, level, feature)
}

// C08_feature: the same through the feature parsers, where level 2 also reads
// 21 to 24.
func C08_feature() {
	ys := sym.Digits("y", 4)
	y := sym.Num(ys)
	code := 21 + sym.Choice("code", 21)
	s := ys + "-" + sym.Pad(code, 2)
	if code <= 24 && sym.Choice("level", 2) == 0 {
		res, err := level1.ParseSeason(s)
		observe(s, res, err)
		group(res, err, y, code, 1, level1.SEASON)
		return
	}
	res, err := level2.ParseSubYearGroupings(s)
	observe(s, res, err)
	group(res, err, y, code, 2, level2.SUB_YEAR_GROUPINGS)
}

// blanks is none, one or two blanks of any kind, or 20 (thorough 100) spaces.
func blanks(tag string) string {
	switch n := sym.Choice(tag, 4); n {
	case 3:
		return spaces[:sym.N(20, 100)]
	default:
		return sym.StringIn(tag+".c", n, " \t\n\f\r")
	}
}

const spaces = "                                                                                                    "

// C08_name: a season by its English name, each letter in either case, then a
// comma with no, one or two blanks of any kind or 20 (thorough 100) on either side, and a year.
func C08_name() {
	names := [4]string{"spring", "summer", "fall", "winter"}
	k := sym.Choice("name", 4)
	s := ""
	for i := 0; i < len(names[k]); i++ {
		c := names[k][i : i+1]
		s += sym.StringIn("c", 1, c+string(c[0]-32))
	}
	s += blanks("sp1") + "," + blanks("sp2")
	ys := sym.Digits("y", 4)
	res, err := parse(s + ys)
	group(res, err, sym.Num(ys), 21+k, 1, level1.SEASON)
}
