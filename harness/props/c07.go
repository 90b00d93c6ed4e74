package props

import (
	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/level1"
	"verif/harness/sym"
)

// C07_openunknown: an existing date of every sign and precision with an open or
// unknown start or end, through the public and the feature parser.
func C07_openunknown() {
	v := anyPlain("a")
	left := sym.Choice("left", 2) == 1
	open := sym.Choice("open", 2) == 1
	mark := ""
	if open {
		mark = ".."
	}
	s := v.s + "/" + mark
	if left {
		s = mark + "/" + v.s
	}
	var res *edtf.EDTFDate
	var err error
	if sym.Choice("via", 2) == 0 {
		res, err = parse(s)
	} else {
		res, err = level1.ParseExtendedInterval(s)
		observe(s, res, err)
	}
	sym.Assert(err == nil, "parses")
	if err != nil {
		return
	}
	if !whole(res) {
		sym.Assert(false, "result is whole")
		return
	}
	dated, missing := res.Start, res.End
	if left {
		dated, missing = res.End, res.Start
	}
	ends(dated, v, "dated end")
	asAlone(dated, v, "dated end")
	for _, b := range []*edtf.Date{missing.Lower, missing.Upper} {
		sym.Assert(b.Timestamp == nil, "the missing end has no timestamp")
		sym.Assert(b.YMD == nil, "the missing end has no year, month and day")
		sym.Assert(sym.EqStr(b.DateTime, ""), "the missing end has no time string")
		sym.Assert(b.Open == open, "the missing end is open exactly when written ..")
		sym.Assert(b.Unknown == !open, "the missing end is unknown exactly when left out")
		sym.Assert(sym.And(b.Uncertain == edtf.NONE, b.Approximate == edtf.NONE, b.Unspecified == edtf.NONE, b.Precision == edtf.NONE, b.Inclusivity == edtf.NONE), "the missing end has no other flag")
	}
	sym.Assert(sym.EqStr(missing.EDTF, mark), "the missing end repeats its side")
	lt, lerr := res.Lower()
	ut, uerr := res.Upper()
	if left {
		sym.Assert(lt == nil && lerr != nil && edtf.IsNotSet(lerr), "the lower time is not set")
		sym.Assert(uerr == nil && ut != nil && ut.Unix() == v.hi(), "the upper time is the date's")
	} else {
		sym.Assert(ut == nil && uerr != nil && edtf.IsNotSet(uerr), "the upper time is not set")
		sym.Assert(lerr == nil && lt != nil && lt.Unix() == v.lo(), "the lower time is the date's")
	}
	sym.Assert(res.Level == 1, "level")
}
