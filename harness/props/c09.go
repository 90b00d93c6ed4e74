package props

import (
	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/level1"
	"github.com/sfomuseum/go-edtf/level2"
	"verif/harness/sym"
)

// qualifiedDate checks the flags of all four bounds, and that the bounds are
// those of the date without its qualifiers.
func qualifiedDate(v side, bare string, res *edtf.EDTFDate, err error) {
	sym.Assert(err == nil, "a qualified existing date parses")
	if err != nil {
		return
	}
	if !whole(res) {
		sym.Assert(false, "result is whole")
		return
	}
	want, werr := parse(bare)
	if werr != nil || !whole(want) {
		sym.Assert(false, "the date parses without its qualifiers")
		return
	}
	ws := bounds(want)
	for i, b := range bounds(res) {
		n := boundNames[i]
		if wu, ok := unixOf(ws[i]); ok {
			boundAt(b, wu, n)
		}
		flagged(b, v.unc, v.app, n)
		sym.Assert(b.Unspecified == edtf.NONE, n+" has no unspecified flags")
		sym.Assert(b.Inclusivity == edtf.NONE, n+" has no inclusivity flags")
		w := *ws[i]
		w.Uncertain, w.Approximate = b.Uncertain, b.Approximate
		sym.Assert(sameDate(b, &w), n+" is that of the date without qualifiers but for the flags")
	}
	days(res, v.lo(), v.hi())
}

func bareOf(s string) string {
	r := ""
	for i := 0; i < len(s); i++ {
		if c := s[i]; c != '?' && c != '~' && c != '%' {
			r += s[i : i+1]
		}
	}
	return r
}

// C09_group: [-]YYYY[-MM[-DD]] with any non-empty choice of components followed
// by any qualifier (for a negative year, the last component alone).
func C09_group() {
	neg, prec := sym.Choice("neg", 2), sym.Choice("prec", 3)
	mask := 1 + sym.Choice("mask", 1<<uint(prec+1)-1)
	if neg == 1 && mask != 1<<uint(prec) {
		return
	}
	v := qualified("a", neg, prec, mask, true)
	res, err := parse(v.s)
	qualifiedDate(v, bareOf(v.s), res, err)
}

// C09_individual: YYYY[-MM[-DD]] with any non-empty choice of components
// preceded by any qualifier.
func C09_individual() {
	prec := sym.Choice("prec", 3)
	mask := 1 + sym.Choice("mask", 1<<uint(prec+1)-1)
	v := qualified("a", 0, prec, mask, false)
	res, err := parse(v.s)
	qualifiedDate(v, bareOf(v.s), res, err)
}

// C09_feature: the same through the feature parsers.
func C09_feature() {
	prec := sym.Choice("prec", 3)
	mask := 1 + sym.Choice("mask", 1<<uint(prec+1)-1)
	var res *edtf.EDTFDate
	var err error
	var v side
	switch sym.Choice("feature", 3) {
	case 0:
		if mask != 1<<uint(prec) {
			return
		}
		v = qualified("a", sym.Choice("neg", 2), prec, mask, true)
		res, err = level1.ParseQualifiedDate(v.s)
	case 1:
		v = qualified("a", 0, prec, mask, true)
		res, err = level2.ParseGroupQualification(v.s)
	case 2:
		v = qualified("a", 0, prec, mask, false)
		res, err = level2.ParseIndividualQualification(v.s)
	}
	observe(v.s, res, err)
	qualifiedDate(v, bareOf(v.s), res, err)
}
