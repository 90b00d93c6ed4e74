package props

import (
	"github.com/sfomuseum/go-edtf/level0"
	"github.com/sfomuseum/go-edtf/level1"
	"github.com/sfomuseum/go-edtf/level2"
	"verif/harness/sym"
)

// known says whether some level's recogniser holds.
func known(s string) bool {
	return sym.Or(level0.IsLevel0(s), level1.IsLevel1(s), level2.IsLevel2(s))
}

// mutated is a string of shape k with one byte inserted, replaced or removed at any
// place.
func mutated(tag string, k int) string {
	s := lean(tag, k)
	at := sym.Choice(tag+".at", len(s)+1)
	kind := sym.Choice(tag+".kind", sym.N(2, 3))
	if kind == 0 {
		return s[:at] + sym.String(tag+".b", 1) + s[at:]
	}
	if at == len(s) {
		return s
	}
	if kind == 1 {
		return s[:at] + sym.String(tag+".b", 1) + s[at+1:]
	}
	return s[:at] + s[at+1:]
}
