package props

import (
	"github.com/sfomuseum/go-edtf"
	"verif/harness/sym"
)

// markers checks every marker predicate on one string.
func markers(s string) {
	open := sym.Or(sym.EqStr(s, ".."), sym.EqStr(s, "open"))
	unknown := sym.Or(s == "", sym.EqStr(s, "uuuu"))
	old := sym.Or(sym.EqStr(s, "open"), sym.EqStr(s, "uuuu"))
	sym.Assert(sym.Iff(edtf.IsOpen(s), open), "open")
	sym.Assert(sym.Iff(edtf.IsUnknown(s), unknown), "unknown")
	sym.Assert(sym.Iff(edtf.IsUnspecified(s), unknown), "unspecified")
	dep := edtf.IsDeprecated(s)
	sym.Observe("deprecated", dep)
	sym.Assert(sym.Iff(dep, old), "the 2012 forms, and only they, are deprecated")
	r, err := edtf.ReplaceDeprecated(s)
	sym.Assert(sym.Iff(dep, err == nil), "a string is deprecated exactly when it has a replacement")
	if err != nil {
		sym.Assert(sym.EqStr(r, ""), "no replacement with an error")
		return
	}
	sym.Assert(sym.Not(edtf.IsDeprecated(r)), "the replacement is not deprecated")
	sym.Assert(sym.And(sym.Iff(edtf.IsOpen(r), open), sym.Iff(edtf.IsUnknown(r), unknown), sym.Iff(edtf.IsUnspecified(r), unknown)), "the replacement means the same")
}

// C20_raw: every string of up to 12 (thorough 40) bytes.
func C20_raw() { markers(sym.String("s", sym.Choice("n", sym.N(13, 41)))) }

// C20_shapes: every shape of string.
func C20_shapes() { markers(shape("s", sym.Choice("shape", shapes))) }
