package props

import (
	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/parser"
	"github.com/sfomuseum/go-edtf/unix"
	"verif/harness/sym"
)

func derived(s string) {
	ok, r, err := unix.DeriveRanges(s)
	sym.Observe("edtf", s)
	sym.Observe("ok", ok)
	sym.Observe("err", err != nil)
	if r != nil && r.Outer != nil && r.Inner != nil {
		sym.Observe("outer", r.Outer.Start)
		sym.Observe("outer", r.Outer.End)
		sym.Observe("inner", r.Inner.Start)
		sym.Observe("inner", r.Inner.End)
	}
	sym.Assert(ok == (r != nil), "ranges are given exactly when derived")
	sym.Assert(sym.Not(sym.And(ok, err != nil)), "not both ranges and an error")
	res, perr := parser.ParseString(s)
	if perr != nil {
		sym.Assert(!ok, "a string that does not parse derives nothing")
		marker := edtf.IsOpen(s) || edtf.IsUnknown(s) || edtf.IsUnspecified(s) || edtf.IsDeprecated(s)
		sym.Assert((err == nil) == marker, "only a marker that does not parse gives no error")
		return
	}
	sym.Assert(err == nil, "a string that parses gives no error")
	if !whole(res) {
		sym.Assert(false, "result is whole")
		return
	}
	var t [4]int64
	all := true
	for i, b := range bounds(res) {
		u, dated := unixOf(b)
		t[i] = u
		all = all && dated
	}
	sym.Assert(ok == all, "ranges are derived exactly when all four bounds are dated")
	if !ok || !all || r == nil {
		return
	}
	if r.Outer == nil || r.Inner == nil {
		sym.Assert(false, "ranges are whole")
		return
	}
	sym.Assert(sym.And(r.Outer.Start == t[0], r.Outer.End == t[3]), "outer range")
	sym.Assert(sym.And(r.Inner.Start == t[1], r.Inner.End == t[2]), "inner range")
}

// C17_shapes: every shape of string.
func C17_shapes() { derived(shape("s", sym.Choice("shape", shapes))) }

// C17_raw: every string of up to 8 (thorough 12) bytes.
func C17_raw() { derived(sym.String("s", sym.Choice("n", sym.N(9, 13)))) }

// C17_near: every shape of string with one byte changed.
func C17_near() { derived(mutated("s", sym.Choice("shape", shapes))) }

// C17_marked: a marker before or after up to 12 (thorough 20) bytes.
func C17_marked() {
	m := [4]string{"..", "open", "uuuu", "unknown"}[sym.Choice("marker", 4)]
	s := sym.String("s", 1+sym.Choice("n", sym.N(12, 20)))
	if sym.Choice("after", 2) == 1 {
		derived(s + m)
		return
	}
	derived(m + s)
}
