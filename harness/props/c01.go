package props

import (
	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/cmp"
	"github.com/sfomuseum/go-edtf/parser"
	"github.com/sfomuseum/go-edtf/unix"
	"verif/harness/sym"
)

// safe calls everything on s; a panic or a call that does not end is a violation.
func safe(s string) {
	sym.Observe("s", s)
	parser.IsValid(s)
	level, name, merr := parser.Matches(s)
	sym.Assert(sym.Iff(merr != nil, level == -1), "classification gives exactly one of a level and an error")
	sym.Assert(sym.Or(merr != nil, name != ""), "classification gives exactly one of a feature and an error")
	res, err := parser.ParseString(s)
	sym.Observe("err", err != nil)
	sym.Assert((res == nil) != (err == nil), "exactly one of a result and an error")
	if err == nil && res != nil {
		sym.Assert(sym.EqStr(res.EDTF, s), "the result repeats the string")
		sym.Assert(res.Feature != "", "the result names a feature")
		if s == ".." || s == "" {
			sym.Assert(res.Level == -1, "a bare marker has level -1")
		} else {
			sym.Assert(sym.And(0 <= res.Level, res.Level <= 2), "the level is 0, 1 or 2")
		}
		sym.Assert(whole(res), "the result has all four bounds")
		if whole(res) {
			for i, b := range bounds(res) {
				sym.Assert(sym.Or(b.Timestamp != nil, b.Open, b.Unknown), boundNames[i]+" is dated, open or unknown")
			}
		}
		if res.String() != s {
			sym.Assert(false, "the result as a string is the string")
		}
	}
}

// compared calls the comparisons and the ranges.
func compared(s string, k int) {
	sym.Observe("s", s)
	other := [3]string{"2000-02", "..", ""}[k%3]
	a, b := s, other
	if k > 2 {
		a, b = b, a
	}
	x, err := cmp.IsBefore(a, b)
	sym.Assert(sym.Not(sym.And(x, err != nil)), "not both an answer and an error")
	y, err := cmp.IsAfter(a, b)
	sym.Assert(sym.Not(sym.And(y, err != nil)), "not both an answer and an error")
	z, err := cmp.IsBetween(a, b, [2]string{"2001", s}[k%2])
	sym.Assert(sym.Not(sym.And(z, err != nil)), "not both an answer and an error")
	unix.DeriveRanges(s)
	edtf.IsDeprecated(s)
}

// C01_raw: every string of up to 8 (thorough 14) bytes.
func C01_raw() { safe(sym.String("s", sym.Choice("n", sym.N(9, 15)))) }

// C01_shapes: every shape of string.
func C01_shapes() { safe(shape("s", sym.Choice("shape", shapes))) }

// C01_near: every shape of string with one byte changed.
func C01_near() { safe(mutated("s", sym.Choice("shape", shapes))) }

// C01_compare_raw: every string of up to 6 (thorough 11) bytes against a date or a marker.
func C01_compare_raw() { compared(sym.String("s", sym.Choice("n", sym.N(7, 12))), sym.Choice("k", 6)) }

// C01_compare_shapes: every shape of string against a date or a marker.
func C01_compare_shapes() {
	compared(lean("s", sym.Choice("shape", shapes)), sym.Choice("k", 6))
}

// C01_long: digits after a prefix, of any number up to 24 (thorough 60) and of 65, 130 and 257, plus an
// exponent or a count of digits.
func C01_long() {
	n := 1 + sym.Choice("n", sym.N(27, 63))
	if top := sym.N(24, 60); n > top {
		n = [3]int{65, 130, 257}[n-top-1]
	}
	s := [2]string{"Y", "Y-"}[sym.Choice("neg", 2)] + sym.Digits("y", n)
	switch sym.Choice("form", 3) {
	case 1:
		s += "S" + sym.Digits("s", 1+sym.Choice("ns", sym.N(6, 24)))
	case 2:
		s = "Y" + sym.Digits("y", 1) + "E" + sym.Digits("e", 1+sym.Choice("ne", sym.N(6, 24)))
	}
	safe(s)
}

// huge is a very long string: one piece again and again, after a prefix and between any
// two bytes.
func huge() string {
	n := [3]int{1025, 4097, 70000}[sym.Choice("size", 3)]
	pieces := [9]string{"1", "x", "1985/", "-", "1985-04-12", "X", "[", ",", "1985,"}
	piece := pieces[sym.Choice("piece", len(pieces))]
	for len(piece) < n {
		piece += piece
	}
	prefix := [4]string{"", "Y", "Y-1E", "1985S"}[sym.Choice("prefix", 4)]
	return prefix + sym.String("a", 1) + piece[:n] + sym.String("b", 1)
}

// C01_huge: nine pieces of text repeated to 1025, 4097 and 70000 bytes, with any byte before and
// after, alone or after the beginning of a year.
func C01_huge() {
	s := huge()
	safe(s)
	if len(s) < 5000 {
		compared(s, 0)
	}
}

// C01_set: sets of 7 to 1025 years and months, one of them any year (above 65 members: any of
// ten).
func C01_set() { safe("[" + listed(longer()) + "]") }
