package props

import (
	"errors"
	"fmt"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/parser"
	"verif/harness/sym"
)

// kinds tells which predicates hold, as bits.
func kinds(e error) int {
	return sym.Ite(edtf.IsInvalid(e), 1, 0) + sym.Ite(edtf.IsNotSet(e), 2, 0) + sym.Ite(edtf.IsNotImplemented(e), 4, 0) +
		sym.Ite(edtf.IsUnsupported(e), 8, 0) + sym.Ite(edtf.IsUnrecognized(e), 16, 0)
}

// C22_kinds: every constructor, with labels and strings of 0, 3, 14 or 24 bytes.
func C22_kinds() {
	label, s := sym.String("label", [4]int{0, 3, 14, 24}[sym.Choice("nl", 4)]), sym.String("s", [4]int{0, 3, 14, 24}[sym.Choice("ns", 4)])
	k := sym.Choice("kind", 8)
	var e error
	want := 0
	switch k {
	case 0:
		e, want = edtf.Invalid(label, s), 1
	case 1:
		e, want = edtf.NotSet(), 2
	case 2:
		e, want = edtf.NotImplemented(label, s), 4
	case 3:
		e, want = edtf.Unsupported(label, s), 8
	case 4:
		e, want = edtf.Unrecognized(label, s), 16
	case 5:
		e = errors.New(label)
	case 6:
		e = fmt.Errorf("%s %s", label, s)
	}
	sym.Assert(kinds(e) == want, "an error is of its own kind and of no other")
	if 0 < k && k < 5 {
		sym.Assert(e.Error() != "", "an error has a text")
	}
}

// C22_not_set: the bounds of every shape of string that parses.
func C22_not_set() {
	res, err := parse(lean("s", sym.Choice("shape", shapes)))
	if err != nil || !whole(res) {
		return
	}
	_, lerr := res.Lower()
	sym.Assert(kinds(lerr) == sym.Ite(res.Start.Lower.Timestamp == nil, 2, 0), "an absent lower bound gives a not-set error")
	_, uerr := res.Upper()
	sym.Assert(kinds(uerr) == sym.Ite(res.End.Upper.Timestamp == nil, 2, 0), "an absent upper bound gives a not-set error")
}

// C22_unrecognized: every string of up to 5 (thorough 8) bytes that no level
// recognises.
func C22_unrecognized() {
	unrecognized(sym.String("s", sym.Choice("n", sym.N(6, 9))))
}

// C22_unrecognized_near: every shape of string with one byte changed, that no level
// recognises.
func C22_unrecognized_near() {
	unrecognized(mutated("s", sym.Choice("shape", shapes)))
}

func unrecognized(s string) {
	_, err := parser.ParseString(s)
	_, _, merr := parser.Matches(s)
	if known(s) {
		sym.Assert(sym.And(kinds(err) != 16, kinds(merr) != 16), "a string of some level is not unrecognized")
	} else if s != "" && s != ".." {
		sym.Assert(kinds(err) == 16, "a string of no level does not parse: unrecognized")
		sym.Assert(kinds(merr) == 16, "a string of no level has no feature: unrecognized")
	}
}

// C22_leading_x: years that start and end with an unspecified digit, whole, with a
// month or with a day, specified or not.
func C22_leading_x() {
	s := "X" + sym.StringIn("y", 2, "0123456789X") + "X"
	switch sym.Choice("prec", 5) {
	case 1:
		m := sym.Digits("m", 2)
		sym.Assume(sym.And(1 <= sym.Num(m), sym.Num(m) <= 12))
		s += "-" + m
	case 2:
		m, d := sym.Digits("m", 2), sym.Digits("d", 2)
		sym.Assume(sym.And(1 <= sym.Num(m), sym.Num(m) <= 12, 1 <= sym.Num(d), sym.Num(d) <= 28))
		s += "-" + m + "-" + d
	case 3:
		s += "-XX"
	case 4:
		s += "-XX-XX"
	}
	_, err := parser.ParseString(s)
	sym.Observe("err", err != nil)
	sym.Assert(kinds(err) == 4, "a year with a leading unspecified digit is not implemented")
}

// large is an exponential year beyond 9999.
func large() string {
	m := sym.Digits("m", 1+sym.Choice("nm", sym.N(3, 8)))
	e, v := figures("e", [4]int{1, 2, 5, 20}[sym.Choice("ne", 4)])
	sym.Assume(sym.And(m[0] != '0', v >= 4))
	return m + "E" + e
}

// C22_beyond: years of five or six (thorough 18) digits, and exponential years of 1 to 3
// (thorough 8) digits and an exponent of 1, 2, 5 or 20, beyond 9999.
func C22_beyond() {
	sign := [2]string{"", "-"}[sym.Choice("neg", 2)]
	s := ""
	switch sym.Choice("form", 4) {
	case 0:
		y := sym.Digits("y", 5+sym.Choice("ny", sym.N(2, 14)))
		sym.Assume(y[0] != '0')
		s = "Y" + sign + y
	case 1:
		s = "Y" + sign + large()
	case 2:
		y := sym.Digits("y", 5)
		sym.Assume(y[0] != '0')
		s = "Y" + sign + y + "S" + sym.StringIn("n", 1, "12345")
	case 3:
		s = "Y" + sign + large() + "S" + sym.StringIn("n", 1, "12345")
	}
	_, err := parser.ParseString(s)
	sym.Observe("err", err != nil)
	sym.Assert(kinds(err) == 8, "a year beyond the supported range is unsupported")
}
