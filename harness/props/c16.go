package props

import (
	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/cmp"
	"verif/harness/sym"
)

// timeline checks before and after against the bounds the two strings parse to.
func timeline(a, b string) {
	ra, ea := parse(a)
	rb, eb := parse(b)
	before, berr := cmp.IsBefore(a, b)
	after, aerr := cmp.IsAfter(a, b)
	sym.Observe("before", before)
	sym.Observe("after", after)
	if ea != nil || eb != nil {
		sym.Assert(sym.And(berr != nil, aerr != nil), "a string that does not parse gives an error")
		return
	}
	if !whole(ra) || !whole(rb) {
		sym.Assert(false, "results are whole")
		return
	}
	if edtf.IsOpen(a) {
		sym.Assert(sym.And(berr == nil, aerr == nil, !before, !after), "a bare open date is neither before nor after")
		return
	}
	al, alok := unixOf(ra.Start.Lower)
	au, auok := unixOf(ra.End.Upper)
	bl, blok := unixOf(rb.Start.Lower)
	bu, buok := unixOf(rb.End.Upper)
	sym.Assert((berr == nil) == (auok && blok), "before is answered exactly when the needed bounds are dated")
	sym.Assert((aerr == nil) == (alok && buok), "after is answered exactly when the needed bounds are dated")
	if berr == nil && auok && blok {
		sym.Assert(before == (au < bl), "before is: upper bound precedes lower bound")
	}
	if aerr == nil && alok && buok {
		sym.Assert(after == (al > bu), "after is: lower bound follows upper bound")
	}
}

// C16_dates: every pair of existing dates, signs and precisions, with the bounds
// computed from the digits.
func C16_dates() {
	a, b := anyPlain("a"), anyPlain("b")
	before, berr := cmp.IsBefore(a.s, b.s)
	after, aerr := cmp.IsAfter(a.s, b.s)
	sym.Assert(sym.And(berr == nil, aerr == nil), "existing dates compare")
	if berr != nil || aerr != nil {
		return
	}
	sym.Assert(before == (a.hi() < b.lo()), "before")
	sym.Assert(after == (a.lo() > b.hi()), "after")
	sym.Assert(sym.Not(sym.And(before, after)), "not both")
}

// C16_zones: two times on neighbouring days, with every shift from UTC.
func C16_zones() {
	at := func(tag string, zone int) (string, int) {
		d := sym.Digits(tag+".d", 1)
		h := sym.Digits(tag+".h", 2)
		sod := sym.Num(h) * 3600
		sym.Assume(sym.Num(h) <= 23)
		s := "1985-04-1" + d + "T" + h + ":00:00"
		switch zone {
		case 0:
			s += "Z"
		case 1:
			sg := sym.StringIn(tag+".sign", 1, "+-")
			zh, zm := sym.Digits(tag+".zh", 2), sym.Digits(tag+".zm", 2)
			sym.Assume(sym.And(sym.Num(zh) <= 23, sym.Num(zm) <= 59))
			s += sg + zh + ":" + zm
			shift := sym.Num(zh)*3600 + sym.Num(zm)*60
			if sg == "-" {
				shift = -shift
			}
			sod -= shift
		}
		return s, sym.Num(d)*86400 + sod
	}
	a, ai := at("a", 1)
	b, bi := at("b", sym.Choice("zone", sym.N(1, 2)))
	if sym.Choice("swap", 2) == 1 {
		a, b, ai, bi = b, a, bi, ai
	}
	before, berr := cmp.IsBefore(a, b)
	after, aerr := cmp.IsAfter(a, b)
	sym.Observe("before", before)
	sym.Observe("after", after)
	sym.Assert(sym.And(berr == nil, aerr == nil), "existing times compare")
	if berr != nil || aerr != nil {
		return
	}
	sym.Assert(before == (ai < bi), "before compares instants, not clock readings")
	sym.Assert(after == (ai > bi), "after compares instants, not clock readings")
}

// C16_self: no existing date is before or after itself.
func C16_self() {
	a := sideOf("a", 3)
	before, berr := cmp.IsBefore(a.s, a.s)
	after, aerr := cmp.IsAfter(a.s, a.s)
	sym.Assert(sym.And(berr == nil, aerr == nil, !before, !after), "no date is before or after itself")
}

// C16_shapes: every shape of string against a date, an open date and open intervals.
func C16_shapes() {
	a := lean("a", sym.Choice("shape", shapes))
	b := ""
	switch sym.Choice("other", sym.N(4, 6)) {
	case 0:
		b = plain("b", sym.Choice("neg", 2), 2).s
	case 1:
		b = ".."
	case 2:
		b = "../" + plain("b", 0, 1).s
	case 3:
		b = plain("b", 0, 0).s + "/"
	case 4:
		b = ""
	case 5:
		b = sideOf("b", 3).s
	}
	if sym.Choice("swap", 2) == 1 {
		a, b = b, a
	}
	timeline(a, b)
}

// C16_errors: a date that does not exist, on either side.
func C16_errors() {
	a, ok := anyDigits("a", sym.Choice("neg", 2), 2)
	if ok {
		return
	}
	b := plain("b", 0, 0).s
	if sym.Choice("swap", 2) == 1 {
		a, b = b, a
	}
	timeline(a, b)
	_, err := cmp.IsBetween(b, a, edtf.OPEN)
	sym.Assert(err != nil, "a string that does not parse gives an error")
}

// C16_between: three dates; the last may be open.
func C16_between() {
	d, a := plain("d", sym.Choice("nd", 2), sym.Choice("pd", 3)), plain("a", 0, sym.Choice("pa", 3))
	last := ".."
	if sym.Choice("open", 2) == 0 {
		b := plain("b", 0, sym.Choice("pb", 3))
		last = b.s
		in, err := cmp.IsBetween(d.s, a.s, last)
		sym.Observe("in", in)
		sym.Assert(err == nil, "existing dates compare")
		if err == nil {
			sym.Assert(in == sym.And(d.hi() >= a.lo(), d.lo() <= b.hi()), "between is: neither before the first nor after the second")
		}
		return
	}
	in, err := cmp.IsBetween(d.s, a.s, last)
	sym.Assert(err == nil, "existing dates compare")
	if err == nil {
		sym.Assert(in == (d.hi() >= a.lo()), "an open last date imposes no limit")
	}
}

// C16_between_shapes: between is what before and after say, for other shapes.
func C16_between_shapes() {
	k := sym.Choice("shape", shapes)
	s := lean("s", k)
	p, q := plain("p", 0, 0).s, plain("q", 0, 2).s
	var d, a, b string
	switch sym.Choice("place", 3) {
	case 0:
		d, a, b = s, p, q
	case 1:
		d, a, b = p, s, q
	case 2:
		d, a, b = p, q, s
	}
	in, err := cmp.IsBetween(d, a, b)
	sym.Observe("in", in)
	before, berr := cmp.IsBefore(d, a)
	if berr != nil {
		sym.Assert(err != nil, "an error of before is an error")
		return
	}
	if before {
		sym.Assert(sym.And(err == nil, !in), "a date before the first is not between")
		return
	}
	if b == edtf.OPEN {
		sym.Assert(sym.And(err == nil, in), "an open last date imposes no limit")
		return
	}
	after, aerr := cmp.IsAfter(d, b)
	if aerr != nil {
		sym.Assert(err != nil, "an error of after is an error")
		return
	}
	sym.Assert(sym.And(err == nil, in == !after), "between is: not before the first and not after the second")
}
