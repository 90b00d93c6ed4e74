package props

import (
	"strings"

	"github.com/sfomuseum/go-edtf"
	"verif/harness/sym"
)

// interval checks an interval of two sides.
func interval(a, b side) {
	s := a.s + "/" + b.s
	res, err := parse(s)
	sym.Assert(err == nil, "an interval of existing dates parses")
	if err != nil {
		return
	}
	if !whole(res) {
		sym.Assert(false, "result is whole")
		return
	}
	ends(res.Start, a, "start")
	ends(res.End, b, "end")
}

func ends(r *edtf.DateRange, v side, label string) {
	boundAt(r.Lower, v.lo(), label+" lower")
	boundAt(r.Upper, v.hi(), label+" upper")
	flagged(r.Lower, v.unc, v.app, label+" lower")
	flagged(r.Upper, v.unc, v.app, label+" upper")
	sym.Assert(sym.EqStr(r.EDTF, v.s), label+" repeats its side")
}

// C06_plain: every pair of existing dates, signs and precisions.
func C06_plain() { interval(anyPlain("a"), anyPlain("b")) }

// C06_mixed: a qualified or unspecified side against an existing date of either
// sign; thorough pairs every kind of side with every other.
func C06_mixed() {
	if sym.Tier() > 0 {
		interval(sideOf("a", 3), sideOf("b", 3))
		return
	}
	other := plain("b", sym.Choice("b.neg", 2), 2*sym.Choice("b.prec", 2))
	v := dressed("a", 1+sym.Choice("a.kind", 2))
	if sym.Choice("left", 2) == 0 {
		interval(v, other)
	} else {
		interval(other, v)
	}
}

// C06_bad: both sides [-]YYYY[-MM[-DD]] of any digits; one of them does not exist.
func C06_bad() {
	n1, p1 := sym.Choice("n1", 2), sym.Choice("p1", 3)
	n2, p2 := sym.Choice("n2", 2), sym.Choice("p2", 3)
	a, okA := anyDigits("a", n1, p1)
	b, okB := anyDigits("b", n2, p2)
	if okA && okB {
		return
	}
	_, err := parse(a + "/" + b)
	sym.Assert(err != nil, "an interval with an impossible date is refused")
}

func anyDigits(tag string, neg, prec int) (string, bool) {
	s := sym.Digits(tag+".y", 4)
	y := sym.Num(s)
	if neg == 1 {
		s = "-" + s
		y = -y
	}
	m, d := 1, 1
	if prec > 0 {
		ms := sym.Digits(tag+".m", 2)
		s += "-" + ms
		m = sym.Num(ms)
	}
	if prec > 1 {
		ds := sym.Digits(tag+".d", 2)
		s += "-" + ds
		d = sym.Num(ds)
	}
	return s, dateExists(y, m, d)
}

// C06_two: both sides qualified, each component of either or none, to days (thorough:
// any precision), the qualifier before the component.
func C06_two() {
	p, q := 2, 2
	if sym.Tier() > 0 {
		p, q = sym.Choice("a.prec", 3), sym.Choice("b.prec", 3)
	}
	m := 1 + sym.Choice("a.mask", 1<<uint(p+1)-1)
	n := 1 + (m*3)%7
	if sym.Tier() > 0 {
		n = 1 + sym.Choice("b.mask", 1<<uint(q+1)-1)
	}
	interval(qualified("a", 0, p, m, false), qualified("b", 0, q, n, false))
}

// C06_interior: a side with an X anywhere in the year, against a plain year; such an
// interval may be refused.
func C06_interior() {
	v := masked("a", 1+sym.Choice("mask", 14), [3]int{absent, digits, xx}[sym.Choice("mk", 3)], absent)
	o := plain("b", sym.Choice("b.neg", 2), 0)
	a, b := v, o
	if sym.Choice("left", 2) == 1 {
		a, b = o, v
	}
	res, err := parse(a.s + "/" + b.s)
	if err != nil {
		return
	}
	if !whole(res) {
		sym.Assert(false, "result is whole")
		return
	}
	ends(res.Start, a, "start")
	ends(res.End, b, "end")
}

// asAlone checks that a range has the very bounds of its side parsed on its own,
// with their precision and every flag.
func asAlone(r *edtf.DateRange, v side, label string) { asParsed(r, v.s, label) }

// asParsed is asAlone for the side s. A date that is both qualified and negative, or
// with unspecified digits, parses in an interval only: it has to cover what it
// covers unqualified.
func asParsed(r *edtf.DateRange, s, label string) {
	alone, err := parse(s)
	if err != nil {
		bare := strings.NewReplacer("?", "", "~", "", "%", "").Replace(s)
		if len(bare) < len(s) {
			alone, err = parse(bare)
			if err == nil && whole(alone) {
				sym.Assert(sameMoment(r.Lower, alone.Start.Lower), label+" lower is that of the date alone")
				sym.Assert(sameMoment(r.Upper, alone.End.Upper), label+" upper is that of the date alone")
				return
			}
		}
	}
	if err != nil || !whole(alone) {
		sym.Assert(false, label+" parses on its own")
		return
	}
	sym.Assert(sameDate(r.Lower, alone.Start.Lower), label+" lower is that of the date alone")
	sym.Assert(sameDate(r.Upper, alone.End.Upper), label+" upper is that of the date alone")
}

func sameMoment(a, b *edtf.Date) bool {
	t, ok := unixOf(a)
	u, uok := unixOf(b)
	return sym.And(ok, uok, t == u)
}

// C06_alone: each side, plain, qualified or unspecified, against the same side
// parsed on its own.
func C06_alone() {
	v := dressed("a", sym.Choice("a.kind", 3))
	o := plain("b", sym.Choice("b.neg", 2), 2)
	a, b := v, o
	if sym.Choice("left", 2) == 1 {
		a, b = o, v
	}
	res, err := parse(a.s + "/" + b.s)
	if err != nil || !whole(res) {
		sym.Assert(false, "an interval of existing dates parses")
		return
	}
	asAlone(res.Start, a, "start")
	asAlone(res.End, b, "end")
}

// agreed checks an interval, if s is one that parses, against its sides parsed on
// their own.
func agreed(s string) {
	res, err := parse(s)
	if err != nil || res == nil {
		return
	}
	a, b, ok := strings.Cut(s, "/")
	if !ok {
		return
	}
	if !whole(res) {
		sym.Assert(false, "result is whole")
		return
	}
	if a != "" && a != ".." {
		asParsed(res.Start, a, "start")
	}
	if b != "" && b != ".." {
		asParsed(res.End, b, "end")
	}
}

// C06_near: every shape of interval (quick: with one open or unknown end), with one
// byte changed, that parses.
func C06_near() { agreed(mutated("s", [3]int{3, 2, 15}[sym.Choice("shape", sym.N(1, 3))])) }

// C06_any: a date, qualified date or one with unspecified digits on each side.
func C06_any() {
	kinds := [4]int{0, 5, 6, 7}
	a := lean("a", kinds[sym.Choice("a.shape", 4)])
	b := lean("b", kinds[sym.Choice("b.shape", 4)])
	agreed(a + "/" + b)
}
