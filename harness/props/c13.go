package props

import (
	"github.com/sfomuseum/go-edtf"
	"verif/harness/sym"
)

// member is an element of a set: a date, or two joined by a double dot.
type member struct {
	s     string
	dates []side
}

func alone(v side) member { return member{v.s, []side{v}} }

func ranged(a, b side) member { return member{a.s + ".." + b.s, []side{a, b}} }

// earliest says whether t is the earliest lower bound, none whether it precedes none.
func earliest(t int64, ms []member) (is, reached bool) {
	is = false
	reached = true
	for _, m := range ms {
		for _, v := range m.dates {
			is = sym.Or(is, t == v.lo())
			reached = sym.And(reached, t <= v.lo())
		}
	}
	return
}

func latest(t int64, ms []member) (is, reached bool) {
	is = false
	reached = true
	for _, m := range ms {
		for _, v := range m.dates {
			is = sym.Or(is, t == v.hi())
			reached = sym.And(reached, t >= v.hi())
		}
	}
	return
}

// set checks the set of the members, with a double dot before it when open&1 and
// after it when open&2.
func set(square bool, open int, ms ...member) {
	s := ""
	for i, m := range ms {
		if i > 0 {
			s += ","
		}
		s += m.s
	}
	if open&1 != 0 {
		s = ".." + s
	}
	if open&2 != 0 {
		s += ".."
	}
	want := edtf.ALL
	if square {
		s = "[" + s + "]"
		want = edtf.ANY
	} else {
		s = "{" + s + "}"
	}
	res, err := parse(s)
	if open == 3 && len(ms) == 1 {
		// a single date with a double dot on both sides is not in the specification
		if err != nil {
			return
		}
	}
	sym.Assert(err == nil, "a set of existing dates parses")
	if err != nil {
		return
	}
	if !whole(res) {
		sym.Assert(false, "result is whole")
		return
	}
	a, aok := unixOf(res.Start.Lower)
	b, bok := unixOf(res.End.Upper)
	if open&1 != 0 {
		undated(res.Start, "start")
	} else {
		sym.Assert(aok, "start lower is dated")
		if aok {
			is, reached := earliest(a, ms)
			sym.Assert(is, "start lower is that of a member")
			sym.Assert(reached, "start lower is the earliest")
		}
		closed(res.Start, want, "start")
	}
	u, uok := unixOf(res.Start.Upper)
	v, vok := unixOf(res.End.Lower)
	switch {
	case open == 0:
		sym.Assert(sym.And(uok, vok), "inner bounds are dated")
		if uok && vok && aok && bok {
			first, last := false, false
			for _, m := range ms {
				for _, d := range m.dates {
					first = sym.Or(first, sym.And(a == d.lo(), a <= u, u <= d.hi()))
					last = sym.Or(last, sym.And(b == d.hi(), d.lo() <= v, v <= b))
				}
			}
			sym.Assert(first, "the start range lies in a member that starts first")
			sym.Assert(last, "the end range lies in a member that ends last")
		}
	case open == 2:
		sym.Assert(uok, "start upper is dated")
		if uok {
			is, reached := latest(u, ms)
			sym.Assert(sym.And(is, reached), "start upper is the latest upper bound of a member")
		}
	case open == 1:
		sym.Assert(vok, "end lower is dated")
		if vok {
			is, reached := earliest(v, ms)
			sym.Assert(sym.And(is, reached), "end lower is the earliest lower bound of a member")
		}
	}
	if open&2 != 0 {
		undated(res.End, "end")
	} else {
		sym.Assert(bok, "end upper is dated")
		if bok {
			is, reached := latest(b, ms)
			sym.Assert(is, "end upper is that of a member")
			sym.Assert(reached, "end upper is the latest")
		}
		closed(res.End, want, "end")
	}
}

func closed(r *edtf.DateRange, want edtf.Precision, label string) {
	for _, d := range []*edtf.Date{r.Lower, r.Upper} {
		sym.Assert(sym.And(!d.Open, !d.Unknown), label+" is neither open nor unknown")
		sym.Assert(d.Inclusivity == want, label+" inclusivity")
	}
}

func undated(r *edtf.DateRange, label string) {
	for _, d := range []*edtf.Date{r.Lower, r.Upper} {
		_, ok := unixOf(d)
		sym.Assert(sym.And(!ok, d.Open, !d.Unknown, d.YMD == nil, sym.EqStr(d.DateTime, "")), label+" is open and undated")
	}
}

// C13_pair: one or two dates of any precision, of any sign (the quick tier makes
// the second positive), any open ends, both brackets (the quick tier couples them
// to the open ends and the precisions).
func C13_pair() {
	open := sym.Choice("open", 4)
	a := anyPlain("a")
	n := 1 + sym.Choice("n", 2)
	square := (open+a.prec)%2 == 0
	if sym.Tier() > 0 {
		square = sym.Choice("square", 2) == 1
	}
	if n == 1 {
		set(square, open, alone(a))
		return
	}
	neg := 0
	if sym.Tier() > 0 {
		neg = sym.Choice("b.neg", 2)
	}
	b := plain("b", neg, sym.Choice("b.prec", 3))
	if sym.Tier() == 0 {
		square = (open+a.prec+b.prec)%2 == 1
	}
	set(square, open, alone(a), alone(b))
}

// C13_three: three dates; in the quick tier the first and last of one precision.
func C13_three() {
	if sym.Tier() > 0 {
		square := sym.Choice("square", 2) == 1
		open := sym.Choice("open", 4)
		set(square, open, alone(anyPlain("a")), alone(anyPlain("b")), alone(anyPlain("c")))
		return
	}
	p := sym.Choice("p", 3)
	q := sym.Choice("q", 2)
	neg := sym.Choice("neg", 2)
	set((p+q)%2 == 1, neg*2, alone(plain("a", neg, p)), alone(plain("b", 0, 2*q)), alone(plain("c", 0, p)))
}

// C13_range: a range of dates, its ends in either order, alone, before or after
// another date.
func C13_range() {
	p := sym.Choice("p", 3)
	signs := sym.Choice("signs", 3)
	q, nc, pc := p, 0, p
	square, open := (p+signs)%2 == 1, (p+signs/2)%2
	if sym.Tier() > 0 {
		q, nc, pc = sym.Choice("q", 3), sym.Choice("nc", 2), sym.Choice("pc", 3)
		square = sym.Choice("square", 2) == 1
		open = sym.Choice("open", 2)
	}
	r := ranged(plain("a", (signs+1)/2, p), plain("b", signs/2, q))
	switch sym.Choice("shape", 3) {
	case 0:
		set(square, 0, r)
	case 1:
		set(square, 2*open, r, alone(plain("c", nc, pc)))
	case 2:
		set(square, 1-open, alone(plain("c", nc, pc)), r)
	}
}

// C13_bad: a set with a member that does not exist.
func C13_bad() {
	a, okA := anyDigits("a", sym.Choice("n1", 2), sym.Choice("p1", 3))
	b, okB := anyDigits("b", sym.Choice("n2", 2), sym.Choice("p2", 3))
	if okA && okB {
		return
	}
	sep := ","
	if sym.Choice("sep", 2) == 1 {
		sep = ".."
	}
	_, err := parse("[" + a + sep + b + "]")
	sym.Assert(err != nil, "a set with an impossible date is refused")
}

// C13_many: four or five years, and two ranges of years apart or overlapping, of
// either sign, with any open end.
func C13_many() {
	year := func(tag string, neg int) side { return plain(tag, neg, 0) }
	neg := sym.Choice("neg", 2)
	a, b, c, d := year("a", 0), year("b", neg), year("c", 0), year("d", neg)
	switch sym.Choice("form", 4) {
	case 0:
		open := sym.Choice("open", sym.N(2, 3))
		if sym.Tier() == 0 {
			open *= 1 + neg
		}
		set(true, open, alone(a), alone(b), alone(c), alone(d))
	case 1:
		set(false, sym.Tier()*sym.Choice("open", sym.N(1, 3)), alone(a), alone(b), alone(c), alone(d), alone(year("e", 0)))
	case 2:
		set(false, 0, ranged(a, b), ranged(c, d))
	case 3:
		set(true, 0, alone(a), ranged(b, c), alone(d))
	}
}

// fixed is the month or, when month is 0, the year given.
func fixed(year, month int) side {
	v := side{s: sym.Pad(year, 4), y1: year, y2: year, m1: 1, m2: 12, d1: 1, d2: 31}
	if month > 0 {
		v.prec = 1
		v.s += "-" + sym.Pad(month, 2)
		v.m1, v.m2, v.d2 = month, month, sym.DaysIn(year, month)
	}
	return v
}

// long is n fixed years and months, and ranges of them, with a year of any digits
// among them: first, in the middle or last. The fixed ones run from 1000 to 1996, in
// no order; in sets of more than 65 the free one is of the years 3000 to 3009.
func long(n int) []member {
	at := [3]int{0, n / 2, n - 1}[sym.Choice("at", 3)]
	ms := make([]member, n)
	for i := range ms {
		if i == at {
			if n > 65 {
				d := sym.Digits("a", 1)
				y := 3000 + sym.Num(d)
				ms[i] = alone(side{s: "300" + d, y1: y, y2: y, m1: 1, m2: 12, d1: 1, d2: 31})
				continue
			}
			ms[i] = alone(plain("a", 0, 0))
			continue
		}
		month := 0
		if i%3 == 2 {
			month = 1 + i%12
		}
		ms[i] = alone(fixed(1000+(i*577+313)%997, month))
		if i%5 == 4 {
			ms[i] = ranged(ms[i].dates[0], fixed(1000+(i*811+77)%997, month))
		}
	}
	return ms
}

func longer() []member {
	return long(size())
}

func size() int {
	return [8]int{7, 10, 17, 33, 65, 129, 257, 1025}[sym.Choice("size", 8)]
}

// listed is the string of the set of the members.
func listed(ms []member) string {
	s := ""
	for i, m := range ms {
		if i > 0 {
			s += ","
		}
		s += m.s
	}
	return s
}

// C13_long: 7, 10, 17, 33, 65, 129, 257 or 1025 years, months and ranges, one of them
// any year (above 65: any of ten), with either end open or none (quick: 17, 65 and 1025 with none,
// 7, 33 and 129 with an open end, 10 and 257 with an open start).
func C13_long() {
	n := size()
	if sym.Tier() > 0 {
		set(sym.Choice("square", 2) == 1, sym.Choice("open", 3), long(n)...)
		return
	}
	open := 0
	switch n {
	case 10, 257:
		open = 1
	case 7, 33, 129:
		open = 2
	}
	set(n%4 == 1, open, long(n)...)
}
