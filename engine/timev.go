package main

import "golang.org/x/tools/go/ssa"

// civil is a valid proleptic Gregorian date and time of day, in terms.
type civil struct{ y, m, d, sod *Term }

// TimeV models time.Time: an instant in UTC plus a location.
type TimeV struct {
	civ  *civil // the instant's UTC civil fields, when known
	s    *Term  // Unix seconds, when civ is nil
	nsec *Term
	loc  *Cell // nil: UTC
}

type zoneInfo struct {
	name *StrV
	off  *Term
}

// sameLoc compares location pointers (the repository never compares times with ==).
type locRef = *Cell

func (t *TimeV) secs(in *Interp) *Term {
	if t.s == nil {
		if s, ok := in.secsMemo[*t.civ]; ok {
			t.s = s
			return s
		}
		t.s = in.x.Secs(t.civ.y, t.civ.m, t.civ.d, t.civ.sod)
	}
	return t.s
}

func (in *Interp) zeroTime() *TimeV {
	k := in.x.I
	return &TimeV{civ: &civil{k(1), k(1), k(1), k(0)}, nsec: k(0)}
}

const unixToInternal = 62135596800

// internal is the wall-clock second count Time comparisons use.
func (t *TimeV) internal(in *Interp) *Term {
	return in.x.Wrap(in.x.Add(t.secs(in), in.x.I(unixToInternal)), 64, true)
}

// civilOf recovers the UTC civil fields of an instant.
func (in *Interp) civilOf(t *TimeV) *civil {
	if t.civ != nil {
		return t.civ
	}
	x := in.x
	s := x.simp(t.s)
	if s.op == OConst && s.k.isI64() {
		dd, sod := floorDiv(s.k.i64(), 86400)
		y, m, d := civilDays(dd)
		t.civ = &civil{x.I(y), x.I(m), x.I(d), x.I(sod)}
		return t.civ
	}
	if s.op == OSecs {
		t.civ = &civil{s.args[0], s.args[1], s.args[2], s.args[3]}
		return t.civ
	}
	if c, ok := in.civMemo[s]; ok {
		t.civ = c
		return c
	}
	if s.op == OLin {
		for i, a := range s.args {
			if a.op == OSecs && s.coef[i] == i64(1) {
				delta := x.Sub(s, a)
				lo, hi := x.ival(delta)
				if lo.abs().lt(i64(86400*20)) && hi.abs().lt(i64(86400*20)) {
					c := in.addSod(&civil{a.args[0], a.args[1], a.args[2], a.args[3]}, delta)
					t.civ = c
					in.civMemo[s] = c
					in.secsMemo[civil{c.y, c.m, c.d, c.sod}] = s
					return c
				}
			}
		}
	}
	if s.op == OIte {
		a := in.civilOf(&TimeV{s: s.args[1], nsec: t.nsec})
		b := in.civilOf(&TimeV{s: s.args[2], nsec: t.nsec})
		c := s.args[0]
		t.civ = &civil{x.Ite(c, a.y, b.y), x.Ite(c, a.m, b.m), x.Ite(c, a.d, b.d), x.Ite(c, a.sod, b.sod)}
		return t.civ
	}
	lo, hi := x.ival(s)
	if lo == hi {
		return in.civilOf(&TimeV{s: x.K(lo), nsec: t.nsec})
	}
	// a general instant: give it its civil fields as fresh variables would need
	// quantifier-free inversion; fix it to the witness instead
	k := in.concretize(s)
	if !k.isI64() {
		unsupported("civil fields of %s", k)
	}
	dd, sod := floorDiv(k.i64(), 86400)
	y, m, d := civilDays(dd)
	t.civ = &civil{x.I(y), x.I(m), x.I(d), x.I(sod)}
	return t.civ
}

func (in *Interp) leap(y *Term) *Term {
	x := in.x
	return x.And(x.Div(y, i64(4)), x.Or(x.Not(x.Div(y, i64(100))), x.Div(y, i64(400))))
}

func (in *Interp) daysInTerm(m, y *Term) *Term {
	x := in.x
	return x.Ite(x.Eq(m, x.I(2)), x.Ite(in.leap(y), x.I(29), x.I(28)),
		x.Ite(x.Or(x.Eq(m, x.I(4)), x.Eq(m, x.I(6)), x.Eq(m, x.I(9)), x.Eq(m, x.I(11))), x.I(30), x.I(31)))
}

// floorDivT divides by a positive constant rounding down.
func (in *Interp) floorDivT(a *Term, c int64) (q, r *Term) {
	x := in.x
	lo, _ := x.ival(a)
	sh := I128{}
	if lo.sign() < 0 {
		n := lo.neg().add(i64(c - 1)).quo(i64(c))
		sh = n
	}
	p, ok := sh.mul(i64(c))
	if !ok {
		unsupported("division range")
	}
	b := x.Add(a, x.K(p))
	if _, hi := x.ival(b); hi.lt(i64(4 * c)) {
		// few quotients: comparisons instead of a division
		q := x.Ite(x.Le(x.I(3*c), b), x.I(3), x.Ite(x.Le(x.I(2*c), b), x.I(2), x.Ite(x.Le(x.I(c), b), x.I(1), x.I(0))))
		return x.Sub(q, x.K(sh)), x.boundTo(x.Sub(b, x.MulK(q, i64(c))), 0, c-1)
	}
	return x.Sub(x.Quo(b, x.I(c)), x.K(sh)), x.Rem(b, x.I(c))
}

// addSod adds delta seconds to a civil instant.
func (in *Interp) addSod(c *civil, delta *Term) *civil {
	x := in.x
	carry, sod := in.floorDivT(x.Add(c.sod, delta), 86400)
	n := in.normDay(c.y, c.m, x.Add(c.d, carry))
	n.sod = sod
	return n
}

// normDay normalises a day number that may lie outside its month.
func (in *Interp) normDay(y, m, d *Term) *civil {
	x := in.x
	lo, hi := x.ival(d)
	c := &civil{y, m, d, x.I(0)}
	if i64(1).le(lo) && hi.le(i64(28)) {
		return c
	}
	dim := in.daysInTerm(m, y)
	if lo.sign() <= 0 {
		if lo.lt(i64(-27)) {
			return in.normDayFar(y, m, d)
		}
		// previous month
		py := x.Ite(x.Eq(m, x.I(1)), x.Sub(y, x.I(1)), y)
		pm := x.Ite(x.Eq(m, x.I(1)), x.I(12), x.Sub(m, x.I(1)))
		pd := x.Add(d, in.daysInTerm(pm, py))
		if hi.sign() <= 0 {
			return &civil{py, pm, pd, x.I(0)}
		}
		neg := x.Le(d, x.I(0))
		up := in.normDayUp(y, m, d, dim, hi)
		if up == nil {
			return in.normDayFar(y, m, d)
		}
		return &civil{x.Ite(neg, py, up.y), x.boundTo(x.Ite(neg, pm, up.m), 1, 12), x.boundTo(x.Ite(neg, pd, up.d), 1, 31), x.I(0)}
	}
	up := in.normDayUp(y, m, d, dim, hi)
	if up == nil {
		return in.normDayFar(y, m, d)
	}
	return up
}

func (in *Interp) normDayUp(y, m, d, dim *Term, hi I128) *civil {
	x := in.x
	if i64(56).lt(hi) {
		return nil
	}
	over := x.Lt(dim, d)
	if over == x.False {
		return &civil{y, m, d, x.I(0)}
	}
	dec := x.Eq(m, x.I(12))
	ny := x.Ite(dec, x.Add(y, x.I(1)), y)
	nm := x.Ite(dec, x.I(1), x.Add(m, x.I(1)))
	nd := x.Sub(d, dim)
	return &civil{x.Ite(over, ny, y), x.boundTo(x.Ite(over, nm, m), 1, 12), x.boundTo(x.Ite(over, nd, d), 1, 31), x.I(0)}
}

// normDayFar handles day offsets of more than a month by fixing them.
func (in *Interp) normDayFar(y, m, d *Term) *civil {
	yy, mm, dd := in.concretize(y), in.concretize(m), in.concretize(d)
	if !dd.isI64() || dd.abs().cmp(i64(1<<40)) > 0 {
		unsupported("day out of range")
	}
	a, b, c := civilDays(daysCivil(yy.i64(), mm.i64(), 1) + dd.i64() - 1)
	return &civil{in.x.I(a), in.x.I(b), in.x.I(c), in.x.I(0)}
}

// locOffset is the zone offset of a location in seconds.
func (in *Interp) locOffset(l *Cell) *Term {
	if l == nil {
		return in.x.I(0)
	}
	if z, ok := in.locs[l]; ok {
		return z.off
	}
	if in.initMode == 0 && l == in.localCell() {
		return in.localZone()
	}
	return in.x.I(0)
}

// localZone is the offset of the machine's own time zone: any number of minutes up
// to 14 hours either way, fixed for the run.
func (in *Interp) localZone() *Term {
	if in.zone == nil {
		in.zone = in.x.MulK(in.symInt("local.zone", i64(-840), i64(840)), i64(60))
	}
	return in.zone
}

func (in *Interp) isUTCLoc(l *Cell) bool { return l == nil || l == in.utcCell() }

func (in *Interp) timeGlobal(name string) *Cell {
	pkg := in.P.prog.ImportedPackage("time")
	g := pkg.Var(name)
	return in.globalCell(in.P.gidx(g))
}

func (in *Interp) utcCell() *Cell   { return in.timeGlobal("utcLoc") }
func (in *Interp) localCell() *Cell { return in.timeGlobal("localLoc") }

// localCivil gives the wall-clock fields in the time's own location.
func (in *Interp) localCivil(t *TimeV) *civil {
	x := in.x
	off := in.locOffset(t.loc)
	if off.op == OConst && off.k.sign() == 0 {
		return in.civilOf(t)
	}
	s := x.Add(t.secs(in), off)
	return in.civilOf(&TimeV{s: s, nsec: t.nsec})
}

func (in *Interp) inRange(t *Term, lo, hi int64) bool {
	l, h := in.x.ival(in.x.simp(t))
	return i64(lo).le(l) && h.le(i64(hi))
}

// timeDate models time.Date.
func (in *Interp) timeDate(y, mo, d, h, mi, s, ns *Term, loc *Cell) *TimeV {
	x := in.x
	if loc == nil {
		panic(targetPanic{v: IfaceV{}, msg: "time: missing Location in call to Date"})
	}
	if !in.inRange(mo, 1, 12) {
		if in.branch(x.And(x.Le(x.I(1), mo), x.Le(mo, x.I(12)))) {
			mo = x.simp(mo)
		} else {
			l, hh := x.ival(mo)
			if l.lt(i64(-100000)) || i64(100000).lt(hh) {
				mo = x.K(in.concretize(mo))
			}
			q, r := in.floorDivT(x.Sub(mo, x.I(1)), 12)
			y = x.Add(y, q)
			mo = x.Add(r, x.I(1))
		}
	}
	if !in.inRange(y, -1_000_000_000, 1_000_000_000) {
		if !in.branch(x.And(x.Le(x.I(-1_000_000_000), y), x.Le(y, x.I(1_000_000_000)))) {
			unsupported("year out of the modelled range")
		}
		y = x.simp(y)
	}
	if !in.inRange(ns, 0, 999999999) {
		unsupported("nanoseconds out of range")
	}
	sod, back := in.hmsMemo[[3]*Term{h, mi, s}]
	if !back {
		sod = x.Add(x.Add(x.MulK(h, i64(3600)), x.MulK(mi, i64(60))), s)
	}
	carry := x.I(0)
	if back || in.inRange(h, 0, 23) && in.inRange(mi, 0, 59) && in.inRange(s, 0, 59) {
		sod = x.simp(sod)
		x.bound(sod, I128{}, i64(86399))
	} else {
		carry, sod = in.floorDivT(sod, 86400)
	}
	var c *civil
	if _, ok := in.secsMemo[civil{y, mo, d, sod}]; ok && carry.isConst() && carry.k.sign() == 0 {
		c = &civil{y, mo, d, sod}
	} else {
		c = in.normDay(y, mo, x.Add(d, carry))
		c.sod = sod
	}
	off := in.locOffset(loc)
	t := &TimeV{civ: c, nsec: ns}
	if !(off.op == OConst && off.k.sign() == 0) {
		t.s = x.Sub(t.secs(in), off)
		t.civ = nil
	}
	if !in.isUTCLoc(loc) {
		t.loc = loc
	}
	return t
}

func (in *Interp) timeV(v Value) *TimeV {
	switch t := v.(type) {
	case *TimeV:
		return t
	case *Cell:
		if t == nil {
			in.panicRT("invalid memory address or nil pointer dereference")
		}
		return in.timeV(in.load(t))
	case poison:
		unsupported("use of %s", t.why)
	}
	unsupported("time is %T", v)
	return nil
}

func (in *Interp) hms(sod *Term) (h, m, s *Term) {
	x := in.x
	h, m, s = x.Quo(sod, x.I(3600)), x.Rem(x.Quo(sod, x.I(60)), x.I(60)), x.Rem(sod, x.I(60))
	if in.inRange(sod, 0, 86399) && !sod.isConst() {
		in.hmsMemo[[3]*Term{h, m, s}] = sod
	}
	return
}

// before: the order time.Time's comparison methods implement.
func (in *Interp) timeLess(a, b *TimeV) *Term {
	x := in.x
	p, q := a.internal(in), b.internal(in)
	return x.Or(x.Lt(p, q), x.And(x.Eq(p, q), x.Lt(a.nsec, b.nsec)))
}

func (in *Interp) timeEq(a, b *TimeV) *Term {
	return in.x.And(in.x.Eq(a.internal(in), b.internal(in)), in.x.Eq(a.nsec, b.nsec))
}

// two prints a two-digit number.
func (in *Interp) two(t *Term) *StrV { return strFromTerms(in.x.decDigits(t, 2)) }

// padInt prints t with at least width digits, zero padded, after an optional sign.
func (in *Interp) padInt(t *Term, width int, signCounts bool) *StrV {
	x := in.x
	t = x.simp(t)
	neg := in.branch(x.Lt(t, x.I(0)))
	a := t
	if neg {
		a = x.Neg(t)
		if signCounts {
			width--
		}
	}
	n := in.decLen(a)
	ds := x.decDigits(a, n)
	var out []*Term
	if neg {
		out = append(out, x.I('-'))
	}
	for i := n; i < width; i++ {
		out = append(out, x.I('0'))
	}
	return strFromTerms(append(out, ds...))
}

// decLen forks on the number of decimal digits of a non-negative term.
func (in *Interp) decLen(a *Term) int {
	x := in.x
	a = x.simp(a)
	lo, hi := x.ival(a)
	n := 1
	for n < 38 && pow10tab[n].le(lo) {
		n++
	}
	for n < 38 && pow10tab[n].le(hi) {
		if in.branch(x.Lt(a, x.K(pow10tab[n]))) {
			break
		}
		n++
	}
	return n
}

// padFixed prints t zero-padded to width without forking when it fits.
func (in *Interp) padFixed(t *Term, width int) *StrV {
	x := in.x
	t = x.simp(t)
	if in.branch(x.And(x.Le(x.I(0), t), x.Lt(t, x.K(pow10tab[width])))) {
		return strFromTerms(x.decDigits(t, width))
	}
	return in.padInt(t, width, true)
}

func (in *Interp) formatRFC3339(t *TimeV) *StrV {
	x := in.x
	c := in.localCivil(t)
	var yy *StrV
	if in.branch(x.Le(x.I(0), c.y)) {
		yy = in.padFixed(c.y, 4)
	} else {
		yy = in.concat(mkStr("-"), in.padFixed(x.Neg(c.y), 4))
	}
	h, m, s := in.hms(c.sod)
	r := yy
	for _, p := range []*StrV{mkStr("-"), in.two(c.m), mkStr("-"), in.two(c.d), mkStr("T"), in.two(h), mkStr(":"), in.two(m), mkStr(":"), in.two(s)} {
		r = in.concat(r, p)
	}
	off := in.locOffset(t.loc)
	if off.op == OConst && off.k.sign() == 0 || in.branch(x.Eq(off, x.I(0))) {
		return in.concat(r, mkStr("Z"))
	}
	sign := "+"
	if in.branch(x.Lt(off, x.I(0))) {
		sign = "-"
		off = x.Neg(off)
	}
	zone := x.Quo(off, x.I(60))
	r = in.concat(r, mkStr(sign))
	r = in.concat(r, in.padFixed(x.Quo(zone, x.I(60)), 2))
	r = in.concat(r, mkStr(":"))
	return in.concat(r, in.two(x.Rem(zone, x.I(60))))
}

// formatTime models Time.Format for layouts made of the plain numeric chunks.
func (in *Interp) formatTime(t *TimeV, layout string) *StrV {
	if layout == "2006-01-02T15:04:05Z07:00" {
		return in.formatRFC3339(t)
	}
	c := in.localCivil(t)
	x := in.x
	h, mi, s := in.hms(c.sod)
	r := mkStr("")
	add := func(p *StrV) { r = in.concat(r, p) }
	for i := 0; i < len(layout); {
		rest := layout[i:]
		has := func(p string) bool { return len(rest) >= len(p) && rest[:len(p)] == p }
		switch {
		case has("2006"):
			if in.branch(x.Le(x.I(0), c.y)) {
				add(in.padFixed(c.y, 4))
			} else {
				add(in.concat(mkStr("-"), in.padFixed(x.Neg(c.y), 4)))
			}
			i += 4
		case has("01"):
			add(in.two(c.m))
			i += 2
		case has("02"):
			add(in.two(c.d))
			i += 2
		case has("15"):
			add(in.two(h))
			i += 2
		case has("04"):
			add(in.two(mi))
			i += 2
		case has("05"):
			add(in.two(s))
			i += 2
		case has("Z07:00"), has("-07"), has("Mon"), has("Jan"), has("MST"), has("PM"), has("."), has(","), has("_"), has("1"), has("2"), has("3"), has("4"), has("5"), has("0"):
			unsupported("time layout %q", layout)
		default:
			add(mkStr(rest[:1]))
			i++
		}
	}
	return r
}

func boolT(in *Interp, b *Term) Value { return b }

func init() {
	reg := func(name string, f func(in *Interp, a []Value) Value) { intrinsics["time."+name] = f }
	meth := func(name string, f func(in *Interp, t *TimeV, a []Value) Value) {
		h := func(in *Interp, a []Value) Value { return f(in, in.timeV(a[0]), a[1:]) }
		intrinsics["(time.Time)."+name] = h
		intrinsics["(*time.Time)."+name] = h
	}
	reg("Date", func(in *Interp, a []Value) Value {
		l, _ := a[7].(*Cell)
		return in.timeDate(in.tm(a[0]), in.tm(a[1]), in.tm(a[2]), in.tm(a[3]), in.tm(a[4]), in.tm(a[5]), in.tm(a[6]), l)
	})
	reg("Unix", func(in *Interp, a []Value) Value {
		ns := in.tm(a[1])
		if !in.inRange(ns, 0, 999999999) {
			unsupported("nanoseconds out of range")
		}
		return &TimeV{s: in.tm(a[0]), nsec: ns, loc: in.localCell()}
	})
	reg("daysIn", func(in *Interp, a []Value) Value { return in.daysInTerm(in.tm(a[0]), in.tm(a[1])) })
	reg("isLeap", func(in *Interp, a []Value) Value { return in.leap(in.tm(a[0])) })
	reg("FixedZone", func(in *Interp, a []Value) Value {
		loc := in.newCell(in.P.prog.ImportedPackage("time").Type("Location").Type())
		in.locs[loc] = &zoneInfo{name: in.str(a[0]), off: in.tm(a[1])}
		if in.initMode == 0 {
			in.undo = append(in.undo, func() { delete(in.locs, loc) })
		}
		return loc
	})
	reg("Now", func(in *Interp, a []Value) Value {
		in.freshN++
		// years 1900 to 2400
		return &TimeV{s: in.symInt("now", i64(-2208988800), i64(13569465600)), nsec: in.x.I(0), loc: in.localCell()}
	})
	intrinsics["(*time.Location).lookup"] = func(in *Interp, a []Value) Value {
		l, _ := a[0].(*Cell)
		x := in.x
		name := mkStr("UTC")
		if z, ok := in.locs[l]; ok && l != nil {
			name = z.name
		}
		if in.fr != nil && in.fr.fi.fn.Name() == "parse" && l == in.localCell() {
			// a parsed shift equal to the local one is the same shift, kept
			// as a fixed zone
			return TupleV{name, x.I(1 << 40), x.I(-1 << 63), x.I(1<<63 - 1), x.False}
		}
		return TupleV{name, in.locOffset(l), x.I(-1 << 63), x.I(1<<63 - 1), x.False}
	}
	intrinsics["(*time.Location).get"] = func(in *Interp, a []Value) Value {
		l, _ := a[0].(*Cell)
		if l == nil {
			return in.utcCell()
		}
		return l
	}
	meth("sec", func(in *Interp, t *TimeV, a []Value) Value { return t.internal(in) })
	meth("unixSec", func(in *Interp, t *TimeV, a []Value) Value { return t.secs(in) })
	meth("nsec", func(in *Interp, t *TimeV, a []Value) Value { return t.nsec })
	meth("Unix", func(in *Interp, t *TimeV, a []Value) Value { return t.secs(in) })
	meth("UnixMilli", func(in *Interp, t *TimeV, a []Value) Value {
		return in.x.Wrap(in.x.Add(in.x.MulK(t.secs(in), i64(1000)), in.x.Quo(t.nsec, in.x.I(1000000))), 64, true)
	})
	meth("UnixNano", func(in *Interp, t *TimeV, a []Value) Value {
		return in.x.Wrap(in.x.Add(in.x.MulK(t.secs(in), i64(1000000000)), t.nsec), 64, true)
	})
	setLoc := func(in *Interp, t *TimeV, l *Cell) *TimeV {
		n := *t
		n.loc = l
		if l != nil && in.isUTCLoc(l) {
			n.loc = nil
		}
		return &n
	}
	intrinsics["(*time.Time).setLoc"] = func(in *Interp, a []Value) Value {
		c := in.ptr(a[0])
		l, _ := a[1].(*Cell)
		in.store(c, setLoc(in, in.timeV(c), l))
		return nil
	}
	intrinsics["(*time.Time).stripMono"] = func(in *Interp, a []Value) Value { return nil }
	intrinsics["(*time.Time).addSec"] = func(in *Interp, a []Value) Value {
		c := in.ptr(a[0])
		in.store(c, in.timeAdd(in.timeV(c), in.tm(a[1])))
		return nil
	}
	meth("UTC", func(in *Interp, t *TimeV, a []Value) Value { return setLoc(in, t, in.utcCell()) })
	meth("Local", func(in *Interp, t *TimeV, a []Value) Value { return setLoc(in, t, in.localCell()) })
	meth("In", func(in *Interp, t *TimeV, a []Value) Value {
		l, _ := a[0].(*Cell)
		if l == nil {
			panic(targetPanic{msg: "time: missing Location in call to Time.In"})
		}
		return setLoc(in, t, l)
	})
	meth("Location", func(in *Interp, t *TimeV, a []Value) Value {
		if t.loc == nil {
			return in.utcCell()
		}
		return t.loc
	})
	meth("Zone", func(in *Interp, t *TimeV, a []Value) Value {
		name := mkStr("UTC")
		if z, ok := in.locs[t.loc]; ok && t.loc != nil {
			name = z.name
		}
		return TupleV{name, in.locOffset(t.loc)}
	})
	meth("IsZero", func(in *Interp, t *TimeV, a []Value) Value {
		return in.x.And(in.x.Eq(t.internal(in), in.x.I(0)), in.x.Eq(t.nsec, in.x.I(0)))
	})
	meth("After", func(in *Interp, t *TimeV, a []Value) Value { return in.timeLess(in.timeV(a[0]), t) })
	meth("Before", func(in *Interp, t *TimeV, a []Value) Value { return in.timeLess(t, in.timeV(a[0])) })
	meth("Equal", func(in *Interp, t *TimeV, a []Value) Value { return in.timeEq(t, in.timeV(a[0])) })
	meth("Compare", func(in *Interp, t *TimeV, a []Value) Value {
		u := in.timeV(a[0])
		return in.x.Ite(in.timeLess(t, u), in.x.I(-1), in.x.Ite(in.timeLess(u, t), in.x.I(1), in.x.I(0)))
	})
	meth("Date", func(in *Interp, t *TimeV, a []Value) Value {
		c := in.localCivil(t)
		return TupleV{c.y, c.m, c.d}
	})
	meth("Year", func(in *Interp, t *TimeV, a []Value) Value { return in.localCivil(t).y })
	meth("Month", func(in *Interp, t *TimeV, a []Value) Value { return in.localCivil(t).m })
	meth("Day", func(in *Interp, t *TimeV, a []Value) Value { return in.localCivil(t).d })
	meth("YearDay", func(in *Interp, t *TimeV, a []Value) Value {
		c := in.localCivil(t)
		x := in.x
		jan1 := x.Secs(c.y, x.I(1), x.I(1), x.I(0))
		d := x.Secs(c.y, c.m, c.d, x.I(0))
		return x.Add(x.Quo(x.Sub(d, jan1), x.I(86400)), x.I(1))
	})
	meth("Clock", func(in *Interp, t *TimeV, a []Value) Value {
		h, m, s := in.hms(in.localCivil(t).sod)
		return TupleV{h, m, s}
	})
	meth("Hour", func(in *Interp, t *TimeV, a []Value) Value { h, _, _ := in.hms(in.localCivil(t).sod); return h })
	meth("Minute", func(in *Interp, t *TimeV, a []Value) Value { _, m, _ := in.hms(in.localCivil(t).sod); return m })
	meth("Second", func(in *Interp, t *TimeV, a []Value) Value { _, _, s := in.hms(in.localCivil(t).sod); return s })
	meth("Nanosecond", func(in *Interp, t *TimeV, a []Value) Value { return t.nsec })
	meth("Weekday", func(in *Interp, t *TimeV, a []Value) Value {
		c := in.localCivil(t)
		x := in.x
		q, _ := in.floorDivT(x.Secs(c.y, c.m, c.d, x.I(0)), 86400)
		_, r := in.floorDivT(x.Add(q, x.I(4)), 7)
		return r
	})
	meth("Add", func(in *Interp, t *TimeV, a []Value) Value {
		d := in.tm(a[0])
		q, r := in.floorDivT(x64(in, d), 1000000000)
		if r.op == OConst && r.k.sign() == 0 {
			return in.timeAdd(t, q)
		}
		q, r = in.floorDivT(in.x.Add(d, t.nsec), 1000000000)
		n := in.timeAdd(t, q)
		n.nsec = r
		return n
	})
	meth("Sub", func(in *Interp, t *TimeV, a []Value) Value {
		u := in.timeV(a[0])
		x := in.x
		d := x.Add(x.MulK(x.Sub(t.internal(in), u.internal(in)), i64(1000000000)), x.Sub(t.nsec, u.nsec))
		lo, hi := typeRange(64, true)
		return x.Ite(x.Lt(d, x.K(lo)), x.K(lo), x.Ite(x.Lt(x.K(hi), d), x.K(hi), d))
	})
	meth("Truncate", func(in *Interp, t *TimeV, a []Value) Value {
		d := in.tm(a[0])
		if d.op == OConst && d.k == i64(1000000000) {
			n := *t
			n.nsec = in.x.I(0)
			return &n
		}
		unsupported("Time.Truncate")
		return nil
	})
	meth("Format", func(in *Interp, t *TimeV, a []Value) Value {
		l := in.str(a[0])
		if !l.isConc() {
			unsupported("symbolic time layout")
		}
		if l.s == "2006-01-02T15:04:05Z07:00" {
			return &StrV{lazy: func() *StrV { return in.formatTime(t, l.s) }}
		}
		return in.formatTime(t, l.s)
	})
	meth("String", func(in *Interp, t *TimeV, a []Value) Value {
		return &StrV{lazy: func() *StrV { unsupported("Time.String"); return nil }}
	})
}

func x64(in *Interp, t *Term) *Term { return t }

// timeAdd moves an instant by a number of seconds.
func (in *Interp) timeAdd(t *TimeV, d *Term) *TimeV {
	n := &TimeV{nsec: t.nsec, loc: t.loc}
	n.s = in.x.Wrap(in.x.Add(t.secs(in), d), 64, true)
	return n
}

var _ *ssa.Function
