package main

import (
	"go/token"
	"math"
)

// FloatV is a float64 over symbolic integers: the quotient num/den, den > 0. With a
// denominator of 1 it is exact (num has been rounded to what a float64 can hold);
// otherwise num is below 2^51 and the value is within rounding of the quotient,
// which is too little to reach another integer, so truncation and order are exact.
type FloatV struct {
	num *Term
	den int64
}

const ratLimit = 1 << 51

// bounded tells whether |t| is at most lim on every input of the path.
func (in *Interp) bounded(t *Term, lim int64) bool {
	lo, hi := in.x.ival(t)
	if !i64(lim).lt(hi) && !lo.lt(i64(-lim)) {
		return true
	}
	return in.holds(in.x.And(in.x.Le(t, in.x.I(lim)), in.x.Le(in.x.I(-lim), t)))
}

// intFloat is the float64 nearest to the integer t.
func (in *Interp) intFloat(t *Term) Value {
	x := in.x
	t = x.simp(t)
	if t.op == OConst {
		f := float64(t.k.hi)*math.Pow(2, 64) + float64(t.k.lo)
		if t.k.isI64() {
			f = float64(t.k.i64())
		}
		return f
	}
	if in.bounded(t, 1<<53) {
		return FloatV{t, 1}
	}
	lo, hi := x.ival(t)
	if lim := u64(1 << 63); lim.lt(hi) || lo.lt(lim.neg()) {
		return in.intFloat(x.K(in.concretize(t)))
	}
	within := func(b uint) bool {
		l := u64(1 << b)
		return in.branch(x.And(x.Le(t, x.K(l)), x.Le(x.K(l.neg()), t)))
	}
	if within(53) {
		return FloatV{t, 1}
	}
	neg := in.branch(x.Lt(t, x.I(0)))
	a := t
	if neg {
		a = x.Neg(t)
	}
	s := uint(1)
	for s < 10 && !within(53+s) {
		s++
	}
	step := i64(1 << s)
	q, r := x.Quo(a, x.K(step)), x.Rem(a, x.K(step))
	half := x.I(1 << (s - 1))
	up := x.Or(x.Lt(half, r), x.And(x.Eq(r, half), x.Eq(x.Rem(q, x.I(2)), x.I(1))))
	v := x.MulK(x.Add(q, x.Ite(up, x.I(1), x.I(0))), step)
	if neg {
		v = x.Neg(v)
	}
	return FloatV{v, 1}
}

// ratio is num/den as a float64, in lowest terms where that is plain.
func (in *Interp) ratio(num *Term, den int64) (Value, bool) {
	if den < 0 {
		num, den = in.x.Neg(num), -den
	}
	for _, g := range [...]int64{den, 1e9, 3600, 60, 24, 10, 2} {
		for g > 1 && den%g == 0 && in.x.decide(in.x.Div(num, i64(g))) == 1 {
			num, den = in.x.Quo(num, in.x.I(g)), den/g
		}
	}
	if den == 1 {
		return in.intFloat(num), true
	}
	if !in.bounded(num, ratLimit) {
		return nil, false
	}
	return FloatV{num, den}, true
}

// flt is the value as a FloatV, when a plain fraction.
func (in *Interp) flt(v Value) (FloatV, bool) {
	switch f := v.(type) {
	case FloatV:
		return f, true
	case float64:
		den := int64(1)
		for den <= 1<<10 && f != math.Trunc(f) {
			f, den = f*2, den*2
		}
		if f == math.Trunc(f) && math.Abs(f) < 1<<62 {
			return FloatV{in.x.I(int64(f)), den}, true
		}
	}
	return FloatV{}, false
}

// concFloat fixes a symbolic float to its witness.
func (in *Interp) concFloat(v Value) float64 {
	switch f := v.(type) {
	case float64:
		return f
	case FloatV:
		k := in.concretize(f.num)
		n := float64(k.hi)*math.Pow(2, 64) + float64(k.lo)
		if k.isI64() {
			n = float64(k.i64())
		}
		if f.den == 1 {
			return n
		}
		return n / float64(f.den)
	}
	unsupported("float expected, got %T", v)
	return 0
}

func (in *Interp) floatOp(op token.Token, a, b Value) Value {
	x := in.x
	f, ok := a.(float64)
	g, ok2 := b.(float64)
	if ok && ok2 {
		switch op {
		case token.ADD:
			return f + g
		case token.SUB:
			return f - g
		case token.MUL:
			return f * g
		case token.QUO:
			return f / g
		case token.LSS:
			return x.B(f < g)
		case token.GTR:
			return x.B(f > g)
		case token.LEQ:
			return x.B(f <= g)
		case token.GEQ:
			return x.B(f >= g)
		case token.EQL:
			return x.B(f == g)
		}
		unsupported("float operation")
	}
	p, ok := in.flt(a)
	q, ok2 := in.flt(b)
	if ok && ok2 {
		if r := in.ratOp(op, p, q); r != nil {
			return r
		}
	}
	return in.floatOp(op, in.concFloat(a), in.concFloat(b))
}

func (in *Interp) ratOp(op token.Token, p, q FloatV) Value {
	x := in.x
	switch op {
	case token.MUL:
		if p.num.op != OConst && q.num.op != OConst || p.den > 1<<25 || q.den > 1<<25 {
			return nil
		}
		if !in.bounded(p.num, 1<<62) || !in.bounded(q.num, 1<<62) {
			return nil
		}
		if r, ok := in.ratio(x.Mul(p.num, q.num), p.den*q.den); ok {
			return r
		}
		return nil
	case token.QUO:
		if q.num.op != OConst || q.num.k.sign() == 0 || !q.num.k.isI64() || !in.bounded(p.num, 1<<60) {
			return nil
		}
		c := q.num.k.i64()
		if c > 1<<43 || c < -(1<<43) || p.den > 1<<18 {
			return nil
		}
		if r, ok := in.ratio(x.MulK(p.num, i64(q.den)), p.den*c); ok {
			return r
		}
		return nil
	}
	// over one denominator
	den := p.den
	if q.den != den {
		if p.den%q.den == 0 {
			den = p.den
		} else if q.den%p.den == 0 {
			den = q.den
		} else if p.den < 1<<20 && q.den < 1<<20 {
			den = p.den * q.den
		} else {
			return nil
		}
	}
	if den > 1 && (!in.bounded(p.num, 1<<61) || !in.bounded(q.num, 1<<61)) {
		return nil
	}
	m, n := x.MulK(p.num, i64(den/p.den)), x.MulK(q.num, i64(den/q.den))
	switch op {
	case token.ADD, token.SUB:
		r := x.Add(m, n)
		if op == token.SUB {
			r = x.Sub(m, n)
		}
		if v, ok := in.ratio(r, den); ok {
			return v
		}
	case token.LSS:
		return x.Lt(m, n)
	case token.GTR:
		return x.Lt(n, m)
	case token.LEQ:
		return x.Le(m, n)
	case token.GEQ:
		return x.Le(n, m)
	case token.EQL:
		return x.Eq(m, n)
	}
	return nil
}

// floatTrunc is the integer part of a symbolic float.
func (in *Interp) floatTrunc(f FloatV) *Term {
	if f.den == 1 {
		return f.num
	}
	return in.x.Quo(f.num, in.x.I(f.den))
}

// floatFn is math.Floor and its like.
func (in *Interp) floatFn(name string, f FloatV) (Value, bool) {
	x := in.x
	if name == "Abs" {
		return FloatV{x.Ite(x.Lt(f.num, x.I(0)), x.Neg(f.num), f.num), f.den}, true
	}
	floor := func(t *Term, d int64) *Term { // t/d downwards
		q, r := x.Quo(t, x.I(d)), x.Rem(t, x.I(d))
		return x.Sub(q, x.Ite(x.Lt(r, x.I(0)), x.I(1), x.I(0)))
	}
	if f.den == 1 {
		switch name {
		case "Floor", "Ceil", "Trunc", "Round":
			return f, true
		}
		return nil, false
	}
	switch name {
	case "Trunc":
		return in.intFloat(in.floatTrunc(f)), true
	case "Floor":
		return in.intFloat(floor(f.num, f.den)), true
	case "Ceil":
		return in.intFloat(x.Neg(floor(x.Neg(f.num), f.den))), true
	case "Round": // half away from zero
		if f.den < 1<<40 && in.bounded(f.num, 1<<50) {
			a := x.Ite(x.Lt(f.num, x.I(0)), x.Neg(f.num), f.num)
			r := x.Quo(x.Add(x.MulK(a, i64(2)), x.I(f.den)), x.I(2*f.den))
			return in.intFloat(x.Ite(x.Lt(f.num, x.I(0)), x.Neg(r), r)), true
		}
	}
	return nil, false
}
