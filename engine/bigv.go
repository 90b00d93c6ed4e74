package main

import (
	"math/big"
)

// BigV models *big.Int and *big.Float values as the exact number m*10^e. A float
// of 64 bits of precision is exact below 2^64; what lies above is only compared,
// or fixed to its witness before its bits are looked at.
type BigV struct {
	m, e    *Term
	isFloat bool
	isRat   bool
	prec    uint
}

const bigExpMax = 20

// bigVal returns the value as a term when it is known to be of moderate size.
func (in *Interp) bigVal(b *BigV) (*Term, bool) {
	x := in.x
	e := x.simp(b.e)
	if e.op != OConst {
		if in.branch(x.Eq(b.m, x.I(0))) {
			return x.I(0), true
		}
		if !in.branch(x.Le(e, x.I(bigExpMax))) {
			return nil, false
		}
		e = x.K(in.concretize(e))
	}
	if i64(bigExpMax).lt(e.k) {
		if in.branch(x.Eq(b.m, x.I(0))) {
			return x.I(0), true
		}
		return nil, false
	}
	lo, hi := x.ival(b.m)
	lim := pow10tab[18]
	if lim.lt(hi) || lo.lt(lim.neg()) {
		if e.k.sign() > 0 && (lim.lt(lo) || hi.lt(lim.neg())) {
			return nil, false // beyond 64 bits
		}
		if e.k.sign() != 0 {
			unsupported("large mantissa with exponent")
		}
		return b.m, true
	}
	return x.MulK(b.m, pow10tab[e.k.lo]), true
}

func (in *Interp) bigSign(b *BigV) *Term {
	x := in.x
	return x.Ite(x.Lt(b.m, x.I(0)), x.I(-1), x.Ite(x.Eq(b.m, x.I(0)), x.I(0), x.I(1)))
}

func (in *Interp) bigCmp(a, b *BigV, abs bool) *Term {
	x := in.x
	// against a constant, the size of the exponent alone may decide
	if !abs {
		if r := in.bigCmpConst(a, b); r != nil {
			return r
		}
		if r := in.bigCmpConst(b, a); r != nil {
			return x.Neg(r)
		}
	}
	av, aok := in.bigVal(a)
	bv, bok := in.bigVal(b)
	ab := func(t *Term) *Term {
		if abs {
			return x.Ite(x.Lt(t, x.I(0)), x.Neg(t), t)
		}
		return t
	}
	sg := func(b *BigV) *Term {
		if abs {
			return x.I(1)
		}
		return in.bigSign(b)
	}
	switch {
	case aok && bok:
		p, q := ab(av), ab(bv)
		return x.Ite(x.Lt(p, q), x.I(-1), x.Ite(x.Eq(p, q), x.I(0), x.I(1)))
	case bok:
		if lo, hi := x.ival(bv); pow10tab[bigExpMax].lt(hi) || lo.lt(pow10tab[bigExpMax].neg()) {
			unsupported("comparison of two large numbers")
		}
		return sg(a)
	case aok:
		if lo, hi := x.ival(av); pow10tab[bigExpMax].lt(hi) || lo.lt(pow10tab[bigExpMax].neg()) {
			unsupported("comparison of two large numbers")
		}
		return x.Neg(sg(b))
	}
	unsupported("comparison of two large numbers")
	return nil
}

// bigCmpConst compares m*10^e with a constant of at most e decimal digits, or
// gives nil.
func (in *Interp) bigCmpConst(a, b *BigV) *Term {
	x := in.x
	e := x.simp(a.e)
	if b.m.op != OConst || b.e.op != OConst || b.e.k.sign() != 0 {
		return nil
	}
	k := 0
	for k < bigExpMax && pow10tab[k].le(b.m.k.abs()) {
		k++
	}
	if k == bigExpMax {
		return nil
	}
	if e.op == OConst {
		if e.k.lt(i64(int64(k))) {
			return nil
		}
	} else if !in.branch(x.Le(x.I(int64(k)), e)) {
		return nil
	}
	// |a| is 0 or at least 10^k > |b|
	zero := x.I(int64(-b.m.k.sign()))
	return x.Ite(x.Lt(a.m, x.I(0)), x.I(-1), x.Ite(x.Eq(a.m, x.I(0)), zero, x.I(1)))
}

// lowBits is Int.Int64 / Uint64 of a converted value.
func (in *Interp) bigLow(b *BigV, signed bool) *Term {
	x := in.x
	v, ok := in.bigVal(b)
	if ok {
		lim := i64(1)
		for i := 0; i < 64; i++ {
			lim = lim.add(lim)
		}
		if !b.isFloat && b.prec == 0 || in.branch(x.And(x.Lt(x.K(lim.neg()), v), x.Lt(v, x.K(lim)))) {
			return x.Wrap(v, 64, signed)
		}
	}
	// beyond 2^64 the float's rounding decides: fix the value
	m := in.concretize(b.m)
	if in.branch(x.Lt(x.I(60), b.e)) {
		// a 64-bit mantissa shifted by more than 64 bits
		return x.I(0)
	}
	e := in.concretize(b.e)
	z := new(big.Int).Exp(big.NewInt(10), e.big(), nil)
	z.Mul(z, m.big())
	f := new(big.Float).SetPrec(64).SetInt(z)
	if !b.isFloat && b.prec == 0 {
		f = nil
	} else {
		f.Int(z)
	}
	z.And(z, new(big.Int).SetUint64(^uint64(0)))
	return x.K(u64(z.Uint64()).wrapTo(64, signed))
}

func (in *Interp) bigArg(v Value) *BigV {
	c, ok := v.(*Cell)
	if !ok {
		unsupported("big number is %T", v)
	}
	if c == nil {
		in.panicRT("invalid memory address or nil pointer dereference")
	}
	b, ok := in.load(c).(*BigV)
	if !ok {
		unsupported("big number")
	}
	return b
}

func (in *Interp) bigCell(b *BigV) *Cell { return &Cell{v: b, init: in.initMode} }

// parseDec scans [sign] digits [. digits] [eE [sign] digits]; ok is false on a
// syntax error.
func (in *Interp) parseDec(s *StrV, allowFrac bool) (b *BigV, ok bool) {
	x := in.x
	n := s.Len()
	i := 0
	isB := func(i int, set string) bool {
		if i >= n {
			return false
		}
		var ss Set256
		for j := 0; j < len(set); j++ {
			ss.add(set[j])
		}
		return in.branch(x.In(in.strAt(s, i), ss))
	}
	neg := false
	if isB(0, "-") {
		neg = true
		i++
	} else if isB(0, "+") {
		i++
	}
	digits := func(exponent bool) (*Term, int) {
		v := x.I(0)
		c := 0
		for i < n && isB(i, "0123456789") {
			v = x.Add(x.MulK(v, i64(10)), x.Sub(in.strAt(s, i), x.I('0')))
			i++
			c++
			if exponent && c > 19 && in.branch(x.Le(x.K(u64(1<<63)), v)) {
				// refused whatever follows; what follows still has to be digits
				for i < n && isB(i, "0123456789") {
					i++
					c++
				}
				return x.K(u64(1 << 63)), c
			}
			if c > 30 {
				unsupported("number of more than 30 digits")
			}
		}
		return v, c
	}
	m, c := digits(false)
	if c == 0 {
		return nil, false
	}
	if i < n && isB(i, ".") {
		unsupported("decimal fraction")
	}
	e := x.I(0)
	if allowFrac && isB(i, "eE") {
		i++
		eneg := false
		if isB(i, "-") {
			eneg = true
			i++
		} else if isB(i, "+") {
			i++
		}
		ev, c := digits(true)
		if c == 0 {
			return nil, false
		}
		if eneg {
			if in.branch(x.Not(x.Eq(ev, x.I(0)))) {
				unsupported("negative exponent")
			}
			ev = x.I(0)
		}
		if in.branch(x.Lt(x.K(u64(1<<63-1)), ev)) {
			return nil, false // the exponent is read as 64 bits
		}
		if in.branch(x.And(x.Le(x.I(1<<31), ev), x.Not(x.Eq(m, x.I(0))))) {
			return nil, false // the exponent of a big.Float has 32
		}
		e = ev
	} else if allowFrac && isB(i, "pP") {
		unsupported("binary exponent")
	}
	if i != n {
		return nil, false
	}
	if neg {
		m = x.Neg(m)
	}
	return &BigV{m: m, e: e, isFloat: true, prec: 64}, true
}

func init() {
	b := "math/big."
	fm := func(typ, name string, f func(in *Interp, a []Value) Value) {
		intrinsics["(*math/big."+typ+")."+name] = f
	}
	intrinsics[b+"ParseFloat"] = func(in *Interp, a []Value) Value {
		s := in.str(a[0])
		base := in.concInt(a[1])
		prec := in.concInt(a[2])
		if base != 10 || prec != 0 && prec < 64 {
			unsupported("big.ParseFloat base %d precision %d", base, prec)
		}
		v, ok := in.parseDec(s, true)
		if !ok {
			return TupleV{(*Cell)(nil), in.x.I(0), in.newError(mkStr("invalid number"))}
		}
		return TupleV{in.bigCell(v), in.x.I(int64(base)), IfaceV{}}
	}
	intrinsics[b+"NewInt"] = func(in *Interp, a []Value) Value {
		return in.bigCell(&BigV{m: in.tm(a[0]), e: in.x.I(0)})
	}
	intrinsics[b+"NewFloat"] = func(in *Interp, a []Value) Value {
		if v, ok := a[0].(FloatV); ok && v.den == 1 {
			return in.bigCell(&BigV{m: v.num, e: in.x.I(0), isFloat: true, prec: 64})
		}
		f := in.concFloat(a[0])
		if f != float64(int64(f)) {
			unsupported("big.NewFloat")
		}
		return in.bigCell(&BigV{m: in.x.I(int64(f)), e: in.x.I(0), isFloat: true, prec: 64})
	}
	fm("Float", "Int", func(in *Interp, a []Value) Value {
		v := in.bigArg(a[0])
		n := &BigV{m: v.m, e: v.e, prec: 64}
		acc := in.x.I(0)
		if z, _ := a[1].(*Cell); z != nil {
			in.store(z, n)
			return TupleV{z, acc}
		}
		return TupleV{in.bigCell(n), acc}
	})
	fm("Float", "Int64", func(in *Interp, a []Value) Value {
		x := in.x
		v := in.bigArg(a[0])
		lo, hi := typeRange(64, true)
		t, ok := in.bigVal(v)
		if !ok {
			neg := x.Lt(v.m, x.I(0))
			return TupleV{x.Ite(neg, x.K(lo), x.K(hi)), x.Ite(neg, x.I(1), x.I(-1))}
		}
		return TupleV{x.Ite(x.Lt(t, x.K(lo)), x.K(lo), x.Ite(x.Lt(x.K(hi), t), x.K(hi), t)),
			x.Ite(x.Lt(t, x.K(lo)), x.I(1), x.Ite(x.Lt(x.K(hi), t), x.I(-1), x.I(0)))}
	})
	for _, typ := range []string{"Float", "Int"} {
		fm(typ, "Sign", func(in *Interp, a []Value) Value { return in.bigSign(in.bigArg(a[0])) })
		fm(typ, "Cmp", func(in *Interp, a []Value) Value { return in.bigCmp(in.bigArg(a[0]), in.bigArg(a[1]), false) })
		fm(typ, "CmpAbs", func(in *Interp, a []Value) Value { return in.bigCmp(in.bigArg(a[0]), in.bigArg(a[1]), true) })
		isF := typ == "Float"
		set := func(in *Interp, a []Value, m *Term) Value {
			c := in.ptr(a[0])
			v := &BigV{m: m, e: in.x.I(0), isFloat: isF}
			if isF {
				v.prec = 64
			}
			in.store(c, v)
			return c
		}
		fm(typ, "SetInt64", func(in *Interp, a []Value) Value { return set(in, a, in.tm(a[1])) })
		fm(typ, "SetUint64", func(in *Interp, a []Value) Value { return set(in, a, in.tm(a[1])) })
		fm(typ, "Set", func(in *Interp, a []Value) Value {
			in.store(in.ptr(a[0]), in.bigArg(a[1]))
			return a[0]
		})
		fm(typ, "Abs", func(in *Interp, a []Value) Value {
			v := in.bigArg(a[1])
			n := *v
			n.m = in.x.Ite(in.x.Lt(v.m, in.x.I(0)), in.x.Neg(v.m), v.m)
			in.store(in.ptr(a[0]), &n)
			return a[0]
		})
		fm(typ, "Neg", func(in *Interp, a []Value) Value {
			v := in.bigArg(a[1])
			n := *v
			n.m = in.x.Neg(v.m)
			in.store(in.ptr(a[0]), &n)
			return a[0]
		})
	}
	fm("Float", "IsInt", func(in *Interp, a []Value) Value { return in.x.True })
	fm("Float", "IsInf", func(in *Interp, a []Value) Value {
		v := in.bigArg(a[0])
		return in.x.And(in.x.Not(in.x.Eq(v.m, in.x.I(0))), in.x.Lt(in.x.I(646456992), v.e))
	})
	fm("Int", "Int64", func(in *Interp, a []Value) Value { return in.bigLow(in.bigArg(a[0]), true) })
	fm("Int", "Uint64", func(in *Interp, a []Value) Value { return in.bigLow(in.bigArg(a[0]), false) })
	isN := func(signed bool) func(in *Interp, a []Value) Value {
		return func(in *Interp, a []Value) Value {
			v, ok := in.bigVal(in.bigArg(a[0]))
			if !ok {
				return in.x.False
			}
			lo, hi := typeRange(64, signed)
			return in.x.And(in.x.Le(in.x.K(lo), v), in.x.Le(v, in.x.K(hi)))
		}
	}
	fm("Int", "IsInt64", isN(true))
	fm("Int", "IsUint64", isN(false))
	fm("Int", "SetString", func(in *Interp, a []Value) Value {
		if in.concInt(a[2]) != 10 {
			unsupported("big.Int.SetString base")
		}
		v, ok := in.parseDec(in.str(a[1]), false)
		if !ok {
			return TupleV{(*Cell)(nil), in.x.False}
		}
		v.isFloat, v.prec = false, 0
		in.store(in.ptr(a[0]), v)
		return TupleV{a[0], in.x.True}
	})
	fm("Float", "SetString", func(in *Interp, a []Value) Value {
		v, ok := in.parseDec(in.str(a[1]), true)
		if !ok {
			return TupleV{(*Cell)(nil), in.x.False}
		}
		in.store(in.ptr(a[0]), v)
		return TupleV{a[0], in.x.True}
	})
}
