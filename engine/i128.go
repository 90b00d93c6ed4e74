package main

import (
	"math"
	"math/big"
	"math/bits"
)

// I128 is a signed 128-bit integer; terms and interval bounds use it so that
// the arithmetic of 64-bit Go integers can be described before it wraps.
type I128 struct {
	hi int64
	lo uint64
}

func i64(v int64) I128 {
	return I128{v >> 63, uint64(v)}
}

func u64(v uint64) I128 { return I128{0, v} }

func (a I128) isI64() bool { return a.hi == int64(a.lo)>>63 }
func (a I128) i64() int64  { return int64(a.lo) }

func (a I128) add(b I128) I128 {
	lo, c := bits.Add64(a.lo, b.lo, 0)
	hi := a.hi + b.hi + int64(c)
	return I128{hi, lo}
}

func (a I128) neg() I128 {
	lo, br := bits.Sub64(0, a.lo, 0)
	return I128{-a.hi - int64(br), lo}
}

func (a I128) sub(b I128) I128 {
	lo, br := bits.Sub64(a.lo, b.lo, 0)
	return I128{a.hi - b.hi - int64(br), lo}
}

func (a I128) sign() int {
	if a.hi < 0 {
		return -1
	}
	if a.hi == 0 && a.lo == 0 {
		return 0
	}
	return 1
}

func (a I128) cmp(b I128) int {
	if a.hi != b.hi {
		if a.hi < b.hi {
			return -1
		}
		return 1
	}
	if a.lo != b.lo {
		if a.lo < b.lo {
			return -1
		}
		return 1
	}
	return 0
}

func (a I128) lt(b I128) bool { return a.cmp(b) < 0 }
func (a I128) le(b I128) bool { return a.cmp(b) <= 0 }

func (a I128) abs() I128 {
	if a.hi < 0 {
		return a.neg()
	}
	return a
}

// bitlen of |a|
func (a I128) bitlen() int {
	b := a.abs()
	if b.hi != 0 {
		return 64 + bits.Len64(uint64(b.hi))
	}
	return bits.Len64(b.lo)
}

// mul reports overflow past 126 bits.
func (a I128) mul(b I128) (I128, bool) {
	if a.bitlen()+b.bitlen() > 126 {
		return I128{}, false
	}
	neg := a.sign()*b.sign() < 0
	x, y := a.abs(), b.abs()
	hi, lo := bits.Mul64(x.lo, y.lo)
	hi += uint64(x.hi)*y.lo + uint64(y.hi)*x.lo
	r := I128{int64(hi), lo}
	if neg {
		r = r.neg()
	}
	return r, true
}

func (a I128) big() *big.Int {
	z := new(big.Int).SetInt64(a.hi)
	z.Lsh(z, 64)
	return z.Add(z, new(big.Int).SetUint64(a.lo))
}

func fromBig(z *big.Int) (I128, bool) {
	if z.BitLen() > 126 {
		return I128{}, false
	}
	neg := z.Sign() < 0
	x := new(big.Int).Abs(z)
	lo := new(big.Int).And(x, new(big.Int).SetUint64(math.MaxUint64)).Uint64()
	hi := new(big.Int).Rsh(x, 64).Uint64()
	r := I128{int64(hi), lo}
	if neg {
		r = r.neg()
	}
	return r, true
}

// quo truncates toward zero, as Go does.
func (a I128) quo(b I128) I128 {
	if a.isI64() && b.isI64() && !(a.i64() == math.MinInt64 && b.i64() == -1) {
		return i64(a.i64() / b.i64())
	}
	z, _ := fromBig(new(big.Int).Quo(a.big(), b.big()))
	return z
}

func (a I128) rem(b I128) I128 {
	if a.isI64() && b.isI64() {
		if b.i64() == -1 {
			return I128{}
		}
		return i64(a.i64() % b.i64())
	}
	z, _ := fromBig(new(big.Int).Rem(a.big(), b.big()))
	return z
}

func (a I128) String() string {
	return a.big().String()
}

// wrapTo reduces a to the given width and signedness.
func (a I128) wrapTo(nbits int, signed bool) I128 {
	if nbits == 64 {
		if signed {
			return i64(int64(a.lo))
		}
		return u64(a.lo)
	}
	m := a.lo & (1<<uint(nbits) - 1)
	if signed && m>>(uint(nbits)-1) != 0 {
		return i64(int64(m) - int64(1)<<uint(nbits))
	}
	return u64(m)
}

func typeRange(nbits int, signed bool) (lo, hi I128) {
	if signed {
		if nbits == 64 {
			return i64(math.MinInt64), i64(math.MaxInt64)
		}
		return i64(-(int64(1) << uint(nbits-1))), i64(int64(1)<<uint(nbits-1) - 1)
	}
	if nbits == 64 {
		return I128{}, u64(math.MaxUint64)
	}
	return I128{}, u64(uint64(1)<<uint(nbits) - 1)
}

func minI(a, b I128) I128 {
	if a.lt(b) {
		return a
	}
	return b
}
func maxI(a, b I128) I128 {
	if a.lt(b) {
		return b
	}
	return a
}
