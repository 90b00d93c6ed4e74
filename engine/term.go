package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OLin
	OMul
	OQuo
	ORem
	OWrap
	OBit
	ODigit
	OIte
	OSecs
	BConst
	BVar
	BNot
	BAnd
	BOr
	BEq0
	BLe0
	BIn
	BDiv
)

type BitKind uint8

const (
	bitAnd BitKind = iota
	bitOr
	bitXor
	bitAndNot
	bitShl
	bitShr
)

type Set256 [4]uint64

func (s *Set256) has(b byte) bool { return s[b>>6]>>(b&63)&1 != 0 }
func (s *Set256) add(b byte)      { s[b>>6] |= 1 << (b & 63) }
func (s Set256) and(t Set256) Set256 {
	return Set256{s[0] & t[0], s[1] & t[1], s[2] & t[2], s[3] & t[3]}
}
func (s Set256) or(t Set256) Set256 {
	return Set256{s[0] | t[0], s[1] | t[1], s[2] | t[2], s[3] | t[3]}
}
func (s Set256) not() Set256 { return Set256{^s[0], ^s[1], ^s[2], ^s[3]} }
func (s Set256) empty() bool { return s[0]|s[1]|s[2]|s[3] == 0 }
func (s Set256) count() int {
	return bits.OnesCount64(s[0]) + bits.OnesCount64(s[1]) + bits.OnesCount64(s[2]) + bits.OnesCount64(s[3])
}
func (s Set256) min() int {
	for i := 0; i < 4; i++ {
		if s[i] != 0 {
			return i*64 + bits.TrailingZeros64(s[i])
		}
	}
	return -1
}
func (s Set256) max() int {
	for i := 3; i >= 0; i-- {
		if s[i] != 0 {
			return i*64 + 63 - bits.LeadingZeros64(s[i])
		}
	}
	return -1
}
func rangeSet(lo, hi int) Set256 {
	var s Set256
	for i := lo; i <= hi; i++ {
		s.add(byte(i))
	}
	return s
}

var fullSet = Set256{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
var digitSet = rangeSet('0', '9')

type Term struct {
	op       Op
	bk       BitKind
	signed   bool
	nbits    uint8
	nsup     uint8 // 0 none, 1 exactly one byte var (sup), 2 more or other
	defd     bool  // defined in the current solver scope
	id       int32
	width    int32 // solver width once defined
	args     []*Term
	coef     []I128
	k        I128
	set      Set256 // BIn: the set; OVar: current domain of a byte var
	dom0     Set256
	isByte   bool
	sup      *Term
	lo, hi   I128 // interval, as narrowed at ivEpoch
	ilo, ihi I128 // interval that holds whatever the path condition says
	iok      bool
	base     *Term
	ivEp     int32
	smEp     int32
	smVal    *Term
	dcEp     int32
	dcVal    int8
	c        I128 // concrete value under the path's witness
	name     string
	hash     uint64
}

func (t *Term) isBool() bool  { return t.op >= BConst }
func (t *Term) isConst() bool { return t.op == OConst || t.op == BConst }
func (t *Term) cb() bool      { return t.c.lo != 0 }

// Ctx builds terms; everything but constants is dropped between paths.
type Ctx struct {
	consts map[I128]*Term
	tab    map[uint64][]*Term
	next   int32
	epoch  int32
	facts  map[int32]bool
	nar    map[int32][2]I128
	vars   []*Term
	True   *Term
	False  *Term
	contra bool

	shiftSecs func(a, delta *Term) *Term // set by the interpreter
}

func newCtx() *Ctx {
	c := &Ctx{consts: map[I128]*Term{}}
	c.True = &Term{op: BConst, c: i64(1), id: -1}
	c.False = &Term{op: BConst, id: -2}
	c.reset()
	return c
}

func (x *Ctx) reset() {
	x.tab = map[uint64][]*Term{}
	x.next = 1
	x.epoch = 1
	x.facts = map[int32]bool{}
	x.nar = map[int32][2]I128{}
	x.vars = nil
	x.contra = false
}

func (x *Ctx) K(v I128) *Term {
	if t, ok := x.consts[v]; ok {
		return t
	}
	t := &Term{op: OConst, k: v, c: v, lo: v, hi: v, id: int32(-3 - len(x.consts))}
	x.consts[v] = t
	return t
}
func (x *Ctx) I(v int64) *Term { return x.K(i64(v)) }
func (x *Ctx) B(b bool) *Term {
	if b {
		return x.True
	}
	return x.False
}

func (t *Term) computeHash() uint64 {
	h := uint64(14695981039346656037)
	mix := func(v uint64) { h = (h ^ v) * 1099511628211; h ^= h >> 29 }
	mix(uint64(t.op)<<32 | uint64(t.bk)<<16 | uint64(t.nbits)<<1)
	if t.signed {
		mix(7)
	}
	for _, a := range t.args {
		mix(uint64(uint32(a.id)))
	}
	for _, c := range t.coef {
		mix(c.lo)
		mix(uint64(c.hi))
	}
	mix(t.k.lo)
	if t.op == BIn {
		for _, s := range t.set {
			mix(s)
		}
	}
	return h
}

func same(a, b *Term) bool {
	if a.op != b.op || a.bk != b.bk || a.signed != b.signed || a.nbits != b.nbits || len(a.args) != len(b.args) || a.k != b.k || len(a.coef) != len(b.coef) {
		return false
	}
	for i := range a.args {
		if a.args[i] != b.args[i] {
			return false
		}
	}
	for i := range a.coef {
		if a.coef[i] != b.coef[i] {
			return false
		}
	}
	if a.op == BIn && a.set != b.set {
		return false
	}
	return true
}

// mk interns t, filling in support, interval and concrete value.
func (x *Ctx) mk(t *Term) *Term {
	t.hash = t.computeHash()
	for _, o := range x.tab[t.hash] {
		if same(o, t) {
			return o
		}
	}
	t.id = x.next
	x.next++
	for _, a := range t.args {
		x.addSup(t, a)
	}
	t.c = evalNode(t)
	if !t.isBool() {
		t.ivEp = -1
		x.ival(t)
	}
	x.tab[t.hash] = append(x.tab[t.hash], t)
	return t
}

func (x *Ctx) addSup(t, a *Term) {
	switch {
	case a.nsup == 0 || t.nsup == 2:
	case a.nsup == 2:
		t.nsup = 2
	case t.nsup == 0:
		t.nsup, t.sup = 1, a.sup
	case t.sup != a.sup:
		t.nsup = 2
	}
}

// NewVar makes an integer variable with the given bounds and witness value.
func (x *Ctx) NewVar(name string, lo, hi, val I128) *Term {
	t := &Term{op: OVar, name: name, nsup: 2, lo: lo, hi: hi, ilo: lo, ihi: hi, iok: true, c: val, id: x.next}
	x.next++
	x.vars = append(x.vars, t)
	return t
}

func (x *Ctx) NewByte(name string, dom Set256, val byte) *Term {
	t := &Term{op: OVar, name: name, isByte: true, nsup: 1, set: dom, dom0: dom, c: i64(int64(val)), id: x.next}
	t.sup = t
	t.lo, t.hi = i64(int64(dom.min())), i64(int64(dom.max()))
	x.next++
	x.vars = append(x.vars, t)
	return t
}

func (x *Ctx) NewBool(name string, val bool) *Term {
	t := &Term{op: BVar, name: name, nsup: 2, id: x.next}
	if val {
		t.c = i64(1)
	}
	x.next++
	x.vars = append(x.vars, t)
	return t
}

func b2i(b bool) I128 {
	if b {
		return i64(1)
	}
	return I128{}
}

var pow10tab [39]I128

func init() {
	p := i64(1)
	for i := range pow10tab {
		pow10tab[i] = p
		p, _ = p.mul(i64(10))
		if i == 37 {
			break
		}
	}
}

func bitOp(k BitKind, a, b I128, nbits int, signed bool) I128 {
	av, bv := a.lo, b.lo
	var r uint64
	switch k {
	case bitAnd:
		r = av & bv
	case bitOr:
		r = av | bv
	case bitXor:
		r = av ^ bv
	case bitAndNot:
		r = av &^ bv
	case bitShl:
		if b.hi != 0 || bv >= 64 {
			r = 0
		} else {
			r = av << bv
		}
	case bitShr:
		if signed {
			s := bv
			if b.hi != 0 || s > 63 {
				s = 63
			}
			return i64(int64(av)>>s).wrapTo(nbits, true)
		}
		if b.hi != 0 || bv >= 64 {
			r = 0
		} else {
			r = a.wrapTo(nbits, false).lo >> bv
		}
	}
	return u64(r).wrapTo(nbits, signed)
}

// evalWith evaluates a node given the values of its arguments.
func evalOp(t *Term, arg func(i int) I128) I128 {
	switch t.op {
	case OConst:
		return t.k
	case OLin:
		s := t.k
		for i := range t.args {
			p, _ := t.coef[i].mul(arg(i))
			s = s.add(p)
		}
		return s
	case OMul:
		p, _ := arg(0).mul(arg(1))
		return p
	case OQuo:
		b := arg(1)
		if b.sign() == 0 {
			return I128{}
		}
		return arg(0).quo(b)
	case ORem:
		b := arg(1)
		if b.sign() == 0 {
			return I128{}
		}
		return arg(0).rem(b)
	case OWrap:
		return arg(0).wrapTo(int(t.nbits), t.signed)
	case OBit:
		return bitOp(t.bk, arg(0), arg(1), int(t.nbits), t.signed)
	case ODigit: // zero for negative arguments, which only occur in dead cases
		if arg(0).sign() < 0 {
			return I128{}
		}
		return arg(0).quo(pow10tab[t.k.lo]).rem(i64(10))
	case OIte:
		if arg(0).lo != 0 {
			return arg(1)
		}
		return arg(2)
	case OSecs:
		return secsOf(arg(0), arg(1), arg(2), arg(3))
	case BConst:
		return t.c
	case BNot:
		return b2i(arg(0).lo == 0)
	case BAnd:
		for i := range t.args {
			if arg(i).lo == 0 {
				return I128{}
			}
		}
		return i64(1)
	case BOr:
		for i := range t.args {
			if arg(i).lo != 0 {
				return i64(1)
			}
		}
		return I128{}
	case BEq0:
		return b2i(arg(0).sign() == 0)
	case BLe0:
		return b2i(arg(0).sign() <= 0)
	case BIn:
		return b2i(t.set.has(byte(arg(0).lo)))
	case BDiv:
		return b2i(arg(0).rem(t.k).sign() == 0)
	}
	panic("evalOp")
}

func evalNode(t *Term) I128 {
	if t.op == OVar || t.op == BVar {
		return t.c
	}
	return evalOp(t, func(i int) I128 { return t.args[i].c })
}

// evalAt evaluates a term whose support is the single byte variable t.sup.
func (x *Ctx) evalAt(t *Term, v byte, memo map[*Term]I128) I128 {
	if t.op == OVar {
		return i64(int64(v))
	}
	if t.nsup == 0 {
		return t.c
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := evalOp(t, func(i int) I128 { return x.evalAt(t.args[i], v, memo) })
	memo[t] = r
	return r
}

// secsOf: Unix seconds of a valid civil date.
func secsOf(y, m, d, sod I128) I128 {
	return i64(daysCivil(y.i64(), m.i64(), d.i64())*86400 + sod.i64())
}

func daysCivil(y, m, d int64) int64 {
	if m <= 2 {
		y--
	}
	era := y
	if era < 0 {
		era -= 399
	}
	era /= 400
	yoe := y - era*400
	mp := (m + 9) % 12
	doy := (153*mp+2)/5 + d - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return era*146097 + doe - 719468
}

func civilDays(z int64) (y, m, d int64) {
	z += 719468
	era := z
	if era < 0 {
		era -= 146096
	}
	era /= 146097
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	y = yoe + era*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d = doy - (153*mp+2)/5 + 1
	if mp < 10 {
		m = mp + 3
	} else {
		m = mp - 9
	}
	if m <= 2 {
		y++
	}
	return
}

// ival returns the current interval of t.
func (x *Ctx) ival(t *Term) (I128, I128) {
	if t.op == OConst {
		return t.k, t.k
	}
	if t.ivEp == x.epoch {
		return t.lo, t.hi
	}
	first := t.ivEp == -1
	lo, hi := x.natural(t, x.ival)
	if t.op == OLin {
		if b, neg := x.linBase(t); true {
			if n, ok := x.nar[b.id]; ok {
				nl, nh := n[0], n[1]
				if neg {
					nl, nh = nh.neg(), nl.neg()
				}
				lo, hi = maxI(lo, nl.add(t.k)), minI(hi, nh.add(t.k))
			}
		}
	} else if n, ok := x.nar[t.id]; ok {
		lo, hi = maxI(lo, n[0]), minI(hi, n[1])
	}
	if !first {
		// never widen
		if t.op != OVar {
			lo, hi = maxI(lo, t.lo), minI(hi, t.hi)
		}
	}
	if hi.lt(lo) { // contradictory path facts; keep something sane
		hi = lo
	}
	t.lo, t.hi, t.ivEp = lo, hi, x.epoch
	return lo, hi
}

// linBase is the linear part of t without its constant, its first coefficient
// made positive; neg says whether the sign was turned.
func (x *Ctx) linBase(t *Term) (b *Term, neg bool) {
	neg = t.coef[0].sign() < 0
	if t.base != nil {
		return t.base, neg
	}
	if t.k.sign() == 0 && !neg {
		t.base = t
		return t, false
	}
	n := &Term{op: OLin, args: t.args, coef: t.coef}
	if neg {
		n.coef = make([]I128, len(t.coef))
		for i, c := range t.coef {
			n.coef[i] = c.neg()
		}
	}
	t.base = x.mk(n)
	return t.base, neg
}

// natural is the interval that follows from the arguments' intervals alone.
func (x *Ctx) natural(t *Term, iv func(*Term) (I128, I128)) (lo, hi I128) {
	switch t.op {
	case OVar:
		if t.isByte {
			if t.set.empty() {
				lo, hi = t.lo, t.hi
			} else {
				lo, hi = i64(int64(t.set.min())), i64(int64(t.set.max()))
			}
		} else {
			lo, hi = t.lo, t.hi
		}
	case OLin:
		lo, hi = t.k, t.k
		for i, a := range t.args {
			al, ah := iv(a)
			pl, ok1 := t.coef[i].mul(al)
			ph, ok2 := t.coef[i].mul(ah)
			if !ok1 || !ok2 {
				unsupported("linear term too wide")
			}
			if ph.lt(pl) {
				pl, ph = ph, pl
			}
			lo, hi = lo.add(pl), hi.add(ph)
		}
	case OMul:
		al, ah := iv(t.args[0])
		bl, bh := iv(t.args[1])
		for i, p := range [][2]I128{{al, bl}, {al, bh}, {ah, bl}, {ah, bh}} {
			v, ok := p[0].mul(p[1])
			if !ok {
				unsupported("product too wide")
			}
			if i == 0 {
				lo, hi = v, v
			} else {
				lo, hi = minI(lo, v), maxI(hi, v)
			}
		}
	case OQuo:
		al, ah := iv(t.args[0])
		bl, bh := iv(t.args[1])
		if bl.sign() > 0 || bh.sign() < 0 {
			for i, p := range [][2]I128{{al, bl}, {al, bh}, {ah, bl}, {ah, bh}} {
				v := p[0].quo(p[1])
				if i == 0 {
					lo, hi = v, v
				} else {
					lo, hi = minI(lo, v), maxI(hi, v)
				}
			}
			if al.sign() <= 0 && ah.sign() >= 0 {
				lo, hi = minI(lo, I128{}), maxI(hi, I128{})
			}
		} else {
			m := maxI(al.abs(), ah.abs())
			lo, hi = m.neg(), m
		}
	case ORem:
		al, ah := iv(t.args[0])
		bl, bh := iv(t.args[1])
		m := maxI(bl.abs(), bh.abs())
		m = maxI(m.sub(i64(1)), I128{})
		if al.sign() < 0 {
			lo = maxI(m.neg(), al)
		}
		if ah.sign() > 0 {
			hi = minI(m, ah)
		}
	case OWrap:
		al, ah := iv(t.args[0])
		tl, th := typeRange(int(t.nbits), t.signed)
		if tl.le(al) && ah.le(th) {
			lo, hi = al, ah
		} else {
			lo, hi = tl, th
		}
	case OBit:
		lo, hi = typeRange(int(t.nbits), t.signed)
		al, ah := iv(t.args[0])
		bl, bh := iv(t.args[1])
		if al.sign() >= 0 && bl.sign() >= 0 && al.isI64() && ah.isI64() && bh.isI64() {
			switch t.bk {
			case bitAnd:
				lo, hi = I128{}, minI(ah, bh)
			case bitOr, bitXor:
				n := maxI(ah, bh).bitlen()
				lo, hi = I128{}, minI(hi, u64(1<<uint(n)-1))
			case bitAndNot, bitShr:
				lo, hi = I128{}, ah
			}
		}
	case ODigit:
		lo, hi = I128{}, i64(9)
		if al, ah := iv(t.args[0]); al.sign() >= 0 {
			p := pow10tab[t.k.lo]
			al, ah = al.quo(p), ah.quo(p)
			if al.quo(i64(10)) == ah.quo(i64(10)) {
				lo, hi = al.rem(i64(10)), ah.rem(i64(10))
			}
		}
	case OIte:
		al, ah := iv(t.args[1])
		bl, bh := iv(t.args[2])
		lo, hi = minI(al, bl), maxI(ah, bh)
	case OSecs:
		yl, yh := iv(t.args[0])
		lo = secsOf(yl, i64(1), i64(1), I128{})
		hi = secsOf(yh, i64(12), i64(31), i64(86399))
	}
	return lo, hi
}

// intrinsic is the interval of t over every value of the variables, whatever the
// path condition says: the solver's encoding relies on nothing else.
func (x *Ctx) intrinsic(t *Term) (I128, I128) {
	if t.op == OConst {
		return t.k, t.k
	}
	if t.iok {
		return t.ilo, t.ihi
	}
	var lo, hi I128
	switch {
	case t.op == OVar && t.isByte:
		lo, hi = i64(int64(t.dom0.min())), i64(int64(t.dom0.max()))
	case t.op == OVar:
		panic("variable without a declared range")
	default:
		lo, hi = x.natural(t, x.intrinsic)
		if t.op == OSecs {
			if yl, yh := x.intrinsic(t.args[0]); yl.lt(i64(-300000)) || i64(300000).lt(yh) {
				unsupported("date of an unbounded year")
			}
		}
		if lo.bitlen() > 110 || hi.bitlen() > 110 {
			unsupported("term too wide")
		}
	}
	t.ilo, t.ihi, t.iok = lo, hi, true
	return lo, hi
}

// ---------- linear terms ----------

type linB struct {
	x     *Ctx
	atoms []*Term
	coef  []I128
	k     I128
}

func (b *linB) addTerm(t *Term, c I128) {
	if c.sign() == 0 {
		return
	}
	mulm := func(p, q I128) I128 {
		r, ok := p.mul(q)
		if !ok {
			unsupported("coefficient too wide")
		}
		return r
	}
	switch t.op {
	case OConst:
		b.k = b.k.add(mulm(c, t.k))
	case OLin:
		b.k = b.k.add(mulm(c, t.k))
		for i, a := range t.args {
			b.atoms = append(b.atoms, a)
			b.coef = append(b.coef, mulm(c, t.coef[i]))
		}
	default:
		b.atoms = append(b.atoms, t)
		b.coef = append(b.coef, c)
	}
}

type linSort struct {
	a []*Term
	c []I128
}

func (s linSort) Len() int           { return len(s.a) }
func (s linSort) Less(i, j int) bool { return s.a[i].id < s.a[j].id }
func (s linSort) Swap(i, j int)      { s.a[i], s.a[j] = s.a[j], s.a[i]; s.c[i], s.c[j] = s.c[j], s.c[i] }

func (b *linB) build() *Term {
	x := b.x
	sort.Sort(linSort{b.atoms, b.coef})
	n := 0
	for i := 0; i < len(b.atoms); {
		c := b.coef[i]
		j := i + 1
		for j < len(b.atoms) && b.atoms[j] == b.atoms[i] {
			c = c.add(b.coef[j])
			j++
		}
		if c.sign() != 0 {
			b.atoms[n], b.coef[n] = b.atoms[i], c
			n++
		}
		i = j
	}
	b.atoms, b.coef = b.atoms[:n], b.coef[:n]
	if b.recombine() {
		return b.build()
	}
	if n == 0 {
		return x.K(b.k)
	}
	if n == 1 && b.k.sign() == 0 && b.coef[0] == i64(1) {
		return b.atoms[0]
	}
	return x.mk(&Term{op: OLin, args: b.atoms, coef: b.coef, k: b.k})
}

// recombine replaces a complete set of decimal digits of one term by the term.
func (b *linB) recombine() bool {
	cnt := 0
	for _, a := range b.atoms {
		if a.op == ODigit {
			cnt++
		}
	}
	if cnt < 1 {
		return false
	}
	seen := map[*Term]bool{}
	for _, a := range b.atoms {
		if a.op != ODigit || seen[a.args[0]] {
			continue
		}
		base := a.args[0]
		seen[base] = true
		idx := map[int]int{}
		for i, d := range b.atoms {
			if d.op == ODigit && d.args[0] == base {
				idx[int(d.k.lo)] = i
			}
		}
		i0, ok := idx[0]
		if !ok {
			continue
		}
		c := b.coef[i0]
		blo, hi := b.x.ival(base)
		good := blo.sign() >= 0
		n := 0
		for n = 0; ; n++ {
			if hi.lt(pow10tab[n]) {
				break
			}
			j, ok := idx[n]
			if !ok {
				good = false
				break
			}
			w, ok2 := c.mul(pow10tab[n])
			if !ok2 || b.coef[j] != w {
				good = false
				break
			}
		}
		if !good || n == 0 {
			continue
		}
		var na []*Term
		var nc []I128
		for i, d := range b.atoms {
			if d.op == ODigit && d.args[0] == base && int(d.k.lo) < n {
				continue
			}
			na = append(na, d)
			nc = append(nc, b.coef[i])
		}
		b.atoms, b.coef = na, nc
		b.addTerm(base, c)
		return true
	}
	return false
}

func (x *Ctx) Add(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return x.K(a.k.add(b.k))
	}
	l := linB{x: x}
	l.addTerm(x.simp(a), i64(1))
	l.addTerm(x.simp(b), i64(1))
	return l.build()
}
func (x *Ctx) Sub(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return x.K(a.k.sub(b.k))
	}
	l := linB{x: x}
	l.addTerm(x.simp(a), i64(1))
	l.addTerm(x.simp(b), i64(-1))
	return l.build()
}
func (x *Ctx) MulK(a *Term, c I128) *Term {
	l := linB{x: x}
	l.addTerm(x.simp(a), c)
	return l.build()
}
func (x *Ctx) Neg(a *Term) *Term { return x.MulK(a, i64(-1)) }
func (x *Ctx) Mul(a, b *Term) *Term {
	a, b = x.simp(a), x.simp(b)
	if a.op == OConst {
		return x.MulK(b, a.k)
	}
	if b.op == OConst {
		return x.MulK(a, b.k)
	}
	if a.op == OIte && a.args[1].op == OConst && a.args[2].op == OConst {
		return x.Ite(a.args[0], x.Mul(a.args[1], b), x.Mul(a.args[2], b))
	}
	if b.op == OIte && b.args[1].op == OConst && b.args[2].op == OConst {
		return x.Ite(b.args[0], x.Mul(a, b.args[1]), x.Mul(a, b.args[2]))
	}
	if b.id < a.id {
		a, b = b, a
	}
	return x.mk(&Term{op: OMul, args: []*Term{a, b}})
}

// splitDiv splits t = A + B with every coefficient (and constant) of A divisible by c.
func (x *Ctx) splitDiv(t *Term, c I128) (a, b *Term) {
	la, lb := linB{x: x}, linB{x: x}
	add := func(at *Term, cf I128) {
		if cf.rem(c).sign() == 0 {
			la.addTerm(at, cf)
		} else {
			lb.addTerm(at, cf)
		}
	}
	var k I128
	if t.op == OLin {
		for i, at := range t.args {
			add(at, t.coef[i])
		}
		k = t.k
	} else {
		add(t, i64(1))
	}
	b0 := lb.build()
	// place the constant so that b falls in [0,c)
	lo, _ := x.ival(b0)
	// want lo + kb in [0,c): kb = k - c*q
	s := lo.add(k)
	q := s.quo(c)
	if s.rem(c).sign() < 0 {
		q = q.sub(i64(1))
	}
	p, _ := q.mul(c)
	kb := k.sub(p)
	la.k = la.k.add(p)
	return la.build(), x.Add(b0, x.K(kb))
}

func (x *Ctx) divExact(t *Term, c I128) *Term {
	l := linB{x: x}
	if t.op == OConst {
		return x.K(t.k.quo(c))
	}
	if t.op == OLin {
		l.k = t.k.quo(c)
		for i, a := range t.args {
			l.atoms = append(l.atoms, a)
			l.coef = append(l.coef, t.coef[i].quo(c))
		}
		return l.build()
	}
	panic("divExact")
}

// Quo and Rem truncate toward zero; the divisor must be known non-zero.
func (x *Ctx) Quo(a, b *Term) *Term { q, _ := x.quoRem(a, b, 1); return q }
func (x *Ctx) Rem(a, b *Term) *Term { _, r := x.quoRem(a, b, 2); return r }

func (x *Ctx) quoRem(a, b *Term, want int) (q, r *Term) {
	a, b = x.simp(a), x.simp(b)
	if a.op == OConst && b.op == OConst {
		return x.K(a.k.quo(b.k)), x.K(a.k.rem(b.k))
	}
	if b.op == OConst && b.k.sign() > 0 {
		c := b.k
		if c == i64(1) {
			return a, x.I(0)
		}
		lo, hi := x.ival(a)
		if hi.sign() <= 0 && lo.sign() < 0 {
			q, r := x.quoRem(x.Neg(a), b, want)
			if q != nil {
				q = x.Neg(q)
			}
			if r != nil {
				r = x.Neg(r)
			}
			return q, r
		}
		if lo.sign() >= 0 {
			if hi.lt(c) {
				return x.I(0), a
			}
			if a.op == OIte && (a.args[1].op == OConst || a.args[2].op == OConst) {
				q1, r1 := x.quoRem(a.args[1], b, want)
				q2, r2 := x.quoRem(a.args[2], b, want)
				if want&1 != 0 {
					q = x.Ite(a.args[0], q1, q2)
				}
				if want&2 != 0 {
					r = x.Ite(a.args[0], r1, r2)
				}
				return
			}
			if a.op == OQuo && a.args[1].op == OConst {
				if p, ok := a.args[1].k.mul(c); ok && want == 1 {
					return x.Quo(a.args[0], x.K(p)), nil
				}
			}
			A, B := x.splitDiv(a, c)
			bl, bh := x.ival(B)
			if bl.sign() >= 0 && bh.lt(c) {
				return x.divExact(A, c), B
			}
			if al, _ := x.ival(A); bl.sign() >= 0 && al.sign() >= 0 && !(A.op == OConst && A.k.sign() == 0) {
				if want&1 != 0 {
					q = x.Add(x.divExact(A, c), x.Quo(B, b))
				}
				if want&2 != 0 {
					r = x.Rem(B, b)
				}
				return
			}
			// decimal digit
			if want == 2 && c == i64(10) {
				if a.op == OQuo && a.args[1].op == OConst {
					for i := 1; i < 19; i++ {
						if pow10tab[i] == a.args[1].k {
							return nil, x.Digit(a.args[0], i)
						}
					}
				}
				return nil, x.Digit(a, 0)
			}
		}
	}
	if want&1 != 0 {
		q = x.mk(&Term{op: OQuo, args: []*Term{a, b}})
	}
	if want&2 != 0 {
		r = x.mk(&Term{op: ORem, args: []*Term{a, b}})
	}
	return
}

func (x *Ctx) Digit(a *Term, i int) *Term {
	if a.op == OConst {
		return x.K(a.k.quo(pow10tab[i]).rem(i64(10)))
	}
	lo, hi := x.ival(a)
	if hi.lt(pow10tab[i]) {
		return x.I(0)
	}
	if i == 0 && hi.lt(i64(10)) && lo.sign() >= 0 {
		return a
	}
	return x.mk(&Term{op: ODigit, args: []*Term{a}, k: i64(int64(i))})
}

// decDigits returns n decimal digit characters of the non-negative term t (most
// significant first); the caller guarantees t < 10^n.
func (x *Ctx) decDigits(t *Term, n int) []*Term {
	t = x.simp(t)
	out := make([]*Term, n)
	if t.op == OConst {
		s := t.k.String()
		for len(s) < n {
			s = "0" + s
		}
		s = s[len(s)-n:]
		for i := range out {
			out[i] = x.I(int64(s[i]))
		}
		return out
	}
	if t.op == OIte && (t.args[1].op == OConst || t.args[2].op == OConst || t.args[1].op == OIte || t.args[2].op == OIte) {
		a, b := x.decDigits(t.args[1], n), x.decDigits(t.args[2], n)
		for i := range out {
			out[i] = x.Ite(t.args[0], a[i], b[i])
		}
		return out
	}
	if d, ok := x.matchDigits(t, n); ok {
		return d
	}
	for i := range out {
		out[i] = x.Add(x.Digit(t, n-1-i), x.I('0'))
	}
	return out
}

func (x *Ctx) matchDigits(t *Term, n int) ([]*Term, bool) {
	var atoms []*Term
	var coef []I128
	var k I128
	if t.op == OLin {
		atoms, coef, k = t.args, t.coef, t.k
	} else {
		atoms, coef = []*Term{t}, []I128{i64(1)}
	}
	out := make([]*Term, n)
	for i, a := range atoms {
		p := -1
		for j := 0; j < n && j < 38; j++ {
			if pow10tab[j] == coef[i] {
				p = j
			}
		}
		if p < 0 || out[n-1-p] != nil {
			return nil, false
		}
		lo, hi := x.ival(a)
		switch {
		case i64('0').le(lo) && hi.le(i64('9')):
			out[n-1-p] = a
			m, _ := pow10tab[p].mul(i64('0'))
			k = k.add(m)
		case lo.sign() >= 0 && hi.lt(i64(10)):
			out[n-1-p] = x.Add(a, x.I('0'))
		default:
			return nil, false
		}
	}
	if k.sign() < 0 {
		return nil, false
	}
	for p := 0; p < n; p++ {
		d := k.quo(pow10tab[p]).rem(i64(10))
		if out[n-1-p] != nil {
			if d.sign() != 0 {
				return nil, false
			}
			continue
		}
		out[n-1-p] = x.K(d.add(i64('0')))
	}
	if n < 38 && k.quo(pow10tab[n]).sign() != 0 {
		return nil, false
	}
	return out, true
}

func (x *Ctx) Wrap(t *Term, nbits int, signed bool) *Term {
	t = x.simp(t)
	if t.op == OConst {
		return x.K(t.k.wrapTo(nbits, signed))
	}
	lo, hi := x.ival(t)
	tl, th := typeRange(nbits, signed)
	if tl.le(lo) && hi.le(th) {
		return t
	}
	if t.op == OIte {
		return x.Ite(t.args[0], x.Wrap(t.args[1], nbits, signed), x.Wrap(t.args[2], nbits, signed))
	}
	if t.op == OWrap && int(t.nbits) >= nbits {
		return x.Wrap(t.args[0], nbits, signed)
	}
	// a constant shift by a multiple of 2^nbits may be enough
	m := i64(1)
	for i := 0; i < nbits; i++ {
		m = m.add(m)
	}
	d := lo.sub(tl)
	q := d.quo(m)
	if d.sign() < 0 && d.rem(m).sign() != 0 {
		q = q.sub(i64(1))
	}
	if s, ok := q.mul(m); ok && s.sign() != 0 {
		if hi.sub(s).le(th) {
			return x.Sub(t, x.K(s))
		}
	}
	return x.mk(&Term{op: OWrap, args: []*Term{t}, nbits: uint8(nbits), signed: signed})
}

func (x *Ctx) Bit(k BitKind, a, b *Term, nbits int, signed bool) *Term {
	a, b = x.simp(a), x.simp(b)
	if a.op == OConst && b.op == OConst {
		return x.K(bitOp(k, a.k, b.k, nbits, signed))
	}
	// push through ite of constants
	if a.op == OIte && b.op == OConst && (a.args[1].op == OConst || a.args[2].op == OConst) {
		return x.Ite(a.args[0], x.Bit(k, a.args[1], b, nbits, signed), x.Bit(k, a.args[2], b, nbits, signed))
	}
	if b.op == OIte && a.op == OConst && (b.args[1].op == OConst || b.args[2].op == OConst) {
		return x.Ite(b.args[0], x.Bit(k, a, b.args[1], nbits, signed), x.Bit(k, a, b.args[2], nbits, signed))
	}
	al, ah := x.ival(a)
	switch k {
	case bitShl:
		if b.op == OConst {
			if b.k.lo >= uint64(nbits) {
				return x.I(0)
			}
			return x.Wrap(x.MulK(a, u64(1<<b.k.lo)), nbits, signed)
		}
	case bitShr:
		if b.op == OConst {
			if al.sign() >= 0 {
				if b.k.lo >= 63 {
					if ah.isI64() {
						return x.I(0)
					}
				} else {
					return x.Quo(a, x.K(u64(1<<b.k.lo)))
				}
			}
		}
	case bitAnd:
		if a.op == OConst {
			a, b = b, a
			al, ah = x.ival(a)
		}
		if b.op == OConst {
			if b.k.sign() == 0 {
				return x.I(0)
			}
			// low mask
			if b.k.sign() > 0 && b.k.add(i64(1)).bitlen() == b.k.bitlen()+1 {
				n := b.k.bitlen()
				if al.sign() >= 0 {
					if ah.le(b.k) {
						return a
					}
					return x.Rem(a, x.K(b.k.add(i64(1))))
				}
				return x.Wrap(a, n, false)
			}
		}
	case bitOr, bitXor:
		if a.op == OConst && a.k.sign() == 0 {
			return b
		}
		if b.op == OConst && b.k.sign() == 0 {
			return a
		}
		if a == b {
			if k == bitOr {
				return a
			}
			return x.I(0)
		}
	case bitAndNot:
		if b.op == OConst && b.k.sign() == 0 {
			return a
		}
	}
	if (k == bitAnd || k == bitOr || k == bitXor) && a.id > b.id {
		a, b = b, a
	}
	return x.mk(&Term{op: OBit, bk: k, args: []*Term{a, b}, nbits: uint8(nbits), signed: signed})
}

func (x *Ctx) Ite(c, a, b *Term) *Term {
	if a.isBool() {
		return x.Or(x.And(c, a), x.And(x.Not(c), b))
	}
	switch x.decide(c) {
	case 1:
		return a
	case 0:
		return b
	}
	if a == b {
		return a
	}
	if c.op == BNot {
		return x.Ite(c.args[0], b, a)
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if b.op == OIte && b.args[1] == a {
		return x.Ite(x.Or(c, b.args[0]), a, b.args[2])
	}
	if a.op == OSecs && b.op == OSecs {
		var f [4]*Term
		for i := range f {
			f[i] = x.Ite(c, a.args[i], b.args[i])
		}
		return x.Secs(f[0], f[1], f[2], f[3])
	}
	return x.mk(&Term{op: OIte, args: []*Term{c, a, b}})
}

func (x *Ctx) Secs(y, m, d, sod *Term) *Term {
	if y.op == OConst && m.op == OConst && d.op == OConst && sod.op == OConst {
		return x.K(secsOf(y.k, m.k, d.k, sod.k))
	}
	return x.mk(&Term{op: OSecs, args: []*Term{y, m, d, sod}})
}

// simp re-simplifies t under what the path has learnt since it was built.
func (x *Ctx) simp(t *Term) *Term {
	switch t.op {
	case OConst, BConst, BVar:
		return t
	case OVar:
		lo, hi := x.ival(t)
		if lo == hi {
			return x.K(lo)
		}
		return t
	}
	if t.smEp == x.epoch {
		return t.smVal
	}
	r := t
	switch t.op {
	case OLin:
		ch := false
		for _, a := range t.args {
			if x.simp(a) != a {
				ch = true
				break
			}
		}
		if ch {
			l := linB{x: x, k: t.k}
			for i, a := range t.args {
				l.addTerm(x.simp(a), t.coef[i])
			}
			r = l.build()
		}
	case OWrap:
		lo, hi := x.ival(t.args[0])
		tl, th := typeRange(int(t.nbits), t.signed)
		if tl.le(lo) && hi.le(th) {
			r = x.simp(t.args[0])
		}
	case OIte:
		switch x.decide(t.args[0]) {
		case 1:
			r = x.simp(t.args[1])
		case 0:
			r = x.simp(t.args[2])
		}
	default:
		if !t.isBool() {
			if lo, hi := x.ival(t); lo == hi {
				r = x.K(lo)
			}
		}
	}
	t.smEp, t.smVal = x.epoch, r
	if r != t && r.op != OConst {
		r.smEp, r.smVal = x.epoch, r
	}
	return r
}

// ---------- booleans ----------

func (x *Ctx) In(v *Term, s Set256) *Term {
	if v.op == OConst {
		return x.B(v.k.hi == 0 && v.k.lo < 256 && s.has(byte(v.k.lo)))
	}
	if v.op == OVar && v.isByte {
		d := s.and(v.set)
		if d.empty() {
			return x.False
		}
		if d == v.set {
			return x.True
		}
		return x.mk(&Term{op: BIn, args: []*Term{v}, set: s.and(v.dom0)})
	}
	if v.op == OIte {
		return x.Or(x.And(v.args[0], x.In(v.args[1], s)), x.And(x.Not(v.args[0]), x.In(v.args[2], s)))
	}
	v = x.simp(v)
	if v.op == OConst || v.op == OVar {
		return x.In(v, s)
	}
	// generic: ranges
	lo, hi := x.ival(v)
	var alts []*Term
	for i := 0; i < 256; {
		if !s.has(byte(i)) {
			i++
			continue
		}
		j := i
		for j+1 < 256 && s.has(byte(j+1)) {
			j++
		}
		if !(hi.lt(i64(int64(i))) || i64(int64(j)).lt(lo)) {
			alts = append(alts, x.And(x.Le(x.I(int64(i)), v), x.Le(v, x.I(int64(j)))))
		}
		i = j + 1
	}
	return x.Or(alts...)
}

// collapse turns a boolean over a single byte variable into a set membership.
func (x *Ctx) collapse(t *Term) *Term {
	if t.nsup != 1 || t.op == BIn || t.op == BConst {
		return t
	}
	v := t.sup
	var s Set256
	for i := 0; i < 256; i++ {
		if v.set.has(byte(i)) {
			if x.evalAt(t, byte(i), map[*Term]I128{}).lo != 0 {
				s.add(byte(i))
			}
		}
	}
	return x.In(v, s)
}

func (x *Ctx) Not(a *Term) *Term {
	switch a.op {
	case BConst:
		return x.B(!a.cb())
	case BNot:
		return a.args[0]
	case BIn:
		return x.In(a.args[0], a.set.not())
	}
	return x.mk(&Term{op: BNot, args: []*Term{a}})
}

func (x *Ctx) And(as ...*Term) *Term { return x.nary(BAnd, as) }
func (x *Ctx) Or(as ...*Term) *Term  { return x.nary(BOr, as) }

func (x *Ctx) nary(op Op, as []*Term) *Term {
	unit, zero := int8(1), int8(0)
	if op == BOr {
		unit, zero = 0, 1
	}
	var out []*Term
	ins := map[*Term]int{} // byte var -> index in out of its BIn
	seen := map[*Term]bool{}
	res := (*Term)(nil)
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.op == op {
			for _, b := range a.args {
				if !add(b) {
					return false
				}
			}
			return true
		}
		switch x.decide(a) {
		case unit:
			return true
		case zero:
			res = x.B(op == BOr)
			return false
		}
		if a.op == BIn {
			v := a.args[0]
			if i, ok := ins[v]; ok {
				var s Set256
				if op == BAnd {
					s = out[i].set.and(a.set)
				} else {
					s = out[i].set.or(a.set)
				}
				n := x.In(v, s)
				if n.op == BConst {
					if n.cb() == (op == BOr) {
						res = n
						return false
					}
					// neutral: cannot happen for strict subsets, but be safe
					out[i] = n
					return true
				}
				out[i] = n
				return true
			}
			ins[v] = len(out)
			out = append(out, a)
			return true
		}
		if seen[a] {
			return true
		}
		if a.op == BNot && seen[a.args[0]] {
			res = x.B(op == BOr)
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return res
		}
	}
	for _, a := range out {
		if a.op != BNot && a.op != BIn && len(out) > 1 {
			// complementary pair
			for _, b := range out {
				if b.op == BNot && b.args[0] == a {
					return x.B(op == BOr)
				}
			}
		}
	}
	j := 0
	for _, a := range out {
		if a.op != BConst {
			out[j] = a
			j++
		}
	}
	out = out[:j]
	switch len(out) {
	case 0:
		return x.B(op == BAnd)
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return x.mk(&Term{op: op, args: out})
}

func gcdI(a, b I128) I128 {
	a, b = a.abs(), b.abs()
	for b.sign() != 0 {
		a, b = b, a.rem(b)
	}
	return a
}

// Eq0: t == 0
func (x *Ctx) Eq0(t *Term) *Term {
	t = x.simp(t)
	if t.op == OConst {
		return x.B(t.k.sign() == 0)
	}
	lo, hi := x.ival(t)
	if lo.sign() > 0 || hi.sign() < 0 {
		return x.False
	}
	if t.nsup == 1 {
		return x.collapse(x.mk(&Term{op: BEq0, args: []*Term{t}}))
	}
	if t.op == OIte {
		return x.Or(x.And(t.args[0], x.Eq0(t.args[1])), x.And(x.Not(t.args[0]), x.Eq0(t.args[2])))
	}
	if t.op == ORem && t.args[1].op == OConst {
		return x.Div(t.args[0], t.args[1].k.abs())
	}
	if t.op == OLin {
		g := I128{}
		for _, c := range t.coef {
			g = gcdI(g, c)
		}
		if t.k.rem(g).sign() != 0 {
			return x.False
		}
		if g != i64(1) || t.coef[0].sign() < 0 {
			if t.coef[0].sign() < 0 {
				g = g.neg()
			}
			return x.Eq0(x.divExact(t, g))
		}
		if n := x.linSecs(t); n != nil {
			return x.Eq0(n)
		}
		// OSecs - OSecs
		if len(t.args) == 2 && t.k.sign() == 0 && t.args[0].op == OSecs && t.args[1].op == OSecs && t.coef[0].add(t.coef[1]).sign() == 0 {
			a, b := t.args[0], t.args[1]
			var cs []*Term
			for i := 0; i < 4; i++ {
				cs = append(cs, x.Eq(a.args[i], b.args[i]))
			}
			return x.And(cs...)
		}
		// one OSecs against a constant
		if len(t.args) == 1 && t.args[0].op == OSecs {
			s := t.k.quo(t.coef[0]).neg()
			if s.isI64() {
				v := s.i64()
				dd, sod := floorDiv(v, 86400)
				y, m, d := civilDays(dd)
				a := t.args[0]
				return x.And(x.Eq(a.args[0], x.I(y)), x.Eq(a.args[1], x.I(m)), x.Eq(a.args[2], x.I(d)), x.Eq(a.args[3], x.I(sod)))
			}
		}
		// an ite atom with constant arms: distribute
		if len(t.args) <= 3 {
			for i, a := range t.args {
				if a.op == OIte && (a.args[1].op == OConst || a.args[2].op == OConst) {
					l := linB{x: x}
					l.addTerm(t, i64(1))
					l.addTerm(a, t.coef[i].neg())
					rest := l.build()
					return x.Or(x.And(a.args[0], x.Eq0(x.Add(rest, x.MulK(a.args[1], t.coef[i])))),
						x.And(x.Not(a.args[0]), x.Eq0(x.Add(rest, x.MulK(a.args[2], t.coef[i])))))
				}
			}
		}
		// positional split
		if len(t.args) > 1 {
			if A, B, st := x.posSplit(t); st == 1 {
				return x.And(x.Eq0(A), x.Eq0(B))
			} else if st == 2 {
				return x.False
			}
		}
		if len(t.args) == 2 && t.k.sign() == 0 {
			// a == b of two atoms already unit coefficients
		}
	}
	return x.mk(&Term{op: BEq0, args: []*Term{t}})
}

func floorDiv(a, b int64) (q, r int64) {
	q, r = a/b, a%b
	if r < 0 {
		q--
		r += b
	}
	return
}

// posSplit finds g such that t = A + B, g | A and |B| < g, so t=0 iff A=0 and B=0.
func (x *Ctx) posSplit(t *Term) (*Term, *Term, int) {
	tried := map[I128]bool{}
	for _, cg := range t.coef {
		g := cg.abs()
		if g == i64(1) || tried[g] {
			continue
		}
		tried[g] = true
		la, lb := linB{x: x}, linB{x: x}
		na, nb := 0, 0
		for i, a := range t.args {
			if t.coef[i].rem(g).sign() == 0 {
				la.addTerm(a, t.coef[i])
				na++
			} else {
				lb.addTerm(a, t.coef[i])
				nb++
			}
		}
		if na == 0 || nb == 0 {
			continue
		}
		B0 := lb.build()
		lo, hi := x.ival(B0)
		// B = B0 + kb with kb = k - g*q; t=0 requires B0 ≡ -k mod g.
		// values of B0 with B0 + k ≡ 0 (mod g) inside [lo,hi]:
		// v = -k + g*j
		d := lo.add(t.k)
		j0 := d.quo(g)
		if d.sign() > 0 && d.rem(g).sign() != 0 {
			j0 = j0.add(i64(1))
		}
		p, _ := j0.mul(g)
		v := p.sub(t.k)
		if hi.lt(v) {
			return nil, nil, 2
		}
		if v.add(g).le(hi) {
			continue
		}
		// unique: B0 == v, A + v + k == 0
		A := x.Add(la.build(), x.K(v.add(t.k)))
		B := x.Sub(B0, x.K(v))
		return A, B, 1
	}
	return nil, nil, 0
}

// Div: c divides t
func (x *Ctx) Div(t *Term, c I128) *Term {
	t = x.simp(t)
	if t.op == OConst {
		return x.B(t.k.rem(c).sign() == 0)
	}
	if t.nsup == 1 {
		return x.collapse(x.mk(&Term{op: BDiv, args: []*Term{t}, k: c}))
	}
	l := linB{x: x}
	mod := func(v I128) I128 {
		r := v.rem(c)
		if r.sign() < 0 {
			r = r.add(c)
		}
		return r
	}
	if t.op == OLin {
		for i, a := range t.args {
			l.addTerm(a, mod(t.coef[i]))
		}
		l.k = mod(t.k)
	} else {
		l.addTerm(t, mod(i64(1)))
	}
	n := l.build()
	if n.op == OConst {
		return x.B(n.k.rem(c).sign() == 0)
	}
	// canonical sign: of t and -t the one whose coefficients come first
	if n.op == OLin {
		turn := false
		vals := append(append([]I128{}, n.coef...), n.k)
		for _, v := range vals {
			if w := mod(v.neg()); w != v {
				turn = w.lt(v)
				break
			}
		}
		if turn {
			l2 := linB{x: x}
			for i, a := range n.args {
				l2.addTerm(a, mod(n.coef[i].neg()))
			}
			l2.k = mod(n.k.neg())
			n = l2.build()
		}
	}
	if n.nsup == 1 {
		return x.collapse(x.mk(&Term{op: BDiv, args: []*Term{n}, k: c}))
	}
	lo, hi := x.ival(n)
	if lo.sign() > 0 && hi.lt(c) {
		return x.False
	}
	return x.mk(&Term{op: BDiv, args: []*Term{n}, k: c})
}

func (x *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return x.True
	}
	if a.isBool() {
		return x.Or(x.And(a, b), x.And(x.Not(a), x.Not(b)))
	}
	if a.op == OVar && a.isByte && b.op == OConst {
		if b.k.hi != 0 || b.k.lo > 255 {
			return x.False
		}
		var s Set256
		s.add(byte(b.k.lo))
		return x.In(a, s)
	}
	if b.op == OVar && b.isByte && a.op == OConst {
		return x.Eq(b, a)
	}
	return x.Eq0(x.Sub(a, b))
}
func (x *Ctx) Ne(a, b *Term) *Term { return x.Not(x.Eq(a, b)) }

func (x *Ctx) Le0(t *Term) *Term {
	t = x.simp(t)
	if t.op == OConst {
		return x.B(t.k.sign() <= 0)
	}
	lo, hi := x.ival(t)
	if hi.sign() <= 0 {
		return x.True
	}
	if lo.sign() > 0 {
		return x.False
	}
	if t.nsup == 1 {
		return x.collapse(x.mk(&Term{op: BLe0, args: []*Term{t}}))
	}
	if t.op == OIte {
		return x.Or(x.And(t.args[0], x.Le0(t.args[1])), x.And(x.Not(t.args[0]), x.Le0(t.args[2])))
	}
	if t.op == OLin {
		if n := x.linSecs(t); n != nil {
			return x.Le0(n)
		}
		if r := x.secsShifted(t); r != nil {
			return r
		}
		if len(t.args) == 2 && t.args[0].op == OSecs && t.args[1].op == OSecs && t.coef[0].add(t.coef[1]).sign() == 0 {
			// c*(A-B)+k <= 0
			A, B, c := t.args[0], t.args[1], t.coef[0]
			if c.sign() < 0 {
				A, B, c = B, A, c.neg()
			}
			if t.k.sign() == 0 {
				return x.lexLe(A, B, false)
			}
			if c == i64(1) && t.k == i64(1) {
				return x.lexLe(A, B, true)
			}
		}
		if len(t.args) == 1 && t.args[0].op == OSecs {
			a := t.args[0]
			// c*S + k <= 0
			c := t.coef[0]
			mk := func(v int64) *Term {
				dd, sod := floorDiv(v, 86400)
				y, m, d := civilDays(dd)
				return &Term{op: OSecs, args: []*Term{x.I(y), x.I(m), x.I(d), x.I(sod)}}
			}
			if c == i64(1) && t.k.isI64() { // S <= -k
				return x.lexLe(a, mk(t.k.neg().i64()), false)
			}
			if c == i64(-1) && t.k.isI64() { // k <= S
				return x.lexLe(mk(t.k.i64()), a, false)
			}
		}
		if len(t.args) <= 2 {
			for i, a := range t.args {
				if a.op == OIte && a.args[1].op == OConst && a.args[2].op == OConst {
					l := linB{x: x}
					l.addTerm(t, i64(1))
					l.addTerm(a, t.coef[i].neg())
					rest := l.build()
					return x.Or(x.And(a.args[0], x.Le0(x.Add(rest, x.MulK(a.args[1], t.coef[i])))),
						x.And(x.Not(a.args[0]), x.Le0(x.Add(rest, x.MulK(a.args[2], t.coef[i])))))
				}
			}
		}
		if len(t.args) >= 4 {
			if r := x.lexSplit(t); r != nil {
				return r
			}
			if r := x.lexSplit(x.Add(x.Neg(t), x.I(1))); r != nil {
				return x.Not(r)
			}
		}
		// canonical form of negations: -t+1 <= 0 is not(t <= 0)
		if t.coef[0].sign() < 0 {
			n := x.Add(x.Neg(t), x.I(1)) // t>=1 ... not(t<=0) == (-t+1 <= 0); t<=0 == not(-t+1<=0)
			return x.Not(x.Le0(n))
		}
	}
	return x.mk(&Term{op: BLe0, args: []*Term{t}})
}

func must(r I128, ok bool) I128 {
	if !ok {
		unsupported("coefficient too wide")
	}
	return r
}

// linSecs rewrites the instants in t that are linear in the day and the second of
// the day: those of a fixed month, and differences of two of the same month.
func (x *Ctx) linSecs(t *Term) *Term {
	l := linB{x: x, k: t.k}
	done := make([]bool, len(t.args))
	any := false
	add := func(a *Term, c I128) {
		l.addTerm(a.args[2], must(c.mul(i64(86400))))
		l.addTerm(a.args[3], c)
	}
	for i, a := range t.args {
		if a.op != OSecs || done[i] {
			continue
		}
		if a.args[0].op == OConst && a.args[1].op == OConst {
			l.addTerm(x.K(secsOf(a.args[0].k, a.args[1].k, i64(1), I128{}).sub(i64(86400))), t.coef[i])
			add(a, t.coef[i])
			done[i], any = true, true
			continue
		}
		for j := i + 1; j < len(t.args); j++ {
			b := t.args[j]
			if b.op == OSecs && !done[j] && a.args[0] == b.args[0] && a.args[1] == b.args[1] && t.coef[i].add(t.coef[j]).sign() == 0 {
				add(a, t.coef[i])
				add(b, t.coef[j])
				done[i], done[j], any = true, true, true
				break
			}
		}
	}
	if !any {
		return nil
	}
	for i, a := range t.args {
		if !done[i] {
			if a.op == OSecs {
				return nil // field by field is quicker
			}
			l.addTerm(a, t.coef[i])
		}
	}
	return l.build()
}

// secsShifted compares two instants that are some symbolic seconds apart: the
// seconds are carried into the fields of the first.
func (x *Ctx) secsShifted(t *Term) *Term {
	if x.shiftSecs == nil || len(t.args) < 3 {
		return nil
	}
	var A, B *Term
	for i, a := range t.args {
		if a.op != OSecs {
			continue
		}
		switch {
		case t.coef[i] == i64(1) && A == nil:
			A = a
		case t.coef[i] == i64(-1) && B == nil:
			B = a
		default:
			return nil
		}
	}
	if A == nil || B == nil {
		return nil
	}
	d := x.Sub(x.Sub(t, A), x.Neg(B))
	lo, hi := x.ival(d)
	if !lo.abs().lt(i64(86400*20)) || !hi.abs().lt(i64(86400*20)) {
		return nil
	}
	return x.lexLe(x.shiftSecs(A, d), B, false)
}

// lexSplit compares two numbers written with digits digit by digit: with
// t = A + B, g dividing A and |B| < g, t <= 0 iff A < 0 or A = 0 and B <= 0.
func (x *Ctx) lexSplit(t *Term) *Term {
	if t.op != OLin {
		return nil
	}
	g := I128{}
	for _, c := range t.coef {
		if g.lt(c.abs()) {
			g = c.abs()
		}
	}
	la, lb := linB{x: x}, linB{x: x}
	na, nb := 0, 0
	for i, a := range t.args {
		if !a.isByte {
			return nil
		}
		if t.coef[i].rem(g).sign() == 0 {
			la.addTerm(a, t.coef[i])
			na++
		} else {
			lb.addTerm(a, t.coef[i])
			nb++
		}
	}
	if na < 2 || nb == 0 {
		return nil
	}
	B0 := lb.build()
	lo, hi := x.ival(B0)
	lo, hi = lo.add(t.k), hi.add(t.k)
	q := lo.quo(g)
	if lo.sign() < 0 && lo.rem(g).sign() != 0 {
		q = q.sub(i64(1))
	}
	for j := 0; j < 2; j++ {
		gq, _ := q.mul(g)
		if g.neg().lt(lo.sub(gq)) && hi.sub(gq).lt(g) {
			A := x.Add(la.build(), x.K(gq))
			B := x.Add(B0, x.K(t.k.sub(gq)))
			return x.Or(x.Lt(A, x.I(0)), x.And(x.Eq0(A), x.Le0(B)))
		}
		q = q.add(i64(1))
	}
	return nil
}

func (x *Ctx) lexLe(a, b *Term, strict bool) *Term {
	r := x.B(!strict)
	for i := 3; i >= 0; i-- {
		p, q := a.args[i], b.args[i]
		r = x.Or(x.Lt(p, q), x.And(x.Eq(p, q), r))
	}
	return r
}

func (x *Ctx) Le(a, b *Term) *Term { return x.Le0(x.Sub(a, b)) }
func (x *Ctx) Lt(a, b *Term) *Term { return x.Le0(x.Add(x.Sub(a, b), x.I(1))) }

// decide returns 1, 0 or -1 (unknown) for b under the path's facts.
func (x *Ctx) decide(b *Term) int8 {
	if b.op == BConst {
		if b.cb() {
			return 1
		}
		return 0
	}
	if b.dcEp == x.epoch {
		return b.dcVal
	}
	r := int8(-1)
	if f, ok := x.facts[b.id]; ok {
		if f {
			r = 1
		} else {
			r = 0
		}
	} else {
		switch b.op {
		case BNot:
			if d := x.decide(b.args[0]); d >= 0 {
				r = 1 - d
			}
		case BAnd:
			r = 1
			for _, a := range b.args {
				d := x.decide(a)
				if d == 0 {
					r = 0
					break
				}
				if d < 0 {
					r = -1
				}
			}
		case BOr:
			r = 0
			for _, a := range b.args {
				d := x.decide(a)
				if d == 1 {
					r = 1
					break
				}
				if d < 0 {
					r = -1
				}
			}
		case BIn:
			v := b.args[0]
			d := v.set.and(b.set)
			if d.empty() {
				r = 0
			} else if d == v.set {
				r = 1
			}
		case BEq0:
			lo, hi := x.ival(b.args[0])
			if lo.sign() > 0 || hi.sign() < 0 {
				r = 0
			} else if lo.sign() == 0 && hi.sign() == 0 {
				r = 1
			}
		case BLe0:
			lo, hi := x.ival(b.args[0])
			if hi.sign() <= 0 {
				r = 1
			} else if lo.sign() > 0 {
				r = 0
			}
		}
	}
	b.dcEp, b.dcVal = x.epoch, r
	return r
}

// Assume records b as a fact of the path and draws cheap consequences.
func (x *Ctx) Assume(b *Term) { x.assume(b, true); x.epoch++ }

func (x *Ctx) assume(b *Term, val bool) {
	if b.op == BConst {
		if b.cb() != val {
			x.contra = true
		}
		return
	}
	if f, ok := x.facts[b.id]; ok && f == val {
		return
	}
	x.facts[b.id] = val
	x.epoch++
	switch b.op {
	case BNot:
		x.assume(b.args[0], !val)
	case BAnd:
		if val {
			for _, a := range b.args {
				x.assume(a, true)
			}
		} else {
			x.unit(b, 1, false)
		}
	case BOr:
		if !val {
			for _, a := range b.args {
				x.assume(a, false)
			}
		} else {
			x.unit(b, 0, true)
			x.project(b)
		}
	case BIn:
		v := b.args[0]
		s := b.set
		if !val {
			s = s.not()
		}
		x.narrow(v, s)
	case BEq0:
		if val {
			x.bound(b.args[0], I128{}, I128{})
		}
	case BLe0:
		t := b.args[0]
		lo, hi := x.ival(t)
		if val {
			x.bound(t, lo, minI(hi, I128{}))
		} else {
			x.bound(t, maxI(lo, i64(1)), hi)
		}
	}
}

// unit propagation: all children but one have the given decided value.
func (x *Ctx) unit(b *Term, neutral int8, val bool) {
	var left *Term
	for _, a := range b.args {
		d := x.decide(a)
		if d == neutral {
			continue
		}
		if d >= 0 || left != nil {
			return
		}
		left = a
	}
	if left != nil {
		x.assume(left, val)
	}
}

func (x *Ctx) narrow(v *Term, s Set256) {
	n := v.set.and(s)
	if n == v.set {
		return
	}
	if n.empty() {
		x.contra = true
		return
	}
	v.set = n
	x.epoch++
}

// bound: t is known to lie in [lo,hi]; push to its atoms.
func (x *Ctx) bound(t *Term, lo, hi I128) {
	if t.isConst() {
		return
	}
	if t.op == OVar && t.isByte {
		var s Set256
		for i := 0; i < 256; i++ {
			v := i64(int64(i))
			if lo.le(v) && v.le(hi) {
				s.add(byte(i))
			}
		}
		x.narrow(t, s)
		return
	}
	if t.op == OVar {
		nl, nh := maxI(t.lo, lo), minI(t.hi, hi)
		if nh.lt(nl) {
			x.contra = true
			return
		}
		if nl != t.lo || nh != t.hi {
			t.lo, t.hi = nl, nh
			x.epoch++
		}
		return
	}
	if t.op == OLin {
		b, neg := x.linBase(t)
		l0, h0 := lo.sub(t.k), hi.sub(t.k)
		if neg {
			l0, h0 = h0.neg(), l0.neg()
		}
		if o, ok := x.nar[b.id]; ok {
			l0, h0 = maxI(l0, o[0]), minI(h0, o[1])
			if h0.lt(l0) {
				x.contra = true
				return
			}
			if l0 != o[0] || h0 != o[1] {
				x.nar[b.id] = [2]I128{l0, h0}
				x.epoch++
			}
		} else {
			x.nar[b.id] = [2]I128{l0, h0}
			x.epoch++
		}
		for i, a := range t.args {
			c := t.coef[i]
			// rest interval
			rl, rh := t.k, t.k
			for j, o := range t.args {
				if j == i {
					continue
				}
				ol, oh := x.ival(o)
				pl, _ := t.coef[j].mul(ol)
				ph, _ := t.coef[j].mul(oh)
				if ph.lt(pl) {
					pl, ph = ph, pl
				}
				rl, rh = rl.add(pl), rh.add(ph)
			}
			// c*a in [lo-rh, hi-rl]
			l, h := lo.sub(rh), hi.sub(rl)
			if c.sign() < 0 {
				l, h, c = h.neg(), l.neg(), c.neg()
			}
			// ceil(l/c), floor(h/c)
			ql := l.quo(c)
			if l.sign() > 0 && l.rem(c).sign() != 0 {
				ql = ql.add(i64(1))
			}
			qh := h.quo(c)
			if h.sign() < 0 && h.rem(c).sign() != 0 {
				qh = qh.sub(i64(1))
			}
			al, ah := x.ival(a)
			if al.lt(ql) || qh.lt(ah) {
				x.bound(a, maxI(al, ql), minI(ah, qh))
			}
		}
		return
	}
	ol, oh := x.ival(t)
	nl, nh := maxI(ol, lo), minI(oh, hi)
	if nh.lt(nl) {
		x.contra = true
		return
	}
	if nl != ol || nh != oh {
		x.nar[t.id] = [2]I128{nl, nh}
		x.epoch++
	}
}

// project narrows byte domains by the union over a disjunction's branches.
// boundTo records an interval known to hold for t.
func (x *Ctx) boundTo(t *Term, lo, hi int64) *Term {
	if !t.isConst() {
		x.bound(t, i64(lo), i64(hi))
	}
	return t
}

func (x *Ctx) project(b *Term) {
	memo := map[*Term]map[*Term]Set256{}
	budget := 3000
	m := x.proj(b, memo, &budget)
	if budget <= 0 {
		return
	}
	for v, s := range m {
		x.narrow(v, s)
	}
}

func (x *Ctx) proj(b *Term, memo map[*Term]map[*Term]Set256, budget *int) map[*Term]Set256 {
	if m, ok := memo[b]; ok {
		return m
	}
	*budget--
	var r map[*Term]Set256
	if *budget <= 0 {
		return nil
	}
	switch b.op {
	case BIn:
		r = map[*Term]Set256{b.args[0]: b.set}
	case BAnd:
		r = map[*Term]Set256{}
		for _, a := range b.args {
			for v, s := range x.proj(a, memo, budget) {
				if o, ok := r[v]; ok {
					s = s.and(o)
				}
				r[v] = s
			}
		}
	case BOr:
		first := true
		for _, a := range b.args {
			if x.decide(a) == 0 {
				continue
			}
			m := x.proj(a, memo, budget)
			dead := false
			for v, s := range m {
				if s.and(v.set).empty() {
					dead = true
				}
			}
			if dead {
				continue
			}
			if first {
				r = map[*Term]Set256{}
				for v, s := range m {
					r[v] = s
				}
				first = false
				continue
			}
			for v, s := range r {
				if o, ok := m[v]; ok {
					r[v] = s.or(o)
				} else {
					delete(r, v)
				}
			}
			if len(r) == 0 {
				break
			}
		}
	}
	memo[b] = r
	return r
}

func (t *Term) String() string { return t.str(4) }

func (t *Term) str(d int) string {
	if d == 0 {
		return fmt.Sprintf("#%d", t.id)
	}
	var as []string
	for i, a := range t.args {
		s := a.str(d - 1)
		if t.coef != nil {
			s = t.coef[i].String() + "*" + s
		}
		as = append(as, s)
	}
	switch t.op {
	case OConst:
		return t.k.String()
	case BConst:
		return fmt.Sprint(t.cb())
	case OVar, BVar:
		return t.name
	}
	names := []string{"const", "var", "lin", "mul", "quo", "rem", "wrap", "bit", "digit", "ite", "secs", "b", "bvar", "not", "and", "or", "eq0", "le0", "in", "div"}
	return fmt.Sprintf("%s(%s|%s)", names[t.op], strings.Join(as, ","), t.k)
}

// rawNot and rawAnd build conditions without simplifying them.
func (x *Ctx) rawNot(a *Term) *Term { return x.mk(&Term{op: BNot, args: []*Term{a}}) }
func (x *Ctx) rawAnd(as []*Term) *Term {
	if len(as) == 1 {
		return as[0]
	}
	return x.mk(&Term{op: BAnd, args: as})
}
