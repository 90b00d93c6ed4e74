package main

import "sync"

// Queries are answered from a cache where possible. Only the part of the path
// condition that shares variables with the question, directly or through other
// conditions, matters: the witness of the path satisfies the rest. That part and
// the question, as structures, are the key.

type varBits [6]uint64

const maxVars = 6 * 64

func (a *varBits) or(b *varBits) {
	for i := range a {
		a[i] |= b[i]
	}
}

func (a *varBits) meets(b *varBits) bool {
	for i := range a {
		if a[i]&b[i] != 0 {
			return true
		}
	}
	return false
}

type termKey [2]uint64

func mix(h, v uint64) uint64 {
	h ^= v
	h *= 0x9E3779B97F4A7C15
	h ^= h >> 29
	h *= 0xBF58476D1CE4E5B9
	h ^= h >> 32
	return h
}

type keyed struct {
	k    termKey
	bits varBits
	over bool // too many variables
	t    *Term
}

// keyOf is a structural hash of t and the variables it depends on.
func (in *Interp) keyOf(t *Term) *keyed {
	if k, ok := in.keys[t]; ok {
		return k
	}
	r := &keyed{t: t}
	a, b := uint64(0x1234567)+uint64(t.op), uint64(0x7654321)+uint64(t.op)*31
	put := func(v uint64) {
		a = mix(a, v)
		b = mix(b, v^0xA5A5A5A5DEADBEEF) + a>>7
	}
	put(uint64(t.bk)<<16 | uint64(t.nbits)<<1)
	if t.signed {
		put(1)
	}
	put(t.k.lo)
	put(uint64(t.k.hi))
	switch t.op {
	case OVar, BVar:
		for i := 0; i < len(t.name); i++ {
			put(uint64(t.name[i]))
		}
		if t.isByte {
			for _, v := range t.dom0 {
				put(v)
			}
		} else if t.op == OVar {
			put(t.ilo.lo)
			put(uint64(t.ilo.hi))
			put(t.ihi.lo)
			put(uint64(t.ihi.hi))
		}
		n := len(in.varIdx)
		in.varIdx[t] = n
		if n >= maxVars {
			r.over = true
		} else {
			r.bits[n/64] |= 1 << (n % 64)
		}
	case BConst:
		put(t.c.lo)
	case BIn:
		for _, v := range t.set {
			put(v)
		}
	}
	for _, c := range t.coef {
		put(c.lo)
		put(uint64(c.hi))
	}
	for _, x := range t.args {
		k := in.keyOf(x)
		put(k.k[0])
		put(k.k[1])
		r.bits.or(&k.bits)
		r.over = r.over || k.over
	}
	r.k = termKey{a, b}
	in.keys[t] = r
	return r
}

type answer struct {
	sat   bool
	model Model
}

var answers = struct {
	sync.RWMutex
	m map[termKey]answer
}{m: map[termKey]answer{}}

const maxAnswers = 3000000

// sliceKey is the key of asking c on the current path, the variables concerned and
// the conditions over them.
func (in *Interp) sliceKey(c *Term) (termKey, varBits, []*Term, bool) {
	q := in.keyOf(c)
	if q.over {
		return termKey{}, varBits{}, nil, false
	}
	bits := q.bits
	used := make([]bool, len(in.conds))
	var ts []*Term
	sum := termKey{mix(q.k[0], 77), mix(q.k[1], 99)}
	for again := true; again; {
		again = false
		for i, k := range in.conds {
			if used[i] || !k.bits.meets(&bits) {
				continue
			}
			if k.over {
				return termKey{}, varBits{}, nil, false
			}
			used[i] = true
			ts = append(ts, k.t)
			bits.or(&k.bits)
			sum[0] += k.k[0]
			sum[1] += k.k[1]
			again = true
		}
	}
	return sum, bits, ts, true
}

func (in *Interp) noteCond(c *Term) {
	if c.op == BAnd {
		for _, a := range c.args {
			in.noteCond(a)
		}
		return
	}
	if in.condSeen[c] {
		return
	}
	in.condSeen[c] = true
	in.conds = append(in.conds, in.keyOf(c))
}

func (in *Interp) allConds() []*Term {
	var ts []*Term
	for _, k := range in.conds {
		ts = append(ts, k.t)
	}
	return ts
}

func (in *Interp) solve(conds []*Term, c *Term) (SatRes, Model) {
	if late() {
		return Unknown, nil
	}
	in.s.openScope()
	for _, t := range conds {
		in.s.assert(t)
	}
	r, m := in.s.check(c)
	in.s.closeScope()
	return r, m
}

// query asks whether the path condition admits c; the model covers the variables
// that matter.
func (in *Interp) query(c *Term) (SatRes, Model) {
	key, bits, conds, ok := in.sliceKey(c)
	if !ok {
		conds = in.allConds()
	} else {
		answers.RLock()
		a, hit := answers.m[key]
		answers.RUnlock()
		if hit {
			in.stats.cached++
			if a.sat {
				return Sat, a.model
			}
			return Unsat, nil
		}
	}
	r, m := in.solve(conds, c)
	if ok && r != Unknown {
		if r == Sat {
			kept := Model{}
			for v, i := range in.varIdx {
				if i < maxVars && bits[i/64]>>(i%64)&1 != 0 {
					if k, ok := m[v.name]; ok {
						kept[v.name] = k
					}
				}
			}
			m = kept
		}
		answers.Lock()
		if len(answers.m) < maxAnswers {
			answers.m[key] = answer{r == Sat, m}
		}
		answers.Unlock()
	}
	return r, m
}
