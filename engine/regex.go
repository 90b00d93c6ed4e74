package main

import (
	"fmt"
	"regexp"
	"regexp/syntax"
	"strings"
	"unicode"
	"unicode/utf8"
)

// reProg is a compiled regular expression.
type reProg struct {
	re   *regexp.Regexp
	prog *syntax.Prog
	ncap int
}

func compileRe(expr string, posix bool) (*reProg, error) {
	var re *regexp.Regexp
	var err error
	fl := syntax.Perl
	if posix {
		return nil, nil
	}
	re, err = regexp.Compile(expr)
	if err != nil {
		return nil, err
	}
	p, err := syntax.Parse(expr, fl)
	if err != nil {
		return nil, err
	}
	n := p.MaxCap()
	pr, err := syntax.Compile(p.Simplify())
	if err != nil {
		return nil, err
	}
	return &reProg{re: re, prog: pr, ncap: 2 * (n + 1)}, nil
}

type reThread struct {
	pc   uint32
	caps []int
	cond *Term
}

type reEvent struct {
	caps []int
	cond *Term
}

type reSim struct {
	in   *Interp
	r    *reProg
	b    []*Term
	n    int
	caps bool
	// lists[p]: threads about to read at byte p, in priority order
	lists  [][]reThread
	events []reEvent // in order of being recorded; the last true one wins
	width  map[int][5]*Term
}

func capsEq(a, b []int) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// runeW gives, for the rune starting at byte p, the condition that it is encoded
// in w bytes (index 1: ASCII; index 0: invalid byte, one byte wide).
func (s *reSim) runeW(p int) [5]*Term {
	if w, ok := s.width[p]; ok {
		return w
	}
	x := s.in.x
	var r [5]*Term
	for i := range r {
		r[i] = x.False
	}
	b0 := s.b[p]
	r[1] = x.In(b0, rangeSet(0, 127))
	if r[1] != x.True {
		cont := func(i int, lo, hi int) *Term {
			if p+i >= s.n {
				return x.False
			}
			return x.In(s.b[p+i], rangeSet(lo, hi))
		}
		r[2] = x.And(x.In(b0, rangeSet(0xC2, 0xDF)), cont(1, 0x80, 0xBF))
		r[3] = x.Or(
			x.And(x.In(b0, rangeSet(0xE0, 0xE0)), cont(1, 0xA0, 0xBF), cont(2, 0x80, 0xBF)),
			x.And(x.In(b0, rangeSet(0xE1, 0xEC)), cont(1, 0x80, 0xBF), cont(2, 0x80, 0xBF)),
			x.And(x.In(b0, rangeSet(0xED, 0xED)), cont(1, 0x80, 0x9F), cont(2, 0x80, 0xBF)),
			x.And(x.In(b0, rangeSet(0xEE, 0xEF)), cont(1, 0x80, 0xBF), cont(2, 0x80, 0xBF)))
		r[4] = x.Or(
			x.And(x.In(b0, rangeSet(0xF0, 0xF0)), cont(1, 0x90, 0xBF), cont(2, 0x80, 0xBF), cont(3, 0x80, 0xBF)),
			x.And(x.In(b0, rangeSet(0xF1, 0xF3)), cont(1, 0x80, 0xBF), cont(2, 0x80, 0xBF), cont(3, 0x80, 0xBF)),
			x.And(x.In(b0, rangeSet(0xF4, 0xF4)), cont(1, 0x80, 0x8F), cont(2, 0x80, 0xBF), cont(3, 0x80, 0xBF)))
		r[0] = x.And(x.Not(r[1]), x.Not(r[2]), x.Not(r[3]), x.Not(r[4]))
	}
	s.width[p] = r
	return r
}

// instCond: the condition that inst consumes the rune at p in w bytes (w 0: an
// invalid byte).
func (s *reSim) instCond(i *syntax.Inst, p, w int) *Term {
	x := s.in.x
	rw := s.runeW(p)[w]
	if rw == x.False {
		return rw
	}
	if w <= 1 {
		if w == 0 {
			if i.MatchRune(utf8.RuneError) {
				return rw
			}
			return x.False
		}
		var set Set256
		for c := 0; c < 128; c++ {
			if i.MatchRune(rune(c)) {
				set.add(byte(c))
			}
		}
		return x.In(s.b[p], set)
	}
	// non-ASCII members of the class
	switch i.Op {
	case syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
		return rw
	}
	lo := []rune{0, 0, 0x80, 0x800, 0x10000}[w]
	hi := []rune{0, 0x7f, 0x7ff, 0xffff, 0x10ffff}[w]
	// sample quickly: count members by scanning ranges
	var runes []rune
	full := true
	if w == 2 {
		for r := lo; r <= hi; r++ {
			if i.MatchRune(r) {
				runes = append(runes, r)
			} else {
				full = false
			}
		}
	} else {
		full, runes = s.classWide(i, lo, hi)
	}
	if full {
		return rw
	}
	if len(runes) > 300 {
		unsupported("regular expression class with many non-ASCII members")
	}
	var alts []*Term
	for _, r := range runes {
		var buf [4]byte
		utf8.EncodeRune(buf[:], r)
		var cs []*Term
		for k := 0; k < w; k++ {
			cs = append(cs, x.Eq(s.b[p+k], x.I(int64(buf[k]))))
		}
		alts = append(alts, x.And(cs...))
	}
	return x.Or(alts...)
}

// classWide lists the members of an instruction's class in [lo,hi].
func (s *reSim) classWide(i *syntax.Inst, lo, hi rune) (bool, []rune) {
	var out []rune
	if len(i.Rune) == 1 {
		// single rune, possibly folded
		r0 := i.Rune[0]
		cands := []rune{r0}
		if syntax.Flags(i.Arg)&syntax.FoldCase != 0 {
			for r := foldNext(r0); r != r0; r = foldNext(r) {
				cands = append(cands, r)
			}
		}
		for _, r := range cands {
			if r >= lo && r <= hi {
				out = append(out, r)
			}
		}
		return false, out
	}
	covered := rune(0)
	for k := 0; k+1 < len(i.Rune); k += 2 {
		a, b := i.Rune[k], i.Rune[k+1]
		if a < lo {
			a = lo
		}
		if b > hi {
			b = hi
		}
		if a > b {
			continue
		}
		covered += b - a + 1
		if b-a > 400 {
			continue
		}
		for r := a; r <= b; r++ {
			out = append(out, r)
		}
	}
	if covered == hi-lo+1 {
		return true, nil
	}
	if int(covered) != len(out) {
		unsupported("regular expression class with a wide non-ASCII range")
	}
	return false, out
}

func isWordSet() Set256 {
	return rangeSet('0', '9').or(rangeSet('a', 'z')).or(rangeSet('A', 'Z')).or(rangeSet('_', '_'))
}

// emptyCond: condition for an empty-width assertion at byte position p.
func (s *reSim) emptyCond(op syntax.EmptyOp, p int) *Term {
	x := s.in.x
	c := x.True
	word := func(i int) *Term {
		if i < 0 || i >= s.n {
			return x.False
		}
		return x.In(s.b[i], isWordSet())
	}
	nl := rangeSet('\n', '\n')
	if op&syntax.EmptyBeginText != 0 && p != 0 {
		return x.False
	}
	if op&syntax.EmptyEndText != 0 && p != s.n {
		return x.False
	}
	if op&syntax.EmptyBeginLine != 0 && p != 0 {
		c = x.And(c, x.In(s.b[p-1], nl))
	}
	if op&syntax.EmptyEndLine != 0 && p != s.n {
		c = x.And(c, x.In(s.b[p], nl))
	}
	if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
		a, b := word(p-1), word(p)
		bd := x.Or(x.And(a, x.Not(b)), x.And(b, x.Not(a)))
		if op&syntax.EmptyNoWordBoundary != 0 {
			bd = x.Not(bd)
		}
		c = x.And(c, bd)
	}
	return c
}

// add follows empty transitions from pc at position p, appending threads.
func (s *reSim) add(list *[]reThread, pc uint32, p int, caps []int, cond *Term, stack map[uint32]bool) {
	x := s.in.x
	if cond == x.False || stack[pc] {
		return
	}
	i := &s.r.prog.Inst[pc]
	switch i.Op {
	case syntax.InstFail:
		return
	case syntax.InstAlt, syntax.InstAltMatch, syntax.InstCapture, syntax.InstNop, syntax.InstEmptyWidth:
		stack[pc] = true
		defer delete(stack, pc)
	}
	switch i.Op {
	case syntax.InstAlt, syntax.InstAltMatch:
		s.add(list, i.Out, p, caps, cond, stack)
		s.add(list, i.Arg, p, caps, cond, stack)
	case syntax.InstNop:
		s.add(list, i.Out, p, caps, cond, stack)
	case syntax.InstCapture:
		if s.caps && int(i.Arg) < s.r.ncap {
			n := append([]int{}, caps...)
			n[i.Arg] = p
			caps = n
		}
		s.add(list, i.Out, p, caps, cond, stack)
	case syntax.InstEmptyWidth:
		s.add(list, i.Out, p, caps, x.And(cond, s.emptyCond(syntax.EmptyOp(i.Arg), p)), stack)
	default:
		// Pike: a thread already at this pc at this position has priority
		for k := range *list {
			t := &(*list)[k]
			if t.pc != pc {
				continue
			}
			if !s.caps || capsEq(t.caps, caps) {
				// without groups, which of the two is alive makes no difference; with
				// them, the higher-priority place is right if the second excludes all
				// threads between the two
				over := true
				if s.caps {
					for _, u := range (*list)[k+1:] {
						if x.And(cond, u.cond) != x.False {
							over = false
							break
						}
					}
				}
				if over {
					t.cond = x.Or(t.cond, cond)
					return
				}
			}
			cond = x.And(cond, x.Not(t.cond))
			if cond == x.False {
				return
			}
		}
		if len(*list) > 400 {
			unsupported("regular expression simulation too wide")
		}
		*list = append(*list, reThread{pc: pc, caps: caps, cond: cond})
	}
}

// simulate runs the program over the symbolic bytes.
func (in *Interp) reSimulate(r *reProg, str *StrV, caps bool) *reSim {
	x := in.x
	s := &reSim{in: in, r: r, b: in.strBytes(str), n: str.Len(), caps: caps, width: map[int][5]*Term{}}
	s.lists = make([][]reThread, s.n+5)
	matched := x.False // some match recorded so far
	anchored := r.prog.StartCond()&syntax.EmptyBeginText != 0
	var c0 []int
	if caps {
		c0 = make([]int, r.ncap)
		for i := range c0 {
			c0[i] = -1
		}
	}
	reach := make([]*Term, s.n+5) // position is a rune boundary
	for i := range reach {
		reach[i] = x.False
	}
	reach[0] = x.True
	for p := 0; p <= s.n; p++ {
		list := s.lists[p]
		if p == 0 || !anchored {
			cond := x.And(reach[p], x.Not(matched))
			cc := c0
			if caps {
				cc = append([]int{}, c0...)
				cc[0] = p
			}
			s.add(&list, uint32(r.prog.Start), p, cc, cond, map[uint32]bool{})
		}
		cut := x.False // a match of higher priority at this position
		for k := range list {
			t := list[k]
			cond := x.And(t.cond, x.Not(cut))
			if cond == x.False {
				continue
			}
			i := &r.prog.Inst[t.pc]
			if i.Op == syntax.InstMatch {
				cc := t.caps
				if caps {
					cc = append([]int{}, cc...)
					cc[1] = p
				}
				s.events = append(s.events, reEvent{caps: cc, cond: cond})
				if caps {
					cut = x.Or(cut, cond)
				}
				matched = x.Or(matched, cond)
				continue
			}
			if p >= s.n {
				continue
			}
			for w := 0; w <= 4; w++ {
				ic := s.instCond(i, p, w)
				if ic == x.False {
					continue
				}
				step := w
				if w == 0 {
					step = 1
				}
				if p+step <= s.n {
					s.add(&s.lists[p+step], i.Out, p+step, t.caps, x.And(cond, ic), map[uint32]bool{})
				}
			}
		}
		if p < s.n && !anchored {
			rw := s.runeW(p)
			for w := 0; w <= 4; w++ {
				step := w
				if w == 0 {
					step = 1
				}
				if p+step <= s.n {
					reach[p+step] = x.Or(reach[p+step], x.And(reach[p], rw[w]))
				}
			}
		}
	}
	return s
}

func foldNext(r rune) rune { return unicode.SimpleFold(r) }

func (in *Interp) reMatch(r *reProg, s *StrV) *Term {
	s.force()
	if s.isConc() {
		return in.x.B(r.re.MatchString(s.s))
	}
	var kb strings.Builder
	for _, t := range s.t {
		fmt.Fprintf(&kb, "%d|", t.id)
	}
	key := reKey{r, kb.String()}
	if m, ok := in.reMemo[key]; ok {
		return m
	}
	sim := in.reSimulate(r, s, false)
	var cs []*Term
	for _, e := range sim.events {
		cs = append(cs, e.cond)
	}
	m := in.x.Or(cs...)
	if m.cb() != r.re.MatchString(s.conc()) {
		unsupported("regular expression simulation disagrees with the library on %q for %s", s.conc(), r.re)
	}
	in.reMemo[key] = m
	return m
}

type reKey struct {
	r *reProg
	s string
}

// reFind returns the leftmost-first submatch positions, forking over the possible
// capture vectors; nil when there is no match.
func (in *Interp) reFind(r *reProg, s *StrV) []int {
	s.force()
	if s.isConc() {
		return r.re.FindStringSubmatchIndex(s.s)
	}
	x := in.x
	if !in.branch(in.reMatch(r, s)) {
		return nil
	}
	sim := in.reSimulate(r, s, true)
	// the last recorded event that holds wins
	var distinct [][]int
	var conds []*Term
	later := x.False
	for i := len(sim.events) - 1; i >= 0; i-- {
		e := sim.events[i]
		c := x.And(e.cond, x.Not(later))
		later = x.Or(later, e.cond)
		if c == x.False {
			continue
		}
		k := -1
		for j := range distinct {
			if capsEq(distinct[j], e.caps) {
				k = j
			}
		}
		if k < 0 {
			distinct = append(distinct, e.caps)
			conds = append(conds, c)
		} else {
			conds[k] = x.Or(conds[k], c)
		}
	}
	want := r.re.FindStringSubmatchIndex(s.conc())
	sel := -1
	for i := range conds {
		if conds[i].cb() {
			sel = i
			break
		}
	}
	if sel < 0 || want == nil || !capsEq(distinct[sel], want) {
		unsupported("regular expression simulation disagrees with the library on %q for %s", s.conc(), r.re)
	}
	in.chooseOf(conds, sel)
	return distinct[sel]
}

// chooseOf forks over mutually exclusive conditions that cover the path.
func (in *Interp) chooseOf(conds []*Term, sel int) {
	x := in.x
	if x.decide(conds[sel]) == 1 {
		return
	}
	if len(conds) == 1 {
		x.Assume(conds[0])
		return
	}
	t := x.I(int64(len(conds) - 1))
	for i := len(conds) - 2; i >= 0; i-- {
		t = x.Ite(conds[i], x.I(int64(i)), t)
	}
	in.concretize(t)
	// make the chosen condition itself a fact
	if x.decide(conds[sel]) != 1 {
		x.Assume(conds[sel])
	}
}
