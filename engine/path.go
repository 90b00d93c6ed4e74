package main

import (
	"fmt"
	"math/rand"
	"sort"
	"sync"
)

// abort ends the execution of one path.
type abort struct {
	kind string // unsupported, steps, assume, deadline, stop
	msg  string
}

func unsupported(f string, a ...interface{}) {
	panic(abort{"unsupported", fmt.Sprintf(f, a...)})
}

// targetPanic is a panic of the code under test.
type targetPanic struct {
	v   IfaceV
	msg string
}

type item struct {
	model Model
	bound int
	excl  []I128
	depth int
}

type obs struct {
	Label string `json:"label"`
	Val   string `json:"val"`
}

type failure struct {
	Label string
	Model Model
	Kind  string // assert, panic
	Msg   string
}

// Path is the state of one execution.
type Path struct {
	it        item
	idx       int
	nasserts  int
	children  []item
	obs       []obs
	covers    map[string]bool
	fails     []failure
	asserts   int64
	trivial   int64
	decided   []*Term
	declabels []string
	steps     int64
	branches  int
	inconcl   []string
	panicked  string
	assumed   bool
	final     Model
}

// branch decides a symbolic condition: the witness picks the side taken now, the
// other side is queued when the solver finds it feasible.
func (in *Interp) branch(c *Term) bool {
	if c.op == BConst {
		return c.cb()
	}
	switch in.x.decide(c) {
	case 1:
		return true
	case 0:
		return false
	}
	p := in.p
	if in.initMode != 0 {
		unsupported("symbolic branch during initialisation")
	}
	p.branches++
	if branchProf != nil {
		branchProf.hit(in.where())
	}
	take := c.cb()
	nc := in.x.Not(c)
	taken, other := c, nc
	if !take {
		taken, other = nc, c
	}
	i := p.idx
	p.idx++
	if i >= p.it.bound {
		m, r := in.feasible(other)
		switch r {
		case Sat:
			p.children = append(p.children, item{model: m, bound: i + 1, depth: p.it.depth + 1})
		case Unsat:
			// implied: nothing to add to the path condition
			in.x.Assume(taken)
			return take
		case Unknown:
			p.inconcl = append(p.inconcl, "solver undecided on a branch")
		}
	}
	in.addCond(taken)
	return take
}

// branchProf counts where paths fork, for tuning harnesses.
var branchProf *prof

type prof struct {
	mu sync.Mutex
	n  map[string]int
}

func (b *prof) hit(s string) {
	b.mu.Lock()
	b.n[s]++
	b.mu.Unlock()
}

func (b *prof) dump() {
	var ks []string
	for k := range b.n {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return b.n[ks[i]] > b.n[ks[j]] })
	for i, k := range ks {
		if i < 40 {
			fmt.Printf("  fork %6d %s\n", b.n[k], k)
		}
	}
}

func (in *Interp) addCond(c *Term) {
	if c.op == BConst {
		return
	}
	in.noteCond(c)
	in.link(c)
	in.x.Assume(c)
}

// link remembers the byte variables that occur in conditions over more than one
// variable; the others are constrained by their domain alone.
func (in *Interp) link(c *Term) {
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.nsup == 0 || in.linkSeen[t] {
			return
		}
		in.linkSeen[t] = true
		if t.op == OVar {
			in.linked[t] = true
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	if c.nsup == 1 && (c.op == BIn || c.op == BNot && c.args[0].op == BIn) {
		return
	}
	if c.op == BAnd {
		for _, a := range c.args {
			in.link(a)
		}
		return
	}
	walk(c)
}

// feasible asks whether the path condition admits c, returning a witness.
func (in *Interp) feasible(c *Term) (Model, SatRes) {
	if in.x.contra {
		return nil, Unsat
	}
	// a condition on one otherwise unconstrained byte is decided by its domain
	if c.op == BIn {
		v := c.args[0]
		if !in.linked[v] {
			s := v.set.and(c.set)
			if s.empty() {
				return nil, Unsat
			}
			m := in.curModel()
			m[v.name] = i64(int64(in.pick(v, s)))
			in.stats.domain++
			return m, Sat
		}
	}
	r, m := in.query(c)
	if r == Sat {
		full := in.curModel()
		for k, v := range m {
			full[k] = v
		}
		m = full
	}
	return m, r
}

// holds tells whether the path condition implies c, without taking a side.
func (in *Interp) holds(c *Term) bool {
	switch in.x.decide(c) {
	case 1:
		return true
	case 0:
		return false
	}
	_, r := in.feasible(in.x.Not(c))
	return r == Unsat
}

func (in *Interp) pick(v *Term, s Set256) int {
	// prefer the witness value's neighbours for readability: smallest printable
	for i := 32; i < 127; i++ {
		if s.has(byte(i)) {
			return i
		}
	}
	return s.min()
}

func (in *Interp) curModel() Model {
	m := Model{}
	for k, v := range in.p.it.model {
		m[k] = v
	}
	for _, v := range in.x.vars {
		m[v.name] = v.c
	}
	return m
}

// concretize fixes t to its witness value, queueing the remaining values.
func (in *Interp) concretize(t *Term) I128 {
	t = in.x.simp(t)
	if t.op == OConst {
		return t.k
	}
	lo, hi := in.x.ival(t)
	if lo == hi {
		return lo
	}
	if in.initMode != 0 {
		unsupported("symbolic value during initialisation")
	}
	p := in.p
	i := p.idx
	p.idx++
	v := t.c
	eq := in.x.Eq(t, in.x.K(v))
	if in.x.decide(eq) == 1 {
		return v
	}
	if branchProf != nil {
		branchProf.hit("concretize " + t.String() + in.where())
	}
	var excl []I128
	if i == p.it.bound && len(p.it.excl) > 0 {
		excl = p.it.excl
	}
	if i >= p.it.bound {
		cs := []*Term{in.x.Not(eq)}
		for _, e := range excl {
			cs = append(cs, in.x.Ne(t, in.x.K(e)))
		}
		if len(excl) > in.maxConcretize {
			p.inconcl = append(p.inconcl, "too many values for a concretised term")
		} else {
			m, r := in.feasible(in.x.And(cs...))
			switch r {
			case Sat:
				p.children = append(p.children, item{model: m, bound: i, excl: append(append([]I128{}, excl...), v), depth: p.it.depth + 1})
			case Unknown:
				p.inconcl = append(p.inconcl, "solver undecided on a concretisation")
			}
		}
	}
	in.addCond(eq)
	return v
}

func (in *Interp) concInt(v Value) int {
	t, ok := v.(*Term)
	if !ok {
		unsupported("integer expected, got %T", v)
	}
	return int(in.concretize(t).i64())
}

// assume restricts the path; the witness may already violate it.
func (in *Interp) assume(c *Term) {
	if c.op == BConst {
		if !c.cb() {
			panic(abort{"assume", ""})
		}
		return
	}
	if c.cb() {
		i := in.p.idx
		in.p.idx++
		_ = i
		in.addCond(c)
		return
	}
	// look for another witness that satisfies it
	i := in.p.idx
	in.p.idx++
	if i >= in.p.it.bound {
		m, r := in.feasible(c)
		if r == Sat {
			in.p.children = append(in.p.children, item{model: m, bound: i, depth: in.p.it.depth + 1})
		} else if r == Unknown {
			in.p.inconcl = append(in.p.inconcl, "solver undecided on an assumption")
		}
	}
	panic(abort{"assume", ""})
}

// confirm has the solver decide the assertions that the path condition was
// already known to imply.
func (in *Interp) confirm() {
	p := in.p
	if len(p.decided) == 0 || in.x.contra {
		return
	}
	// those already confirmed elsewhere under the same conditions drop out
	var open []*Term
	var keys []termKey
	labels := p.declabels
	p.declabels = nil
	for i, c := range p.decided {
		key, _, _, ok := in.sliceKey(in.x.rawNot(c))
		if ok {
			answers.RLock()
			a, hit := answers.m[key]
			answers.RUnlock()
			if hit && !a.sat {
				in.stats.cached++
				continue
			}
			keys = append(keys, key)
		}
		open = append(open, c)
		p.declabels = append(p.declabels, labels[i])
	}
	if len(open) == 0 {
		p.decided = nil
		return
	}
	neg := in.x.rawNot(in.x.rawAnd(open))
	_, _, conds, ok := in.sliceKey(neg)
	if !ok {
		conds = in.allConds()
	}
	r, m := in.solve(conds, neg)
	if r == Unsat {
		answers.Lock()
		for _, k := range keys {
			answers.m[k] = answer{}
		}
		answers.Unlock()
	}
	switch r {
	case Sat:
		full := in.curModel()
		for k, v := range m {
			full[k] = v
		}
		p.fails = append(p.fails, failure{Label: p.declabels[0], Model: full, Kind: "assert", Msg: "solver and simplifier disagree"})
		p.inconcl = append(p.inconcl, "solver and simplifier disagree")
	case Unknown:
		p.inconcl = append(p.inconcl, "solver undecided on assertions "+p.declabels[0])
	}
	p.decided = nil
}

// assert asks the solver for values on this path that break c.
func (in *Interp) assert(c *Term, label string) {
	p := in.p
	p.asserts++
	in.stats.assertsByLabel[label]++
	if c.op == BConst && c.cb() {
		p.trivial++
		return
	}
	if in.x.decide(c) == 1 {
		// the solver confirms these together at the end of the path
		p.decided = append(p.decided, c)
		p.declabels = append(p.declabels, label)
		return
	}
	if in.x.contra {
		return
	}
	if !c.cb() {
		p.fails = append(p.fails, failure{Label: label, Model: in.curModel(), Kind: "assert"})
		// the rest of the path may still be explored where c holds
	} else {
		r, m := in.query(in.x.Not(c))
		switch r {
		case Sat:
			full := in.curModel()
			for k, v := range m {
				full[k] = v
			}
			p.fails = append(p.fails, failure{Label: label, Model: full, Kind: "assert"})
		case Unknown:
			p.inconcl = append(p.inconcl, "solver undecided on assertion "+label)
		}
	}
	// not added to the path condition
}

var _ = rand.Int
