package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

var debugFlag bool

type intrinsic = func(in *Interp, a []Value) Value

var intrinsics = map[string]intrinsic{}

var intrCache sync.Map

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func lookupIntrinsic(fn *ssa.Function) intrinsic {
	if v, ok := intrCache.Load(fn); ok {
		return v.(intrinsic)
	}
	f := intrinsics[fnName(fn)]
	intrCache.Store(fn, f)
	return f
}

// newError is errors.New.
func (in *Interp) newError(s *StrV) Value {
	f := in.P.prog.ImportedPackage("errors").Func("New")
	return in.call(f, []Value{s}, nil)
}

// uniqueName numbers repeated requests for the same input name.
func (in *Interp) uniqueName(name string) string {
	in.names[name]++
	if n := in.names[name]; n > 1 {
		return fmt.Sprintf("%s#%d", name, n)
	}
	return name
}

func (in *Interp) modelVal(name string, def I128) I128 {
	if v, ok := in.p.it.model[name]; ok {
		return v
	}
	return def
}

func (in *Interp) symInt(name string, lo, hi I128) *Term {
	if lo == hi {
		return in.x.K(lo)
	}
	name = in.uniqueName(name)
	def := I128{}
	if def.lt(lo) {
		def = lo
	}
	if hi.lt(def) {
		def = hi
	}
	v := in.modelVal(name, def)
	if v.lt(lo) || hi.lt(v) {
		v = def
	}
	return in.x.NewVar(name, lo, hi, v)
}

func (in *Interp) symBool(name string) *Term {
	name = in.uniqueName(name)
	return in.x.NewBool(name, in.modelVal(name, I128{}).lo != 0)
}

func (in *Interp) symBytes(name string, n int, dom Set256) *StrV {
	name = in.uniqueName(name)
	t := make([]*Term, n)
	def := byte(in.pickDom(dom))
	for i := range t {
		bn := fmt.Sprintf("%s[%d]", name, i)
		v := in.modelVal(bn, i64(int64(def)))
		b := byte(v.lo)
		if !dom.has(b) {
			b = def
		}
		if dom.count() == 1 {
			t[i] = in.x.I(int64(b))
			continue
		}
		t[i] = in.x.NewByte(bn, dom, b)
	}
	return strFromTerms(t)
}

func (in *Interp) pickDom(dom Set256) int {
	for i := 32; i < 127; i++ {
		if dom.has(byte(i)) {
			return i
		}
	}
	return dom.min()
}

func (in *Interp) itoa(t *Term) *StrV { return in.padInt(t, 1, false) }

func (in *Interp) allConc(a []Value) bool {
	for _, v := range a {
		switch s := v.(type) {
		case *StrV:
			if !s.isConc() {
				return false
			}
		case *Term:
			if !s.isConst() {
				return false
			}
		}
	}
	return true
}

func (in *Interp) strSlice(ss []*StrV) SliceV {
	vs := make([]Value, len(ss))
	for i := range ss {
		vs[i] = ss[i]
	}
	return in.mkSlice(vs)
}

func sliceStrs(in *Interp, v Value) []*StrV {
	s := v.(SliceV)
	out := make([]*StrV, len(s.c))
	for i, c := range s.c {
		out[i] = in.str(in.load(c))
	}
	return out
}

// matchAt: sub occurs in s at i.
func (in *Interp) matchAt(s *StrV, i int, sub *StrV) *Term {
	return in.strEq(s.slice(i, i+sub.Len()), sub)
}

func (in *Interp) indexFrom(s, sub *StrV, from int) int {
	s.force()
	sub.force()
	if s.isConc() && sub.isConc() {
		i := strings.Index(s.s[from:], sub.s)
		if i < 0 {
			return -1
		}
		return i + from
	}
	for i := from; i+sub.Len() <= s.Len(); i++ {
		if in.branch(in.matchAt(s, i, sub)) {
			return i
		}
	}
	return -1
}

func (in *Interp) caseMap(s *StrV, upper bool) *StrV {
	s.force()
	if s.isConc() {
		if upper {
			return mkStr(strings.ToUpper(s.s))
		}
		return mkStr(strings.ToLower(s.s))
	}
	x := in.x
	var asc []*Term
	for _, b := range s.t {
		asc = append(asc, x.In(b, rangeSet(0, 127)))
	}
	if !in.branch(x.And(asc...)) {
		k := in.concStr(s)
		return in.caseMap(mkStr(k), upper)
	}
	out := make([]*Term, len(s.t))
	for i, b := range s.t {
		if upper {
			out[i] = x.Ite(x.In(b, rangeSet('a', 'z')), x.Sub(b, x.I(32)), b)
		} else {
			out[i] = x.Ite(x.In(b, rangeSet('A', 'Z')), x.Add(b, x.I(32)), b)
		}
	}
	return strFromTerms(out)
}

// concStr fixes a string to its witness value.
func (in *Interp) concStr(s *StrV) string {
	s.force()
	if s.isConc() {
		return s.s
	}
	b := make([]byte, s.Len())
	for i := range b {
		b[i] = byte(in.concretize(in.strAt(s, i)).lo)
	}
	return string(b)
}

func (in *Interp) reArg(v Value) *reProg {
	c, ok := v.(*Cell)
	if !ok {
		unsupported("regexp is %T", v)
	}
	if c == nil {
		in.panicRT("invalid memory address or nil pointer dereference")
	}
	r, ok := in.load(c).(*reProg)
	if !ok {
		unsupported("regexp value")
	}
	return r
}

func (in *Interp) compile(s *StrV) (*reProg, error) {
	if !s.isConc() {
		unsupported("symbolic regular expression")
	}
	if r, ok := in.reCache[s.s]; ok {
		return r, nil
	}
	r, err := compileRe(s.s, false)
	if err == nil {
		in.reCache[s.s] = r
	}
	return r, err
}

func (in *Interp) strOrBytes(v Value) *StrV {
	if s, ok := v.(SliceV); ok {
		return in.sliceToStr(s)
	}
	return in.str(v)
}

func capStr(in *Interp, s *StrV, caps []int, i int) *StrV {
	if caps[2*i] < 0 {
		return mkStr("")
	}
	return s.slice(caps[2*i], caps[2*i+1])
}

func init() {
	I := func(name string, f intrinsic) { intrinsics[name] = f }

	// ---- strings ----
	I("strings.HasPrefix", func(in *Interp, a []Value) Value {
		s, p := in.str(a[0]), in.str(a[1])
		if p.Len() > s.Len() {
			return in.x.False
		}
		return in.matchAt(s, 0, p)
	})
	I("strings.HasSuffix", func(in *Interp, a []Value) Value {
		s, p := in.str(a[0]), in.str(a[1])
		if p.Len() > s.Len() {
			return in.x.False
		}
		return in.matchAt(s, s.Len()-p.Len(), p)
	})
	I("strings.Contains", func(in *Interp, a []Value) Value {
		s, p := in.str(a[0]), in.str(a[1])
		var cs []*Term
		for i := 0; i+p.Len() <= s.Len(); i++ {
			cs = append(cs, in.matchAt(s, i, p))
		}
		return in.x.Or(cs...)
	})
	I("strings.ContainsAny", func(in *Interp, a []Value) Value {
		s, p := in.str(a[0]), in.str(a[1])
		if !p.isConc() {
			unsupported("ContainsAny with symbolic set")
		}
		var set Set256
		for i := 0; i < p.Len(); i++ {
			if p.s[i] >= 0x80 {
				unsupported("ContainsAny with non-ASCII set")
			}
			set.add(p.s[i])
		}
		var cs []*Term
		for i := 0; i < s.Len(); i++ {
			cs = append(cs, in.x.In(in.strAt(s, i), set))
		}
		return in.x.Or(cs...)
	})
	idx := func(in *Interp, a []Value) Value { return in.x.I(int64(in.indexFrom(in.str(a[0]), in.str(a[1]), 0))) }
	I("strings.Index", idx)
	I("internal/stringslite.Index", idx)
	I("internal/bytealg.IndexString", idx)
	idxB := func(in *Interp, a []Value) Value {
		s := in.strOrBytes(a[0])
		for i := 0; i < s.Len(); i++ {
			if in.branch(in.x.Eq(in.strAt(s, i), in.tm(a[1]))) {
				return in.x.I(int64(i))
			}
		}
		return in.x.I(-1)
	}
	for _, n := range []string{"strings.IndexByte", "internal/stringslite.IndexByte", "internal/bytealg.IndexByteString", "internal/bytealg.IndexByte", "bytes.IndexByte"} {
		I(n, idxB)
	}
	lidxB := func(in *Interp, a []Value) Value {
		s := in.strOrBytes(a[0])
		for i := s.Len() - 1; i >= 0; i-- {
			if in.branch(in.x.Eq(in.strAt(s, i), in.tm(a[1]))) {
				return in.x.I(int64(i))
			}
		}
		return in.x.I(-1)
	}
	I("strings.LastIndexByte", lidxB)
	I("internal/bytealg.LastIndexByteString", lidxB)
	I("internal/bytealg.LastIndexByte", lidxB)
	I("strings.LastIndex", func(in *Interp, a []Value) Value {
		s, sub := in.str(a[0]), in.str(a[1])
		for i := s.Len() - sub.Len(); i >= 0; i-- {
			if in.branch(in.matchAt(s, i, sub)) {
				return in.x.I(int64(i))
			}
		}
		return in.x.I(-1)
	})
	cnt := func(in *Interp, a []Value) Value {
		s := in.strOrBytes(a[0])
		n := in.x.I(0)
		for i := 0; i < s.Len(); i++ {
			n = in.x.Add(n, in.x.Ite(in.x.Eq(in.strAt(s, i), in.tm(a[1])), in.x.I(1), in.x.I(0)))
		}
		return n
	}
	I("internal/bytealg.CountString", cnt)
	I("internal/bytealg.Count", cnt)
	I("strings.Count", func(in *Interp, a []Value) Value {
		s, p := in.str(a[0]), in.str(a[1])
		if p.Len() == 1 {
			return cnt(in, []Value{s, in.strAt(p, 0)})
		}
		if p.Len() == 0 {
			unsupported("strings.Count of empty string")
		}
		n := 0
		for i := 0; ; n++ {
			j := in.indexFrom(s, p, i)
			if j < 0 {
				break
			}
			i = j + p.Len()
		}
		return in.x.I(int64(n))
	})
	splitN := func(in *Interp, s, sep *StrV, n int, after bool) Value {
		if sep.Len() == 0 {
			unsupported("split on empty separator")
		}
		var out []*StrV
		i := 0
		for n < 0 || len(out) < n-1 {
			j := in.indexFrom(s, sep, i)
			if j < 0 {
				break
			}
			e := j
			if after {
				e += sep.Len()
			}
			out = append(out, s.slice(i, e))
			i = j + sep.Len()
		}
		if n == 0 {
			return SliceV{}
		}
		out = append(out, s.slice(i, s.Len()))
		return in.strSlice(out)
	}
	I("strings.Split", func(in *Interp, a []Value) Value { return splitN(in, in.str(a[0]), in.str(a[1]), -1, false) })
	I("strings.SplitN", func(in *Interp, a []Value) Value {
		return splitN(in, in.str(a[0]), in.str(a[1]), in.concInt(a[2]), false)
	})
	I("strings.SplitAfter", func(in *Interp, a []Value) Value { return splitN(in, in.str(a[0]), in.str(a[1]), -1, true) })
	I("strings.Join", func(in *Interp, a []Value) Value {
		ss := sliceStrs(in, a[0])
		r := mkStr("")
		for i, s := range ss {
			if i > 0 {
				r = in.concat(r, in.str(a[1]))
			}
			r = in.concat(r, s)
		}
		return r
	})
	I("strings.Repeat", func(in *Interp, a []Value) Value {
		n := in.concInt(a[1])
		if n < 0 {
			panic(targetPanic{msg: "strings: negative Repeat count"})
		}
		if n*in.str(a[0]).Len() > 1<<20 {
			panic(abort{"steps", "huge Repeat"})
		}
		r := mkStr("")
		for i := 0; i < n; i++ {
			r = in.concat(r, in.str(a[0]))
		}
		return r
	})
	replN := func(in *Interp, s, old, nw *StrV, n int) Value {
		if old.Len() == 0 {
			unsupported("replace of empty string")
		}
		r := mkStr("")
		i := 0
		for n != 0 {
			j := in.indexFrom(s, old, i)
			if j < 0 {
				break
			}
			r = in.concat(in.concat(r, s.slice(i, j)), nw)
			i = j + old.Len()
			n--
		}
		return in.concat(r, s.slice(i, s.Len()))
	}
	I("strings.Replace", func(in *Interp, a []Value) Value {
		return replN(in, in.str(a[0]), in.str(a[1]), in.str(a[2]), in.concInt(a[3]))
	})
	I("strings.ReplaceAll", func(in *Interp, a []Value) Value {
		return replN(in, in.str(a[0]), in.str(a[1]), in.str(a[2]), -1)
	})
	I("strings.ToUpper", func(in *Interp, a []Value) Value { return in.caseMap(in.str(a[0]), true) })
	I("strings.ToLower", func(in *Interp, a []Value) Value { return in.caseMap(in.str(a[0]), false) })
	I("strings.EqualFold", func(in *Interp, a []Value) Value {
		s, t := in.str(a[0]), in.str(a[1])
		if s.isConc() && t.isConc() {
			return in.x.B(strings.EqualFold(s.s, t.s))
		}
		// k and s fold with non-ASCII letters
		var asc []*Term
		for _, z := range []*StrV{s, t} {
			for i := 0; i < z.Len(); i++ {
				asc = append(asc, in.x.In(in.strAt(z, i), rangeSet(0, 127)))
			}
		}
		if in.branch(in.x.And(asc...)) {
			return in.strEq(in.caseMap(s, false), in.caseMap(t, false))
		}
		return in.x.B(strings.EqualFold(in.concStr(s), in.concStr(t)))
	})
	trimSet := func(in *Interp, s *StrV, set Set256, l, r bool) Value {
		i, j := 0, s.Len()
		if l {
			for i < j && in.branch(in.x.In(in.strAt(s, i), set)) {
				i++
			}
		}
		if r {
			for i < j && in.branch(in.x.In(in.strAt(s, j-1), set)) {
				j--
			}
		}
		return s.slice(i, j)
	}
	asciiSet := func(in *Interp, v Value) Set256 {
		p := in.str(v)
		if !p.isConc() {
			unsupported("trim with symbolic cutset")
		}
		var set Set256
		for i := 0; i < p.Len(); i++ {
			if p.s[i] >= 0x80 {
				unsupported("trim with non-ASCII cutset")
			}
			set.add(p.s[i])
		}
		return set
	}
	I("strings.Trim", func(in *Interp, a []Value) Value { return trimSet(in, in.str(a[0]), asciiSet(in, a[1]), true, true) })
	I("strings.TrimLeft", func(in *Interp, a []Value) Value { return trimSet(in, in.str(a[0]), asciiSet(in, a[1]), true, false) })
	I("strings.TrimRight", func(in *Interp, a []Value) Value { return trimSet(in, in.str(a[0]), asciiSet(in, a[1]), false, true) })
	I("strings.TrimSpace", func(in *Interp, a []Value) Value {
		s := in.str(a[0])
		if s.isConc() {
			return mkStr(strings.TrimSpace(s.s))
		}
		// non-ASCII spaces: U+0085, U+00A0 and others start with these bytes
		for i := 0; i < s.Len(); i++ {
			if in.x.decide(in.x.In(in.strAt(s, i), rangeSet(0, 127))) != 1 {
				ok := in.branch(in.x.In(in.strAt(s, i), rangeSet(0, 127)))
				if !ok {
					return mkStr(strings.TrimSpace(in.concStr(s)))
				}
			}
		}
		var set Set256
		for _, c := range "\t\n\v\f\r " {
			set.add(byte(c))
		}
		return trimSet(in, s, set, true, true)
	})
	I("strings.TrimPrefix", func(in *Interp, a []Value) Value {
		s, p := in.str(a[0]), in.str(a[1])
		if p.Len() <= s.Len() && in.branch(in.matchAt(s, 0, p)) {
			return s.slice(p.Len(), s.Len())
		}
		return s
	})
	I("strings.TrimSuffix", func(in *Interp, a []Value) Value {
		s, p := in.str(a[0]), in.str(a[1])
		if p.Len() <= s.Len() && in.branch(in.matchAt(s, s.Len()-p.Len(), p)) {
			return s.slice(0, s.Len()-p.Len())
		}
		return s
	})
	clone := func(in *Interp, a []Value) Value { return a[0] }
	I("strings.Clone", clone)
	I("internal/stringslite.Clone", clone)
	I("internal/abi.NoEscape", clone)
	I("internal/abi.Escape", clone)
	cmpS := func(in *Interp, a []Value) Value {
		s, t := in.strOrBytes(a[0]), in.strOrBytes(a[1])
		return in.x.Ite(in.strLess(s, t), in.x.I(-1), in.x.Ite(in.strEq(s, t), in.x.I(0), in.x.I(1)))
	}
	I("strings.Compare", cmpS)
	I("internal/bytealg.CompareString", cmpS)
	I("internal/bytealg.Compare", cmpS)
	I("bytes.Compare", cmpS)
	eqB := func(in *Interp, a []Value) Value { return in.strEq(in.strOrBytes(a[0]), in.strOrBytes(a[1])) }
	I("bytes.Equal", eqB)
	I("internal/bytealg.Equal", eqB)
	I("internal/bytealg.MakeNoZero", func(in *Interp, a []Value) Value {
		n := in.concInt(a[0])
		s := SliceV{nn: true, c: make([]*Cell, n)}
		for i := range s.c {
			s.c[i] = &Cell{v: in.x.I(0), init: in.initMode}
		}
		return s
	})

	// ---- unicode/utf8 ----
	I("unicode/utf8.RuneCountInString", func(in *Interp, a []Value) Value {
		s := in.str(a[0])
		n := 0
		for i := 0; i < s.Len(); n++ {
			_, w := in.decodeRune(s, i)
			i += w
		}
		return in.x.I(int64(n))
	})
	I("unicode/utf8.ValidString", func(in *Interp, a []Value) Value {
		s := in.str(a[0])
		for i := 0; i < s.Len(); {
			b := in.strAt(s, i)
			if in.branch(in.x.In(b, rangeSet(0, 127))) {
				i++
				continue
			}
			return in.x.B(utf8.ValidString(in.concStr(s)))
		}
		return in.x.True
	})

	// ---- strconv ----
	I("strconv.Itoa", func(in *Interp, a []Value) Value { return in.itoa(in.tm(a[0])) })
	fmtInt := func(in *Interp, a []Value) Value {
		if in.concInt(a[1]) != 10 {
			t := in.tm(a[0])
			if t.op == OConst && t.k.isI64() {
				return mkStr(strconv.FormatInt(t.k.i64(), in.concInt(a[1])))
			}
			unsupported("FormatInt base")
		}
		return in.itoa(in.tm(a[0]))
	}
	I("strconv.FormatInt", fmtInt)
	I("strconv.FormatUint", fmtInt)
	appInt := func(in *Interp, a []Value) Value {
		if in.concInt(a[2]) != 10 {
			unsupported("AppendInt base")
		}
		return in.appendStr(a[0].(SliceV), in.itoa(in.tm(a[1])))
	}
	I("strconv.AppendInt", appInt)
	I("strconv.AppendUint", appInt)
	I("strconv.Quote", func(in *Interp, a []Value) Value {
		s := in.str(a[0])
		return &StrV{lazy: func() *StrV { return in.quote(s) }}
	})
	I("strconv.FormatBool", func(in *Interp, a []Value) Value {
		if in.branch(in.tm(a[0])) {
			return mkStr("true")
		}
		return mkStr("false")
	})
	I("strconv.ParseFloat", func(in *Interp, a []Value) Value {
		s := in.str(a[0])
		if n := s.Len(); n > 0 && n <= 22 && in.concInt(a[1]) == 64 && in.branch(in.matchTerm("^[+-]?[0-9]+([eE][+]?[0-9]+)?$", s)) {
			b, ok := in.parseDec(s, true)
			if ok {
				if v, ok := in.bigVal(b); ok && in.branch(in.x.And(in.x.Le(v, in.x.K(u64(1<<63))), in.x.Le(in.x.K(u64(1<<63).neg()), v))) {
					return TupleV{in.intFloat(v), IfaceV{}}
				}
			}
		}
		k := in.concStr(s)
		f, err := strconv.ParseFloat(k, in.concInt(a[1]))
		if err != nil {
			return TupleV{f, in.newError(mkStr(err.Error()))}
		}
		return TupleV{f, IfaceV{}}
	})

	// ---- regexp ----
	must := func(in *Interp, a []Value) Value {
		r, err := in.compile(in.str(a[0]))
		if err != nil {
			panic(targetPanic{msg: "regexp: Compile: " + err.Error(), v: IfaceV{t: types.Typ[types.String], v: mkStr(err.Error())}})
		}
		return &Cell{v: r, init: in.initMode}
	}
	I("regexp.MustCompile", must)
	I("regexp.Compile", func(in *Interp, a []Value) Value {
		r, err := in.compile(in.str(a[0]))
		if err != nil {
			return TupleV{(*Cell)(nil), in.newError(mkStr(err.Error()))}
		}
		return TupleV{&Cell{v: r, init: in.initMode}, IfaceV{}}
	})
	I("regexp.MatchString", func(in *Interp, a []Value) Value {
		r, err := in.compile(in.str(a[0]))
		if err != nil {
			return TupleV{in.x.False, in.newError(mkStr(err.Error()))}
		}
		return TupleV{in.reMatch(r, in.str(a[1])), IfaceV{}}
	})
	I("regexp.QuoteMeta", func(in *Interp, a []Value) Value { return mkStr(regexp.QuoteMeta(in.concStr(in.str(a[0])))) })
	m := func(name string, f func(in *Interp, r *reProg, a []Value) Value) {
		intrinsics["(*regexp.Regexp)."+name] = func(in *Interp, a []Value) Value { return f(in, in.reArg(a[0]), a[1:]) }
	}
	m("MatchString", func(in *Interp, r *reProg, a []Value) Value { return in.reMatch(r, in.str(a[0])) })
	m("Match", func(in *Interp, r *reProg, a []Value) Value { return in.reMatch(r, in.strOrBytes(a[0])) })
	m("String", func(in *Interp, r *reProg, a []Value) Value { return mkStr(r.re.String()) })
	m("NumSubexp", func(in *Interp, r *reProg, a []Value) Value { return in.x.I(int64(r.re.NumSubexp())) })
	m("SubexpIndex", func(in *Interp, r *reProg, a []Value) Value {
		return in.x.I(int64(r.re.SubexpIndex(in.concStr(in.str(a[0])))))
	})
	m("SubexpNames", func(in *Interp, r *reProg, a []Value) Value {
		var out []*StrV
		for _, n := range r.re.SubexpNames() {
			out = append(out, mkStr(n))
		}
		return in.strSlice(out)
	})
	m("FindStringSubmatch", func(in *Interp, r *reProg, a []Value) Value {
		s := in.str(a[0])
		c := in.reFind(r, s)
		if c == nil {
			return SliceV{}
		}
		var out []*StrV
		for i := 0; i < len(c)/2; i++ {
			out = append(out, capStr(in, s, c, i))
		}
		return in.strSlice(out)
	})
	m("FindString", func(in *Interp, r *reProg, a []Value) Value {
		s := in.str(a[0])
		c := in.reFind(r, s)
		if c == nil {
			return mkStr("")
		}
		return s.slice(c[0], c[1])
	})
	ints := func(in *Interp, c []int) Value {
		vs := make([]Value, len(c))
		for i := range c {
			vs[i] = in.x.I(int64(c[i]))
		}
		return in.mkSlice(vs)
	}
	m("FindStringIndex", func(in *Interp, r *reProg, a []Value) Value {
		c := in.reFind(r, in.str(a[0]))
		if c == nil {
			return SliceV{}
		}
		return ints(in, c[:2])
	})
	m("FindStringSubmatchIndex", func(in *Interp, r *reProg, a []Value) Value {
		c := in.reFind(r, in.str(a[0]))
		if c == nil {
			return SliceV{}
		}
		return ints(in, c)
	})
	// repeated matching: fix the string
	m("FindAllString", func(in *Interp, r *reProg, a []Value) Value {
		var out []*StrV
		for _, s := range r.re.FindAllString(in.concStr(in.str(a[0])), in.concInt(a[1])) {
			out = append(out, mkStr(s))
		}
		if out == nil {
			return SliceV{}
		}
		return in.strSlice(out)
	})
	m("FindAllStringSubmatch", func(in *Interp, r *reProg, a []Value) Value {
		res := r.re.FindAllStringSubmatch(in.concStr(in.str(a[0])), in.concInt(a[1]))
		if res == nil {
			return SliceV{}
		}
		var vs []Value
		for _, x := range res {
			var out []*StrV
			for _, s := range x {
				out = append(out, mkStr(s))
			}
			vs = append(vs, in.strSlice(out))
		}
		return in.mkSlice(vs)
	})
	m("Split", func(in *Interp, r *reProg, a []Value) Value {
		var out []*StrV
		for _, s := range r.re.Split(in.concStr(in.str(a[0])), in.concInt(a[1])) {
			out = append(out, mkStr(s))
		}
		return in.strSlice(out)
	})
	m("ReplaceAllString", func(in *Interp, r *reProg, a []Value) Value {
		return mkStr(r.re.ReplaceAllString(in.concStr(in.str(a[0])), in.concStr(in.str(a[1]))))
	})
	m("ReplaceAllLiteralString", func(in *Interp, r *reProg, a []Value) Value {
		return mkStr(r.re.ReplaceAllLiteralString(in.concStr(in.str(a[0])), in.concStr(in.str(a[1]))))
	})

	// ---- errors ----
	I("errors.Is", func(in *Interp, a []Value) Value { return in.x.B(in.errorsIs(a[0].(IfaceV), a[1].(IfaceV))) })
	I("errors.As", func(in *Interp, a []Value) Value {
		e, t := a[0].(IfaceV), a[1].(IfaceV)
		if e.t == nil {
			return in.x.False
		}
		if t.t == nil {
			panic(targetPanic{msg: "errors: target cannot be nil"})
		}
		pt, ok := t.t.Underlying().(*types.Pointer)
		if !ok {
			panic(targetPanic{msg: "errors: target must be a non-nil pointer"})
		}
		return in.x.B(in.errorsAs(e, pt.Elem(), in.ptr(t.v)))
	})

	// ---- sync ----
	nop := func(in *Interp, a []Value) Value { return nil }
	lock := func(in *Interp, a []Value) Value { in.locks++; return nil }
	unlock := func(in *Interp, a []Value) Value { in.locks--; return nil }
	for _, t := range []string{"Mutex", "RWMutex"} {
		I("(*sync."+t+").Lock", lock)
		I("(*sync."+t+").Unlock", unlock)
		I("(*sync."+t+").TryLock", func(in *Interp, a []Value) Value { in.locks++; return in.x.True })
	}
	I("(*sync.RWMutex).RLock", func(in *Interp, a []Value) Value { in.rlocks++; return nil })
	I("(*sync.RWMutex).RUnlock", func(in *Interp, a []Value) Value { in.rlocks--; return nil })
	I("(*sync.Once).Do", func(in *Interp, a []Value) Value {
		c := in.ptr(a[0])
		done := in.onces[c]
		if !done {
			in.onces[c] = true
			if in.initMode == 0 {
				in.undo = append(in.undo, func() { delete(in.onces, c) })
			}
			in.onceDepth++
			in.callFn(a[1].(*FuncV), nil)
			in.onceDepth--
		}
		return nil
	})
	I("(*sync.WaitGroup).Add", nop)
	I("(*sync.WaitGroup).Done", nop)
	I("(*sync.WaitGroup).Wait", nop)
	I("(*sync.Pool).Get", func(in *Interp, a []Value) Value {
		c := in.ptr(a[0])
		// the value put back last, as natively within one goroutine
		if s := in.pools[c]; len(s) > 0 {
			in.pools[c] = s[:len(s)-1]
			return s[len(s)-1]
		}
		f, _ := in.load(c.sub[len(c.sub)-1]).(*FuncV)
		if f == nil {
			return IfaceV{}
		}
		return in.callFn(f, nil)
	})
	I("(*sync.Pool).Put", func(in *Interp, a []Value) Value {
		if in.pools == nil {
			in.pools = map[*Cell][]Value{}
		}
		c := in.ptr(a[0])
		in.pools[c] = append(in.pools[c], a[1])
		return nil
	})
	smap := func(in *Interp, v Value) *MapObj {
		c := in.ptr(v)
		m := in.syncMaps[c]
		if m == nil {
			m = &MapObj{}
			in.syncMaps[c] = m
			if in.initMode == 0 {
				in.undo = append(in.undo, func() { delete(in.syncMaps, c) })
			}
		}
		return m
	}
	find := func(in *Interp, mo *MapObj, k Value) *mapEntry {
		for _, e := range mo.ents {
			if in.branch(in.equalAny(nil, e.k, k)) {
				return e
			}
		}
		return nil
	}
	I("(*sync.Map).Load", func(in *Interp, a []Value) Value {
		if e := find(in, smap(in, a[0]), a[1]); e != nil {
			return TupleV{in.load(e.v), in.x.True}
		}
		return TupleV{IfaceV{}, in.x.False}
	})
	I("(*sync.Map).Store", func(in *Interp, a []Value) Value {
		mo := smap(in, a[0])
		if e := find(in, mo, a[1]); e != nil {
			e.v.v = a[2]
			return nil
		}
		mo.ents = append(mo.ents, &mapEntry{k: a[1], v: &Cell{v: a[2]}})
		return nil
	})
	I("(*sync.Map).LoadOrStore", func(in *Interp, a []Value) Value {
		mo := smap(in, a[0])
		if e := find(in, mo, a[1]); e != nil {
			return TupleV{in.load(e.v), in.x.True}
		}
		mo.ents = append(mo.ents, &mapEntry{k: a[1], v: &Cell{v: a[2]}})
		return TupleV{a[2], in.x.False}
	})
	for _, w := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		I("sync/atomic.Load"+w, func(in *Interp, a []Value) Value {
			in.rlocks++
			v := in.load(in.ptr(a[0]))
			in.rlocks--
			return v
		})
		I("sync/atomic.Store"+w, func(in *Interp, a []Value) Value {
			in.locks++
			in.store(in.ptr(a[0]), a[1])
			in.locks--
			return nil
		})
		I("sync/atomic.Add"+w, func(in *Interp, a []Value) Value {
			in.locks++
			c := in.ptr(a[0])
			v := in.x.Add(in.load(c).(*Term), in.tm(a[1]))
			v = in.x.Wrap(v, 64, true)
			in.store(c, v)
			in.locks--
			return v
		})
		I("sync/atomic.CompareAndSwap"+w, func(in *Interp, a []Value) Value {
			c := in.ptr(a[0])
			in.rlocks++
			old := in.load(c)
			in.rlocks--
			if in.branch(in.equal(types.Typ[types.Int64], old, a[1])) {
				in.locks++
				in.store(c, a[2])
				in.locks--
				return in.x.True
			}
			return in.x.False
		})
	}

	// ---- sort ----
	sortSlice := func(in *Interp, a []Value, stable bool) Value {
		iv := a[0].(IfaceV)
		s, ok := iv.v.(SliceV)
		if !ok {
			unsupported("sort.Slice of %T", iv.v)
		}
		less := a[1].(*FuncV)
		if len(s.c) > 12 && !stable {
			// the order of equal elements is that of the library's own algorithm
			pkg := in.P.prog.ImportedPackage("sort")
			if pkg == nil || pkg.Func("pdqsort_func") == nil {
				unsupported("sort.Slice of more than 12 elements")
			}
			swap := &FuncV{name: "swap", native: func(in *Interp, b []Value) Value {
				i, j := in.concInt(b[0]), in.concInt(b[1])
				p, q := in.load(s.c[i]), in.load(s.c[j])
				in.store(s.c[i], q)
				in.store(s.c[j], p)
				return nil
			}}
			n := len(s.c)
			in.call(pkg.Func("pdqsort_func"), []Value{StructV{less, swap}, in.x.I(0), in.x.I(int64(n)), in.x.I(int64(bits.Len(uint(n))))}, nil)
			return nil
		}
		for i := 1; i < len(s.c); i++ {
			for j := i; j > 0; j-- {
				if !in.branch(in.tm(in.callFn(less, []Value{in.x.I(int64(j)), in.x.I(int64(j - 1))}))) {
					break
				}
				p, q := in.load(s.c[j]), in.load(s.c[j-1])
				in.store(s.c[j], q)
				in.store(s.c[j-1], p)
			}
		}
		return nil
	}
	I("sort.Slice", func(in *Interp, a []Value) Value { return sortSlice(in, a, false) })
	I("sort.SliceStable", func(in *Interp, a []Value) Value { return sortSlice(in, a, true) })

	// ---- math ----
	f1 := func(name string, f func(float64) float64) {
		I("math."+name, func(in *Interp, a []Value) Value {
			if v, ok := a[0].(FloatV); ok {
				if r, ok := in.floatFn(name, v); ok {
					return r
				}
			}
			return f(in.concFloat(a[0]))
		})
	}
	f1("Abs", math.Abs)
	f1("Floor", math.Floor)
	f1("Ceil", math.Ceil)
	f1("Trunc", math.Trunc)
	f1("Log10", math.Log10)
	f1("Sqrt", math.Sqrt)
	f1("Round", math.Round)
	I("math.Pow", func(in *Interp, a []Value) Value { return math.Pow(in.concFloat(a[0]), in.concFloat(a[1])) })
	I("math.Pow10", func(in *Interp, a []Value) Value { return math.Pow10(in.concInt(a[0])) })
	I("math.Float64bits", func(in *Interp, a []Value) Value { return in.x.K(u64(math.Float64bits(in.concFloat(a[0])))) })
	I("math/bits.TrailingZeros64", nil)
	delete(intrinsics, "math/bits.TrailingZeros64")
	I("math/bits.Len64", func(in *Interp, a []Value) Value { return bitLen(in, in.tm(a[0]), 64) })
	I("math/bits.Len", func(in *Interp, a []Value) Value { return bitLen(in, in.tm(a[0]), 64) })
	I("math/bits.Len32", func(in *Interp, a []Value) Value { return bitLen(in, in.tm(a[0]), 32) })
	I("math/bits.OnesCount32", func(in *Interp, a []Value) Value { return ones(in, in.tm(a[0]), 32) })
	I("math/bits.OnesCount", func(in *Interp, a []Value) Value { return ones(in, in.tm(a[0]), 64) })
	I("math/bits.OnesCount64", func(in *Interp, a []Value) Value { return ones(in, in.tm(a[0]), 64) })
	I("runtime.Gosched", nop)
	I("runtime.KeepAlive", nop)
	I("internal/race.Acquire", nop)
	I("internal/race.Release", nop)
	I("internal/goos.init", nop)
}

func bitLen(in *Interp, t *Term, n int) Value {
	x := in.x
	r := x.I(0)
	p := i64(1)
	for i := 1; i <= n; i++ {
		r = x.Ite(x.Le(x.K(p), t), x.I(int64(i)), r)
		p = p.add(p)
	}
	return r
}

func ones(in *Interp, t *Term, n int) Value {
	x := in.x
	r := x.I(0)
	for i := 0; i < n; i++ {
		r = x.Add(r, x.Ite(x.Eq(x.Bit(bitAnd, t, x.K(u64(1<<uint(i))), 64, false), x.I(0)), x.I(0), x.I(1)))
	}
	return r
}

func (in *Interp) appendStr(s SliceV, str *StrV) Value {
	return in.builtin(nil, nil, "append", []Value{s, str})
}

func (in *Interp) errMethod(e IfaceV, name string) *ssa.Function {
	if _, ok := e.v.(nativeIface); ok {
		return nil
	}
	ms := in.P.prog.MethodSets.MethodSet(e.t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return in.P.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// unwrapErr lists the errors e wraps directly.
func (in *Interp) unwrapErr(e IfaceV) []IfaceV {
	f := in.errMethod(e, "Unwrap")
	if f == nil {
		return nil
	}
	switch r := in.call(f, []Value{e.v}, nil).(type) {
	case IfaceV:
		if r.t != nil {
			return []IfaceV{r}
		}
	case SliceV:
		var out []IfaceV
		for _, c := range r.c {
			if i := in.load(c).(IfaceV); i.t != nil {
				out = append(out, i)
			}
		}
		return out
	}
	return nil
}

func (in *Interp) errorsIs(e, target IfaceV) bool {
	if e.t == nil || target.t == nil {
		return e.t == nil && target.t == nil
	}
	if types.Identical(e.t, target.t) && types.Comparable(e.t) && in.branch(in.equal(e.t, e.v, target.v)) {
		return true
	}
	if f := in.errMethod(e, "Is"); f != nil {
		if in.branch(in.tm(in.call(f, []Value{e.v, target}, nil))) {
			return true
		}
	}
	for _, u := range in.unwrapErr(e) {
		if in.errorsIs(u, target) {
			return true
		}
	}
	return false
}

func (in *Interp) errorsAs(e IfaceV, t types.Type, dst *Cell) bool {
	if it, ok := t.Underlying().(*types.Interface); ok {
		if types.Implements(e.t, it) {
			in.store(dst, e)
			return true
		}
	} else if types.Identical(e.t, t) {
		in.store(dst, e.v)
		return true
	}
	if f := in.errMethod(e, "As"); f != nil {
		unsupported("error with an As method")
	}
	for _, u := range in.unwrapErr(e) {
		if in.errorsAs(u, t, dst) {
			return true
		}
	}
	return false
}

// quote is strconv.Quote for printable ASCII; anything else is fixed first.
func (in *Interp) quote(s *StrV) *StrV {
	s.force()
	if s.isConc() {
		return mkStr(strconv.Quote(s.s))
	}
	x := in.x
	plain := rangeSet(32, 126)
	plain[0] &^= 1 << '"'
	plain[1] &^= 1 << ('\\' - 64)
	var cs []*Term
	for _, b := range s.t {
		cs = append(cs, x.In(b, plain))
	}
	if in.branch(x.And(cs...)) {
		return in.concat(in.concat(mkStr(`"`), s), mkStr(`"`))
	}
	return mkStr(strconv.Quote(in.concStr(s)))
}
