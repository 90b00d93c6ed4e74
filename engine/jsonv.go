package main

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// encoding/json over Go types: field names come from the struct tags of the program
// under check, and its own MarshalJSON and UnmarshalJSON methods are executed.

type jfield struct {
	name   string
	idx    int
	omit   bool
	quoted bool
	tagged bool
}

// jsonFields lists the fields encoding/json sees in a struct.
func jsonFields(st *types.Struct) []jfield {
	var fs []jfield
	for i := 0; i < st.NumFields(); i++ {
		v := st.Field(i)
		if v.Embedded() {
			unsupported("json of an embedded field")
		}
		if !v.Exported() {
			continue
		}
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		p := strings.Split(tag, ",")
		f := jfield{name: p[0], idx: i}
		f.tagged = f.name != "" && !strings.ContainsAny(f.name, "\"\\ ")
		if !f.tagged {
			f.name = v.Name()
		}
		for _, o := range p[1:] {
			switch o {
			case "omitempty":
				f.omit = true
			case "string":
				if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsNumeric|types.IsBoolean|types.IsString) != 0 {
					f.quoted = true
				}
			default:
				unsupported("json option %s", o)
			}
		}
		fs = append(fs, f)
	}
	// of several fields of one name only a single tagged one counts
	var out []jfield
	for i, f := range fs {
		keep := true
		for j, g := range fs {
			if i != j && f.name == g.name && (g.tagged || !f.tagged) {
				keep = false
			}
		}
		if keep {
			out = append(out, f)
		}
	}
	return out
}

func (in *Interp) methodOf(t types.Type, name string) *ssa.Function {
	ms := in.P.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return in.P.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

type jsonErr struct{ err IfaceV }

func (in *Interp) jsonFail(f string) {
	panic(jsonErr{in.newError(mkStr(f)).(IfaceV)})
}

func (in *Interp) jsonString(s *StrV) *StrV {
	out := []*Term{in.x.I('"')}
	x := in.x
	for _, b := range in.strBytes(s) {
		plain := rangeSet(32, 127)
		for _, c := range `"\<>&` {
			plain[c/64] &^= 1 << (c % 64)
		}
		if in.branch(x.In(b, plain)) {
			out = append(out, b)
			continue
		}
		if in.branch(x.In(b, rangeSet(128, 255))) {
			unsupported("json of a string outside ASCII")
		}
		switch c := byte(in.concretize(b).lo); c {
		case '"', '\\':
			out = append(out, x.I('\\'), x.I(int64(c)))
		default:
			e := ""
			if i := strings.IndexByte("\b\f\n\r\t", c); i >= 0 {
				e = `\` + "bfnrt"[i:i+1]
			} else {
				e = `\u00` + string("0123456789abcdef"[c>>4]) + string("0123456789abcdef"[c&15])
			}
			for i := range e {
				out = append(out, x.I(int64(e[i])))
			}
		}
	}
	return strFromTerms(append(out, x.I('"')))
}

func (in *Interp) jsonEmpty(v Value, t types.Type) bool {
	switch a := v.(type) {
	case *Term:
		if a.isBool() {
			return !in.branch(a)
		}
		return in.branch(in.x.Eq(a, in.x.I(0)))
	case *StrV:
		return a.Len() == 0
	case *Cell:
		return a == nil
	case IfaceV:
		return a.t == nil
	case SliceV:
		return len(a.c) == 0
	case *MapObj:
		return a == nil || len(a.ents) == 0
	case float64:
		return a == 0
	case FloatV:
		unsupported("whether a symbolic float is zero")
	}
	return false
}

// jsonEnc appends the encoding of v.
func (in *Interp) jsonEnc(out *[]*Term, v Value, t types.Type, c *Cell, quoted bool) {
	put := func(s *StrV) { *out = append(*out, in.strBytes(s)...) }
	if p, ok := t.Underlying().(*types.Pointer); ok && v.(*Cell) == nil {
		_ = p
		put(mkStr("null"))
		return
	}
	m, recv := in.methodOf(t, "MarshalJSON"), v
	if m == nil && c != nil {
		m, recv = in.methodOf(types.NewPointer(t), "MarshalJSON"), c
	}
	if m != nil {
		r := in.call(m, []Value{recv}, nil).(TupleV)
		if e := r[1].(IfaceV); e.t != nil {
			in.jsonFail("json: error calling MarshalJSON")
		}
		b := in.sliceToStr(r[0].(SliceV))
		p := &jsonReader{in: in, b: in.strBytes(b)}
		p.skip()
		p.space()
		if p.i != len(p.b) {
			in.jsonFail("json: error calling MarshalJSON: invalid character after top-level value")
		}
		// compact drops white space between tokens; only scalars are modelled
		i, j := 0, len(p.b)
		for i < j && p.isSpace(p.b[i]) {
			i++
		}
		for i < j && p.isSpace(p.b[j-1]) {
			j--
		}
		*out = append(*out, p.b[i:j]...)
		return
	}
	if in.methodOf(t, "MarshalText") != nil || c != nil && in.methodOf(types.NewPointer(t), "MarshalText") != nil {
		unsupported("json of a text marshaler")
	}
	q := mkStr("")
	if quoted {
		q = mkStr(`"`)
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		a := v.(*Cell)
		in.jsonEnc(out, in.load(a), u.Elem(), a, quoted)
	case *types.Interface:
		i := v.(IfaceV)
		if i.t == nil {
			put(mkStr("null"))
			return
		}
		in.jsonEnc(out, i.v, i.t, nil, quoted)
	case *types.Struct:
		s, ok := v.(StructV)
		if !ok {
			unsupported("json of %v", t)
		}
		put(mkStr("{"))
		n := 0
		for _, f := range jsonFields(u) {
			if f.omit && in.jsonEmpty(s[f.idx], u.Field(f.idx).Type()) {
				continue
			}
			if n > 0 {
				put(mkStr(","))
			}
			n++
			put(in.jsonString(mkStr(f.name)))
			put(mkStr(":"))
			var fc *Cell
			if c != nil {
				fc = c.sub[f.idx]
			}
			in.jsonEnc(out, s[f.idx], u.Field(f.idx).Type(), fc, f.quoted)
		}
		put(mkStr("}"))
	case *types.Slice:
		s := v.(SliceV)
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			if in.methodOf(u.Elem(), "MarshalJSON") == nil {
				if rm := isNamed(t, "encoding/json", "RawMessage"); !rm {
					unsupported("json of bytes")
				}
			}
		}
		if !s.nn {
			put(mkStr("null"))
			return
		}
		put(mkStr("["))
		for i, e := range s.c {
			if i > 0 {
				put(mkStr(","))
			}
			in.jsonEnc(out, in.load(e), u.Elem(), e, false)
		}
		put(mkStr("]"))
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			s := in.jsonString(in.str(v))
			if quoted {
				unsupported("json string option on a string")
			}
			put(s)
		case u.Info()&types.IsInteger != 0:
			put(q)
			put(in.itoa(in.tm(v)))
			put(q)
		case u.Info()&types.IsBoolean != 0:
			put(q)
			if in.branch(in.tm(v)) {
				put(mkStr("true"))
			} else {
				put(mkStr("false"))
			}
			put(q)
		default:
			unsupported("json of %v", t)
		}
	default:
		unsupported("json of %v", t)
	}
}

type jsonReader struct {
	in *Interp
	b  []*Term
	i  int
}

func (p *jsonReader) is(c byte) bool {
	return p.i < len(p.b) && p.in.branch(p.in.x.Eq(p.b[p.i], p.in.x.I(int64(c))))
}

func (p *jsonReader) isSpace(t *Term) bool {
	var s Set256
	for _, c := range " \t\r\n" {
		s.add(byte(c))
	}
	return p.in.branch(p.in.x.In(t, s))
}

func (p *jsonReader) space() {
	for p.i < len(p.b) && p.isSpace(p.b[p.i]) {
		p.i++
	}
}

func (p *jsonReader) bad() { p.in.jsonFail("invalid character or unexpected end of JSON input") }

func (p *jsonReader) eat(c byte) {
	if !p.is(c) {
		p.bad()
	}
	p.i++
}

func (p *jsonReader) word(w string) {
	for i := range w {
		p.eat(w[i])
	}
}

func (p *jsonReader) digits() int {
	n := 0
	for p.i < len(p.b) && p.in.branch(p.in.x.In(p.b[p.i], rangeSet('0', '9'))) {
		p.i++
		n++
	}
	return n
}

// run is the length of a run of decimal digits of one number that ends before
// something known.
func (p *jsonReader) run() int {
	n := 0
	var base *Term
	for p.i+n < len(p.b) {
		d := p.in.x.Sub(p.b[p.i+n], p.in.x.I('0'))
		if base == nil && d.op == OConst && d.k.sign() >= 0 && d.k.le(i64(9)) {
			n++
			continue
		}
		if d.op != ODigit || base != nil && d.args[0] != base {
			break
		}
		base = d.args[0]
		n++
	}
	if p.i+n < len(p.b) {
		if c := p.b[p.i+n]; c.op != OConst || strings.IndexByte(",]} \t\r\n", byte(c.k.lo)) < 0 {
			return 0
		}
	}
	return n
}

// kind tells the next value: { [ " t f n 0
func (p *jsonReader) kind() byte {
	p.space()
	if p.i >= len(p.b) {
		p.bad()
	}
	for _, c := range []byte(`{["tfn`) {
		if p.is(c) {
			return c
		}
	}
	return '0'
}

func (p *jsonReader) text() *StrV {
	p.eat('"')
	var out []*Term
	x := p.in.x
	for !p.is('"') {
		if p.i >= len(p.b) {
			p.bad()
		}
		b := p.b[p.i]
		if p.is('\\') {
			p.i++
			if p.i >= len(p.b) {
				p.bad()
			}
			c := byte(p.in.concretize(p.b[p.i]).lo)
			p.i++
			switch {
			case c == 'u':
				if p.i+4 > len(p.b) {
					p.bad()
				}
				n := 0
				for k := 0; k < 4; k++ {
					h := strings.IndexByte("0123456789abcdef", lower(byte(p.in.concretize(p.b[p.i]).lo)))
					if h < 0 {
						p.bad()
					}
					n = n*16 + h
					p.i++
				}
				if n >= 0xd800 && n < 0xe000 {
					unsupported("json surrogates")
				}
				for _, e := range []byte(string(rune(n))) {
					out = append(out, x.I(int64(e)))
				}
			case strings.IndexByte(`"\/`, c) >= 0:
				out = append(out, x.I(int64(c)))
			default:
				k := strings.IndexByte("bfnrt", c)
				if k < 0 {
					p.bad()
				}
				out = append(out, x.I(int64("\b\f\n\r\t"[k])))
			}
			continue
		}
		if p.in.branch(x.In(b, rangeSet(0, 31))) {
			p.bad()
		}
		if p.in.branch(x.In(b, rangeSet(128, 255))) {
			unsupported("json text outside ASCII")
		}
		out = append(out, b)
		p.i++
	}
	p.i++
	return strFromTerms(out)
}

func lower(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		return c + 32
	}
	return c
}

// number reads a number literal; it tells whether it is an integer literal.
func (p *jsonReader) number() bool {
	if p.is('-') {
		p.i++
	}
	if n := p.run(); n > 0 {
		// the digits of one number: a leading zero says that it is smaller
		if t := p.in.wholeDigits(p.b[p.i : p.i+n]); t != nil && (n == 1 || !p.in.branch(p.in.x.Lt(t, p.in.x.K(pow10tab[n-1])))) {
			p.i += n
			return true
		}
	}
	if p.is('0') {
		p.i++
	} else if p.digits() == 0 {
		p.bad()
	}
	whole := true
	if p.is('.') {
		p.i++
		whole = false
		if p.digits() == 0 {
			p.bad()
		}
	}
	if p.is('e') || p.is('E') {
		p.i++
		whole = false
		if p.is('+') || p.is('-') {
			p.i++
		}
		if p.digits() == 0 {
			p.bad()
		}
	}
	return whole
}

// skip passes over one value.
func (p *jsonReader) skip() {
	switch p.kind() {
	case '{':
		p.list('}', func() {
			p.space()
			p.text()
			p.space()
			p.eat(':')
			p.skip()
		})
	case '[':
		p.list(']', p.skip)
	case '"':
		p.text()
	case 't':
		p.word("true")
	case 'f':
		p.word("false")
	case 'n':
		p.word("null")
	default:
		p.number()
	}
}

func (p *jsonReader) list(end byte, elem func()) {
	p.i++
	p.space()
	if p.is(end) {
		p.i++
		return
	}
	for {
		elem()
		p.space()
		if p.is(',') {
			p.i++
			continue
		}
		p.eat(end)
		return
	}
}

// dec decodes one value into c; it reports a type mismatch by returning false.
func (p *jsonReader) dec(c *Cell, t types.Type, quoted bool) bool {
	in := p.in
	k := p.kind()
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if k == 'n' {
			p.word("null")
			in.store(c, (*Cell)(nil))
			return true
		}
		a := in.load(c).(*Cell)
		if a == nil {
			a = in.newCell(pt.Elem())
			in.store(c, a)
		}
		return p.dec(a, pt.Elem(), quoted)
	}
	if m := in.methodOf(types.NewPointer(t), "UnmarshalJSON"); m != nil {
		from := p.i
		p.skip()
		r := in.call(m, []Value{c, in.bytesToSlice(p.b[from:p.i])}, nil).(IfaceV)
		if r.t != nil {
			panic(jsonErr{r})
		}
		return true
	}
	if in.methodOf(types.NewPointer(t), "UnmarshalText") != nil {
		unsupported("json of a text unmarshaler")
	}
	if k == 'n' {
		p.word("null")
		return true
	}
	if quoted {
		if k != '"' {
			in.jsonFail("json: invalid use of ,string struct tag")
		}
		p.i++
		ok := p.dec(c, t, false)
		p.eat('"')
		return ok
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if k != '{' {
			p.skip()
			return false
		}
		if _, ok := in.load(c).(StructV); !ok {
			unsupported("json into %v", t)
		}
		fs := jsonFields(u)
		good := true
		p.list('}', func() {
			p.space()
			name := in.concStr(p.text())
			p.space()
			p.eat(':')
			var hit *jfield
			for i := range fs {
				if fs[i].name == name {
					hit = &fs[i]
					break
				}
			}
			for i := range fs {
				if hit == nil && strings.EqualFold(fs[i].name, name) {
					hit = &fs[i]
				}
			}
			if hit == nil {
				p.skip()
				return
			}
			if !p.dec(c.sub[hit.idx], u.Field(hit.idx).Type(), hit.quoted) {
				good = false
			}
		})
		return good
	case *types.Slice:
		if k != '[' {
			p.skip()
			return false
		}
		good := true
		s := SliceV{nn: true}
		p.list(']', func() {
			e := in.newCell(u.Elem())
			if !p.dec(e, u.Elem(), false) {
				good = false
			}
			s.c = append(s.c, e)
		})
		in.store(c, s)
		return good
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if k != '"' {
				p.skip()
				return false
			}
			in.store(c, p.text())
			return true
		case u.Info()&types.IsBoolean != 0:
			if k != 't' && k != 'f' {
				p.skip()
				return false
			}
			if k == 't' {
				p.word("true")
			} else {
				p.word("false")
			}
			in.store(c, in.x.B(k == 't'))
			return true
		case u.Info()&types.IsInteger != 0:
			if k != '0' {
				p.skip()
				return false
			}
			from := p.i
			if !p.number() {
				return false
			}
			lit := p.b[from:p.i]
			v := in.decimal(lit)
			if v == nil {
				unsupported("json integer literal")
			}
			n, signed, _ := intKind(u)
			lo, hi := intRange(n, signed)
			if !in.branch(in.x.And(in.x.Le(in.x.K(lo), v), in.x.Le(v, in.x.K(hi)))) {
				return false
			}
			in.store(c, in.x.simp(v))
			return true
		}
	}
	unsupported("json into %v", t)
	return false
}

func intRange(n int, signed bool) (I128, I128) {
	if signed {
		h := u64(1 << uint(n-1))
		return h.neg(), h.sub(i64(1))
	}
	if n == 64 {
		return I128{}, u64(^uint64(0))
	}
	return I128{}, u64(1<<uint(n) - 1)
}

// decimal is the value of an optional sign and decimal digits: at once when they
// are the digits of one term, as a sum when they are few.
func (in *Interp) decimal(b []*Term) *Term {
	x := in.x
	neg := false
	if len(b) > 0 && b[0].op == OConst && (b[0].k.lo == '-' || b[0].k.lo == '+') {
		neg = b[0].k.lo == '-'
		b = b[1:]
	}
	if len(b) == 0 {
		return nil
	}
	if t := in.wholeDigits(b); t != nil {
		if neg {
			return x.Neg(t)
		}
		return t
	}
	if len(b) > 18 {
		return nil
	}
	t := x.I(0)
	for _, d := range b {
		t = x.Add(x.MulK(t, i64(10)), x.Sub(d, x.I('0')))
	}
	if neg {
		return x.Neg(t)
	}
	return t
}

// wholeDigits returns the term whose decimal digits b are: digits of one term, after
// known ones where the path condition fixes those.
func (in *Interp) wholeDigits(b []*Term) *Term {
	x := in.x
	var base *Term
	top := I128{}
	low := 0
	for i, c := range b {
		d := x.Sub(c, x.I('0'))
		pos := len(b) - 1 - i
		if base == nil && d.op == OConst {
			top = x.MulK(x.K(top), i64(10)).k.add(d.k)
			continue
		}
		if d.op != ODigit || int(d.k.lo) != pos {
			return nil
		}
		if base == nil {
			base, low = d.args[0], pos+1
		}
		if d.args[0] != base {
			return nil
		}
	}
	if base == nil || len(b) > 30 {
		return nil
	}
	from, ok1 := top.mul(pow10tab[low])
	to, ok2 := top.add(i64(1)).mul(pow10tab[low])
	if !ok1 || !ok2 || !in.holds(x.And(x.Le(x.K(from), base), x.Lt(base, x.K(to)))) {
		return nil
	}
	return base
}

func (in *Interp) jsonMarshal(v IfaceV) (res Value) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(jsonErr)
			if !ok {
				panic(r)
			}
			res = TupleV{SliceV{}, e.err}
		}
	}()
	var out []*Term
	if v.t == nil {
		out = in.strBytes(mkStr("null"))
	} else {
		in.jsonEnc(&out, v.v, v.t, nil, false)
	}
	return TupleV{in.bytesToSlice(out), IfaceV{}}
}

func (in *Interp) jsonUnmarshal(b []*Term, dst IfaceV) (res Value) {
	fr, depth := in.fr, in.depth
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(jsonErr)
			if !ok {
				panic(r)
			}
			in.fr, in.depth = fr, depth
			res = e.err
		}
	}()
	pt, ok := types.Type(nil), false
	if dst.t != nil {
		if p, isp := dst.t.Underlying().(*types.Pointer); isp && dst.v.(*Cell) != nil {
			pt, ok = p.Elem(), true
		}
	}
	if !ok {
		in.jsonFail("json: Unmarshal needs a pointer")
	}
	// the whole text is checked before anything is decoded
	chk := &jsonReader{in: in, b: b}
	chk.skip()
	chk.space()
	if chk.i != len(b) {
		chk.bad()
	}
	p := &jsonReader{in: in, b: b}
	if !p.dec(dst.v.(*Cell), pt, false) {
		in.jsonFail("json: cannot unmarshal a value into a Go value of its type")
	}
	return IfaceV{}
}

func init() {
	I := func(n string, f intrinsic) { intrinsics[n] = f }
	I("encoding/json.Marshal", func(in *Interp, a []Value) Value { return in.jsonMarshal(a[0].(IfaceV)) })
	I("encoding/json.Unmarshal", func(in *Interp, a []Value) Value {
		return in.jsonUnmarshal(in.strBytes(in.sliceToStr(a[0].(SliceV))), a[1].(IfaceV))
	})
	I("encoding/json.Valid", func(in *Interp, a []Value) (res Value) {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(jsonErr); !ok {
					panic(r)
				}
				res = in.x.False
			}
		}()
		p := &jsonReader{in: in, b: in.strBytes(in.sliceToStr(a[0].(SliceV)))}
		p.skip()
		p.space()
		return in.x.B(p.i == len(p.b))
	})
	// a text made of the digits of one number is that number; anything else is parsed
	// by the real code
	intrinsics["strconv.ParseInt"] = func(in *Interp, a []Value) Value {
		s := in.str(a[0])
		base, size := in.tm(a[1]), in.tm(a[2])
		if !s.isConc() && base.op == OConst && base.k.lo == 10 && size.op == OConst && (size.k.lo == 64 || size.k.lo == 0) {
			b := s.t
			neg := b[0].op == OConst && b[0].k.lo == '-'
			if neg {
				b = b[1:]
			}
			if t := in.wholeDigits(b); t != nil {
				if neg {
					t = in.x.Neg(t)
				}
				lo, hi := intRange(64, true)
				if in.holds(in.x.And(in.x.Le(in.x.K(lo), t), in.x.Le(t, in.x.K(hi)))) {
					return TupleV{in.x.simp(t), IfaceV{}}
				}
			}
		}
		return fallThrough{}
	}
}

type fallThrough struct{}
