package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// fmt is modelled for the verbs %s %v %d %q %t %T %x %c with width and zero
// padding. A formatted string is built only when something looks at it.

func (in *Interp) fmtArgs(v Value) []IfaceV {
	s, ok := v.(SliceV)
	if !ok {
		unsupported("fmt arguments")
	}
	out := make([]IfaceV, len(s.c))
	for i, c := range s.c {
		out[i], ok = in.load(c).(IfaceV)
		if !ok {
			unsupported("fmt argument")
		}
	}
	return out
}

// plainArg says that formatting the argument later gives the same result as now.
func plainArg(in *Interp, a IfaceV) bool {
	if a.t == nil {
		return true
	}
	switch a.v.(type) {
	case *StrV, *Term, float64, FloatV, *TimeV:
		return true
	}
	return in.errMethod(a, "Error") != nil
}

func (in *Interp) sprintf(format *StrV, args []IfaceV) *StrV {
	args = append([]IfaceV{}, args...)
	for i, a := range args {
		if plainArg(in, a) {
			continue
		}
		m, ok := a.v.(*MapObj)
		if !ok || a.t == nil || in.errMethod(a, "String") != nil {
			return in.format(in.concStr(format), args)
		}
		var c *MapObj
		if m != nil { // what the map holds now is what will be shown
			c = &MapObj{}
			for _, e := range m.ents {
				v := in.load(e.v)
				for _, x := range []Value{e.k, v} {
					switch x.(type) {
					case *StrV, *Term, float64, FloatV:
					default:
						return in.format(in.concStr(format), args)
					}
				}
				c.ents = append(c.ents, &mapEntry{k: e.k, v: in.cellFor(v)})
			}
		}
		args[i].v = c
	}
	format.force()
	return &StrV{lazy: func() *StrV { return in.format(in.concStr(format), args).force() }}
}

func (in *Interp) format(f string, args []IfaceV) *StrV {
	out := mkStr("")
	lit := 0
	ai := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			i++
			continue
		}
		out = in.concat(out, mkStr(f[lit:i]))
		j := i + 1
		flags := ""
		for j < len(f) && strings.IndexByte("0-+# ", f[j]) >= 0 {
			flags += f[j : j+1]
			j++
		}
		width := -1
		for j < len(f) && f[j] >= '0' && f[j] <= '9' {
			if width < 0 {
				width = 0
			}
			width = width*10 + int(f[j]-'0')
			j++
		}
		if j < len(f) && (f[j] == '.' || f[j] == '*' || f[j] == '[') {
			unsupported("format %q", f)
		}
		if j >= len(f) {
			out = in.concat(out, mkStr("%!(NOVERB)"))
			i = j
			lit = j
			break
		}
		v := f[j]
		if v >= 0x80 {
			unsupported("format %q", f)
		}
		i = j + 1
		lit = i
		if v == '%' {
			out = in.concat(out, mkStr("%"))
			continue
		}
		if ai >= len(args) {
			out = in.concat(out, mkStr("%!"+string(v)+"(MISSING)"))
			continue
		}
		out = in.concat(out, in.verb(v, flags, width, args[ai], 0))
		ai++
	}
	out = in.concat(out, mkStr(f[lit:]))
	if ai < len(args) {
		out = in.concat(out, mkStr("%!(EXTRA "))
		for k := ai; k < len(args); k++ {
			if k > ai {
				out = in.concat(out, mkStr(", "))
			}
			if args[k].t == nil {
				out = in.concat(out, mkStr("<nil>"))
				continue
			}
			out = in.concat(out, in.concat(mkStr(typeName(args[k].t)+"="), in.verb('v', "", -1, args[k], 0)))
		}
		out = in.concat(out, mkStr(")"))
	}
	return out
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (in *Interp) padStr(s *StrV, flags string, width int) *StrV {
	if width < 0 {
		return s
	}
	n := s.Len()
	if s.t != nil {
		for _, b := range s.t {
			if _, hi := in.x.ival(b); hi.i64() >= 0x80 {
				n = len([]rune(in.concStr(s)))
				break
			}
		}
	} else {
		n = len([]rune(s.s))
	}
	if n >= width {
		return s
	}
	if strings.Contains(flags, "-") {
		return in.concat(s, mkStr(strings.Repeat(" ", width-n)))
	}
	p := " "
	if strings.Contains(flags, "0") {
		p = "0"
	}
	return in.concat(mkStr(strings.Repeat(p, width-n)), s)
}

func (in *Interp) fmtInt(v byte, flags string, width int, t *Term) *StrV {
	plus := strings.Contains(flags, "+")
	if strings.ContainsAny(flags, "# ") {
		unsupported("integer flag")
	}
	if v != 'd' && v != 'v' {
		t = in.x.K(in.concretize(t))
		s := fmt.Sprintf("%"+flags+widthStr(width)+string(v), t.k.big())
		return mkStr(s)
	}
	if strings.Contains(flags, "0") && !strings.Contains(flags, "-") && width > 0 && !plus {
		lo, _ := in.x.ival(in.x.simp(t))
		if lo.sign() >= 0 {
			return in.padFixed(t, width)
		}
		return in.padInt(t, width, true)
	}
	s := in.padInt(t, 1, false)
	if plus && (s.Len() == 0 || in.branch(in.x.Le(in.x.I(0), t))) {
		s = in.concat(mkStr("+"), s)
	}
	return in.padStr(s, strings.ReplaceAll(flags, "0", ""), width)
}

func widthStr(w int) string {
	if w < 0 {
		return ""
	}
	return strconv.Itoa(w)
}

func (in *Interp) verb(v byte, flags string, width int, a IfaceV, depth int) *StrV {
	if v == 'w' {
		v = 'v'
	}
	if v == 'T' {
		if a.t == nil {
			return in.padStr(mkStr("<nil>"), flags, width)
		}
		return in.padStr(mkStr(typeName(a.t)), flags, width)
	}
	if a.t == nil {
		if v == 'v' {
			return in.padStr(mkStr("<nil>"), flags, width)
		}
		return mkStr("%!" + string(v) + "(<nil>)")
	}
	if v == 'p' {
		unsupported("%%p")
	}
	if strings.Contains(flags, "#") && v == 'v' {
		unsupported("%%#v")
	}
	if strings.IndexByte("sqvxX", v) >= 0 {
		if m := in.errMethod(a, "Error"); m != nil && isStringMethod(m.Signature) {
			return in.fmtStr(v, flags, width, in.str(in.call(m, []Value{a.v}, nil)))
		}
		if m := in.errMethod(a, "String"); m != nil && isStringMethod(m.Signature) {
			if c, ok := a.v.(*Cell); ok && c == nil {
				return mkStr("<nil>")
			}
			return in.fmtStr(v, flags, width, in.str(in.call(m, []Value{a.v}, nil)))
		}
	}
	switch x := a.v.(type) {
	case *StrV:
		return in.fmtStr(v, flags, width, x)
	case *Term:
		if x.isBool() {
			if v != 'v' && v != 't' {
				return in.concat(in.concat(mkStr("%!"+string(v)+"(bool="), in.verb('t', "", -1, a, 0)), mkStr(")"))
			}
			if in.branch(x) {
				return in.padStr(mkStr("true"), flags, width)
			}
			return in.padStr(mkStr("false"), flags, width)
		}
		if strings.IndexByte("dvxXobc", v) < 0 {
			return in.concat(in.concat(mkStr("%!"+string(v)+"("+typeName(a.t)+"="), in.verb('d', "", -1, a, 0)), mkStr(")"))
		}
		return in.fmtInt(v, flags, width, x)
	case float64, FloatV:
		return mkStr(fmt.Sprintf("%"+flags+widthStr(width)+string(v), in.concFloat(x)))
	case SliceV:
		if isByteSlice(a.t) && (v == 's' || v == 'q' || v == 'x') {
			return in.fmtStr(v, flags, width, in.sliceToStr(x))
		}
		out := mkStr("[")
		et := a.t.Underlying().(*types.Slice).Elem()
		for i, c := range x.c {
			if i > 0 {
				out = in.concat(out, mkStr(" "))
			}
			out = in.concat(out, in.verb(v, flags, width, in.asIface(et, in.load(c)), depth+1))
		}
		return in.concat(out, mkStr("]"))
	case StructV:
		out := mkStr("{")
		st := a.t.Underlying().(*types.Struct)
		for i, fv := range x {
			if i > 0 {
				out = in.concat(out, mkStr(" "))
			}
			out = in.concat(out, in.verb(v, flags, width, in.asIface(st.Field(i).Type(), fv), depth+1))
		}
		return in.concat(out, mkStr("}"))
	case *MapObj:
		mt := a.t.Underlying().(*types.Map)
		type kv struct {
			k string
			v *Cell
		}
		var ents []kv
		if x != nil {
			for _, e := range x.ents {
				k, ok := e.k.(*StrV)
				if !ok {
					unsupported("formatting a %v", a.t)
				}
				ents = append(ents, kv{in.concStr(k), e.v})
			}
		}
		sort.Slice(ents, func(i, j int) bool { return ents[i].k < ents[j].k })
		out := mkStr("map[")
		for i, e := range ents {
			if i > 0 {
				out = in.concat(out, mkStr(" "))
			}
			out = in.concat(out, in.verb(v, flags, width, in.asIface(mt.Key(), mkStr(e.k)), depth+1))
			out = in.concat(out, mkStr(":"))
			out = in.concat(out, in.verb(v, flags, width, in.asIface(mt.Elem(), in.load(e.v)), depth+1))
		}
		return in.concat(out, mkStr("]"))
	case *Cell:
		if x == nil {
			return mkStr("<nil>")
		}
		pt, ok := a.t.Underlying().(*types.Pointer)
		if ok && depth == 0 {
			switch pt.Elem().Underlying().(type) {
			case *types.Struct, *types.Array:
				return in.concat(mkStr("&"), in.verb(v, flags, width, in.asIface(pt.Elem(), in.load(x)), depth+1))
			}
		}
	}
	unsupported("formatting a %v with %%%c", a.t, v)
	return nil
}

func (in *Interp) asIface(t types.Type, v Value) IfaceV {
	if i, ok := v.(IfaceV); ok {
		return i
	}
	return IfaceV{t: t, v: v}
}

func isStringMethod(s *types.Signature) bool {
	return s.Params().Len() == 0 && s.Results().Len() == 1 && isString(s.Results().At(0).Type())
}

func (in *Interp) fmtStr(v byte, flags string, width int, s *StrV) *StrV {
	switch v {
	case 's', 'v':
		return in.padStr(s.force(), flags, width)
	case 'q':
		return in.padStr(in.quote(s), flags, width)
	case 'x', 'X':
		return mkStr(fmt.Sprintf("%"+flags+widthStr(width)+string(v), in.concStr(s)))
	}
	return in.concat(in.concat(mkStr("%!"+string(v)+"(string="), s.force()), mkStr(")"))
}

func (in *Interp) sprint(args []IfaceV, ln bool) *StrV {
	out := mkStr("")
	prevStr := false
	for i, a := range args {
		isStr := false
		if a.t != nil {
			if b, ok := a.t.(*types.Basic); ok && b.Kind() == types.String {
				isStr = true
			}
			if n, ok := a.t.Underlying().(*types.Basic); ok && n.Info()&types.IsString != 0 {
				isStr = true
			}
		}
		if i > 0 && (ln || !isStr && !prevStr) {
			out = in.concat(out, mkStr(" "))
		}
		out = in.concat(out, in.verb('v', "", -1, a, 0))
		prevStr = isStr
	}
	if ln {
		out = in.concat(out, mkStr("\n"))
	}
	return out
}

// errorf is fmt.Errorf: the wrapped error is kept, the message is lazy.
func (in *Interp) errorf(format *StrV, args []IfaceV) Value {
	f := in.concStr(format)
	msg := in.sprintf(format, args)
	var wrapped []IfaceV
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("0123456789-+# .", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			break
		}
		if f[j] == 'w' && ai < len(args) {
			if args[ai].t != nil && in.errMethod(args[ai], "Error") != nil {
				wrapped = append(wrapped, args[ai])
			}
		}
		if f[j] != '%' {
			ai++
		}
		i = j
	}
	pkg := in.P.prog.ImportedPackage("fmt")
	switch len(wrapped) {
	case 0:
		return in.newError(msg)
	case 1:
		t := types.NewPointer(pkg.Type("wrapError").Type())
		return IfaceV{t: t, v: in.cellFor(StructV{msg, wrapped[0]})}
	default:
		t := types.NewPointer(pkg.Type("wrapErrors").Type())
		vs := make([]Value, len(wrapped))
		for i := range wrapped {
			vs[i] = wrapped[i]
		}
		return IfaceV{t: t, v: in.cellFor(StructV{msg, in.mkSlice(vs)})}
	}
}

func (in *Interp) writeOut(s *StrV) { in.stdout = append(in.stdout, s) }

// writeTo writes to an io.Writer value.
func (in *Interp) writeTo(w IfaceV, s *StrV) Value {
	if w.t == nil {
		in.panicRT("invalid memory address or nil pointer dereference")
	}
	m := in.errMethod(w, "Write")
	if m == nil {
		unsupported("writer %v", w.t)
	}
	return in.call(m, []Value{w.v, in.bytesToSlice(in.strBytes(s))}, nil)
}

func init() {
	I := func(n string, f intrinsic) { intrinsics[n] = f }
	nilErr := func(in *Interp, s *StrV) Value { return TupleV{in.x.I(int64(s.Len())), IfaceV{}} }
	I("fmt.Sprintf", func(in *Interp, a []Value) Value { return in.sprintf(in.str(a[0]), in.fmtArgs(a[1])) })
	I("fmt.Sprint", func(in *Interp, a []Value) Value { return in.sprint(in.fmtArgs(a[0]), false) })
	I("fmt.Sprintln", func(in *Interp, a []Value) Value { return in.sprint(in.fmtArgs(a[0]), true) })
	I("fmt.Errorf", func(in *Interp, a []Value) Value { return in.errorf(in.str(a[0]), in.fmtArgs(a[1])) })
	I("fmt.Printf", func(in *Interp, a []Value) Value {
		s := in.format(in.concStr(in.str(a[0])), in.fmtArgs(a[1]))
		in.writeOut(s)
		return nilErr(in, s)
	})
	I("fmt.Print", func(in *Interp, a []Value) Value {
		s := in.sprint(in.fmtArgs(a[0]), false)
		in.writeOut(s)
		return nilErr(in, s)
	})
	I("fmt.Println", func(in *Interp, a []Value) Value {
		s := in.sprint(in.fmtArgs(a[0]), true)
		in.writeOut(s)
		return nilErr(in, s)
	})
	I("fmt.Fprintf", func(in *Interp, a []Value) Value {
		return in.writeTo(a[0].(IfaceV), in.format(in.concStr(in.str(a[1])), in.fmtArgs(a[2])))
	})
	I("fmt.Fprint", func(in *Interp, a []Value) Value {
		return in.writeTo(a[0].(IfaceV), in.sprint(in.fmtArgs(a[1]), false))
	})
	I("fmt.Fprintln", func(in *Interp, a []Value) Value {
		return in.writeTo(a[0].(IfaceV), in.sprint(in.fmtArgs(a[1]), true))
	})
}
