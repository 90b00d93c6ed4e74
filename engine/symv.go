package main

import (
	"fmt"
	"go/types"
	"strconv"
)

const symPkg = "verif/harness/sym"

func showObs(in *Interp, v Value) string {
	switch a := v.(type) {
	case IfaceV:
		if a.t == nil {
			return "nil"
		}
		return showObs(in, a.v)
	case *StrV:
		return strconv.Quote(a.conc())
	case *Term:
		if a.isBool() {
			return strconv.FormatBool(a.cb())
		}
		return a.c.String()
	case SliceV:
		return strconv.Quote(in.sliceToStr(a).conc())
	}
	return fmt.Sprintf("%T", v)
}

func (in *Interp) boolArgs(v Value) []*Term {
	s := v.(SliceV)
	out := make([]*Term, len(s.c))
	for i, c := range s.c {
		out[i] = in.tm(in.load(c))
	}
	return out
}

func (in *Interp) validDate(y, m, d *Term) *Term {
	x := in.x
	return x.And(x.Le(x.I(1), m), x.Le(m, x.I(12)), x.Le(x.I(1), d), x.Le(d, in.daysInTerm(m, y)))
}

// reachable collects the mutable cells reachable from v.
func (in *Interp) reachable(v Value, seen map[interface{}]bool) {
	switch a := v.(type) {
	case *Cell:
		if a == nil || seen[a] {
			return
		}
		if _, ok := in.locs[a]; ok {
			return
		}
		if a == in.utcCell() || a == in.localCell() {
			return
		}
		seen[a] = true
		for _, f := range a.sub {
			in.reachable(f, seen)
		}
		if a.agg == 0 {
			in.reachable(a.v, seen)
		}
	case IfaceV:
		in.reachable(a.v, seen)
	case SliceV:
		for _, c := range a.c {
			in.reachable(c, seen)
		}
	case *MapObj:
		if a == nil || seen[a] {
			return
		}
		seen[a] = true
		for _, e := range a.ents {
			in.reachable(e.k, seen)
			in.reachable(e.v, seen)
		}
	case StructV:
		for _, f := range a {
			in.reachable(f, seen)
		}
	case ArrayV:
		for _, f := range a {
			in.reachable(f, seen)
		}
	}
}

func (in *Interp) matchTerm(re string, s *StrV) *Term {
	p, err := in.compile(mkStr(re))
	if err != nil {
		unsupported("harness pattern: %v", err)
	}
	return in.reMatch(p, s)
}

func init() {
	S := func(n string, f intrinsic) { intrinsics[symPkg+"."+n] = f }
	full := fullSet
	S("String", func(in *Interp, a []Value) Value {
		return in.symBytes(in.concStr(in.str(a[0])), in.concInt(a[1]), full)
	})
	S("StringIn", func(in *Interp, a []Value) Value {
		al := in.concStr(in.str(a[2]))
		var dom Set256
		for i := 0; i < len(al); i++ {
			dom.add(al[i])
		}
		return in.symBytes(in.concStr(in.str(a[0])), in.concInt(a[1]), dom)
	})
	S("Digits", func(in *Interp, a []Value) Value {
		return in.symBytes(in.concStr(in.str(a[0])), in.concInt(a[1]), digitSet)
	})
	S("Int", func(in *Interp, a []Value) Value {
		return in.symInt(in.concStr(in.str(a[0])), i64(int64(in.concInt(a[1]))), i64(int64(in.concInt(a[2]))))
	})
	S("Int64", func(in *Interp, a []Value) Value {
		return in.symInt(in.concStr(in.str(a[0])), i64(-1<<63), i64(1<<63-1))
	})
	S("Uint32", func(in *Interp, a []Value) Value {
		return in.symInt(in.concStr(in.str(a[0])), i64(0), i64(1<<32-1))
	})
	S("Bool", func(in *Interp, a []Value) Value { return in.symBool(in.concStr(in.str(a[0]))) })
	S("Choice", func(in *Interp, a []Value) Value {
		n := in.concInt(a[1])
		t := in.symInt(in.concStr(in.str(a[0])), i64(0), i64(int64(n-1)))
		return in.x.K(in.concretize(t))
	})
	S("Pin", func(in *Interp, a []Value) Value { return in.x.K(in.concretize(in.tm(a[0]))) })
	S("PinStr", func(in *Interp, a []Value) Value { return mkStr(in.concStr(in.str(a[0]))) })
	S("Assume", func(in *Interp, a []Value) Value { in.assume(in.tm(a[0])); return nil })
	S("Assert", func(in *Interp, a []Value) Value { in.assert(in.tm(a[0]), in.concStr(in.str(a[1]))); return nil })
	S("Cover", func(in *Interp, a []Value) Value { in.p.covers[in.concStr(in.str(a[0]))] = true; return nil })
	S("Observe", func(in *Interp, a []Value) Value {
		in.p.obs = append(in.p.obs, obs{in.concStr(in.str(a[0])), showObs(in, a[1])})
		return nil
	})
	S("And", func(in *Interp, a []Value) Value { return in.x.And(in.boolArgs(a[0])...) })
	S("Or", func(in *Interp, a []Value) Value { return in.x.Or(in.boolArgs(a[0])...) })
	S("Not", func(in *Interp, a []Value) Value { return in.x.Not(in.tm(a[0])) })
	S("Implies", func(in *Interp, a []Value) Value { return in.x.Or(in.x.Not(in.tm(a[0])), in.tm(a[1])) })
	S("Iff", func(in *Interp, a []Value) Value {
		p, q := in.tm(a[0]), in.tm(a[1])
		return in.x.Or(in.x.And(p, q), in.x.And(in.x.Not(p), in.x.Not(q)))
	})
	ite := func(in *Interp, a []Value) Value { return in.x.Ite(in.tm(a[0]), in.tm(a[1]), in.tm(a[2])) }
	S("Ite", ite)
	S("Ite64", ite)
	S("EqStr", func(in *Interp, a []Value) Value { return in.strEq(in.str(a[0]), in.str(a[1])) })
	S("In", func(in *Interp, a []Value) Value {
		al := in.concStr(in.str(a[1]))
		var dom Set256
		for i := 0; i < len(al); i++ {
			dom.add(al[i])
		}
		t := in.tm(a[0])
		if t.op == OConst {
			return in.x.B(dom.has(byte(t.k.lo)))
		}
		return in.x.In(t, dom)
	})
	S("Match", func(in *Interp, a []Value) Value { return in.matchTerm(in.concStr(in.str(a[0])), in.str(a[1])) })
	S("Num", func(in *Interp, a []Value) Value {
		t := in.x.I(0)
		for _, b := range in.strBytes(in.str(a[0])) {
			t = in.x.Add(in.x.MulK(t, i64(10)), in.x.Sub(b, in.x.I('0')))
		}
		return t
	})
	S("Pad", func(in *Interp, a []Value) Value {
		w := in.concInt(a[1])
		t := in.tm(a[0])
		if !in.branch(in.x.And(in.x.Le(in.x.I(0), t), in.x.Lt(t, in.x.K(pow10tab[w])))) {
			unsupported("sym.Pad: the number does not fit")
		}
		return strFromTerms(in.x.decDigits(in.x.simp(t), w))
	})
	S("DaysIn", func(in *Interp, a []Value) Value { return in.daysInTerm(in.tm(a[1]), in.tm(a[0])) })
	S("Secs", func(in *Interp, a []Value) Value {
		y, m, d, sod := in.tm(a[0]), in.tm(a[1]), in.tm(a[2]), in.tm(a[3])
		if !in.branch(in.validDate(y, m, d)) {
			unsupported("sym.Secs of an impossible date")
		}
		return in.x.Secs(in.x.simp(y), in.x.simp(m), in.x.simp(d), in.x.simp(sod))
	})
	S("Tier", func(in *Interp, a []Value) Value { return in.x.I(int64(in.tier)) })
	S("N", func(in *Interp, a []Value) Value { return a[in.tier] })
	S("Budget", func(in *Interp, a []Value) Value { return nil })
	S("GlobalsWritten", func(in *Interp, a []Value) Value { return in.x.I(int64(in.repoWrites)) })
	S("Together", func(in *Interp, a []Value) Value {
		for _, v := range a {
			f := v.(*FuncV)
			in.call(f.fn, nil, f.env)
		}
		return nil
	})
	S("Shared", func(in *Interp, a []Value) Value {
		p, q := map[interface{}]bool{}, map[interface{}]bool{}
		in.reachable(a[0], p)
		in.reachable(a[1], q)
		for k := range p {
			if q[k] {
				return in.x.True
			}
		}
		return in.x.False
	})
	S("RunTool", func(in *Interp, a []Value) Value { return in.runTool(in.concStr(in.str(a[0])), sliceStrs(in, a[1])) })
}

type exitTool struct{ code *Term }

// runTool executes a command's main function.
func (in *Interp) runTool(name string, args []*StrV) Value {
	pkg := in.P.prog.ImportedPackage(in.P.repo + "/cmd/" + name)
	if pkg == nil {
		unsupported("no command %s", name)
	}
	save := in.stdout
	in.stdout = nil
	in.store(in.osVar("Args"), in.strSlice(append([]*StrV{mkStr(name)}, args...)))
	depth, fr := in.depth, in.fr
	status := in.x.I(0)
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case exitTool:
					status = e.code
				case targetPanic:
					status = in.x.I(2)
				default:
					panic(r)
				}
				in.depth, in.fr = depth, fr
			}
		}()
		in.call(pkg.Func("main"), nil, nil)
	}()
	out := mkStr("")
	for _, s := range in.stdout {
		out = in.concat(out, s.force())
	}
	in.stdout = save
	return TupleV{out, status}
}

var _ = types.Identical
