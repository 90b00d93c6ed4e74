package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The process around a command: arguments, standard streams, exit.

// osGlobal gives the variables of package os that stand for the process.
func (in *Interp) osGlobal(g *ssa.Global) (Value, bool) {
	if g.Pkg == nil || g.Pkg.Pkg.Path() != "os" {
		return nil, false
	}
	switch g.Name() {
	case "Args":
		return in.strSlice([]*StrV{mkStr("tool")}), true
	case "Stdin", "Stdout", "Stderr":
		return in.newCell(g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Pointer).Elem()), true
	}
	return nil, false
}

func (in *Interp) osVar(name string) *Cell {
	pkg := in.P.prog.ImportedPackage("os")
	return in.globalCell(in.P.gidx(pkg.Var(name)))
}

// write appends to the stream behind a file; only standard output is kept.
func (in *Interp) writeFile(f Value, s *StrV) Value {
	switch c := f.(*Cell); {
	case c == nil:
		unsupported("write to a nil file")
	case c == in.load(in.osVar("Stdout")).(*Cell):
		in.writeOut(s)
	case c == in.load(in.osVar("Stderr")).(*Cell):
	default:
		unsupported("write to a file")
	}
	return TupleV{in.x.I(int64(s.Len())), IfaceV{}}
}

func init() {
	I := func(n string, f intrinsic) { intrinsics[n] = f }
	exit := func(code int64) intrinsic {
		return func(in *Interp, a []Value) Value { panic(exitTool{in.x.I(code)}) }
	}
	nop := func(in *Interp, a []Value) Value { return nil }
	I("os.Exit", func(in *Interp, a []Value) Value { panic(exitTool{in.tm(a[0])}) })
	I("(*os.File).Write", func(in *Interp, a []Value) Value { return in.writeFile(a[0], in.sliceToStr(a[1].(SliceV))) })
	I("(*os.File).WriteString", func(in *Interp, a []Value) Value { return in.writeFile(a[0], in.str(a[1])) })
	I("(*os.File).Sync", func(in *Interp, a []Value) Value { return IfaceV{} })
	I("(*os.File).Close", func(in *Interp, a []Value) Value { return IfaceV{} })
	for _, r := range []string{"log.", "(*log.Logger)."} {
		for _, s := range []string{"", "f", "ln"} {
			I(r+"Print"+s, nop)
			I(r+"Fatal"+s, exit(1))
			I(r+"Panic"+s, func(in *Interp, a []Value) Value { in.panicRT("log.Panic"); return nil })
		}
		for _, s := range []string{"SetFlags", "SetPrefix", "SetOutput"} {
			I(r+s, nop)
		}
	}
	I("log.New", func(in *Interp, a []Value) Value { return &Cell{v: "logger"} })
	I("log.Default", func(in *Interp, a []Value) Value { return &Cell{v: "logger"} })
	// an Encoder writes the encoding and a newline
	type encoder struct{ w IfaceV }
	I("encoding/json.NewEncoder", func(in *Interp, a []Value) Value { return &Cell{v: encoder{a[0].(IfaceV)}} })
	I("(*encoding/json.Encoder).Encode", func(in *Interp, a []Value) Value {
		r := in.jsonMarshal(a[1].(IfaceV)).(TupleV)
		if e := r[1].(IfaceV); e.t != nil {
			return e
		}
		w := in.writeTo(a[0].(*Cell).v.(encoder).w, in.concat(in.sliceToStr(r[0].(SliceV)), mkStr("\n")))
		return w.(TupleV)[1]
	})
}
