package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term (integers and booleans), *StrV, float64, *Cell
// (pointer), *SymPtr, SliceV, *MapObj, IfaceV, *FuncV, StructV, ArrayV, TupleV,
// *TimeV, poison, or an opaque native object.
type Value interface{}

type StrV struct {
	s    string
	t    []*Term // nil when concrete
	lazy func() *StrV
}

type StructV []Value
type ArrayV []Value
type TupleV []Value

// Cell is one memory location; aggregates have sub-cells.
type Cell struct {
	v    Value
	sub  []*Cell
	init uint8 // 0 path heap, 1 library init heap, 2 repository init heap
	agg  uint8 // 1 struct, 2 array
}

type SymPtr struct {
	cells []*Cell
	idx   *Term
}

type SliceV struct {
	c  []*Cell
	nn bool // non-nil
}

type mapEntry struct {
	k Value
	v *Cell
}

type MapObj struct {
	ents []*mapEntry
	init uint8
}

type IfaceV struct {
	t types.Type
	v Value
}

type FuncV struct {
	fn     *ssa.Function
	env    []Value
	native func(in *Interp, args []Value) Value
	name   string
}

type poison struct{ why string }

// Native object kinds live in Cell.v.

func mkStr(s string) *StrV { return &StrV{s: s} }

func (s *StrV) force() *StrV {
	for s.lazy != nil {
		f := s.lazy
		r := f()
		*s = *r
	}
	return s
}

func (s *StrV) Len() int {
	s.force()
	if s.t != nil {
		return len(s.t)
	}
	return len(s.s)
}

func (in *Interp) strBytes(s *StrV) []*Term {
	s.force()
	if s.t != nil {
		return s.t
	}
	out := make([]*Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		out[i] = in.x.I(int64(s.s[i]))
	}
	return out
}

func (in *Interp) strAt(s *StrV, i int) *Term {
	s.force()
	if s.t != nil {
		return s.t[i]
	}
	return in.x.I(int64(s.s[i]))
}

func strFromTerms(t []*Term) *StrV {
	all := true
	for _, b := range t {
		if b.op != OConst {
			all = false
			break
		}
	}
	if all {
		b := make([]byte, len(t))
		for i := range t {
			b[i] = byte(t[i].k.lo)
		}
		return &StrV{s: string(b)}
	}
	return &StrV{t: t}
}

func (s *StrV) slice(lo, hi int) *StrV {
	s.force()
	if s.t != nil {
		return strFromTerms(s.t[lo:hi:hi])
	}
	return &StrV{s: s.s[lo:hi]}
}

func (in *Interp) concat(a, b *StrV) *StrV {
	a.force()
	b.force()
	if a.t == nil && b.t == nil {
		return &StrV{s: a.s + b.s}
	}
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	t := append(append([]*Term{}, in.strBytes(a)...), in.strBytes(b)...)
	return &StrV{t: t}
}

// conc is the string's value under the path's witness.
func (s *StrV) conc() string {
	s.force()
	if s.t == nil {
		return s.s
	}
	b := make([]byte, len(s.t))
	for i := range b {
		b[i] = byte(s.t[i].c.lo)
	}
	return string(b)
}

func (s *StrV) isConc() bool { s.force(); return s.t == nil }

func (in *Interp) strEq(a, b *StrV) *Term {
	a.force()
	b.force()
	if a.Len() != b.Len() {
		return in.x.False
	}
	if a.t == nil && b.t == nil {
		return in.x.B(a.s == b.s)
	}
	var cs []*Term
	for i := 0; i < a.Len(); i++ {
		e := in.x.Eq(in.strAt(a, i), in.strAt(b, i))
		if e == in.x.False {
			return e
		}
		cs = append(cs, e)
	}
	return in.x.And(cs...)
}

func (in *Interp) strLess(a, b *StrV) *Term {
	n := a.Len()
	if b.Len() < n {
		n = b.Len()
	}
	r := in.x.B(a.Len() < b.Len())
	for i := n - 1; i >= 0; i-- {
		p, q := in.strAt(a, i), in.strAt(b, i)
		r = in.x.Or(in.x.Lt(p, q), in.x.And(in.x.Eq(p, q), r))
	}
	return r
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == name && o.Pkg() != nil && o.Pkg().Path() == pkg
}

// leafZero gives the zero value of types modelled as opaque leaves.
func (in *Interp) leafZero(t types.Type) (Value, bool) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return nil, false
	}
	o := n.Obj()
	if o.Pkg() == nil {
		return nil, false
	}
	switch o.Pkg().Path() {
	case "time":
		if o.Name() == "Time" {
			return in.zeroTime(), true
		}
	case "math/big":
		switch o.Name() {
		case "Int":
			return &BigV{m: in.x.I(0), e: in.x.I(0)}, true
		case "Float":
			return &BigV{m: in.x.I(0), e: in.x.I(0), isFloat: true}, true
		case "Rat":
			return &BigV{m: in.x.I(0), e: in.x.I(0), isRat: true}, true
		}
	}
	return nil, false
}

func (in *Interp) zero(t types.Type) Value {
	if v, ok := in.leafZero(t); ok {
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return in.x.False
		case u.Info()&types.IsInteger != 0:
			return in.x.I(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Kind() == types.UnsafePointer:
			return (*Cell)(nil)
		case u.Kind() == types.UntypedNil:
			return (*Cell)(nil)
		case u.Info()&types.IsComplex != 0:
			return poison{"complex"}
		}
	case *types.Pointer:
		return (*Cell)(nil)
	case *types.Slice:
		return SliceV{}
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Chan:
		return (*ChanObj)(nil)
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Interface:
		return IfaceV{}
	case *types.Struct:
		s := make(StructV, u.NumFields())
		for i := range s {
			s[i] = in.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(ArrayV, u.Len())
		for i := range a {
			a[i] = in.zero(u.Elem())
		}
		return a
	case *types.Tuple:
		a := make(TupleV, u.Len())
		for i := range a {
			a[i] = in.zero(u.At(i).Type())
		}
		return a
	}
	unsupported("zero of %v", t)
	return nil
}

type ChanObj struct{ q []Value }

func (in *Interp) newCell(t types.Type) *Cell {
	c := &Cell{init: in.initMode}
	if v, ok := in.leafZero(t); ok {
		c.v = v
		return c
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		c.agg = 1
		c.sub = make([]*Cell, u.NumFields())
		for i := range c.sub {
			c.sub[i] = in.newCell(u.Field(i).Type())
		}
	case *types.Array:
		c.agg = 2
		c.sub = make([]*Cell, u.Len())
		for i := range c.sub {
			c.sub[i] = in.newCell(u.Elem())
		}
	default:
		c.v = in.zero(t)
	}
	return c
}

// cellFor wraps a value into fresh memory.
func (in *Interp) cellFor(v Value) *Cell {
	c := &Cell{init: in.initMode}
	switch a := v.(type) {
	case StructV:
		c.agg = 1
		c.sub = make([]*Cell, len(a))
		for i := range a {
			c.sub[i] = in.cellFor(a[i])
		}
	case ArrayV:
		c.agg = 2
		c.sub = make([]*Cell, len(a))
		for i := range a {
			c.sub[i] = in.cellFor(a[i])
		}
	default:
		c.v = v
	}
	return c
}

func (in *Interp) load(c *Cell) Value {
	switch c.agg {
	case 1:
		s := make(StructV, len(c.sub))
		for i, f := range c.sub {
			s[i] = in.load(f)
		}
		return s
	case 2:
		s := make(ArrayV, len(c.sub))
		for i, f := range c.sub {
			s[i] = in.load(f)
		}
		return s
	}
	if p, ok := c.v.(poison); ok {
		unsupported("use of %s", p.why)
	}
	if c.init == 2 && in.initMode == 0 {
		in.sharedRead(c)
	}
	return c.v
}

func (in *Interp) store(c *Cell, v Value) {
	if p, ok := v.(poison); ok && c.agg != 0 {
		for _, f := range c.sub {
			in.store(f, p)
		}
		return
	}
	switch c.agg {
	case 1:
		s, ok := v.(StructV)
		if !ok {
			unsupported("store %T into struct", v)
		}
		for i, f := range c.sub {
			in.store(f, s[i])
		}
		return
	case 2:
		s, ok := v.(ArrayV)
		if !ok {
			unsupported("store %T into array", v)
		}
		for i, f := range c.sub {
			in.store(f, s[i])
		}
		return
	}
	in.logWrite(c)
	c.v = v
}

func (in *Interp) logWrite(c *Cell) {
	if c.init != 0 && in.initMode == 0 {
		old := c.v
		in.undo = append(in.undo, func() { c.v = old })
		if c.init == 2 {
			in.sharedWrite(c)
		}
	}
}

// sharedWrite notes a write into memory that existed before the first call.
func (in *Interp) sharedWrite(c interface{}) {
	if in.onceDepth > 0 {
		return
	}
	if in.locks == 0 {
		in.repoWrites++
		return
	}
	in.lockedWrites[c] = true
	if in.bareReads[c] {
		in.repoWrites++
	}
}

// sharedRead notes a read, outside any lock, of such memory.
func (in *Interp) sharedRead(c interface{}) {
	if in.locks+in.rlocks > 0 {
		return
	}
	in.bareReads[c] = true
	if in.lockedWrites[c] {
		in.repoWrites++
	}
}

func (in *Interp) logMap(m *MapObj) {
	if m.init != 0 && in.initMode == 0 {
		old := append([]*mapEntry{}, m.ents...)
		in.undo = append(in.undo, func() { m.ents = old })
		if m.init == 2 {
			in.sharedWrite(m)
		}
	}
}

func intKind(t types.Type) (nbits int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func (in *Interp) mkSlice(vs []Value) SliceV {
	s := SliceV{nn: true, c: make([]*Cell, len(vs))}
	for i, v := range vs {
		s.c[i] = in.cellFor(v)
	}
	return s
}

func (in *Interp) bytesToSlice(t []*Term) SliceV {
	s := SliceV{nn: true, c: make([]*Cell, len(t))}
	for i, v := range t {
		s.c[i] = &Cell{v: v, init: in.initMode}
	}
	return s
}

func (in *Interp) sliceToStr(s SliceV) *StrV {
	t := make([]*Term, len(s.c))
	for i, c := range s.c {
		t[i] = in.load(c).(*Term)
	}
	return strFromTerms(t)
}

// showVal renders a value under the witness, for messages.
func showVal(v Value) string {
	switch a := v.(type) {
	case *Term:
		if a.isBool() {
			return fmt.Sprint(a.cb())
		}
		return a.c.String()
	case *StrV:
		return fmt.Sprintf("%q", a.conc())
	case IfaceV:
		if a.t == nil {
			return "nil"
		}
		return fmt.Sprintf("%v(%s)", a.t, showVal(a.v))
	case *Cell:
		if a == nil {
			return "nil"
		}
		return "&..."
	}
	return fmt.Sprintf("%T", v)
}
