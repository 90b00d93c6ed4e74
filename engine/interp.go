package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"runtime/debug"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	slot int32 // >=0 register
	g    int32 // >=0 global
	c    ssa.Value
	k    interface{} // constant recipe resolved per worker
}

type cinstr struct {
	ins ssa.Instruction
	ops []opnd
	dst int32
}

type finfo struct {
	fn     *ssa.Function
	nregs  int
	blocks [][]cinstr
	nparam int
	pure   bool
}

// Program is shared by the workers.
type Program struct {
	prog    *ssa.Program
	mu      sync.Mutex
	infos   sync.Map // *ssa.Function -> *finfo
	globals map[*ssa.Global]int32
	glist   []*ssa.Global
	repo    string // module path of the code under test
}

func (p *Program) gidx(g *ssa.Global) int32 {
	p.mu.Lock()
	defer p.mu.Unlock()
	i, ok := p.globals[g]
	if !ok {
		i = int32(len(p.glist))
		p.globals[g] = i
		p.glist = append(p.glist, g)
	}
	return i
}

func (p *Program) info(fn *ssa.Function) *finfo {
	if v, ok := p.infos.Load(fn); ok {
		return v.(*finfo)
	}
	fi := &finfo{fn: fn}
	slots := map[ssa.Value]int32{}
	add := func(v ssa.Value) { slots[v] = int32(len(slots)) }
	for _, a := range fn.Params {
		add(a)
	}
	for _, a := range fn.FreeVars {
		add(a)
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.nregs = len(slots)
	fi.nparam = len(fn.Params)
	for _, b := range fn.Blocks {
		var cs []cinstr
		for _, ins := range b.Instrs {
			ci := cinstr{ins: ins, dst: -1}
			if v, ok := ins.(ssa.Value); ok {
				ci.dst = slots[v]
			}
			var buf [8]*ssa.Value
			for _, op := range ins.Operands(buf[:0]) {
				o := opnd{slot: -1, g: -1}
				if *op != nil {
					if s, ok := slots[*op]; ok {
						o.slot = s
					} else if g, ok := (*op).(*ssa.Global); ok {
						o.g = p.gidx(g)
					} else {
						o.c = *op
					}
				}
				ci.ops = append(ci.ops, o)
			}
			cs = append(cs, ci)
		}
		fi.blocks = append(fi.blocks, cs)
	}
	p.infos.Store(fn, fi)
	return fi
}

type frame struct {
	fi        *finfo
	regs      []Value
	defers    []func()
	result    Value
	panicking bool
	pan       *targetPanic
	recovered bool
	caller    *frame
	depth     int
	cur       ssa.Instruction // kept when profiling
}

type Interp struct {
	P             *Program
	x             *Ctx
	s             *Solver
	p             *Path
	gcells        []*Cell
	inited        map[*ssa.Package]bool
	initMode      uint8
	undo          []func()
	repoWrites    int
	consts        map[ssa.Value]Value
	funcs         map[*ssa.Function]*FuncV
	scoped        bool
	linked        map[*Term]bool
	linkSeen      map[*Term]bool
	keys          map[*Term]*keyed
	varIdx        map[*Term]int
	conds         []*keyed
	condSeen      map[*Term]bool
	maxSteps      int64
	maxConcretize int
	fr            *frame
	depth         int
	tier          int
	usedFns       map[*ssa.Function]bool
	usedIntr      map[string]bool
	stats         struct {
		domain         int64
		cached         int64
		assertsByLabel map[string]int64
	}
	reCache      map[string]*reProg
	args         []*StrV
	stdout       []*StrV
	freshN       int
	zone         *Term // offset of the local time zone, made on first use
	patterns     map[string]bool
	locs         map[*Cell]*zoneInfo
	civMemo      map[*Term]*civil   // instant to civil fields
	secsMemo     map[civil]*Term    // and back
	hmsMemo      map[[3]*Term]*Term // clock to second of day
	names        map[string]int
	reMemo       map[reKey]*Term
	locks        int
	onces        map[*Cell]bool
	syncMaps     map[*Cell]*MapObj
	pools        map[*Cell][]Value
	rlocks       int
	onceDepth    int
	lockedWrites map[interface{}]bool
	bareReads    map[interface{}]bool
}

func newInterp(P *Program, timeoutMs int) *Interp {
	in := &Interp{P: P, x: newCtx(), inited: map[*ssa.Package]bool{}, consts: map[ssa.Value]Value{}, funcs: map[*ssa.Function]*FuncV{},
		maxSteps: 30_000_000, maxConcretize: 4096, usedFns: map[*ssa.Function]bool{}, usedIntr: map[string]bool{}, reCache: map[string]*reProg{}, patterns: map[string]bool{},
		locs: map[*Cell]*zoneInfo{}, names: map[string]int{}, reMemo: map[reKey]*Term{}, onces: map[*Cell]bool{}, syncMaps: map[*Cell]*MapObj{}}
	in.s = newSolver(in.x, timeoutMs)
	in.x.shiftSecs = func(a, delta *Term) *Term {
		c := in.civilOf(&TimeV{s: in.x.Add(a, delta)})
		return in.x.mk(&Term{op: OSecs, args: []*Term{c.y, c.m, c.d, c.sod}})
	}
	in.stats.assertsByLabel = map[string]int64{}
	return in
}

func (in *Interp) globalCell(i int32) *Cell {
	for int(i) >= len(in.gcells) {
		in.gcells = append(in.gcells, nil)
	}
	in.P.mu.Lock()
	g := in.P.glist[i]
	in.P.mu.Unlock()
	in.ensureInit(g.Pkg)
	if in.gcells[i] == nil {
		in.gcells[i] = in.newGlobal(g)
	}
	return in.gcells[i]
}

func (in *Interp) isRepo(pkg *ssa.Package) bool {
	if pkg == nil || pkg.Pkg == nil {
		return false
	}
	return inModule(pkg.Pkg.Path(), in.P.repo)
}

func inModule(path, mod string) bool {
	return path == mod || len(path) > len(mod) && path[:len(mod)] == mod && path[len(mod)] == '/'
}

func (in *Interp) newGlobal(g *ssa.Global) *Cell {
	save := in.initMode
	in.initMode = 1
	if in.isRepo(g.Pkg) {
		in.initMode = 2
	}
	c := in.newCell(g.Type().Underlying().(*types.Pointer).Elem())
	if v, ok := in.osGlobal(g); ok {
		c.v = v
	}
	in.initMode = save
	return c
}

// ensureInit runs a package's initialiser the first time one of its variables is used.
func (in *Interp) ensureInit(pkg *ssa.Package) {
	if pkg == nil || in.inited[pkg] {
		return
	}
	in.inited[pkg] = true
	f := pkg.Func("init")
	if f == nil || skipInit[pkg.Pkg.Path()] {
		return
	}
	save, fr, p, depth := in.initMode, in.fr, in.p, in.depth
	in.initMode = 1
	if in.isRepo(pkg) {
		in.initMode = 2
	}
	in.p = &Path{}
	in.depth = 0
	in.fr = nil
	defer func() {
		in.initMode, in.fr, in.p, in.depth = save, fr, p, depth
		if r := recover(); r != nil {
			if debugFlag {
				fmt.Println("init of", pkg.Pkg.Path(), "stopped:", r)
			}
			if in.isRepo(pkg) {
				panic(r)
			}
		}
	}()
	in.call(f, nil, nil)
}

var skipInit = map[string]bool{"os": true, "syscall": true, "runtime": true, "internal/godebug": true, "net": true, "log": false, "internal/poll": true, "reflect": true, "internal/cpu": true, "internal/testlog": true}

func (in *Interp) get(fr *frame, o *opnd) Value {
	if o.slot >= 0 {
		return fr.regs[o.slot]
	}
	if o.g >= 0 {
		if int(o.g) < len(in.gcells) && in.gcells[o.g] != nil {
			return in.gcells[o.g]
		}
		return in.globalCell(o.g)
	}
	if o.c == nil {
		return nil
	}
	if v, ok := in.consts[o.c]; ok {
		return v
	}
	v := in.constVal(o.c)
	in.consts[o.c] = v
	return v
}

func (in *Interp) constVal(v ssa.Value) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return in.constant(c)
	case *ssa.Function:
		return in.funcVal(c)
	case *ssa.Builtin:
		return &FuncV{name: "builtin:" + c.Name()}
	}
	unsupported("operand %T", v)
	return nil
}

func (in *Interp) funcVal(fn *ssa.Function) *FuncV {
	f, ok := in.funcs[fn]
	if !ok {
		f = &FuncV{fn: fn}
		in.funcs[fn] = f
	}
	return f
}

func (in *Interp) constant(c *ssa.Const) Value {
	if c.Value == nil {
		return in.zero(c.Type())
	}
	t := c.Type().Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		unsupported("constant of type parameter")
	}
	b, ok := t.(*types.Basic)
	if !ok {
		unsupported("constant of type %v", c.Type())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return in.x.B(constant.BoolVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		if n, signed, ok := intKind(b); ok {
			if signed {
				return in.x.I(c.Int64())
			}
			_ = n
			return in.x.K(u64(c.Uint64()))
		}
	case b.Info()&types.IsFloat != 0:
		return c.Float64()
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(c.Value))
		}
		return mkStr(string(rune(c.Int64())))
	}
	return poison{"constant " + c.String()}
}

func (in *Interp) panicRT(f string, a ...interface{}) {
	msg := fmt.Sprintf(f, a...)
	panic(targetPanic{v: IfaceV{t: types.Typ[types.String], v: mkStr("runtime error: " + msg)}, msg: "runtime error: " + msg})
}

// call runs fn with the given arguments.
func (in *Interp) call(fn *ssa.Function, args []Value, env []Value) Value {
	if f := lookupIntrinsic(fn); f != nil {
		r := f(in, args)
		if _, real := r.(fallThrough); !real {
			in.usedIntr[fnName(fn)] = true
			return r
		}
	}
	if fn.Blocks == nil {
		unsupported("function without body: %s", fn)
	}
	if fn.Synthetic == "package initializer" || fn.Name() == "init" && fn.Pkg != nil && fn.Signature.Recv() == nil && fn.Parent() == nil && fn == fn.Pkg.Func("init") {
		if fn.Pkg != nil && !in.inited[fn.Pkg] {
			if in.isRepo(fn.Pkg) {
				in.ensureInit(fn.Pkg)
			}
			return nil
		}
		if in.depth > 0 {
			return nil
		}
	}
	in.usedFns[fn] = true
	fi := in.P.info(fn)
	fr := &frame{fi: fi, regs: make([]Value, fi.nregs), caller: in.fr, depth: in.depth}
	copy(fr.regs, args)
	copy(fr.regs[fi.nparam:], env)
	in.depth++
	if in.depth > 2000 {
		panic(abort{"steps", "call depth"})
	}
	in.fr = fr
	res := in.runFrame(fr)
	in.fr = fr.caller
	in.depth = fr.depth
	return res
}

func (in *Interp) runFrame(fr *frame) (res Value) {
	if !hasDefer(fr.fi.fn) {
		in.run(fr, 0)
		return fr.result
	}
	in.runProtected(fr, 0)
	if fr.panicking {
		in.runDefers(fr)
		if fr.panicking {
			in.fr = fr.caller
			panic(*fr.pan)
		}
		// recovered
		if rb := fr.fi.fn.Recover; rb != nil {
			in.run(fr, rb.Index)
		} else {
			fr.result = in.zero(fr.fi.fn.Signature.Results())
			if t, ok := fr.result.(TupleV); ok {
				switch len(t) {
				case 0:
					fr.result = nil
				case 1:
					fr.result = t[0]
				}
			}
		}
	}
	return fr.result
}

func (in *Interp) runProtected(fr *frame, b int) {
	depth := in.depth
	defer func() {
		if r := recover(); r != nil {
			tp, ok := r.(targetPanic)
			if !ok {
				panic(r)
			}
			fr.panicking = true
			fr.pan = &tp
			in.fr = fr
			in.depth = depth
		}
	}()
	in.run(fr, b)
}

func (in *Interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		depth := in.depth
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(targetPanic)
					if !ok {
						panic(r)
					}
					fr.panicking = true
					fr.pan = &tp
					in.fr = fr
					in.depth = depth
				}
			}()
			d()
		}()
	}
}

var deferCache sync.Map

func hasDefer(fn *ssa.Function) bool {
	if v, ok := deferCache.Load(fn); ok {
		return v.(bool)
	}
	r := false
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Defer); ok {
				r = true
			}
		}
	}
	deferCache.Store(fn, r)
	return r
}

func (in *Interp) run(fr *frame, bi int) {
	fi := fr.fi
	prev := -1
	tolerant := in.initMode == 1 && in.depth == 1
	for {
		block := fi.blocks[bi]
		fn := fi.fn
		i := 0
		// phis
		if prev >= 0 {
			var vals []Value
			var dsts []int32
			for ; i < len(block); i++ {
				phi, ok := block[i].ins.(*ssa.Phi)
				if !ok {
					break
				}
				ei := -1
				for k, pb := range fn.Blocks[bi].Preds {
					if pb.Index == prev {
						ei = k
						break
					}
				}
				_ = phi
				vals = append(vals, in.get(fr, &block[i].ops[ei]))
				dsts = append(dsts, block[i].dst)
			}
			for k := range vals {
				fr.regs[dsts[k]] = vals[k]
			}
		}
		next := -1
		for ; i < len(block); i++ {
			ci := &block[i]
			in.p.steps++
			if in.p.steps&0xffff == 0 {
				if in.p.steps > in.maxSteps {
					panic(abort{"steps", "step limit in " + fn.String()})
				}
				if late() {
					panic(abort{"deadline", ""})
				}
			}
			if branchProf != nil {
				fr.cur = ci.ins
			}
			switch ins := ci.ins.(type) {
			case *ssa.Jump:
				next = fn.Blocks[bi].Succs[0].Index
			case *ssa.If:
				c := in.get(fr, &ci.ops[0])
				t, ok := c.(*Term)
				if !ok {
					unsupported("condition %T in %s", c, fn)
				}
				if in.branch(t) {
					next = fn.Blocks[bi].Succs[0].Index
				} else {
					next = fn.Blocks[bi].Succs[1].Index
				}
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
					fr.result = nil
				case 1:
					fr.result = in.get(fr, &ci.ops[0])
				default:
					t := make(TupleV, len(ci.ops))
					for k := range ci.ops {
						t[k] = in.get(fr, &ci.ops[k])
					}
					fr.result = t
				}
				return
			case *ssa.Panic:
				v := in.get(fr, &ci.ops[0])
				iv, _ := v.(IfaceV)
				panic(targetPanic{v: iv, msg: "panic: " + showVal(v)})
			case *ssa.RunDefers:
				in.runDefers(fr)
				if fr.panicking {
					in.fr = fr.caller
					pan := *fr.pan
					fr.panicking = false
					fr.defers = nil
					panic(pan)
				}
			default:
				if tolerant {
					in.tolerantExec(fr, ci)
				} else {
					in.exec(fr, ci, ins)
				}
			}
		}
		if next < 0 {
			unsupported("fell off block in %s", fn)
		}
		prev, bi = bi, next
	}
}

// tolerantExec lets the initialiser of a library package continue past an
// instruction the engine cannot execute; the result is unusable.
func (in *Interp) tolerantExec(fr *frame, ci *cinstr) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(abort); ok && a.kind != "unsupported" {
				panic(r)
			}
			in.fr = fr
			in.depth = fr.depth + 1
			if ci.dst >= 0 {
				fr.regs[ci.dst] = poison{fmt.Sprint(r)}
			}
			if st, ok := ci.ins.(*ssa.Store); ok {
				_ = st
				if c, ok := in.get(fr, &ci.ops[0]).(*Cell); ok && c != nil {
					in.store(c, poison{fmt.Sprint(r)})
				}
			}
		}
	}()
	for k := range ci.ops {
		if p, ok := in.get(fr, &ci.ops[k]).(poison); ok {
			panic(abort{"unsupported", p.why})
		}
	}
	in.exec(fr, ci, ci.ins)
}

func (in *Interp) ptr(v Value) *Cell {
	switch c := v.(type) {
	case *Cell:
		if c == nil {
			in.panicRT("invalid memory address or nil pointer dereference")
		}
		return c
	case *SymPtr:
		i := in.concretize(c.idx).i64()
		return c.cells[i]
	}
	unsupported("pointer is %T", v)
	return nil
}

func (in *Interp) exec(fr *frame, ci *cinstr, instr ssa.Instruction) {
	op := func(i int) Value { return in.get(fr, &ci.ops[i]) }
	switch ins := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		fr.regs[ci.dst] = in.newCell(ins.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.Store:
		if sp, ok := op(0).(*SymPtr); ok {
			in.store(in.ptr(sp), op(1))
			return
		}
		in.store(in.ptr(op(0)), op(1))
	case *ssa.UnOp:
		fr.regs[ci.dst] = in.unop(ins, op(0))
	case *ssa.BinOp:
		fr.regs[ci.dst] = in.binop(ins.Op, ins.X.Type(), ins.Y.Type(), op(0), op(1))
	case *ssa.FieldAddr:
		c := in.ptr(op(0))
		if c.agg != 1 {
			unsupported("field of opaque %v", ins.X.Type())
		}
		fr.regs[ci.dst] = c.sub[ins.Field]
	case *ssa.Field:
		s, ok := op(0).(StructV)
		if !ok {
			unsupported("field of opaque %v", ins.X.Type())
		}
		fr.regs[ci.dst] = s[ins.Field]
	case *ssa.IndexAddr:
		fr.regs[ci.dst] = in.indexAddr(ins, op(0), op(1))
	case *ssa.Index:
		fr.regs[ci.dst] = in.index(op(0), op(1))
	case *ssa.Lookup:
		fr.regs[ci.dst] = in.lookup(ins, op(0), op(1))
	case *ssa.MapUpdate:
		in.mapUpdate(op(0), op(1), op(2))
	case *ssa.MakeMap:
		m := &MapObj{init: in.initMode}
		fr.regs[ci.dst] = m
	case *ssa.MakeSlice:
		n := in.concInt(op(0))
		cp := in.concInt(op(1))
		if n < 0 || cp < n {
			in.panicRT("makeslice: len out of range")
		}
		if cp > 1<<22 {
			panic(abort{"steps", "huge allocation"})
		}
		et := ins.Type().Underlying().(*types.Slice).Elem()
		s := SliceV{nn: true, c: make([]*Cell, cp)}
		for i := range s.c {
			s.c[i] = in.newCell(et)
		}
		s.c = s.c[:n]
		fr.regs[ci.dst] = s
	case *ssa.Slice:
		fr.regs[ci.dst] = in.slice(ins, op(0), op(1), op(2), op(3))
	case *ssa.MakeInterface:
		fr.regs[ci.dst] = IfaceV{t: ins.X.Type(), v: op(0)}
	case *ssa.MakeClosure:
		f := op(0).(*FuncV)
		env := make([]Value, len(ci.ops)-1)
		for i := range env {
			env[i] = op(i + 1)
		}
		fr.regs[ci.dst] = &FuncV{fn: f.fn, env: env}
	case *ssa.ChangeType:
		fr.regs[ci.dst] = op(0)
	case *ssa.ChangeInterface:
		fr.regs[ci.dst] = op(0)
	case *ssa.Convert:
		fr.regs[ci.dst] = in.convert(ins.Type(), ins.X.Type(), op(0))
	case *ssa.MultiConvert:
		fr.regs[ci.dst] = in.convert(ins.Type(), ins.X.Type(), op(0))
	case *ssa.SliceToArrayPointer:
		s := op(0).(SliceV)
		n := int(ins.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s.c) < n {
			in.panicRT("cannot convert slice with length %d to array or pointer to array with length %d", len(s.c), n)
		}
		fr.regs[ci.dst] = &Cell{agg: 2, sub: s.c[:n]}
	case *ssa.TypeAssert:
		fr.regs[ci.dst] = in.typeAssert(ins, op(0))
	case *ssa.Extract:
		fr.regs[ci.dst] = op(0).(TupleV)[ins.Index]
	case *ssa.Call:
		fr.regs[ci.dst] = in.callCommon(fr, ci, &ins.Call)
	case *ssa.Defer:
		fn, args := in.prepCall(fr, ci, &ins.Call)
		target := fr
		if ins.DeferStack != nil {
			unsupported("defer stack")
		}
		target.defers = append(target.defers, func() { in.callFn(fn, args) })
	case *ssa.Go:
		unsupported("go statement")
	case *ssa.Range:
		fr.regs[ci.dst] = in.rangeIter(op(0))
	case *ssa.Next:
		fr.regs[ci.dst] = op(0).(iterator).next(in)
	case *ssa.Phi:
		// entry without predecessor cannot happen
		unsupported("phi")
	case *ssa.MakeChan:
		fr.regs[ci.dst] = &ChanObj{}
	case *ssa.Send:
		unsupported("send")
	case *ssa.Select:
		unsupported("select")
	default:
		unsupported("instruction %T", instr)
	}
}

func (in *Interp) tm(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		if p, ok := v.(poison); ok {
			unsupported("use of %s", p.why)
		}
		unsupported("scalar expected, got %T", v)
	}
	return t
}

func (in *Interp) str(v Value) *StrV {
	s, ok := v.(*StrV)
	if !ok {
		if p, ok := v.(poison); ok {
			unsupported("use of %s", p.why)
		}
		unsupported("string expected, got %T", v)
	}
	return s.force()
}

func (in *Interp) unop(ins *ssa.UnOp, v Value) Value {
	switch ins.Op {
	case token.MUL:
		if sp, ok := v.(*SymPtr); ok {
			return in.symLoad(sp)
		}
		return in.load(in.ptr(v))
	case token.NOT:
		return in.x.Not(in.tm(v))
	case token.SUB:
		switch f := v.(type) {
		case float64:
			return -f
		case FloatV:
			return FloatV{in.x.Neg(f.num), f.den}
		}
		n, s, _ := intKind(ins.X.Type())
		return in.x.Wrap(in.x.Neg(in.tm(v)), n, s)
	case token.XOR:
		n, s, _ := intKind(ins.X.Type())
		t := in.tm(v)
		// ^x = -x-1
		return in.x.Wrap(in.x.Sub(in.x.Neg(t), in.x.I(1)), n, s)
	}
	unsupported("unop %v", ins.Op)
	return nil
}

func (in *Interp) symLoad(sp *SymPtr) Value {
	if len(sp.cells) <= 300 {
		ok := true
		for _, c := range sp.cells {
			if c.agg != 0 {
				ok = false
				break
			}
			if t, is := c.v.(*Term); !is || t == nil {
				ok = false
				break
			}
		}
		if ok {
			vals := make([]*Term, len(sp.cells))
			for i, c := range sp.cells {
				vals[i] = c.v.(*Term)
			}
			return in.symSelect(vals, sp.idx)
		}
	}
	return in.load(in.ptr(sp))
}

// symSelect builds vals[idx] as nested conditionals, grouped by value.
func (in *Interp) symSelect(vals []*Term, idx *Term) *Term {
	idx = in.x.simp(idx)
	lo, hi := in.x.ival(idx)
	type grp struct {
		v  *Term
		is []int
	}
	var gs []*grp
	by := map[*Term]*grp{}
	for i, v := range vals {
		if i64(int64(i)).lt(lo) || hi.lt(i64(int64(i))) {
			continue
		}
		g := by[v]
		if g == nil {
			g = &grp{v: v}
			by[v] = g
			gs = append(gs, g)
		}
		g.is = append(g.is, i)
	}
	if len(gs) == 0 {
		unsupported("empty selection")
	}
	r := gs[len(gs)-1].v
	for k := len(gs) - 2; k >= 0; k-- {
		var alts []*Term
		g := gs[k]
		for i := 0; i < len(g.is); {
			j := i
			for j+1 < len(g.is) && g.is[j+1] == g.is[j]+1 {
				j++
			}
			if i == j {
				alts = append(alts, in.x.Eq(idx, in.x.I(int64(g.is[i]))))
			} else {
				alts = append(alts, in.x.And(in.x.Le(in.x.I(int64(g.is[i])), idx), in.x.Le(idx, in.x.I(int64(g.is[j])))))
			}
			i = j + 1
		}
		c := in.x.Or(alts...)
		if r.isBool() {
			r = in.x.Ite(c, g.v, r)
		} else {
			r = in.x.Ite(c, g.v, r)
		}
	}
	return r
}

func (in *Interp) boundsCheck(idx *Term, n int) {
	ok := in.x.And(in.x.Le(in.x.I(0), idx), in.x.Lt(idx, in.x.I(int64(n))))
	if !in.branch(ok) {
		in.panicRT("index out of range [%s] with length %d", idx.c, n)
	}
}

func (in *Interp) indexAddr(ins *ssa.IndexAddr, base, idx Value) Value {
	var cells []*Cell
	switch b := base.(type) {
	case SliceV:
		cells = b.c
	case *Cell:
		if b == nil {
			in.panicRT("invalid memory address or nil pointer dereference")
		}
		cells = b.sub
	default:
		unsupported("index of %T", base)
	}
	t := in.tm(idx)
	if t.op == OConst {
		if t.k.sign() < 0 || !t.k.isI64() || t.k.i64() >= int64(len(cells)) {
			in.panicRT("index out of range [%s] with length %d", t.k, len(cells))
		}
		return cells[t.k.i64()]
	}
	in.boundsCheck(t, len(cells))
	t = in.x.simp(t)
	if t.op == OConst {
		return cells[t.k.i64()]
	}
	for _, r := range *ins.Referrers() {
		if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
			if _, ok := r.(*ssa.DebugRef); ok {
				continue
			}
			return cells[in.concretize(t).i64()]
		}
	}
	return &SymPtr{cells: cells, idx: t}
}

func (in *Interp) index(base, idx Value) Value {
	t := in.tm(idx)
	switch b := base.(type) {
	case *StrV:
		b.force()
		n := b.Len()
		if t.op == OConst {
			if t.k.sign() < 0 || !t.k.isI64() || t.k.i64() >= int64(n) {
				in.panicRT("index out of range [%s] with length %d", t.k, n)
			}
			return in.strAt(b, int(t.k.i64()))
		}
		in.boundsCheck(t, n)
		return in.symSelect(in.strBytes(b), t)
	case ArrayV:
		if t.op == OConst {
			if t.k.sign() < 0 || !t.k.isI64() || t.k.i64() >= int64(len(b)) {
				in.panicRT("index out of range [%s] with length %d", t.k, len(b))
			}
			return b[t.k.i64()]
		}
		in.boundsCheck(t, len(b))
		vals := make([]*Term, len(b))
		for i := range b {
			v, ok := b[i].(*Term)
			if !ok {
				return b[in.concretize(t).i64()]
			}
			vals[i] = v
		}
		return in.symSelect(vals, t)
	}
	unsupported("index of %T", base)
	return nil
}

func (in *Interp) optInt(v Value, def int) int {
	if v == nil {
		return def
	}
	return in.concInt(v)
}

func (in *Interp) slice(ins *ssa.Slice, x, lo, hi, max Value) Value {
	switch b := x.(type) {
	case *StrV:
		b.force()
		n := b.Len()
		// bounds are checked symbolically before being fixed
		l := in.boundTerm(lo, 0)
		h := in.boundTerm(hi, n)
		in.sliceCheck(l, h, n, n)
		return b.slice(int(in.concretize(l).i64()), int(in.concretize(h).i64()))
	case SliceV:
		l := in.boundTerm(lo, 0)
		h := in.boundTerm(hi, len(b.c))
		m := in.boundTerm(max, cap(b.c))
		in.sliceCheck(l, h, cap(b.c), len(b.c))
		ll, hh, mm := int(in.concretize(l).i64()), int(in.concretize(h).i64()), int(in.concretize(m).i64())
		if mm < hh || mm > cap(b.c) {
			in.panicRT("slice bounds out of range [::%d] with capacity %d", mm, cap(b.c))
		}
		if !b.nn {
			return SliceV{}
		}
		return SliceV{nn: true, c: b.c[ll:hh:mm]}
	case *Cell:
		if b == nil {
			in.panicRT("invalid memory address or nil pointer dereference")
		}
		n := len(b.sub)
		l := in.boundTerm(lo, 0)
		h := in.boundTerm(hi, n)
		m := in.boundTerm(max, n)
		in.sliceCheck(l, h, n, n)
		return SliceV{nn: true, c: b.sub[int(in.concretize(l).i64()):int(in.concretize(h).i64()):int(in.concretize(m).i64())]}
	}
	unsupported("slice of %T", x)
	return nil
}

func (in *Interp) boundTerm(v Value, def int) *Term {
	if v == nil {
		return in.x.I(int64(def))
	}
	return in.tm(v)
}

func (in *Interp) sliceCheck(l, h *Term, capn, n int) {
	ok := in.x.And(in.x.Le(in.x.I(0), l), in.x.Le(l, h), in.x.Le(h, in.x.I(int64(capn))))
	if !in.branch(ok) {
		in.panicRT("slice bounds out of range [%s:%s] with length %d", l.c, h.c, n)
	}
}

func (in *Interp) equal(t types.Type, a, b Value) *Term {
	switch p := a.(type) {
	case *Term:
		return in.x.Eq(p, in.tm(b))
	case *StrV:
		return in.strEq(p, in.str(b))
	case float64, FloatV:
		return in.floatOp(token.EQL, a, b).(*Term)
	case *Cell:
		q, ok := b.(*Cell)
		if !ok {
			unsupported("pointer comparison")
		}
		return in.x.B(p == q)
	case IfaceV:
		q, ok := b.(IfaceV)
		if !ok {
			// comparison of interface with concrete value does not occur in SSA
			unsupported("interface comparison")
		}
		if p.t == nil || q.t == nil {
			return in.x.B(p.t == nil && q.t == nil)
		}
		if !types.Identical(p.t, q.t) {
			return in.x.False
		}
		if !types.Comparable(p.t) {
			in.panicRT("comparing uncomparable type %v", p.t)
		}
		return in.equal(p.t, p.v, q.v)
	case StructV:
		q := b.(StructV)
		st := t.Underlying().(*types.Struct)
		var cs []*Term
		for i := range p {
			cs = append(cs, in.equal(st.Field(i).Type(), p[i], q[i]))
		}
		return in.x.And(cs...)
	case ArrayV:
		q := b.(ArrayV)
		et := t.Underlying().(*types.Array).Elem()
		var cs []*Term
		for i := range p {
			cs = append(cs, in.equal(et, p[i], q[i]))
		}
		return in.x.And(cs...)
	case SliceV:
		q := b.(SliceV)
		return in.x.B(!p.nn && !q.nn)
	case *MapObj:
		q := b.(*MapObj)
		return in.x.B(p == q)
	case *FuncV:
		q := b.(*FuncV)
		return in.x.B(p == q)
	case *ChanObj:
		return in.x.B(p == b.(*ChanObj))
	case *TimeV:
		q := b.(*TimeV)
		return in.x.And(in.x.Eq(p.secs(in), q.secs(in)), in.x.Eq(p.nsec, q.nsec), in.x.B(in.locOffset(p.loc) == in.locOffset(q.loc)))
	case poison:
		unsupported("use of %s", p.why)
	}
	unsupported("comparison of %T", a)
	return nil
}

func (in *Interp) binop(op token.Token, xt, yt types.Type, a, b Value) Value {
	switch op {
	case token.EQL:
		return in.equal(xt, a, b)
	case token.NEQ:
		return in.x.Not(in.equal(xt, a, b))
	}
	if s, ok := a.(*StrV); ok {
		t := in.str(b)
		s.force()
		switch op {
		case token.ADD:
			return in.concat(s, t)
		case token.LSS:
			return in.strLess(s, t)
		case token.GTR:
			return in.strLess(t, s)
		case token.LEQ:
			return in.x.Not(in.strLess(t, s))
		case token.GEQ:
			return in.x.Not(in.strLess(s, t))
		}
	}
	switch a.(type) {
	case float64, FloatV:
		if b, ok := xt.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
			unsupported("float32 operation")
		}
		return in.floatOp(op, a, b)
	}
	p, q := in.tm(a), in.tm(b)
	n, signed, ok := intKind(xt)
	if !ok {
		if p.isBool() {
			switch op {
			case token.AND:
				return in.x.And(p, q)
			case token.OR:
				return in.x.Or(p, q)
			}
		}
		unsupported("binop %v on %v", op, xt)
	}
	x := in.x
	switch op {
	case token.ADD:
		return x.Wrap(x.Add(p, q), n, signed)
	case token.SUB:
		return x.Wrap(x.Sub(p, q), n, signed)
	case token.MUL:
		return x.Wrap(x.Mul(p, q), n, signed)
	case token.QUO, token.REM:
		if in.branch(x.Eq(q, x.I(0))) {
			in.panicRT("integer divide by zero")
		}
		if op == token.QUO {
			return x.Wrap(x.Quo(p, q), n, signed)
		}
		return x.Rem(p, q)
	case token.LSS:
		return x.Lt(p, q)
	case token.GTR:
		return x.Lt(q, p)
	case token.LEQ:
		return x.Le(p, q)
	case token.GEQ:
		return x.Le(q, p)
	case token.AND:
		return x.Bit(bitAnd, p, q, n, signed)
	case token.OR:
		return x.Bit(bitOr, p, q, n, signed)
	case token.XOR:
		return x.Bit(bitXor, p, q, n, signed)
	case token.AND_NOT:
		return x.Bit(bitAndNot, p, q, n, signed)
	case token.SHL, token.SHR:
		if _, sgn, _ := intKind(yt); sgn {
			if in.branch(x.Lt(q, x.I(0))) {
				in.panicRT("negative shift amount")
			}
		}
		if op == token.SHL {
			return x.Bit(bitShl, p, q, n, signed)
		}
		return x.Bit(bitShr, p, q, n, signed)
	}
	unsupported("binop %v", op)
	return nil
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isRuneSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (in *Interp) convert(to, from types.Type, v Value) Value {
	if n, s, ok := intKind(to); ok {
		switch a := v.(type) {
		case *Term:
			return in.x.Wrap(a, n, s)
		case float64:
			if s {
				return in.x.K(i64(int64(a)).wrapTo(n, s))
			}
			return in.x.K(u64(uint64(a)).wrapTo(n, s))
		case FloatV:
			t := in.floatTrunc(a)
			lo, hi := in.x.ival(t)
			if s && n == 64 && (!lo.isI64() || !hi.isI64()) && !in.branch(in.x.And(in.x.Le(in.x.K(i64(math.MinInt64)), t), in.x.Le(t, in.x.K(i64(math.MaxInt64))))) {
				return in.x.K(i64(int64(in.concFloat(a)))) // as this machine does
			}
			return in.x.Wrap(t, n, s)
		}
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		switch a := v.(type) {
		case *Term:
			if b.Kind() != types.Float32 {
				return in.intFloat(a)
			}
			return float64(float32(in.concFloat(in.intFloat(in.x.K(in.concretize(a))))))
		case FloatV:
			if b.Kind() == types.Float32 {
				return float64(float32(in.concFloat(a)))
			}
			return a
		case float64:
			if b.Kind() == types.Float32 {
				return float64(float32(a))
			}
			return a
		}
	}
	if isString(to) {
		switch a := v.(type) {
		case *StrV:
			return a
		case *Term:
			r := in.concretizeRune(a)
			return r
		case SliceV:
			if isByteSlice(from) {
				return in.sliceToStr(a)
			}
			if isRuneSlice(from) {
				r := mkStr("")
				for _, c := range a.c {
					r = in.concat(r, in.concretizeRune(in.load(c).(*Term)))
				}
				return r
			}
		}
	}
	if a, ok := v.(*StrV); ok {
		if isByteSlice(to) {
			return in.bytesToSlice(in.strBytes(a))
		}
		if isRuneSlice(to) {
			it := &strIter{s: a.force()}
			out := SliceV{nn: true}
			for {
				t := it.next(in).(TupleV)
				if t[0].(*Term) == in.x.False {
					break
				}
				out.c = append(out.c, in.cellFor(t[2]))
			}
			return out
		}
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return v
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	unsupported("conversion %v to %v", from, to)
	return nil
}

// concretizeRune encodes a rune; ASCII runes stay symbolic.
func (in *Interp) concretizeRune(t *Term) *StrV {
	ascii := in.x.And(in.x.Le(in.x.I(0), t), in.x.Lt(t, in.x.I(128)))
	if in.branch(ascii) {
		return strFromTerms([]*Term{in.x.simp(t)})
	}
	k := in.concretize(t)
	r := rune(k.i64())
	if !k.isI64() || k.i64() > utf8.MaxRune || k.i64() < 0 {
		r = utf8.RuneError
	}
	return mkStr(string(r))
}

func (in *Interp) typeAssert(ins *ssa.TypeAssert, v Value) Value {
	iv, ok := v.(IfaceV)
	if !ok {
		unsupported("type assertion on %T", v)
	}
	good := false
	var res Value
	if it, isI := ins.AssertedType.Underlying().(*types.Interface); isI {
		if iv.t != nil && types.Implements(iv.t, it) {
			good = true
			res = iv
		}
	} else if iv.t != nil && types.Identical(iv.t, ins.AssertedType) {
		good = true
		res = iv.v
	}
	if ins.CommaOk {
		if !good {
			res = in.zero(ins.AssertedType)
		}
		return TupleV{res, in.x.B(good)}
	}
	if !good {
		in.panicRT("interface conversion: interface is %v, not %v", iv.t, ins.AssertedType)
	}
	return res
}

// ---------- maps ----------

func (in *Interp) mapFind(m *MapObj, k Value, kt types.Type) *mapEntry {
	if m == nil {
		return nil
	}
	for _, e := range m.ents {
		if in.branch(in.equal(kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (in *Interp) lookup(ins *ssa.Lookup, m, k Value) Value {
	if s, ok := m.(*StrV); ok {
		return in.index(s, k)
	}
	mo, ok := m.(*MapObj)
	if !ok {
		unsupported("lookup in %T", m)
	}
	mt := ins.X.Type().Underlying().(*types.Map)
	e := in.mapFind(mo, k, mt.Key())
	var v Value
	if e != nil {
		v = in.load(e.v)
	} else {
		v = in.zero(mt.Elem())
	}
	if ins.CommaOk {
		return TupleV{v, in.x.B(e != nil)}
	}
	return v
}

func (in *Interp) mapUpdate(m, k, v Value) {
	mo, ok := m.(*MapObj)
	if !ok {
		unsupported("update of %T", m)
	}
	if mo == nil {
		panic(targetPanic{v: IfaceV{t: types.Typ[types.String], v: mkStr("assignment to entry in nil map")}, msg: "assignment to entry in nil map"})
	}
	var kt types.Type
	switch kk := k.(type) {
	case IfaceV:
		kt = nil
		_ = kk
	}
	for _, e := range mo.ents {
		if in.branch(in.equalAny(kt, e.k, k)) {
			in.store(e.v, v)
			return
		}
	}
	in.logMap(mo)
	mo.ents = append(mo.ents, &mapEntry{k: k, v: in.cellFor(v)})
}

// equalAny compares map keys; struct keys carry no type here.
func (in *Interp) equalAny(t types.Type, a, b Value) *Term {
	switch p := a.(type) {
	case StructV:
		q := b.(StructV)
		var cs []*Term
		for i := range p {
			cs = append(cs, in.equalAny(nil, p[i], q[i]))
		}
		return in.x.And(cs...)
	case ArrayV:
		q := b.(ArrayV)
		var cs []*Term
		for i := range p {
			cs = append(cs, in.equalAny(nil, p[i], q[i]))
		}
		return in.x.And(cs...)
	}
	return in.equal(t, a, b)
}

// ---------- iteration ----------

type iterator interface{ next(in *Interp) Value }

type strIter struct {
	s *StrV
	i int
}

func (it *strIter) next(in *Interp) Value {
	n := it.s.Len()
	if it.i >= n {
		return TupleV{in.x.False, in.x.I(0), in.x.I(0)}
	}
	at := it.i
	r, w := in.decodeRune(it.s, at)
	it.i += w
	return TupleV{in.x.True, in.x.I(int64(at)), r}
}

// decodeRune decodes the UTF-8 sequence at position i; ASCII bytes stay symbolic.
func (in *Interp) decodeRune(s *StrV, i int) (*Term, int) {
	b := in.strAt(s, i)
	if in.branch(in.x.In(b, rangeSet(0, 127))) {
		return in.x.simp(b), 1
	}
	var buf []byte
	for j := i; j < s.Len() && j < i+4; j++ {
		buf = append(buf, byte(in.concretize(in.strAt(s, j)).lo))
		if r, w := utf8.DecodeRune(buf); r != utf8.RuneError || (len(buf) > 1 && w == 1) || (len(buf) == 1 && !utf8.RuneStart(buf[0])) {
			break
		}
		if utf8.FullRune(buf) {
			break
		}
	}
	r, w := utf8.DecodeRune(buf)
	return in.x.I(int64(r)), w
}

type mapIter struct {
	ents []*mapEntry
	i    int
	perm bool
}

func (it *mapIter) next(in *Interp) Value {
	if it.i >= len(it.ents) {
		return TupleV{in.x.False, nil, nil}
	}
	// any remaining entry may come next
	if it.perm && len(it.ents)-it.i > 1 {
		in.freshN++
		v := in.symInt(fmt.Sprintf("maporder%d", in.freshN), i64(0), i64(int64(len(it.ents)-it.i-1)))
		k := int(in.concretize(v).i64())
		it.ents[it.i], it.ents[it.i+k] = it.ents[it.i+k], it.ents[it.i]
	}
	e := it.ents[it.i]
	it.i++
	return TupleV{in.x.True, e.k, in.load(e.v)}
}

func (in *Interp) rangeIter(v Value) Value {
	switch a := v.(type) {
	case *StrV:
		return &strIter{s: a.force()}
	case *MapObj:
		if a == nil {
			return &mapIter{}
		}
		return &mapIter{ents: append([]*mapEntry{}, a.ents...), perm: len(a.ents) <= 4 && in.initMode == 0}
	}
	unsupported("range over %T", v)
	return nil
}

// ---------- calls ----------

func (in *Interp) prepCall(fr *frame, ci *cinstr, c *ssa.CallCommon) (*FuncV, []Value) {
	v := in.get(fr, &ci.ops[0])
	args := make([]Value, 0, len(ci.ops))
	if c.IsInvoke() {
		iv, ok := v.(IfaceV)
		if !ok {
			if p, ok := v.(poison); ok {
				unsupported("use of %s", p.why)
			}
			unsupported("invoke on %T", v)
		}
		if iv.t == nil {
			in.panicRT("invalid memory address or nil pointer dereference")
		}
		for i := 1; i < len(ci.ops); i++ {
			args = append(args, in.get(fr, &ci.ops[i]))
		}
		if nf, ok := iv.v.(nativeIface); ok {
			m := c.Method.Name()
			return &FuncV{native: func(in *Interp, a []Value) Value { return nf.method(in, m, a) }}, args
		}
		fn := in.P.prog.LookupMethod(iv.t, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			unsupported("no method %s on %v", c.Method.Name(), iv.t)
		}
		return in.funcVal(fn), append([]Value{iv.v}, args...)
	}
	f, ok := v.(*FuncV)
	if !ok {
		if p, ok := v.(poison); ok {
			unsupported("use of %s", p.why)
		}
		unsupported("call of %T", v)
	}
	for i := 1; i < len(ci.ops); i++ {
		args = append(args, in.get(fr, &ci.ops[i]))
	}
	if f == nil {
		in.panicRT("invalid memory address or nil pointer dereference")
	}
	if len(f.name) > 8 && f.name[:8] == "builtin:" {
		name := f.name[8:]
		cc := c
		return &FuncV{native: func(in *Interp, a []Value) Value { return in.builtin(fr, cc, name, a) }}, args
	}
	return f, args
}

type nativeIface interface {
	method(in *Interp, name string, args []Value) Value
}

func (in *Interp) callFn(f *FuncV, args []Value) Value {
	if f == nil {
		in.panicRT("invalid memory address or nil pointer dereference")
	}
	if f.native != nil {
		return f.native(in, args)
	}
	return in.call(f.fn, args, f.env)
}

func (in *Interp) callCommon(fr *frame, ci *cinstr, c *ssa.CallCommon) Value {
	f, args := in.prepCall(fr, ci, c)
	return in.callFn(f, args)
}

func (in *Interp) builtin(fr *frame, c *ssa.CallCommon, name string, args []Value) Value {
	switch name {
	case "len":
		switch a := args[0].(type) {
		case *StrV:
			return in.x.I(int64(a.Len()))
		case SliceV:
			return in.x.I(int64(len(a.c)))
		case *MapObj:
			if a == nil {
				return in.x.I(0)
			}
			return in.x.I(int64(len(a.ents)))
		case ArrayV:
			return in.x.I(int64(len(a)))
		case *Cell:
			return in.x.I(int64(len(a.sub)))
		}
	case "cap":
		switch a := args[0].(type) {
		case SliceV:
			return in.x.I(int64(cap(a.c)))
		case *Cell:
			return in.x.I(int64(len(a.sub)))
		}
	case "append":
		s, ok := args[0].(SliceV)
		if !ok {
			unsupported("append to %T", args[0])
		}
		var add []*Cell
		switch b := args[1].(type) {
		case SliceV:
			add = b.c
			if len(b.c) == 0 {
				return s
			}
		case *StrV:
			if b.Len() == 0 {
				return s
			}
			add = in.bytesToSlice(in.strBytes(b)).c
		default:
			unsupported("append of %T", args[1])
		}
		n := len(s.c)
		if n+len(add) <= cap(s.c) {
			r := s.c[:n+len(add)]
			vals := make([]Value, len(add))
			for i, a := range add {
				vals[i] = in.load(a)
			}
			for i := range vals {
				if r[n+i] == nil {
					r[n+i] = in.cellFor(vals[i])
				} else {
					in.store(r[n+i], vals[i])
				}
			}
			return SliceV{nn: true, c: r}
		}
		nc := cap(s.c) * 2
		if nc < n+len(add) {
			nc = n + len(add)
		}
		r := make([]*Cell, n+len(add), nc)
		for i := 0; i < n; i++ {
			r[i] = in.cellFor(in.load(s.c[i]))
		}
		for i, a := range add {
			r[n+i] = in.cellFor(in.load(a))
		}
		// spare capacity needs cells as well
		full := r[:nc]
		for i := n + len(add); i < nc; i++ {
			full[i] = in.zeroCellLike(full[0])
		}
		return SliceV{nn: true, c: r}
	case "copy":
		d := args[0].(SliceV)
		var src []Value
		switch b := args[1].(type) {
		case SliceV:
			for i := 0; i < len(b.c) && i < len(d.c); i++ {
				src = append(src, in.load(b.c[i]))
			}
		case *StrV:
			bs := in.strBytes(b)
			for i := 0; i < len(bs) && i < len(d.c); i++ {
				src = append(src, bs[i])
			}
		}
		for i, v := range src {
			in.store(d.c[i], v)
		}
		return in.x.I(int64(len(src)))
	case "delete":
		m := args[0].(*MapObj)
		if m == nil {
			return nil
		}
		for i, e := range m.ents {
			if in.branch(in.equalAny(nil, e.k, args[1])) {
				in.logMap(m)
				m.ents = append(append([]*mapEntry{}, m.ents[:i]...), m.ents[i+1:]...)
				return nil
			}
		}
		return nil
	case "clear":
		switch a := args[0].(type) {
		case *MapObj:
			in.logMap(a)
			a.ents = nil
		default:
			unsupported("clear")
		}
		return nil
	case "min", "max":
		r := args[0]
		for _, b := range args[1:] {
			var less *Term
			switch a := r.(type) {
			case *Term:
				less = in.x.Lt(b.(*Term), a)
				if name == "max" {
					less = in.x.Lt(a, b.(*Term))
				}
				r = in.x.Ite(less, b.(*Term), a)
			case *StrV:
				less = in.strLess(in.str(b), a)
				if name == "max" {
					less = in.strLess(a, in.str(b))
				}
				if in.branch(less) {
					r = b
				}
			default:
				unsupported("min/max")
			}
		}
		return r
	case "print", "println":
		return nil
	case "recover":
		// the deferred function's caller frame is the panicking one
		f := fr
		// fr is the frame executing recover (the deferred function itself)
		if f.caller != nil && f.caller.panicking {
			f.caller.panicking = false
			return f.caller.pan.v
		}
		return IfaceV{}
	case "ssa:wrapnilchk":
		if c, ok := args[0].(*Cell); ok && c == nil {
			in.panicRT("value method called using nil pointer")
		}
		return args[0]
	case "SliceData", "StringData", "String", "Slice", "Add":
		switch name {
		case "SliceData":
			return unsafeData{s: args[0].(SliceV)}
		case "StringData":
			return unsafeData{str: in.str(args[0]), isStr: true}
		case "String":
			d, ok := args[0].(unsafeData)
			if !ok {
				if c, ok := args[0].(*Cell); ok && c == nil {
					return mkStr("")
				}
				unsupported("unsafe.String")
			}
			n := in.concInt(args[1])
			if d.isStr {
				return d.str.slice(0, n)
			}
			return in.sliceToStr(SliceV{nn: true, c: d.s.c[:n]})
		case "Slice":
			d, ok := args[0].(unsafeData)
			if !ok {
				unsupported("unsafe.Slice")
			}
			n := in.concInt(args[1])
			if d.isStr {
				return in.bytesToSlice(in.strBytes(d.str)[:n])
			}
			return SliceV{nn: true, c: d.s.c[:n]}
		}
	}
	unsupported("builtin %s", name)
	return nil
}

type unsafeData struct {
	s     SliceV
	str   *StrV
	isStr bool
}

func (in *Interp) zeroCellLike(c *Cell) *Cell {
	n := &Cell{init: in.initMode, agg: c.agg}
	if c.agg != 0 {
		n.sub = make([]*Cell, len(c.sub))
		for i := range c.sub {
			n.sub[i] = in.zeroCellLike(c.sub[i])
		}
		return n
	}
	switch a := c.v.(type) {
	case *Term:
		if a.isBool() {
			n.v = in.x.False
		} else {
			n.v = in.x.I(0)
		}
	case *StrV:
		n.v = mkStr("")
	case float64, FloatV:
		n.v = float64(0)
	case *Cell:
		n.v = (*Cell)(nil)
	case SliceV:
		n.v = SliceV{}
	case *MapObj:
		n.v = (*MapObj)(nil)
	case IfaceV:
		n.v = IfaceV{}
	case *FuncV:
		n.v = (*FuncV)(nil)
	case *TimeV:
		n.v = in.zeroTime()
	default:
		n.v = poison{"spare capacity"}
	}
	return n
}

// runPath executes one harness on one work item.
func (in *Interp) runPath(fn *ssa.Function, it item) (p *Path) {
	in.x.reset()
	in.linked = map[*Term]bool{}
	in.linkSeen = map[*Term]bool{}
	in.keys = map[*Term]*keyed{}
	in.varIdx = map[*Term]int{}
	in.conds = nil
	in.condSeen = map[*Term]bool{}
	in.civMemo = map[*Term]*civil{}
	in.secsMemo = map[civil]*Term{}
	in.hmsMemo = map[[3]*Term]*Term{}
	in.freshN = 0
	in.zone = nil
	in.names = map[string]int{}
	in.reMemo = map[reKey]*Term{}
	in.locks = 0
	in.rlocks = 0
	in.onceDepth = 0
	in.repoWrites = 0
	in.pools = nil
	in.lockedWrites = map[interface{}]bool{}
	in.bareReads = map[interface{}]bool{}
	in.stdout = nil
	in.undo = in.undo[:0]
	in.fr = nil
	in.depth = 0
	p = &Path{it: it, covers: map[string]bool{}}
	in.p = p
	defer func() {
		r := recover()
		func() {
			defer func() {
				if r2 := recover(); r2 != nil && r == nil {
					r = r2
				}
			}()
			in.confirm()
		}()
		if r != nil {
			switch a := r.(type) {
			case abort:
				switch a.kind {
				case "assume":
					p.assumed = true
				default:
					p.inconcl = append(p.inconcl, a.kind+": "+a.msg+in.where())
				}
			case targetPanic:
				p.panicked = a.msg
				p.fails = append(p.fails, failure{Label: "panic", Kind: "panic", Msg: a.msg + in.where(), Model: in.curModel()})
			default:
				msg := fmt.Sprint(r)
				if debugFlag {
					fmt.Println("ENGINE PANIC", r, string(debug.Stack()))
				}
				p.inconcl = append(p.inconcl, "engine: "+msg+in.where())
			}
		}
		p.final = in.curModel()
		for i := len(in.undo) - 1; i >= 0; i-- {
			in.undo[i]()
		}
		in.undo = in.undo[:0]
		in.initMode = 0
	}()
	in.call(fn, nil, nil)
	return p
}

func (in *Interp) where() string {
	s := ""
	n := 0
	for f := in.fr; f != nil && n < 4; f = f.caller {
		s += " < " + f.fi.fn.String()
		if f.cur != nil && n == 0 {
			s += " " + in.P.prog.Fset.Position(f.cur.Pos()).String()
			if i, ok := f.cur.(*ssa.If); ok {
				s += in.P.prog.Fset.Position(i.Cond.Pos()).String()
			}
		}
		n++
	}
	return s
}
