package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

type SolverStats struct {
	Queries  int64
	Sat      int64
	Unsat    int64
	Unknown  int64
	Fallback int64
	Errors   int64
	Time     time.Duration
}

// Solver is one incremental SMT process; each path lives in one push scope.
type Solver struct {
	bin      []string
	cmd      *exec.Cmd
	in       *bufio.Writer
	inc      io.WriteCloser
	out      *bufio.Reader
	inPath   bool
	x        *Ctx
	decl     []*Term
	nassert  int
	defs     []*Term
	stats    SolverStats
	restarts int
	timeout  int              // ms
	log      *strings.Builder // the path's script, for the fallback solver
}

func newSolver(x *Ctx, timeoutMs int) *Solver {
	s := &Solver{x: x, timeout: timeoutMs, bin: []string{"z3", "-in", "-smt2"}, log: &strings.Builder{}}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :timeout %d)\n(set-option :produce-models true)\n", s.timeout)
}

func (s *Solver) close() {
	s.inc.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// restart replaces a process that no longer answers. The query that is open keeps
// its scope: closeScope's pop finds one to drop.
func (s *Solver) restart() {
	s.close()
	s.start()
	s.in.WriteString("(push 1)\n")
	s.restarts++
}

func (s *Solver) send(f string, a ...interface{}) {
	str := fmt.Sprintf(f, a...)
	s.in.WriteString(str)
	s.log.WriteString(str)
}

// open starts a scope of its own for one query; close drops it.
func (s *Solver) openScope() {
	s.in.WriteString("(push 1)\n")
	s.log.Reset()
	s.decl = nil
	s.nassert = 0
}

func (s *Solver) closeScope() {
	s.in.WriteString("(pop 1)\n")
	for _, t := range s.defs {
		t.defd = false
	}
	s.defs = s.defs[:0]
}

func width(lo, hi I128) int32 {
	// signed width holding lo..hi
	w := hi.bitlen() + 1
	if hi.sign() < 0 {
		w = 1
	}
	if lo.sign() < 0 {
		l := lo.add(i64(1)).bitlen() + 1 // -2^(w-1) fits
		if l > w {
			w = l
		}
	}
	return int32(w)
}

func bvConst(v I128, w int32) string {
	z := v.big()
	if z.Sign() < 0 {
		m := u64(1).big()
		m.Lsh(m, uint(w))
		z.Add(z, m)
	}
	return fmt.Sprintf("(_ bv%s %d)", z.String(), w)
}

// ref returns the name of a defined term, extended or truncated to width w.
func (s *Solver) at(t *Term, w int32) string {
	if t.op == OConst {
		m := t.k.big()
		mod := u64(1).big()
		mod.Lsh(mod, uint(w))
		m.Mod(m, mod)
		return fmt.Sprintf("(_ bv%s %d)", m.String(), w)
	}
	n := tname(t)
	switch {
	case t.width == w:
		return n
	case t.width < w:
		return fmt.Sprintf("((_ sign_extend %d) %s)", w-t.width, n)
	default:
		return fmt.Sprintf("((_ extract %d 0) %s)", w-1, n)
	}
}

func tname(t *Term) string {
	if t.op == BConst {
		if t.cb() {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("t%d", t.id)
}

func (s *Solver) twidth(t *Term) int32 {
	if t.op == OConst {
		return width(t.k, t.k)
	}
	return t.width
}

func max32(a, b int32) int32 {
	if a > b {
		return a
	}
	return b
}

func setExpr(n string, w int32, set Set256) string {
	var alts []string
	for i := 0; i < 256; {
		if !set.has(byte(i)) {
			i++
			continue
		}
		j := i
		for j+1 < 256 && set.has(byte(j+1)) {
			j++
		}
		if i == j {
			alts = append(alts, fmt.Sprintf("(= %s %s)", n, bvConst(i64(int64(i)), w)))
		} else {
			alts = append(alts, fmt.Sprintf("(and (bvuge %s %s) (bvule %s %s))", n, bvConst(i64(int64(i)), w), n, bvConst(i64(int64(j)), w)))
		}
		i = j + 1
	}
	switch len(alts) {
	case 0:
		return "false"
	case 1:
		return alts[0]
	}
	return "(or " + strings.Join(alts, " ") + ")"
}

// define emits the definition of t (and everything below it) in the path scope.
func (s *Solver) define(t *Term) {
	if t.isConst() || t.defd {
		return
	}
	for _, a := range t.args {
		s.define(a)
	}
	t.defd = true
	s.defs = append(s.defs, t)
	n := tname(t)
	if !t.isBool() {
		lo, hi := s.x.intrinsic(t)
		t.width = width(lo, hi)
	}
	w := t.width
	def := ""
	switch t.op {
	case OVar:
		if t.isByte {
			t.width = 9
			s.send("(declare-const %s (_ BitVec 9))\n(assert %s)\n", n, setExpr(n, 9, t.dom0))
		} else {
			s.send("(declare-const %s (_ BitVec %d))\n(assert (and (bvsge %s %s) (bvsle %s %s)))\n", n, w, n, bvConst(t.ilo, w), n, bvConst(t.ihi, w))
		}
		s.decl = append(s.decl, t)
		return
	case BVar:
		s.send("(declare-const %s Bool)\n", n)
		s.decl = append(s.decl, t)
		return
	case OLin:
		e := bvConst(t.k.wrap(w), w)
		for i, a := range t.args {
			r := s.at(a, w)
			c := t.coef[i]
			switch {
			case c == i64(1):
				e = fmt.Sprintf("(bvadd %s %s)", e, r)
			case c == i64(-1):
				e = fmt.Sprintf("(bvsub %s %s)", e, r)
			default:
				e = fmt.Sprintf("(bvadd %s (bvmul %s %s))", e, bvConst(c.wrap(w), w), r)
			}
		}
		def = e
	case OMul:
		def = fmt.Sprintf("(bvmul %s %s)", s.at(t.args[0], w), s.at(t.args[1], w))
	case OQuo, ORem:
		ww := max32(s.twidth(t.args[0]), s.twidth(t.args[1])) + 1
		al, _ := s.x.intrinsic(t.args[0])
		bl, _ := s.x.intrinsic(t.args[1])
		op := map[Op]string{OQuo: "bvsdiv", ORem: "bvsrem"}[t.op]
		if al.sign() >= 0 && bl.sign() >= 0 {
			op = map[Op]string{OQuo: "bvudiv", ORem: "bvurem"}[t.op]
		}
		def = s.resize(fmt.Sprintf("(%s %s %s)", op, s.at(t.args[0], ww), s.at(t.args[1], ww)), ww, w)
	case OWrap:
		nb := int32(t.nbits)
		e := s.at(t.args[0], nb)
		if t.signed {
			def = s.resize(e, nb, w)
		} else {
			def = s.resize(fmt.Sprintf("((_ zero_extend 1) %s)", e), nb+1, w)
		}
	case OBit:
		nb := int32(t.nbits)
		a, b := s.at(t.args[0], nb), s.at(t.args[1], nb)
		var e string
		switch t.bk {
		case bitAnd:
			e = fmt.Sprintf("(bvand %s %s)", a, b)
		case bitOr:
			e = fmt.Sprintf("(bvor %s %s)", a, b)
		case bitXor:
			e = fmt.Sprintf("(bvxor %s %s)", a, b)
		case bitAndNot:
			e = fmt.Sprintf("(bvand %s (bvnot %s))", a, b)
		case bitShl, bitShr:
			// the count may exceed nb bits: saturate
			ww := max32(s.twidth(t.args[1]), 9) + 1
			cnt := s.at(t.args[1], ww)
			big := fmt.Sprintf("(bvuge %s %s)", cnt, bvConst(i64(int64(nb)), ww))
			op := "bvshl"
			if t.bk == bitShr {
				op = "bvlshr"
				if t.signed {
					op = "bvashr"
				}
			}
			sh := fmt.Sprintf("(%s %s %s)", op, a, b)
			ov := bvConst(I128{}, nb)
			if op == "bvashr" {
				ov = fmt.Sprintf("(bvashr %s %s)", a, bvConst(i64(int64(nb-1)), nb))
			}
			e = fmt.Sprintf("(ite %s %s %s)", big, ov, sh)
		}
		if t.signed {
			def = s.resize(e, nb, w)
		} else {
			def = s.resize(fmt.Sprintf("((_ zero_extend 1) %s)", e), nb+1, w)
		}
	case ODigit:
		ww := max32(s.twidth(t.args[0]), pow10width(int(t.k.lo)))
		e := s.at(t.args[0], ww)
		if t.k.lo > 0 {
			e = fmt.Sprintf("(bvudiv %s %s)", e, bvConst(pow10tab[t.k.lo], ww))
		}
		ww2 := max32(ww, 5)
		if ww2 != ww {
			e = fmt.Sprintf("((_ sign_extend %d) %s)", ww2-ww, e)
		}
		def = s.resize(fmt.Sprintf("(bvurem %s %s)", e, bvConst(i64(10), ww2)), ww2, w)
		if lo, _ := s.x.intrinsic(t.args[0]); lo.sign() < 0 {
			aw := s.twidth(t.args[0])
			def = fmt.Sprintf("(ite (bvslt %s %s) %s %s)", s.at(t.args[0], aw), bvConst(I128{}, aw), bvConst(I128{}, w), def)
		}
	case OIte:
		def = fmt.Sprintf("(ite %s %s %s)", tname(t.args[0]), s.at(t.args[1], w), s.at(t.args[2], w))
	case OSecs:
		// days from the civil date, in the shifted 400-year cycle so that every
		// quantity is non-negative
		y, m, d, sod := t.args[0], t.args[1], t.args[2], t.args[3]
		yl, yh := s.x.intrinsic(y)
		cyc := int64(0)
		for yl.add(i64(cyc * 400)).lt(i64(400)) {
			cyc++
		}
		ww := max32(width(yl, yh), 12) + 20
		wo := max32(w, ww)
		if wo < 48 {
			wo = 48
		}
		Y := fmt.Sprintf("(bvadd %s %s)", s.at(y, wo), bvConst(i64(cyc*400), wo))
		M := s.at(m, wo)
		k := func(v int64) string { return bvConst(i64(v), wo) }
		jan := fmt.Sprintf("(bvule %s %s)", M, k(2))
		Y = fmt.Sprintf("(ite %s (bvsub %s %s) %s)", jan, Y, k(1), Y)
		mp := fmt.Sprintf("(ite %s (bvadd %s %s) (bvsub %s %s))", jan, M, k(9), M, k(3))
		doy := fmt.Sprintf("(bvudiv (bvadd (bvmul %s %s) %s) %s)", k(153), mp, k(2), k(5))
		yn := fmt.Sprintf("y%d", t.id)
		s.send("(define-fun %s () (_ BitVec %d) %s)\n", yn, wo, Y)
		days := fmt.Sprintf("(bvadd (bvmul %s %s) (bvudiv %s %s) (bvneg (bvudiv %s %s)) (bvudiv %s %s) %s %s (bvneg %s))",
			k(365), yn, yn, k(4), yn, k(100), yn, k(400), doy, s.at(d, wo), k(1+719468+cyc*146097))
		def = s.resize(fmt.Sprintf("(bvadd (bvmul %s %s) %s)", k(86400), days, s.at(sod, wo)), wo, w)
	case BNot:
		def = fmt.Sprintf("(not %s)", tname(t.args[0]))
	case BAnd, BOr:
		var b strings.Builder
		if t.op == BAnd {
			b.WriteString("(and")
		} else {
			b.WriteString("(or")
		}
		for _, a := range t.args {
			b.WriteByte(' ')
			b.WriteString(tname(a))
		}
		b.WriteByte(')')
		def = b.String()
	case BEq0:
		ww := s.twidth(t.args[0])
		def = fmt.Sprintf("(= %s %s)", s.at(t.args[0], ww), bvConst(I128{}, ww))
	case BLe0:
		ww := s.twidth(t.args[0])
		def = fmt.Sprintf("(bvsle %s %s)", s.at(t.args[0], ww), bvConst(I128{}, ww))
	case BIn:
		def = setExpr(tname(t.args[0]), 9, t.set)
	case BDiv:
		ww := max32(s.twidth(t.args[0]), width(I128{}, t.k)) + 1
		op := "bvsrem"
		if l, _ := s.x.intrinsic(t.args[0]); l.sign() >= 0 {
			op = "bvurem"
		}
		def = fmt.Sprintf("(= (%s %s %s) %s)", op, s.at(t.args[0], ww), bvConst(t.k, ww), bvConst(I128{}, ww))
	default:
		panic("define")
	}
	if t.isBool() {
		s.send("(define-fun %s () Bool %s)\n", n, def)
	} else {
		s.send("(define-fun %s () (_ BitVec %d) %s)\n", n, w, def)
	}
}

func (v I128) wrap(w int32) I128 {
	if w >= 126 {
		return v
	}
	z := v.big()
	m := u64(1).big()
	m.Lsh(m, uint(w))
	z.Mod(z, m)
	r, _ := fromBig(z)
	return r
}

func pow10width(i int) int32 { return int32(pow10tab[i].bitlen() + 1) }

func (s *Solver) resize(e string, from, to int32) string {
	switch {
	case from == to:
		return e
	case from < to:
		return fmt.Sprintf("((_ sign_extend %d) %s)", to-from, e)
	default:
		return fmt.Sprintf("((_ extract %d 0) %s)", to-1, e)
	}
}

func (s *Solver) assert(t *Term) {
	s.define(t)
	s.send("(assert %s)\n", tname(t))
	s.nassert++
}

type Model map[string]I128

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// check decides whether the path condition together with extra is satisfiable.
func (s *Solver) check(extra ...*Term) (SatRes, Model) {
	for _, e := range extra {
		s.define(e)
	}
	t0 := time.Now()
	for _, e := range extra {
		fmt.Fprintf(s.in, "(assert %s)\n", tname(e))
	}
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	s.stats.Queries++
	res := Unknown
	proc := s.cmd.Process
	watch := time.AfterFunc(time.Duration(s.timeout)*time.Millisecond*3/2+5*time.Second, func() { proc.Kill() })
	l, err := s.readLine()
	for err == nil && strings.HasPrefix(l, "(error") {
		s.stats.Errors++
		fmt.Println("SMT ERROR:", l)
		l, err = s.readLine()
		res = Unknown
		if l == "sat" || l == "unsat" {
			l = "unknown"
		}
	}
	if !watch.Stop() || err != nil {
		// the process ran past its own limit and was ended, or died
		s.restart()
		l = "unknown"
	}
	var m Model
	switch l {
	case "sat":
		res = Sat
		s.stats.Sat++
		m = s.model()
	case "unsat":
		res = Unsat
		s.stats.Unsat++
	default:
		res, m = s.fallback(extra)
		if res == Unknown {
			s.stats.Unknown++
		}
	}
	if d := os.Getenv("VERIF_SLOW"); d != "" && time.Since(t0) > 3*time.Second {
		var b strings.Builder
		b.WriteString(s.log.String())
		for _, e := range extra {
			fmt.Fprintf(&b, "(assert %s)\n", tname(e))
		}
		b.WriteString("(check-sat)\n")
		os.WriteFile(fmt.Sprintf("%s/q%d_%s.smt2", d, time.Now().UnixNano(), l), []byte(b.String()), 0o644)
	}
	s.stats.Time += time.Since(t0)
	return res, m
}

func (s *Solver) getValueCmd() string {
	var b strings.Builder
	b.WriteString("(get-value (")
	for _, v := range s.decl {
		b.WriteString(tname(v))
		b.WriteByte(' ')
	}
	b.WriteString("))\n")
	return b.String()
}

func (s *Solver) model() Model {
	m := Model{}
	if len(s.decl) == 0 {
		return m
	}
	s.in.WriteString(s.getValueCmd())
	s.in.Flush()
	depth := 0
	var text strings.Builder
	for {
		l, err := s.readLine()
		if err != nil {
			panic("solver died in get-value")
		}
		text.WriteString(l)
		text.WriteByte(' ')
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 {
			break
		}
	}
	return s.parseModel(text.String())
}

func (s *Solver) parseModel(txt string) Model {
	m := Model{}
	byName := map[string]*Term{}
	for _, v := range s.decl {
		byName[tname(v)] = v
	}
	txt = strings.NewReplacer("(_ bv", " _bv", "(", " ", ")", " ").Replace(txt)
	f := strings.Fields(txt)
	for i := 0; i+1 < len(f); i++ {
		v, ok := byName[f[i]]
		if !ok {
			continue
		}
		val := f[i+1]
		switch {
		case val == "true":
			m[v.name] = i64(1)
		case val == "false":
			m[v.name] = I128{}
		case strings.HasPrefix(val, "#"):
			z := u64(0).big()
			base := 16
			bitsN := int32(len(val)-2) * 4
			if val[1] == 'b' {
				base = 2
				bitsN = int32(len(val) - 2)
			}
			z.SetString(val[2:], base)
			if bitsN >= v.width && z.Bit(int(v.width-1)) == 1 {
				mod := u64(1).big()
				mod.Lsh(mod, uint(v.width))
				z.Sub(z, mod)
			}
			r, _ := fromBig(z)
			m[v.name] = r
		}
	}
	return m
}

// fallback puts an undecided query to other solvers.
func (s *Solver) fallback(extra []*Term) (SatRes, Model) {
	if hurried.Load() || late() {
		return Unknown, nil
	}
	s.stats.Fallback++
	var b strings.Builder
	b.WriteString("(set-option :produce-models true)\n(set-logic QF_BV)\n")
	b.WriteString(s.log.String())
	for _, e := range extra {
		fmt.Fprintf(&b, "(assert %s)\n", tname(e))
	}
	b.WriteString("(check-sat)\n")
	b.WriteString(s.getValueCmd())
	for _, bin := range [][]string{{"z3-new", "-in", "-smt2", "-T:20"}, {"cvc5", "--lang=smt2", "--tlimit=20000", "-"}} {
		cmd := exec.Command(bin[0], bin[1:]...)
		cmd.Stdin = strings.NewReader(b.String())
		out, _ := cmd.Output()
		o := string(out)
		nl := strings.IndexByte(o, '\n')
		if nl < 0 {
			continue
		}
		switch strings.TrimSpace(o[:nl]) {
		case "sat":
			return Sat, s.parseModel(o[nl:])
		case "unsat":
			return Unsat, nil
		}
	}
	return Unknown, nil
}
