package props

import (
	"github.com/sfomuseum/go-edtf"
	"verif/harness/sym"
)

var grains = [...]edtf.Precision{edtf.ALL, edtf.ANY, edtf.DAY, edtf.WEEK, edtf.MONTH, edtf.YEAR, edtf.DECADE, edtf.CENTURY, edtf.MILLENIUM}
var grainValues = [...]uint32{2, 4, 8, 16, 32, 64, 128, 256, 512}

// C21_values: the named granularities.
func C21_values() {
	sym.Assert(edtf.NONE == 0, "NONE is zero")
	k := sym.Choice("k", len(grains))
	sym.Assert(uint32(grains[k]) == grainValues[k], "documented value")
	for j, g := range grains {
		sym.Assert(g.HasFlag(grains[k]) == (j == k), "each granularity has its own bit alone")
	}
	sym.Assert(!edtf.NONE.HasFlag(grains[k]), "NONE has no granularity")
}

// C21_bits: every value and every flag, of 32 bits each.
func C21_bits() {
	v, f := sym.Uint32("v"), sym.Uint32("f")
	p := edtf.Precision(v)
	flag := edtf.Precision(f)
	has := p.HasFlag(flag)
	sym.Assert(has == (v&f != 0), "a flag is present when they share a bit")
	sym.Assert(uint32(p) == v, "asking changes nothing")
	a := p
	a.AddFlag(flag)
	sym.Assert(uint32(a) == v|f, "adding sets the bits of the flag and no other")
	sym.Assert(sym.Implies(f != 0, a.HasFlag(flag)), "an added flag is present")
	c := p
	c.ClearFlag(flag)
	sym.Assert(uint32(c) == v&^f, "clearing clears the bits of the flag and no other")
	sym.Assert(!c.HasFlag(flag), "a cleared flag is absent")
	t := p
	t.ToggleFlag(flag)
	sym.Assert(uint32(t) == v^f, "toggling turns the bits of the flag and no other")
	t.ToggleFlag(flag)
	sym.Assert(uint32(t) == v, "toggling twice restores")
}

// C21_questions: every value of 32 bits.
func C21_questions() {
	v := sym.Uint32("v")
	p := edtf.Precision(v)
	sym.Assert(p.IsAnnual() == (v&64 != 0), "annual")
	sym.Assert(p.IsMonthly() == (v&32 != 0), "monthly")
	sym.Assert(p.IsDaily() == (v&8 != 0), "daily")
	sym.Assert(uint32(p) == v, "asking changes nothing")
}

// C21_history: any four operations, one after another, with any flags.
func C21_history() {
	v := sym.Uint32("v")
	p := edtf.Precision(v)
	for i := 0; i < sym.N(3, 4); i++ {
		f := sym.Uint32("f")
		switch sym.Choice("op", 3) {
		case 0:
			p.AddFlag(edtf.Precision(f))
			v |= f
		case 1:
			p.ClearFlag(edtf.Precision(f))
			v &^= f
		case 2:
			p.ToggleFlag(edtf.Precision(f))
			v ^= f
		}
	}
	sym.Assert(uint32(p) == v, "a set of bits after any history")
}
