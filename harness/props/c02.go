package props

import (
	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/parser"
	"verif/harness/sym"
)

// agree checks that the three entry points agree on s.
func agree(s string) {
	valid := parser.IsValid(s)
	level, name, merr := parser.Matches(s)
	res, err := parser.ParseString(s)
	sym.Observe("valid", valid)
	sym.Observe("level", level)
	sym.Observe("err", err != nil)
	if err == nil && res != nil {
		sym.Assert(valid, "what parses is valid")
		if s == ".." || s == "" {
			sym.Assert(res.Level == -1, "a bare marker has no level")
		} else {
			sym.Assert(merr == nil, "what parses is classified")
			sym.Assert(sym.And(level == res.Level, sym.EqStr(name, res.Feature)), "classification gives the result's level and feature")
		}
	}
	if !valid {
		sym.Assert(edtf.IsUnrecognized(err), "what is not valid does not parse: unrecognized")
		sym.Assert(edtf.IsUnrecognized(merr), "what is not valid has no feature: unrecognized")
	}
	if s == ".." || s == "" {
		sym.Assert(valid, "the bare markers are valid")
	}
	sym.Assert(sym.Implies(sym.Match(only(grammar0), s), sym.And(merr == nil, level == 0)), "a level 0 string is of level 0")
	sym.Assert(sym.Implies(sym.And(sym.Match(only(grammar1), s), !sym.Match(only(grammar0), s)), sym.And(merr == nil, level == 1)), "a level 1 string of no lower level is of level 1")
	sym.Assert(sym.Implies(sym.And(sym.Match(only(grammar2), s), !sym.Match(only(grammar0), s), !sym.Match(only(grammar1), s)), sym.And(merr == nil, level == 2)), "a level 2 string of no lower level is of level 2")
}

// C02_raw: every string of up to 9 (thorough 14) bytes.
func C02_raw() { agree(sym.String("s", sym.Choice("n", sym.N(10, 15)))) }

// C02_shapes: every shape of string.
func C02_shapes() { agree(shape("s", sym.Choice("shape", shapes))) }

// C02_near: every shape of string with one byte changed.
func C02_near() { agree(mutated("s", sym.Choice("shape", shapes))) }

// C02_set: sets of 7 to 1025 years and months, one of them any year (above 65 members: any of
// ten).
func C02_set() { agree("{" + listed(longer()) + "}") }

// C02_huge: nine pieces of text repeated to 1025, 4097 and 70000 bytes, with any byte before and
// after, alone or after the beginning of a year.
func C02_huge() { agree(huge()) }
