package props

import (
	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/cmp"
	"github.com/sfomuseum/go-edtf/parser"
	"github.com/sfomuseum/go-edtf/unix"
	"verif/harness/sym"
)

// entries is the number of entry points.
const entries = 8

// enter calls the k-th entry point on s.
func enter(s string, k int) {
	switch k {
	case 0:
		parser.ParseString(s)
	case 1:
		parser.IsValid(s)
	case 2:
		parser.Matches(s)
	case 3:
		cmp.IsBefore(s, "2000")
		cmp.IsAfter(s, "2000")
	case 4:
		cmp.IsBetween("2000", s, "..")
	case 5:
		unix.DeriveRanges(s)
	case 6:
		edtf.IsDeprecated(s)
		edtf.ReplaceDeprecated(s)
	case 7:
		edtf.IsOpen(s)
		edtf.IsUnknown(s)
		edtf.IsUnspecified(s)
	}
}

// C19_state: no entry point, on any shape of string, writes to memory another call
// could read; two at the same time have no data race.
func C19_state() {
	s := lean("s", sym.Choice("shape", shapes))
	k := sym.Choice("entry", entries)
	sym.Together(func() { enter(s, k) }, func() { enter(s, k) })
	sym.Assert(sym.GlobalsWritten() == 0, "no call changes state a concurrent call could read")
}

// C19_state_raw: the same for every string of up to 5 (thorough 9) bytes.
func C19_state_raw() {
	s := sym.String("s", sym.Choice("n", sym.N(6, 10)))
	k := sym.Choice("entry", entries)
	sym.Together(func() { enter(s, k) }, func() { enter(s, k) })
	sym.Assert(sym.GlobalsWritten() == 0, "no call changes state a concurrent call could read")
}

// C19_state_results: the methods of results.
func C19_state_results() {
	res, err := parser.ParseString(lean("s", sym.Choice("shape", shapes)))
	if err != nil || !whole(res) {
		return
	}
	ask := func() {
		res.Lower()
		res.Upper()
		res.Before(res)
		res.After(res)
		_ = res.String()
		for _, d := range bounds(res) {
			d.Precision.IsDaily()
			if d.YMD != nil {
				d.YMD.Equals(d.YMD)
			}
			if d.Timestamp != nil {
				d.Timestamp.Time()
			}
		}
	}
	before := copied(res)
	sym.Together(ask, ask)
	sym.Assert(sym.GlobalsWritten() == 0, "no call changes state a concurrent call could read")
	sym.Assert(same(res, before), "asking a result changes nothing in it")
}

// copied is a copy that shares nothing with d.
func copied(d *edtf.EDTFDate) *edtf.EDTFDate {
	date := func(d *edtf.Date) *edtf.Date {
		c := *d
		if d.Timestamp != nil {
			c.Timestamp = edtf.NewTimestampWithTime(d.Timestamp.Time())
		}
		if d.YMD != nil {
			v := *d.YMD
			c.YMD = &v
		}
		return &c
	}
	span := func(r *edtf.DateRange) *edtf.DateRange {
		return &edtf.DateRange{EDTF: r.EDTF, Lower: date(r.Lower), Upper: date(r.Upper)}
	}
	return &edtf.EDTFDate{Start: span(d.Start), End: span(d.End), EDTF: d.EDTF, Level: d.Level, Feature: d.Feature}
}

// scribble overwrites everything in d.
func scribble(d *edtf.EDTFDate) {
	for _, b := range bounds(d) {
		b.DateTime = "?"
		b.Open, b.Unknown = !b.Open, !b.Unknown
		b.Precision.ToggleFlag(edtf.ALL)
		b.Uncertain.ToggleFlag(edtf.ALL)
		b.Approximate.ToggleFlag(edtf.ALL)
		b.Unspecified.ToggleFlag(edtf.ALL)
		b.Inclusivity.ToggleFlag(edtf.ALL)
		if b.Timestamp != nil {
			b.Timestamp.UnmarshalJSON([]byte("1"))
		}
		if b.YMD != nil {
			b.YMD.Year, b.YMD.Month, b.YMD.Day = 1, 1, 1
		}
		b.Timestamp, b.YMD = nil, nil
	}
	d.Start.EDTF, d.End.EDTF = "?", "?"
	d.Start.Lower, d.Start.Upper, d.End.Lower, d.End.Upper = nil, nil, nil, nil
	d.Start, d.End = nil, nil
	d.EDTF, d.Feature, d.Level = "?", "?", 7
}

// history checks that s means the same before and after other is dealt with and the
// results are written over.
func history(s, other string) {
	sym.Observe("s", s)
	sym.Observe("other", other)
	first, err := parser.ParseString(s)
	valid := parser.IsValid(s)
	level, name, merr := parser.Matches(s)
	var was *edtf.EDTFDate
	if err == nil {
		if !whole(first) {
			sym.Assert(false, "result is whole")
			return
		}
		was = copied(first)
	}
	o, oerr := parser.ParseString(other)
	if err == nil && oerr == nil {
		sym.Assert(sym.Not(sym.Shared(first, o)), "results of different calls share no memory")
	}
	if oerr == nil && whole(o) {
		scribble(o)
	}
	if err == nil {
		sym.Assert(same(first, was), "changing one result never changes another")
		scribble(first)
		first, _ = parser.ParseString(s)
		sym.Assert(same(first, was), "changing a result never changes a later answer")
		if !whole(first) {
			return
		}
	}
	second, err2 := parser.ParseString(s)
	sym.Assert((err == nil) == (err2 == nil), "parsing gives the same answer whatever came before")
	if err == nil && err2 == nil {
		sym.Assert(same(second, was), "parsing gives the same answer whatever came before")
		sym.Assert(sym.Not(sym.Shared(first, second)), "results of different calls share no memory")
		scribble(second)
		sym.Assert(same(first, was), "changing one result never changes another")
	}
	level2, name2, merr2 := parser.Matches(s)
	sym.Assert(sym.And(parser.IsValid(s) == valid, level2 == level, sym.EqStr(name2, name), (merr == nil) == (merr2 == nil)), "classification and validation give the same answer whatever came before")
}

// C19_history: any shape of string, before and after the same string with one byte
// changed, and after itself.
func C19_history() {
	s := lean("s", sym.Choice("shape", shapes))
	at := sym.Choice("at", len(s)+1)
	if at == len(s) {
		history(s, s)
		return
	}
	history(s, s[:at]+sym.StringIn("b", 1, [2]string{"0123456789X", "0123456789X-/.,?~%"}[sym.Tier()])+s[at+1:])
}

// C19_markers: open and unknown bounds, whose values could be shared.
func C19_markers() {
	f := func(tag string) string {
		switch sym.Choice(tag, 6) {
		case 0:
			return ".."
		case 1:
			return ""
		case 2:
			return "../" + sym.Digits(tag+".y", 4)
		case 3:
			return "/" + sym.Digits(tag+".y", 4)
		case 4:
			return sym.Digits(tag+".y", 4) + "/.."
		}
		return "[.." + sym.Digits(tag+".y", 4) + "]"
	}
	history(f("a"), f("b"))
}
