// Package props states the properties as harnesses over the real packages.
package props

import (
	"time"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/parser"
	"verif/harness/sym"
)

// All lists the harnesses for native replay; it is filled by all.go.
var All = map[string]func(){}

const day = 86400

// lo and hi are the first and last second of a calendar day.
func lo(y, m, d int) int64 { return sym.Secs(y, m, d, 0) }
func hi(y, m, d int) int64 { return sym.Secs(y, m, d, day-1) }

func dateExists(y, m, d int) bool {
	return sym.And(1 <= m, m <= 12, 1 <= d, d <= sym.DaysIn(y, m))
}

func isYMD(v *edtf.YMD, y, m, d int) bool {
	if v == nil {
		return false
	}
	return sym.And(v.Year == y, v.Month == m, v.Day == d)
}

// unixOf is the bound's time; ok is false when it has none.
func unixOf(d *edtf.Date) (int64, bool) {
	if d == nil || d.Timestamp == nil {
		return 0, false
	}
	return d.Timestamp.Unix(), true
}

// boundAt asserts that a bound is dated, at t, neither open nor unknown.
func boundAt(d *edtf.Date, t int64, label string) {
	u, ok := unixOf(d)
	if !ok {
		sym.Assert(false, label+" is dated")
		return
	}
	sym.Assert(u == t, label+" instant")
	sym.Assert(sym.And(!d.Open, !d.Unknown), label+" is neither open nor unknown")
}

func whole(d *edtf.EDTFDate) bool {
	return d != nil && d.Start != nil && d.End != nil && d.Start.Lower != nil && d.Start.Upper != nil && d.End.Lower != nil && d.End.Upper != nil
}

// spans asserts that all the dated bounds cover exactly [a, b].
func spans(d *edtf.EDTFDate, a, b int64) {
	if !whole(d) {
		sym.Assert(false, "result is whole")
		return
	}
	boundAt(d.Start.Lower, a, "start lower")
	boundAt(d.End.Upper, b, "end upper")
}

// days asserts that the bounds cover exactly [a, b], the start range lying in
// the first day of it and the end range in the last.
func days(d *edtf.EDTFDate, a, b int64) {
	spans(d, a, b)
	if !whole(d) {
		return
	}
	if u, ok := unixOf(d.Start.Upper); ok {
		sym.Assert(sym.Or(u == a, u == a+day-1), "the start range lies in the first day")
	} else {
		sym.Assert(false, "start upper is dated")
	}
	if u, ok := unixOf(d.End.Lower); ok {
		sym.Assert(sym.Or(u == b, u == b-day+1), "the end range lies in the last day")
	} else {
		sym.Assert(false, "end lower is dated")
	}
}

func bounds(d *edtf.EDTFDate) [4]*edtf.Date {
	return [4]*edtf.Date{d.Start.Lower, d.Start.Upper, d.End.Lower, d.End.Upper}
}

var boundNames = [4]string{"start lower", "start upper", "end lower", "end upper"}

func parse(s string) (*edtf.EDTFDate, error) {
	d, err := parser.ParseString(s)
	observe(s, d, err)
	return d, err
}

// observe records what a parse returned, to compare the engine with native runs.
func observe(s string, d *edtf.EDTFDate, err error) {
	sym.Observe("edtf", s)
	if err != nil {
		sym.Observe("err", true)
		return
	}
	if !whole(d) {
		sym.Observe("whole", false)
		return
	}
	sym.Observe("level", d.Level)
	sym.Observe("feature", d.Feature)
	for _, b := range bounds(d) {
		if u, ok := unixOf(b); ok {
			sym.Observe("t", u)
			sym.Observe("dt", b.DateTime)
		} else {
			sym.Observe("t", "none")
		}
		sym.Observe("open", b.Open)
		sym.Observe("unknown", b.Unknown)
		sym.Observe("uncertain", b.Uncertain)
		sym.Observe("approximate", b.Approximate)
		sym.Observe("unspecified", b.Unspecified)
		sym.Observe("precision", b.Precision)
		sym.Observe("inclusivity", b.Inclusivity)
		if b.YMD != nil {
			sym.Observe("y", b.YMD.Year)
			sym.Observe("m", b.YMD.Month)
			sym.Observe("d", b.YMD.Day)
		}
	}
}

var _ = time.UTC
