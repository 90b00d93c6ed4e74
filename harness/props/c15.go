package props

import (
	"time"

	"github.com/sfomuseum/go-edtf"
	"verif/harness/sym"
)

// consistent checks one bound and gives its time.
func consistent(d *edtf.Date, label string) (int64, bool) {
	u, ok := unixOf(d)
	sym.Assert(granularity(d.Precision), label+" precision is none or one granularity")
	if !ok {
		sym.Assert(sym.And(sym.EqStr(d.DateTime, ""), d.YMD == nil), label+" without a time has no date either")
		return 0, false
	}
	sym.Assert(sym.And(!d.Open, !d.Unknown), label+" is dated, so neither open nor unknown")
	sym.Assert(sym.EqStr(d.DateTime, time.Unix(u, 0).UTC().Format(time.RFC3339)), label+" RFC 3339 string is that of the timestamp")
	if t := d.Timestamp.Time(); t != nil {
		sym.Assert(t.Unix() == u, label+" time is that of the timestamp")
	}
	if v := d.YMD; v != nil {
		real := dateExists(v.Year, v.Month, v.Day)
		sym.Assert(real, label+" year-month-day exists")
		if real {
			sym.Assert(sym.And(lo(v.Year, v.Month, v.Day) <= u, u <= hi(v.Year, v.Month, v.Day)), label+" year-month-day is that of the timestamp")
		}
	}
	return u, true
}

// C15_forms: every shape of string.
func C15_forms() {
	k := sym.Choice("shape", shapes)
	res, err := parse(shape("s", k))
	if err != nil {
		return
	}
	sym.Assert(whole(res), "result is whole")
	if !whole(res) {
		return
	}
	a, aok := consistent(res.Start.Lower, boundNames[0])
	b, bok := consistent(res.Start.Upper, boundNames[1])
	c, cok := consistent(res.End.Lower, boundNames[2])
	d, dok := consistent(res.End.Upper, boundNames[3])
	if aok && bok {
		sym.Assert(a <= b, "start lower is not after start upper")
	}
	if cok && dok {
		sym.Assert(c <= d, "end lower is not after end upper")
	}
	if aok && bok && cok && dok && k != 2 && k != 15 {
		sym.Assert(sym.And(a <= c, b <= d), "start is not after end")
	}
	lower, lerr := res.Lower()
	sym.Assert((lerr == nil) == aok, "a lower time is given exactly when the first bound has one")
	if lerr == nil && aok {
		sym.Assert(lower.Unix() == a, "the lower time is that of the first bound")
	}
	upper, uerr := res.Upper()
	sym.Assert((uerr == nil) == dok, "an upper time is given exactly when the last bound has one")
	if uerr == nil && dok {
		sym.Assert(upper.Unix() == d, "the upper time is that of the last bound")
	}
	sym.Assert(sym.Implies(lerr != nil, edtf.IsNotSet(lerr)), "a missing lower time is a not-set error")
	sym.Assert(sym.Implies(uerr != nil, edtf.IsNotSet(uerr)), "a missing upper time is a not-set error")
}

// C15_set: a bound given any time of any day from -9999 to 9999, over whatever time
// it had.
func C15_set() {
	ys, y := sym.Digits("y", 4), 0
	y = sym.Num(ys)
	if sym.Choice("neg", 2) == 1 {
		sym.Assume(y > 0)
		ys, y = "-"+ys, -y
	}
	ms, ds := sym.Digits("m", 2), sym.Digits("d", 2)
	hs, mis, ss := sym.Digits("h", 2), sym.Digits("mi", 2), sym.Digits("s", 2)
	m, d, h, mi, s := sym.Num(ms), sym.Num(ds), sym.Num(hs), sym.Num(mis), sym.Num(ss)
	sym.Assume(sym.And(dateExists(y, m, d), h < 24, mi < 60, s < 60))
	t := time.Date(y, time.Month(m), d, h, mi, s, 0, time.UTC)
	b := new(edtf.Date)
	if sym.Choice("again", 2) == 1 {
		old := time.Unix(sym.Int64("old")/256, 0).UTC()
		b.SetTime(&old)
	}
	b.SetTime(&t)
	u, ok := unixOf(b)
	sym.Observe("dt", b.DateTime)
	sym.Assert(ok, "the bound is dated")
	if ok {
		sym.Observe("t", u)
		sym.Assert(u == sym.Secs(y, m, d, h*3600+mi*60+s), "the timestamp is the time's")
	}
	sym.Assert(sym.EqStr(b.DateTime, ys+"-"+ms+"-"+ds+"T"+hs+":"+mis+":"+ss+"Z"), "the RFC 3339 string is the time's")
}
