package props

import (
	"encoding/json"
	"strconv"
	"strings"
	"time"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/parser"
	"verif/harness/sym"
)

// C18_timestamp: every 64-bit value through the timestamp's own encoding.
func C18_timestamp() {
	v := sym.Int64("v")
	t := time.Unix(v, 0)
	ts := edtf.NewTimestampWithTime(&t)
	b, err := ts.MarshalJSON()
	sym.Assert(err == nil, "a timestamp is encoded")
	s := string(b)
	sym.Observe("s", s)
	sym.Assert(sym.Match("^(0|-?[1-9][0-9]*)$", s), "a timestamp is encoded as a decimal integer")
	var back edtf.Timestamp
	err = back.UnmarshalJSON(b)
	sym.Assert(err == nil, "an encoded timestamp is decoded")
	sym.Assert(back.Unix() == v, "a timestamp decodes to itself")
}

// resultMembers and the types below it are the documented members of an encoded result.
type resultMembers struct {
	Start   *rangeMembers `json:"start"`
	End     *rangeMembers `json:"end"`
	EDTF    *string       `json:"edtf"`
	Level   *int64        `json:"level"`
	Feature *string       `json:"feature"`
}

type rangeMembers struct {
	EDTF  *string      `json:"edtf"`
	Lower *dateMembers `json:"lower"`
	Upper *dateMembers `json:"upper"`
}

type dateMembers struct {
	DateTime    string          `json:"datetime"`
	Timestamp   json.RawMessage `json:"timestamp"`
	YMD         *ymdMembers     `json:"ymd"`
	Uncertain   uint32          `json:"uncertain"`
	Approximate uint32          `json:"approximate"`
	Unspecified uint32          `json:"unspecified"`
	Precision   uint32          `json:"precision"`
	Open        bool            `json:"open"`
	Unknown     bool            `json:"unknown"`
	Inclusivity uint32          `json:"inclusivity"`
}

type ymdMembers struct {
	Year  *int64 `json:"year"`
	Month *int64 `json:"month"`
	Day   *int64 `json:"day"`
}

func rangeMember(m *rangeMembers, r *edtf.DateRange) bool {
	return m != nil && m.EDTF != nil && sym.And(sym.EqStr(*m.EDTF, r.EDTF), dateMember(m.Lower, r.Lower), dateMember(m.Upper, r.Upper))
}

func dateMember(m *dateMembers, d *edtf.Date) bool {
	if m == nil || d == nil {
		return m == nil && d == nil
	}
	if (len(m.Timestamp) == 0) != (d.Timestamp == nil) || (m.YMD == nil) != (d.YMD == nil) {
		return false
	}
	ok := sym.And(sym.EqStr(m.DateTime, d.DateTime), m.Uncertain == uint32(d.Uncertain), m.Approximate == uint32(d.Approximate),
		m.Unspecified == uint32(d.Unspecified), m.Precision == uint32(d.Precision), m.Open == d.Open, m.Unknown == d.Unknown,
		m.Inclusivity == uint32(d.Inclusivity))
	if d.Timestamp != nil {
		v, err := strconv.ParseInt(string(m.Timestamp), 10, 64)
		ok = sym.And(ok, err == nil, v == d.Timestamp.Unix())
	}
	if d.YMD != nil {
		if m.YMD.Year == nil || m.YMD.Month == nil || m.YMD.Day == nil {
			return false
		}
		ok = sym.And(ok, *m.YMD.Year == int64(d.YMD.Year), *m.YMD.Month == int64(d.YMD.Month), *m.YMD.Day == int64(d.YMD.Day))
	}
	return ok
}

// C18_built: a result with one symbolic field and every other one set, and with
// that date or timestamp missing.
func C18_built() {
	ts := int64(7)
	flags := [5]uint32{2, 4, 8, 16, 64}
	num := [4]int{1985, 4, 12, 2}
	text := "1985"
	open, unknown := true, true
	switch k := sym.Choice("which", 13); k {
	case 0, 1, 2, 3, 4:
		flags[k] = sym.Uint32("flags")
	case 5, 6, 7, 8:
		num[k-5] = int(sym.Int64("num"))
	case 9:
		ts = sym.Int64("timestamp")
	case 10:
		open, unknown = sym.Bool("open"), sym.Bool("unknown")
	default:
		text = sym.StringIn("text", k-10, "\"\\/<>&\n\t x{}[]:,")
	}
	when := time.Unix(ts, 0)
	d := &edtf.Date{DateTime: text, Timestamp: edtf.NewTimestampWithTime(&when), YMD: &edtf.YMD{Year: num[0], Month: num[1], Day: num[2]},
		Uncertain: edtf.Precision(flags[0]), Approximate: edtf.Precision(flags[1]), Unspecified: edtf.Precision(flags[2]),
		Precision: edtf.Precision(flags[3]), Open: open, Unknown: unknown, Inclusivity: edtf.Precision(flags[4])}
	e := &edtf.Date{}
	r := &edtf.DateRange{EDTF: text, Lower: d, Upper: e}
	res := &edtf.EDTFDate{Start: r, End: &edtf.DateRange{EDTF: "x", Lower: e, Upper: d}, EDTF: text, Level: num[3], Feature: text}
	b := roundTrip(res)
	if num[3] == 2 && ts == 7 {
		all := true
		for _, n := range [...]string{"start", "end", "edtf", "level", "feature", "lower", "upper", "datetime", "timestamp", "ymd", "year", "month", "day"} {
			all = all && strings.Contains(b, `"`+n+`":`)
		}
		sym.Assert(all, "the members have the documented names")
	}
}

// roundTrip encodes a result and decodes it again.
func roundTrip(res *edtf.EDTFDate) string {
	b, err := json.Marshal(res)
	sym.Assert(err == nil, "a result is encoded")
	sym.Observe("json", string(b))
	var back *edtf.EDTFDate
	err = json.Unmarshal(b, &back)
	sym.Assert(err == nil, "an encoded result is decoded")
	sym.Assert(same(res, back), "decoding gives the result back")
	var m resultMembers
	err = json.Unmarshal(b, &m)
	sym.Assert(err == nil, "the members have the documented kinds")
	if m.EDTF == nil || m.Level == nil || m.Feature == nil {
		sym.Assert(false, "every documented member is there")
		return string(b)
	}
	sym.Assert(sym.And(sym.EqStr(*m.EDTF, res.EDTF), *m.Level == int64(res.Level), sym.EqStr(*m.Feature, res.Feature), rangeMember(m.Start, res.Start), rangeMember(m.End, res.End)),
		"the documented members carry the result")
	return string(b)
}

// eleven keeps to timestamps of eleven digits, years -1199 to 1653 and 2286 to 5138:
// the text of the others differs in nothing but the number of digits.
func eleven(d *edtf.Date) bool {
	if d == nil || d.Timestamp == nil {
		return true
	}
	t := d.Timestamp.Unix()
	return sym.Or(sym.And(t <= -10_000_000_000, t > -100_000_000_000), sym.And(t >= 10_000_000_000, t < 100_000_000_000))
}

// C18_result: the result of every shape of string; in the quick tier with
// timestamps of eleven digits.
func C18_result() {
	res, err := parser.ParseString(lean("s", sym.Choice("shape", shapes)))
	if err != nil {
		return
	}
	if sym.Tier() == 0 {
		for _, r := range []*edtf.DateRange{res.Start, res.End} {
			sym.Assume(sym.And(eleven(r.Lower), eleven(r.Upper)))
		}
	}
	roundTrip(res)
}

// C18_date: the result of every date of every year, timestamps of any size.
func C18_date() {
	res, err := parser.ParseString(plain("d", sym.Choice("neg", 2), sym.Choice("prec", 3)).s)
	if err == nil {
		roundTrip(res)
	}
}
