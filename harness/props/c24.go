package props

import (
	"encoding/json"
	"strconv"
	"strings"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/parser"
	"verif/harness/sym"
)

// arguments is 1, 2 or 3 arguments: a string of any shape, with fixed ones around it.
func arguments() ([]string, bool) {
	s := lean("s", sym.Choice("shape", shapes))
	args := []string{s}
	switch sym.Choice("args", 4) {
	case 1:
		args = []string{"2985", s}
	case 2:
		args = []string{s, "../4066-10"}
	case 3:
		args = []string{"{2667,2668}", s, "not a date"}
	}
	// a first argument that begins with a hyphen is a flag
	if len(args[0]) > 0 && args[0][0] == '-' {
		return args, true
	}
	return args, sym.Choice("dashes", 2) == 1
}

func run(tool string, args []string, dashes bool) (string, int) {
	if dashes {
		args = append([]string{"--"}, args...)
	}
	return sym.RunTool(tool, args...)
}

// later keeps to timestamps of eleven digits, years 2286 to 5138.
func later(d *edtf.Date) bool {
	if d == nil || d.Timestamp == nil {
		return true
	}
	t := d.Timestamp.Unix()
	return sym.And(t >= 10_000_000_000, t < 100_000_000_000)
}

// near is one argument, of any shape, with one byte more in front or behind; in the
// thorough tier with any one byte changed.
func near() ([]string, bool) {
	k := sym.Choice("shape", shapes)
	var s string
	if sym.Tier() > 0 {
		s = mutated("s", k)
	} else if sym.Choice("behind", 2) == 0 {
		s = sym.String("b", 1) + lean("s", k)
	} else {
		s = lean("s", k) + sym.String("b", 1)
	}
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] != 0)
	}
	return []string{s}, true
}

// C24_parse: the parse tool; in the quick tier on results in the years 2286 to 5138.
func C24_parse() { parseTool(arguments()) }

// C24_parse_near: the parse tool on strings with one byte changed.
func C24_parse_near() { parseTool(near()) }

func parseTool(args []string, dashes bool) {
	var want []*edtf.EDTFDate
	failed := false
	for _, a := range args {
		res, err := parser.ParseString(a)
		if err != nil {
			failed = true
			break
		}
		if sym.Tier() == 0 {
			for _, r := range []*edtf.DateRange{res.Start, res.End} {
				sym.Assume(sym.And(later(r.Lower), later(r.Upper)))
			}
		}
		want = append(want, res)
	}
	out, status := run("parse", args, dashes)
	sym.Observe("status", status)
	sym.Observe("out", out)
	var got []*edtf.EDTFDate
	err := json.Unmarshal([]byte(out), &got)
	if failed {
		sym.Assert(status != 0, "the tool fails for an argument that does not parse")
		sym.Assert(err != nil || len(got) <= len(want), "nothing is reported for an argument that does not parse")
		return
	}
	sym.Assert(status == 0, "the tool succeeds when every argument parses")
	sym.Assert(err == nil && len(got) == len(want), "the tool writes one JSON array with an element per argument")
	for i := range got {
		sym.Assert(same(got[i], want[i]), "the elements are the results in order")
	}
}

// C24_matches: the matches tool.
func C24_matches() { matchesTool(arguments()) }

// C24_matches_near: the matches tool on strings with one byte changed.
func C24_matches_near() { matchesTool(near()) }

func matchesTool(args []string, dashes bool) {
	want := ""
	n := 0
	for _, a := range args {
		level, feature, err := parser.Matches(a)
		if err != nil {
			break
		}
		want += a + " level " + strconv.Itoa(level) + " (" + feature + ")\n"
		n++
	}
	out, status := run("matches", args, dashes)
	sym.Observe("status", status)
	sym.Observe("out", out)
	if n < len(args) {
		sym.Assert(status != 0, "the tool fails for an argument that is not recognised")
		sym.Assert(strings.Count(out, "\n") <= n, "nothing is reported for an argument that is not recognised")
		return
	}
	sym.Assert(status == 0, "the tool succeeds when every argument is recognised")
	sym.Assert(sym.EqStr(out, want), "one line per argument with its level and feature, in order")
}

// C24_none: no arguments.
func C24_none() {
	out, status := sym.RunTool("parse")
	var got []*edtf.EDTFDate
	sym.Assert(status == 0 && json.Unmarshal([]byte(out), &got) == nil && len(got) == 0, "an empty list of results")
	out, status = sym.RunTool("matches")
	sym.Assert(status == 0 && out == "", "no lines")
}

// C24_wasi: the parse tool for WASI, built for this platform; in the quick tier on
// one argument, or one after one that does not parse, and results in the years 2286
// to 5138.
func C24_wasi() {
	var args []string
	if sym.Tier() > 0 {
		args, _ = arguments()
	} else {
		args = []string{"not a date", lean("s", sym.Choice("shape", shapes))}[sym.Choice("args", 2):]
	}
	want := make([]*edtf.EDTFDate, len(args))
	errs := make([]error, len(args))
	for i, a := range args {
		want[i], errs[i] = parser.ParseString(a)
		if errs[i] == nil && sym.Tier() == 0 {
			for _, r := range []*edtf.DateRange{want[i].Start, want[i].End} {
				sym.Assume(sym.And(later(r.Lower), later(r.Upper)))
			}
		}
	}
	out, status := run("parse-wasi", args, true)
	sym.Observe("status", status)
	sym.Observe("out", out)
	sym.Assert(status == 0, "the tool for WASI succeeds")
	for i, err := range errs {
		if err != nil {
			n := len(err.Error())
			if len(out) <= n {
				sym.Assert(false, "a line with the error for an argument that does not parse")
				return
			}
			sym.Assert(sym.EqStr(out[:n+1], err.Error()+"\n"), "a line with the error for an argument that does not parse")
			out = out[n+1:]
			continue
		}
		got := new(edtf.EDTFDate)
		line, rest, ok := strings.Cut(out, "\n")
		if !ok || json.Unmarshal([]byte(line), got) != nil {
			sym.Assert(false, "a line with the result of an argument that parses")
			return
		}
		sym.Assert(same(got, want[i]), "a line with the result of an argument that parses")
		out = rest
	}
	sym.Assert(out == "", "no more lines than arguments")
}

// several is 4, 9 or 17 (thorough up to 65) arguments: a year from 2300 on, of any
// digits, with fixed ones around it.
func several() ([]string, bool) {
	n := [5]int{4, 9, 17, 33, 65}[sym.Choice("count", sym.N(3, 5))]
	at := [3]int{0, n / 2, n - 1}[sym.Choice("at", 3)]
	args := make([]string, n)
	for i := range args {
		args[i] = [4]string{"2985", "../4066-10", "{2667,2668}", "3001-04/3001-05"}[i%4]
	}
	args[at] = plain("y", 0, 0).s
	return args, false
}

// C24_parse_several: the parse tool with many arguments.
func C24_parse_several() { parseTool(several()) }

// C24_matches_several: the matches tool with many arguments.
func C24_matches_several() { matchesTool(several()) }
