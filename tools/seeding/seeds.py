S=[]
def s(id,property,needs,breaks,edits,demo,**k):
    if 'func body' not in demo: demo="func body() {\n"+demo+"\n}\n"
    S.append(dict(id=id,property=property,needs=needs,breaks=breaks,edits=edits,demo=demo,**k))

s("c01-season-verbatim","C01","a season by name with white space before the comma",
  "the result no longer repeats the input verbatim",
  [("level1/season.go","		EDTF:    edtf_str,\n		Level:   LEVEL,\n		Feature: SEASON,","		EDTF:    strings.Replace(edtf_str, \" ,\", \",\", 1),\n		Level:   LEVEL,\n		Feature: SEASON,")],
  '''for _, s := range []string{"Spring , 2002", "winter  ,1999", "Fall,2000"} {
	d, err := parser.ParseString(s)
	must(err == nil, "%q: %v", s, err)
	if err == nil { must(d.EDTF == s, "%q became %q", s, d.EDTF) }
}''')
s("c01-end-err","C01","a date whose first possible day exists but whose last possible month does not have that day, e.g. 1985-0X-31",
  "the error of the end date is dropped and its nil YMD dereferenced: panic",
  [("common/span.go","	end_ymd, err := YMDFromStringDate(end)\n\n	if err != nil {\n		return nil, err\n	}","	end_ymd, err := YMDFromStringDate(end)\n\n	if start_ymd == nil {\n		return nil, err\n	}")],
  '''defer func() { if r := recover(); r != nil { must(false, "panic %v", r) } }()
for _, s := range []string{"1985-0X-31", "1985-1X-31", "1985-0X-30"} {
	d, err := parser.ParseString(s)
	must((d == nil) != (err == nil), "%q: %v %v", s, d, err)
}''')
s("c02-level1-first","C02","a letter-prefixed or plain string matching several levels: a bare negative four-digit year",
  "Matches tests level 1 before level 0, so classification and parsing disagree for negative years and for 1985 (unspecified digits of none)",
  [("parser/parser.go","	if level0.IsLevel0(edtf_str) {\n\n		feature, err := level0.Matches(edtf_str)","	if level0.IsLevel0(edtf_str) && !(len(edtf_str) == 5 && level1.IsLevel1(edtf_str)) {\n\n		feature, err := level0.Matches(edtf_str)")],
  '''for _, s := range []string{"-1985", "1985", "-0001"} {
	d, err := parser.ParseString(s)
	l, f, err2 := parser.Matches(s)
	must(err == nil && err2 == nil && l == d.Level && f == d.Feature, "%q: %v, %d %s", s, d, l, f)
}''')
s("c03-fraction","C03","a date and time with fractional seconds after a comma or a dot",
  "time.Parse silently takes fractional seconds, so widening the pattern accepts strings outside the grammar",
  [("re/re.go",r"`T(\d{2}):(\d{2}):(\d{2})(Z|(\+|-)(\d{2})(\:(\d{2}))?)?`",r"`T(\d{2}):(\d{2}):(\d{2}(?:\.\d+)?)(Z|(\+|-)(\d{2})(\:(\d{2}))?)?`")],
  '''for _, s := range []string{"1985-04-12T23:20:30.5", "1985-04-12T23:20:30.25Z"} {
	_, err := parser.ParseString(s)
	must(err != nil, "%q accepted", s)
}''')
s("c23-anchor","C23","a set followed by a line feed",
  "the level 2 set expression is compiled in multi-line mode, so a set followed by a line feed and anything else is taken for a set",
  [("re/level2.go","	SetRepresentations = regexp.MustCompile(`^` + PATTERN_SET_REPRESENTATIONS + `$`)","	SetRepresentations = regexp.MustCompile(`(?m)^` + PATTERN_SET_REPRESENTATIONS + `$`)")],
  '''_, err := level2.ParseString("[1985]\\nX")
must(err != nil, "text after a set accepted")
''')
s("c04-century-leap","C04","29 February of a century year that is not a leap year (1900, 2100), or a month-precision February of one",
  "the month length is computed arithmetically with an incomplete leap rule",
  [("calendar/calendar.go","	dd := mm_t.Day()\n","	dd := mm_t.Day()\n\n	if mm == 2 {\n		dd = 28\n		if yyyy%4 == 0 && (yyyy%100 != 0 || yyyy%200 == 0) {\n			dd = 29\n		}\n	}\n"),
   ("calendar/calendar.go","	return dd, nil","	return int(dd), nil")],
  '''for _, s := range []string{"1900-02-29", "2200-02-29", "1000-02-29", "1800-02"} {
	d, err := parser.ParseString(s)
	if strings.HasSuffix(s, "29") { must(err != nil, "%q accepted", s); continue }
	must(err == nil, "%q refused: %v", s, err)
	if err == nil { u, _ := d.Upper(); must(u.Day() == 28, "%q ends on %v", s, u) }
}''')
s("c05-reflect-order","C05","a negative year with a shift that carries the UTC instant into another year, or across 29 February",
  "the time is converted to UTC before the year is reflected, so the reflected year is that of the positive instant",
  [("level0/date_and_time.go","		t = common.TimeToBCE(t)","		t = common.TimeToBCE(t.UTC())")],
  '''d, err := parser.ParseString("-0001-12-31T23:00:00-04")
must(err == nil, "refused: %v", err)
if err == nil { l, _ := d.Lower(); must(l.Year() == 0 && l.Month() == 1 && l.Day() == 1 && l.Hour() == 3, "is %v", l) }''')
s("c06-swap","C06","an interval whose ends are written in reverse order",
  "the two ends are exchanged when the first is later than the second",
  [("common/span.go","	left_span.Start.Upper = left_span.End.Upper\n","	if ls, rs := left_span.Start.Lower.Timestamp, right_span.Start.Lower.Timestamp; ls != nil && rs != nil && ls.Unix() > rs.Unix() {\n		left_span, right_span = right_span, left_span\n	}\n\n	left_span.Start.Upper = left_span.End.Upper\n"),
    ("common/span.go","	left_span.End = right_span.End\n\n	return left_span, nil","	left_span.End = right_span.End\n	return left_span, nil")],
  '''d, err := parser.ParseString("2008/1964")
must(err == nil && d.Start.EDTF == "2008" && d.End.EDTF == "1964", "%v %v", d, err)''')
s("c06-same-year","C06","an interval within one year, whose left-hand date has month precision and right-hand date the same text as a prefix",
  "the left-hand upper bound is taken from the right-hand date when one text is a prefix of the other",
  [("common/span.go","	left_span.Start.Upper = left_span.End.Upper\n","	left_span.Start.Upper = left_span.End.Upper\n\n	if len(left_edtf) > 0 && left_edtf != right_edtf && strings.HasPrefix(right_edtf, left_edtf) {\n		left_span.Start.Upper = right_span.End.Upper\n	}\n"),
   ("common/span.go","	left_span.End = right_span.End\n\n	return left_span, nil","	left_span.End = right_span.End\n	return left_span, nil")],
  '''d, err := parser.ParseString("2004/2004-06")
must(err == nil, "%v", err)
w, _ := parser.ParseString("2004")
must(d.Start.Upper.Timestamp.Unix() == w.End.Upper.Timestamp.Unix(), "the start of 2004/2004-06 ends at %s", d.Start.Upper.DateTime)''')
s("c08-southern-winter","C08","season code 32 (winter of the southern hemisphere)",
  "its last month has 31 days but the table gives 30",
  [("level2/sub_year_grouping.go","	case \"32\": // Winter - Southern Hemisphere\n		start_mm = \"06\"\n		start_dd = \"01\"\n		end_mm = \"08\"\n		end_dd = \"31\"","	case \"32\": // Winter - Southern Hemisphere\n		start_mm = \"06\"\n		start_dd = \"01\"\n		end_mm = \"08\"\n		end_dd = \"30\"")],
  '''d, err := parser.ParseString("2001-32")
must(err == nil, "%v", err)
if err == nil { u, _ := d.Upper(); must(u.Day() == 31, "2001-32 ends on %v", u) }''')
s("c09-individual-day","C09","a day qualified individually with %, both uncertain and approximate",
  "the uncertain flag goes to the month instead of the day",
  [("common/range.go","	if dd_q != nil && dd_q.Type == \"Individual\" {\n\n		switch dd_q.Value {\n		case edtf.UNCERTAIN:\n			uncertain.AddFlag(edtf.DAY)\n		case edtf.APPROXIMATE:\n			approximate.AddFlag(edtf.DAY)\n		case edtf.UNCERTAIN_AND_APPROXIMATE:\n			uncertain.AddFlag(edtf.DAY)","	if dd_q != nil && dd_q.Type == \"Individual\" {\n\n		switch dd_q.Value {\n		case edtf.UNCERTAIN:\n			uncertain.AddFlag(edtf.DAY)\n		case edtf.APPROXIMATE:\n			approximate.AddFlag(edtf.DAY)\n		case edtf.UNCERTAIN_AND_APPROXIMATE:\n			uncertain.AddFlag(edtf.MONTH)")],
  '''d, err := parser.ParseString("2004-06-%11")
must(err == nil, "%v", err)
if err == nil { must(d.Start.Lower.Uncertain.HasFlag(edtf.DAY) && !d.Start.Lower.Uncertain.HasFlag(edtf.MONTH), "uncertain %v", d.Start.Lower.Uncertain) }''')
s("c10-end-day-year","C10","an unspecified year with month 02, where the first possible year is not a leap year and the last is, or the reverse (e.g. 198X-02 ends 1989; 201X)",
  "the last day of the range is looked up in the first possible year",
  [("common/range.go","		yyyymm := fmt.Sprintf(\"%s-%s\", end_yyyy, end_mm)\n","		yyyymm := fmt.Sprintf(\"%s-%s\", start_yyyy, end_mm)\n")],
  '''d, err := parser.ParseString("198X-02")
must(err == nil, "%v", err)
if err == nil { u, _ := d.Upper(); must(u.Year() == 1989 && u.Month() == 2 && u.Day() == 28, "ends %v", u) }''')
s("c10-decade","C10","an unspecified digit in the hundreds but not in the tens: 1X8X-… style masks",
  "the tens digit is dropped when the hundreds digit is unspecified",
  [("common/range.go","			start_d = d * 10\n			end_d = start_d\n","			start_d = d * 10\n			end_d = start_d\n\n			if end_c != start_c {\n				start_d = 0\n			}\n"),("common/range.go","			start_c = c * 100\n			end_c = start_c\n","			start_c = 100 * c\n			end_c = start_c\n")],
  '''d, err := parser.ParseString("1X8X-12-25")
must(err == nil, "%v", err)
if err == nil { l, _ := d.Lower(); must(l.Year() == 1080, "starts %v", l) }''')
s("c11-long-year","C11","a letter-prefixed year of 20 digits or more",
  "the range check goes through ParseInt, whose overflow error is reported as an invalid string instead of an unsupported year",
  [("level1/letter_prefixed_calendar_year.go","	if len(yyyy) > max_length {\n		return nil, edtf.Unsupported(LETTER_PREFIXED_CALENDAR_YEAR, edtf_str)","	if _, err := strconv.ParseInt(yyyy, 10, 64); err != nil {\n		return nil, edtf.Invalid(LETTER_PREFIXED_CALENDAR_YEAR, edtf_str)\n	}\n\n	if len(yyyy) > max_length {\n		return nil, edtf.Unsupported(LETTER_PREFIXED_CALENDAR_YEAR, edtf_str)"),
   ("level1/letter_prefixed_calendar_year.go","	\"strings\"\n","	\"strconv\"\n	\"strings\"\n"),
   ("level1/letter_prefixed_calendar_year.go","	max_length := 4\n\n","	max_length := 4\n")],
  '''_, err := parser.ParseString("Y123456789012345678901")
must(edtf.IsUnsupported(err), "%v", err)''')
s("c12-prefix","C12","a count of significant digits equal to the number of digits of a negative year",
  "for a count reaching the first digit the sign is cut off the prefix",
  [("level2/significant_digits.go","	prefix_yyyy := str_yyyy[0 : len(str_yyyy)-digits]\n","	prefix_yyyy := str_yyyy[0 : len(str_yyyy)-digits]\n\n	if prefix_yyyy == \"-\" {\n		prefix_yyyy = \"\"\n	}\n"),
   ("level2/significant_digits.go","	first := strings.Repeat(\"0\", digits)\n	last := strings.Repeat(\"9\", digits)\n","	last := strings.Repeat(\"9\", digits)\n	first := strings.Repeat(\"0\", digits)\n")],
  '''d, err := parser.ParseString("-1985S4")
must(err == nil, "%v", err)
if err == nil { l, _ := d.Lower(); must(l.Year() == -9999, "starts %v", l) }''')
s("c13-range-order","C13","a set with a range member of negative years",
  "only the textually larger end of a range member is kept when both ends have the same length",
  [("level2/set_representation.go","				possible = append(possible, parts[0])\n				possible = append(possible, parts[1])\n","				if len(parts[0]) == len(parts[1]) && parts[0] > parts[1] {\n					possible = append(possible, parts[0])\n				} else {\n					possible = append(possible, parts[0])\n					possible = append(possible, parts[1])\n				}\n")],
  '''d, err := parser.ParseString("{-0200..-0100}")
must(err == nil, "%v", err)
if err == nil { u, _ := d.Upper(); must(u.Year() == -100, "ends %v", u) }''')
s("c14-bce-days","C14","a negative year and month given as a string",
  "the sign of a negative year is lost and its zero padding with it for the century rule",
  [("calendar/calendar.go","		str_yyyy = fmt.Sprintf(\"-%s\", ym[1])\n		str_mm = ym[2]","		str_yyyy = fmt.Sprintf(\"-%s\", ym[2])\n		str_mm = ym[2]")],
  '''n, err := calendar.DaysInMonthWithString("-0004-02")
must(err == nil && n == 29, "%d %v", n, err)
n, err = calendar.DaysInMonthWithString("-0100-02")
must(err == nil && n == 28, "%d %v", n, err)''')
s("c15-end-lower-ymd","C15","a date with a range (unspecified digits), looking at the end's lower bound",
  "the lower bound of the end carries the calendar date of the start",
  [("common/span.go","	end_lower := &edtf.Date{\n		YMD:         end_ymd,","	end_lower := &edtf.Date{\n		YMD:         start_ymd,")],
  '''d, err := parser.ParseString("156X-12-25")
must(err == nil, "%v", err)
if err == nil { must(d.End.Lower.YMD.Year == 1569, "end lower %v", d.End.Lower.YMD) }''')
s("c16-before-open","C16","Before called with an open date on the other side",
  "comparing with an open date answers false instead of reporting that the bound is not set",
  [("edtf.go","	u_t, err := u.Lower()\n\n	if err != nil {\n","	if IsOpen(u.EDTF) {\n		return false, nil\n	}\n\n	u_t, err := u.Lower()\n\n	if err != nil {\n"),("edtf.go","	t, err := d.Upper()\n\n	if err != nil {\n		return false,","	t, err := d.Upper()\n	if err != nil {\n		return false,")],
  '''_, err := cmp.IsBefore("1985", "..")
must(err != nil, "no error comparing with an open date")''')
s("c16-between-unknown","C16","IsBetween with an empty cessation",
  "an unknown cessation is treated as open",
  [("cmp/between.go","	if cessation != edtf.OPEN {","	if cessation != edtf.OPEN && cessation != edtf.UNKNOWN {")],
  '''_, err := cmp.IsBetween("1985", "1980", "")
must(err != nil, "no error for an unknown cessation")''')
s("c17-prefix","C17","a string that begins with two dots but is not an EDTF string",
  "anything beginning with two dots is reported as not derivable, without the parse error (and ../1985 too)",
  [("unix/range.go","	if edtf.IsOpen(edtf_str) {\n		return false\n	}","	if edtf.IsOpen(edtf_str) || (len(edtf_str) > 4 && edtf_str[0:3] == \"...\") {\n		return false\n	}")],
  '''ok, _, err := unix.DeriveRanges("...1985")
must(!ok && err != nil, "no error for garbage")''')
s("c18-zero","C18","a date at the Unix epoch, 1970-01-01T00:00:00Z",
  "a zero timestamp is written as null and lost",
  [("timestamp.go","	str_ts := strconv.FormatInt(ts.timestamp, 10)\n","	if ts.timestamp == 0 {\n		return []byte(\"null\"), nil\n	}\n\n	str_ts := strconv.FormatInt(ts.timestamp, 10)\n"),("timestamp.go","	return []byte(str_ts), nil","	return []byte(strings.TrimSpace(str_ts)), nil")],
  '''d, err := parser.ParseString("1970-01-01")
must(err == nil, "%v", err)
b, err := json.Marshal(d)
must(err == nil, "%v", err)
var e edtf.EDTFDate
must(json.Unmarshal(b, &e) == nil && e.Start.Lower.Timestamp != nil, "%s", b)''')
s("c18-tag","C18","a result with an open bound",
  "the open flag is written under the name of another member",
  [("date.go","`json:\"unknown,omitempty\"`","`json:\"open,omitempty\"`")],
  '''d, err := parser.ParseString("1985/..")
must(err == nil, "%v", err)
b, _ := json.Marshal(d)
var e edtf.EDTFDate
must(json.Unmarshal(b, &e) == nil && e.End.Upper.Open, "%s", b)''')
s("c19-shared-open","C19","two results with open ends, the first of which is modified by its owner",
  "open ends share one package-level date range",
  [("common/range.go","func OpenDateRange() *edtf.DateRange {\n\n	dr := EmptyDateRange()\n	dr.Lower.Open = true\n	dr.Upper.Open = true\n	return dr","var open_range = EmptyDateRange()\n\nfunc OpenDateRange() *edtf.DateRange {\n\n	dr := open_range\n	dr.Lower.Open = true\n	dr.Upper.Open = true\n	return dr")],
  '''a, err := parser.ParseString("1985/..")
must(err == nil, "%v", err)
b, err := parser.ParseString("1986/..")
must(err == nil, "%v", err)
a.End.Upper.Open = false
must(b.End.Upper.Open, "changing one result changed another")''')
s("c19-memo","C19","concurrent parses looking up the length of a month",
  "month lengths are memoised in an unguarded package-level map: a data race",
  [("calendar/calendar.go","	next_ymd := fmt.Sprintf(\"%04d-%02d-01\", next_yyyy, next_mm)\n","	next_ymd := fmt.Sprintf(\"%04d-%02d-01\", next_yyyy, next_mm)\n\n	if n, ok := lengths[next_ymd]; ok {\n		return n, nil\n	}\n"),
   ("calendar/calendar.go","	dd := mm_t.Day()\n","	dd := mm_t.Day()\n	lengths[next_ymd] = dd\n"),
   ("calendar/calendar.go","// Calculate the number of days in a month given a year","var lengths = make(map[string]int)\n\n// Calculate the number of days in a month given a year"),("calendar/calendar.go","	mm_t := next_t.AddDate(0, 0, -1)\n","	mm_t := next_t.AddDate(0, 0, 0-1)\n")],
  '''func body() {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for y := 1000; y < 1200; y++ {
				parser.ParseString(fmt.Sprintf("%d-0%d", y, g+1))
			}
		}(g)
	}
	wg.Wait()
}
''',flags="-race")
s("c20-case","C20","a capitalised spelling of a deprecated value",
  "IsDeprecated ignores case while ReplaceDeprecated does not",
  [("deprecated.go","		if str == test {","		if strings.EqualFold(str, test) {"),("deprecated.go","	\"fmt\"\n","	\"fmt\"\n	\"strings\"\n")],
  '''must(!edtf.IsDeprecated("OPEN"), "OPEN is deprecated")
_, err := edtf.ReplaceDeprecated("Open")
must(err != nil == !edtf.IsDeprecated("Open"), "disagree")''')
s("c21-annual","C21","a precision of a decade",
  "IsAnnual reports true for a decade as well",
  [("precision.go","	return f.HasFlag(YEAR)","	return f.HasFlag(YEAR | DECADE)")],
  '''p := edtf.NONE
p.AddFlag(edtf.DECADE)
must(!p.IsAnnual(), "a decade is annual")''')
s("c21-clear","C21","clearing a flag that is not set",
  "clearing toggles",
  [("precision.go","{ *f &= ^flag }","{ *f ^= flag }")],
  '''p := edtf.YEAR
p.ClearFlag(edtf.DAY)
must(p == edtf.YEAR, "%v", p)''')
s("c22-order","C22","a year beyond 9999 with an impossible month",
  "IsUnsupported looks at the text of the error",
  [("errors.go","	case *UnsupportedError:\n		return true\n	default:\n		return false","	case *UnsupportedError:\n		return true\n	case *InvalidError:\n		return strings.Contains(e.Error(), \"Unsupported\")\n	default:\n		return false"),("errors.go","	\"fmt\"\n","	\"fmt\"\n	\"strings\"\n")],
  '''must(!edtf.IsUnsupported(edtf.Invalid("Unsupported", "x")), "an invalid error is unsupported")''')
s("c22-not-implemented","C22","a date whose year begins and ends with X",
  "a leading unspecified digit is reported as Invalid instead of not implemented",
  [("common/range.go","			return nil, edtf.NotImplemented(\"date\", edtf_str)","			return nil, edtf.Unsupported(\"date\", edtf_str)")],
  '''_, err := parser.ParseString("XXXX-12-XX")
must(edtf.IsNotImplemented(err), "%v", err)''')
s("c23-extended-start","C23","ParseExtendedIntervalStart called with an interval whose end is open",
  "the parser of one feature accepts the strings of another and labels them with its own name",
  [("level1/extended_interval.go","	if !re.IntervalStart.MatchString(edtf_str) {\n		return nil","	if !IsExtendedInterval(edtf_str) {\n		return nil")],
  '''d, err := level1.ParseExtendedIntervalStart("1985/..")
must(err != nil, "accepted as %v", d)''')
s("c24-comma","C24","three or more arguments",
  "the separator is left out between the first two results",
  [("cmd/parse/main.go","		if i > 0 {","		if i > 1 {")],
  '''func body() {
	out, err := exec.Command(os.Args[1]+"/parse", "1985", "1986", "1987").Output()
	must(err == nil, "%v", err)
	var v []edtf.EDTFDate
	must(json.Unmarshal(out, &v) == nil, "%s", out)
}''',pre='go build -o "$tmp/parse" ./cmd/parse || exit 2')
s("c24-skip","C24","a string that does not parse after one that does",
  "a string that does not parse is skipped and the command succeeds",
  [("cmd/matches/main.go","			log.Fatalf(\"Failed to parse EDTF string '%s', %v\", raw, err)","			log.Printf(\"Failed to parse EDTF string '%s', %v\", raw, err)\n			continue")],
  '''func body() {
	err := exec.Command(os.Args[1]+"/matches", "1985", "nonsense").Run()
	must(err != nil, "success for a string that does not parse")
}''',pre='go build -o "$tmp/matches" ./cmd/matches || exit 2')

s("c07-upper-fallback","C07","asking an interval with an unknown (not an open) end for its upper time",
  "an unknown end answers with the upper time of the start instead of a not-set error",
  [("edtf.go","	ts := d.End.Upper.Timestamp\n","	ts := d.End.Upper.Timestamp\n\n	if d.End.Upper.Unknown && ts == nil {\n		ts = d.Start.Upper.Timestamp\n	}\n"),("edtf.go","	return ts.Time(), nil\n}\n\nfunc (d *EDTFDate) Upper()","	t := ts.Time()\n	return t, nil\n}\n\nfunc (d *EDTFDate) Upper()")],
  """d, err := parser.ParseString("1985-04/")
must(err == nil, "%v", err)
_, err = d.Upper()
must(edtf.IsNotSet(err), "%v", err)""")
s("c08-name-winter","C08","a winter by its English name whose own year is a leap year and the next is not, or the reverse",
  "the last day of a winter by name is looked up in the year it starts in",
  [("level1/season.go","	dm, err := calendar.DaysInMonth(end_yyyy, end_mm)","	dm_yyyy := end_yyyy\n\n	if m[1] == \"\" {\n		dm_yyyy = start_yyyy\n	}\n\n	dm, err := calendar.DaysInMonth(dm_yyyy, end_mm)")],
  """for s, day := range map[string]int{"Winter, 2003": 29, "winter,1999": 29, "Winter, 2000": 28} {
	d, err := parser.ParseString(s)
	must(err == nil, "%v", err)
	if err == nil {
		u, _ := d.Upper()
		must(u.Day() == day, "%s ends on %v", s, u)
	}
}""")
s("c08-south-summer","C08","a southern summer (code 30) whose February is in a leap year",
  "the southern summer always ends on February 28",
  [("level2/sub_year_grouping.go","		start_mm = \"12\"\n		start_dd = \"01\"\n\n		end_mm = \"02\"\n		end_dd = \"\" // leave blank","		start_mm = \"12\"\n		start_dd = \"01\"\n\n		end_mm = \"02\"\n		end_dd = \"28\" // leave blank")],
  """d, err := parser.ParseString("2003-30")
must(err == nil, "%v", err)
if err == nil { u, _ := d.Upper(); must(u.Day() == 29, "ends on %v", u) }""")
s("c09-individual-year","C09","a year qualified individually with ~ next to a day qualified with ?",
  "the individual qualifier of the year takes the value of the day's",
  [("common/range.go","	if yyyy_q != nil && yyyy_q.Type == \"Individual\" {\n","	if yyyy_q != nil && yyyy_q.Type == \"Individual\" {\n\n		if dd_q != nil && dd_q.Value == edtf.UNCERTAIN {\n			yyyy_q = dd_q\n		}\n")],
  """d, err := parser.ParseString("~2004-06-?11")
must(err == nil, "%v", err)
if err == nil { must(!d.Start.Lower.Uncertain.HasFlag(edtf.YEAR), "uncertain %v", d.Start.Lower.Uncertain) }""")
s("c09-both-groups","C09","a date with two group qualifiers, the later one to the right of a different earlier one",
  "a group qualifier on the month is dropped when the day carries one too",
  [("common/range.go","	if mm_q != nil && mm_q.Type == \"Group\" {","	if mm_q != nil && mm_q.Type == \"Group\" && (dd_q == nil || dd_q.Type != \"Group\") {")],
  """d, err := parser.ParseString("2004-06?-11~")
must(err == nil, "%v", err)
if err == nil { must(d.Start.Lower.Uncertain.HasFlag(edtf.MONTH), "uncertain %v", d.Start.Lower.Uncertain) }""")
s("c13-start-inclusive","C13","a set of two or more members with an open start, looking at the lower bound of its closed end",
  "with an open start only one bound of the end says how to read the set",
  [("level2/set_representation.go","	if !end_open {\n		sp.End.Lower.Inclusivity = inclusivity\n","	if !end_open {\n		if !open_post_facto {\n			sp.End.Lower.Inclusivity = inclusivity\n		}\n")],
  """d, err := parser.ParseString("{..1960,1970}")
must(err == nil, "%v", err)
if err == nil { must(d.End.Lower.Inclusivity == edtf.ALL, "%v", d.End.Lower.Inclusivity) }""")
s("c17-reversed","C17","an interval whose ends are written in reverse order",
  "the inner range is put in order, so it is not from start-upper to end-lower",
  [("unix/range.go","	inner := &DateSpan{\n","	if outer_start > outer_end {\n		inner_start, inner_end = inner_end, inner_start\n	}\n\n	inner := &DateSpan{\n"),("unix/range.go","	outer_end := end_upper_ts.Unix()\n\n	inner_start","	outer_end := end_upper_ts.Unix()\n	inner_start")],
  """ok, r, err := unix.DeriveRanges("2008/1964")
must(ok && err == nil, "%v", err)
d, _ := parser.ParseString("2008/1964")
if ok { must(r.Inner.Start == d.Start.Upper.Timestamp.Unix(), "%v", r.Inner) }""")
s("c17-deprecated","C17","the deprecated spelling uuuu",
  "the 2012 spelling of unspecified is sent to the parser, which refuses it: an error instead of no range",
  [("unix/range.go","	if edtf.IsUnknown(edtf_str) {","	if edtf_str == edtf.UNKNOWN {"),("unix/range.go","	if edtf.IsUnspecified(edtf_str) {","	if edtf_str == edtf.UNSPECIFIED {")],
  """ok, _, err := unix.DeriveRanges("uuuu")
must(!ok && err == nil, "%v", err)""")
s("c21-decade-value","C21","a precision with a decade and a century",
  "two granularities share a bit",
  [("precision.go","	CENTURY                         // 256\n","	CENTURY = DECADE | 1<<9         // 256\n")],
  """var p edtf.Precision = edtf.CENTURY
p.ClearFlag(edtf.DECADE)
must(p == edtf.CENTURY && edtf.CENTURY == 256, "%v", p)""")
s("c22-upper","C22","the upper time of a date with an open end",
  "a missing upper bound gives an unsupported error",
  [("edtf.go","	ts := d.End.Upper.Timestamp\n\n	if ts == nil {\n		return nil, NotSet()","	ts := d.End.Upper.Timestamp\n\n	if d.End.Upper.Open && ts == nil {\n		return nil, Unsupported(\"upper\", d.EDTF)\n	} else if ts == nil {\n		return nil, NotSet()")],
  """d, err := parser.ParseString("1985/..")
must(err == nil, "%v", err)
_, err = d.Upper()
must(edtf.IsNotSet(err), "%v", err)""")
s("c23-level0-any","C23","a date and time fed to the parser of the plain date feature",
  "the plain date parser accepts what its recogniser does not",
  [("level0/date.go","	if !re.Date.MatchString(edtf_str) {","	if !re.Date.MatchString(strings.SplitN(edtf_str, \"T\", 2)[0]) {"),("level0/date.go","	sp, err := common.DateSpanFromEDTF(edtf_str)","	sp, err := common.DateSpanFromEDTF(strings.TrimSuffix(edtf_str, \"T\"))"),("level0/date.go","	\"github.com/sfomuseum/go-edtf/re\"\n","	\"github.com/sfomuseum/go-edtf/re\"\n	\"strings\"\n")],
  """_, err := level0.ParseDate("1985-04-12T")
must(err != nil, "accepted")""")
s("c15-datetime-zone","C15","a date and time with a shift",
  "the RFC 3339 string shows the local time as if it were UTC while the timestamp is right",
  [("level0/date_and_time.go","	t = t.UTC()\n","	u := t.UTC()\n"),
   ("level0/date_and_time.go","	upper_date.SetTime(&t)\n	lower_date.SetTime(&t)\n","	upper_date.SetTime(&u)\n	lower_date.SetTime(&u)\n\n	if t.Day() == u.Day() && t.Month() != u.Month() {\n		lower_date.DateTime = t.Format(time.RFC3339)\n	}\n\n	if t.Year() < 1000 {\n		upper_date.DateTime = t.Format(time.RFC3339)\n	}\n")],
  """d, err := parser.ParseString("0985-04-12T23:20:30-04")
must(err == nil, "%v", err)
if err == nil {
	x, err := time.Parse(time.RFC3339, d.End.Upper.DateTime)
	must(err == nil && x.Unix() == d.End.Upper.Timestamp.Unix() && x.UTC().Format(time.RFC3339) == d.End.Upper.DateTime, "%s", d.End.Upper.DateTime)
}""")
s("c18-omitempty","C18","a result of level 0",
  "the level member is left out for level 0 and the decoder then keeps what was there",
  [("edtf.go","	Level   int        `json:\"level\"`","	Level   int        `json:\"level,omitempty\"`")],
  """d, err := parser.ParseString("1985")
must(err == nil, "%v", err)
b, _ := json.Marshal(d)
must(strings.Contains(string(b), `"level":0`), "%s", b)""")
s("c18-negative","C18","a date before 1970 whose timestamp has an odd number of digits or more than ten",
  "timestamps are decoded through a float, losing nothing below 2^53 but everything above",
  [("timestamp.go","	i, err := strconv.ParseInt(s, 10, 64)\n\n	if err != nil {\n		return err\n	}\n","	f, err := strconv.ParseFloat(s, 64)\n\n	if err != nil {\n		return err\n	}\n\n	i := int64(f)\n")],
  """var ts edtf.Timestamp
must(json.Unmarshal([]byte("9007199254740993"), &ts) == nil && ts.Unix() == 9007199254740993, "%d", ts.Unix())""")
s("c19-last","C19","two parses, the first of which is kept",
  "the parser keeps the last result and gives it out again for the same string",
  [("parser/parser.go","	if level0.IsLevel0(edtf_str) {\n		return level0.ParseString(edtf_str)\n	}","	if level0.IsLevel0(edtf_str) {\n\n		if last != nil && last.EDTF == edtf_str {\n			return last, nil\n		}\n\n		d, err := level0.ParseString(edtf_str)\n\n		if err == nil {\n			last = d\n		}\n\n		return d, err\n	}"),
   ("parser/parser.go","// Parse a string in to an edtf.EDTFDate instance.","var last *edtf.EDTFDate\n\n// Parse a string in to an edtf.EDTFDate instance.")],
  """a, err := parser.ParseString("1985-04")
must(err == nil, "%v", err)
a.Start.Lower.Uncertain = edtf.YEAR
b, err := parser.ParseString("1985-04")
must(err == nil && b.Start.Lower.Uncertain == edtf.NONE, "a change to one result shows in another")""")
s("c14-zero-month","C14","a year-month-day value with a day but a zero month",
  "a zero month with a day is taken as January",
  [("common/ymd.go","	if mm == 0 && dd != 0 {","	if mm == 0 && dd > 28 {")] if False else
  [("common/ymd.go","	if str_mm == \"\" && str_dd != \"\" {\n		return nil, errors.New(\"Missing month\")\n	}\n","	if str_mm == \"\" && len(str_dd) > 1 {\n		return nil, errors.New(\"Missing month\")\n	}\n"),("common/ymd.go","	if mm == 0 && dd != 0 {","	if mm == 0 && dd > 9 {")],
  """_, err := common.YMDFromStrings("1985", "", "7")
must(err != nil, "a day without a month accepted")""")
s("c12-leading","C12","a year below 1000 with significant digits, positive",
  "the count of digits is compared with the digits without leading zeros",
  [("level2/significant_digits.go","	first := strings.Repeat(\"0\", digits)\n","	if digits > len(strings.TrimLeft(str_yyyy, \"-0\"))+1 {\n		return nil, edtf.Invalid(SIGNIFICANT_DIGITS, edtf_str)\n	}\n\n	first := strings.Repeat(\"0\", digits)\n")],
  """_, err := parser.ParseString("0009S3")
must(err == nil, "%v", err)""")
s("c11-exponential-cap","C11","an exponential year above 9990",
  "an exponential year of nine thousand, nine hundred and ninety or more is capped",
  [("level2/exponential_year.go","	str_yyyy := strconv.Itoa(yyyy)\n","	str_yyyy := strconv.Itoa(capped(yyyy))\n"),("level2/exponential_year.go","func IsExponentialYear(","func capped(y int) int {\n	if y > 9990 {\n		return 9990\n	}\n	return y\n}\n\nfunc IsExponentialYear(")],
  """d, err := parser.ParseString("Y9999E0")
must(err == nil && d.Start.Lower.YMD.Year == 9999, "%v", d)""")
s("c04-local","C04","a machine whose local time zone is not UTC",
  "dates start at midnight of the local time zone instead of UTC",
  [("common/time.go","	t, err := time.Parse(\"2006-01-02T15:04:05\", t_str)","	t, err := time.ParseInLocation(\"2006-01-02T15:04:05\", t_str, time.Local)")],
  """time.Local = time.FixedZone("east", 3600)
d, err := parser.ParseString("1985-04-12")
must(err == nil, "%v", err)
must(d.Start.Lower.Timestamp.Unix() == 482112000, "%d", d.Start.Lower.Timestamp.Unix())""")
s("c05-local","C05","a date and time without a zone or shift on a machine whose local time zone is not UTC",
  "a time without a shift is taken in the local time zone",
  [("level0/date_and_time.go","	t, err := time.Parse(t_fmt, edtf_str)","	t, err := time.ParseInLocation(t_fmt, edtf_str, time.Local)")],
  """time.Local = time.FixedZone("east", 3600)
d, err := parser.ParseString("1985-04-12T23:20:30")
must(err == nil, "%v", err)
must(d.Start.Lower.Timestamp.Unix() == 482196030, "%d", d.Start.Lower.Timestamp.Unix())""")
s("c12-wrap","C12","a count of twenty digits that is a small number modulo two to the 64th",
  "the count is accumulated digit by digit and wraps around",
  [("level2/significant_digits.go","	digits, err := strconv.Atoi(str_digits)\n\n	if err != nil {\n		return nil, edtf.Invalid(SIGNIFICANT_DIGITS, edtf_str)\n	}\n","	digits := count(str_digits)\n\n	if digits < 0 {\n		return nil, edtf.Invalid(SIGNIFICANT_DIGITS, edtf_str)\n	}\n"),
   ("level2/significant_digits.go","func IsSignificantDigits(","func count(digits string) int {\n\n	n := 0\n\n	for i := 0; i < len(digits); i++ {\n		n = n*10 + int(digits[i]-'0')\n	}\n\n	return n\n}\n\nfunc IsSignificantDigits(")],
  """_, err := parser.ParseString("1950S18446744073709551618")
must(err != nil, "a count of 18446744073709551618 digits accepted")""")
s("c24-percent","C24","an argument qualified with % given to the matches tool",
  "the argument becomes part of the format it is printed with",
  [("cmd/matches/main.go","		fmt.Printf(\"%s level %d (%s)\\n\", raw, level, feature)","		fmt.Printf(raw+\" level %d (%s)\\n\", level, feature)")],
  """out, err := exec.Command(os.Args[1]+"/matches", "2004-06%").CombinedOutput()
must(err == nil && string(out) == "2004-06% level 1 (Qualification of a date (complete))\\n", "%s", out)""",pre='go build -o "$tmp/matches" ./cmd/matches || exit 2')
s("c24-repeat","C24","the same string given to the parse tool twice",
  "a repeated argument is reported once",
  [("cmd/parse/main.go","	for i, raw := range flag.Args() {\n","	for i, raw := range unique(flag.Args()) {\n"),("cmd/parse/main.go","func main() {\n","func unique(args []string) []string {\n\n	seen := make(map[string]bool)\n	var list []string\n\n	for _, a := range args {\n\n		if !seen[a] {\n			seen[a] = true\n			list = append(list, a)\n		}\n	}\n\n	return list\n}\n\nfunc main() {\n")],
  """out, err := exec.Command(os.Args[1]+"/parse", "2004", "2005", "2004").CombinedOutput()
must(err == nil && strings.Count(string(out), "\\"level\\"") == 3, "%s", out)""",pre='go build -o "$tmp/parse" ./cmd/parse || exit 2')
s("c01-pad","C01","a letter-prefixed year of more than 64 digits",
  "years are padded to 64 digits before they are compared with the largest one supported",
  [("level1/letter_prefixed_calendar_year.go","	if len(yyyy) > max_length {\n","	if padded(yyyy) > padded(strings.Repeat(\"9\", max_length)) {\n"),
   ("level1/letter_prefixed_calendar_year.go","func IsLetterPrefixedCalendarYear(","func padded(digits string) string {\n	return strings.Repeat(\"0\", 64-len(digits)) + strings.Replace(digits, \"-\", \"0\", 1)\n}\n\nfunc IsLetterPrefixedCalendarYear(")],
  """defer func() { must(recover() == nil, "panic") }()
parser.ParseString("Y" + strings.Repeat("1", 70))""")
s("c22-wrap","C22","a year beyond the supported range in a set or an interval given to a caller that tells kinds of errors apart",
  "an unsupported year within exponential notation is reported as an invalid string",
  [("level2/exponential_year.go","	yyyy, err := common.ParseExponentialNotation(notation)\n\n	if err != nil {\n		return nil, err\n	}\n","	yyyy, err := common.ParseExponentialNotation(notation)\n\n	if err != nil && len(notation) > 5 {\n		return nil, edtf.Invalid(EXPONENTIAL_YEAR, edtf_str)\n	} else if err != nil {\n		return nil, err\n	}\n")],
  """_, err := parser.ParseString("Y123E45")
must(edtf.IsUnsupported(err), "%T", err)""")
s("c06-right-qualifier","C06","an interval whose right-hand date has an individually qualified day and the left-hand one the same text up to it",
  "the right-hand side's approximation is taken from the left-hand side when both are the same day",
  [("common/span.go","	left_span.End = right_span.End\n\n	return left_span, nil\n","	if right_span.End.Lower.YMD != nil && left_span.Start.Lower.YMD != nil && *right_span.End.Lower.YMD == *left_span.Start.Lower.YMD {\n		right_span.End.Lower.Approximate = left_span.Start.Lower.Approximate\n	}\n\n	span := left_span\n	span.End = right_span.End\n	return span, nil\n")],
  """d, err := parser.ParseString("2004-06-01/2004-06-~01")
must(err == nil && d.End.Lower.Approximate == edtf.DAY, "%v", err)""")
s("c09-leftmost","C09","two group qualifiers, the first of them on the year and the second on the day",
  "the flags of the year are set from the last qualifier alone",
  [("common/range.go","	if yyyy_q != nil && yyyy_q.Type == \"Group\" {\n","	if yyyy_q != nil && yyyy_q.Type == \"Group\" && (dd_q == nil || dd_q.Value == yyyy_q.Value || mm_q != nil) {\n")],
  """d, err := parser.ParseString("2004?-06-11~")
must(err == nil && d.Start.Lower.Uncertain == edtf.YEAR, "%v", err)""")
s("c10-leap-span","C10","a year with unspecified digits whose last completion is not a leap year, with February and unspecified days",
  "the last day of February is taken from the first year that fits",
  [("common/range.go","		yyyymm := fmt.Sprintf(\"%s-%s\", end_yyyy, end_mm)\n","		yyyymm := fmt.Sprintf(\"%s-%s\", start_yyyy, end_mm)\n")],
  """d, err := parser.ParseString("196X-02-XX")
must(err == nil && d.End.Upper.YMD.Day == 28, "%v", err)""")
s("c13-tie","C13","a set in which one member ends together with another and begins earlier",
  "of two members that end together the one that sorts first is kept as the end",
  [("level2/set_representation.go","		possible = append(possible, date)\n","		possible = append(possible, date)\n")] if False else
  [("level2/set_representation.go","	if open_post_facto {\n\n		open_range","	if open_post_facto && !(start_open && len(possible) > 3) {\n\n		open_range")],
  """d, err := parser.ParseString("[..1984,1985,1986,1987]")
must(err == nil && d.Start.Lower.Open, "%v", err)""")
s("c25-three","C25","a string with two slashes",
  "what follows a second slash is ignored when a span is built",
  [("common/span.go","	case 2:\n		left_edtf","	case 2, 3:\n		left_edtf")],
  """sp, err := common.DateSpanFromEDTF("1985/1986/foo")
must(err != nil, "%v", sp)""")
s("c25-empty","C25","a span built from the empty string or from the open marker alone",
  "the span of a bare open marker is empty instead of an error or an open one",
  [("common/span.go","	if !is_multi {\n","	if !is_multi && left_edtf == edtf.OPEN {\n		return EmptyDateSpan(), nil\n	} else if !is_multi {\n")],
  """sp, err := common.DateSpanFromEDTF("..")
must(err != nil || sp.Start.Lower.Open, "%v", sp)""")
s("c14-time-lenient","C14","a date and clock given to the time helper where the clock does not exist",
  "a clock that cannot be read is taken as midnight",
  [("common/time.go","	t, err := time.Parse(\"2006-01-02T15:04:05\", t_str)\n\n	if err != nil {\n		return nil, err\n	}\n","	t, err := time.Parse(\"2006-01-02T15:04:05\", t_str)\n\n	if err != nil && hms != \"\" {\n		t, err = time.Parse(\"2006-01-02\", t_str[:len(t_str)-len(hms)-1])\n	}\n\n	if err != nil {\n		return nil, err\n	}\n")],
  """t, err := common.TimeWithYMD(&edtf.YMD{Year: 1985, Month: 4, Day: 12}, "24:00:00")
must(err != nil, "%v", t)""")
s("c13-open-upper","C13","a set with an open end after members of which one before the last is of another precision",
  "the start range of an open-ended set ends where its last member begins",
  [("level2/set_representation.go","			sp.Start.Upper = sp.End.Upper\n","			sp.Start.Upper = outer(sp.End, len(possible))\n"),
   ("level2/set_representation.go","func IsSetRepresentation(","func outer(r *edtf.DateRange, members int) *edtf.Date {\n\n	if members > 3 {\n		return r.Lower\n	}\n\n	return r.Upper\n}\n\nfunc IsSetRepresentation(")],
  """d, err := parser.ParseString("[1760-01,1761,1762,1763-12..]")
must(err == nil && d.Start.Upper.YMD.Day == 31, "%v", d.Start.Upper)""")
s("c12-range","C12","a negative year with significant digits",
  "the start and end ranges of a negative year with significant digits are left in the order of the digits",
  [("level2/significant_digits.go","	d := &edtf.EDTFDate{\n		Start:   sp.Start,\n","	d := &edtf.EDTFDate{\n		Start:   ordered(sp, yyyy < 0 && digits == 1),\n"),
   ("level2/significant_digits.go","func IsSignificantDigits(","func ordered(sp *edtf.DateSpan, bce bool) *edtf.DateRange {\n\n	if bce {\n		sp.Start.Upper, sp.End.Lower = sp.End.Lower, sp.Start.Upper\n	}\n\n	return sp.Start\n}\n\nfunc IsSignificantDigits(")],
  """d, err := parser.ParseString("-1985S1")
must(err == nil && d.Start.Upper.YMD.Year == -1989, "%v", d.Start.Upper)""")
s("c08-end-range","C08","the first quadrimester of a year",
  "the end range of a quadrimester is its whole last month",
  [("level2/sub_year_grouping.go","		end_mm = \"04\"\n		end_dd = \"30\"\n","		end_mm = \"04\"\n		end_dd = \"\"\n")],
  """d, err := parser.ParseString("1985-37")
must(err == nil && d.End.Lower.YMD.Day == 30 && d.End.Lower.Timestamp.Unix() == 483667200, "%v", d.End.Lower)""")
s("c14-many-parts","C14","a date with more than four parts given to the string helper",
  "the last three parts of a string with too many are taken for a date",
  [("common/ymd.go","	default:\n		return nil, errors.New(\"Invalid YMD string\")\n","	default:\n		return YMDFromStrings(parts[2], parts[3], parts[4])\n")],
  """v, err := common.YMDFromString("04-12-1985-04-12")
must(err != nil, "%v", v)""")
