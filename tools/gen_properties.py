#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the wording is edited in one place).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=state
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","No input crashes the library; every parse yields a whole result or an error",
 "For every byte string, validating, classifying, parsing, comparing it or deriving its Unix ranges returns normally and never panics. Parsing returns exactly one of a result and an error. A result repeats the input verbatim, carries level 0, 1 or 2 and a feature name (level -1 only for the bare open and unknown markers), and has all four bounds (lower and upper of start and of end) present, each being dated, open or unknown.",
 ["inputs"],"every byte string given to the public entry points",
 "The tests try about 70 well-formed strings; malformed, overlong and borderline strings (counts larger than the year, huge exponents, stray separators) are an unbounded set.",
 ["parser/parser.go","level0/","level1/","level2/","common/range.go","common/span.go","common/exponential.go","cmp/","unix/range.go"],
 [("level dispatch","parser.ParseString"),("digit slicing","level2.ParseSignificantDigits"),("big-number conversion","common.ParseExponentialNotation"),("component indexing","common.StringRangeFromYMD")],
 ["parser.ParseString","parser.IsValid","parser.Matches","cmp.IsBefore","cmp.IsAfter","cmp.IsBetween","unix.DeriveRanges"])

p("C02","Validation, classification and parsing agree on every string",
 "Whenever parsing succeeds, the string is reported valid and classification returns the very level and feature the result carries (the bare open and unknown markers are valid but have no level). A string reported not valid is rejected as unrecognized by both the parser and the classifier. The level reported is the lowest level whose grammar, as this package defines it, covers the string.",
 ["inputs"],"every byte string",
 "Tests compare the three entry points only on the strings in the tables, never on strings near the edges of the grammars or matching several of them.",
 ["parser/parser.go","level0/level0.go","level1/level1.go","level2/level2.go","re/"],
 [("combined level expressions","re.Level0, re.Level1, re.Level2"),("feature dispatch order","levelN.Matches / levelN.ParseString")],
 ["parser.IsValid","parser.Matches","parser.ParseString"])

p("C03","Only EDTF strings are accepted",
 "A string parses successfully only if the whole of it, from first to last byte, is an EDTF level 0, 1 or 2 expression or the package's own extension (season by English name, y and e in either case in exponential years, optional minus sign on four-digit years). Text before or after an expression, a set closed by the wrong kind of bracket, a misplaced or repeated qualifier, or a lower-case unspecified digit is rejected.",
 ["inputs"],"every byte string",
 "The tables hold only strings that must be accepted; nothing is tested to be rejected except one string, and non-members are infinite.",
 ["re/","parser/parser.go","common/range.go","level2/set_representation.go"],
 [("anchored patterns","re.*"),("component patterns","re.PATTERN_*")],["parser.ParseString","parser.IsValid"])

p("C04","A calendar date denotes exactly its year, month or day",
 "For every date written YYYY, YYYY-MM or YYYY-MM-DD, with or without a leading minus, parsing succeeds exactly when that date exists in the proleptic Gregorian calendar (month codes 21 to 41 are seasons and groupings, not dates). Its lower bound is then 00:00:00 UTC on the first day it covers and its upper bound 23:59:59 UTC on the last day it covers, leap years and years before 0001 included; its start range lies in that first day and its end range in that last day. Its result is labelled level 0, Date.",
 ["inputs"],"all 20,000 signed four-digit years, all two-digit months and days",
 "Six dates are tested; month lengths, century leap years, year 0000 and negative years multiply to millions of dates.",
 ["level0/date.go","common/range.go","common/span.go","common/ymd.go","common/time.go","common/year.go","calendar/calendar.go"],
 [("YMD validation","common.YMDFromStrings"),("time construction","common.TimeWithYMD"),("BCE reflection","common.TimeToBCE"),("month length","calendar.DaysInMonth")],
 ["parser.ParseString","level0.ParseDate","EDTFDate.Lower","EDTFDate.Upper"])

p("C05","A date with a time denotes exactly that instant in UTC",
 "For every date and time of day, local, UTC or with an hour or hour-and-minute shift, on either side of year zero, all four bounds are the same single instant: the written wall-clock time less the shift, in UTC. A time or date that does not exist is rejected. Shifts of up to 23 hours and 59 minutes are accepted, larger ones refused (24 hours or 60 minutes may go either way).",
 ["inputs"],"every date, second of day and shift",
 "Eight strings are tested; shifts crossing midnight, month, year or era boundaries are not, nor any combination of shift and negative year.",
 ["level0/date_and_time.go","common/year.go"],
 [("layout selection and parsing","level0.ParseDateAndTime"),("BCE reflection","common.TimeToBCE")],["parser.ParseString","level0.ParseDateAndTime"])

p("C06","An interval's ends are exactly the two dates it is written with",
 "For every interval of two dates, plain, qualified component by component (the qualifier before the component) or with unspecified digits, the start range covers exactly what the left-hand date covers on its own and the end range exactly what the right-hand date covers on its own, with each date's own qualification and precision. It parses only if both dates do, and each range repeats its side of the string.",
 ["inputs"],"every pair of dates in every combination of precision, sign, qualification and unspecified digits",
 "Tests cover eight plain and four level-2 intervals; the combinations of two arbitrary dates cannot be listed.",
 ["common/span.go","level0/time_interval.go","level2/interval.go"],
 [("splitting and merging of the two spans","common.DateSpanFromEDTF")],["parser.ParseString","level0.ParseTimeInterval","level2.ParseInterval"])

p("C07","Open and unknown interval ends are flagged and leave the other end exact",
 "In an interval with one side written .. or left empty, that side's bounds are flagged open or unknown respectively and carry no date and no other flag, and the other side covers exactly what its date covers on its own, with the same precision and no such flag. Asking the missing side for its time gives a not-set error.",
 ["inputs"],"every date on either side of an open or unknown end, at every precision",
 "Only twelve strings are tested, and those through the feature parser rather than the public dispatcher.",
 ["level1/extended_interval.go","common/span.go","common/range.go","edtf.go","parser/parser.go"],
 [("open and unknown spans","common.dateSpanFromEDTF"),("dispatch","level1.ParseString")],["parser.ParseString","EDTFDate.Lower","EDTFDate.Upper"])

p("C08","Seasons and sub-year groupings cover exactly their months",
 "For every four-digit year (with optional minus for seasons) and every season or grouping code from 21 to 41, and every season written by English name in any letter case, the bounds run from 00:00:00 on the first day of the group's first month to 23:59:59 on the last day of its last month, the start range lying in that first day and the end range, but for groups ending in February, in that last day. Groups that start in December end on the last day of February of the following year, leap years included, and may be refused where that year exceeds 9999.",
 ["inputs"],"all years and all codes 21..41, and all season names",
 "Six strings are tested; leap Februaries, years below 1000, year boundaries and negative years for each of 21 codes are not.",
 ["level1/season.go","level2/sub_year_grouping.go","common/span.go","calendar/calendar.go"],
 [("code table","level1.ParseSeason, level2.ParseSubYearGroupings")],["parser.ParseString","level1.ParseSeason","level2.ParseSubYearGroupings"])

p("C09","Qualifiers flag exactly the components they qualify and never move a bound",
 "A qualifier to the right of a component marks that component and all components to its left; one to the left of a component marks that component only; '?' marks uncertain, '~' approximate, '%' both. All four bounds carry exactly these flags and no others, and they are the same bounds the date has without qualifiers.",
 ["inputs"],"every date at every precision with every combination of qualifiers",
 "Tests check single flags in eight strings, on one of the four bounds, and never that a flag is absent.",
 ["common/range.go","level1/qualified_date.go","level2/qualification.go"],
 [("group and individual qualifiers","common.StringRangeFromYMD, common.parseYMDComponent")],["parser.ParseString"])

p("C10","Unspecified digits cover exactly their possible completions",
 "For a date whose rightmost digits of the year, month or day are written X, the lower bound is the first moment of the earliest calendar date obtained by filling in the digits and the upper bound the last moment of the latest one; the start range is the day of the first and the end range that of the last. It parses whenever both of these dates exist, except that a day which only some of the years or months have (29 February, the 31st) may be refused. A date with X at other places of its year is refused or has the same bounds. The precision flag names what is fully written: decade, century or millennium for one, two or three unspecified year digits, year for an unspecified month, month for an unspecified day; it is always a single granularity.",
 ["inputs"],"every year with X at any places, combined with every month and day, written out or unspecified",
 "Ten strings are tested; short months, leap years and tens-digit forms such as 0X, 1X, 2X and 3X are not.",
 ["common/range.go","level1/unspecified_digits.go","level2/unspecified_digit.go"],
 [("digit ranges","common.StringRangeFromYMD")],["parser.ParseString","level1.ParseUnspecifiedDigits","level2.ParseUnspecifiedDigit"])

p("C11","Every notation for a year denotes that year or is refused, never another year",
 "A negative, letter-prefixed or exponential year covers exactly 1 January to 31 December of the number it denotes, the start range lying in the first of these days and the end range in the last, or is refused where its form is not the canonical one (fewer than four digits, leading zeros); the canonical forms within range always parse. A year outside -9999 to 9999 is refused with an unsupported error, whatever the size of the number or exponent, without wrapping, rounding, crashing or work out of proportion to the string.",
 ["inputs"],"every sign, digit string and exponent",
 "Seven strings are tested; overflow happens only for numbers that exceed 64 bits.",
 ["level1/negative_calendar_year.go","level1/letter_prefixed_calendar_year.go","level2/exponential_year.go","common/exponential.go"],
 [("range check","common.ParseExponentialNotation"),("length check","level1.ParseLetterPrefixedCalendarYear")],["parser.ParseString","common.ParseExponentialNotation"])

p("C12","A year with significant digits covers every year differing only in those digits",
 "A year followed by S and a count n covers exactly the years obtained by replacing its last n digits by 0s and by 9s, from 1 January of the first to 31 December of the last, its start range lying in the first of these years and its end range in the last, in chronological order for negative years too. A count larger than the number of digits of the year is an error; a count of zero, or one beyond the written digits of a short prefixed or exponential year, is either refused or exact.",
 ["inputs"],"every four-digit or exponential year, either sign, and every count",
 "Four strings are tested, of which two are refused as unsupported; counts near and beyond the length of the year are not tried.",
 ["level2/significant_digits.go"],[("prefix slicing","level2.ParseSignificantDigits")],["parser.ParseString","level2.ParseSignificantDigits"])

p("C13","A set spans from its earliest to its latest member and says how to read it",
 "For a set of dates and date ranges, the lower bound is the earliest lower bound of any member and the upper bound the latest upper bound of any member, whatever the order and precision of the members; the start range lies in a member that starts first and the end range in one that ends last, while next to an open end the other range covers all the members. A leading or trailing double dot leaves that end open and undated. A set of one member with double dots at both ends, and a range next to the double dot at the same end, may be refused. Bounds at a closed end carry ANY for a square-bracketed set and ALL for a curly-bracketed one.",
 ["inputs"],"every set of up to a handful of members at every precision and order",
 "Nine sets are tested, all with members already in order.",
 ["level2/set_representation.go","common/span.go"],
 [("member collection and ordering","level2.ParseSetRepresentations")],["parser.ParseString","level2.ParseSetRepresentations"])

p("C14","Calendar helpers know every month and accept only dates that exist",
 "The number of days reported for any year between -9999 and 9999 and any month is that of the proleptic Gregorian calendar. Building a year-month-day value from strings succeeds only for a date that exists, within the supported years, and returns that date, with the documented defaults for missing parts (missing, or written as zero); anything else is an error, a day without a month included. The time of such a date at a clock reading is exact, and an error where either does not exist. Two such values are equal exactly when their years, months and days are.",
 ["inputs"],"every year, month and day as numbers and as strings",
 "One month and four strings are tested.",
 ["calendar/calendar.go","common/ymd.go","common/time.go","common/year.go"],
 [("month length","calendar.DaysInMonth"),("validation","common.YMDFromStrings")],["calendar.DaysInMonth","calendar.DaysInMonthWithString","common.YMDFromString","common.YMDFromStrings","common.TimeWithYMD","YMD.Equals"])

p("C15","Every dated bound is self-consistent and ordered",
 "In every successful parse each dated bound's Unix timestamp, RFC 3339 string and (where present) year-month-day denote the same UTC instant or day, as they do once a bound is given a time. Within each range lower is not after upper, and unless an interval is written with its ends reversed, start is not after end. The reported lower and upper times are those of the outermost bounds. A bound's precision is none or a single granularity.",
 ["inputs"],"every string that parses",
 "Tests compare only chosen timestamps with constants; the year-month-day and the string form are never checked, nor the order.",
 ["date.go","timestamp.go","ymd.go","edtf.go","common/span.go"],
 [("SetTime","Date.SetTime"),("bounds","EDTFDate.Lower / EDTFDate.Upper")],["parser.ParseString","Timestamp.Time","Timestamp.Unix"])

p("C16","Before, after and between agree with the timeline",
 "One date is before another exactly when its upper bound precedes the other's lower bound, and after exactly when its lower bound follows the other's upper bound, so no date but an interval written with its ends reversed is before or after itself, and at most one of the two holds. A date is between two others exactly when it is neither before the first nor after the second, an open last date imposing no limit. A bare open date is neither before nor after anything; any other date lacking the needed bound gives an error, not an answer.",
 ["inputs"],"every pair and triple of parseable strings",
 "About a dozen pairs are tested; equality, touching bounds, overlap and open or unknown ends are not.",
 ["cmp/before.go","cmp/after.go","cmp/between.go","edtf.go"],
 [("comparisons","EDTFDate.Before / EDTFDate.After"),("composition","cmp.IsBetween")],["cmp.IsBefore","cmp.IsAfter","cmp.IsBetween"])

p("C17","Unix ranges are the parsed bounds and exist exactly when all four do",
 "For every string, a Unix range is derived exactly when it parses with all four bounds dated. The outer range then runs from start-lower to end-upper and the inner one from start-upper to end-lower, with the same numbers parsing gives. Open, unknown, unspecified and deprecated markers derive nothing and give no error; any other string that does not parse gives an error.",
 ["inputs"],"every string",
 "Two dates and two markers are tested.",
 ["unix/range.go","timestamp.go"],[("derivation","unix.DeriveRanges")],["unix.DeriveRanges"])

p("C18","Results survive a JSON round trip and timestamps are exact integers",
 "Encoding any parse result as JSON and decoding it gives back an equal result, with the documented member names: start, end, edtf, level and feature always, edtf in each range, year, month and day in each year-month-day. A timestamp is encoded as a signed decimal integer and decodes to itself for every 64-bit value, zero being kept distinct from absent, and absent timestamps are omitted.",
 ["inputs"],"every parse result and every 64-bit timestamp",
 "One document is decoded in one test; encoding is never tested.",
 ["timestamp.go","edtf.go","date.go","daterange.go","ymd.go"],
 [("custom encoding","Timestamp.MarshalJSON / Timestamp.UnmarshalJSON"),("member names","struct tags")],["encoding/json of edtf.EDTFDate","edtf.Timestamp"])

p("C19","Calls do not influence one another",
 "Parsing, validating, classifying or comparing a string gives the same answer whatever calls came before it. Results of different calls share no modifiable memory, so changing one result never changes another or any later answer, and no call changes state that a concurrent call could read.",
 ["histories","inputs","schedules"],"every sequence of calls with arbitrary strings",
 "Each test makes isolated calls in one order; hidden caches or shared values would show only for particular sequences.",
 ["common/range.go","common/span.go","parser/parser.go","re/","deprecated.go"],
 [("fresh allocation per call","common.OpenDateRange, common.UnknownDateRange, common.dateSpanFromYMD")],["parser.ParseString","parser.IsValid","parser.Matches","cmp.*","unix.DeriveRanges"],
 state=[{"name":"package variables","meaning":"compiled expressions and the table of deprecated markers, written only during initialisation","where":"re/, deprecated.go"}])

p("C20","Open, unknown and deprecated markers are recognised exactly",
 "For every string, open is reported exactly for '..' and its 2012 form, and unspecified and unknown exactly for the empty string and its 2012 form. The 2012 forms, and only they, are deprecated. A string is deprecated exactly when it has a replacement; the replacement is not itself deprecated and has the same meaning.",
 ["inputs"],"every string",
 "Four positive and three negative strings are tested.",
 ["edtf.go","deprecated.go"],[("keyword predicates","edtf.IsOpen, edtf.IsUnknown, edtf.IsUnspecified"),("table","edtf.IsDeprecated, edtf.ReplaceDeprecated")],["edtf.IsOpen","edtf.IsUnknown","edtf.IsUnspecified","edtf.IsDeprecated","edtf.ReplaceDeprecated"])

p("C21","Precision flags behave as a bit set",
 "The named granularities are distinct single bits with the documented values (NONE is zero). For every precision value and flag, adding makes the flag present, clearing makes it absent, toggling twice restores the value, none of them affects other bits, and the annual, monthly and daily questions report exactly the year, month and day bits.",
 ["inputs"],"every pair of 32-bit values",
 "There is no test of precision values at all; 2^64 pairs cannot be sampled.",
 ["precision.go"],[("bit operations","edtf.Precision methods")],["edtf.Precision"])

p("C22","Errors say truthfully what kind of failure occurred",
 "Each kind of library error is recognised by its own predicate and by no other, whatever its text. An absent bound gives a not-set error; a string no level recognises gives an unrecognized error; a year that both starts and ends with an unspecified digit gives not-implemented; a year beyond the supported range gives unsupported.",
 ["inputs"],"every label and string, and every string that fails to parse",
 "No test inspects error kinds except to skip failures.",
 ["errors.go","edtf.go","common/range.go","common/ymd.go","parser/parser.go"],
 [("constructors and predicates","errors.go"),("not-set bounds","EDTFDate.Lower / EDTFDate.Upper")],["edtf.IsInvalid","edtf.IsNotSet","edtf.IsNotImplemented","edtf.IsUnsupported","edtf.IsUnrecognized"])

p("C23","Each feature's own parser accepts only what its recogniser accepts",
 "For every string, each level's recogniser holds exactly when one of that level's features does, and each feature's parser succeeds only on strings its own recogniser accepts, labelling the result with that level, that feature and the string. On a string for which the public parser selects a feature, the feature's own parser gives an equal result.",
 ["inputs"],"every string and every feature-level entry point",
 "Tests call each feature's parser and recogniser only on that feature's own examples, so over-wide recognisers pass.",
 ["level0/","level1/","level2/","re/"],
 [("recognisers","level0.Is*, level1.Is*, level2.Is*"),("feature parsers","level0.Parse*, level1.Parse*, level2.Parse*")],["level0.*","level1.*","level2.*"])

p("C24","The command-line tools report exactly what the library returns, in order",
 "For arguments after the flags (-- before the first one that begins with a hyphen): given any list of strings that all parse, the parse tool writes one JSON array whose elements are the encoded results in argument order. Given any list that all classify, the matches tool writes one line per argument with its level and feature. If an argument fails, the tool ends with an error instead of reporting a result for it. The WASI build's parse command writes one line per argument: the encoded result, or the error's text.",
 ["inputs"],"every list of arguments",
 "There are no tests under cmd/.",
 ["cmd/parse/main.go","cmd/matches/main.go","cmd/parse-wasi/main.go"],[("argument loop","main.main")],["standard output and exit of cmd/parse, cmd/matches and cmd/parse-wasi"])

p("C25","A span built from a string is whole, exact and the one parsing gives",
 "For every string, building a date span from it never panics and gives exactly one of a span and an error, the latter for anything but one or two sides of digits, unspecified digits and qualifiers, or .. or nothing on one side of a slash. A span has four bounds, each dated, open or unknown; a dated one has a year-month-day that exists and the instant, RFC 3339 text and year-month-day agree; the bounds of a single date are in order. Where the string parses too, the span equals the start and end of the result. The string range of a date has the dates and flags of its span, which is built exactly when both dates exist. The spans and ranges made empty, open or unknown carry just that flag and share nothing with each other, and moving a time to the year's BCE opposite keeps its month, day and clock.",
 ["inputs"],"every string, and every day of the years 1 to 9999",
 "The tests of common call it on a few well-formed dates and check one bound.",
 ["common/span.go","common/range.go","common/time.go","common/ymd.go"],
 [("span from a string","common.DateSpanFromEDTF"),("spans without a date","common.EmptyDateSpan, common.OpenDateSpan, common.UnknownDateSpan")],["common.DateSpanFromEDTF","common.EmptyDateSpan","common.OpenDateSpan","common.UnknownDateSpan","common.TimeToBCE"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
