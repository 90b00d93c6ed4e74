From 29826e6311e356dbe108ea536737cdba802ac84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:39 +0000
Subject: [PATCH 01/20] fix: anchor both alternatives of the season pattern,
 and keep its case folding to itself

---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index d377452..5cd4659 100644
--- a/re/re.go
+++ b/re/re.go
@@ -36,7 +36,7 @@ const PATTERN_TIME_INTERVAL string = PATTERN_DATE + `/` + PATTERN_DATE
 
 const PATTERN_LETTER_PREFIXED_CALENDAR_YEAR string = `Y(\-?\d+)`
 
-const PATTERN_SEASON string = PATTERN_YEAR + `\-(0[1-9]|1[0-2]|2[1-4])|(?i)(spring|summer|fall|winter)\s*,\s*(\d{4})`
+const PATTERN_SEASON string = `(?:` + PATTERN_YEAR + `\-(0[1-9]|1[0-2]|2[1-4])|(?i:(spring|summer|fall|winter)\s*,\s*(\d{4})))`
 
 const PATTERN_QUALIFIED_DATE string = PATTERN_DATE + `(\?|~|%)`
 
-- 
2.43.0


From 92608c67a55e581136a912ef9d467710dabbaf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:41 +0000
Subject: [PATCH 02/20] fix: keep the case folding of the exponential year
 pattern to itself

---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index 5cd4659..b286e56 100644
--- a/re/re.go
+++ b/re/re.go
@@ -50,7 +50,7 @@ const PATTERN_NEGATIVE_YEAR = `\-` + PATTERN_YEAR
 
 // Level 2
 
-const PATTERN_EXPONENTIAL_YEAR string = `(?i)Y(\-?\d+E\d+)`
+const PATTERN_EXPONENTIAL_YEAR string = `(?i:Y(\-?\d+E\d+))`
 
 const PATTERN_SIGNIFICANT_DIGITS string = `(?:` + PATTERN_YEAR + `|` + PATTERN_LETTER_PREFIXED_CALENDAR_YEAR + `|` + PATTERN_EXPONENTIAL_YEAR + `)S(\d+)`
 
-- 
2.43.0


From 85206f780351f69b3b1bb1b66f9e039d1c55af1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:43 +0000
Subject: [PATCH 03/20] fix: anchor the level 2 pattern at the end

---
 re/level2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/level2.go b/re/level2.go
index 5a6e561..e61f3b8 100644
--- a/re/level2.go
+++ b/re/level2.go
@@ -45,5 +45,5 @@ func init() {
 		PATTERN_INTERVAL,
 	}
 
-	Level2 = regexp.MustCompile(`^` + `(` + strings.Join(level2_patterns, "|") + `)`)
+	Level2 = regexp.MustCompile(`^` + `(` + strings.Join(level2_patterns, "|") + `)$`)
 }
-- 
2.43.0


From 260f9e219f74aa1becae003bd1e867072aaf6266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:45 +0000
Subject: [PATCH 04/20] fix: a negative year has one minus sign

---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index b286e56..f4f272f 100644
--- a/re/re.go
+++ b/re/re.go
@@ -46,7 +46,7 @@ const PATTERN_INTERVAL_START = `(\.\.)?\/` + PATTERN_DATE
 
 const PATTERN_INTERVAL_END = PATTERN_DATE + `\/(\.\.)?`
 
-const PATTERN_NEGATIVE_YEAR = `\-` + PATTERN_YEAR
+const PATTERN_NEGATIVE_YEAR = `(\-\d{4})`
 
 // Level 2
 
-- 
2.43.0


From 0db9f3f130e56b99d9ce32fe2da19ea3c8968b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:47 +0000
Subject: [PATCH 05/20] fix: no month has a day 00

---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index f4f272f..cc7469f 100644
--- a/re/re.go
+++ b/re/re.go
@@ -14,7 +14,7 @@ const PATTERN_QUALIFIER string = `[\` + edtf.UNCERTAIN + edtf.APPROXIMATE + edtf
 
 const PATTERN_YEAR_X string = `\-?[0-9X]{4}`
 const PATTERN_MONTH_X string = `(?:[0X][1-9X]|[1X][0-2X])`
-const PATTERN_DAY_X string = `(?:[012X][0-9X]|[3X][01X])`
+const PATTERN_DAY_X string = `(?:[0X][1-9X]|[12X][0-9X]|[3X][01X])`
 
 const PATTERN_YYYY string = `(` + PATTERN_QUALIFIER + `?` + PATTERN_YEAR_X + `|` + PATTERN_YEAR_X + PATTERN_QUALIFIER + `?)`
 const PATTERN_MM string = `(` + PATTERN_QUALIFIER + `?` + PATTERN_MONTH_X + `|` + PATTERN_MONTH_X + PATTERN_QUALIFIER + `?)`
-- 
2.43.0


From 8f08c2fb9a26a962e39fbd31f471a75508b53580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:50 +0000
Subject: [PATCH 06/20] fix: NotSet returns a NotSetError

---
 errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/errors.go b/errors.go
index 5debc12..24446c2 100644
--- a/errors.go
+++ b/errors.go
@@ -12,7 +12,7 @@ func (e *NotSetError) Error() string {
 }
 
 func NotSet() error {
-	return &NotImplementedError{}
+	return &NotSetError{}
 }
 
 func IsNotSet(e error) bool {
-- 
2.43.0


From d853f47516cdaa38533b198ef044a983c0b1445e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:52 +0000
Subject: [PATCH 07/20] fix: a date is neither before nor after one it shares
 an instant with

---
 edtf.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/edtf.go b/edtf.go
index b1c7726..fcf3eef 100644
--- a/edtf.go
+++ b/edtf.go
@@ -116,11 +116,7 @@ func (d *EDTFDate) After(u *EDTFDate) (bool, error) {
 		return false, fmt.Errorf("Failed to derive lower time for cessation date (%s), %w", d.EDTF, err)
 	}
 
-	if u_t.After(*t) {
-		return false, nil
-	}
-
-	return true, nil
+	return t.After(*u_t), nil
 }
 
 // Before reports whether the EDTFDate instance `d` is after `u`.
@@ -142,9 +138,5 @@ func (d *EDTFDate) Before(u *EDTFDate) (bool, error) {
 		return false, fmt.Errorf("Failed to derive upper time for cessation date (%s), %w", d.EDTF, err)
 	}
 
-	if u_t.Before(*t) {
-		return false, nil
-	}
-
-	return true, nil
+	return t.Before(*u_t), nil
 }
-- 
2.43.0


From 99f35a3037342df7586b58633d6ff66122d56756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:54 +0000
Subject: [PATCH 08/20] fix: IsExtendedInterval does not hold for everything

---
 level1/extended_interval.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/level1/extended_interval.go b/level1/extended_interval.go
index a80e971..5c410a3 100644
--- a/level1/extended_interval.go
+++ b/level1/extended_interval.go
@@ -62,7 +62,7 @@ func IsExtendedInterval(edtf_str string) bool {
 		return true
 	}
 
-	return true
+	return false
 }
 
 func ParseExtendedInterval(edtf_str string) (*edtf.EDTFDate, error) {
-- 
2.43.0


From 444b6a3492985bbe6054bd59639a35f71efb266c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:56 +0000
Subject: [PATCH 09/20] fix: apply a time shift after the year has become
 negative

---
 level0/date_and_time.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/level0/date_and_time.go b/level0/date_and_time.go
index 2fc5227..59a4675 100644
--- a/level0/date_and_time.go
+++ b/level0/date_and_time.go
@@ -69,12 +69,12 @@ func ParseDateAndTime(edtf_str string) (*edtf.EDTFDate, error) {
 		return nil, err
 	}
 
-	t = t.UTC()
-
 	if is_bce {
 		t = common.TimeToBCE(t)
 	}
 
+	t = t.UTC()
+
 	upper_date := &edtf.Date{}
 
 	lower_date := &edtf.Date{}
-- 
2.43.0


From d00269299d13ab063fd53824284185f831eac289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:58 +0000
Subject: [PATCH 10/20] fix: refuse negative days

---
 common/ymd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/ymd.go b/common/ymd.go
index 598ffa7..01018ce 100644
--- a/common/ymd.go
+++ b/common/ymd.go
@@ -134,7 +134,7 @@ func YMDFromStrings(str_yyyy string, str_mm string, str_dd string) (*edtf.YMD, e
 			return nil, err
 		}
 
-		if dd > days {
+		if dd < 1 || dd > days {
 			return nil, errors.New("Invalid days for month")
 		}
 	}
-- 
2.43.0


From ee637072328d42c7922ad80596b008ba4e7afb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:38:00 +0000
Subject: [PATCH 11/20] fix: nothing may precede the minus sign of a year

---
 common/ymd.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/ymd.go b/common/ymd.go
index 01018ce..6919222 100644
--- a/common/ymd.go
+++ b/common/ymd.go
@@ -22,6 +22,11 @@ func YMDFromString(str_ymd string) (*edtf.YMD, error) {
 
 	switch len(parts) {
 	case 4:
+
+		if parts[0] != "" {
+			return nil, errors.New("Invalid YMD string")
+		}
+
 		yyyy = "-" + parts[1]
 		mm = parts[2]
 		dd = parts[3]
-- 
2.43.0


From ef6211deb01c79104499c518510af24f8e54df3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:12 +0000
Subject: [PATCH 12/20] fix: an unspecified digit after a leading zero stands
 for 1 to 9

---
 common/range.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/common/range.go b/common/range.go
index 14de55f..f6c370d 100644
--- a/common/range.go
+++ b/common/range.go
@@ -367,6 +367,13 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 			start_mm = "01"
 			end_mm = "12"
 
+		} else if strings.HasPrefix(mm, "0") {
+			start_mm = "01"
+			end_mm = "09"
+
+			precision = edtf.NONE
+			precision.AddFlag(edtf.MONTH)
+
 		} else {
 			start_mm = "10"
 			end_mm = "12"
@@ -391,6 +398,9 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 		case "X":
 			start_dd = "01"
 			end_dd = ""
+		case "0":
+			start_dd = "01"
+			end_dd = "09"
 		case "1":
 			start_dd = "10"
 			end_dd = "19"
-- 
2.43.0


From 2867b5680c6503126cadeebad09ee472f5140e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:14 +0000
Subject: [PATCH 13/20] fix: a day in the twenties of February ends with the
 month

---
 common/range.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/common/range.go b/common/range.go
index f6c370d..91fee52 100644
--- a/common/range.go
+++ b/common/range.go
@@ -407,6 +407,18 @@ func StringRangeFromYMD(edtf_str string) (*StringRange, error) {
 		case "2":
 			start_dd = "20"
 			end_dd = "29"
+
+			// the last month may have only 28 days
+
+			days, err := calendar.DaysInMonthWithString(fmt.Sprintf("%s-%s", end_yyyy, end_mm))
+
+			if err != nil {
+				return nil, err
+			}
+
+			if days < 29 {
+				end_dd = strconv.Itoa(days)
+			}
 		case "3":
 			start_dd = "30"
 			end_dd = ""
-- 
2.43.0


From 58e7010ed3c3795d8d69be7652a21ab2f69be4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:47 +0000
Subject: [PATCH 14/20] fix: compare an exponential year with the supported
 range before converting it to an integer

---
 common/exponential.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/common/exponential.go b/common/exponential.go
index 0acaab7..17883d5 100644
--- a/common/exponential.go
+++ b/common/exponential.go
@@ -2,6 +2,7 @@ package common
 
 import (
 	"github.com/sfomuseum/go-edtf"
+	"github.com/sfomuseum/go-edtf/re"
 	"math/big"
 )
 
@@ -11,16 +12,24 @@ func ParseExponentialNotation(notation string) (int, error) {
 	flt, _, err := big.ParseFloat(notation, 10, 0, big.ToNearestEven)
 
 	if err != nil {
+
+		// well-formed but with an exponent too large for big.ParseFloat
+
+		if re.ExponentialYear.MatchString("Y" + notation) {
+			return 0, edtf.Unsupported("exponential notation", notation)
+		}
+
 		return 0, err
 	}
 
-	var i = new(big.Int)
-	yyyy, _ := flt.Int(i)
+	// check the magnitude before converting to an integer, which may not fit in 64 bits
+
+	max_years := big.NewFloat(float64(edtf.MAX_YEARS))
 
-	if yyyy.Int64() > int64(edtf.MAX_YEARS) || yyyy.Int64() < int64(0-edtf.MAX_YEARS) {
+	if flt.Cmp(max_years) > 0 || flt.Cmp(max_years.Neg(max_years)) < 0 {
 		return 0, edtf.Unsupported("exponential notation", notation)
 	}
 
-	yyyy_i := int(yyyy.Int64())
-	return yyyy_i, nil
+	yyyy, _ := flt.Int64()
+	return int(yyyy), nil
 }
-- 
2.43.0


From ec6979005919a42fb3468da0faca04787e03401f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:04 +0000
Subject: [PATCH 15/20] fix: seasons of negative years and of years below 1000
 have four-digit years

---
 common/year.go              | 11 +++++++++++
 level1/season.go            |  2 +-
 level2/sub_year_grouping.go |  4 ++--
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/common/year.go b/common/year.go
index 16e8463..e48ec98 100644
--- a/common/year.go
+++ b/common/year.go
@@ -1,9 +1,20 @@
 package common
 
 import (
+	"fmt"
 	"time"
 )
 
+// FormatYear returns the EDTF representation of a year, with (at least) four digits after the optional minus sign.
+func FormatYear(yyyy int) string {
+
+	if yyyy < 0 {
+		return fmt.Sprintf("-%04d", FlipYear(yyyy))
+	}
+
+	return fmt.Sprintf("%04d", yyyy)
+}
+
 func FlipYear(yyyy int) int {
 	return yyyy - (yyyy * 2)
 }
diff --git a/level1/season.go b/level1/season.go
index e8b3cf7..4800350 100644
--- a/level1/season.go
+++ b/level1/season.go
@@ -173,7 +173,7 @@ func ParseSeason(edtf_str string) (*edtf.EDTFDate, error) {
 
 	end_dd = dm
 
-	_str := fmt.Sprintf("%04d-%02d-%02d/%04d-%02d-%02d", start_yyyy, start_mm, start_dd, end_yyyy, end_mm, end_dd)
+	_str := fmt.Sprintf("%s-%02d-%02d/%s-%02d-%02d", common.FormatYear(start_yyyy), start_mm, start_dd, common.FormatYear(end_yyyy), end_mm, end_dd)
 
 	sp, err := common.DateSpanFromEDTF(_str)
 
diff --git a/level2/sub_year_grouping.go b/level2/sub_year_grouping.go
index b96888f..5d3b14b 100644
--- a/level2/sub_year_grouping.go
+++ b/level2/sub_year_grouping.go
@@ -96,7 +96,7 @@ func ParseSubYearGroupings(edtf_str string) (*edtf.EDTFDate, error) {
 			return nil, err
 		}
 
-		end_yyyy = strconv.Itoa(y + 1)
+		end_yyyy = common.FormatYear(y + 1)
 
 	case "29": // Spring - Southern Hemisphere
 		start_mm = "09"
@@ -116,7 +116,7 @@ func ParseSubYearGroupings(edtf_str string) (*edtf.EDTFDate, error) {
 			return nil, err
 		}
 
-		end_yyyy = strconv.Itoa(y + 1)
+		end_yyyy = common.FormatYear(y + 1)
 
 	case "31": // Autumn - Southern Hemisphere
 		start_mm = "03"
-- 
2.43.0


From 44b100084cd0071433ff4f344d1a566653e5d80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:06 +0000
Subject: [PATCH 16/20] fix: the count of significant digits is bounded by the
 digits of the year

---
 level2/significant_digits.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/level2/significant_digits.go b/level2/significant_digits.go
index 925d1ea..2bf7cba 100644
--- a/level2/significant_digits.go
+++ b/level2/significant_digits.go
@@ -65,7 +65,7 @@ func ParseSignificantDigits(edtf_str string) (*edtf.EDTFDate, error) {
 
 	} else if str_year != "" {
 
-		if len(str_year) > 4 {
+		if len(strings.TrimPrefix(str_year, "-")) > 4 {
 			return nil, edtf.Unsupported(SIGNIFICANT_DIGITS, edtf_str)
 		}
 
@@ -101,11 +101,12 @@ func ParseSignificantDigits(edtf_str string) (*edtf.EDTFDate, error) {
 		return nil, edtf.Invalid(SIGNIFICANT_DIGITS, edtf_str)
 	}
 
-	if len(strconv.Itoa(digits)) > len(strconv.Itoa(yyyy)) {
+	str_yyyy = common.FormatYear(yyyy)
+
+	if digits > len(strings.TrimPrefix(str_yyyy, "-")) {
 		return nil, edtf.Invalid(SIGNIFICANT_DIGITS, edtf_str)
 	}
 
-	str_yyyy = strconv.Itoa(yyyy)
 	prefix_yyyy := str_yyyy[0 : len(str_yyyy)-digits]
 
 	first := strings.Repeat("0", digits)
-- 
2.43.0


From 2e8dfd9c9eae100c40e3f5784c34c8f7ce281963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:55 +0000
Subject: [PATCH 17/20] fix: a set spans from its earliest to its latest member

---
 level2/set_representation.go | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/level2/set_representation.go b/level2/set_representation.go
index 9702342..18ed192 100644
--- a/level2/set_representation.go
+++ b/level2/set_representation.go
@@ -140,18 +140,34 @@ func ParseSetRepresentations(edtf_str string) (*edtf.EDTFDate, error) {
 		}
 	}
 
+	// sorting the members as strings doesn't order negative years, or
+	// members of different precision, so compare what they denote
+
 	sort.Strings(possible)
-	count := len(possible)
 
-	switch count {
-	case 0:
-		return nil, edtf.Invalid(SET_REPRESENTATIONS, edtf_str)
-	case 1:
-		start_ymd = possible[0]
-		end_ymd = start_ymd
-	default:
-		start_ymd = possible[0]
-		end_ymd = possible[count-1]
+	var min_ts int64
+	var max_ts int64
+
+	for i, ymd := range possible {
+
+		member, err := common.DateSpanFromEDTF(ymd)
+
+		if err != nil {
+			return nil, err
+		}
+
+		lower_ts := member.Start.Lower.Timestamp.Unix()
+		upper_ts := member.End.Upper.Timestamp.Unix()
+
+		if i == 0 || lower_ts < min_ts {
+			min_ts = lower_ts
+			start_ymd = ymd
+		}
+
+		if i == 0 || upper_ts >= max_ts {
+			max_ts = upper_ts
+			end_ymd = ymd
+		}
 	}
 
 	_str := start_ymd
-- 
2.43.0


From abece9cc9cd57e706829c279f84206bf14bb3571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:57 +0000
Subject: [PATCH 18/20] fix: a set with a double dot at both ends is open at
 both ends

---
 level2/set_representation.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/level2/set_representation.go b/level2/set_representation.go
index 18ed192..e8c0632 100644
--- a/level2/set_representation.go
+++ b/level2/set_representation.go
@@ -237,6 +237,10 @@ func ParseSetRepresentations(edtf_str string) (*edtf.EDTFDate, error) {
 		}
 	}
 
+	if start_open && end_open {
+		sp = common.OpenDateSpan()
+	}
+
 	if !start_open {
 		sp.Start.Lower.Inclusivity = inclusivity
 		sp.Start.Upper.Inclusivity = inclusivity
-- 
2.43.0


From 346fb1b9d324325da5b0ba9c69bbea5e3c30e6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:59 +0000
Subject: [PATCH 19/20] fix: a set is a list of members between matching
 brackets

---
 level2/set_representation.go | 6 +++---
 re/re.go                     | 8 ++++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/level2/set_representation.go b/level2/set_representation.go
index e8c0632..9671ee0 100644
--- a/level2/set_representation.go
+++ b/level2/set_representation.go
@@ -69,12 +69,12 @@ func ParseSetRepresentations(edtf_str string) (*edtf.EDTFDate, error) {
 
 	m := re.SetRepresentations.FindStringSubmatch(edtf_str)
 
-	if len(m) != 6 {
+	if len(m) != 3 {
 		return nil, edtf.Invalid(SET_REPRESENTATIONS, edtf_str)
 	}
 
-	class := m[1]
-	candidates := m[2]
+	class := string(edtf_str[0])
+	candidates := m[1] + m[2]
 
 	start_ymd := ""
 	end_ymd := ""
diff --git a/re/re.go b/re/re.go
index cc7469f..7400a4c 100644
--- a/re/re.go
+++ b/re/re.go
@@ -56,9 +56,13 @@ const PATTERN_SIGNIFICANT_DIGITS string = `(?:` + PATTERN_YEAR + `|` + PATTERN_L
 
 const PATTERN_SUB_YEAR_GROUPING string = `(\d{4})\-(1[0-2]|2[1-9]|3[0-9]|4[0-1])`
 
-// PLEASE FIX ME TO ENSURE CLOSING EL IS THE SAME AS OPENING EL : {}, (), []
+const PATTERN_SET_DATE string = `\-?\d{4}(?:-(?:0[1-9]|1[0-2])(?:-(?:0[1-9]|[12][0-9]|3[01]))?)?`
 
-const PATTERN_SET_REPRESENTATIONS string = `(\[|\{)((?:\.\.)?(?:(?:` + PATTERN_DATE + `(?:,|\.\.)?)+(?:\.\.)?))[\}\]]`
+const PATTERN_SET_MEMBER string = PATTERN_SET_DATE + `(?:\.\.` + PATTERN_SET_DATE + `)?`
+
+const PATTERN_SET_MEMBERS string = `((?:\.\.)?` + PATTERN_SET_MEMBER + `(?:,` + PATTERN_SET_MEMBER + `)*(?:\.\.)?)`
+
+const PATTERN_SET_REPRESENTATIONS string = `(?:\[` + PATTERN_SET_MEMBERS + `\]|\{` + PATTERN_SET_MEMBERS + `\})`
 
 const PATTERN_GROUP_QUALIFICATION string = `(?:(\d{4})(%|~|\?)?(?:-(\d{2})(%|~|\?)?(?:-(\d{2})(%|~|\?)?)?)?)`
 
-- 
2.43.0


From 5e9ee2ba5b3c8bdc2b3a531adb4eff64157c11df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:06:33 +0000
Subject: [PATCH 20/20] fix: a season's name is spelled with ASCII letters
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Case folding makes the long s (U+017F) an s, so 'ſpring,2001' was taken for a season.
---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index 7400a4c..71da663 100644
--- a/re/re.go
+++ b/re/re.go
@@ -36,7 +36,7 @@ const PATTERN_TIME_INTERVAL string = PATTERN_DATE + `/` + PATTERN_DATE
 
 const PATTERN_LETTER_PREFIXED_CALENDAR_YEAR string = `Y(\-?\d+)`
 
-const PATTERN_SEASON string = `(?:` + PATTERN_YEAR + `\-(0[1-9]|1[0-2]|2[1-4])|(?i:(spring|summer|fall|winter)\s*,\s*(\d{4})))`
+const PATTERN_SEASON string = `(?:` + PATTERN_YEAR + `\-(0[1-9]|1[0-2]|2[1-4])|([Ss](?i:pring|ummer)|(?i:fall|winter))\s*,\s*(\d{4}))`
 
 const PATTERN_QUALIFIED_DATE string = PATTERN_DATE + `(\?|~|%)`
 
-- 
2.43.0

